//! Cases from byte strings: 12 bytes of parameters, then the content. Used by the coverage-guided search and by
//! the builds that are too slow for the sweeps.

use crate::api::*;
use crate::case::Case;
use crate::codec as k;
use crate::drive;
use crate::gen;
use crate::model;
use crate::props::{HIST, LEN, LENTEXT, META};
use crate::rng::Rng;

pub const HEAD: usize = 12;

/// What the cases of a property can be.
pub struct Space {
    pub prop: u32,
    pub fams: Vec<u32>,
    pub ids: Vec<u32>,
}

impl Space {
    pub fn of(prop: u32) -> Self {
        let fams = families(prop).iter().copied().filter(|&f| f > SWAP || available(f)).collect();
        Space { prop, fams, ids: ids(prop) }
    }
}

pub fn families(prop: u32) -> &'static [u32] {
    match prop {
        1 | 5 | 7 => &[ENC],
        2 | 6 | 8 => &[DEC],
        3 => &[FORG],
        9 => &[UPARSE],
        10 => &[UFMT],
        11 => &[ASCII],
        12 => &[UTF32],
        13 => &[SWAP],
        18 => &[ENC, DEC, FORG, SWAP, UFMT, LEN, LENTEXT],
        19 => &[DEC, FORG],
        20 => &[HIST],
        24 => &[META],
        16 | 17 | 21 => &[ENC, DEC, FORG, UPARSE, UFMT, ASCII, UTF32, SWAP],
        22 => &[ENC, DEC, FORG, UPARSE, UFMT, ASCII, UTF32, SWAP, LEN, LENTEXT],
        p => panic!("harness: property {p} is not fuzzed"),
    }
}

pub fn ids(prop: u32) -> Vec<u32> {
    match prop {
        1 | 2 | 3 => (0..4).collect(),
        5 | 6 => (4..8).collect(),
        7 | 8 => vec![8, 9],
        _ => {
            let v = k::codecs();
            if v.is_empty() { vec![0] } else { v }
        }
    }
}

/// The case that the bytes stand for.
pub fn decode(s: &Space, d: &[u8]) -> Option<Case> {
    if d.len() < HEAD {
        return None;
    }
    let (h, body) = d.split_at(HEAD);
    let prop = s.prop;
    let mut c = Case::new(s.fams[h[0] as usize % s.fams.len()]);
    c.a = body.to_vec();
    c.p[2] = h[3] as u32 % 66;
    c.p[3] = h[4] as u32 % 66;
    c.p[5] = h[6] as u32;
    let id = s.ids[h[1] as usize % s.ids.len()];
    let free = matches!(prop, 16 | 18 | 21 | 22);
    match c.fam {
        ENC | DEC => {
            c.p[0] = id;
            c.p[1] = h[2] as u32 % 10;
            let f = if c.fam == ENC { k::enc_form(id, c.p[1]) } else { k::dec_form(id, c.p[1]) };
            c.p[1] = f;
            let tight = free && (c.fam == ENC && (f == k::ENC_SLICE || f == k::ENC_STR) || c.fam == DEC && f == k::DEC_SLICE);
            c.p[4] = if tight { h[5] as i8 as i32 as u32 } else { (h[5] & 63) as u32 };
            let append = c.fam == ENC && (f == k::ENC_APPEND_VEC || f == k::ENC_APPEND_STRING) || c.fam == DEC && f == k::DEC_APPEND;
            if append {
                c.b = (0..h[7] % 24).map(|i| 0x20 + h[8].wrapping_add(i) % 0x5F).collect();
            }
        }
        FORG => {
            c.p[1] = h[2] as u32 % if cfg!(feature = "alloc") { 3 } else { 2 };
            c.p[4] = if free && c.p[1] == 0 { h[5] as i8 as i32 as u32 } else { 0 };
        }
        UPARSE => {
            c.p[0] = h[1] as u32 % 3;
            c.p[1] = h[2] as u32 % 2;
        }
        UFMT => {
            c.p[0] = h[1] as u32 % 4;
            c.p[1] = (h[2] as u32 | (h[3] as u32) << 8) % UFMT_FORMS;
            c.a.resize(16, h[7]);
        }
        ASCII => c.p[0] = h[1] as u32 % 2,
        UTF32 => c.a.truncate(c.a.len() / 4 * 4),
        SWAP => {
            c.p[0] = h[1] as u32 % 2;
            c.p[1] = h[2] as u32 % 2;
            let w = if c.p[0] == 0 { 2 } else { 4 };
            c.a.truncate(c.a.len() / w * w);
            c.p[4] = if free || prop == 13 { h[5] as i8 as i32 as u32 } else { 0 };
            if c.p[1] == 1 {
                c.p[4] = 0;
            }
        }
        LEN => {
            c.p = [id, 0, 0, 0, u32::from_le_bytes(h[4..8].try_into().unwrap()), u32::from_le_bytes(h[8..12].try_into().unwrap())];
            c.a.clear();
        }
        LENTEXT => c.p = [id, 0, 0, 0, 0, 0],
        HIST => {
            c.a.truncate(c.a.len().min(320) / 8 * 8);
            c.p = [h[1] as u32, h[2] as u32, 0, 0, 0, 0];
        }
        META => {
            c.p = [id, h[2] as u32 % 6, u16::from_le_bytes([h[3], h[4]]) as u32, h[5] as u32 % 10, 0, h[6] as u32 % 10];
            if c.p[1] >= 4 {
                c.p[3] = h[5] as u32 % 66;
            }
        }
        _ => return None,
    }
    Some(c)
}

/// A fresh content from the structured generators.
pub fn fresh(r: &mut Rng, s: &Space, head: &[u8], max: usize) -> Vec<u8> {
    let mut a = Vec::new();
    let fam = s.fams[head[0] as usize % s.fams.len()];
    let id = s.ids[head[1] as usize % s.ids.len()];
    match fam {
        DEC | LENTEXT => gen::text(r, &model::code(id), max / 2, &mut a),
        META if head[2] % 2 == 1 => gen::text(r, &model::code(id), max / 2, &mut a),
        FORG => {
            let id = 2 * r.below(2) as u32;
            gen::text(r, &model::code(id), max / 2, &mut a);
            gen::add_whitespace(r, &mut a);
        }
        UPARSE => {
            let f = r.below(4);
            drive::uuid_text(r, f, &mut a);
            if r.chance(1, 2) {
                gen::mutate(r, &model::code(8), &mut a);
            }
        }
        ASCII => {
            let n = gen::length(r, max);
            gen::bytes(r, n, &mut a);
            a.iter_mut().for_each(|b| *b &= 0x7F);
            if n > 0 && r.chance(1, 2) {
                for _ in 0..r.range(1, 2) {
                    a[r.below(n)] |= 0x80;
                }
            }
        }
        UTF32 => {
            let n = gen::length(r, max / 4);
            a.resize(4 * n, 0);
            for i in 0..n {
                let v = drive::scalar(r);
                drive::put32(&mut a, i, v);
            }
            if n > 0 && r.chance(1, 2) {
                for _ in 0..r.range(1, 2) {
                    let v = drive::non_scalar(r);
                    drive::put32(&mut a, r.below(n), v);
                }
            }
        }
        _ => {
            let n = gen::length(r, max);
            gen::bytes(r, n, &mut a);
        }
    }
    a.truncate(max);
    a
}
