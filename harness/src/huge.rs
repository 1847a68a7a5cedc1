//! Inputs beyond 2^31 and 2^32 bytes, where a length kept in 32 bits goes wrong.
//!
//! Case: fam HUGE, p = [op, codec, MiB, bytes on top, position of a wrong element, destination].
//! The size p[2] MiB + p[3] counts the decoded data (elements for UTF-32 and swaps). Sources repeat one period of
//! data, mapped again and again; results must repeat the encoded or decoded period.

use crate::case::Case;
use crate::codec as k;
use crate::mem::sys::{self, *};
use crate::model;
use crate::props::{Info, Res};
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const HUGE: u32 = 50;
pub const OP_NAMES: [&str; 13] = [
    "encode", "decode", "decode_inplace", "check", "forgiving_decode", "forgiving_decode_inplace", "is_ascii", "is_utf32le", "u16 swap in place",
    "u32 swap out of place", "par_encode", "encode_to_string", "decode_to_vec",
];
const PERIOD: usize = 15 << 20;

pub fn describe(c: &Case) -> String {
    format!("{} {} of {} elements, wrong element {}, destination {}", OP_NAMES[c.p[0] as usize % 13], k::CODEC_NAMES[c.p[1] as usize % 10], size(c), c.p[4], c.p[5])
}

fn size(c: &Case) -> usize {
    ((c.p[2] as usize) << 20) + c.p[3] as usize
}

struct Map {
    p: *mut u8,
    len: usize,
}

impl Drop for Map {
    fn drop(&mut self) {
        unsafe { munmap(self.p.cast(), self.len) };
    }
}

impl Map {
    fn blank(n: usize) -> Map {
        let len = n.div_ceil(PAGE).max(1) * PAGE;
        unsafe {
            let p = map_anon(len, RW);
            sys::madvise(p.cast(), len, 14);
            Map { p, len }
        }
    }

    /// `n` bytes repeating `period` (a multiple of the page size); may be written without affecting the rest.
    fn repeat(period: &[u8], n: usize) -> Map {
        assert!(period.len() % PAGE == 0, "harness: period");
        let len = n.div_ceil(PAGE).max(1) * PAGE;
        unsafe {
            let fd = memfd_create(b"period\0".as_ptr(), 0);
            assert!(fd >= 0 && ftruncate(fd, period.len() as i64) == 0, "harness: memfd");
            let w = mmap(std::ptr::null_mut(), period.len(), RW, MAP_SHARED, fd, 0);
            assert!(w as isize != -1, "harness: memfd mmap");
            std::ptr::copy_nonoverlapping(period.as_ptr(), w.cast::<u8>(), period.len());
            munmap(w, period.len());
            let p = map_anon(len, NONE);
            let mut off = 0;
            while off < len {
                let m = (len - off).min(period.len());
                let q = mmap(p.add(off).cast(), m, RW, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0);
                assert!(q as isize != -1, "harness: mmap of a period");
                off += m;
            }
            close(fd);
            Map { p, len }
        }
    }

    fn slice(&self, n: usize) -> &'static mut [u8] {
        assert!(n <= self.len);
        unsafe { std::slice::from_raw_parts_mut(self.p, n) }
    }
}

fn available_memory() -> usize {
    let t = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    let kib = |k: &str| t.lines().find(|l| l.starts_with(k)).and_then(|l| l.split_whitespace().nth(1)?.parse::<usize>().ok()).unwrap_or(0);
    kib("MemAvailable:") << 10
}

/// Positions of interest in a sequence of `n`.
fn position(sel: u32, n: usize) -> Option<usize> {
    let x = match sel {
        0 => return None,
        1 => 0,
        2 => (1 << 31) + 3,
        3 => (1 << 32) - 1,
        4 => (1 << 32) + 5,
        5 => n.checked_sub(1)?,
        s => n.checked_sub(s as usize * 37)?,
    };
    (x < n).then_some(x)
}

fn repeats(got: &[u8], period: &[u8], tail: &[u8], want_len: usize) -> Result<(), String> {
    if got.len() != want_len {
        return Err(format!("returned {} bytes, expected {want_len}", got.len()));
    }
    let full = (want_len - tail.len()) / period.len();
    assert!(full * period.len() + tail.len() == want_len, "harness: period arithmetic");
    for (i, (g, w)) in got.chunks(period.len()).zip(std::iter::repeat(period)).take(full).enumerate() {
        if g != w {
            let j = g.iter().zip(w).position(|(a, b)| a != b).unwrap();
            return Err(format!("byte {} of {}: got {:#04x}, expected {:#04x}", i * period.len() + j, want_len, g[j], w[j]));
        }
    }
    let g = &got[full * period.len()..];
    if g != tail {
        let j = g.iter().zip(tail).position(|(a, b)| a != b).unwrap();
        return Err(format!("byte {} of {}: got {:#04x}, expected {:#04x}", full * period.len() + j, want_len, g[j], tail[j]));
    }
    Ok(())
}

fn destination(sel: u32, need: usize) -> usize {
    match sel {
        0 => need,
        1 => need - 1,
        2 => need % (1 << 32),
        3 => need - (1 << 31).min(need),
        _ => need + 5,
    }
}

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", crate::api::panic_msg()))
}

pub fn check(c: &Case) -> Res {
    let (op, id, n) = (c.p[0], c.p[1], size(c));
    if available_memory() < 4 * n + (2 << 30) {
        return Ok(Info { nontrivial: false, class: 0 });
    }
    let done = Ok(Info { nontrivial: n > u32::MAX as usize / 2, class: 2 });
    let mut data = vec![0u8; PERIOD];
    Rng::derive(&[50, id as u64]).fill(&mut data);
    let code = model::code(id);
    #[allow(unused_mut)]
    let mut tail = n % PERIOD;
    match op {
        0 | 10 | 11 => {
            let w = model::encode(&code, &data);
            let t = model::encode(&code, &data[..tail]);
            let want = model::encoded_len(&code, n as u128) as usize;
            let src = Map::repeat(&data, n);
            let s = src.slice(n);
            if op == 11 {
                #[cfg(feature = "alloc")]
                {
                    let r = caught(|| k::encode_owned(id, k::ENC_STRING, s, "", 0))?;
                    repeats(r.bytes(), &w, &t, want)?;
                }
                return done;
            }
            let m = destination(c.p[5], want);
            let dst = Map::blank(m);
            let d = dst.slice(m);
            let r = caught(|| match op {
                0 => k::encode(id, s, d),
                #[cfg(feature = "parallel")]
                _ => k::par_encode(id, s, d),
                #[cfg(not(feature = "parallel"))]
                _ => panic!("harness: no parallel"),
            })?;
            match r {
                Ok(_) if m < want => Err(format!("accepted a destination of {m} bytes, {want} needed")),
                Err(()) if m >= want => Err(format!("rejected a destination of {m} bytes, {want} needed")),
                Err(()) => done,
                Ok(g) => repeats(g, &w, &t, want).and(done),
            }
        }
        1 | 2 | 3 | 12 => {
            let period = model::encode(&code, &data);
            let t = model::encode(&code, &data[..tail]);
            let len = model::encoded_len(&code, n as u128) as usize;
            let src = Map::repeat(&period, len);
            let s = src.slice(len);
            s[len - t.len()..].copy_from_slice(&t);
            let bad = position(c.p[4], len);
            if let Some(i) = bad {
                s[i] = b'!';
            }
            let verify = |r: k::R<&[u8]>, m: usize| match r {
                Ok(_) if bad.is_some() => Err(format!("accepted a text with a foreign character at {}", bad.unwrap())),
                Ok(_) if m < n => Err(format!("accepted a destination of {m} bytes, {n} needed")),
                Err(()) if bad.is_none() && m >= n => Err("rejected a valid text".into()),
                Err(()) => Ok(()),
                Ok(g) => repeats(g, &data, &data[..tail], n),
            };
            match op {
                1 => {
                    let m = destination(c.p[5], n);
                    let dst = Map::blank(m);
                    let d = dst.slice(m);
                    verify(caught(|| k::decode(id, s, d).map(|x| &*x))?, m)?;
                }
                2 => verify(caught(|| k::decode_inplace(id, s).map(|x| &*x))?, n)?,
                #[cfg(feature = "alloc")]
                12 => {
                    let r = caught(|| k::decode_owned(id, k::DEC_VEC, s, &[], 0))?;
                    verify(r.as_ref().map(|o| o.bytes()).map_err(|_| ()), n)?;
                }
                3 => match (caught(|| k::check(id, s))?, bad) {
                    (Ok(()), Some(i)) => return Err(format!("check accepts a text with a foreign character at {i}")),
                    (Err(()), None) => return Err("check rejects a valid text".into()),
                    _ => {}
                },
                _ => {}
            }
            done
        }
        #[cfg(feature = "b64")]
        4 | 5 => {
            let mut period = Vec::new();
            for (i, l) in model::encode(&model::code(0), &data).chunks(76).enumerate() {
                period.extend_from_slice(l);
                period.extend_from_slice(if i % 5 == 0 { b"\n " } else { b"\r\n" });
            }
            period.resize(period.len().div_ceil(PAGE) * PAGE, b' ');
            let t = model::encode(&model::code(0), &data[..tail]);
            let len = n / PERIOD * period.len() + t.len();
            let src = Map::repeat(&period, len);
            let s = src.slice(len);
            s[len - t.len()..].copy_from_slice(&t);
            let bad = position(c.p[4], len);
            if let Some(i) = bad {
                s[i] = b'!';
            }
            let m = destination(c.p[5], len);
            let r;
            let dst;
            if op == 5 {
                r = caught(|| base64_simd::forgiving_decode_inplace(s).map(|x| &*x).map_err(drop))?;
            } else {
                dst = Map::blank(m);
                let d = dst.slice(m);
                r = caught(|| {
                    use outref::AsOut;
                    base64_simd::forgiving_decode(s, d.as_out()).map(|x| &*x).map_err(drop)
                })?;
            }
            let short = op == 4 && m < len;
            match r {
                Ok(_) if bad.is_some() => Err(format!("accepted a text with a foreign character at {}", bad.unwrap())),
                Ok(_) if short => Err(format!("accepted a destination of {m} bytes for a source of {len}")),
                Err(()) if bad.is_none() && !short => Err("rejected a valid text".into()),
                Err(()) => done,
                Ok(g) => repeats(g, &data, &data[..tail], n).and(done),
            }
        }
        #[cfg(feature = "uni")]
        6 => {
            let src = Map::blank(n);
            let s = src.slice(n);
            let bad = position(c.p[4], n);
            if let Some(i) = bad {
                s[i] = 0x80;
            }
            let a = caught(|| unicode_simd::is_ascii(s))?;
            let b = caught(|| unicode_simd::from_ascii(s).map(|x| x.len()))?;
            if a == bad.is_some() || b.is_some() == bad.is_some() || b.is_some_and(|x| x != n) {
                return Err(format!("is_ascii gives {a}, from_ascii {b:?}, with {bad:?} the position of the only non-ASCII byte"));
            }
            done
        }
        #[cfg(feature = "uni")]
        7 => {
            let src = Map::blank(n * 4);
            let s = unsafe { std::slice::from_raw_parts_mut(src.p.cast::<u32>(), n) };
            let bad = position(c.p[4], n);
            if let Some(i) = bad {
                s[i] = 0xD800;
            }
            let a = caught(|| unicode_simd::is_utf32le(s))?;
            if a == bad.is_some() {
                return Err(format!("is_utf32le gives {a}, with {bad:?} the position of the only surrogate"));
            }
            done
        }
        #[cfg(feature = "uni")]
        8 | 9 => {
            let w = if op == 8 { 2 } else { 4 };
            let rev: Vec<u8> = data.chunks(w).flat_map(|x| x.iter().rev().copied()).collect();
            tail = n * w % PERIOD;
            let src = Map::repeat(&data, n * w);
            if op == 8 {
                let s = unsafe { std::slice::from_raw_parts_mut(src.p.cast::<u16>(), n) };
                caught(|| unicode_simd::utf16_swap_endianness_inplace(s))?;
                repeats(src.slice(n * 2), &rev, &rev[..tail], n * 2)?;
            } else {
                let m = if c.p[5] == 0 { n } else { destination(c.p[5], n) };
                let dst = Map::blank(m * 4);
                let s = unsafe { std::slice::from_raw_parts(src.p.cast::<u32>(), n) };
                let d = unsafe { std::slice::from_raw_parts_mut(dst.p.cast::<u32>(), m) };
                let r = caught(|| {
                    use outref::AsOut;
                    unicode_simd::utf32_swap_endianness(s, d.as_out()).len()
                });
                match r {
                    Err(_) if m < n => {}
                    Err(e) => return Err(e),
                    Ok(_) if m < n => return Err(format!("accepted a destination of {m} units for {n}")),
                    Ok(x) if x != n => return Err(format!("returned {x} units, expected {n}")),
                    Ok(_) => repeats(dst.slice(n * 4), &rev, &rev[..tail], n * 4)?,
                }
            }
            done
        }
        _ => Err("harness: operation not built".into()),
    }
}

pub fn drive(ctx: &mut crate::drive::Ctx) -> crate::drive::Flow {
    let prop = ctx.o.prop;
    let ids: &[u32] = match prop {
        1 | 2 | 4 => &[0, 3, 1, 2],
        5 | 6 => &[4, 7, 5, 6],
        7 | 8 => &[8, 9],
        _ => &[0, 5, 8],
    };
    // data whose text is just above 2^32 bytes, and data just above 2^32 bytes
    let text4g = |id: u32| (model::code(id).bits as u64) << 29;
    let mut todo: Vec<(u32, u32, u64, u32, u32)> = Vec::new();
    let thorough = ctx.o.thorough;
    let last = if thorough { ids.len() } else { 1 };
    match prop {
        1 | 5 | 7 | 4 => {
            let op = if prop == 4 { 10 } else { 0 };
            for (i, &id) in ids[..last].iter().enumerate() {
                todo.push((op, id, (1 << 32) + 77, 0, 0));
                if thorough {
                    todo.push((op, id, text4g(id) - 3 + i as u64, 0, 4));
                    todo.push((op, id, (1 << 31) + 5, 0, 0));
                    todo.push((if prop == 4 { 10 } else { 11 }, id, (1 << 32) + 1, 0, 0));
                }
            }
        }
        2 | 6 | 8 => {
            for &id in &ids[..last] {
                let n = text4g(id) + 91;
                todo.push((1, id, n, 0, 0));
                todo.push((2, id, n, 0, 0));
                for pos in [0, 4, 5] {
                    todo.push((3, id, n, pos, 0));
                }
                if thorough {
                    for pos in [2, 3, 4, 5] {
                        todo.push((1, id, n, pos, 0));
                        todo.push((3, id, n, pos, 0));
                    }
                    todo.push((12, id, n, 0, 0));
                    todo.push((1, id, (1 << 32) + 2, 0, 4));
                }
            }
        }
        3 => {
            let n = text4g(0) + 91;
            todo.push((4, 0, n, 0, 0));
            todo.push((5, 0, n, 4, 0));
            if thorough {
                todo.push((5, 0, n, 0, 0));
                todo.push((4, 0, n, 5, 0));
                todo.push((4, 0, (1 << 32) + 3, 0, 4));
            }
        }
        11 => {
            for pos in [0, 4, 5, 2, 3, 1] {
                todo.push((6, 0, (1 << 32) + 77, pos, 0));
            }
        }
        12 => {
            for pos in [0, 5, 2, 4] {
                todo.push((7, 0, (1 << 32) + 19, pos, 0));
                if !thorough && pos == 5 {
                    todo.push((7, 0, (1 << 30) + 19, pos, 0));
                    break;
                }
            }
        }
        13 => {
            todo.push((8, 0, (1 << 31) + 9, 0, 0));
            todo.push((9, 0, (1 << 30) + 9, 0, 0));
            if thorough {
                todo.push((8, 0, (1 << 32) + 9, 0, 0));
            }
        }
        18 | 22 => {
            for &id in ids {
                let n = (1u64 << 32) + 77;
                for d in [1, 2, 3] {
                    todo.push((0, id, n, 0, d));
                    todo.push((1, id, if thorough { n } else { text4g(id) + 91 }, 0, d));
                }
            }
            for d in [1, 2] {
                todo.push((4, 0, text4g(0) + 91, 0, d));
            }
        }
        _ => {}
    }
    for (op, id, n, pos, dst) in todo {
        if !ctx.mine() {
            continue;
        }
        let mut c = Case::new(HUGE);
        c.p = [op, id, (n >> 20) as u32, (n & 0xFFFFF) as u32, pos, dst];
        ctx.go(&c)?;
    }
    Ok(())
}
