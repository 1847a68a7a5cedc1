//! Generators for inputs. Everything is drawn from the given `Rng`.

use crate::model::{self, Code};
use crate::rng::Rng;

/// Lengths: mostly small (all block-boundary interplay lives below a few hundred), some near larger
/// powers and multiples of the vector block sizes, few long.
pub fn length(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(100) {
        0..=34 => r.range(0, 72),
        35..=69 => r.range(0, 300),
        70..=85 => r.range(0, 1400),
        86..=96 => {
            let unit = *r.pick(&[16usize, 20, 24, 28, 32, 40, 48, 64, 96, 128, 256, 1024, 4096]);
            let k = r.range(1, 12);
            (unit * k + r.range(0, 16)).saturating_sub(8)
        }
        _ => r.range(1400, 40_000),
    };
    n.min(max)
}

/// Arbitrary bytes with several kinds of structure.
pub fn bytes(r: &mut Rng, n: usize, out: &mut Vec<u8>) {
    out.clear();
    out.resize(n, 0);
    match r.below(12) {
        0..=5 => r.fill(out),
        6 => {
            let b = r.u8();
            out.fill(b);
        }
        7 => {
            let (a, b) = (r.u8(), r.u8());
            for x in out.iter_mut() {
                *x = if r.u64() & 1 == 0 { a } else { b };
            }
        }
        8 => {
            let s = r.u8();
            let d = r.u8();
            for (i, x) in out.iter_mut().enumerate() {
                *x = s.wrapping_add((i as u8).wrapping_mul(d));
            }
        }
        9 => {
            const EDGE: [u8; 16] = [0, 1, 0x0F, 0x10, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0xC0, 0xF0, 0xFC, 0xFE, 0xFF, 0x55, 0xAA];
            for x in out.iter_mut() {
                *x = *r.pick(&EDGE);
            }
        }
        10 => {
            for x in out.iter_mut() {
                *x = r.u8() & 0x7F;
            }
        }
        _ => {
            let base = if r.u64() & 1 == 0 { 0 } else { 0xFF };
            out.fill(base);
            if n > 0 {
                for _ in 0..r.range(1, 4) {
                    let i = r.below(n);
                    out[i] = r.u8();
                }
            }
        }
    }
}

const TOKENS: &[&[u8]] = &[
    b"\n", b"\r", b"\r\n", b"\n\r", b"\n\n", b"\r\n\r\n", b" ", b"  ", b"\t", b"\x0b", b"\x0c", b"\0", b"\0\0", b"\0\0\0\0", b"\xEF\xBB\xBF", b"\xFF\xFE",
    b"\xC2\xA0", b"\xC2\x85", b"\xE2\x80\xA8", b"\x1A", b"\x7F", b"0x", b"0X", b"\\x", b"x", b"X", b"#", b"h", b"H", b"$", b"&", b"%", b"U+", b"u", b"0b", b"-", b"_", b"+", b"/", b"\\",
    b":", b"::", b",", b", ", b";", b".", b"'", b"\"", b"(", b")", b"[", b"]", b"{", b"}", b"<", b">", b"=", b"==", b"===", b"====", b"=====", b"======", b"=======", b"========", b"= ", b"=\n",
    b"==\n", b"%3D", b"%3d", b"%2B", b"%2F", b"\\n", b"\\r\\n", b"\\/", b"data:;base64,", b"base64,", b"base64:", b"urn:", b"urn:uuid:", b"uuid:", b"hex:", b"0O", b"1lI", b"o0", b"*", b"~", b"!", b"|",
    b"-----", b"A", b"AA", b"AAA", b"AAAA", b"\x80", b"\xFF", b"\xC3\xA9",
];

static OWN: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();

/// Adds the strings of the code under test to the tokens. Only before the first case.
pub fn set_strings(more: Vec<Vec<u8>>) {
    let mut v: Vec<Vec<u8>> = TOKENS.iter().map(|t| t.to_vec()).collect();
    for t in more {
        if !v.contains(&t) {
            v.push(t);
        }
    }
    let _ = OWN.set(v);
}

/// Byte strings that decoders for people's convenience tend to allow, or that the code under test mentions.
pub fn tokens() -> &'static [Vec<u8>] {
    OWN.get_or_init(|| TOKENS.iter().map(|t| t.to_vec()).collect())
}

/// A byte likely to confuse a decoder expecting `c` where `cur` stands.
pub fn odd_byte(r: &mut Rng, c: &Code, cur: u8) -> u8 {
    match r.below(12) {
        0 | 1 => r.u8(),
        2 => cur | 0x80,
        3 => cur ^ 0x20,
        4 => cur ^ (1 << r.below(8)),
        5 => *r.pick(b"=-_+/ \t\n\r\x0c\x0b\0\xFF@[`{:./,~\x7f\x80"),
        6 => {
            // neighbour of an alphabet character
            let a = *r.pick(c.alphabet);
            if r.u64() & 1 == 0 { a.wrapping_add(1) } else { a.wrapping_sub(1) }
        }
        7 => *r.pick(model::B64_STD),
        8 => *r.pick(model::B64_URL),
        9 => *r.pick(c.alphabet),
        10 => r.pick(c.alphabet).to_ascii_lowercase(),
        _ => b'=',
    }
}

/// Candidate text for a decoder: valid text, then usually some mutation.
pub fn text(r: &mut Rng, c: &Code, max_bytes: usize, out: &mut Vec<u8>) {
    text_of(r, c, &|r| length(r, max_bytes), out)
}

pub fn text_of(r: &mut Rng, c: &Code, length: &dyn Fn(&mut Rng) -> usize, out: &mut Vec<u8>) {
    out.clear();
    let kind = r.below(100);
    if kind < 4 {
        let n = length(r);
        bytes(r, n, out);
        return;
    }
    if kind < 10 {
        // alphabet characters only, any length, optional padding
        let n = length(r);
        for _ in 0..n {
            out.push(*r.pick(c.alphabet));
        }
        for _ in 0..r.below(9) {
            out.push(b'=');
        }
        return;
    }
    let n = length(r);
    let mut data = Vec::new();
    bytes(r, n, &mut data);
    model::encode_into(c, &data, out);
    if c.fold_case && r.chance(1, 2) {
        for x in out.iter_mut() {
            if r.u64() & 1 == 0 {
                *x = x.to_ascii_uppercase();
            } else {
                *x = x.to_ascii_lowercase();
            }
        }
    }
    if kind < 40 {
        return;
    }
    mutate(r, c, out);
    if kind >= 92 {
        for _ in 0..r.range(1, 3) {
            mutate(r, c, out);
        }
    }
}

pub fn mutate(r: &mut Rng, c: &Code, t: &mut Vec<u8>) {
    let n = t.len();
    match r.below(15) {
        14 => {
            let t2 = r.pick(tokens());
            let how = r.below(crate::drive::PUTS);
            crate::drive::put_token(r, how, t2, t);
        }
        // one substituted byte
        0..=5 => {
            if n > 0 {
                let i = match r.below(4) {
                    0 => n - 1 - r.below(n.min(9)),
                    1 => r.below(n.min(9)),
                    _ => r.below(n),
                };
                t[i] = odd_byte(r, c, t[i]);
            }
        }
        // two substituted bytes, often in the same lane of neighbouring blocks
        6 => {
            if n > 0 {
                let i = r.below(n);
                t[i] = odd_byte(r, c, t[i]);
                let d = *r.pick(&[1usize, 2, 4, 8, 16, 32, 64]);
                let j = if r.u64() & 1 == 0 { (i + d) % n } else { r.below(n) };
                t[j] = odd_byte(r, c, t[j]);
            }
        }
        // change the last significant characters only within the alphabet (trailing bits)
        7 | 8 => {
            let end = t.iter().rposition(|&b| b != b'=').map_or(0, |x| x + 1);
            if end > 0 {
                let i = end - 1 - r.below(end.min(2));
                t[i] = *r.pick(c.alphabet);
            }
        }
        // padding
        9 => {
            let end = t.iter().rposition(|&b| b != b'=').map_or(0, |x| x + 1);
            t.truncate(end);
            for _ in 0..r.below(9) {
                t.push(b'=');
            }
        }
        10 => {
            for _ in 0..r.range(1, 8) {
                t.pop();
            }
        }
        11 => {
            for _ in 0..r.range(1, 8) {
                let b = if r.chance(3, 4) { *r.pick(c.alphabet) } else { odd_byte(r, c, b'A') };
                t.push(b);
            }
        }
        12 => {
            let i = r.below(n + 1);
            let b = odd_byte(r, c, b'A');
            t.insert(i, b);
        }
        _ => {
            if n > 0 {
                let i = r.below(n);
                t.remove(i);
            }
        }
    }
}

/// Inserts ASCII whitespace at random places.
pub fn add_whitespace(r: &mut Rng, t: &mut Vec<u8>) {
    const WS: [u8; 5] = [0x09, 0x0A, 0x0C, 0x0D, 0x20];
    match r.below(6) {
        0 => {
            let i = r.below(t.len() + 1);
            t.insert(i, *r.pick(&WS));
        }
        1 => {
            for _ in 0..r.range(1, 6) {
                let i = r.below(t.len() + 1);
                t.insert(i, *r.pick(&WS));
            }
        }
        2 => {
            // line breaks
            let w = r.range(1, 80);
            let mut v = Vec::with_capacity(t.len() + t.len() / w * 2 + 2);
            for (i, &b) in t.iter().enumerate() {
                if i % w == 0 && i > 0 {
                    v.extend_from_slice(b"\r\n");
                }
                v.push(b);
            }
            *t = v;
        }
        3 => {
            for _ in 0..r.range(1, 70) {
                t.push(*r.pick(&WS));
            }
        }
        4 => {
            let k = r.range(1, 70);
            let mut v: Vec<u8> = (0..k).map(|_| *r.pick(&WS)).collect();
            v.extend_from_slice(t);
            *t = v;
        }
        _ => {
            let den = r.range(2, 40) as u32;
            let mut v = Vec::with_capacity(t.len() * 2);
            for &b in t.iter() {
                while r.chance(1, den) {
                    v.push(*r.pick(&WS));
                }
                v.push(b);
            }
            *t = v;
        }
    }
}

/// Placement of a buffer, see `mem::Region`.
pub fn place(r: &mut Rng) -> u32 {
    match r.below(8) {
        0..=2 => 0,
        3..=4 => 1,
        _ => 2 + r.below(64) as u32,
    }
}

pub fn bound(v: &mut Vec<u8>, max: usize) {
    v.truncate(max);
}
