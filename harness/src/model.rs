//! Reference models, written from the public specifications (RFC 4648, WHATWG infra, RFC 4122 text
//! forms, Unicode) and sharing no code with the crates under test. They favour obviousness: encoders
//! and decoders work bit by bit over a bit string.

pub const B64_STD: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub const B64_URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub const B32_STD: &[u8; 32] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
pub const B32_HEX: &[u8; 32] = b"0123456789ABCDEFGHIJKLMNOPQRSTUV";
pub const HEX_LOWER: &[u8; 16] = b"0123456789abcdef";
pub const HEX_UPPER: &[u8; 16] = b"0123456789ABCDEF";

/// A text code over `alphabet`, `bits` per character, blocks of `block_chars` characters.
#[derive(Clone, Copy, Debug)]
pub struct Code {
    pub alphabet: &'static [u8],
    pub bits: u32,
    pub block_bytes: usize,
    pub block_chars: usize,
    pub pad: bool,
    /// hex accepts both letter cases when decoding
    pub fold_case: bool,
}

pub const NUM_CODECS: u32 = 10;

/// 0-3 base64 (std, url, std no pad, url no pad), 4-7 base32 (same order), 8 hex lower, 9 hex upper
pub fn code(id: u32) -> Code {
    match id {
        0..=3 => Code {
            alphabet: if id % 2 == 0 { B64_STD } else { B64_URL },
            bits: 6,
            block_bytes: 3,
            block_chars: 4,
            pad: id < 2,
            fold_case: false,
        },
        4..=7 => Code {
            alphabet: if id % 2 == 0 { B32_STD } else { B32_HEX },
            bits: 5,
            block_bytes: 5,
            block_chars: 8,
            pad: id < 6,
            fold_case: false,
        },
        8 | 9 => Code {
            alphabet: if id == 8 { HEX_LOWER } else { HEX_UPPER },
            bits: 4,
            block_bytes: 1,
            block_chars: 2,
            pad: false,
            fold_case: true,
        },
        _ => panic!("bad codec id"),
    }
}

pub fn encoded_len(c: &Code, n: u128) -> u128 {
    let chars = (n * 8 + c.bits as u128 - 1) / c.bits as u128;
    if c.pad {
        (chars + c.block_chars as u128 - 1) / c.block_chars as u128 * c.block_chars as u128
    } else {
        chars
    }
}

pub fn encode_into(c: &Code, data: &[u8], out: &mut Vec<u8>) {
    let start = out.len();
    let mut acc: u32 = 0;
    let mut have: u32 = 0;
    for &b in data {
        acc = (acc << 8) | b as u32;
        have += 8;
        while have >= c.bits {
            have -= c.bits;
            out.push(c.alphabet[((acc >> have) & ((1 << c.bits) - 1)) as usize]);
        }
        acc &= (1 << have) - 1;
    }
    if have > 0 {
        out.push(c.alphabet[((acc << (c.bits - have)) & ((1 << c.bits) - 1)) as usize]);
    }
    if c.pad {
        while (out.len() - start) % c.block_chars != 0 {
            out.push(b'=');
        }
    }
}

pub fn encode(c: &Code, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len() * 2 + 8);
    encode_into(c, data, &mut out);
    out
}

const fn build(alphabet: &[u8], fold: bool) -> [u8; 256] {
    let mut t = [0xFFu8; 256];
    let mut i = 0;
    while i < alphabet.len() {
        t[alphabet[i] as usize] = i as u8;
        if fold {
            t[alphabet[i].to_ascii_lowercase() as usize] = i as u8;
            t[alphabet[i].to_ascii_uppercase() as usize] = i as u8;
        }
        i += 1;
    }
    t
}

static T_B64_STD: [u8; 256] = build(B64_STD, false);
static T_B64_URL: [u8; 256] = build(B64_URL, false);
static T_B32_STD: [u8; 256] = build(B32_STD, false);
static T_B32_HEX: [u8; 256] = build(B32_HEX, false);
static T_HEX: [u8; 256] = build(HEX_LOWER, true);

pub fn table(c: &Code) -> &'static [u8; 256] {
    match c.bits {
        6 => if c.alphabet[62] == b'+' { &T_B64_STD } else { &T_B64_URL },
        5 => if c.alphabet[0] == b'A' { &T_B32_STD } else { &T_B32_HEX },
        _ => &T_HEX,
    }
}

/// Strict decoding. The definition: `text` is accepted iff it is the encoding of the bytes it denotes.
pub fn decode(c: &Code, text: &[u8]) -> Option<Vec<u8>> {
    let body = if c.pad {
        let n = text.iter().rev().take_while(|&&x| x == b'=').count();
        &text[..text.len() - n]
    } else {
        text
    };
    let t = table(c);
    let mut out = Vec::with_capacity(body.len() * c.bits as usize / 8 + 1);
    let mut acc: u32 = 0;
    let mut have: u32 = 0;
    for &ch in body {
        let v = t[ch as usize];
        if v == 0xFF {
            return None;
        }
        acc = (acc << c.bits) | v as u32;
        have += c.bits;
        if have >= 8 {
            have -= 8;
            out.push((acc >> have) as u8);
        }
        acc &= (1 << have) - 1;
    }
    // canonical: re-encoding gives the text back (letter case of hex apart); only the last block
    // can differ, so only that is re-encoded
    let full = out.len() / c.block_bytes * c.block_bytes;
    let full = if full == out.len() && full > 0 { full - c.block_bytes } else { full };
    let chars = full / c.block_bytes * c.block_chars;
    let mut tail = Vec::with_capacity(16);
    encode_into(c, &out[full..], &mut tail);
    let want = &text[chars..];
    let same = if c.fold_case { want.eq_ignore_ascii_case(&tail) } else { want == &tail[..] };
    same.then_some(out)
}

/// Strict decoding by literally re-encoding everything: used to validate `decode` itself.
pub fn decode_by_reencoding(c: &Code, text: &[u8]) -> Option<Vec<u8>> {
    let t = table(c);
    let mut bits: Vec<u8> = Vec::new();
    for &ch in text {
        let v = t[ch as usize];
        if v == 0xFF {
            if ch == b'=' && c.pad {
                continue;
            }
            return None;
        }
        for k in (0..c.bits).rev() {
            bits.push(v >> k & 1);
        }
    }
    let out: Vec<u8> = bits.chunks_exact(8).map(|b| b.iter().fold(0, |a, &x| a << 1 | x)).collect();
    let again = encode(c, &out);
    let same = if c.fold_case { again.eq_ignore_ascii_case(text) } else { again == text };
    same.then_some(out)
}

pub fn is_ws(b: u8) -> bool {
    matches!(b, 0x09 | 0x0A | 0x0C | 0x0D | 0x20)
}

/// <https://infra.spec.whatwg.org/#forgiving-base64-decode>, step by step
pub fn forgiving(data: &[u8]) -> Option<Vec<u8>> {
    // 1. Remove all ASCII whitespace from data.
    let mut d: Vec<u8> = data.iter().copied().filter(|&b| !is_ws(b)).collect();
    // 2. If data's code point length divides by 4 leaving no remainder: remove one or two trailing '='.
    if d.len() % 4 == 0 {
        for _ in 0..2 {
            if d.last() == Some(&b'=') {
                d.pop();
            }
        }
    }
    // 3. If data's code point length divides by 4 leaving a remainder of 1, return failure.
    if d.len() % 4 == 1 {
        return None;
    }
    // 4. If data contains a code point that is not in the alphabet, return failure.
    // 5-9. Accumulate 6 bits per character, emit 3 bytes per 24 bits, discard leftover bits.
    let mut out = Vec::with_capacity(d.len() * 3 / 4);
    let mut acc = 0u32;
    let mut have = 0;
    for &ch in &d {
        let v = T_B64_STD[ch as usize];
        if v == 0xFF {
            return None;
        }
        acc = (acc << 6) | v as u32;
        have += 6;
        if have == 24 {
            out.extend_from_slice(&[(acc >> 16) as u8, (acc >> 8) as u8, acc as u8]);
            acc = 0;
            have = 0;
        }
    }
    match have {
        12 => out.push((acc >> 4) as u8),
        18 => {
            out.push((acc >> 10) as u8);
            out.push((acc >> 2) as u8);
        }
        _ => {}
    }
    Some(out)
}

fn hexval(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|x| x as u8)
}

pub fn uuid_simple(s: &[u8]) -> Option<[u8; 16]> {
    if s.len() != 32 {
        return None;
    }
    let mut out = [0; 16];
    for i in 0..16 {
        out[i] = hexval(s[2 * i])? << 4 | hexval(s[2 * i + 1])?;
    }
    Some(out)
}

pub fn uuid_hyphenated(s: &[u8]) -> Option<[u8; 16]> {
    if s.len() != 36 {
        return None;
    }
    let mut digits = Vec::with_capacity(32);
    for (i, &b) in s.iter().enumerate() {
        if i == 8 || i == 13 || i == 18 || i == 23 {
            if b != b'-' {
                return None;
            }
        } else {
            digits.push(b);
        }
    }
    uuid_simple(&digits)
}

pub fn uuid_any(s: &[u8]) -> Option<[u8; 16]> {
    match s.len() {
        32 => uuid_simple(s),
        36 => uuid_hyphenated(s),
        38 if s[0] == b'{' && s[37] == b'}' => uuid_hyphenated(&s[1..37]),
        45 if &s[..9] == b"urn:uuid:" => uuid_hyphenated(&s[9..]),
        _ => None,
    }
}

pub fn uuid_fmt_simple(u: &[u8; 16], upper: bool) -> Vec<u8> {
    encode(&code(if upper { 9 } else { 8 }), u)
}

pub fn uuid_fmt_hyphenated(u: &[u8; 16], upper: bool) -> Vec<u8> {
    let s = uuid_fmt_simple(u, upper);
    let mut out = Vec::new();
    for (i, c) in s.into_iter().enumerate() {
        if matches!(i, 8 | 12 | 16 | 20) {
            out.push(b'-');
        }
        out.push(c);
    }
    out
}

pub fn is_scalar(x: u32) -> bool {
    x <= 0x10_FFFF && !(0xD800..=0xDFFF).contains(&x)
}
