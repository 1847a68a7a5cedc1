//! Uniform access to the text codecs under test: codec ids as in `model::code`.
#![allow(unused_macros, unused_imports, dead_code, unused_variables)]

use outref::{AsOut, Out};

pub type R<T> = Result<T, ()>;

#[cfg(feature = "hex")]
pub struct HexC(pub hex_simd::AsciiCase);
#[cfg(feature = "hex")]
pub static HEX_L: HexC = HexC(hex_simd::AsciiCase::Lower);
#[cfg(feature = "hex")]
pub static HEX_U: HexC = HexC(hex_simd::AsciiCase::Upper);

#[cfg(feature = "hex")]
impl HexC {
    pub fn check(&self, d: &[u8]) -> Result<(), hex_simd::Error> {
        hex_simd::check(d)
    }
    pub fn encode<'d>(&self, s: &[u8], d: Out<'d, [u8]>) -> Result<&'d mut [u8], hex_simd::Error> {
        hex_simd::encode(s, d, self.0)
    }
    pub fn encode_as_str<'d>(&self, s: &[u8], d: Out<'d, [u8]>) -> Result<&'d mut str, hex_simd::Error> {
        hex_simd::encode_as_str(s, d, self.0)
    }
    pub fn decode<'d>(&self, s: &[u8], d: Out<'d, [u8]>) -> Result<&'d mut [u8], hex_simd::Error> {
        hex_simd::decode(s, d)
    }
    pub fn decode_inplace<'d>(&self, d: &'d mut [u8]) -> Result<&'d mut [u8], hex_simd::Error> {
        hex_simd::decode_inplace(d)
    }
    pub fn decoded_length(&self, d: &[u8]) -> Result<usize, hex_simd::Error> {
        hex_simd::decoded_length(d.len())
    }
    pub fn encoded_length(&self, n: usize) -> usize {
        hex_simd::encoded_length(n)
    }
    pub fn estimated_decoded_length(&self, n: usize) -> usize {
        n / 2 + 1 // hex has no such function
    }
    #[cfg(feature = "alloc")]
    pub fn encode_type<T: hex_simd::FromHexEncode>(&self, d: &[u8]) -> T {
        hex_simd::encode_type(d, self.0)
    }
    #[cfg(feature = "alloc")]
    pub fn decode_type<T: hex_simd::FromHexDecode>(&self, d: &[u8]) -> Result<T, hex_simd::Error> {
        hex_simd::decode_type(d)
    }
    #[cfg(feature = "alloc")]
    pub fn encode_append<T: hex_simd::AppendHexEncode>(&self, d: &[u8], t: &mut T) {
        hex_simd::encode_append(d, t, self.0)
    }
    #[cfg(feature = "alloc")]
    pub fn decode_append<T: hex_simd::AppendHexDecode>(&self, d: &[u8], t: &mut T) -> Result<(), hex_simd::Error> {
        hex_simd::decode_append(d, t)
    }
    #[cfg(feature = "alloc")]
    pub fn encode_to_string(&self, d: &[u8]) -> String {
        hex_simd::encode_to_string(d, self.0)
    }
    #[cfg(feature = "alloc")]
    pub fn decode_to_vec(&self, d: &[u8]) -> Result<Vec<u8>, hex_simd::Error> {
        hex_simd::decode_to_vec(d)
    }
}

macro_rules! with {
    ($id:expr, $c:ident => $e:expr) => {
        match $id {
            #[cfg(feature = "b64")]
            0 => { let $c = &base64_simd::STANDARD; $e }
            #[cfg(feature = "b64")]
            1 => { let $c = &base64_simd::URL_SAFE; $e }
            #[cfg(feature = "b64")]
            2 => { let $c = &base64_simd::STANDARD_NO_PAD; $e }
            #[cfg(feature = "b64")]
            3 => { let $c = &base64_simd::URL_SAFE_NO_PAD; $e }
            #[cfg(feature = "b32")]
            4 => { let $c = &base32_simd::BASE32; $e }
            #[cfg(feature = "b32")]
            5 => { let $c = &base32_simd::BASE32HEX; $e }
            #[cfg(feature = "b32")]
            6 => { let $c = &base32_simd::BASE32_NO_PAD; $e }
            #[cfg(feature = "b32")]
            7 => { let $c = &base32_simd::BASE32HEX_NO_PAD; $e }
            #[cfg(feature = "hex")]
            8 => { let $c = &HEX_L; $e }
            #[cfg(feature = "hex")]
            9 => { let $c = &HEX_U; $e }
            _ => panic!("harness: codec not built"),
        }
    };
}

/// Codec ids available in this build.
pub fn codecs() -> Vec<u32> {
    let mut v: Vec<u32> = Vec::new();
    if cfg!(feature = "b64") {
        v.extend([0, 1, 2, 3]);
    }
    if cfg!(feature = "b32") {
        v.extend([4, 5, 6, 7]);
    }
    if cfg!(feature = "hex") {
        v.extend([8, 9]);
    }
    v
}

pub fn check(id: u32, d: &[u8]) -> R<()> {
    with!(id, c => c.check(d).map_err(drop))
}

pub fn encode<'d>(id: u32, s: &[u8], d: &'d mut [u8]) -> R<&'d mut [u8]> {
    with!(id, c => c.encode(s, d.as_out()).map_err(drop))
}

pub fn encode_as_str<'d>(id: u32, s: &[u8], d: &'d mut [u8]) -> R<&'d mut str> {
    with!(id, c => c.encode_as_str(s, d.as_out()).map_err(drop))
}

pub fn decode<'d>(id: u32, s: &[u8], d: &'d mut [u8]) -> R<&'d mut [u8]> {
    with!(id, c => c.decode(s, d.as_out()).map_err(drop))
}

pub fn decode_inplace(id: u32, d: &mut [u8]) -> R<&mut [u8]> {
    with!(id, c => c.decode_inplace(d).map_err(drop))
}

pub fn decoded_length(id: u32, d: &[u8]) -> R<usize> {
    with!(id, c => c.decoded_length(d).map_err(drop))
}

pub fn encoded_length(id: u32, n: usize) -> usize {
    with!(id, c => c.encoded_length(n))
}

pub fn estimated_decoded_length(id: u32, n: usize) -> usize {
    with!(id, c => c.estimated_decoded_length(n))
}

#[cfg(feature = "parallel")]
pub fn par_encode<'d>(id: u32, s: &[u8], d: &'d mut [u8]) -> R<&'d mut [u8]> {
    let c = match id {
        0 => &base64_simd::STANDARD,
        1 => &base64_simd::URL_SAFE,
        2 => &base64_simd::STANDARD_NO_PAD,
        _ => &base64_simd::URL_SAFE_NO_PAD,
    };
    c.par_encode(s, d.as_out()).map_err(drop)
}

/// An owned result of any of the owned output types.
#[derive(Debug)]
pub enum Owned {
    Vec(Vec<u8>),
    Str(String),
    Box(Box<[u8]>),
    BoxStr(Box<str>),
}

impl Owned {
    pub fn bytes(&self) -> &[u8] {
        match self {
            Owned::Vec(x) => x,
            Owned::Str(x) => x.as_bytes(),
            Owned::Box(x) => x,
            Owned::BoxStr(x) => x.as_bytes(),
        }
    }
}

// ---- output forms ------------------------------------------------------------------------------

/// Encoding forms. 0-1 write to the caller's buffer, the others allocate.
pub const ENC_SLICE: u32 = 0;
pub const ENC_STR: u32 = 1;
pub const ENC_STRING: u32 = 2;
pub const ENC_VEC: u32 = 3;
pub const ENC_BOXSTR: u32 = 4;
pub const ENC_BOX: u32 = 5;
pub const ENC_APPEND_VEC: u32 = 6;
pub const ENC_APPEND_STRING: u32 = 7;
pub const ENC_TO_STRING: u32 = 8;
pub const ENC_RAW: u32 = 9; // hex only
pub const ENC_FORMS: u32 = 10;

pub const DEC_SLICE: u32 = 0;
pub const DEC_INPLACE: u32 = 1;
pub const DEC_VEC: u32 = 2;
pub const DEC_BOX: u32 = 3;
pub const DEC_APPEND: u32 = 4;
pub const DEC_TO_VEC: u32 = 5;
pub const DEC_RAW: u32 = 6; // hex only
pub const DEC_RAW_INPLACE: u32 = 7; // hex only
pub const DEC_CHECK: u32 = 8;
pub const DEC_CHECK_RAW: u32 = 9; // hex only
pub const DEC_FORMS: u32 = 10;

pub const ENC_NAMES: [&str; 10] = [
    "encode", "encode_as_str", "encode_type::<String>", "encode_type::<Vec<u8>>", "encode_type::<Box<str>>",
    "encode_type::<Box<[u8]>>", "encode_append::<Vec<u8>>", "encode_append::<String>", "encode_to_string", "encode_raw",
];
pub const DEC_NAMES: [&str; 10] = [
    "decode", "decode_inplace", "decode_type::<Vec<u8>>", "decode_type::<Box<[u8]>>", "decode_append",
    "decode_to_vec", "decode_raw", "decode_raw (in place)", "check", "check_raw",
];
pub const CODEC_NAMES: [&str; 10] = [
    "base64 STANDARD", "base64 URL_SAFE", "base64 STANDARD_NO_PAD", "base64 URL_SAFE_NO_PAD",
    "base32 BASE32", "base32 BASE32HEX", "base32 BASE32_NO_PAD", "base32 BASE32HEX_NO_PAD",
    "hex lower", "hex upper",
];

/// The nearest form this codec has in this build.
pub fn enc_form(id: u32, form: u32) -> u32 {
    match form % ENC_FORMS {
        ENC_RAW if id < 8 => ENC_SLICE,
        f @ 2..=8 if !cfg!(feature = "alloc") => f % 2,
        f => f,
    }
}

pub fn dec_form(id: u32, form: u32) -> u32 {
    match form % DEC_FORMS {
        DEC_RAW if id < 8 => DEC_SLICE,
        DEC_RAW_INPLACE if id < 8 => DEC_INPLACE,
        DEC_CHECK_RAW if id < 8 => DEC_CHECK,
        f @ 2..=5 if !cfg!(feature = "alloc") => f % 2,
        f => f,
    }
}

pub fn enc_is_owned(form: u32) -> bool {
    (2..=8).contains(&form)
}

pub fn dec_is_owned(form: u32) -> bool {
    (2..=5).contains(&form)
}

/// Allocating encoders. `pre` is the initial content for the append forms; `cap` extra capacity.
#[cfg(feature = "alloc")]
pub fn encode_owned(id: u32, form: u32, s: &[u8], pre: &str, cap: usize) -> Owned {
    match form {
        ENC_STRING => Owned::Str(with!(id, c => c.encode_type::<String>(s))),
        ENC_VEC => Owned::Vec(with!(id, c => c.encode_type::<Vec<u8>>(s))),
        ENC_BOXSTR => Owned::BoxStr(with!(id, c => c.encode_type::<Box<str>>(s))),
        ENC_BOX => Owned::Box(with!(id, c => c.encode_type::<Box<[u8]>>(s))),
        ENC_APPEND_VEC => {
            let mut v: Vec<u8> = Vec::with_capacity(pre.len() + cap);
            v.extend_from_slice(pre.as_bytes());
            with!(id, c => c.encode_append(s, &mut v));
            Owned::Vec(v)
        }
        ENC_APPEND_STRING => {
            let mut v = String::with_capacity(pre.len() + cap);
            v.push_str(pre);
            with!(id, c => c.encode_append(s, &mut v));
            Owned::Str(v)
        }
        _ => Owned::Str(with!(id, c => c.encode_to_string(s))),
    }
}

#[cfg(feature = "alloc")]
pub fn decode_owned(id: u32, form: u32, s: &[u8], pre: &[u8], cap: usize) -> R<Owned> {
    Ok(match form {
        DEC_VEC => {
            let r: R<Vec<u8>> = with!(id, c => c.decode_type::<Vec<u8>>(s).map_err(drop));
            Owned::Vec(r?)
        }
        DEC_BOX => {
            let r: R<Box<[u8]>> = with!(id, c => c.decode_type::<Box<[u8]>>(s).map_err(drop));
            Owned::Box(r?)
        }
        DEC_APPEND => {
            let mut v: Vec<u8> = Vec::with_capacity(pre.len() + cap);
            v.extend_from_slice(pre);
            let r: R<()> = with!(id, c => c.decode_append(s, &mut v).map_err(drop));
            r?;
            Owned::Vec(v)
        }
        _ => {
            let r: R<Vec<u8>> = with!(id, c => c.decode_to_vec(s).map_err(drop));
            Owned::Vec(r?)
        }
    })
}

#[cfg(feature = "alloc")]
pub fn encode_append_vec(id: u32, s: &[u8], v: &mut Vec<u8>) {
    with!(id, c => c.encode_append(s, v))
}

#[cfg(feature = "alloc")]
pub fn encode_append_string(id: u32, s: &[u8], v: &mut String) {
    with!(id, c => c.encode_append(s, v))
}

#[cfg(feature = "alloc")]
pub fn decode_append(id: u32, s: &[u8], v: &mut Vec<u8>) -> R<()> {
    with!(id, c => c.decode_append(s, v).map_err(drop))
}

#[cfg(not(feature = "alloc"))]
pub fn encode_owned(_: u32, _: u32, _: &[u8], _: &str, _: usize) -> Owned {
    panic!("harness: built without alloc")
}
#[cfg(not(feature = "alloc"))]
pub fn decode_owned(_: u32, _: u32, _: &[u8], _: &[u8], _: usize) -> R<Owned> {
    panic!("harness: built without alloc")
}
