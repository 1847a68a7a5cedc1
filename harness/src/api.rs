//! Executes one public call of the crates under test as described by a `Case`, and states what the
//! reference model expects of it.
//!
//! fam ENC    p = [codec, form, src place, dst place, dst length delta (i32) or spare capacity, fill]  a = data, b = prefix
//! fam DEC    same, a = text
//! fam FORG   p[1]: 0 forgiving_decode, 1 _inplace, 2 _to_vec                a = text
//! fam UPARSE p[0]: 0 parse, 1 simple, 2 hyphenated; p[1]: 0 plain, 1 UuidExt  a = text
//! fam UFMT   p[0]: 0 simple, 1 hyphenated, +2 upper; p[1]: 0 plain, 1 Display, 2 LowerHex/UpperHex  a = 16 bytes
//! fam ASCII  p[0]: 0 is_ascii, 1 from_ascii
//! fam UTF32  a = little-endian u32 values
//! fam SWAP   p[0]: 0 u16, 1 u32; p[1]: 0 out of place, 1 in place; p[4] = dst length delta in units

use crate::case::Case;
use crate::codec as k;
use crate::mem::{heap, Region, CANARY};
use crate::model;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const ENC: u32 = 1;
pub const DEC: u32 = 2;
pub const FORG: u32 = 3;
pub const UPARSE: u32 = 4;
pub const UFMT: u32 = 5;
pub const ASCII: u32 = 6;
pub const UTF32: u32 = 7;
pub const SWAP: u32 = 8;

pub const FAM_NAMES: [&str; 9] = ["", "encode", "decode", "forgiving", "uuid parse", "uuid format", "ascii", "utf32", "swap"];

pub fn available(fam: u32) -> bool {
    match fam {
        ENC | DEC => cfg!(any(feature = "b64", feature = "b32", feature = "hex")),
        FORG => cfg!(feature = "b64"),
        UPARSE | UFMT => cfg!(feature = "uuid"),
        ASCII | UTF32 | SWAP => cfg!(feature = "uni"),
        _ => false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Ok,
    Err,
    Panic,
}

/// What a call did.
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    /// the returned bytes (content of the returned slice / container / bool)
    pub bytes: Vec<u8>,
    /// returned slice starts at the start of the buffer
    pub at_start: bool,
    /// bytes of the destination behind the returned slice are as before (success only)
    pub rest_same: bool,
    /// the length of the buffer offered
    pub dst_len: usize,
    /// returned str / String was valid UTF-8
    pub utf8: bool,
    /// source bytes are as before (not checked for in-place calls)
    pub src_same: bool,
    /// stray writes around the buffers, heap misuse or leaks
    pub mem: Option<String>,
    pub panic_msg: String,
}

/// How a call is set up around the case itself.
#[derive(Clone, Copy)]
pub struct Background {
    /// byte for destination, overriding p[5]
    pub fill: Option<u8>,
    /// checking allocator with this poison
    pub heap: Option<u8>,
    /// source pages read-only during the call
    pub read_only: bool,
    /// pattern of bytes around the source: 0 canary
    pub neighbours: u8,
}

pub const PLAIN: Background = Background { fill: None, heap: None, read_only: false, neighbours: 0 };

#[derive(Default)]
pub struct Env {
    pub src: Region,
    pub dst: Region,
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn panic_msg() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

/// The bytes the model expects, or None for an error; ignores buffer sizes.
pub fn model_result(c: &Case) -> Option<Vec<u8>> {
    match c.fam {
        ENC => {
            let mut out = if k::enc_form(c.p[0], c.p[1]) == k::ENC_APPEND_VEC || k::enc_form(c.p[0], c.p[1]) == k::ENC_APPEND_STRING {
                c.b.clone()
            } else {
                Vec::with_capacity(c.a.len() * 2 + 8)
            };
            model::encode_into(&model::code(c.p[0]), &c.a, &mut out);
            Some(out)
        }
        DEC => {
            let f = k::dec_form(c.p[0], c.p[1]);
            match f {
                k::DEC_CHECK if c.p[0] < 8 => model::decode(&model::code(c.p[0]), &c.a).map(|_| Vec::new()),
                // the hex check does not care about odd lengths
                k::DEC_CHECK | k::DEC_CHECK_RAW => c.a.iter().all(u8::is_ascii_hexdigit).then(Vec::new),
                k::DEC_APPEND => model::decode(&model::code(c.p[0]), &c.a).map(|d| {
                    let mut v = c.b.clone();
                    v.extend_from_slice(&d);
                    v
                }),
                _ => model::decode(&model::code(c.p[0]), &c.a),
            }
        }
        FORG => model::forgiving(&c.a),
        UPARSE => match c.p[0] {
            0 => model::uuid_any(&c.a),
            1 => model::uuid_simple(&c.a),
            _ => model::uuid_hyphenated(&c.a),
        }
        .map(|x| x.to_vec()),
        UFMT => {
            let mut u = [0u8; 16];
            u.copy_from_slice(&c.a[..16]);
            let upper = c.p[0] & 2 != 0;
            Some(if c.p[0] & 1 == 0 { model::uuid_fmt_simple(&u, upper) } else { model::uuid_fmt_hyphenated(&u, upper) })
        }
        ASCII => {
            let ok = c.a.iter().all(|&b| b < 0x80);
            if c.p[0] == 0 {
                Some(vec![ok as u8])
            } else {
                ok.then(|| c.a.clone())
            }
        }
        UTF32 => Some(vec![u32s(&c.a).into_iter().all(model::is_scalar) as u8]),
        SWAP => {
            let w = if c.p[0] == 0 { 2 } else { 4 };
            let mut v = Vec::with_capacity(c.a.len());
            for ch in c.a.chunks_exact(w) {
                v.extend(ch.iter().rev());
            }
            Some(v)
        }
        _ => panic!("harness: bad family"),
    }
}

pub fn u32s(a: &[u8]) -> Vec<u32> {
    a.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

pub fn u16s(a: &[u8]) -> Vec<u16> {
    a.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}

/// Bytes needed in the caller's buffer (slice forms). For invalid text: an estimate.
pub fn need(c: &Case, want: &Option<Vec<u8>>) -> usize {
    match c.fam {
        FORG => c.a.len(),
        _ => match want {
            Some(w) => w.len(),
            None => c.a.len() * model::code(c.p[0]).bits as usize / 8,
        },
    }
}

/// The complete expectation for the status of the call, buffer size included.
pub fn model_status(c: &Case, want: &Option<Vec<u8>>, o: &Outcome) -> Status {
    let slice_form = match c.fam {
        ENC => !k::enc_is_owned(k::enc_form(c.p[0], c.p[1])) && k::enc_form(c.p[0], c.p[1]) != k::ENC_RAW,
        DEC => k::dec_form(c.p[0], c.p[1]) == k::DEC_SLICE,
        FORG => c.p[1] == 0,
        SWAP => {
            return if c.p[1] == 0 && o.dst_len < c.a.len() / width(c) * width(c) { Status::Panic } else { Status::Ok };
        }
        _ => false,
    };
    match want {
        None => Status::Err,
        Some(_) if slice_form && o.dst_len < need(c, want) => Status::Err,
        Some(_) => Status::Ok,
    }
}

fn width(c: &Case) -> usize {
    if c.p[0] == 0 { 2 } else { 4 }
}

fn finish(env: &mut Env, c: &Case, o: &mut Outcome, check_src: bool) {
    if check_src {
        o.src_same = env.src.bytes() == &c.a[..];
    }
}

impl Env {
    /// Runs the call. `want` is the model result (used only to size buffers).
    pub fn call(&mut self, c: &Case, want: &Option<Vec<u8>>, bg: Background) -> Outcome {
        let mut o = Outcome {
            status: Status::Ok,
            bytes: Vec::new(),
            at_start: true,
            rest_same: true,
            dst_len: 0,
            utf8: true,
            src_same: true,
            mem: None,
            panic_msg: String::new(),
        };
        let fill = bg.fill.unwrap_or(c.p[5] as u8);
        let delta = c.p[4] as i32;
        let live_before = if bg.heap.is_some() { heap::live() } else { 0 };
        match c.fam {
            ENC | DEC | FORG => self.codec_call(c, want, bg, fill, delta, &mut o),
            #[cfg(feature = "uuid")]
            UPARSE | UFMT => self.uuid_call(c, bg, fill, &mut o),
            #[cfg(feature = "uni")]
            ASCII | UTF32 | SWAP => self.unicode_call(c, bg, fill, delta, &mut o),
            _ => panic!("harness: family not built"),
        }
        if o.status == Status::Panic {
            o.panic_msg = panic_msg();
            if bg.heap.is_some() {
                heap::reset();
            }
        } else if bg.heap.is_some() {
            if let Some(e) = heap::take_error() {
                o.mem = Some(e.to_string());
            } else if heap::usable() && heap::live() != live_before {
                o.mem = Some(format!("{} heap block(s) leaked", heap::live() as isize - live_before as isize));
                heap::reset();
            }
        }
        o
    }

    fn guarded<T>(bg: Background, f: impl FnOnce() -> T) -> Result<T, ()> {
        let f = || {
            #[cfg(all(target_os = "linux", not(miri)))]
            let _pass = crate::race::pass();
            let _time = crate::linear::timed();
            #[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
            let _step = crate::step::pass();
            f()
        };
        match bg.heap {
            Some(p) => catch_unwind(AssertUnwindSafe(|| heap::armed(p, f))).map_err(drop),
            None => catch_unwind(AssertUnwindSafe(f)).map_err(drop),
        }
    }

    fn put_src(&mut self, c: &Case, bg: Background) -> *const u8 {
        let p = self.src.put(&c.a, c.p[2]);
        if bg.neighbours != 0 {
            let n = bg.neighbours;
            self.src.neighbours(&mut |i| match n {
                1 => b'A' + (i % 26) as u8,
                2 => 0xFF,
                3 => b'=',
                4 => b' ',
                5 => 0,
                _ => (i as u8).wrapping_mul(37) ^ n,
            });
        }
        if bg.read_only {
            self.src.protect(true);
        }
        p
    }

    fn after_src(&mut self, bg: Background, o: &mut Outcome) {
        if bg.read_only {
            self.src.protect(false);
        }
        if bg.neighbours == 0 && o.mem.is_none() {
            o.mem = self.src.intact().err().map(|e| format!("source: {e}"));
        }
    }

    /// `scratch`: bytes at the start of the buffer that the call may use freely
    fn slice_result(&mut self, o: &mut Outcome, base: *const u8, r: Result<Result<(*const u8, usize), ()>, ()>, fill: u8, scratch: usize) {
        match r {
            Err(()) => o.status = Status::Panic,
            Ok(Err(())) => o.status = Status::Err,
            Ok(Ok((p, n))) => {
                o.at_start = p == base;
                o.bytes = unsafe { core::slice::from_raw_parts(p, n) }.to_vec();
                let n = n.max(scratch);
                if o.at_start && n <= o.dst_len && !cfg!(miri) {
                    o.rest_same = self.dst.bytes()[n..].iter().all(|&x| x == fill);
                }
            }
        }
        if o.mem.is_none() {
            o.mem = self.dst.intact().err().map(|e| format!("destination: {e}"));
        }
    }

    fn codec_call(&mut self, c: &Case, want: &Option<Vec<u8>>, bg: Background, fill: u8, delta: i32, o: &mut Outcome) {
        let id = c.p[0];
        let n = c.a.len();
        let form = match c.fam {
            ENC => k::enc_form(id, c.p[1]),
            DEC => k::dec_form(id, c.p[1]),
            _ => c.p[1],
        };
        let inplace = match c.fam {
            DEC => form == k::DEC_INPLACE || form == k::DEC_RAW_INPLACE,
            FORG => form == 1,
            _ => false,
        };
        if inplace {
            // the buffer is source and destination
            let p = self.dst.get(n, c.p[3], fill);
            unsafe { core::ptr::copy_nonoverlapping(c.a.as_ptr(), p, n) };
            o.dst_len = n;
            let r = Self::guarded(bg, || {
                let d = unsafe { core::slice::from_raw_parts_mut(p, n) };
                #[cfg(feature = "b64")]
                if c.fam == FORG {
                    return base64_simd::forgiving_decode_inplace(d).map(|x| (x.as_ptr(), x.len())).map_err(drop);
                }
                #[cfg(feature = "hex")]
                if form == k::DEC_RAW_INPLACE {
                    return unsafe { hex_simd::decode_raw(p, n, p) }.map(|m| (p.cast_const(), m)).map_err(drop);
                }
                k::decode_inplace(id, d).map(|x| (x.as_ptr(), x.len()))
            });
            self.slice_result(o, p, r, fill, usize::MAX);
            return;
        }
        let sp = self.put_src(c, bg);
        let owned = match c.fam {
            ENC => k::enc_is_owned(form),
            DEC => k::dec_is_owned(form),
            _ => form == 2,
        };
        let is_check = c.fam == DEC && form >= k::DEC_CHECK;
        let src = || unsafe { core::slice::from_raw_parts(sp, n) };
        if is_check {
            let r = Self::guarded(bg, || {
                #[cfg(feature = "hex")]
                if form == k::DEC_CHECK_RAW {
                    return unsafe { hex_simd::check_raw(sp, n) }.map_err(drop);
                }
                k::check(id, src())
            });
            o.status = match r {
                Ok(Ok(())) => Status::Ok,
                Ok(Err(())) => Status::Err,
                Err(()) => Status::Panic,
            };
        } else if owned {
            #[cfg(feature = "alloc")]
            {
                let cap = delta.max(0) as usize;
                let r: Result<k::R<k::Owned>, ()> = match c.fam {
                    ENC => {
                        let pre = std::str::from_utf8(&c.b).unwrap_or("");
                        Self::guarded(bg, || Ok(k::encode_owned(id, form, src(), pre, cap)))
                    }
                    DEC => Self::guarded(bg, || k::decode_owned(id, form, src(), &c.b, cap)),
                    _ => {
                        #[cfg(feature = "b64")]
                        {
                            Self::guarded(bg, || base64_simd::forgiving_decode_to_vec(src()).map(k::Owned::Vec).map_err(drop))
                        }
                        #[cfg(not(feature = "b64"))]
                        {
                            panic!("harness: no b64")
                        }
                    }
                };
                match r {
                    Err(()) => o.status = Status::Panic,
                    Ok(Err(())) => o.status = Status::Err,
                    Ok(Ok(v)) => {
                        o.bytes = v.bytes().to_vec();
                        o.utf8 = !matches!(v, k::Owned::Str(_) | k::Owned::BoxStr(_)) || std::str::from_utf8(&o.bytes).is_ok();
                        drop(v);
                    }
                }
            }
            #[cfg(not(feature = "alloc"))]
            panic!("harness: no alloc");
        } else {
            let need = need(c, want);
            let raw = (c.fam == ENC && form == k::ENC_RAW) || (c.fam == DEC && form == k::DEC_RAW);
            let delta = if raw { delta.max(0) } else { delta };
            let dl = (need as i64 + delta as i64).max(0) as usize;
            // raw forms need room for what they may write even on failure
            let dl = if raw { dl.max(if c.fam == ENC { n * 2 } else { n / 2 }) } else { dl };
            o.dst_len = dl;
            let p = self.dst.get(dl, c.p[3], fill);
            let r = Self::guarded(bg, || {
                let d = unsafe { core::slice::from_raw_parts_mut(p, dl) };
                match (c.fam, form) {
                    (ENC, k::ENC_SLICE) => k::encode(id, src(), d).map(|x| (x.as_ptr(), x.len())),
                    (ENC, k::ENC_STR) => k::encode_as_str(id, src(), d).map(|x| (x.as_ptr(), x.len())),
                    #[cfg(feature = "hex")]
                    (ENC, _) => {
                        let case = if id == 8 { hex_simd::AsciiCase::Lower } else { hex_simd::AsciiCase::Upper };
                        Ok((p.cast_const(), unsafe { hex_simd::encode_raw(sp, n, p, case) }))
                    }
                    (DEC, k::DEC_SLICE) => k::decode(id, src(), d).map(|x| (x.as_ptr(), x.len())),
                    #[cfg(feature = "hex")]
                    (DEC, _) => unsafe { hex_simd::decode_raw(sp, n, p) }.map(|m| (p.cast_const(), m)).map_err(drop),
                    #[cfg(feature = "b64")]
                    (FORG, _) => {
                        use outref::AsOut;
                        base64_simd::forgiving_decode(src(), d.as_out()).map(|x| (x.as_ptr(), x.len())).map_err(drop)
                    }
                    _ => panic!("harness: form not built"),
                }
            });
            // forgiving decoding may use the buffer up to the source length as scratch space
            self.slice_result(o, p, r, fill, if c.fam == FORG { n } else { 0 });
        }
        finish(self, c, o, true);
        self.after_src(bg, o);
    }

    #[cfg(feature = "uuid")]
    fn uuid_call(&mut self, c: &Case, bg: Background, fill: u8, o: &mut Outcome) {
        use uuid_simd::{AsciiCase, Out, UuidExt};
        let sp = self.put_src(c, bg);
        let n = c.a.len();
        let src = || unsafe { core::slice::from_raw_parts(sp, n) };
        if c.fam == UPARSE {
            if c.p[1] == 1 {
                let r = Self::guarded(bg, || {
                    scrub(fill);
                    let s = src();
                    match c.p[0] {
                        0 => <uuid::Uuid as UuidExt>::parse(s),
                        1 => <uuid::Uuid as UuidExt>::parse_simple(s),
                        _ => <uuid::Uuid as UuidExt>::parse_hyphenated(s),
                    }
                    .map_err(drop)
                });
                match r {
                    Err(()) => o.status = Status::Panic,
                    Ok(Err(())) => o.status = Status::Err,
                    Ok(Ok(u)) => o.bytes = u.as_bytes().to_vec(),
                }
            } else {
                o.dst_len = 16;
                let p = self.dst.get(16, c.p[3], fill);
                let r = Self::guarded(bg, || {
                    let s = src();
                    let d: Out<'_, [u8; 16]> = unsafe { Out::new(p.cast()) };
                    match c.p[0] {
                        0 => uuid_simd::parse(s, d),
                        1 => uuid_simd::parse_simple(s, d),
                        _ => uuid_simd::parse_hyphenated(s, d),
                    }
                    .map(|x| (x.as_ptr(), 16))
                    .map_err(drop)
                });
                self.slice_result(o, p, r, fill, 0);
            }
        } else {
            let upper = c.p[0] & 2 != 0;
            let hyph = c.p[0] & 1 != 0;
            let case = if upper { AsciiCase::Upper } else { AsciiCase::Lower };
            if c.p[1] == 0 {
                let m = if hyph { 36 } else { 32 };
                o.dst_len = m;
                let p = self.dst.get(m, c.p[3], fill);
                let r = Self::guarded(bg, || {
                    let s: &[u8; 16] = unsafe { &*sp.cast() };
                    Ok(if hyph {
                        let d = unsafe { Out::new(p.cast()) };
                        let x = uuid_simd::format_hyphenated(s, d, case);
                        (x.as_ptr(), x.len())
                    } else {
                        let d = unsafe { Out::new(p.cast()) };
                        let x = uuid_simd::format_simple(s, d, case);
                        (x.as_ptr(), x.len())
                    })
                });
                self.slice_result(o, p, r, fill, 0);
            } else {
                let mut b = [0u8; 16];
                b.copy_from_slice(&c.a[..16]);
                let u = uuid::Uuid::from_bytes(b);
                let r = Self::guarded(bg, || {
                    scrub(fill);
                    if c.p[1] >= 3 {
                        return with_flags(&u, hyph, upper, c.p[1]);
                    }
                    match (hyph, upper, c.p[1]) {
                        (false, false, 1) => format!("{}", UuidExt::format_simple(&u)),
                        (false, false, _) => format!("{:x}", UuidExt::format_simple(&u)),
                        (false, true, _) => format!("{:X}", UuidExt::format_simple(&u)),
                        (true, false, 1) => format!("{}", UuidExt::format_hyphenated(&u)),
                        (true, false, _) => format!("{:x}", UuidExt::format_hyphenated(&u)),
                        (true, true, _) => format!("{:X}", UuidExt::format_hyphenated(&u)),
                    }
                });
                match r {
                    Err(()) => o.status = Status::Panic,
                    Ok(s) => {
                        o.bytes = s.as_bytes().to_vec();
                        o.utf8 = std::str::from_utf8(&o.bytes).is_ok();
                        drop(s);
                    }
                }
            }
        }
        finish(self, c, o, true);
        self.after_src(bg, o);
    }

    #[cfg(feature = "uni")]
    fn unicode_call(&mut self, c: &Case, bg: Background, fill: u8, delta: i32, o: &mut Outcome) {
        use outref::AsOut;
        match c.fam {
            ASCII => {
                let sp = self.put_src(c, bg);
                let n = c.a.len();
                let src = unsafe { core::slice::from_raw_parts(sp, n) };
                if c.p[0] == 0 {
                    match Self::guarded(bg, || unicode_simd::is_ascii(src)) {
                        Ok(b) => o.bytes.push(b as u8),
                        Err(()) => o.status = Status::Panic,
                    }
                } else {
                    match Self::guarded(bg, || unicode_simd::from_ascii(src)) {
                        Ok(Some(s)) => {
                            o.bytes = s.as_bytes().to_vec();
                            o.at_start = s.as_ptr() == sp;
                            o.utf8 = std::str::from_utf8(&o.bytes).is_ok();
                        }
                        Ok(None) => o.status = Status::Err,
                        Err(()) => o.status = Status::Panic,
                    }
                }
                finish(self, c, o, true);
                self.after_src(bg, o);
            }
            UTF32 => {
                let v = u32s(&c.a);
                let sp = self.src.put_u32(&v, c.p[2]);
                self.dress(bg);
                let r = Self::guarded(bg, || unicode_simd::is_utf32le(unsafe { core::slice::from_raw_parts(sp, v.len()) }));
                match r {
                    Ok(b) => o.bytes.push(b as u8),
                    Err(()) => o.status = Status::Panic,
                }
                o.src_same = unsafe { core::slice::from_raw_parts(sp, v.len()) } == &v[..];
                self.after_src(bg, o);
            }
            _ => {
                let w = width(c);
                let count = c.a.len() / w;
                let (v16, v32) = (u16s(&c.a), if w == 4 { u32s(&c.a) } else { Vec::new() });
                let to_bytes = |p: *const u8, n: usize| -> Vec<u8> {
                    let mut out = Vec::new();
                    unsafe {
                        if w == 2 {
                            for x in core::slice::from_raw_parts(p.cast::<u16>(), n) {
                                out.extend(x.to_le_bytes());
                            }
                        } else {
                            for x in core::slice::from_raw_parts(p.cast::<u32>(), n) {
                                out.extend(x.to_le_bytes());
                            }
                        }
                    }
                    out
                };
                if c.p[1] == 1 {
                    let p = self.dst.get_elems(count, w, c.p[3], fill);
                    o.dst_len = count * w;
                    unsafe {
                        if w == 2 {
                            core::ptr::copy_nonoverlapping(v16.as_ptr(), p.cast(), count);
                        } else {
                            core::ptr::copy_nonoverlapping(v32.as_ptr(), p.cast(), count);
                        }
                    }
                    let r = Self::guarded(bg, || unsafe {
                        if w == 2 {
                            unicode_simd::utf16_swap_endianness_inplace(core::slice::from_raw_parts_mut(p.cast(), count));
                        } else {
                            unicode_simd::utf32_swap_endianness_inplace(core::slice::from_raw_parts_mut(p.cast(), count));
                        }
                    });
                    if r.is_err() {
                        o.status = Status::Panic;
                    } else {
                        o.bytes = to_bytes(p, count);
                    }
                    o.mem = self.dst.intact().err();
                    return;
                }
                let sp: *const u8 = if w == 2 { self.src.put_u16(&v16, c.p[2]).cast() } else { self.src.put_u32(&v32, c.p[2]).cast() };
                self.dress(bg);
                let dc = (count as i64 + delta as i64).max(0) as usize;
                let p = self.dst.get_elems(dc, w, c.p[3], fill);
                o.dst_len = dc * w;
                let r = Self::guarded(bg, || unsafe {
                    if w == 2 {
                        let s = core::slice::from_raw_parts(sp.cast::<u16>(), count);
                        let d = core::slice::from_raw_parts_mut(p.cast::<u16>(), dc);
                        let x = unicode_simd::utf16_swap_endianness(s, d.as_out());
                        (x.as_ptr().cast::<u8>(), x.len())
                    } else {
                        let s = core::slice::from_raw_parts(sp.cast::<u32>(), count);
                        let d = core::slice::from_raw_parts_mut(p.cast::<u32>(), dc);
                        let x = unicode_simd::utf32_swap_endianness(s, d.as_out());
                        (x.as_ptr().cast::<u8>(), x.len())
                    }
                });
                match r {
                    Err(()) => o.status = Status::Panic,
                    Ok((rp, n)) => {
                        o.at_start = rp == p.cast_const();
                        o.bytes = to_bytes(rp, n);
                        if o.at_start && n <= dc && !cfg!(miri) {
                            o.rest_same = self.dst.bytes()[n * w..].iter().all(|&x| x == fill);
                        }
                    }
                }
                o.mem = self.dst.intact().err().map(|e| format!("destination: {e}"));
                o.src_same = to_bytes(sp, count) == c.a[..count * w];
                self.after_src(bg, o);
            }
        }
    }

    #[cfg(feature = "uni")]
    fn dress(&mut self, bg: Background) {
        if bg.neighbours != 0 {
            let n = bg.neighbours;
            self.src.neighbours(&mut |i| (i as u8).wrapping_mul(53) ^ n.wrapping_mul(0x91));
        }
        if bg.read_only {
            self.src.protect(true);
        }
    }
}

/// 0 plain, 1 Display, 2 hex; then format specs: 8 styles x (width, precision, both) x 12 sizes
pub const UFMT_FORMS: u32 = 3 + 8 * 3 * 12;

/// Formatting with a format spec: exactly as the text itself, a `str`, comes out with that spec.
/// Gives the bare text, or what came out instead.
#[cfg(feature = "uuid")]
fn with_flags(u: &uuid::Uuid, hyph: bool, upper: bool, form: u32) -> String {
    use uuid_simd::UuidExt;
    const WIDTHS: [usize; 12] = [37, 33, 41, 99, 60, 36, 32, 5, 0, 44, 35, 300];
    const PRECISIONS: [usize; 12] = [64, 99, 36, 32, 37, 10, 0, 35, 31, 1, 33, 9];
    let k = (form - 3) as usize;
    let (style, kind) = (k % 8, k / 8 % 3);
    let w = WIDTHS[k / 24 % 12];
    let p = PRECISIONS[(k / 24 * 5 + style) % 12];
    macro_rules! one {
        ($v:expr, $flags:literal, $hex:literal) => {
            match kind {
                0 => format!(concat!("{0:", $flags, "1$", $hex, "}"), $v, w),
                1 => format!(concat!("{0:", $flags, ".1$", $hex, "}"), $v, p),
                _ => format!(concat!("{0:", $flags, "1$.2$", $hex, "}"), $v, w, p),
            }
        };
    }
    macro_rules! show {
        ($v:expr, $hex:literal) => {{
            let v = $v;
            match style {
                0 => one!(v, "", $hex),
                1 => one!(v, "<", $hex),
                2 => one!(v, "^", $hex),
                3 => one!(v, ">", $hex),
                4 => one!(v, "*^", $hex),
                5 => one!(v, "\u{e9}>#", $hex),
                6 => one!(v, "<+", $hex),
                _ => one!(v, "-<-#", $hex),
            }
        }};
    }
    let mut text = String::new();
    for (i, b) in u.as_bytes().iter().enumerate() {
        if hyph && matches!(i, 4 | 6 | 8 | 10) {
            text.push('-');
        }
        for d in [b >> 4, b & 15] {
            let d = char::from_digit(d as u32, 16).unwrap();
            text.push(if upper { d.to_ascii_uppercase() } else { d });
        }
    }
    let got = match (hyph, upper, style & 1 == 0) {
        (false, true, _) => show!(UuidExt::format_simple(u), "X"),
        (true, true, _) => show!(UuidExt::format_hyphenated(u), "X"),
        (false, false, true) => show!(UuidExt::format_simple(u), "x"),
        (true, false, true) => show!(UuidExt::format_hyphenated(u), "x"),
        (false, false, false) => show!(UuidExt::format_simple(u), ""),
        (true, false, false) => show!(UuidExt::format_hyphenated(u), ""),
    };
    let want = show!(text.as_str(), "");
    if got != want {
        return got;
    }
    // a writer that fails is reported
    struct Limited(usize);
    impl std::fmt::Write for Limited {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
            Ok(())
        }
    }
    let room = [0, 1, 7, 8, 31, text.len() - 1, text.len(), 99][(k / 24 + style) % 8];
    let mut w = Limited(room);
    use std::fmt::Write;
    let r = match (hyph, upper, style & 1 == 0) {
        (false, true, _) => write!(w, "{:X}", UuidExt::format_simple(u)),
        (true, true, _) => write!(w, "{:X}", UuidExt::format_hyphenated(u)),
        (false, false, true) => write!(w, "{:x}", UuidExt::format_simple(u)),
        (true, false, true) => write!(w, "{:x}", UuidExt::format_hyphenated(u)),
        (false, false, false) => write!(w, "{}", UuidExt::format_simple(u)),
        (true, false, false) => write!(w, "{}", UuidExt::format_hyphenated(u)),
    };
    if r.is_ok() != (room >= text.len()) {
        return format!("{r:?} from a writer with room for {room}");
    }
    text
}

/// Overwrites a stretch of stack below the caller, so that stale stack bytes are `fill`.
#[inline(never)]
pub fn scrub(fill: u8) {
    let mut x = [fill; 2048];
    std::hint::black_box(&mut x);
}

pub fn canary() -> u8 {
    CANARY
}

/// A one-line description of the case for messages.
pub fn describe(c: &Case) -> String {
    let what = match c.fam {
        ENC => format!("{} {}", k::CODEC_NAMES[c.p[0] as usize], k::ENC_NAMES[k::enc_form(c.p[0], c.p[1]) as usize]),
        DEC => format!("{} {}", k::CODEC_NAMES[c.p[0] as usize], k::DEC_NAMES[k::dec_form(c.p[0], c.p[1]) as usize]),
        FORG => ["forgiving_decode", "forgiving_decode_inplace", "forgiving_decode_to_vec"][c.p[1].min(2) as usize].to_string(),
        UPARSE => format!("{}uuid {}", if c.p[1] == 1 { "UuidExt " } else { "" }, ["parse", "parse_simple", "parse_hyphenated"][c.p[0].min(2) as usize]),
        UFMT => format!("uuid format {} {} form {}", if c.p[0] & 1 == 0 { "simple" } else { "hyphenated" }, if c.p[0] & 2 == 0 { "lower" } else { "upper" }, c.p[1]),
        ASCII => ["is_ascii", "from_ascii"][c.p[0].min(1) as usize].to_string(),
        UTF32 => "is_utf32le".to_string(),
        SWAP => format!("utf{}_swap_endianness{}", if c.p[0] == 0 { 16 } else { 32 }, if c.p[1] == 1 { "_inplace" } else { "" }),
        f => format!("family {f}"),
    };
    format!("{what}, input of {} bytes, placement src {} dst {}, delta {}", c.a.len(), c.p[2], c.p[3], c.p[4] as i32)
}
