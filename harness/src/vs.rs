//! The vector operations of vsimd (C14) and its shared building blocks (C15) against lane-wise scalar definitions.

use crate::api::{panic_msg, Env};
use crate::case::Case;
use crate::drive::{Ctx, Flow};
use crate::props::{Info, Res};
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vsimd::alsw::{self, AlswLut};
use vsimd::isa::*;
use vsimd::vector::{V128, V256, V512, V64};
use vsimd::{ascii, bswap, hex, mask, table, Scalable, SIMD128, SIMD256};

pub const VOP: u32 = 30;
pub const BSWAP: u32 = 31;
pub const TOOL: u32 = 32;
pub const VBLOCK: u32 = 33;

#[derive(Clone)]
pub struct In {
    pub a: [u8; 32],
    pub b: [u8; 32],
    pub c: [u8; 32],
    /// offset for the unaligned loads and stores
    pub align: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub struct Out {
    d: [u8; 64],
    n: u8,
    /// 0 value, 1 rejected
    err: u8,
}

impl Out {
    fn of(n: usize) -> Self {
        Out { d: [0; 64], n: n as u8, err: 0 }
    }
    fn flag(b: bool) -> Self {
        let mut o = Out::of(1);
        o.d[0] = b as u8;
        o
    }
    fn num(v: u32) -> Self {
        let mut o = Out::of(4);
        o.d[..4].copy_from_slice(&v.to_le_bytes());
        o
    }
    fn rejected() -> Self {
        Out { d: [0; 64], n: 0, err: 1 }
    }
    fn show(&self) -> String {
        if self.err != 0 {
            return "rejected".into();
        }
        self.d[..self.n as usize].iter().map(|b| format!("{b:02x}")).collect()
    }
}

trait Pack {
    fn pack(self) -> Out;
}
impl Pack for Out {
    #[inline(always)]
    fn pack(self) -> Out {
        self
    }
}
impl Pack for bool {
    #[inline(always)]
    fn pack(self) -> Out {
        Out::flag(self)
    }
}
impl Pack for u32 {
    #[inline(always)]
    fn pack(self) -> Out {
        Out::num(self)
    }
}
macro_rules! pack_bytes {
    ($($t:ty, $n:expr, |$x:ident| $e:expr;)*) => {$(
        impl Pack for $t {
            #[inline(always)]
            fn pack(self) -> Out {
                let $x = self;
                let mut o = Out::of($n);
                o.d[..$n].copy_from_slice($e);
                o
            }
        }
    )*};
}
pack_bytes! {
    [u8; 8], 8, |x| &x;
    V64, 8, |x| x.as_bytes();
    V128, 16, |x| x.as_bytes();
    V256, 32, |x| x.as_bytes();
    V512, 64, |x| x.as_bytes();
}
impl Pack for (V128, V128) {
    #[inline(always)]
    fn pack(self) -> Out {
        let mut o = Out::of(32);
        o.d[..16].copy_from_slice(self.0.as_bytes());
        o.d[16..32].copy_from_slice(self.1.as_bytes());
        o
    }
}
impl Pack for (V256, V256) {
    #[inline(always)]
    fn pack(self) -> Out {
        let mut o = Out::of(64);
        o.d[..32].copy_from_slice(self.0.as_bytes());
        o.d[32..].copy_from_slice(self.1.as_bytes());
        o
    }
}
impl<T: Pack> Pack for Result<T, ()> {
    #[inline(always)]
    fn pack(self) -> Out {
        match self {
            Ok(v) => v.pack(),
            Err(()) => Out::rejected(),
        }
    }
}
trait Pack2 {
    fn pack2(p: V64, q: V64) -> Out;
}
impl Pack2 for V64 {
    #[inline(always)]
    fn pack2(p: V64, q: V64) -> Out {
        let mut o = Out::of(16);
        o.d[..8].copy_from_slice(p.as_bytes());
        o.d[8..16].copy_from_slice(q.as_bytes());
        o
    }
}

macro_rules! vec_args {
    ($($n128:ident $n256:ident $f:ident;)*) => {$(
        #[inline(always)]
        fn $n128(x: &In) -> V128 {
            let mut e = [0u8; 16];
            e.copy_from_slice(&x.$f[..16]);
            V128::from_bytes(e)
        }
        #[inline(always)]
        fn $n256(x: &In) -> V256 {
            V256::from_bytes(x.$f)
        }
    )*};
}
vec_args! {
    a128 a256 a;
    b128 b256 b;
    c128 c256 c;
}

// ---- lane-wise definitions --------------------------------------------------------------------------

trait Lane: Copy {
    const N: usize;
    fn g(b: &[u8]) -> Self;
    fn p(self, b: &mut [u8]);
}
macro_rules! lane {
    ($($t:ty)*) => {$(
        impl Lane for $t {
            const N: usize = core::mem::size_of::<$t>();
            #[inline(always)]
            fn g(b: &[u8]) -> Self {
                let mut e = [0u8; core::mem::size_of::<$t>()];
                e.copy_from_slice(&b[..Self::N]);
                <$t>::from_le_bytes(e)
            }
            #[inline(always)]
            fn p(self, b: &mut [u8]) {
                b[..Self::N].copy_from_slice(&self.to_le_bytes());
            }
        }
    )*};
}
lane!(u8 u16 u32 u64 i8 i16 i32 i64);

#[inline(always)]
fn first<T: Lane>(a: &[u8; 32]) -> T {
    T::g(a)
}
fn un<T: Lane>(w: usize, a: &[u8], f: impl Fn(T) -> T) -> Out {
    let mut o = Out::of(w);
    for i in (0..w).step_by(T::N) {
        f(T::g(&a[i..])).p(&mut o.d[i..]);
    }
    o
}
fn bi<T: Lane>(w: usize, a: &[u8], b: &[u8], f: impl Fn(T, T) -> T) -> Out {
    let mut o = Out::of(w);
    for i in (0..w).step_by(T::N) {
        f(T::g(&a[i..]), T::g(&b[i..])).p(&mut o.d[i..]);
    }
    o
}
fn cmp<T: Lane>(w: usize, a: &[u8], b: &[u8], f: impl Fn(T, T) -> bool) -> Out {
    let mut o = Out::of(w);
    for i in (0..w).step_by(T::N) {
        let m = if f(T::g(&a[i..]), T::g(&b[i..])) { 0xFF } else { 0 };
        o.d[i..i + T::N].fill(m);
    }
    o
}
/// byte shuffle within each 16-byte half: the high bit selects zero, the low four bits the byte
fn swizzle(w: usize, a: &[u8], b: &[u8]) -> Out {
    let mut o = Out::of(w);
    for i in 0..w {
        let half = i / 16 * 16;
        o.d[i] = if b[i] & 0x80 != 0 { 0 } else { a[half + (b[i] & 15) as usize] };
    }
    o
}
fn lookup(w: usize, lut: &[u8], x: &[u8]) -> Out {
    swizzle(w, lut, x)
}
/// interleaves the low or high halves of each 16-byte part
fn zip<T: Lane>(w: usize, a: &[u8], b: &[u8], high: bool) -> Out {
    let mut o = Out::of(w);
    for half in (0..w).step_by(16) {
        let from = half + if high { 8 } else { 0 };
        let mut at = half;
        for i in (from..from + 8).step_by(T::N) {
            T::g(&a[i..]).p(&mut o.d[at..]);
            T::g(&b[i..]).p(&mut o.d[at + T::N..]);
            at += 2 * T::N;
        }
    }
    o
}
fn unzip(w: usize, a: &[u8], b: &[u8], odd: usize) -> Out {
    let mut o = Out::of(w);
    for i in 0..w / 2 {
        o.d[i] = a[2 * i + odd];
        o.d[w / 2 + i] = b[2 * i + odd];
    }
    o
}
fn cat(p: &[u8], q: &[u8]) -> Out {
    let mut o = Out::of(p.len() + q.len());
    o.d[..p.len()].copy_from_slice(p);
    o.d[p.len()..p.len() + q.len()].copy_from_slice(q);
    o
}
fn maddubs(w: usize, a: &[u8], b: &[u8]) -> Out {
    let mut o = Out::of(w);
    for i in (0..w).step_by(2) {
        let s = a[i] as i32 * b[i] as i8 as i32 + a[i + 1] as i32 * b[i + 1] as i8 as i32;
        (s.clamp(i16::MIN as i32, i16::MAX as i32) as i16).p(&mut o.d[i..]);
    }
    o
}
fn madd(w: usize, a: &[u8], b: &[u8]) -> Out {
    let mut o = Out::of(w);
    for i in (0..w).step_by(4) {
        let f = |k: usize| i16::g(&a[i + k..]) as i32 * i16::g(&b[i + k..]) as i32;
        f(0).wrapping_add(f(2)).p(&mut o.d[i..]);
    }
    o
}
fn blendv(w: usize, x: &In) -> Out {
    let mut o = Out::of(w);
    for i in 0..w {
        o.d[i] = if x.c[i] & 0x80 != 0 { x.b[i] } else { x.a[i] };
    }
    o
}
fn blend(w: usize, unit: usize, x: &In, imm: i32) -> Out {
    let mut o = Out::of(w);
    for i in 0..w {
        o.d[i] = if imm >> (i / unit) & 1 != 0 { x.b[i] } else { x.a[i] };
    }
    o
}
fn packus(x: &In) -> Out {
    let mut o = Out::of(16);
    for i in 0..8 {
        o.d[i] = i16::g(&x.a[2 * i..]).clamp(0, 255) as u8;
        o.d[8 + i] = i16::g(&x.b[2 * i..]).clamp(0, 255) as u8;
    }
    o
}
fn hex_val(c: u8) -> Option<u8> {
    (c as char).to_digit(16).filter(|_| c < 128).map(|v| v as u8)
}
fn spec_hex(d: &[u8], charset: &[u8; 16]) -> Out {
    let mut o = Out::of(d.len() * 2);
    for (i, b) in d.iter().enumerate() {
        o.d[2 * i] = charset[(b >> 4) as usize];
        o.d[2 * i + 1] = charset[(b & 15) as usize];
    }
    o
}
fn spec_unhex(t: &[u8]) -> Out {
    let mut o = Out::of(t.len() / 2);
    for (i, p) in t.chunks(2).enumerate() {
        match (hex_val(p[0]), hex_val(p[1])) {
            (Some(h), Some(l)) => o.d[i] = h << 4 | l,
            _ => return Out::rejected(),
        }
    }
    o
}
/// decode_nibbles: (nibbles, marks); a mark's high bit means "not a digit", nibbles count only where there is none
fn nibbles(x: &In, (n, bad): (V128, V128)) -> Out {
    let mut o = Out::of(32);
    for i in 0..16 {
        let is_bad = bad.as_bytes()[i] & 0x80 != 0;
        o.d[16 + i] = is_bad as u8;
        o.d[i] = if is_bad { 0 } else { n.as_bytes()[i] };
    }
    let _ = x;
    o
}
fn spec_nibbles(x: &In) -> Out {
    let mut o = Out::of(32);
    for i in 0..16 {
        match hex_val(x.a[i]) {
            Some(v) => o.d[i] = v,
            None => o.d[16 + i] = 1,
        }
    }
    o
}

// ---- alphabets for the ALSW algorithm ---------------------------------------------------------------

macro_rules! alsw_spec {
    ($t:ident, $alphabet:expr, |$c:ident| $check:expr, |$d:ident| $decode:expr) => {
        pub struct $t;
        impl $t {
            const ALPHABET: &'static [u8] = $alphabet;
            const CHECK: AlswLut<V128> = Self::check_lut();
            const DECODE: AlswLut<V128> = Self::decode_lut();
            const fn decode(c: u8) -> u8 {
                let mut i = 0;
                while i < Self::ALPHABET.len() {
                    if Self::ALPHABET[i] == c {
                        return Self::number(i);
                    }
                    i += 1;
                }
                0xFF
            }
            const fn number(i: usize) -> u8 {
                // the hex alphabet lists a-f after A-F
                if Self::ALPHABET.len() == 22 && i >= 16 {
                    (i - 6) as u8
                } else {
                    i as u8
                }
            }
            const fn check_hash(i: u8) -> u8 {
                let $c = i;
                $check
            }
            const fn decode_hash(i: u8) -> u8 {
                let $d = i;
                $decode
            }
            fn value(c: u8) -> u8 {
                Self::ALPHABET.iter().position(|&x| x == c).map_or(0xFF, Self::number)
            }
            fn alphabet() -> &'static [u8] {
                Self::ALPHABET
            }
        }
        vsimd::impl_alsw!($t);
    };
}

alsw_spec!(HexSpec, b"0123456789ABCDEFabcdef", |i| match i { 0..=6 => 1, 7..=9 => 6, _ => 8 }, |i| match i { 0..=6 => 1, 7..=9 => 6, _ => 8 });
alsw_spec!(
    Base32Spec,
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
    |i| match i { 0 | 1 => 1, 2..=7 => 6, 8..=0xA => 1, _ => 7 },
    |i| match i { 0 | 1 => 1, 2..=7 => 6, 8..=0xA => 1, _ => 7 }
);
alsw_spec!(
    Base32HexSpec,
    b"0123456789ABCDEFGHIJKLMNOPQRSTUV",
    |i| match i { 0..=6 => 1, 7..=9 => 7, _ => 2 },
    |i| match i { 0..=6 => 1, 7..=9 => 7, _ => 2 }
);
alsw_spec!(
    Base64Spec,
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
    |i| match i { 0 => 5, 1..=9 => 2, 0xA => 4, 0xB => 6, 0xC..=0xE => 8, _ => 6 },
    |i| match i { 0xB => 0x07, 0xF => 0x08, _ => 0x01 }
);
alsw_spec!(
    Base64UrlSpec,
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
    |i| match i { 0 => 7, 1..=9 => 2, 0xA => 4, 0xB | 0xC => 6, 0xD => 8, _ => 6 },
    |i| match i { 0xD => 0x01, 0xF => 0x05, _ => 0x01 }
);

/// (check marks, values): rejected if any mark has its high bit set
fn alsw_decode<V: vsimd::POD>(x: &In, w: usize, (c1, c2): (V, V), value: fn(u8) -> u8) -> Out
where
    V: Pack,
{
    let (c1, c2) = (c1.pack(), c2.pack());
    let mut o = Out::of(w);
    if c1.d[..w].iter().any(|&m| m >= 0x80) {
        return Out::rejected();
    }
    o.d[..w].copy_from_slice(&c2.d[..w]);
    let _ = (x, value);
    o
}
fn spec_text(w: usize, x: &In, value: fn(u8) -> u8) -> Out {
    let mut o = Out::of(w);
    for i in 0..w {
        let v = value(x.a[i]);
        if v == 0xFF {
            return Out::rejected();
        }
        o.d[i] = v;
    }
    o
}

// ---- memory for loads and stores --------------------------------------------------------------------

#[repr(align(64))]
pub struct Mem {
    d: [u8; 192],
    at: usize,
    n: usize,
}

impl Mem {
    #[inline(always)]
    fn new(content: &[u8], align: usize, n: usize) -> Self {
        let mut m = Mem { d: [0xC7; 192], at: 64 + align % 64, n };
        let at = m.at;
        m.d[at..at + n].copy_from_slice(&content[..n]);
        m
    }
    #[inline(always)]
    fn ptr(&self) -> *const u8 {
        core::hint::black_box(self.d.as_ptr().wrapping_add(self.at))
    }
    #[inline(always)]
    fn ptr_mut(&mut self) -> *mut u8 {
        let at = self.at;
        core::hint::black_box(self.d.as_mut_ptr().wrapping_add(at))
    }
    #[inline(never)]
    fn check(&self, content: &[u8]) {
        core::hint::black_box(self);
        assert!(self.d[..self.at].iter().all(|&b| b == 0xC7), "bytes before the vector changed");
        assert!(self.d[self.at + self.n..].iter().all(|&b| b == 0xC7), "bytes after the vector changed");
        assert!(&self.d[self.at..self.at + self.n] == content, "memory holds other bytes than the vector");
    }
    fn out(&self, n: usize) -> Out {
        let mut o = Out::of(n);
        o.d[..n].copy_from_slice(&self.d[self.at..self.at + n]);
        o
    }
}

// ---- tables -----------------------------------------------------------------------------------------

type Run = unsafe fn(&In) -> Out;

/// How inputs are shaped.
#[derive(Clone, Copy)]
pub enum Kind {
    Any,
    Sparse,
    Index,
    Mask,
    High,
    Hex,
    Hex2,
    Text,
    Nibbles,
    Alphabet(fn() -> &'static [u8]),
}
use Kind::*;

pub struct Op {
    pub name: &'static str,
    pub imm: i32,
    pub kind: Kind,
    /// (instruction set, function)
    pub run: Vec<(u32, Run)>,
    pub spec: fn(&In, i32) -> Out,
}

const WASM: u32 = 0x10;
const NF: u32 = 0x20;

pub const ISA_NAMES: [&str; 7] = ["none", "sse2", "ssse3", "sse4.1", "avx2", "wasm simd128", "neon"];

fn present(isa: u32) -> bool {
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        match isa {
            1 => true,
            2 => std::is_x86_feature_detected!("ssse3"),
            3 => std::is_x86_feature_detected!("sse4.1"),
            4 => std::is_x86_feature_detected!("avx2"),
            _ => false,
        }
    }
    #[cfg(target_arch = "wasm32")]
    {
        isa == 5 && cfg!(target_feature = "simd128")
    }
    #[cfg(target_arch = "aarch64")]
    {
        isa == 6
    }
    #[cfg(not(any(target_arch = "x86", target_arch = "x86_64", target_arch = "wasm32", target_arch = "aarch64")))]
    {
        let _ = isa;
        false
    }
}

fn keep(isas: u32, all: Vec<(u32, Run)>) -> Vec<(u32, Run)> {
    let f = |isa: u32| match isa {
        5 => isas & WASM != 0,
        6 => isas & NF != 0,
        l => l >= isas & 0xF,
    };
    all.into_iter().filter(|x| f(x.0) && present(x.0)).collect()
}

macro_rules! runs {
    ([$($gen:tt)*] [$($arg:tt)*] |$s:ident, $x:ident| $exec:expr) => {{
        #[allow(unused_mut)]
        let mut all: Vec<(u32, Run)> = Vec::new();
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        {
            #[target_feature(enable = "sse2")]
            unsafe fn r1 $($gen)* ($x: &In) -> Out { let _ = $x; let $s = SSE2::new(); ($exec).pack() }
            #[target_feature(enable = "ssse3")]
            unsafe fn r2 $($gen)* ($x: &In) -> Out { let _ = $x; let $s = SSSE3::new(); ($exec).pack() }
            #[target_feature(enable = "sse4.1")]
            unsafe fn r3 $($gen)* ($x: &In) -> Out { let _ = $x; let $s = SSE41::new(); ($exec).pack() }
            #[target_feature(enable = "avx2")]
            unsafe fn r4 $($gen)* ($x: &In) -> Out { let _ = $x; let $s = AVX2::new(); ($exec).pack() }
            all.push((1, r1 $($arg)*));
            all.push((2, r2 $($arg)*));
            all.push((3, r3 $($arg)*));
            all.push((4, r4 $($arg)*));
        }
        #[cfg(target_arch = "wasm32")]
        {
            #[target_feature(enable = "simd128")]
            unsafe fn r5 $($gen)* ($x: &In) -> Out { let _ = $x; let $s = WASM128::new(); ($exec).pack() }
            all.push((5, r5 $($arg)*));
        }
        #[cfg(target_arch = "aarch64")]
        {
            #[target_feature(enable = "neon")]
            unsafe fn r6 $($gen)* ($x: &In) -> Out { let _ = $x; let $s = NEON::new(); ($exec).pack() }
            all.push((6, r6 $($arg)*));
        }
        all
    }};
}

macro_rules! op {
    ($v:ident, $name:expr, $isas:expr, $kind:expr, |$s:ident, $x:ident| $exec:expr, $spec:expr) => {{
        let isas: u32 = $isas;
        let run = runs!([] [] |$s, $x| $exec);
        $v.push(Op { name: $name, imm: 0, kind: $kind, run: keep(isas, run), spec: $spec });
    }};
}

macro_rules! op_imm {
    ($v:ident, $name:expr, $isas:expr, $kind:expr, [$($imm:literal)*], |$s:ident, $x:ident| $exec:expr, $spec:expr) => {{
        let isas: u32 = $isas;
        $({
            let run = runs!([<const I: i32>] [::<$imm>] |$s, $x| $exec);
            // NEON has no right shift by zero, which is an error at compile time there
            let isas = if $imm == 0 && $name.ends_with("_shr") && !$name.starts_with("simulation") { isas & !NF } else { isas };
            $v.push(Op { name: $name, imm: $imm, kind: $kind, run: keep(isas, run), spec: $spec });
        })*
    }};
}

macro_rules! op_sse2 {
    ($v:ident, $name:expr, $kind:expr, |$s:ident, $x:ident| $exec:expr, $spec:expr) => {{
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        {
            #[target_feature(enable = "sse2")]
            unsafe fn r1($x: &In) -> Out {
                let $s = SSE2::new();
                ($exec).pack()
            }
            $v.push(Op { name: $name, imm: 0, kind: $kind, run: vec![(1, r1 as Run)], spec: $spec });
        }
    }};
}

include!("vsops.rs");

fn table(fam: u32) -> &'static [Op] {
    use std::sync::OnceLock;
    static LANE: OnceLock<Vec<Op>> = OnceLock::new();
    static BLOCK: OnceLock<Vec<Op>> = OnceLock::new();
    if fam == VOP {
        LANE.get_or_init(lane_ops)
    } else {
        BLOCK.get_or_init(block_ops)
    }
}

/// Restricts inputs to the operation's domain.
fn shape(kind: Kind, x: &mut In) {
    match kind {
        Mask => x.a.iter_mut().for_each(|b| *b = if *b & 1 != 0 { 0xFF } else { 0 }),
        Nibbles => x.a.iter_mut().for_each(|b| *b &= 15),
        _ => {}
    }
}

fn to_in(c: &Case) -> In {
    let mut d = [0u8; 96];
    let n = c.a.len().min(96);
    d[..n].copy_from_slice(&c.a[..n]);
    let mut x = In { a: [0; 32], b: [0; 32], c: [0; 32], align: c.p[2] as usize };
    x.a.copy_from_slice(&d[..32]);
    x.b.copy_from_slice(&d[32..64]);
    x.c.copy_from_slice(&d[64..]);
    x
}

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
fn stepped() -> crate::step::Pass {
    crate::step::pass()
}
#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
struct Nothing;
#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
impl Drop for Nothing {
    fn drop(&mut self) {}
}
#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
fn stepped() -> Nothing {
    Nothing
}

/// Every operation on every instruction set a few times (for C25).
#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
pub fn sample_all(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(3);
    let times = (ctx.o.scale / 8).max(1);
    // what Native runs is compiled for the set it detected
    let mut c = Case::new(TOOL);
    for n in 0..=130usize {
        if ctx.mine() {
            c.p = [3, r.u8() as u32, 0, 0, 0, 0];
            c.a.resize(n, 0);
            r.fill(&mut c.a);
            ctx.go(&c)?;
        }
    }
    if crate::drive::LEVEL.load(core::sync::atomic::Ordering::Relaxed) <= 4 {
        return Ok(()); // the operations name their set themselves
    }
    for fam in [VOP, VBLOCK] {
        let mut c = Case::new(fam);
        c.a = vec![0; 96];
        for (i, op) in table(fam).iter().enumerate() {
            for &(isa, _) in &op.run {
                if !ctx.mine() {
                    continue;
                }
                c.p = [i as u32, isa, 0, 0, 0, 0];
                for _ in 0..times {
                    for k in 0..3 {
                        operand(&mut r, op.kind, k, &mut c.a[32 * k..32 * k + 32]);
                    }
                    c.p[2] = r.below(64) as u32;
                    ctx.go(&c)?;
                }
            }
        }
    }
    let mut c = Case::new(BSWAP);
    for ty in 0..3u32 {
        for isa in 0..=4u32 {
            for n in 0..=70usize {
                if swap_fn(ty, isa).is_none() || !ctx.mine() {
                    continue;
                }
                c.p = [ty, isa, 0, 1, n as u32 % 2, 0];
                c.a.resize(n * (2 << ty), 0);
                r.fill(&mut c.a);
                ctx.go(&c)?;
            }
        }
    }
    Ok(())
}

fn op_case(c: &Case) -> Res {
    let Some(op) = table(c.fam).get(c.p[0] as usize) else { return Ok(Info::default()) };
    let Some(&(isa, f)) = op.run.iter().find(|r| r.0 == c.p[1]) else { return Ok(Info::default()) };
    let mut x = to_in(c);
    shape(op.kind, &mut x);
    if isa >= 5 && op.name.contains("swizzle") {
        // indices from 16 to 127 are the hardware's choice (zero here, the low four bits on x86);
        // table::u8x16xn_lookup exists to hide this and is checked with every index
        x.b.iter_mut().for_each(|b| *b &= 0x8F);
    }
    let keep = x.clone();
    let got = catch_unwind(AssertUnwindSafe(|| {
        let _s = stepped();
        unsafe { f(&x) }
    }));
    let want = (op.spec)(&keep, op.imm);
    let name = || format!("{}{} on {}", op.name, if op.imm != 0 { format!(" with immediate {}", op.imm) } else { String::new() }, ISA_NAMES[isa as usize]);
    match got {
        Err(_) => Err(format!("{} panicked: {}", name(), panic_msg())),
        Ok(got) if got != want => Err(format!("{} gives {}, its definition gives {}", name(), got.show(), want.show())),
        Ok(got) => {
            let class = if got.err != 0 { 1 } else if got.n > 16 { 3 } else { 2 };
            Ok(Info { nontrivial: c.a.iter().any(|&b| b != 0), class })
        }
    }
}

fn describe_op(c: &Case) -> String {
    match table(c.fam).get(c.p[0] as usize) {
        Some(op) => format!("{} immediate {} on {}, operands of {} bytes, offset {}", op.name, op.imm, ISA_NAMES.get(c.p[1] as usize).unwrap_or(&"?"), c.a.len(), c.p[2]),
        None => "no operation".into(),
    }
}

// ---- bulk byte swap ---------------------------------------------------------------------------------

type Swap = unsafe fn(*const u8, usize, *mut u8);

fn swap_fn(ty: u32, isa: u32) -> Option<Swap> {
    macro_rules! table {
        ($($n:literal, $t:ty;)*) => {
            match (ty, isa) {
                $(
                    ($n, 0) => {
                        unsafe fn f(s: *const u8, n: usize, d: *mut u8) { bswap::bswap_fallback::<$t>(s.cast(), n, d.cast()) }
                        Some(f as Swap)
                    }
                    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
                    ($n, 2) => {
                        #[target_feature(enable = "ssse3")]
                        unsafe fn f(s: *const u8, n: usize, d: *mut u8) { bswap::bswap_simd::<_, $t>(SSSE3::new(), s.cast(), n, d.cast()) }
                        Some(f as Swap)
                    }
                    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
                    ($n, 3) => {
                        #[target_feature(enable = "sse4.1")]
                        unsafe fn f(s: *const u8, n: usize, d: *mut u8) { bswap::bswap_simd::<_, $t>(SSE41::new(), s.cast(), n, d.cast()) }
                        Some(f as Swap)
                    }
                    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
                    ($n, 4) => {
                        #[target_feature(enable = "avx2")]
                        unsafe fn f(s: *const u8, n: usize, d: *mut u8) { bswap::bswap_simd::<_, $t>(AVX2::new(), s.cast(), n, d.cast()) }
                        Some(f as Swap)
                    }
                    #[cfg(target_arch = "wasm32")]
                    ($n, 5) => {
                        #[target_feature(enable = "simd128")]
                        unsafe fn f(s: *const u8, n: usize, d: *mut u8) { bswap::bswap_simd::<_, $t>(WASM128::new(), s.cast(), n, d.cast()) }
                        Some(f as Swap)
                    }
                    #[cfg(target_arch = "aarch64")]
                    ($n, 6) => {
                        #[target_feature(enable = "neon")]
                        unsafe fn f(s: *const u8, n: usize, d: *mut u8) { bswap::bswap_simd::<_, $t>(NEON::new(), s.cast(), n, d.cast()) }
                        Some(f as Swap)
                    }
                )*
                _ => None,
            }
        };
    }
    if isa != 0 && !present(isa) {
        return None;
    }
    table! { 0, u16; 1, u32; 2, u64; }
}

fn swap_case(env: &mut Env, c: &Case) -> Res {
    let Some(f) = swap_fn(c.p[0], c.p[1]) else { return Ok(Info::default()) };
    let w = 2usize << c.p[0];
    let n = c.a.len() / w;
    let data = &c.a[..n * w];
    let want: Vec<u8> = data.chunks(w).flat_map(|x| x.iter().rev().copied()).collect();
    let s = env.src.get_elems(n, w, c.p[2], 0);
    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), s, data.len()) };
    let d = if c.p[4] == 1 { s } else { env.dst.get_elems(n, w, c.p[3], 0x5A) };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _s = stepped();
        unsafe { f(s, n, d) }
    }));
    let name = format!("byte swap of {n} u{} on {}", w * 8, ISA_NAMES[c.p[1] as usize]);
    if r.is_err() {
        return Err(format!("{name} panicked: {}", panic_msg()));
    }
    let got = unsafe { std::slice::from_raw_parts(d, n * w) };
    if got != &want[..] {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
        return Err(format!("{name}: byte {i} is {:#04x}, expected {:#04x}", got[i], want[i]));
    }
    if c.p[4] != 1 {
        env.dst.intact()?;
        if env.src.bytes() != data {
            return Err(format!("{name} changed its source"));
        }
    }
    env.src.intact()?;
    Ok(Info { nontrivial: n > 0, class: 4 })
}

// ---- the rest ---------------------------------------------------------------------------------------

/// p[0]: 0 unroll, 1 slices and reads, 2 boxes, 3 native execution, 4 scalar ALSW, 5 unhex, 6 instruction-set relations, 7 pod::align
fn tool_case(c: &Case) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| tool(c)));
    match r {
        Err(_) => Err(format!("{} panicked: {}", describe(c), panic_msg())),
        Ok(Err(m)) => Err(format!("{}: {m}", describe(c))),
        Ok(Ok(nontrivial)) => Ok(Info { nontrivial, class: 5 }),
    }
}

fn ensure(ok: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(m())
    }
}

fn tool(c: &Case) -> Result<bool, String> {
    use vsimd::tools;
    let a = &c.a[..];
    match c.p[0] {
        0 => {
            let mut seen: Vec<usize> = Vec::new();
            tools::unroll(a, c.p[1] as usize % 64 + 1, |x| seen.push(x as *const u8 as usize - a.as_ptr() as usize));
            ensure(seen.iter().copied().eq(0..a.len()), || format!("visited {} elements, or out of order", seen.len()))?;
            let wide: Vec<u64> = a.iter().map(|&b| b as u64 * 0x0101).collect();
            let mut got = Vec::new();
            tools::unroll(&wide, c.p[1] as usize % 64 + 1, |x| got.push(*x));
            ensure(got == wide, || "elements of a wider type are wrong".into())?;
        }
        1 => unsafe {
            let (p, n) = tools::slice_parts(a);
            ensure(p == a.as_ptr() && n == a.len(), || "slice_parts is wrong".into())?;
            ensure(tools::slice(p, n) == a, || "slice is wrong".into())?;
            let mut v = a.to_vec();
            let k = if v.is_empty() { 0 } else { c.p[1] as usize % v.len() };
            if !v.is_empty() {
                ensure(tools::read(p, k) == a[k], || "read is wrong".into())?;
                tools::write(v.as_mut_ptr(), k, !a[k]);
                let mut w = a.to_vec();
                w[k] = !w[k];
                ensure(v == w, || "write is wrong".into())?;
                tools::slice_mut(v.as_mut_ptr(), v.len())[k] = a[k];
                ensure(v == a, || "slice_mut is wrong".into())?;
            }
            let wide: Vec<u32> = a.chunks_exact(4).map(|x| u32::from_le_bytes([x[0], x[1], x[2], x[3]])).collect();
            let (p, n) = tools::slice_parts(&wide);
            ensure(n == wide.len(), || "slice_parts of u32 is wrong".into())?;
            if n > 0 {
                let k = c.p[1] as usize % n;
                ensure(tools::read(p, k) == wide[k], || "read of u32 is wrong".into())?;
                let mut m = wide.clone();
                tools::write(m.as_mut_ptr(), k, 7u32);
                let mut w = wide.clone();
                w[k] = 7;
                ensure(m == w, || "write of u32 is wrong".into())?;
            }
            ensure(tools::is_same_type::<u8, u8>() && !tools::is_same_type::<u8, i8>(), || "is_same_type is wrong".into())?;
            let x = to_in(c);
            let y: [u8; 32] = tools::transmute_copy::<V256, [u8; 32]>(&V256::from_bytes(x.a));
            ensure(y == x.a, || "transmute_copy is wrong".into())?;
        },
        #[cfg(feature = "alloc")]
        2 => unsafe {
            if a.is_empty() {
                return Ok(false);
            }
            let mut b = tools::alloc_uninit_bytes(a.len());
            ensure(b.len() == a.len(), || format!("{} bytes allocated for {}", b.len(), a.len()))?;
            for (d, s) in b.iter_mut().zip(a) {
                d.write(*s);
            }
            let at = b.as_ptr() as usize;
            let b = tools::assume_init(b);
            ensure(&*b == a && b.as_ptr() as usize == at, || "assume_init changed the bytes".into())?;
            let ascii: Vec<u8> = a.iter().map(|b| b & 0x7F).collect();
            let s = tools::boxed_str(ascii.clone().into_boxed_slice());
            ensure(s.as_bytes() == &ascii[..], || "boxed_str changed the bytes".into())?;
        },
        3 => {
            use vsimd::native::Native;
            let n = Native::detect();
            let mut calls = 0;
            let _s = stepped();
            let got = n.exec(|| {
                calls += 1;
                a.iter().fold(c.p[1], |h, &b| h.wrapping_mul(31).wrapping_add(b as u32).rotate_left(3))
            });
            drop(_s);
            let want = a.iter().fold(c.p[1], |h, &b| h.wrapping_mul(31).wrapping_add(b as u32).rotate_left(3));
            ensure(calls == 1 && got == want, || format!("closure ran {calls} times, returned {got} instead of {want}"))?;
            let mut v: Vec<u8> = a.to_vec();
            let _s = stepped();
            let back = n.exec(|| {
                v.iter_mut().for_each(|b| *b = b.wrapping_mul(3) ^ 1);
                v.len()
            });
            drop(_s);
            let want: Vec<u8> = a.iter().map(|b| b.wrapping_mul(3) ^ 1).collect();
            ensure(back == a.len() && v == want, || "side effects of the closure differ".into())?;
            let owned: Vec<u8> = n.exec(move || v);
            ensure(owned == want, || "moved value differs".into())?;
        }
        4 => {
            let x = c.p[1] as u8;
            let y = (c.p[1] >> 8) as u8;
            let mut lut = [0u8; 16];
            for (i, b) in a.iter().take(16).enumerate() {
                lut[i] = *b;
            }
            let mut off = [0u8; 16];
            for (i, b) in a.iter().skip(16).take(16).enumerate() {
                off[i] = *b;
            }
            let look = |l: &[u8; 16], i: u8| if i & 0x80 != 0 { 0 } else { l[(i & 15) as usize] };
            let av = |p: u8, q: u8| ((p as u32 + q as u32 + 1) / 2) as u8;
            ensure(alsw::lookup(&lut, x) == look(&lut, x), || "lookup".into())?;
            ensure(alsw::avgr(x, y) == av(x, y), || "avgr".into())?;
            let h = av(0xE0 | x >> 3, look(&lut, x));
            ensure(alsw::hash(&lut, x) == h, || "hash".into())?;
            let o = look(&off, h);
            let sum = (x as i8 as i32 + o as i8 as i32).clamp(-128, 127) as i8 as u8;
            ensure(alsw::check(&lut, &off, x) == sum, || "check".into())?;
            ensure(alsw::decode(&lut, &off, x) == x.wrapping_add(o), || "decode".into())?;
        }
        5 => {
            let x = c.p[1] as u8;
            let want = hex_val(x);
            let got = hex::unhex(x);
            ensure(if let Some(v) = want { got == v } else { got >= 16 }, || format!("unhex({x:#04x}) = {got}"))?;
        }
        6 => relations(c.p[1])?,
        7 => {
            let (p, m, q) = vsimd::pod::align::<u8, V256>(a);
            let mut v = p.to_vec();
            m.iter().for_each(|x| v.extend_from_slice(x.as_bytes()));
            v.extend_from_slice(q);
            ensure(v == a, || "the three parts are not the slice".into())?;
            ensure(m.as_ptr() as usize % std::mem::align_of::<V256>() == 0 || m.is_empty(), || "the middle part is not aligned".into())?;
        }
        _ => return Ok(false),
    }
    Ok(!a.is_empty() || c.p[0] == 5)
}

/// Instruction sets visible at `level` (0..=4, or 5: this machine), and which set includes which.
fn relations(level: u32) -> Result<(), String> {
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        use vsimd::isa;
        let fixed = if cfg!(target_feature = "avx2") {
            4
        } else if cfg!(target_feature = "sse4.1") {
            3
        } else if cfg!(target_feature = "ssse3") {
            2
        } else if cfg!(target_feature = "sse2") {
            1
        } else {
            0
        };
        #[cfg(simd_verif)]
        let top = {
            vsimd::isa::verif::set_max_level(if level >= 5 { 255 } else { level as u8 });
            level.min(if cfg!(feature = "detect") { 4 } else { fixed })
        };
        #[cfg(not(simd_verif))]
        let top = {
            let _ = level;
            if cfg!(feature = "detect") { 4 } else { fixed }
        };
        let see = |l: u32| l <= top && present(l);
        let got = [isa::detect::<SSE2>().is_some(), isa::detect::<SSSE3>().is_some(), isa::detect::<SSE41>().is_some(), isa::detect::<AVX2>().is_some()];
        let en = [SSE2::is_enabled(), SSSE3::is_enabled(), SSE41::is_enabled(), AVX2::is_enabled()];
        let want = [see(1), see(2), see(3), see(4)];
        let native = format!("{:?}", vsimd::native::Native::detect()).to_lowercase();
        #[cfg(simd_verif)]
        vsimd::isa::verif::set_max_level(ORIGINAL_LEVEL.load(std::sync::atomic::Ordering::Relaxed));
        ensure(got == want, || format!("detect finds {got:?}, visible are {want:?}"))?;
        ensure(en == want, || format!("is_enabled says {en:?}, visible are {want:?}"))?;
        ensure(isa::detect::<Fallback>().is_some(), || "the fallback is not available".into())?;
        ensure(isa::detect::<NEON>().is_none() && isa::detect::<WASM128>().is_none(), || "foreign instruction set detected".into())?;
        ensure(!(native.contains("avx2") && !see(4) || native.contains("sse41") && !see(3)), || format!("Native uses {native} where {want:?} are visible"))?;
    }
    let _ = level;
    // which set includes which
    fn includes<S: InstructionSet>(name: &str, over: [bool; 7]) -> Result<(), String> {
        let got = [
            vsimd::isa::matches_isa_impl::<S, Fallback>(),
            vsimd::isa::matches_isa_impl::<S, SSE2>(),
            vsimd::isa::matches_isa_impl::<S, SSSE3>(),
            vsimd::isa::matches_isa_impl::<S, SSE41>(),
            vsimd::isa::matches_isa_impl::<S, AVX2>(),
            vsimd::isa::matches_isa_impl::<S, NEON>(),
            vsimd::isa::matches_isa_impl::<S, WASM128>(),
        ];
        let x86 = cfg!(any(target_arch = "x86", target_arch = "x86_64"));
        let arm = cfg!(any(target_arch = "arm", target_arch = "aarch64"));
        let wasm = cfg!(target_arch = "wasm32");
        let arch = [true, x86, x86, x86, x86, arm, wasm];
        let own = over.iter().rposition(|&o| o).unwrap();
        let mut want = [false; 7];
        for i in 0..7 {
            want[i] = over[i] && arch[i] && arch[own];
        }
        ensure(got == want, || format!("{name} includes {got:?}, expected {want:?}"))
    }
    includes::<Fallback>("Fallback", [true, false, false, false, false, false, false])?;
    includes::<SSE2>("SSE2", [true, true, false, false, false, false, false])?;
    includes::<SSSE3>("SSSE3", [true, true, true, false, false, false, false])?;
    includes::<SSE41>("SSE41", [true, true, true, true, false, false, false])?;
    includes::<AVX2>("AVX2", [true, true, true, true, true, false, false])?;
    includes::<NEON>("NEON", [true, false, false, false, false, true, false])?;
    includes::<WASM128>("WASM128", [true, false, false, false, false, false, true])
}

pub static ORIGINAL_LEVEL: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(255);

pub fn check(env: &mut Env, c: &Case) -> Res {
    match c.fam {
        VOP | VBLOCK => op_case(c),
        BSWAP => swap_case(env, c),
        TOOL => tool_case(c),
        _ => Err("harness: bad family".into()),
    }
}

pub fn describe(c: &Case) -> String {
    match c.fam {
        VOP | VBLOCK => describe_op(c),
        BSWAP => format!("bulk byte swap u{} on {} of {} bytes{}", 16 << c.p[0].min(2), ISA_NAMES.get(c.p[1] as usize).unwrap_or(&"?"), c.a.len(), if c.p[4] == 1 { " in place" } else { "" }),
        _ => format!(
            "{} argument {}, {} bytes",
            ["unroll", "slice tools", "boxes", "Native::exec", "scalar ALSW", "unhex", "instruction-set relations", "pod::align"].get(c.p[0] as usize).unwrap_or(&"tool"),
            c.p[1],
            c.a.len()
        ),
    }
}

// ---- drivers ----------------------------------------------------------------------------------------

const SPECIAL: [u64; 14] = [0, 1, 2, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF];

fn operand(r: &mut Rng, kind: Kind, which: usize, out: &mut [u8]) {
    // a lane width for special values
    let special = |r: &mut Rng, out: &mut [u8]| {
        let w = *r.pick(&[1usize, 2, 4, 8]);
        for l in out.chunks_mut(w) {
            let mut v = *r.pick(&SPECIAL);
            if r.chance(1, 4) {
                v = !v;
            }
            if r.chance(1, 4) {
                v = 1u64 << r.below(w * 8);
            }
            if r.chance(1, 8) {
                v = r.u64();
            }
            l.copy_from_slice(&v.to_le_bytes()[..l.len()]);
        }
    };
    match kind {
        Sparse if which == 0 => {
            let bg = *r.pick(&[0u8, 0, 0xFF, 1, 0x80]);
            out.fill(bg);
            for _ in 0..r.below(3) {
                let i = r.below(out.len());
                out[i] = *r.pick(&[0u8, 1, 0x80, 0xFF, 0x10]);
            }
        }
        Index if which == 1 => {
            r.fill(out);
            if r.chance(1, 2) {
                out.iter_mut().for_each(|b| *b &= 0x8F);
            }
        }
        Mask => {
            let bg = r.chance(1, 2) as u8;
            out.fill(bg);
            if r.chance(1, 4) {
                r.fill(out);
            } else {
                for _ in 0..r.below(3) {
                    let i = r.below(out.len());
                    out[i] ^= 1;
                }
            }
        }
        High => {
            let bg = *r.pick(&[0u8, 0x7F, 0x80, 0xFF]);
            out.fill(bg);
            for _ in 0..r.below(3) {
                let i = r.below(out.len());
                out[i] = *r.pick(&[0u8, 0x7F, 0x80, 0xFF, 0x81, 1]);
            }
            if r.chance(1, 8) {
                r.fill(out);
            }
        }
        Hex | Hex2 if which == 0 || matches!(kind, Hex2) && which == 1 => {
            for b in out.iter_mut() {
                *b = b"0123456789abcdefABCDEF"[r.below(22)];
            }
            let n = if r.chance(1, 2) { 0 } else { r.below(3) };
            for _ in 0..n {
                let i = r.below(out.len());
                out[i] = if r.chance(1, 2) { *r.pick(b"/:@G`g\x00\x7f\x80\xff") } else { r.u8() };
            }
        }
        Alphabet(f) if which == 0 => {
            let alphabet = f();
            for b in out.iter_mut() {
                *b = *r.pick(alphabet);
            }
            let n = if r.chance(1, 2) { 0 } else { r.below(3) };
            for _ in 0..n {
                let i = r.below(out.len());
                out[i] = r.u8();
            }
        }
        Text => {
            for b in out.iter_mut() {
                *b = match r.below(4) {
                    0 => *r.pick(b"@AZ[`az{\x00\x7f\x80\xc1\xda\xe1\xfa\xff"),
                    1 => r.u8(),
                    2 => b'a' + r.below(26) as u8,
                    _ => b'A' + r.below(26) as u8,
                };
            }
        }
        _ => {
            if r.chance(1, 2) {
                special(r, out)
            } else {
                r.fill(out)
            }
        }
    }
}

fn op_run(ctx: &mut Ctx, fam: u32) -> Flow {
    let mut r = ctx.rng(1);
    let ops = table(fam);
    assert!(ops.len() > 50, "harness: operations missing");
    let mut c = Case::new(fam);
    c.a = vec![0; 96];
    let mut imms = std::collections::HashMap::new();
    for op in ops {
        *imms.entry(op.name).or_insert(0u64) += 1;
    }
    for (i, op) in ops.iter().enumerate() {
        let many = imms[op.name];
        for &(isa, _) in &op.run {
            if !ctx.mine() {
                continue;
            }
            c.p = [i as u32, isa, 0, 0, 0, 0];
            // constants
            let few = ctx.o.part == "small" && ctx.o.scale < 20;
            for v in if few { &SPECIAL[4..6] } else { &SPECIAL[..] } {
                let l = v.to_le_bytes();
                for (k, b) in c.a.iter_mut().enumerate() {
                    *b = l[k % 8];
                }
                ctx.go(&c)?;
            }
            if ctx.o.part == "small" {
            } else if many == 1 {
                // all pairs of bytes, 32 pairs at a time, rotated over the lanes
                let rot = r.below(32);
                for p in 0..256usize {
                    for q in (0..256usize).step_by(32) {
                        for k in 0..32 {
                            c.a[k] = p as u8;
                            c.a[32 + k] = (q + (k + rot) % 32) as u8;
                            c.a[64 + k] = if k & 1 == 0 { 0x80 } else { 0x7F };
                        }
                        ctx.go(&c)?;
                    }
                }
                // every byte value at every lane over different surroundings
                for lane in 0..96 {
                    for bg in 0..3 {
                        match bg {
                            0 => c.a.fill(0),
                            1 => c.a.fill(0xFF),
                            _ => {
                                let (x, y) = c.a.split_at_mut(32);
                                operand(&mut r, op.kind, 0, x);
                                operand(&mut r, op.kind, 1, &mut y[..32]);
                                operand(&mut r, op.kind, 2, &mut y[32..]);
                            }
                        }
                        let keep = c.a[lane];
                        for v in 0..=255u8 {
                            // the third operand matters to few operations
                            if lane >= 64 && v % 16 != 0 {
                                continue;
                            }
                            c.a[lane] = v;
                            ctx.go(&c)?;
                        }
                        c.a[lane] = keep;
                    }
                }
            } else {
                // an immediate: single bits and bytes everywhere
                for lane in 0..64 {
                    for v in [1u8, 0x80, 0xFF, 0x5A] {
                        c.a.fill(0);
                        c.a[lane] = v;
                        ctx.go(&c)?;
                    }
                }
            }
            // random and boundary operands
            let full = ctx.times(40_000, 2_000_000) * ctx.o.shards as u64 / many;
            let n = if few { 4 } else if ctx.o.part == "small" { (full / 400).max(8) } else { full.max(64) };
            for _ in 0..n {
                for k in 0..3 {
                    operand(&mut r, op.kind, k, &mut c.a[32 * k..32 * k + 32]);
                }
                c.p[2] = r.below(64) as u32;
                ctx.go(&c)?;
            }
        }
    }
    Ok(())
}

pub fn run14(ctx: &mut Ctx) -> Flow {
    op_run(ctx, VOP)
}

pub fn run15(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(2);
    let small = ctx.o.part == "small";
    // bulk swaps: every length around the block sizes, every placement kind
    let mut c = Case::new(BSWAP);
    for ty in 0..3u32 {
        for isa in 0..=6u32 {
            if swap_fn(ty, isa).is_none() {
                continue;
            }
            for n in 0..=if small { 40usize } else { 200 } {
                if !ctx.mine() {
                    continue;
                }
                for inplace in 0..2 {
                    for _ in 0..if small { 1 } else { 4 } {
                        c.p = [ty, isa, crate::gen::place(&mut r), crate::gen::place(&mut r), inplace, 0];
                        c.a.resize(n * (2 << ty), 0);
                        r.fill(&mut c.a);
                        ctx.go(&c)?;
                    }
                }
            }
        }
    }
    let mut c = Case::new(TOOL);
    for level in 0..=5 {
        c.p = [6, level, 0, 0, 0, 0];
        ctx.go(&c)?;
    }
    if ctx.mine() {
        for v in (0..256).step_by(if small { 7 } else { 1 }) {
            c.p = [5, v, 0, 0, 0, 0];
            ctx.go(&c)?;
        }
    }
    for kind in [0, 1, 2, 3, 7] {
        for n in 0..=if small { 35 } else { 140 } {
            if !ctx.mine() {
                continue;
            }
            for k in 0..if kind == 0 { 20 } else if small { 1 } else { 4 } {
                c.p = [kind, if kind == 0 { k } else { r.u32() }, 0, 0, 0, 0];
                c.a.resize(n, 0);
                r.fill(&mut c.a);
                ctx.go(&c)?;
            }
        }
    }
    for _ in 0..ctx.times(200_000, 5_000_000) / if small { 500 } else { 1 } {
        let kind = *r.pick(&[0u32, 1, 2, 3, 4, 4, 4, 7]);
        c.p = [kind, r.u32(), 0, 0, 0, 0];
        let n = if kind == 4 { 32 } else { crate::gen::length(&mut r, if small { 70 } else { 600 }) };
        c.a.resize(n, 0);
        r.fill(&mut c.a);
        ctx.go(&c)?;
    }
    op_run(ctx, VBLOCK)
}
