//! Executes calls one instruction at a time (trap flag) and looks at each instruction inside this program:
//! which instruction set it belongs to, and how many there were.

use core::ffi::{c_int, c_void};
use core::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

// instruction sets in the order in which processors got them
pub const BASE: u8 = 1;
pub const SSE3: u8 = 2;
pub const SSSE3: u8 = 3;
pub const SSE41: u8 = 4;
pub const SSE42: u8 = 5;
pub const AVX: u8 = 6;
pub const AVX2: u8 = 7;
pub const OTHER: u8 = 8;

pub const NAMES: [&str; 9] = ["", "x86-64", "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "AVX", "AVX2", "an extension beyond AVX2"];

/// The newest set that a machine of the hook's level has.
pub fn allowed(level: u32) -> u8 {
    let built = if cfg!(target_feature = "avx2") {
        AVX2
    } else if cfg!(target_feature = "avx") {
        AVX
    } else if cfg!(target_feature = "sse4.1") {
        SSE41
    } else if cfg!(target_feature = "ssse3") {
        SSSE3
    } else if cfg!(target_feature = "sse3") {
        SSE3
    } else {
        BASE
    };
    let seen = if cfg!(feature = "detect") { by_level(level) } else { BASE };
    built.max(seen)
}

pub fn by_level(level: u32) -> u8 {
    match level {
        0 | 1 => BASE,
        2 => SSSE3,
        3 => SSE41,
        _ => AVX2,
    }
}

/// The set that the instruction belongs to. Not a full decoder: only the sets that matter are told apart.
pub fn class(b: &[u8]) -> u8 {
    let mut i = 0;
    let (mut p66, mut pf2, mut pf3) = (false, false, false);
    loop {
        match b[i] {
            0x66 => p66 = true,
            0xF2 => pf2 = true,
            0xF3 => pf3 = true,
            0x26 | 0x2E | 0x36 | 0x3E | 0x64 | 0x65 | 0x67 | 0xF0 => {}
            _ => break,
        }
        i += 1;
        if i > 8 {
            return BASE;
        }
    }
    if b[i] & 0xF0 == 0x40 {
        i += 1;
    }
    match b[i] {
        0x62 => return OTHER, // EVEX
        0xC5 => return vex(1, b[i + 1], b[i + 2], b[i + 3]),
        0xC4 => return vex(b[i + 1] & 0x1F, b[i + 2], b[i + 3], b[i + 4]),
        0x0F => {}
        _ => return BASE,
    }
    let op = b[i + 2];
    match b[i + 1] {
        0x38 => match op {
            0x00..=0x0B | 0x1C..=0x1E => SSSE3,
            0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x38..=0x41 => SSE41,
            0x37 => SSE42,
            0xF0 | 0xF1 if pf2 => SSE42,
            _ => OTHER,
        },
        0x3A => match op {
            0x0F => SSSE3,
            0x08..=0x0E | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => SSE41,
            0x60..=0x63 => SSE42,
            _ => OTHER,
        },
        0x12 if pf2 || pf3 => SSE3,
        0x16 if pf3 => SSE3,
        0xF0 if pf2 => SSE3,
        0x7C | 0x7D | 0xD0 if pf2 || p66 => SSE3,
        // population and leading-zero counts (tzcnt is used for bsf where both mean the same)
        0xB8 | 0xBD if pf3 => OTHER,
        _ => BASE,
    }
}

/// VEX-encoded: opcode map, the byte with length and prefix, opcode, ModRM.
fn vex(map: u8, info: u8, op: u8, modrm: u8) -> u8 {
    let wide = info & 4 != 0;
    let prefix = info & 3;
    let register = modrm >= 0xC0;
    match map {
        1 => match op {
            0x41..=0x4B | 0x90..=0x93 | 0x98 | 0x99 => OTHER, // mask registers
            0x70 if wide => AVX2,
            0x60..=0x6D | 0x71..=0x76 | 0xD1..=0xD5 | 0xD7..=0xE5 | 0xE8..=0xEF | 0xF1..=0xF6 | 0xF8..=0xFE if wide && prefix == 1 => AVX2,
            _ => AVX,
        },
        2 => match op {
            0x13 | 0x50..=0x53 | 0x96..=0x9F | 0xA6..=0xAF | 0xB0..=0xBF | 0xCB..=0xCF | 0xD2 | 0xD3 | 0xDA..=0xFF => OTHER,
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5A | 0x78 | 0x79 | 0x8C | 0x8E | 0x90..=0x93 => AVX2,
            0x18 | 0x19 if register => AVX2,
            0x00..=0x0B | 0x1C..=0x1E | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x37..=0x40 if wide => AVX2,
            _ => AVX,
        },
        3 => match op {
            0x1D | 0x30..=0x33 | 0x44 | 0x48 | 0x49 | 0x5C..=0x5F | 0x68..=0xDE | 0xE0..=0xFF => OTHER,
            0x00..=0x02 | 0x38 | 0x39 | 0x46 => AVX2,
            0x0E | 0x0F | 0x42 | 0x4C if wide => AVX2,
            _ => AVX,
        },
        _ => OTHER,
    }
}

/// The code that the pages of this program hold, and what is known of each address: 0 unseen.
static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static KNOWN: AtomicUsize = AtomicUsize::new(0);
static NEW: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static INSIDE: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU8 = AtomicU8::new(OTHER);
static TOP: AtomicU8 = AtomicU8::new(0);
static BAD_AT: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicU8 = AtomicU8::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static READY: AtomicBool = AtomicBool::new(false);

const RIP: usize = 168; // in ucontext_t

extern "C" fn on_trap(_: c_int, _: *mut c_void, context: *mut c_void) {
    let rip = unsafe { *context.cast::<u8>().add(RIP).cast::<usize>() };
    STEPS.store(STEPS.load(Relaxed) + 1, Relaxed);
    let lo = LO.load(Relaxed);
    if rip.wrapping_sub(lo) >= HI.load(Relaxed) - lo {
        return;
    }
    INSIDE.store(INSIDE.load(Relaxed) + 1, Relaxed);
    let known = unsafe { &*((KNOWN.load(Relaxed) + (rip - lo)) as *const AtomicU8) };
    let mut k = known.load(Relaxed);
    if k == 0 {
        k = class(unsafe { core::slice::from_raw_parts(rip as *const u8, 16) });
        known.store(k, Relaxed);
        NEW.store(NEW.load(Relaxed) + 1, Relaxed);
    }
    if k > TOP.load(Relaxed) {
        TOP.store(k, Relaxed);
    }
    if k > LIMIT.load(Relaxed) && k > BAD.load(Relaxed) {
        BAD.store(k, Relaxed);
        BAD_AT.store(rip, Relaxed);
    }
}

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}

extern "C" {
    fn sigaction(s: c_int, new: *const SigAction, old: *mut c_void) -> c_int;
}

fn prepare() {
    if READY.swap(true, Relaxed) {
        return;
    }
    // the executable mapping that holds this function
    let here = class as *const () as usize;
    let maps = std::fs::read_to_string("/proc/self/maps").expect("harness: no maps");
    for l in maps.lines() {
        let (range, rest) = l.split_once(' ').unwrap();
        let (a, b) = range.split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        if rest.starts_with("r-x") && (a..b).contains(&here) {
            LO.store(a, Relaxed);
            HI.store(b - 16, Relaxed);
            KNOWN.store(Box::leak(vec![0u8; b - a].into_boxed_slice()).as_ptr() as usize, Relaxed);
        }
    }
    assert!(LO.load(Relaxed) != 0, "harness: own code not found");
    let a = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    assert!(unsafe { sigaction(5, &a, core::ptr::null_mut()) } == 0, "harness: sigaction");
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Seen {
    pub steps: u64,
    pub inside: u64,
    /// a newer instruction set than allowed
    pub bad: u8,
    /// the newest instruction set used
    pub top: u8,
}

/// Steps through the parts of `f` that run inside `pass`.
pub fn watch<R>(limit: u8, f: impl FnOnce() -> R) -> (R, Seen) {
    prepare();
    STEPS.store(0, Relaxed);
    INSIDE.store(0, Relaxed);
    BAD.store(0, Relaxed);
    TOP.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    (r, Seen { steps: STEPS.load(Relaxed), inside: INSIDE.load(Relaxed), bad: BAD.load(Relaxed), top: TOP.load(Relaxed) })
}

/// Different instructions executed so far.
pub fn instructions() -> u64 {
    NEW.load(Relaxed)
}

pub fn bad_bytes() -> String {
    let b = unsafe { core::slice::from_raw_parts(BAD_AT.load(Relaxed) as *const u8, 12) };
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

pub struct Pass(bool);

/// Steps until the value is dropped, if `watch` is active.
#[inline(never)]
pub fn pass() -> Pass {
    let on = ON.load(Relaxed);
    if on {
        unsafe { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    }
    Pass(on)
}

impl Drop for Pass {
    #[inline(never)]
    fn drop(&mut self) {
        if self.0 {
            unsafe { core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
        }
    }
}
