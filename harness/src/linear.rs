//! C25: no call executes an instruction that the processor was not reported to have.
//! C26: work and memory are proportional to the input.

use crate::api::{self, *};
use crate::case::Case;
use crate::codec as k;
use crate::drive::{self, Ctx, Flow};
use crate::gen;
use crate::mem::heap;
use crate::model;
use crate::props::{Info, Res};
use crate::rng::Rng;

/// A call whose data are `a`, repeated to p[4] bytes (family in p[5], its parameters in p[0], p[1]).
pub const GROW: u32 = 26;

// ---- C25 --------------------------------------------------------------------------------------------

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod sets {
    use super::*;
    use crate::step;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

    pub static TOTAL: AtomicU64 = AtomicU64::new(0);

    pub fn case(env: &mut Env, c: &Case) -> Res {
        let level = drive::LEVEL.load(Relaxed);
        #[cfg(feature = "vs")]
        if (30..=33).contains(&c.fam) {
            // here the case says which instruction set the operation belongs to
            let limit = match c.p[1] {
                _ if c.fam == crate::vs::TOOL => step::allowed(level),
                0 | 1 => step::allowed(0),
                l => step::allowed(0).max(step::by_level(l)),
            };
            let (r, seen) = step::watch(limit, || crate::vs::check(env, c));
            TOTAL.fetch_add(seen.steps, Relaxed);
            verdict(seen, limit)?;
            // what it computes is another property's business
            return Ok(r.unwrap_or(Info { nontrivial: true, class: 2 }));
        }
        let want = model_result(c);
        let limit = step::allowed(level);
        let (o, seen) = step::watch(limit, || env.call(c, &want, PLAIN));
        TOTAL.fetch_add(seen.steps, Relaxed);
        verdict(seen, limit)?;
        let best = expected(c, limit);
        if c.a.len() >= 1024 && o.status == Status::Ok && seen.top < best {
            return Err(format!("uses nothing newer than {} although {} is available and supported", step::NAMES[seen.top as usize], step::NAMES[best as usize]));
        }
        let class = if c.a.is_empty() { 0 } else { 1 + (o.status != Status::Ok) as usize };
        Ok(Info { nontrivial: seen.inside > 0 && !c.a.is_empty(), class })
    }

    /// Long inputs are documented to be handled with SIMD where it is available: the oldest set that counts as such.
    fn expected(c: &Case, limit: u8) -> u8 {
        let simd = matches!(c.fam, ENC | DEC | FORG | SWAP | UTF32);
        if simd && limit >= step::AVX2 {
            return step::AVX2;
        }
        // (hex needs no more than SSE2)
        let text = matches!(c.fam, ENC | DEC | FORG);
        match c.fam {
            UTF32 if limit >= step::SSE41 => step::SSE41,
            ENC | DEC if limit >= step::SSE41 && c.p[0] < 8 => step::SSSE3,
            _ if (text && c.p[0] < 4 || c.fam == SWAP) && limit >= step::SSSE3 => step::SSSE3,
            _ => 0,
        }
    }

    fn verdict(seen: step::Seen, limit: u8) -> Result<(), String> {
        if seen.bad == 0 {
            return Ok(());
        }
        Err(format!("executes an instruction of {} (bytes {}) where only {} is available", step::NAMES[seen.bad as usize], step::bad_bytes(), step::NAMES[limit as usize]))
    }

    pub fn run(ctx: &mut Ctx) -> Flow {
        let r = go(ctx);
        ctx.extra.push(("instructions_stepped", TOTAL.load(Relaxed)));
        ctx.extra.push(("different_instructions", step::instructions()));
        r
    }

    fn go(ctx: &mut Ctx) -> Flow {
        #[cfg(feature = "vs")]
        {
            crate::vs::sample_all(ctx)?;
            return Ok(());
        }
        #[allow(unreachable_code)]
        {
            calls(ctx)
        }
    }

    fn calls(ctx: &mut Ctx) -> Flow {
        let mut r = ctx.rng(1);
        let mut c = Case::new(ENC);
        // every operation and form at every length up to a few vectors
        let codecs = k::codecs();
        for n in 0..=150usize {
            for &id in &codecs {
                for form in 0..10u32 {
                    if !ctx.mine() {
                        continue;
                    }
                    c.fam = ENC;
                    c.p = [id, form, 0, 0, 0, 0x5A];
                    c.b.clear();
                    gen::bytes(&mut r, n, &mut c.a);
                    ctx.go(&c)?;
                    let mut t = Vec::new();
                    model::encode_into(&model::code(id), &c.a, &mut t);
                    c.fam = DEC;
                    c.a = t;
                    ctx.go(&c)?;
                    if !c.a.is_empty() {
                        let i = r.below(c.a.len());
                        c.a[i] = r.u8();
                        ctx.go(&c)?;
                    }
                }
            }
            for fam in [FORG, ASCII, UTF32, SWAP] {
                for form in 0..3u32 {
                    if !ctx.mine() || fam == FORG && form == 2 && !cfg!(feature = "alloc") {
                        continue;
                    }
                    c.fam = fam;
                    c.p = [form & 1, form, 0, 0, 0, 0x5A];
                    c.b.clear();
                    c.a.clear();
                    match fam {
                        FORG => {
                            let mut d = Vec::new();
                            gen::bytes(&mut r, n, &mut d);
                            model::encode_into(&model::code(0), &d, &mut c.a);
                            gen::add_whitespace(&mut r, &mut c.a);
                        }
                        ASCII => c.a.resize(n, b'a'),
                        UTF32 => (0..n).for_each(|_| c.a.extend(drive::scalar(&mut r).to_le_bytes())),
                        _ => {
                            c.p = [form & 1, form >> 1, 0, 0, 0, 0x5A];
                            c.a.resize(n * if c.p[0] == 0 { 2 } else { 4 }, 0);
                            r.fill(&mut c.a);
                        }
                    }
                    ctx.go(&c)?;
                }
            }
        }
        // long valid inputs of every operation and form
        for n in [1536usize, 1111] {
            for fam in [ENC, DEC, FORG, ASCII, UTF32, SWAP] {
                for &id in if fam == ENC || fam == DEC { &codecs[..] } else { &[0u32, 1][..] } {
                    for form in 0..10u32 {
                        if fam == FORG && (form > if cfg!(feature = "alloc") { 2 } else { 1 } || id > 0) || fam > FORG && form > 1 || !ctx.mine() {
                            continue;
                        }
                        c.fam = fam;
                        c.b.clear();
                        c.p = [id, form, 0, 0, 0, 0x5A];
                        gen::bytes(&mut r, n, &mut c.a);
                        match fam {
                            DEC | FORG => {
                                let mut t = Vec::new();
                                model::encode_into(&model::code(id), &c.a, &mut t);
                                c.a = t;
                            }
                            ASCII => c.a.fill(b'a'),
                            UTF32 => (0..n / 4).for_each(|i| drive::put32(&mut c.a, i, 0x41)),
                            SWAP => c.a.truncate(n / 4 * 4),
                            _ => {}
                        }
                        c.a.truncate(if fam == UTF32 { n / 4 * 4 } else { c.a.len() });
                        ctx.go(&c)?;
                    }
                }
            }
        }
        // then calls of any kind, for as many steps as there are
        let o = ctx.o.clone();
        let budget = ctx.times(12_000_000, 80_000_000);
        let from = TOTAL.load(Relaxed);
        while TOTAL.load(Relaxed) - from < budget {
            drive::any_call(&mut r, &o, &[2000], &mut c);
            if c.fam == FORG && c.p[1] == 2 && !cfg!(feature = "alloc") {
                continue;
            }
            if c.fam != crate::props::LEN {
                gen::bound(&mut c.a, if r.chance(1, 8) { 4000 } else { 600 });
                match c.fam {
                    UTF32 => c.a.truncate(c.a.len() / 4 * 4),
                    SWAP => c.a.truncate(c.a.len() / 4 * 4),
                    _ => {}
                }
                ctx.go(&c)?;
            }
        }
        Ok(())
    }
}

pub fn sets_case(env: &mut Env, c: &Case) -> Res {
    #[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
    return sets::case(env, c);
    #[allow(unreachable_code)]
    {
        let _ = (env, c);
        Err("harness: cannot step on this target".into())
    }
}

pub fn sets_run(ctx: &mut Ctx) -> Flow {
    #[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
    return sets::run(ctx);
    #[allow(unreachable_code)]
    {
        let _ = ctx;
        panic!("harness: cannot step on this target")
    }
}

// ---- C26 --------------------------------------------------------------------------------------------

/// CPU time of this thread in nanoseconds.
#[cfg(all(target_os = "linux", not(miri)))]
fn cpu() -> u64 {
    #[repr(C)]
    struct T(i64, i64);
    extern "C" {
        fn clock_gettime(c: i32, t: *mut T) -> i32;
    }
    let mut t = T(0, 0);
    assert!(unsafe { clock_gettime(3, &mut t) } == 0, "harness: no clock");
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}
#[cfg(not(all(target_os = "linux", not(miri))))]
fn cpu() -> u64 {
    0
}

/// Several times what the slowest build needs.
const NS_PER_BYTE: u64 = 10;
const NS_FIXED: u64 = 10_000_000;
/// A call above that is compared with the same content at a 32nd of the length: linear work is 32 times as long,
/// a pass repeated over the input about 1024 times.
const SMALLER: usize = 32;
const FACTOR: u64 = 8 * SMALLER as u64;

fn expand(c: &Case) -> Case {
    let mut d = Case::new(c.p[5]);
    d.p = [c.p[0], c.p[1], 0, 1, 0, 0];
    let n = c.p[4] as usize;
    if d.fam == ENC || d.fam == DEC {
        d.p[4] = 0;
    }
    let head = c.b.len().min(n);
    d.a.extend_from_slice(&c.b[..head]);
    while !c.a.is_empty() && d.a.len() < n {
        let m = c.a.len().min(n - d.a.len());
        d.a.extend_from_slice(&c.a[..m]);
    }
    let unit = match d.fam {
        UTF32 => 4,
        SWAP => 4,
        DEC => 8,
        _ => 1,
    };
    d.a.truncate(d.a.len() / unit * unit);
    d
}

/// The result's length, for the limit of the memory.
fn result_len(d: &Case) -> usize {
    match d.fam {
        ENC => model::encoded_len(&model::code(d.p[0]), d.a.len() as u128) as usize,
        _ => d.a.len(),
    }
}

fn owned(d: &Case) -> bool {
    match d.fam {
        ENC => k::enc_is_owned(k::enc_form(d.p[0], d.p[1])),
        DEC => k::dec_is_owned(k::dec_form(d.p[0], d.p[1])),
        FORG => d.p[1] == 2,
        _ => false,
    }
}

pub fn grow_case(env: &mut Env, c: &Case) -> Res {
    let d = expand(c);
    let n = d.a.len();
    let want = room(&d);
    let limit = NS_FIXED + NS_PER_BYTE * n as u64;
    let mut best = u64::MAX;
    let mut o = None;
    let mut used = heap::Use::default();
    for _ in 0..4 {
        heap::count(true);
        TIME.with(|t| t.set(0));
        let x = env.call(&d, &want, PLAIN);
        used = heap::used();
        heap::count(false);
        let t = TIME.with(|t| t.get());
        best = best.min(t);
        o = Some(x);
        if t <= limit {
            break;
        }
    }
    let o = o.unwrap();
    let name = || api::describe(&d);
    if best > limit {
        let mut e = c.clone();
        e.p[4] /= SMALLER as u32;
        e.b.truncate(e.b.len() / SMALLER);
        let e = expand(&e);
        let want = room(&e);
        let mut small = 0;
        for _ in 0..4 {
            heap::count(true);
            TIME.with(|t| t.set(0));
            env.call(&e, &want, PLAIN);
            heap::count(false);
            small = small.max(TIME.with(|t| t.get()));
        }
        if best > FACTOR * small + NS_FIXED {
            return Err(format!("{}: {:.6} s of CPU time for {n} bytes, every time, and {:.6} s for {} bytes", name(), best as f64 / 1e9, small as f64 / 1e9, e.a.len()));
        }
    }
    if o.status != Status::Panic {
        if !owned(&d) && used.calls != 0 {
            return Err(format!("{}: {} allocations ({} bytes) although the caller provides the memory", name(), used.calls, used.bytes));
        }
        let most = 3 * (n + result_len(&d)) + 4096;
        if used.peak > most {
            return Err(format!("{}: {} bytes allocated at the same time for {n} bytes of input", name(), used.peak));
        }
    }
    Ok(Info { nontrivial: n >= 1 << 16, class: if n == 0 { 0 } else { 1 + (o.status != Status::Ok) as usize } })
}

/// Stands for the model's result (only its length matters here).
fn room(d: &Case) -> Option<Vec<u8>> {
    Some(vec![0; result_len(d)])
}

thread_local! {
    /// CPU time inside the call
    pub static TIME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub struct Timed(u64);
/// Measures the call when allocations are counted.
pub fn timed() -> Timed {
    if !heap::counting() {
        return Timed(0);
    }
    heap::restart();
    Timed(cpu())
}
impl Drop for Timed {
    fn drop(&mut self) {
        if self.0 != 0 {
            let t = cpu() - self.0;
            heap::stop();
            TIME.with(|c| c.set(t));
        }
    }
}

pub fn describe(c: &Case) -> String {
    format!("{} ({} of {} bytes repeated, after {} others)", api::describe(&Case { a: Vec::new(), ..expand(&Case { p: [c.p[0], c.p[1], 0, 0, 0, c.p[5]], ..c.clone() }) }), c.p[4], c.a.len(), c.b.len())
}

pub fn grow_run(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(1);
    let mut c = Case::new(GROW);
    let codecs = k::codecs();
    // simple repetitions for every operation and form
    const UNITS: [&[u8]; 14] =
        [b"A", b" ", b"A ", b"AA ", b"AAAA ", b"AAAAAAA\n", b"=", b"A=", b"\n\r\t ", b"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA ", b"0", b"AAAAAAAAAAAAAAA\r\n", b"  A", b"f0"];
    for big in [0, 1, 2] {
        for fam in [ENC, DEC, FORG, ASCII, UTF32, SWAP] {
            for &id in if fam == ENC || fam == DEC { &codecs[..] } else { &[0u32, 1][..] } {
                for form in 0..10u32 {
                    if fam == FORG && (form > 2 || id > 0) || fam > FORG && form > 1 {
                        continue;
                    }
                    for u in UNITS {
                        if !ctx.mine() || big == 1 && !ctx.o.thorough && !r.chance(1, 6) || big == 2 && !r.chance(1, if ctx.o.thorough { 4 } else { 40 }) {
                            continue;
                        }
                        let n = [256 * 1024, 2_000_000, 16_000_000][big];
                        c.p = [id, form, 0, 0, n + r.below(64) as u32, fam];
                        c.a = if fam == UTF32 { vec![u[0], 0, 0, 0] } else { u.to_vec() };
                        c.b.clear();
                        ctx.go(&c)?;
                    }
                }
            }
        }
    }
    for _ in 0..ctx.times(2500, 60_000) {
        let mut x = Case::new(ENC);
        drive::any_call(&mut r, &drive::Opts::plain(26), &[300], &mut x);
        if matches!(x.fam, crate::props::LEN | UPARSE | UFMT) {
            continue;
        }
        let n = *r.pick(&[300_000u32, 300_000, 300_000, 1_000_000, 3_000_000, 8_000_000]) + r.below(100_000) as u32;
        c.p = [x.p[0], x.p[1], 0, 0, n, x.fam];
        c.a = x.a;
        gen::bound(&mut c.a, 400);
        if x.fam == DEC && r.chance(2, 3) {
            // valid throughout
            let code = model::code(x.p[0]);
            c.a.clear();
            for _ in 0..8 * r.range(1, 20) {
                c.a.push(*r.pick(code.alphabet));
            }
        }
        // where a change from one kind of content to another is
        c.b.clear();
        if r.chance(1, 3) {
            let k = r.below(n as usize);
            let b = *r.pick(b"AAA0 f=\n");
            c.b.resize(k, b);
        }
        if c.b.len() > 60_000 {
            c.b.truncate(60_000);
        }
        if c.a.is_empty() {
            c.a.push(b'A');
        }
        ctx.go(&c)?;
    }
    Ok(())
}
