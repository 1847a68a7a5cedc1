//! C23: many threads calling at once, each history from a fresh process (forked before any call, so that
//! the first calls of the child race to choose the implementation).
//!
//! Case: p = [mode, threads, seed low, seed high, calls, rounds].
//! mode 0: every thread makes the same calls, released together before each of them;
//! mode 1: the same calls in a different order per thread; mode 2: different calls per thread, repeated;
//! mode 3: like 2, the sources being shared read-only memory; mode 4: parallel encoding in the shared pool.
//! All synchronisation here is relaxed, so that it orders nothing for the race detector.

use crate::api::{self, Env, PLAIN};
use crate::case::Case;
use crate::drive::{any_call, Opts};
use crate::mem::{sys, Region};
use crate::props::{self, Info, Res};
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};

pub const RACE: u32 = 40;
/// Repetitions when a single case is executed (a schedule is not reproducible).
pub static REPEAT_SECONDS: AtomicU32 = AtomicU32::new(0);

struct Gate {
    threads: u64,
    arrived: AtomicU64,
    abort: AtomicBool,
    inside: AtomicU32,
}

/// Memory shared with the parent.
#[repr(C)]
struct Shared {
    claimed: AtomicU32,
    len: AtomicU32,
    calls: AtomicU64,
    overlaps: AtomicU64,
    msg: [u8; 3000],
}

#[derive(Clone, Copy)]
struct Local {
    gate: *const Gate,
    shared: *const Shared,
    /// meetings passed so far; 0 when calls are not in lockstep
    step: u64,
    lockstep: bool,
    delay: u32,
}

thread_local! {
    static LOCAL: Cell<Option<Local>> = const { Cell::new(None) };
}
static ACTIVE: AtomicBool = AtomicBool::new(false);

pub struct Pass(Option<Local>);

/// Called immediately before the code under test.
#[inline]
pub fn pass() -> Pass {
    if !ACTIVE.load(Relaxed) {
        return Pass(None);
    }
    let Some(mut l) = LOCAL.with(|l| l.get()) else { return Pass(None) };
    let g = unsafe { &*l.gate };
    if l.lockstep {
        l.step += 1;
        meet(g, l.step);
    }
    for _ in 0..l.delay {
        std::hint::spin_loop();
    }
    l.delay = (l.delay * 13 + 7) % 61;
    LOCAL.with(|c| c.set(Some(l)));
    let s = unsafe { &*l.shared };
    if g.inside.fetch_add(1, Relaxed) > 0 {
        s.overlaps.fetch_add(1, Relaxed);
    }
    s.calls.fetch_add(1, Relaxed);
    Pass(Some(l))
}

impl Drop for Pass {
    fn drop(&mut self) {
        if let Some(l) = self.0 {
            unsafe { &*l.gate }.inside.fetch_sub(1, Relaxed);
        }
    }
}

fn meet(g: &Gate, step: u64) {
    g.arrived.fetch_add(1, Relaxed);
    let mut n = 0u32;
    while g.arrived.load(Relaxed) < step * g.threads && !g.abort.load(Relaxed) {
        n += 1;
        if n > 2000 {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

fn fail(s: &Shared, g: &Gate, m: &str) {
    g.abort.store(true, Relaxed);
    if s.claimed.swap(1, Relaxed) == 0 {
        let n = m.len().min(s.msg.len());
        unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), s.msg.as_ptr().cast_mut(), n) };
        s.len.store(n as u32, Relaxed);
    }
}

#[derive(Clone, Copy)]
struct Ptr(*const u8);
unsafe impl Send for Ptr {}

/// Runs in the forked process.
fn child(c: &Case, s: &'static Shared) -> bool {
    let [mode, threads, lo, hi, calls, rounds] = c.p;
    let (threads, calls, rounds) = (threads.clamp(1, 16), calls.clamp(1, 200), rounds.clamp(1, 1000));
    let mut o = Opts::plain(23);
    let seed = (hi as u64) << 32 | lo as u64;
    o.wide = seed % 4 == 3;
    let lists = if mode <= 1 { 1 } else { threads };
    let mut all: Vec<Vec<Case>> = Vec::new();
    for i in 0..lists {
        let mut r = Rng::derive(&[seed, i as u64]);
        let focus = r.chance(1, 3).then(|| r.u64());
        let mut list = Vec::new();
        let mut tried = false;
        while list.len() < calls as usize {
            let mut x = Case::default();
            // sometimes all calls of one kind: the same function everywhere
            match focus {
                Some(f) if list.is_empty() && !tried => {
                    tried = true;
                    any_call(&mut Rng::derive(&[f]), &o, &[300], &mut x)
                }
                _ => any_call(&mut r, &o, &[300], &mut x),
            }
            if focus.is_some() && !list.is_empty() {
                let first: &Case = &list[0];
                if first.fam != x.fam && r.chance(49, 50) {
                    continue;
                }
            }
            if mode == 4 {
                let n = r.range(8000, 30000);
                let mut p = Case::new(props::PAR);
                p.p = [r.below(4) as u32, 0, n as u32, r.u32(), 0, 0];
                x = p;
            } else if x.fam == props::LEN || !api::available(x.fam) {
                continue;
            }
            list.push(x);
        }
        all.push(list);
    }
    // shared sources
    let mut sources: Vec<Vec<Ptr>> = Vec::new();
    let mut regions: Vec<Region> = Vec::new();
    if mode == 3 {
        let first = all[0].clone();
        for l in &mut all {
            *l = first.clone();
        }
        let mut v = Vec::new();
        for x in &all[0] {
            let mut reg = Region::new();
            let p = reg.put(&x.a, 2);
            if !cfg!(simd_tsan) {
                reg.protect(true);
            }
            v.push(Ptr(p));
            regions.push(reg);
        }
        sources = vec![v; threads as usize];
    }
    let gate: &'static Gate = Box::leak(Box::new(Gate { threads: threads as u64, arrived: AtomicU64::new(0), abort: AtomicBool::new(false), inside: AtomicU32::new(0) }));
    ACTIVE.store(true, Relaxed);
    let mut handles = Vec::new();
    for t in 0..threads {
        let mut list = all[t as usize % all.len()].clone();
        let src: Option<Vec<Ptr>> = sources.get(t as usize).cloned();
        let mut order: Vec<usize> = (0..list.len()).collect();
        let mut r = Rng::derive(&[seed, 1000 + t as u64]);
        if mode != 0 {
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i + 1));
            }
        }
        let delay = r.below(60) as u32;
        let h = std::thread::spawn(move || {
            let mut env = Env::default();
            LOCAL.with(|l| l.set(Some(Local { gate, shared: s, step: 0, lockstep: mode == 0, delay })));
            if mode != 0 {
                meet(gate, 1);
            }
            for _ in 0..if mode == 0 { 1 } else { rounds } {
                for &i in &order {
                    let x = &mut list[i];
                    if let Some(v) = &src {
                        env.src.adopt(v[i].0, x.a.len());
                    }
                    let r = if mode == 4 { props::par_plain(x) } else { props::against_model(&mut env, x, PLAIN).map(|_| ()) };
                    let r = r.and_then(|_| {
                        if x.fam != props::PAR && src.is_some() && unsafe { std::slice::from_raw_parts(src.as_ref().unwrap()[i].0, x.a.len()) } != &x.a[..] {
                            return Err("the shared source was changed".to_string());
                        }
                        Ok(())
                    });
                    if let Err(m) = r {
                        fail(s, gate, &format!("thread {t} of {threads}, {}: {m}", props::describe(x)));
                        return;
                    }
                    if gate.abort.load(Relaxed) {
                        return;
                    }
                }
            }
        });
        handles.push(h);
    }
    let mut ok = true;
    for h in handles {
        if h.join().is_err() {
            fail(s, gate, "harness: a thread of the harness panicked");
            ok = false;
        }
    }
    drop(regions);
    ok && s.claimed.load(Relaxed) == 0
}

/// One fresh process. Ok((calls, overlapping calls)).
fn once(c: &Case, s: &'static Shared) -> Result<(u64, u64), String> {
    s.claimed.store(0, Relaxed);
    s.len.store(0, Relaxed);
    s.calls.store(0, Relaxed);
    s.overlaps.store(0, Relaxed);
    unsafe {
        let pid = sys::fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            sys::alarm(100);
            let r = std::panic::catch_unwind(|| child(c, s));
            sys::_exit(match r {
                Ok(true) => 0,
                Ok(false) => 1,
                Err(_) => 3,
            });
        }
        let mut st = 0;
        assert!(sys::waitpid(pid, &mut st, 0) == pid, "harness: waitpid");
        let sig = st & 0x7F;
        if sig == 9 {
            return Err("harness: the process was killed".into());
        }
        if sig == 14 {
            return Err("the threads did not finish within 100 s".into());
        }
        if sig != 0 {
            return Err(format!("the process ended by signal {sig}"));
        }
        match st >> 8 & 0xFF {
            0 => Ok((s.calls.load(Relaxed), s.overlaps.load(Relaxed))),
            1 => {
                let n = s.len.load(Relaxed) as usize;
                Err(String::from_utf8_lossy(&s.msg[..n]).into_owned())
            }
            66 => Err("the race detector reported a data race".into()),
            x => Err(format!("harness: exit status {x}")),
        }
    }
}

pub fn check(c: &Case) -> Res {
    thread_local! {
        static SHARED: &'static Shared = unsafe {
            let p = sys::mmap(std::ptr::null_mut(), 4096, sys::RW, sys::MAP_SHARED | sys::MAP_ANON, -1, 0);
            assert!(p as isize != -1, "harness: mmap");
            &*p.cast::<Shared>()
        };
    }
    let s = SHARED.with(|s| *s);
    let t = std::time::Instant::now();
    let limit = REPEAT_SECONDS.load(Relaxed) as u64;
    loop {
        let (calls, overlaps) = once(c, s)?;
        if t.elapsed().as_secs() >= limit {
            let class = match overlaps {
                0 => 1,
                x if x * 10 < calls => 2,
                _ => 3,
            };
            return Ok(Info { nontrivial: overlaps > 0, class });
        }
    }
}

pub fn describe(c: &Case) -> String {
    let mode = ["the same calls in lockstep", "the same calls in different orders", "different calls repeated", "the same calls on shared sources repeated", "parallel encoding in the shared pool"];
    format!("fresh process, {} threads, {}: {} calls, {} rounds", c.p[1], mode.get(c.p[0] as usize).unwrap_or(&"?"), c.p[4], c.p[5])
}

pub fn drive(ctx: &mut crate::drive::Ctx) -> crate::drive::Flow {
    let mut r = ctx.rng(1);
    let mut c = Case::new(RACE);
    let tsan = cfg!(simd_tsan);
    for i in 0..ctx.times(if tsan { 400 } else { 8_000 }, if tsan { 20_000 } else { 400_000 }) {
        let mode = if ctx.o.part == "par" { 4 } else { *r.pick(&[0u32, 0, 0, 0, 1, 1, 2, 3]) };
        let threads = if i % 16 == 0 { r.range(6, 12) } else { r.range(2, 4) } as u32;
        let (calls, rounds) = match mode {
            0 => (r.range(1, 25), 1),
            1 => (r.range(1, 12), 1),
            4 => (r.range(1, 3), r.range(1, 3)),
            _ => (r.range(1, 20), r.range(1, 40)),
        };
        c.p = [mode, threads, r.u32(), r.u32(), calls as u32, rounds as u32];
        ctx.go(&c)?;
    }
    Ok(())
}
