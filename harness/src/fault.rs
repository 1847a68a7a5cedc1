//! C27: a refused allocation ends the call in the standard way and damages nothing.
//!
//! Every allocation of a call is refused in turn. In ordinary builds the standard way is an abort, so each refusal
//! happens in a forked process; with `--cfg simd_oom` it is a panic (std's allocation-failure hook, nightly), and what
//! the caller is left with is examined as well.

use crate::api::{self, *};
use crate::case::Case;
use crate::codec as k;
use crate::drive::{self, Ctx, Flow};
use crate::gen;
use crate::mem::heap;
use crate::model;
use crate::props::{Info, Res};
use crate::rng::Rng;

/// A history on one Vec and one String, some of whose steps meet a refused allocation. 8 bytes per step.
pub const STEPS: u32 = 28;

#[cfg(simd_oom)]
pub fn panic_when_out_of_memory() {
    std::alloc::set_alloc_error_hook(|l| panic!("memory allocation of {} bytes failed", l.size()));
}

const MOST: u64 = 12;

fn allocates(c: &Case) -> bool {
    match c.fam {
        ENC => k::enc_is_owned(k::enc_form(c.p[0], c.p[1])),
        DEC => k::dec_is_owned(k::dec_form(c.p[0], c.p[1])),
        FORG => c.p[1] == 2,
        _ => false,
    }
}

pub fn check(env: &mut Env, c: &Case) -> Res {
    if c.fam == STEPS {
        return steps_case(c);
    }
    let want = model_result(c);
    heap::refuse(None);
    heap::count(true);
    let o = env.call(c, &want, PLAIN);
    let n = heap::used().calls;
    heap::count(false);
    crate::props::compare(c, &want, &o)?;
    for i in 0..n.min(MOST) {
        one(env, c, &want, i).map_err(|m| format!("allocation {i} of {n} is refused: {m}"))?;
    }
    Ok(Info { nontrivial: n > 0, class: n.min(2) as usize })
}

// ---- by unwinding -------------------------------------------------------------------------------

#[cfg(simd_oom)]
fn forget_message() {
    PANIC_MSG.with(|m| *m.borrow_mut() = String::new());
}

#[cfg(simd_oom)]
fn one(env: &mut Env, c: &Case, want: &Option<Vec<u8>>, i: u64) -> Result<(), String> {
    let mut lost = 0;
    for _ in 0..3 {
        forget_message();
        heap::refuse(Some(i));
        heap::count(true);
        heap::track();
        let o = env.call(c, want, PLAIN);
        let refused = heap::refused();
        heap::count(false);
        heap::refuse(None);
        let verdict = judge(c, want, &o, refused);
        drop(o);
        forget_message();
        lost = heap::tracked();
        verdict?;
        if lost <= 0 {
            return Ok(());
        }
    }
    Err(format!("{lost} bytes are never released"))
}

#[cfg(simd_oom)]
fn judge(c: &Case, want: &Option<Vec<u8>>, o: &Outcome, refused: Option<usize>) -> Result<(), String> {
    if let Some(m) = &o.mem {
        return Err(m.clone());
    }
    if o.status == Status::Panic && refused.is_some() {
        return Ok(());
    }
    crate::props::compare(c, want, o)
}

// ---- by aborting --------------------------------------------------------------------------------

#[cfg(all(target_os = "linux", not(miri), not(simd_oom)))]
mod forked {
    use super::*;
    use crate::mem::sys;
    use std::fs::File;
    use std::io::{Read, Seek, SeekFrom};
    use std::os::fd::{AsRawFd, FromRawFd};

    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }

    thread_local! {
        static ERRORS: File = {
            let fd = unsafe { sys::memfd_create(c"err".as_ptr().cast(), 0) };
            assert!(fd >= 0, "harness: memfd");
            unsafe { File::from_raw_fd(fd) }
        };
    }

    pub fn one(env: &mut Env, c: &Case, want: &Option<Vec<u8>>, i: u64) -> Result<(), String> {
        ERRORS.with(|e| {
            let mut e = e;
            e.set_len(0).and_then(|_| e.seek(SeekFrom::Start(0))).expect("harness: memfd");
            let pid = unsafe { sys::fork() };
            assert!(pid >= 0, "harness: fork");
            if pid == 0 {
                unsafe {
                    sys::alarm(20);
                    dup2(e.as_raw_fd(), 2);
                }
                heap::refuse(Some(i));
                heap::count(true);
                let o = env.call(c, want, PLAIN);
                let refused = heap::refused();
                heap::count(false);
                let code = match refused {
                    Some(_) if o.status == Status::Panic => 0,
                    _ => crate::props::compare(c, want, &o).is_err() as i32,
                };
                if code != 0 {
                    eprintln!("{}", crate::props::compare(c, want, &o).unwrap_err());
                }
                unsafe { sys::_exit(code) }
            }
            let mut st = 0;
            assert!(unsafe { sys::waitpid(pid, &mut st, 0) } == pid, "harness: waitpid");
            let mut text = String::new();
            e.seek(SeekFrom::Start(0)).expect("harness: memfd");
            let mut raw = Vec::new();
            e.read_to_end(&mut raw).expect("harness: memfd");
            text.push_str(&String::from_utf8_lossy(&raw));
            match (st & 0x7F, st >> 8 & 0xFF) {
                (0, 0) => Ok(()),
                (0, _) => Err(format!("wrong result: {}", text.trim())),
                (6, _) if text.contains("memory allocation of ") => Ok(()),
                (6, _) => Err(format!("abort without a report of the failed allocation: {}", text.trim())),
                (14, _) => Err("the call does not end".into()),
                (s, _) => Err(format!("killed by signal {s}")),
            }
        })
    }
}
#[cfg(all(target_os = "linux", not(miri), not(simd_oom)))]
use forked::one;

#[cfg(not(any(simd_oom, all(target_os = "linux", not(miri)))))]
fn one(_: &mut Env, _: &Case, _: &Option<Vec<u8>>, _: u64) -> Result<(), String> {
    Err("harness: cannot refuse allocations on this target".into())
}

// ---- histories ----------------------------------------------------------------------------------

#[cfg(all(simd_oom, feature = "alloc"))]
fn steps_case(c: &Case) -> Res {
    let codecs = k::codecs();
    let mut v: Vec<u8> = Vec::with_capacity(c.p[0] as usize % 300);
    let mut s = String::with_capacity(c.p[1] as usize % 300);
    let (mut mv, mut ms): (Vec<u8>, Vec<u8>) = Default::default();
    let mut failures = 0;
    for (i, st) in c.a.chunks_exact(8).enumerate() {
        let id = codecs[st[1] as usize % codecs.len()];
        let n = u16::from_le_bytes([st[3], st[4]]) as usize % 700 * [1, 1, 1, 1, 1, 1, 1, 7, 30, 150][st[7] as usize % 10];
        let mut r = Rng::derive(&[27, st[5] as u64, n as u64]);
        let mut data = Vec::new();
        gen::bytes(&mut r, n, &mut data);
        let code = model::code(id);
        let op = st[0] % 4;
        if op == 2 {
            data = model::encode(&code, &data);
            if st[6] % 4 == 0 {
                gen::mutate(&mut r, &code, &mut data);
            }
        }
        let fail = |m: String| Err(format!("step {i} ({}, {} bytes, {}): {m}", ["encode_append Vec", "encode_append String", "decode_append", "shrink_to_fit"][op as usize], data.len(), k::CODEC_NAMES[id as usize]));
        if op == 3 {
            if st[6] % 2 == 0 {
                v.shrink_to_fit();
            } else {
                s.shrink_to_fit();
            }
            continue;
        }
        heap::refuse((st[2] % 3 == 0).then_some([0, 0, 0, 1, 1, 2, 3, 5, 10][st[2] as usize / 3 % 9]));
        heap::count(true);
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _t = crate::linear::timed();
            match op {
                0 => Ok(k::encode_append_vec(id, &data, &mut v)),
                1 => Ok(k::encode_append_string(id, &data, &mut s)),
                _ => k::decode_append(id, &data, &mut v),
            }
        }));
        let refused = heap::refused().is_some();
        heap::count(false);
        heap::refuse(None);
        let want = if op == 2 { model::decode(&code, &data) } else { Some(model::encode(&code, &data)) };
        match (got, want) {
            (Err(_), _) if refused => failures += 1,
            (Err(_), _) => return fail(format!("panicked: {}", api::panic_msg())),
            (Ok(Ok(())), Some(w)) => if op == 1 { ms.extend(w) } else { mv.extend(w) },
            (Ok(Err(())), None) => {}
            (Ok(Ok(())), None) => return fail("accepted invalid text".into()),
            (Ok(Err(())), Some(_)) => return fail("rejected valid text".into()),
        }
        if v != mv {
            return fail(format!("the Vec has {} bytes, expected {}{}", v.len(), mv.len(), if v.len() == mv.len() { " others" } else { "" }));
        }
        if s.as_bytes() != &ms[..] {
            return fail(format!("the String has {} bytes, expected {}{}", s.len(), ms.len(), if s.len() == ms.len() { " others" } else { "" }));
        }
    }
    Ok(Info { nontrivial: failures > 0, class: 3 })
}

#[cfg(not(all(simd_oom, feature = "alloc")))]
fn steps_case(_: &Case) -> Res {
    Err("harness: needs the allocation-failure hook".into())
}

// ---- generation ---------------------------------------------------------------------------------

pub fn describe(c: &Case) -> String {
    format!("history of {} appends on one Vec and one String, with refused allocations", c.a.len() / 8)
}

fn text(r: &mut Rng, id: u32, n: usize, c: &mut Case) {
    let mut d = Vec::new();
    gen::bytes(r, n, &mut d);
    c.a.clear();
    model::encode_into(&model::code(id), &d, &mut c.a);
}

pub fn run(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(1);
    let mut c = Case::new(ENC);
    let codecs = k::codecs();
    // every owned form at every short length; appends also with some, just enough and just too little room
    for n in 0..=if cfg!(simd_oom) { 300usize } else { 70 } {
        for &id in &codecs {
            for fam in [ENC, DEC] {
                for form in 0..10u32 {
                    c.fam = fam;
                    c.p = [id, form, 0, 0, 0, 0x5A];
                    if !allocates(&c) || !ctx.mine() {
                        continue;
                    }
                    for fill in 0..5u32 {
                        let append = fam == ENC && matches!(form, k::ENC_APPEND_VEC | k::ENC_APPEND_STRING) || fam == DEC && form == k::DEC_APPEND;
                        if fill > 0 && !append {
                            break;
                        }
                        if fam == ENC {
                            gen::bytes(&mut r, n, &mut c.a);
                        } else {
                            text(&mut r, id, n, &mut c);
                        }
                        c.b.clear();
                        c.b.resize([0, 0, 5, 5, 40][fill as usize], b'p');
                        let m = if fam == ENC { model::encoded_len(&model::code(id), n as u128) as u32 } else { n as u32 };
                        c.p[4] = [0, m, m, m.saturating_sub(1), 1][fill as usize];
                        ctx.go(&c)?;
                    }
                }
            }
        }
        if codecs.contains(&0) && ctx.mine() {
            c.fam = FORG;
            c.p = [0, 2, 0, 0, 0, 0x5A];
            c.b.clear();
            text(&mut r, 0, n, &mut c);
            ctx.go(&c)?;
            gen::add_whitespace(&mut r, &mut c.a);
            ctx.go(&c)?;
        }
    }
    // long and very long ones
    for n in [4095usize, 4096, 5000, 65_536, 131_073, 1_000_000, 3_000_001] {
        for &id in &codecs {
            for (fam, forms) in [(ENC, &[2u32, 3, 4, 5, 6, 7, 8][..]), (DEC, &[2, 3, 4, 5]), (FORG, &[2])] {
                for &form in forms {
                    if fam == FORG && id > 0 || !ctx.mine() || n > 65_536 && !ctx.o.thorough && !r.chance(1, 4) {
                        continue;
                    }
                    c.fam = fam;
                    c.p = [id, form, 0, 0, 0, 0x5A];
                    c.b.clear();
                    if fam == ENC {
                        gen::bytes(&mut r, n, &mut c.a);
                    } else {
                        text(&mut r, id, n, &mut c);
                    }
                    ctx.go(&c)?;
                }
            }
        }
    }
    let o = ctx.o.clone();
    for _ in 0..if cfg!(simd_oom) { ctx.times(60_000, 3_000_000) } else { ctx.times(8_000, 200_000) } {
        drive::any_call(&mut r, &o, &[20_000], &mut c);
        if matches!(c.fam, ENC | DEC | FORG) {
            if c.fam == FORG {
                c.p[1] = 2;
            } else if !allocates(&c) && r.chance(9, 10) {
                c.p[1] = 2 + c.p[1] % 4;
            }
            ctx.go(&c)?;
        }
    }
    if cfg!(simd_oom) {
        c = Case::new(STEPS);
        // one append of every kind, each of its allocations refused
        for n in (0..128).chain([350, 351, 699]) {
            for id in 0..codecs.len() as u8 {
                if !ctx.mine() {
                    continue;
                }
                for op in 0..3 {
                    for k in [0u8, 9, 15, 18] {
                        for m in [0u8, 7, 8, 9] {
                            let l = (n as u16).to_le_bytes();
                            c.a = vec![op, id, 1, 5, 0, n as u8, 1, 0, op, id, k, l[0], l[1], n as u8, 1, m, op, id, 1, 3, 0, 7, 1, 0];
                            c.p = [n / 3, n / 3, 0, 0, 0, 0];
                            ctx.go(&c)?;
                        }
                    }
                }
            }
        }
        for _ in 0..ctx.times(60_000, 3_000_000) {
            let n = r.range(1, 30);
            c.a.resize(n * 8, 0);
            r.fill(&mut c.a);
            if r.chance(1, 2) {
                for s in c.a.chunks_exact_mut(8) {
                    s[4] = 0;
                    s[3] %= 70;
                }
            }
            c.p = [r.below(300) as u32, r.below(300) as u32, 0, 0, 0, 0];
            ctx.go(&c)?;
        }
    }
    Ok(())
}
