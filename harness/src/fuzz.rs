//! Coverage-guided search: libFuzzer drives the same predicates; a byte string is decoded into a case.
//!
//! Input: see `space`. The mutator mixes libFuzzer's own mutations (guided by
//! coverage and by the operands of comparisons) with the structured generators.

use crate::api::*;
use crate::drive::Ctx;
use crate::gen;
use crate::model;
use crate::rng::Rng;
use crate::space::{self, Space, HEAD};
use std::ffi::{c_char, c_int, CString};

extern "C" {
    fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, cb: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
    fn LLVMFuzzerMutate(data: *mut u8, size: usize, max: usize) -> usize;
}

struct State {
    ctx: Ctx,
    runs: u64,
    space: Space,
}

static mut STATE: Option<State> = None;

fn state() -> &'static mut State {
    unsafe { (*(&raw mut STATE)).as_mut().unwrap() }
}

/// A panic here is the harness's own.
fn guard<T>(f: impl FnOnce() -> T) -> T {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| {
        eprintln!("{}", panic_msg());
        unsafe { crate::mem::sys::_exit(101) }
    })
}

extern "C" fn one(data: *const u8, size: usize) -> c_int {
    guard(|| one_case(data, size))
}

fn one_case(data: *const u8, size: usize) -> c_int {
    let s = state();
    let d = if size == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, size) } };
    if let Some(c) = space::decode(&s.space, d) {
        if s.ctx.go(&c).is_err() {
            finish(true);
        }
    } else {
        s.runs = s.runs.saturating_sub(1);
    }
    if s.ctx.evals >= s.runs {
        finish(false);
    }
    0
}

fn finish(failed: bool) -> ! {
    println!("{}", state().ctx.report(failed));
    unsafe { crate::mem::sys::_exit(0) }
}

#[no_mangle]
extern "C" fn LLVMFuzzerCustomMutator(data: *mut u8, size: usize, max: usize, seed: u32) -> usize {
    guard(|| mutator(data, size, max, seed))
}

fn mutator(data: *mut u8, size: usize, max: usize, seed: u32) -> usize {
    let s = state();
    let mut r = Rng::derive(&[77, seed as u64, s.ctx.o.seed]);
    let own = r.below(8);
    if own >= 3 && size >= HEAD {
        return unsafe { LLVMFuzzerMutate(data, size, max) };
    }
    let all = unsafe { std::slice::from_raw_parts_mut(data, max) };
    if max < HEAD {
        return size;
    }
    if size < HEAD || own == 0 {
        r.fill(&mut all[..HEAD]);
        let f = space::fresh(&mut r, &s.space, &all[..HEAD], max - HEAD);
        all[HEAD..HEAD + f.len()].copy_from_slice(&f);
        return HEAD + f.len();
    }
    let id = s.space.ids[all[1] as usize % s.space.ids.len()];
    let mut t = all[HEAD..size].to_vec();
    gen::mutate(&mut r, &model::code(id), &mut t);
    if own == 2 && s.space.fams[all[0] as usize % s.space.fams.len()] == FORG {
        gen::add_whitespace(&mut r, &mut t);
    }
    t.truncate(max - HEAD);
    all[HEAD..HEAD + t.len()].copy_from_slice(&t);
    HEAD + t.len()
}

pub fn main(ctx: Ctx, runs: u64) -> ! {
    let prop = ctx.o.prop;
    let seed = Rng::derive(&[ctx.o.seed, prop as u64, ctx.o.shard as u64, ctx.o.level as u64]).u32() | 1;
    unsafe { STATE = Some(State { ctx, runs, space: Space::of(prop) }) };
    let args: Vec<CString> = [
        "simdcheck".to_string(),
        format!("-seed={seed}"),
        "-runs=-1".into(),
        "-max_len=1300".into(),
        "-use_value_profile=1".into(),
        "-verbosity=0".into(),
        "-reload=0".into(),
        "-timeout=60".into(),
        "-rss_limit_mb=0".into(),
        "-detect_leaks=0".into(),
        "-handle_segv=0".into(),
        "-handle_bus=0".into(),
        "-handle_abrt=0".into(),
        "-handle_ill=0".into(),
        "-handle_fpe=0".into(),
        "-handle_int=0".into(),
        "-handle_term=0".into(),
    ]
    .into_iter()
    .map(|a| CString::new(a).unwrap())
    .collect();
    let mut ptrs: Vec<*mut c_char> = args.iter().map(|a| a.as_ptr() as *mut c_char).collect();
    ptrs.push(std::ptr::null_mut());
    let mut argc = args.len() as c_int;
    let mut argv = ptrs.as_mut_ptr();
    unsafe { LLVMFuzzerRunDriver(&mut argc, &mut argv, one) };
    finish(false)
}
