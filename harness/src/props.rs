//! One predicate per property, over single cases.

use crate::api::{self, *};
use crate::case::Case;
use crate::codec as k;
use crate::model;
use crate::rng::Rng;

/// What a case exercised: `nontrivial` by the property's rule, and a class index into `classes(prop)`.
#[derive(Clone, Copy, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub class: usize,
}

pub type Res = Result<Info, String>;

// families beyond those of `api`
pub const LEN: u32 = 20;
pub const HIST: u32 = 21;
pub const META: u32 = 22;
pub const PAR: u32 = 23;
pub const LENTEXT: u32 = 24;

pub fn classes(prop: u32) -> &'static [&'static str] {
    match prop {
        2 | 3 | 6 | 8 | 9 | 19 => &["empty", "accepted_short", "accepted_long", "rejected_short", "rejected_long"],
        11 | 12 => &["empty", "yes_short", "yes_long", "no_short", "no_long"],
        16 | 17 | 21 | 22 => &["empty", "ok_short", "ok_long", "error_short", "error_long", "panic_expected"],
        18 => &["empty", "fits", "fits_with_room", "too_small", "invalid_input", "length_query", "panic_expected"],
        23 => &["empty", "no_overlap", "some_calls_overlap", "many_calls_overlap"],
        20 => &["empty", "no_failure", "with_failing_append", "with_reallocation"],
        24 => &["empty", "round_trip", "text_round_trip", "text_rejected", "split_data", "split_text", "split_check"],
        14 | 15 => &["other", "rejected", "vector128_or_scalar", "vector256_or_more", "bulk_swap", "tool"],
        25 => &["empty", "ok", "error_or_panic"],
        26 => &["empty", "ok", "error_or_panic"],
        27 => &["no_allocation", "refused", "refused_again", "history"],
        4 => &["sequential_path", "parallel_path", "short_destination"],
        _ => &["empty", "short", "long"],
    }
}

pub fn describe(c: &Case) -> String {
    match c.fam {
        1..=8 => api::describe(c),
        LEN => format!("length functions of {} for n = {}", k::CODEC_NAMES[c.p[0] as usize % 10], arg64(c)),
        HIST => format!("history of {} operations on one Vec and one String: {}", c.a.len() / 8, history_text(c)),
        META => format!("{} kind {} on {} bytes, split {}", k::CODEC_NAMES[c.p[0] as usize % 10], c.p[1], c.a.len(), c.p[2]),
        PAR => format!("par_encode {} of {} bytes in a pool of {}, destination delta {}", k::CODEC_NAMES[c.p[0] as usize % 10], c.p[2], c.p[1], c.p[4] as i32),
        #[cfg(all(target_os = "linux", not(miri)))]
        crate::race::RACE => crate::race::describe(c),
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        crate::huge::HUGE => crate::huge::describe(c),
        crate::fault::STEPS => crate::fault::describe(c),
        crate::linear::GROW => crate::linear::describe(c),
        #[cfg(feature = "vs")]
        30..=33 => crate::vs::describe(c),
        LENTEXT => format!("decoded length of {} text of {} bytes", k::CODEC_NAMES[c.p[0] as usize % 10], c.a.len()),
        f => format!("family {f} p {:?}, {} bytes", c.p, c.a.len()),
    }
}

fn arg64(c: &Case) -> u64 {
    (c.p[4] as u64) << 32 | c.p[5] as u64
}

fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(48) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 48 {
        s.push_str(&format!(".. ({} bytes)", b.len()));
    }
    s
}

fn diff(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("returned {} bytes, expected {} bytes", got.len(), want.len());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
    format!("byte {i} of {}: got {:#04x}, expected {:#04x}", got.len(), got[i], want[i])
}

/// Runs the call and compares acceptance and content with the model.
pub fn against_model(env: &mut Env, c: &Case, bg: Background) -> Result<Outcome, String> {
    let want = model_result(c);
    let o = env.call(c, &want, bg);
    compare(c, &want, &o)?;
    Ok(o)
}

pub fn compare(c: &Case, want: &Option<Vec<u8>>, o: &Outcome) -> Result<(), String> {
    let expect = model_status(c, want, o);
    if o.status == Status::Panic && expect != Status::Panic {
        return Err(format!("panicked: {}", o.panic_msg));
    }
    if o.status != expect {
        return Err(match (o.status, expect) {
            (Status::Ok, Status::Err) => format!("accepted input that must be rejected (returned {})", show(&o.bytes)),
            (Status::Err, Status::Ok) => format!("rejected input that must be accepted (expected {})", show(want.as_ref().unwrap())),
            (a, b) => format!("outcome {a:?}, expected {b:?}"),
        });
    }
    if o.status == Status::Ok {
        let w = want.as_ref().unwrap();
        if &o.bytes != w {
            return Err(diff(&o.bytes, w));
        }
        if !o.utf8 {
            return Err("returned str is not valid UTF-8".into());
        }
    }
    Ok(())
}

fn long(c: &Case) -> bool {
    c.a.len() >= 32
}

fn status_class(c: &Case, o: &Outcome) -> usize {
    if c.a.is_empty() {
        return 0;
    }
    match o.status {
        Status::Ok => 1 + long(c) as usize,
        Status::Err => 3 + long(c) as usize,
        Status::Panic => 5,
    }
}

fn bool_class(c: &Case, o: &Outcome) -> usize {
    if c.a.is_empty() {
        return 0;
    }
    let yes = o.status == Status::Ok && (o.bytes != [0] || c.fam == ASCII && c.p[0] == 1);
    if yes { 1 + long(c) as usize } else { 3 + long(c) as usize }
}

/// Decides the property on one case.
pub fn check(prop: u32, env: &mut Env, c: &Case) -> Res {
    #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
    if c.fam == crate::huge::HUGE {
        return crate::huge::check(c);
    }
    match prop {
        1 | 5 | 7 => {
            against_model(env, c, PLAIN)?;
            Ok(Info { nontrivial: !c.a.is_empty(), class: if c.a.is_empty() { 0 } else { 1 + long(c) as usize } })
        }
        2 | 3 | 6 | 8 | 9 => {
            let o = against_model(env, c, PLAIN)?;
            Ok(Info { nontrivial: !c.a.is_empty(), class: status_class(c, &o) })
        }
        4 => par_case(env, c),
        10 => {
            let o = against_model(env, c, PLAIN)?;
            // parses back
            let mut back = Case::new(UPARSE);
            back.p[0] = if c.p[0] & 1 == 0 { 1 } else { 2 };
            back.p[1] = (c.p[1] != 0) as u32;
            back.a = o.bytes.clone();
            let got = env.call(&back, &Some(vec![0; 16]), PLAIN);
            if got.status != Status::Ok || got.bytes != c.a[..16] {
                return Err(format!("formatted text does not parse back: {:?} {}", got.status, show(&got.bytes)));
            }
            Ok(Info { nontrivial: c.a[..16].iter().any(|&b| b != c.a[0]), class: 1 })
        }
        11 | 12 => {
            let o = against_model(env, c, PLAIN)?;
            Ok(Info { nontrivial: !c.a.is_empty(), class: bool_class(c, &o) })
        }
        13 => {
            let o = against_model(env, c, PLAIN)?;
            if o.status == Status::Ok {
                if !o.at_start {
                    return Err("returned slice does not start at the destination".into());
                }
                if !o.rest_same {
                    return Err("units behind the result were changed".into());
                }
                // swapping again restores
                let mut again = c.clone();
                again.a = o.bytes.clone();
                let b = env.call(&again, &None, PLAIN);
                let w = if c.p[0] == 0 { 2 } else { 4 };
                if b.status != Status::Ok || b.bytes != c.a[..c.a.len() / w * w] {
                    return Err("swapping twice does not restore the data".into());
                }
            }
            Ok(Info { nontrivial: c.a.len() >= 4, class: if c.a.is_empty() { 0 } else { 1 + long(c) as usize } })
        }
        16 => memory_case(env, c),
        17 => {
            let (d, i) = digest(env, c);
            LAST_DIGEST.with(|l| *l.borrow_mut() = format!("{d:016x}"));
            Ok(i)
        }
        18 => contract_case(env, c),
        19 => inplace_case(env, c),
        20 => history_case(env, c),
        21 => background_case(env, c),
        22 => no_panic_case(env, c),
        #[cfg(all(target_os = "linux", not(miri)))]
        23 => crate::race::check(c),
        24 => meta_case(env, c),
        25 => crate::linear::sets_case(env, c),
        26 => crate::linear::grow_case(env, c),
        27 => crate::fault::check(env, c),
        #[cfg(feature = "vs")]
        14 | 15 => crate::vs::check(env, c),
        _ => Err(format!("harness: property {prop} has no case check")),
    }
}

// ---- C17 ----------------------------------------------------------------------------------------

thread_local! {
    pub static LAST_DIGEST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// What an observer of the call sees, in terms that are the same in every build.
pub fn digest(env: &mut Env, c: &Case) -> (u64, Info) {
    let mut h = crate::rng::Hash::default();
    if c.fam == LEN {
        let n = arg64(c) as usize;
        for f in [k::encoded_length as fn(u32, usize) -> usize, k::estimated_decoded_length] {
            match std::panic::catch_unwind(|| f(c.p[0], n)) {
                Ok(v) => h.u64(v as u64),
                Err(_) => h.u64(u64::MAX),
            }
        }
        return (h.get(), Info { nontrivial: n > 0, class: 1 });
    }
    let mut own = None;
    if c.fam == FORG && c.p[1] == 2 && !cfg!(feature = "alloc") {
        let mut d = c.clone();
        d.p[1] = 0;
        own = Some(d);
    }
    let x = own.as_ref().unwrap_or(c);
    let want = model_result(x);
    let o = env.call(x, &want, PLAIN);
    h.u64(o.status as u64);
    if o.status == Status::Ok {
        let append = match c.fam {
            ENC => matches!(k::enc_form(c.p[0], c.p[1]), k::ENC_APPEND_VEC | k::ENC_APPEND_STRING),
            DEC => k::dec_form(c.p[0], c.p[1]) == k::DEC_APPEND,
            _ => false,
        };
        let skip = if append { c.b.len().min(o.bytes.len()) } else { 0 };
        h.bytes(&o.bytes[skip..]);
        if append {
            h.u64((o.bytes[..skip] != c.b[..]) as u64);
        } else {
            h.u64(0);
        }
    }
    (h.get(), Info { nontrivial: !c.a.is_empty(), class: status_class(c, &o) })
}

// ---- C04 ----------------------------------------------------------------------------------------

/// One parallel encoding in the surrounding pool, against the model.
#[cfg(all(target_os = "linux", not(miri)))]
pub fn par_plain(c: &Case) -> Result<(), String> {
    #[cfg(feature = "parallel")]
    {
        let mut data = vec![0u8; c.p[2] as usize];
        Rng::derive(&[4, c.p[3] as u64]).fill(&mut data);
        let want = model::encode(&model::code(c.p[0]), &data);
        let mut d = vec![0xA5u8; want.len()];
        let _pass = crate::race::pass();
        match k::par_encode(c.p[0], &data, &mut d) {
            Ok(x) if x == &want[..] => Ok(()),
            Ok(x) => Err(diff(x, &want)),
            Err(()) => Err("rejected a destination of the right size".into()),
        }
    }
    #[cfg(not(feature = "parallel"))]
    {
        Err(format!("harness: parallel encoding is not built ({})", c.fam))
    }
}

#[cfg(feature = "parallel")]
fn par_case(env: &mut Env, c: &Case) -> Res {
    use std::collections::HashMap;
    thread_local! {
        static POOLS: std::cell::RefCell<HashMap<usize, &'static rayon::ThreadPool>> = std::cell::RefCell::new(HashMap::new());
    }
    let (id, threads, n) = (c.p[0], c.p[1].max(1) as usize, c.p[2] as usize);
    let delta = c.p[4] as i32 as i64;
    let mut data = vec![0u8; n];
    Rng::derive(&[4, c.p[3] as u64]).fill(&mut data);
    for (i, x) in c.a.iter().enumerate() {
        if i < n {
            data[n - 1 - i] = *x;
        }
    }
    let want = model::encode(&model::code(id), &data);
    let m = (want.len() as i64 + delta).max(0) as usize;
    let pool = POOLS.with(|p| {
        *p.borrow_mut().entry(threads).or_insert_with(|| Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("harness: pool"))))
    });
    let fill = c.p[5] as u8;
    let sp = env.src.put(&data, 0) as usize;
    let dp = env.dst.get(m, 0, fill) as usize;
    // sequential encoding decides acceptance
    let mut seq_buf = vec![fill; m];
    let seq = k::encode(id, &data, &mut seq_buf).map(|x| x.len());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        pool.install(|| {
            let s = unsafe { std::slice::from_raw_parts(sp as *const u8, n) };
            let d = unsafe { std::slice::from_raw_parts_mut(dp as *mut u8, m) };
            k::par_encode(id, s, d).map(|x| (x.as_ptr() as usize, x.len()))
        })
    }));
    match (r, seq) {
        (Err(_), _) => return Err(format!("panicked: {}", panic_msg())),
        (Ok(Ok(_)), Err(())) => return Err("parallel encoding accepted a destination that sequential encoding rejects".into()),
        (Ok(Err(())), Ok(_)) => return Err("parallel encoding rejected a destination that sequential encoding accepts".into()),
        (Ok(Err(())), Err(())) => {}
        (Ok(Ok((p, len))), Ok(slen)) => {
            if p != dp || len != slen {
                return Err(format!("returned slice at offset {} of {len} bytes, expected {slen}", p.wrapping_sub(dp)));
            }
            let got = env.dst.bytes();
            if got[..len] != seq_buf[..slen] {
                return Err(format!("differs from sequential encoding: {}", diff(&got[..len], &seq_buf[..slen])));
            }
            if got[..len] != want[..] {
                return Err(diff(&got[..len], &want));
            }
            if got[len..].iter().any(|&x| x != fill) {
                return Err("bytes behind the result were changed".into());
            }
        }
    }
    if let Err(e) = env.dst.intact().and(env.src.intact()) {
        return Err(e);
    }
    if env.src.bytes() != &data[..] {
        return Err("source changed".into());
    }
    let parallel = n >= threads * 4096 && threads >= 2;
    Ok(Info { nontrivial: parallel, class: if delta < 0 { 2 } else { parallel as usize } })
}

#[cfg(not(feature = "parallel"))]
fn par_case(_: &mut Env, _: &Case) -> Res {
    Err("harness: built without parallel".into())
}

// ---- C16 ----------------------------------------------------------------------------------------

fn memory_case(env: &mut Env, c: &Case) -> Res {
    let want = if c.a.len() > 200_000 { None } else { model_result(c) };
    // a read-only source also notices stores of unchanged values; page protection is slow, so in a quarter
    let read_only = (c.a.len() as u32).wrapping_add(c.p[0]).wrapping_add(c.p[1]).wrapping_add(c.p[2]) % 4 == 0;
    let bg = Background { fill: None, heap: Some(0xA5), read_only, neighbours: 0 };
    let o = env.call(c, &want, bg);
    if let Some(m) = &o.mem {
        return Err(m.clone());
    }
    if !o.src_same {
        return Err("the source was modified".into());
    }
    Ok(Info { nontrivial: !c.a.is_empty(), class: status_class(c, &o) })
}

// ---- C18 ----------------------------------------------------------------------------------------

fn contract_case(env: &mut Env, c: &Case) -> Res {
    match c.fam {
        LEN => return length_case(c),
        LENTEXT => return length_text_case(c),
        _ => {}
    }
    let want = model_result(c);
    let o = env.call(c, &want, PLAIN);
    let expect = model_status(c, &want, &o);
    if o.status != expect {
        return Err(match o.status {
            Status::Panic => format!("panicked: {} (destination {} bytes)", o.panic_msg, o.dst_len),
            s => format!("outcome {s:?}, expected {expect:?} with a destination of {} bytes, {} needed", o.dst_len, need(c, &want)),
        });
    }
    let check_only = c.fam == DEC && matches!(k::dec_form(c.p[0], c.p[1]), k::DEC_CHECK | k::DEC_CHECK_RAW);
    if o.status == Status::Ok && !check_only {
        let n = want.as_ref().unwrap().len();
        if o.bytes.len() != n {
            return Err(format!("result has {} bytes, expected {n}", o.bytes.len()));
        }
        if !o.at_start {
            return Err("returned slice does not start at the start of the buffer".into());
        }
        if !o.rest_same {
            return Err(format!("bytes of the {}-byte buffer behind the {n}-byte result were changed", o.dst_len));
        }
    }
    let class = if c.a.is_empty() {
        0
    } else {
        match (o.status, &want) {
            (Status::Panic, _) => 6,
            (Status::Err, None) => 4,
            (Status::Err, Some(_)) => 3,
            (Status::Ok, _) => 1 + ((c.p[4] as i32) > 0) as usize,
        }
    };
    Ok(Info { nontrivial: !c.a.is_empty(), class })
}

fn length_case(c: &Case) -> Res {
    let id = c.p[0];
    let n = arg64(c) as usize;
    let code = model::code(id);
    let call = |f: fn(u32, usize) -> usize| std::panic::catch_unwind(|| f(id, n)).map_err(|_| panic_msg());
    let got = call(k::encoded_length);
    if n > usize::MAX / 2 {
        if let Ok(v) = got {
            return Err(format!("encoded_length({n}) returned {v} instead of panicking"));
        }
        return Ok(Info { nontrivial: true, class: 6 });
    }
    // the result is exact whenever it is representable
    let exact = model::encoded_len(&code, n as u128);
    match got {
        Ok(v) if v as u128 == exact => {}
        Ok(v) => return Err(format!("encoded_length({n}) = {v}, expected {exact}")),
        Err(e) if exact <= usize::MAX as u128 => return Err(format!("encoded_length({n}) panicked: {e}")),
        Err(_) => {}
    }
    let est = call(k::estimated_decoded_length).map_err(|e| format!("estimated_decoded_length({n}) panicked: {e}"))?;
    let upper = n as u128 * code.bits as u128 / 8;
    if (est as u128) < upper {
        return Err(format!("estimated_decoded_length({n}) = {est} is below the {upper} bytes such a text can hold"));
    }
    #[cfg(feature = "hex")]
    if id >= 8 {
        let d = std::panic::catch_unwind(|| hex_simd::decoded_length(n)).map_err(|_| format!("decoded_length({n}) panicked"))?;
        let want = if n % 2 == 0 { Some(n / 2) } else { None };
        if d.ok() != want {
            return Err(format!("decoded_length({n}) disagrees with {want:?}"));
        }
    }
    Ok(Info { nontrivial: n > 0, class: 5 })
}

fn length_text_case(c: &Case) -> Res {
    let id = c.p[0];
    let want = model::decode(&model::code(id), &c.a);
    let r = std::panic::catch_unwind(|| (k::decoded_length(id, &c.a), k::estimated_decoded_length(id, c.a.len())));
    let (got, est) = r.map_err(|_| format!("panicked: {}", panic_msg()))?;
    if let Some(w) = &want {
        match got {
            Ok(n) if n == w.len() => {}
            Ok(n) => return Err(format!("decoded_length = {n}, but decoding gives {} bytes", w.len())),
            Err(()) => return Err(format!("decoded_length rejects a text that decodes to {} bytes", w.len())),
        }
        if est < w.len() {
            return Err(format!("estimated_decoded_length = {est}, but decoding gives {} bytes", w.len()));
        }
    }
    if let Ok(n) = got {
        if est < n {
            return Err(format!("estimated_decoded_length = {est} is below decoded_length = {n}"));
        }
    }
    Ok(Info { nontrivial: !c.a.is_empty(), class: if want.is_some() { 5 } else { 4 } })
}

// ---- C19 ----------------------------------------------------------------------------------------

fn inplace_case(env: &mut Env, c: &Case) -> Res {
    let mut ip = c.clone();
    let mut oop = c.clone();
    if c.fam == FORG {
        ip.p[1] = 1;
        oop.p[1] = if c.p[1] == 2 && cfg!(feature = "alloc") { 2 } else { 0 };
    } else {
        let raw = c.p[0] >= 8 && c.p[1] & 1 == 1;
        ip.p[1] = if raw { k::DEC_RAW_INPLACE } else { k::DEC_INPLACE };
        oop.p[1] = if raw { k::DEC_RAW } else { k::DEC_SLICE };
        oop.p[4] = c.a.len() as u32; // ample room
    }
    let a = env.call(&oop, &None, PLAIN);
    let b = env.call(&ip, &None, PLAIN);
    for (o, w) in [(&a, "out-of-place"), (&b, "in-place")] {
        if o.status == Status::Panic {
            return Err(format!("{w} decoding panicked: {}", o.panic_msg));
        }
    }
    if a.status != b.status {
        return Err(format!("in-place decoding gives {:?}, out-of-place decoding gives {:?}", b.status, a.status));
    }
    if a.status == Status::Ok {
        if a.bytes != b.bytes {
            return Err(format!("in-place differs from out-of-place: {}", diff(&b.bytes, &a.bytes)));
        }
        if !b.at_start {
            return Err("in-place result does not start at the start of the buffer".into());
        }
    }
    Ok(Info { nontrivial: c.a.len() >= 2, class: status_class(c, &a) })
}

// ---- C20 ----------------------------------------------------------------------------------------

struct Step {
    op: u8,
    codec: u32,
    flavour: u8,
    len: usize,
    seed: u64,
}

fn steps(c: &Case) -> Vec<Step> {
    let codecs = k::codecs();
    c.a.chunks_exact(8)
        .map(|r| {
            let raw = u16::from_le_bytes([r[3], r[4]]) as usize;
            // mostly short, sometimes up to a few thousand bytes
            let len = match r[7] % 8 {
                0..=3 => raw % 48,
                4 | 5 => raw % 200,
                6 => raw % 1500,
                _ => raw % 5000,
            };
            Step { op: r[0] % 16, codec: codecs[r[1] as usize % codecs.len()], flavour: r[2], len, seed: u16::from_le_bytes([r[5], r[6]]) as u64 }
        })
        .collect()
}

/// The text a decode step feeds: valid, or broken in a way chosen by `flavour`.
fn step_text(s: &Step) -> Vec<u8> {
    let code = model::code(s.codec);
    let mut r = Rng::derive(&[20, s.seed, s.len as u64]);
    let mut data = Vec::new();
    crate::gen::bytes(&mut r, s.len, &mut data);
    let mut t = model::encode(&code, &data);
    if code.fold_case {
        for x in t.iter_mut() {
            if r.u64() & 1 == 0 {
                *x = x.to_ascii_uppercase();
            } else {
                *x = x.to_ascii_lowercase();
            }
        }
    }
    if s.flavour % 3 == 0 && !t.is_empty() {
        let n = t.len();
        let i = match s.flavour % 4 {
            0 => n - 1,
            1 => 0,
            _ => r.below(n),
        };
        match s.flavour % 5 {
            0 => t[i] = b'!',
            1 => t[i] |= 0x80,
            2 => {
                t.pop();
            }
            3 => t[i] = b'=',
            _ => crate::gen::mutate(&mut r, &code, &mut t),
        }
    }
    t
}

const OP_NAMES: [&str; 16] = [
    "encode_append Vec", "encode_append Vec", "encode_append Vec", "encode_append String", "encode_append String", "encode_append String",
    "decode_append", "decode_append", "decode_append", "decode_append", "decode_append", "shrink_to_fit", "reserve", "push", "truncate", "clear",
];

fn history_text(c: &Case) -> String {
    let v: Vec<String> = steps(c).iter().take(12).map(|s| format!("{}({}, {})", OP_NAMES[s.op as usize], k::CODEC_NAMES[s.codec as usize], s.len)).collect();
    v.join("; ")
}

#[cfg(feature = "alloc")]
fn history_case(_: &mut Env, c: &Case) -> Res {
    use crate::mem::heap;
    let steps = steps(c);
    let mut model_v: Vec<u8> = Vec::new();
    let mut model_s = String::new();
    let mut failing = false;
    let mut realloc = false;
    let mut appends = 0;
    let mut guarded_total = 0usize;
    heap::reset();
    // the containers live in guarded blocks where possible
    let mut v: Vec<u8> = heap::armed(0xA5, || Vec::with_capacity(c.p[0] as usize % 300));
    let mut s: String = heap::armed(0xA5, || String::with_capacity(c.p[1] as usize % 300));
    let mut result = Ok(());
    for (i, st) in steps.iter().enumerate() {
        let fail = |m: String| Err(format!("step {i} ({} {}, {} bytes): {m}", OP_NAMES[st.op as usize], k::CODEC_NAMES[st.codec as usize], st.len));
        let mut r = Rng::derive(&[21, st.seed, st.len as u64]);
        let cap = (v.capacity(), s.capacity());
        match st.op {
            0..=5 => {
                let mut data = Vec::new();
                crate::gen::bytes(&mut r, st.len, &mut data);
                let text = model::encode(&model::code(st.codec), &data);
                let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    heap::armed(0xA5, || {
                        if st.op < 3 {
                            k::encode_append_vec(st.codec, &data, &mut v);
                        } else {
                            k::encode_append_string(st.codec, &data, &mut s);
                        }
                    })
                }));
                if caught.is_err() {
                    result = fail(format!("panicked: {}", panic_msg()));
                    break;
                }
                if st.op < 3 {
                    model_v.extend_from_slice(&text);
                } else {
                    model_s.push_str(std::str::from_utf8(&text).unwrap());
                }
                appends += 1;
            }
            6..=10 => {
                let text = step_text(st);
                let want = model::decode(&model::code(st.codec), &text);
                let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| heap::armed(0xA5, || k::decode_append(st.codec, &text, &mut v))));
                let got = match caught {
                    Ok(x) => x,
                    Err(_) => {
                        result = fail(format!("panicked: {}", panic_msg()));
                        break;
                    }
                };
                match (got, &want) {
                    (Ok(()), Some(w)) => model_v.extend_from_slice(w),
                    (Err(()), None) => failing = true,
                    (Ok(()), None) => {
                        result = fail("append accepted invalid text".into());
                        break;
                    }
                    (Err(()), Some(_)) => {
                        result = fail("append rejected valid text".into());
                        break;
                    }
                }
                appends += 1;
            }
            11 => heap::armed(0xA5, || {
                v.shrink_to_fit();
                s.shrink_to_fit();
            }),
            12 => heap::armed(0xA5, || {
                v.reserve(st.len % 200);
                s.reserve_exact(st.len % 200);
            }),
            13 => heap::armed(0xA5, || {
                v.push(st.flavour);
                model_v.push(st.flavour);
                let ch = char::from_u32(0x20 + st.flavour as u32 * 7).unwrap_or('x');
                s.push(ch);
                model_s.push(ch);
            }),
            14 => {
                let n = st.len.min(model_v.len());
                v.truncate(n);
                model_v.truncate(n);
            }
            _ => {
                if st.flavour % 4 == 0 {
                    v.clear();
                    s.clear();
                    model_v.clear();
                    model_s.clear();
                }
            }
        }
        realloc |= (v.capacity(), s.capacity()) != cap;
        guarded_total += 1;
        if v != model_v {
            result = fail(format!("Vec content: {}", diff(&v, &model_v)));
            break;
        }
        if s.as_bytes() != model_s.as_bytes() {
            result = fail(format!("String content: {}", diff(s.as_bytes(), model_s.as_bytes())));
            break;
        }
        if std::str::from_utf8(s.as_bytes()).is_err() {
            result = fail("String is not valid UTF-8".into());
            break;
        }
        if let Some(e) = heap::take_error() {
            result = fail(e.into());
            break;
        }
    }
    drop(v);
    drop(s);
    drop(model_v);
    drop(model_s);
    let late = heap::take_error();
    let live = heap::live();
    heap::reset();
    result?;
    if let Some(e) = late {
        return Err(e.into());
    }
    if heap::usable() && live != 0 {
        return Err(format!("{live} heap blocks leaked"));
    }
    let _ = guarded_total;
    Ok(Info { nontrivial: appends >= 2, class: if appends == 0 { 0 } else if failing { 2 } else if realloc { 3 } else { 1 } })
}

#[cfg(not(feature = "alloc"))]
fn history_case(_: &mut Env, _: &Case) -> Res {
    Err("harness: built without alloc".into())
}

// ---- C21 ----------------------------------------------------------------------------------------

fn background_case(env: &mut Env, c: &Case) -> Res {
    let want = model_result(c);
    let mut first: Option<Outcome> = None;
    // an unrelated call in between, different for different cases
    let mut other = c.clone();
    for (i, x) in other.a.iter_mut().enumerate() {
        *x = x.wrapping_add(1 + (i % 3) as u8);
    }
    let bgs = [
        Background { fill: Some(0x00), heap: Some(0x00), read_only: false, neighbours: 1 },
        Background { fill: Some(0xFF), heap: Some(0xFF), read_only: false, neighbours: 2 },
        Background { fill: Some(b'A'), heap: Some(b'A'), read_only: false, neighbours: 3 },
        Background { fill: Some(c.p[5] as u8), heap: Some(b'='), read_only: false, neighbours: 4 + (c.p[5] % 7) as u8 },
        Background { fill: Some(0x00), heap: Some(0x00), read_only: false, neighbours: 1 },
    ];
    for (i, bg) in bgs.into_iter().enumerate() {
        if i == 3 {
            let w = model_result(&other);
            env.call(&other, &w, PLAIN);
        }
        let o = env.call(c, &want, bg);
        let o = Outcome { mem: None, panic_msg: String::new(), ..o };
        match &first {
            None => first = Some(o),
            Some(f) => {
                if f.status != o.status {
                    return Err(format!("outcome {:?} became {:?} when only old memory contents changed", f.status, o.status));
                }
                if f.status == Status::Ok && f.bytes != o.bytes {
                    return Err(format!("result changed with old memory contents: {}", diff(&o.bytes, &f.bytes)));
                }
                if f.status == Status::Ok && f.at_start != o.at_start {
                    return Err("position of the result changed with old memory contents".into());
                }
            }
        }
    }
    let f = first.unwrap();
    Ok(Info { nontrivial: !c.a.is_empty(), class: status_class(c, &f) })
}

// ---- C22 ----------------------------------------------------------------------------------------

fn no_panic_case(env: &mut Env, c: &Case) -> Res {
    match c.fam {
        LEN => {
            let n = arg64(c) as usize;
            let id = c.p[0];
            let exact = model::encoded_len(&model::code(id), n as u128);
            if n <= usize::MAX / 2 && exact <= usize::MAX as u128 {
                let r = std::panic::catch_unwind(|| (k::encoded_length(id, n), k::estimated_decoded_length(id, n)));
                r.map_err(|_| format!("length function panicked: {}", panic_msg()))?;
            }
            return Ok(Info { nontrivial: n > 0, class: 1 });
        }
        LENTEXT => {
            let id = c.p[0];
            let r = std::panic::catch_unwind(|| k::decoded_length(id, &c.a).is_ok());
            r.map_err(|_| format!("decoded_length panicked: {}", panic_msg()))?;
            return Ok(Info { nontrivial: !c.a.is_empty(), class: 1 });
        }
        PAR => {
            return match par_case(env, c) {
                Err(m) if m.starts_with("panicked") || m.starts_with("harness") => Err(m),
                _ => Ok(Info { nontrivial: true, class: 2 }),
            };
        }
        _ => {}
    }
    let want = if c.a.len() > 200_000 { None } else { model_result(c) };
    let o = env.call(c, &want, PLAIN);
    if o.status == Status::Panic {
        // the documented one: endianness swap into a shorter destination
        if c.fam == SWAP && c.p[1] == 0 && model_status(c, &want, &o) == Status::Panic {
            return Ok(Info { nontrivial: true, class: 5 });
        }
        return Err(format!("panicked: {}", o.panic_msg));
    }
    Ok(Info { nontrivial: !c.a.is_empty(), class: status_class(c, &o) })
}

// ---- C24 ----------------------------------------------------------------------------------------

pub const META_KINDS: u32 = 6;

fn enc(env: &mut Env, id: u32, form: u32, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut c = Case::new(ENC);
    c.p[0] = id;
    c.p[1] = form;
    c.a = data.to_vec();
    // room for any code, without asking the model
    c.p[4] = (data.len() * 2 + 16) as u32;
    let o = env.call(&c, &Some(Vec::new()), PLAIN);
    match o.status {
        Status::Ok => Ok(o.bytes),
        Status::Err => Err(format!("encoding {} bytes failed", data.len())),
        Status::Panic => Err(format!("encoding panicked: {}", o.panic_msg)),
    }
}

fn dec(env: &mut Env, id: u32, form: u32, text: &[u8]) -> Result<Option<Vec<u8>>, String> {
    let mut c = Case::new(DEC);
    c.p[0] = id;
    c.p[1] = form;
    c.a = text.to_vec();
    c.p[4] = (text.len() + 16) as u32;
    let o = env.call(&c, &Some(Vec::new()), PLAIN);
    match o.status {
        Status::Ok => Ok(Some(o.bytes)),
        Status::Err => Ok(None),
        Status::Panic => Err(format!("decoding panicked: {}", o.panic_msg)),
    }
}

fn meta_case(env: &mut Env, c: &Case) -> Res {
    let (id, kind) = (c.p[0], c.p[1]);
    let ef = k::enc_form(id, c.p[3]);
    let ef = if ef == k::ENC_APPEND_VEC || ef == k::ENC_APPEND_STRING { k::ENC_SLICE } else { ef };
    let df = k::dec_form(id, c.p[5]);
    let df = if matches!(df, k::DEC_CHECK | k::DEC_CHECK_RAW | k::DEC_APPEND) { k::DEC_SLICE } else { df };
    let nontrivial = c.a.len() >= 2;
    match kind {
        0 => {
            let t = enc(env, id, ef, &c.a)?;
            match dec(env, id, df, &t)? {
                None => Err("decoding rejects an encoding".into()),
                Some(d) if d != c.a => Err(format!("decode(encode(x)) != x: {}", diff(&d, &c.a))),
                _ => Ok(Info { nontrivial, class: 1 }),
            }
        }
        1 => match dec(env, id, df, &c.a)? {
            None => Ok(Info { nontrivial: false, class: 3 }),
            Some(d) => {
                let t = enc(env, id, ef, &d)?;
                let same = if id >= 8 { t.eq_ignore_ascii_case(&c.a) } else { t == c.a };
                if !same {
                    return Err(format!("encode(decode(text)) != text: {}", diff(&t, &c.a)));
                }
                Ok(Info { nontrivial, class: 2 })
            }
        },
        2 => {
            let bb = model::code(id).block_bytes;
            let cut = (c.p[2] as usize).min(c.a.len()) / bb * bb;
            let whole = enc(env, id, ef, &c.a)?;
            let mut parts = enc(env, id, k::ENC_SLICE, &c.a[..cut])?;
            parts.extend(enc(env, id, k::ENC_SLICE, &c.a[cut..])?);
            if whole != parts {
                return Err(format!("encoding the pieces separately gives another text: {}", diff(&whole, &parts)));
            }
            Ok(Info { nontrivial: cut > 0 && cut < c.a.len(), class: 4 })
        }
        3 => {
            let bc = model::code(id).block_chars;
            let cut = (c.p[2] as usize).min(c.a.len()) / bc * bc;
            let whole = dec(env, id, df, &c.a)?;
            let left = dec(env, id, k::DEC_SLICE, &c.a[..cut])?;
            let right = dec(env, id, k::DEC_SLICE, &c.a[cut..])?;
            // the left piece must be complete blocks: padding or a short block is only legal at the end
            let full = cut / bc * model::code(id).block_bytes;
            let joined = match (left, right) {
                (Some(l), Some(r)) if l.len() == full || r.is_empty() => Some([l, r].concat()),
                (Some(_), Some(_)) => None,
                _ => None,
            };
            if whole != joined {
                return Err(match (&whole, &joined) {
                    (Some(w), Some(j)) => format!("decoding the pieces separately gives other bytes: {}", diff(w, j)),
                    (Some(_), None) => "the whole text decodes, but not its pieces".into(),
                    _ => "the pieces decode, but not the whole text".into(),
                });
            }
            Ok(Info { nontrivial: cut > 0 && cut < c.a.len(), class: 5 })
        }
        4 | 5 => {
            let fam = if kind == 4 { ASCII } else { UTF32 };
            if !available(fam) {
                return Ok(Info::default());
            }
            let unit = if kind == 4 { 1 } else { 4 };
            let n = c.a.len() / unit * unit;
            let cut = (c.p[2] as usize).min(n) / unit * unit;
            let mut ask = |d: &[u8]| -> Result<bool, String> {
                let mut q = Case::new(fam);
                q.p[2] = c.p[3];
                q.a = d.to_vec();
                let o = env.call(&q, &None, PLAIN);
                if o.status != Status::Ok {
                    return Err(format!("check did not return: {}", o.panic_msg));
                }
                Ok(o.bytes == [1])
            };
            let (w, l, r) = (ask(&c.a[..n])?, ask(&c.a[..cut])?, ask(&c.a[cut..n])?);
            if w != (l && r) {
                return Err(format!("check of the whole is {w}, of the pieces {l} and {r}"));
            }
            Ok(Info { nontrivial: cut > 0 && cut < n, class: 6 })
        }
        _ => Err("harness: bad kind".into()),
    }
}
