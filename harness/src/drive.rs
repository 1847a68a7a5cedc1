//! Drives a property: systematic sweeps, then random structured cases, everything derived from the seed.

use crate::api::*;
use crate::case::Case;
use crate::codec as k;
use crate::gen;
use crate::mem::Journal;
use crate::model;
use crate::props::{self, *};
use crate::rng::Rng;
use std::sync::atomic::{AtomicU32, AtomicU64};

/// The hook's level
pub static LEVEL: AtomicU32 = AtomicU32::new(255);

#[derive(Clone)]
pub struct Opts {
    pub prop: u32,
    pub seed: u64,
    pub thorough: bool,
    /// percentage applied to random case counts
    pub scale: u32,
    pub shard: u32,
    pub shards: u32,
    pub level: u32,
    /// lengths suggested from outside (integer literals of the code under test)
    pub dict: Vec<u64>,
    pub part: String,
    /// `any_call` makes longer inputs
    pub wide: bool,
}

impl Opts {
    pub fn plain(prop: u32) -> Self {
        Opts { prop, seed: 1, thorough: false, scale: 100, shard: 0, shards: 1, level: 255, dict: Vec::new(), part: "all".into(), wide: false }
    }
}

pub fn read_dict(f: &str) -> Vec<u64> {
    numbers(&std::fs::read_to_string(f).unwrap_or_default())
}

pub fn numbers(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

/// Byte strings written in the code under test, as x0d0a in the dictionary.
pub fn strings(s: &str) -> Vec<Vec<u8>> {
    let hex = |w: &str| w.as_bytes().chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).ok()?, 16).ok()).collect::<Option<Vec<u8>>>();
    s.split_whitespace().filter_map(|w| hex(w.strip_prefix('x')?)).filter(|t| !t.is_empty()).collect()
}

/// Shared bitmap of case fingerprints.
pub struct Seen {
    ptr: *mut u64,
    mask: u64,
    own: Vec<AtomicU64>,
}

const SEEN_BITS: u32 = 28;

impl Seen {
    pub fn private() -> Self {
        let bits = if cfg!(any(miri, target_arch = "wasm32")) { 16 } else { 24 };
        let mut own: Vec<AtomicU64> = (0..1 << (bits - 6)).map(|_| AtomicU64::new(0)).collect();
        Seen { ptr: own.as_mut_ptr().cast(), mask: (1 << bits) - 1, own }
    }

    #[cfg(all(target_os = "linux", not(miri)))]
    pub fn open(path: &str) -> Self {
        use crate::mem::sys;
        use std::os::fd::AsRawFd;
        let len = 1u64 << (SEEN_BITS - 3);
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("harness: seen file");
        f.set_len(len).expect("harness: seen file size");
        let p = unsafe { sys::mmap(std::ptr::null_mut(), len as usize, sys::RW, sys::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "harness: seen mmap");
        Seen { ptr: p.cast(), mask: (1 << SEEN_BITS) - 1, own: Vec::new() }
    }

    #[cfg(not(all(target_os = "linux", not(miri))))]
    pub fn open(_: &str) -> Self {
        // cannot be shared with the other configurations: counts nothing
        Seen { ptr: std::ptr::null_mut(), mask: 0, own: Vec::new() }
    }

    /// True if new.
    pub fn insert(&mut self, h: u64) -> bool {
        use std::sync::atomic::Ordering::Relaxed;
        let _ = &self.own;
        if self.ptr.is_null() {
            return false;
        }
        let h = h & self.mask;
        let w = unsafe { &*(self.ptr.add((h >> 6) as usize) as *const AtomicU64) };
        let bit = 1u64 << (h & 63);
        if w.load(Relaxed) & bit != 0 {
            return false;
        }
        w.fetch_or(bit, Relaxed) & bit == 0
    }
}

pub struct Ctx {
    pub o: Opts,
    pub env: Env,
    pub journal: Journal,
    pub seen: Seen,
    pub evals: u64,
    pub distinct: u64,
    pub class_counts: [u64; 8],
    pub samples: Vec<String>,
    pub fail: Option<(Case, String)>,
    unit: u64,
    pub digests: Vec<u64>,
    pub block: crate::rng::Hash,
    pub trace_block: Option<usize>,
    pub trace: Vec<String>,
    /// further counts for the evidence
    pub extra: Vec<(&'static str, u64)>,
}

pub type Flow = Result<(), ()>;

impl Ctx {
    pub fn new(o: Opts) -> Self {
        Ctx {
            o,
            env: Env::default(),
            journal: Journal::none(),
            seen: Seen::private(),
            evals: 0,
            distinct: 0,
            class_counts: [0; 8],
            samples: Vec::new(),
            fail: None,
            unit: 0,
            digests: Vec::new(),
            block: Default::default(),
            trace_block: None,
            trace: Vec::new(),
            extra: Vec::new(),
        }
    }

    /// Takes turns with the other shards over units of work.
    pub fn mine(&mut self) -> bool {
        self.unit += 1;
        self.unit % self.o.shards as u64 == self.o.shard as u64
    }

    pub fn go(&mut self, c: &Case) -> Flow {
        self.journal.note(c);
        self.evals += 1;
        match props::check(self.o.prop, &mut self.env, c) {
            Ok(i) => {
                self.class_counts[i.class] += 1;
                if i.nontrivial && self.seen.insert(c.fingerprint()) {
                    self.distinct += 1;
                }
                // samples spread over the run
                if self.evals.is_power_of_two() && self.samples.len() < 40 {
                    self.samples.push(sample(c));
                }
                Ok(())
            }
            Err(m) => {
                assert!(!m.contains("harness:"), "{m}");
                self.fail = Some((c.clone(), m));
                Err(())
            }
        }
    }

    /// Repetitions of a random loop for this shard.
    pub fn times(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.o.thorough { thorough } else { quick };
        (n * self.o.scale as u64 / 100 / self.o.shards as u64).max(1)
    }

    pub fn rng(&self, tag: u64) -> Rng {
        Rng::derive(&[self.o.seed, self.o.prop as u64, tag, self.o.shard as u64, self.o.shards as u64, self.o.level as u64])
    }

    /// A generator that is the same in every configuration.
    pub fn common_rng(&self, tag: u64) -> Rng {
        Rng::derive(&[self.o.seed, self.o.prop as u64, tag, self.o.shard as u64, self.o.shards as u64])
    }

    pub fn report(&self, failed: bool) -> String {
        let js = crate::json_str;
        let mut s = format!("{{\"evaluations\":{},\"distinct\":{}", self.evals, self.distinct);
        let names = classes(self.o.prop);
        let cl: Vec<String> = names.iter().zip(self.class_counts).map(|(n, c)| format!("{}:{}", js(n), c)).collect();
        s.push_str(&format!(",\"classes\":{{{}}}", cl.join(",")));
        s.push_str(&format!(",\"samples\":[{}]", self.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
        if !self.extra.is_empty() {
            s.push_str(&format!(",\"extra\":{{{}}}", self.extra.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")));
        }
        if !self.digests.is_empty() {
            s.push_str(&format!(",\"digests\":[{}]", self.digests.iter().map(|d| format!("\"{d:016x}\"")).collect::<Vec<_>>().join(",")));
        }
        if !self.trace.is_empty() {
            s.push_str(&format!(",\"trace\":[{}]", self.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
        }
        if failed {
            if let Some((c, m)) = &self.fail {
                s.push_str(&format!(",\"fail\":{{\"case\":{},\"msg\":{},\"what\":{}}}", js(&c.text()), js(m), js(&props::describe(c))));
            }
        }
        s.push('}');
        s
    }
}

fn sample(c: &Case) -> String {
    let mut t = c.text();
    if t.len() > 260 {
        t.truncate(240);
        t.push_str("...");
    }
    format!("{} | {}", props::describe(c), t)
}

// ---- common ingredients ---------------------------------------------------------------------------

/// Larger sizes: around powers of two and the lengths suggested by the dictionary.
pub fn big_sizes(o: &Opts, max: usize) -> Vec<usize> {
    let mut v = Vec::new();
    for k in 9..=22 {
        for d in [-17i64, -16, -3, -1, 0, 1, 2, 5, 31, 33] {
            v.push((1i64 << k) + d);
        }
        v.push((1i64 << k) * 3 / 2 + 1);
        v.push((1i64 << k) * 5 / 4);
    }
    for &n in &o.dict {
        let n = n as i64;
        for m in [n, n * 3, n * 3 / 4, n * 4 / 3, n * 2, n / 2, n * 8 / 5, n * 5 / 8] {
            for d in [-2i64, -1, 0, 1, 2] {
                if m + d > 300 {
                    v.push(m + d);
                }
            }
        }
    }
    let mut v: Vec<usize> = v.into_iter().filter(|&x| x >= 0 && x as usize <= max).map(|x| x as usize).collect();
    v.sort();
    v.dedup();
    v
}

pub fn rand_params(r: &mut Rng, c: &mut Case, delta: bool) {
    c.p[2] = gen::place(r);
    c.p[3] = gen::place(r);
    c.p[4] = if delta && r.chance(1, 2) { r.range(0, 70) as u32 } else { 0 };
    c.p[5] = *r.pick(&[0u32, 0xFF, 0x5A, 0x3D, 0x41]);
}

// ---- encoding -------------------------------------------------------------------------------------

pub struct EncPlan {
    pub max_len: usize,
    pub big: bool,
    pub blocks: bool,
    pub random: (u64, u64),
}

pub fn enc(ctx: &mut Ctx, ids: &[u32], plan: EncPlan) -> Flow {
    let mut r = ctx.rng(1);
    let mut c = Case::new(ENC);
    // every length x form x variant, at both ends of a page
    for n in 0..=plan.max_len {
        if !ctx.mine() {
            continue;
        }
        for &id in ids {
            for form in 0..k::ENC_FORMS {
                if k::enc_form(id, form) != form {
                    continue;
                }
                c.p = [id, form, (n % 2) as u32, 0, 0, 0x5A];
                c.a.resize(n, 0);
                r.fill(&mut c.a);
                ctx.go(&c)?;
                rand_params(&mut r, &mut c, true);
                gen::bytes(&mut r, n, &mut c.a);
                ctx.go(&c)?;
            }
        }
    }
    // every alignment of source and destination
    for n in (0..=144).chain([160, 192, 200, 255, 256, 257, 300, 383, 512, 1000]) {
        if !ctx.mine() || n > plan.max_len {
            continue;
        }
        for &id in ids {
            for a in 0..64u32 {
                c.p = [id, k::ENC_SLICE, 2 + a, 2 + (a * 7 + n as u32) % 64, 0, 0xFF];
                c.a.resize(n, 0);
                r.fill(&mut c.a);
                ctx.go(&c)?;
            }
        }
    }
    // every value of every byte position
    for &n in &[1usize, 2, 3, 4, 5, 8, 10, 12, 13, 15, 16, 20, 24, 28, 29, 32, 33, 36, 40, 44, 48, 49, 56, 64, 65, 80, 96, 100, 112, 128] {
        if !ctx.mine() {
            continue;
        }
        for (j, &id) in ids.iter().enumerate() {
            if n > 48 && (n + j) % ids.len() != 0 {
                continue;
            }
            c.p = [id, k::ENC_SLICE, 0, 0, 0, 0];
            c.a.resize(n, 0);
            r.fill(&mut c.a);
            for p in 0..n {
                let keep = c.a[p];
                for v in 0..=255u8 {
                    c.a[p] = v;
                    ctx.go(&c)?;
                }
                c.a[p] = keep;
            }
        }
    }
    // all 2^24 (base64) or many (base32) blocks, packed into long inputs
    if plan.blocks {
        for &id in ids {
            let bb = model::code(id).block_bytes;
            let total: u32 = match bb {
                3 => 4096,
                5 => 512,
                _ => 16,
            };
            for hi in 0..total {
                if !ctx.mine() {
                    continue;
                }
                c.p = [id, k::ENC_SLICE, 0, 0, 0, 0];
                c.a.clear();
                for lo in 0..4096u32 {
                    let x = hi << 12 | lo;
                    match bb {
                        3 => c.a.extend_from_slice(&x.to_be_bytes()[1..]),
                        5 => {
                            let y = r.u64().to_le_bytes();
                            c.a.extend_from_slice(&y[..5]);
                        }
                        _ => c.a.extend_from_slice(&x.to_be_bytes()[2..]),
                    }
                }
                ctx.go(&c)?;
            }
        }
    }
    // every length to 16500, in some variant and form
    if plan.big {
        for n in plan.max_len + 1..=LONG {
            if !ctx.mine() {
                continue;
            }
            for _ in 0..if ctx.o.thorough { 4 } else { 1 } {
                let id = *r.pick(ids);
                c.p = [id, k::enc_form(id, r.below(k::ENC_FORMS as usize) as u32), 0, 0, 0, 0];
                rand_params(&mut r, &mut c, true);
                c.a.resize(n, 0);
                r.fill(&mut c.a);
                ctx.go(&c)?;
            }
        }
    }
    if plan.big {
        let mut sizes = big_sizes(&ctx.o, if ctx.o.thorough { 1 << 23 } else { 1 << 21 });
        sizes.push((1 << 22) + 5);
        for (i, n) in sizes.into_iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            for (j, &id) in ids.iter().enumerate() {
                if n > 100_000 && (i + j) % ids.len() != 0 && !ctx.o.thorough {
                    continue;
                }
                c.p = [id, if n > 100_000 { (i % 2) as u32 } else { (i % 9) as u32 }, 0, 0, 0, 0];
                c.p[1] = k::enc_form(id, c.p[1]);
                rand_params(&mut r, &mut c, false);
                c.a.resize(n, 0);
                r.fill(&mut c.a);
                ctx.go(&c)?;
                if n > 100_000 {
                    // the owned forms
                    for form in 2..k::ENC_FORMS as u32 {
                        if r.chance(if ctx.o.thorough { 2 } else { 1 }, 2) {
                            c.p[0] = *r.pick(ids);
                            c.p[1] = k::enc_form(c.p[0], form);
                            ctx.go(&c)?;
                        }
                    }
                }
            }
        }
    }
    c.a.clear();
    for i in 0..ctx.times(plan.random.0, plan.random.1) {
        let id = *r.pick(ids);
        c.p[0] = id;
        c.p[1] = k::enc_form(id, r.below(k::ENC_FORMS as usize) as u32);
        rand_params(&mut r, &mut c, true);
        let n = gen::length(&mut r, 60_000);
        gen::bytes(&mut r, n, &mut c.a);
        c.b.clear();
        if c.p[1] == k::ENC_APPEND_STRING || c.p[1] == k::ENC_APPEND_VEC {
            for _ in 0..r.below(20) {
                c.b.push(0x20 + (r.u8() % 0x5F));
            }
        }
        let _ = i;
        ctx.go(&c)?;
    }
    Ok(())
}

// ---- decoding -------------------------------------------------------------------------------------

/// Distances and numbers of offending elements, for errors that could cancel or wrap a counter.
fn patterns(o: &Opts, unit: usize) -> Vec<(usize, usize)> {
    let cap = (if o.thorough { 1 << 22 } else { 1 << 19 }) / unit;
    let mut v = Vec::new();
    for stride in [1usize, 2, 3, 4, 5, 8, 16, 24, 32, 64] {
        for count in [2usize, 3, 4, 8, 16, 32, 64, 128, 255, 256, 257, 512, 1024, 4096, 32768, 65536, 65537] {
            if stride * count <= cap {
                v.push((stride, count));
            }
        }
    }
    v
}

/// Every length up to this one is tried.
const LONG: usize = 16500;

/// Lengths of long inputs with one offending element, and how dense the positions are.
fn long_texts(o: &Opts) -> [(usize, usize); 5] {
    let q = if o.thorough { 1 } else { 4 };
    [(2100, 1), (4200, 1), (8400, q), (16800, 3 * q), (66_000, 41 * q)]
}

pub struct DecPlan {
    pub max_bytes: usize,
    pub positions: usize,
    pub big: bool,
    pub blocks: bool,
    pub tails: bool,
    pub random: (u64, u64),
}

/// A valid text for `n` data bytes.
fn valid_text(r: &mut Rng, id: u32, n: usize, out: &mut Vec<u8>) {
    let code = model::code(id);
    let mut d = vec![0; n];
    r.fill(&mut d);
    out.clear();
    model::encode_into(&code, &d, out);
    if code.fold_case {
        for x in out.iter_mut() {
            *x = if r.u64() & 1 == 0 { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
        }
    }
}

pub const ODD: &[u8] = b"=-_+/ \t\n\r\x0c\x0b\0\xFF@[`{:.,~\x7f\x80\x81\xAD\xB0\xC1\xDF\xE1\xFEgGzZaA019!#$%&*^|";

/// Ways to put a token into a text.
pub const PUTS: usize = 8;

pub fn put_token(r: &mut Rng, how: usize, t: &[u8], out: &mut Vec<u8>) {
    let n = out.len();
    let over = |out: &mut Vec<u8>, at: usize| {
        for (x, &y) in out[at..].iter_mut().zip(t) {
            *x = y;
        }
    };
    match how {
        0 => {
            out.splice(0..0, t.iter().copied());
        }
        1 => out.extend_from_slice(t),
        2 => {
            out.splice(0..0, t.iter().copied());
            out.extend_from_slice(t);
        }
        3 => over(out, 0),
        4 => over(out, n.saturating_sub(t.len())),
        5 => {
            let at = r.below(n + 1);
            out.splice(at..at, t.iter().copied());
        }
        6 => {
            let at = r.below(n + 1);
            over(out, at);
        }
        _ => {
            // as a separator
            let w = *r.pick(&[1usize, 2, 4, 8, 16, 60, 64, 72, 76, 80]);
            let mut v = Vec::with_capacity(n * 2);
            for (i, p) in out.chunks(w).enumerate() {
                if i > 0 {
                    v.extend_from_slice(t);
                }
                v.extend_from_slice(p);
            }
            if r.chance(1, 3) {
                v.extend_from_slice(t);
            }
            *out = v;
        }
    }
}

const TOKEN_LENGTHS: [usize; 26] = [0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 16, 20, 24, 30, 32, 36, 45, 48, 60, 64, 96, 100, 192, 300, 2000];

/// Texts with a prefix, a suffix, a separator or the like that somebody might want to allow.
fn adorned(ctx: &mut Ctx, ids: &[u32], fam: u32) -> Flow {
    let mut r = ctx.rng(41);
    let mut c = Case::new(fam);
    let tokens = gen::tokens();
    for n in TOKEN_LENGTHS {
        for &id in ids {
            if !ctx.mine() {
                continue;
            }
            let mut text = Vec::new();
            for t in tokens {
                valid_text(&mut r, id, n, &mut text);
                for how in 0..PUTS {
                    c.a.clone_from(&text);
                    put_token(&mut r, how, t, &mut c.a);
                    if fam == FORG {
                        for f in 0..if cfg!(feature = "alloc") { 3 } else { 2 } {
                            c.p = [0, f, 0, 0, 0, 0];
                            ctx.go(&c)?;
                        }
                        continue;
                    }
                    let some = r.below(3) as u32;
                    for form in 0..k::DEC_FORMS {
                        if k::dec_form(id, form) == form && (how < 2 || form % 3 == some) {
                            c.p = [id, form, 0, 0, 0, 0];
                            ctx.go(&c)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn dec(ctx: &mut Ctx, ids: &[u32], plan: DecPlan) -> Flow {
    if plan.tails {
        adorned(ctx, ids, DEC)?;
    }
    let mut r = ctx.rng(2);
    let mut c = Case::new(DEC);
    // every data length x form
    for n in 0..=plan.max_bytes {
        if !ctx.mine() {
            continue;
        }
        for &id in ids {
            for form in 0..k::DEC_FORMS {
                if k::dec_form(id, form) != form {
                    continue;
                }
                c.p = [id, form, (n % 2) as u32, 0, 0, 0x5A];
                valid_text(&mut r, id, n, &mut c.a);
                ctx.go(&c)?;
                rand_params(&mut r, &mut c, true);
                valid_text(&mut r, id, n, &mut c.a);
                ctx.go(&c)?;
                // arbitrary text lengths over the alphabet
                let code = model::code(id);
                c.a.clear();
                for _ in 0..n {
                    c.a.push(*r.pick(code.alphabet));
                }
                ctx.go(&c)?;
                // one error anywhere
                valid_text(&mut r, id, n, &mut c.a);
                gen::mutate(&mut r, &code, &mut c.a);
                ctx.go(&c)?;
            }
        }
    }
    // alignments
    for n in (0..=100).chain([128, 144, 192, 193, 200, 255, 256, 300, 384]) {
        if !ctx.mine() || n > plan.max_bytes {
            continue;
        }
        for &id in ids {
            for a in 0..64u32 {
                for form in [k::DEC_SLICE, k::DEC_INPLACE, k::DEC_CHECK] {
                    c.p = [id, form, 2 + a, 2 + (a * 7 + n as u32) % 64, 0, 0xFF];
                    valid_text(&mut r, id, n, &mut c.a);
                    ctx.go(&c)?;
                }
            }
        }
    }
    // every byte value at every position, for texts of many lengths, decode and check in turn
    for n in 1..=plan.positions {
        if !ctx.mine() {
            continue;
        }
        for (j, &id) in ids.iter().enumerate() {
            if n > 40 && (n + j) % 2 == 1 && !ctx.o.thorough {
                continue;
            }
            valid_text(&mut r, id, n, &mut c.a);
            for p in 0..c.a.len() {
                let keep = c.a[p];
                c.p = [id, k::DEC_SLICE, 0, 0, 0, 0];
                for v in 0..=255u8 {
                    c.a[p] = v;
                    ctx.go(&c)?;
                }
                c.p[1] = k::DEC_CHECK;
                if ctx.o.thorough || p >= c.a.len().saturating_sub(9) || p < 4 {
                    for v in 0..=255u8 {
                        c.a[p] = v;
                        ctx.go(&c)?;
                    }
                } else {
                    for &v in ODD {
                        c.a[p] = v;
                        ctx.go(&c)?;
                    }
                }
                c.p[1] = if p % 2 == 0 { k::DEC_INPLACE } else { k::dec_form(id, k::DEC_CHECK_RAW) };
                for &v in ODD {
                    c.a[p] = v;
                    ctx.go(&c)?;
                }
                c.a[p] = keep;
            }
        }
    }
    // longer texts: a wrong byte at every position
    for n in [150usize, 160, 192, 200, 240, 256, 288, 300, 360, 384, 480, 512, 640, 768, 1000] {
        if n > plan.max_bytes * 2 {
            continue;
        }
        for (j, &id) in ids.iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            valid_text(&mut r, id, n + j, &mut c.a);
            for p in 0..c.a.len() {
                let keep = c.a[p];
                for q in 0..3 {
                    c.a[p] = ODD[(p * 3 + q * 11 + n) % ODD.len()];
                    c.p = [id, [k::DEC_SLICE, k::DEC_CHECK, k::DEC_INPLACE][q], 0, 0, 0, 0];
                    ctx.go(&c)?;
                }
                c.a[p] = keep;
            }
        }
    }
    // two wrong symbols, everywhere
    for n in [32usize, 33, 37, 48, 63, 64, 65, 72, 96, 100, 128, 129, 160, 192, 256] {
        if n > plan.max_bytes {
            continue;
        }
        for &id in ids {
            if !ctx.mine() {
                continue;
            }
            valid_text(&mut r, id, n * model::code(id).bits as usize / 8, &mut c.a);
            for p in 0..c.a.len() {
                for q in p + 1..c.a.len() {
                    if n > 130 && (p * 31 + q) % 3 != n % 3 && !ctx.o.thorough {
                        continue;
                    }
                    let (kp, kq) = (c.a[p], c.a[q]);
                    let x = ODD[(p * 7 + q * 3 + n) % ODD.len()];
                    c.p = [id, if (p ^ q) & 1 == 0 { k::DEC_SLICE } else { k::DEC_CHECK }, 0, 0, 0, 0];
                    c.a[p] = x;
                    c.a[q] = x;
                    ctx.go(&c)?;
                    c.p[1] = if (p ^ q) & 1 == 0 { k::DEC_CHECK } else { k::DEC_INPLACE };
                    c.a[q] = ODD[(p + q * 5) % ODD.len()];
                    ctx.go(&c)?;
                    c.a[p] = kp;
                    c.a[q] = kq;
                }
            }
        }
    }
    // any number of wrong symbols
    if plan.big {
        for (stride, count) in patterns(&ctx.o, 1) {
            for (j, &id) in ids.iter().enumerate() {
                if !ctx.mine() || (stride * count > 20_000 && (stride + count + j) % ids.len() != 0 && !ctx.o.thorough) {
                    continue;
                }
                let code = model::code(id);
                let n = stride * count + r.below(50);
                valid_text(&mut r, id, (n * code.bits as usize).div_ceil(8), &mut c.a);
                let x = *r.pick(ODD);
                let off = r.below(stride.max(c.a.len() - stride * count));
                for i in 0..count {
                    if let Some(y) = c.a.get_mut(off + i * stride) {
                        *y = x;
                    }
                }
                for form in [k::DEC_SLICE, k::DEC_CHECK, k::DEC_INPLACE] {
                    c.p = [id, form, 0, 0, 0, 0];
                    ctx.go(&c)?;
                }
            }
        }
    }
    // the end of the text: every pair of last characters, every padding count
    if plan.tails {
        for &id in ids {
            let code = model::code(id);
            for blocks in [0usize, 1, 2, 3, 4, 6, 8, 12, 16, 17, 33] {
                if !ctx.mine() || (blocks > 4 && (blocks as u32 + id) % 3 != 0) {
                    continue;
                }
                let mut pre = Vec::new();
                valid_text(&mut r, id, blocks * code.block_bytes, &mut pre);
                for extra in 0..code.block_chars {
                    for pad in 0..=code.block_chars {
                        if !code.pad && pad > 1 {
                            continue;
                        }
                        c.a.clear();
                        c.a.extend_from_slice(&pre);
                        for _ in 0..extra {
                            c.a.push(*r.pick(code.alphabet));
                        }
                        let at = c.a.len();
                        for _ in 0..pad {
                            c.a.push(b'=');
                        }
                        let form = if (blocks + extra) % 2 == 0 { k::DEC_SLICE } else { k::DEC_CHECK };
                        c.p = [id, form, 0, 0, 0, 0];
                        if at == 0 {
                            ctx.go(&c)?;
                            continue;
                        }
                        let keep = c.a[at - 1];
                        for v in 0..=255u8 {
                            c.a[at - 1] = v;
                            c.p[1] = if v & 1 == 0 { k::DEC_SLICE } else { k::DEC_CHECK };
                            ctx.go(&c)?;
                            c.p[1] = k::DEC_INPLACE;
                            ctx.go(&c)?;
                        }
                        c.a[at - 1] = keep;
                        // alphabet x alphabet for the last two characters
                        if at >= 2 && blocks <= 2 && (pad == 0 || (code.pad && (extra + pad) % code.block_chars == 0)) {
                            for &x in code.alphabet {
                                for &y in code.alphabet {
                                    c.a[at - 2] = x;
                                    c.a[at - 1] = y;
                                    c.p[1] = if (x ^ y) & 1 == 0 { k::DEC_SLICE } else { k::DEC_CHECK };
                                    ctx.go(&c)?;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // all blocks of four characters (base64), or very many (base32, hex: all pairs)
    if plan.blocks {
        for &id in ids {
            let code = model::code(id);
            let total: u32 = match code.bits {
                6 => 4096,
                5 => 512,
                _ => 32,
            };
            for hi in 0..total {
                if !ctx.mine() {
                    continue;
                }
                c.p = [id, [k::DEC_SLICE, k::DEC_INPLACE][hi as usize % 2], 0, 0, 0, 0];
                c.a.clear();
                for lo in 0..4096u32 {
                    let x = hi << 12 | lo;
                    match code.bits {
                        6 => c.a.extend((0..4).rev().map(|i| code.alphabet[(x >> (6 * i) & 63) as usize])),
                        5 => {
                            let y = r.u64();
                            c.a.extend((0..8).map(|i| code.alphabet[(y >> (5 * i) & 31) as usize]));
                        }
                        _ => {
                            c.a.extend((0..4).rev().map(|i| code.alphabet[(x >> (4 * i) & 15) as usize]));
                        }
                    }
                }
                ctx.go(&c)?;
            }
        }
    }
    // every text length to 16500; then exactly one wrong symbol, anywhere in a long text
    if plan.big {
        for m in plan.max_bytes..=LONG {
            if !ctx.mine() {
                continue;
            }
            for _ in 0..if ctx.o.thorough { 4 } else { 1 } {
                let id = *r.pick(ids);
                c.p = [id, k::dec_form(id, r.below(k::DEC_FORMS as usize) as u32), 0, 0, 0, 0];
                rand_params(&mut r, &mut c, true);
                valid_text(&mut r, id, m * model::code(id).bits as usize / 8, &mut c.a);
                ctx.go(&c)?;
            }
        }
        for (len, step) in long_texts(&ctx.o) {
            for base in (0..len).step_by(64 * step) {
                if !ctx.mine() {
                    continue;
                }
                let id = *r.pick(ids);
                let n = len + r.below(40);
                valid_text(&mut r, id, n * model::code(id).bits as usize / 8, &mut c.a);
                for p in (base..base + 64 * step).step_by(step) {
                    let p = p + r.below(step);
                    if p >= c.a.len() {
                        continue;
                    }
                    let keep = c.a[p];
                    c.a[p] = *r.pick(ODD);
                    c.p = [id, *r.pick(&[k::DEC_SLICE, k::DEC_SLICE, k::DEC_CHECK, k::DEC_CHECK, k::DEC_INPLACE, k::dec_form(id, k::DEC_TO_VEC)]), 0, 0, 0, 0];
                    ctx.go(&c)?;
                    c.a[p] = keep;
                }
            }
        }
    }
    if plan.big {
        let sizes = big_sizes(&ctx.o, if ctx.o.thorough { 1 << 23 } else { 3 << 19 });
        for (i, m) in sizes.into_iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            for (j, &id) in ids.iter().enumerate() {
                if m > 60_000 && (i + j) % ids.len() != 0 && !ctx.o.thorough {
                    continue;
                }
                let code = model::code(id);
                let n = m * code.bits as usize / 8;
                valid_text(&mut r, id, n, &mut c.a);
                c.p[0] = id;
                c.p[1] = k::dec_form(id, (i % 10) as u32);
                rand_params(&mut r, &mut c, false);
                ctx.go(&c)?;
                if m > 60_000 {
                    for form in 0..k::DEC_FORMS as u32 {
                        if r.chance(1, 2) {
                            c.p[1] = k::dec_form(id, form);
                            ctx.go(&c)?;
                        }
                    }
                }
                for _ in 0..2 {
                    c.p[1] = k::dec_form(id, *r.pick(&[k::DEC_SLICE, k::DEC_CHECK, k::DEC_INPLACE, k::DEC_TO_VEC]));
                    let p = r.below(c.a.len().max(1));
                    if let Some(x) = c.a.get(p).copied() {
                        c.a[p] = gen::odd_byte(&mut r, &code, x);
                        ctx.go(&c)?;
                        c.a[p] = x;
                    }
                }
            }
        }
    }
    for _ in 0..ctx.times(plan.random.0, plan.random.1) {
        let id = *r.pick(ids);
        let code = model::code(id);
        c.p[0] = id;
        c.p[1] = k::dec_form(id, r.below(k::DEC_FORMS as usize) as u32);
        rand_params(&mut r, &mut c, true);
        gen::text(&mut r, &code, 40_000, &mut c.a);
        c.b.clear();
        if c.p[1] == k::DEC_APPEND {
            for _ in 0..r.below(20) {
                c.b.push(r.u8());
            }
        }
        ctx.go(&c)?;
    }
    Ok(())
}

// ---- forgiving ------------------------------------------------------------------------------------

pub fn forgiving(ctx: &mut Ctx, scale: u64) -> Flow {
    if scale >= 100 {
        adorned(ctx, &[0, 1, 2], FORG)?;
    }
    let mut r = ctx.rng(3);
    let mut c = Case::new(FORG);
    let forms = if cfg!(feature = "alloc") { 3 } else { 2 };
    let code = model::code(0);
    // all short strings over a small alphabet: a character without low bits, one with, padding, space, junk
    let small: &[u8] = b"AQ/= !";
    let max = if ctx.o.thorough { 9 } else { 7 };
    for len in 0..=max {
        let total = (small.len() as u64).pow(len);
        let chunk = 4096.min(total);
        for base in (0..total).step_by(chunk as usize) {
            if !ctx.mine() {
                continue;
            }
            for x in base..(base + chunk).min(total) {
                c.a.clear();
                let mut y = x;
                for _ in 0..len {
                    c.a.push(small[(y % small.len() as u64) as usize]);
                    y /= small.len() as u64;
                }
                c.p = [0, (x % forms) as u32, 0, 0, 0, 0x5A];
                ctx.go(&c)?;
            }
        }
    }
    // every byte value at every position
    for n in 1..=110 * scale as usize / 100 {
        if !ctx.mine() {
            continue;
        }
        for variant in 0..2u32 {
            // with and without padding
            valid_text(&mut r, variant * 2, n, &mut c.a);
            for p in 0..c.a.len() {
                let keep = c.a[p];
                for v in 0..=255u8 {
                    c.a[p] = v;
                    c.p = [0, (v as u32 + variant) % forms as u32, (p % 2) as u32, 0, 0, 0];
                    ctx.go(&c)?;
                }
                c.a[p] = keep;
            }
            // one inserted character
            for p in 0..=c.a.len() {
                for &v in b" \t\n\r\x0c=\x0b!" {
                    c.a.insert(p, v);
                    for f in 0..forms as u32 {
                        c.p = [0, f, 0, 0, 0, 0];
                        ctx.go(&c)?;
                    }
                    c.a.remove(p);
                }
            }
            // a second inserted whitespace anywhere
            for _ in 0..40 {
                let p = r.below(c.a.len() + 1);
                let q = r.below(c.a.len() + 1);
                c.a.insert(p, *r.pick(b" \t\n\r\x0c"));
                c.a.insert(q, *r.pick(b" \t\n\r\x0c="));
                c.p = [0, r.below(forms as usize) as u32, gen::place(&mut r), gen::place(&mut r), 0, 0];
                ctx.go(&c)?;
                c.a.remove(q);
                c.a.remove(p);
            }
        }
    }
    // only whitespace, runs of whitespace of every length at the start, middle and end
    for run in 0..=200 {
        if !ctx.mine() {
            continue;
        }
        for n in [0usize, 1, 2, 3, 5, 16, 24, 25, 40] {
            for at in 0..3 {
                valid_text(&mut r, (run % 2 * 2) as u32, n, &mut c.a);
                let p = match at {
                    0 => 0,
                    1 => c.a.len() / 2,
                    _ => c.a.len(),
                };
                let ws: Vec<u8> = (0..run).map(|_| *r.pick(b" \t\n\r\x0c")).collect();
                c.a.splice(p..p, ws);
                for f in 0..forms as u32 {
                    c.p = [0, f, 0, 0, 0, 0];
                    ctx.go(&c)?;
                }
            }
        }
    }
    if scale >= 100 {
        for m in 140..=LONG {
            if !ctx.mine() {
                continue;
            }
            valid_text(&mut r, (m % 2 * 2) as u32, m * 3 / 4, &mut c.a);
            for i in 0..r.below(4) {
                // at the front, at the end, anywhere
                let at = [0, c.a.len(), r.below(c.a.len()), r.below(c.a.len())][(i + m) % 4];
                c.a.insert(at, *r.pick(b" \t\n\r\x0c"));
            }
            c.p[1] = r.below(forms as usize) as u32;
            rand_params(&mut r, &mut c, true);
            ctx.go(&c)?;
        }
        for (len, step) in long_texts(&ctx.o) {
            for base in (0..len).step_by(64 * step) {
                if !ctx.mine() {
                    continue;
                }
                let n = len + r.below(40);
                valid_text(&mut r, (base / 64 % 2 * 2) as u32, n * 3 / 4, &mut c.a);
                for p in (base..base + 64 * step).step_by(step) {
                    let p = p + r.below(step);
                    if p >= c.a.len() {
                        continue;
                    }
                    let keep = c.a[p];
                    c.p = [0, r.below(forms as usize) as u32, 0, 0, 0, 0];
                    for v in [*r.pick(ODD), *r.pick(b" \n\t\r\x0c")] {
                        c.a[p] = v;
                        ctx.go(&c)?;
                    }
                    c.a[p] = keep;
                }
            }
        }
        for (i, n) in big_sizes(&ctx.o, if ctx.o.thorough { 1 << 22 } else { 1 << 20 }).into_iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            valid_text(&mut r, (i % 2 * 2) as u32, n * 3 / 4, &mut c.a);
            for form in 0..forms as u32 {
                c.p = [0, form, 0, 0, 0, 0];
                ctx.go(&c)?;
            }
            for _ in 0..3 {
                let keep = c.a.clone();
                if r.u64() & 1 == 0 {
                    let p = r.below(c.a.len() + 1);
                    c.a.insert(p, *r.pick(b" \n!="));
                } else {
                    gen::mutate(&mut r, &code, &mut c.a);
                }
                c.p[1] = r.below(forms as usize) as u32;
                ctx.go(&c)?;
                c.a = keep;
            }
        }
    }
    for _ in 0..ctx.times(300_000 * scale / 100, 10_000_000) {
        let mut t = std::mem::take(&mut c.a);
        let id = if r.u64() & 1 == 0 { 0 } else { 2 };
        gen::text(&mut r, &model::code(id), 30_000, &mut t);
        if r.chance(3, 4) {
            gen::add_whitespace(&mut r, &mut t);
        }
        if r.chance(1, 8) {
            gen::mutate(&mut r, &code, &mut t);
        }
        c.a = t;
        c.p[1] = r.below(forms as usize) as u32;
        rand_params(&mut r, &mut c, true);
        ctx.go(&c)?;
    }
    Ok(())
}

// ---- uuid -----------------------------------------------------------------------------------------

pub fn uuid_text(r: &mut Rng, form: usize, out: &mut Vec<u8>) {
    let mut u = [0u8; 16];
    r.fill(&mut u);
    let h = model::uuid_fmt_hyphenated(&u, false);
    out.clear();
    match form {
        0 => out.extend(model::uuid_fmt_simple(&u, false)),
        1 => out.extend(&h),
        2 => {
            out.push(b'{');
            out.extend(&h);
            out.push(b'}');
        }
        _ => {
            out.extend(b"urn:uuid:");
            out.extend(&h);
        }
    }
    let mode = r.below(4);
    let from = if form == 3 { 9 } else { 0 };
    for x in out[from..].iter_mut() {
        if mode == 1 || (mode >= 2 && r.u64() & 1 == 0) {
            *x = x.to_ascii_uppercase();
        }
    }
}

pub fn uuid_parse(ctx: &mut Ctx, scale: u64) -> Flow {
    let mut r = ctx.rng(4);
    let mut c = Case::new(UPARSE);
    for form in 0..4 {
        for rep in 0..if ctx.o.thorough { 20 } else { 4 } {
            if !ctx.mine() {
                continue;
            }
            uuid_text(&mut r, form, &mut c.a);
            for p in 0..c.a.len() {
                let keep = c.a[p];
                for v in 0..=255u8 {
                    c.a[p] = v;
                    for which in 0..3 {
                        for ext in 0..2 {
                            c.p = [which, ext, (rep % 2) as u32, 0, 0, 0];
                            ctx.go(&c)?;
                        }
                    }
                }
                c.a[p] = keep;
            }
        }
        // pairs of positions
        for p in 0..45usize {
            if !ctx.mine() {
                continue;
            }
            uuid_text(&mut r, form, &mut c.a);
            if p >= c.a.len() {
                continue;
            }
            for q in p + 1..c.a.len() {
                let (kp, kq) = (c.a[p], c.a[q]);
                // the same change in both, or opposite changes
                for bit in 0..8 {
                    for d in [1u8 << bit, (1u8 << bit).wrapping_neg(), 3 << bit] {
                        for y in [kq.wrapping_sub(d), kq.wrapping_add(d), kq ^ d] {
                            c.a[p] = if y == kq ^ d { kp ^ d } else { kp.wrapping_add(d) };
                            c.a[q] = y;
                            c.p = [0, (bit & 1) as u32, 0, 0, 0, 0];
                            ctx.go(&c)?;
                        }
                    }
                }
                for &x in b"-{}:gG@`/\0\xff0" {
                    for &y in b"-{}:gG@`/\x80f" {
                        c.a[p] = x;
                        c.a[q] = y;
                        c.p = [((p + q) % 3) as u32, (x & 1) as u32, 0, 0, 0, 0];
                        ctx.go(&c)?;
                        c.p[0] = 0;
                        ctx.go(&c)?;
                    }
                }
                c.a.swap(p, q);
                c.a[p] = kq;
                c.a[q] = kp;
                ctx.go(&c)?;
                c.a[p] = kp;
                c.a[q] = kq;
            }
        }
    }
    // other lengths
    for n in 0..=120usize {
        if !ctx.mine() {
            continue;
        }
        for form in 0..4 {
            for which in 0..3 {
                for ext in 0..2 {
                    uuid_text(&mut r, form, &mut c.a);
                    c.a.resize(n, b'a');
                    c.p = [which, ext, 0, 0, 0, 0];
                    ctx.go(&c)?;
                    r.fill(&mut c.a);
                    ctx.go(&c)?;
                }
            }
        }
    }
    const PIECES: [&[u8]; 12] = [b"urn:uuid:", b"URN:UUID:", b"urn:", b"{", b"}", b"-", b" ", b"uuid:", b"0x", b"\n", b"\0", b"("];
    for _ in 0..ctx.times(500_000 * scale / 100, 20_000_000) {
        let form = r.below(4);
        uuid_text(&mut r, form, &mut c.a);
        match r.below(8) {
            0 => {}
            1 | 2 => {
                for _ in 0..r.range(1, 3) {
                    let i = r.below(c.a.len());
                    c.a[i] = gen::odd_byte(&mut r, &model::code(8), c.a[i]);
                }
            }
            3 => {
                // move a hyphen or other character
                let i = r.below(c.a.len());
                let x = c.a.remove(i);
                let j = r.below(c.a.len() + 1);
                c.a.insert(j, x);
            }
            4 => {
                let i = r.below(c.a.len());
                let j = r.below(c.a.len());
                c.a.swap(i, j);
            }
            5 => {
                let i = r.below(c.a.len() + 1);
                let p = if r.u64() & 1 == 0 { *r.pick(&PIECES) } else { &r.pick(gen::tokens())[..] };
                let keep = c.a.len();
                c.a.splice(i..i, p.iter().copied());
                if r.u64() & 1 == 0 {
                    c.a.truncate(keep);
                }
            }
            6 => {
                let p = if r.u64() & 1 == 0 { *r.pick(&PIECES) } else { &r.pick(gen::tokens())[..] };
                let i = r.below(c.a.len());
                for (j, &x) in p.iter().enumerate() {
                    if let Some(y) = c.a.get_mut(i + j) {
                        *y = x;
                    }
                }
            }
            _ => {
                let n = c.a.len();
                c.a.resize((n + r.below(4)).saturating_sub(r.below(4)), b'0');
            }
        }
        c.p = [r.below(3) as u32, r.below(2) as u32, gen::place(&mut r), gen::place(&mut r), 0, 0];
        ctx.go(&c)?;
    }
    Ok(())
}

pub fn uuid_format(ctx: &mut Ctx, scale: u64) -> Flow {
    let mut r = ctx.rng(5);
    let mut c = Case::new(UFMT);
    c.a = vec![0; 16];
    for rep in 0..if ctx.o.thorough { 40 } else { 10 } {
        for p in 0..16 {
            if !ctx.mine() {
                continue;
            }
            r.fill(&mut c.a);
            if rep == 0 {
                c.a.fill(0);
            }
            if rep == 1 {
                c.a.fill(0xFF);
            }
            for v in 0..=255u8 {
                c.a[p] = v;
                for kind in 0..4 {
                    for form in 0..3 {
                        c.p = [kind, form, (rep % 2) as u32, ((rep + p) % 2) as u32, 0, 0x5A];
                        ctx.go(&c)?;
                    }
                }
            }
        }
    }
    for form in 0..UFMT_FORMS {
        if !ctx.mine() {
            continue;
        }
        for kind in 0..4 {
            r.fill(&mut c.a);
            c.p = [kind, form, 0, 0, 0, 0];
            ctx.go(&c)?;
        }
    }
    for a in 0..64 {
        if !ctx.mine() {
            continue;
        }
        for b in 0..64 {
            r.fill(&mut c.a);
            c.p = [(a + b) % 4, 0, 2 + a, 2 + b, 0, 0];
            ctx.go(&c)?;
        }
    }
    for _ in 0..ctx.times(500_000 * scale / 100, 20_000_000) {
        gen::bytes(&mut r, 16, &mut c.a);
        c.p = [r.below(4) as u32, if r.chance(1, 3) { r.below(UFMT_FORMS as usize) } else { r.below(3) } as u32, gen::place(&mut r), gen::place(&mut r), 0, r.u8() as u32];
        ctx.go(&c)?;
    }
    Ok(())
}

// ---- unicode --------------------------------------------------------------------------------------

pub fn ascii(ctx: &mut Ctx, scale: u64) -> Flow {
    let mut r = ctx.rng(6);
    let mut c = Case::new(ASCII);
    let text = |r: &mut Rng, n: usize, out: &mut Vec<u8>| {
        out.resize(n, 0);
        r.fill(out);
        for x in out.iter_mut() {
            *x &= 0x7F;
        }
    };
    for n in 0..=(700 * scale / 100) as usize {
        if !ctx.mine() {
            continue;
        }
        for which in 0..2 {
            text(&mut r, n, &mut c.a);
            for place in 0..66 {
                c.p = [which, 0, place, 0, 0, 0];
                ctx.go(&c)?;
            }
            for p in 0..n {
                let keep = c.a[p];
                for (i, v) in [0x80u8, 0xFF, 0x80 | keep].into_iter().enumerate() {
                    c.a[p] = v;
                    c.p[2] = if i == 0 { 0 } else { gen::place(&mut r) };
                    ctx.go(&c)?;
                }
                c.a[p] = keep;
            }
        }
    }
    for n in [1usize, 7, 15, 16, 17, 31, 33, 48, 64, 65, 100, 128] {
        if !ctx.mine() {
            continue;
        }
        text(&mut r, n, &mut c.a);
        for p in 0..n {
            let keep = c.a[p];
            for v in 0..=255u8 {
                c.a[p] = v;
                c.p = [(v & 1) as u32, 0, 0, 0, 0, 0];
                ctx.go(&c)?;
            }
            c.a[p] = keep;
        }
    }
    for n in [2usize, 3, 5, 8, 9, 12, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 96, 100, 127, 128, 129, 160, 192, 200, 256] {
        if !ctx.mine() {
            continue;
        }
        text(&mut r, n, &mut c.a);
        for p in 0..n {
            for q in p + 1..n {
                let (kp, kq) = (c.a[p], c.a[q]);
                c.p = [((p + q) % 2) as u32, 0, 0, 0, 0, 0];
                for (x, y) in [(0x80, 0x80), (0xFF, 0xFF), (0x80 | kp, 0x80 | kq), (0x80, 0xFF)] {
                    c.a[p] = x;
                    c.a[q] = y;
                    ctx.go(&c)?;
                }
                c.a[p] = kp;
                c.a[q] = kq;
            }
        }
    }
    for (stride, count) in patterns(&ctx.o, 1) {
        if !ctx.mine() {
            continue;
        }
        for value in [0x80u8, 0xC0, 0xFF] {
            let n = stride * count + r.below(50);
            text(&mut r, n, &mut c.a);
            let off = r.below(stride.max(n - stride * count));
            for i in 0..count {
                if let Some(y) = c.a.get_mut(off + i * stride) {
                    *y = value;
                }
            }
            c.p = [count as u32 % 2, 0, gen::place(&mut r), 0, 0, 0];
            ctx.go(&c)?;
        }
    }
    if scale >= 100 {
        for n in 701..=LONG {
            if !ctx.mine() {
                continue;
            }
            text(&mut r, n, &mut c.a);
            c.p = [r.below(2) as u32, 0, gen::place(&mut r), 0, 0, 0];
            ctx.go(&c)?;
            let p = r.below(n);
            c.a[p] |= 0x80;
            ctx.go(&c)?;
        }
        for (len, step) in long_texts(&ctx.o) {
            for base in (0..len).step_by(64 * step) {
                if !ctx.mine() {
                    continue;
                }
                let n = len + r.below(40);
                text(&mut r, n, &mut c.a);
                for p in (base..base + 64 * step).step_by(step) {
                    let p = p + r.below(step);
                    if p < c.a.len() {
                        c.a[p] |= 0x80;
                        c.p = [r.below(2) as u32, 0, gen::place(&mut r), 0, 0, 0];
                        ctx.go(&c)?;
                        c.a[p] &= 0x7F;
                    }
                }
            }
        }
    }
    for n in big_sizes(&ctx.o, if ctx.o.thorough { 1 << 24 } else { 1 << 22 }) {
        if !ctx.mine() {
            continue;
        }
        text(&mut r, n, &mut c.a);
        c.p = [(n % 2) as u32, 0, gen::place(&mut r), 0, 0, 0];
        ctx.go(&c)?;
        for p in [0, n.saturating_sub(1), n / 2, r.below(n.max(1)), r.below(n.max(1)), n.saturating_sub(1 + r.below(n.clamp(1, 80)))] {
            if p < n {
                c.a[p] |= 0x80;
                ctx.go(&c)?;
                c.a[p] &= 0x7F;
            }
        }
    }
    for _ in 0..ctx.times(400_000 * scale / 100, 20_000_000) {
        let n = gen::length(&mut r, 50_000);
        if r.chance(1, 4) {
            gen::bytes(&mut r, n, &mut c.a);
        } else {
            text(&mut r, n, &mut c.a);
            if n > 0 {
                for _ in 0..r.below(4) {
                    let i = r.below(n);
                    c.a[i] |= 0x80;
                }
            }
        }
        c.p = [r.below(2) as u32, 0, gen::place(&mut r), 0, 0, 0];
        ctx.go(&c)?;
    }
    Ok(())
}

const SCALAR_EDGES: [u32; 40] = [
    0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDFFE, 0xDFFF, 0xE000, 0xFFFF, 0x1_0000, 0xF_FFFF, 0x10_0000,
    0x10_D800, 0x10_DFFF, 0x10_FFFE, 0x10_FFFF, 0x11_0000, 0x11_0001, 0x11_D800, 0x1F_FFFF, 0x20_0000, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0041, 0x8000_D800, 0xFFFF_0000,
    0xFFFF_D800, 0xFFFF_FFFF, 0x00D8_0000, 0xD800_0000, 0x0001_D800, 0xFFFF_DFFF,
];

pub fn scalar(r: &mut Rng) -> u32 {
    loop {
        let x = match r.below(6) {
            0 => r.u32() % 0x80,
            1 => *r.pick(&SCALAR_EDGES),
            2 => 0xD000 + r.u32() % 0x2000,
            3 => 0x10_F000 + r.u32() % 0x2000,
            _ => r.u32() % 0x11_0000,
        };
        if model::is_scalar(x) {
            return x;
        }
    }
}

pub fn non_scalar(r: &mut Rng) -> u32 {
    loop {
        let x = match r.below(4) {
            0 => *r.pick(&SCALAR_EDGES),
            1 => 0xD800 + r.u32() % 0x800,
            2 => 0x11_0000 << r.below(11),
            _ => r.u32(),
        };
        if !model::is_scalar(x) {
            return x;
        }
    }
}

pub fn put32(a: &mut [u8], i: usize, v: u32) {
    a[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
}

pub fn utf32(ctx: &mut Ctx, scale: u64) -> Flow {
    let mut r = ctx.rng(7);
    let mut c = Case::new(UTF32);
    let text = |r: &mut Rng, n: usize, out: &mut Vec<u8>| {
        out.resize(n * 4, 0);
        for i in 0..n {
            put32(out, i, scalar(r));
        }
    };
    // every length, every position, every edge value
    for n in 0..=(200 * scale / 100) as usize {
        if !ctx.mine() {
            continue;
        }
        text(&mut r, n, &mut c.a);
        for place in 0..66 {
            c.p[2] = place;
            ctx.go(&c)?;
        }
        c.p[2] = 0;
        for p in 0..n {
            let keep: [u8; 4] = c.a[p * 4..p * 4 + 4].try_into().unwrap();
            for &v in &SCALAR_EDGES {
                put32(&mut c.a, p, v);
                ctx.go(&c)?;
            }
            c.a[p * 4..p * 4 + 4].copy_from_slice(&keep);
        }
    }
    // all values 0..0x12_0000 and the same low parts under other high parts, one at a time in a changing lane
    let lanes = 16;
    let step = 0x1000u32;
    let top = if ctx.o.thorough { 0x40_0000u32 } else { 0x12_0000 * scale as u32 / 100 };
    for base in (0..top).step_by(step as usize) {
        if !ctx.mine() {
            continue;
        }
        text(&mut r, lanes + (base / step % 3) as usize, &mut c.a);
        for v in base..base + step {
            let p = (v as usize * 7 + (base / step) as usize) % (c.a.len() / 4);
            let keep: [u8; 4] = c.a[p * 4..p * 4 + 4].try_into().unwrap();
            put32(&mut c.a, p, v);
            ctx.go(&c)?;
            c.a[p * 4..p * 4 + 4].copy_from_slice(&keep);
        }
    }
    // every value around every 16-bit boundary, in every lane of one block
    for hi in 0..0x10000u32 {
        if hi % 64 != 0 && hi > 0x40 && hi & (hi - 1) != 0 && (hi + 1) & hi != 0 && !ctx.o.thorough {
            continue;
        }
        if !ctx.mine() {
            continue;
        }
        text(&mut r, 16, &mut c.a);
        for lo in [0u32, 0x41, 0xD7FF, 0xD800, 0xDABC, 0xDFFF, 0xE000, 0xFFFF] {
            let p = r.below(16);
            let keep: [u8; 4] = c.a[p * 4..p * 4 + 4].try_into().unwrap();
            put32(&mut c.a, p, hi << 16 | lo);
            ctx.go(&c)?;
            c.a[p * 4..p * 4 + 4].copy_from_slice(&keep);
        }
    }
    for n in [2usize, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 32, 33, 40, 48, 63, 64, 65] {
        if !ctx.mine() {
            continue;
        }
        text(&mut r, n, &mut c.a);
        let save = c.a.clone();
        for p in 0..n {
            for q in p + 1..n {
                for (x, y) in [(0xD800, 0xD800), (0xDFFF, 0xD8AB), (0x11_0000, 0x11_0000), (0x11_0000, 0xD800), (u32::MAX, u32::MAX), (1 << 31, 1 << 31), (0x10_FFFF, 0xFFFF), (0x10_0000, 0xF_FFFF)] {
                    put32(&mut c.a, p, x);
                    put32(&mut c.a, q, y);
                    ctx.go(&c)?;
                }
                c.a.copy_from_slice(&save);
            }
        }
    }
    for (stride, count) in patterns(&ctx.o, 4) {
        if !ctx.mine() {
            continue;
        }
        for value in [0xD800u32, 0x11_0000, u32::MAX, 1 << 31, 0x10_FFFF] {
            let n = stride * count + r.below(20);
            text(&mut r, n, &mut c.a);
            let off = r.below(stride.max(n - stride * count));
            for i in 0..count {
                if off + i * stride < n {
                    put32(&mut c.a, off + i * stride, value);
                }
            }
            c.p[2] = gen::place(&mut r);
            ctx.go(&c)?;
        }
    }
    if scale >= 100 {
        for n in 201..=LONG / 2 {
            if !ctx.mine() {
                continue;
            }
            text(&mut r, n, &mut c.a);
            c.p[2] = gen::place(&mut r);
            ctx.go(&c)?;
            let p = r.below(n);
            put32(&mut c.a, p, *r.pick(&SCALAR_EDGES));
            ctx.go(&c)?;
        }
        for (len, step) in long_texts(&ctx.o) {
            for base in (0..len).step_by(64 * step) {
                if !ctx.mine() {
                    continue;
                }
                let n = len + r.below(40);
                text(&mut r, n, &mut c.a);
                for p in (base..base + 64 * step).step_by(step) {
                    let p = p + r.below(step);
                    if p < n {
                        let keep: [u8; 4] = c.a[p * 4..p * 4 + 4].try_into().unwrap();
                        put32(&mut c.a, p, *r.pick(&[0xD800, 0xDFFF, 0x11_0000, u32::MAX, 0xDABC, 1 << 31]));
                        c.p[2] = gen::place(&mut r);
                        ctx.go(&c)?;
                        c.a[p * 4..p * 4 + 4].copy_from_slice(&keep);
                    }
                }
            }
        }
    }
    for n in big_sizes(&ctx.o, 1 << 20) {
        if !ctx.mine() {
            continue;
        }
        text(&mut r, n, &mut c.a);
        c.p[2] = gen::place(&mut r);
        ctx.go(&c)?;
        for p in [0, n.saturating_sub(1), r.below(n.max(1)), r.below(n.max(1)), n.saturating_sub(1 + r.below(n.clamp(1, 40)))] {
            if p < n {
                let keep: [u8; 4] = c.a[p * 4..p * 4 + 4].try_into().unwrap();
                put32(&mut c.a, p, *r.pick(&SCALAR_EDGES));
                ctx.go(&c)?;
                c.a[p * 4..p * 4 + 4].copy_from_slice(&keep);
            }
        }
    }
    for _ in 0..ctx.times(300_000 * scale / 100, 20_000_000) {
        let n = gen::length(&mut r, 20_000) / 2;
        text(&mut r, n, &mut c.a);
        if n > 0 {
            for _ in 0..r.below(3) {
                let i = r.below(n);
                let v = match r.below(4) {
                    0 => *r.pick(&SCALAR_EDGES),
                    1 => r.u32(),
                    2 => 0xD800 + r.u32() % 0x800,
                    _ => 1 << r.below(32) | r.u32() % 0x11_0000,
                };
                put32(&mut c.a, i, v);
            }
        }
        c.p[2] = gen::place(&mut r);
        ctx.go(&c)?;
    }
    Ok(())
}

pub fn swap(ctx: &mut Ctx, scale: u64, deltas: bool) -> Flow {
    let mut r = ctx.rng(8);
    let mut c = Case::new(SWAP);
    for n in 0..=(400 * scale / 100) as usize {
        if !ctx.mine() {
            continue;
        }
        for w in 0..2u32 {
            for ip in 0..2u32 {
                c.a.resize(n * if w == 0 { 2 } else { 4 }, 0);
                for (i, place) in [(0u32, 0u32), (1, 1), (2 + (n as u32 * 4) % 64, 2 + (n as u32 * 12) % 64), (0, 18), (34, 1), (2, 2 + 4)].into_iter().enumerate() {
                    r.fill(&mut c.a);
                    c.p = [w, ip, place.0, place.1, 0, [0x5A, 0xFF, 0][i % 3]];
                    ctx.go(&c)?;
                    if deltas && ip == 0 {
                        for d in [1i32, 2, 7, 16, 33, -1, -2, -(n as i32), -((n / 2) as i32) - 1] {
                            if d < 0 && n == 0 {
                                continue;
                            }
                            c.p[4] = d as u32;
                            ctx.go(&c)?;
                        }
                    }
                }
            }
        }
    }
    if scale >= 100 {
        for n in 401..=LONG {
            if !ctx.mine() {
                continue;
            }
            let w = r.below(2) as u32;
            c.a.resize(n * if w == 0 { 2 } else { 4 }, 0);
            r.fill(&mut c.a);
            c.p = [w, r.below(2) as u32, gen::place(&mut r), gen::place(&mut r), if deltas { r.below(3) as u32 } else { 0 }, 0x5A];
            ctx.go(&c)?;
        }
    }
    for n in big_sizes(&ctx.o, if ctx.o.thorough { 1 << 21 } else { 1 << 19 }) {
        if !ctx.mine() {
            continue;
        }
        for w in 0..2u32 {
            c.a.resize(n * if w == 0 { 2 } else { 4 }, 0);
            r.fill(&mut c.a);
            c.p = [w, (n % 2) as u32, gen::place(&mut r), gen::place(&mut r), 0, 0x5A];
            ctx.go(&c)?;
        }
    }
    for _ in 0..ctx.times(300_000 * scale / 100, 10_000_000) {
        let w = r.below(2) as u32;
        let n = gen::length(&mut r, 10_000);
        gen::bytes(&mut r, n * if w == 0 { 2 } else { 4 }, &mut c.a);
        let d = if !deltas || r.chance(1, 2) { 0 } else { r.range(0, 40) as i32 - 8 };
        c.p = [w, r.below(2) as u32, gen::place(&mut r), gen::place(&mut r), d as u32, r.u8() as u32];
        ctx.go(&c)?;
    }
    Ok(())
}

// ---- a mix over the whole API, smaller per family --------------------------------------------------

pub fn everything(ctx: &mut Ctx, scale: u64) -> Flow {
    let s = scale as usize;
    let codecs = k::codecs();
    if !codecs.is_empty() {
        enc(ctx, &codecs, EncPlan { max_len: 300 * s / 100, big: true, blocks: false, random: (120_000 * scale / 100, 4_000_000) })?;
        dec(ctx, &codecs, DecPlan { max_bytes: 240 * s / 100, positions: 34 * s / 100, big: true, blocks: false, tails: false, random: (250_000 * scale / 100, 8_000_000) })?;
    }
    if available(FORG) {
        forgiving(ctx, 40 * scale / 100)?;
    }
    if available(UPARSE) {
        uuid_parse(ctx, 20 * scale / 100)?;
        uuid_format(ctx, 20 * scale / 100)?;
    }
    if available(ASCII) {
        ascii(ctx, 40 * scale / 100)?;
        utf32(ctx, 25 * scale / 100)?;
        swap(ctx, 40 * scale / 100, false)?;
    }
    Ok(())
}

/// Calls of every kind and all magnitudes whose memory starts at a multiple of 8 inside a larger
/// aligned block, where ASan knows the bytes in front to be out of bounds.
fn interior(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(41);
    let mut c = Case::new(ENC);
    let o = Opts { wide: true, ..ctx.o.clone() };
    for _ in 0..ctx.times(24_000, 600_000) {
        any_call(&mut r, &o, &[], &mut c);
        if c.fam == LEN {
            continue;
        }
        if c.fam == FORG && c.p[1] == 2 && !cfg!(feature = "alloc") {
            c.p[1] = 0;
        }
        c.p[2] = 2 + 8 * r.below(8) as u32;
        c.p[3] = 2 + 8 * r.below(8) as u32;
        ctx.go(&c)?;
    }
    Ok(())
}

// ---- C18 ------------------------------------------------------------------------------------------

fn contract(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(18);
    let codecs = k::codecs();
    let mut c = Case::new(LEN);
    // length functions
    let mut ns: Vec<u64> = (0..3000).collect();
    for kk in 11..64 {
        for d in -3i64..=3 {
            ns.push((1u64 << kk).wrapping_add(d as u64));
        }
    }
    let half = u64::MAX / 2;
    for base in [half, u64::MAX, half / 3 * 2, half / 4 * 3, half / 8 * 5, half / 5, u64::MAX / 3, u64::MAX / 5, u64::MAX / 5 * 4, half / 4, half / 8] {
        for d in -12i64..=12 {
            ns.push(base.wrapping_add(d as u64));
        }
    }
    for _ in 0..ctx.times(20_000, 1_000_000) {
        let s = r.below(64);
        ns.push(r.u64() >> s);
    }
    for n in ns {
        if !ctx.mine() {
            continue;
        }
        for &id in &codecs {
            c.p = [id, 0, 0, 0, (n >> 32) as u32, n as u32];
            ctx.go(&c)?;
        }
    }
    // every destination size from nothing to a little too much
    for n in 0..=150usize {
        if !ctx.mine() {
            continue;
        }
        for &id in &codecs {
            let code = model::code(id);
            let m = model::encoded_len(&code, n as u128) as i32;
            let mut c = Case::new(ENC);
            c.a = vec![0; n];
            r.fill(&mut c.a);
            for form in [k::ENC_SLICE, k::ENC_STR] {
                for d in (-m).max(-70)..=6 {
                    c.p = [id, form, 0, (d & 1) as u32, d as u32, 0x5A];
                    ctx.go(&c)?;
                }
                for d in [-m, -m + 1, 17, 64, 200] {
                    if d >= -m {
                        c.p = [id, form, 0, gen::place(&mut r), d as u32, 0xFF];
                        ctx.go(&c)?;
                    }
                }
            }
            let mut c = Case::new(DEC);
            valid_text(&mut r, id, n, &mut c.a);
            for d in -(n as i32).min(70)..=6 {
                c.p = [id, k::DEC_SLICE, 0, (d & 1) as u32, d as u32, 0x5A];
                ctx.go(&c)?;
            }
            for d in [-(n as i32), 17, 64, 200] {
                c.p = [id, k::DEC_SLICE, 0, gen::place(&mut r), d as u32, 0xFF];
                ctx.go(&c)?;
            }
            // invalid text, any size
            for _ in 0..12 {
                valid_text(&mut r, id, n, &mut c.a);
                gen::mutate(&mut r, &code, &mut c.a);
                c.p = [id, k::DEC_SLICE, 0, gen::place(&mut r), r.range(0, n + 8) as u32, 0x5A];
                c.p[4] = c.p[4].wrapping_sub(n as u32);
                ctx.go(&c)?;
            }
            c.fam = LENTEXT;
            for q in 0..8 {
                valid_text(&mut r, id, n * (1 + q % 3), &mut c.a);
                if q >= 3 {
                    gen::mutate(&mut r, &code, &mut c.a);
                }
                c.p = [id, 0, 0, 0, 0, 0];
                ctx.go(&c)?;
            }
        }
        if available(FORG) {
            for kind in 0..6 {
                let mut c = Case::new(FORG);
                valid_text(&mut r, (kind % 2) * 2, n, &mut c.a);
                if kind >= 2 {
                    gen::add_whitespace(&mut r, &mut c.a);
                }
                if kind == 5 {
                    gen::mutate(&mut r, &model::code(0), &mut c.a);
                }
                for d in -(c.a.len() as i32).min(60)..=6 {
                    c.p = [0, 0, 0, (d & 1) as u32, d as u32, 0x5A];
                    ctx.go(&c)?;
                }
            }
        }
    }
    for (i, n) in big_sizes(&ctx.o, 1 << 20).into_iter().enumerate() {
        if !ctx.mine() {
            continue;
        }
        let id = codecs[i % codecs.len()];
        for d in [-1i32, 0, 1, 64] {
            let mut c = Case::new(ENC);
            c.a = vec![i as u8; n];
            c.p = [id, (i % 2) as u32, 0, 0, d as u32, 0x5A];
            ctx.go(&c)?;
            let mut c = Case::new(DEC);
            valid_text(&mut r, id, n / 2, &mut c.a);
            c.p = [id, k::DEC_SLICE, 0, 0, d as u32, 0x5A];
            ctx.go(&c)?;
            c.fam = LENTEXT;
            ctx.go(&c)?;
            if d == 0 {
                gen::mutate(&mut r, &model::code(id), &mut c.a);
                ctx.go(&c)?;
            }
        }
    }
    let mut c = Case::new(ENC);
    for _ in 0..ctx.times(250_000, 10_000_000) {
        let id = *r.pick(&codecs);
        let code = model::code(id);
        let room = r.below(6);
        c.p[0] = id;
        if r.u64() & 1 == 0 {
            c.fam = ENC;
            c.p[1] = r.below(2) as u32;
            let n = gen::length(&mut r, 5000);
            gen::bytes(&mut r, n, &mut c.a);
            c.p[4] = match room {
                0 => 0,
                1 => (r.range(1, 100)) as u32,
                2 => 0u32.wrapping_sub(r.range(1, 40) as u32),
                3 => u32::MAX,
                4 => 0u32.wrapping_sub(r.below(model::encoded_len(&code, n as u128) as usize + 1) as u32),
                _ => r.below(5000) as u32,
            };
        } else {
            c.fam = match r.below(8) {
                0 => LENTEXT,
                1 if available(FORG) => FORG,
                _ => DEC,
            };
            c.p[1] = if c.fam == DEC { k::DEC_SLICE } else { 0 };
            gen::text(&mut r, &code, 5000, &mut c.a);
            if c.fam == FORG {
                gen::add_whitespace(&mut r, &mut c.a);
            }
            c.p[4] = match room {
                0 => 0,
                1 => (r.range(1, 100)) as u32,
                2 => 0u32.wrapping_sub(r.range(1, 40) as u32),
                3 => u32::MAX,
                4 => 0u32.wrapping_sub(r.below(c.a.len() + 1) as u32),
                _ => r.below(5000) as u32,
            };
        }
        c.p[2] = gen::place(&mut r);
        c.p[3] = gen::place(&mut r);
        c.p[5] = r.u8() as u32;
        ctx.go(&c)?;
    }
    if available(SWAP) {
        swap(ctx, 25, true)?;
    }
    if available(UPARSE) {
        uuid_format(ctx, 5)?;
    }
    Ok(())
}

// ---- C19 ------------------------------------------------------------------------------------------

fn inplace(ctx: &mut Ctx) -> Flow {
    let codecs = k::codecs();
    let mut r = ctx.rng(19);
    let mut c = Case::new(DEC);
    for n in 0..=1100usize {
        if !ctx.mine() {
            continue;
        }
        for &id in &codecs {
            for flavour in 0..2 {
                if flavour == 1 && id < 8 {
                    continue;
                }
                for q in 0..4 {
                    valid_text(&mut r, id, n, &mut c.a);
                    if q == 2 {
                        gen::mutate(&mut r, &model::code(id), &mut c.a);
                    }
                    c.p = [id, flavour, gen::place(&mut r), if q == 0 { 0 } else { gen::place(&mut r) }, 0, 0];
                    ctx.go(&c)?;
                }
            }
        }
    }
    for n in 1..=100usize {
        if !ctx.mine() {
            continue;
        }
        for &id in &codecs {
            valid_text(&mut r, id, n, &mut c.a);
            for p in 0..c.a.len() {
                let keep = c.a[p];
                for &v in ODD {
                    c.a[p] = v;
                    c.p = [id, (v & 1) as u32, 0, (p % 2) as u32, 0, 0];
                    ctx.go(&c)?;
                }
                c.a[p] = keep;
            }
        }
    }
    let sizes = big_sizes(&ctx.o, if ctx.o.thorough { 1 << 23 } else { 1 << 21 });
    for (i, n) in sizes.into_iter().enumerate() {
        for (j, &id) in codecs.iter().enumerate() {
            if !ctx.mine() || (n > 20_000 && (i + j) % codecs.len() != 0) {
                continue;
            }
            valid_text(&mut r, id, n / 2, &mut c.a);
            c.p = [id, (i % 2) as u32, gen::place(&mut r), gen::place(&mut r), 0, 0];
            ctx.go(&c)?;
            gen::mutate(&mut r, &model::code(id), &mut c.a);
            ctx.go(&c)?;
        }
    }
    for _ in 0..ctx.times(300_000, 15_000_000) {
        c.fam = DEC;
        let id = *r.pick(&codecs);
        gen::text(&mut r, &model::code(id), 30_000, &mut c.a);
        c.p = [id, r.below(2) as u32, gen::place(&mut r), gen::place(&mut r), 0, r.u8() as u32];
        if id == 0 && r.chance(2, 3) {
            c.fam = FORG;
            c.p[1] = if r.u64() & 1 == 0 { 0 } else { 2 };
            gen::add_whitespace(&mut r, &mut c.a);
        }
        ctx.go(&c)?;
    }
    if available(FORG) {
        forgiving(ctx, 60)?;
    }
    Ok(())
}

// ---- C20 ------------------------------------------------------------------------------------------

fn histories(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(20);
    let mut c = Case::new(HIST);
    // all short histories over a small set of steps
    let codecs = k::codecs().len();
    let ops: [[u8; 3]; 12] = [[0, 0, 1], [3, 0, 1], [6, 0, 1], [6, 0, 0], [6, 4, 3], [6, 8, 6], [11, 0, 0], [12, 0, 0], [13, 0, 200], [14, 0, 0], [0, 8, 1], [6, 2, 9]];
    let max = if ctx.o.thorough { 4 } else { 3 };
    for len in 1..=max {
        for x in 0..12u64.pow(len) {
            if !ctx.mine() {
                continue;
            }
            for n in [0u16, 1, 5, 16, 33, 47] {
                c.a.clear();
                let mut y = x;
                for i in 0..len {
                    let o = ops[(y % 12) as usize];
                    y /= 12;
                    let l = n.wrapping_mul(1 + i as u16 % 3);
                    c.a.extend([o[0], o[1] % codecs as u8, o[2], l as u8, (l >> 8) as u8, i as u8, n as u8, 0]);
                }
                c.p = [n as u32 * 2, n as u32, 0, 0, 0, 0];
                ctx.go(&c)?;
            }
        }
    }
    for _ in 0..ctx.times(60_000, 3_000_000) {
        let n = r.range(1, 40);
        c.a.resize(n * 8, 0);
        r.fill(&mut c.a);
        if r.chance(1, 3) {
            // concentrate on one codec
            let id = r.u8();
            for s in c.a.chunks_exact_mut(8) {
                s[1] = id;
            }
        }
        c.p = [r.below(300) as u32, r.below(300) as u32, 0, 0, 0, 0];
        ctx.go(&c)?;
    }
    Ok(())
}

// ---- C24 ------------------------------------------------------------------------------------------

fn metamorphic(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(24);
    let codecs = k::codecs();
    let mut c = Case::new(META);
    for n in 0..=420usize {
        if !ctx.mine() {
            continue;
        }
        for &id in &codecs {
            let code = model::code(id);
            for rep in 0..3u32 {
                c.a.resize(n, 0);
                gen::bytes(&mut r, n, &mut c.a);
                c.p = [id, 0, 0, r.below(10) as u32, 0, r.below(10) as u32];
                ctx.go(&c)?;
                c.p[1] = 2;
                for _ in 0..3 {
                    c.p[2] = r.below(n + 1) as u32;
                    ctx.go(&c)?;
                }
                valid_text(&mut r, id, n, &mut c.a);
                if rep == 1 {
                    gen::mutate(&mut r, &code, &mut c.a);
                }
                if rep == 2 {
                    // concatenation of two texts
                    let m = n / 2 / code.block_chars * code.block_chars;
                    let mut t = Vec::new();
                    let more = r.below(n + 1);
                    valid_text(&mut r, id, more, &mut t);
                    c.a.truncate(m);
                    c.a.extend(t);
                }
                c.p[1] = 1;
                ctx.go(&c)?;
                c.p[1] = 3;
                for _ in 0..4 {
                    c.p[2] = r.below(c.a.len() + 1) as u32;
                    ctx.go(&c)?;
                }
            }
        }
        // every split of an ASCII text with one offending byte near the split
        for _ in 0..20 {
            c.a.resize(n, 0);
            r.fill(&mut c.a);
            for x in c.a.iter_mut() {
                *x &= 0x7F;
            }
            if n > 0 && r.u64() & 1 == 0 {
                let i = r.below(n);
                c.a[i] |= 0x80;
            }
            c.p = [0, 4, r.below(n + 1) as u32, gen::place(&mut r), 0, 0];
            ctx.go(&c)?;
            c.a.resize(n / 4 * 4, 0);
            for i in 0..n / 4 {
                let v = scalar(&mut r);
                put32(&mut c.a, i, v);
            }
            if n >= 4 && r.u64() & 1 == 0 {
                let i = r.below(n / 4);
                put32(&mut c.a, i, *r.pick(&SCALAR_EDGES));
            }
            c.p[1] = 5;
            ctx.go(&c)?;
        }
    }
    for (i, n) in big_sizes(&ctx.o, if ctx.o.thorough { 1 << 23 } else { 3 << 19 }).into_iter().enumerate() {
        for (j, &id) in codecs.iter().enumerate() {
            if !ctx.mine() || (n > 30_000 && (i + j) % codecs.len() != 0) {
                continue;
            }
            c.a.resize(n, 0);
            r.fill(&mut c.a);
            c.p = [id, 0, 0, r.below(10) as u32, 0, r.below(10) as u32];
            ctx.go(&c)?;
            c.p[1] = 2;
            c.p[2] = r.below(n + 1) as u32;
            ctx.go(&c)?;
            valid_text(&mut r, id, n, &mut c.a);
            c.p[1] = 1;
            ctx.go(&c)?;
            c.p[1] = 3;
            c.p[2] = r.below(n + 1) as u32;
            ctx.go(&c)?;
        }
    }
    for _ in 0..ctx.times(250_000, 10_000_000) {
        let id = *r.pick(&codecs);
        let code = model::code(id);
        let kind = r.below(META_KINDS as usize) as u32;
        match kind {
            0 | 2 => {
                let n = gen::length(&mut r, 20_000);
                gen::bytes(&mut r, n, &mut c.a);
            }
            1 | 3 => gen::text(&mut r, &code, 20_000, &mut c.a),
            4 => {
                let n = gen::length(&mut r, 20_000);
                gen::bytes(&mut r, n, &mut c.a);
                if r.chance(2, 3) {
                    for x in c.a.iter_mut() {
                        *x &= 0x7F;
                    }
                    if n > 0 && r.u64() & 1 == 0 {
                        let i = r.below(n);
                        c.a[i] |= 0x80;
                    }
                }
            }
            _ => {
                let n = gen::length(&mut r, 6000);
                c.a.resize(n * 4, 0);
                for i in 0..n {
                    let v = scalar(&mut r);
                    put32(&mut c.a, i, v);
                }
                if n > 0 && r.u64() & 1 == 0 {
                    let i = r.below(n);
                    put32(&mut c.a, i, *r.pick(&SCALAR_EDGES));
                }
            }
        }
        let cut = match r.below(3) {
            0 => r.below(c.a.len() + 1),
            1 => r.below(c.a.len().min(100) + 1),
            _ => c.a.len() - r.below(c.a.len().min(100) + 1),
        };
        c.p = [id, kind, cut as u32, if kind < 4 { r.below(10) as u32 } else { gen::place(&mut r) }, 0, r.below(10) as u32];
        ctx.go(&c)?;
    }
    Ok(())
}

// ---- C04 ------------------------------------------------------------------------------------------

fn parallel(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.rng(9);
    let mut c = Case::new(PAR);
    let pools = [1u32, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16];
    let mut sizes: Vec<usize> = Vec::new();
    for &p in &pools {
        let t = p as i64 * 4096;
        for d in [-4i64, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 100, 4096, 4097, 12288, 12289, 12290] {
            sizes.push((t + d) as usize);
        }
        // around multiples of three times the pool
        for q in 0..6 {
            sizes.push((t + 1 + q) as usize * 3);
        }
    }
    sizes.extend(0..70);
    sizes.extend(big_sizes(&ctx.o, 300_000));
    sizes.sort();
    sizes.dedup();
    for (i, n) in sizes.into_iter().enumerate() {
        for (j, &p) in pools.iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            for id in 0..4 {
                if n > 20_000 && (i + j + id as usize) % 4 != 0 && !ctx.o.thorough {
                    continue;
                }
                for d in [0i32, 1, -1, 5, -(n as i32) * 2, -3] {
                    if d != 0 && (i + j + id as usize + d.unsigned_abs() as usize) % 3 != 0 {
                        continue;
                    }
                    c.p = [id, p, n as u32, r.u32() >> 8, d as u32, 0x5A];
                    ctx.go(&c)?;
                }
            }
        }
    }
    // more threads than any machine at hand has cores
    for (i, p) in [24u32, 32, 33, 64, 65, 100].into_iter().enumerate() {
        if !ctx.mine() {
            continue;
        }
        for q in 0..12usize {
            let n = p as usize * 4096 + [0, 1, 2, 3, 4, 100, 4095, 4096, 8192, 12289, 50_000, 200_001][q] - (q == 1) as usize * 2;
            for d in [0u32, u32::MAX, 7] {
                c.p = [(i + q) as u32 % 4, p, n as u32, r.u32() >> 8, d, 0x5A];
                ctx.go(&c)?;
            }
        }
    }
    for _ in 0..ctx.times(6_000, 200_000) {
        let p = if r.chance(1, 60) { *r.pick(&[24u32, 33, 64]) } else { *r.pick(&pools) };
        let n = match r.below(4) {
            0 => r.below(3 * p as usize * 4096),
            1 => p as usize * 4096 + r.below(300),
            2 => r.below(600_000),
            _ => p as usize * 3 * r.range(1, 4000) + r.below(5),
        };
        let d = match r.below(6) {
            0 => 0u32.wrapping_sub(r.below(n * 4 / 3 + 5) as u32),
            1 => u32::MAX,
            2 => r.below(100) as u32,
            _ => 0,
        };
        let k = r.below(4) as u32;
        let extra = r.below(8);
        gen::bytes(&mut r, extra, &mut c.a);
        c.p = [k, p, n as u32, r.u32() >> 8, d, r.u8() as u32];
        ctx.go(&c)?;
    }
    if ctx.o.thorough {
        for i in 0..40 {
            if !ctx.mine() {
                continue;
            }
            c.p = [i % 4, pools[i as usize % pools.len()], (8 << 20) + i * 1001, i, 0, 0];
            ctx.go(&c)?;
        }
    }
    Ok(())
}

// ---- dispatch -------------------------------------------------------------------------------------

pub fn run(ctx: &mut Ctx) -> Flow {
    let b64 = [0, 1, 2, 3];
    let b32 = [4, 5, 6, 7];
    let hex = [8, 9];
    #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
    if ctx.o.part == "huge" {
        return crate::huge::drive(ctx);
    }
    if ctx.o.part == "small" && ![14, 15, 17].contains(&ctx.o.prop) {
        return small(ctx);
    }
    match ctx.o.prop {
        1 => enc(ctx, &b64, EncPlan { max_len: 1100, big: true, blocks: true, random: (250_000, 15_000_000) }),
        5 => enc(ctx, &b32, EncPlan { max_len: 1100, big: true, blocks: true, random: (250_000, 15_000_000) }),
        7 => enc(ctx, &hex, EncPlan { max_len: 1100, big: true, blocks: true, random: (250_000, 15_000_000) }),
        2 => dec(ctx, &b64, DecPlan { max_bytes: 700, positions: 100, big: true, blocks: true, tails: true, random: (400_000, 20_000_000) }),
        6 => dec(ctx, &b32, DecPlan { max_bytes: 700, positions: 100, big: true, blocks: true, tails: true, random: (400_000, 20_000_000) }),
        8 => dec(ctx, &hex, DecPlan { max_bytes: 700, positions: 100, big: true, blocks: true, tails: true, random: (400_000, 20_000_000) }),
        3 => forgiving(ctx, 100),
        4 => parallel(ctx),
        9 => uuid_parse(ctx, 100),
        10 => uuid_format(ctx, 100),
        11 => ascii(ctx, 100),
        12 => utf32(ctx, 100),
        13 => swap(ctx, 100, true),
        16 => {
            interior(ctx)?;
            everything(ctx, 100)
        }
        18 => contract(ctx),
        19 => inplace(ctx),
        20 => histories(ctx),
        21 => everything(ctx, 40),
        22 if ctx.o.part == "par" => parallel(ctx),
        22 => {
            everything(ctx, 60)?;
            contract(ctx)
        }
        17 => differential(ctx),
        #[cfg(all(target_os = "linux", not(miri)))]
        23 => crate::race::drive(ctx),
        24 => metamorphic(ctx),
        25 => crate::linear::sets_run(ctx),
        26 => crate::linear::grow_run(ctx),
        27 => crate::fault::run(ctx),
        #[cfg(feature = "vs")]
        14 => crate::vs::run14(ctx),
        #[cfg(feature = "vs")]
        15 => crate::vs::run15(ctx),
        p => panic!("harness: property {p} has no driver"),
    }
}

/// Random short inputs only, for builds that are interpreted.
fn small(ctx: &mut Ctx) -> Flow {
    use crate::space::{self, Space, HEAD};
    let s = Space::of(ctx.o.prop);
    let mut r = ctx.rng(40);
    let mut head = [0u8; HEAD];
    for _ in 0..ctx.times(40_000, 400_000) {
        r.fill(&mut head);
        let max = *r.pick(&[17usize, 33, 49, 65, 80, 80, 100, 100, 160, 300]);
        let body = space::fresh(&mut r, &s, &head, max);
        let mut d = head.to_vec();
        d.extend(body);
        if let Some(c) = space::decode(&s, &d) {
            ctx.go(&c)?;
        }
    }
    Ok(())
}

// ---- C17 ------------------------------------------------------------------------------------------

/// A random call that means the same in every build configuration.
pub fn any_call(r: &mut Rng, o: &Opts, big: &[usize], c: &mut Case) {
    let fams: &[u32] = &[ENC, ENC, ENC, ENC, DEC, DEC, DEC, DEC, DEC, FORG, FORG, UPARSE, UFMT, ASCII, UTF32, SWAP, LEN];
    c.fam = *r.pick(fams);
    c.b.clear();
    c.p = [0, 0, gen::place(r), gen::place(r), 0, *r.pick(&[0u32, 0xFF, 0x5A])];
    let max = if o.wide {
        r.range(1, 64) << r.below(10)
    } else if o.part == "small" {
        *r.pick(&[80usize, 80, 300])
    } else if o.thorough && r.chance(1, 200) {
        *r.pick(big)
    } else if r.chance(1, 2000) {
        (*r.pick(big)).min(70_000)
    } else {
        *r.pick(&[80usize, 300, 300, 1200])
    };
    let wide = o.wide;
    let length = |r: &mut Rng, max: usize| if wide { r.range(max / 2, max) } else { gen::length(r, max) };
    match c.fam {
        ENC | DEC => {
            let id = r.below(10) as u32;
            c.p[0] = id;
            c.p[1] = r.below(10) as u32;
            let roomy = if c.fam == ENC {
                let n = length(r, max);
                gen::bytes(r, n, &mut c.a);
                c.p[1] >= 2
            } else {
                let code = model::code(id);
                gen::text_of(r, &code, &|r| length(r, max), &mut c.a);
                if r.chance(1, 2) {
                    for _ in 0..r.range(1, 2) {
                        gen::mutate(r, &code, &mut c.a);
                    }
                }
                c.p[1] != 0
            };
            c.p[4] = if roomy { r.range(0, 20) as u32 } else { r.range(0, 40).wrapping_sub(4) as u32 };
            if r.chance(1, 3) {
                for _ in 0..r.below(20) {
                    c.b.push(b'a' + r.below(26) as u8);
                }
            }
        }
        FORG => {
            c.p[1] = r.below(3) as u32;
            let code = model::code(2 * r.below(2) as u32);
            gen::text_of(r, &code, &|r| length(r, max), &mut c.a);
            if r.chance(2, 3) {
                gen::add_whitespace(r, &mut c.a);
            }
            if r.chance(1, 3) {
                gen::mutate(r, &code, &mut c.a);
            }
            c.p[4] = if c.p[1] == 0 { r.range(0, 40).wrapping_sub(4) as u32 } else { 0 };
        }
        UPARSE => {
            c.p[0] = r.below(3) as u32;
            c.p[1] = r.below(2) as u32;
            let form = r.below(4);
            uuid_text(r, form, &mut c.a);
            if r.chance(1, 2) {
                gen::mutate(r, &model::code(8), &mut c.a);
            }
        }
        UFMT => {
            c.p[0] = r.below(4) as u32;
            c.p[1] = r.below(UFMT_FORMS as usize) as u32;
            gen::bytes(r, 16, &mut c.a);
        }
        ASCII => {
            c.p[0] = r.below(2) as u32;
            let n = length(r, max);
            gen::bytes(r, n, &mut c.a);
            c.a.iter_mut().for_each(|b| *b &= 0x7F);
            if n > 0 && r.chance(2, 3) {
                let i = r.below(n);
                c.a[i] |= 0x80;
            }
        }
        UTF32 => {
            let n = length(r, max / 4);
            c.a.clear();
            c.a.resize(4 * n, 0);
            for i in 0..n {
                let v = scalar(r);
                put32(&mut c.a, i, v);
            }
            if n > 0 && r.chance(2, 3) {
                let (i, v) = (r.below(n), *r.pick(&SCALAR_EDGES));
                put32(&mut c.a, i, v);
            }
        }
        SWAP => {
            c.p[0] = r.below(2) as u32;
            c.p[1] = r.below(2) as u32;
            let w = if c.p[0] == 0 { 2 } else { 4 };
            let n = length(r, max) / w * w;
            gen::bytes(r, n, &mut c.a);
            c.p[4] = r.range(0, 20) as u32;
        }
        _ => {
            c.p[0] = r.below(10) as u32;
            c.a.clear();
            // within the range of every target
            c.p[4] = 0;
            c.p[5] = r.u32() >> r.range(3, 31);
        }
    }
    gen::bound(&mut c.a, 2_000_000);
}

pub const DIGEST_BLOCK: u64 = 1024;

fn digest_case(ctx: &mut Ctx, c: &Case) -> Flow {
    ctx.journal.note(c);
    ctx.evals += 1;
    let (d, i) = props::digest(&mut ctx.env, c);
    ctx.class_counts[i.class] += 1;
    if i.nontrivial && ctx.seen.insert(c.fingerprint()) {
        ctx.distinct += 1;
    }
    if ctx.evals.is_power_of_two() && ctx.samples.len() < 40 {
        ctx.samples.push(sample(c));
    }
    ctx.block.u64(d);
    if ctx.trace_block == Some(((ctx.evals - 1) / DIGEST_BLOCK) as usize) {
        ctx.trace.push(format!("{d:016x} {}", c.text()));
    }
    if ctx.evals % DIGEST_BLOCK == 0 {
        let b = std::mem::take(&mut ctx.block);
        ctx.digests.push(b.get());
    }
    Ok(())
}

fn differential(ctx: &mut Ctx) -> Flow {
    let mut r = ctx.common_rng(1);
    let big = big_sizes(&ctx.o, if ctx.o.thorough { 1 << 20 } else { 70_000 });
    let n = if ctx.o.part == "small" { 0 } else { ctx.times(2_000_000, 40_000_000) / DIGEST_BLOCK * DIGEST_BLOCK };
    let mut c = Case::default();
    for _ in 0..n.max(DIGEST_BLOCK) {
        any_call(&mut r, &ctx.o, &big, &mut c);
        digest_case(ctx, &c)?;
        if let Some(t) = ctx.trace_block {
            if ctx.evals >= (t as u64 + 1) * DIGEST_BLOCK {
                break;
            }
        }
    }
    Ok(())
}
