//! simdcheck: generates inputs for the crates under test and compares what they do with the models.
//!
//!   run   --prop N --shard I/N --seed S --tier quick|thorough --level L [--journal F] [--seen F] [--dict F] --config NAME
//!   exec  --prop N --level L --case TEXT
//!
//! Prints one JSON object.
#![cfg_attr(simd_oom, feature(alloc_error_hook))]

mod api;
mod case;
mod codec;
mod drive;
mod fault;
#[cfg(simd_fuzz)]
mod fuzz;
mod gen;
mod linear;
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
mod huge;
mod mem;
mod model;
mod props;
#[cfg(all(target_os = "linux", not(miri)))]
mod race;
mod rng;
mod space;
#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod step;
#[cfg(feature = "vs")]
mod vs;

use std::collections::HashMap;

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: mem::heap::Checked = mem::heap::Checked;

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn set_level(level: u32) {
    drive::LEVEL.store(level, std::sync::atomic::Ordering::Relaxed);
    #[cfg(simd_verif)]
    if level < 5 {
        vsimd::isa::verif::set_max_level(level as u8);
        #[cfg(feature = "vs")]
        vs::ORIGINAL_LEVEL.store(level as u8, std::sync::atomic::Ordering::Relaxed);
    }
    let _ = level;
}

fn main() {
    #[cfg(not(target_arch = "wasm32"))]
    {
        api::quiet_panics();
        #[cfg(simd_oom)]
        fault::panic_when_out_of_memory();
        let mut args: Vec<String> = std::env::args().skip(1).collect();
        if args.is_empty() {
            if let Ok(a) = std::env::var("SIMDCHECK_ARGS") {
                args = a.split('|').map(str::to_string).collect();
            }
        }
        match std::panic::catch_unwind(|| real_main(args)) {
            Ok(s) => println!("{s}"),
            Err(_) => {
                eprintln!("{}", api::panic_msg());
                std::process::exit(101);
            }
        }
    }
}

/// The module's interface for tools/wasm.mjs (there are no arguments and no files on this target).
#[cfg(target_arch = "wasm32")]
mod wasm {
    static mut IN: Vec<u8> = Vec::new();
    static mut OUT: String = String::new();
    #[no_mangle]
    pub extern "C" fn simd_in(n: usize) -> *mut u8 {
        unsafe {
            IN = vec![0; n];
            (*(&raw mut IN)).as_mut_ptr()
        }
    }
    #[no_mangle]
    pub extern "C" fn simd_go() {
        unsafe {
            crate::api::quiet_panics();
            let a = String::from_utf8((*(&raw const IN)).clone()).unwrap();
            let args = a.split('\0').map(str::to_string).collect();
            OUT = crate::real_main(args);
        }
    }
    #[no_mangle]
    pub extern "C" fn simd_panic() {
        unsafe { OUT = crate::api::panic_msg() }
    }
    #[no_mangle]
    pub extern "C" fn simd_out() -> *const u8 {
        unsafe { (*(&raw const OUT)).as_ptr() }
    }
    #[no_mangle]
    pub extern "C" fn simd_out_len() -> usize {
        let out: &String = unsafe { &*(&raw const OUT) };
        out.len()
    }
    #[no_mangle]
    pub extern "C" fn simd_journal() -> *const u8 {
        crate::mem::journal_memory()
    }
}

fn real_main(args: Vec<String>) -> String {
    let cmd = args.first().cloned().unwrap_or_default();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i + 1 < args.len() {
        o.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| o.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| panic!("harness: bad --{k}")));
    let prop = num("prop", 0) as u32;
    set_level(num("level", 255) as u32);

    match cmd.as_str() {
        "run" => {
            let words = match o.get("dictdata") {
                Some(d) => d.to_string(),
                None => o.get("dict").map(|f| std::fs::read_to_string(f).unwrap_or_default()).unwrap_or_default(),
            };
            gen::set_strings(drive::strings(&words));
            let shard = get("shard", "0/1");
            let (a, b) = shard.split_once('/').expect("harness: --shard");
            let mut ctx = drive::Ctx::new(drive::Opts {
                prop,
                seed: num("seed", 1),
                thorough: get("tier", "quick") == "thorough",
                scale: num("scale", 100) as u32,
                shard: a.parse().unwrap(),
                shards: b.parse().unwrap(),
                level: num("level", 255) as u32,
                dict: match o.get("dictdata") {
                    Some(d) => drive::numbers(d),
                    None => o.get("dict").map(|f| drive::read_dict(f)).unwrap_or_default(),
                },
                part: get("part", "all"),
                wide: false,
            });
            if let Some(f) = o.get("journal") {
                ctx.journal = mem::Journal::open(f);
            }
            if let Some(f) = o.get("seen") {
                ctx.seen = drive::Seen::open(f);
            }
            #[cfg(simd_fuzz)]
            if get("part", "all") == "fuzz" {
                let runs = num("runs", 1_000_000) * num("scale", 100) / 100;
                fuzz::main(ctx, runs);
            }
            ctx.trace_block = o.get("trace").and_then(|t| t.parse().ok());
            let r = drive::run(&mut ctx);
            ctx.report(r.is_err())
        }
        "exec" => {
            let c = case::Case::parse(&get("case", "")).or_else(|| {
                let f = o.get("file")?;
                case::Case::parse(&std::fs::read_to_string(f).ok()?)
            });
            let c = c.expect("harness: bad case");
            #[cfg(all(target_os = "linux", not(miri)))]
            race::REPEAT_SECONDS.store(num("repeat", 0) as u32, std::sync::atomic::Ordering::Relaxed);
            let mut env = api::Env::default();
            match props::check(prop, &mut env, &c) {
                Ok(_) => format!(
                    "{{\"ok\":true,\"digest\":{},\"what\":{}}}",
                    json_str(&props::LAST_DIGEST.with(|d| d.borrow().clone())),
                    json_str(&props::describe(&c))
                ),
                Err(m) => format!("{{\"ok\":false,\"msg\":{},\"what\":{}}}", json_str(&m), json_str(&props::describe(&c))),
            }
        }
        _ => panic!("harness: unknown command"),
    }
}
