#![allow(dead_code)]
mod ctx;
#[cfg(feature = "crc")]
mod crc;
#[cfg(feature = "lzhuf")]
mod lz;
#[cfg(feature = "lzhuf")]
mod reference;
#[cfg(feature = "fbb")]
mod fbb;
#[cfg(feature = "types")]
mod types;
#[cfg(feature = "vara")]
mod vara;
#[cfg(feature = "kx3")]
mod kx3;
use ctx::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    // harness PROP OUT --seed N --tier quick|thorough --secs S [--trace] [--replay INPUT]
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    let prop = a[1].clone();
    let out = a[2].clone();
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let secs: f64 = get("--secs", "20").parse().unwrap();
    let limit: f64 = get("--limit", "30").parse().unwrap();
    let shared = Arc::new(Mutex::new(Shared { current: String::new(), started: None, finished: false }));
    watchdog(shared.clone(), prop.clone(), out.clone(), Duration::from_secs_f64(limit));
    if std::env::var("VERIF_PANIC").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut cx = Ctx {
        prop: prop.clone(), rng: Rng::new(seed), thorough: get("--tier", "quick") == "thorough",
        deadline: Instant::now() + Duration::from_secs_f64(secs),
        evals: 0, distinct: Default::default(), samples: vec![], rule: String::new(), exhaustive: false,
        out, shared, trace: a.iter().any(|x| x == "--trace"), known: vec![], deep: a.iter().any(|x| x == "--deep"),
    };
    let replay = a.iter().position(|x| x == "--replay").and_then(|i| a.get(i + 1).cloned()).map(|s| match s.strip_prefix('@') { Some(f) => std::fs::read_to_string(f).unwrap(), None => s });
    // big stacks: decoded structures live in arrays
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        match prop.as_str() {
            #[cfg(feature = "crc")]
            "C06" => crc::c06(&mut cx, replay),
            #[cfg(feature = "lzhuf")]
            "C01" | "C02" | "C03" | "C04" | "C05" => lz::run(&mut cx, &prop, replay),
            #[cfg(feature = "fbb")]
            "C07" | "C08" | "C09" | "C10" | "C11" => fbb::run(&mut cx, &prop, replay),
            #[cfg(feature = "types")]
            "C12" => types::run(&mut cx, replay),
            #[cfg(feature = "vara")]
            "C13" | "C14" | "C15" | "C16" | "C18" | "C19" | "C20" => vara::run(&mut cx, &prop, replay),
            #[cfg(feature = "kx3")]
            "C17" => kx3::run(&mut cx, replay),
            _ => { eprintln!("no such group"); std::process::exit(2); }
        }
        cx.finish();
    }).unwrap();
    let _ = t.join();
    std::process::exit(2);
}
