#![allow(dead_code)]
#[cfg(feature = "arm")]
mod arm;
#[cfg(not(any(miri, feature = "arm")))]
mod asmwrap;
mod common;
mod ctx;
mod elfgen;
mod enc;
mod eng;
mod galloc;
mod gen;
mod hist;
mod host;
mod hostile;
mod islands;
mod props;
mod refiss;
mod refmach;
mod rng;
mod s2;
mod seg;

use ctx::Ctx;
use rng::{mix, Rng};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn cpu_limit(secs: i64) {
    unsafe {
        let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: secs, tv_usec: 0 } };
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

/// Runs one case; Some(message) when it violates the property.
fn one(f: props::Case, ctx: &mut Ctx, case_seed: u64) -> Option<String> {
    cpu_limit(if cfg!(miri) { 0 } else { 40 });
    let mut rng = Rng::new(case_seed);
    let r = catch_unwind(AssertUnwindSafe(|| f(ctx, &mut rng)));
    match r {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(m),
        Err(_) => {
            let m = LAST_PANIC.lock().unwrap().clone();
            // a panic raised by this harness itself is not a verdict about the VM
            if m.starts_with("src/") || m.contains("/mon/src/") { eprintln!("HARNESS-PANIC case={case_seed} {m}"); std::process::exit(70); }
            let t = hostile::trail();
            Some(format!("panic in the code under test: {m}{}", if t.is_empty() { String::new() } else { format!("; calls: {t}") }))
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|p| args.get(p + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let cases: u64 = get("--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let worker: u64 = get("--worker").and_then(|s| s.parse().ok()).unwrap_or(0);
    let nworkers: u64 = get("--nworkers").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = get("--tier").unwrap_or("quick".into());
    let out = get("--out");
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = format!("{loc}: {msg}");
    }));
    #[cfg(feature = "armtest")]
    if prop == "ARMTEST" { std::panic::set_hook(Box::new(|i| eprintln!("{i}"))); arm::selftest(); return; }
    let list = props::cases(&prop);
    if list.is_empty() { eprintln!("unknown property {prop}"); std::process::exit(64); }
    let mut ctx = Ctx::new(&prop, &tier);
    ctx.worker = worker;
    ctx.nworkers = nworkers;
    ctx.variant = get("--variant").unwrap_or("plain".into());
    ctx.known = get("--known").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    ctx.verbose = args.iter().any(|a| a == "--verbose");
    if let Some(c) = get("--replay") {
        // NAME:SEED
        let (name, s) = c.split_once(':').expect("--replay part:seed");
        let (_, _, f) = list.iter().find(|x| x.0 == name).expect("part");
        ctx.verbose = true;
        match one(*f, &mut ctx, s.parse().unwrap()) {
            Some(m) => { println!("VIOLATED {m}"); std::process::exit(1) }
            None => { println!("held; stats {:?}", ctx.stats); std::process::exit(0) }
        }
    }
    let cur = out.as_ref().map(|o| std::fs::File::create(format!("{o}.cur")).unwrap());
    let start = Instant::now();
    let total_w: u32 = list.iter().map(|x| x.1).sum();
    let mut found: Vec<serde_json::Value> = vec![];
    let mut n = 0u64;
    let mut used = vec![Duration::ZERO; list.len()];
    // parts take turns according to their time weights
    while start.elapsed().as_secs_f64() < secs && n < cases && found.len() < 3 {
        let k = (0..list.len()).min_by(|a, b| (used[*a].as_secs_f64() / list[*a].1 as f64).total_cmp(&(used[*b].as_secs_f64() / list[*b].1 as f64))).unwrap();
        let (name, _, f) = &list[k];
        let part_hash = name.bytes().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
        let s = mix(&[seed, worker, n, part_hash]);
        if let Some(c) = &cur {
            use std::os::unix::fs::FileExt;
            let mut b = format!("{name}:{s}").into_bytes();
            b.resize(64, b' ');
            let _ = c.write_at(&b, 0);
        }
        let t = Instant::now();
        let r = one(*f, &mut ctx, s);
        used[k] += t.elapsed() + Duration::from_micros(1);
        n += 1;
        ctx.evals += 1;
        ctx.count(&format!("cases:{name}"));
        if let Some(m) = r {
            if ctx.verbose { println!("{name}:{s} {m}"); }
            found.push(serde_json::json!({"case": format!("{name}:{s}"), "message": m}));
        }
    }
    cpu_limit(0);
    #[cfg(feature = "arm")]
    if std::env::var_os("MON_UNSEEN").is_some() { for o in arm::unseen() { println!("unseen {o:#x}"); } }
    let _ = total_w;
    let mut distinct: Vec<u64> = ctx.distinct.iter().copied().collect();
    distinct.sort_unstable();
    let rep = serde_json::json!({"prop": prop, "worker": worker, "evals": ctx.evals, "stats": ctx.stats, "distinct": distinct, "samples": ctx.samples,
        "violations": found, "notes": ctx.notes, "known": ctx.known_seen, "wall_s": start.elapsed().as_secs_f64(), "done": true});
    match out {
        Some(o) => { let tmp = format!("{o}.tmp"); let mut f = std::fs::File::create(&tmp).unwrap(); f.write_all(rep.to_string().as_bytes()).unwrap(); std::fs::rename(&tmp, &o).unwrap(); }
        None => println!("evals {} distinct {} stats {:?} violations {:?} samples {:?}", ctx.evals, ctx.distinct.len(), ctx.stats, found, ctx.samples.first()),
    }
}
