//! Host memory outside the machine's own buffers stays out of reach.
use super::*;
use crate::common::*;
use crate::ensure;
use crate::galloc;
use crate::gen::*;
use crate::hist;
use crate::hostile::*;
use crate::refmach::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

pub fn parts() -> Vec<Part> { vec![("sessions", 6, sessions), ("memories", 2, memories), ("faults", 4, faults), ("histories", 4, histories), ("snapshots", 2, snapshots), ("held", 2, held)] }

fn count(ctx: &mut Ctx) {
    ctx.max("guarded-allocations", galloc::GUARDED.load(Relaxed));
    ctx.max("guarded-bytes", galloc::BYTES.load(Relaxed));
    ctx.max("releases-checked", galloc::RELEASED.load(Relaxed));
    #[cfg(not(miri))]
    #[cfg(not(feature = "arm"))]
    ctx.max("entries-into-assembly-checked", crate::asmwrap::CALLS.load(Relaxed));
}
/// panics and wrong results are the business of other properties
fn quiet(f: impl FnOnce() -> V) { let _ = catch_unwind(AssertUnwindSafe(f)); }

/// Hostile sessions with every buffer between inaccessible pages; what can be observed must not depend
/// on what fresh buffers contain.
fn sessions(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let seed = rng.next();
    let mut digests = vec![];
    let twice = rng.chance(1, 2);
    for b in if twice { &[0xa5u8, 0x5a][..] } else { &[0xa5][..] } {
        trail_clear();
        galloc::poison(*b);
        let mut r = Rng::new(seed);
        let mut d = None;
        quiet(|| galloc::guarded(100, || {
            let mut s = Session::new(&mut r);
            for _ in 0..35 { s.op(ctx, &mut r)?; }
            d = Some(s.look());
            drop(s);
            Ok(())
        }));
        digests.push(d);
    }
    galloc::poison(0xa5);
    ctx.count(if twice { "sessions-with-two-fillings" } else { "sessions-with-one-filling" });
    if let [Some(a), Some(b)] = digests[..] { ensure!(a == b, "what can be observed depends on memory that was never initialised; calls: {}", trail()); ctx.count("fillings-compared"); }
    count(ctx);
    Ok(())
}
fn memories(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    quiet(|| galloc::guarded(0, || bare_any(rng, 60, 1e9)));
    ctx.add("memory-calls", 60);
    count(ctx);
    Ok(())
}
/// guests that leave their address space: every engine has to say so, and stay inside its buffers
fn faults(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 8);
    let (isa, version) = isa_version(rng);
    let f = rng.chance(4, 5);
    let s = match if rng.chance(1, 8) { Some(super::c01::loader(rng, xlen, isa, version, &[crate::host::CALL_LOG, crate::host::CALL_CODE])) } else { setup_with(rng, xlen, isa, version, |g: &mut G, r: &mut Rng| { g.faults = f; g.mem_bias = true; g.amo_bias = r.chance(1, 4); g.size = 25; }) } { Some(s) => s, None => return Ok(()) };
    let (mut m, _) = s.reference();
    if m.load(&s.img).is_err() { return Ok(()); }
    let stop = m.run(BUDGET);
    if matches!(stop, RStop::Unknown(_)) || m.high_pc && version < 2 { return Ok(()); }
    let out = matches!(stop, RStop::Oob) && pure_fault(&m, &stop);
    if out { ctx.count("guests-leaving-their-memory"); }
    ctx.seen(signature(&m, out as u64));
    for k in s.kinds() {
        let mut bad = None;
        quiet(|| galloc::guarded(100, || {
            let (mut e, _) = s.engine(*k);
            e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{x:?}"))?;
            let r = e.run();
            if out && class_of(&r) != Class::Oob { bad = Some(format!("{k:?} ends with {r:?} where the guest leaves its memory")); }
            Ok(())
        }));
        if let Some(b) = bad { return Err(b); }
        ctx.count("engine-runs");
    }
    count(ctx);
    Ok(())
}
fn histories(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let mut r = Err(String::new());
    quiet(|| { r = galloc::guarded(100, || hist::history(ctx, rng, hist::MIXED, |s, _| { s.ops = 60; s.flags = false; s.regs = false; })); Ok(()) });
    // only accesses outside of the address space count here
    match r { Err(m) if m.contains("oob: true") && m.contains("has to be refused") => Err(m), _ => { count(ctx); Ok(()) } }
}
/// suspended and resumed on other engines, with all buffers guarded
fn snapshots(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    quiet(|| galloc::guarded(100, || {
        let mut s = Session::new(rng);
        for _ in 0..25 { if rng.chance(1, 2) { s.snapshot_one(ctx, rng)?; } else { s.op(ctx, rng)?; } }
        Ok(())
    }));
    count(ctx);
    Ok(())
}

/// bytes read out of a machine belong to the reader: nothing done to the machine afterwards, its end
/// included, changes them
fn held(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    let mut kept: Vec<(ckb_vm::Bytes, u64, String)> = vec![];
    let mut kind = None;
    quiet(|| galloc::guarded(100, || {
        let mut s = Session::new(rng);
        kind = Some(s.e.kind());
        let mem = s.cfg.mem as u64;
        for _ in 0..25 {
            s.op(ctx, rng)?;
            let a = rng.below(mem);
            let n = *rng.pick(&[1u64, 40, 5000, 1 << 18, 1 << 20]);
            if let Ok(b) = s.e.load_bytes(a, n.min(mem - a)) { let h = hash(&b); kept.push((b, h, format!("{n:#x} bytes at {a:#x}"))); }
        }
        for (b, h, what) in &kept { if hash(b) != *h { return Err(what.clone()); } }
        Ok(())
    }));
    // the machine is gone
    for (b, h, what) in &kept { ensure!(hash(b) == *h, "{kind:?}: {what}, read by the host, changed while it held them"); }
    ctx.add("held-reads-compared", kept.len() as u64);
    if let Some(k) = kind { ctx.seen(crate::rng::mix(&[k as u64, kept.len() as u64, 77])); }
    count(ctx);
    Ok(())
}
