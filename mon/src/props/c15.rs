//! Pausing.
use super::*;
use crate::common::*;
use crate::enc::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use crate::seg::*;
use ckb_vm::{Bytes, Error};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub fn parts() -> Vec<Part> { vec![("requests", 8, requests), ("threads", 5, threads), ("endless", 3, endless), ("handles", 2, handles)] }

/// requests before runs and from inside runs, honoured within a few backward jumps, nothing lost
fn requests(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let x = finishing(rng, |g, r| {
        g.long_loops = r.chance(2, 3);
        g.fuse_bias = r.chance(1, 5);
        for _ in 0..6 { g.calls.push(CALL_PAUSE); }
        g.calls.push(CALL_YIELD);
        g.calls.push(CALL_EXEC);
    }, |_, _| {});
    let (s, t) = match x { Some(x) => x, None => return Ok(()) };
    let o = Opts { pauses: *rng.pick(&[0, 2, 9]), limits: rng.chance(1, 3), bound: 16, segments: 60, flags: true, ..OPTS };
    for k in s.kinds() { interrupted(ctx, rng, &s, t, *k, s.kinds(), &o)?; }
    Ok(())
}

/// a guest that counts down in a loop of `body` instructions and then exits
fn looping(rng: &mut Rng, xlen: u32, isa: u8, version: u32, n: u64) -> Image {
    let mut a = Asm::new(xlen == 64);
    a.li(18, n);
    for r in [10u8, 11, 12, 13, 14] { let v = rng.value(); a.li(r, v); }
    let style = rng.below(5);
    let l = a.label();
    let f = a.label();
    a.bind(l);
    let ops = alu_ops(xlen, isa);
    let mut body = |a: &mut Asm, rng: &mut Rng, n: u64| for _ in 0..n { let op = *rng.pick(&ops); let (d, x, y) = (*rng.pick(&[10u8, 11, 12, 13, 14]), *rng.pick(&[10u8, 11, 12, 13, 14]), *rng.pick(&[10u8, 11, 12, 13, 14])); let i = alu_inst(rng, op, d, x, y, xlen); a.inst(i, true); };
    let k = rng.below(6);
    body(&mut a, rng, k);
    match style {
        0 => {}
        1 => { a.jal(1, f); }
        2 => { let m = a.label(); a.br(Op::BLT, 10, 11, m); body(&mut a, rng, 2); a.bind(m); }
        3 => { a.la(5, f); a.i(Op::JALR, 1, 5, 0, 0); }
        _ => body(&mut a, rng, 30),
    }
    a.i(Op::ADDI, 18, 18, 0, -1);
    a.br(Op::BNE, 18, 0, l);
    a.i(Op::XOR, 10, 10, 11, 0);
    a.i(Op::ADDI, 17, 0, 0, 93);
    a.ecall();
    a.bind(f);
    body(&mut a, rng, 3);
    a.i(Op::JALR, 0, 1, 0, 0);
    let base = 0x10000 + if version == 0 { 0 } else { 2 * rng.below(0x1000) };
    let blob = a.assemble(base);
    let segs = vec![Seg { vaddr: base, memsz: blob.bytes.len() as u64, data: blob.bytes, flags: PF_R | PF_X }];
    Image { elf: Bytes::from(build_elf(xlen == 64, base, &segs)), segs, entry: base, args: vec![] }
}
fn loop_setup(rng: &mut Rng, n: u64) -> Setup {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let img = looping(rng, xlen, isa, version, n);
    let cfg = Cfg { isa, version, mem: 1 << 18, max_cycles: u64::MAX, costs: *rng.pick(&[Costs::One, Costs::Published]), keep_decoder: rng.chance(1, 2), chaos: None };
    Setup { cfg, xlen, img, images: vec![], accept_seed: 1, nhandlers: 1, has_debugger: false, cycle_blind: false }
}

/// several threads asking at arbitrary moments of one run
fn threads(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let n = 2000 + rng.below(if ctx.variant == "plain" { 20_000 } else { 3000 });
    let mut s = loop_setup(rng, n);
    // the counter may stand still
    if rng.chance(1, 4) { s.cfg.costs = Costs::Zero; }
    let mut f = Follow::new(&s).map_err(|_| "model refuses to load".to_string())?;
    let mut guard = 0u64;
    while f.m.running && guard < 3_000_000 { f.step()?; guard += 1; }
    if f.m.running { return Ok(()); }
    let mut kinds = s.kinds().to_vec();
    if rng.chance(1, 2) { let k = rng.us(kinds.len()); kinds.swap(0, k); kinds.truncate(1 + rng.us(2)); }
    for k in kinds {
        let (mut e, st) = s.engine(k);
        e.load_program(&s.img.elf, &[]).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        let stop = Arc::new(AtomicBool::new(false));
        let sent = Arc::new(AtomicU64::new(0));
        let nt = 1 + rng.us(3);
        let hs: Vec<_> = (0..nt).map(|_| {
            let (p, stop, sent, seed) = (e.pause(), stop.clone(), sent.clone(), rng.next());
            std::thread::spawn(move || {
                let mut r = Rng::new(seed);
                let mut own = 0u64;
                while !stop.load(Ordering::Acquire) && own < 300 {
                    // counted before it is made: a pause can never precede its request
                    sent.fetch_add(1, Ordering::SeqCst);
                    p.interrupt();
                    own += 1;
                    match r.below(4) { 0 => std::thread::yield_now(), 1 => std::thread::sleep(Duration::from_micros(r.below(200))), 2 => { let _ = p.has_interrupted(); } _ => for _ in 0..r.below(3000) { std::hint::spin_loop(); } }
                }
            })
        }).collect();
        let mut pauses = 0u64;
        let r = loop {
            match e.run() {
                Err(Error::Pause) => { pauses += 1; if pauses > 1_000_000 { break Err(Error::Unexpected("harness: endless pauses".into())); } if sent.load(Ordering::SeqCst) < pauses { break Err(Error::Unexpected("harness: more pauses than requests".into())); } }
                x => break x,
            }
        };
        stop.store(true, Ordering::Release);
        for h in hs { h.join().map_err(|_| "HARNESS thread died".to_string())?; }
        let total = sent.load(Ordering::SeqCst);
        ensure!(pauses <= total, "{k:?}: {pauses} pauses for {total} requests");
        ensure!(matches!(r, Ok(c) if c == f.m.exit), "{k:?} ends with {r:?} after {pauses} pauses, expected {}", f.m.exit);
        cmp_end(&mut *e, &st, &f.m, &f.st, ALL).map_err(|x| format!("{k:?} after {pauses} pauses for {total} requests: {x}"))?;
        // a request after the end waits for the next run
        ask(ctx, rng, &e.pause());
        cmp_end(&mut *e, &st, &f.m, &f.st, ALL).map_err(|x| format!("{k:?} after a late request: {x}"))?;
        e.reset(u64::MAX).map_err(|x| format!("reset fails: {x:?}"))?;
        e.load_program(&s.img.elf, &[]).map_err(|x| format!("{k:?} fails to load again: {x:?}"))?;
        let mut late = 0;
        let r = loop { match e.run() { Err(Error::Pause) => { late += 1; if late > 2 { break Err(Error::Pause); } } x => break x } };
        ensure!(late <= 1, "{k:?}: {late} pauses for at most one outstanding request");
        ensure!(late == 1, "{k:?}: a request made before the run was not honoured");
        ensure!(matches!(r, Ok(c) if c == f.m.exit) && e.cycles() == f.m.cycles, "{k:?} run again ends with {r:?} and {} cycles, expected {} and {}", e.cycles(), f.m.exit, f.m.cycles);
        ctx.add("requests-from-threads", total);
        ctx.add("pauses-taken", pauses);
        ctx.max("max:pauses-in-one-run", pauses);
        ctx.seen(mix(&[k as u64, pauses, nt as u64]));
    }
    Ok(())
}

/// a guest that never ends must stop for one request
fn endless(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let mut s = loop_setup(rng, 0);
    // the counter starts at zero and wraps: as good as endless
    if s.xlen == 32 { s = loop { let t = loop_setup(rng, 0); if t.xlen == 64 { break t; } }; }
    if rng.chance(1, 3) {
        let mut a = Asm::new(true);
        match rng.below(3) {
            0 => { let l = a.label(); a.bind(l); a.jal(0, l); }
            1 => { let l = a.label(); a.bind(l); a.br(Op::BEQ, 0, 0, l); }
            _ => { let l = a.label(); a.la(5, l); a.bind(l); a.i(Op::JALR, 0, 5, 0, 0); }
        }
        let blob = a.assemble(0x10000);
        s.img.segs = vec![Seg { vaddr: 0x10000, memsz: blob.bytes.len() as u64, data: blob.bytes, flags: PF_R | PF_X }];
        s.img.entry = 0x10000;
        s.img.elf = Bytes::from(build_elf(true, 0x10000, &s.img.segs));
    }
    s.cfg.costs = Costs::One;
    let slice = if ctx.variant == "plain" { 3_000_000 } else { 200_000 };
    let ks = s.kinds().to_vec();
    for _ in 0..2 {
        let k = *rng.pick(&ks);
        let (mut e, _) = s.engine(k);
        e.load_program(&s.img.elf, &[]).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        let done = Arc::new(AtomicBool::new(false));
        let wait = rng.below(3000);
        let early = rng.chance(1, 5);
        let (p, d) = (e.pause(), done.clone());
        let h = std::thread::spawn(move || { if !early { std::thread::sleep(Duration::from_micros(wait)); } p.interrupt(); d.store(true, Ordering::SeqCst); });
        let mut limit = 0u64;
        let mut slices = 0u64;
        loop {
            limit += slice;
            e.set_max_cycles(limit);
            let before = done.load(Ordering::SeqCst);
            match e.run() {
                Err(Error::Pause) => break,
                Err(Error::CyclesExceeded) => { ensure!(!before, "{k:?} ran {slice} cycles after a pause was requested and did not stop"); }
                x => return Err(format!("{k:?} ends with {x:?} in an endless loop")),
            }
            slices += 1;
        }
        h.join().map_err(|_| "HARNESS thread died".to_string())?;
        ensure!(!e.pause().has_interrupted(), "{k:?}: the request is still pending after the pause");
        // and goes on afterwards
        let c = e.cycles();
        e.set_max_cycles(c + 20_000);
        let r = e.run();
        ensure!(matches!(r, Err(Error::CyclesExceeded)) && e.cycles() > c + 10_000, "{k:?} does not go on after the pause: {r:?}");
        ctx.count("endless-guests-stopped");
        ctx.add("slices-before-the-pause", slices);
        ctx.seen(mix(&[k as u64, slices, s.img.elf.len() as u64, 3]));
    }
    Ok(())
}

/// whose handle stops whom
fn handles(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let n = 20 + rng.below(200);
    let s = loop_setup(rng, n);
    let mut f = Follow::new(&s).map_err(|_| "model refuses to load".to_string())?;
    while f.m.running { f.step()?; }
    let ks = s.kinds();
    let (k1, k2) = (*rng.pick(ks), *rng.pick(ks));
    let (mut a, _) = s.engine(k1);
    let (mut b, bst) = s.engine(k2);
    for e in [&mut a, &mut b] { e.load_program(&s.img.elf, &[]).map_err(|x| format!("fails to load: {x:?}"))?; }
    let shared = rng.chance(1, 2);
    if shared { let p = a.pause(); b.set_pause(p); }
    let old = b.pause();
    ask(ctx, rng, &a.pause());
    ensure!(old.has_interrupted() == shared, "a request to one machine shows on the handle of another: {}", old.has_interrupted());
    let r = b.run();
    if shared {
        ensure!(matches!(r, Err(Error::Pause)), "{k2:?} with a shared handle ends with {r:?} although a pause was requested");
        ensure!(!a.pause().has_interrupted(), "the request is still pending after it was taken");
        let r = b.run();
        ensure!(matches!(r, Ok(c) if c == f.m.exit), "{k2:?} run again ends with {r:?}");
    } else {
        ensure!(matches!(r, Ok(c) if c == f.m.exit), "{k2:?} ends with {r:?} although only another machine was asked to pause");
        let r = a.run();
        ensure!(matches!(r, Err(Error::Pause)), "{k1:?} ends with {r:?} although a pause was requested");
        // taken back
        a.pause().interrupt();
        a.pause().free();
    }
    let r = a.run();
    ensure!(matches!(r, Ok(c) if c == f.m.exit) && a.cycles() == f.m.cycles, "{k1:?} ends with {r:?} and {} cycles, expected {} and {}", a.cycles(), f.m.exit, f.m.cycles);
    cmp_end(&mut *b, &bst, &f.m, &f.st, ALL).map_err(|x| format!("{k2:?}: {x}"))?;
    ctx.count(if shared { "shared-handles" } else { "separate-handles" });
    ctx.seen(mix(&[k1 as u64, k2 as u64, shared as u64, 4]));
    Ok(())
}
