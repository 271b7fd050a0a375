//! Syscalls and breakpoints.
use super::*;
use crate::common::*;
use crate::ensure;

use crate::host::*;
use crate::refmach::*;
use crate::rng::mix;
use ckb_vm::Error;

pub fn parts() -> Vec<Part> { vec![("dispatch", 10, dispatch)] }

fn dispatch(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 5);
    let (isa, version) = isa_version(rng);
    let mut s = match setup_with(rng, xlen, isa, version, |g, r| {
        g.size = *r.pick(&[15, 30, 60]);
        g.fuse_bias = r.chance(1, 5);
        g.long_loops = r.chance(1, 5);
        for _ in 0..6 { g.calls.extend_from_slice(&[CALL_LOG, 9999, CALL_YIELD, CALL_STORE, CALL_REGS, CALL_ADD, 9999]); }
        if r.chance(1, 2) { g.calls.extend_from_slice(&[CALL_ERR, CALL_ERR, CALL_ERRK, CALL_ERRK, CALL_ERRK, CALL_EXEC]); }
        if r.chance(1, 3) { g.calls.push(CALL_STOP); }
        if r.chance(1, 3) { g.calls.push(3000 + r.below(10)); }
        for n in ODD { if (xlen == 64 || *n < 1 << 31) && r.chance(1, 2) { g.calls.push(*n); } }
        // mostly calls
        g.call_bias = true;
    }) { Some(s) => s, None => return Ok(()) };
    s.nhandlers = *rng.pick(&[0usize, 1, 2, 3, 5]);
    s.has_debugger = rng.chance(3, 4);
    let err_at = if rng.chance(1, 2) { Some(1 + rng.below(6)) } else { None };
    let meddle = rng.chance(1, 2);
    let (mut m, mst) = s.reference();
    { let mut h = mst.lock().unwrap(); h.ebreak_err_at = err_at; h.meddle = meddle; }
    // a machine that is charged for something before it loads its program
    let before = if rng.chance(1, 3) { rng.next() >> (20 + rng.below(40)) } else { 0 };
    m.cycles = before;
    m.load(&s.img).map_err(|_| "model refuses to load".to_string())?;
    // the reference, stop by stop
    let mut engines: Vec<_> = s.kinds().iter().map(|k| { let (e, st) = s.engine(*k); { let mut h = st.lock().unwrap(); h.ebreak_err_at = err_at; h.meddle = meddle; } (e, st, true) }).collect();
    // a machine that loaded and ran the program before
    if rng.chance(1, 3) {
        for (e, st, _) in &mut engines {
            let k = e.kind();
            e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
            let inits: Vec<_> = st.lock().unwrap().log.iter().map(|x| x.kind.clone()).collect();
            let want: Vec<_> = mst.lock().unwrap().log.iter().map(|x| x.kind.clone()).collect();
            ensure!(inits == want, "{k:?}: events while loading {inits:?}, expected {want:?}");
            e.reset(s.cfg.max_cycles).map_err(|x| format!("{k:?}: reset fails: {x:?}"))?;
            let mut h = st.lock().unwrap();
            let p = h.pause.take();
            *h = HostState::new(s.accept_seed, s.nhandlers, s.has_debugger);
            h.images = s.images.clone();
            h.pause = p;
            h.ebreak_err_at = err_at;
            h.meddle = meddle;
        }
        ctx.count("loaded-twice");
    }
    for (e, _, _) in &mut engines { let k = e.kind(); e.set_cycles(before); e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?; }
    for stops in 0..200 {
        let stop = m.run(BUDGET);
        if matches!(stop, RStop::Unknown(_)) || (m.high_pc && version < 2) { ctx.count("skipped"); return Ok(()); }
        if let RStop::Host(HErr::Yield | HErr::External(_) | HErr::Kind(..)) = stop { m.vm.pc = m.next_pc; }
        for (e, st, _) in &mut engines {
            let k = e.kind();
            let r = e.run();
            let ok = match (&stop, &r) {
                (RStop::Exit(c), Ok(d)) => c == d,
                (RStop::InvalidEcall(n), Err(Error::InvalidEcall(x))) => n == x,
                (RStop::Host(HErr::Yield), Err(Error::Yield)) => true,
                (RStop::Host(HErr::External(a)), Err(Error::External(b))) => a == b,
                (RStop::Host(h @ HErr::Kind(..)), Err(x)) => to_err(h.clone()) == *x,
                (RStop::Exit(_) | RStop::InvalidEcall(_) | RStop::Host(_), _) => false,
                // faults and limits are judged elsewhere
                (_, Ok(_)) => false,
                _ => { ctx.count("other-endings"); continue }
            };
            ensure!(ok, "{k:?} stops with {r:?}, expected {stop:?} (stop #{stops})");
            let f = |x: String| format!("{k:?} at stop #{stops} ({stop:?}): {x}");
            cmp_log(st, &mst, true).map_err(f)?;
            ensure!(e.cycles() == m.cycles, "{k:?} at stop #{stops} ({stop:?}): cycles {}, expected {}", e.cycles(), m.cycles);
            for r in 0..32 { ensure!(e.reg(r) == m.vm.x[r], "{k:?} at stop #{stops} ({stop:?}): x{r}={:#x}, expected {:#x}", e.reg(r), m.vm.x[r]); }
            if matches!(stop, RStop::Exit(_) | RStop::Host(_)) { ensure!(e.pc() == m.vm.pc, "{k:?} at stop #{stops} ({stop:?}): pc {:#x}, expected {:#x}", e.pc(), m.vm.pc); }
            if stops % 5 == 0 || !matches!(stop, RStop::Host(_)) { cmp_mem(&mut **e, &m, false).map_err(f)?; }
        }
        ctx.count(&format!("stops:{}", match &stop { RStop::Exit(_) => "exit", RStop::InvalidEcall(_) => "unclaimed", RStop::Host(HErr::Yield) => "yield", RStop::Host(_) => "error-from-host", _ => "other" }));
        if let RStop::Exit(c) = stop { ctx.seen(mix(&[c as u64, 2])); }
        ctx.seen(mix(&[signature(&m, stops), mst.lock().unwrap().events, s.nhandlers as u64]));
        if !matches!(stop, RStop::Host(HErr::Yield | HErr::External(_) | HErr::Kind(..))) { break; }
    }
    let h = mst.lock().unwrap();
    ctx.add("ecalls-offered", h.log.iter().filter(|x| matches!(x.kind, EvKind::Ecall(_))).count() as u64);
    ctx.add("breakpoints", h.log.iter().filter(|x| x.kind == EvKind::Ebreak).count() as u64);
    ctx.add("initialisations", h.log.iter().filter(|x| matches!(x.kind, EvKind::Init(_) | EvKind::DebugInit)).count() as u64);
    if ctx.samples.len() < 2 { let d = s.describe(); ctx.sample(serde_json::json!({"setup": d, "events": h.events})); }
    Ok(())
}
