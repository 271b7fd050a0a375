//! Cycle limits.
use super::*;
use crate::common::*;
use crate::ensure;
use crate::host::*;
use crate::refmach::*;
use crate::rng::mix;
use crate::seg::*;
use ckb_vm::Error;

pub fn parts() -> Vec<Part> { vec![("raised", 6, raised), ("tight", 3, tight), ("wrap", 3, wrap)] }

fn raised(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let x = if rng.chance(1, 8) { loading(rng, &[CALL_LOG, CALL_ADD_NC]) } else { finishing(rng, |g, r| {
        g.long_loops = r.chance(1, 2);
        g.fuse_bias = r.chance(1, 4);
        g.calls.extend_from_slice(&[CALL_LOG, CALL_ADD_NC, CALL_ADD_NC, CALL_EXEC]);
    }, |_, _| {}) };
    let (s, t) = match x { Some(x) => x, None => return Ok(()) };
    let o = Opts { segments: *rng.pick(&[5usize, 40, 200]), flags: true, ..OPTS };
    for k in s.kinds() { interrupted(ctx, rng, &s, t, *k, s.kinds(), &o)?; }
    Ok(())
}

/// limits at, just under and far under what the program needs; programs may fail otherwise
fn tight(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let mut s = match setup_with(rng, xlen, isa, version, |g, r| { g.calls.extend_from_slice(&[CALL_ADD, CALL_ADD_NC]); if r.chance(1, 2) { g.calls.push(CALL_STOP); } g.long_loops = r.chance(1, 3); }) { Some(s) => s, None => return Ok(()) };
    if rng.chance(1, 10) { s.cfg.costs = Costs::Zero; }
    s.cycle_blind = true;
    let t = match total(&s) { Some((t, _)) => t, None => return Ok(()) };
    for l in [t, t.saturating_sub(1), rng.below(t + 1), 0, t + 1] {
        s.cfg.max_cycles = l;
        let (mut m, mst) = s.reference();
        m.load(&s.img).map_err(|_| "model refuses to load".to_string())?;
        let stop = m.run(BUDGET);
        if matches!(stop, RStop::Unknown(_)) { continue; }
        let want = class_ref(&stop);
        // a host call reporting failure changes what the program does from there on
        ensure!((want == Class::Cycles) == (l < t), "model error: limit {l} total {t} {stop:?}");
        for k in s.kinds() {
            let (mut e, est) = s.engine(*k);
            e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
            let r = e.run();
            ensure!(class_of(&r) == want, "{k:?} ends with {r:?} under limit {l}; the program takes {t}");
            if want == Class::Cycles { ensure!(matches!(r, Err(Error::CyclesExceeded)), "{k:?} ends with {r:?} under limit {l}"); }
            let nc = { let s = est.lock().unwrap(); s.log.last().map_or(false, |x| matches!(x.regs[17], CALL_ADD_NC | CALL_STOP)) };
            ensure!(e.cycles() <= l || (nc && l < t), "{k:?}: {} cycles consumed under limit {l}", e.cycles());
            if k.is_interp() || want != Class::Cycles { ensure!(e.cycles() == m.cycles, "{k:?}: {} cycles consumed under limit {l}, expected {}", e.cycles(), m.cycles); cmp_log(&est, &mst, true).map_err(|x| format!("{k:?}: {x}"))?; }
            let over = est.lock().unwrap().over;
            ensure!(over == 0, "{k:?}: {over} host events with the counter over the limit {l}");
            ctx.count(if l < t { "refused" } else { "finished" });
        }
        ctx.seen(mix(&[signature(&m, l.min(9)), (l < t) as u64, s.cfg.version as u64]));
    }
    if ctx.samples.len() < 2 { let d = s.describe(); ctx.sample(serde_json::json!({"setup": d, "total": t})); }
    Ok(())
}

/// the counter near the end of its range
fn wrap(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let mut s = match setup_with(rng, xlen, isa, version, |g, _| g.size = 25) { Some(s) => s, None => return Ok(()) };
    s.cycle_blind = true;
    let big = rng.chance(2, 3);
    if big { let sh = rng.below(14); s.cfg.costs = Costs::Hash { seed: rng.next(), lo: 1, span: 1 << (63 - sh) }; }
    // the total as a wide number
    let t: u128 = {
        let mut f = match Follow::new(&s) { Ok(f) => f, Err(_) => return Ok(()) };
        f.st.lock().unwrap().keep_log = false;
        let (mut t, mut n) = (0u128, 0u64);
        while f.m.running {
            if n > BUDGET { return Ok(()); }
            f.m.cycles = 0;
            if f.step().is_err() { return Ok(()); }
            if f.host.is_some() { return Ok(()); }
            t += f.m.cycles as u128;
            n += 1;
        }
        if f.m.high_pc && version < 2 { return Ok(()); }
        t
    };
    for _ in 0..3 {
        let max = match rng.below(5) { 0 => u64::MAX - 1, 1 => rng.next(), 2 => u64::MAX - rng.below(1 << 20), _ => u64::MAX };
        let start = match rng.below(6) {
            0 => 0,
            1 => max,
            2 => (max as u128).saturating_sub(t) as u64,
            3 => ((max as u128 + 1).saturating_sub(t) as u64).min(max),
            4 => max - (rng.below(1 << 12)).min(max),
            _ => rng.below(max),
        };
        let end = start as u128 + t;
        for k in s.kinds() {
            let (mut e, est) = s.engine(*k);
            e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
            e.set_max_cycles(max);
            e.set_cycles(start);
            let r = e.run();
            let c = e.cycles();
            if end <= max as u128 {
                ensure!(matches!(r, Ok(_)), "{k:?} ends with {r:?} starting at {start:#x} of {max:#x} cycles with {t:#x} to go");
                ensure!(c as u128 == end, "{k:?} has consumed {c:#x}, expected {end:#x}");
                ctx.count("finished");
            } else {
                // blocks are charged whole, and every block of this run is executed whole: sums stay at or below `end`
                let nc = { let s = est.lock().unwrap(); s.log.last().map_or(false, |x| matches!(x.regs[17], CALL_ADD_NC | CALL_STOP)) };
                ensure!(class_of(&r) == Class::Cycles, "{k:?} ends with {r:?} starting at {start:#x} of {max:#x} cycles with {t:#x} to go");
                ensure!(c >= start && (c <= max || nc), "{k:?}: the counter went from {start:#x} to {c:#x} under the limit {max:#x}");
                if max == u64::MAX && !nc { ensure!(matches!(r, Err(Error::CyclesOverflow)), "{k:?} ends with {r:?} where the counter would wrap"); ctx.count("refused-as-overflow"); }
                else if end < 1 << 64 { ensure!(matches!(r, Err(Error::CyclesExceeded)), "{k:?} ends with {r:?} where the limit is exceeded"); ctx.count("refused-as-exceeded"); }
                else { ctx.count("refused-either-way"); }
                let over = est.lock().unwrap().over;
                ensure!(over == 0, "{k:?}: {over} host events with the counter over the limit");
            }
            // the host's own charges
            for _ in 0..4 {
                let (now, lim) = (*rng.pick(&[start, max, c]), *rng.pick(&[max, start, c, u64::MAX]));
                let n = match rng.below(5) { 0 => lim.wrapping_sub(now), 1 => (u64::MAX - now).wrapping_add(rng.below(3)), 2 => lim.wrapping_sub(now).wrapping_add(1), 3 => rng.below(1 << 20), _ => rng.next() };
                e.set_max_cycles(lim);
                e.set_cycles(now);
                let unchecked = rng.chance(1, 2);
                let r = if unchecked { e.add_cycles_no_checking(n) } else { e.add_cycles(n) };
                let sum = now as u128 + n as u128;
                let ok = match &r { Ok(()) => sum < 1 << 64 && (unchecked || sum <= lim as u128), Err(Error::CyclesOverflow) => sum >> 64 != 0, Err(Error::CyclesExceeded) => sum >> 64 == 0 && !unchecked && sum > lim as u128, _ => false };
                ensure!(ok, "{k:?}: charging {n:#x} cycles{} at {now:#x} of {lim:#x} gives {r:?}", if unchecked { " without a check" } else { "" });
                let after = if r.is_ok() { sum as u64 } else { now };
                ensure!(e.cycles() == after, "{k:?}: after charging {n:#x} cycles at {now:#x} of {lim:#x} ({r:?}) the counter is {:#x}", e.cycles());
                ctx.count("host-charges");
            }
        }
        ctx.seen(mix(&[(t >> 40) as u64, max >> 40, start >> 40, version as u64]));
    }
    Ok(())
}
