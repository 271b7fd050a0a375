//! Reservations and atomics.
use super::*;
use crate::hist::*;
use crate::host::*;
use crate::seg::*;

pub fn parts() -> Vec<Part> { vec![("histories", 6, histories), ("carried", 4, carried)] }

fn histories(ctx: &mut Ctx, rng: &mut Rng) -> V {
    history(ctx, rng, W { run: 60, hload: 1, hstore: 4, hfill: 2, hloadw: 2, hstorew: 4, exec: 0, setf: 2, clrf: 2, getf: 0, clean: 1, init: 1, lr: 8, reset: 2, full: 5 }, |s, r| {
        s.flags = false;
        s.lr = true;
        s.hot = true;
        s.amo = 75;
        s.calls = r.chance(1, 3);
    })
}

/// runs cut anywhere, also between a reservation and its store, and carried on by other machines
fn carried(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let x = finishing(rng, |g, r| {
        g.calls.retain(|c| *c != CALL_CLEAN);
        g.calls.extend_from_slice(&[CALL_YIELD, CALL_PAUSE]);
        g.amo_bias = true;
        g.size = if r.chance(1, 2) { 25 } else { 50 };
    }, |_, _| {});
    let (s, t) = match x { Some(x) => x, None => return Ok(()) };
    let (p, base) = (*rng.pick(&[0, 5, 10]), rng.chance(1, 2));
    let o = Opts { pauses: 1, steps: 3, flags: false, host: 0, segments: 24, ..OPTS };
    let o = if base || s.cfg.version == 0 || rng.chance(1, 2) { Opts { snap1: p, base, ..o } } else { Opts { snap2: p, ..o } };
    for _ in 0..2 { let k = *rng.pick(s.kinds()); interrupted(ctx, rng, &s, t, k, s.kinds(), &o)?; }
    Ok(())
}
