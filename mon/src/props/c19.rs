//! Single steps.
use super::*;
use crate::common::*;
use crate::eng::*;
use crate::host::*;
use crate::seg::*;

pub fn parts() -> Vec<Part> { vec![("all-steps", 5, all_steps), ("mixed", 5, mixed)] }

fn prog(rng: &mut Rng) -> Option<(Setup, u64)> {
    if rng.chance(1, 8) { return loading(rng, &[CALL_YIELD, CALL_LOG]); }
    finishing(rng, |g, r| {
        g.fuse_bias = r.chance(1, 3);
        g.amo_bias = r.chance(1, 5);
        g.calls.extend_from_slice(&[CALL_YIELD, CALL_PAUSE, CALL_ADD_NC, CALL_EXEC, CALL_ERR]);
        g.size = *r.pick(&[10, 25, 60]);
    }, |_, _| {})
}
fn steppers(s: &Setup) -> Vec<Kind> { s.kinds().iter().copied().filter(|k| !k.is_trace()).collect() }

fn all_steps(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (s, t) = match prog(rng) { Some(x) => x, None => return Ok(()) };
    let o = Opts { steps: 10, pauses: 2, limits: rng.chance(1, 3), flags: true, segments: 1_000_000, ..OPTS };
    for k in steppers(&s) { interrupted(ctx, rng, &s, t, k, &[], &o)?; }
    Ok(())
}
fn mixed(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (s, t) = match prog(rng) { Some(x) => x, None => return Ok(()) };
    let o = Opts { steps: 5, pauses: 2, flags: true, segments: 40, ..OPTS };
    for k in steppers(&s) { interrupted(ctx, rng, &s, t, k, &[], &o)?; }
    Ok(())
}
