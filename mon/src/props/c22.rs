//! Dirty marks.
use super::*;
use crate::hist::*;

pub fn parts() -> Vec<Part> { vec![("histories", 6, histories), ("clean-churn", 4, churn)] }

fn histories(ctx: &mut Ctx, rng: &mut Rng) -> V { history(ctx, rng, W { clean: 15, full: 6, getf: 6, ..MIXED }, |s, _| { s.flags = false; s.dirty = Dirt::Rule; s.regs = false; }) }
fn churn(ctx: &mut Ctx, rng: &mut Rng) -> V {
    history(ctx, rng, W { run: 50, hload: 4, hstore: 5, hfill: 4, hloadw: 4, hstorew: 5, exec: 4, setf: 2, clrf: 2, getf: 10, clean: 40, init: 5, lr: 0, reset: 1, full: 8 }, |s, r| {
        s.flags = false;
        s.dirty = Dirt::Rule;
        s.regs = false;
        s.hot = true;
        s.calls = true;
        s.amo = *r.pick(&[5, 40]);
        s.mem = 1 << 18;
    })
}
