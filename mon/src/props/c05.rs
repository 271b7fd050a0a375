//! Writable xor executable, always.
use super::*;
use crate::hist::*;
use crate::refiss::*;

pub fn parts() -> Vec<Part> { vec![("histories", 6, histories), ("flag-churn", 3, churn), ("loading", 1, loading)] }

fn judge(s: &mut Spec) { s.flags = false; s.dirty = Dirt::Ignore; s.lr = false; s.regs = false; }
fn histories(ctx: &mut Ctx, rng: &mut Rng) -> V { history(ctx, rng, W { run: 50, setf: 9, clrf: 5, init: 6, exec: 6, reset: 2, ..MIXED }, |s, _| judge(s)) }
/// permissions change between almost any two accesses, on few pages
fn churn(ctx: &mut Ctx, rng: &mut Rng) -> V {
    history(ctx, rng, W { run: 50, hload: 0, hloadw: 1, getf: 0, setf: 20, clrf: 14, init: 6, exec: 6, reset: 3, hstore: 8, hfill: 6, hstorew: 8, clean: 0, lr: 0, full: 5 }, |s, r| {
        judge(s);
        s.hot = true;
        s.calls = true;
        s.mem = 1 << 18;
        s.amo = if r.chance(1, 3) { 50 } else { 10 };
        s.isa |= ISA_A;
    })
}

/// code the host maps in while the program runs: executable and frozen from then on, refused whole
/// where any page is frozen already
fn loading(ctx: &mut Ctx, rng: &mut Rng) -> V {
    use crate::common::*;
    use crate::host::*;
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let s = super::c01::loader(rng, xlen, isa, version, &[CALL_LOG, CALL_ADD_NC, CALL_CODE]);
    compare(ctx, &s, s.kinds(), Judge { cycles: false, lr: false, ..ALL })
}
