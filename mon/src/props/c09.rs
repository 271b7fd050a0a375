//! Cycles.
use super::*;
use crate::common::*;
use crate::ensure;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use crate::seg::*;

pub fn parts() -> Vec<Part> { vec![("programs", 6, programs), ("cut", 5, cut), ("table", 1, table)] }

/// cycles at every host event and in the end, on every engine
fn programs(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 8);
    let (isa, version) = isa_version(rng);
    let mut s = match setup_with(rng, xlen, isa, version, |g, r| {
        g.fuse_bias = r.chance(1, 3);
        g.long_loops = r.chance(1, 2);
        let k = g.calls.len();
        for _ in 0..k / 2 { g.calls.push(CALL_LOG); g.calls.push(9999); }
        g.calls.extend_from_slice(&[CALL_ADD, CALL_ADD_NC, CALL_EXEC]);
    }) { Some(s) => s, None => return Ok(()) };
    // instructions that cost more than 32 bits can hold
    if rng.chance(1, 6) { s.cfg.costs = crate::refmach::Costs::Hash { seed: rng.next(), lo: 0, span: *rng.pick(&[1 << 33, 1 << 40, 1 << 48]) }; }
    compare(ctx, &s, s.kinds(), Judge { cycles: true, flags: false, mem: false, lr: false, fail_regs: false, fail_kind: false })
}
/// the same with the run cut into pieces by everything that can cut it
fn cut(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let x = finishing(rng, |g, r| { g.fuse_bias = r.chance(1, 3); g.long_loops = r.chance(1, 3); g.calls.extend_from_slice(&[CALL_ADD_NC, CALL_YIELD, CALL_PAUSE, CALL_EXEC, CALL_LOG, 9999]); }, |_, _| {});
    let (s, t) = match x { Some(x) => x, None => return Ok(()) };
    let o = Opts { steps: 3, pauses: 2, snap1: 0, mem: false, lr: false, segments: 12, ..OPTS };
    for k in s.kinds() { interrupted(ctx, rng, &s, t, *k, s.kinds(), &o)?; }
    Ok(())
}
/// the published costs
fn table(ctx: &mut Ctx, rng: &mut Rng) -> V {
    use ckb_vm::ckb_vm_definitions::instructions as d;
    let mut want = std::collections::HashMap::new();
    for o in ALL_OPS { want.insert(format!("{o:?}"), cost(*o)); }
    for f in ALL_FUSED { want.insert(fused_name(*f).to_string(), fused_cost(*f)); }
    for op in d::MINIMAL_OPCODE..=d::MAXIMUM_OPCODE {
        let n = vm_name(op);
        // everything but the operation is operands
        let i = ckb_vm::instructions::set_instruction_length_4(((op >> 8) as u64) << 16 | (op & 0xff) as u64);
        let mut junk = rng.next();
        for i in [i, { junk &= !0xff00_00ffu64 & !0xff_0000; i | (junk & 0xffff_ffff_0000_ff00) }] {
            if ckb_vm::instructions::extract_opcode(i) != op { continue; }
            if let Some(w) = want.get(&n) {
                let c = ckb_vm::cost_model::estimate_cycles(i);
                ensure!(c == *w, "{n} is charged {c}, its published cost is {w}");
                ensure!(ckb_vm::cost_model::constant_cycles(i) == 1, "constant cost of {n} is not 1");
                ctx.count("operations-priced");
                ctx.seen(mix(&[op as u64, 77]));
            } else { ctx.count(&format!("no-published-cost:{n}")); }
        }
    }
    Ok(())
}
