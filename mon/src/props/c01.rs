//! All engines against one reference, for terminating and failing programs.
use super::*;
use crate::common::*;
use crate::host::*;

pub fn parts() -> Vec<Part> { vec![("programs", 6, programs), ("faults", 3, faults), ("islands", 1, islands), ("loading", 1, loading), ("far", 1, far)] }

fn programs(ctx: &mut Ctx, rng: &mut Rng) -> V { run(ctx, rng, false) }
fn faults(ctx: &mut Ctx, rng: &mut Rng) -> V { run(ctx, rng, true) }

pub fn run(ctx: &mut Ctx, rng: &mut Rng, faults: bool) -> V {
    let xlen = crate::eng::xlen(rng, 8);
    let (isa, version) = isa_version(rng);
    let exec = rng.chance(1, 6);
    let s = match setup_with(rng, xlen, isa, version, |g, r| {
        g.faults = faults;
        if exec { g.calls.push(CALL_EXEC); }
        g.fuse_bias = r.chance(1, 4);
        g.mem_bias = r.chance(1, 3);
        g.amo_bias = r.chance(1, 5);
        g.long_loops = r.chance(1, 6);
    }) { Some(s) => s, None => { ctx.count("generator-overflow"); return Ok(()); } };
    compare(ctx, &s, s.kinds(), ALL)
}


/// many pieces of code, their addresses a bit apart
fn islands(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let s = scattered(rng, xlen, isa, version);
    compare(ctx, &s, s.kinds(), ALL)
}
pub fn scattered(rng: &mut Rng, xlen: u32, isa: u8, version: u32) -> Setup {
    let mem = *rng.pick(&[1usize << 20, 1 << 21, 4 << 20, 4 << 20, 11 << 18]);
    let at = crate::islands::spots(rng, mem as u64);
    let img = crate::islands::image(rng, xlen, isa, &at);
    let cfg = crate::eng::Cfg { isa, version, mem, max_cycles: u64::MAX, costs: costs(rng), keep_decoder: rng.chance(1, 2), chaos: None };
    Setup { cfg, xlen, img, images: vec![], accept_seed: rng.next(), nhandlers: 1, has_debugger: true, cycle_blind: false }
}

/// code the host loads while the program runs
fn loading(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let s = loader(rng, xlen, isa, version, &[CALL_LOG, CALL_ADD_NC, CALL_EXEC]);
    compare(ctx, &s, s.kinds(), ALL)
}
pub fn loader(rng: &mut Rng, xlen: u32, isa: u8, version: u32, calls: &[u64]) -> Setup {
    let mem = *rng.pick(&[1usize << 20, 1 << 21, 4 << 20, 7 << 18]);
    let img = crate::islands::loader(rng, xlen, mem as u64, calls);
    let cfg = crate::eng::Cfg { isa, version, mem, max_cycles: u64::MAX, costs: costs(rng), keep_decoder: rng.chance(1, 2), chaos: None };
    Setup { cfg, xlen, img, images: vec![], accept_seed: rng.next(), nhandlers: 1 + rng.us(2), has_debugger: true, cycle_blind: false }
}

/// code and data all over a memory of several gigabytes
fn far(ctx: &mut Ctx, rng: &mut Rng) -> V {
    if ctx.variant != "plain" || !rng.chance(1, 12) { return islands(ctx, rng); }
    let (isa, _) = isa_version(rng);
    let mem = *rng.pick(&[4usize << 30, 5 << 30, 6 << 30, 9 << 30]);
    let (at, data, main) = crate::islands::far_spots(rng, mem as u64);
    let mut img = crate::islands::image_from(rng, 64, isa, &at, data, main);
    if rng.chance(1, 2) { img.args = (0..1 + rng.us(4)).map(|_| { let n = rng.us(40); ckb_vm::Bytes::from(rng.bytes(n)) }).collect(); }
    let cfg = crate::eng::Cfg { isa, version: 2, mem, max_cycles: u64::MAX, costs: costs(rng), keep_decoder: rng.chance(1, 2), chaos: None };
    let s = Setup { cfg, xlen: 64, img, images: vec![], accept_seed: rng.next(), nhandlers: 1, has_debugger: true, cycle_blind: false };
    ctx.count("far-programs");
    compare(ctx, &s, s.kinds(), ALL)
}
