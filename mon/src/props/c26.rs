//! The 64-bit ARM assembly engine, interpreted instruction by instruction (src/arm.rs), under the
//! workloads of the other properties and against the same reference machine. Only built with the feature
//! `arm`, in which every assembly machine is an ARM one.
use super::*;
use crate::arm;
use std::sync::atomic::Ordering::Relaxed;

macro_rules! under {
    ($($f:ident, $p:literal, $part:literal;)*) => { $(fn $f(ctx: &mut Ctx, rng: &mut Rng) -> V {
        let f = cases_of($p).iter().find(|x| x.0 == $part).expect("part").2;
        let r = f(ctx, rng);
        seen(ctx);
        r
    })* }
}
under! {
    programs, "C01", "programs"; faults, "C01", "faults";
    batch, "C02", "batch"; jumps, "C02", "jumps"; ifaults, "C02", "faults";
    fused, "C04", "programs"; groups, "C04", "groups"; boundary, "C04", "boundary";
    permissions, "C05", "histories"; churn, "C05", "flag-churn";
    memory, "C07", "histories";
    reservations, "C18", "histories"; carried, "C18", "carried";
    dirty, "C22", "histories";
    ledger, "C09", "programs"; cut, "C09", "cut";
    raised, "C10", "raised"; tight, "C10", "tight"; wrap, "C10", "wrap";
    chains, "C11", "chains";
    requests, "C15", "requests"; threads, "C15", "threads"; endless, "C15", "endless";
    reset, "C16", "reset"; inside, "C16", "inside"; over, "C16", "over";
    dispatch, "C17", "dispatch";
    steps, "C19", "all-steps"; mixed, "C19", "mixed";
    corners, "C21", "corners";
    chaos, "C24", "programs"; chaoshost, "C24", "host";
    hostile, "C20", "sessions";
}

pub fn parts() -> Vec<Part> {
    vec![
        ("programs", 6, programs), ("faults", 4, faults),
        ("batch", 6, batch), ("jumps", 3, jumps), ("ifaults", 2, ifaults),
        ("fused", 2, fused), ("groups", 3, groups), ("boundary", 2, boundary),
        ("permissions", 4, permissions), ("churn", 2, churn), ("memory", 3, memory),
        ("reservations", 3, reservations), ("carried", 1, carried), ("dirty", 3, dirty),
        ("ledger", 2, ledger), ("cut", 2, cut), ("raised", 2, raised), ("tight", 2, tight), ("wrap", 2, wrap),
        ("chains", 1, chains), ("requests", 2, requests), ("threads", 1, threads), ("endless", 1, endless),
        ("reset", 1, reset), ("inside", 1, inside), ("over", 1, over), ("dispatch", 2, dispatch),
        ("steps", 3, steps), ("mixed", 2, mixed), ("corners", 2, corners),
        ("chaos", 2, chaos), ("chaoshost", 1, chaoshost), ("hostile", 3, hostile),
    ]
}

fn seen(ctx: &mut Ctx) {
    let (c, all) = arm::covered();
    ctx.max("max:arm-instructions-of-the-engine-covered", c as u64);
    ctx.max("max:arm-words-of-the-engine", all as u64);
    ctx.max("arm-instructions-interpreted", arm::INSTS.load(Relaxed));
    ctx.max("arm-engine-entries", arm::CALLS.load(Relaxed));
    ctx.max("arm-frame-initialisations", arm::INITS.load(Relaxed));
}
