//! Page snapshots.
use super::*;
use crate::ensure;
use crate::eng::*;
use crate::host::*;
use crate::rng::mix;
use crate::seg::*;

pub fn parts() -> Vec<Part> { vec![("chains", 10, chains), ("changes", 4, changes), ("versions", 1, versions)] }

fn chains(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let lo = rng.chance(1, 8);
    let x = if lo { loading(rng, &[CALL_YIELD, CALL_PAUSE, CALL_LOG]) } else { finishing(rng, |g, r| {
        g.calls.retain(|c| *c != CALL_CLEAN);
        g.calls.extend_from_slice(&[CALL_YIELD, CALL_PAUSE, CALL_PROTECT, CALL_ADD_NC, CALL_EXEC]);
        g.amo_bias = r.chance(1, 2);
        g.mem_bias = r.chance(1, 2);
        g.long_loops = r.chance(1, 4);
    }, |_, _| {}) };
    let (s, t) = match x { Some(x) => x, None => return Ok(()) };
    let o = Opts { pauses: 1, steps: if rng.chance(1, 3) { 2 } else { 0 }, snap1: *rng.pick(&[3, 8, 10]), flags: true, host: if lo { 0 } else { 1 }, segments: 14, ..OPTS };
    let n = 2;
    for _ in 0..n { let k = *rng.pick(s.kinds()); interrupted(ctx, rng, &s, t, k, s.kinds(), &o)?; }
    Ok(())
}

/// snapshots of another version are refused and leave the machine alone
fn versions(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (s, _) = match finishing(rng, |g, _| g.size = 15, |_, _| {}) { Some(x) => x, None => return Ok(()) };
    let (mut e, _) = s.engine(*rng.pick(s.kinds()));
    e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("fails to load: {x:?}"))?;
    let b = e.snap1().map_err(|x| format!("make_snapshot fails: {x:?}"))?;
    let mut snap: ckb_vm::snapshot::Snapshot = serde_json::from_slice(&b).unwrap();
    ensure!(snap.version == s.cfg.version, "snapshot of a version {} machine says version {}", s.cfg.version, snap.version);
    for v in [0u32, 1, 2, 3, 0x100 + s.cfg.version, u32::MAX] {
        for k in s.kinds() {
            let mut c = s.cfg;
            c.version = v.min(2);
            c.isa &= !ckb_vm::ISA_MOP;
            let st = s.state();
            let mut n = make(*k, &c, &st);
            snap.version = v;
            let r = n.resume1(&snap);
            let ok = v == c.version;
            ensure!(r.is_ok() == ok, "version {v} snapshot on a version {} {k:?}: {r:?}", c.version);
            if !ok {
                ensure!(matches!(r, Err(ckb_vm::Error::InvalidVersion)), "version {v} snapshot on a version {} {k:?}: {r:?}", c.version);
            }
            // the other way round: this machine's version against the snapshot's own
            snap.version = s.cfg.version;
            if c.version != s.cfg.version {
                let r = n.resume1(&snap);
                ensure!(matches!(r, Err(ckb_vm::Error::InvalidVersion)), "version {} snapshot on a version {} {k:?}: {r:?}", snap.version, c.version);
                ctx.count("versions-refused");
            }
        }
        ctx.seen(mix(&[v as u64, s.cfg.version as u64, s.xlen as u64, 5]));
    }
    Ok(())
}

/// snapshots that hold what changed since loading, on machines that loaded the program themselves
fn changes(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let x = finishing(rng, |g, r| {
        g.calls.retain(|c| *c != CALL_CLEAN);
        g.calls.extend_from_slice(&[CALL_YIELD, CALL_PAUSE, CALL_ADD_NC]);
        g.amo_bias = r.chance(1, 2);
        g.mem_bias = r.chance(1, 2);
        g.size = *r.pick(&[10, 25, 50]);
    }, |_, _| {});
    let (s, t) = match x { Some(x) => x, None => return Ok(()) };
    let o = Opts { pauses: 1, steps: if rng.chance(1, 3) { 2 } else { 0 }, snap1: *rng.pick(&[3, 8, 10]), flags: true, host: *rng.pick(&[0, 1, 4]), segments: 14, base: true, ..OPTS };
    for _ in 0..2 { let k = *rng.pick(s.kinds()); interrupted(ctx, rng, &s, t, k, s.kinds(), &o)?; }
    Ok(())
}
