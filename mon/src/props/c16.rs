//! Machines used again.
use super::*;
use crate::common::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use ckb_vm::Error;

pub fn parts() -> Vec<Part> { vec![("reset", 8, reset), ("inside", 4, inside), ("over", 4, over), ("scattered", 1, scattered), ("resumed", 2, resumed)] }

/// images that want the same addresses
fn family(rng: &mut Rng, xlen: u32, isa: u8, version: u32, mem: usize, n: usize, f: &dyn Fn(&mut G, &mut Rng)) -> Vec<Image> {
    let mut l = layout(rng, mem as u64);
    let mut v = vec![];
    for _ in 0..n * 4 {
        if v.len() == n { break; }
        let mut g = G::new(xlen, isa, version, mem as u64);
        g.size = *rng.pick(&[4usize, 10, 25, 60]);
        f(&mut g, rng);
        if rng.chance(1, 5) { l = layout(rng, mem as u64); }
        if let Some(i) = image_at(rng, &g, &l) { v.push(i); }
    }
    v
}
fn config(rng: &mut Rng, mem: usize, isa: u8, version: u32) -> Cfg { Cfg { isa, version, mem, max_cycles: u64::MAX, costs: if rng.chance(1, 5) { Costs::Zero } else { costs(rng) }, keep_decoder: rng.chance(2, 3), chaos: None } }

/// what a new machine with the given limit looks like
fn blank(e: &mut dyn Eng, s: &Setup, max: u64) -> V {
    let st = s.state();
    let m = RefMachine::new(s.xlen, s.cfg.isa, s.cfg.version, s.cfg.mem, max, s.cfg.costs, st);
    cmp_regs(e, &m)?;
    cmp_lr(e, &m)?;
    cmp_mem(e, &m, true)?;
    ensure!(e.cycles() == 0, "{} cycles", e.cycles());
    ensure!(e.max_cycles() == max, "cycle limit {}, expected {max}", e.max_cycles());
    ensure!(e.exit_code() == 0, "exit code {}", e.exit_code());
    ensure!(e.version() == s.cfg.version, "version {}", e.version());
    Ok(())
}

fn reset(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let mem = memory(rng);
    let n = 2 + rng.us(4);
    let imgs = family(rng, xlen, isa, version, mem, n, &|g, r| {
        g.faults = r.chance(1, 3);
        g.amo_bias = r.chance(1, 4);
        g.fuse_bias = r.chance(1, 4);
        g.long_loops = r.chance(1, 4);
        g.mem_bias = r.chance(1, 3);
        g.calls.extend_from_slice(&[CALL_YIELD, CALL_PAUSE, CALL_ERR, CALL_PROTECT, CALL_EXEC, CALL_STOP]);
    });
    if imgs.len() < 2 { return Ok(()); }
    let mut s = Setup { cfg: config(rng, mem, isa, version), xlen, img: imgs[0].clone(), images: vec![], accept_seed: rng.next(), nhandlers: 1 + rng.us(3), has_debugger: rng.chance(3, 4), cycle_blind: false };
    if rng.chance(1, 2) { s.images = family(rng, xlen, isa, version, mem, 2, &|g, _| { g.size = 12; }); }
    again(ctx, rng, &s, &imgs)
}
/// one image after the other on each engine, with resets in between
fn again(ctx: &mut Ctx, rng: &mut Rng, s: &Setup, imgs: &[Image]) -> V {
    let (xlen, mem, version) = (s.xlen, s.cfg.mem, s.cfg.version);
    let plan: Vec<(u64, u64, u64, u64)> = imgs.iter().map(|_| (rng.next(), rng.next(), rng.below(8), rng.below(8))).collect();
    for k in s.kinds() {
        let (mut e, est) = s.engine(*k);
        let mut trail = String::new();
        for (i, img) in imgs.iter().enumerate() {
            let (ps, rs, how, mess) = plan[i];
            let mut r = rng_of(ps);
            // the reference starts anew
            let (mut m, mst) = s.reference();
            { let mut h = est.lock().unwrap(); let p = h.pause.take(); *h = HostState::new(s.accept_seed, s.nhandlers, s.has_debugger); h.images = s.images.clone(); h.pause = p; }
            m.load(img).map_err(|_| "model refuses to load".to_string())?;
            let max = if how == 0 { r.below(3000) } else { u64::MAX };
            m.max_cycles = max;
            if i == 0 { e.set_max_cycles(max); } else { blank(&mut *e, s, max).map_err(|x| format!("{k:?} after reset: {x} [{trail}]"))?; }
            let b = e.load_program(&img.elf, &img.args).map_err(|x| format!("{k:?} fails to load program {i}: {x:?} [{trail}]"))?;
            let _ = b;
            cmp_regs(&*e, &m).map_err(|x| format!("{k:?} after loading program {i}: {x} [{trail}]"))?;
            cmp_lr(&*e, &m).map_err(|x| format!("{k:?} after loading program {i}: {x} [{trail}]"))?;
            cmp_mem(&mut *e, &m, true).map_err(|x| format!("{k:?} after loading program {i}: {x} [{trail}]"))?;
            let stop = m.run(BUDGET);
            if matches!(stop, RStop::Unknown(_)) || (m.high_pc && version < 2) { ctx.count("skipped"); return Ok(()); }
            let want = class_ref(&stop);
            if e.can_step() && how == 1 { e.set_running(true); for _ in 0..r.below(30) { if !e.running() || e.step().is_err() { break; } } ctx.count("ended-while-stepping"); }
            else {
                let res = run_through(&mut *e, &m, r.below(4) == 0);
                let got = class_of(&res);
                match want {
                    Class::Exit(_) => {
                        // a run given up at a pause ends early
                        if !matches!(res, Err(Error::Pause)) {
                            ensure!(got == want, "{k:?} ends program {i} with {res:?}, expected {stop:?} [{trail}]");
                            cmp_end(&mut *e, &est, &m, &mst, ALL).map_err(|x| format!("{k:?} after program {i}: {x} [{trail}]"))?;
                        }
                    }
                    _ => ensure!(!matches!(got, Class::Exit(_)), "{k:?} ends program {i} with {res:?}, expected {stop:?} [{trail}]"),
                }
                ctx.count(&format!("ended:{}", match got { Class::Exit(_) => "Exit".to_string(), c => format!("{c:?}") }));
            }
            trail.push_str(&format!(" {i}:{stop:?}"));
            // leave traces of every kind behind
            let mut r = rng_of(rs);
            if mess & 1 != 0 { for _ in 0..6 { e.set_reg(r.us(32), r.next() & if xlen == 32 { 0xffff_ffff } else { u64::MAX }); } e.set_lr(r.below(mem as u64)); }
            if mess & 2 != 0 { for _ in 0..6 { let p = r.below((mem as u64) / PAGE); let _ = e.set_flag(p, r.next() as u8); let _ = e.fill(r.below(mem as u64), r.below(9000), 0xa5); } }
            if mess & 4 != 0 { let _ = e.add_cycles_no_checking(r.below(100)); e.set_pc(r.next() & 0xffff); }
            let next_max = if i + 1 < imgs.len() && plan[i + 1].2 == 0 { let mut q = rng_of(plan[i + 1].0); q.below(3000) } else { u64::MAX };
            e.pause().free();
            e.reset(next_max).map_err(|x| format!("reset of {k:?} fails: {x:?}"))?;
            if i + 1 == imgs.len() { blank(&mut *e, s, next_max).map_err(|x| format!("{k:?} after the last reset: {x} [{trail}]"))?; }
            ctx.count("resets");
            ctx.seen(mix(&[signature(&m, *k as u64), i as u64, how, mess]));
        }
        if ctx.samples.len() < 2 { let d = s.describe(); ctx.sample(serde_json::json!({"engine": format!("{k:?}"), "setup": d, "programs": trail})); }
    }
    Ok(())
}
fn rng_of(s: u64) -> Rng { Rng::new(s) }

/// runs on through pauses and yields, or gives up at the first pause
fn run_through(e: &mut dyn Eng, m: &RefMachine, give_up: bool) -> Result<i8, Error> {
    let _ = m;
    for _ in 0..20_000 {
        match e.run() { Err(Error::Pause) if !give_up => {} x => return x }
    }
    Err(Error::Pause)
}

/// resets inside a syscall, onto the addresses of the running program
fn inside(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let mem = memory(rng);
    let imgs = family(rng, xlen, isa, version, mem, 1 + 3, &|g, r| {
        g.amo_bias = r.chance(1, 4);
        g.fuse_bias = r.chance(1, 4);
        g.size = 25;
        for _ in 0..8 { g.calls.push(CALL_EXEC); }
    });
    if imgs.len() < 2 { return Ok(()); }
    let s = Setup { cfg: config(rng, mem, isa, version), xlen, img: imgs[0].clone(), images: imgs[1..].to_vec(), accept_seed: rng.next(), nhandlers: 1 + rng.us(3), has_debugger: rng.chance(3, 4), cycle_blind: false };
    compare(ctx, &s, s.kinds(), ALL)?;
    ctx.seen(mix(&[rng.next()]));
    Ok(())
}

/// new code over old without a reset
fn over(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let mem = memory(rng);
    let imgs = family(rng, xlen, isa, version, mem, 3, &|g, r| { g.faults = r.chance(1, 4); g.fuse_bias = r.chance(1, 4); g.size = *r.pick(&[3, 8, 25]); });
    if imgs.len() < 2 { return Ok(()); }
    let mut cfg = config(rng, mem, isa, version);
    cfg.keep_decoder = false;
    let s = Setup { cfg, xlen, img: imgs[0].clone(), images: vec![], accept_seed: rng.next(), nhandlers: 1 + rng.us(2), has_debugger: rng.chance(3, 4), cycle_blind: false };
    for k in s.kinds() {
        let (mut m, mst) = s.reference();
        let (mut e, est) = s.engine(*k);
        for (i, img) in imgs.iter().enumerate() {
            for p in 0..(mem as u64) / PAGE { let f = m.vm.mem.flags[p as usize] & (EXEC | FREEZED); if f != 0 { let _ = m.vm.mem.clear_flag(p, f); e.clear_flag(p, f).map_err(|x| format!("clear_flag fails: {x:?}"))?; } }
            m.load(img).map_err(|_| "model refuses to load".to_string())?;
            e.load_program(&img.elf, &img.args).map_err(|x| format!("{k:?} fails to load program {i}: {x:?}"))?;
            let stop = m.run(BUDGET);
            if matches!(stop, RStop::Unknown(_)) || (m.high_pc && version < 2) { return Ok(()); }
            let r = e.run();
            let want = class_ref(&stop);
            match want {
                Class::Exit(_) => {
                    ensure!(class_of(&r) == want, "{k:?} ends program {i} loaded over another with {r:?}, expected {stop:?}");
                    cmp_end(&mut *e, &est, &m, &mst, Judge { flags: false, ..ALL }).map_err(|x| format!("{k:?} after program {i} loaded over another: {x}"))?;
                }
                _ => { ensure!(!matches!(class_of(&r), Class::Exit(_)), "{k:?} ends program {i} loaded over another with {r:?}, expected {stop:?}"); break; }
            }
            ctx.count("programs-loaded-over-others");
            ctx.seen(mix(&[signature(&m, *k as u64), i as u64, 9]));
        }
    }
    Ok(())
}

/// code in the same places, but other code
fn scattered(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let mut s = super::c01::scattered(rng, xlen, isa, version);
    s.cfg.keep_decoder = rng.chance(2, 3);
    if rng.chance(1, 5) { s.cfg.costs = Costs::Zero; }
    let mut at = crate::islands::spots(rng, s.cfg.mem as u64);
    let mut imgs = vec![];
    for _ in 0..2 + rng.us(2) {
        imgs.push(if rng.chance(1, 3) { crate::islands::loader(rng, xlen, s.cfg.mem as u64, &[CALL_LOG]) } else { crate::islands::image(rng, xlen, isa, &at) });
        if at.len() > 4 { let n = 1 + rng.us(at.len() - 2); at.truncate(n.max(2)); }
        if rng.chance(1, 3) { for a in at.iter_mut() { *a ^= 2; } }
    }
    s.img = imgs[0].clone();
    again(ctx, rng, &s, &imgs)
}

/// snapshots resumed by machines that ran something else before their reset
fn resumed(ctx: &mut Ctx, rng: &mut Rng) -> V {
    use crate::seg::*;
    let x = if rng.chance(1, 2) {
        let xlen = crate::eng::xlen(rng, 6);
        let (isa, version) = isa_version(rng);
        let mem = *rng.pick(&[1usize << 19, 1 << 20, 1 << 21]);
        let (n, st) = (6 + rng.us(30), rng.below(5));
        let img = crate::islands::touch(rng, xlen, mem as u64, n, st, &[CALL_LOG, CALL_YIELD]);
        let mut cfg = config(rng, mem, isa, version);
        cfg.costs = match cfg.costs { Costs::Hash { seed, lo: 0, span } => Costs::Hash { seed, lo: 1, span }, Costs::Zero => Costs::One, c => c };
        let s = Setup { cfg, xlen, img, images: vec![], accept_seed: rng.next(), nhandlers: 1, has_debugger: rng.chance(1, 2), cycle_blind: false };
        total(&s).map(|(t, _)| (s, t))
    } else if rng.chance(1, 4) { loading(rng, &[CALL_YIELD, CALL_LOG]) } else {
        finishing(rng, |g, r| { g.calls.retain(|c| *c != CALL_CLEAN); g.calls.extend_from_slice(&[CALL_YIELD, CALL_PAUSE]); g.mem_bias = r.chance(1, 2); g.size = 25; }, |_, _| {})
    };
    let (s, t) = match x { Some(x) => x, None => return Ok(()) };
    let p = *rng.pick(&[3, 8, 10]);
    let o = Opts { pauses: 1, flags: true, segments: 12, used: true, ..OPTS };
    let o = if s.cfg.version == 0 || rng.chance(1, 2) { Opts { snap1: p, ..o } } else { Opts { snap2: p, ..o } };
    for _ in 0..2 { let k = *rng.pick(s.kinds()); interrupted(ctx, rng, &s, t, k, s.kinds(), &o)?; }
    Ok(())
}
