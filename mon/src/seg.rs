//! Runs cut into pieces: limits, pauses, yields, single steps and snapshots, with the reference
//! machine following from stop to stop.
use crate::common::*;
use crate::ctx::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::{mix, Rng};
use ckb_vm::{Bytes, Error};
use std::sync::{Arc, Mutex};

/// A reference machine that follows an engine.
pub struct Follow {
    pub m: RefMachine,
    pub st: Shared,
    /// the host call that stopped the machine last
    pub host: Option<HErr>,
    /// taken backward jumps since this was last set to zero
    pub back: u64,
    /// a pause request is outstanding, and how many more backward jumps it may take
    pub pending: bool,
    pub bound: u64,
    pub max_back: u64,
    pauses: u64,
}

impl Follow {
    pub fn new(s: &Setup) -> Result<Follow, LoadErr> {
        let (mut m, st) = s.reference();
        m.load(&s.img)?;
        m.max_cycles = u64::MAX;
        m.running = true;
        Ok(Follow { m, st, host: None, back: 0, pending: false, bound: u64::MAX, max_back: 0, pauses: 0 })
    }
    pub fn step(&mut self) -> V {
        let pc = self.m.vm.pc;
        self.host = None;
        match self.m.step() {
            Ok(()) => {}
            Err(RStop::Host(e)) => { self.m.vm.pc = if matches!(e, HErr::Yield | HErr::External(_)) { self.m.next_pc } else { self.m.vm.pc }; self.host = Some(e) }
            Err(e) => return Err(format!("the model stops with {e:?} at pc {:#x}", self.m.vm.pc)),
        }
        if self.m.vm.pc <= pc { self.back += 1; }
        if self.bound != u64::MAX {
            let p = self.st.lock().unwrap().pauses;
            if p > self.pauses && !self.pending { self.pending = true; self.back = 0; }
            self.pauses = p;
            if self.pending { self.max_back = self.max_back.max(self.back); ensure!(self.back <= self.bound, "a pause request was not honoured although {} backward jumps were taken since, now at pc {:#x}", self.back, self.m.vm.pc); }
        }
        Ok(())
    }
    /// goes on until `cycles` are consumed and the pc is `pc`
    pub fn to(&mut self, cycles: u64, pc: u64) -> V {
        let mut n = 0u64;
        while self.m.cycles != cycles || self.m.vm.pc != pc {
            ensure!(self.m.cycles <= cycles && self.m.running && n < 4 * BUDGET, "the machine stopped at pc {pc:#x} with {cycles} cycles, a state this program never reaches (model at pc {:#x} with {} cycles)", self.m.vm.pc, self.m.cycles);
            self.step()?;
            n += 1;
        }
        Ok(())
    }
    pub fn finish(&mut self) -> Result<i8, String> {
        let mut n = 0;
        while self.m.running {
            ensure!(n < 2 * BUDGET, "the model does not finish");
            self.step()?;
            n += 1;
        }
        Ok(self.m.exit)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    /// stop at cycle limits
    pub limits: bool,
    /// weights per segment, in tenths
    pub steps: u64,
    pub pauses: u64,
    pub snap1: u64,
    pub snap2: u64,
    /// host activity while suspended
    pub host: u64,
    pub regs: bool,
    pub mem: bool,
    pub flags: bool,
    pub lr: bool,
    pub cycles: bool,
    /// backward jumps a pause request may take to be honoured
    pub bound: u64,
    pub segments: usize,
    /// machines that carry on did something else before and were reset
    pub used: bool,
    /// snapshots hold what changed since the program was loaded, and go to machines that loaded it
    pub base: bool,
}
pub const OPTS: Opts = Opts { limits: true, steps: 0, pauses: 0, snap1: 0, snap2: 0, host: 0, regs: true, mem: true, flags: false, lr: true, cycles: true, bound: u64::MAX, segments: 40, used: false, base: false };

/// What an uninterrupted run amounts to; None when the program does not finish by itself.
pub fn total(s: &Setup) -> Option<(u64, u64)> {
    let mut f = Follow::new(s).ok()?;
    f.st.lock().unwrap().keep_log = false;
    if s.cfg.isa & ISA_MOP != 0 && s.cfg.version == 0 { return None; }
    let mut n = 0;
    while f.m.running { if n > BUDGET || f.step().is_err() { return None; } n += 1; }
    if f.m.high_pc && s.cfg.version < 2 { return None; }
    Some((f.m.cycles, f.m.insts))
}

pub fn cmp_flags(e: &mut dyn Eng, m: &RefMachine, mask: u8) -> V {
    for p in 0..m.vm.mem.flags.len() {
        let f = e.flag(p as u64).map_err(|x| format!("fetch_flag({p}) fails: {x:?}"))?;
        ensure!(f & mask == m.vm.mem.flags[p] & mask, "flags of page {p:#x}: {f:#x}, expected {:#x} (looking at {mask:#x})", m.vm.mem.flags[p]);
    }
    Ok(())
}

/// the parts of the state a suspended machine is judged by
pub fn cmp_state(e: &mut dyn Eng, f: &Follow, o: &Opts, deep: bool) -> V {
    if o.cycles { ensure!(e.cycles() == f.m.cycles, "cycles {}, expected {}", e.cycles(), f.m.cycles); }
    if o.regs { cmp_regs(&*e, &f.m)?; }
    if o.lr { cmp_lr(&*e, &f.m)?; }
    if deep && o.mem { cmp_mem(e, &f.m, false)?; }
    if deep && o.flags { cmp_flags(e, &f.m, !DIRTY)?; }
    Ok(())
}

/// Data items for tracked writes.
pub fn items(rng: &mut Rng, prog: &Bytes) -> (std::collections::HashMap<u32, Bytes>, u64) {
    let mut m = std::collections::HashMap::new();
    let off = if rng.chance(1, 2) { 0 } else { rng.below(5000) };
    let mut b = rng.bytes(off as usize);
    b.extend_from_slice(prog);
    let k = rng.us(3000);
    b.extend_from_slice(&rng.bytes(k));
    m.insert(0, Bytes::from(b));
    for id in 1..1 + rng.below(3) as u32 { let n = match rng.below(3) { 0 => rng.us(4096), 1 => 4096 * (1 + rng.us(5)), _ => rng.us(30000) }; m.insert(id, Bytes::from(rng.bytes(n))); }
    (m, off)
}

/// One engine (or a chain of engines, through snapshots) cut into pieces, then compared with the
/// uninterrupted reference.
pub fn interrupted(ctx: &mut Ctx, rng: &mut Rng, s: &Setup, tot: u64, first: Kind, chain: &[Kind], o: &Opts) -> V {
    let mut f = Follow::new(s).map_err(|_| "model refuses to load".to_string())?;
    let st = s.state();
    if o.snap1 + o.snap2 > 0 { st.lock().unwrap().protect_written = true; f.st.lock().unwrap().protect_written = true; }
    // a debugger that stops the run
    let err_at = if rng.chance(1, 2) { Some(1 + rng.below(3)) } else { None };
    st.lock().unwrap().ebreak_err_at = err_at;
    f.st.lock().unwrap().ebreak_err_at = err_at;
    let s2 = if o.snap2 > 0 {
        let (it, off) = items(rng, &s.img.elf);
        let x = Arc::new(Mutex::new(crate::s2::S2::new(it)));
        st.lock().unwrap().s2 = Some(x.clone());
        let src = x.lock().unwrap().src.clone();
        let y = Arc::new(Mutex::new(crate::s2::S2 { ctx: crate::s2::Ctx::new(src.clone()), src }));
        f.st.lock().unwrap().s2 = Some(y);
        Some((x, off))
    } else { None };
    let mut e = make(first, &s.cfg, &st);
    let mut trail = format!("{first:?}");
    match &s2 {
        None => { e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{first:?} fails to load: {x:?}"))?; }
        Some((x, off)) => {
            let meta = if s.xlen == 64 { ckb_vm::elf::parse_elf::<u64>(&s.img.elf, s.cfg.version) } else { ckb_vm::elf::parse_elf::<u32>(&s.img.elf, s.cfg.version) }.map_err(|x| format!("parse_elf fails: {x:?}"))?;
            e.load_with_meta(&s.img.elf, &meta, &[]).map_err(|x| format!("{first:?} fails to load: {x:?}"))?;
            let mut l = x.lock().unwrap();
            e.s2_mark(&mut l.ctx, &meta, 0, *off).map_err(|x| format!("mark_program fails: {x:?}"))?;
            drop(l);
            // arguments are written after the program was marked
            if !s.img.args.is_empty() || s.cfg.version == 0 { stack(s, &mut *e)?; }
        }
    }
    if o.base { clean(&mut *e)?; }
    let loose = o.host > 0 || o.snap2 > 0;
    let far = tot.saturating_mul(4).saturating_add(200_000);
    let mut limit = if !o.limits { tot.saturating_mul(4).saturating_add(200_000) } else { match rng.below(4) { 0 => tot, 1 => tot.saturating_sub(1), 2 => rng.below(tot + 1), _ => rng.below(tot / 8 + 1) } };
    e.set_max_cycles(limit);
    let mut requested = false; // by the host, before a run
    f.bound = if o.steps == 0 { o.bound } else { u64::MAX };
    let mut seen_pauses = 0u64; // guest-side requests known to the model at the last stop
    let mut segs = 0usize;
    let mut shift = rng.below(12);
    let fail = |msg: String, trail: &str| Err(format!("{msg} [{trail}]"));
    macro_rules! tr { ($x:expr, $t:expr) => { if let Err(m) = $x { return fail(m, &$t); } } }
    let code = loop {
        segs += 1;
        let last = segs > o.segments;
        if last { limit = limit.max(if loose { far } else { tot }); e.set_max_cycles(limit); }
        // ---- single steps
        if !last && e.can_step() && rng.below(10) < o.steps {
            let n = *rng.pick(&[1u64, 1, 2, 3, 8, 30, 100]);
            e.set_running(true);
            let mut done = false;
            let mut k = 0;
            trail.push_str(&format!(" step*{n}"));
            if o.pauses > 0 && rng.chance(1, 8) { ask(ctx, rng, &e.pause()); requested = true; ctx.count("requests-before-stepping"); }
            while k < n {
                let r = e.step();
                k += 1;
                match r {
                    Ok(()) => { tr!(f.step(), trail); ensure!(f.host.is_none(), "a step succeeds where the host call fails [{trail}]"); }
                    Err(Error::Yield) => { tr!(f.step(), trail); ensure!(f.host == Some(HErr::Yield), "unexpected Yield from step [{trail}]"); ctx.count("stops:Yield"); }
                    Err(Error::External(x)) => { tr!(f.step(), trail); ensure!(f.host == Some(HErr::External(x.clone())), "unexpected error {x:?} from step [{trail}]"); ctx.count("stops:External"); }
                    Err(Error::CyclesExceeded) if o.limits => {
                        // refused before it was executed, or taken over the limit by the call that does not check
                        if e.cycles() != f.m.cycles || e.pc() != f.m.vm.pc {
                            ensure!(f.m.vm.x[17] == CALL_ADD_NC && e.cycles() > limit, "a step refused for cycles under limit {limit} changed the machine: cycles {} pc {:#x}, expected {} {:#x} [{trail}]", e.cycles(), e.pc(), f.m.cycles, f.m.vm.pc);
                            tr!(f.step(), trail);
                        }
                        limit = limit.max(e.cycles()).saturating_add(1 + rng.below(3 + tot / 20));
                        e.set_max_cycles(limit);
                        ctx.count("stops:CyclesExceeded-in-step");
                    }
                    Err(x) => return fail(format!("step fails with {x:?} at pc {:#x}, model at {:#x}", e.pc(), f.m.vm.pc), &trail),
                }
                ctx.count("steps");
                tr!(cmp_state(&mut *e, &f, o, false).map_err(|m| format!("after step {k} (pc {:#x}, the model's {:#x}, cycles {}/{}): {m}", e.pc(), f.m.vm.pc, e.cycles(), f.m.cycles)), trail);
                if !f.m.running { done = true; break; }
            }
            if done {
                ensure!(!e.running(), "still running after the exit call [{trail}]");
                break e.exit_code();
            }
            ensure!(e.running(), "not running after {n} steps [{trail}]");
            continue;
        }
        // ---- host activity while suspended
        if !last && rng.below(10) < o.host { tr!(host_op(ctx, rng, s, &mut *e, &mut f, &s2, &mut trail), trail); }
        // ---- a run
        if !last && rng.below(10) < o.pauses { ask(ctx, rng, &e.pause()); requested = true; ctx.count("requests-before-running"); }
        let known_exceed = e.cycles() > limit;
        f.pending |= requested;
        f.back = 0;
        let r = e.run();
        ctx.count("runs");
        match r {
            Ok(c) => break c,
            Err(Error::CyclesExceeded) if o.limits && !(loose && last) => {
                trail.push_str(&format!(" limit@{limit}"));
                ctx.count("stops:CyclesExceeded");
                ensure!(limit < tot || loose || known_exceed || e.cycles() > limit, "stops at limit {limit} although the whole program takes {tot} cycles [{trail}]");
                tr!(f.to(e.cycles(), e.pc()), trail);
                if e.cycles() > limit { ensure!(known_exceed || f.m.vm.x[17] == CALL_ADD_NC, "the run took the counter to {} over the limit {limit} [{trail}]", e.cycles()); ctx.count("stops:over-limit-by-syscall"); }
                tr!(cmp_state(&mut *e, &f, o, rng.chance(1, 6)).map_err(|m| format!("stopped at the limit: {m}")), trail);
                if segs % 8 == 0 { shift = rng.below(12); }
                limit = match rng.below(8) { 0 => limit.max(tot), 1 => limit.saturating_add(1), 2 => limit.saturating_add(rng.below(20)), _ => limit.saturating_add(1 + rng.below(1 + (tot >> shift))) };
                if rng.chance(1, 5) { limit = limit.min(tot); }
                // sometimes run into the same wall again
                if rng.chance(15, 16) { e.set_max_cycles(limit); } else { limit = e.max_cycles(); }
            }
            Err(Error::Pause) => {
                trail.push_str(" pause");
                ctx.count("stops:Pause");
                tr!(f.to(e.cycles(), e.pc()), trail);
                let p = f.st.lock().unwrap().pauses;
                ensure!(requested || p > seen_pauses, "a pause nobody asked for [{trail}]");
                ensure!(!e.pause().has_interrupted(), "the pause request is still pending after the pause [{trail}]");
                requested = false;
                f.pending = false;
                seen_pauses = p;
                tr!(cmp_state(&mut *e, &f, o, rng.chance(1, 4)).map_err(|m| format!("paused: {m}")), trail);
            }
            Err(Error::Yield) => {
                trail.push_str(" yield");
                ctx.count("stops:Yield");
                f.host = None;
                tr!(f.to(e.cycles(), e.pc()), trail);
                ensure!(f.host == Some(HErr::Yield), "Yield at another place than the yielding call [{trail}]");
                tr!(cmp_state(&mut *e, &f, o, rng.chance(1, 4)).map_err(|m| format!("yielded: {m}")), trail);
            }
            Err(Error::External(x)) => {
                trail.push_str(&format!(" {x}"));
                ctx.count("stops:External");
                f.host = None;
                tr!(f.to(e.cycles(), e.pc()), trail);
                ensure!(f.host == Some(HErr::External(x.clone())), "the error {x:?} at another place than where it is raised [{trail}]");
                tr!(cmp_state(&mut *e, &f, o, rng.chance(1, 4)).map_err(|m| format!("stopped by an error: {m}")), trail);
            }
            Err(x) => {
                // what the host did may have led the program elsewhere: then the model must fail as well
                if loose && (f.finish().is_err() || f.m.cycles > limit) { ctx.count("abandoned"); return Ok(()); }
                return fail(format!("fails with {x:?} at pc {:#x}", e.pc()), &trail)
            }
        }
        // ---- carried over to another machine
        let swap1 = rng.below(10) < o.snap1;
        if swap1 || rng.below(10) < o.snap2 {
            let k = *rng.pick(chain);
            let (cy, mx) = (e.cycles(), e.max_cycles());
            let pending = e.pause().has_interrupted();
            let mut cfg = s.cfg;
            let any = rng.next();
            if rng.chance(1, 2) { cfg.max_cycles = *rng.pick(&[0u64, 1, tot / 2, any]); }
            let mut n = make(k, &cfg, &st);
            if rng.chance(1, 4) { n.set_cycles(rng.next() >> rng.below(64)); }
            if o.used { used(ctx, rng, s, &mut *n, &st).map_err(|m| format!("{m} [{trail}]"))?; }
            if swap1 {
                let bytes = e.snap1().map_err(|x| format!("make_snapshot fails: {x:?} [{trail}]"))?;
                let snap: ckb_vm::snapshot::Snapshot = serde_json::from_slice(&bytes).map_err(|x| format!("deserialising fails: {x:?}"))?;
                tr!(cmp_state(&mut *e, &f, o, true).map_err(|m| format!("taking the snapshot changed the machine: {m}")), trail);
                if o.base {
                    n.load_elf(&s.img.elf, true).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
                    stack(s, &mut *n)?;
                    clean(&mut *n)?;
                    ctx.count("snapshots-of-changes-only");
                }
                n.resume1(&snap).map_err(|x| format!("resume on {k:?} fails: {x:?} [{trail}]"))?;
                n.set_cycles(cy);
                n.set_max_cycles(mx);
                ctx.count(&format!("snapshots:{:?}->{k:?}", e.kind()));
                ctx.add("snapshot-pages", snap.pages.len() as u64);
            } else if let Some((x, _)) = &s2 {
                let snap = { let l = x.lock().unwrap(); e.s2_make(&l.ctx).map_err(|x| format!("make_snapshot fails: {x:?} [{trail}]"))? };
                tr!(cmp_state(&mut *e, &f, o, true).map_err(|m| format!("taking the snapshot changed the machine: {m}")), trail);
                ctx.add("pages-from-source", snap.pages_from_source.iter().map(|p| p.4 / PAGE).sum());
                ctx.add("pages-carried", snap.dirty_pages.iter().map(|p| p.2.len() as u64 / PAGE).sum());
                tr!(check_snap2(&snap, &f, &x.lock().unwrap().src), trail);
                let bytes = serde_json::to_vec(&snap).map_err(|x| format!("serialising fails: {x:?}"))?;
                let snap: ckb_vm::snapshot2::Snapshot2<u32> = serde_json::from_slice(&bytes).map_err(|x| format!("deserialising fails: {x:?}"))?;
                let mut l = x.lock().unwrap();
                // a new context, or the one used so far
                if rng.chance(1, 2) { let src = l.src.clone(); l.ctx = crate::s2::Ctx::new(src); }
                // or one that was used for another machine in between
                if rng.chance(1, 3) {
                    let mut z = make(*rng.pick(chain), &s.cfg, &s.state());
                    let meta = if s.xlen == 64 { ckb_vm::elf::parse_elf::<u64>(&s.img.elf, s.cfg.version) } else { ckb_vm::elf::parse_elf::<u32>(&s.img.elf, s.cfg.version) }.map_err(|x| format!("parse_elf fails: {x:?}"))?;
                    z.load_with_meta(&s.img.elf, &meta, &[]).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
                    z.s2_mark(&mut l.ctx, &meta, 0, s2.as_ref().unwrap().1).map_err(|x| format!("mark_program fails: {x:?}"))?;
                    // this other machine holds items where the one being resumed has nothing
                    let ms = s.cfg.mem as u64;
                    let (h, n) = heap(ms);
                    for _ in 0..rng.below(8) {
                        let mut p = s2_args(rng.next(), ms, &l.src.items);
                        if rng.chance(1, 2) { p.addr = h + PAGE * rng.below(n); p.len = 0; p.off = 0; p.size_addr = h; }
                        let _ = z.s2_store(&mut l.ctx, p.addr, p.id, p.off, p.len, p.size_addr);
                    }
                    ctx.count("contexts-used-for-two-machines");
                }
                n.s2_resume(&mut l.ctx, &snap).map_err(|x| format!("resume on {k:?} fails: {x:?} [{trail}]"))?;
                ensure!(n.cycles() == cy && n.max_cycles() == mx, "resumed with {} of {} cycles, expected {cy} of {mx} [{trail}]", n.cycles(), n.max_cycles());
                ctx.count(&format!("snapshots:{:?}->{k:?}", e.kind()));
            }
            trail.push_str(&format!(" ->{k:?}"));
            if pending { ask(ctx, rng, &n.pause()); }
            e = n;
            // looking at all of memory may hide what the guest would see first
            let deep = !o.used || rng.chance(1, 3);
            tr!(cmp_state(&mut *e, &f, o, deep).map_err(|m| format!("after resuming on {k:?}: {m}")), trail);
            ctx.seen(mix(&[k as u64, f.m.cycles, f.m.vm.pc]));
        }
        // every stop was judged on its own: this is a program that stops itself very often
        if segs > o.segments + 400 { ctx.count("cut-short"); return Ok(()); }
    };
    let want = match f.finish() { Ok(c) => c, Err(m) => return fail(m, &trail) };
    ensure!(code == want, "exit code {code}, expected {want} [{trail}]");
    tr!(cmp_state(&mut *e, &f, o, true).map_err(|m| format!("in the end: {m}")), trail);
    tr!(cmp_log(&st, &f.st, o.cycles), trail);
    if o.limits { let over = st.lock().unwrap().over; ensure!(over == 0, "{over} host events with the cycle counter over the limit [{trail}]"); }
    ctx.add("segments", segs as u64);
    ctx.max("max:segments-in-one-run", segs as u64);
    ctx.seen(mix(&[signature(&f.m, first as u64), segs as u64]));
    if ctx.samples.len() < 2 { let d = s.describe(); ctx.sample(serde_json::json!({"setup": d, "history": trail.chars().take(600).collect::<String>()})); }
    Ok(())
}

fn stack(s: &Setup, e: &mut dyn Eng) -> V {
    let ms = s.cfg.mem as u64;
    e.init_stack(&s.img.args, ms - ms / 4, ms / 4).map(|_| ()).map_err(|x| format!("initialize_stack fails: {x:?}"))
}
fn clean(e: &mut dyn Eng) -> V {
    for p in 0..e.mem_size() as u64 / PAGE { e.clear_flag(p, DIRTY).map_err(|x| format!("clear_flag: {x:?}"))?; }
    Ok(())
}

/// Something else runs on this machine, which is then reset.
fn used(ctx: &mut Ctx, rng: &mut Rng, s: &Setup, e: &mut dyn Eng, st: &Shared) -> V {
    let (n, w) = (1 + rng.us(12), rng.below(11));
    let img = crate::islands::touch(rng, s.xlen, s.cfg.mem as u64, n, w, &[]);
    let mine = { let mut h = HostState::new(s.accept_seed, s.nhandlers, s.has_debugger); let mut l = st.lock().unwrap(); h.pause = l.pause.take(); std::mem::replace(&mut *l, h) };
    let r = (|| {
        e.load_program(&img.elf, &[]).map_err(|x| format!("fails to load: {x:?}"))?;
        e.set_max_cycles(u64::MAX);
        if s.cfg.isa & ISA_MOP == 0 || s.cfg.version > 0 { e.run().map_err(|x| format!("a program of loads and stores fails: {x:?}"))?; }
        if rng.chance(1, 2) { e.fill(0x8000, s.cfg.mem as u64 - 0x8000, 0xa5).map_err(|x| format!("store_byte: {x:?}"))?; }
        if rng.chance(1, 4) { let a = rng.below(s.cfg.mem as u64 - PAGE); e.load_bytes(a, 8).map_err(|x| format!("load_bytes: {x:?}"))?; }
        e.reset(u64::MAX).map_err(|x| format!("reset fails: {x:?}"))
    })();
    { let mut l = st.lock().unwrap(); let p = l.pause.take(); *l = mine; l.pause = p; }
    ctx.count("resumed-by-used-machines");
    r
}

/// Host activity between runs, done alike on the engine and the model.
fn host_op(ctx: &mut Ctx, rng: &mut Rng, s: &Setup, e: &mut dyn Eng, f: &mut Follow, s2: &Option<(Arc<Mutex<crate::s2::S2>>, u64)>, trail: &mut String) -> V {
    let ms = s.cfg.mem as u64;
    let (h, n) = heap(ms);
    let at = h + PAGE * rng.below(n) + if rng.chance(1, 3) { 0 } else { rng.below(PAGE) };
    match rng.below(if s2.is_some() { 6 } else { 3 }) {
        0 => {
            let w = if rng.chance(1, 4) { 9000 } else { 40 }; let k = 1 + rng.us(w);
            let b = rng.bytes(k);
            let r = e.store_bytes(at, &b);
            let w = MOps(&mut f.m).store(at, &b);
            ensure!(r.is_ok() == w.is_ok(), "store_bytes({at:#x}, {k}) gives {r:?}, expected {w:?}");
            trail.push_str(&format!(" store({at:#x},{k})"));
        }
        1 => {
            let (mut at, mut k, v) = (at, 1 + rng.below(9000), *rng.pick(&[0x5au8, 0x5a, 0]));
            // whole pages back to zero
            if rng.chance(1, 3) { k = PAGE * (1 + rng.below(2)); at &= !(PAGE - 1); let d: Vec<u64> = s.img.segs.iter().filter(|x| x.flags & crate::enc::PF_W != 0).map(|x| x.vaddr & !(PAGE - 1)).collect(); if !d.is_empty() && rng.chance(1, 2) { at = *rng.pick(&d); } }
            let r = e.fill(at, k, v);
            let w = MOps(&mut f.m).fill(at, k, v);
            ensure!(r.is_ok() == w.is_ok(), "store_byte({at:#x}, {k}) gives {r:?}, expected {w:?}");
            trail.push_str(&format!(" fill({at:#x},{k})"));
        }
        2 => {
            let v = rng.next();
            let at = at & !7;
            let r = e.store_w(8, at, v & if s.xlen == 32 { 0xffff_ffff } else { u64::MAX });
            let w = MOps(&mut f.m).store_w(8, at, v & if s.xlen == 32 { 0xffff_ffff } else { u64::MAX });
            ensure!(r.is_ok() == w.is_ok(), "store64({at:#x}) gives {r:?}, expected {w:?}");
            trail.push_str(&format!(" store64({at:#x})"));
        }
        3 => {
            // flags of pages a snapshot knows about: written ones and tracked ones
            let p = (h / PAGE) + rng.below(n);
            let fl = *rng.pick(&[EXEC, FREEZED, EXEC | FREEZED]);
            let known = e.flag(p).map_err(|x| format!("{x:?}"))? & DIRTY != 0;
            if known || f.m.vm.mem.changed[p as usize] {
                if rng.chance(2, 3) { let _ = f.m.vm.mem.clear_flag(p, fl); e.clear_flag(p, fl).map_err(|x| format!("clear_flag: {x:?}"))?; trail.push_str(&format!(" clear({p:#x},{fl:#x})")); }
                else { let _ = f.m.vm.mem.set_flag(p, fl); e.set_flag(p, fl).map_err(|x| format!("set_flag: {x:?}"))?; trail.push_str(&format!(" set({p:#x},{fl:#x})")); }
            }
        }
        _ => if let Some((x, _)) = s2 {
            let p = { let l = x.lock().unwrap(); s2_args(rng.next(), ms, &l.src.items) };
            let r = { let mut l = x.lock().unwrap(); e.s2_store(&mut l.ctx, p.addr, p.id, p.off, p.len, p.size_addr) };
            let y = f.st.lock().unwrap().s2.clone().unwrap();
            let w = MOps(&mut f.m).s2_store(&y, &p);
            match (&r, &w) { (Ok(a), Ok(b)) => ensure!(a == b, "tracked store {p:x?} returns {a:?}, expected {b:?}"), _ => ensure!(r.is_ok() == w.is_ok(), "tracked store {p:x?} gives {r:?}, expected {w:?}") }
            trail.push_str(&format!(" s2({:#x},id{},{:#x}+{:#x})", p.addr, p.id, p.off, p.len));
            ctx.count("tracked-stores");
        },
    }
    ctx.count("host-operations-while-suspended");
    Ok(())
}

/// Pages taken from the source must be that slice of the source right now; nothing twice.
pub fn check_snap2(snap: &ckb_vm::snapshot2::Snapshot2<u32>, f: &Follow, src: &crate::s2::Src) -> V {
    let mut seen = std::collections::HashSet::new();
    for (addr, _, id, off, len) in &snap.pages_from_source {
        ensure!(addr % PAGE == 0 && len % PAGE == 0, "snapshot entry {addr:#x}+{len:#x} is not made of pages");
        let d = src.items.get(id).ok_or(format!("snapshot refers to item {id}"))?;
        ensure!(off + len <= d.len() as u64, "snapshot refers to bytes {off:#x}+{len:#x} of item {id} which has {:#x}", d.len());
        let (a, o, l) = (*addr as usize, *off as usize, *len as usize);
        ensure!(a + l <= f.m.vm.mem.bytes.len() && f.m.vm.mem.bytes[a..a + l] == d[o..o + l], "snapshot takes pages {addr:#x}+{len:#x} from item {id} at {off:#x}, but their content differs");
        for p in (a..a + l).step_by(PAGE as usize) { ensure!(seen.insert(p), "page {p:#x} twice in the snapshot"); }
    }
    for (addr, _, b) in &snap.dirty_pages {
        let a = *addr as usize;
        ensure!(a + b.len() <= f.m.vm.mem.bytes.len() && f.m.vm.mem.bytes[a..a + b.len()] == b[..], "carried page at {addr:#x} differs from memory");
        for p in (a..a + b.len()).step_by(PAGE as usize) { ensure!(seen.insert(p), "page {p:#x} twice in the snapshot"); }
    }
    Ok(())
}

/// A program that finishes, for cutting up.
pub fn finishing(rng: &mut Rng, f: impl Fn(&mut G, &mut Rng), adj: impl Fn(&mut Setup, &mut Rng)) -> Option<(Setup, u64)> {
    for _ in 0..8 {
        let xlen = crate::eng::xlen(rng, 6);
        let (isa, version) = isa_version(rng);
        let mut s = match setup_with(rng, xlen, isa, version, &f) { Some(s) => s, None => continue };
        // every instruction costs something, so that a cycle count names a state
        s.cfg.costs = match s.cfg.costs { Costs::Hash { seed, lo: 0, span } => Costs::Hash { seed, lo: 1, span }, c => c };
        adj(&mut s, rng);
        if let Some((t, n)) = total(&s) { if n > 5 { return Some((s, t)); } }
    }
    None
}

/// A program that has code loaded while it runs, and finishes by itself.
pub fn loading(rng: &mut Rng, calls: &[u64]) -> Option<(Setup, u64)> {
    for _ in 0..8 {
        let xlen = crate::eng::xlen(rng, 6);
        let (isa, version) = isa_version(rng);
        let mut s = crate::props::c01::loader(rng, xlen, isa, version, calls);
        s.cfg.costs = match s.cfg.costs { Costs::Hash { seed, lo: 0, span } => Costs::Hash { seed, lo: 1, span }, Costs::Zero => Costs::One, c => c };
        if let Some((t, n)) = total(&s) { if n > 5 { return Some((s, t)); } }
    }
    None
}
