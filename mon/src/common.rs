//! Running images on the reference and on engines, and comparing what was observed.
use crate::ctx::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::{mix, Rng};
use ckb_vm::Error;
use std::sync::{Arc, Mutex};

pub const BUDGET: u64 = 60_000;

/// Everything a run is parameterised by.
#[derive(Clone, Debug)]
pub struct Setup {
    pub cfg: Cfg,
    pub xlen: u32,
    pub img: Image,
    pub images: Vec<Image>,
    pub accept_seed: u64,
    pub nhandlers: usize,
    pub has_debugger: bool,
    pub cycle_blind: bool,
}

impl Setup {
    pub fn state(&self) -> Shared {
        let mut s = HostState::new(self.accept_seed, self.nhandlers, self.has_debugger);
        s.images = self.images.clone();
        s.cycle_blind = self.cycle_blind;
        Arc::new(Mutex::new(s))
    }
    pub fn reference(&self) -> (RefMachine, Shared) {
        let st = self.state();
        let m = RefMachine::new(self.xlen, self.cfg.isa, self.cfg.version, self.cfg.mem, self.cfg.max_cycles, self.cfg.costs, st.clone());
        (m, st)
    }
    pub fn engine(&self, k: Kind) -> (Box<dyn Eng>, Shared) {
        let st = self.state();
        (make(k, &self.cfg, &st), st)
    }
    pub fn kinds(&self) -> &'static [Kind] { if self.xlen == 64 { KINDS64 } else { KINDS32 } }
    pub fn describe(&self) -> serde_json::Value {
        serde_json::json!({"isa": self.cfg.isa, "version": self.cfg.version, "memory": self.cfg.mem, "max_cycles": self.cfg.max_cycles, "costs": format!("{:?}", self.cfg.costs),
            "xlen": self.xlen, "elf_bytes": self.img.elf.len(), "args": self.img.args.len(), "handlers": self.nhandlers, "debugger": self.has_debugger})
    }
}

pub fn costs(rng: &mut Rng) -> Costs {
    match rng.below(5) { 0 => Costs::One, 1 | 2 => Costs::Published, 3 => Costs::Hash { seed: rng.next(), lo: 0, span: 9 }, _ => Costs::Hash { seed: rng.next(), lo: 1, span: 500 } }
}
pub fn isa_version(rng: &mut Rng) -> (u8, u32) {
    let version = match rng.below(8) { 0 => 0, 1 | 2 => 1, _ => 2 };
    let mut isa = 0;
    if rng.chance(3, 4) { isa |= ISA_B; }
    if rng.chance(3, 4) { isa |= ISA_A; }
    if version > 0 && rng.chance(2, 3) { isa |= ISA_MOP; }
    (isa, version)
}
pub fn memory(rng: &mut Rng) -> usize { *rng.pick(&[1usize << 18, 1 << 19, 1 << 19, 1 << 20, 1 << 18, 1 << 19, 1 << 19, 1 << 20, 1 << 18, 1 << 19, 1 << 21, 3 << 18, 5 << 18]) }

pub fn setup_with(rng: &mut Rng, xlen: u32, isa: u8, version: u32, f: impl Fn(&mut G, &mut Rng)) -> Option<Setup> {
    let mem = memory(rng);
    let mut g = G::new(xlen, isa, version, mem as u64);
    g.size = *rng.pick(&[10usize, 25, 40, 60, 100]);
    f(&mut g, rng);
    let img = image(rng, &g)?;
    let mut images = vec![];
    if g.calls.contains(&CALL_EXEC) {
        for _ in 0..1 + rng.below(2) {
            let mut g2 = g.clone();
            g2.size = 20;
            images.push(image(rng, &g2)?);
        }
    }
    let cfg = Cfg { isa, version, mem, max_cycles: u64::MAX, costs: costs(rng), keep_decoder: rng.chance(1, 2), chaos: None };
    Some(Setup { cfg, xlen, img, images, accept_seed: rng.next(), nhandlers: 1 + rng.us(3), has_debugger: rng.chance(3, 4), cycle_blind: false })
}

/// Coarse classes of results shared by all engines.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class { Exit(i8), Oob, Perm, Illegal, Cycles, Ecall, Host, Version, Pause, Other }
pub fn class_of(r: &Result<i8, Error>) -> Class {
    match r {
        Ok(c) => Class::Exit(*c),
        Err(Error::MemOutOfBound(..)) => Class::Oob,
        Err(Error::MemWriteOnExecutablePage(_)) => Class::Perm,
        Err(Error::InvalidInstruction { .. }) => Class::Illegal,
        Err(Error::CyclesExceeded) | Err(Error::CyclesOverflow) => Class::Cycles,
        Err(Error::InvalidEcall(_)) => Class::Ecall,
        Err(Error::Yield) | Err(Error::External(_)) => Class::Host,
        Err(Error::InvalidVersion) => Class::Version,
        Err(Error::Pause) => Class::Pause,
        Err(_) => Class::Other,
    }
}
pub fn class_ref(r: &RStop) -> Class {
    match r {
        RStop::Exit(c) => Class::Exit(*c),
        RStop::Oob => Class::Oob,
        RStop::Perm => Class::Perm,
        RStop::Illegal(..) => Class::Illegal,
        RStop::CyclesExceeded | RStop::CyclesOverflow => Class::Cycles,
        RStop::InvalidEcall(_) => Class::Ecall,
        RStop::Host(_) => Class::Host,
        RStop::InvalidVersion => Class::Version,
        RStop::Pause => Class::Pause,
        RStop::Unknown(_) => Class::Other,
    }
}

/// registers, pc, cycles of an engine against the reference
pub fn cmp_regs(e: &dyn Eng, m: &RefMachine) -> V {
    for k in 0..32 {
        let want = m.vm.x[k];
        ensure!(e.reg(k) == want, "register x{k}: {:#x}, expected {want:#x}", e.reg(k));
    }
    ensure!(e.pc() == m.vm.pc, "pc {:#x}, expected {:#x}", e.pc(), m.vm.pc);
    Ok(())
}
pub fn cmp_mem(e: &mut dyn Eng, m: &RefMachine, flags: bool) -> V {
    let n = m.vm.mem.bytes.len();
    ensure!(e.mem_size() == n, "memory size {}", e.mem_size());
    let huge = n > 1 << 30;
    for p in 0..n / PAGE as usize {
        // of several gigabytes only what was ever marked or written, and some of the rest
        if huge && m.vm.mem.flags[p] == 0 && p % 4099 != 5 && !(p > 0 && m.vm.mem.flags[p - 1] != 0) { continue; }
        let at = p as u64 * PAGE;
        if flags {
            let mask = if !m.vm.mem.dirty_known(p) { !DIRTY } else { 0xff };
            let f = e.flag(p as u64).map_err(|x| format!("fetch_flag({p}) failed: {x:?}"))?;
            ensure!(f & mask == m.vm.mem.flags[p] & mask, "flags of page {p:#x}: {f:#x}, expected {:#x}", m.vm.mem.flags[p]);
        }
        let b = e.load_bytes(at, PAGE).map_err(|x| format!("load_bytes({at:#x}) failed: {x:?}"))?;
        let w = &m.vm.mem.bytes[at as usize..at as usize + PAGE as usize];
        if b[..] != *w {
            let k = (0..PAGE as usize).find(|k| b[*k] != w[*k]).unwrap();
            return Err(format!("memory byte {:#x}: {:#04x}, expected {:#04x}", at + k as u64, b[k], w[k]));
        }
    }
    Ok(())
}
pub fn cmp_lr(e: &dyn Eng, m: &RefMachine) -> V {
    let none = if m.vm.xlen == 32 { 0xffff_ffff } else { u64::MAX };
    let want = m.vm.lr.unwrap_or(none);
    ensure!(e.lr() == want, "reservation {:#x}, expected {want:#x}", e.lr());
    Ok(())
}
/// What a comparison looks at.
#[derive(Clone, Copy, Debug)]
pub struct Judge {
    pub cycles: bool,
    pub flags: bool,
    pub mem: bool,
    pub lr: bool,
    /// registers after a run that ended in a memory fault
    pub fail_regs: bool,
    /// kind of error after a memory fault
    pub fail_kind: bool,
}
pub const ALL: Judge = Judge { cycles: true, flags: true, mem: true, lr: true, fail_regs: false, fail_kind: true };
/// architectural effects only
pub const ARCH: Judge = Judge { cycles: false, flags: false, mem: true, lr: false, fail_regs: false, fail_kind: false };

pub fn cmp_log(e: &Shared, m: &Shared, cycles: bool) -> V {
    let (a, b) = (e.lock().unwrap(), m.lock().unwrap());
    for (k, (x, y)) in a.log.iter().zip(b.log.iter()).enumerate() {
        ensure!(x.kind == y.kind, "host event #{k}: {:?}, expected {:?}", x.kind, y.kind);
        ensure!(!cycles || x.cycles == y.cycles, "host event #{k} ({:?}, a7={}): cycles {}, expected {}", x.kind, x.regs[17], x.cycles, y.cycles);
        if x.regs != y.regs {
            let r = (0..32).find(|r| x.regs[*r] != y.regs[*r]).unwrap();
            return Err(format!("host event #{k} ({:?}, a7={}): x{r}={:#x}, expected {:#x}", x.kind, x.regs[17], x.regs[r], y.regs[r]));
        }
    }
    ensure!(a.events == b.events, "{} host events, expected {}", a.events, b.events);
    ensure!(!cycles || a.log_hash == b.log_hash, "host event logs differ");
    Ok(())
}

/// Everything after a successful run.
pub fn cmp_end(e: &mut dyn Eng, est: &Shared, m: &RefMachine, mst: &Shared, j: Judge) -> V {
    cmp_log(est, mst, j.cycles)?;
    if j.cycles { ensure!(e.cycles() == m.cycles, "cycles {}, expected {}", e.cycles(), m.cycles); }
    cmp_regs(e, m)?;
    if j.lr { cmp_lr(e, m)?; }
    if j.mem { cmp_mem(e, m, j.flags)?; }
    Ok(())
}
pub fn cmp_all(e: &mut dyn Eng, est: &Shared, m: &RefMachine, mst: &Shared) -> V { cmp_end(e, est, m, mst, ALL) }

/// Runs the reference and the given engines; everything judged has to agree.
pub fn compare(ctx: &mut Ctx, s: &Setup, kinds: &[Kind], j: Judge) -> V {
    let (mut m, mst) = s.reference();
    if m.load(&s.img).is_err() {
        for k in kinds {
            let (mut e, _) = s.engine(*k);
            ensure!(e.load_program(&s.img.elf, &s.img.args).is_err(), "{k:?} loads an image that has to be refused");
        }
        ctx.count("load-refused");
        return Ok(());
    }
    let stop = m.run(BUDGET);
    if let RStop::Unknown(w) = stop { ctx.count(&format!("skipped:{w}")); return Ok(()); }
    if m.high_pc && s.cfg.version < 2 { ctx.count("skipped:high pc in old version"); return Ok(()); }
    let want = class_ref(&stop);
    let pure = pure_fault(&m, &stop);
    ctx.add("reference-instructions", m.insts);
    ctx.add("fused-groups", m.fused_seen);
    ctx.add("host-events", mst.lock().unwrap().events);
    ctx.seen(signature(&m, mix(&[s.cfg.isa as u64, s.cfg.version as u64, s.xlen as u64, matches!(want, Class::Exit(_)) as u64])));
    match want { Class::Exit(_) => ctx.count("finished"), c => ctx.count(&format!("failed:{c:?}")) }
    if ctx.samples.is_empty() { let d = s.describe(); ctx.sample(serde_json::json!({"setup": d, "instructions": m.insts, "result": format!("{stop:?}")})); }
    for k in kinds {
        let (mut e, est) = s.engine(*k);
        e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        let r = e.run();
        let got = class_of(&r);
        ctx.count("engine-runs");
        match want {
            Class::Exit(_) => {
                ensure!(got == want, "{k:?} ends with {r:?}, expected {stop:?}");
                cmp_end(&mut *e, &est, &m, &mst, j).map_err(|x| format!("{k:?}: {x}"))?;
            }
            _ => {
                ensure!(!matches!(got, Class::Exit(_)), "{k:?} ends with {r:?}, expected {stop:?}");
                if pure {
                    if j.fail_kind { ensure!(got == want, "{k:?} ends with {r:?}, expected {stop:?} (a single memory fault)"); }
                    cmp_log(&est, &mst, j.cycles).map_err(|x| format!("{k:?}: {x}"))?;
                    if j.fail_regs { for r in 0..32 { ensure!(e.reg(r) == m.vm.x[r], "{k:?}: x{r}={:#x} after a refused access, expected {:#x}", e.reg(r), m.vm.x[r]); } }
                    ctx.count("pure-faults-compared");
                }
            }
        }
    }
    Ok(())
}

/// A failing program is a "pure memory fault" when everything around it decodes, so that even an
/// engine decoding whole blocks ahead meets the same fault first.
pub fn pure_fault(m: &RefMachine, stop: &RStop) -> bool {
    if !matches!(stop, RStop::Oob | RStop::Perm) { return false; }
    // the faulting instruction itself must have been fetched
    let mut pc = m.vm.pc;
    for k in 0..4096 {
        match m.vm.decode_at(pc) {
            Ok(i) => {
                if ends_block(i.op) { return true; }
                pc += i.len as u64;
            }
            Err(_) => return false,
        }
        if k > 4000 { return false; }
    }
    false
}
pub fn ends_block(o: Op) -> bool {
    use Op::*;
    matches!(o, AUIPC | JAL | JALR | BEQ | BNE | BLT | BGE | BLTU | BGEU | ECALL | EBREAK | FENCE)
}

/// op classes touched, as a situation signature
pub fn signature(m: &RefMachine, extra: u64) -> u64 { mix(&[m.opmask[0], m.opmask[1], m.opmask[2], m.opmask[3], m.fused_seen.min(8), extra]) }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

/// asks for a pause, sometimes very often; requests do not add up
pub fn ask(ctx: &mut Ctx, rng: &mut Rng, p: &ckb_vm::machine::Pause) {
    let n = if rng.chance(2, 3) { 1 } else { *rng.pick(&[2u64, 3, 127, 128, 255, 256, 257, 512, 1 << 16]) };
    for _ in 0..n { p.interrupt(); }
    ctx.max("max:requests-before-one-pause", n);
}
