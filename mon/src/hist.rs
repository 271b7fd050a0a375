//! Random histories over one guest memory: guest code and host calls in any order, on several
//! engines at once, against the reference machine.
use crate::common::*;
use crate::ctx::*;
use crate::enc::*;
use crate::ensure;
use crate::eng::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::{mix, Rng};
use ckb_vm::{Bytes, Error};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

/// Relative weights of the operations of a history.
#[derive(Clone, Debug)]
pub struct W { pub run: u64, pub hload: u64, pub hstore: u64, pub hfill: u64, pub hloadw: u64, pub hstorew: u64, pub exec: u64, pub setf: u64, pub clrf: u64, pub getf: u64, pub clean: u64, pub init: u64, pub lr: u64, pub reset: u64, pub full: u64 }
pub const MIXED: W = W { run: 40, hload: 8, hstore: 8, hfill: 5, hloadw: 6, hstorew: 6, exec: 3, setf: 6, clrf: 5, getf: 3, clean: 3, init: 5, lr: 1, reset: 1, full: 4 };

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dirt { Ignore, Exact, Rule }

#[derive(Clone, Debug)]
pub struct Spec {
    pub xlen: u32,
    pub isa: u8,
    pub version: u32,
    pub mem: usize,
    /// pages code was fetched from may change too (only with engines that decode afresh each run)
    pub free: bool,
    pub kinds: Vec<Kind>,
    pub w: W,
    /// per cent of atomics among the guest accesses
    pub amo: u64,
    pub calls: bool,
    pub ops: usize,
    pub flags: bool,
    pub dirty: Dirt,
    pub lr: bool,
    pub regs: bool,
    /// addresses reused more often
    pub hot: bool,
}

pub fn spec(rng: &mut Rng, w: W) -> Spec {
    let xlen = crate::eng::xlen(rng, 6);
    let version = *rng.pick(&[0u32, 1, 2, 2, 2]);
    let free = rng.chance(1, 3);
    let all = if xlen == 64 { KINDS64 } else { KINDS32 };
    let kinds: Vec<Kind> = all.iter().copied().filter(|k| !free || !k.is_trace()).collect();
    Spec { xlen, isa: ISA_A | if rng.chance(1, 2) { ISA_B } else { 0 } | if version > 0 && rng.chance(1, 3) { ISA_MOP } else { 0 }, version, mem: *rng.pick(&[1usize << 18, 1 << 19, 1 << 19, 3 << 18]), free, kinds, w,
        amo: 12, calls: rng.chance(1, 2), ops: 120, flags: true, dirty: Dirt::Ignore, lr: false, regs: true, hot: rng.chance(1, 2) }
}

pub struct H {
    pub s: Spec,
    pub m: RefMachine,
    pub mst: Shared,
    pub es: Vec<(Box<dyn Eng>, Shared)>,
    stubs: Vec<u64>,
    code: (u64, u64),
    recent: Vec<u64>,
    log: Vec<String>,
    /// pages instructions were fetched from since the last reset
    fetched: BTreeSet<u64>,
    pub ops: u64,
}

const BASES: &[u8] = &[11, 12, 13, 14, 15];
const VALS: &[u8] = &[20, 21, 22, 23, 24, 25];
const RES: &[u8] = &[26, 27, 28, 29, 30, 31];

/// Every way an access may be refused.
#[derive(Clone, Copy, Debug)]
struct Rule { oob: bool, perm: bool }
impl Rule {
    fn check<T: std::fmt::Debug>(&self, what: &str, k: Kind, r: &Result<T, Error>) -> V {
        match r {
            Ok(v) => { ensure!(!self.oob && !self.perm, "{what} on {k:?} succeeds with {v:?}; it has to be refused ({self:?})"); }
            Err(Error::MemOutOfBound(..)) => ensure!(self.oob, "{what} on {k:?} is refused as out of bounds"),
            Err(Error::MemWriteOnExecutablePage(_)) => ensure!(self.perm, "{what} on {k:?} is refused for lack of permission"),
            Err(e) => return Err(format!("{what} on {k:?} fails with {e:?}")),
        }
        Ok(())
    }
}

fn rule_store(m: &RefMem, a: u64, n: u64) -> Rule { if n == 0 { return Rule { oob: false, perm: false }; } Rule { oob: !m.in_bounds(a, n), perm: any_flag(m, a, n, true) } }
fn rule_fetch(m: &RefMem, a: u64, n: u64) -> Rule { Rule { oob: !m.in_bounds(a, n), perm: any_flag(m, a, n, false) } }
fn rule_load(m: &RefMem, a: u64, n: u64) -> Rule { Rule { oob: n > 0 && !m.in_bounds(a, n), perm: false } }
/// some page of the range that exists has EXEC == `exec`
fn any_flag(m: &RefMem, a: u64, n: u64, exec: bool) -> bool {
    if a >= m.size() { return false; }
    let last = a.saturating_add(n - 1).min(m.size() - 1);
    (a / PAGE..=last / PAGE).any(|p| (m.flags[p as usize] & EXEC != 0) == exec)
}

impl H {
    pub fn new(s: Spec, keep: bool) -> H {
        let cfg = Cfg { isa: s.isa, version: s.version, mem: s.mem, max_cycles: u64::MAX, costs: Costs::One, keep_decoder: keep && !s.free, chaos: None };
        let mk = || -> Shared { let mut h = HostState::new(5, 2, true); h.cycle_blind = true; Arc::new(Mutex::new(h)) };
        let mst = mk();
        let m = RefMachine::new(s.xlen, s.isa, s.version, s.mem, u64::MAX, Costs::One, mst.clone());
        let es = s.kinds.iter().map(|k| { let st = mk(); (make(*k, &cfg, &st), st) }).collect();
        H { s, m, mst, es, stubs: vec![], code: (0, 0), recent: vec![], log: vec![], fetched: BTreeSet::new(), ops: 0 }
    }
    fn note(&mut self, s: String) { if self.log.len() >= 14 { self.log.remove(0); } self.log.push(s); }
    pub fn mem(&self) -> u64 { self.s.mem as u64 }
    pub fn trail(&self) -> String { self.log.join("; ") }

    /// an address worth poking at
    pub fn addr(&mut self, rng: &mut Rng) -> u64 {
        let mem = self.mem();
        let hot = if self.s.hot { 9 } else { 4 };
        let a = match rng.below(16 + hot) {
            0 | 1 => (rng.below(mem / PAGE) * PAGE).wrapping_add(rng.range(-16, 15) as u64),
            2 => ((rng.below(mem >> 18) + 1) << 18).wrapping_add(rng.range(-16, 15) as u64),
            3 => mem.wrapping_add(rng.range(-20, 8) as u64),
            4 => self.code.0.wrapping_add(rng.range(-12, 12) as u64),
            5 => self.code.1.wrapping_add(rng.range(-12, 12) as u64),
            6 => rng.below(40),
            7 => *rng.pick(&[rng.clone().value(), u64::MAX - rng.clone().below(20), (1 << 32) | rng.clone().below(mem), (1 << 63) | rng.clone().below(mem), mem.wrapping_neg(), 0xffff_ffff, mem * 2 + 3]),
            8..=12 => rng.below(mem),
            13 => rng.below(mem / 8) * 8,
            14 => rng.below(mem / PAGE) * PAGE + rng.below(64) * 8,
            15 => (1 << 18) * rng.below(mem >> 18) + rng.below(2) * 0x3f000 + rng.below(0x1000),
            _ => match self.recent.len() { 0 => rng.below(mem), n => self.recent[rng.us(n)].wrapping_add(if rng.chance(1, 2) { 0 } else { rng.range(-9, 9) as u64 }) },
        };
        if a < mem { if self.recent.len() < 8 { self.recent.push(a); } else { let k = rng.us(8); self.recent[k] = a; } }
        if rng.clone().chance(1, 10) { rng.next(); }
        a
    }
    fn len(&mut self, rng: &mut Rng) -> u64 {
        match rng.below(10) { 0 => 0, 1..=4 => 1 + rng.below(32), 5 | 6 => 1 + rng.below(5000), 7 => PAGE * (1 + rng.below(3)), 8 => rng.below(self.mem() / 2), _ => *rng.pick(&[u64::MAX, self.mem(), self.mem() + 1, 1 << 32, 1 << 63, 0x40000, 0x41000, 0x3f000]) }
    }
    fn page(&mut self, rng: &mut Rng) -> u64 {
        let n = self.mem() / PAGE;
        match rng.below(12) { 0 => n + rng.below(3), 1 => *rng.pick(&[u64::MAX, 1 << 52, (1 << 32) | rng.clone().below(n), u64::MAX >> 12, n - 1, 0]), 2 => self.code.0 / PAGE, 3 => self.code.1 / PAGE, _ => { let a = self.addr(rng); (a / PAGE).min(n + 1) } }
    }
    /// a page whose code must stay as it is
    fn pinned(&self, p: u64) -> bool { !self.s.free && self.fetched.contains(&p) }
    fn pinned_range(&self, a: u64, n: u64) -> bool { if n == 0 || self.s.free { return false; } (a / PAGE..=a.saturating_add(n - 1).min(self.mem()) / PAGE).any(|p| self.pinned(p)) }

    /// Assembles fresh stubs and maps them executable somewhere.
    pub fn place(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        let mem = self.mem();
        let pages = 1 + rng.below(3);
        let base = match rng.below(8) {
            0 => 0,
            1 => mem - pages * PAGE,
            2 if mem > 1 << 18 => (1 << 18) - PAGE * rng.below(pages + 1),
            3 if self.code.0 != 0 => self.code.0.min(mem - pages * PAGE),
            _ => PAGE * rng.below(mem / PAGE - pages),
        };
        let mut a = Asm::new(self.s.xlen == 64);
        let n = 10 + rng.us(12);
        let mut labels = vec![];
        for _ in 0..n {
            if rng.chance(1, 4) { let at = PAGE - 2 * rng.below(24); a.items.push(Item::PadTo(12, at)); }
            let l = a.label();
            a.bind(l);
            labels.push(l);
            self.stub(&mut a, rng);
        }
        let mut blob = a.assemble(base);
        let cap = (pages * PAGE) as usize;
        let hi = if blob.bytes.len() + 8 > cap { cap } else { blob.bytes.len() };
        blob.bytes.resize(cap, 0);
        // the region ends with the low half of a full-size instruction
        if hi < cap { blob.bytes[cap - 4..].copy_from_slice(&[0x01, 0, 0x13, 0]); } else { blob.bytes[cap - 2..].copy_from_slice(&[0x13, 0]); }
        self.stubs = labels.iter().map(|l| blob.labels[*l]).filter(|x| *x + 64 < base + hi as u64 || *x + 200 < base + cap as u64).collect();
        if self.stubs.is_empty() { self.stubs.push(base); }
        self.code = (base, base + cap as u64);
        let src = Bytes::from(blob.bytes);
        let fl = EXEC | if rng.chance(3, 4) { FREEZED } else { 0 };
        self.init(ctx, base, cap as u64, fl, Some(src), 0)
    }

    fn stub(&mut self, a: &mut Asm, rng: &mut Rng) {
        use Op::*;
        let rv64 = self.s.xlen == 64;
        let ld: &[Op] = if rv64 { &[LB, LH, LW, LD, LBU, LHU, LWU, LD] } else { &[LB, LH, LW, LBU, LHU] };
        let st: &[Op] = if rv64 { &[SB, SH, SW, SD, SD] } else { &[SB, SH, SW] };
        for _ in 0..1 + rng.below(5) {
            let base = *rng.pick(BASES);
            let imm = match rng.below(6) { 0 => rng.range(-2048, 2047), 1 => rng.range(-9, 9), 2 => *rng.pick(&[4i64, 8, 16, 24]), _ => 0 };
            let (v, d) = (*rng.pick(VALS), *rng.pick(RES));
            if rng.below(100) < self.s.amo {
                let wd: &[Op] = &[LR_W, LR_W, SC_W, SC_W, AMOSWAP_W, AMOADD_W, AMOXOR_W, AMOAND_W, AMOOR_W, AMOMIN_W, AMOMAX_W, AMOMINU_W, AMOMAXU_W];
                let dd: &[Op] = &[LR_D, LR_D, SC_D, SC_D, AMOSWAP_D, AMOADD_D, AMOXOR_D, AMOAND_D, AMOOR_D, AMOMIN_D, AMOMAX_D, AMOMINU_D, AMOMAXU_D];
                let wide = rv64 && rng.chance(1, 2);
                let op = *rng.pick(if wide { dd } else { wd });
                let rs2 = if matches!(op, LR_W | LR_D) { 0 } else if rng.chance(1, 6) { base } else { v };
                let d = match rng.below(8) { 0 => 0, 1 => v, 2 => base, _ => d };
                a.i(op, d, base, rs2, 0);
                continue;
            }
            match rng.below(20) {
                0..=5 => { let op = *rng.pick(ld); let c = rng.chance(1, 3); let d = if rng.chance(1, 10) { base } else { d }; a.ic(op, d, base, 0, imm, c) }
                6..=12 => { let op = *rng.pick(st); let c = rng.chance(1, 3); a.ic(op, 0, base, v, imm, c) }
                13 => { a.i(ADD, v, v, d, 0); a.i(XORI, v, v, 0, rng.range(-2048, 2047)); }
                14 | 15 => {
                    // a sweep
                    let n = 2 + rng.below(20);
                    a.li(18, n);
                    let l = a.label();
                    a.bind(l);
                    let w = rng.chance(2, 3);
                    let (lo, so) = (*rng.pick(ld), *rng.pick(st));
                    if w { a.i(so, 0, base, v, 0); } else { a.i(lo, d, base, 0, 0); a.i(ADD, 26, 26, d, 0); }
                    let step = *rng.pick(&[1i64, 8, 8, 64, 512, 2040, -8]);
                    a.i(ADDI, base, base, 0, step);
                    if rng.chance(1, 4) { a.i(LUI, 19, 0, 0, *rng.pick(&[0x1000i64, 0x40000, 0x3f000])); a.i(ADD, base, base, 19, 0); }
                    a.i(ADDI, 18, 18, 0, -1);
                    a.br(BNE, 18, 0, l);
                }
                16 => { let b2 = *rng.pick(BASES); a.i(*rng.pick(ld), d, base, 0, 0); a.i(*rng.pick(st), 0, b2, d, 0); a.i(*rng.pick(ld), *rng.pick(RES), base, 0, 0); }
                17 | 18 if self.s.calls => {
                    let n = *rng.pick(&[CALL_STORE, CALL_FILL, CALL_LOAD, CALL_STORE_W, CALL_LOAD_W, CALL_PROTECT, CALL_PROTECT, CALL_CLEAN, CALL_LOG]);
                    // touch the page before and after, so that anything remembered about it is in use
                    let pre = rng.chance(2, 3);
                    if pre { if rng.chance(1, 2) { a.i(*rng.pick(st), 0, base, v, 0); } else { a.i(*rng.pick(ld), d, base, 0, 0); } }
                    a.i(ADDI, 7, 11, 0, 0);
                    a.i(ADDI, 8, 12, 0, 0);
                    a.i(ADDI, 10, base, 0, 0);
                    a.i(ADDI, 11, v, 0, 0);
                    a.i(ADDI, 12, v, 0, 0);
                    if n == CALL_LOAD { a.i(ANDI, 11, 11, 0, 0x7f); }
                    if n == CALL_PROTECT { a.i(ADDI, 11, 0, 0, rng.range(0, 1)); }
                    if n == CALL_STORE_W || n == CALL_LOAD_W { a.i(ADDI, 12, 0, 0, rng.range(0, if rv64 { 3 } else { 2 })); }
                    a.li(17, n);
                    a.ecall();
                    a.i(ADDI, 11, 7, 0, 0);
                    a.i(ADDI, 12, 8, 0, 0);
                    if pre { if rng.chance(2, 3) { a.i(*rng.pick(st), 0, base, v, 0); } else { a.i(*rng.pick(ld), d, base, 0, 0); } }
                }
                _ => { let op = *rng.pick(st); a.i(op, 0, base, v, imm); let op = *rng.pick(ld); a.i(op, d, base, 0, imm); }
            }
        }
        if rng.chance(1, 5) { a.i(JALR, *rng.pick(&[0u8, 1, 5]), 16, 0, *rng.pick(&[0i64, 0, 2, -2])); }
        else { a.i(ADDI, 10, 26, 0, 0); a.i(ADDI, 17, 0, 0, 93); a.ecall(); }
    }

    // ---- one operation on everything -------------------------------------------------------

    fn init(&mut self, ctx: &mut Ctx, a: u64, n: u64, fl: u8, src: Option<Bytes>, off: u64) -> V {
        let want = self.m.vm.mem.init_pages(a, n, fl, src.as_ref().map(|b| &b[..]), off);
        for (e, _) in &mut self.es {
            let r = e.init_pages(a, n, fl, src.clone(), off);
            ensure!(r.is_ok() == want.is_ok(), "init_pages({a:#x}, {n:#x}, {fl:#x}, source {:?}, {off:#x}) on {:?} gives {r:?}, expected {want:?}", src.as_ref().map(|b| b.len()), e.kind());
        }
        ctx.count(if want.is_ok() { "init-pages" } else { "init-pages-refused" });
        Ok(())
    }

    pub fn op(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        self.ops += 1;
        let w = self.s.w.clone();
        let total = w.run + w.hload + w.hstore + w.hfill + w.hloadw + w.hstorew + w.exec + w.setf + w.clrf + w.getf + w.clean + w.init + w.lr + w.reset + w.full;
        let mut k = rng.below(total);
        macro_rules! hit { ($w:expr) => { if k < $w { true } else { k -= $w; false } } }
        let reg_mask = if self.s.xlen == 32 { 0xffff_ffff } else { u64::MAX };
        if hit!(w.run) { return self.run(ctx, rng); }
        if hit!(w.hload) {
            let (a, n) = (self.addr(rng), self.len(rng));
            self.note(format!("load_bytes({a:#x},{n:#x})"));
            let rule = rule_load(&self.m.vm.mem, a, n);
            for (e, _) in &mut self.es {
                let r = e.load_bytes(a, n);
                let what = format!("load_bytes({a:#x}, {n:#x})");
                rule.check(&what, e.kind(), &r.as_ref().map(|b| b.len()).map_err(|e| e.clone()))?;
                if let Ok(b) = r {
                    ensure!(b.len() as u64 == n, "{what} on {:?} returns {} bytes", e.kind(), b.len());
                    if n > 0 { let want = &self.m.vm.mem.bytes[a as usize..(a + n) as usize]; if b[..] != *want { let k = (0..n as usize).find(|k| b[*k] != want[*k]).unwrap(); return Err(format!("{what} on {:?}: byte {k} is {:#x}, expected {:#x}", e.kind(), b[k], want[k])); } }
                }
            }
            ctx.count("bulk-loads");
            return Ok(());
        }
        if hit!(w.hstore) {
            let (a, n) = (self.addr(rng), self.len(rng).min(self.mem() + 1));
            let b = rng.bytes(n as usize);
            if self.pinned_range(a, n) && any_flag(&self.m.vm.mem, a, n.max(1), false) && !any_flag(&self.m.vm.mem, a, n.max(1), true) { return Ok(()); }
            self.note(format!("store_bytes({a:#x},{n:#x})"));
            let rule = rule_store(&self.m.vm.mem, a, n);
            for (e, _) in &mut self.es { let r = e.store_bytes(a, &b); rule.check(&format!("store_bytes({a:#x}, {n:#x})"), e.kind(), &r)?; }
            if rule.oob || rule.perm { self.m.vm.mem.maybe_touch(a, n); ctx.count("stores-refused"); } else { self.m.vm.mem.put(a, &b); ctx.count("bulk-stores"); }
            return Ok(());
        }
        if hit!(w.hfill) {
            let (a, n, v) = (self.addr(rng), self.len(rng), *rng.pick(&[0u8, 0xff, 0x5a, 1]));
            if self.pinned_range(a, n) && !any_flag(&self.m.vm.mem, a, n.max(1), true) { return Ok(()); }
            self.note(format!("store_byte({a:#x},{n:#x},{v:#x})"));
            let rule = rule_store(&self.m.vm.mem, a, n);
            for (e, _) in &mut self.es { let r = e.fill(a, n, v); rule.check(&format!("store_byte({a:#x}, {n:#x})"), e.kind(), &r)?; }
            if rule.oob || rule.perm { self.m.vm.mem.maybe_touch(a, n); ctx.count("stores-refused"); } else { self.m.vm.mem.fill(a, n, v); ctx.count("fills"); }
            return Ok(());
        }
        if hit!(w.hloadw) {
            let (a, wd) = (self.addr(rng) & reg_mask, 1u64 << rng.below(if self.s.xlen == 32 { 3 } else { 4 }));
            self.note(format!("load{}({a:#x})", wd * 8));
            let rule = rule_load(&self.m.vm.mem, a, wd);
            for (e, _) in &mut self.es {
                let r = e.load_w(wd, a);
                let what = format!("load{}({a:#x})", wd * 8);
                rule.check(&what, e.kind(), &r)?;
                if let Ok(v) = r { let want = self.m.vm.mem.load(a, wd).unwrap(); ensure!(v == want, "{what} on {:?} is {v:#x}, expected {want:#x}", e.kind()); }
            }
            ctx.count("word-loads");
            return Ok(());
        }
        if hit!(w.hstorew) {
            let (a, wd, v) = (self.addr(rng) & reg_mask, 1u64 << rng.below(if self.s.xlen == 32 { 3 } else { 4 }), rng.next() & reg_mask);
            if self.pinned_range(a, wd) && !any_flag(&self.m.vm.mem, a, wd, true) { return Ok(()); }
            self.note(format!("store{}({a:#x})", wd * 8));
            let rule = rule_store(&self.m.vm.mem, a, wd);
            for (e, _) in &mut self.es { let r = e.store_w(wd, a, v); rule.check(&format!("store{}({a:#x})", wd * 8), e.kind(), &r)?; }
            if rule.oob || rule.perm { self.m.vm.mem.maybe_touch(a, wd); ctx.count("stores-refused"); } else { self.m.vm.mem.put(a, &v.to_le_bytes()[..wd as usize]); ctx.count("word-stores"); }
            return Ok(());
        }
        if hit!(w.exec) {
            let (a, wd) = (if rng.chance(1, 2) { self.addr(rng) } else { self.code.1.wrapping_add(rng.range(-6, 4) as u64) }, if rng.chance(1, 2) { 2 } else { 4 });
            self.note(format!("execute_load{}({a:#x})", wd * 8));
            let rule = rule_fetch(&self.m.vm.mem, a, wd);
            for (e, _) in &mut self.es {
                let r = if wd == 2 { e.exec16(a).map(|v| v as u32) } else { e.exec32(a) };
                let what = format!("execute_load{}({a:#x})", wd * 8);
                rule.check(&what, e.kind(), &r)?;
                if let Ok(v) = r { let want = self.m.vm.mem.load(a, wd).unwrap() as u32; ensure!(v == want, "{what} on {:?} is {v:#x}, expected {want:#x}", e.kind()); }
            }
            ctx.count("execute-loads");
            return Ok(());
        }
        if hit!(w.setf) {
            let p = self.page(rng);
            let f = match rng.below(8) { 0 => FREEZED, 1 => DIRTY, 2 => rng.next() as u8, 3 => 0x80, _ => EXEC };
            let f = if self.pinned(p) { f & !EXEC | self.m.vm.mem.flags.get(p as usize).map_or(0, |x| x & EXEC) } else { f };
            self.note(format!("set_flag({p:#x},{f:#x})"));
            let want = self.m.vm.mem.set_flag(p, f);
            for (e, _) in &mut self.es { let r = e.set_flag(p, f); ensure!(r.is_ok() == want.is_ok(), "set_flag({p:#x}, {f:#x}) on {:?} gives {r:?}", e.kind()); }
            ctx.count("flag-sets");
            return Ok(());
        }
        if hit!(w.clrf) || { if k < w.clean { k = u64::MAX; true } else { false } } {
            let p = self.page(rng);
            let f = if k == u64::MAX { DIRTY } else { match rng.below(8) { 0 => FREEZED, 1 => DIRTY, 2 => rng.next() as u8, 3 => 0xff, _ => EXEC } };
            let f = if self.pinned(p) { f & !EXEC } else { f };
            self.note(format!("clear_flag({p:#x},{f:#x})"));
            let want = self.m.vm.mem.clear_flag(p, f);
            for (e, _) in &mut self.es { let r = e.clear_flag(p, f); ensure!(r.is_ok() == want.is_ok(), "clear_flag({p:#x}, {f:#x}) on {:?} gives {r:?}", e.kind()); }
            ctx.count("flag-clears");
            return Ok(());
        }
        k = k.wrapping_sub(w.clean);
        if hit!(w.getf) { let p = self.page(rng); self.cmp_flag(p)?; return Ok(()); }
        if hit!(w.init) {
            let pages = match rng.below(6) { 0 => 0, 1 => rng.below(0x50), _ => rng.below(4) };
            let a = match rng.below(10) { 0 => self.addr(rng), 1 => self.mem() - PAGE * rng.below(3), 2 => *rng.pick(&[u64::MAX & !(PAGE - 1), 1 << 63, self.mem()]), 3 => ((rng.below(self.mem() >> 18) + 1) << 18) - PAGE * rng.below(3), 4 => (rng.below(self.mem() >> 18)) << 18, _ => rng.below(self.mem() / PAGE) * PAGE };
            let n = match rng.below(16) { 0 => pages * PAGE + rng.below(PAGE), 1 => *rng.pick(&[u64::MAX & !(PAGE - 1), 1 << 63, self.mem(), 0x3f000, 0x40000]), _ => pages * PAGE };
            let src = if rng.chance(2, 3) { let l = match rng.below(4) { 0 => 0, 1 => rng.us(2 * PAGE as usize), 2 => (n.min(1 << 20) as usize).saturating_sub(rng.us(20)), _ => rng.us(100) }; Some(Bytes::from(rng.bytes(l))) } else { None };
            let off = match rng.below(6) { 0 => rng.below(2 * PAGE), 1 => n, 2 => n.wrapping_add(1), 3 => rng.below(PAGE), _ => 0 };
            let fl = match rng.below(8) { 0 => FREEZED, 1 => EXEC, 2 => EXEC | FREEZED, 3 => DIRTY, 4 => rng.next() as u8 & !FREEZED, _ => 0 };
            if self.pinned_range(a, n.min(self.mem())) { return Ok(()); }
            self.note(format!("init_pages({a:#x},{n:#x},{fl:#x},{:?},{off:#x})", src.as_ref().map(|b| b.len())));
            return self.init(ctx, a, n, fl, src, off);
        }
        if hit!(w.lr) {
            if rng.chance(1, 2) { let a = self.addr(rng) & reg_mask; self.note(format!("set_lr({a:#x})")); self.set_lr(a); }
            self.cmp_lr()?;
            return Ok(());
        }
        if hit!(w.reset) {
            self.note("reset".into());
            self.m.reset(u64::MAX);
            for (e, _) in &mut self.es { e.reset(u64::MAX).map_err(|x| format!("reset of {:?} fails: {x:?}", e.kind()))?; }
            self.fetched.clear();
            self.regs_zero();
            ctx.count("resets");
            return self.place(ctx, rng);
        }
        self.full(ctx)
    }

    pub fn set_lr(&mut self, a: u64) { self.m.vm.lr = Some(a); for (e, _) in &mut self.es { e.set_lr(a); } }
    fn cmp_lr(&mut self) -> V { if !self.s.lr { return Ok(()); } for (e, _) in &self.es { cmp_lr(&**e, &self.m).map_err(|x| format!("{:?}: {x}", e.kind()))?; } Ok(()) }
    fn regs_zero(&mut self) {
        self.m.vm.x = [0; 32];
        self.m.vm.pc = 0;
        for (e, _) in &mut self.es { for k in 0..32 { e.set_reg(k, 0); } e.set_pc(0); }
    }

    fn cmp_flag(&mut self, p: u64) -> V {
        let n = self.m.vm.mem.flags.len() as u64;
        let m = &self.m.vm.mem;
        for (e, _) in &mut self.es {
            let r = e.flag(p);
            if p >= n { ensure!(r.is_err(), "fetch_flag({p:#x}) on {:?} succeeds beyond the memory", e.kind()); continue; }
            let f = r.map_err(|x| format!("fetch_flag({p:#x}) on {:?} fails: {x:?}", e.kind()))?;
            let (i, w) = (p as usize, m.flags[p as usize]);
            if self.s.flags { ensure!(f & !DIRTY == w & !DIRTY, "flags of page {p:#x} on {:?} are {f:#x}, expected {w:#x} (dirty apart)", e.kind()); }
            match self.s.dirty {
                Dirt::Ignore => {}
                Dirt::Exact => ensure!(f & DIRTY == w & DIRTY || !m.dirty_known(i), "dirty mark of page {p:#x} on {:?} is {}, expected {}", e.kind(), f & DIRTY != 0, w & DIRTY != 0),
                Dirt::Rule => {
                    ensure!(!m.changed[i] || f & DIRTY != 0, "page {p:#x} on {:?} changed since its dirty mark was cleared and is not marked", e.kind());
                    ensure!(f & DIRTY == 0 || w & DIRTY != 0 || m.unsure[i], "page {p:#x} on {:?} is marked dirty although nothing wrote to it", e.kind());
                }
            }
        }
        Ok(())
    }

    /// Everything observable about the memories.
    pub fn full(&mut self, ctx: &mut Ctx) -> V {
        for (e, _) in &mut self.es { cmp_mem(&mut **e, &self.m, false).map_err(|x| format!("{:?}: {x}", e.kind()))?; }
        if self.s.flags || self.s.dirty != Dirt::Ignore { for p in 0..self.m.vm.mem.flags.len() as u64 { self.cmp_flag(p)?; } }
        self.cmp_lr()?;
        let f = &self.m.vm.mem.flags;
        ctx.seen(mix(&[f.iter().fold(0u64, |h, x| h.wrapping_mul(131).wrapping_add(*x as u64)), self.code.0, self.s.version as u64, self.s.xlen as u64]));
        ctx.count("full-comparisons");
        Ok(())
    }

    /// One guest run.
    fn run(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        let mask = if self.s.xlen == 32 { 0xffff_ffff } else { u64::MAX };
        let entry = match rng.below(30) {
            0 => self.addr(rng) & !1,
            1 => self.code.1 - 2 * (1 + rng.below(3)),
            2 => self.code.0 + 2 * rng.below((self.code.1 - self.code.0) / 2),
            _ => *rng.pick(&self.stubs),
        } & mask;
        let mut regs = self.m.vm.x;
        for b in BASES { if rng.chance(1, 2) || regs[*b as usize] == 0 { regs[*b as usize] = self.addr(rng) & mask; } }
        for v in VALS { if rng.chance(1, 3) { regs[*v as usize] = rng.value() & mask; } }
        for v in RES { if rng.chance(1, 6) { regs[*v as usize] = rng.next() & mask; } }
        regs[16] = match rng.below(6) { 0 => self.addr(rng), 1 => self.code.1.wrapping_sub(2 * rng.below(4)), 2 => rng.below(self.mem() / PAGE) * PAGE, _ => *rng.pick(&self.stubs) } & mask;
        regs[0] = 0;
        let save = self.m.vm.clone();
        self.m.vm.x = regs;
        self.m.vm.pc = entry;
        self.m.cycles = 0;
        self.m.high_pc = false;
        self.m.fetched = Some(Default::default());
        let (log0, ev0) = { let mut s = self.mst.lock().unwrap(); s.log.clear(); let r = (s.log_hash, s.events); s.log_hash = 0; s.events = 0; r };
        let stop = self.m.run(2500);
        let fetched = self.m.fetched.take().unwrap();
        // code that changed under its own feet is outside of what the engines promise
        let moved = fetched.iter().chain(if self.s.free { None } else { Some(&self.fetched) }.into_iter().flatten()).any(|p| {
            let p = *p as usize;
            if p >= self.m.vm.mem.flags.len() { return false; }
            let r = p * PAGE as usize..(p + 1) * PAGE as usize;
            (self.m.vm.mem.flags[p] ^ save.mem.flags[p]) & EXEC != 0 || (self.m.vm.mem.flags[p] & EXEC != 0 && self.m.vm.mem.bytes[r.clone()] != save.mem.bytes[r])
        });
        let want = class_ref(&stop);
        let fetch_fault = matches!(stop, RStop::Oob | RStop::Perm | RStop::Illegal(..)) && self.m.vm.decode_at(self.m.vm.pc).is_err();
        let at_start = self.m.vm.pc == self.m.block_start;
        // the kind of error is settled when nothing else in the block can fail first
        let (clean, exact) = match &stop {
            RStop::Exit(_) => (true, true),
            RStop::Oob | RStop::Perm | RStop::Illegal(..) => if fetch_fault { (at_start || !self.m.wrote, at_start) } else { let p = pure_fault(&self.m, &stop); (p, p) },
            _ => (false, false),
        };
        if matches!(stop, RStop::Unknown(_)) || moved || !clean || (self.m.high_pc && self.s.version < 2) {
            self.m.vm = save;
            let mut s = self.mst.lock().unwrap();
            s.log_hash = log0;
            s.events = ev0;
            ctx.count("runs-not-comparable");
            return Ok(());
        }
        self.fetched.extend(fetched);
        self.note(format!("run from {entry:#x} with x11..x15={:x?} x16={:#x}: {stop:?}", &regs[11..16], regs[16]));
        // an access leaving the address space from a page it may not touch can be reported either way
        let edge = self.edge_fault();
        for (e, est) in &mut self.es {
            for k in 0..32 { e.set_reg(k, regs[k]); }
            e.set_pc(entry);
            e.set_cycles(0);
            e.set_max_cycles(1_000_000);
            { let mut s = est.lock().unwrap(); s.log.clear(); s.log_hash = 0; s.events = 0; }
            let r = e.run();
            let got = class_of(&r);
            let k = e.kind();
            match want {
                Class::Exit(_) => {
                    ensure!(got == want, "run from {entry:#x} on {k:?} ends with {r:?}, expected {stop:?} (fault at pc {:#x})", e.pc());
                    if self.s.regs { cmp_regs(&**e, &self.m).map_err(|x| format!("run from {entry:#x} on {k:?}: {x}"))?; cmp_log(est, &self.mst, false).map_err(|x| format!("run from {entry:#x} on {k:?}: {x}"))?; }
                }
                _ => {
                    ensure!(!matches!(got, Class::Exit(_)), "run from {entry:#x} on {k:?} ends with {r:?}, expected {stop:?} at pc {:#x}", self.m.vm.pc);
                    if exact {
                        let either = matches!(got, Class::Oob | Class::Perm) && matches!(want, Class::Oob | Class::Perm) && !fetch_fault && edge;
                        ensure!(got == want || either, "run from {entry:#x} on {k:?} ends with {r:?}, expected {stop:?} at pc {:#x}", self.m.vm.pc);
                    }
                }
            }
        }
        ctx.count("guest-runs");
        ctx.count(&match want { Class::Exit(_) => "guest-runs-finished".to_string(), c => format!("guest-runs-refused:{c:?}{}", if fetch_fault { "(fetch)" } else { "" }) });
        ctx.add("guest-instructions", self.m.insts);
        self.m.insts = 0;
        if !matches!(want, Class::Exit(_)) { self.regs_zero(); let none = if self.s.xlen == 32 { 0xffff_ffff } else { u64::MAX }; self.set_lr(none); self.m.vm.lr = None; }
        Ok(())
    }
    /// the store at pc leaves the memory and also touches a page it may not write
    fn edge_fault(&self) -> bool { match self.m.vm.decode_at(self.m.vm.pc) {
        Ok(i) => { let a = self.m.vm.mask(self.m.vm.x[i.rs1 as usize].wrapping_add(if matches!(i.op, Op::SB | Op::SH | Op::SW | Op::SD) { i.imm as u64 } else { 0 })); let r = rule_store(&self.m.vm.mem, a, 8); r.oob && r.perm }
        _ => false,
    } }

    pub fn go(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        self.place(ctx, rng)?;
        for _ in 0..self.s.ops {
            if let Err(e) = self.op(ctx, rng) { return Err(format!("{e} [version {} xlen {} isa {} memory {:#x} code {:#x}..{:#x}; before: {}]", self.s.version, self.s.xlen, self.s.isa, self.s.mem, self.code.0, self.code.1, self.trail())); }
        }
        self.full(ctx).map_err(|e| format!("{e} [code {:#x}..{:#x}; before: {}]", self.code.0, self.code.1, self.trail()))?;
        if ctx.samples.len() < 2 { let t = self.trail(); ctx.sample(serde_json::json!({"engines": format!("{:?}", self.s.kinds), "memory": self.s.mem, "version": self.s.version, "last_operations": t})); }
        Ok(())
    }
}

/// A history with the given shape.
pub fn history(ctx: &mut Ctx, rng: &mut Rng, w: W, f: impl Fn(&mut Spec, &mut Rng)) -> V {
    let mut s = spec(rng, w);
    f(&mut s, rng);
    let keep = rng.chance(1, 2);
    let mut h = H::new(s, keep);
    h.go(ctx, rng)
}
