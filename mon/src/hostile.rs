//! Hostile use of every entry point: damaged images, random code, arbitrary host calls, forged
//! snapshots, in any order on one machine. Nothing here knows what the right answer is.
use crate::common::*;
use crate::ctx::*;
use crate::elfgen;
use crate::enc::*;
use crate::eng::*;
use crate::gen;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::Rng;
use crate::s2::S2;
use ckb_vm::snapshot::Snapshot;
use ckb_vm::snapshot2::Snapshot2;
use ckb_vm::{Bytes, Error, FlatMemory, Memory, Register, SparseMemory, WXorXMemory};
use std::collections::{HashMap, VecDeque};
use std::sync::{Arc, Mutex};

/// The last calls made, for reports about a call that did not come back.
pub static TRAIL: Mutex<VecDeque<String>> = Mutex::new(VecDeque::new());
pub fn trail() -> String { TRAIL.lock().map(|t| t.iter().cloned().collect::<Vec<_>>().join("; ")).unwrap_or_default() }
pub fn trail_clear() { if let Ok(mut t) = TRAIL.lock() { t.clear(); } }
thread_local! { pub static MUTE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn note(s: String) { if MUTE.with(|m| m.get()) { return; } if std::env::var_os("MON_TRAIL").is_some() { eprintln!("{s}"); } if let Ok(mut t) = TRAIL.lock() { if t.len() >= 12 { t.pop_front(); } t.push_back(s); } }

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64 ^ b.len() as u64;
    for c in b.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0xff51afd7ed558ccd).rotate_left(29); }
    h
}
/// CPU seconds this thread has used
pub fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t); }
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

pub struct Session {
    pub e: Box<dyn Eng>,
    pub st: Shared,
    pub cfg: Cfg,
    xlen: u32,
    code: u64,
    s2: Arc<Mutex<S2>>,
    snaps: Vec<Vec<u8>>,
    snaps2: Vec<Snapshot2<u32>>,
    images: Vec<Bytes>,
    /// CPU seconds one call may take
    pub limit: f64,
    pub worst: f64,
    pub most_cycles: u64,
    /// everything that could be observed so far
    pub digest: u64,
}

/// a value of the kind that goes wrong
pub fn evil(rng: &mut Rng, mem: u64) -> u64 {
    match rng.below(14) {
        0 => rng.next(),
        1 => u64::MAX - rng.below(20),
        2 => mem.wrapping_add(rng.range(-20, 20) as u64),
        3 => rng.below(20),
        4 => 1u64 << rng.below(64),
        5 => (1u64 << rng.below(64)).wrapping_add(rng.range(-9, 9) as u64),
        6 => (rng.below(mem / PAGE + 2) * PAGE).wrapping_add(rng.range(-9, 9) as u64),
        7 => ((rng.below((mem >> 18) + 2)) << 18).wrapping_add(rng.range(-9, 9) as u64),
        8 => u64::MAX << 12 | rng.below(4096),
        9 => (1 << 32) | rng.below(mem),
        10 => mem.wrapping_neg().wrapping_add(rng.range(-9, 9) as u64),
        11 => rng.below(mem) & !7,
        _ => rng.below(mem),
    }
}
pub fn evil_len(rng: &mut Rng, mem: u64) -> u64 {
    match rng.below(10) { 0 => 0, 1 => u64::MAX - rng.below(5000), 2 => mem + rng.below(3), 3 => 1 << rng.below(64), 4 => PAGE * rng.below(70), 5 => evil(rng, mem), 6 => rng.below(mem), _ => 1 + rng.below(40) }
}

fn some_inst(rng: &mut Rng, xlen: u32) -> Vec<u8> {
    match rng.below(12) {
        0 => rng.u32().to_le_bytes().to_vec(),
        1 => (rng.u32() | 3).to_le_bytes().to_vec(),
        2 | 3 => (rng.next() as u16).to_le_bytes().to_vec(),
        4 => { let mut v = vec![]; for op in [inst(Op::ADDI, 17, 0, 0, *rng.pick(&[93i64, 2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2009, 2010, 2011, 2012, 2013, 2014, 2015, 5, 2047, -1])), inst(Op::ECALL, 0, 0, 0, 0)] { v.extend(encode(&op).to_le_bytes()); } v }
        5 => { let i = inst(*rng.pick(&[Op::BEQ, Op::BNE, Op::BLTU, Op::BGE]), 0, rng.below(32) as u8, rng.below(32) as u8, rng.range(-40, 40) * 2); encode(&i).to_le_bytes().to_vec() }
        6 => { let i = inst(Op::JAL, *rng.pick(&[0u8, 1]), 0, 0, rng.range(-60, 60) * 2); encode(&i).to_le_bytes().to_vec() }
        _ => {
            let op = *rng.pick(ALL_OPS);
            let i = gen::alu_inst(rng, op, rng.clone().below(32) as u8, rng.clone().below(31) as u8, rng.clone().below(30) as u8, xlen);
            let i = Inst { rd: rng.below(32) as u8, rs1: rng.below(32) as u8, rs2: rng.below(32) as u8, ..i };
            encode_any(rng, &i).to_le_bytes().to_vec()
        }
    }
}
/// instructions a program survives: targets x5-x7 and x16-x31, bases elsewhere
fn tame_inst(rng: &mut Rng, xlen: u32) -> Vec<u8> {
    if rng.chance(1, 60) { return some_inst(rng, xlen); }
    let rd = *rng.pick(&[0u8, 5, 6, 7, 16, 17, 18, 20, 24, 28, 30, 31]);
    let (a, b) = (rng.below(32) as u8, rng.below(32) as u8);
    let base = *rng.pick(&[8u8, 9, 10, 11, 12, 13, 14, 15]);
    let i = match rng.below(12) {
        0 | 1 => inst(*rng.pick(if xlen == 64 { &[Op::LB, Op::LH, Op::LW, Op::LD, Op::LBU, Op::LHU, Op::LWU][..] } else { &[Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU][..] }), rd, base, 0, rng.range(-2048, 2047)),
        2 | 3 => inst(*rng.pick(if xlen == 64 { &[Op::SB, Op::SH, Op::SW, Op::SD][..] } else { &[Op::SB, Op::SH, Op::SW][..] }), 0, base, b, rng.range(-2048, 2047)),
        4 => inst(*rng.pick(&[Op::BEQ, Op::BNE, Op::BLT, Op::BGE, Op::BLTU, Op::BGEU]), 0, a, b, *rng.pick(&[8i64, 12, 16, 40, -24, -100])),
        5 if rng.chance(1, 4) => inst(Op::JAL, *rng.pick(&[0u8, 1]), 0, 0, *rng.pick(&[8i64, 12, 100, -40])),
        _ => { let op = *rng.pick(&gen::alu_ops(xlen, ISA_B)); let i = gen::alu_inst(rng, op, rd, a, b, xlen); return encode(&i).to_le_bytes().to_vec(); }
    };
    encode(&i).to_le_bytes().to_vec()
}
/// an encoding of something close to `i`, whatever its fields hold
fn encode_any(rng: &mut Rng, i: &Inst) -> u32 {
    let imm = if matches!(i.op, Op::LUI | Op::AUIPC) { (rng.u32() & 0xffff_f000) as i32 as i64 } else if matches!(i.op, Op::BEQ | Op::BNE | Op::BLT | Op::BGE | Op::BLTU | Op::BGEU) { rng.range(-2048, 2047) * 2 } else if i.op == Op::JAL { rng.range(-524288, 524287) * 2 } else if i.imm >= -2048 && i.imm <= 2047 { i.imm } else { rng.range(-2048, 2047) };
    let imm = if matches!(i.op, Op::LB | Op::LH | Op::LW | Op::LD | Op::LBU | Op::LHU | Op::LWU | Op::SB | Op::SH | Op::SW | Op::SD | Op::JALR | Op::ADDI) { rng.range(-2048, 2047) } else { imm };
    let i = Inst { imm, ..*i };
    let w = encode(&i);
    if rng.chance(1, 40) { w ^ 1 << rng.below(32) } else { w }
}
pub fn chaos_code(rng: &mut Rng, xlen: u32, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let style = rng.below(9);
    while v.len() < n {
        match style {
            0 => v.extend(rng.bytes(64)),
            1 => v.extend((rng.next() as u16).to_le_bytes()),
            2 if rng.chance(1, 3) => { let a = some_inst(rng, xlen); for _ in 0..1 + rng.below(4) { v.extend(&a); } }
            3 | 4 => v.extend(some_inst(rng, xlen)),
            _ => v.extend(tame_inst(rng, xlen)),
        }
    }
    v.truncate(n);
    v
}

fn args(rng: &mut Rng, mem: u64) -> Vec<Bytes> {
    match rng.below(12) {
        0 => (0..rng.us(3000)).map(|_| Bytes::new()).collect(),
        1 => vec![Bytes::from(vec![7u8; rng.us(mem as usize / 2)])],
        2 => (0..rng.us(40)).map(|_| { let n = rng.us(mem as usize / 100); Bytes::from(rng.bytes(n)) }).collect(),
        3 => vec![Bytes::from(vec![1u8; (mem as usize * 2).min(1 << 20)])],
        4 => vec![Bytes::from(vec![1u8; mem as usize / 4 - rng.us(80)]), Bytes::new()],
        _ => (0..rng.us(4)).map(|_| { let n = rng.us(20); Bytes::from(rng.bytes(n)) }).collect(),
    }
}

pub fn program(rng: &mut Rng, xlen: u32, isa: u8, version: u32, mem: u64) -> Bytes {
    let mut v = match rng.below(10) {
        0 => { let n = rng.us(300); let mut b = rng.bytes(n); if rng.chance(1, 2) { for (k, c) in [0x7fu8, b'E', b'L', b'F', if xlen == 64 { 2 } else { 1 }, 1, 1].iter().enumerate() { if k < b.len() { b[k] = *c; } } } b }
        1 | 2 | 3 => { let mut g = gen::G::new(xlen, isa, version, mem); g.size = 25; g.faults = true; match gen::image(rng, &g) { Some(i) => i.elf.to_vec(), None => vec![] } }
        4 => {
            // random code in a good image
            let n = 200 + rng.us(6000);
            let code = chaos_code(rng, xlen, n);
            let base = *rng.pick(&[0u64, 0x10000, mem - 0x4000, 0x3f000, 0x40000 - 0x800]) / PAGE * PAGE;
            build_elf(xlen == 64, base.wrapping_add(*rng.pick(&[0u64, 2, 4, 1, 0xffe])), &[Seg { vaddr: base, memsz: code.len() as u64, data: code, flags: PF_R | PF_X }, Seg { vaddr: 0x20000, data: vec![1, 2, 3], memsz: 0x2000, flags: PF_R | PF_W }])
        }
        _ => { let mut r = elfgen::valid(rng, xlen, mem, version); for _ in 0..rng.below(5) { elfgen::twist(rng, &mut r, mem); } r.emit() }
    };
    for _ in 0..*rng.pick(&[0u64, 0, 0, 1, 2, 5]) { elfgen::damage(rng, &mut v); }
    Bytes::from(v)
}

impl Session {
    pub fn new(rng: &mut Rng) -> Session {
        let xlen = crate::eng::xlen(rng, 5);
        let (isa, version) = isa_version(rng);
        // an instruction set the version does not have is refused, not crashed on
        let isa = if rng.chance(1, 20) { rng.next() as u8 } else { isa };
        let version = if rng.chance(1, 40) { *rng.pick(&[3u32, u32::MAX]) } else { version };
        let kinds = if xlen == 64 { KINDS64 } else { KINDS32 };
        let kind = *rng.pick(kinds);
        let cfg = Cfg { isa, version, mem: *rng.pick(&[1usize << 18, 1 << 18, 1 << 19, 3 << 18, 1 << 20]), max_cycles: 3000, costs: if rng.chance(1, 2) { Costs::One } else { Costs::Published }, keep_decoder: rng.chance(1, 2), chaos: if kind.is_asm() && rng.chance(1, 6) { Some(rng.u32()) } else { None } };
        Session::with(rng, kind, cfg)
    }
    pub fn with(rng: &mut Rng, kind: Kind, cfg: Cfg) -> Session {
        let xlen = kind.xlen();
        let images: Vec<Bytes> = (0..3).map(|_| program(rng, xlen, cfg.isa, cfg.version, cfg.mem as u64)).collect();
        let mut items = HashMap::new();
        for k in 0..4u32 { let n = *rng.pick(&[0usize, 1, 100, 4096, 8192, 10000, 70000]); items.insert(k, Bytes::from(rng.bytes(n))); }
        for (k, i) in images.iter().enumerate() { items.insert(10 + k as u32, i.clone()); }
        let s2 = Arc::new(Mutex::new(S2::new(items)));
        let mut h = HostState::new(rng.next(), rng.us(4), rng.chance(1, 2));
        h.log_cap = 10;
        h.keep_log = false;
        h.images = images.iter().map(|e| Image { elf: e.clone(), segs: vec![], entry: 0, args: vec![] }).collect();
        h.s2 = Some(s2.clone());
        let st = Arc::new(Mutex::new(h));
        note(format!("new {kind:?} {cfg:?}"));
        let e = make(kind, &cfg, &st);
        Session { e, st, cfg, xlen, code: 0, s2, snaps: vec![], snaps2: vec![], images, limit: 3.0, worst: 0.0, most_cycles: 0, digest: 0 }
    }

    fn seen<T: std::fmt::Debug>(&mut self, r: &T) {
        let mut h = vec![self.digest, self.e.pc(), self.e.cycles(), self.e.lr(), hash(format!("{r:?}").as_bytes())];
        for k in 0..32 { h.push(self.e.reg(k)); }
        self.digest = crate::rng::mix(&h);
    }
    /// takes in the whole memory
    pub fn look(&mut self) -> u64 {
        let n = self.cfg.mem as u64;
        let b = self.e.load_bytes(0, n).map(|b| hash(&b)).unwrap_or(1);
        let f: Vec<u8> = (0..n / PAGE).map(|p| self.e.flag(p).unwrap_or(0xee)).collect();
        let (st_hash, ev) = { let s = self.st.lock().unwrap(); (s.log_hash, s.events) };
        self.digest = crate::rng::mix(&[self.digest, b, hash(&f), st_hash, ev]);
        self.digest
    }
    fn bound(&mut self, t: f64) -> V {
        let d = cpu() - t;
        if d > self.worst { self.worst = d; }
        if d > self.limit { return Err(format!("a call took {d:.1} s of CPU time; calls: {}", trail())); }
        Ok(())
    }

    fn budget(&mut self, rng: &mut Rng) {
        let c = match rng.below(12) { 0 => u64::MAX - rng.below(3000), 1 => u64::MAX, _ => { let c = self.e.cycles(); if rng.chance(1, 4) { 0 } else { c } } };
        self.e.set_cycles(c);
        self.e.set_max_cycles(c.saturating_add(*rng.pick(&[0u64, 1, 50, 1000, 3000, 20_000])));
    }

    fn place(&mut self, rng: &mut Rng) {
        let mem = self.cfg.mem as u64;
        let pages = 1 + rng.below(2);
        let n = (pages * PAGE) as usize - rng.us(20);
        let code = chaos_code(rng, self.xlen, n);
        let at = match rng.below(5) { 0 => 0, 1 => mem - pages * PAGE, 2 => (1 << 18) - PAGE, _ => rng.below(mem / PAGE - 1) * PAGE };
        let _ = self.e.clear_flag(at / PAGE, 0xff);
        let r = self.e.init_pages(at, pages * PAGE, EXEC | if rng.chance(1, 2) { FREEZED } else { 0 }, Some(Bytes::from(code)), if rng.chance(1, 4) { rng.below(16) * 2 } else { 0 });
        note(format!("code at {at:#x}: {}", r.is_ok()));
        self.code = at;
    }

    fn load(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        let mem = self.cfg.mem as u64;
        let elf = if rng.chance(1, 3) { program(rng, self.xlen, self.cfg.isa, self.cfg.version, mem) } else { rng.pick(&self.images).clone() };
        let a = args(rng, mem);
        note(format!("load {} bytes, {} args", elf.len(), a.len()));
        let t = cpu();
        let ok = match rng.below(6) {
            0 => self.e.load_elf(&elf, rng.chance(1, 2)).is_ok(),
            1 => {
                let m = if self.xlen == 64 { ckb_vm::elf::parse_elf::<u64>(&elf, self.cfg.version) } else { ckb_vm::elf::parse_elf::<u32>(&elf, self.cfg.version) };
                match m { Ok(m) => { let r = self.e.load_with_meta(&elf, &m, &a).is_ok(); let id = self.images.iter().position(|x| *x == elf); if r && rng.chance(1, 2) { let mut s = self.s2.lock().unwrap(); let _ = self.e.s2_mark(&mut s.ctx, &m, 10 + id.unwrap_or(0) as u32, if rng.chance(1, 4) { evil(rng, mem) } else { 0 }); } r }, Err(_) => false }
            }
            2 => { let m = if self.xlen == 64 { ckb_vm::elf::parse_elf::<u64>(&elf, self.cfg.version) } else { ckb_vm::elf::parse_elf::<u32>(&elf, self.cfg.version) }; m.is_ok() && self.e.load_binary(&elf, &m.unwrap(), true).is_ok() }
            _ => self.e.load_program(&elf, &a).is_ok(),
        };
        self.bound(t)?;
        self.seen(&ok);
        ctx.count(if ok { "images-loaded" } else { "images-refused" });
        Ok(())
    }

    fn run(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        self.budget(rng);
        if rng.chance(1, 15) { self.e.pause().interrupt(); }
        if rng.chance(1, 30) { self.e.set_running(rng.chance(1, 2)); }
        let from = self.e.cycles();
        note(format!("run from {:#x} cycles {from:#x} max {:#x}", self.e.pc(), self.e.max_cycles()));
        let t = cpu();
        let r = self.e.run();
        self.bound(t)?;
        self.seen(&r);
        let used = self.e.cycles().saturating_sub(from);
        if used < 1 << 40 { self.most_cycles = self.most_cycles.max(used); }
        let name = match &r { Ok(_) => "exit".to_string(), Err(x) => format!("{x:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() };
        ctx.count(&format!("runs:{name}"));
        ctx.seen(crate::rng::mix(&[self.e.kind() as u64, self.cfg.version as u64, self.cfg.isa as u64, name.bytes().fold(0u64, |h, b| h.wrapping_mul(31) + b as u64), self.most_cycles.min(4000) / 16]));
        Ok(())
    }

    fn regs(&mut self, rng: &mut Rng) {
        let mem = self.cfg.mem as u64;
        let tame = rng.chance(2, 3);
        for k in 0..32 { if tame || rng.chance(1, 2) { let v = if tame { 0x1000 + rng.below(mem - 0x2000) & if rng.chance(1, 2) { !7 } else { u64::MAX } } else { evil(rng, mem) }; self.e.set_reg(k, if k == 0 { 0 } else { v }); } }
        if rng.chance(1, 3) { self.e.set_reg(17, *rng.pick(&[93u64, 2001, 2005, 2011, 2013, 2014, 2015, 2012])); }
    }
    fn pc(&mut self, rng: &mut Rng) {
        let mem = self.cfg.mem as u64;
        let v = match rng.below(14) { 0 => evil(rng, mem), 1 => self.code + rng.below(PAGE), 3 | 4 | 5 => self.code + 4 * rng.below(PAGE / 4), 2 | 7 => (self.code + rng.below(2 * PAGE)) & !1, 6 => self.code + PAGE - 2, _ => self.code };
        self.e.set_pc(v);
    }

    fn host_call(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        let mem = self.cfg.mem as u64;
        let (a, n, v) = (evil(rng, mem), evil_len(rng, mem), rng.next());
        let w = 1u64 << rng.below(4);
        let k = rng.below(24);
        note(format!("call {k} ({a:#x}, {n:#x}, {v:#x}, {w})"));
        let t = cpu();
        let mut got = 0;
        let ok: Result<(), Error> = match k {
            0 | 1 => self.e.load_bytes(a, n).map(|b| got = hash(&b)),
            2 => { let l = n.min(mem * 2) as usize; self.e.store_bytes(a, &vec![v as u8; l]) }
            3 | 4 => self.e.fill(a, n, v as u8),
            5 => self.e.load_w(w, a).map(|v| got = v),
            6 => self.e.store_w(w, a, v),
            7 => self.e.exec16(a).map(|v| got = v as u64),
            8 => self.e.exec32(a).map(|v| got = v as u64),
            9 => self.e.flag(n).map(|v| got = v as u64),
            10 => self.e.set_flag(if rng.chance(1, 2) { n } else { n % (mem / PAGE) }, v as u8),
            11 => self.e.clear_flag(if rng.chance(1, 2) { n } else { n % (mem / PAGE) }, v as u8),
            12 | 13 => {
                let (a, n) = if rng.chance(3, 4) { (a & !(PAGE - 1), n & !(PAGE - 1)) } else { (a, n) };
                let src = if rng.chance(2, 3) { let l = evil_len(rng, mem).min(mem + 5) as usize; Some(Bytes::from(vec![v as u8; l])) } else { None };
                let off = if rng.chance(1, 2) { 0 } else { evil_len(rng, mem) };
                self.e.init_pages(a, n, v as u8, src, off)
            }
            14 => { self.e.set_lr(a); Ok(()) }
            15 => self.e.add_cycles(n),
            16 => self.e.add_cycles_no_checking(n),
            17 => {
                let mut s = self.s2.lock().unwrap();
                let id = *rng.pick(&[0u32, 1, 2, 3, 10, 11, 12, 77]);
                let (off, len, sa) = (evil_len(rng, 70000), evil_len(rng, 70000), evil(rng, mem));
                self.e.s2_store(&mut s.ctx, a, id, off, len, sa).map(|_| ())
            }
            18 => { let mut s = self.s2.lock().unwrap(); let n = if rng.chance(1, 2) { n } else { rng.below(20000) }; let off = if rng.chance(3, 4) { rng.below(80000) } else { evil(rng, mem) }; self.e.s2_track(&mut s.ctx, a, n, rng.below(5) as u32, off) }
            19 => { let mut s = self.s2.lock().unwrap(); self.e.s2_untrack(&mut s.ctx, a, n) }
            20 => { if rng.chance(1, 3) { self.e.reset_memory() } else { Ok(()) } }
            21 => { let mut p = self.e.pause(); p.interrupt(); if rng.chance(1, 2) { p.free(); } Ok(()) }
            22 => { if rng.chance(1, 2) { let (s, z) = (mem / 2 + rng.below(100), rng.below(mem / 2)); let ar = args(rng, mem); self.e.init_stack(&ar, s, z).map(|_| ()) } else { Ok(()) } }
            _ => { self.e.reset(*rng.pick(&[0u64, 1000, u64::MAX])) }
        };
        self.bound(t)?;
        self.seen(&(&ok, got));
        ctx.count(if ok.is_ok() { "host-calls" } else { "host-calls-refused" });
        Ok(())
    }

    fn steps(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        if !self.e.can_step() { return Ok(()); }
        self.budget(rng);
        note(format!("steps from {:#x}", self.e.pc()));
        let t = cpu();
        for _ in 0..rng.below(60) { let r = self.e.step(); self.seen(&r); if r.is_err() { break; } ctx.count("steps"); }
        self.bound(t)
    }

    fn snapshots(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        let mem = self.cfg.mem as u64;
        let t = cpu();
        match rng.below(6) {
            0 => { note("make v1".into()); if let Ok(s) = self.e.snap1() { self.seen(&hash(&s)); self.snaps.push(s); if self.snaps.len() > 3 { self.snaps.remove(0); } ctx.count("snapshots"); } }
            1 => { note("make v2".into()); let r = { let s = self.s2.lock().unwrap(); self.e.s2_make(&s.ctx) }; if let Ok(s) = r { let h = hash(&serde_json::to_vec(&s).unwrap()); self.seen(&h); self.snaps2.push(s); if self.snaps2.len() > 3 { self.snaps2.remove(0); } ctx.count("snapshots"); } }
            2 | 3 => {
                let mut s: Snapshot = if self.snaps.is_empty() || rng.chance(1, 6) { Snapshot { version: self.cfg.version, ..Default::default() } } else { serde_json::from_slice(&self.snaps[rng.us(self.snaps.len())]).unwrap() };
                for _ in 0..rng.below(4) { forge1(rng, &mut s, mem); }
                note(format!("resume v1 of {} pages", s.pages.len()));
                let r = self.e.resume1(&s);
                ctx.count(if r.is_ok() { "resumes" } else { "resumes-refused" });
            }
            _ => {
                let empty = Snapshot2 { pages_from_source: vec![], dirty_pages: vec![], version: self.cfg.version, registers: [0; 32], pc: 0, cycles: 0, max_cycles: 0, load_reservation_address: 0 };
                let mut s = if self.snaps2.is_empty() || rng.chance(1, 6) { empty } else { self.snaps2[rng.us(self.snaps2.len())].clone() };
                for _ in 0..rng.below(4) { forge2(rng, &mut s, mem); }
                note(format!("resume v2 of {} + {} ranges", s.pages_from_source.len(), s.dirty_pages.len()));
                let mut c = self.s2.lock().unwrap();
                let r = self.e.s2_resume(&mut c.ctx, &s);
                ctx.count(if r.is_ok() { "resumes" } else { "resumes-refused" });
            }
        }
        self.bound(t)
    }

    pub fn load_one(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V { self.load(ctx, rng) }
    pub fn snapshot_one(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V { self.snapshots(ctx, rng) }
    pub fn run_one(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V { self.run(ctx, rng) }
    pub fn code_one(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V { if rng.chance(1, 4) { self.place(rng); } self.pc(rng); self.regs(rng); if rng.chance(1, 4) { self.steps(ctx, rng) } else { self.run(ctx, rng) } }
    pub fn op(&mut self, ctx: &mut Ctx, rng: &mut Rng) -> V {
        match rng.below(40) {
            0..=3 => self.load(ctx, rng),
            4..=12 => self.run(ctx, rng),
            13..=15 => { self.place(rng); self.pc(rng); self.regs(rng); self.run(ctx, rng) }
            16..=18 => { self.regs(rng); self.pc(rng); self.run(ctx, rng) }
            19..=31 => self.host_call(ctx, rng),
            32..=34 => self.steps(ctx, rng),
            _ => self.snapshots(ctx, rng),
        }
    }
}

fn forge1(rng: &mut Rng, s: &mut Snapshot, mem: u64) {
    match rng.below(11) {
        0 => s.pc = evil(rng, mem),
        1 => { let k = 1 + rng.us(31); s.registers[k] = evil(rng, mem) }
        2 => { s.page_indices.pop(); }
        3 => { s.page_flags.pop(); }
        4 => { s.pages.pop(); }
        5 => if !s.page_indices.is_empty() { let k = rng.us(s.page_indices.len()); s.page_indices[k] = match rng.below(3) { 0 => rng.next(), 1 => mem / PAGE + rng.below(3), _ => u64::MAX - rng.below(3) } },
        6 => if !s.page_flags.is_empty() { let k = rng.us(s.page_flags.len()); s.page_flags[k] = rng.next() as u8 },
        7 => if !s.pages.is_empty() { let k = rng.us(s.pages.len()); let n = *rng.pick(&[0usize, 1, 4095, 4097, 8192, 300_000]); s.pages[k].resize(n, 3) },
        8 => { s.page_indices.push(evil(rng, mem) / PAGE); s.page_flags.push(rng.next() as u8); let n = *rng.pick(&[0usize, 5, 4096]); s.pages.push(rng.bytes(n)); }
        9 => s.load_reservation_address = evil(rng, mem),
        _ => s.version = s.version.wrapping_add(*rng.pick(&[0u32, 0, 1, u32::MAX])),
    }
}
fn forge2(rng: &mut Rng, s: &mut Snapshot2<u32>, mem: u64) {
    match rng.below(12) {
        0 => s.pc = evil(rng, mem),
        1 => { let k = 1 + rng.us(31); s.registers[k] = evil(rng, mem) }
        2 => { let d = (evil(rng, mem) & if rng.chance(3, 4) { !(PAGE - 1) } else { u64::MAX }, rng.next() as u8, { let n = *rng.pick(&[0usize, 1, 4096, 8192, 300_000]); vec![9u8; n] }); s.dirty_pages.push(d) }
        3 => { let d = (evil(rng, mem) & if rng.chance(3, 4) { !(PAGE - 1) } else { u64::MAX }, rng.next() as u8, *rng.pick(&[0u32, 1, 2, 3, 10, 50]), evil_len(rng, 70000), evil_len(rng, 70000)); s.pages_from_source.push(d) }
        4 => if !s.dirty_pages.is_empty() { let k = rng.us(s.dirty_pages.len()); s.dirty_pages[k].0 = evil(rng, mem) },
        5 => if !s.dirty_pages.is_empty() { let k = rng.us(s.dirty_pages.len()); let n = *rng.pick(&[0usize, 1, 4095, 8192, 2_000_000]); s.dirty_pages[k].2.resize(n, 3) },
        6 => if !s.pages_from_source.is_empty() { let k = rng.us(s.pages_from_source.len()); let p = &mut s.pages_from_source[k]; match rng.below(4) { 0 => p.0 = evil(rng, mem), 1 => p.3 = evil_len(rng, 70000), 2 => p.4 = evil_len(rng, 70000), _ => p.2 = rng.below(20) as u32 } },
        7 => { s.cycles = rng.next(); s.max_cycles = rng.next(); }
        8 => s.load_reservation_address = evil(rng, mem),
        9 => { s.cycles = 0; s.max_cycles = u64::MAX; }
        10 => if !s.dirty_pages.is_empty() { let k = rng.us(s.dirty_pages.len()); s.dirty_pages[k].1 = rng.next() as u8 },
        _ => s.version = s.version.wrapping_add(*rng.pick(&[0u32, 0, 1, u32::MAX])),
    }
}

/// arbitrary calls on a bare memory
pub fn bare<M: Memory>(m: &mut M, rng: &mut Rng, n: usize, limit: f64) -> V {
    let mem = m.memory_size() as u64;
    for _ in 0..n {
        let (a, l, v) = (evil(rng, mem), evil_len(rng, mem), rng.next());
        let k = rng.below(18);
        note(format!("memory call {k} ({a:#x}, {l:#x}, {v:#x})"));
        let (ra, rv) = (M::REG::from_u64(a), M::REG::from_u64(v));
        let t = cpu();
        match k {
            0 => drop(m.load_bytes(a, l)),
            1 => drop(m.store_bytes(a, &vec![v as u8; l.min(mem * 2) as usize])),
            2 => drop(m.store_byte(a, l, v as u8)),
            3 => drop((m.load8(&ra), m.load16(&ra), m.load32(&ra), m.load64(&ra))),
            4 => drop(m.store8(&ra, &rv)),
            5 => drop(m.store16(&ra, &rv)),
            6 => drop(m.store32(&ra, &rv)),
            7 => drop(m.store64(&ra, &rv)),
            8 => drop((m.execute_load16(a), m.execute_load32(a))),
            9 => drop(m.fetch_flag(l)),
            10 => drop(m.set_flag(if rng.chance(1, 2) { l } else { l % (mem / PAGE).max(1) }, v as u8)),
            11 => drop(m.clear_flag(if rng.chance(1, 2) { l } else { l % (mem / PAGE).max(1) }, v as u8)),
            12 | 13 => {
                let (a, l) = if rng.chance(2, 3) { (a & !(PAGE - 1), l & !(PAGE - 1)) } else { (a, l) };
                let src = if rng.chance(2, 3) { let l = evil_len(rng, mem).min(mem + 5) as usize; Some(Bytes::from(vec![v as u8; l])) } else { None };
                let off = if rng.chance(1, 2) { 0 } else { evil_len(rng, mem) };
                drop(m.init_pages(a, l, v as u8, src, off))
            }
            14 => { m.set_lr(&ra); drop(m.lr().to_u64()) }
            15 => if rng.chance(1, 10) { drop(m.reset_memory()) },
            16 => drop(m.load_bytes(a, l.min(mem))),
            _ => drop(m.memory_pages()),
        }
        let d = cpu() - t;
        if d > limit { return Err(format!("a call took {d:.1} s of CPU time; calls: {}", trail())); }
    }
    Ok(())
}
pub fn bare_any(rng: &mut Rng, n: usize, limit: f64) -> V {
    let mem = *rng.pick(&[0usize, 4096, 8192, 1 << 18, 1 << 18, 1 << 20]);
    note(format!("new bare memory of {mem:#x}"));
    match rng.below(8) {
        0 => bare(&mut FlatMemory::<u64>::new_with_memory(mem), rng, n, limit),
        1 => bare(&mut SparseMemory::<u64>::new_with_memory(mem), rng, n, limit),
        2 => bare(&mut WXorXMemory::new(FlatMemory::<u64>::new_with_memory(mem)), rng, n, limit),
        3 => bare(&mut WXorXMemory::new(SparseMemory::<u64>::new_with_memory(mem)), rng, n, limit),
        4 => bare(&mut FlatMemory::<u32>::new_with_memory(mem), rng, n, limit),
        5 => bare(&mut SparseMemory::<u32>::new_with_memory(mem), rng, n, limit),
        6 => bare(&mut WXorXMemory::new(SparseMemory::<u32>::new_with_memory(mem)), rng, n, limit),
        _ => { use ckb_vm::machine::asm::AsmCoreMachine; let mut m: Box<AsmCoreMachine> = AsmCoreMachine::new_with_memory(ISA_A, 2, 0, mem.max(1 << 18)); bare(&mut m, rng, n, limit) }
    }
}
