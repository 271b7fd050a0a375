//! The embedding host: syscall handlers and debugger, written once over an abstract machine so the
//! reference model and every real engine are driven by identical host behaviour. Every invocation
//! is logged at the boundary.
use crate::rng::mix;
use ckb_vm::{Bytes, Debugger, Error, Memory, Register, SupportMachine, Syscalls};
use std::sync::{Arc, Mutex};

/// Why a host operation on the machine failed (coarse on purpose).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum HErr { Mem, Cycles, Yield, External(String), Other(String), Kind(u8, u64) }

/// What a handler may do to a machine.
pub trait HostOps {
    fn reg(&self, i: usize) -> u64;
    fn set_reg(&mut self, i: usize, v: u64);
    fn cycles(&self) -> u64;
    fn set_cycles(&mut self, v: u64);
    fn max_cycles(&self) -> u64;
    fn set_max_cycles(&mut self, v: u64);
    fn add_cycles(&mut self, n: u64) -> Result<(), HErr>;
    fn add_cycles_no_checking(&mut self, n: u64) -> Result<(), HErr>;
    fn load(&mut self, addr: u64, n: u64) -> Result<Vec<u8>, HErr>;
    fn store(&mut self, addr: u64, b: &[u8]) -> Result<(), HErr>;
    fn fill(&mut self, addr: u64, n: u64, v: u8) -> Result<(), HErr>;
    fn load_w(&mut self, w: u64, addr: u64) -> Result<u64, HErr>;
    fn store_w(&mut self, w: u64, addr: u64, v: u64) -> Result<(), HErr>;
    fn set_flag(&mut self, page: u64, f: u8) -> Result<(), HErr>;
    fn clear_flag(&mut self, page: u64, f: u8) -> Result<(), HErr>;
    /// reset and load another image the way an exec-like syscall does
    fn exec(&mut self, img: &Image, max_cycles: u64) -> Result<(), HErr>;
    /// maps a piece of code, as the program loader does
    fn map(&mut self, addr: u64, size: u64, flags: u8, src: &[u8], off: u64) -> Result<(), HErr>;
    fn raw_pc(&self) -> u64;
    fn set_running(&mut self, v: bool);
    fn mem_size(&self) -> u64;
    /// write a slice of a data item through the tracked data source
    fn s2_store(&mut self, s2: &Arc<Mutex<crate::s2::S2>>, p: &S2Put) -> Result<(u64, u64), HErr>;
}

/// Arguments of one tracked write.
#[derive(Clone, Debug)]
pub struct S2Put { pub addr: u64, pub id: u32, pub off: u64, pub len: u64, pub size_addr: u64 }
/// the part of memory tracked writes and their disturbances concentrate on
pub fn heap(ms: u64) -> (u64, u64) { (ms / 2 - crate::refiss::PAGE, 8) }
pub fn s2_args(seed: u64, ms: u64, items: &std::collections::HashMap<u32, Bytes>) -> S2Put {
    let mut r = crate::rng::Rng::new(seed);
    const P: u64 = crate::refiss::PAGE;
    let (h, n) = heap(ms);
    let mut addr = h + P * r.below(n) + if r.chance(1, 4) { r.below(P) } else { 0 };
    if r.chance(1, 30) { addr = *r.pick(&[ms - P, ms - P / 2, ms, u64::MAX - 100, 0, 0x10000]); }
    let id = if r.chance(1, 20) { 77 } else { 1 + r.below(items.len().max(2) as u64 - 1) as u32 };
    let full = items.get(&id).map_or(0, |b| b.len() as u64);
    let off = match r.below(4) { 0 => r.below(full + 1), 1 => (full & !(P - 1)).saturating_sub(P * r.below(3)), 2 => full + r.below(3), _ => P * r.below(full / P + 1) };
    // now and then the place in memory follows the place in the item, whichever item it is
    let off = if addr >= h && addr < h + P * n && r.chance(1, 3) { (addr - h).min(full) } else { off };
    let len = match r.below(6) { 0 => 0, 1 => r.below(2 * P), 2 => r.below(4 * P), _ => P * (1 + r.below(3)) };
    let size_addr = match r.below(12) { 0 => addr.wrapping_add(8 * r.below(64)), 1 => *r.pick(&[ms - 8, ms - 7, ms, 0x10010, u64::MAX - 3]), 2 => h + P * r.below(n) + 8 * r.below(512), _ => h + P * n + 8 * r.below(64) };
    S2Put { addr, id, off, len, size_addr }
}

/// A program image: the ELF file, how it was built, and its arguments.
#[derive(Clone, Debug)]
pub struct Image {
    pub elf: Bytes,
    pub segs: Vec<crate::enc::Seg>,
    pub entry: u64,
    pub args: Vec<Bytes>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EvKind { Init(usize), DebugInit, Ecall(usize), Ebreak }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev { pub kind: EvKind, pub regs: [u64; 32], pub cycles: u64, pub raw_pc: u64 }

#[derive(Default)]
pub struct HostState {
    pub log: Vec<Ev>,
    pub keep_log: bool,
    pub log_cap: usize,
    pub log_hash: u64,
    pub events: u64,
    /// images for exec-like syscalls
    pub images: Vec<Image>,
    /// which handler accepts which call number: handler k accepts n when `(n >> (4*k)) & ...`; see `accepts`
    pub accept_seed: u64,
    pub nhandlers: usize,
    pub has_debugger: bool,
    pub pause: Option<ckb_vm::machine::Pause>,
    /// exec counter, so that chains of exec terminate
    pub execs: usize,
    pub ebreak_err_at: Option<u64>,
    pub ebreaks: u64,
    pub data: Vec<u8>,
    pub s2: Option<Arc<Mutex<crate::s2::S2>>>,
    pub pauses: u64,
    /// CALL_LOG answers independently of the cycle counter
    pub cycle_blind: bool,
    /// permission changes only on pages that were written
    pub protect_written: bool,
    /// declining handlers change things as well
    pub meddle: bool,
    /// events seen with the cycle counter above the limit
    pub over: u64,
    /// called before every system call is looked at
    pub nested: Option<Box<dyn FnMut() + Send>>,
}

pub type Shared = Arc<Mutex<HostState>>;

pub const CALL_LOG: u64 = 2000;
pub const CALL_STORE: u64 = 2001;
pub const CALL_ADD: u64 = 2002;
pub const CALL_ADD_NC: u64 = 2003;
pub const CALL_REGS: u64 = 2004;
pub const CALL_EXEC: u64 = 2005;
pub const CALL_YIELD: u64 = 2006;
pub const CALL_LOAD: u64 = 2007;
pub const CALL_PAUSE: u64 = 2008;
pub const CALL_CLEAN: u64 = 2009;
pub const CALL_ERR: u64 = 2010;
pub const CALL_S2: u64 = 2011;
pub const CALL_FILL: u64 = 2012;
pub const CALL_STORE_W: u64 = 2013;
pub const CALL_LOAD_W: u64 = 2014;
pub const CALL_PROTECT: u64 = 2015;
/// charges and stops the machine
pub const CALL_STOP: u64 = 2016;
pub const CALL_ERRK: u64 = 2017;
/// loads a piece of code into memory the program names
pub const CALL_CODE: u64 = 2018;
pub const CALL_LAST: u64 = 2019;
/// numbers that resemble the exit call
pub const ODD: &[u64] = &[93 + 256, 93 + 65536, 93 + (1 << 32), 93 + (1 << 63), 93 + (1 << 31), 92, 94, 0, u64::MAX];

impl HostState {
    pub fn new(accept_seed: u64, nhandlers: usize, has_debugger: bool) -> Self {
        HostState { keep_log: true, log_cap: 20_000, accept_seed, nhandlers, has_debugger, ..Default::default() }
    }
    /// index of the first handler that accepts call `n`
    pub fn acceptor(&self, n: u64) -> Option<usize> {
        if !((CALL_LOG..CALL_LAST).contains(&n) || ODD.contains(&n)) || self.nhandlers == 0 { return None; }
        Some((mix(&[self.accept_seed, n]) % self.nhandlers as u64) as usize)
    }
    pub fn note(&mut self, kind: EvKind, m: &dyn HostOps) {
        let mut regs = [0u64; 32];
        for (k, r) in regs.iter_mut().enumerate() { *r = m.reg(k); }
        let tag = match kind { EvKind::Init(k) => 100 + k as u64, EvKind::DebugInit => 99, EvKind::Ecall(k) => 1000 + k as u64, EvKind::Ebreak => 98 };
        let mut h = vec![self.log_hash, tag, m.cycles()];
        h.extend_from_slice(&regs);
        self.log_hash = mix(&h);
        self.events += 1;
        if m.cycles() > m.max_cycles() { self.over += 1; }
        if self.keep_log && self.log.len() < self.log_cap { self.log.push(Ev { kind, regs, cycles: m.cycles(), raw_pc: m.raw_pc() }); }
    }
}

fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3); }
    h ^ (b.len() as u64) << 56
}

pub fn pattern(seed: u64, n: u64) -> Vec<u8> { crate::rng::Rng::new(seed).bytes(n as usize) }

/// One handler's reaction to an ecall.
pub fn on_ecall(m: &mut dyn HostOps, idx: usize, st: &Shared) -> Result<bool, HErr> {
    let mut s = st.lock().unwrap();
    s.note(EvKind::Ecall(idx), m);
    let n = m.reg(17);
    if s.acceptor(n) != Some(idx) {
        // a handler may look around and change things before it declines
        if s.meddle && mix(&[n, idx as u64, 9]) % 3 == 0 {
            let v = m.reg(28);
            m.set_reg(28, v.wrapping_mul(3).wrapping_add(idx as u64 + 1) & 0x7fff_ffff);
            m.add_cycles_no_checking(1)?;
            let sp = m.reg(2);
            if mix(&[n, idx as u64]) & 1 == 1 { let _ = m.store(sp.wrapping_sub(64), &[idx as u8, v as u8]); }
        }
        return Ok(false);
    }
    let (a0, a1, a2) = (m.reg(10), m.reg(11), m.reg(12));
    match n {
        CALL_LOG => { let c = if s.cycle_blind { 0 } else { m.cycles() }; let v = mix(&[a0, a1, a2, c]) & 0x7fff_ffff; m.set_reg(10, v); }
        CALL_STORE => { let r = m.store(a0, &pattern(a1, a2 & 0x3f)); m.set_reg(10, r.is_err() as u64); }
        CALL_FILL => { let r = m.fill(a0, a2 & 0x1fff, a1 as u8); m.set_reg(10, r.is_err() as u64); }
        CALL_ADD => { m.add_cycles(a0 & 0xfff)?; m.set_reg(10, 7); }
        CALL_ADD_NC => { m.add_cycles_no_checking(a0 & 0xfff)?; m.set_reg(10, 8); }
        CALL_STOP => { m.add_cycles_no_checking(a0 & 0xfff)?; m.set_running(false); m.set_reg(10, 9); }
        CALL_REGS => { for k in [5usize, 6, 7, 10, 11, 12, 13, 14, 15, 16, 28, 29] { let v = mix(&[a0, k as u64]) & 0x7fff_ffff; m.set_reg(k, v); } }
        CALL_EXEC => {
            s.execs += 1;
            let k = s.images.len();
            if k == 0 { m.set_reg(10, 1); return Ok(true); }
            let img = s.images[(s.execs - 1) % k].clone();
            // the handler keeps the accumulated cycles, as real exec-like hosts do
            let (c, max) = (m.cycles(), m.max_cycles());
            if s.execs > k { m.set_reg(10, 1); return Ok(true); }
            drop(s);
            m.exec(&img, max)?;
            m.set_cycles(c);
            // registers other than the stack pointer start at zero
        }
        CALL_YIELD => { m.set_reg(10, a0.wrapping_add(1) & 0x7fff_ffff); return Err(HErr::Yield); }
        CALL_LOAD => { let v = match m.load(a0, a1 & 0x7f) { Ok(b) => hash_bytes(&b) & 0x7fff_ffff, Err(_) => 0 }; m.set_reg(10, v); }
        CALL_PAUSE => { s.pauses += 1; if let Some(p) = &s.pause { p.interrupt(); } m.set_reg(10, 3); }
        CALL_CLEAN => { let r = m.clear_flag(a0 >> 12, crate::refiss::DIRTY); m.set_reg(10, r.is_err() as u64); }
        CALL_ERR => { m.set_reg(10, 5); return Err(HErr::External("host".into())); }
        CALL_ERRK => { m.set_reg(10, 6); return Err(HErr::Kind((a1 % 9) as u8, if a0 & 1 == 0 { m.reg(17) } else { a0 })); }
        CALL_S2 => {
            let v = match s.s2.clone() {
                None => 0,
                Some(s2) => {
                    let p = { let l = s2.lock().unwrap(); s2_args(mix(&[a0, a1]), m.mem_size(), &l.src.items) };
                    match m.s2_store(&s2, &p) { Ok((w, f)) => mix(&[w, f]) & 0xffff, Err(_) => 1 << 20 }
                }
            };
            m.set_reg(10, v);
        }
        CALL_STORE_W => { let w = 1 << (a2 & 3); let r = m.store_w(w, a0, a1); m.set_reg(10, r.is_err() as u64); }
        CALL_LOAD_W => { let w = 1 << (a2 & 3); let v = m.load_w(w, a0).unwrap_or(0xbad); m.set_reg(10, v & 0x7fff_ffff); }
        CALL_PROTECT => {
            // a snapshot carries pages that were written: have this one written before its permission changes
            let at = a0 & !(crate::refiss::PAGE - 1);
            if s.protect_written && a1 & 1 == 1 && m.load(at, 1).and_then(|b| m.store(at, &b)).is_err() { m.set_reg(10, 1); return Ok(true); }
            let r = if a1 & 1 == 1 { m.set_flag(a0 >> 12, crate::refiss::EXEC) } else { m.clear_flag(a0 >> 12, crate::refiss::EXEC) };
            m.set_reg(10, r.is_err() as u64);
        }
        CALL_CODE => {
            let (size, off, code) = crate::islands::plugin(mix(&[a0, a1]), a2 & 1 == 1);
            let r = m.map(a0, size, crate::refiss::EXEC | crate::refiss::FREEZED, &code, off);
            m.set_reg(10, if r.is_ok() { a0 + off } else { 0 });
        }
        _ if ODD.contains(&n) => { let v = mix(&[a0, n]) & 0x7fff_ffff; m.set_reg(10, v); }
        _ => return Ok(false),
    }
    Ok(true)
}

pub fn on_ebreak(m: &mut dyn HostOps, st: &Shared) -> Result<(), HErr> {
    let mut s = st.lock().unwrap();
    s.note(EvKind::Ebreak, m);
    s.ebreaks += 1;
    if s.ebreak_err_at == Some(s.ebreaks) { return Err(HErr::External("debugger".into())); }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Adapter over real machines.

pub struct Adapter<'a, M>(pub &'a mut M);

fn he(e: Error) -> HErr {
    match e {
        Error::CyclesExceeded | Error::CyclesOverflow => HErr::Cycles,
        Error::MemOutOfBound(..) | Error::MemWriteOnExecutablePage(_) | Error::MemWriteOnFreezedPage(_) | Error::MemPageUnalignedAccess(_) | Error::MemOutOfStack => HErr::Mem,
        e => HErr::Other(format!("{e:?}")),
    }
}

impl<'a, M: SupportMachine> HostOps for Adapter<'a, M> {
    fn reg(&self, i: usize) -> u64 { self.0.registers()[i].to_u64() }
    fn set_reg(&mut self, i: usize, v: u64) { self.0.set_register(i, M::REG::from_u64(v)); }
    fn cycles(&self) -> u64 { self.0.cycles() }
    fn set_cycles(&mut self, v: u64) { self.0.set_cycles(v) }
    fn max_cycles(&self) -> u64 { self.0.max_cycles() }
    fn set_max_cycles(&mut self, v: u64) { self.0.set_max_cycles(v) }
    fn add_cycles(&mut self, n: u64) -> Result<(), HErr> { self.0.add_cycles(n).map_err(he) }
    fn add_cycles_no_checking(&mut self, n: u64) -> Result<(), HErr> { self.0.add_cycles_no_checking(n).map_err(he) }
    fn load(&mut self, addr: u64, n: u64) -> Result<Vec<u8>, HErr> { self.0.memory_mut().load_bytes(addr, n).map(|b| b.to_vec()).map_err(he) }
    fn store(&mut self, addr: u64, b: &[u8]) -> Result<(), HErr> { self.0.memory_mut().store_bytes(addr, b).map_err(he) }
    fn fill(&mut self, addr: u64, n: u64, v: u8) -> Result<(), HErr> { self.0.memory_mut().store_byte(addr, n, v).map_err(he) }
    fn load_w(&mut self, w: u64, addr: u64) -> Result<u64, HErr> {
        let a = M::REG::from_u64(addr);
        let m = self.0.memory_mut();
        match w { 1 => m.load8(&a), 2 => m.load16(&a), 4 => m.load32(&a), _ => m.load64(&a) }.map(|v| v.to_u64()).map_err(he)
    }
    fn store_w(&mut self, w: u64, addr: u64, v: u64) -> Result<(), HErr> {
        let (a, v) = (M::REG::from_u64(addr), M::REG::from_u64(v));
        let m = self.0.memory_mut();
        match w { 1 => m.store8(&a, &v), 2 => m.store16(&a, &v), 4 => m.store32(&a, &v), _ => m.store64(&a, &v) }.map_err(he)
    }
    fn set_flag(&mut self, page: u64, f: u8) -> Result<(), HErr> { self.0.memory_mut().set_flag(page, f).map_err(he) }
    fn clear_flag(&mut self, page: u64, f: u8) -> Result<(), HErr> { self.0.memory_mut().clear_flag(page, f).map_err(he) }
    fn exec(&mut self, img: &Image, max: u64) -> Result<(), HErr> {
        self.0.reset(max).map_err(he)?;
        self.0.load_elf(&img.elf, true).map_err(he)?;
        let ms = self.0.memory().memory_size() as u64;
        self.0.initialize_stack(&img.args, ms - ms / 4, ms / 4).map_err(he)?;
        Ok(())
    }
    fn map(&mut self, addr: u64, size: u64, flags: u8, src: &[u8], off: u64) -> Result<(), HErr> {
        self.0.memory_mut().init_pages(addr, size, flags, Some(Bytes::from(src.to_vec())), off).map_err(he)
    }
    fn raw_pc(&self) -> u64 { self.0.pc().to_u64() }
    fn set_running(&mut self, v: bool) { self.0.set_running(v) }
    fn mem_size(&self) -> u64 { self.0.memory().memory_size() as u64 }
    fn s2_store(&mut self, s2: &Arc<Mutex<crate::s2::S2>>, p: &S2Put) -> Result<(u64, u64), HErr> {
        let mut l = s2.lock().unwrap();
        l.ctx.store_bytes(self.0, p.addr, &p.id, p.off, p.len, p.size_addr).map_err(he)
    }
}

pub fn to_err(e: HErr) -> Error {
    match e {
        HErr::Mem => Error::External("host-mem".into()),
        HErr::Cycles => Error::CyclesExceeded,
        HErr::Yield => Error::Yield,
        HErr::External(s) => Error::External(s),
        HErr::Other(s) => Error::Unexpected(s),
        HErr::Kind(k, n) => match k % 9 {
            0 => Error::InvalidEcall(n),
            1 => Error::MemOutOfBound(n, ckb_vm::error::OutOfBoundKind::Memory),
            2 => Error::InvalidInstruction { pc: n, instruction: n as u32 },
            3 => Error::CyclesExceeded,
            4 => Error::MemWriteOnExecutablePage(n),
            5 => Error::Pause,
            6 => Error::InvalidVersion,
            7 => Error::MemOutOfStack,
            _ => Error::Unexpected(format!("{n}")),
        },
    }
}

pub struct Handler { pub idx: usize, pub st: Shared }
impl<M: SupportMachine> Syscalls<M> for Handler {
    fn initialize(&mut self, m: &mut M) -> Result<(), Error> {
        let idx = self.idx;
        self.st.lock().unwrap().note(EvKind::Init(idx), &Adapter(m));
        Ok(())
    }
    fn ecall(&mut self, m: &mut M) -> Result<bool, Error> {
        let f = if self.idx == 0 { self.st.lock().unwrap().nested.take() } else { None };
        if let Some(mut f) = f { f(); self.st.lock().unwrap().nested = Some(f); }
        on_ecall(&mut Adapter(m), self.idx, &self.st).map_err(to_err)
    }
}
pub struct Dbg { pub st: Shared }
impl<M: SupportMachine> Debugger<M> for Dbg {
    fn initialize(&mut self, m: &mut M) -> Result<(), Error> {
        self.st.lock().unwrap().note(EvKind::DebugInit, &Adapter(m));
        Ok(())
    }
    fn ebreak(&mut self, m: &mut M) -> Result<(), Error> { on_ebreak(&mut Adapter(m), &self.st).map_err(to_err) }
}
