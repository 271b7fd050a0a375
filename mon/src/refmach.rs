//! Reference machine: the reference instruction set model plus image loading, stack layout, cycle
//! accounting, syscalls and the host. Predicts what every engine has to do.
use crate::enc::{PF_R, PF_W, PF_X};
use crate::host::*;
use crate::refiss::*;
use crate::rng::mix;
use ckb_vm::Bytes;

/// A cost function, identified by data so that it can be evaluated for reference operations and
/// turned into the closure the VM wants.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Costs { Zero, One, Published, Hash { seed: u64, lo: u64, span: u64 } }

impl Costs {
    pub fn name_cost(&self, name: &str, published: u64) -> u64 {
        match self {
            Costs::Zero => 0,
            Costs::One => 1,
            Costs::Published => published,
            Costs::Hash { seed, lo, span } => {
                let mut v = vec![*seed];
                v.extend(name.bytes().map(|b| b as u64));
                lo + mix(&v) % span
            }
        }
    }
    pub fn op(&self, op: Op) -> u64 { self.name_cost(&format!("{op:?}"), cost(op)) }
    pub fn fused(&self, f: Fused) -> u64 { self.name_cost(fused_name(f), fused_cost(f)) }
    /// the closure handed to the VM
    pub fn vm_func(&self) -> Box<dyn Fn(ckb_vm::Instruction) -> u64 + Send + Sync> {
        match self {
            Costs::Zero => Box::new(|_| 0),
            Costs::One => Box::new(ckb_vm::cost_model::constant_cycles),
            Costs::Published => Box::new(ckb_vm::cost_model::estimate_cycles),
            Costs::Hash { .. } => {
                let c = *self;
                let n = ckb_vm_definitions::instructions::MAXIMUM_OPCODE as usize + 1;
                let table: Vec<u64> = (0..n).map(|k| c.name_cost(&vm_name(k as u16), 0)).collect();
                Box::new(move |i| table[ckb_vm::instructions::extract_opcode(i) as usize])
            }
        }
    }
    pub fn table(&self) -> CostTable {
        CostTable { ops: ALL_OPS.iter().map(|o| self.op(*o)).collect(), c: *self }
    }
}
use ckb_vm::ckb_vm_definitions;

pub fn vm_name(op: u16) -> String { canon_name(ckb_vm_definitions::instructions::instruction_opcode_name(op)) }
/// drops the version suffix of the VM's internal operation names
pub fn canon_name(n: &str) -> String {
    n.strip_suffix("_VERSION0").or_else(|| n.strip_suffix("_VERSION1")).unwrap_or(n).to_string()
}

#[derive(Clone)]
pub struct CostTable { ops: Vec<u64>, c: Costs }
impl CostTable { pub fn op(&self, op: Op) -> u64 { self.ops[op as usize] } pub fn fused(&self, f: Fused) -> u64 { self.c.fused(f) } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RStop {
    Exit(i8),
    Oob, Perm, Illegal(u64, u32),
    CyclesExceeded, CyclesOverflow,
    InvalidEcall(u64),
    Host(HErr),
    InvalidVersion,
    Pause,
    /// the model does not say (reserved encodings) or the instruction budget ran out
    Unknown(&'static str),
}

pub struct RefMachine {
    pub vm: RefVm,
    pub cycles: u64,
    pub max_cycles: u64,
    pub costs: CostTable,
    pub running: bool,
    pub exit: i8,
    pub st: Shared,
    pub insts: u64,
    /// executed (pc) trace when asked for
    pub trace: Option<Vec<(u64, u64)>>,
    pub fused_seen: u64,
    /// next pc while inside a handler
    pub next_pc: u64,
    /// pc after the last instruction that ends a block, and whether anything was written since
    pub block_start: u64,
    pub wrote: bool,
    /// pages instructions may have been decoded from, when asked for
    pub fetched: Option<std::collections::BTreeSet<u64>>,
    pub pending_pause: bool,
    /// an instruction was fetched from a pc at or above 4 GiB
    pub high_pc: bool,
    pub opmask: [u64; 4],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum LoadErr { Any }

impl RefMachine {
    pub fn new(xlen: u32, isa: u8, version: u32, mem: usize, max: u64, costs: Costs, st: Shared) -> Self {
        RefMachine {
            vm: RefVm::new(xlen, isa, version, mem), cycles: 0, max_cycles: max, costs: costs.table(), running: false, exit: 0, st, insts: 0,
            trace: None, fused_seen: 0, next_pc: 0, block_start: 0, wrote: false, fetched: None, pending_pause: false, high_pc: false, opmask: [0; 4],
        }
    }
    pub fn reset(&mut self, max: u64) {
        self.vm.x = [0; 32];
        self.vm.pc = 0;
        let tracked = self.vm.mem.written.is_some();
        self.vm.mem = RefMem { read_fresh: self.vm.mem.read_fresh.clone(), ..RefMem::new(self.vm.mem.bytes.len()) };
        if tracked { self.vm.mem.written = Some(vec![false; self.vm.mem.bytes.len()]); }
        self.vm.lr = None;
        self.cycles = 0;
        self.max_cycles = max;
    }
    /// Maps the segments of an image (an image this harness built itself).
    pub fn load_image(&mut self, img: &Image) -> Result<(), LoadErr> {
        let size = self.vm.mem.size();
        let v0 = self.vm.version == 0;
        let mut acts = vec![];
        for s in &img.segs {
            if s.memsz == 0 && s.data.is_empty() && false { continue; }
            if s.flags & PF_R == 0 { return Err(LoadErr::Any); }
            if s.flags & PF_W != 0 && s.flags & PF_X != 0 { return Err(LoadErr::Any); }
            let fl = if s.flags & PF_X != 0 { EXEC | FREEZED } else if s.flags & PF_W != 0 && !v0 { 0 } else { FREEZED };
            let start = s.vaddr & !(PAGE - 1);
            let pad = s.vaddr - start;
            let len = (s.memsz + pad + PAGE - 1) & !(PAGE - 1);
            acts.push((start, pad, len, fl, s));
        }
        for (start, pad, len, fl, s) in acts {
            if start.checked_add(len).map_or(true, |e| e > size) { return Err(LoadErr::Any); }
            let (p0, p1) = ((start / PAGE) as usize, ((start + len) / PAGE) as usize);
            if self.vm.mem.flags[p0..p1].iter().any(|f| f & FREEZED != 0) { return Err(LoadErr::Any); }
            let _ = (p0, p1);
            self.vm.mem.init_pages(start, len, fl, Some(&s.data), pad).map_err(|_| LoadErr::Any)?;
            if v0 && pad > 0 {
                // version 0 clears the leading bytes once more with an ordinary host store
                if fl & EXEC != 0 { return Err(LoadErr::Any); }
            }
        }
        self.vm.pc = self.vm.mask(img.entry);
        Ok(())
    }
    pub fn init_stack(&mut self, args: &[Bytes]) -> Result<(), LoadErr> {
        let ms = self.vm.mem.size();
        let (start, top) = (ms - ms / 4, ms);
        let w = self.vm.xlen as u64 / 8;
        if self.vm.version >= 1 && args.is_empty() {
            self.vm.x[2] = (top - w) & !15;
            return Ok(());
        }
        let mut sp = top;
        let mut ptrs = vec![];
        for a in args {
            sp = match sp.checked_sub(a.len() as u64 + 1) { Some(s) => s, None => return Err(LoadErr::Any) };
            for (k, b) in a.iter().chain(std::iter::once(&0u8)).enumerate() { self.vm.mem.store(sp + k as u64, 1, *b as u64).map_err(|_| LoadErr::Any)?; }
            ptrs.push(sp);
        }
        let mut words = vec![args.len() as u64];
        words.extend_from_slice(&ptrs);
        if self.vm.version >= 1 {
            words.push(0);
            sp = match sp.checked_sub(w * words.len() as u64) { Some(s) => s & !15, None => return Err(LoadErr::Any) };
            for (k, v) in words.iter().enumerate() { self.vm.mem.store(sp + w * k as u64, w, *v).map_err(|_| LoadErr::Any)?; }
        } else {
            sp = match sp.checked_sub(w * words.len() as u64) { Some(s) => s, None => return Err(LoadErr::Any) };
            // version 0: one 32-bit store per register-sized slot
            for (k, v) in words.iter().enumerate() { self.vm.mem.store(sp + w * k as u64, 4, *v).map_err(|_| LoadErr::Any)?; }
        }
        self.vm.x[2] = sp;
        if sp < start { return Err(LoadErr::Any); }
        Ok(())
    }
    pub fn load(&mut self, img: &Image) -> Result<(), LoadErr> {
        self.load_image(img)?;
        let (n, dbg) = { let s = self.st.lock().unwrap(); (s.nhandlers, s.has_debugger) };
        for k in 0..n { let st = self.st.clone(); let m = MOps(self); st.lock().unwrap().note(EvKind::Init(k), &m); }
        if dbg { let st = self.st.clone(); let m = MOps(self); st.lock().unwrap().note(EvKind::DebugInit, &m); }
        self.init_stack(&img.args)
    }
    fn add(&mut self, n: u64) -> Result<(), RStop> {
        let c = self.cycles.checked_add(n).ok_or(RStop::CyclesOverflow)?;
        if c > self.max_cycles { return Err(RStop::CyclesExceeded); }
        self.cycles = c;
        Ok(())
    }
    fn stop(e: Stop) -> RStop {
        match e { Stop::Oob => RStop::Oob, Stop::Perm => RStop::Perm, Stop::Illegal(p, w) => RStop::Illegal(p, w), Stop::Unspecified => RStop::Unknown("reserved encoding") }
    }
    /// Executes one instruction or fused group.
    pub fn step(&mut self) -> Result<(), RStop> {
        let pc = self.vm.pc;
        if pc >= 1 << 32 { self.high_pc = true; }
        if let Some(f) = &mut self.fetched { f.insert(pc / PAGE); f.insert(pc.saturating_add(80) / PAGE); }
        let head = self.vm.decode_at(pc).map_err(Self::stop)?;
        if let Some(t) = &mut self.trace { if t.len() < 1 << 20 { t.push((pc, self.cycles)); } }
        self.opmask[head.op as usize / 64] |= 1 << (head.op as usize % 64);
        if self.vm.isa & ISA_MOP != 0 && fusable_head(head.op) {
            let mut parts = vec![head];
            let mut at = pc + head.len as u64;
            while parts.len() < 5 {
                match self.vm.decode_at(at) { Ok(i) => { at += i.len as u64; parts.push(i); } Err(_) => break }
            }
            if let Some((f, n)) = fuse(&parts, pc, self.vm.version) {
                let c = self.costs.fused(f);
                self.add(c)?;
                self.fused_seen += 1;
                if self.vm.version == 1 && matches!(f, Fused::FarAbs | Fused::FarRel) {
                    // documented version-1 behaviour: only the link register is written
                    let keep = self.vm.x;
                    for p in &parts[..n] { self.vm.exec(p).map_err(Self::stop)?; }
                    let ra = self.vm.x[1];
                    self.vm.x = keep;
                    self.vm.x[1] = ra;
                } else {
                    for p in &parts[..n] { self.vm.exec(p).map_err(Self::stop)?; }
                }
                if parts[..n].iter().any(|p| crate::common::ends_block(p.op)) { self.block_start = self.vm.pc; self.wrote = false; }
                self.insts += n as u64;
                return Ok(());
            }
        }
        let c = self.costs.op(head.op);
        self.add(c)?;
        self.insts += 1;
        if writes_memory(head.op) { self.wrote = true; }
        let r = match self.vm.exec(&head).map_err(Self::stop)? {
            Event::Plain => Ok(()),
            Event::Ecall => self.ecall(),
            Event::Ebreak => self.ebreak(),
        };
        if crate::common::ends_block(head.op) { self.block_start = self.vm.pc; self.wrote = false; }
        r
    }
    fn ecall(&mut self) -> Result<(), RStop> {
        let n = self.vm.x[17];
        if n == 93 { self.exit = self.vm.x[10] as u8 as i8; self.running = false; return Ok(()); }
        let k = self.st.lock().unwrap().nhandlers;
        let st = self.st.clone();
        self.next_pc = self.vm.pc;
        for idx in 0..k {
            let r = on_ecall(&mut MOps(self), idx, &st);
            self.vm.pc = self.next_pc;
            match r {
                Ok(true) => return if self.cycles > self.max_cycles { Err(RStop::CyclesExceeded) } else { Ok(()) },
                Ok(false) => {}
                Err(HErr::Cycles) => return Err(RStop::CyclesExceeded),
                Err(e) => return Err(RStop::Host(e)),
            }
        }
        Err(RStop::InvalidEcall(n))
    }
    fn ebreak(&mut self) -> Result<(), RStop> {
        if !self.st.lock().unwrap().has_debugger { return Ok(()); }
        let st = self.st.clone();
        self.next_pc = self.vm.pc;
        on_ebreak(&mut MOps(self), &st).map_err(RStop::Host)
    }
    /// Runs to the end, or until `budget` instructions were executed.
    pub fn run(&mut self, budget: u64) -> RStop {
        if self.vm.isa & ISA_MOP != 0 && self.vm.version == 0 { return RStop::InvalidVersion; }
        self.running = true;
        self.block_start = self.vm.pc;
        self.wrote = false;
        let end = self.insts + budget;
        while self.running {
            if self.insts >= end { return RStop::Unknown("budget"); }
            if let Err(e) = self.step() { return e; }
        }
        RStop::Exit(self.exit)
    }
}

pub fn writes_memory(o: Op) -> bool {
    use Op::*;
    matches!(o, SB | SH | SW | SD) || (o >= LR_W && o <= AMOMAXU_D)
}
fn fusable_head(o: Op) -> bool { matches!(o, Op::ADD | Op::SUB | Op::LUI | Op::AUIPC | Op::MULH | Op::MULHU | Op::MULHSU | Op::DIV | Op::DIVU) }

pub struct MOps<'a>(pub &'a mut RefMachine);
impl<'a> HostOps for MOps<'a> {
    fn reg(&self, i: usize) -> u64 { self.0.vm.x[i] }
    fn set_reg(&mut self, i: usize, v: u64) { self.0.vm.x[i] = self.0.vm.mask(v); }
    fn cycles(&self) -> u64 { self.0.cycles }
    fn set_cycles(&mut self, v: u64) { self.0.cycles = v }
    fn max_cycles(&self) -> u64 { self.0.max_cycles }
    fn set_max_cycles(&mut self, v: u64) { self.0.max_cycles = v }
    fn add_cycles(&mut self, n: u64) -> Result<(), HErr> { self.0.add(n).map_err(|_| HErr::Cycles) }
    fn add_cycles_no_checking(&mut self, n: u64) -> Result<(), HErr> { self.0.cycles = self.0.cycles.checked_add(n).ok_or(HErr::Cycles)?; Ok(()) }
    fn load(&mut self, addr: u64, n: u64) -> Result<Vec<u8>, HErr> {
        if n == 0 { return Ok(vec![]); }
        if !self.0.vm.mem.in_bounds(addr, n) { return Err(HErr::Mem); }
        self.0.vm.mem.reading(addr, n);
        Ok(self.0.vm.mem.bytes[addr as usize..(addr + n) as usize].to_vec())
    }
    fn store(&mut self, addr: u64, b: &[u8]) -> Result<(), HErr> {
        if b.is_empty() { return Ok(()); }
        self.chk(addr, b.len() as u64)?;
        self.0.vm.mem.put(addr, b);
        Ok(())
    }
    fn fill(&mut self, addr: u64, n: u64, v: u8) -> Result<(), HErr> {
        if n == 0 { return Ok(()); }
        self.chk(addr, n)?;
        self.0.vm.mem.fill(addr, n, v);
        Ok(())
    }
    fn load_w(&mut self, w: u64, addr: u64) -> Result<u64, HErr> { self.0.vm.mem.load(addr, w).map(|v| v).map_err(|_| HErr::Mem) }
    fn store_w(&mut self, w: u64, addr: u64, v: u64) -> Result<(), HErr> {
        self.chk(addr, w)?;
        self.0.vm.mem.store(addr, w, v).map_err(|_| HErr::Mem)
    }
    fn set_flag(&mut self, page: u64, f: u8) -> Result<(), HErr> {
        self.0.vm.mem.set_flag(page, f).map_err(|_| HErr::Mem)
    }
    fn clear_flag(&mut self, page: u64, f: u8) -> Result<(), HErr> {
        self.0.vm.mem.clear_flag(page, f).map_err(|_| HErr::Mem)
    }
    fn exec(&mut self, img: &Image, max: u64) -> Result<(), HErr> {
        self.0.reset(max);
        self.0.load_image(img).map_err(|_| HErr::Other("exec".into()))?;
        self.0.init_stack(&img.args).map_err(|_| HErr::Other("exec".into()))?;
        self.0.next_pc = self.0.vm.pc;
        Ok(())
    }
    fn map(&mut self, addr: u64, size: u64, flags: u8, src: &[u8], off: u64) -> Result<(), HErr> {
        self.0.vm.mem.init_pages(addr, size, flags, Some(src), off).map_err(|_| HErr::Mem)
    }
    fn raw_pc(&self) -> u64 { self.0.vm.pc }
    fn set_running(&mut self, v: bool) { self.0.running = v }
    fn mem_size(&self) -> u64 { self.0.vm.mem.size() }
    fn s2_store(&mut self, s2: &std::sync::Arc<std::sync::Mutex<crate::s2::S2>>, p: &S2Put) -> Result<(u64, u64), HErr> {
        let items = s2.lock().unwrap().src.items.clone();
        let d = items.get(&p.id).ok_or(HErr::Other("no such item".into()))?;
        let off = p.off.min(d.len() as u64);
        let full = d.len() as u64 - off;
        let n = if p.len == 0 { full } else { full.min(p.len) };
        self.store_w(8, p.size_addr, full)?;
        self.store(p.addr, &d[off as usize..(off + n) as usize])?;
        Ok((n, full))
    }
}
impl<'a> MOps<'a> {
    fn chk(&mut self, addr: u64, n: u64) -> Result<(), HErr> {
        self.0.vm.mem.writable(addr, n).map_err(|_| { self.0.vm.mem.maybe_touch(addr, n); HErr::Mem })
    }
}
