//! One object-safe face over every execution engine of the crate under test.
use crate::host::*;
use crate::refmach::Costs;
use crate::s2::Ctx;
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::elf::ProgramMetadata;
use ckb_vm::machine::asm::{
    traces::{MemoizedDynamicTraceDecoder, MemoizedFixedTraceDecoder, SimpleFixedTraceDecoder},
    AsmCoreMachine, AsmMachine,
};
use ckb_vm::machine::{trace::TraceMachine, Pause};
use ckb_vm::snapshot2::Snapshot2;
use ckb_vm::{
    Bytes, CoreMachine, DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder, Error, FlatMemory, Memory, Register, SparseMemory,
    SupportMachine, WXorXMemory,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind { InterpFlat, InterpSparse, TraceFlat, TraceSparse, AsmSimple, AsmMemoFixed, AsmMemoDyn, InterpFlat32, InterpSparse32, TraceFlat32, TraceSparse32 }
use Kind::*;
#[cfg(feature = "arm")]
pub const KINDS64: &[Kind] = &[AsmSimple, AsmMemoFixed, AsmMemoDyn];
#[cfg(not(feature = "arm"))]
pub const KINDS64: &[Kind] = &[InterpFlat, InterpSparse, TraceFlat, TraceSparse, AsmSimple, AsmMemoFixed, AsmMemoDyn];
pub const KINDS32: &[Kind] = &[InterpFlat32, InterpSparse32, TraceFlat32, TraceSparse32];
/// Register width of a case: 32 once in `n`; the ARM engine has 64-bit registers only.
pub fn xlen(rng: &mut crate::rng::Rng, n: u64) -> u32 { let x = rng.chance(1, n); if x && cfg!(not(feature = "arm")) { 32 } else { 64 } }
impl Kind {
    pub fn is_asm(self) -> bool { matches!(self, AsmSimple | AsmMemoFixed | AsmMemoDyn) }
    pub fn is_trace(self) -> bool { matches!(self, TraceFlat | TraceSparse | TraceFlat32 | TraceSparse32) }
    pub fn is_interp(self) -> bool { !self.is_asm() && !self.is_trace() }
    pub fn xlen(self) -> u32 { if KINDS32.contains(&self) { 32 } else { 64 } }
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub isa: u8,
    pub version: u32,
    pub mem: usize,
    pub max_cycles: u64,
    pub costs: Costs,
    /// keep one decoder over consecutive runs instead of the built-in `run`
    pub keep_decoder: bool,
    pub chaos: Option<u32>,
}

pub trait Eng: Send {
    fn kind(&self) -> Kind;
    fn load_program(&mut self, elf: &Bytes, args: &[Bytes]) -> Result<u64, Error>;
    fn load_with_meta(&mut self, elf: &Bytes, meta: &ProgramMetadata, args: &[Bytes]) -> Result<u64, Error>;
    fn load_elf(&mut self, elf: &Bytes, update_pc: bool) -> Result<u64, Error>;
    fn load_binary(&mut self, elf: &Bytes, meta: &ProgramMetadata, update_pc: bool) -> Result<u64, Error>;
    fn init_stack(&mut self, args: &[Bytes], start: u64, size: u64) -> Result<u64, Error>;
    fn run(&mut self) -> Result<i8, Error>;
    fn can_step(&self) -> bool;
    fn step(&mut self) -> Result<(), Error>;
    fn reg(&self, i: usize) -> u64;
    fn set_reg(&mut self, i: usize, v: u64);
    fn pc(&self) -> u64;
    fn set_pc(&mut self, v: u64);
    fn cycles(&self) -> u64;
    fn set_cycles(&mut self, v: u64);
    fn max_cycles(&self) -> u64;
    fn set_max_cycles(&mut self, v: u64);
    fn running(&self) -> bool;
    fn set_running(&mut self, v: bool);
    fn exit_code(&self) -> i8;
    fn version(&self) -> u32;
    fn reset(&mut self, max: u64) -> Result<(), Error>;
    fn mem_size(&self) -> usize;
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error>;
    fn store_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), Error>;
    fn fill(&mut self, a: u64, n: u64, v: u8) -> Result<(), Error>;
    fn load_w(&mut self, w: u64, a: u64) -> Result<u64, Error>;
    fn store_w(&mut self, w: u64, a: u64, v: u64) -> Result<(), Error>;
    fn exec16(&mut self, a: u64) -> Result<u16, Error>;
    fn exec32(&mut self, a: u64) -> Result<u32, Error>;
    fn flag(&mut self, p: u64) -> Result<u8, Error>;
    fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error>;
    fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error>;
    fn init_pages(&mut self, a: u64, n: u64, f: u8, src: Option<Bytes>, off: u64) -> Result<(), Error>;
    fn reset_memory(&mut self) -> Result<(), Error>;
    fn lr(&self) -> u64;
    fn set_lr(&mut self, v: u64);
    fn pause(&self) -> Pause;
    fn set_pause(&mut self, p: Pause);
    fn snap1(&mut self) -> Result<Vec<u8>, Error>;
    fn resume1(&mut self, s: &ckb_vm::snapshot::Snapshot) -> Result<(), Error>;
    fn s2_mark(&mut self, c: &mut Ctx, m: &ProgramMetadata, id: u32, off: u64) -> Result<(), Error>;
    fn s2_store(&mut self, c: &mut Ctx, addr: u64, id: u32, off: u64, len: u64, size_addr: u64) -> Result<(u64, u64), Error>;
    fn s2_make(&mut self, c: &Ctx) -> Result<Snapshot2<u32>, Error>;
    fn s2_resume(&mut self, c: &mut Ctx, s: &Snapshot2<u32>) -> Result<(), Error>;
    fn s2_track(&mut self, c: &mut Ctx, start: u64, len: u64, id: u32, off: u64) -> Result<(), Error>;
    fn s2_untrack(&mut self, c: &mut Ctx, start: u64, len: u64) -> Result<(), Error>;
    fn add_cycles(&mut self, n: u64) -> Result<(), Error>;
    fn add_cycles_no_checking(&mut self, n: u64) -> Result<(), Error>;
    fn as_any(&mut self) -> &mut dyn std::any::Any;
    fn set_keep(&mut self, keep: bool);
}

pub trait Holder: Send + 'static {
    type Inner: SupportMachine;
    fn dm(&self) -> &DefaultMachine<Self::Inner>;
    fn dm_mut(&mut self) -> &mut DefaultMachine<Self::Inner>;
    fn h_run(&mut self) -> Result<i8, Error>;
    fn h_step(&mut self) -> Result<(), Error>;
    fn h_can_step(&self) -> bool;
    fn h_kind(&self) -> Kind;
    fn h_keep(&mut self, k: bool);
}

fn r<M: SupportMachine>(v: u64) -> M::REG { M::REG::from_u64(v) }

impl<H: Holder> Eng for H {
    fn kind(&self) -> Kind { self.h_kind() }
    fn load_program(&mut self, elf: &Bytes, args: &[Bytes]) -> Result<u64, Error> { self.dm_mut().load_program(elf, args) }
    fn load_with_meta(&mut self, elf: &Bytes, meta: &ProgramMetadata, args: &[Bytes]) -> Result<u64, Error> { self.dm_mut().load_program_with_metadata(elf, meta, args) }
    fn load_elf(&mut self, elf: &Bytes, u: bool) -> Result<u64, Error> { self.dm_mut().load_elf(elf, u) }
    fn load_binary(&mut self, elf: &Bytes, meta: &ProgramMetadata, u: bool) -> Result<u64, Error> { self.dm_mut().load_binary(elf, meta, u) }
    fn init_stack(&mut self, args: &[Bytes], s: u64, n: u64) -> Result<u64, Error> { self.dm_mut().initialize_stack(args, s, n) }
    fn run(&mut self) -> Result<i8, Error> { self.h_run() }
    fn can_step(&self) -> bool { self.h_can_step() }
    fn step(&mut self) -> Result<(), Error> { self.h_step() }
    fn reg(&self, i: usize) -> u64 { self.dm().registers()[i].to_u64() }
    fn set_reg(&mut self, i: usize, v: u64) { self.dm_mut().set_register(i, r::<H::Inner>(v)) }
    fn pc(&self) -> u64 { self.dm().pc().to_u64() }
    fn set_pc(&mut self, v: u64) { self.dm_mut().update_pc(r::<H::Inner>(v)); self.dm_mut().commit_pc(); }
    fn cycles(&self) -> u64 { self.dm().cycles() }
    fn set_cycles(&mut self, v: u64) { self.dm_mut().set_cycles(v) }
    fn max_cycles(&self) -> u64 { self.dm().max_cycles() }
    fn set_max_cycles(&mut self, v: u64) { self.dm_mut().set_max_cycles(v) }
    fn running(&self) -> bool { self.dm().running() }
    fn set_running(&mut self, v: bool) { self.dm_mut().set_running(v) }
    fn exit_code(&self) -> i8 { self.dm().exit_code() }
    fn version(&self) -> u32 { self.dm().version() }
    fn reset(&mut self, max: u64) -> Result<(), Error> { self.dm_mut().reset(max) }
    fn mem_size(&self) -> usize { self.dm().memory().memory_size() }
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error> { self.dm_mut().memory_mut().load_bytes(a, n) }
    fn store_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), Error> { self.dm_mut().memory_mut().store_bytes(a, b) }
    fn fill(&mut self, a: u64, n: u64, v: u8) -> Result<(), Error> { self.dm_mut().memory_mut().store_byte(a, n, v) }
    fn load_w(&mut self, w: u64, a: u64) -> Result<u64, Error> {
        let a = r::<H::Inner>(a);
        let m = self.dm_mut().memory_mut();
        match w { 1 => m.load8(&a), 2 => m.load16(&a), 4 => m.load32(&a), _ => m.load64(&a) }.map(|v| v.to_u64())
    }
    fn store_w(&mut self, w: u64, a: u64, v: u64) -> Result<(), Error> {
        let (a, v) = (r::<H::Inner>(a), r::<H::Inner>(v));
        let m = self.dm_mut().memory_mut();
        match w { 1 => m.store8(&a, &v), 2 => m.store16(&a, &v), 4 => m.store32(&a, &v), _ => m.store64(&a, &v) }
    }
    fn exec16(&mut self, a: u64) -> Result<u16, Error> { self.dm_mut().memory_mut().execute_load16(a) }
    fn exec32(&mut self, a: u64) -> Result<u32, Error> { self.dm_mut().memory_mut().execute_load32(a) }
    fn flag(&mut self, p: u64) -> Result<u8, Error> { self.dm_mut().memory_mut().fetch_flag(p) }
    fn set_flag(&mut self, p: u64, f: u8) -> Result<(), Error> { self.dm_mut().memory_mut().set_flag(p, f) }
    fn clear_flag(&mut self, p: u64, f: u8) -> Result<(), Error> { self.dm_mut().memory_mut().clear_flag(p, f) }
    fn init_pages(&mut self, a: u64, n: u64, f: u8, src: Option<Bytes>, off: u64) -> Result<(), Error> { self.dm_mut().memory_mut().init_pages(a, n, f, src, off) }
    fn reset_memory(&mut self) -> Result<(), Error> { self.dm_mut().memory_mut().reset_memory() }
    fn lr(&self) -> u64 { self.dm().memory().lr().to_u64() }
    fn set_lr(&mut self, v: u64) { self.dm_mut().memory_mut().set_lr(&r::<H::Inner>(v)) }
    fn pause(&self) -> Pause { self.dm().pause() }
    fn set_pause(&mut self, p: Pause) { self.dm_mut().set_pause(p) }
    fn snap1(&mut self) -> Result<Vec<u8>, Error> {
        let s = ckb_vm::snapshot::make_snapshot(self.dm_mut())?;
        Ok(serde_json::to_vec(&s).expect("serialise snapshot"))
    }
    fn resume1(&mut self, s: &ckb_vm::snapshot::Snapshot) -> Result<(), Error> { ckb_vm::snapshot::resume(self.dm_mut(), s) }
    fn s2_mark(&mut self, c: &mut Ctx, m: &ProgramMetadata, id: u32, off: u64) -> Result<(), Error> { c.mark_program(self.dm_mut(), m, &id, off) }
    fn s2_store(&mut self, c: &mut Ctx, addr: u64, id: u32, off: u64, len: u64, sa: u64) -> Result<(u64, u64), Error> { c.store_bytes(self.dm_mut(), addr, &id, off, len, sa) }
    fn s2_make(&mut self, c: &Ctx) -> Result<Snapshot2<u32>, Error> { c.make_snapshot(self.dm_mut()) }
    fn s2_resume(&mut self, c: &mut Ctx, s: &Snapshot2<u32>) -> Result<(), Error> { c.resume(self.dm_mut(), s) }
    fn s2_track(&mut self, c: &mut Ctx, start: u64, len: u64, id: u32, off: u64) -> Result<(), Error> { c.track_pages(self.dm_mut(), start, len, &id, off) }
    fn s2_untrack(&mut self, c: &mut Ctx, start: u64, len: u64) -> Result<(), Error> { c.untrack_pages(self.dm_mut(), start, len) }
    fn add_cycles(&mut self, n: u64) -> Result<(), Error> { self.dm_mut().add_cycles(n) }
    fn add_cycles_no_checking(&mut self, n: u64) -> Result<(), Error> { self.dm_mut().add_cycles_no_checking(n) }
    fn as_any(&mut self) -> &mut dyn std::any::Any { self }
    fn set_keep(&mut self, k: bool) { self.h_keep(k) }
}

pub struct Interp<I: SupportMachine + 'static> { m: DefaultMachine<I>, dec: Decoder, keep: bool, kind: Kind }
impl<I: SupportMachine + Send + 'static> Holder for Interp<I> {
    type Inner = I;
    fn dm(&self) -> &DefaultMachine<I> { &self.m }
    fn dm_mut(&mut self) -> &mut DefaultMachine<I> { &mut self.m }
    fn h_run(&mut self) -> Result<i8, Error> {
        if self.keep { return self.m.run_with_decoder(&mut self.dec); }
        // the run has a decoder of its own; the one steps use has to forget what a reset may have replaced
        self.dec.reset_instructions_cache()?;
        self.m.run()
    }
    fn h_can_step(&self) -> bool { true }
    fn h_step(&mut self) -> Result<(), Error> {
        if self.m.reset_signal() { self.dec.reset_instructions_cache()?; }
        self.m.step(&mut self.dec)
    }
    fn h_kind(&self) -> Kind { self.kind }
    fn h_keep(&mut self, k: bool) { self.keep = k }
}
pub struct Traced<I: SupportMachine + 'static> { m: TraceMachine<I>, dec: Decoder, keep: bool, kind: Kind }
impl<I: SupportMachine + Send + 'static> Holder for Traced<I> {
    type Inner = I;
    fn dm(&self) -> &DefaultMachine<I> { &self.m.machine }
    fn dm_mut(&mut self) -> &mut DefaultMachine<I> { &mut self.m.machine }
    fn h_run(&mut self) -> Result<i8, Error> { if self.keep { self.m.run_with_decoder(&mut self.dec) } else { self.m.run() } }
    fn h_can_step(&self) -> bool { false }
    fn h_step(&mut self) -> Result<(), Error> { self.m.machine.step(&mut self.dec) }
    fn h_kind(&self) -> Kind { self.kind }
    fn h_keep(&mut self, k: bool) { self.keep = k }
}
enum AnyDec { S(SimpleFixedTraceDecoder<Decoder>), F(MemoizedFixedTraceDecoder<Decoder>), D(MemoizedDynamicTraceDecoder<Decoder>) }
pub struct AsmEng { pub m: AsmMachine, dec: Option<AnyDec>, sdec: Decoder, keep: bool, kind: Kind }
impl AsmEng {
    fn fresh(&self) -> AnyDec {
        let d = build_decoder::<u64>(self.m.machine.isa(), self.m.machine.version());
        match self.kind { AsmSimple => AnyDec::S(SimpleFixedTraceDecoder::new(d)), AsmMemoFixed => AnyDec::F(MemoizedFixedTraceDecoder::new(d)), _ => AnyDec::D(MemoizedDynamicTraceDecoder::new(d)) }
    }
}
impl Holder for AsmEng {
    type Inner = Box<AsmCoreMachine>;
    fn dm(&self) -> &DefaultMachine<Self::Inner> { &self.m.machine }
    fn dm_mut(&mut self) -> &mut DefaultMachine<Self::Inner> { &mut self.m.machine }
    fn h_run(&mut self) -> Result<i8, Error> {
        self.sdec.reset_instructions_cache()?;
        if !self.keep && self.kind == AsmSimple { return self.m.run(); }
        if !self.keep || self.dec.is_none() { self.dec = Some(self.fresh()); }
        match self.dec.as_mut().unwrap() {
            AnyDec::S(d) => self.m.run_with_decoder(d),
            AnyDec::F(d) => self.m.run_with_decoder(d),
            AnyDec::D(d) => self.m.run_with_decoder(d),
        }
    }
    fn h_can_step(&self) -> bool { true }
    fn h_step(&mut self) -> Result<(), Error> {
        if self.m.machine.reset_signal() { self.sdec.reset_instructions_cache()?; self.dec = None; }
        self.m.step(&mut self.sdec)
    }
    fn h_kind(&self) -> Kind { self.kind }
    fn h_keep(&mut self, k: bool) { self.keep = k }
}

fn finish<I: SupportMachine>(core: I, cfg: &Cfg, st: &Shared) -> DefaultMachine<I> {
    let (n, dbg) = { let s = st.lock().unwrap(); (s.nhandlers, s.has_debugger) };
    let mut b = DefaultMachineBuilder::new(core).instruction_cycle_func(cfg.costs.vm_func());
    for k in 0..n { b = b.syscall(Box::new(Handler { idx: k, st: st.clone() })); }
    if dbg { b = b.debugger(Box::new(Dbg { st: st.clone() })); }
    let m = b.build();
    st.lock().unwrap().pause = Some(m.pause());
    m
}

/// Builds an engine with the shared host attached.
pub fn make(kind: Kind, cfg: &Cfg, st: &Shared) -> Box<dyn Eng> { crate::galloc::tight(|| make_inner(kind, cfg, st)) }
fn make_inner(kind: Kind, cfg: &Cfg, st: &Shared) -> Box<dyn Eng> {
    macro_rules! core { ($r:ty, $m:expr) => { DefaultCoreMachine::<$r, _>::new_with_memory(cfg.isa, cfg.version, cfg.max_cycles, WXorXMemory::new($m)) } }
    macro_rules! it { ($r:ty, $m:expr) => { Box::new(Interp { m: finish(core!($r, $m), cfg, st), dec: build_decoder::<$r>(cfg.isa, cfg.version), keep: cfg.keep_decoder, kind }) } }
    macro_rules! tr { ($r:ty, $m:expr) => { Box::new(Traced { m: TraceMachine::new(finish(core!($r, $m), cfg, st)), dec: build_decoder::<$r>(cfg.isa, cfg.version), keep: cfg.keep_decoder, kind }) } }
    match kind {
        InterpFlat => it!(u64, FlatMemory::<u64>::new_with_memory(cfg.mem)),
        InterpSparse => it!(u64, SparseMemory::<u64>::new_with_memory(cfg.mem)),
        InterpFlat32 => it!(u32, FlatMemory::<u32>::new_with_memory(cfg.mem)),
        InterpSparse32 => it!(u32, SparseMemory::<u32>::new_with_memory(cfg.mem)),
        TraceFlat => tr!(u64, FlatMemory::<u64>::new_with_memory(cfg.mem)),
        TraceSparse => tr!(u64, SparseMemory::<u64>::new_with_memory(cfg.mem)),
        TraceFlat32 => tr!(u32, FlatMemory::<u32>::new_with_memory(cfg.mem)),
        TraceSparse32 => tr!(u32, SparseMemory::<u32>::new_with_memory(cfg.mem)),
        AsmSimple | AsmMemoFixed | AsmMemoDyn => {
            let mut core = AsmCoreMachine::new_with_memory(cfg.isa, cfg.version, cfg.max_cycles, cfg.mem);
            if let Some(seed) = cfg.chaos { core.chaos_mode = 1; core.chaos_seed = seed; }
            Box::new(AsmEng { m: AsmMachine::new(finish(core, cfg, st)), dec: None, sdec: build_decoder::<u64>(cfg.isa, cfg.version), keep: cfg.keep_decoder, kind })
        }
    }
}
