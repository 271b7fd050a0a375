//! The short routes into the library against the parts they stand for.
use super::*;
use crate::common::*;
use crate::enc::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use ckb_vm::decoder::{build_decoder, InstDecoder};
use ckb_vm::elf::parse_elf;
use ckb_vm::machine::asm::traces::*;
use ckb_vm::machine::asm::{AsmCoreMachine, AsmMachine};
use ckb_vm::machine::trace::TraceMachine;
use ckb_vm::machine::{DefaultCoreMachine, DefaultMachine, DefaultMachineBuilder, Pause};
use ckb_vm::{CoreMachine, Error, FlatMemory, Machine, Memory, Register, SparseMemory, SupportMachine, WXorXMemory};

pub fn parts() -> Vec<Part> { vec![("run", 4, run_entry), ("wrappers", 4, wrappers), ("pause-handle", 2, pause_handle), ("decoders", 4, decoders)] }

const DEFAULT_MEM: usize = 4 << 20;
const FULL: u8 = ISA_A | ISA_B | ISA_MOP;

fn plain_setup(rng: &mut Rng, xlen: u32, isa: u8, version: u32, mem: usize) -> Option<Setup> {
    let mut g = G::new(xlen, isa, version, mem as u64);
    g.size = *rng.pick(&[10usize, 25, 60]);
    g.syscalls = rng.chance(1, 3);
    g.faults = rng.chance(1, 6);
    g.fuse_bias = rng.chance(1, 2);
    g.mem_bias = rng.chance(1, 3);
    let mut img = image(rng, &g)?;
    if rng.chance(1, 2) { img.args = (0..rng.below(5)).map(|_| { let n = rng.us(30); ckb_vm::Bytes::from(rng.bytes(n)) }).collect(); }
    let cfg = Cfg { isa, version, mem, max_cycles: u64::MAX, costs: Costs::Zero, keep_decoder: false, chaos: None };
    Some(Setup { cfg, xlen, img, images: vec![], accept_seed: 1, nhandlers: 0, has_debugger: false, cycle_blind: false })
}

/// what the reference says about a setup; None when it has no opinion
fn expect(s: &Setup) -> Option<(RefMachine, RStop)> {
    let (mut m, _) = s.reference();
    m.load(&s.img).ok()?;
    let stop = m.run(BUDGET);
    if matches!(stop, RStop::Unknown(_)) || (m.high_pc && s.cfg.version < 2) { return None; }
    Some((m, stop))
}
fn agrees(m: &RefMachine, stop: &RStop, r: &Result<i8, Error>) -> bool {
    let (want, got) = (class_ref(stop), class_of(r));
    match want { Class::Exit(_) => got == want, _ => !matches!(got, Class::Exit(_)) && (!pure_fault(m, stop) || got == want) }
}

fn run_entry(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = if rng.chance(1, 4) { 32 } else { 64 };
    let mem = if rng.chance(1, 2) { DEFAULT_MEM } else { memory(rng) };
    let s = match plain_setup(rng, xlen, FULL, 2, mem) { Some(s) => s, None => return Ok(()) };
    let (m, stop) = match expect(&s) { Some(x) => x, None => return Ok(()) };
    let (p, a) = (&s.img.elf, &s.img.args[..]);
    let mut rs: Vec<(&str, Result<i8, Error>)> = vec![];
    if xlen == 64 {
        if mem == DEFAULT_MEM {
            rs.push(("run on sparse memory", ckb_vm::run::<u64, SparseMemory<u64>>(p, a)));
            rs.push(("run on flat memory", ckb_vm::run::<u64, FlatMemory<u64>>(p, a)));
            rs.push(("run_with_memory on default memory", ckb_vm::run_with_memory::<u64, _>(p, a, FlatMemory::<u64>::default())));
        } else {
            rs.push(("run_with_memory on sparse memory", ckb_vm::run_with_memory::<u64, _>(p, a, SparseMemory::<u64>::new_with_memory(mem))));
            rs.push(("run_with_memory on flat memory", ckb_vm::run_with_memory::<u64, _>(p, a, FlatMemory::<u64>::new_with_memory(mem))));
        }
    } else if mem == DEFAULT_MEM {
        rs.push(("32-bit run on sparse memory", ckb_vm::run::<u32, SparseMemory<u32>>(p, a)));
        rs.push(("32-bit run on flat memory", ckb_vm::run::<u32, FlatMemory<u32>>(p, a)));
    } else {
        rs.push(("32-bit run_with_memory on sparse memory", ckb_vm::run_with_memory::<u32, _>(p, a, SparseMemory::<u32>::new_with_memory(mem))));
        rs.push(("32-bit run_with_memory on flat memory", ckb_vm::run_with_memory::<u32, _>(p, a, FlatMemory::<u32>::new_with_memory(mem))));
    }
    for (n, r) in &rs {
        ensure!(agrees(&m, &stop, r), "{n} ends with {r:?}, expected {stop:?}");
        ctx.count("runs");
    }
    ctx.count(match stop { RStop::Exit(_) => "finished", _ => "failed" });
    ctx.seen(signature(&m, mix(&[xlen as u64, (mem == DEFAULT_MEM) as u64])));
    if ctx.samples.len() < 2 { let d = s.describe(); ctx.sample(serde_json::json!({"setup": d, "result": format!("{stop:?}"), "routes": rs.len()})); }
    Ok(())
}

/// The same file with other headers, if no segment holds them.
fn spoil(rng: &mut Rng, s: &Setup) -> Option<ckb_vm::Bytes> {
    let meta = if s.xlen == 64 { parse_elf::<u64>(&s.img.elf, s.cfg.version) } else { parse_elf::<u32>(&s.img.elf, s.cfg.version) }.ok()?;
    let end = meta.actions.iter().filter(|x| x.source.end > x.source.start).map(|x| x.source.start).min()? as usize;
    let mut b = s.img.elf.to_vec();
    match rng.below(4) {
        0 => { let n = rng.us(end.min(b.len())) + 1; if n > end { return None; } b[..n].fill(0); }
        // another entry point
        1 if end >= 32 => b[24] ^= 4 << rng.below(4),
        // headers that load elsewhere or other parts
        2 if end >= 64 => { for _ in 0..1 + rng.below(4) { let i = 64 + rng.us(end - 63) - 1; b[i.min(end - 1)] ^= 1 << rng.below(8); } }
        3 if end >= 64 => b[if s.xlen == 64 { 56 } else { 44 }] = 1,
        _ => return None,
    }
    Some(ckb_vm::Bytes::from(b))
}

/// registers as printed by the machine
fn printed<I: CoreMachine>(n: &str, d: &DefaultMachine<I>) -> V {
    let text = format!("{d}");
    let parts: Vec<&str> = text.split(": 0x").collect();
    ensure!(parts.len() == 34, "{n} is printed as {text:?}");
    for k in 0..33 {
        let name = parts[k].split_whitespace().last().unwrap_or("");
        let v = parts[k + 1].split_whitespace().next().unwrap_or("");
        let got = u64::from_str_radix(v, 16).map_err(|_| format!("{n}: {v:?} is no number in {text:?}"))?;
        let (wn, want) = if k == 0 { ("pc", d.pc().to_u64()) } else { (ckb_vm::instructions::REGISTER_ABI_NAMES[k - 1], d.registers()[k - 1].to_u64()) };
        ensure!(name == wn && got == want, "{n}: printed {name} = {got:#x}, it is {wn} = {want:#x}");
    }
    Ok(())
}

fn core_ok<M: SupportMachine>(n: &str, m: &mut M, s: &Setup, max: u64) -> V {
    ensure!(m.memory().memory_size() == DEFAULT_MEM, "{n}: {} bytes of memory by default", m.memory().memory_size());
    ensure!((m.isa(), m.version()) == (s.cfg.isa, s.cfg.version), "{n}: instruction set {} and version {}, asked for {} and {}", m.isa(), m.version(), s.cfg.isa, s.cfg.version);
    ensure!((m.cycles(), m.max_cycles(), m.running()) == (0, max, false), "{n}: starts with {} of {} cycles, running {}", m.cycles(), m.max_cycles(), m.running());
    ensure!(m.registers().iter().all(|r| r.to_u64() == 0) && m.pc().to_u64() == 0, "{n}: starts with values in registers");
    ensure!(!m.reset_signal(), "{n}: starts with the reset signal up");
    Ok(())
}
/// what a machine holds after the run
fn state_ok<M: CoreMachine>(n: &str, e: &mut M, m: &RefMachine) -> V {
    for k in 0..32 { ensure!(e.registers()[k].to_u64() == m.vm.x[k], "{n}: x{k} = {:#x}, expected {:#x}", e.registers()[k].to_u64(), m.vm.x[k]); }
    ensure!(e.pc().to_u64() == m.vm.pc, "{n}: pc {:#x}, expected {:#x}", e.pc().to_u64(), m.vm.pc);
    mem_ok(n, e.memory_mut(), m)
}
fn mem_ok<M: Memory>(n: &str, e: &mut M, m: &RefMachine) -> V {
    for p in 0..m.vm.mem.bytes.len() as u64 / PAGE {
        let b = e.load_bytes(p * PAGE, PAGE).map_err(|x| format!("{n}: {x:?}"))?;
        ensure!(b[..] == m.vm.mem.bytes[(p * PAGE) as usize..((p + 1) * PAGE) as usize], "{n}: page {p:#x} differs from the reference");
    }
    Ok(())
}

fn wrappers(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = if rng.chance(1, 4) { 32 } else { 64 };
    let (isa, version) = isa_version(rng);
    let mut s = match plain_setup(rng, xlen, isa, version, DEFAULT_MEM) { Some(s) => s, None => return Ok(()) };
    s.cfg.costs = costs(rng);
    let t = match expect(&s) { Some((m, RStop::Exit(_))) => m.cycles, Some(_) => return { ctx.count("failing-program"); Ok(()) }, None => return Ok(()) };
    // a limit set through the wrapper
    let first = rng.next();
    let limit = *rng.pick(&[u64::MAX, t, t.saturating_sub(1), t / 2]);
    let (m, stop) = { let mut s = s.clone(); s.cfg.max_cycles = limit; match expect(&s) { Some(x) => x, None => return Ok(()) } };
    let meta_route = rng.chance(1, 2);
    let (p, a) = (s.img.elf.clone(), s.img.args.clone());
    // with metadata at hand, the program's own headers do not matter any more
    let spoilt = if meta_route && rng.chance(2, 3) { spoil(rng, &s) } else { None };
    if spoilt.is_some() { ctx.count("headers-spoilt"); }
    let body = spoilt.unwrap_or_else(|| p.clone());
    macro_rules! judge { ($n:expr, $mac:expr, $dm:ident, $meta:expr, $acc:expr) => {{
        let n = $n;
        let mut mac = $mac;
        let bytes = if meta_route { mac.load_program_with_metadata(&body, &$meta, &a) } else { mac.load_program(&p, &a) };
        let bytes = bytes.map_err(|x| format!("{n} fails to load: {x:?}"))?;
        let file: u64 = $meta.actions.iter().map(|x| x.source.end - x.source.start).sum();
        let stack = s.cfg.mem as u64 - mac.machine.registers()[2].to_u64();
        ensure!(bytes == file + stack, "{n} reports {bytes} bytes loaded; {file} from the file and {stack} on the stack");
        mac.set_max_cycles(limit);
        ensure!(mac.machine.max_cycles() == limit, "{n}: limit {} after setting {limit}", mac.machine.max_cycles());
        let r = mac.run();
        ensure!(agrees(&m, &stop, &r), "{n} ends with {r:?}, expected {stop:?} under limit {limit} ({t} needed)");
        if let RStop::Exit(c) = stop {
            ensure!(mac.machine.exit_code() == c, "{n}: exit code {}, expected {c}", mac.machine.exit_code());
            ensure!(mac.machine.cycles() == m.cycles, "{n}: {} cycles, expected {}", mac.machine.cycles(), m.cycles);
            state_ok(n, &mut mac.machine, &m)?;
            printed(n, &mac.machine)?;
            let acc: V = ($acc)(&mut mac); acc?;
        }
        // whatever was consumed already, the limit asked for is the limit set
        for l in [0, mac.machine.cycles() / 2, mac.machine.cycles().wrapping_sub(1), mac.machine.cycles(), first, u64::MAX] {
            let c = mac.machine.cycles();
            mac.set_max_cycles(l);
            ensure!(mac.machine.max_cycles() == l && mac.machine.cycles() == c, "{n}: limit {} and {} cycles after setting {l} at {c}", mac.machine.max_cycles(), mac.machine.cycles());
        }
        ctx.count(if matches!(stop, RStop::Exit(_)) { "finished" } else { "stopped-at-limit" });
        mac.machine.take_inner()
    }} }
    let cost = || s.cfg.costs.vm_func();
    let done = matches!(stop, RStop::Exit(_));
    macro_rules! rust { ($r:ty, $mem:ident, $n:expr) => {{
        let meta = parse_elf::<$r>(&p, version).map_err(|x| format!("{x:?}"))?;
        let mut core = DefaultCoreMachine::<$r, WXorXMemory<$mem<$r>>>::new(isa, version, first);
        core_ok($n, &mut core, &s, first)?;
        let mac = TraceMachine::new(DefaultMachineBuilder::new(core).instruction_cycle_func(cost()).build());
        let mut inner = judge!($n, mac, machine, meta, |mac: &mut TraceMachine<DefaultCoreMachine<$r, WXorXMemory<$mem<$r>>>>| -> V {
            // the tracing machine seen as a machine itself
            state_ok("the tracing machine's own face", mac, &m)?;
            ensure!((mac.isa(), mac.version(), mac.memory().memory_size()) == (isa, version, DEFAULT_MEM), "the tracing machine's own face: configuration differs");
            let (v, c) = (<$r>::from_u64(mix(&[first])), <$r>::from_u64(0x1234 & !1));
            mac.set_register(7, v);
            mac.update_pc(c);
            ensure!(mac.machine.pc().to_u64() == m.vm.pc, "a pc not yet committed shows");
            mac.commit_pc();
            ensure!(mac.machine.registers()[7] == v && mac.machine.pc() == &c, "a register or pc set through the tracing machine is not set");
            mac.set_register(17, <$r>::from_u64(93));
            mac.set_register(10, <$r>::from_u64(5));
            mac.ebreak().map_err(|x| format!("{x:?}"))?;
            mac.machine.set_running(true);
            mac.ecall().map_err(|x| format!("{x:?}"))?;
            ensure!(mac.machine.exit_code() == 5 && !mac.machine.running(), "an exit call made through the tracing machine has no effect");
            Ok(())
        });
        inner.set_max_cycles(first ^ 1);
        ensure!(inner.max_cycles() == first ^ 1, "{}: limit not set", $n);
        let mut mem = inner.take_memory();
        if done { mem_ok($n, &mut mem, &m)?; }
    }} }
    if xlen == 64 {
        rust!(u64, SparseMemory, "tracing machine on default sparse memory");
        rust!(u64, FlatMemory, "tracing machine on default flat memory");
        let meta = parse_elf::<u64>(&p, version).map_err(|x| format!("{x:?}"))?;
        let mut core = AsmCoreMachine::new(isa, version, first);
        core_ok("assembly core", &mut core, &s, first)?;
        if rng.chance(1, 2) { core.set_max_cycles(first ^ 2); ensure!(core.max_cycles() == first ^ 2, "assembly core: limit not set"); }
        let mac = AsmMachine::new(DefaultMachineBuilder::new(core).instruction_cycle_func(cost()).build());
        let mut inner = judge!("assembly machine", mac, machine, meta, |_: &mut AsmMachine| -> V { Ok(()) });
        if done { state_ok("assembly core taken out", &mut inner, &m)?; }
    } else {
        rust!(u32, SparseMemory, "32-bit tracing machine on default sparse memory");
        rust!(u32, FlatMemory, "32-bit tracing machine on default flat memory");
    }
    ctx.seen(signature(&m, mix(&[xlen as u64, version as u64, isa as u64, (limit == t) as u64, (limit > t) as u64, meta_route as u64])));
    if ctx.samples.len() < 2 { let d = s.describe(); ctx.sample(serde_json::json!({"setup": d, "limit": limit, "total": t})); }
    Ok(())
}

/// a handle given to the builder is the one the machine listens to
fn pause_handle(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (isa, version) = isa_version(rng);
    let mut s = match plain_setup(rng, 64, isa, version, 1 << 18) { Some(s) => s, None => return Ok(()) };
    // a loop: requests are noticed at jumps
    let mut a = Asm::new(true);
    for k in 0..rng.below(30) { a.i(Op::ADDI, 12, 12, 0, k as i64); }
    a.li(11, 100 + rng.below(2000));
    let top = a.label();
    a.bind(top);
    for _ in 0..rng.below(20) { a.i(Op::ADD, 12, 12, 11, 0); }
    a.i(Op::ADDI, 11, 11, 0, -1);
    a.br(Op::BNE, 11, 0, top);
    a.exit(7);
    let blob = a.assemble(0x10000);
    s.img.segs = vec![Seg { vaddr: 0x10000, memsz: blob.bytes.len() as u64, data: blob.bytes, flags: PF_R | PF_X }];
    s.img.entry = 0x10000;
    s.img.elf = ckb_vm::Bytes::from(build_elf(true, 0x10000, &s.img.segs));
    let (m, stop) = match expect(&s) { Some(x) => x, None => return Ok(()) };
    ensure!(matches!(stop, RStop::Exit(7)), "model error: {stop:?}");
    let other = Pause::new();
    let when = rng.below(3);
    macro_rules! judge { ($n:expr, $mk:expr, $wrap:expr) => {{
        let p = Pause::new();
        let b = DefaultMachineBuilder::new($mk).pause(if when == 2 { other.clone() } else { p.clone() });
        let mut d = b.build();
        if when == 2 { d.set_pause(p.clone()); }
        d.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{} fails to load: {x:?}", $n))?;
        let mut mac = ($wrap)(d);
        if when == 2 { other.interrupt(); }
        p.interrupt();
        let r = mac.run();
        ensure!(matches!(r, Err(Error::Pause)), "{}: a request through the handle given to the builder: {r:?}", $n);
        ensure!(!p.has_interrupted(), "{}: the request is still there after the stop", $n);
        let r = mac.run();
        ensure!(agrees(&m, &stop, &r), "{} ends with {r:?} after the pause, expected {stop:?}", $n);
        ctx.count("requests-honoured");
    }} }
    judge!("plain interpreter", DefaultCoreMachine::<u64, WXorXMemory<SparseMemory<u64>>>::new_with_memory(isa, version, u64::MAX, WXorXMemory::new(SparseMemory::new_with_memory(1 << 18))), |d| d);
    judge!("tracing interpreter", DefaultCoreMachine::<u64, WXorXMemory<FlatMemory<u64>>>::new_with_memory(isa, version, u64::MAX, WXorXMemory::new(FlatMemory::new_with_memory(1 << 18))), TraceMachine::new);
    judge!("assembly machine", AsmCoreMachine::new_with_memory(isa, version, u64::MAX, 1 << 18), AsmMachine::new);
    if when == 2 { ensure!(other.has_interrupted(), "a request on a replaced handle was consumed"); }
    ctx.seen(signature(&m, mix(&[when, version as u64, isa as u64])));
    Ok(())
}

/// one decoder serving several machines that run the same program, and decoding through it
fn decoders(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (isa, version) = isa_version(rng);
    let mut s = match plain_setup(rng, 64, isa, version, 1 << 18) { Some(s) => s, None => return Ok(()) };
    s.cfg.costs = costs(rng);
    let (m, stop) = match expect(&s) { Some(x) => x, None => return Ok(()) };
    let mk = || -> Result<DefaultMachine<Box<AsmCoreMachine>>, String> {
        let mut d = DefaultMachineBuilder::new(AsmCoreMachine::new_with_memory(isa, version, u64::MAX, 1 << 18)).instruction_cycle_func(s.cfg.costs.vm_func()).build();
        d.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("fails to load: {x:?}"))?;
        Ok(d)
    };
    let plan: Vec<u64> = (0..3).map(|_| rng.below(3)).collect();
    let probes: Vec<u64> = (0..12).map(|_| s.img.entry + 2 * rng.below(600)).collect();
    macro_rules! judge { ($n:expr, $dec:expr) => {{
        let mut d = $dec;
        for (k, what) in plan.iter().enumerate() {
            let mut mac = AsmMachine::new(mk()?);
            let r = mac.run_with_decoder(&mut d);
            ensure!(agrees(&m, &stop, &r), "{}: machine #{k} ends with {r:?}, expected {stop:?}", $n);
            if let RStop::Exit(_) = stop {
                ensure!(mac.machine.cycles() == m.cycles, "{}: machine #{k} consumed {} cycles, expected {}", $n, mac.machine.cycles(), m.cycles);
                state_ok($n, &mut mac.machine, &m)?;
            }
            let mut plain = build_decoder::<u64>(isa, version);
            for pc in &probes {
                let (x, y) = (d.decode(mac.machine.memory_mut(), *pc), plain.decode(mac.machine.memory_mut(), *pc));
                ensure!(format!("{x:?}") == format!("{y:?}"), "{}: {pc:#x} decodes as {x:?}, a new decoder says {y:?}", $n);
            }
            match what { 0 => d.clear_traces(), 1 => InstDecoder::reset_instructions_cache(&mut d).map_err(|x| format!("{x:?}"))?, _ => {} }
            ctx.count("machines-served");
        }
    }} }
    judge!("simple trace decoder", SimpleFixedTraceDecoder::new(build_decoder::<u64>(isa, version)));
    judge!("memoizing trace decoder", MemoizedFixedTraceDecoder::new(build_decoder::<u64>(isa, version)));
    judge!("dynamic trace decoder", MemoizedDynamicTraceDecoder::new(build_decoder::<u64>(isa, version)));
    // the interpreters take a decoder as well
    let mut d = build_decoder::<u64>(isa, version);
    for k in 0..2 {
        let core = DefaultCoreMachine::<u64, WXorXMemory<SparseMemory<u64>>>::new_with_memory(isa, version, u64::MAX, WXorXMemory::new(SparseMemory::new_with_memory(1 << 18)));
        let mut x = DefaultMachineBuilder::new(core).instruction_cycle_func(s.cfg.costs.vm_func()).build();
        x.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("fails to load: {x:?}"))?;
        let r = if k == 0 { x.run_with_decoder(&mut d) } else { let mut t = TraceMachine::new(x); let r = t.run_with_decoder(&mut d); x = t.machine; r };
        ensure!(agrees(&m, &stop, &r), "interpreter #{k} with a shared decoder ends with {r:?}, expected {stop:?}");
        if let RStop::Exit(_) = stop { state_ok("interpreter with a shared decoder", &mut x, &m)?; }
    }
    ctx.seen(signature(&m, mix(&[version as u64, isa as u64, plan[0], plan[1]])));
    Ok(())
}
