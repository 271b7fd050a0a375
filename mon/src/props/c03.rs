//! The decoder against the reference decoder: all 16-bit words, a structured sweep of the 32-bit
//! ones, and arbitrary address sequences through the decode caches.
use super::*;
use crate::ensure;
use crate::enc::*;
use crate::refiss::*;
use crate::refmach::vm_name;
use crate::rng::mix;
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::instructions::{extract_opcode, instruction_length, Instruction, Itype, Rtype, Stype, Utype};
use ckb_vm::{Bytes, Error, FlatMemory, Memory, WXorXMemory};

pub fn parts() -> Vec<Part> { vec![("sixteen", 2, sixteen), ("structured", 4, structured), ("random", 2, random), ("addresses", 4, addresses), ("far", 2, far)] }

type Mem = WXorXMemory<FlatMemory<u64>>;
const AT: u64 = 0x1000;

fn dec_for(xlen: u32, isa: u8, version: u32) -> Decoder { if xlen == 64 { build_decoder::<u64>(isa, version) } else { build_decoder::<u32>(isa, version) } }
fn config(rng: &mut Rng) -> (u32, u8, u32) {
    let version = rng.below(3) as u32;
    let mut isa = rng.below(8) as u8;
    if version == 0 { isa &= !ISA_MOP; }
    (if rng.chance(1, 4) { 32 } else { 64 }, isa, version)
}

pub enum Fmt { R, Unary, I, S, U, None }
pub fn fmt(o: Op) -> Fmt {
    use Op::*;
    match o {
        LUI | AUIPC | JAL => Fmt::U,
        JALR | LB | LH | LW | LBU | LHU | LWU | LD | ADDI | SLTI | SLTIU | XORI | ORI | ANDI | SLLI | SRLI | SRAI | ADDIW | SLLIW | SRLIW | SRAIW | BCLRI | BEXTI | BINVI | BSETI | RORI | RORIW | SLLIUW => Fmt::I,
        BEQ | BNE | BLT | BGE | BLTU | BGEU | SB | SH | SW | SD => Fmt::S,
        FENCE | FENCEI | ECALL | EBREAK => Fmt::None,
        CLZ | CLZW | CPOP | CPOPW | CTZ | CTZW | ORCB | REV8 | SEXTB | SEXTH | ZEXTH | LR_W | LR_D => Fmt::Unary,
        _ => Fmt::R,
    }
}

/// what the VM decoded against what it has to be
pub fn same(got: Instruction, want: &Inst) -> V {
    let name = vm_name(extract_opcode(got));
    ensure!(name == format!("{:?}", want.op), "decoded as {name}, expected {want:?}");
    ensure!(instruction_length(got) == want.len, "{name}: length {}, expected {}", instruction_length(got), want.len);
    let (rd, rs1, rs2) = (want.rd as usize, want.rs1 as usize, want.rs2 as usize);
    let ok = match fmt(want.op) {
        Fmt::R => { let i = Rtype(got); (i.rd(), i.rs1(), i.rs2()) == (rd, rs1, rs2) }
        Fmt::Unary => { let i = Rtype(got); (i.rd(), i.rs1()) == (rd, rs1) }
        Fmt::I => { let i = Itype(got); (i.rd(), i.rs1(), i.immediate_s() as i64) == (rd, rs1, want.imm) }
        Fmt::S => { let i = Stype(got); (i.rs1(), i.rs2(), i.immediate_s() as i64) == (rs1, rs2, want.imm) }
        Fmt::U => { let i = Utype(got); (i.rd(), i.immediate_s() as i64) == (rd, want.imm) }
        Fmt::None => true,
    };
    ensure!(ok, "{name} decoded with operands {:x}, expected {want:?}", got);
    Ok(())
}

/// One fresh decode of a word placed at AT.
fn check_word(ctx: &mut Ctx, dec: &mut Decoder, mem: &mut Mem, w: u32, cfg: (u32, u8, u32)) -> V {
    let (xlen, isa, version) = cfg;
    // frozen code cannot change in a machine; here the decoder is driven directly on plain memory
    // (what follows may matter when fusing is on: then an undecodable word follows)
    let w = if isa & ISA_MOP != 0 && w & 3 != 3 { w & 0xffff } else { w };
    mem.inner_mut().store64(&AT, &(w as u64)).unwrap();
    dec.reset_instructions_cache().map_err(|e| format!("{e:?}"))?;
    let r = dec.decode(mem, AT);
    let word = if w & 3 == 3 { w } else { w & 0xffff };
    match decode(w, xlen, isa, version) {
        Dec::Ok(i) => {
            let got = r.map_err(|e| format!("{word:#010x} (xlen {xlen} isa {isa} version {version}) is {i:?}, refused: {e:?}"))?;
            same(got, &i).map_err(|e| format!("{word:#010x} (xlen {xlen} isa {isa} version {version}): {e}"))?;
            ctx.seen(mix(&[i.op as u64, i.len as u64, isa as u64, version as u64, xlen as u64]));
        }
        Dec::Illegal => match r {
            Err(Error::InvalidInstruction { pc, instruction }) => {
                ensure!(pc == AT && instruction == word, "invalid instruction reported as {pc:#x}/{instruction:#x}, it is {AT:#x}/{word:#x}");
                ctx.add("illegal-words", 1);
            }
            r => return Err(format!("{word:#010x} (xlen {xlen} isa {isa} version {version}) is no legal encoding, decoded as {}", r.map(|i| vm_name(extract_opcode(i))).unwrap_or_else(|e| format!("{e:?}")))),
        },
        Dec::Unspecified => { ctx.add("reserved-words", 1); }
    }
    ctx.add("words", 1);
    Ok(())
}
fn plain() -> Mem {
    let mut m: Mem = WXorXMemory::new(FlatMemory::new_with_memory(4 * 4096));
    m.init_pages(0x1000, 0x1000, EXEC, None, 0).unwrap();
    m
}

pub(super) fn sixteen(ctx: &mut Ctx, rng: &mut Rng) -> V {
    // every 16-bit word in one configuration
    let cfg = config(rng);
    let (mut d, mut m) = (dec_for(cfg.0, cfg.1, cfg.2), plain());
    for h in 0..0x10000u32 {
        if h & 3 == 3 { continue; }
        // whatever follows must not matter
        check_word(ctx, &mut d, &mut m, h | if h & 0x40 == 0 { 0 } else { 0xffff_0000 }, cfg)?;
    }
    ctx.count("complete-16-bit-sweeps");
    Ok(())
}

pub(super) fn structured(ctx: &mut Ctx, rng: &mut Rng) -> V {
    // one slice (funct7) of opcode x funct3 x funct7 x rs2
    let cfg = config(rng);
    let (mut d, mut m) = (dec_for(cfg.0, cfg.1, cfg.2), plain());
    let hot = [0x00u32, 0x01, 0x02, 0x03, 0x04, 0x05, 0x08, 0x09, 0x10, 0x14, 0x15, 0x20, 0x24, 0x25, 0x30, 0x31, 0x34, 0x35, 0x60, 0x40, 0x50, 0x70, 0x7f, 0x0c];
    let f7 = if rng.chance(1, 2) { *rng.pick(&hot) } else { rng.below(128) as u32 };
    for opc in 0..32u32 {
        for f3 in 0..8u32 {
            for rs2 in 0..32u32 {
                let rd = if rng.chance(1, 6) { 0 } else { rng.below(32) as u32 };
                let rs1 = if rng.chance(1, 6) { 0 } else { rng.below(32) as u32 };
                let w = f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | opc << 2 | 3;
                check_word(ctx, &mut d, &mut m, w, cfg)?;
            }
        }
    }
    // near misses of the fully fixed words
    for base in [0x73u32, 0x0010_0073, 0x0ff0_000f, 0x0000_100f, 0x8330_000f, 0x0100_000f] {
        check_word(ctx, &mut d, &mut m, base, cfg)?;
        for b in 2..32 { check_word(ctx, &mut d, &mut m, base ^ 1 << b, cfg)?; }
    }
    Ok(())
}

fn random(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let cfg = config(rng);
    let (mut d, mut m) = (dec_for(cfg.0, cfg.1, cfg.2), plain());
    for _ in 0..5000 {
        let w = match rng.below(3) {
            0 => rng.u32() | 3,
            1 => { let o = *rng.pick(ALL_OPS); let i = inst(o, rng.below(32) as u8, rng.below(32) as u8, rng.below(32) as u8, rng.value() as i64); encode(&i) ^ if rng.chance(1, 2) { 1 << rng.below(32) } else { 0 } }
            _ => { let o = *rng.pick(ALL_OPS); encode(&inst(o, rng.below(32) as u8, rng.below(32) as u8, rng.below(32) as u8, rng.value() as i64)) }
        };
        check_word(ctx, &mut d, &mut m, w, cfg)?;
    }
    Ok(())
}

/// Arbitrary sequences of addresses through one decoder whose cache stays warm.
fn addresses(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (xlen, isa, version) = config(rng);
    let isa = isa & !ISA_MOP;
    let size = 1usize << 20;
    let mut mem: Mem = WXorXMemory::new(FlatMemory::new_with_memory(size));
    let mut rm = RefVm::new(xlen, isa, version, size);
    let pages = size as u64 / PAGE;
    // executable, plain and never touched pages side by side
    let fill = |rng: &mut Rng, n: usize, pool: &[u32]| -> Vec<u8> {
        let mut v = vec![];
        while v.len() < n {
            match rng.below(4) {
                0 => v.extend_from_slice(&(rng.next() as u16).to_le_bytes()),
                1 => v.extend_from_slice(&rng.u32().to_le_bytes()),
                _ => v.extend_from_slice(&rng.pick(pool).to_le_bytes()),
            }
        }
        v.truncate(n);
        v
    };
    let pool: Vec<u32> = (0..64).map(|_| { let o = *rng.pick(ALL_OPS); encode(&inst(o, rng.below(32) as u8, rng.below(32) as u8, rng.below(32) as u8, rng.value() as i64)) }).collect();
    let build = |rng: &mut Rng, mem: &mut Mem, rm: &mut RefVm| {
        for p in 0..pages {
            if rng.chance(1, 3) { continue; }
            let exec = rng.chance(3, 4);
            let b = fill(rng, PAGE as usize, &pool);
            rm.mem.bytes[(p * PAGE) as usize..((p + 1) * PAGE) as usize].copy_from_slice(&b);
            let f = if exec { EXEC | FREEZED } else { 0 };
            rm.mem.flags[p as usize] = f | DIRTY;
            mem.init_pages(p * PAGE, PAGE, f, Some(Bytes::from(b)), 0).unwrap();
        }
    };
    build(rng, &mut mem, &mut rm);
    let mut d = dec_for(xlen, isa, version);
    let mut last: Vec<u64> = vec![0];
    for _ in 0..3000 {
        let pc = match rng.below(8) {
            0 => rng.below(pages) * PAGE + PAGE - 2 * rng.below(4),
            1 => rng.below(pages) * PAGE + 2 * rng.below(3),
            // addresses that share cache entries with an earlier one
            2 | 3 => { let b = *rng.pick(&last); let k = *rng.pick(&[0x200u64, 0x400, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x20000, 0x40000]); if rng.chance(1, 2) { b.wrapping_add(k * rng.below(8)) } else { b.wrapping_sub(k * rng.below(8)) } }
            4 => *rng.pick(&last),
            5 => size as u64 - 2 * rng.below(3),
            6 if xlen == 64 => rng.value(),
            _ => rng.below(size as u64 / 2) * 2,
        } & if xlen == 32 { 0xffff_ffff } else { u64::MAX } & !1;
        if rng.chance(1, 500) {
            // other code, after the reset a machine does
            mem = WXorXMemory::new(FlatMemory::new_with_memory(size));
            rm.mem = RefMem::new(size);
            build(rng, &mut mem, &mut rm);
            d.reset_instructions_cache().map_err(|e| format!("{e:?}"))?;
            ctx.count("cache-resets");
        }
        if last.len() < 200 { last.push(pc); } else { let k = rng.us(200); last[k] = pc; }
        let r = d.decode(&mut mem, pc);
        let what = |r: &Result<u64, Error>| match r { Ok(i) => vm_name(extract_opcode(*i)), Err(e) => format!("{e:?}") };
        match rm.decode_at(pc) {
            Ok(i) => {
                let got = r.map_err(|e| format!("{pc:#x} holds {i:?}, refused: {e:?}"))?;
                same(got, &i).map_err(|e| format!("at {pc:#x} (word {:#x}): {e}", rm.fetch(pc).unwrap()))?;
                ctx.add("decoded", 1);
            }
            Err(Stop::Illegal(p, w)) => ensure!(matches!(r, Err(Error::InvalidInstruction { pc, instruction }) if pc == p && instruction == w), "at {pc:#x}: illegal word {w:#x}, reported {}", what(&r)),
            // a 2-byte instruction is fetched with what follows it, which may not be fetchable
            Err(Stop::Oob) => { ensure!(matches!(r, Err(Error::MemOutOfBound(..))), "at {pc:#x}: outside of memory, reported {}", what(&r)); ctx.add("out-of-bound", 1); }
            Err(Stop::Perm) => { ensure!(matches!(r, Err(Error::MemWriteOnExecutablePage(_))), "at {pc:#x}: not executable, reported {}", what(&r)); ctx.add("not-executable", 1); }
            Err(Stop::Unspecified) => {}
        }
        ctx.seen(mix(&[pc & 0xfff, isa as u64, version as u64]));
    }
    if ctx.samples.len() < 1 { ctx.sample(serde_json::json!({"part": "addresses", "xlen": xlen, "isa": isa, "version": version, "last_pcs": last[..4.min(last.len())]})); }
    Ok(())
}

/// A memory of any size whose contents are a function of the address.
struct Vast<R> { seed: u64, size: usize, pool: Vec<u32>, epoch: u64, lr: R }
impl<R: ckb_vm::Register> Vast<R> {
    fn half(&self, a: u64) -> u16 { let w = self.pool[(mix(&[self.seed, self.epoch, a >> 2]) % self.pool.len() as u64) as usize]; (w >> (8 * (a & 2))) as u16 }
    fn fetch(&self, a: u64, n: u64) -> Result<u64, Error> {
        if a.checked_add(n).map_or(true, |e| e > self.size as u64) { return Err(Error::MemOutOfBound(a, ckb_vm::error::OutOfBoundKind::Memory)); }
        Ok((0..n / 2).map(|k| (self.half(a + 2 * k) as u64) << (16 * k)).sum())
    }
}
impl<R: ckb_vm::Register> Memory for Vast<R> {
    type REG = R;
    fn reset_memory(&mut self) -> Result<(), Error> { self.epoch += 1; Ok(()) }
    fn init_pages(&mut self, _: u64, _: u64, _: u8, _: Option<Bytes>, _: u64) -> Result<(), Error> { Err(Error::External("not here".into())) }
    fn fetch_flag(&mut self, _: u64) -> Result<u8, Error> { Ok(EXEC | FREEZED) }
    fn set_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { Ok(()) }
    fn clear_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { Ok(()) }
    fn memory_size(&self) -> usize { self.size }
    fn store_byte(&mut self, _: u64, _: u64, _: u8) -> Result<(), Error> { Err(Error::External("not here".into())) }
    fn store_bytes(&mut self, _: u64, _: &[u8]) -> Result<(), Error> { Err(Error::External("not here".into())) }
    fn load_bytes(&mut self, a: u64, n: u64) -> Result<Bytes, Error> { (a..a + n).map(|x| self.load8(&R::from_u64(x)).map(|v| v.to_u8())).collect::<Result<Vec<_>, _>>().map(Bytes::from) }
    fn execute_load16(&mut self, a: u64) -> Result<u16, Error> { self.fetch(a, 2).map(|x| x as u16) }
    fn execute_load32(&mut self, a: u64) -> Result<u32, Error> { self.fetch(a, 4).map(|x| x as u32) }
    fn load8(&mut self, a: &R) -> Result<R, Error> { let a = a.to_u64(); self.fetch(a & !1, 2).map(|x| R::from_u8((x >> (8 * (a & 1))) as u8)) }
    fn load16(&mut self, a: &R) -> Result<R, Error> { self.fetch(a.to_u64(), 2).map(|x| R::from_u16(x as u16)) }
    fn load32(&mut self, a: &R) -> Result<R, Error> { self.fetch(a.to_u64(), 4).map(|x| R::from_u32(x as u32)) }
    fn load64(&mut self, a: &R) -> Result<R, Error> { self.fetch(a.to_u64(), 8).map(R::from_u64) }
    fn store8(&mut self, _: &R, _: &R) -> Result<(), Error> { Err(Error::External("not here".into())) }
    fn store16(&mut self, _: &R, _: &R) -> Result<(), Error> { Err(Error::External("not here".into())) }
    fn store32(&mut self, _: &R, _: &R) -> Result<(), Error> { Err(Error::External("not here".into())) }
    fn store64(&mut self, _: &R, _: &R) -> Result<(), Error> { Err(Error::External("not here".into())) }
    fn lr(&self) -> &R { &self.lr }
    fn set_lr(&mut self, v: &R) { self.lr = v.clone(); }
}

/// Addresses anywhere, in memories of any size, through one warm decoder.
fn far(ctx: &mut Ctx, rng: &mut Rng) -> V { if rng.chance(1, 4) { far_in::<u32>(ctx, rng, 32) } else { far_in::<u64>(ctx, rng, 64) } }
fn far_in<R: ckb_vm::Register>(ctx: &mut Ctx, rng: &mut Rng, xlen: u32) -> V {
    let (_, isa, version) = config(rng);
    let isa = isa & !ISA_MOP;
    let top = if xlen == 32 { 32 } else { 64 };
    let size = match rng.below(4) { 0 => usize::MAX & !0xfff, 1 => 1usize << (12 + rng.below(top - 12)), _ => if xlen == 32 { 1 << 32 } else { 1 << 63 } };
    let pool: Vec<u32> = (0..256).map(|_| match rng.below(6) {
        0 => rng.u32(),
        1 => { let o = *rng.pick(ALL_OPS); let i = inst(o, 8 + rng.below(8) as u8, 8 + rng.below(8) as u8, 8 + rng.below(8) as u8, rng.range(-32, 31)); compress(&i).map_or(0x0001_0001, |h| h as u32 * 0x1_0001) }
        _ => { let o = *rng.pick(ALL_OPS); encode(&inst(o, rng.below(32) as u8, rng.below(32) as u8, rng.below(32) as u8, rng.value() as i64)) }
    }).collect();
    let mut mem = Vast::<R> { seed: rng.next(), size, pool, epoch: 0, lr: R::zero() };
    let mut d = dec_for(xlen, isa, version);
    let mut last: Vec<u64> = vec![rng.below(size as u64) & !1];
    for _ in 0..3000 {
        let b = *rng.pick(&last);
        let pc = match rng.below(8) {
            0 => rng.below(size as u64),
            1 => rng.value(),
            2 => b,
            3 => b.wrapping_add(2 * rng.below(4)),
            4 => size as u64 - 2 * rng.below(4),
            _ => b ^ 1 << (1 + rng.below(top - 1)) ^ if rng.chance(1, 4) { 1 << (1 + rng.below(top - 1)) } else { 0 },
        } & !1 & if xlen == 32 { 0xffff_ffff } else { u64::MAX };
        if pc < size as u64 { if last.len() < 40 { last.push(pc); } else { let k = rng.us(40); last[k] = pc; } }
        if rng.chance(1, 700) { mem.reset_memory().unwrap(); d.reset_instructions_cache().map_err(|e| format!("{e:?}"))?; ctx.count("cache-resets"); }
        let r = d.decode(&mut mem, pc);
        let what = |r: &Result<u64, Error>| match r { Ok(i) => vm_name(extract_opcode(*i)), Err(e) => format!("{e:?}") };
        if pc >= size as u64 { ensure!(matches!(r, Err(Error::MemOutOfBound(..))), "at {pc:#x}: outside of memory, reported {}", what(&r)); ctx.add("out-of-bound", 1); continue; }
        let lo = mem.half(pc) as u32;
        let word = if lo & 3 == 3 { if pc + 2 >= size as u64 { continue; } lo | (mem.half(pc + 2) as u32) << 16 } else { lo };
        match decode(word, xlen, isa, version) {
            Dec::Ok(i) => {
                let got = r.map_err(|e| format!("{pc:#x} holds {i:?}, refused: {e:?}"))?;
                same(got, &i).map_err(|e| format!("at {pc:#x} (word {word:#x}): {e}"))?;
                ctx.add("decoded", 1);
                ctx.max("max:address-bits", 64 - pc.leading_zeros() as u64);
            }
            Dec::Illegal => ensure!(matches!(r, Err(Error::InvalidInstruction { pc: p, instruction }) if pc == p && instruction == word), "at {pc:#x}: illegal word {word:#x}, reported {}", what(&r)),
            Dec::Unspecified => {}
        }
        ctx.seen(mix(&[pc >> 12, isa as u64, version as u64, 7]));
    }
    Ok(())
}
