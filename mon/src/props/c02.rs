//! Single instructions and short sequences with chosen operands; all registers are observed after
//! each of them, on every engine.
use super::*;
use crate::common::*;
use crate::enc::*;
use crate::gen::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::Costs;
use crate::eng::Cfg;
use ckb_vm::Bytes;

pub fn parts() -> Vec<Part> { vec![("batch", 6, batch), ("jumps", 3, jumps), ("faults", 1, faults), ("words", 1, super::words::words)] }

const CODE: u64 = 0x10000;
const TABLE: u64 = 0x30000;
const DATA: u64 = 0x38000;

pub fn all_ops(xlen: u32, isa: u8) -> Vec<Op> {
    use Op::*;
    let mut v = alu_ops(xlen, isa);
    v.extend_from_slice(&[AUIPC, LB, LH, LW, LBU, LHU, SB, SH, SW, FENCE, FENCEI, BEQ, BNE, BLT, BGE, BLTU, BGEU, JAL, JALR, EBREAK]);
    if xlen == 64 { v.extend_from_slice(&[LD, LWU, SD]); }
    if isa & ISA_A != 0 {
        v.extend_from_slice(&[LR_W, SC_W, AMOSWAP_W, AMOADD_W, AMOXOR_W, AMOAND_W, AMOOR_W, AMOMIN_W, AMOMAX_W, AMOMINU_W, AMOMAXU_W]);
        if xlen == 64 { v.extend_from_slice(&[LR_D, SC_D, AMOSWAP_D, AMOADD_D, AMOXOR_D, AMOAND_D, AMOOR_D, AMOMIN_D, AMOMAX_D, AMOMINU_D, AMOMAXU_D]); }
    }
    v
}
pub fn is_mem(o: Op) -> bool {
    use Op::*;
    matches!(o, LB | LH | LW | LBU | LHU | LWU | LD | SB | SH | SW | SD) || is_amo(o)
}
pub fn is_amo(o: Op) -> bool { (o as usize) >= Op::LR_W as usize && (o as usize) <= Op::AMOMAXU_D as usize }
pub fn is_flow(o: Op) -> bool { use Op::*; matches!(o, BEQ | BNE | BLT | BGE | BLTU | BGEU | JAL | JALR) }

fn reg(rng: &mut Rng, few: bool) -> u8 { if few { *rng.pick(&[8, 9, 10, 11, 15]) } else { rng.below(32) as u8 } }

/// operands for any operation that does not transfer control
pub fn any_inst(rng: &mut Rng, op: Op, xlen: u32, few: bool) -> Inst {
    let (rd, r1, r2) = (reg(rng, few), reg(rng, few), reg(rng, few));
    let r1 = if rng.chance(1, 4) { rd } else { r1 };
    let r2 = match rng.below(6) { 0 => rd, 1 => r1, _ => r2 };
    if is_amo(op) { return inst(op, rd, r1, if matches!(op, Op::LR_W | Op::LR_D) { 0 } else { r2 }, 0); }
    if is_mem(op) {
        let imm = match rng.below(5) { 0 => 0, 1 => rng.range(0, 31) * 4, 2 => rng.range(0, 31) * 8, 3 => *rng.pick(&[2047, -2048, -1, 1, 252, 504]), _ => rng.range(-2048, 2047) };
        let r1 = if rng.chance(1, 5) { 2 } else { r1 };
        return match op { Op::SB | Op::SH | Op::SW | Op::SD => inst(op, 0, r1, r2, imm), _ => inst(op, rd, r1, 0, imm) };
    }
    if op == Op::ADDI && rng.chance(1, 4) {
        // compressible stack pointer arithmetic
        return if rng.chance(1, 2) { inst(op, 2, 2, 0, rng.range(-32, 31) * 16) } else { inst(op, 8 + rng.below(8) as u8, 2, 0, rng.range(1, 255) * 4) };
    }
    if op == Op::ADD && rng.chance(1, 4) { return inst(op, rd, 0, r2, 0); }
    alu_inst(rng, op, rd, r1, r2, xlen)
}

pub fn operand(rng: &mut Rng, prev: u64) -> u64 {
    match rng.below(8) { 0 => prev, 1 => prev.wrapping_add(1), 2 => prev.wrapping_neg(), 3 => !prev, _ => rng.value() }
}

fn setup(rng: &mut Rng, xlen: u32, isa: u8, version: u32, segs: Vec<Seg>, entry: u64, mem: usize, dbg: bool) -> Setup {
    let img = Image { elf: Bytes::from(build_elf(xlen == 64, entry, &segs)), segs, entry, args: vec![] };
    let cfg = Cfg { isa, version, mem, max_cycles: u64::MAX, costs: Costs::One, keep_decoder: rng.chance(1, 2), chaos: None };
    Setup { cfg, xlen, img, images: vec![], accept_seed: rng.next(), nhandlers: 1, has_debugger: dbg, cycle_blind: true }
}

pub(super) fn batch(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let version = *rng.pick(&[0, 1, 2, 2]);
    let isa = ISA_B | ISA_A | if version > 0 && rng.chance(1, 6) { ISA_MOP } else { 0 };
    let ops = all_ops(xlen, isa);
    let w = xlen as u64 / 8;
    let mem = 1usize << 19;
    let n = 40;
    let mut a = Asm::new(xlen == 64);
    let mut table: Vec<u64> = vec![];
    let (ld, ldi) = if xlen == 64 { (Op::LD, 8) } else { (Op::LW, 4) };
    for t in 0..n {
        let mut vals = [0u64; 32];
        let mut prev = rng.value();
        for v in vals.iter_mut().skip(1) { *v = operand(rng, prev); prev = *v; }
        let few = rng.chance(1, 2);
        let steps = if rng.chance(1, 3) { 1 + rng.us(6) } else { 1 };
        let mut seq: Vec<(Inst, bool)> = vec![];
        let mut written = 0u32;
        let mut pinned = 0u32;
        for _ in 0..steps {
            let op = *rng.pick(&ops);
            if is_flow(op) && !seq.is_empty() { continue; }
            let mut i = any_inst(rng, op, xlen, few);
            if is_flow(op) { i = inst(op, reg(rng, few), reg(rng, few), reg(rng, few), 0); if !matches!(op, Op::JAL | Op::JALR) { i.rd = 0 } }
            if is_mem(op) {
                let n = 8;
                let at = match rng.below(10) {
                    0 => (mem as u64) - n - rng.below(8) - (version == 0) as u64,
                    1 => 0x40000 - rng.below(10),
                    2 => DATA + PAGE - rng.below(10),
                    3 => rng.below(64),
                    _ => DATA + rng.below(PAGE - 16),
                };
                let base = at.wrapping_sub(i.imm as u64);
                if i.rs1 == 0 {
                    if i.imm < 0 || is_amo(op) { continue; }
                } else if (written | pinned) >> i.rs1 & 1 == 1 { if is_amo(op) && pinned >> i.rs1 & 1 == 1 { } else { continue } }
                else { vals[i.rs1 as usize] = base; pinned |= 1 << i.rs1; }
                if pinned >> i.rs1 & 1 == 1 && (vals[i.rs1 as usize].wrapping_add(i.imm as u64)) & if xlen == 32 { 0xffff_ffff } else { u64::MAX } > mem as u64 - 9 { continue; }
            }
            written |= 1 << i.rd;
            let flow = is_flow(op);
            seq.push((i, rng.chance(1, 2)));
            if flow { break; }
        }
        if seq.is_empty() { continue; }
        // control transfer: over a marker, forwards or backwards
        let at = TABLE + table.len() as u64 * w;
        a.li(31, at);
        for r in 1..32u8 { a.i(ld, r, 31, 0, (r as i64 - 1) * ldi); }
        let op0 = seq[0].0.op;
        if is_flow(op0) && seq.len() == 1 {
            let (i, c) = seq[0];
            let (back, go, done) = (a.label(), a.label(), a.label());
            let backward = rng.chance(1, 2);
            let target = if backward { back } else { done };
            if backward {
                a.jal(0, go);
                a.bind(back);
                a.i(Op::EBREAK, 0, 0, 0, 0);
                a.jal(0, done);
            }
            a.bind(go);
            match op0 {
                Op::JAL => a.jal(i.rd, target),
                Op::JALR => {
                    let r1 = if i.rs1 == 0 { 5 } else { i.rs1 };
                    let off = rng.range(-32, 31) * 2 + if rng.chance(1, 6) { 1 } else { 0 };
                    let off = if c { 0 } else { off };
                    a.la(r1, target);
                    a.i(Op::ADDI, r1, r1, 0, -off);
                    let link = if version == 0 && i.rd == r1 { 0 } else { i.rd };
                    let link = if c { link & 1 } else { link };
                    a.ic(Op::JALR, link, r1, 0, off, c);
                }
                _ => {
                    let k = if c { Inst { rs2: 0, rs1: 8 + i.rs1 % 8, ..i } } else { i };
                    if rng.chance(1, 3) && !c { vals[k.rs2 as usize] = vals[k.rs1 as usize]; vals[0] = 0; }
                    a.br(op0, k.rs1, k.rs2, target);
                }
            }
            a.i(Op::EBREAK, 0, 0, 0, 0);
            a.i(Op::ADDI, 5, 5, 0, 1);
            a.bind(done);
        } else {
            for (i, c) in &seq { a.inst(*i, *c); ctx.count(&format!("op:{:?}{}", i.op, if *c && compress(i).is_some() { ".c" } else { "" })); }
        }
        a.i(Op::EBREAK, 0, 0, 0, 0);
        table.extend_from_slice(&vals[1..]);
        let _ = t;
    }
    a.exit(3);
    let blob = a.assemble(CODE);
    let tb: Vec<u8> = table.iter().flat_map(|v| v.to_le_bytes()[..w as usize].to_vec()).collect();
    assert!(blob.bytes.len() < 0x20000 && tb.len() < 0x8000);
    let len = blob.bytes.len() as u64;
    let tl = tb.len() as u64;
    let dn = (2 * PAGE) as usize;
    let segs = vec![
        Seg { vaddr: CODE, memsz: len, data: blob.bytes, flags: PF_R | PF_X },
        Seg { vaddr: TABLE, memsz: tl, data: tb, flags: PF_R },
        Seg { vaddr: DATA, memsz: dn as u64, data: rng.bytes(dn), flags: PF_R | PF_W },
    ];
    let s = setup(rng, xlen, isa, version, segs, CODE, mem, true);
    compare(ctx, &s, s.kinds(), ARCH)
}

/// One control transfer with a large offset between two sparse pieces of code.
pub(super) fn jumps(ctx: &mut Ctx, rng: &mut Rng) -> V {
    use Op::*;
    let xlen = crate::eng::xlen(rng, 6);
    let version = *rng.pick(&[0, 1, 2, 2]);
    let mem = 3usize << 20;
    let c = rng.chance(1, 4);
    let span: i64 = match rng.below(4) { 0 => 1 << 8, 1 => 1 << 11, 2 => 1 << 12, _ => 1 << 20 };
    let off = match rng.below(4) { 0 => -span, 1 => span - 2, _ => rng.range(-span / 2, span / 2 - 1) * 2 };
    let off = if off.abs() < 64 { off + 128 } else { off };
    let from: i64 = 0x140000 + rng.range(0, 0x1000) * 2;
    let from = if rng.chance(1, 3) { (from & !0xfff) + *rng.pick(&[0xffe, 0xffc, 0, 2]) } else { from };
    let to = from + off;
    let (mut words, kind): (Vec<u8>, &str) = {
        let cj = |off: i64, base: u32| { let m = off as u32; (base | (((m >> 11) & 1) << 12) | (((m >> 4) & 1) << 11) | (((m >> 8) & 3) << 9) | (((m >> 10) & 1) << 8) | (((m >> 6) & 1) << 7) | (((m >> 7) & 1) << 6) | (((m >> 1) & 7) << 3) | (((m >> 5) & 1) << 2)) as u16 };
        let cb = |off: i64, base: u32| { let m = off as u32; (base | (((m >> 8) & 1) << 12) | (((m >> 3) & 3) << 10) | (2 << 7) | (((m >> 6) & 3) << 5) | (((m >> 1) & 3) << 3) | (((m >> 5) & 1) << 2)) as u16 };
        let b = |op, r1, r2| encode(&inst(op, 0, r1, r2, off)).to_le_bytes().to_vec();
        // x10 = 0, x11 = -1
        if c && (-256..256).contains(&off) { if rng.chance(1, 2) { (cb(off, 0xc001).to_le_bytes().to_vec(), "c.beqz") } else { (cb(off, 0xe001 | 0 ).to_le_bytes().to_vec(), "c.bnez") } }
        else if c && (-2048..2048).contains(&off) { if xlen == 32 && rng.chance(1, 2) { (cj(off, 0x2001).to_le_bytes().to_vec(), "c.jal") } else { (cj(off, 0xa001).to_le_bytes().to_vec(), "c.j") } }
        else if (-4096..4096).contains(&off) && rng.chance(2, 3) {
            let op = *rng.pick(&[BEQ, BNE, BLT, BGE, BLTU, BGEU]);
            let (x, y) = *rng.pick(&[(10, 10), (10, 11), (11, 10), (0, 10), (11, 11)]);
            (b(op, x, y), "branch")
        }
        else { (encode(&inst(JAL, *rng.pick(&[0, 1, 5, 10]), 0, 0, off)).to_le_bytes().to_vec(), "jal") }
    };
    ctx.count(&format!("jump:{kind}"));
    let tail = { let mut a = Asm::new(xlen == 64); a.i(EBREAK, 0, 0, 0, 0); a.exit(1); a.assemble(0).bytes };
    words.extend_from_slice(&tail);
    let mut lo = Asm::new(xlen == 64);
    lo.i(EBREAK, 0, 0, 0, 0);
    lo.exit(2);
    let land = lo.assemble(0).bytes;
    // one executable segment over both places, and the start
    let base = (from.min(to) as u64) & !(PAGE - 1);
    let end = (from.max(to) as u64) + 64;
    let start = base.saturating_sub(PAGE);
    let mut bytes = vec![0u8; (end - start) as usize];
    let put = |bytes: &mut Vec<u8>, at: i64, b: &[u8]| { let o = (at as u64 - start) as usize; bytes[o..o + b.len()].copy_from_slice(b); };
    put(&mut bytes, from, &words);
    put(&mut bytes, to, &land);
    let mut pre = Asm::new(xlen == 64);
    pre.i(ADDI, 11, 0, 0, -1);
    pre.li(21, from as u64);
    pre.i(JALR, 0, 21, 0, 0);
    let p = pre.assemble(start).bytes;
    put(&mut bytes, start as i64, &p);
    let segs = vec![Seg { vaddr: start, memsz: bytes.len() as u64, data: bytes, flags: PF_R | PF_X }];
    let s = setup(rng, xlen, 0, version, segs, start, mem, true);
    compare(ctx, &s, s.kinds(), Judge { mem: false, ..ARCH })
}

/// A single refused access must leave every register alone.
fn faults(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let version = *rng.pick(&[0, 1, 2, 2]);
    let isa = ISA_A;
    let ops: Vec<Op> = all_ops(xlen, isa).into_iter().filter(|o| is_mem(*o)).collect();
    let mem = 1usize << 18;
    let mut a = Asm::new(xlen == 64);
    for r in 1..32u8 { let v = rng.value(); a.li(r, v); }
    let op = *rng.pick(&ops);
    let i = any_inst(rng, op, xlen, false);
    if i.rs1 == 0 { return Ok(()); }
    let at = match rng.below(4) { 0 => mem as u64 - rng.below(9), 1 => mem as u64 + rng.below(4096), 2 => CODE + rng.below(200), _ => rng.value() };
    a.li(i.rs1, at.wrapping_sub(i.imm as u64));
    a.i(Op::EBREAK, 0, 0, 0, 0);
    a.inst(i, false);
    a.exit(4);
    let blob = a.assemble(CODE);
    let segs = vec![Seg { vaddr: CODE, memsz: blob.bytes.len() as u64, data: blob.bytes, flags: PF_R | PF_X }];
    let s = setup(rng, xlen, isa, version, segs, CODE, mem, true);
    compare(ctx, &s, s.kinds(), Judge { fail_regs: !is_amo(op), fail_kind: true, ..ARCH })
}
