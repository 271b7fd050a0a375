//! Encoders for the instruction set (inverse of the reference decoder), a small assembler with
//! labels, and an ELF image builder.
use crate::refiss::{Inst, Op};

fn r(f7: u32, f3: u32, opc: u32, i: &Inst) -> u32 {
    (f7 << 25) | ((i.rs2 as u32) << 20) | ((i.rs1 as u32) << 15) | (f3 << 12) | ((i.rd as u32) << 7) | opc
}
fn ii(imm: u32, f3: u32, opc: u32, i: &Inst) -> u32 {
    ((imm & 0xfff) << 20) | ((i.rs1 as u32) << 15) | (f3 << 12) | ((i.rd as u32) << 7) | opc
}
fn ss(f3: u32, i: &Inst) -> u32 {
    let m = i.imm as u32;
    (((m >> 5) & 0x7f) << 25) | ((i.rs2 as u32) << 20) | ((i.rs1 as u32) << 15) | (f3 << 12) | ((m & 0x1f) << 7) | 0x23
}
fn bb(f3: u32, i: &Inst) -> u32 {
    let m = i.imm as u32;
    (((m >> 12) & 1) << 31) | (((m >> 5) & 0x3f) << 25) | ((i.rs2 as u32) << 20) | ((i.rs1 as u32) << 15) | (f3 << 12)
        | (((m >> 1) & 0xf) << 8) | (((m >> 11) & 1) << 7) | 0x63
}
fn jj(i: &Inst) -> u32 {
    let m = i.imm as u32;
    (((m >> 20) & 1) << 31) | (((m >> 1) & 0x3ff) << 21) | (((m >> 11) & 1) << 20) | (((m >> 12) & 0xff) << 12) | ((i.rd as u32) << 7) | 0x6f
}

/// The 32-bit encoding of an instruction.
pub fn encode(i: &Inst) -> u32 {
    use Op::*;
    let im = i.imm as u32;
    let sh = |f6: u32| (f6 << 6) | (im & 0x3f);
    let un = |f7: u32, sel: u32| (f7 << 5) | sel;
    match i.op {
        LUI => (im & 0xffff_f000) | ((i.rd as u32) << 7) | 0x37,
        AUIPC => (im & 0xffff_f000) | ((i.rd as u32) << 7) | 0x17,
        JAL => jj(i),
        JALR => ii(im, 0, 0x67, i),
        BEQ => bb(0, i), BNE => bb(1, i), BLT => bb(4, i), BGE => bb(5, i), BLTU => bb(6, i), BGEU => bb(7, i),
        LB => ii(im, 0, 3, i), LH => ii(im, 1, 3, i), LW => ii(im, 2, 3, i), LD => ii(im, 3, 3, i), LBU => ii(im, 4, 3, i), LHU => ii(im, 5, 3, i), LWU => ii(im, 6, 3, i),
        SB => ss(0, i), SH => ss(1, i), SW => ss(2, i), SD => ss(3, i),
        ADDI => ii(im, 0, 0x13, i), SLTI => ii(im, 2, 0x13, i), SLTIU => ii(im, 3, 0x13, i), XORI => ii(im, 4, 0x13, i), ORI => ii(im, 6, 0x13, i), ANDI => ii(im, 7, 0x13, i),
        SLLI => ii(sh(0), 1, 0x13, i), SRLI => ii(sh(0), 5, 0x13, i), SRAI => ii(sh(0b010000), 5, 0x13, i),
        BCLRI => ii(sh(0b010010), 1, 0x13, i), BEXTI => ii(sh(0b010010), 5, 0x13, i), BINVI => ii(sh(0b011010), 1, 0x13, i), BSETI => ii(sh(0b001010), 1, 0x13, i), RORI => ii(sh(0b011000), 5, 0x13, i),
        CLZ => ii(un(0x30, 0), 1, 0x13, i), CTZ => ii(un(0x30, 1), 1, 0x13, i), CPOP => ii(un(0x30, 2), 1, 0x13, i), SEXTB => ii(un(0x30, 4), 1, 0x13, i), SEXTH => ii(un(0x30, 5), 1, 0x13, i),
        ORCB => ii(un(0x14, 7), 5, 0x13, i), REV8 => ii(un(0x35, 24), 5, 0x13, i),
        ADDIW => ii(im, 0, 0x1b, i), SLLIW => ii(im & 31, 1, 0x1b, i), SRLIW => ii(im & 31, 5, 0x1b, i), SRAIW => ii((0x20 << 5) | (im & 31), 5, 0x1b, i),
        CLZW => ii(un(0x30, 0), 1, 0x1b, i), CTZW => ii(un(0x30, 1), 1, 0x1b, i), CPOPW => ii(un(0x30, 2), 1, 0x1b, i), RORIW => ii(un(0x30, im & 31), 5, 0x1b, i), SLLIUW => ii(sh(2), 1, 0x1b, i),
        ADD => r(0, 0, 0x33, i), SUB => r(0x20, 0, 0x33, i), SLL => r(0, 1, 0x33, i), SLT => r(0, 2, 0x33, i), SLTU => r(0, 3, 0x33, i), XOR => r(0, 4, 0x33, i),
        SRL => r(0, 5, 0x33, i), SRA => r(0x20, 5, 0x33, i), OR => r(0, 6, 0x33, i), AND => r(0, 7, 0x33, i),
        MUL => r(1, 0, 0x33, i), MULH => r(1, 1, 0x33, i), MULHSU => r(1, 2, 0x33, i), MULHU => r(1, 3, 0x33, i), DIV => r(1, 4, 0x33, i), DIVU => r(1, 5, 0x33, i), REM => r(1, 6, 0x33, i), REMU => r(1, 7, 0x33, i),
        ANDN => r(0x20, 7, 0x33, i), ORN => r(0x20, 6, 0x33, i), XNOR => r(0x20, 4, 0x33, i), ROL => r(0x30, 1, 0x33, i), ROR => r(0x30, 5, 0x33, i),
        BINV => r(0x34, 1, 0x33, i), BSET => r(0x14, 1, 0x33, i), BCLR => r(0x24, 1, 0x33, i), BEXT => r(0x24, 5, 0x33, i),
        SH1ADD => r(0x10, 2, 0x33, i), SH2ADD => r(0x10, 4, 0x33, i), SH3ADD => r(0x10, 6, 0x33, i),
        CLMUL => r(5, 1, 0x33, i), CLMULH => r(5, 3, 0x33, i), CLMULR => r(5, 2, 0x33, i), MIN => r(5, 4, 0x33, i), MINU => r(5, 5, 0x33, i), MAX => r(5, 6, 0x33, i), MAXU => r(5, 7, 0x33, i),
        ADDW => r(0, 0, 0x3b, i), SUBW => r(0x20, 0, 0x3b, i), SLLW => r(0, 1, 0x3b, i), SRLW => r(0, 5, 0x3b, i), SRAW => r(0x20, 5, 0x3b, i),
        MULW => r(1, 0, 0x3b, i), DIVW => r(1, 4, 0x3b, i), DIVUW => r(1, 5, 0x3b, i), REMW => r(1, 6, 0x3b, i), REMUW => r(1, 7, 0x3b, i),
        ADDUW => r(4, 0, 0x3b, i), ROLW => r(0x30, 1, 0x3b, i), RORW => r(0x30, 5, 0x3b, i), SH1ADDUW => r(0x10, 2, 0x3b, i), SH2ADDUW => r(0x10, 4, 0x3b, i), SH3ADDUW => r(0x10, 6, 0x3b, i),
        ZEXTH => r(4, 4, 0x3b, &Inst { rs2: 0, ..*i }),
        FENCE => 0x0ff0_000f, FENCEI => 0x0000_100f, ECALL => 0x73, EBREAK => 0x0010_0073,
        LR_W => amo(2, 2, i), SC_W => amo(3, 2, i), AMOSWAP_W => amo(1, 2, i), AMOADD_W => amo(0, 2, i), AMOXOR_W => amo(4, 2, i), AMOAND_W => amo(12, 2, i), AMOOR_W => amo(8, 2, i),
        AMOMIN_W => amo(16, 2, i), AMOMAX_W => amo(20, 2, i), AMOMINU_W => amo(24, 2, i), AMOMAXU_W => amo(28, 2, i),
        LR_D => amo(2, 3, i), SC_D => amo(3, 3, i), AMOSWAP_D => amo(1, 3, i), AMOADD_D => amo(0, 3, i), AMOXOR_D => amo(4, 3, i), AMOAND_D => amo(12, 3, i), AMOOR_D => amo(8, 3, i),
        AMOMIN_D => amo(16, 3, i), AMOMAX_D => amo(20, 3, i), AMOMINU_D => amo(24, 3, i), AMOMAXU_D => amo(28, 3, i),
    }
}
fn amo(f5: u32, f3: u32, i: &Inst) -> u32 { r(f5 << 2, f3, 0x2f, i) }

/// A compressed encoding of the instruction, when there is one.
pub fn compress(i: &Inst) -> Option<u16> {
    use Op::*;
    let (rd, rs1, rs2, im) = (i.rd as u32, i.rs1 as u32, i.rs2 as u32, i.imm);
    let cr = |x: u32| (8..16).contains(&x);
    let p = |x: u32| x - 8;
    let s6 = (-32..32).contains(&im);
    let imm6 = |f3: u32, reg: u32| (f3 << 13) | ((((im as u32) >> 5) & 1) << 12) | (reg << 7) | (((im as u32) & 31) << 2) | 1;
    let u = im as u32;
    let w: u32 = match i.op {
        ADDI if rd == rs1 && rd != 0 && s6 && im != 0 => imm6(0, rd),
        ADDI if rs1 == 0 && rd != 0 && s6 => imm6(2, rd),
        ADDI if rd == 2 && rs1 == 2 && im != 0 && im % 16 == 0 && (-512..512).contains(&im) =>
            (3 << 13) | (((u >> 9) & 1) << 12) | (2 << 7) | (((u >> 4) & 1) << 6) | (((u >> 6) & 1) << 5) | (((u >> 7) & 3) << 3) | (((u >> 5) & 1) << 2) | 1,
        ADDI if rs1 == 2 && cr(rd) && im > 0 && im < 1024 && im % 4 == 0 =>
            (((u >> 4) & 3) << 11) | (((u >> 6) & 15) << 7) | (((u >> 2) & 1) << 6) | (((u >> 3) & 1) << 5) | (p(rd) << 2),
        ADDIW if rd == rs1 && rd != 0 && s6 => imm6(1, rd),
        LUI if rd != 0 && rd != 2 && im != 0 && im % 4096 == 0 && (-32..32).contains(&(im >> 12)) =>
            (3 << 13) | ((((im >> 12) as u32 >> 5) & 1) << 12) | (rd << 7) | ((((im >> 12) as u32) & 31) << 2) | 1,
        SRLI if rd == rs1 && cr(rd) && im > 0 => (4 << 13) | (((u >> 5) & 1) << 12) | (p(rd) << 7) | ((u & 31) << 2) | 1,
        SRAI if rd == rs1 && cr(rd) && im > 0 => (4 << 13) | (((u >> 5) & 1) << 12) | (1 << 10) | (p(rd) << 7) | ((u & 31) << 2) | 1,
        ANDI if rd == rs1 && cr(rd) && s6 => (4 << 13) | (((u >> 5) & 1) << 12) | (2 << 10) | (p(rd) << 7) | ((u & 31) << 2) | 1,
        SLLI if rd == rs1 && rd != 0 && im > 0 => (((u >> 5) & 1) << 12) | (rd << 7) | ((u & 31) << 2) | 2,
        SUB | XOR | OR | AND | SUBW | ADDW if rd == rs1 && cr(rd) && cr(rs2) => {
            let (b12, f2) = match i.op { SUB => (0, 0), XOR => (0, 1), OR => (0, 2), AND => (0, 3), SUBW => (1, 0), _ => (1, 1) };
            (4 << 13) | (b12 << 12) | (3 << 10) | (p(rd) << 7) | (f2 << 5) | (p(rs2) << 2) | 1
        }
        ADD if rd != 0 && rs1 == 0 && rs2 != 0 => (4 << 13) | (rd << 7) | (rs2 << 2) | 2,
        ADD if rd != 0 && rd == rs1 && rs2 != 0 => (4 << 13) | (1 << 12) | (rd << 7) | (rs2 << 2) | 2,
        JALR if im == 0 && rd == 0 && rs1 != 0 => (4 << 13) | (rs1 << 7) | 2,
        JALR if im == 0 && rd == 1 && rs1 != 0 => (4 << 13) | (1 << 12) | (rs1 << 7) | 2,
        EBREAK => (4 << 13) | (1 << 12) | 2,
        LW if cr(rd) && cr(rs1) && im >= 0 && im < 128 && im % 4 == 0 => (2 << 13) | (((u >> 3) & 7) << 10) | (p(rs1) << 7) | (((u >> 2) & 1) << 6) | (((u >> 6) & 1) << 5) | (p(rd) << 2),
        LD if cr(rd) && cr(rs1) && im >= 0 && im < 256 && im % 8 == 0 => (3 << 13) | (((u >> 3) & 7) << 10) | (p(rs1) << 7) | (((u >> 6) & 3) << 5) | (p(rd) << 2),
        SW if cr(rs2) && cr(rs1) && im >= 0 && im < 128 && im % 4 == 0 => (6 << 13) | (((u >> 3) & 7) << 10) | (p(rs1) << 7) | (((u >> 2) & 1) << 6) | (((u >> 6) & 1) << 5) | (p(rs2) << 2),
        SD if cr(rs2) && cr(rs1) && im >= 0 && im < 256 && im % 8 == 0 => (7 << 13) | (((u >> 3) & 7) << 10) | (p(rs1) << 7) | (((u >> 6) & 3) << 5) | (p(rs2) << 2),
        LW if rd != 0 && rs1 == 2 && im >= 0 && im < 256 && im % 4 == 0 => (2 << 13) | (((u >> 5) & 1) << 12) | (rd << 7) | (((u >> 2) & 7) << 4) | (((u >> 6) & 3) << 2) | 2,
        LD if rd != 0 && rs1 == 2 && im >= 0 && im < 512 && im % 8 == 0 => (3 << 13) | (((u >> 5) & 1) << 12) | (rd << 7) | (((u >> 3) & 3) << 5) | (((u >> 6) & 7) << 2) | 2,
        SW if rs1 == 2 && im >= 0 && im < 256 && im % 4 == 0 => (6 << 13) | (((u >> 2) & 15) << 9) | (((u >> 6) & 3) << 7) | (rs2 << 2) | 2,
        SD if rs1 == 2 && im >= 0 && im < 512 && im % 8 == 0 => (7 << 13) | (((u >> 3) & 7) << 10) | (((u >> 6) & 7) << 7) | (rs2 << 2) | 2,
        _ => return None,
    };
    Some(w as u16)
}

pub fn inst(op: Op, rd: u8, rs1: u8, rs2: u8, imm: i64) -> Inst { Inst { op, rd, rs1, rs2, imm, len: 4 } }

pub type Label = usize;

#[derive(Clone, Debug)]
pub enum Item {
    I(Inst, bool),
    Label(Label),
    /// conditional branch to a label (may be relaxed to an inverted branch over a jal)
    Br(Op, u8, u8, Label),
    Jal(u8, Label),
    /// auipc rd ; addi rd — address of a label
    La(u8, Label),
    /// auipc via ; jalr rd, via
    Far(u8, u8, Label),
    /// lui ; jalr pair (absolute)
    FarAbs(u8, u8, Label),
    Raw(Vec<u8>),
    /// pad with nops up to the given address modulo `1<<bits`
    PadTo(u32, u64),
    /// continue at this absolute address (must not be behind)
    Org(u64),
}

pub struct Asm {
    pub items: Vec<Item>,
    pub nlabels: usize,
    pub rv64: bool,
}

#[derive(Clone, Debug)]
pub struct Blob { pub base: u64, pub bytes: Vec<u8>, pub labels: Vec<u64> , /// (start, end) pieces of real code when Org left gaps
    pub gaps: Vec<(u64, u64)> }

impl Asm {
    pub fn new(rv64: bool) -> Self { Asm { items: vec![], nlabels: 0, rv64 } }
    pub fn label(&mut self) -> Label { self.nlabels += 1; self.nlabels - 1 }
    pub fn bind(&mut self, l: Label) { self.items.push(Item::Label(l)); }
    pub fn i(&mut self, op: Op, rd: u8, rs1: u8, rs2: u8, imm: i64) { self.items.push(Item::I(inst(op, rd, rs1, rs2, imm), false)); }
    pub fn ic(&mut self, op: Op, rd: u8, rs1: u8, rs2: u8, imm: i64, c: bool) { self.items.push(Item::I(inst(op, rd, rs1, rs2, imm), c)); }
    pub fn inst(&mut self, i: Inst, c: bool) { self.items.push(Item::I(i, c)); }
    pub fn br(&mut self, op: Op, a: u8, b: u8, l: Label) { self.items.push(Item::Br(op, a, b, l)); }
    pub fn jal(&mut self, rd: u8, l: Label) { self.items.push(Item::Jal(rd, l)); }
    pub fn la(&mut self, rd: u8, l: Label) { self.items.push(Item::La(rd, l)); }
    pub fn raw(&mut self, b: &[u8]) { self.items.push(Item::Raw(b.to_vec())); }
    pub fn ecall(&mut self) { self.i(Op::ECALL, 0, 0, 0, 0); }
    /// load any constant
    pub fn li(&mut self, rd: u8, v: u64) {
        if !self.rv64 {
            let v = v as u32 as i32;
            let lo = ((v << 20) >> 20) as i64;
            let hi = (v as i64 - lo) as i32;
            if hi != 0 { self.i(Op::LUI, rd, 0, 0, hi as i64); self.i(Op::ADDI, rd, rd, 0, lo); } else { self.i(Op::ADDI, rd, 0, 0, lo); }
            return;
        }
        let s = v as i64;
        if (-2048..2048).contains(&s) { self.i(Op::ADDI, rd, 0, 0, s); return; }
        let lo = (s << 52) >> 52;
        if s >= i32::MIN as i64 && s <= i32::MAX as i64 {
            let hi = (s.wrapping_sub(lo)) as i32;
            self.i(Op::LUI, rd, 0, 0, hi as i64);
            if lo != 0 { self.i(Op::ADDIW, rd, rd, 0, lo); }
            return;
        }
        self.li(rd, (s.wrapping_sub(lo) >> 12) as u64);
        self.i(Op::SLLI, rd, rd, 0, 12);
        if lo != 0 { self.i(Op::ADDI, rd, rd, 0, lo); }
    }
    pub fn exit(&mut self, code: i64) { self.i(Op::ADDI, 10, 0, 0, code); self.i(Op::ADDI, 17, 0, 0, 93); self.ecall(); }

    pub fn assemble(&self, base: u64) -> Blob {
        let mut long = vec![false; self.items.len()];
        let mut labels = vec![0u64; self.nlabels];
        loop {
            let mut pos = base;
            let mut starts = Vec::with_capacity(self.items.len());
            for (k, it) in self.items.iter().enumerate() {
                starts.push(pos);
                pos += match it {
                    Item::I(i, c) => if *c && compress(i).is_some() && self.c_ok(i) { 2 } else { 4 },
                    Item::Label(l) => { labels[*l] = pos; 0 }
                    Item::Br(..) => if long[k] { 8 } else { 4 },
                    Item::Jal(..) => 4,
                    Item::La(..) | Item::Far(..) | Item::FarAbs(..) => 8,
                    Item::Raw(b) => b.len() as u64,
                    Item::PadTo(bits, target) => { let m = 1u64 << bits; (target.wrapping_sub(pos)) & (m - 1) }
                    Item::Org(a) => { assert!(*a >= pos, "org behind"); a - pos }
                };
            }
            let mut changed = false;
            for (k, it) in self.items.iter().enumerate() {
                if let Item::Br(_, _, _, l) = it {
                    let d = labels[*l] as i64 - starts[k] as i64;
                    if !(-4096..4096).contains(&d) && !long[k] { long[k] = true; changed = true; }
                }
            }
            if changed { continue; }
            let mut out: Vec<u8> = vec![];
            let mut gaps = vec![];
            for (k, it) in self.items.iter().enumerate() {
                let pos = starts[k];
                let e = |w: u32, out: &mut Vec<u8>| out.extend_from_slice(&w.to_le_bytes());
                match it {
                    Item::I(i, c) => match (*c && self.c_ok(i)).then(|| compress(i)).flatten() {
                        Some(h) => out.extend_from_slice(&h.to_le_bytes()),
                        None => e(encode(i), &mut out),
                    },
                    Item::Label(_) => {}
                    Item::Br(op, a, b, l) => {
                        let d = labels[*l] as i64 - pos as i64;
                        if long[k] {
                            let inv = match op { Op::BEQ => Op::BNE, Op::BNE => Op::BEQ, Op::BLT => Op::BGE, Op::BGE => Op::BLT, Op::BLTU => Op::BGEU, _ => Op::BLTU };
                            e(encode(&inst(inv, 0, *a, *b, 8)), &mut out);
                            e(encode(&inst(Op::JAL, 0, 0, 0, d - 4)), &mut out);
                        } else { e(encode(&inst(*op, 0, *a, *b, d)), &mut out); }
                    }
                    Item::Jal(rd, l) => e(encode(&inst(Op::JAL, *rd, 0, 0, labels[*l] as i64 - pos as i64)), &mut out),
                    Item::La(rd, l) => {
                        let d = labels[*l] as i64 - pos as i64;
                        let lo = (d << 52) >> 52;
                        e(encode(&inst(Op::AUIPC, *rd, 0, 0, d - lo)), &mut out);
                        e(encode(&inst(Op::ADDI, *rd, *rd, 0, lo)), &mut out);
                    }
                    Item::Far(rd, via, l) => {
                        let d = labels[*l] as i64 - pos as i64;
                        let lo = (d << 52) >> 52;
                        e(encode(&inst(Op::AUIPC, *via, 0, 0, d - lo)), &mut out);
                        e(encode(&inst(Op::JALR, *rd, *via, 0, lo)), &mut out);
                    }
                    Item::FarAbs(rd, via, l) => {
                        let d = labels[*l] as i64;
                        let lo = (d << 52) >> 52;
                        e(encode(&inst(Op::LUI, *via, 0, 0, d - lo)), &mut out);
                        e(encode(&inst(Op::JALR, *rd, *via, 0, lo)), &mut out);
                    }
                    Item::Raw(b) => out.extend_from_slice(b),
                    Item::PadTo(bits, target) => {
                        let mut n = (target.wrapping_sub(pos)) & ((1u64 << bits) - 1);
                        while n >= 4 { e(0x13, &mut out); n -= 4; }
                        if n >= 2 { out.extend_from_slice(&1u16.to_le_bytes()); n -= 2; }
                        for _ in 0..n { out.push(0); }
                    }
                    Item::Org(a) => { if *a > pos { gaps.push((pos, *a)); } out.resize((*a - base) as usize, 0); }
                }
            }
            return Blob { base, bytes: out, labels, gaps };
        }
    }
    fn c_ok(&self, i: &Inst) -> bool {
        // some compressed forms exist on 64-bit only
        self.rv64 || !matches!(i.op, Op::ADDIW | Op::LD | Op::SD | Op::ADDW | Op::SUBW)
    }
}

pub const PF_X: u32 = 1;
pub const PF_W: u32 = 2;
pub const PF_R: u32 = 4;

#[derive(Clone, Debug)]
pub struct Seg { pub vaddr: u64, pub data: Vec<u8>, pub memsz: u64, pub flags: u32 }

/// A minimal statically linked RISC-V executable.
pub fn build_elf(rv64: bool, entry: u64, segs: &[Seg]) -> Vec<u8> {
    let (eh, ph) = if rv64 { (64usize, 56usize) } else { (52, 32) };
    let mut out = vec![0u8; eh + ph * segs.len()];
    out[..4].copy_from_slice(b"\x7fELF");
    out[4] = if rv64 { 2 } else { 1 };
    out[5] = 1;
    out[6] = 1;
    fn p16(o: &mut [u8], at: usize, v: u16) { o[at..at + 2].copy_from_slice(&v.to_le_bytes()); }
    fn p32(o: &mut [u8], at: usize, v: u32) { o[at..at + 4].copy_from_slice(&v.to_le_bytes()); }
    fn p64(o: &mut [u8], at: usize, v: u64) { o[at..at + 8].copy_from_slice(&v.to_le_bytes()); }
    p16(&mut out, 16, 2);
    p16(&mut out, 18, 243);
    p32(&mut out, 20, 1);
    if rv64 {
        p64(&mut out, 24, entry);
        p64(&mut out, 32, eh as u64);
        p16(&mut out, 52, eh as u16);
        p16(&mut out, 54, ph as u16);
        p16(&mut out, 56, segs.len() as u16);
        p16(&mut out, 58, 64);
    } else {
        p32(&mut out, 24, entry as u32);
        p32(&mut out, 28, eh as u32);
        p16(&mut out, 40, eh as u16);
        p16(&mut out, 42, ph as u16);
        p16(&mut out, 44, segs.len() as u16);
        p16(&mut out, 46, 40);
    }
    for (k, s) in segs.iter().enumerate() {
        let off = out.len() as u64;
        out.extend_from_slice(&s.data);
        let at = eh + ph * k;
        if rv64 {
            p32(&mut out, at, 1);
            p32(&mut out, at + 4, s.flags);
            p64(&mut out, at + 8, off);
            p64(&mut out, at + 16, s.vaddr);
            p64(&mut out, at + 24, s.vaddr);
            p64(&mut out, at + 32, s.data.len() as u64);
            p64(&mut out, at + 40, s.memsz);
            p64(&mut out, at + 48, 4096);
        } else {
            p32(&mut out, at, 1);
            p32(&mut out, at + 4, off as u32);
            p32(&mut out, at + 8, s.vaddr as u32);
            p32(&mut out, at + 12, s.vaddr as u32);
            p32(&mut out, at + 16, s.data.len() as u32);
            p32(&mut out, at + 20, s.memsz as u32);
            p32(&mut out, at + 24, s.flags);
            p32(&mut out, at + 28, 4096);
        }
    }
    out
}
