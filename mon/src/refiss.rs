//! Independent reference model: RISC-V decode and execution written from the specification
//! (plus the documented CKB-VM version quirks). It shares no code with the crate under test.
#![allow(non_camel_case_types)]

pub const ISA_B: u8 = 1;
pub const ISA_MOP: u8 = 2;
pub const ISA_A: u8 = 4;
pub const FREEZED: u8 = 1;
pub const EXEC: u8 = 2;
pub const DIRTY: u8 = 4;
pub const PAGE: u64 = 4096;

macro_rules! ops { ($($n:ident),* $(,)?) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Op { $($n),* }
    pub const ALL_OPS: &[Op] = &[$(Op::$n),*];
} }
ops!(
    LUI, AUIPC, JAL, JALR, BEQ, BNE, BLT, BGE, BLTU, BGEU, LB, LH, LW, LBU, LHU, LWU, LD, SB, SH, SW, SD, ADDI, SLTI,
    SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI, ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND, ADDIW, SLLIW, SRLIW,
    SRAIW, ADDW, SUBW, SLLW, SRLW, SRAW, FENCE, FENCEI, ECALL, EBREAK, MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU,
    MULW, DIVW, DIVUW, REMW, REMUW, LR_W, SC_W, AMOSWAP_W, AMOADD_W, AMOXOR_W, AMOAND_W, AMOOR_W, AMOMIN_W, AMOMAX_W,
    AMOMINU_W, AMOMAXU_W, LR_D, SC_D, AMOSWAP_D, AMOADD_D, AMOXOR_D, AMOAND_D, AMOOR_D, AMOMIN_D, AMOMAX_D, AMOMINU_D,
    AMOMAXU_D, ADDUW, ANDN, BCLR, BCLRI, BEXT, BEXTI, BINV, BINVI, BSET, BSETI, CLMUL, CLMULH, CLMULR, CLZ, CLZW, CPOP,
    CPOPW, CTZ, CTZW, MAX, MAXU, MIN, MINU, ORCB, ORN, REV8, ROL, ROLW, ROR, RORI, RORIW, RORW, SEXTB, SEXTH, SH1ADD,
    SH1ADDUW, SH2ADD, SH2ADDUW, SH3ADD, SH3ADDUW, SLLIUW, XNOR, ZEXTH,
);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Inst { pub op: Op, pub rd: u8, pub rs1: u8, pub rs2: u8, pub imm: i64, pub len: u8 }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dec { Ok(Inst), Illegal, /// the specification leaves it open or the VM's choice is undocumented
    Unspecified }

fn bits(w: u32, hi: u32, lo: u32) -> u32 { (w >> lo) & (((1u64 << (hi - lo + 1)) - 1) as u32) }
fn bit(w: u32, n: u32) -> u32 { (w >> n) & 1 }
fn sext(v: u32, width: u32) -> i64 { ((v as i64) << (64 - width)) >> (64 - width) }

fn nop(len: u8) -> Dec { Dec::Ok(Inst { op: Op::ADDI, rd: 0, rs1: 0, rs2: 0, imm: 0, len }) }

/// Decode a word. For a 32-bit encoding the whole word counts, otherwise the low half.
pub fn decode(w: u32, xlen: u32, isa: u8, version: u32) -> Dec {
    if w & 3 != 3 { decode_c((w & 0xffff) as u16, xlen, version) } else { decode_full(w, xlen, isa) }
}

pub fn decode_full(w: u32, xlen: u32, isa: u8) -> Dec {
    use Op::*;
    let rv64 = xlen == 64;
    let (rd, rs1, rs2) = (bits(w, 11, 7) as u8, bits(w, 19, 15) as u8, bits(w, 24, 20) as u8);
    let (f3, f7) = (bits(w, 14, 12), bits(w, 31, 25));
    let i_imm = sext(bits(w, 31, 20), 12);
    let s_imm = sext((f7 << 5) | rd as u32, 12);
    let b_imm = sext((bit(w, 31) << 12) | (bit(w, 7) << 11) | (bits(w, 30, 25) << 5) | (bits(w, 11, 8) << 1), 13);
    let u_imm = (w & 0xffff_f000) as i32 as i64;
    let j_imm = sext((bit(w, 31) << 20) | (bits(w, 19, 12) << 12) | (bit(w, 20) << 11) | (bits(w, 30, 21) << 1), 21);
    let i = |op, rd, rs1, rs2, imm| Dec::Ok(Inst { op, rd, rs1, rs2, imm, len: 4 });
    let b_ext = isa & ISA_B != 0;
    match w & 0x7f {
        0x37 => i(LUI, rd, 0, 0, u_imm),
        0x17 => i(AUIPC, rd, 0, 0, u_imm),
        0x6f => i(JAL, rd, 0, 0, j_imm),
        0x67 if f3 == 0 => i(JALR, rd, rs1, 0, i_imm),
        0x63 => {
            let op = match f3 { 0 => BEQ, 1 => BNE, 4 => BLT, 5 => BGE, 6 => BLTU, 7 => BGEU, _ => return Dec::Illegal };
            i(op, 0, rs1, rs2, b_imm)
        }
        0x03 => {
            let op = match f3 { 0 => LB, 1 => LH, 2 => LW, 3 if rv64 => LD, 4 => LBU, 5 => LHU, 6 if rv64 => LWU, _ => return Dec::Illegal };
            i(op, rd, rs1, 0, i_imm)
        }
        0x23 => {
            let op = match f3 { 0 => SB, 1 => SH, 2 => SW, 3 if rv64 => SD, _ => return Dec::Illegal };
            i(op, 0, rs1, rs2, s_imm)
        }
        0x13 => {
            match f3 {
                0 => return i(ADDI, rd, rs1, 0, i_imm),
                2 => return i(SLTI, rd, rs1, 0, i_imm),
                3 => return i(SLTIU, rd, rs1, 0, i_imm),
                4 => return i(XORI, rd, rs1, 0, i_imm),
                6 => return i(ORI, rd, rs1, 0, i_imm),
                7 => return i(ANDI, rd, rs1, 0, i_imm),
                _ => {}
            }
            let f6 = f7 >> 1;
            let sh6 = bits(w, 25, 20) as i64;
            // On a 32-bit machine shamt[5] is reserved.
            let wide = bit(w, 25) == 1 && !rv64;
            let base = match (f3, f6) { (1, 0) => Some(SLLI), (5, 0) => Some(SRLI), (5, 0b010000) => Some(SRAI), _ => None };
            if let Some(op) = base { return if wide { Dec::Unspecified } else { i(op, rd, rs1, 0, sh6) }; }
            if !b_ext { return Dec::Illegal; }
            let unary = match (f7, f3, rs2) {
                (0b0110000, 1, 0) => Some(CLZ), (0b0110000, 1, 1) => Some(CTZ), (0b0110000, 1, 2) => Some(CPOP),
                (0b0110000, 1, 4) => Some(SEXTB), (0b0110000, 1, 5) => Some(SEXTH),
                (0b0010100, 5, 7) => Some(ORCB), (0b0110101, 5, 24) => Some(REV8), (0b0110100, 5, 24) if !rv64 => return Dec::Unspecified,
                _ => None,
            };
            if let Some(op) = unary { return if !rv64 && op == REV8 { Dec::Unspecified } else { i(op, rd, rs1, 0, 0) }; }
            let imm = match (f6, f3) {
                (0b010010, 1) => Some(BCLRI), (0b010010, 5) => Some(BEXTI), (0b011010, 1) => Some(BINVI),
                (0b001010, 1) => Some(BSETI), (0b011000, 5) => Some(RORI), _ => None,
            };
            match imm { Some(op) => if wide { Dec::Unspecified } else { i(op, rd, rs1, 0, sh6) }, None => Dec::Illegal }
        }
        0x33 => {
            let op = match (f7, f3) {
                (0, 0) => ADD, (0x20, 0) => SUB, (0, 1) => SLL, (0, 2) => SLT, (0, 3) => SLTU, (0, 4) => XOR,
                (0, 5) => SRL, (0x20, 5) => SRA, (0, 6) => OR, (0, 7) => AND,
                (1, 0) => MUL, (1, 1) => MULH, (1, 2) => MULHSU, (1, 3) => MULHU, (1, 4) => DIV, (1, 5) => DIVU, (1, 6) => REM, (1, 7) => REMU,
                _ if !b_ext => return Dec::Illegal,
                (0x20, 7) => ANDN, (0x20, 6) => ORN, (0x20, 4) => XNOR,
                (0x30, 1) => ROL, (0x30, 5) => ROR,
                (0x34, 1) => BINV, (0x14, 1) => BSET, (0x24, 1) => BCLR, (0x24, 5) => BEXT,
                (0x10, 2) => SH1ADD, (0x10, 4) => SH2ADD, (0x10, 6) => SH3ADD,
                (5, 1) => CLMUL, (5, 3) => CLMULH, (5, 2) => CLMULR, (5, 4) => MIN, (5, 5) => MINU, (5, 6) => MAX, (5, 7) => MAXU,
                (4, 4) if !rv64 && rs2 == 0 => return Dec::Unspecified, // zext.h of rv32
                _ => return Dec::Illegal,
            };
            i(op, rd, rs1, rs2, 0)
        }
        0x1b => {
            if !rv64 { return if b_ext { Dec::Unspecified } else { Dec::Illegal }; }
            let sh5 = bits(w, 24, 20) as i64;
            match (f3, f7) {
                (0, _) => return i(ADDIW, rd, rs1, 0, i_imm),
                (1, 0) => return i(SLLIW, rd, rs1, 0, sh5),
                (5, 0) => return i(SRLIW, rd, rs1, 0, sh5),
                (5, 0x20) => return i(SRAIW, rd, rs1, 0, sh5),
                _ => {}
            }
            if !b_ext { return Dec::Illegal; }
            match (f3, f7) {
                (1, 0x30) => match rs2 { 0 => i(CLZW, rd, rs1, 0, 0), 1 => i(CTZW, rd, rs1, 0, 0), 2 => i(CPOPW, rd, rs1, 0, 0), _ => Dec::Illegal },
                (5, 0x30) => i(RORIW, rd, rs1, 0, sh5),
                (1, f) if f >> 1 == 2 => i(SLLIUW, rd, rs1, 0, bits(w, 25, 20) as i64),
                _ => Dec::Illegal,
            }
        }
        0x3b => {
            if !rv64 { return if b_ext { Dec::Unspecified } else { Dec::Illegal }; }
            let op = match (f7, f3) {
                (0, 0) => ADDW, (0x20, 0) => SUBW, (0, 1) => SLLW, (0, 5) => SRLW, (0x20, 5) => SRAW,
                (1, 0) => MULW, (1, 4) => DIVW, (1, 5) => DIVUW, (1, 6) => REMW, (1, 7) => REMUW,
                _ if !b_ext => return Dec::Illegal,
                (4, 0) => ADDUW, (0x30, 1) => ROLW, (0x30, 5) => RORW, (0x10, 2) => SH1ADDUW, (0x10, 4) => SH2ADDUW, (0x10, 6) => SH3ADDUW,
                (4, 4) if rs2 == 0 => return i(ZEXTH, rd, rs1, 0, 0),
                _ => return Dec::Illegal,
            };
            i(op, rd, rs1, rs2, 0)
        }
        0x0f => {
            if w == 0x0000_100f { i(FENCEI, 0, 0, 0, 0) }
            else if f3 == 0 && rd == 0 && rs1 == 0 { i(FENCE, 0, 0, 0, 0) }
            else { Dec::Illegal }
        }
        0x73 => match w { 0x0000_0073 => i(ECALL, 0, 0, 0, 0), 0x0010_0073 => i(EBREAK, 0, 0, 0, 0), _ => Dec::Illegal },
        0x2f => {
            if isa & ISA_A == 0 { return Dec::Illegal; }
            let f5 = f7 >> 2;
            let d = match f3 { 2 => false, 3 if rv64 => true, _ => return Dec::Illegal };
            let op = match (f5, d) {
                (2, false) => LR_W, (3, false) => SC_W, (1, false) => AMOSWAP_W, (0, false) => AMOADD_W, (4, false) => AMOXOR_W, (12, false) => AMOAND_W,
                (8, false) => AMOOR_W, (16, false) => AMOMIN_W, (20, false) => AMOMAX_W, (24, false) => AMOMINU_W, (28, false) => AMOMAXU_W,
                (2, true) => LR_D, (3, true) => SC_D, (1, true) => AMOSWAP_D, (0, true) => AMOADD_D, (4, true) => AMOXOR_D, (12, true) => AMOAND_D,
                (8, true) => AMOOR_D, (16, true) => AMOMIN_D, (20, true) => AMOMAX_D, (24, true) => AMOMINU_D, (28, true) => AMOMAXU_D,
                _ => return Dec::Illegal,
            };
            if (op == LR_W || op == LR_D) && rs2 != 0 { return Dec::Illegal; }
            i(op, rd, rs1, rs2, 0)
        }
        _ => Dec::Illegal,
    }
}

pub fn decode_c(h: u16, xlen: u32, version: u32) -> Dec {
    use Op::*;
    let w = h as u32;
    let rv64 = xlen == 64;
    let i = |op, rd: u32, rs1: u32, rs2: u32, imm: i64| Dec::Ok(Inst { op, rd: rd as u8, rs1: rs1 as u8, rs2: rs2 as u8, imm, len: 2 });
    let hint = || if version >= 1 { nop(2) } else { Dec::Illegal };
    let f3 = bits(w, 15, 13);
    let rdp = bits(w, 4, 2) + 8;
    let rs1p = bits(w, 9, 7) + 8;
    let rd = bits(w, 11, 7);
    let rs2 = bits(w, 6, 2);
    let imm6 = sext((bit(w, 12) << 5) | bits(w, 6, 2), 6);
    let uimm6 = ((bit(w, 12) << 5) | bits(w, 6, 2)) as i64;
    let lw_imm = ((bit(w, 5) << 6) | (bits(w, 12, 10) << 3) | (bit(w, 6) << 2)) as i64;
    let ld_imm = ((bits(w, 6, 5) << 6) | (bits(w, 12, 10) << 3)) as i64;
    let j_imm = sext((bit(w, 12) << 11) | (bit(w, 8) << 10) | (bits(w, 10, 9) << 8) | (bit(w, 6) << 7) | (bit(w, 7) << 6) | (bit(w, 2) << 5) | (bit(w, 11) << 4) | (bits(w, 5, 3) << 1), 12);
    let b_imm = sext((bit(w, 12) << 8) | (bits(w, 6, 5) << 6) | (bit(w, 2) << 5) | (bits(w, 11, 10) << 3) | (bits(w, 4, 3) << 1), 9);
    match (w & 3, f3) {
        (0, 0) => {
            let imm = (bits(w, 10, 7) << 6) | (bits(w, 12, 11) << 4) | (bit(w, 5) << 3) | (bit(w, 6) << 2);
            if imm == 0 { Dec::Illegal } else { i(ADDI, rdp, 2, 0, imm as i64) }
        }
        (0, 2) => i(LW, rdp, rs1p, 0, lw_imm),
        (0, 3) if rv64 => i(LD, rdp, rs1p, 0, ld_imm),
        (0, 6) => i(SW, 0, rs1p, rdp, lw_imm),
        (0, 7) if rv64 => i(SD, 0, rs1p, rdp, ld_imm),
        (0, _) => Dec::Illegal,
        (1, 0) => {
            if rd == 0 { if imm6 == 0 { nop(2) } else { hint() } }
            else if imm6 == 0 { hint() } else { i(ADDI, rd, rd, 0, imm6) }
        }
        (1, 1) => if rv64 { if rd == 0 { Dec::Illegal } else { i(ADDIW, rd, rd, 0, imm6) } } else { i(JAL, 1, 0, 0, j_imm) },
        (1, 2) => if rd == 0 { hint() } else { i(ADDI, rd, 0, 0, imm6) },
        (1, 3) => {
            if imm6 == 0 { return Dec::Illegal; }
            if rd == 2 {
                let imm = sext((bit(w, 12) << 9) | (bits(w, 4, 3) << 7) | (bit(w, 5) << 6) | (bit(w, 2) << 5) | (bit(w, 6) << 4), 10);
                i(ADDI, 2, 2, 0, imm)
            } else if rd == 0 { hint() } else { i(LUI, rd, 0, 0, imm6 << 12) }
        }
        (1, 4) => match bits(w, 11, 10) {
            k @ (0 | 1) => {
                let op = if k == 0 { SRLI } else { SRAI };
                if uimm6 == 0 { nop(2) }
                else if !rv64 && bit(w, 12) == 1 { Dec::Unspecified }
                else { i(op, rs1p, rs1p, 0, uimm6) }
            }
            2 => i(ANDI, rs1p, rs1p, 0, imm6),
            _ => {
                let op = match (bit(w, 12), bits(w, 6, 5)) {
                    (0, 0) => SUB, (0, 1) => XOR, (0, 2) => OR, (0, 3) => AND,
                    (1, 0) if rv64 => SUBW, (1, 1) if rv64 => ADDW, _ => return Dec::Illegal,
                };
                i(op, rs1p, rs1p, rdp, 0)
            }
        },
        (1, 5) => i(JAL, 0, 0, 0, j_imm),
        (1, 6) => i(BEQ, 0, rs1p, 0, b_imm),
        (1, 7) => i(BNE, 0, rs1p, 0, b_imm),
        (2, 0) => {
            if rd == 0 || uimm6 == 0 { hint() }
            else if !rv64 && bit(w, 12) == 1 { Dec::Unspecified }
            else { i(SLLI, rd, rd, 0, uimm6) }
        }
        (2, 2) => {
            let imm = (bits(w, 3, 2) << 6) | (bit(w, 12) << 5) | (bits(w, 6, 4) << 2);
            if rd == 0 { Dec::Illegal } else { i(LW, rd, 2, 0, imm as i64) }
        }
        (2, 3) if rv64 => {
            let imm = (bits(w, 4, 2) << 6) | (bit(w, 12) << 5) | (bits(w, 6, 5) << 3);
            if rd == 0 { Dec::Illegal } else { i(LD, rd, 2, 0, imm as i64) }
        }
        (2, 4) => match (bit(w, 12), rd, rs2) {
            (0, 0, 0) => Dec::Illegal,
            (0, r, 0) => i(JALR, 0, r, 0, 0),
            (0, 0, _) => hint(),
            (0, d, s) => i(ADD, d, 0, s, 0),
            (1, 0, 0) => i(EBREAK, 0, 0, 0, 0),
            (1, r, 0) => i(JALR, 1, r, 0, 0),
            (1, 0, _) => hint(),
            (_, d, s) => i(ADD, d, d, s, 0),
        },
        (2, 6) => i(SW, 0, 2, rs2, ((bits(w, 8, 7) << 6) | (bits(w, 12, 9) << 2)) as i64),
        (2, 7) if rv64 => i(SD, 0, 2, rs2, ((bits(w, 9, 7) << 6) | (bits(w, 12, 10) << 3)) as i64),
        _ => Dec::Illegal,
    }
}

/// What can end a reference run.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    Oob,
    Perm,
    Illegal(u64, u32),
    Unspecified,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Event { Plain, Ecall, Ebreak }

#[derive(Clone)]
pub struct RefMem { pub bytes: Vec<u8>, pub flags: Vec<u8>, /// pages a refused store may or may not have marked dirty
    pub unsure: Vec<bool>, /// pages whose bytes changed since their dirty mark was last cleared
    pub changed: Vec<bool>, /// bytes written so far, when asked for, and whether any other byte was read
    pub written: Option<Vec<bool>>, pub read_fresh: std::cell::Cell<bool> }

impl RefMem {
    pub fn new(size: usize) -> Self { RefMem { bytes: vec![0; size], flags: vec![0; size / PAGE as usize], unsure: vec![false; size / PAGE as usize], changed: vec![false; size / PAGE as usize], written: None, read_fresh: Default::default() } }
    pub fn reading(&self, addr: u64, n: u64) { if let Some(w) = &self.written { if w[addr as usize..(addr + n) as usize].iter().any(|x| !*x) { self.read_fresh.set(true); } } }
    pub fn size(&self) -> u64 { self.bytes.len() as u64 }
    pub fn in_bounds(&self, addr: u64, n: u64) -> bool { addr.checked_add(n).map_or(false, |e| e <= self.size()) }
    pub fn load(&self, addr: u64, n: u64) -> Result<u64, Stop> {
        if !self.in_bounds(addr, n) { return Err(Stop::Oob); }
        self.reading(addr, n);
        let mut v = 0u64;
        for k in 0..n { v |= (self.bytes[(addr + k) as usize] as u64) << (8 * k); }
        Ok(v)
    }
    pub fn writable(&self, addr: u64, n: u64) -> Result<(), Stop> {
        if !self.in_bounds(addr, n) { return Err(Stop::Oob); }
        if n == 0 { return Ok(()); }
        for p in addr / PAGE..=(addr + n - 1) / PAGE { if self.flags[p as usize] & EXEC != 0 { return Err(Stop::Perm); } }
        Ok(())
    }
    pub fn store(&mut self, addr: u64, n: u64, v: u64) -> Result<(), Stop> {
        if let Err(e) = self.writable(addr, n) { self.maybe_touch(addr, n); return Err(e); }
        self.put(addr, &v.to_le_bytes()[..n as usize]);
        Ok(())
    }
    /// writes bytes (in bounds) and marks the pages dirty
    pub fn put(&mut self, addr: u64, b: &[u8]) {
        if b.is_empty() { return; }
        if let Some(w) = &mut self.written { w[addr as usize..addr as usize + b.len()].fill(true); }
        for p in addr / PAGE..=(addr + b.len() as u64 - 1) / PAGE {
            let lo = addr.max(p * PAGE);
            let hi = (addr + b.len() as u64).min((p + 1) * PAGE);
            let (d, s) = (&mut self.bytes[lo as usize..hi as usize], &b[(lo - addr) as usize..(hi - addr) as usize]);
            if d != s { d.copy_from_slice(s); self.changed[p as usize] = true; }
        }
        self.touch(addr, b.len() as u64);
    }
    pub fn fill(&mut self, addr: u64, n: u64, v: u8) { self.put(addr, &vec![v; n as usize]); }
    pub fn touch(&mut self, addr: u64, n: u64) {
        if n > 0 { for p in addr / PAGE..=(addr + n - 1) / PAGE { self.flags[p as usize] |= DIRTY; } }
    }
    /// a refused store over several pages may have marked those it could write
    pub fn maybe_touch(&mut self, addr: u64, n: u64) {
        if n == 0 || addr >= self.size() { return; }
        let last = (addr.saturating_add(n - 1)).min(self.size() - 1);
        for p in addr / PAGE..=last / PAGE { if self.flags[p as usize] & DIRTY == 0 { self.unsure[p as usize] = true; } }
    }
    pub fn set_flag(&mut self, page: u64, f: u8) -> Result<(), Stop> {
        if page >= self.flags.len() as u64 { return Err(Stop::Oob); }
        self.flags[page as usize] |= f;
        Ok(())
    }
    pub fn clear_flag(&mut self, page: u64, f: u8) -> Result<(), Stop> {
        if page >= self.flags.len() as u64 { return Err(Stop::Oob); }
        self.flags[page as usize] &= !f;
        if f & DIRTY != 0 { self.unsure[page as usize] = false; self.changed[page as usize] = false; }
        Ok(())
    }
    /// the dirty mark of this page is known
    pub fn dirty_known(&self, p: usize) -> bool { self.flags[p] & DIRTY != 0 || !self.unsure[p] }
    /// page initialisation as the checked memories do it
    pub fn init_pages(&mut self, addr: u64, size: u64, fl: u8, src: Option<&[u8]>, off: u64) -> Result<(), Stop> {
        if addr % PAGE != 0 || size % PAGE != 0 || !self.in_bounds(addr, size) || off > size { return Err(Stop::Oob); }
        let (p0, p1) = ((addr / PAGE) as usize, ((addr + size) / PAGE) as usize);
        if self.flags[p0..p1].iter().any(|f| f & FREEZED != 0) { return Err(Stop::Perm); }
        let mut b = vec![0u8; size as usize];
        if let Some(s) = src { let n = s.len().min((size - off) as usize); b[off as usize..off as usize + n].copy_from_slice(&s[..n]); }
        self.put(addr, &b);
        for f in &mut self.flags[p0..p1] { *f |= fl | DIRTY; }
        Ok(())
    }
    pub fn fetch(&self, addr: u64, n: u64) -> Result<u32, Stop> {
        if !self.in_bounds(addr, n) { return Err(Stop::Oob); }
        for p in addr / PAGE..=(addr + n - 1) / PAGE { if self.flags[p as usize] & EXEC == 0 { return Err(Stop::Perm); } }
        Ok(self.load(addr, n)? as u32)
    }
}

#[derive(Clone)]
pub struct RefVm {
    pub x: [u64; 32],
    pub pc: u64,
    pub xlen: u32,
    pub isa: u8,
    pub version: u32,
    pub mem: RefMem,
    /// reservation address; None = none
    pub lr: Option<u64>,
}

impl RefVm {
    pub fn new(xlen: u32, isa: u8, version: u32, mem_size: usize) -> Self {
        RefVm { x: [0; 32], pc: 0, xlen, isa, version, mem: RefMem::new(mem_size), lr: None }
    }
    pub fn mask(&self, v: u64) -> u64 { if self.xlen == 32 { v & 0xffff_ffff } else { v } }
    fn set(&mut self, r: u8, v: u64) { if r != 0 { self.x[r as usize] = self.mask(v); } }
    /// the instruction word at pc (16 bits are fetched first)
    pub fn fetch(&self, pc: u64) -> Result<u32, Stop> {
        let lo = self.mem.fetch(pc, 2)?;
        if lo & 3 == 3 { Ok(lo | (self.mem.fetch(self.mask(pc.wrapping_add(2)), 2)? << 16)) } else { Ok(lo) }
    }
    pub fn decode_at(&self, pc: u64) -> Result<Inst, Stop> {
        let w = self.fetch(pc)?;
        match decode(w, self.xlen, self.isa, self.version) {
            Dec::Ok(i) => Ok(i),
            Dec::Illegal => Err(Stop::Illegal(pc, w)),
            Dec::Unspecified => Err(Stop::Unspecified),
        }
    }
    fn v0_load_ok(&self, addr: u64, n: u64) -> Result<(), Stop> {
        // Version 0 refuses to read the last byte of the memory.
        if self.version == 0 && addr.checked_add(n).map_or(true, |e| e == self.mem.size()) { return Err(Stop::Oob); }
        Ok(())
    }
    /// Executes one decoded instruction located at self.pc.
    pub fn exec(&mut self, i: &Inst) -> Result<Event, Stop> {
        use Op::*;
        let xl = self.xlen;
        let rv64 = xl == 64;
        let m = |v: u64| if rv64 { v } else { v & 0xffff_ffff };
        let a = self.x[i.rs1 as usize];
        let b = self.x[i.rs2 as usize];
        let imm = i.imm as u64;
        // signed views at register width
        let s = |v: u64| -> i128 { if rv64 { v as i64 as i128 } else { v as u32 as i32 as i128 } };
        let sx32 = |v: u64| v as u32 as i32 as i64 as u64;
        let shm = xl as u64 - 1;
        let next = m(self.pc.wrapping_add(i.len as u64));
        let mut npc = next;
        let mut ev = Event::Plain;
        macro_rules! wr { ($v:expr) => {{ let v = $v; self.set(i.rd, v); }} }
        macro_rules! br { ($c:expr) => {{ if $c { npc = m(self.pc.wrapping_add(imm)); } }} }
        match i.op {
            LUI => wr!(imm),
            AUIPC => wr!(self.pc.wrapping_add(imm)),
            JAL => { npc = m(self.pc.wrapping_add(imm)); wr!(next) }
            JALR => {
                if self.version == 0 {
                    // version 0 writes the link register first
                    self.set(i.rd, next);
                    npc = m(self.x[i.rs1 as usize].wrapping_add(imm)) & !1;
                } else {
                    npc = m(a.wrapping_add(imm)) & !1;
                    wr!(next)
                }
            }
            BEQ => br!(a == b), BNE => br!(a != b), BLT => br!(s(a) < s(b)), BGE => br!(s(a) >= s(b)),
            BLTU => br!(a < b), BGEU => br!(a >= b),
            LB | LH | LW | LBU | LHU | LWU | LD => {
                let (n, signed) = match i.op { LB => (1, true), LBU => (1, false), LH => (2, true), LHU => (2, false), LW => (4, true), LWU => (4, false), _ => (8, false) };
                let addr = m(a.wrapping_add(imm));
                self.v0_load_ok(addr, n)?;
                let v = self.mem.load(addr, n)?;
                wr!(if signed { sext_n(v, 8 * n as u32) } else { v });
            }
            SB | SH | SW | SD => {
                let n = match i.op { SB => 1, SH => 2, SW => 4, _ => 8 };
                self.mem.store(m(a.wrapping_add(imm)), n, b)?;
            }
            ADDI => wr!(a.wrapping_add(imm)),
            SLTI => wr!((s(a) < i.imm as i128) as u64),
            SLTIU => wr!((a < m(imm)) as u64),
            XORI => wr!(a ^ imm), ORI => wr!(a | imm), ANDI => wr!(a & imm),
            SLLI => wr!(a << (imm & shm)),
            SRLI => wr!(a >> (imm & shm)),
            SRAI => wr!((s(a) >> (imm & shm)) as u64),
            ADD => wr!(a.wrapping_add(b)), SUB => wr!(a.wrapping_sub(b)),
            SLL => wr!(a << (b & shm)), SRL => wr!(a >> (b & shm)), SRA => wr!((s(a) >> (b & shm)) as u64),
            SLT => wr!((s(a) < s(b)) as u64), SLTU => wr!((a < b) as u64),
            XOR => wr!(a ^ b), OR => wr!(a | b), AND => wr!(a & b),
            ADDIW => wr!(sx32(a.wrapping_add(imm))),
            SLLIW => wr!(sx32(((a as u32) << (imm & 31)) as u64)),
            SRLIW => wr!(sx32(((a as u32) >> (imm & 31)) as u64)),
            SRAIW => wr!(((a as u32 as i32) >> (imm & 31)) as i64 as u64),
            ADDW => wr!(sx32(a.wrapping_add(b))), SUBW => wr!(sx32(a.wrapping_sub(b))),
            SLLW => wr!(sx32(((a as u32) << (b & 31)) as u64)),
            SRLW => wr!(sx32(((a as u32) >> (b & 31)) as u64)),
            SRAW => wr!(((a as u32 as i32) >> (b & 31)) as i64 as u64),
            FENCE | FENCEI => {}
            ECALL => ev = Event::Ecall,
            EBREAK => ev = Event::Ebreak,
            MUL => wr!(a.wrapping_mul(b)),
            MULH => wr!(mulh_ss(a, b, xl)),
            MULHSU => wr!(mulh_su(a, b, xl)),
            MULHU => wr!(((a as u128 * b as u128) >> xl) as u64),
            DIV => wr!(if b == 0 { u64::MAX } else { (s(a) / s(b)) as u64 }),
            DIVU => wr!(if b == 0 { u64::MAX } else { a / b }),
            REM => wr!(if b == 0 { a } else { (s(a) % s(b)) as u64 }),
            REMU => wr!(if b == 0 { a } else { a % b }),
            MULW => wr!(sx32((a as u32).wrapping_mul(b as u32) as u64)),
            DIVW => wr!(if b as u32 == 0 { u64::MAX } else { ((a as i32 as i64) / (b as i32 as i64)) as i32 as i64 as u64 }),
            DIVUW => wr!(if b as u32 == 0 { u64::MAX } else { sx32((a as u32 / b as u32) as u64) }),
            REMW => wr!(if b as u32 == 0 { sx32(a) } else { ((a as i32 as i64) % (b as i32 as i64)) as u64 }),
            REMUW => wr!(if b as u32 == 0 { sx32(a) } else { sx32((a as u32 % b as u32) as u64) }),
            LR_W | LR_D => {
                let n = if i.op == LR_W { 4 } else { 8 };
                let v = self.mem.load(a, n)?;
                self.set(i.rd, sext_n(v, 8 * n as u32));
                self.lr = Some(a);
            }
            SC_W | SC_D => {
                let n = if i.op == SC_W { 4 } else { 8 };
                if let Err(e) = self.mem.writable(a, n) { self.mem.maybe_touch(a, n); return Err(e); }
                let ok = self.lr == Some(a);
                if ok { self.mem.store(a, n, b)?; } else { self.mem.touch(a, n); }
                self.lr = None;
                wr!(!ok as u64);
            }
            AMOSWAP_W | AMOADD_W | AMOXOR_W | AMOAND_W | AMOOR_W | AMOMIN_W | AMOMAX_W | AMOMINU_W | AMOMAXU_W => {
                if let Err(e) = self.mem.writable(a, 4) { self.mem.maybe_touch(a, 4); return Err(e); }
                let o = self.mem.load(a, 4)? as u32;
                let r = b as u32;
                let v = match i.op {
                    AMOSWAP_W => r, AMOADD_W => o.wrapping_add(r), AMOXOR_W => o ^ r, AMOAND_W => o & r, AMOOR_W => o | r,
                    AMOMIN_W => (o as i32).min(r as i32) as u32, AMOMAX_W => (o as i32).max(r as i32) as u32,
                    AMOMINU_W => o.min(r), _ => o.max(r),
                };
                self.mem.store(a, 4, v as u64)?;
                wr!(sx32(o as u64));
            }
            AMOSWAP_D | AMOADD_D | AMOXOR_D | AMOAND_D | AMOOR_D | AMOMIN_D | AMOMAX_D | AMOMINU_D | AMOMAXU_D => {
                if let Err(e) = self.mem.writable(a, 8) { self.mem.maybe_touch(a, 8); return Err(e); }
                let o = self.mem.load(a, 8)?;
                let v = match i.op {
                    AMOSWAP_D => b, AMOADD_D => o.wrapping_add(b), AMOXOR_D => o ^ b, AMOAND_D => o & b, AMOOR_D => o | b,
                    AMOMIN_D => (o as i64).min(b as i64) as u64, AMOMAX_D => (o as i64).max(b as i64) as u64,
                    AMOMINU_D => o.min(b), _ => o.max(b),
                };
                self.mem.store(a, 8, v)?;
                wr!(o);
            }
            ADDUW => wr!((a as u32 as u64).wrapping_add(b)),
            SH1ADDUW => wr!(((a as u32 as u64) << 1).wrapping_add(b)),
            SH2ADDUW => wr!(((a as u32 as u64) << 2).wrapping_add(b)),
            SH3ADDUW => wr!(((a as u32 as u64) << 3).wrapping_add(b)),
            SH1ADD => wr!((a << 1).wrapping_add(b)), SH2ADD => wr!((a << 2).wrapping_add(b)), SH3ADD => wr!((a << 3).wrapping_add(b)),
            SLLIUW => wr!((a as u32 as u64) << imm),
            ANDN => wr!(a & !b), ORN => wr!(a | !b), XNOR => wr!(!(a ^ b)),
            BCLR => wr!(a & !(1 << (b & shm))), BCLRI => wr!(a & !(1 << (imm & shm))),
            BEXT => wr!((a >> (b & shm)) & 1), BEXTI => wr!((a >> (imm & shm)) & 1),
            BINV => wr!(a ^ (1 << (b & shm))), BINVI => wr!(a ^ (1 << (imm & shm))),
            BSET => wr!(a | (1 << (b & shm))), BSETI => wr!(a | (1 << (imm & shm))),
            CLMUL => wr!(clmul(a, b) as u64),
            CLMULH => wr!((clmul(a, b) >> xl) as u64),
            CLMULR => wr!((clmul(a, b) >> (xl - 1)) as u64),
            CLZ => wr!((a.leading_zeros() - (64 - xl)) as u64),
            CLZW => wr!((a as u32).leading_zeros() as u64),
            CTZ => wr!(a.trailing_zeros().min(xl) as u64),
            CTZW => wr!((a as u32).trailing_zeros() as u64),
            CPOP => wr!(a.count_ones() as u64), CPOPW => wr!((a as u32).count_ones() as u64),
            MAX => wr!(if s(a) > s(b) { a } else { b }), MAXU => wr!(a.max(b)),
            MIN => wr!(if s(a) < s(b) { a } else { b }), MINU => wr!(a.min(b)),
            ORCB => { let mut v = 0u64; for k in 0..8 { if (a >> (8 * k)) & 0xff != 0 { v |= 0xff << (8 * k); } } wr!(v) }
            REV8 => wr!(if rv64 { a.swap_bytes() } else { (a as u32).swap_bytes() as u64 }),
            ROL => wr!(if rv64 { a.rotate_left((b & 63) as u32) } else { (a as u32).rotate_left((b & 31) as u32) as u64 }),
            ROR => wr!(if rv64 { a.rotate_right((b & 63) as u32) } else { (a as u32).rotate_right((b & 31) as u32) as u64 }),
            RORI => wr!(if rv64 { a.rotate_right((imm & 63) as u32) } else { (a as u32).rotate_right((imm & 31) as u32) as u64 }),
            ROLW => wr!(sx32((a as u32).rotate_left((b & 31) as u32) as u64)),
            RORW => wr!(sx32((a as u32).rotate_right((b & 31) as u32) as u64)),
            RORIW => wr!(sx32((a as u32).rotate_right((imm & 31) as u32) as u64)),
            SEXTB => wr!(a as u8 as i8 as i64 as u64), SEXTH => wr!(a as u16 as i16 as i64 as u64), ZEXTH => wr!(a as u16 as u64),
        }
        self.pc = npc;
        Ok(ev)
    }
}

fn sext_n(v: u64, width: u32) -> u64 { (((v << (64 - width)) as i64) >> (64 - width)) as u64 }
fn mulh_ss(a: u64, b: u64, xl: u32) -> u64 {
    if xl == 64 { ((a as i64 as i128 * b as i64 as i128) >> 64) as u64 } else { ((a as u32 as i32 as i64 * (b as u32 as i32 as i64)) >> 32) as u64 }
}
fn mulh_su(a: u64, b: u64, xl: u32) -> u64 {
    if xl == 64 { ((a as i64 as i128).wrapping_mul(b as u128 as i128) >> 64) as u64 } else { ((a as u32 as i32 as i64).wrapping_mul(b as u32 as i64) >> 32) as u64 }
}
fn clmul(a: u64, b: u64) -> u128 {
    let mut r = 0u128;
    for k in 0..64 { if (b >> k) & 1 == 1 { r ^= (a as u128) << k; } }
    r
}

// ---------------------------------------------------------------------------------------------
// Reference matcher for fused groups: the *shape* of the groups and their cost class. Used to
// predict cycles with fusion on; the effect of a group is that of its parts.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fused { Adc, Sbb, Add3a, Add3b, Add3c, Adcs, Sbbs, FarAbs, FarRel, LoadImm, WideMul, WideMulU, WideMulSu, WideDiv, WideDivU }
pub const ALL_FUSED: &[Fused] = &[Fused::Adc, Fused::Sbb, Fused::Add3a, Fused::Add3b, Fused::Add3c, Fused::Adcs, Fused::Sbbs, Fused::FarAbs, Fused::FarRel, Fused::LoadImm, Fused::WideMul, Fused::WideMulU, Fused::WideMulSu, Fused::WideDiv, Fused::WideDivU];

/// The fused group starting at `pc`, and its number of parts, given decoded instructions there.
pub fn fuse(parts: &[Inst], pc: u64, version: u32) -> Option<(Fused, usize)> {
    use Op::*;
    let h = parts.first()?;
    let get = |k: usize| parts.get(k);
    match h.op {
        ADD => {
            // adc: add a,a,c ; sltu c,a,c ; add a,a,d ; sltu d,a,d ; or c,c,d
            if let (Some(n), Some(k), Some(bd), Some(t)) = (get(1), get(2), get(3), get(4)) {
                let (a, c, d) = (h.rd, h.rs2, k.rs2);
                if h.rs1 == a && a != c && n.op == SLTU && (n.rd, n.rs1, n.rs2) == (c, a, c) && k.op == ADD && (k.rd, k.rs1) == (a, a)
                    && d != a && d != c && bd.op == SLTU && (bd.rd, bd.rs1, bd.rs2) == (d, a, d) && t.op == OR && (t.rd, t.rs1, t.rs2) == (c, c, d)
                    && a != 0 && c != 0 && d != 0 { return Some((Fused::Adc, 5)); }
            }
            if version < 2 { return None; }
            if let (Some(n), Some(k)) = (get(1), get(2)) {
                if n.op == SLTU && k.op == ADD {
                    let (r0, r4) = (h.rd, k.rs2);
                    // a: add r0,r1,r0; sltu r2,r0,r1; add r3,r2,r4
                    { let (r1, r2) = (h.rs1, n.rd);
                      if h.rs2 == r0 && (n.rs1, n.rs2) == (r0, r1) && k.rs1 == r2 && r0 != r1 && r0 != r4 && r2 != r4 && r0 != 0 && r2 != 0 { return Some((Fused::Add3a, 3)); } }
                    // b: add r0,r1,r2; sltu r1,r0,r1; add r3,r1,r4
                    { let r1 = h.rs1;
                      if n.rd == r1 && (n.rs1, n.rs2) == (r0, r1) && k.rs1 == r1 && r0 != r1 && r0 != r4 && r1 != r4 && r0 != 0 && r1 != 0 { return Some((Fused::Add3b, 3)); } }
                    // c: add r0,r1,r2; sltu r3,r0,r1; add r3,r3,r4
                    { let (r1, r3) = (h.rs1, n.rd);
                      if (n.rs1, n.rs2) == (r0, r1) && k.rd == r3 && k.rs1 == r3 && r0 != r1 && r0 != r4 && r3 != r4 && r0 != 0 && r3 != 0 { return Some((Fused::Add3c, 3)); } }
                }
            }
            if let Some(n) = get(1) {
                let r0 = h.rd;
                let r1 = if h.rd == h.rs1 && h.rd != h.rs2 { h.rs2 } else { h.rs1 };
                if n.op == SLTU && (n.rs1, n.rs2) == (r0, r1) && r0 != r1 && r0 != 0 { return Some((Fused::Adcs, 2)); }
            }
            None
        }
        SUB => {
            // sbb: sub b,a,b ; sltu e,a,b(*) ; sub a,b,c ; sltu c,b,a ; or b,c,e
            if let (Some(n), Some(k), Some(bd), Some(t)) = (get(1), get(2), get(3), get(4)) {
                let (a, b, c, e) = (h.rs1, h.rd, k.rs2, n.rd);
                if h.rs2 == b && a != b && n.op == SLTU && e != a && e != b && n.rs1 == a
                    && k.op == SUB && (k.rd, k.rs1) == (a, b) && c != a && c != b && c != e
                    && bd.op == SLTU && (bd.rd, bd.rs1, bd.rs2) == (c, b, a) && t.op == OR && (t.rd, t.rs1, t.rs2) == (b, c, e)
                    && a != 0 && b != 0 && c != 0 && e != 0 { return Some((Fused::Sbb, 5)); }
            }
            if version < 2 { return None; }
            if let Some(n) = get(1) {
                if n.op == SLTU && (n.rs1, n.rs2) == (h.rs1, h.rs2) && h.rd != h.rs1 && h.rd != h.rs2 { return Some((Fused::Sbbs, 2)); }
            }
            None
        }
        LUI => {
            let n = get(1)?;
            match n.op {
                JALR if version >= 2 => if n.rs1 == h.rd && n.rd == 1 && n.rs1 == 1 { Some((Fused::FarAbs, 2)) } else { None },
                JALR if version == 1 => if n.rs1 == h.rd && n.rd == 1 { Some((Fused::FarAbs, 2)) } else { None },
                ADDIW if n.rs1 == n.rd && n.rd == h.rd => Some((Fused::LoadImm, 2)),
                _ => None,
            }
        }
        AUIPC => {
            let n = get(1)?;
            let sum = (h.imm as i32).checked_add(n.imm as i32);
            match n.op {
                JALR if version >= 2 => if n.rs1 == h.rd && n.rd == 1 && n.rs1 == 1 && sum.is_some() { Some((Fused::FarRel, 2)) } else { None },
                JALR if version == 1 => if n.rs1 == h.rd && n.rd == 1 { Some((Fused::FarRel, 2)) } else { None },
                ADDI if version >= 2 && n.rs1 == n.rd && n.rd == h.rd => {
                    let pc = i32::try_from(pc).ok()?;
                    sum?.checked_add(pc)?;
                    Some((Fused::LoadImm, 2))
                }
                _ => None,
            }
        }
        MULH | MULHU | MULHSU | DIV | DIVU => {
            let n = get(1)?;
            let want = match h.op { DIV => REM, DIVU => REMU, _ => MUL };
            if n.op == want && h.rd != h.rs1 && h.rd != h.rs2 && h.rs1 == n.rs1 && h.rs2 == n.rs2 && h.rd != n.rd {
                Some((match h.op { MULH => Fused::WideMul, MULHU => Fused::WideMulU, MULHSU => Fused::WideMulSu, DIV => Fused::WideDiv, _ => Fused::WideDivU }, 2))
            } else { None }
        }
        _ => None,
    }
}

/// Published cost table (`estimate_cycles`).
pub fn cost(op: Op) -> u64 {
    use Op::*;
    match op {
        JALR | JAL | BEQ | BNE | BLT | BGE | BLTU | BGEU | LB | LH | LW | LBU | LHU | LWU | SB | SH | SW => 3,
        LD | SD => 2,
        ECALL | EBREAK => 500,
        MUL | MULH | MULHSU | MULHU | MULW => 5,
        DIV | DIVU | REM | REMU | DIVW | DIVUW | REMW | REMUW => 32,
        LR_W | SC_W | AMOSWAP_W | AMOADD_W | AMOXOR_W | AMOAND_W | AMOOR_W | AMOMIN_W | AMOMAX_W | AMOMINU_W | AMOMAXU_W => 4,
        LR_D | SC_D | AMOSWAP_D | AMOADD_D | AMOXOR_D | AMOAND_D | AMOOR_D | AMOMIN_D | AMOMAX_D | AMOMINU_D | AMOMAXU_D => 3,
        _ => 1,
    }
}
pub fn fused_cost(f: Fused) -> u64 {
    match f {
        Fused::WideMul | Fused::WideMulU | Fused::WideMulSu => 5,
        Fused::WideDiv | Fused::WideDivU => 32,
        Fused::FarAbs | Fused::FarRel => 3,
        _ => 1,
    }
}
/// VM opcode name of a fused group.
pub fn fused_name(f: Fused) -> &'static str {
    match f {
        Fused::Adc => "ADC", Fused::Sbb => "SBB", Fused::Add3a => "ADD3A", Fused::Add3b => "ADD3B", Fused::Add3c => "ADD3C",
        Fused::Adcs => "ADCS", Fused::Sbbs => "SBBS", Fused::FarAbs => "FAR_JUMP_ABS", Fused::FarRel => "FAR_JUMP_REL",
        Fused::LoadImm => "CUSTOM_LOAD_IMM", Fused::WideMul => "WIDE_MUL", Fused::WideMulU => "WIDE_MULU", Fused::WideMulSu => "WIDE_MULSU",
        Fused::WideDiv => "WIDE_DIV", Fused::WideDivU => "WIDE_DIVU",
    }
}
