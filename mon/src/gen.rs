//! Program generator: structured, terminating guests that visit the awkward corners of the engines
//! (block and page ends, slot and cache collisions, fusable groups entered from anywhere, lazily
//! initialised frames, host calls, hostile addresses).
use crate::enc::*;
use crate::host::*;
use crate::refiss::*;
use crate::rng::Rng;
use ckb_vm::Bytes;

#[derive(Clone, Debug)]
pub struct G {
    pub xlen: u32,
    pub isa: u8,
    pub version: u32,
    pub mem: u64,
    /// may end in a fault
    pub faults: bool,
    pub syscalls: bool,
    /// which host calls may appear
    pub calls: Vec<u64>,
    pub fuse_bias: bool,
    pub mem_bias: bool,
    pub amo_bias: bool,
    /// total number of body elements
    pub size: usize,
    pub long_loops: bool,
    /// allow reads of memory nobody wrote
    pub fresh_reads: bool,
    pub call_bias: bool,
    pub args: bool,
}

impl G {
    pub fn new(xlen: u32, isa: u8, version: u32, mem: u64) -> G {
        G { xlen, isa, version, mem, faults: false, syscalls: true, calls: vec![CALL_LOG, CALL_LOG, CALL_STORE, CALL_ADD_NC, CALL_REGS, CALL_LOAD, CALL_CLEAN, CALL_FILL, CALL_STORE_W, CALL_LOAD_W, 9999],
            fuse_bias: false, mem_bias: false, amo_bias: false, size: 40, long_loops: false, fresh_reads: true, call_bias: false, args: true }
    }
}

const POOL: &[u8] = &[6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31];
const CNT: &[u8] = &[18, 19, 20];
const DATA: u8 = 8;
const EDGE: u8 = 9;
const SCR: u8 = 21;

pub fn alu_ops(xlen: u32, isa: u8) -> Vec<Op> {
    use Op::*;
    let mut v = vec![ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI, ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND, LUI, MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU];
    if xlen == 64 { v.extend_from_slice(&[ADDIW, SLLIW, SRLIW, SRAIW, ADDW, SUBW, SLLW, SRLW, SRAW, MULW, DIVW, DIVUW, REMW, REMUW]); }
    if isa & ISA_B != 0 {
        v.extend_from_slice(&[ANDN, BCLR, BCLRI, BEXT, BEXTI, BINV, BINVI, BSET, BSETI, CLMUL, CLMULH, CLMULR, CLZ, CPOP, CTZ, MAX, MAXU, MIN, MINU, ORCB, ORN, ROL, ROR, RORI, SEXTB, SEXTH, SH1ADD, SH2ADD, SH3ADD, XNOR]);
        if xlen == 64 { v.extend_from_slice(&[ADDUW, CLZW, CPOPW, CTZW, REV8, ROLW, RORIW, RORW, SH1ADDUW, SH2ADDUW, SH3ADDUW, SLLIUW, ZEXTH]); }
    }
    v
}

/// fills in operands for an ALU operation
pub fn alu_inst(rng: &mut Rng, op: Op, rd: u8, rs1: u8, rs2: u8, xlen: u32) -> Inst {
    use Op::*;
    let sh = |rng: &mut Rng| rng.below(xlen as u64) as i64;
    match op {
        LUI | AUIPC => inst(op, rd, 0, 0, (rng.value() as u32 & 0xffff_f000) as i32 as i64),
        SLLI | SRLI | SRAI | BCLRI | BEXTI | BINVI | BSETI | RORI | SLLIUW => { let s = sh(rng); inst(op, rd, rs1, 0, s) }
        SLLIW | SRLIW | SRAIW | RORIW => { let s = rng.below(32) as i64; inst(op, rd, rs1, 0, s) }
        ADDI | SLTI | SLTIU | XORI | ORI | ANDI | ADDIW => {
            let v = match rng.below(5) { 0 => 0, 1 => -1, 2 => rng.range(-32, 31), 3 => *rng.pick(&[2047, -2048, 1, -2, 255, 1024]), _ => rng.range(-2048, 2047) };
            inst(op, rd, rs1, 0, v)
        }
        CLZ | CLZW | CTZ | CTZW | CPOP | CPOPW | SEXTB | SEXTH | ZEXTH | ORCB | REV8 => inst(op, rd, rs1, 0, 0),
        _ => inst(op, rd, rs1, rs2, 0),
    }
}

pub struct Builder<'a> {
    pub a: Asm,
    pub rng: &'a mut Rng,
    pub g: G,
    ops: Vec<Op>,
    /// pending leaf functions: label and link register
    funcs: Vec<(Label, u8)>,
    pub data_base: u64,
    pub code_lo: u64,
    pub code_hi: u64,
    budget: i64,
    in_func: bool,
}

impl<'a> Builder<'a> {
    pub fn new(rng: &'a mut Rng, g: G, code_lo: u64, code_hi: u64, data_base: u64) -> Self {
        let ops = alu_ops(g.xlen, g.isa);
        let a = Asm::new(g.xlen == 64);
        let budget = g.size as i64;
        Builder { a, rng, g, ops, funcs: vec![], data_base, code_lo, code_hi, budget, in_func: false }
    }
    fn dst(&mut self) -> u8 { if self.rng.chance(1, 20) { 0 } else { *self.rng.pick(POOL) } }
    fn src(&mut self) -> u8 { match self.rng.below(10) { 0 => 0, 1 => self.rng.below(32) as u8, _ => *self.rng.pick(POOL) } }
    fn few(&mut self) -> u8 { *self.rng.pick(&[10, 11, 12, 13, 14]) }
    fn c(&mut self) -> bool { self.rng.chance(1, 2) }
    fn masked(&mut self) -> u64 { self.rng.value() }
    pub fn alu(&mut self) {
        let op = *self.rng.pick(&self.ops);
        let few = self.rng.chance(1, 3);
        let (rd, r1, r2) = if few { (self.few(), self.few(), self.few()) } else { (self.dst(), self.src(), self.src()) };
        let r1 = if self.rng.chance(1, 4) { rd } else { r1 };
        let i = alu_inst(self.rng, op, rd, r1, r2, self.g.xlen);
        let c = self.c();
        self.a.inst(i, c);
    }
    fn consts(&mut self) {
        let rd = *self.rng.pick(POOL);
        let v = self.masked();
        self.a.li(rd, v);
    }
    fn ld_op(&mut self) -> Op {
        use Op::*;
        let v: &[Op] = if self.g.xlen == 64 { &[LB, LH, LW, LD, LBU, LHU, LWU] } else { &[LB, LH, LW, LBU, LHU] };
        *self.rng.pick(v)
    }
    fn st_op(&mut self) -> Op {
        use Op::*;
        let v: &[Op] = if self.g.xlen == 64 { &[SB, SH, SW, SD] } else { &[SB, SH, SW] };
        *self.rng.pick(v)
    }
    fn access(&mut self, base: u8, lo: i64, hi: i64) {
        let imm = self.rng.range(lo, hi);
        let c = self.c();
        if self.rng.chance(1, 2) {
            let (op, rd) = (self.ld_op(), self.dst());
            self.a.ic(op, rd, base, 0, imm, c);
        } else {
            let (op, rs) = (self.st_op(), self.src());
            self.a.ic(op, 0, base, rs, imm, c);
        }
    }
    /// an address that is legal to read and write
    pub fn edge_addr(&mut self) -> u64 {
        let m = self.g.mem;
        for _ in 0..50 {
            let at = match self.rng.below(8) {
                0 => m - 16,
                1 => { let f = 1u64 << 18; let n = m / f; if n > 1 { f * (1 + self.rng.below(n - 1)) } else { m - 24 } }
                2 => self.rng.below(m / PAGE - 1) * PAGE + PAGE,
                3 => 32,
                4 => self.data_base + PAGE,
                5 => m - m / 4,
                6 => self.data_base,
                _ => self.rng.below(m),
            };
            let at = at.wrapping_add(self.rng.range(-24, 8) as u64);
            if at >= 16 && at < m && at + 32 <= m && (at + 64 < self.code_lo || at > self.code_hi + 64) { return at; }
        }
        m - 64
    }
    fn mem(&mut self) {
        match self.rng.below(6) {
            0 | 1 => self.access(DATA, -256, 256),
            2 => {
                // masked index
                let r = self.src();
                let m = *self.rng.pick(&[0x7f8i64, 0x7ff, 0x3f, 0x404, 0x7f0]);
                self.a.i(Op::ANDI, SCR, r, 0, m);
                self.a.i(Op::ADD, SCR, SCR, DATA, 0);
                self.access(SCR, -64, 64);
            }
            3 => {
                let at = self.edge_addr();
                self.a.li(EDGE, at);
                for _ in 0..1 + self.rng.below(4) { self.access(EDGE, -8, 8); }
            }
            4 => {
                // the stack, including compressed sp-relative forms
                let imm = self.rng.range(-60, -2) * 8;
                let c = self.c();
                let (l, s) = if self.g.xlen == 64 { (Op::LD, Op::SD) } else { (Op::LW, Op::SW) };
                self.a.ic(Op::ADDI, 2, 2, 0, -512, c);
                let r1 = self.src();
                self.a.ic(s, 0, 2, r1, 512 + imm, c);
                let rd = *self.rng.pick(POOL);
                self.a.ic(l, rd, 2, 0, 512 + imm, c);
                self.a.ic(Op::ADDI, 2, 2, 0, 512, c);
            }
            _ => {
                // read code bytes
                let at = self.code_lo + self.rng.below(64) * 4;
                self.a.li(SCR, at);
                let (op, rd) = (self.ld_op(), self.dst());
                self.a.i(op, rd, SCR, 0, 0);
            }
        }
    }
    fn amo(&mut self) {
        use Op::*;
        if self.g.isa & ISA_A == 0 { return self.mem(); }
        let w: &[Op] = &[LR_W, SC_W, LR_W, SC_W, AMOSWAP_W, AMOADD_W, AMOXOR_W, AMOAND_W, AMOOR_W, AMOMIN_W, AMOMAX_W, AMOMINU_W, AMOMAXU_W];
        let d: &[Op] = &[LR_D, SC_D, LR_D, SC_D, AMOSWAP_D, AMOADD_D, AMOXOR_D, AMOAND_D, AMOOR_D, AMOMIN_D, AMOMAX_D, AMOMINU_D, AMOMAXU_D];
        let base = match self.rng.below(4) {
            0 => { let at = self.edge_addr(); self.a.li(EDGE, at); EDGE }
            1 => { let k = *self.rng.pick(&[0i64, 8, 4, 16, 1]); self.a.i(ADDI, SCR, DATA, 0, k); SCR }
            // the very first word of the memory
            2 if self.code_lo >= PAGE && self.rng.chance(1, 2) => 0,
            _ => DATA,
        };
        for _ in 0..1 + self.rng.below(3) {
            let wide = self.g.xlen == 64 && self.rng.chance(1, 2);
            let op = *self.rng.pick(if wide { d } else { w });
            let (rd, rs2) = (self.dst(), self.src());
            let rs2 = if matches!(op, LR_W | LR_D) { 0 } else { rs2 };
            self.a.i(op, rd, base, rs2, 0);
        }
    }
    /// a fusable group, or one that misses being fusable in one place
    pub fn group(&mut self) -> Vec<Inst> {
        use Op::*;
        let rv64 = self.g.xlen == 64;
        let p: Vec<u8> = { let mut v = POOL.to_vec(); for k in 0..6 { let j = k + self.rng.us(v.len() - k); v.swap(k, j); } v };
        let (a, b, c, d, e) = (p[0], p[1], p[2], p[3], p[4]);
        let t = |op, rd, r1, r2| inst(op, rd, r1, r2, 0);
        let mut v = match self.rng.below(13) {
            0 => vec![t(ADD, a, a, c), t(SLTU, c, a, c), t(ADD, a, a, d), t(SLTU, d, a, d), t(OR, c, c, d)],
            1 => vec![t(SUB, b, a, b), t(SLTU, e, a, b), t(SUB, a, b, c), t(SLTU, c, b, a), t(OR, b, c, e)],
            2 => vec![t(ADD, a, b, a), t(SLTU, c, a, b), t(ADD, d, c, e)],
            3 => vec![t(ADD, a, b, c), t(SLTU, b, a, b), t(ADD, d, b, e)],
            4 => vec![t(ADD, a, b, c), t(SLTU, d, a, b), t(ADD, d, d, e)],
            5 => vec![t(ADD, a, b, c), t(SLTU, d, a, b)],
            6 => vec![t(ADD, a, b, c), t(SLTU, d, a, c)],
            7 => vec![t(SUB, a, b, c), t(SLTU, d, b, c)],
            8 if rv64 => { let hi = (self.rng.value() as u32 & 0xffff_f000) as i32 as i64; let lo = self.imm12(); vec![inst(LUI, a, 0, 0, hi), inst(ADDIW, a, a, 0, lo)] }
            9 => {
                let hi = (self.rng.value() as u32 & 0xffff_f000) as i32 as i64;
                let hi = if self.rng.chance(1, 2) { *self.rng.pick(&[0x7fff_f000i64, -0x8000_0000, 0x7fff_e000, 0, -4096, 0x7ffe_f000, 0x7ff0_0000]) } else { hi };
                let lo = self.imm12();
                vec![inst(AUIPC, a, 0, 0, hi), inst(ADDI, a, a, 0, lo)]
            }
            10 => { let h = *self.rng.pick(&[MULH, MULHU, MULHSU]); vec![t(h, a, b, c), t(MUL, d, b, c)] }
            11 => vec![t(DIV, a, b, c), t(REM, d, b, c)],
            12 => vec![t(DIVU, a, b, c), t(REMU, d, b, c)],
            _ => vec![t(ADD, a, b, c), t(SLTU, a, b, c)],
        };
        // alias or corrupt operands
        match self.rng.below(4) {
            0 => {
                let map: Vec<u8> = (0..6).map(|_| match self.rng.below(8) { 0 => 0, _ => p[self.rng.us(4)] }).collect();
                for i in &mut v {
                    for f in [&mut i.rd, &mut i.rs1, &mut i.rs2] { if let Some(k) = p[..6].iter().position(|q| q == f) { *f = map[k]; } }
                }
            }
            1 => {
                let k = self.rng.us(v.len());
                let q = if self.rng.chance(1, 6) { 0 } else { p[self.rng.us(6)] };
                match self.rng.below(3) { 0 => v[k].rd = q, 1 => v[k].rs1 = q, _ => if !matches!(v[k].op, ADDI | ADDIW) { v[k].rs2 = q } }
            }
            _ => {}
        }
        for i in &mut v { if matches!(i.op, LUI | AUIPC) { i.rs1 = 0; i.rs2 = 0; } if matches!(i.op, ADDI | ADDIW) { i.rs2 = 0; } }
        if sbb_mismatch(&v) { v.truncate(2); }
        v
    }
    fn imm12(&mut self) -> i64 { match self.rng.below(4) { 0 => *self.rng.pick(&[-2048i64, 2047, -1, 0, 1]), _ => self.rng.range(-2048, 2047) } }
    fn fused(&mut self) {
        // fresh operand values make carries happen
        if self.rng.chance(1, 2) { for _ in 0..3 { self.consts(); } }
        let mut v = self.group();
        if self.rng.chance(1, 10) { let k = self.rng.us(v.len() + 1); let i = alu_inst(self.rng, Op::XOR, 6, 7, 6, self.g.xlen); v.insert(k, i); }
        let c = self.rng.chance(1, 3);
        if self.rng.chance(1, 4) {
            // entered from a computed target
            let n = v.len() as i64;
            let l = self.a.label();
            self.a.la(SCR, l);
            let r = self.src();
            let mask = *self.rng.pick(&[1i64, 3]);
            let mask = mask.min(if n >= 4 { 3 } else { 1 });
            self.a.i(Op::ANDI, 6, r, 0, mask);
            self.a.i(Op::SLLI, 6, 6, 0, 2);
            self.a.i(Op::ADD, SCR, SCR, 6, 0);
            self.a.i(Op::JALR, 0, SCR, 0, 0);
            self.a.bind(l);
            for i in v { self.a.inst(i, false); }
        } else {
            for i in v { let c = c && self.rng.chance(1, 2); self.a.inst(i, c); }
        }
    }
    fn far_call(&mut self) {
        if self.in_func { return self.alu(); }
        let l = self.a.label();
        let link = if self.rng.chance(1, 5) { 5 } else { 1 };
        match self.rng.below(6) {
            0 => self.a.jal(link, l),
            1 => self.a.items.push(Item::Far(1, 1, l)),
            2 => self.a.items.push(Item::Far(link, SCR, l)),
            3 => self.a.items.push(Item::FarAbs(1, 1, l)),
            4 => self.a.items.push(Item::FarAbs(link, SCR, l)),
            _ => {
                self.a.la(SCR, l);
                let odd = self.rng.chance(1, 4);
                if odd { self.a.i(Op::ADDI, SCR, SCR, 0, 1); }
                let c = self.c();
                self.a.ic(Op::JALR, 1, SCR, 0, 0, c && !odd);
                self.funcs.push((l, 1));
                return;
            }
        }
        let link = match self.a.items.last() { Some(Item::Jal(r, _)) | Some(Item::Far(r, _, _)) | Some(Item::FarAbs(r, _, _)) => *r, _ => 1 };
        self.funcs.push((l, link));
    }
    fn branch_op(&mut self) -> Op { *self.rng.pick(&[Op::BEQ, Op::BNE, Op::BLT, Op::BGE, Op::BLTU, Op::BGEU]) }
    fn call_host(&mut self) {
        if !self.g.syscalls || self.g.calls.is_empty() { return self.alu(); }
        let n = *self.rng.pick(&self.g.calls.clone());
        if n == 9999 { let c = self.c(); self.a.ic(Op::EBREAK, 0, 0, 0, 0, c); return; }
        match n {
            CALL_STORE | CALL_FILL | CALL_LOAD | CALL_STORE_W | CALL_LOAD_W | CALL_CLEAN => {
                let at = match self.rng.below(6) { 0 => self.data_base, 1 => self.rng.value(), 2 => self.code_lo + 8, _ => self.edge_addr() };
                self.a.li(10, at & if self.g.xlen == 32 { 0xffff_ffff } else { u64::MAX });
                let v = self.rng.value();
                self.a.li(11, v & 0xffff);
                let len = match n { CALL_STORE => self.rng.below(64), CALL_FILL => self.rng.below(0x2000), CALL_LOAD_W | CALL_STORE_W => self.rng.below(if self.g.xlen == 32 { 3 } else { 4 }), _ => self.rng.below(200) };
                self.a.li(12, len);
                if n == CALL_LOAD { self.a.i(Op::ANDI, 11, 11, 0, 0x7f); }
            }
            CALL_PROTECT => {
                let at = self.data_base + PAGE * self.rng.below(2);
                self.a.li(10, at);
                let v = self.rng.below(2);
                self.a.li(11, v);
            }
            CALL_ADD | CALL_ADD_NC | CALL_STOP => { let v = self.rng.below(0x1000); self.a.li(10, v); }
            _ => {}
        }
        self.a.li(17, n);
        self.a.ecall();
    }
    fn body(&mut self, depth: usize, n: usize) {
        for _ in 0..n {
            self.budget -= 1;
            if self.budget <= 0 { return; }
            let k = self.rng.below(100);
            let fb = if self.g.fuse_bias { 30 } else { 8 };
            let mb = if self.g.mem_bias { 25 } else { 12 };
            let ab = if self.g.amo_bias { 35 } else { 5 };
            let mut lim = 0;
            let mut hit = |w: u64| { lim += w; k < lim };
            if hit(fb) { self.fused(); }
            else if hit(mb) { self.mem(); }
            else if hit(ab) { self.amo(); }
            else if hit(8) {
                // forward branch
                let l = self.a.label();
                let (op, a, b) = (self.branch_op(), self.src(), self.src());
                self.a.br(op, a, b, l);
                let m = self.rng.us(4);
                if depth < 3 { self.body(depth + 1, m); }
                self.a.bind(l);
            } else if hit(5) {
                if depth < CNT.len() && !self.in_func {
                    let r = CNT[depth];
                    let it = if self.g.long_loops { 1 + self.rng.below(40) } else { 1 + self.rng.below(6) };
                    self.a.li(r, it);
                    let l = self.a.label();
                    self.a.bind(l);
                    let m = 1 + self.rng.us(6);
                    self.body(depth + 1, m);
                    self.a.i(Op::ADDI, r, r, 0, -1);
                    if self.rng.chance(1, 3) { self.a.br(Op::BLT, 0, r, l); } else { self.a.br(Op::BNE, r, 0, l); }
                }
            } else if hit(5) { self.far_call(); }
            else if hit(if self.g.call_bias { 30 } else { 5 }) { self.call_host(); }
            else if hit(4) { self.consts(); }
            else if hit(3) { let m = 14 + self.rng.us(40); for _ in 0..m { self.alu(); } }
            else if hit(2) {
                match self.rng.below(6) {
                    0 => self.a.i(Op::FENCE, 0, 0, 0, 0),
                    1 => self.a.i(Op::FENCEI, 0, 0, 0, 0),
                    2 => { let c = self.c(); self.a.ic(Op::EBREAK, 0, 0, 0, 0, c) }
                    3 => { let (op, a, b) = (self.branch_op(), self.src(), self.src()); self.a.i(op, 0, a, b, 4); }
                    4 => { let rd = *self.rng.pick(POOL); self.a.i(Op::AUIPC, rd, 0, 0, 0); }
                    _ => if self.g.version >= 1 {
                        // compressed hints
                        let h = *self.rng.pick(&[0x0001u16, 0x0005, 0x4001, 0x400d, 0x6005, 0x8002 | (3 << 2), 0x9002 | (3 << 2), 0x0002 | (5 << 2), 0x8001]);
                        self.a.raw(&h.to_le_bytes());
                    },
                }
            } else if hit(2) {
                // stay close to a page end: pad so that following code straddles it
                let t = PAGE - 2 * self.rng.below(24);
                let l = self.a.label();
                self.a.jal(0, l);
                let gap = self.rng.below(3);
                if gap == 0 { self.a.items.push(Item::PadTo(12, t)); }
                self.a.bind(l);
                if gap == 0 { let m = 2 + self.rng.us(8); for _ in 0..m { self.alu(); } }
            } else { self.alu(); }
        }
    }
    fn flush_funcs(&mut self) {
        while let Some((l, link)) = self.funcs.pop() {
            match self.rng.below(6) {
                0 => { let t = PAGE - 2 * self.rng.below(20); self.a.items.push(Item::PadTo(12, t)); }
                1 => { let t = 2 * self.rng.below(0x3fff); self.a.items.push(Item::PadTo(15, t)); }
                _ => {}
            }
            self.a.bind(l);
            self.in_func = true;
            let save = self.budget;
            self.budget = 8;
            let m = 1 + self.rng.us(6);
            self.body(2, m);
            self.budget = save;
            self.in_func = false;
            let c = self.c();
            self.a.ic(Op::JALR, 0, link, 0, 0, c);
        }
    }
    /// the tail of a program that is meant to fail
    fn fault(&mut self) {
        let r = self.rng.below(12);
        let (st, ld) = (self.st_op(), self.ld_op());
        match r {
            0 | 1 => { let at = self.code_lo + self.rng.below(256); self.a.li(SCR, at); self.a.i(st, 0, SCR, 11, 0); }
            2 => { let at = self.g.mem.wrapping_add(self.rng.range(-3, 16) as u64); self.a.li(SCR, at); self.a.i(if self.g.xlen == 64 { Op::SD } else { Op::SW }, 0, SCR, 11, 0); }
            3 => { let at = self.g.mem.wrapping_add(self.rng.range(0, 4096) as u64); self.a.li(SCR, at); self.a.i(ld, 12, SCR, 0, 0); }
            4 => { let at = self.rng.value() | 1 << 63; self.a.li(SCR, at); self.a.i(st, 0, SCR, 11, self.rng.range(-8, 8)); }
            5 => { let at = *self.rng.pick(&[u64::MAX, u64::MAX - 3, u64::MAX - 7, 1 << 32, 1 << 31, (1 << 32) - 4]); self.a.li(SCR, at); self.a.i(ld, 12, SCR, 0, self.rng.range(-8, 8)); }
            6 => { let at = self.data_base; self.a.li(SCR, at); self.a.i(Op::JALR, 1, SCR, 0, 0); }
            7 => { let at = self.g.mem + self.rng.below(3) * 2; self.a.li(SCR, at); self.a.i(Op::JALR, 0, SCR, 0, 0); }
            8 => self.a.raw(&0u32.to_le_bytes()),
            9 => { self.a.li(17, 77777); self.a.ecall(); }
            10 if self.g.isa & ISA_A != 0 => { let at = self.code_lo + self.rng.below(64) * 4; self.a.li(SCR, at); let op = *self.rng.pick(&[Op::AMOADD_W, Op::SC_W, Op::AMOSWAP_W]); self.a.i(op, 11, SCR, 12, 0); }
            _ => { let v = self.rng.u32() | 3; self.a.raw(&v.to_le_bytes()); }
        }
    }
    pub fn main(&mut self) {
        let db = self.data_base + 0x800;
        self.a.li(DATA, db);
        self.a.i(Op::ADDI, EDGE, DATA, 0, 0);
        // interesting initial values
        for _ in 0..6 { self.consts(); }
        let n = self.g.size;
        while self.budget > 0 { self.body(0, n); }
        if self.g.faults && self.rng.chance(3, 4) { self.fault(); }
        let r = self.src();
        if self.rng.chance(1, 2) { self.a.i(Op::ANDI, 10, r, 0, 0xff); } else { self.a.i(Op::ADDI, 10, r, 0, 0); }
        self.a.i(Op::ADDI, 17, 0, 0, 93);
        self.a.ecall();
        self.flush_funcs();
    }
}

/// The recorded finding: an `sbb` look-alike whose comparison reads an unrelated register.
pub fn sbb_mismatch(v: &[Inst]) -> bool {
    use Op::*;
    if v.len() < 5 { return false; }
    let (h, n, k, b, t) = (v[0], v[1], v[2], v[3], v[4]);
    (h.op, n.op, k.op, b.op, t.op) == (SUB, SLTU, SUB, SLTU, OR) && n.rs2 != h.rs2
}
pub fn contains_sbb_mismatch(v: &[Inst]) -> bool { v.windows(5).any(sbb_mismatch) }

pub struct Layout { pub code_base: u64, pub code_max: u64, pub data_base: u64, pub data_pages: u64 }

pub fn layout(rng: &mut Rng, mem: u64) -> Layout {
    let code_base = 0x10000 + PAGE * rng.below(8);
    let data_base = match rng.below(4) {
        0 => PAGE * (1 + rng.below(8)),
        1 if mem > 1 << 18 => *rng.pick(&[0x3e000u64, 0x3f000, 0x40000, 0x3d000]),
        _ => 0x2c000,
    };
    Layout { code_base, code_max: 0x2c000 - code_base, data_base, data_pages: 2 }
}

/// A complete image. Returns None when the code did not fit.
pub fn image(rng: &mut Rng, g: &G) -> Option<Image> {
    let l = layout(rng, g.mem);
    image_at(rng, g, &l)
}
pub fn image_at(rng: &mut Rng, g: &G, l: &Layout) -> Option<Image> {
    let mut b = Builder::new(rng, g.clone(), l.code_base, l.code_base + l.code_max, l.data_base);
    let skew = match b.rng.below(4) { 0 => PAGE - 2 * (1 + b.rng.below(40)), 1 => 2 * b.rng.below(200), _ => 0 };
    if skew > 0 { b.a.raw(&vec![0u8; skew as usize]); }
    let start = b.a.label();
    b.a.bind(start);
    b.main();
    let blob = b.a.assemble(l.code_base);
    if blob.bytes.len() as u64 > l.code_max { return None; }
    let entry = blob.labels[start];
    let mut segs = vec![Seg { vaddr: l.code_base, memsz: blob.bytes.len() as u64, data: blob.bytes, flags: PF_R | PF_X }];
    let fsz = rng.below(l.data_pages * PAGE + 1);
    let pad = if rng.chance(1, 3) { rng.below(64) * 8 } else { 0 };
    let n = (fsz.saturating_sub(pad)) as usize;
    segs.push(Seg { vaddr: l.data_base + pad, data: rng.bytes(n), memsz: (l.data_pages * PAGE - pad).max(n as u64), flags: PF_R | PF_W });
    // a large zeroed area, several frames long
    if g.mem >= 1 << 20 && rng.chance(1, 3) {
        let mut cuts: Vec<(u64, u64)> = segs.iter().map(|s| (s.vaddr & !(PAGE - 1), (s.vaddr + s.memsz + PAGE - 1) & !(PAGE - 1))).collect();
        cuts.sort();
        let mut at = 0;
        let mut best = (0, 0);
        for (a, b) in cuts.into_iter().chain([(g.mem / 4 * 3, 0)]) { if a.saturating_sub(at) > best.1 { best = (at, a - at); } at = at.max(b); }
        if best.1 > 0x50000 {
            let size = (0x41000 + rng.below(best.1 - 0x41000)).min(best.1);
            let vaddr = best.0 + rng.below((best.1 - size) / PAGE + 1) * PAGE;
            let n = if rng.chance(1, 2) { 0 } else { rng.us(3 * PAGE as usize) };
            segs.push(Seg { vaddr, data: rng.bytes(n), memsz: size, flags: PF_R | PF_W });
        }
    }
    if rng.chance(1, 4) { segs.swap(0, 1); }
    let args = if g.args && rng.chance(1, 2) { (0..rng.below(4)).map(|_| { let n = rng.us(40); Bytes::from(rng.bytes(n)) }).collect() } else { vec![] };
    Some(Image { elf: Bytes::from(build_elf(g.xlen == 64, entry, &segs)), segs, entry, args })
}
