//! Symbolic registers: expressions evaluated under drawn assignments against concrete execution.
use super::*;
use crate::ensure;
use crate::enc::*;
use crate::gen::{alu_inst, alu_ops};
use crate::refiss::*;
use crate::rng::mix;
use ckb_vm::instructions::ast::{ActionOp1, ActionOp2, SignActionOp2, Value};
use ckb_vm::instructions::{execute, extract_opcode, Instruction};
use ckb_vm::decoder::InstDecoder;
use ckb_vm::{Bytes, CoreMachine, Error, FlatMemory, Machine, Memory, Register};
use std::collections::HashMap;
use std::rc::Rc;

pub fn parts() -> Vec<Part> { vec![("operations", 4, operations), ("sequences", 8, sequences), ("memory", 4, memories)] }

// ---- a machine over any register type whose memory only records -------------------------------------
trait Rec: Register { fn load(at: &Self, n: u64, w: u8, m: &Mem<Self>) -> Self; }
struct Mem<R: Register> { log: Vec<(R, u8, R)>, loads: Vec<(usize, u8)>, lr: R, seed: u64 }
fn initial(seed: u64, a: u64) -> u8 { (mix(&[seed, a >> 3]) >> (8 * (a & 7))) as u8 }
impl Rec for u64 {
    fn load(at: &u64, _: u64, w: u8, m: &Mem<u64>) -> u64 {
        let mut v = 0;
        for k in 0..w as u64 {
            let a = at.wrapping_add(k);
            let b = m.log.iter().rev().find_map(|(x, n, v)| { let d = a.wrapping_sub(*x); if d < *n as u64 { Some((*v >> (8 * d)) as u8) } else { None } }).unwrap_or_else(|| initial(m.seed, a));
            v |= (b as u64) << (8 * k);
        }
        v
    }
}
impl Rec for Value {
    /// what memory holds after the first `n` of the stores made so far
    fn load(at: &Value, n: u64, w: u8, _: &Mem<Value>) -> Value { if n == 0 { Value::Load(Rc::new(at.clone()), w) } else { Value::External(Rc::new(at.clone()), n << 8 | w as u64) } }
}
impl<R: Rec> Mem<R> {
    fn new(seed: u64, lr: R) -> Self { Mem { log: vec![], loads: vec![], lr, seed } }
    fn ld(&mut self, a: &R, w: u8) -> R { self.loads.push((self.log.len(), w)); R::load(a, self.log.len() as u64, w, self) }
    fn st(&mut self, a: &R, v: &R, w: u8) { self.log.push((a.clone(), w, v.clone())); }
}
macro_rules! no { () => { panic!("src/props/c25.rs: not a call of an instruction") } }
impl<R: Rec> Memory for Mem<R> {
    type REG = R;
    fn reset_memory(&mut self) -> Result<(), Error> { no!() }
    fn init_pages(&mut self, _: u64, _: u64, _: u8, _: Option<Bytes>, _: u64) -> Result<(), Error> { no!() }
    fn fetch_flag(&mut self, _: u64) -> Result<u8, Error> { no!() }
    fn set_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { no!() }
    fn clear_flag(&mut self, _: u64, _: u8) -> Result<(), Error> { no!() }
    fn memory_size(&self) -> usize { 1 << 40 }
    fn store_byte(&mut self, _: u64, _: u64, _: u8) -> Result<(), Error> { no!() }
    fn store_bytes(&mut self, _: u64, _: &[u8]) -> Result<(), Error> { no!() }
    fn load_bytes(&mut self, _: u64, _: u64) -> Result<Bytes, Error> { no!() }
    fn execute_load16(&mut self, _: u64) -> Result<u16, Error> { no!() }
    fn execute_load32(&mut self, _: u64) -> Result<u32, Error> { no!() }
    fn load8(&mut self, a: &R) -> Result<R, Error> { Ok(self.ld(a, 1)) }
    fn load16(&mut self, a: &R) -> Result<R, Error> { Ok(self.ld(a, 2)) }
    fn load32(&mut self, a: &R) -> Result<R, Error> { Ok(self.ld(a, 4)) }
    fn load64(&mut self, a: &R) -> Result<R, Error> { Ok(self.ld(a, 8)) }
    fn store8(&mut self, a: &R, v: &R) -> Result<(), Error> { self.st(a, v, 1); Ok(()) }
    fn store16(&mut self, a: &R, v: &R) -> Result<(), Error> { self.st(a, v, 2); Ok(()) }
    fn store32(&mut self, a: &R, v: &R) -> Result<(), Error> { self.st(a, v, 4); Ok(()) }
    fn store64(&mut self, a: &R, v: &R) -> Result<(), Error> { self.st(a, v, 8); Ok(()) }
    fn lr(&self) -> &R { &self.lr }
    fn set_lr(&mut self, v: &R) { self.lr = v.clone() }
}
struct M<R: Rec> { x: Vec<R>, pc: R, next: R, mem: Mem<R>, version: u32, isa: u8, calls: u64 }
impl<R: Rec> CoreMachine for M<R> {
    type REG = R;
    type MEM = Mem<R>;
    fn pc(&self) -> &R { &self.pc }
    fn update_pc(&mut self, pc: R) { self.next = pc }
    fn commit_pc(&mut self) { self.pc = self.next.clone() }
    fn memory(&self) -> &Mem<R> { &self.mem }
    fn memory_mut(&mut self) -> &mut Mem<R> { &mut self.mem }
    fn registers(&self) -> &[R] { &self.x }
    fn set_register(&mut self, i: usize, v: R) { self.x[i] = v }
    fn version(&self) -> u32 { self.version }
    fn isa(&self) -> u8 { self.isa }
}
impl<R: Rec> Machine for M<R> {
    fn ecall(&mut self) -> Result<(), Error> { self.calls += 1; Ok(()) }
    fn ebreak(&mut self) -> Result<(), Error> { self.calls += 1 << 32; Ok(()) }
}

// ---- what an expression means ------------------------------------------------------------------------
struct Env<'a> { x: &'a [u64; 32], lr: u64, seed: u64, log: &'a [(Value, u8, Value)], memo: HashMap<*const Value, u64>, stores: Vec<Option<(u64, u64)>>, nodes: u64, bad: Option<String> }
fn clmul_wide(a: u64, b: u64) -> u128 { let mut r = 0u128; for k in 0..64 { if b >> k & 1 != 0 { r ^= (a as u128) << k; } } r }
impl<'a> Env<'a> {
    fn new(x: &'a [u64; 32], lr: u64, seed: u64, log: &'a [(Value, u8, Value)]) -> Self { Env { x, lr, seed, log, memo: HashMap::new(), stores: vec![None; log.len()], nodes: 0, bad: None } }
    fn rc(&mut self, v: &Rc<Value>) -> u64 {
        let p = Rc::as_ptr(v);
        if let Some(r) = self.memo.get(&p) { return *r; }
        let r = self.ev(v);
        self.memo.insert(p, r);
        r
    }
    fn store(&mut self, k: usize) -> (u64, u64) {
        if let Some(s) = self.stores[k] { return s; }
        let (a, _, v) = &self.log[k];
        let s = (self.ev(a), self.ev(v));
        self.stores[k] = Some(s);
        s
    }
    fn read(&mut self, at: u64, n: usize, w: u64) -> u64 {
        let mut r = 0;
        for k in 0..w {
            let a = at.wrapping_add(k);
            let mut b = initial(self.seed, a);
            for s in (0..n).rev() { let (x, v) = self.store(s); let d = a.wrapping_sub(x); if d < self.log[s].1 as u64 { b = (v >> (8 * d)) as u8; break; } }
            r |= (b as u64) << (8 * k);
        }
        r
    }
    fn ev(&mut self, v: &Value) -> u64 {
        self.nodes += 1;
        match v {
            Value::Lr => self.lr,
            Value::Imm(i) => *i,
            Value::Register(r) => self.x[*r],
            Value::Op1(op, a) => {
                let a = self.rc(a);
                match op {
                    ActionOp1::Not => !a,
                    ActionOp1::LogicalNot => (a == 0) as u64,
                    ActionOp1::Clz => a.leading_zeros() as u64,
                    ActionOp1::Ctz => a.trailing_zeros() as u64,
                    ActionOp1::Cpop => a.count_ones() as u64,
                    ActionOp1::Orcb => (0..8).map(|k| if a >> (8 * k) & 0xff != 0 { 0xffu64 << (8 * k) } else { 0 }).sum(),
                    ActionOp1::Rev8 => a.swap_bytes(),
                }
            }
            Value::Op2(op, a, b) => {
                let (a, b) = (self.rc(a), self.rc(b));
                match op {
                    ActionOp2::Add => a.wrapping_add(b),
                    ActionOp2::Sub => a.wrapping_sub(b),
                    ActionOp2::Mul => a.wrapping_mul(b),
                    ActionOp2::Mulhsu => ((a as i64 as i128).wrapping_mul(b as i128) >> 64) as u64,
                    ActionOp2::Bitand => a & b,
                    ActionOp2::Bitor => a | b,
                    ActionOp2::Bitxor => a ^ b,
                    ActionOp2::Shl => { self.shift(b); a << (b & 63) }
                    ActionOp2::Eq => (a == b) as u64,
                    ActionOp2::Clmul => clmul_wide(a, b) as u64,
                    ActionOp2::Clmulh => (clmul_wide(a, b) >> 64) as u64,
                    ActionOp2::Clmulr => (clmul_wide(a, b) >> 63) as u64,
                    ActionOp2::Rol => a.rotate_left((b & 63) as u32),
                    ActionOp2::Ror => a.rotate_right((b & 63) as u32),
                }
            }
            Value::SignOp2(op, a, b, s) => {
                let (a, b) = (self.rc(a), self.rc(b));
                match (op, s) {
                    (SignActionOp2::Mulh, true) => ((a as i64 as i128 * b as i64 as i128) >> 64) as u64,
                    (SignActionOp2::Mulh, false) => ((a as u128 * b as u128) >> 64) as u64,
                    (SignActionOp2::Div, true) => if b == 0 { u64::MAX } else { (a as i64).wrapping_div(b as i64) as u64 },
                    (SignActionOp2::Div, false) => if b == 0 { u64::MAX } else { a / b },
                    (SignActionOp2::Rem, true) => if b == 0 { a } else { (a as i64).wrapping_rem(b as i64) as u64 },
                    (SignActionOp2::Rem, false) => if b == 0 { a } else { a % b },
                    (SignActionOp2::Shr, true) => { self.shift(b); ((a as i64) >> (b & 63)) as u64 }
                    (SignActionOp2::Shr, false) => { self.shift(b); a >> (b & 63) }
                    (SignActionOp2::Lt, true) => ((a as i64) < (b as i64)) as u64,
                    (SignActionOp2::Lt, false) => (a < b) as u64,
                    (SignActionOp2::Extend, s) => {
                        if b == 0 || b > 64 { self.bad = Some(format!("an extension from bit {b}")); return 0; }
                        let k = 64 - b;
                        if *s { ((a << k) as i64 >> k) as u64 } else { a << k >> k }
                    }
                }
            }
            Value::Cond(c, t, f) => {
                let c = self.rc(c);
                if c > 1 { self.bad = Some(format!("a condition of {c:#x}")); }
                if c == 1 { self.rc(t) } else { self.rc(f) }
            }
            Value::Load(a, w) => { let a = self.rc(a); self.read(a, 0, *w as u64) }
            Value::External(a, id) => { let a = self.rc(a); self.read(a, (*id >> 8) as usize, *id & 0xff) }
        }
    }
    fn shift(&mut self, b: u64) { if b > 63 { self.bad = Some(format!("a shift by {b}")); } }
}

fn assignment(rng: &mut Rng) -> [u64; 32] {
    let mut x = [0u64; 32];
    let base = rng.value();
    for k in 1..32 { x[k] = match rng.below(6) { 0 => base.wrapping_add(rng.range(-9, 9) as u64), 1 if k > 1 => x[k - 1], 2 => rng.below(70), _ => rng.value() }; }
    x
}

/// every operation of the register interface on every kind of operand
fn operations(ctx: &mut Ctx, rng: &mut Rng) -> V {
    for _ in 0..60 {
        let x = assignment(rng);
        // an operand and the value it stands for
        let mut operand = |rng: &mut Rng, lim: u64| -> (Value, u64) {
            let r = 1 + rng.us(31);
            let c = if rng.chance(1, 2) { x[r] } else { rng.value() };
            let c = if lim > 0 { c % lim } else { c };
            let or = |c: u64| Value::Imm(c);
            match rng.below(if lim > 0 { 3 } else { 4 }) {
                0 => (or(c), c),
                1 | 2 if lim == 0 => (Value::Register(r), x[r]),
                // a symbolic value below the limit
                1 => (Value::Register(r) & Value::Imm(lim.next_power_of_two() / 2 - 1), x[r] & (lim.next_power_of_two() / 2 - 1)),
                _ => (Value::Register(r).overflowing_sub(&Value::Register(r)).overflowing_add(&Value::Imm(c)), c),
            }
        };
        let (a, ca) = operand(rng, 0);
        let (b, cb) = operand(rng, 0);
        let (s, cs) = operand(rng, 64);
        let (n, cn) = { let k = *rng.pick(&[8u64, 16, 32, 1 + rng.clone().below(64), 64, 8]); (Value::from_u8(k as u8), k) };
        let (k, ck) = { let (p, cp) = operand(rng, 0); let (q, cq) = operand(rng, 0); match rng.below(3) { 0 => (Register::eq(&p, &q), (cp == cq) as u64), 1 => (p.lt(&q), (cp < cq) as u64), _ => (p.lt_s(&q), ((cp as i64) < cq as i64) as u64) } };
        let mut e = Env::new(&x, 0, 1, &[]);
        let mut n_ops = 0u64;
        macro_rules! t { ($name:expr, $v:expr, $w:expr) => {{
            let v: Value = $v; let w: u64 = $w;
            let g = e.ev(&v);
            e.memo.clear();
            if let Some(b) = e.bad.take() { return Err(format!("{} of {a:?} and {b:?} contains {}", $name, b, a = a, b = b)); }
            ensure!(g == w, "{} of {a:?} ({ca:#x}) and {b:?} ({cb:#x}), shift {cs}, width {cn}, condition {ck}: the expression {v:?} stands for {g:#x}, concrete execution gives {w:#x}", $name);
            n_ops += 1;
        }} }
        macro_rules! t2 { ($($m:ident)*) => { $( t!(stringify!($m), Register::$m(&a, &b), Register::$m(&ca, &cb)); )* } }
        macro_rules! t1 { ($($m:ident)*) => { $( t!(stringify!($m), Register::$m(&a), Register::$m(&ca)); )* } }
        t2!(eq lt lt_s overflowing_add overflowing_sub overflowing_mul overflowing_div overflowing_rem overflowing_div_signed overflowing_rem_signed
            overflowing_mul_high_signed overflowing_mul_high_unsigned overflowing_mul_high_signed_unsigned clmul clmulh clmulr);
        t1!(clz ctz cpop orcb rev8);
        t!("rol", a.rol(&s), ca.rol(&cs));
        t!("ror", a.ror(&s), ca.ror(&cs));
        t!("signed_shl", a.signed_shl(&s), ca.signed_shl(&cs));
        t!("signed_shr", a.signed_shr(&s), ca.signed_shr(&cs));
        t!("shl", a.clone() << s.clone(), ca << cs);
        t!("shr", a.clone() >> s.clone(), ca >> cs);
        t!("and", a.clone() & b.clone(), ca & cb);
        t!("or", a.clone() | b.clone(), ca | cb);
        t!("xor", a.clone() ^ b.clone(), ca ^ cb);
        t!("not", !a.clone(), !ca);
        t!("zero_extend", a.zero_extend(&n), ca.zero_extend(&cn));
        t!("sign_extend", a.sign_extend(&n), ca.sign_extend(&cn));
        t!("logical_not", k.logical_not(), ck.logical_not());
        t!("cond", k.cond(&a, &b), ck.cond(&ca, &cb));
        t!("zero", Value::zero(), u64::zero());
        t!("one", Value::one(), u64::one());
        t!("min_value", Value::min_value(), u64::min_value());
        t!("max_value", Value::max_value(), u64::max_value());
        t!("default", Value::default(), u64::default());
        t!("from_i8", Value::from_i8(ca as i8), <u64 as Register>::from_i8(ca as i8));
        t!("from_i16", Value::from_i16(ca as i16), <u64 as Register>::from_i16(ca as i16));
        t!("from_i32", Value::from_i32(ca as i32), <u64 as Register>::from_i32(ca as i32));
        t!("from_i64", Value::from_i64(ca as i64), <u64 as Register>::from_i64(ca as i64));
        t!("from_u8", Value::from_u8(ca as u8), <u64 as Register>::from_u8(ca as u8));
        t!("from_u16", Value::from_u16(ca as u16), <u64 as Register>::from_u16(ca as u16));
        t!("from_u32", Value::from_u32(ca as u32), <u64 as Register>::from_u32(ca as u32));
        t!("from_u64", Value::from_u64(ca), <u64 as Register>::from_u64(ca));
        ctx.add("operations-evaluated", n_ops);
        ctx.seen(mix(&[std::mem::discriminant(&a) == std::mem::discriminant(&b), matches!(a, Value::Imm(_)), matches!(b, Value::Imm(_)), matches!(s, Value::Imm(_))].map(|b| b as u64)).wrapping_add(ca.leading_zeros() as u64 * 65 + cb.leading_zeros() as u64));
    }
    ensure!(<Value as Register>::BITS == 64 && <Value as Register>::SHIFT_MASK == 63, "the symbolic register is not 64 bits wide");
    Ok(())
}

/// instructions of every kind, fused groups included, decoded by the real decoder
fn code(rng: &mut Rng, isa: u8, version: u32, mem_share: u64) -> Option<Vec<Instruction>> {
    let mut b: Vec<u8> = vec![];
    let regs = [0u8, 1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 28, 31];
    let ops = alu_ops(64, isa);
    let put = |b: &mut Vec<u8>, i: &Inst, rng: &mut Rng| { match if rng.chance(1, 2) { compress(i) } else { None } { Some(c) => b.extend(c.to_le_bytes()), None => b.extend(encode(i).to_le_bytes()) } };
    for _ in 0..3 + rng.below(22) {
        let (d, p, q, r) = (*rng.pick(&regs), *rng.pick(&regs), *rng.pick(&regs), *rng.pick(&regs));
        if rng.below(100) < mem_share {
            let imm = rng.range(-24, 24);
            let i = match rng.below(10) {
                0..=2 => inst(*rng.pick(&[Op::LB, Op::LH, Op::LW, Op::LD, Op::LBU, Op::LHU, Op::LWU]), d, p, 0, imm),
                3..=5 => inst(*rng.pick(&[Op::SB, Op::SH, Op::SW, Op::SD]), 0, p, q, imm),
                6 | 7 if isa & ISA_A != 0 => { let op = *rng.pick(&AMOS); let rs2 = if matches!(op, Op::LR_W | Op::LR_D) { 0 } else { q }; inst(op, d, p, rs2, 0) }
                _ => { let op = *rng.pick(&ops); alu_inst(rng, op, d, p, q, 64) }
            };
            put(&mut b, &i, rng);
            continue;
        }
        match rng.below(14) {
            0 => { let i = inst(Op::JAL, d, 0, 0, rng.range(-500, 500) * 2); put(&mut b, &i, rng); }
            1 => { let i = inst(Op::JALR, d, p, 0, rng.range(-500, 500)); put(&mut b, &i, rng); }
            2 => { let i = inst(*rng.pick(&[Op::BEQ, Op::BNE, Op::BLT, Op::BGE, Op::BLTU, Op::BGEU]), 0, p, q, rng.range(-500, 500) * 2); put(&mut b, &i, rng); }
            3 => { let i = inst(*rng.pick(&[Op::LUI, Op::AUIPC]), d, 0, 0, (rng.u32() & 0xffff_f000) as i32 as i64); put(&mut b, &i, rng); }
            4 if rng.chance(1, 4) => { let i = inst(*rng.pick(&[Op::ECALL, Op::EBREAK, Op::FENCE]), 0, 0, 0, 0); b.extend(encode(&i).to_le_bytes()); }
            5 | 6 => {
                // likely fused
                let (e, t) = (*rng.pick(&regs), |op, rd, r1, r2| inst(op, rd, r1, r2, 0));
                for i in match rng.below(13) {
                    7 => vec![t(Op::ADD, d, p, d), t(Op::SLTU, q, d, p), t(Op::ADD, r, q, e)],
                    8 => vec![t(Op::ADD, d, p, q), t(Op::SLTU, p, d, p), t(Op::ADD, r, p, e)],
                    9 => vec![t(Op::ADD, d, p, q), t(Op::SLTU, r, d, p), t(Op::ADD, r, r, e)],
                    10 => vec![t(Op::ADD, d, p, q), t(Op::SLTU, r, d, *rng.pick(&[p, q]))],
                    11 | 12 => vec![t(Op::SUB, p, d, p), t(Op::SLTU, r, d, p), t(Op::SUB, d, p, q), t(Op::SLTU, q, p, d), t(Op::OR, p, q, r)],
                    0 => vec![inst(*rng.pick(&[Op::MULH, Op::MULHU, Op::MULHSU]), d, p, q, 0), inst(Op::MUL, r, p, q, 0)],
                    1 => vec![inst(Op::DIV, d, p, q, 0), inst(Op::REM, r, p, q, 0)],
                    2 => vec![inst(Op::DIVU, d, p, q, 0), inst(Op::REMU, r, p, q, 0)],
                    3 => vec![inst(Op::LUI, d, 0, 0, (rng.u32() & 0xffff_f000) as i32 as i64), inst(*rng.pick(&[Op::ADDIW, Op::ADDI, Op::JALR]), d, d, 0, rng.range(-2048, 2047))],
                    4 => vec![inst(Op::AUIPC, d, 0, 0, (rng.u32() & 0xffff_f000) as i32 as i64), inst(*rng.pick(&[Op::ADDI, Op::JALR]), *rng.pick(&[d, 1]), d, 0, rng.range(-2048, 2047))],
                    5 => vec![inst(Op::ADD, d, d, p, 0), inst(Op::SLTU, p, d, p, 0), inst(Op::ADD, d, d, q, 0), inst(Op::SLTU, q, d, q, 0), inst(Op::OR, p, p, q, 0)],
                    _ => vec![inst(Op::SUB, r, d, p, 0), inst(Op::SLTU, p, d, r, 0), inst(Op::SUB, d, r, q, 0), inst(Op::SLTU, q, r, d, 0), inst(Op::OR, p, p, q, 0)],
                } { b.extend(encode(&i).to_le_bytes()); }
            }
            _ => { let op = *rng.pick(&ops); let i = alu_inst(rng, op, d, p, q, 64); put(&mut b, &i, rng); }
        }
    }
    let n = b.len() as u64;
    let mut m = FlatMemory::<u64>::new_with_memory(1 << 16);
    m.store_bytes(0, &b).ok()?;
    let mut dec = ckb_vm::decoder::build_decoder::<u64>(isa, version);
    let mut out = vec![];
    let mut at = 0;
    while at < n { let i = dec.decode(&mut m, at).ok()?; at += ckb_vm::instructions::instruction_length(i) as u64; out.push(i); }
    Some(out)
}
const AMOS: [Op; 22] = [Op::LR_W, Op::LR_D, Op::SC_W, Op::SC_D, Op::AMOSWAP_W, Op::AMOADD_W, Op::AMOXOR_W, Op::AMOAND_W, Op::AMOOR_W, Op::AMOMIN_W, Op::AMOMAX_W, Op::AMOMINU_W, Op::AMOMAXU_W,
    Op::AMOSWAP_D, Op::AMOADD_D, Op::AMOXOR_D, Op::AMOAND_D, Op::AMOOR_D, Op::AMOMIN_D, Op::AMOMAX_D, Op::AMOMINU_D, Op::AMOMAXU_D];

fn sequences(ctx: &mut Ctx, rng: &mut Rng) -> V { sequence(ctx, rng, 12) }
fn memories(ctx: &mut Ctx, rng: &mut Rng) -> V { sequence(ctx, rng, 60) }
fn sequence(ctx: &mut Ctx, rng: &mut Rng, mem_share: u64) -> V {
    let version = 1 + rng.below(2) as u32;
    let isa = (if rng.chance(4, 5) { ISA_B } else { 0 }) | (if rng.chance(4, 5) { ISA_A } else { 0 }) | (if rng.chance(1, 2) { ISA_MOP } else { 0 });
    let code = match code(rng, isa, version, mem_share) { Some(c) => c, None => { ctx.count("undecodable"); return Ok(()); } };
    // some registers are constants from the start
    let mut fixed: [Option<u64>; 32] = [None; 32];
    for k in 1..32 { if rng.chance(1, 4) { fixed[k] = Some(rng.value()); } }
    fixed[0] = Some(0);
    let seed = rng.next();
    let entry = rng.value() & !1;
    let sym_x: Vec<Value> = (0..32).map(|k| match fixed[k] { Some(v) => Value::Imm(v), None => Value::Register(k) }).collect();
    let mut s = M { x: sym_x, pc: Value::Imm(entry), next: Value::Imm(entry), mem: Mem::new(seed, Value::Lr), version, isa, calls: 0 };
    for i in &code { execute(*i, &mut s).map_err(|e| format!("{i:#x} fails on symbolic registers: {e:?}"))?; }
    for _ in 0..6 {
        let mut x = assignment(rng);
        for k in 0..32 { if let Some(v) = fixed[k] { x[k] = v; } }
        let lr = if rng.chance(1, 2) { x[1 + rng.us(31)] } else { rng.value() };
        let mut c = M { x: x.to_vec(), pc: entry, next: entry, mem: Mem::new(seed, lr), version, isa, calls: 0 };
        for i in &code { execute(*i, &mut c).map_err(|e| format!("{i:#x} fails on concrete registers: {e:?}"))?; }
        let mut e = Env::new(&x, lr, seed, &s.mem.log);
        let show = || code.iter().map(|i| format!("{}", ckb_vm::instructions::instruction_opcode_name(extract_opcode(*i)))).collect::<Vec<_>>().join(" ");
        for k in 0..32 {
            let g = e.ev(&s.x[k]);
            ensure!(g == c.x[k], "x{k}: the expression stands for {g:#x}, concrete execution gives {:#x}; {}", c.x[k], show());
        }
        let p = e.ev(&s.pc);
        ensure!(p == c.pc, "pc: the expression stands for {p:#x}, concrete execution gives {:#x}; {}", c.pc, show());
        let l = e.ev(&s.mem.lr);
        ensure!(l == c.mem.lr, "reservation: the expression stands for {l:#x}, concrete execution gives {:#x}; {}", c.mem.lr, show());
        ensure!(s.mem.log.len() == c.mem.log.len() && s.mem.loads == c.mem.loads && s.calls == c.calls, "another sequence of memory accesses than with concrete registers: {} stores for {}; {}", s.mem.log.len(), c.mem.log.len(), show());
        for k in 0..c.mem.log.len() {
            let (a, v) = e.store(k);
            let (ca, w, cv) = c.mem.log[k];
            let mask = if w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
            ensure!(a == ca && s.mem.log[k].1 == w && v & mask == cv & mask, "store {k}: the expressions stand for {v:#x} at {a:#x}, concrete execution stores {cv:#x} ({w} bytes) at {ca:#x}; {}", show());
        }
        if let Some(b) = e.bad { return Err(format!("the expressions contain {b}; {}", show())); }
        ctx.add("nodes-evaluated", e.nodes);
        ctx.add("stores-compared", c.mem.log.len() as u64);
        ctx.count("assignments");
    }
    ctx.add("instructions", code.len() as u64);
    let mut ops: Vec<u64> = code.iter().map(|i| extract_opcode(*i) as u64).collect();
    ops.sort_unstable();
    ops.dedup();
    for o in &ops { ctx.max(&format!("max:op:{}", ckb_vm::instructions::instruction_opcode_name(*o as u16)), 1); }
    ctx.seen(mix(&ops));
    Ok(())
}
