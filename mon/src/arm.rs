//! Runs the 64-bit ARM assembly engine on this host: an interpreter of the A64 integer instruction set
//! executes the machine code assembled from the repository's execute_aarch64.S (build.rs embeds it, its
//! label table taking the place of the x86-64 one, so that traces hold the ARM engine's addresses).
//! On the way it watches what a processor and the procedure call standard ask for: stack alignment, no
//! access below the stack pointer, callee-saved and platform registers, writes only where the engine
//! may write.
use ckb_vm::machine::asm::{inited_memory, AsmCoreMachine};
use ckb_vm_definitions_invoke::InvokeData;
use std::os::raw::c_uchar;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

mod ckb_vm_definitions_invoke {
    /// Only the address of it matters here.
    #[repr(C)]
    pub struct InvokeData { pub words: [u64; 3] }
}

include!(concat!(env!("OUT_DIR"), "/arm_consts.rs"));

pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static INSTS: AtomicU64 = AtomicU64::new(0);
pub static INITS: AtomicU64 = AtomicU64::new(0);
/// One bit per executed word of the engine.
pub static SEEN: [AtomicU64; ARM_WORDS / 64 + 1] = [const { AtomicU64::new(0) }; ARM_WORDS / 64 + 1];

pub fn covered() -> (usize, usize) {
    (SEEN.iter().map(|w| w.load(Ordering::Relaxed).count_ones() as usize).sum(), ARM_CODE_WORDS)
}

/// Offsets of code words that were never executed.
pub fn unseen() -> Vec<usize> { (0..ARM_WORDS).filter(|i| SEEN[i / 64].load(Ordering::Relaxed) >> (i % 64) & 1 == 0).map(|i| i * 4).collect() }

extern "C" { static mon_arm_text: u8; }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Bad, Udf, Nop, Host,
    Adr, AddImm, LogImm, Movn, Movz, Movk, Sbfm, Bfm, Ubfm, Extr,
    LogReg, AddReg, AddExt, Adc, CCmp, Csel, Rbit, Rev16, Rev32, Rev64, Clz, Cls,
    Udiv, Sdiv, Lslv, Lsrv, Asrv, Rorv, Madd, Msub, Smaddl, Smsubl, Umaddl, Umsubl, Smulh, Umulh,
    B, Bl, Bcond, Cbz, Cbnz, Tbz, Tbnz, Br, Blr, Ret,
    LdLit, Pair, Mem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ix { Off, Pre, Post, Reg }
#[derive(Clone, Copy, Debug)]
struct I {
    k: K,
    sf: bool,
    /// flag setting; also: store (memory)
    s: bool,
    /// variant
    op: u8,
    rd: u8,
    rn: u8,
    rm: u8,
    ra: u8,
    imm: u64,
    sh: u8,
    amt: u8,
    size: u8,
    sx: u8,
    ix: Ix,
}
const NONE: I = I { k: K::Bad, sf: false, s: false, op: 0, rd: 0, rn: 0, rm: 0, ra: 0, imm: 0, sh: 0, amt: 0, size: 0, sx: 0, ix: Ix::Off };

fn bits(w: u32, hi: u32, lo: u32) -> u32 { w >> lo & ((1u64 << (hi - lo + 1)) - 1) as u32 }
fn sxt(v: u64, n: u32) -> u64 { ((v << (64 - n)) as i64 >> (64 - n)) as u64 }
fn ones(n: u32) -> u64 { if n >= 64 { u64::MAX } else { (1u64 << n) - 1 } }

fn bitmask(n: u32, imms: u32, immr: u32, sf: bool) -> Option<u64> {
    let v = n << 6 | (!imms & 0x3f);
    if v == 0 { return None; }
    let len = 31 - v.leading_zeros();
    if len < 1 { return None; }
    let size = 1u32 << len;
    let levels = size - 1;
    let (s, r) = (imms & levels, immr & levels);
    if s == levels { return None; }
    let welem = ones(s + 1);
    let elem = if r == 0 { welem } else { (welem >> r | welem << (size - r)) & ones(size) };
    let mut out = 0u64;
    let mut at = 0;
    while at < 64 { out |= elem << at; at += size; }
    Some(if sf { out } else { out & 0xffff_ffff })
}

fn decode(w: u32) -> I {
    let sf = w >> 31 == 1;
    let (rd, rn, rm) = (bits(w, 4, 0) as u8, bits(w, 9, 5) as u8, bits(w, 20, 16) as u8);
    let b = I { sf, rd, rn, rm, ..NONE };
    let bad = NONE;
    if w >> 16 == 0 { return I { k: K::Udf, ..NONE }; }
    match bits(w, 28, 25) {
        0b1000 | 0b1001 => match bits(w, 25, 23) {
            0b000 | 0b001 => {
                let imm = sxt((bits(w, 23, 5) << 2 | bits(w, 30, 29)) as u64, 21);
                I { k: K::Adr, op: sf as u8, imm: if sf { imm << 12 } else { imm }, ..b }
            }
            0b010 => I { k: K::AddImm, op: bits(w, 30, 30) as u8, s: bits(w, 29, 29) == 1, imm: (bits(w, 21, 10) as u64) << if bits(w, 22, 22) == 1 { 12 } else { 0 }, ..b },
            0b100 => {
                if !sf && bits(w, 22, 22) == 1 { return bad; }
                match bitmask(bits(w, 22, 22), bits(w, 15, 10), bits(w, 21, 16), sf) { Some(m) => I { k: K::LogImm, op: bits(w, 30, 29) as u8, imm: m, ..b }, None => bad }
            }
            0b101 => {
                let sh = bits(w, 22, 21);
                if !sf && sh > 1 { return bad; }
                let k = match bits(w, 30, 29) { 0 => K::Movn, 2 => K::Movz, 3 => K::Movk, _ => return bad };
                I { k, imm: bits(w, 20, 5) as u64, sh: (sh * 16) as u8, ..b }
            }
            0b110 => {
                let (n, immr, imms) = (bits(w, 22, 22), bits(w, 21, 16), bits(w, 15, 10));
                if (n == 1) != sf || (!sf && (immr > 31 || imms > 31)) { return bad; }
                let k = match bits(w, 30, 29) { 0 => K::Sbfm, 1 => K::Bfm, 2 => K::Ubfm, _ => return bad };
                I { k, sh: immr as u8, amt: imms as u8, ..b }
            }
            0b111 => {
                let (n, imms) = (bits(w, 22, 22), bits(w, 15, 10));
                if bits(w, 30, 29) != 0 || bits(w, 21, 21) != 0 || (n == 1) != sf || (!sf && imms > 31) { return bad; }
                I { k: K::Extr, amt: imms as u8, ..b }
            }
            _ => bad,
        },
        0b1010 | 0b1011 => {
            if bits(w, 30, 26) == 0b00101 { return I { k: if sf { K::Bl } else { K::B }, imm: sxt(bits(w, 25, 0) as u64, 26) << 2, ..b }; }
            if bits(w, 30, 25) == 0b011010 { return I { k: if bits(w, 24, 24) == 1 { K::Cbnz } else { K::Cbz }, imm: sxt(bits(w, 23, 5) as u64, 19) << 2, ..b }; }
            if bits(w, 30, 25) == 0b011011 { return I { k: if bits(w, 24, 24) == 1 { K::Tbnz } else { K::Tbz }, amt: (bits(w, 31, 31) << 5 | bits(w, 23, 19)) as u8, imm: sxt(bits(w, 18, 5) as u64, 14) << 2, ..b }; }
            if w >> 24 == 0x54 && bits(w, 4, 4) == 0 { return I { k: K::Bcond, op: bits(w, 3, 0) as u8, imm: sxt(bits(w, 23, 5) as u64, 19) << 2, ..b }; }
            match w & 0xffff_fc1f {
                0xd61f_0000 => return I { k: K::Br, ..b },
                0xd63f_0000 => return I { k: K::Blr, ..b },
                0xd65f_0000 => return I { k: K::Ret, ..b },
                _ => {}
            }
            if w & 0xffe0_001f == 0xd440_0000 { return I { k: K::Host, imm: bits(w, 20, 5) as u64, ..b }; }
            // hints (nop, bti, pacia...: nothing to do without the feature) and barriers
            if w & 0xffff_f01f == 0xd503_201f || w & 0xffff_f01f == 0xd503_301f { return I { k: K::Nop, ..b }; }
            bad
        }
        0b0100 | 0b0110 | 0b1100 | 0b1110 => memory(w, b),
        0b0101 | 0b1101 => {
            let op0 = bits(w, 30, 30);
            if bits(w, 28, 28) == 0 {
                let (sh, amt) = (bits(w, 23, 22) as u8, bits(w, 15, 10) as u8);
                if bits(w, 24, 24) == 0 {
                    if !sf && amt > 31 { return bad; }
                    return I { k: K::LogReg, op: (bits(w, 30, 29) << 1 | bits(w, 21, 21)) as u8, sh, amt, ..b };
                }
                if bits(w, 21, 21) == 0 {
                    if sh == 3 || (!sf && amt > 31) { return bad; }
                    return I { k: K::AddReg, op: op0 as u8, s: bits(w, 29, 29) == 1, sh, amt, ..b };
                }
                if bits(w, 23, 22) != 0 || bits(w, 12, 10) > 4 { return bad; }
                return I { k: K::AddExt, op: op0 as u8, s: bits(w, 29, 29) == 1, sh: bits(w, 15, 13) as u8, amt: bits(w, 12, 10) as u8, ..b };
            }
            match bits(w, 24, 21) {
                0b0000 if bits(w, 15, 10) == 0 => I { k: K::Adc, op: op0 as u8, s: bits(w, 29, 29) == 1, ..b },
                0b0010 if bits(w, 29, 29) == 1 && bits(w, 10, 10) == 0 && bits(w, 4, 4) == 0 =>
                    I { k: K::CCmp, op: op0 as u8, s: bits(w, 11, 11) == 1, ra: bits(w, 15, 12) as u8, imm: bits(w, 3, 0) as u64, ..b },
                0b0100 if bits(w, 29, 29) == 0 && bits(w, 11, 11) == 0 => I { k: K::Csel, op: (op0 << 1 | bits(w, 10, 10)) as u8, ra: bits(w, 15, 12) as u8, ..b },
                0b0110 if bits(w, 29, 29) == 0 => {
                    if op0 == 1 {
                        if rm != 0 { return bad; }
                        let k = match bits(w, 15, 10) { 0 => K::Rbit, 1 => K::Rev16, 2 => K::Rev32, 3 if sf => K::Rev64, 4 => K::Clz, 5 => K::Cls, _ => return bad };
                        return I { k, ..b };
                    }
                    let k = match bits(w, 15, 10) { 2 => K::Udiv, 3 => K::Sdiv, 8 => K::Lslv, 9 => K::Lsrv, 10 => K::Asrv, 11 => K::Rorv, _ => return bad };
                    I { k, ..b }
                }
                8..=15 if bits(w, 30, 29) == 0 => {
                    let o = bits(w, 15, 15);
                    let k = match (bits(w, 23, 21), o) {
                        (0, 0) => K::Madd, (0, 1) => K::Msub,
                        (1, 0) if sf => K::Smaddl, (1, 1) if sf => K::Smsubl, (5, 0) if sf => K::Umaddl, (5, 1) if sf => K::Umsubl,
                        (2, 0) if sf => K::Smulh, (6, 0) if sf => K::Umulh,
                        _ => return bad,
                    };
                    I { k, ra: bits(w, 14, 10) as u8, ..b }
                }
                _ => bad,
            }
        }
        _ => bad,
    }
}

fn memory(w: u32, b: I) -> I {
    let bad = NONE;
    if bits(w, 26, 26) == 1 { return bad; }
    let size = bits(w, 31, 30) as u8;
    match bits(w, 29, 27) {
        0b001 => {
            // exclusive and ordered; only the ordered single ones
            if bits(w, 23, 23) == 1 && bits(w, 21, 21) == 0 {
                return I { k: K::Mem, size, s: bits(w, 22, 22) == 0, sx: 0, ix: Ix::Off, imm: 0, ..b };
            }
            bad
        }
        0b011 => {
            if bits(w, 24, 24) == 1 || bits(w, 25, 25) == 1 { return bad; }
            let imm = sxt(bits(w, 23, 5) as u64, 19) << 2;
            match size { 0 => I { k: K::LdLit, size: 2, imm, ..b }, 1 => I { k: K::LdLit, size: 3, imm, ..b }, 2 => I { k: K::LdLit, size: 2, sx: 64, imm, ..b }, _ => I { k: K::Nop, ..b } }
        }
        0b101 => {
            let load = bits(w, 22, 22) == 1;
            let (sz, sx) = match size { 0 => (2u8, 0u8), 2 => (3, 0), 1 if load => (2, 64), _ => return bad };
            let imm = sxt(bits(w, 21, 15) as u64, 7) << sz;
            let ix = match bits(w, 24, 23) { 0 | 2 => Ix::Off, 1 => Ix::Post, _ => Ix::Pre };
            I { k: K::Pair, size: sz, sx, s: !load, imm, ix, ra: bits(w, 14, 10) as u8, ..b }
        }
        0b111 => {
            let opc = bits(w, 23, 22);
            let (store, sx) = match (opc, size) { (0, _) => (true, 0u8), (1, _) => (false, 0), (2, 3) => return I { k: K::Nop, ..b }, (2, _) => (false, 64), (3, 0 | 1) => (false, 32), _ => return bad };
            let m = I { k: K::Mem, size, s: store, sx, ..b };
            if bits(w, 24, 24) == 1 { return I { imm: (bits(w, 21, 10) as u64) << size, ix: Ix::Off, ..m }; }
            if bits(w, 21, 21) == 1 {
                if bits(w, 11, 10) != 2 { return bad; }
                let o = bits(w, 15, 13) as u8;
                if o & 2 == 0 { return bad; }
                return I { ix: Ix::Reg, sh: o, amt: if bits(w, 12, 12) == 1 { size } else { 0 }, ..m };
            }
            let imm = sxt(bits(w, 20, 12) as u64, 9);
            match bits(w, 11, 10) { 0 => I { imm, ix: Ix::Off, ..m }, 1 => I { imm, ix: Ix::Post, ..m }, 3 => I { imm, ix: Ix::Pre, ..m }, _ => bad }
        }
        _ => bad,
    }
}

fn code() -> &'static [I] {
    static C: OnceLock<Vec<I>> = OnceLock::new();
    C.get_or_init(|| {
        let t = unsafe { std::slice::from_raw_parts(&mon_arm_text as *const u8, ARM_WORDS * 4) };
        t.chunks(4).map(|c| decode(u32::from_le_bytes(c.try_into().unwrap()))).collect()
    })
}

const STACK: usize = 64 * 1024;
#[repr(align(16))]
struct Stack([u8; STACK]);

struct Cpu {
    /// 31: always zero
    x: [u64; 32],
    sp: u64,
    n: bool,
    z: bool,
    c: bool,
    v: bool,
    /// where it may write
    ok: [(u64, u64); 4],
    stack: (u64, u64),
    bad: Option<String>,
}

fn cond(c: &Cpu, k: u8) -> bool {
    let r = match k >> 1 { 0 => c.z, 1 => c.c, 2 => c.n, 3 => c.v, 4 => c.c && !c.z, 5 => c.n == c.v, 6 => c.n == c.v && !c.z, _ => return true };
    r != (k & 1 == 1)
}

impl Cpu {
    #[inline(always)]
    fn set(&mut self, r: u8, v: u64, sf: bool) { if r != 31 { self.x[r as usize] = if sf { v } else { v as u32 as u64 }; } }
    #[inline(always)]
    fn get(&self, r: u8, sf: bool) -> u64 { let v = self.x[r as usize]; if sf { v } else { v as u32 as u64 } }
    #[inline(always)]
    fn get_sp(&self, r: u8, sf: bool) -> u64 { let v = if r == 31 { self.sp } else { self.x[r as usize] }; if sf { v } else { v as u32 as u64 } }
    fn add(&mut self, a: u64, b: u64, cin: bool, sf: bool, s: bool) -> u64 {
        if sf {
            let (r1, c1) = a.overflowing_add(b);
            let (r, c2) = r1.overflowing_add(cin as u64);
            if s { self.n = (r as i64) < 0; self.z = r == 0; self.c = c1 | c2; self.v = (!(a ^ b) & (a ^ r)) >> 63 == 1; }
            r
        } else {
            let (a, b) = (a as u32, b as u32);
            let full = a as u64 + b as u64 + cin as u64;
            let r = full as u32;
            if s { self.n = (r as i32) < 0; self.z = r == 0; self.c = full >> 32 != 0; self.v = (!(a ^ b) & (a ^ r)) >> 31 == 1; }
            r as u64
        }
    }
    fn fail(&mut self, m: String) { if self.bad.is_none() { self.bad = Some(m); } }
    #[inline(always)]
    fn watch(&mut self, a: u64, len: u64, write: bool, base: u8) {
        if base == 31 && self.sp & 15 != 0 { self.fail(format!("stack pointer {:#x} not aligned at an access", self.sp)); }
        if a >= self.stack.0 && a < self.stack.1 {
            if a < self.sp { self.fail(format!("access below the stack pointer by {}", self.sp - a)); }
            if a + len > self.stack.1 - FRAME { self.fail("access to the caller's frame".into()); }
            return;
        }
        if write && !self.ok.iter().any(|(l, h)| a >= *l && a.wrapping_add(len) <= *h && a.wrapping_add(len) > a) {
            self.fail(format!("write of {len} bytes at {a:#x}, outside of the machine, its memory ({:x?}) and the stack", self.ok));
        }
    }
    #[inline(always)]
    unsafe fn load(&mut self, a: u64, size: u8, sx: u8, base: u8) -> u64 {
        self.watch(a, 1 << size, false, base);
        if self.bad.is_some() { return 0; }
        let p = a as *const u8;
        let v = match size { 0 => *p as u64, 1 => (p as *const u16).read_unaligned() as u64, 2 => (p as *const u32).read_unaligned() as u64, _ => (p as *const u64).read_unaligned() };
        match sx { 0 => v, 32 => sxt(v, 8 << size) as u32 as u64, _ => sxt(v, 8 << size) }
    }
    #[inline(always)]
    unsafe fn store(&mut self, a: u64, v: u64, size: u8, base: u8) {
        self.watch(a, 1 << size, true, base);
        if self.bad.is_some() { return; }
        let p = a as *mut u8;
        match size { 0 => *p = v as u8, 1 => (p as *mut u16).write_unaligned(v as u16), 2 => (p as *mut u32).write_unaligned(v as u32), _ => (p as *mut u64).write_unaligned(v) }
    }
}

const FRAME: u64 = 256;
const CANARY: u8 = 0xa7;
const LR: u64 = 0x5eed_0000_0000_1e7c;

fn shifted(v: u64, sh: u8, amt: u8, sf: bool) -> u64 {
    let a = amt as u32;
    if sf {
        match sh { 0 => v << a, 1 => v >> a, 2 => (v as i64 >> a) as u64, _ => v.rotate_right(a) }
    } else {
        let v = v as u32;
        (match sh { 0 => v << a, 1 => v >> a, 2 => (v as i32 >> a) as u32, _ => v.rotate_right(a) }) as u64
    }
}
fn extended(v: u64, o: u8, amt: u8) -> u64 {
    let v = match o { 0 => v as u8 as u64, 1 => v as u16 as u64, 2 => v as u32 as u64, 3 | 7 => v, 4 => v as i8 as u64, 5 => v as i16 as u64, _ => v as i32 as u64 };
    v << amt
}

/// Executes from word `at` until the code returns to its caller.
unsafe fn run(c: &mut Cpu, at: usize, machine: *mut AsmCoreMachine) -> Result<u64, String> {
    let code = code();
    let base = &mon_arm_text as *const u8 as u64;
    let mut pc = at;
    let mut count = 0u64;
    macro_rules! jump { ($off:expr) => {{ pc = (pc as i64 + ($off as i64 >> 2)) as usize; continue; }}; }
    macro_rules! goto { ($t:expr) => {{
        let t: u64 = $t;
        if t == LR { return Ok(count); }
        let o = t.wrapping_sub(base);
        if o & 3 != 0 || o >= (ARM_WORDS * 4) as u64 { return Err(format!("jump to {t:#x}, outside of the engine's code")); }
        pc = (o >> 2) as usize;
        continue;
    }}; }
    loop {
        if pc >= ARM_WORDS { return Err("execution leaves the engine's code".into()); }
        let i = &code[pc];
        count += 1;
        let w = &SEEN[pc / 64];
        let bit = 1u64 << (pc % 64);
        if w.load(Ordering::Relaxed) & bit == 0 { w.fetch_or(bit, Ordering::Relaxed); }
        let sf = i.sf;
        match i.k {
            K::Mem => {
                let b = c.get_sp(i.rn, true);
                let (a, wb) = match i.ix {
                    Ix::Off => (b.wrapping_add(i.imm), None),
                    Ix::Pre => { let a = b.wrapping_add(i.imm); (a, Some(a)) }
                    Ix::Post => (b, Some(b.wrapping_add(i.imm))),
                    Ix::Reg => (b.wrapping_add(extended(c.x[i.rm as usize], i.sh, i.amt)), None),
                };
                if let Some(n) = wb { if i.ix == Ix::Pre { if i.rn == 31 { c.sp = n } else { c.x[i.rn as usize] = n } } }
                if i.s { let v = c.x[i.rd as usize]; c.store(a, v, i.size, i.rn); } else { let v = c.load(a, i.size, i.sx, i.rn); c.set(i.rd, v, true); }
                if let Some(n) = wb { if i.ix == Ix::Post { if i.rn == 31 { c.sp = n } else { c.x[i.rn as usize] = n } } }
                if let Some(m) = &c.bad { return Err(format!("{m} (code offset {:#x})", pc * 4)); }
            }
            K::Pair => {
                let b = c.get_sp(i.rn, true);
                let a = if i.ix == Ix::Post { b } else { b.wrapping_add(i.imm) };
                let n = b.wrapping_add(i.imm);
                let step = 1u64 << i.size;
                let (v1, v2) = (c.x[i.rd as usize], c.x[i.ra as usize]);
                if i.ix == Ix::Pre { if i.rn == 31 { c.sp = n } else { c.x[i.rn as usize] = n } }
                if i.s {
                    c.store(a, v1, i.size, i.rn);
                    c.store(a.wrapping_add(step), v2, i.size, i.rn);
                } else {
                    let l1 = c.load(a, i.size, i.sx, i.rn);
                    let l2 = c.load(a.wrapping_add(step), i.size, i.sx, i.rn);
                    c.set(i.rd, l1, true);
                    c.set(i.ra, l2, true);
                }
                if i.ix == Ix::Post { if i.rn == 31 { c.sp = n } else { c.x[i.rn as usize] = n } }
                if let Some(m) = &c.bad { return Err(format!("{m} (code offset {:#x})", pc * 4)); }
            }
            K::Ubfm => {
                let n = if sf { 64 } else { 32 };
                let v = c.get(i.rn, sf);
                let (r, s) = (i.sh as u32, i.amt as u32);
                let o = if s >= r { v >> r & ones(s - r + 1) } else { (v & ones(s + 1)) << (n - r) };
                c.set(i.rd, o, sf);
            }
            K::Sbfm => {
                let n = if sf { 64 } else { 32 };
                let v = c.get(i.rn, sf);
                let (r, s) = (i.sh as u32, i.amt as u32);
                let o = if s >= r { sxt(v >> r & ones(s - r + 1), s - r + 1) } else { sxt(v & ones(s + 1), s + 1) << (n - r) };
                c.set(i.rd, o, sf);
            }
            K::Bfm => {
                let n = if sf { 64 } else { 32 };
                let v = c.get(i.rn, sf);
                let d = c.get(i.rd, sf);
                let (r, s) = (i.sh as u32, i.amt as u32);
                let o = if s >= r { let m = ones(s - r + 1); d & !m | v >> r & m } else { let m = ones(s + 1) << (n - r); d & !m | (v & ones(s + 1)) << (n - r) };
                c.set(i.rd, o, sf);
            }
            K::LogReg => {
                let mut m = shifted(c.get(i.rm, sf), i.sh, i.amt, sf);
                if i.op & 1 == 1 { m = !m; }
                let a = c.get(i.rn, sf);
                let mut r = match i.op >> 1 { 0 | 3 => a & m, 1 => a | m, _ => a ^ m };
                if !sf { r &= 0xffff_ffff; }
                if i.op >> 1 == 3 { c.n = r >> (if sf { 63 } else { 31 }) & 1 == 1; c.z = r == 0; c.c = false; c.v = false; }
                c.set(i.rd, r, sf);
            }
            K::AddReg | K::AddExt => {
                let (a, mut m) = if i.k == K::AddReg { (c.get(i.rn, sf), shifted(c.get(i.rm, sf), i.sh, i.amt, sf)) } else { (c.get_sp(i.rn, sf), extended(c.x[i.rm as usize], i.sh, i.amt)) };
                if i.op == 1 { m = !m; }
                let r = c.add(a, m, i.op == 1, sf, i.s);
                if i.k == K::AddExt && !i.s && i.rd == 31 { c.sp = r; } else { c.set(i.rd, r, sf); }
            }
            K::AddImm => {
                let a = c.get_sp(i.rn, sf);
                let m = if i.op == 1 { !i.imm } else { i.imm };
                let r = c.add(a, m, i.op == 1, sf, i.s);
                if !i.s && i.rd == 31 { c.sp = r; } else { c.set(i.rd, r, sf); }
            }
            K::LogImm => {
                let a = c.get(i.rn, sf);
                let r = match i.op { 0 | 3 => a & i.imm, 1 => a | i.imm, _ => a ^ i.imm };
                if i.op == 3 { c.n = r >> (if sf { 63 } else { 31 }) & 1 == 1; c.z = r == 0; c.c = false; c.v = false; c.set(i.rd, r, sf); }
                else if i.rd == 31 { c.sp = r; } else { c.set(i.rd, r, sf); }
            }
            K::Br => goto!(c.x[i.rn as usize]),
            K::Ret => goto!(c.x[i.rn as usize]),
            K::Blr => { let t = c.x[i.rn as usize]; c.x[30] = base + (pc as u64 + 1) * 4; goto!(t) }
            K::B => jump!(i.imm),
            K::Bl => { c.x[30] = base + (pc as u64 + 1) * 4; jump!(i.imm) }
            K::Bcond => if cond(c, i.op) { jump!(i.imm) },
            K::Cbz => if c.get(i.rd, sf) == 0 { jump!(i.imm) },
            K::Cbnz => if c.get(i.rd, sf) != 0 { jump!(i.imm) },
            K::Tbz => if c.x[i.rd as usize] >> i.amt & 1 == 0 { jump!(i.imm) },
            K::Tbnz => if c.x[i.rd as usize] >> i.amt & 1 == 1 { jump!(i.imm) },
            K::Csel => {
                let r = if cond(c, i.ra) { c.get(i.rn, sf) } else { let m = c.get(i.rm, sf); match i.op { 0 => m, 1 => m.wrapping_add(1), 2 => !m, _ => m.wrapping_neg() } };
                c.set(i.rd, r, sf);
            }
            K::CCmp => {
                if cond(c, i.ra) {
                    let m = if i.s { i.rm as u64 } else { c.get(i.rm, sf) };
                    let a = c.get(i.rn, sf);
                    if i.op == 1 { c.add(a, !m, true, sf, true); } else { c.add(a, m, false, sf, true); }
                } else { c.n = i.imm >> 3 & 1 == 1; c.z = i.imm >> 2 & 1 == 1; c.c = i.imm >> 1 & 1 == 1; c.v = i.imm & 1 == 1; }
            }
            K::Adc => {
                let (a, m) = (c.get(i.rn, sf), c.get(i.rm, sf));
                let cin = c.c;
                let r = c.add(a, if i.op == 1 { !m } else { m }, cin, sf, i.s);
                c.set(i.rd, r, sf);
            }
            K::Movz => c.set(i.rd, i.imm << i.sh, sf),
            K::Movn => c.set(i.rd, !(i.imm << i.sh), sf),
            K::Movk => { let v = c.get(i.rd, sf); c.set(i.rd, v & !(0xffff << i.sh) | i.imm << i.sh, sf) }
            K::Extr => {
                let (h, l) = (c.get(i.rn, sf), c.get(i.rm, sf));
                let a = i.amt as u32;
                let r = if sf { ((h as u128) << 64 | l as u128) >> a } else { (h << 32 | l) as u128 >> a };
                c.set(i.rd, r as u64, sf);
            }
            K::Adr => {
                let here = base + pc as u64 * 4;
                let v = if i.op == 1 { (here & !0xfff).wrapping_add(i.imm) } else { here.wrapping_add(i.imm) };
                c.set(i.rd, v, true);
            }
            K::LdLit => { let a = (base + pc as u64 * 4).wrapping_add(i.imm); let v = c.load(a, i.size, i.sx, 0); c.set(i.rd, v, true); }
            K::Rbit => { let v = c.get(i.rn, sf); c.set(i.rd, if sf { v.reverse_bits() } else { (v as u32).reverse_bits() as u64 }, sf) }
            K::Rev16 => { let v = c.get(i.rn, sf); c.set(i.rd, (v & 0x00ff_00ff_00ff_00ff) << 8 | v >> 8 & 0x00ff_00ff_00ff_00ff, sf) }
            K::Rev32 => { let v = c.get(i.rn, sf); c.set(i.rd, ((v as u32).swap_bytes() as u64) | ((v >> 32) as u32).swap_bytes() as u64 * (1 << 32), sf) }
            K::Rev64 => { let v = c.get(i.rn, true); c.set(i.rd, v.swap_bytes(), true) }
            K::Clz => { let v = c.get(i.rn, sf); c.set(i.rd, if sf { v.leading_zeros() } else { (v as u32).leading_zeros() } as u64, sf) }
            K::Cls => { let v = c.get(i.rn, sf); let v = if sf { v } else { sxt(v, 32) }; let n = ((v ^ (v as i64 >> 63) as u64).leading_zeros() - 1) as u64; c.set(i.rd, if sf { n } else { n - 32 }, sf) }
            K::Udiv => { let (a, b) = (c.get(i.rn, sf), c.get(i.rm, sf)); c.set(i.rd, if b == 0 { 0 } else { a / b }, sf) }
            K::Sdiv => {
                let (a, b) = (c.get(i.rn, sf), c.get(i.rm, sf));
                let (a, b) = if sf { (a as i64, b as i64) } else { (a as i32 as i64, b as i32 as i64) };
                c.set(i.rd, if b == 0 { 0 } else { a.wrapping_div(b) as u64 }, sf)
            }
            K::Lslv | K::Lsrv | K::Asrv | K::Rorv => {
                let a = (c.x[i.rm as usize] & if sf { 63 } else { 31 }) as u8;
                let r = shifted(c.get(i.rn, sf), match i.k { K::Lslv => 0, K::Lsrv => 1, K::Asrv => 2, _ => 3 }, a, sf);
                c.set(i.rd, r, sf);
            }
            K::Madd => { let r = c.x[i.ra as usize].wrapping_add(c.x[i.rn as usize].wrapping_mul(c.x[i.rm as usize])); c.set(i.rd, r, sf) }
            K::Msub => { let r = c.x[i.ra as usize].wrapping_sub(c.x[i.rn as usize].wrapping_mul(c.x[i.rm as usize])); c.set(i.rd, r, sf) }
            K::Smaddl | K::Smsubl => {
                let p = (c.x[i.rn as usize] as i32 as i64).wrapping_mul(c.x[i.rm as usize] as i32 as i64) as u64;
                let a = c.x[i.ra as usize];
                c.set(i.rd, if i.k == K::Smaddl { a.wrapping_add(p) } else { a.wrapping_sub(p) }, true)
            }
            K::Umaddl | K::Umsubl => {
                let p = (c.x[i.rn as usize] as u32 as u64).wrapping_mul(c.x[i.rm as usize] as u32 as u64);
                let a = c.x[i.ra as usize];
                c.set(i.rd, if i.k == K::Umaddl { a.wrapping_add(p) } else { a.wrapping_sub(p) }, true)
            }
            K::Smulh => { let r = (c.x[i.rn as usize] as i64 as i128 * c.x[i.rm as usize] as i64 as i128) >> 64; c.set(i.rd, r as u64, true) }
            K::Umulh => { let r = (c.x[i.rn as usize] as u128 * c.x[i.rm as usize] as u128) >> 64; c.set(i.rd, r as u64, true) }
            K::Nop => {}
            K::Host => {
                // bl inited_memory
                if i.imm != ARM_HOST_INIT { return Err(format!("call of an unknown function at {:#x}", pc * 4)); }
                if c.sp & 15 != 0 { return Err("stack pointer not aligned at a call".into()); }
                if c.x[1] != machine as u64 { return Err(format!("inited_memory called with machine {:#x} instead of {:#x} (code offset {:#x})", c.x[1], machine as u64, pc * 4)); }
                if c.x[0] >= (*machine).frames_size { return Err(format!("inited_memory called for frame {} of {}", c.x[0], (*machine).frames_size)); }
                INITS.fetch_add(1, Ordering::Relaxed);
                inited_memory(c.x[0], &mut *machine);
                // what a callee may overwrite, it overwrites
                for k in 0..=17u64 { c.x[k as usize] = 0xdead_0000_c0de_0000 | k << 8; }
                c.x[30] = base + (pc as u64 + 1) * 4;
                c.n = !c.n; c.z = !c.z; c.c = !c.c; c.v = !c.v;
                let low = c.stack.0;
                let s = std::slice::from_raw_parts_mut(c.sp.saturating_sub(512).max(low) as *mut u8, 512.min((c.sp - low) as usize));
                s.fill(0xdd);
            }
            K::Udf => return Err(format!("undefined instruction at code offset {:#x}", pc * 4)),
            K::Bad => { eprintln!("HARNESS: no semantics for the instruction at code offset {:#x}", pc * 4); std::process::exit(70); }
        }
        pc += 1;
    }
}

fn description(m: &AsmCoreMachine) -> [u64; 10] {
    [m.memory_ptr, m.flags_ptr, m.frames_ptr, m.memory_size, m.flags_size, m.frames_size, m.isa as u64, m.version as u64, m.max_cycles, m.chaos_mode as u64]
}

thread_local! { static STACKS: std::cell::RefCell<Vec<Box<Stack>>> = const { std::cell::RefCell::new(Vec::new()) }; }

#[no_mangle]
unsafe extern "C" fn __wrap_ckb_vm_x64_execute(m: *mut AsmCoreMachine, d: *const InvokeData) -> c_uchar {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let before = description(&*m);
    let mut st = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| Box::new(Stack([CANARY; STACK])));
    let lo = st.0.as_mut_ptr() as u64;
    let hi = lo + STACK as u64;
    let mut c = Cpu {
        x: [0; 32], sp: hi - FRAME, n: true, z: false, c: true, v: true,
        ok: [(m as u64, m as u64 + std::mem::size_of::<AsmCoreMachine>() as u64), ((*m).memory_ptr, (*m).memory_ptr + (*m).memory_size),
             ((*m).flags_ptr, (*m).flags_ptr + (*m).flags_size), ((*m).frames_ptr, (*m).frames_ptr + (*m).frames_size)],
        stack: (lo, hi), bad: None,
    };
    for k in 0..31u64 { c.x[k as usize] = 0x0bad_5eed_0000_0000 | k << 4 | 0x8; }
    c.x[0] = m as u64;
    c.x[1] = d as u64;
    c.x[30] = LR;
    let saved = c.x;
    let r = run(&mut c, ARM_ENTRY / 4, m);
    match r {
        Err(e) => crate::galloc::die(&format!("HOST-STATE: 64-bit ARM engine: {e}")),
        Ok(n) => { INSTS.fetch_add(n, Ordering::Relaxed); }
    }
    if c.sp != hi - FRAME { crate::galloc::die("HOST-STATE: the 64-bit ARM engine returned with a changed stack pointer"); }
    for k in 18..=29 {
        if c.x[k] != saved[k] { crate::galloc::die(&format!("HOST-STATE: the 64-bit ARM engine returned with a changed x{k}")); }
    }
    if st.0[STACK - FRAME as usize..].iter().any(|b| *b != CANARY) { crate::galloc::die("HOST-STATE: the 64-bit ARM engine changed its caller's frame"); }
    let after = description(&*m);
    if before != after { crate::galloc::die(&format!("HOST-STATE: the 64-bit ARM engine changed its machine's description: {before:x?} became {after:x?}")); }
    STACKS.with(|s| s.borrow_mut().push(st));
    c.x[0] as c_uchar
}

#[cfg(feature = "armtest")]
mod armtest { include!(concat!(env!("OUT_DIR"), "/armtest.rs")); pub fn all() -> Vec<(&'static str, unsafe extern "C" fn(u64, u64, u64, u64) -> u64)> { natives() } }

/// The functions of tools/armtest/t.c, on the interpreter and on this host.
#[cfg(feature = "armtest")]
pub fn selftest() {
    let mut rng = crate::rng::Rng::new(1);
    for (name, f) in armtest::all() {
        let at = ARM_TESTS.iter().find(|x| x.0 == name).unwrap().1;
        for _ in 0..100_000 {
            let v = [rng.value(), rng.value(), rng.value(), rng.value()];
            let want = unsafe { f(v[0], v[1], v[2], v[3]) };
            let got = unsafe { call(at, &v) };
            assert!(got == Ok(want), "{name}({v:x?}): interpreter {got:x?}, host {want:x}");
        }
        println!("{name}: 100000 calls agree");
    }
    let mut kinds: Vec<String> = code().iter().enumerate().filter(|(i, _)| SEEN[i / 64].load(Ordering::Relaxed) >> (i % 64) & 1 == 1).map(|(_, i)| format!("{:?}", i.k)).collect();
    kinds.sort();
    kinds.dedup();
    println!("executed: {}; interpreted kinds: {}", SEEN.iter().map(|w| w.load(Ordering::Relaxed).count_ones()).sum::<u32>(), kinds.join(" "));
}

/// Calls a function of other ARM code with the same interpreter: used once to validate it.
#[cfg(feature = "armtest")]
pub unsafe fn call(at: usize, args: &[u64]) -> Result<u64, String> {
    let mut st = Box::new(Stack([CANARY; STACK]));
    let lo = st.0.as_mut_ptr() as u64;
    let hi = lo + STACK as u64;
    let mut c = Cpu { x: [0; 32], sp: hi - FRAME, n: true, z: false, c: true, v: true, ok: [(0, 1); 4], stack: (lo, hi), bad: None };
    for k in 0..31u64 { c.x[k as usize] = 0x0bad_5eed_0000_0000 | k << 4 | 0x8; }
    for (i, a) in args.iter().enumerate() { c.x[i] = *a; }
    c.x[30] = LR;
    run(&mut c, at / 4, std::ptr::null_mut())?;
    Ok(c.x[0])
}
