//! Taking decoded instructions apart, putting them together, printing them and reading the text back.
use super::c03::{fmt, Fmt};
use super::*;
use crate::common::ends_block;
use crate::enc::*;
use crate::ensure;
use crate::gen::*;
use crate::refiss::*;
use crate::refmach::{canon_name, vm_name};
use crate::rng::mix;
use ckb_vm::decoder::{build_decoder, InstDecoder};
use ckb_vm::instructions::tagged::TaggedInstruction;
use ckb_vm::instructions::*;
use ckb_vm::{FlatMemory, Memory, WXorXMemory};
use std::convert::TryFrom;

pub fn parts() -> Vec<Part> { vec![("decoded", 4, decoded), ("fused", 3, fused), ("built", 3, built)] }

const ABI: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6",
];

/// the text read back: name without version suffix, and the operands in printed order
#[derive(Debug, PartialEq, Clone)]
enum Arg { R(usize), N(i64) }
fn read(text: &str) -> Result<(String, Vec<Arg>), String> {
    let (name, rest) = match text.split_once(' ') { Some(x) => x, None => (text, "") };
    let mut v = vec![];
    for t in rest.split(|c: char| c == ',' || c == '(' || c == ')' || c == ' ').filter(|t| !t.is_empty()) {
        // s0 has a second standard name
        let t = if t == "fp" { "s0" } else { t };
        if let Some(r) = ABI.iter().position(|n| *n == t) { v.push(Arg::R(r)); }
        else { v.push(Arg::N(t.parse::<i64>().map_err(|_| format!("operand {t:?} of {text:?} is neither a register nor a number"))?)); }
    }
    Ok((canon_name(&name.to_uppercase()), v))
}
fn text(i: u64) -> Result<(TaggedInstruction, String), String> {
    let t = TaggedInstruction::try_from(i).map_err(|e| format!("{} has no tagged form: {e:?}", vm_name(extract_opcode(i))))?;
    let s = format!("{t}");
    let back: u64 = t.clone().into();
    ensure!(back == i, "tagging {i:#018x} and converting back gives {back:#018x}");
    Ok((t, s))
}

fn dec_one(isa: u8, version: u32, xlen: u32, code: &[u8]) -> Option<u64> {
    let mut m: WXorXMemory<FlatMemory<u64>> = WXorXMemory::new(FlatMemory::new_with_memory(4 * 4096));
    m.init_pages(0x1000, 0x1000, EXEC, Some(ckb_vm::Bytes::from(code.to_vec())), 0).ok()?;
    if xlen == 64 { build_decoder::<u64>(isa, version).decode(&mut m, 0x1000).ok() } else { build_decoder::<u32>(isa, version).decode(&mut m, 0x1000).ok() }
}

fn decoded(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let version = rng.below(3) as u32;
    let isa = rng.below(4) as u8 & (ISA_B | ISA_A);
    let xlen = if rng.chance(1, 4) { 32 } else { 64 };
    let mut code = vec![];
    let mut want = vec![];
    while want.len() < 400 {
        let w = if rng.chance(1, 3) { let h = rng.next() as u32 & 0xffff; if h & 3 == 3 { continue } else { h } } else { encode(&inst(*rng.pick(ALL_OPS), rng.below(32) as u8, rng.below(32) as u8, rng.below(32) as u8, rng.value() as i64)) };
        if let Dec::Ok(i) = decode(w, xlen, isa, version) {
            if code.len() + 4 > 4000 { break; }
            want.push((code.len() as u64, i));
            code.extend_from_slice(&w.to_le_bytes()[..i.len as usize]);
        }
    }
    let mut m: WXorXMemory<FlatMemory<u64>> = WXorXMemory::new(FlatMemory::new_with_memory(4 * 4096));
    m.init_pages(0x1000, 0x1000, EXEC, Some(ckb_vm::Bytes::from(code)), 0).unwrap();
    let mut d = if xlen == 64 { build_decoder::<u64>(isa, version) } else { build_decoder::<u32>(isa, version) };
    for (at, w) in want {
        let got = d.decode(&mut m, 0x1000 + at).map_err(|e| format!("{w:?} refused: {e:?}"))?;
        let (t, s) = text(got)?;
        let (name, args) = read(&s)?;
        ensure!(name == format!("{:?}", w.op), "{w:?} is printed as {s:?}");
        use Op::*;
        let (rd, rs1, rs2, n) = (Arg::R(w.rd as usize), Arg::R(w.rs1 as usize), Arg::R(w.rs2 as usize), Arg::N(w.imm));
        let ok = match fmt(w.op) {
            Fmt::R => args == [rd, rs1, rs2],
            Fmt::Unary => args.len() >= 2 && args[..2] == [rd, rs1],
            Fmt::I => args == [rd, n, rs1],
            Fmt::S if matches!(w.op, SB | SH | SW | SD) => args == [rs2, n, rs1],
            Fmt::S => args == [rs1, rs2, n],
            Fmt::U => args == [rd, n],
            Fmt::None => true,
        };
        ensure!(ok, "{w:?} is printed as {s:?}");
        let kind = match (&t, fmt(w.op)) {
            (TaggedInstruction::Rtype(_), Fmt::R | Fmt::Unary | Fmt::None) | (TaggedInstruction::Itype(_), Fmt::I) | (TaggedInstruction::Stype(_), Fmt::S) | (TaggedInstruction::Utype(_), Fmt::U) => true,
            _ => false,
        };
        ensure!(kind, "{w:?} is tagged as {t:?}");
        ensure!(instruction_length(got) == w.len, "{w:?} has length {}", instruction_length(got));
        // what redirects control or leaves to the host has to end a block
        if ends_block(w.op) && !matches!(w.op, AUIPC | FENCE) || is_slowpath_instruction(got) { ensure!(is_basic_block_end_instruction(got), "{w:?} does not end a block"); }
        ctx.add("instructions-printed", 1);
        ctx.seen(mix(&[w.op as u64, w.len as u64, version as u64 * 4 + isa as u64, w.imm.min(3) as u64]));
        if ctx.samples.len() < 6 && rng.chance(1, 100) { ctx.sample(serde_json::json!({"instruction": format!("{w:?}"), "text": s})); }
    }
    Ok(())
}

/// the operand bytes of the internal form, by its documented layout
fn operands(i: u64) -> [usize; 5] { [1, 4, 5, 6, 7].map(|k| (i >> (8 * k)) as u8 as usize) }

fn fused(ctx: &mut Ctx, rng: &mut Rng) -> V {
    for _ in 0..60 {
        let version = 1 + rng.below(2) as u32;
        let mut g = G::new(64, ISA_MOP | ISA_B | ISA_A, version, 1 << 18);
        g.fuse_bias = true;
        let v = { let mut b = Builder::new(rng, g, 0x10000, 0x20000, 0x20000); b.group() };
        let mut code: Vec<u8> = v.iter().flat_map(|i| encode(i).to_le_bytes()).collect();
        code.extend_from_slice(&encode(&inst(Op::ADDI, 0, 0, 0, 0)).to_le_bytes());
        let i = match dec_one(ISA_MOP | ISA_B | ISA_A, version, 64, &code) { Some(i) => i, None => continue };
        let name = vm_name(extract_opcode(i));
        if instruction_length(i) <= 4 { ctx.add("not-fused", 1); continue; }
        let (_, s) = text(i)?;
        let (n, args) = read(&s)?;
        ensure!(n == name, "{name} is printed as {s:?}");
        let o = operands(i);
        let k = match name.as_str() { "ADC" => 3, "ADD3A" | "ADD3B" | "ADD3C" => 5, "FAR_JUMP_REL" | "FAR_JUMP_ABS" | "CUSTOM_LOAD_IMM" | "CUSTOM_LOAD_UIMM" => 1, _ => 4 };
        let mut want: Vec<Arg> = o[..k].iter().map(|r| Arg::R(*r)).collect();
        if k == 1 { want.push(Arg::N((i >> 32) as i32 as i64)); }
        ensure!(args == want, "{name} with operands {o:?} is printed as {s:?}");
        // every register the group names is named in the text
        if k > 1 {
            let named = |r: u8| args.contains(&Arg::R(r as usize));
            ensure!(v[..instruction_length(i) as usize / 4].iter().all(|x| r#use(x).iter().all(|r| named(*r) || *r == 0)), "{name} printed as {s:?} does not name every register of {v:?}");
        }
        ctx.add("groups-printed", 1);
        ctx.count(&format!("group:{name}"));
        ctx.seen(mix(&[extract_opcode(i) as u64, instruction_length(i) as u64, version as u64]));
    }
    Ok(())
}
fn r#use(i: &Inst) -> Vec<u8> {
    match fmt(i.op) { Fmt::R => vec![i.rd, i.rs1, i.rs2], Fmt::Unary | Fmt::I => vec![i.rd, i.rs1], Fmt::U => vec![i.rd], Fmt::S => vec![i.rs1, i.rs2], Fmt::None => vec![] }
}

/// any operation, register and immediate put into the internal form
fn built(ctx: &mut Ctx, rng: &mut Rng) -> V {
    for _ in 0..300 {
        let op = rng.below((insts::MAXIMUM_OPCODE + 1) as u64) as u16;
        let op = if rng.chance(1, 10) { rng.below(16) as u16 | (rng.below(256) as u16) << 8 } else { op };
        let r: Vec<usize> = (0..5).map(|_| rng.us(32)).collect();
        let imm = rng.value() as i32;
        let len = 2 * rng.below(16) as u8;
        let with_len = |i: u64| match (len, rng_bit(i)) { (2, true) => set_instruction_length_2(i), (4, true) => set_instruction_length_4(i), _ => set_instruction_length_n(i, len) };
        let checks: [(&str, u64, bool); 8] = {
            let a = Rtype(with_len(Rtype::new(op, r[0], r[1], r[2]).0));
            let i24 = imm << 8 >> 8;
            let b = Itype(with_len(Itype::new_s(op, r[0], r[1], i24).0));
            let c = Stype(with_len(Stype::new_s(op, i24, r[1], r[2]).0));
            let d = Utype(with_len(Utype::new_s(op, r[0], imm).0));
            let e = R4type(with_len(R4type::new(op, r[0], r[1], r[2], r[3]).0));
            let f = R5type(with_len(R5type::new(op, r[0], r[1], r[2], r[3], r[4]).0));
            let g = Itype(with_len(Itype::new_u(op, r[0], r[1], i24 as u32 & 0x7f_ffff).0));
            let h = Utype(with_len(Utype::new(op, r[0], imm as u32).0));
            [
                ("R", a.0, (a.op(), a.rd(), a.rs1(), a.rs2()) == (op, r[0], r[1], r[2])),
                ("I", b.0, (b.op(), b.rd(), b.rs1(), b.immediate_s(), b.immediate_u()) == (op, r[0], r[1], i24, i24 as u32)),
                ("S", c.0, (c.op(), c.rs1(), c.rs2(), c.immediate_s(), c.immediate_u()) == (op, r[1], r[2], i24, i24 as u32)),
                ("U", d.0, (d.op(), d.rd(), d.immediate_s(), d.immediate_u()) == (op, r[0], imm, imm as u32)),
                ("R4", e.0, (e.op(), e.rd(), e.rs1(), e.rs2(), e.rs3()) == (op, r[0], r[1], r[2], r[3])),
                ("R5", f.0, (f.op(), f.rd(), f.rs1(), f.rs2(), f.rs3(), f.rs4()) == (op, r[0], r[1], r[2], r[3], r[4])),
                ("I unsigned", g.0, g.immediate_u() == i24 as u32 & 0x7f_ffff && g.rs1() == r[1] && g.rd() == r[0]),
                ("U unsigned", h.0, h.immediate_u() == imm as u32 && h.rd() == r[0]),
            ]
        };
        for (n, i, ok) in checks {
            ensure!(ok, "{n}-type built from operation {op:#x}, registers {r:?}, immediate {imm:#x} and length {len} comes apart differently: {i:#018x}");
            ensure!(extract_opcode(i) == op, "{n}-type: operation {op:#x} is extracted as {:#x}", extract_opcode(i));
            ensure!(instruction_length(i) == len, "{n}-type: length {len} reads as {}", instruction_length(i));
            ensure!(is_slowpath_instruction(i) == (op & 0xff < 0x10), "operation {op:#x}: slow path {}", is_slowpath_instruction(i));
            if let Ok(t) = TaggedInstruction::try_from(i) {
                let back: u64 = t.clone().into();
                ensure!(back == i, "tagging {i:#018x} and converting back gives {back:#018x}");
                // printed only in the format it was built in
                let tn = match &t { TaggedInstruction::Rtype(_) => "R", TaggedInstruction::Itype(_) => "I", TaggedInstruction::Stype(_) => "S", TaggedInstruction::Utype(_) => "U", TaggedInstruction::R4type(_) => "R4", TaggedInstruction::R5type(_) => "R5" };
                if n.split(' ').next() != Some(tn) { continue; }
                let s = format!("{t}");
                let (name, args) = read(&s)?;
                ensure!(name == vm_name(op), "operation {op:#x} is printed as {s:?}");
                ensure!((2..=5).contains(&args.len()), "operation {op:#x} is printed as {s:?}");
            } else {
                ensure!(instruction_opcode_name(op).contains("UNKNOWN") || op & 0xff < 0x10, "{} has no tagged form", instruction_opcode_name(op));
            }
            ctx.add("instructions-built", 1);
        }
        ensure!(blank_instruction(op) == (op as u64 & 0xff | (op as u64 >> 8) << 16), "blank instruction of {op:#x} is {:#x}", blank_instruction(op));
        ctx.seen(mix(&[op as u64, len as u64]));
    }
    // two operations never share a name
    let mut names = std::collections::HashMap::new();
    for op in insts::MINIMAL_OPCODE..=insts::MAXIMUM_OPCODE {
        let n = instruction_opcode_name(op);
        if n.contains("UNKNOWN") { continue; }
        if let Some(o) = names.insert(n, op) { return Err(format!("operations {o:#x} and {op:#x} are both called {n}")); }
    }
    ctx.count("name-tables-checked");
    Ok(())
}
fn rng_bit(i: u64) -> bool { i.count_ones() & 1 == 1 }
