//! Fusion on against fusion off, on every engine, and fused costs against the model.
use super::*;
use crate::common::*;
use crate::enc::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use ckb_vm::Bytes;

pub fn parts() -> Vec<Part> { vec![("programs", 4, programs), ("groups", 6, groups), ("boundary", 1, boundary), ("sbb-finding", 1, sbb_finding)] }

/// fused run, plain run and model must tell the same story
pub fn fused_vs_plain(ctx: &mut Ctx, s: &Setup, plain_too: bool) -> V {
    let (mut m, mst) = s.reference();
    if m.load(&s.img).is_err() { return Ok(()); }
    let stop = m.run(BUDGET);
    if let RStop::Unknown(w) = stop { ctx.count(&format!("skipped:{w}")); return Ok(()); }
    if m.high_pc && s.cfg.version < 2 { return Ok(()); }
    let want = class_ref(&stop);
    ctx.add("fused-groups", m.fused_seen);
    ctx.seen(signature(&m, mix(&[s.cfg.version as u64, s.xlen as u64, m.fused_seen.min(64)])));
    if !matches!(want, Class::Exit(_)) { ctx.count("failing-program"); return Ok(()); }
    let mut off = s.clone();
    off.cfg.isa &= !ISA_MOP;
    for k in s.kinds() {
        let (mut e, est) = s.engine(*k);
        e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        let r = e.run();
        ensure!(class_of(&r) == want, "{k:?} with fusion ends with {r:?}, expected {stop:?}");
        cmp_end(&mut *e, &est, &m, &mst, ALL).map_err(|x| format!("{k:?} with fusion: {x}"))?;
        if plain_too {
            let (mut p, pst) = off.engine(*k);
            p.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
            let q = p.run();
            ensure!(class_of(&q) == class_of(&r), "{k:?} ends with {q:?} without and {r:?} with fusion");
            cmp_log(&est, &pst, false).map_err(|x| format!("{k:?}, fusion on against off: {x}"))?;
            for i in 0..32 { ensure!(e.reg(i) == p.reg(i), "{k:?}: x{i}={:#x} with and {:#x} without fusion", e.reg(i), p.reg(i)); }
            ensure!(e.pc() == p.pc(), "{k:?}: pc {:#x} with and {:#x} without fusion", e.pc(), p.pc());
            let n = e.mem_size() as u64;
            ensure!(e.load_bytes(0, n).ok() == p.load_bytes(0, n).ok(), "{k:?}: memory differs with and without fusion");
        }
        ctx.count("engine-runs");
    }
    if ctx.samples.is_empty() { let d = s.describe(); ctx.sample(serde_json::json!({"setup": d, "fused": m.fused_seen})); }
    Ok(())
}

fn mop(rng: &mut Rng) -> (u8, u32) {
    let mut isa = ISA_MOP;
    if rng.chance(2, 3) { isa |= ISA_B; }
    if rng.chance(1, 2) { isa |= ISA_A; }
    (isa, if rng.chance(1, 4) { 1 } else { 2 })
}

fn programs(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 8);
    let (isa, version) = mop(rng);
    let s = match setup_with(rng, xlen, isa, version, |g, _| g.fuse_bias = true) { Some(s) => s, None => return Ok(()) };
    let s = Setup { cycle_blind: true, ..s };
    // version 1 far jumps with another scratch register differ by design; the model knows how
    fused_vs_plain(ctx, &s, version >= 2)
}

fn setup(rng: &mut Rng, xlen: u32, isa: u8, version: u32, code: Vec<u8>, base: u64, entry: u64, mem: usize) -> Setup {
    let len = code.len() as u64;
    let segs = vec![Seg { vaddr: base, memsz: len, data: code, flags: PF_R | PF_X }];
    let img = Image { elf: Bytes::from(build_elf(xlen == 64, entry, &segs)), segs, entry, args: vec![] };
    let cfg = Cfg { isa, version, mem, max_cycles: u64::MAX, costs: costs(rng), keep_decoder: rng.chance(1, 2), chaos: None };
    Setup { cfg, xlen, img, images: vec![], accept_seed: rng.next(), nhandlers: 1, has_debugger: true, cycle_blind: true }
}

/// Many groups with fresh operands, all registers observed after each.
fn groups(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 8);
    let (isa, version) = mop(rng);
    let base = 0x10000u64;
    let g = G::new(xlen, isa, version, 1 << 19);
    let mut vals: Vec<u64> = vec![];
    let code = {
        let mut b = Builder::new(rng, g, base, base + 0x20000, 0x30000);
        for _ in 0..30 {
            let mut v = b.group();
            // further single-field mutations
            if b.rng.chance(1, 4) {
                let k = b.rng.us(v.len());
                let regs: Vec<u8> = v.iter().flat_map(|i| [i.rd, i.rs1, i.rs2]).collect();
                let q = if b.rng.chance(1, 6) { 1 } else { *b.rng.pick(&regs) };
                match b.rng.below(3) { 0 => v[k].rd = q, 1 => if !matches!(v[k].op, Op::LUI | Op::AUIPC) { v[k].rs1 = q }, _ => if matches!(crate::props::c03::fmt(v[k].op), crate::props::c03::Fmt::R) { v[k].rs2 = q } }
                if b.rng.chance(1, 4) && v.len() > 1 { let j = b.rng.us(v.len()); v.swap(k, j); }
            }
            if sbb_mismatch(&v) { continue; }
            let mut used: Vec<u8> = v.iter().flat_map(|i| [i.rd, i.rs1, i.rs2]).filter(|r| *r != 0).collect();
            used.sort_unstable();
            used.dedup();
            // entered at its head or at any later part
            let skip = if b.rng.chance(1, 4) { b.rng.us(v.len()) } else { 0 };
            let mut prev = b.rng.value();
            for r in used {
                let x = crate::props::c02::operand(b.rng, prev);
                prev = x;
                vals.push(x);
                b.a.li(r, x);
            }
            if skip > 0 { let l = b.a.label(); b.a.jal(0, l); for i in &v[..skip] { b.a.inst(*i, false); } b.a.bind(l); }
            let c = b.rng.chance(1, 3);
            for i in &v[skip..] { b.a.inst(*i, c); }
            if b.rng.chance(1, 8) { b.a.i(Op::ADD, 10, 11, 12, 0); }
            b.a.i(Op::EBREAK, 0, 0, 0, 0);
        }
        b.a.exit(5);
        b.a.assemble(base).bytes
    };
    let s = setup(rng, xlen, isa, version, code, base, base, 1 << 18);
    ctx.add("groups-generated", 30);
    fused_vs_plain(ctx, &s, version >= 2)
}

/// Groups cut by the end of a page, of the executable area, or of memory.
fn boundary(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = 64;
    let (isa, version) = mop(rng);
    let g = G::new(xlen, isa, version, 1 << 18);
    let mem = 1u64 << 18;
    let last = rng.chance(1, 2);
    let base = if last { mem - 2 * PAGE } else { 0x10000 };
    let v = { let mut b = Builder::new(rng, g, base, base + 0x2000, 0x30000); b.group() };
    // the group starts so that only `keep` of its parts fit before the end
    let keep = 1 + rng.us(v.len());
    let end = 2 * PAGE;
    let mut a = Asm::new(true);
    for r in [6u8, 7, 10, 11, 12, 13, 14, 15] { let x = rng.value(); a.li(r, x); }
    let here = a.label();
    a.items.push(Item::PadTo(13, end - 4 * keep as u64 - 16));
    // leave through an exit placed before the end: the last parts are only reached by a jump
    a.jal(0, here);
    a.raw(&[0; 12]);
    for i in &v[..keep] { a.inst(*i, false); }
    let mut blob = a.assemble(base);
    let _ = here;
    if blob.bytes.len() as u64 != end { return Ok(()); }
    // replace the jump by an exit sequence start: fall through to the group is what we want
    let jump_at = (end - 4 * keep as u64 - 16) as usize;
    for k in 0..4 { blob.bytes[jump_at + 4 * k..jump_at + 4 * k + 4].copy_from_slice(&0x13u32.to_le_bytes()); }
    let s = setup(rng, xlen, isa, version, blob.bytes, base, base, mem as usize);
    // running off the end fails; everything up to there must have happened, on every engine, or the
    // engine must have failed while decoding ahead. Only interpreters promise the former.
    let (mut m, mst) = s.reference();
    if m.load(&s.img).is_err() { return Ok(()); }
    let stop = m.run(BUDGET);
    if matches!(stop, RStop::Unknown(_) | RStop::Exit(_)) { ctx.count("boundary-other"); return Ok(()); }
    for k in s.kinds() {
        let (mut e, est) = s.engine(*k);
        e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        let r = e.run();
        ensure!(r.is_err(), "{k:?} survives running off the end: {r:?}, expected {stop:?}");
        let _ = (&est, &mst);
        ctx.count("boundary-runs");
    }
    ctx.seen(mix(&[77, keep as u64, last as u64, v.len() as u64, v[0].op as u64]));
    Ok(())
}

/// The recorded finding: a sequence whose second part compares with an unrelated register is still
/// taken for subtract-with-borrow.
fn sbb_finding(ctx: &mut Ctx, rng: &mut Rng) -> V {
    use Op::*;
    let base = 0x10000u64;
    let version = if rng.chance(1, 3) { 1 } else { 2 };
    let (a, b, c, e) = (10u8, 11u8, 12u8, 13u8);
    let other = *rng.pick(&[14u8, 15, 12, 0]);
    let mut p = Asm::new(true);
    let mut regs = [0u64; 32];
    for r in 10..16u8 { regs[r as usize] = rng.value(); p.li(r, regs[r as usize]); }
    let seq = [inst(SUB, b, a, b, 0), inst(SLTU, e, a, other, 0), inst(SUB, a, b, c, 0), inst(SLTU, c, b, a, 0), inst(OR, b, c, e, 0)];
    for i in seq { p.inst(i, false); }
    p.i(EBREAK, 0, 0, 0, 0);
    p.exit(1);
    let s = setup(rng, 64, ISA_MOP, version, p.assemble(base).bytes, base, base, 1 << 18);
    let mut off = s.clone();
    off.cfg.isa = 0;
    let (mut m, mst) = off.reference();
    m.load(&off.img).unwrap();
    let stop = m.run(BUDGET);
    for k in s.kinds() {
        let (mut en, est) = s.engine(*k);
        en.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{x:?}"))?;
        let r = en.run();
        ensure!(class_of(&r) == class_ref(&stop), "{k:?} ends with {r:?}");
        if let Err(x) = cmp_log(&est, &mst, false).and_then(|_| cmp_regs(&*en, &m)) {
            // exactly the recorded failure: what the true sbb group computes instead
            let mut t = RefVm::new(64, 0, version, 4096);
            t.x = regs;
            for (k, i) in seq.iter().enumerate() { let i = if k == 1 { Inst { rs2: b, ..*i } } else { *i }; let _ = t.exec(&i); }
            let as_sbb = { let l = est.lock().unwrap(); let v = l.log.iter().find(|e| e.kind == EvKind::Ebreak).map(|e| e.regs); v.map_or(false, |r| (10..16).all(|k| r[k] == t.x[k])) };
            let msg = format!("{k:?}: `sub x11,x10,x11; sltu x13,x10,x{other}; ...` is fused as sbb: {x}");
            if as_sbb { ctx.finding("sbb-second-operand", msg)?; } else { return Err(msg); }
            ctx.count("sbb-mismatch-fused");
        }
    }
    ctx.seen(mix(&[78, other as u64, version as u64]));
    Ok(())
}
