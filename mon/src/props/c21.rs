//! Versions.
use super::*;
use crate::common::*;
use crate::enc::*;
use crate::ensure;
use crate::eng::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use ckb_vm::{Bytes, Error};

pub fn parts() -> Vec<Part> { vec![("corners", 6, corners), ("programs", 3, programs), ("layout", 3, layouts), ("high", 3, high), ("refusal", 1, refusal), ("encodings", 1, super::c03::sixteen), ("structured", 1, super::c03::structured), ("semantics", 2, super::c02::batch)] }

/// one image under the three versions
fn versions_of(rng: &mut Rng, xlen: u32, isa: u8, f: impl Fn(&mut Asm, &mut Rng, u64), mem: usize) -> Vec<Setup> {
    let cost = costs(rng);
    let seed = rng.next();
    (0..3u32).map(|version| {
        let mut r = Rng::new(seed);
        let mut a = Asm::new(xlen == 64);
        f(&mut a, &mut r, mem as u64);
        let blob = a.assemble(0x10000);
        let segs = vec![Seg { vaddr: 0x10000, memsz: blob.bytes.len() as u64, data: blob.bytes, flags: PF_R | PF_X }, Seg { vaddr: 0x4000, data: vec![7; 100], memsz: 4096, flags: PF_R | PF_W }];
        let elf = Bytes::from(build_elf(xlen == 64, 0x10000, &segs));
        let isa = if version == 0 { isa & !ISA_MOP } else { isa };
        Setup { cfg: Cfg { isa, version, mem, max_cycles: u64::MAX, costs: cost, keep_decoder: r.chance(1, 2), chaos: None }, xlen, img: Image { elf, segs, entry: 0x10000, args: vec![] }, images: vec![], accept_seed: seed, nhandlers: 1, has_debugger: false, cycle_blind: false }
    }).collect()
}
fn tail(a: &mut Asm, r: u8) { a.i(Op::ADDI, 10, r, 0, 0); a.i(Op::ADDI, 17, 0, 0, 93); a.ecall(); }

/// the corners in which the versions differ, each judged for every version by the reference and by
/// what the documentation of the versions says
fn corners(ctx: &mut Ctx, rng: &mut Rng) -> V {
    use Op::*;
    let xlen = crate::eng::xlen(rng, 4);
    let mem = memory(rng);
    let isa = if rng.chance(1, 2) { ISA_B | ISA_A } else { 0 } | if rng.chance(1, 2) { ISA_MOP } else { 0 };
    let which = rng.below(4);
    let ld = *rng.pick(if xlen == 64 { &[LB, LH, LW, LD, LBU, LHU, LWU][..] } else { &[LB, LH, LW, LBU, LHU][..] });
    let w: u64 = match ld { LB | LBU => 1, LH | LHU => 2, LW | LWU => 4, _ => 8 };
    let near = rng.range(-10, 3);
    let hint = *rng.pick(&[0x0001u16 | 4, 0x4001, 0x4005, 0x6001 | 1 << 2, 0x0002 | 1 << 2, 0x8002 | 3 << 2, 0x9002 | 3 << 2, 0x6005, 0x1002, 0x0002]);
    let jr = *rng.pick(&[1u8, 5, 6, 10, 30]);
    let setups = versions_of(rng, xlen, isa, |a, r, mem| match which {
        0 => {
            // the last bytes of memory
            let addr = (mem as i64 - w as i64 + near) as u64;
            let off = r.range(-20, 20);
            a.li(11, addr.wrapping_sub(off as u64));
            a.i(ld, 12, 11, 0, off);
            tail(a, 12);
        }
        1 => {
            // jalr that overwrites its own base
            let l = a.label();
            let end = a.label();
            a.la(jr, l);
            let d = *r.pick(&[0i64, 4, 8]);
            a.i(ADDI, jr, jr, 0, -d);
            a.i(JALR, jr, jr, 0, d);
            a.i(ADDI, 12, 0, 0, 1);
            a.i(ADDI, 13, 0, 0, 2);
            a.i(ADDI, 14, 0, 0, 4);
            a.i(ADDI, 15, 0, 0, 8);
            a.jal(0, end);
            a.bind(l);
            a.i(ADDI, 12, 12, 0, 33);
            a.bind(end);
            a.i(ADD, 12, 12, jr, 0);
            a.i(ADD, 12, 12, 13, 0);
            tail(a, 12);
        }
        2 => { a.li(12, 5); a.raw(&hint.to_le_bytes()); a.i(ADDI, 12, 12, 0, 1); tail(a, 12); }
        _ => {
            // a writable segment: still writable by the guest, frozen or not
            a.li(11, 0x4000);
            a.i(SB, 0, 11, 11, 5);
            a.i(LB, 12, 11, 0, 5);
            tail(a, 12);
        }
    }, mem);
    for s in &setups {
        let v = s.cfg.version;
        compare(ctx, s, s.kinds(), Judge { fail_kind: true, ..ALL }).map_err(|x| format!("version {v}: {x}"))?;
        // said once more without the reference machine
        for k in s.kinds() {
            let (mut e, _) = s.engine(*k);
            e.load_program(&s.img.elf, &[]).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
            let r = e.run();
            match which {
                0 => {
                    let addr = (mem as i64 - w as i64 + near) as u64;
                    let inside = if v == 0 { addr + w < mem as u64 } else { addr + w <= mem as u64 };
                    ensure!(r.is_ok() == inside, "version {v} {k:?}: a load of {w} bytes at {addr:#x} with {mem:#x} bytes of memory gives {r:?}");
                }
                2 => {
                    let hint_refused = v == 0 && !matches!(hint, 0x1002 | 0x0002) || hint == 0x0002 && v == 0 || hint == 0x1002 && v == 0;
                    if matches!(decode_c(hint, xlen, 0), Dec::Illegal) && matches!(decode_c(hint, xlen, 1), Dec::Ok(_)) {
                        ensure!(r.is_ok() == (v > 0), "version {v} {k:?}: hint {hint:#06x} gives {r:?}");
                        if v == 0 { ensure!(matches!(r, Err(Error::InvalidInstruction { .. })), "version 0 {k:?}: hint {hint:#06x} gives {r:?}"); }
                        ctx.count("hints-told-apart");
                    }
                    let _ = hint_refused;
                }
                3 => {
                    let f = e.flag(4).map_err(|x| format!("{x:?}"))?;
                    ensure!((f & FREEZED != 0) == (v == 0), "version {v} {k:?}: flags of a writable segment are {f:#x}");
                    let again = e.init_pages(0x4000, 0x1000, 0, None, 0);
                    ensure!(again.is_err() == (v == 0), "version {v} {k:?}: a writable segment initialised again gives {again:?}");
                }
                _ => {}
            }
        }
        ctx.seen(mix(&[which, v as u64, xlen as u64, w, near as u64, hint as u64 * (which == 2) as u64, jr as u64 * (which == 1) as u64]));
    }
    Ok(())
}

fn programs(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let version = rng.below(3) as u32;
    let (mut isa, _) = isa_version(rng);
    if version == 0 { isa &= !ISA_MOP; }
    let s = match setup_with(rng, xlen, isa, version, |g, r| { g.faults = r.chance(1, 3); g.fuse_bias = version > 0 && r.chance(2, 3); g.mem_bias = r.chance(1, 2); }) { Some(s) => s, None => return Ok(()) };
    compare(ctx, &s, s.kinds(), Judge { fail_kind: true, ..ALL }).map_err(|x| format!("version {version}: {x}"))
}

/// argument layout per version
fn layouts(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 3);
    let w = xlen as u64 / 8;
    let n = rng.us(6);
    let args: Vec<Bytes> = (0..n).map(|_| { let l = rng.us(30); Bytes::from(rng.bytes(l)) }).collect();
    for s in versions_of(rng, xlen, 0, |a, _, _| tail(a, 0), 1 << 19) {
        let v = s.cfg.version;
        for k in s.kinds() {
            let (mut e, _) = s.engine(*k);
            e.load_program(&s.img.elf, &args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
            let sp = e.reg(2);
            let top = 1u64 << 19;
            let strings: u64 = args.iter().map(|a| a.len() as u64 + 1).sum();
            let want = match (v, n) { (0, _) => top - strings - w * (n as u64 + 1), (_, 0) => (top - w) & !15, _ => (top - strings - w * (n as u64 + 2)) & !15 };
            ensure!(sp == want, "version {v} {k:?}: stack pointer {sp:#x}, expected {want:#x}");
            if v == 0 && w == 8 {
                // only the low half of each slot is written
                for i in 0..=n as u64 { let hi = e.load_w(4, sp + 8 * i + 4).map_err(|x| format!("{x:?}"))?; ensure!(hi == 0, "version 0 {k:?}: upper half of slot {i} is {hi:#x}"); }
            }
            let f = e.flag((top - 1) / PAGE).map_err(|x| format!("{x:?}"))?;
            ensure!((f & DIRTY != 0) == (v == 0 || n > 0), "version {v} {k:?} with {n} arguments: flags of the stack page are {f:#x}");
            ctx.count("layouts");
        }
        ctx.seen(mix(&[v as u64, n as u64, xlen as u64, args.iter().map(|a| a.len() as u64).sum::<u64>(), 8]));
    }
    Ok(())
}

/// fusion belongs to versions 1 and 2
fn refusal(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xl = crate::eng::xlen(rng, 4);
    for mut s in versions_of(rng, xl, ISA_B | ISA_A, |a, _, _| tail(a, 0), 1 << 18) {
        let v = s.cfg.version;
        s.cfg.isa |= ISA_MOP;
        for k in s.kinds() {
            for keep in [false, true] {
                s.cfg.keep_decoder = keep;
                let (mut e, _) = s.engine(*k);
                e.load_program(&s.img.elf, &[]).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
                let r = e.run();
                if v == 0 { ensure!(matches!(r, Err(Error::InvalidVersion)), "version 0 {k:?} with fusion enabled ends with {r:?}"); ensure!(e.pc() == 0x10000 && e.cycles() == 0, "version 0 {k:?} with fusion enabled executed something"); }
                else { ensure!(matches!(r, Ok(0)), "version {v} {k:?} with fusion enabled ends with {r:?}"); }
                ctx.count("fusion-gates");
            }
        }
        ctx.seen(mix(&[v as u64, 11, s.xlen as u64]));
    }
    Ok(())
}

/// version 2 above 4 GiB: code at addresses equal in their low 32 bits, calling each other
fn high(ctx: &mut Ctx, rng: &mut Rng) -> V {
    use Op::*;
    if ctx.variant != "plain" { return Ok(()); }
    const G4: u64 = 1 << 32;
    let mem = (G4 + (2 << 18)) as usize;
    let isa = if rng.chance(1, 2) { ISA_B } else { 0 } | if rng.chance(1, 2) { ISA_MOP } else { 0 };
    let lo_base = 0x10000u64 + PAGE * rng.below(4);
    let hi_base = G4 + if rng.chance(2, 3) { lo_base } else { PAGE * rng.below(20) };
    // both images have the same shape and different constants, so that blocks start at equal low addresses
    let shape = rng.next();
    let calls = 2 + rng.us(5);
    let build = |hi: bool, other: &[u64], base: u64| -> (Blob, Vec<usize>) {
        let mut r = Rng::new(shape);
        let mut a = Asm::new(true);
        let mut ls = vec![];
        for c in 0..calls {
            let l = a.label();
            a.bind(l);
            ls.push(l);
            for _ in 0..r.below(4) { let d = *r.pick(&[12u8, 13, 14]); let v = r.range(-1000, 1000); a.i(ADDI, d, d, 0, if hi { v ^ 5 } else { v }); }
            // visit the counterpart, return here
            let skip = a.label();
            a.br(BEQ, 20, 0, skip);
            a.i(ADDI, 20, 20, 0, -1);
            let t = other.get(c).copied().unwrap_or(base);
            a.i(ADDI, 21, 1, 0, 0);
            // target built without touching other registers: lui/addi/slli are all of fixed length here
            a.i(LUI, 6, 0, 0, ((t & 0xffff_f000) as i64) << 32 >> 32);
            a.i(SLLI, 6, 6, 0, 32);
            a.i(SRLI, 6, 6, 0, 32);
            a.i(ADDI, 7, 0, 0, (t >> 32) as i64);
            a.i(SLLI, 7, 7, 0, 32);
            a.i(ADD, 6, 6, 7, 0);
            let d = (t & 0xfff) as i64;
            a.i(ADDI, 7, 0, 0, d >> 1);
            a.i(ADD, 6, 6, 7, 0);
            a.i(ADD, 6, 6, 7, 0);
            a.i(ADDI, 6, 6, 0, d & 1);
            let kind = r.below(2);
            if kind == 0 { a.i(JALR, 1, 6, 0, 0); } else { a.i(JALR, 0, 6, 0, 0); }
            a.bind(skip);
            a.i(ADDI, 12, 12, 0, if hi { 3 } else { 1 });
            for _ in 0..r.below(3) { a.i(XORI, 13, 13, 0, 77); }
        }
        a.i(XOR, 10, 12, 13, 0);
        a.i(ADDI, 17, 0, 0, 93);
        a.ecall();
        let b = a.assemble(base);
        (b, ls)
    };
    let (b0, l0) = build(false, &[], lo_base);
    let lo_targets: Vec<u64> = l0.iter().map(|l| b0.labels[*l]).collect();
    let (bh, lh) = build(true, &lo_targets, hi_base);
    let hi_targets: Vec<u64> = lh.iter().map(|l| bh.labels[*l]).collect();
    let (bl, _) = build(false, &hi_targets, lo_base);
    if bl.labels != b0.labels { ctx.count("harness:layout-moved"); return Ok(()); }
    let segs = vec![
        Seg { vaddr: lo_base, memsz: bl.bytes.len() as u64, data: bl.bytes, flags: PF_R | PF_X },
        Seg { vaddr: hi_base, memsz: bh.bytes.len() as u64, data: bh.bytes, flags: PF_R | PF_X },
    ];
    let entry = if rng.chance(1, 2) { lo_targets[0] } else { hi_targets[0] };
    let elf = Bytes::from(build_elf(true, entry, &segs));
    let cfg = Cfg { isa, version: 2, mem, max_cycles: 1_000_000, costs: Costs::One, keep_decoder: rng.chance(1, 2), chaos: None };
    let s = Setup { cfg, xlen: 64, img: Image { elf: elf.clone(), segs, entry, args: vec![] }, images: vec![], accept_seed: 0, nhandlers: 0, has_debugger: false, cycle_blind: false };
    let (mut m, _) = s.reference();
    m.load(&s.img).map_err(|_| "model refuses to load".to_string())?;
    m.vm.x[20] = 1 + rng.below(12);
    let visits = m.vm.x[20];
    let stop = m.run(5000);
    let kinds: &[Kind] = &[Kind::AsmSimple, Kind::AsmMemoFixed, Kind::AsmMemoDyn, Kind::TraceSparse, Kind::InterpSparse];
    for k in [*rng.pick(&kinds[..3]), *rng.pick(&kinds[3..])] {
        let (mut e, _) = s.engine(k);
        e.load_program(&elf, &[]).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        e.set_reg(20, visits);
        let r = e.run();
        match &stop {
            RStop::Exit(c) => {
                ensure!(matches!(r, Ok(d) if d == *c), "{k:?} with code at {lo_base:#x} and {hi_base:#x} ends with {r:?}, expected {stop:?}");
                cmp_regs(&*e, &m).map_err(|x| format!("{k:?} with code at {lo_base:#x} and {hi_base:#x}: {x}"))?;
                ensure!(e.cycles() == m.cycles, "{k:?} with code at {lo_base:#x} and {hi_base:#x}: cycles {}, expected {}", e.cycles(), m.cycles);
                ctx.count("runs-above-4-GiB");
            }
            RStop::Unknown(_) => { ctx.count("skipped:budget"); }
            _ => ensure!(!matches!(r, Ok(_)), "{k:?} with code at {lo_base:#x} and {hi_base:#x} ends with {r:?}, expected {stop:?}"),
        }
        ctx.seen(mix(&[k as u64, visits, lo_base, hi_base, m.insts]));
    }
    Ok(())
}
