//! Arguments.
use super::*;
use crate::refmach::Costs;
use crate::common::*;
use crate::enc::*;
use crate::ensure;
use crate::eng::*;
use crate::host::*;
use crate::refiss::*;
use crate::rng::mix;
use ckb_vm::Bytes;

pub fn parts() -> Vec<Part> { vec![("stacks", 5, stacks), ("regions", 2, regions)] }

fn arg_list(rng: &mut Rng, stack: u64, w: u64, version: u32) -> Vec<Bytes> {
    let style = rng.below(10);
    let n = match style { 0 => 0, 1 => 1, 2 => 1 + rng.us(200), _ => 1 + rng.us(12) };
    let mut v: Vec<Bytes> = (0..n).map(|_| {
        let l = match rng.below(6) { 0 => 0, 1 => rng.us(3), 2 => rng.us(17), 3 => rng.us(300), 4 => 4096 - rng.us(3), _ => rng.us(40) };
        let mut b = rng.bytes(l);
        if rng.chance(1, 4) { for x in b.iter_mut() { if rng.chance(1, 3) { *x = 0; } } }
        Bytes::from(b)
    }).collect();
    // around the point where it no longer fits
    if style >= 7 && stack < 1 << 20 {
        let words = v.len() as u64 + if version == 0 { 2 } else { 3 };
        let used: u64 = v.iter().map(|a| a.len() as u64 + 1).sum();
        let room = stack as i64 - used as i64 - (words * w) as i64 - 1;
        let l = room + rng.range(-40, 40);
        if l >= 0 { let k = rng.us(v.len() + 1); let mut b = vec![0x41u8; l as usize]; if l > 0 { b[0] = 0x42; let e = l as usize - 1; b[e] = 0x43; } v.insert(k, Bytes::from(b)); }
    } else if style == 6 && stack < 1 << 20 && rng.chance(1, 3) {
        // very many empty ones
        let k = (stack / (w + 1)) as i64 + rng.range(-6, 3);
        v = vec![Bytes::new(); k.max(0) as usize];
    }
    v
}

fn fits(args: &[Bytes], start: u64, size: u64, w: u64, version: u32) -> bool {
    let top = (start + size) as i128;
    if version >= 1 && args.is_empty() { return true; }
    let strings: i128 = args.iter().map(|a| a.len() as i128 + 1).sum();
    let sp = if version >= 1 { (top - strings - w as i128 * (args.len() as i128 + 2)) & !15 } else { top - strings - w as i128 * (args.len() as i128 + 1) };
    sp >= start as i128
}

/// what the stack has to look like, read back from the machine
fn audit(e: &mut dyn Eng, args: &[Bytes], start: u64, size: u64, w: u64, version: u32) -> V {
    let sp = e.reg(2);
    let top = start + size;
    let rd = |e: &mut dyn Eng, a: u64, n: u64| e.load_bytes(a, n).map_err(|x| format!("cannot read {n} bytes at {a:#x}: {x:?}"));
    let word = |e: &mut dyn Eng, a: u64, n: u64| -> Result<u64, String> { let b = rd(e, a, n)?; Ok(b.iter().rev().fold(0, |v, x| v << 8 | *x as u64)) };
    ensure!(sp >= start && sp < top, "stack pointer {sp:#x} outside of {start:#x}..{top:#x}");
    if version >= 1 { ensure!(sp % 16 == 0, "stack pointer {sp:#x} is not aligned"); }
    let pw = if version >= 1 { w } else { 4 };
    if version >= 1 && args.is_empty() {
        ensure!(word(e, sp, w)? == 0, "argc is not zero");
        return Ok(());
    }
    let argc = word(e, sp, pw)?;
    ensure!(argc == args.len() as u64, "argc is {argc}, expected {}", args.len());
    let table_end = sp + w * (args.len() as u64 + 1 + (version >= 1) as u64);
    ensure!(table_end <= top, "argument table {sp:#x}..{table_end:#x} leaves the stack");
    for (i, a) in args.iter().enumerate() {
        let p = word(e, sp + w * (i as u64 + 1), pw)?;
        ensure!(p >= table_end && p + a.len() as u64 + 1 <= top, "argument {i} at {p:#x} is not between the table end {table_end:#x} and the stack end {top:#x}");
        let b = rd(e, p, a.len() as u64 + 1)?;
        ensure!(b[..a.len()] == a[..], "argument {i} at {p:#x} reads {}, expected {}", hex(&b[..a.len().min(40)]), hex(&a[..a.len().min(40)]));
        ensure!(b[a.len()] == 0, "argument {i} at {p:#x} is not terminated");
    }
    if version >= 1 { ensure!(word(e, sp + w * (args.len() as u64 + 1), w)? == 0, "argv is not terminated by a null pointer"); }
    else {
        // version 0: strings straight below the top, one after the other, 32-bit words in register-sized slots
        let mut at = top;
        for (i, a) in args.iter().enumerate() { at -= a.len() as u64 + 1; let p = word(e, sp + w * (i as u64 + 1), 4)?; ensure!(p == at, "version 0 argument {i} at {p:#x}, expected {at:#x}"); }
        ensure!(sp == at - w * (args.len() as u64 + 1), "version 0 stack pointer {sp:#x}, expected {:#x}", at - w * (args.len() as u64 + 1));
    }
    Ok(())
}

/// nothing outside [lo, hi) differs from what was there
fn outside(e: &mut dyn Eng, before: &[u8], lo: u64, hi: u64) -> V {
    let n = before.len() as u64;
    for (a, z) in [(0, lo), (hi, n)] {
        if z <= a { continue; }
        let b = e.load_bytes(a, z - a).map_err(|x| format!("load_bytes fails: {x:?}"))?;
        if b[..] != before[a as usize..z as usize] { let k = (0..b.len()).find(|k| b[*k] != before[a as usize + k]).unwrap(); return Err(format!("byte {:#x} outside the stack was written", a + k as u64)); }
    }
    Ok(())
}

/// the whole loading path
fn stacks(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 4);
    let version = *rng.pick(&[0u32, 1, 2, 2]);
    let big = rng.chance(1, 60);
    // the interpreters take any number of pages
    let odd = !big && rng.chance(1, 6);
    let mem = if big { *rng.pick(&[6u64 << 20, 8 << 20, 16 << 20]) } else if odd { 0x20000 + PAGE * rng.below(300) } else { memory(rng) as u64 };
    let w = xlen as u64 / 8;
    let (start, size) = (mem - mem / 4, mem / 4);
    let mut args = arg_list(rng, size, w, version);
    if big { for _ in 0..1 + rng.us(3) { let n = rng.us((size / 2) as usize); args.push(Bytes::from(rng.bytes(n))); } }
    let data = 0x2000 + PAGE * rng.below(3);
    let db = rng.bytes(5000);
    let mut segs = vec![Seg { vaddr: 0x10000, data: vec![0x13; 64], memsz: 64, flags: PF_R | PF_X }, Seg { vaddr: data, data: db, memsz: 6000, flags: PF_R | PF_W }];
    // a segment of the image where the stack goes
    let clash = match rng.below(8) { _ if odd => None, 0 => Some(PF_R), 1 => Some(PF_R | PF_W), 2 => Some(PF_R | PF_X), _ => None };
    let at = start + PAGE * rng.below(size / PAGE - 1);
    if let Some(f) = clash { segs.push(Seg { vaddr: at, data: rng.bytes(3000), memsz: 3000, flags: f }); }
    let elf = Bytes::from(build_elf(xlen == 64, 0x10000, &segs));
    let cfg = Cfg { isa: 0, version, mem: mem as usize, max_cycles: u64::MAX, costs: Costs::One, keep_decoder: false, chaos: None };
    let s = Setup { cfg, xlen, img: Image { elf: elf.clone(), segs: segs.clone(), entry: 0x10000, args: args.clone() }, images: vec![], accept_seed: 0, nhandlers: 0, has_debugger: false, cycle_blind: false };
    let mut before = vec![0u8; mem as usize];
    for g in &segs { before[g.vaddr as usize..g.vaddr as usize + g.data.len()].copy_from_slice(&g.data); }
    let elf_bytes: u64 = segs.iter().map(|g| g.data.len() as u64).sum();
    let ok = fits(&args, start, size, w, version);
    for k in s.kinds() {
        if odd && k.is_asm() { continue; }
        let (mut e, _) = s.engine(*k);
        let r = e.load_program(&elf, &args);
        let what = format!("{k:?} version {version}: {} arguments of {} bytes in all", args.len(), args.iter().map(|a| a.len()).sum::<usize>());
        if clash == Some(PF_R | PF_X) && (version == 0 || !args.is_empty()) {
            // whether the arguments reach the executable page decides
            if let Ok(_) = r { ensure!(ok, "{what} are accepted"); audit(&mut *e, &args, start, size, w, version).map_err(|x| format!("{what}: {x}"))?; { let sp = e_sp(&*e); outside(&mut *e, &before, sp, mem)? }; }
            ctx.count("executable-page-in-the-stack");
            continue;
        }
        if !ok { ensure!(r.is_err(), "{what} do not fit and are accepted: {r:?}"); ctx.count("refused"); continue; }
        let b = r.map_err(|x| format!("{what} fit and are refused: {x:?}"))?;
        if !(version >= 1 && args.is_empty() && clash.is_some()) { audit(&mut *e, &args, start, size, w, version).map_err(|x| format!("{what}: {x}"))?; }
        let sp = e.reg(2);
        let touched = if version >= 1 && args.is_empty() { mem } else { sp };
        outside(&mut *e, &before, touched, mem).map_err(|x| format!("{what}: {x}"))?;
        ensure!(b == elf_bytes + (mem - sp), "{what}: {b} bytes reported, expected {} and {}", elf_bytes, mem - sp);
        for r in (0..32).filter(|r| *r != 2) { ensure!(e.reg(r) == 0, "{what}: x{r} is {:#x} after loading", e.reg(r)); }
        ensure!(e.pc() == 0x10000, "{what}: pc {:#x}", e.pc());
        ctx.count("stacks-audited");
        ctx.add("arguments-read-back", args.len() as u64);
    }
    ctx.seen(mix(&[args.len() as u64, args.iter().map(|a| a.len() as u64).sum::<u64>(), version as u64, xlen as u64, ok as u64]));
    if ctx.samples.len() < 2 { ctx.sample(serde_json::json!({"arguments": args.iter().map(|a| a.len()).take(20).collect::<Vec<_>>(), "version": version, "xlen": xlen, "fits": ok})); }
    Ok(())
}
fn e_sp(e: &dyn Eng) -> u64 { e.reg(2) }

/// stack regions chosen by the host
fn regions(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 4);
    let version = *rng.pick(&[0u32, 1, 2, 2]);
    let odd = rng.chance(1, 6);
    let mem = if odd { PAGE * (8 + rng.below(300)) } else { memory(rng) as u64 };
    let w = xlen as u64 / 8;
    let size = match rng.below(4) { 0 => rng.below(200) + 32, 1 => 16 * (2 + rng.below(100)), 2 => PAGE * (1 + rng.below(4)), _ => 32 + rng.below(mem / 2) };
    let start = match rng.below(4) { 0 => 0, 1 => mem - size, 2 => (mem - size) & !15, _ => rng.below(mem - size) };
    // a region that can hold an aligned word at all
    let args = arg_list(rng, size, w, version);
    let cfg = Cfg { isa: 0, version, mem: mem as usize, max_cycles: u64::MAX, costs: Costs::One, keep_decoder: false, chaos: None };
    let s = Setup { cfg, xlen, img: Image { elf: Bytes::new(), segs: vec![], entry: 0, args: vec![] }, images: vec![], accept_seed: 0, nhandlers: 0, has_debugger: false, cycle_blind: false };
    let ok = fits(&args, start, size, w, version);
    let fill = rng.chance(1, 2) && !(version >= 1 && args.is_empty());
    let before = vec![if fill { 0xeeu8 } else { 0 }; mem as usize];
    let ks = s.kinds();
    for k in [*rng.pick(ks), *rng.pick(ks)] {
        if odd && k.is_asm() { continue; }
        let (mut e, _) = s.engine(k);
        if fill { e.fill(0, mem, 0xee).map_err(|x| format!("fill fails: {x:?}"))?; }
        let r = e.init_stack(&args, start, size);
        let what = format!("{k:?} version {version} stack {start:#x}+{size:#x}: {} arguments of {} bytes in all", args.len(), args.iter().map(|a| a.len()).sum::<usize>());
        if !ok { ensure!(r.is_err(), "{what} do not fit and are accepted: {r:?}"); ctx.count("refused"); continue; }
        let b = r.map_err(|x| format!("{what} fit and are refused: {x:?}"))?;
        audit(&mut *e, &args, start, size, w, version).map_err(|x| format!("{what}: {x}"))?;
        let sp = e.reg(2);
        outside(&mut *e, &before, if version >= 1 && args.is_empty() { mem } else { sp }, (start + size).min(mem)).map_err(|x| format!("{what}: {x}"))?;
        ensure!(b == start + size - sp, "{what}: {b} bytes reported, expected {}", start + size - sp);
        if version == 0 && w == 8 {
            // 32-bit words in 64-bit slots: the upper halves are not written
            for i in 0..args.len() as u64 + 1 {
                let h = e.load_bytes(sp + 8 * i + 4, 4).map_err(|x| format!("load_bytes fails: {x:?}"))?;
                ensure!(h[..] == before[..4], "{what}: the upper half of slot {i} of the table was written: {}", hex(&h));
            }
        }
        ctx.count("stacks-audited");
    }
    ctx.seen(mix(&[args.len() as u64, size, start, version as u64, xlen as u64]));
    Ok(())
}
