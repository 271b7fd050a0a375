//! Chaos mode.
use super::*;
use crate::common::*;
use crate::ensure;
use crate::eng::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use ckb_vm::Bytes;

pub fn parts() -> Vec<Part> { vec![("programs", 6, programs), ("host", 4, host), ("seeds", 3, seeds), ("loaded", 2, loaded)] }
const ASM: &[Kind] = &[Kind::AsmSimple, Kind::AsmMemoFixed, Kind::AsmMemoDyn];

fn setup(rng: &mut Rng) -> Option<Setup> {
    let (isa, version) = isa_version(rng);
    let mut s = if rng.chance(1, 8) { super::c01::loader(rng, 64, isa, version, &[crate::host::CALL_LOG]) } else { setup_with(rng, 64, isa, version, |g, r| { g.mem_bias = r.chance(1, 2); g.amo_bias = r.chance(1, 5); g.long_loops = r.chance(1, 4); g.size = *r.pick(&[8, 20, 40]); })? };
    // without arguments argc is read from memory nobody wrote (the documented exception)
    if s.img.args.is_empty() { s.img.args.push(Bytes::from("x")); }
    s.cfg.chaos = Some(rng.u32());
    Some(s)
}

/// the reference with everything untouched set to `fill`
fn reference(s: &Setup, fill: u8) -> Result<(RefMachine, Shared, RStop), String> {
    let (mut m, st) = s.reference();
    m.vm.mem.written = Some(vec![false; m.vm.mem.bytes.len()]);
    for b in m.vm.mem.bytes.iter_mut() { *b = fill; }
    m.load(&s.img).map_err(|_| "model refuses to load".to_string())?;
    let r = m.run(BUDGET);
    Ok((m, st, r))
}

/// programs whose course does not depend on untouched bytes go on as without chaos mode
fn programs(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let s = match setup(rng) { Some(s) => s, None => return Ok(()) };
    let (m0, st0, r0) = reference(&s, 0)?;
    if matches!(r0, RStop::Unknown(_)) || (m0.high_pc && s.cfg.version < 2) { return Ok(()); }
    let same = !m0.vm.mem.read_fresh.get();
    for k in ASM {
        let (mut e, est) = s.engine(*k);
        e.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        let r = e.run();
        if same && matches!(r0, RStop::Exit(_)) {
            ensure!(class_of(&r) == class_ref(&r0), "{k:?} in chaos mode ends with {r:?}, expected {r0:?}");
            cmp_log(&est, &st0, true).map_err(|x| format!("{k:?} in chaos mode: {x}"))?;
            cmp_regs(&*e, &m0).map_err(|x| format!("{k:?} in chaos mode: {x}"))?;
            ensure!(e.cycles() == m0.cycles, "{k:?} in chaos mode: cycles {}, expected {}", e.cycles(), m0.cycles);
            let wr = m0.vm.mem.written.as_ref().unwrap();
            let b = e.load_bytes(0, s.cfg.mem as u64).map_err(|x| format!("load_bytes fails: {x:?}"))?;
            let mut written = 0u64;
            for i in 0..s.cfg.mem { let w = m0.vm.mem.bytes[i]; if wr[i] { written += 1; ensure!(b[i] == w, "{k:?} in chaos mode: written byte {i:#x} reads {:#x}, expected {w:#x}", b[i]); } }
            ctx.add("written-bytes-read-back", written);
            for p in 0..m0.vm.mem.flags.len() { if m0.vm.mem.dirty_known(p) { let f = e.flag(p as u64).unwrap_or(0xee); ensure!(f == m0.vm.mem.flags[p], "{k:?} in chaos mode: flags of page {p:#x} are {f:#x}, expected {:#x}", m0.vm.mem.flags[p]); } }
            ctx.count("programs-blind-to-untouched-memory");
        }
        // once more with the same seed
        let (mut f, fst) = s.engine(*k);
        f.load_program(&s.img.elf, &s.img.args).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        let q = f.run();
        twins(&mut *e, &est, &r, &mut *f, &fst, &q).map_err(|x| format!("{k:?} twice with chaos seed {:?}: {x}", s.cfg.chaos))?;
        ctx.count("pairs-of-runs");
    }
    ctx.seen(mix(&[signature(&m0, same as u64), s.cfg.chaos.unwrap() as u64]));
    if ctx.samples.len() < 2 { let d = s.describe(); ctx.sample(serde_json::json!({"setup": d, "independent_of_untouched_memory": same, "result": format!("{r0:?}")})); }
    Ok(())
}

fn twins(e: &mut dyn Eng, est: &Shared, r: &Result<i8, ckb_vm::Error>, f: &mut dyn Eng, fst: &Shared, q: &Result<i8, ckb_vm::Error>) -> V {
    ensure!(r == q, "{r:?} and {q:?}");
    for i in 0..32 { ensure!(e.reg(i) == f.reg(i), "x{i} is {:#x} and {:#x}", e.reg(i), f.reg(i)); }
    ensure!(e.pc() == f.pc() && e.cycles() == f.cycles(), "pc or cycles differ");
    ensure!(est.lock().unwrap().log_hash == fst.lock().unwrap().log_hash, "host events differ");
    let n = e.mem_size() as u64;
    let (a, b) = (e.load_bytes(0, n).map_err(|x| format!("{x:?}"))?, f.load_bytes(0, n).map_err(|x| format!("{x:?}"))?);
    if a != b { let i = (0..a.len()).find(|i| a[*i] != b[*i]).unwrap(); return Err(format!("byte {i:#x} is {:#x} and {:#x}", a[i], b[i])); }
    Ok(())
}

/// every way of writing, read back exactly, in any order with reads of untouched memory
fn host(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let mem = *rng.pick(&[1usize << 18, 1 << 19, 3 << 18, 1 << 20]);
    let seed = rng.u32();
    let cfg = Cfg { isa: 0, version: *rng.pick(&[0u32, 1, 2]), mem, max_cycles: u64::MAX, costs: Costs::One, keep_decoder: false, chaos: Some(seed) };
    let s = Setup { cfg, xlen: 64, img: Image { elf: Bytes::new(), segs: vec![], entry: 0, args: vec![] }, images: vec![], accept_seed: 0, nhandlers: 0, has_debugger: false, cycle_blind: false };
    let k = *rng.pick(ASM);
    let (mut e, _) = s.engine(k);
    let mut bytes = vec![0u8; mem];
    let mut known = vec![false; mem];
    // untouched bytes may not change between two looks
    let mut seen: std::collections::HashMap<usize, u8> = Default::default();
    let ms = mem as u64;
    for step in 0..60 {
        let at = match rng.below(6) { 0 => (1 << 18) * rng.below(ms >> 18) + rng.below(16), 1 => ((1 << 18) * (1 + rng.below(ms >> 18))).saturating_sub(1 + rng.below(40)), 2 => PAGE * rng.below(ms / PAGE), _ => rng.below(ms) };
        let n = match rng.below(5) { 0 => 1 + rng.below(8), 1 => PAGE, 2 => rng.below(3 * PAGE), 3 => 0x3e000 + rng.below(0x4000), _ => rng.below(100) };
        let n = n.min(ms - at);
        // whole frames
        let (at, n) = if rng.chance(1, 8) { let a = at & !((1 << 18) - 1); (a, (1 << 18) * (1 + rng.below((ms - a) >> 18))) } else { (at, n) };
        match rng.below(8) {
            0 | 1 => { let b = rng.bytes(n as usize); e.store_bytes(at, &b).map_err(|x| format!("store_bytes fails: {x:?}"))?; bytes[at as usize..(at + n) as usize].copy_from_slice(&b); known[at as usize..(at + n) as usize].fill(true); }
            2 => { let v = rng.next() as u8; e.fill(at, n, v).map_err(|x| format!("store_byte fails: {x:?}"))?; bytes[at as usize..(at + n) as usize].fill(v); known[at as usize..(at + n) as usize].fill(true); }
            3 => {
                let w = 1u64 << rng.below(4);
                if at + w <= ms { let v = rng.next(); e.store_w(w, at, v).map_err(|x| format!("store fails: {x:?}"))?; let i = at as usize; bytes[i..i + w as usize].copy_from_slice(&v.to_le_bytes()[..w as usize]); known[i..i + w as usize].fill(true); }
            }
            4 => {
                let a = at & !(PAGE - 1);
                let n = ((n + PAGE - 1) & !(PAGE - 1)).min(ms - a);
                let l = rng.us(n as usize + 1);
                let src = rng.bytes(l);
                let off = rng.below(n + 1);
                let some = rng.chance(3, 4);
                e.init_pages(a, n, 0, if some { Some(Bytes::from(src.clone())) } else { None }, off).map_err(|x| format!("init_pages({a:#x}, {n:#x}, {off:#x}) fails: {x:?}"))?;
                let i = a as usize;
                bytes[i..i + n as usize].fill(0);
                if some { let c = l.min((n - off) as usize); bytes[i + off as usize..i + off as usize + c].copy_from_slice(&src[..c]); }
                known[i..i + n as usize].fill(true);
            }
            5 => { let w = 1u64 << rng.below(4); if at + w <= ms { let v = e.load_w(w, at).map_err(|x| format!("load fails: {x:?}"))?; check(&v.to_le_bytes()[..w as usize], at, &bytes, &known, &mut seen).map_err(|x| format!("{k:?} step {step}: {x}"))?; } }
            _ => { let b = e.load_bytes(at, n).map_err(|x| format!("load_bytes fails: {x:?}"))?; check(&b, at, &bytes, &known, &mut seen).map_err(|x| format!("{k:?} step {step}: {x}"))?; }
        }
        for i in (at..at + n.min(40)).map(|x| x as usize) { if known[i] { seen.remove(&i); } }
    }
    let b = e.load_bytes(0, ms).map_err(|x| format!("load_bytes fails: {x:?}"))?;
    seen.clear();
    check(&b, 0, &bytes, &known, &mut seen).map_err(|x| format!("{k:?} in the end: {x}"))?;
    ctx.add("written-bytes-read-back", known.iter().filter(|x| **x).count() as u64);
    ctx.seen(mix(&[seed as u64, mem as u64]));
    Ok(())
}
fn check(b: &[u8], at: u64, bytes: &[u8], known: &[bool], seen: &mut std::collections::HashMap<usize, u8>) -> V {
    for (j, v) in b.iter().enumerate() {
        let i = at as usize + j;
        if known[i] { ensure!(*v == bytes[i], "written byte {i:#x} reads {v:#x}, expected {:#x}", bytes[i]); }
        else if j < 16 { if let Some(o) = seen.insert(i, *v) { ensure!(o == *v, "untouched byte {i:#x} read {o:#x} before and {v:#x} now"); } }
    }
    Ok(())
}

/// untouched memory is a function of the seed
fn seeds(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let mem = *rng.pick(&[1usize << 18, 1 << 19, 1 << 20]);
    let mk = |seed: Option<u32>, k: Kind| {
        let cfg = Cfg { isa: 0, version: 2, mem, max_cycles: u64::MAX, costs: Costs::One, keep_decoder: false, chaos: seed };
        Setup { cfg, xlen: 64, img: Image { elf: Bytes::new(), segs: vec![], entry: 0, args: vec![] }, images: vec![], accept_seed: 0, nhandlers: 0, has_debugger: false, cycle_blind: false }.engine(k).0
    };
    let seed = match rng.below(4) { 0 => 0, 1 => u32::MAX, _ => rng.u32() };
    let order = rng.next();
    let read = |e: &mut dyn Eng| -> Result<Vec<u8>, String> {
        // frames touched in an order of their own, the same for all machines
        let mut r = Rng::new(order);
        for _ in 0..6 { let a = r.below(mem as u64 - 8); match r.below(3) { 0 => { e.load_w(1, a).map_err(|x| format!("{x:?}"))?; } 1 => { e.store_w(8, a, r.next()).map_err(|x| format!("{x:?}"))?; } _ => { e.load_bytes(a, 8).map_err(|x| format!("{x:?}"))?; } } }
        Ok(e.load_bytes(0, mem as u64).map_err(|x| format!("{x:?}"))?.to_vec())
    };
    let (k1, k2) = (*rng.pick(ASM), *rng.pick(ASM));
    let a = read(&mut *mk(Some(seed), k1))?;
    // something else happens to the heap in between
    let junk: Vec<Vec<u8>> = (0..4).map(|i| vec![0x77u8 ^ i as u8; mem]).collect();
    drop(junk);
    let b = read(&mut *mk(Some(seed), k2))?;
    if a != b { let i = (0..a.len()).find(|i| a[*i] != b[*i]).unwrap(); return Err(format!("seed {seed:#x}: untouched byte {i:#x} is {:#x} on {k1:?} and {:#x} on {k2:?}", a[i], b[i])); }
    let c = read(&mut *mk(Some(seed ^ (1 << rng.below(32))), k1))?;
    ensure!(a != c, "two different seeds give the same memory");
    for f in 0..mem >> 18 {
        let fr = &a[f << 18..(f + 1) << 18];
        let z = fr.iter().filter(|x| **x == 0).count();
        ensure!(z < (1 << 18) / 16, "frame {f} is not filled: {z} zero bytes of {}", 1 << 18);
    }
    let d = read(&mut *mk(None, k1))?;
    let nz = d.iter().filter(|x| **x != 0).count();
    ensure!(nz <= 6 * 8, "{nz} bytes differ from zero with chaos mode off");
    ctx.count("seeds-compared");
    ctx.seen(mix(&[seed as u64, mem as u64, order]));
    Ok(())
}

/// images whose segments are mostly blank: what the loader zeroes is zero
fn loaded(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let mem = *rng.pick(&[1usize << 19, 3 << 18, 1 << 20, 1 << 21]);
    let frame = 1u64 << 18;
    let mut segs = vec![];
    let mut at = *rng.pick(&[0, PAGE, frame, frame - PAGE]);
    for _ in 0..1 + rng.below(3) {
        let far = PAGE * rng.below(20);
        at += *rng.pick(&[0, PAGE, far]);
        if rng.chance(1, 2) { at = (at + frame - 1) & !(frame - 1); }
        let lead = if rng.chance(1, 4) { rng.below(PAGE) } else { 0 };
        let size = match rng.below(4) { 0 => frame * (1 + rng.below(3)), 1 => frame - PAGE * rng.below(3) + rng.below(2 * PAGE), 2 => rng.below(3 * PAGE), _ => rng.below(3 * frame) };
        if at + lead + size > mem as u64 { break; }
        let n = match rng.below(4) { 0 | 1 => 0, 2 => rng.below(size.min(3 * PAGE) + 1), _ => rng.below(100).min(size) };
        let flags = *rng.pick(&[crate::enc::PF_R, crate::enc::PF_R | crate::enc::PF_W, crate::enc::PF_R | crate::enc::PF_X]);
        segs.push(crate::enc::Seg { vaddr: at + lead, memsz: size, flags, data: rng.bytes(n as usize) });
        at = (at + lead + size + PAGE - 1) & !(PAGE - 1);
    }
    let elf = Bytes::from(crate::enc::build_elf(true, 0, &segs));
    // version 0 clears what follows the file's bytes through the permission check
    let version = if segs.iter().any(|x| x.flags & crate::enc::PF_X != 0) { 1 + rng.below(2) as u32 } else { *rng.pick(&[0u32, 1, 2, 2]) };
    let cfg = Cfg { isa: 0, version, mem, max_cycles: u64::MAX, costs: Costs::One, keep_decoder: false, chaos: Some(rng.u32()) };
    let s = Setup { cfg, xlen: 64, img: Image { elf: elf.clone(), segs: vec![], entry: 0, args: vec![] }, images: vec![], accept_seed: 0, nhandlers: 0, has_debugger: false, cycle_blind: false };
    for k in ASM {
        let (mut e, _) = s.engine(*k);
        // the memory may hold something else already
        if rng.chance(1, 3) { let a = rng.below(mem as u64 - 8); let n = rng.below((mem as u64 - a).min(3 * frame)); e.fill(a, n, 0xc3).map_err(|x| format!("store_byte fails: {x:?}"))?; }
        e.load_elf(&elf, true).map_err(|x| format!("{k:?} fails to load: {x:?}"))?;
        // a page two segments share belongs to the later one: here none does
        for g in &segs {
            let (a, z) = (g.vaddr & !(PAGE - 1), (g.vaddr + g.memsz + PAGE - 1) & !(PAGE - 1));
            if version == 0 && g.memsz == 0 { continue; }
            let mut want = vec![0u8; (z - a) as usize];
            let o = (g.vaddr - a) as usize;
            let c = g.data.len().min(want.len() - o);
            want[o..o + c].copy_from_slice(&g.data[..c]);
            let b = e.load_bytes(a, z - a).map_err(|x| format!("load_bytes fails: {x:?}"))?;
            if b[..] != want[..] { let i = (0..want.len()).find(|i| b[*i] != want[*i]).unwrap(); return Err(format!("{k:?} in chaos mode: byte {:#x} of a segment at {:#x} ({:#x} bytes, {:#x} from the file) reads {:#x}, expected {:#x}", a + i as u64, g.vaddr, g.memsz, g.data.len(), b[i], want[i])); }
            ctx.add("written-bytes-read-back", z - a);
        }
        ctx.count("images-loaded");
    }
    ctx.seen(mix(&[at, segs.len() as u64, mem as u64, s.cfg.chaos.unwrap() as u64]));
    Ok(())
}
