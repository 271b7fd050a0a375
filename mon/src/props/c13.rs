//! Program images.
use super::*;
use crate::common::*;
use crate::elfgen::*;
use crate::enc::*;
use crate::ensure;
use crate::eng::*;
use crate::host::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use ckb_vm::Bytes;

pub fn parts() -> Vec<Part> { vec![("valid", 5, valid_images), ("twisted", 6, twisted), ("damaged", 3, damaged), ("chains", 4, chains)] }

fn setup(rng: &mut Rng, xlen: u32, version: u32) -> Setup {
    let cfg = Cfg { isa: 0, version, mem: *rng.pick(&[1usize << 18, 1 << 19, 3 << 18]), max_cycles: 1000, costs: Costs::One, keep_decoder: false, chaos: None };
    Setup { cfg, xlen, img: Image { elf: Bytes::new(), segs: vec![], entry: 0, args: vec![] }, images: vec![], accept_seed: 0, nhandlers: 1, has_debugger: false, cycle_blind: false }
}

enum Want { Load, Refuse(&'static str), Either }

/// one image on every engine; the images of `pre` are loaded first and known to load
fn judge(ctx: &mut Ctx, rng: &mut Rng, s: &Setup, pre: &[Bytes], elf: &Bytes, must: bool) -> Result<bool, String> {
    let (xlen, version) = (s.xlen, s.cfg.version);
    let (mut m, _) = s.reference();
    for b in pre { let r = read(b, xlen).map_err(|x| x.to_string())?; model(&r, b, &mut m.vm.mem, version, true).map_err(|x| format!("earlier image: {x}"))?; m.vm.pc = m.vm.mask(r.entry); }
    let rd = read(elf, xlen);
    let strict = rd.as_ref().ok().map(|r| (r, model(r, elf, &mut m.vm.mem.clone(), version, false)));
    // recorded finding: a memory size that rounds up to 2^64 or more counts modulo 2^64
    let mut wrapped = None;
    if let Some((r, Err(x))) = &strict { if !r.odd_table && model(r, elf, &mut m.vm.mem.clone(), version, true).is_ok() { wrapped = Some(*x); } }
    let (want, total) = match &rd {
        Err(x) => (Want::Refuse(x), 0),
        Ok(r) => match model(r, elf, &mut m.vm.mem, version, wrapped.is_some()) {
            Err(x) => (if r.odd_table { Want::Either } else { Want::Refuse(x) }, 0),
            Ok(n) => (if r.odd_table { Want::Either } else { Want::Load }, n),
        },
    };
    // an empty segment outside of the address space covers nothing that could be outside
    let empty = rd.as_ref().map_or(false, |r| r.phs.iter().any(|p| p.ty == 1 && p.vaddr % PAGE == 0 && p.memsz == 0 && p.vaddr >= s.cfg.mem as u64));
    let before = m.vm.pc;
    let how = rng.below(4);
    let mut first: Option<(Kind, Result<u64, String>)> = None;
    let mut loaded = false;
    for k in s.kinds() {
        let (mut e, _) = s.engine(*k);
        for b in pre { e.load_elf(b, true).map_err(|x| format!("{k:?}: loading an earlier image fails: {x:?}"))?; }
        let sp = e.reg(2);
        let (r, stack) = match how {
            0 => (e.load_elf(elf, true), false),
            1 => (e.load_elf(elf, false), false),
            2 => (e.load_program(elf, &[]), true),
            _ => {
                let meta = if xlen == 64 { ckb_vm::elf::parse_elf::<u64>(elf, version) } else { ckb_vm::elf::parse_elf::<u32>(elf, version) };
                (meta.and_then(|meta| e.load_binary(elf, &meta, true)), false)
            }
        };
        // version 0 writes its stack frame
        let r = match r { Ok(n) if stack => { if version == 0 { let w = xlen as u64 / 8; Ok(n.wrapping_sub(w)) } else { Ok(n.wrapping_sub(16)) } } r => r };
        match (&want, &r) {
            (Want::Refuse(x), Ok(_)) => return Err(format!("{k:?} version {version} loads an image that has to be refused: {x}")),
            (Want::Load, Ok(_)) if wrapped.is_some() => ctx.finding("memsz-wraps", format!("{k:?} version {version} loads an image that has to be refused: {}", wrapped.unwrap()))?,
            (Want::Load, Err(_)) if wrapped.is_some() => {}
            (Want::Load, Err(x)) if must || !empty => return Err(format!("{k:?} version {version} refuses a good image: {x:?}")),
            _ => {}
        }
        let rr = match &r { Ok(n) => Ok(*n), Err(x) => Err(format!("{x:?}").split(|c| c == '(' || c == ' ').next().unwrap().to_string()) };
        if let Some((k0, r0)) = &first { if *r0 != rr { return Err(format!("{k0:?} gives {r0:?} and {k:?} {rr:?}")); } } else { first = Some((*k, rr)); }
        if let (Want::Load, Ok(n)) = (&want, &r) {
            ensure!(*n == total, "{k:?} reports {n} bytes, the segments hold {total}");
            let entry = m.vm.mask(rd.as_ref().unwrap().entry);
            let pc = if how == 1 { before } else { entry };
            ensure!(e.pc() == pc, "{k:?}: pc is {:#x}, expected {pc:#x}", e.pc());
            if !stack { ensure!(e.reg(2) == sp, "{k:?}: loading changed the stack pointer"); }
            let mut mm = m.vm.mem.clone();
            if stack && version == 0 { let w = xlen as u64 / 8; let at = mm.size() - w; if mm.store(at, 4, 0).is_err() { return Err("stack over code".into()); } }
            let was = std::mem::replace(&mut m.vm.mem, mm);
            let c = cmp_mem(&mut *e, &m, true);
            m.vm.mem = was;
            c.map_err(|x| format!("{k:?} version {version}, after loading: {x}"))?;
            for i in (1..32).filter(|i| *i != 2) { ensure!(e.reg(i) == 0, "{k:?}: loading set register x{i}"); }
            loaded = true;
        }
    }
    match want { Want::Refuse(x) => ctx.count(&format!("refused:{x}")), Want::Load => ctx.count("loaded"), Want::Either => ctx.count("odd-table") }
    if let Ok(r) = &rd { ctx.add("segments", r.phs.iter().filter(|p| p.ty == 1).count() as u64); }
    ctx.seen(mix(&[version as u64, xlen as u64, how, match want { Want::Refuse(x) => x.len() as u64, _ => rd.as_ref().map_or(0, |r| mix(&r.phs.iter().flat_map(|p| [p.flags as u64, p.vaddr, p.memsz, p.filesz]).collect::<Vec<_>>())) }]));
    Ok(loaded)
}

fn draw(rng: &mut Rng) -> (u32, Setup) {
    let xlen = crate::eng::xlen(rng, 4);
    let version = *rng.pick(&[0u32, 1, 2]);
    (xlen, setup(rng, xlen, version))
}

fn valid_images(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (xlen, s) = draw(rng);
    let mut r = valid(rng, xlen, s.cfg.mem as u64, s.cfg.version);
    let top = s.cfg.mem as u64 - PAGE;
    // many headers
    if rng.chance(1, 8) {
        let n = *rng.pick(&[20usize, 60, 64, 65, 128, 255, 256, 300]);
        let k = if rng.chance(1, 2) { 0 } else { rng.us(r.phs.len() + 1) };
        let ty = *rng.pick(&[0u32, 4, 7, 0x6474e551]);
        let grow = if r.table_last { 0 } else { (n * r.phsize()) as u64 };
        for p in r.phs.iter_mut() { if p.ty == 1 { p.off += grow; } }
        for _ in 0..n { r.phs.insert(k, Ph { ty, flags: rng.u32() & 7, ..Ph::default() }); }
        r.place_table();
        ctx.max("max:headers", r.phs.len() as u64);
    }
    // version 0 puts a zero word on top of memory, which has to be writable
    for p in r.phs.iter_mut() { if p.ty == 1 && p.flags & PF_X != 0 && p.vaddr + p.memsz > top { p.flags = PF_R; } }
    let elf = Bytes::from(r.emit());
    if ctx.samples.len() < 2 { ctx.sample(serde_json::json!({"version": s.cfg.version, "xlen": xlen, "memory": s.cfg.mem, "headers": format!("{:x?}", r.phs)})); }
    judge(ctx, rng, &s, &[], &elf, true).map(|_| ()).map_err(|x| format!("{x}; headers {:x?}", r.phs))
}
fn twisted(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (xlen, s) = draw(rng);
    let mut r = valid(rng, xlen, s.cfg.mem as u64, s.cfg.version);
    twist(rng, &mut r, s.cfg.mem as u64);
    if rng.chance(1, 10) { r.wide = !r.wide; r.phentsize = r.phsize() as u16; r.place_table(); }
    let elf = Bytes::from(r.emit());
    let x = soft(ctx, rng, &s, &[], &elf);
    x.map_err(|x| format!("{x}; entry {:#x} table {:#x}+{} headers {:x?}", r.entry, r.phoff, r.phnum, r.phs))
}
fn damaged(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (xlen, s) = draw(rng);
    let mut r = valid(rng, xlen, s.cfg.mem as u64, s.cfg.version);
    if rng.chance(1, 3) { twist(rng, &mut r, s.cfg.mem as u64); }
    let mut b = r.emit();
    damage(rng, &mut b);
    let x = soft(ctx, rng, &s, &[], &Bytes::from(b.clone()));
    x.map_err(|x| format!("{x}; {:x?}", read(&b, xlen)))
}
/// images over images
fn chains(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (xlen, s) = draw(rng);
    let mut pre: Vec<Bytes> = vec![];
    for _ in 0..2 + rng.below(3) {
        let mut r = valid(rng, xlen, s.cfg.mem as u64, s.cfg.version);
        for p in r.phs.iter_mut() { if rng.chance(2, 3) { p.flags = PF_R | PF_W; } }
        if rng.chance(1, 4) { twist(rng, &mut r, s.cfg.mem as u64); }
        let elf = Bytes::from(r.emit());
        match soft_n(ctx, rng, &s, &pre, &elf).map_err(|x| format!("image {} of a chain: {x}; headers {:x?}", pre.len(), r.phs))? { true => pre.push(elf), false => return Ok(()) }
        ctx.count("chained");
    }
    Ok(())
}
fn soft(ctx: &mut Ctx, rng: &mut Rng, s: &Setup, pre: &[Bytes], elf: &Bytes) -> V { soft_n(ctx, rng, s, pre, elf).map(|_| ()) }
fn soft_n(ctx: &mut Ctx, rng: &mut Rng, s: &Setup, pre: &[Bytes], elf: &Bytes) -> Result<bool, String> {
    // the stack frame of version 0 may fall on code
    if s.cfg.version == 0 { let mut r2 = rng.clone(); while r2.below(4) == 2 { rng.next(); r2 = rng.clone(); } }
    judge(ctx, rng, s, pre, elf, false)
}
