//! Fresh memory is zero; nothing but the inputs matters.
use super::*;
use crate::common::*;
use crate::ensure;
use crate::eng::*;
use crate::galloc;
use crate::host::*;
use crate::hostile::*;
use crate::refiss::*;
use crate::refmach::*;
use crate::rng::mix;
use ckb_vm::Bytes;

pub fn parts() -> Vec<Part> { vec![("segments", 5, segments), ("programs", 4, programs), ("sessions", 4, sessions), ("reuse", 3, reuse), ("fresh", 2, fresh)] }

const FILLS: [u8; 4] = [0xa5, 0xff, 0x00, 0x5a];

fn whole(e: &mut dyn Eng, n: u64) -> Result<Bytes, String> { e.load_bytes(0, n).map_err(|x| format!("the memory cannot be read: {x:?}")) }
/// result, registers, counter, memory and flags
fn state(e: &mut dyn Eng, st: &Shared, r: &str) -> u64 {
    let n = e.mem_size() as u64;
    let m = e.load_bytes(0, n).map(|b| hash(&b)).unwrap_or(1);
    let f: Vec<u8> = (0..n / PAGE).map(|p| e.flag(p).unwrap_or(0xee)).collect();
    let mut h = vec![hash(r.as_bytes()), m, hash(&f), e.pc(), e.cycles(), e.lr()];
    for k in 0..32 { h.push(e.reg(k)); }
    let s = st.lock().unwrap();
    h.push(s.log_hash);
    h.push(s.events);
    mix(&h)
}

/// a machine nobody has written to reads zero everywhere, in whatever order it is read
fn fresh(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 5);
    let (isa, version) = isa_version(rng);
    let mem = *rng.pick(&[1usize << 18, 1 << 19, 3 << 18, 1 << 20]);
    let cfg = Cfg { isa, version, mem, max_cycles: 0, costs: Costs::One, keep_decoder: false, chaos: None };
    for k in if xlen == 64 { KINDS64 } else { KINDS32 } {
        let st: Shared = std::sync::Arc::new(std::sync::Mutex::new(HostState::new(0, 0, false)));
        galloc::filled(*rng.pick(&FILLS[..2]), || {
            let mut e = make(*k, &cfg, &st);
            for _ in 0..40 {
                let w = 1u64 << rng.below(if xlen == 32 { 3 } else { 4 });
                let a = match rng.below(3) { 0 => (rng.below((mem >> 18) as u64) << 18).wrapping_add(rng.range(-8, 8) as u64), 1 => (rng.below(mem as u64 / PAGE) * PAGE).wrapping_add(rng.range(-8, 8) as u64), _ => rng.below(mem as u64) };
                if rng.chance(1, 2) { if let Ok(v) = e.load_w(w, a) { ensure!(v == 0, "{k:?}: {} bytes at {a:#x} of a new machine hold {v:#x}", w); } }
                else { let n = rng.below(9000); if let Ok(b) = e.load_bytes(a, n) { ensure!(b.iter().all(|x| *x == 0), "{k:?}: {n} bytes at {a:#x} of a new machine are not all zero"); } }
            }
            let b = whole(&mut *e, mem as u64)?;
            ensure!(b.iter().all(|x| *x == 0), "{k:?}: byte {:#x} of a new machine is not zero", b.iter().position(|x| *x != 0).unwrap());
            for r in 0..32 { ensure!(e.reg(r) == 0, "{k:?}: x{r} of a new machine is {:#x}", e.reg(r)); }
            ensure!(e.pc() == 0 && e.cycles() == 0, "{k:?}: pc or counter of a new machine is not zero");
            for p in 0..mem as u64 / PAGE { let f = e.flag(p).unwrap_or(0xff); ensure!(f == 0, "{k:?}: page {p} of a new machine has flags {f:#x}"); }
            Ok::<(), String>(())
        })?;
        ctx.count("new-machines-read");
    }
    ctx.seen(mix(&[mem as u64, version as u64, isa as u64]));
    Ok(())
}

/// writes and zero-filled ranges of every size and place: all other bytes stay zero
fn segments(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let mem = *rng.pick(&[1usize << 18, 1 << 19, 3 << 18, 1 << 20]) as u64;
    let cfg = Cfg { isa, version, mem: mem as usize, max_cycles: 0, costs: Costs::One, keep_decoder: false, chaos: None };
    // a few operations near the ends of frames and pages
    let frame = 1u64 << 18;
    let edge = |rng: &mut Rng| -> u64 { match rng.below(5) { 0 => rng.below(mem / PAGE) * PAGE, 1 => rng.below(mem / frame) * frame + rng.below(3) * PAGE, 2 => (rng.below(mem / frame) + 1) * frame - rng.below(4) * PAGE, 3 => rng.below(mem), _ => rng.below(mem / frame) * frame } };
    let mut ops: Vec<(u64, u64, u64, u8, Vec<u8>, u64)> = vec![];
    for _ in 0..1 + rng.below(5) {
        let a = edge(rng);
        let end = edge(rng);
        let n = match rng.below(4) { 0 => end.saturating_sub(a), 1 => frame - PAGE * rng.below(3), 2 => rng.below(5000), _ => PAGE * rng.below(5) };
        let what = rng.below(4);
        let (a, n) = if what == 0 { (a & !(PAGE - 1), n & !(PAGE - 1)) } else { (a, n) };
        let src = match rng.below(4) { 0 => vec![], 1 => { let k = rng.us(n.max(1).min(1 << 19) as usize); rng.bytes(k) }, 2 => { let k = (n.min(1 << 19) as usize).saturating_sub(rng.us(20)); rng.bytes(k) }, _ => { let k = rng.us(60); rng.bytes(k) } };
        let off = match rng.below(4) { 0 => rng.below(PAGE), 1 => n.saturating_sub(rng.below(30)), _ => 0 };
        ops.push((what, a, n, rng.next() as u8 | 1, src, off));
    }
    let mut model = vec![0u8; mem as usize];
    for (what, a, n, v, src, off) in &ops {
        let (a, n, off) = (*a as usize, *n as usize, *off as usize);
        if a + n > mem as usize { continue; }
        match what {
            0 => { if off > n { continue; } for x in &mut model[a..a + n] { *x = 0; } let k = src.len().min(n - off); model[a + off..a + off + k].copy_from_slice(&src[..k]); }
            1 => for x in &mut model[a..a + n] { *x = *v },
            2 => { let k = src.len(); if a + k <= mem as usize { model[a..a + k].copy_from_slice(src) } }
            _ => for x in &mut model[a..a + n] { *x = 0 },
        }
    }
    for k in if xlen == 64 { KINDS64 } else { KINDS32 } {
        for fill in [0xa5u8, 0xff] {
            let st: Shared = std::sync::Arc::new(std::sync::Mutex::new(HostState::new(0, 0, false)));
            let b = galloc::filled(fill, || {
                let mut e = make(*k, &cfg, &st);
                for (what, a, n, v, src, off) in &ops {
                    if a + n > mem { continue; }
                    let r = match what { 0 => if off > n { continue } else { e.init_pages(*a, *n, 0, Some(Bytes::from(src.clone())), *off) }, 1 => e.fill(*a, *n, *v), 2 => if a + src.len() as u64 > mem { continue } else { e.store_bytes(*a, src) }, _ => e.fill(*a, *n, 0) };
                    // an empty range at the very end may be refused
                    if let Err(x) = r { ensure!(*n == 0, "{k:?}: operation {what} at {a:#x} of {n:#x} fails: {x:?}"); }
                }
                whole(&mut *e, mem)
            })?;
            if b[..] != model[..] {
                let at = (0..mem as usize).find(|x| b[*x] != model[*x]).unwrap();
                // an image's bytes themselves are the business of other properties
                ensure!(model[at] != 0, "{k:?}: byte {at:#x}, never written or zeroed, is {:#x} when new buffers hold {fill:#x}; operations (kind, address, size): {:x?}", b[at], ops.iter().map(|o| (o.0, o.1, o.2)).collect::<Vec<_>>());
            }
            ctx.count("memories-read-whole");
        }
    }
    ctx.seen(mix(&[ops.len() as u64, ops[0].1 / PAGE, ops[0].2 / PAGE, mem]));
    Ok(())
}

/// programs under different contents of the recycled host memory, and repeated
fn programs(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let faults = rng.chance(1, 3);
    let exec = rng.chance(1, 5);
    let s = match setup_with(rng, xlen, isa, version, |g, r| { g.faults = faults; g.mem_bias = r.chance(1, 2); if exec { g.calls.push(CALL_EXEC); } }) { Some(s) => s, None => return Ok(()) };
    // the reference bounds the run; what it says is not judged here
    let (mut m, _) = s.reference();
    if m.load(&s.img).is_err() { return Ok(()); }
    let stop = m.run(BUDGET);
    let max = m.cycles.saturating_add(1_000_000);
    if matches!(stop, RStop::Unknown(_)) && s.cfg.costs.table().op(Op::ADDI) == 0 { return Ok(()); }
    if m.insts >= BUDGET { return Ok(()); }
    ctx.seen(signature(&m, s.cfg.isa as u64));
    for k in s.kinds() {
        let mut first: Option<(u64, u64, String)> = None;
        for (n, fill) in FILLS.iter().take(3).enumerate() {
            let (d, r) = galloc::filled(*fill, || {
                let (mut e, st) = s.engine(*k);
                e.set_max_cycles(max);
                let r = match e.load_program(&s.img.elf, &s.img.args) { Ok(n) => format!("{n} {:?}", e.run()), Err(x) => format!("{x:?}") };
                (state(&mut *e, &st, &r), r)
            });
            match &first { None => first = Some((d, n as u64, r)), Some((d0, _, r0)) => ensure!(d == *d0, "{k:?}: a run ends differently when new buffers hold {fill:#x} instead of {:#x}: {r} and {r0}", FILLS[0]) }
            ctx.count("runs-repeated");
        }
    }
    Ok(())
}

/// hostile sessions repeated with other contents of new buffers
fn sessions(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let seed = rng.next();
    let mut first = None;
    for fill in &FILLS[..2] {
        let mut r = Rng::new(seed);
        trail_clear();
        let d = galloc::filled(*fill, || { let mut s = Session::new(&mut r); s.limit = 1e9; for _ in 0..30 { if s.op(ctx, &mut r).is_err() { break; } } s.look() });
        match first { None => first = Some(d), Some(d0) => ensure!(d == d0, "the same calls give different results when new buffers hold {fill:#x} instead of {:#x}; calls: {}", FILLS[0], trail()) }
    }
    ctx.count("sessions-repeated");
    trail_clear();
    Ok(())
}

/// a machine that was used and reset gives what a new one gives
fn reuse(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let xlen = crate::eng::xlen(rng, 6);
    let (isa, version) = isa_version(rng);
    let s = match setup_with(rng, xlen, isa, version, |g, r| { g.mem_bias = r.chance(1, 2); }) { Some(s) => s, None => return Ok(()) };
    let (mut m, _) = s.reference();
    if m.load(&s.img).is_err() { return Ok(()); }
    let stop = m.run(BUDGET);
    if !matches!(stop, RStop::Exit(_)) { return Ok(()); }
    for k in s.kinds() {
        let (mut e, st) = s.engine(*k);
        let first = { let r = match e.load_program(&s.img.elf, &s.img.args) { Ok(n) => format!("{n} {:?}", e.run()), Err(x) => format!("{x:?}") }; state(&mut *e, &st, &r) };
        // use it for something else, then again for the same
        for _ in 0..1 + rng.below(2) {
            let mem = s.cfg.mem as u64;
            let junk = rng.bytes(5000);
            for _ in 0..6 { let a = rng.below(mem); let _ = e.store_bytes(a, &junk); let _ = e.fill(rng.below(mem), rng.below(mem / 2), 0xcc); }
            for _ in 0..rng.below(4) { let _ = e.set_flag(rng.below(mem / PAGE), rng.next() as u8); }
            e.set_lr(rng.below(mem));
            e.reset(s.cfg.max_cycles).map_err(|x| format!("{k:?}: reset fails: {x:?}"))?;
            { let mut h = st.lock().unwrap(); let (i, a, n, d, b) = (h.images.clone(), h.accept_seed, h.nhandlers, h.has_debugger, h.cycle_blind); let p = h.pause.take(); *h = HostState::new(a, n, d); h.images = i; h.cycle_blind = b; h.pause = p; }
            let again = { let r = match e.load_program(&s.img.elf, &s.img.args) { Ok(n) => format!("{n} {:?}", e.run()), Err(x) => format!("{x:?}") }; state(&mut *e, &st, &r) };
            ensure!(again == first, "{k:?}: a program ends differently on a machine that was used before and reset");
            ctx.count("resets-compared");
        }
    }
    ctx.seen(signature(&m, 3));
    Ok(())
}
