//! Guest memory as one flat byte array.
use super::*;
use crate::ensure;
use crate::hist::*;
use crate::refiss::*;
use crate::rng::mix;
use ckb_vm::machine::asm::AsmCoreMachine;
use ckb_vm::{Bytes, Error, FlatMemory, Memory, Register, SparseMemory, WXorXMemory};

pub fn parts() -> Vec<Part> { vec![("histories", 8, histories), ("memories", 4, memories), ("many-pages", 1, many_pages)] }

fn histories(ctx: &mut Ctx, rng: &mut Rng) -> V { history(ctx, rng, MIXED, |s, _| s.dirty = Dirt::Ignore) }

fn memories(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let size = *rng.pick(&[1usize << 18, 1 << 19, 1 << 20, 3 << 18, 5 << 18]);
    let any = 4096 * (1 + rng.us(60));
    let small = *rng.pick(&[4096usize, 3 * 4096, 17 * 4096, 1 << 16, any]);
    match rng.below(9) {
        0 => raw(ctx, rng, FlatMemory::<u64>::new_with_memory(small), small, false, "flat64"),
        1 => raw(ctx, rng, SparseMemory::<u64>::new_with_memory(small), small, false, "sparse64"),
        2 => raw(ctx, rng, WXorXMemory::new(FlatMemory::<u64>::new_with_memory(small)), small, true, "wxorx(flat64)"),
        3 => raw(ctx, rng, WXorXMemory::new(SparseMemory::<u64>::new_with_memory(small)), small, true, "wxorx(sparse64)"),
        4 => raw(ctx, rng, FlatMemory::<u32>::new_with_memory(small), small, false, "flat32"),
        5 => raw(ctx, rng, SparseMemory::<u32>::new_with_memory(small), small, false, "sparse32"),
        6 => raw(ctx, rng, WXorXMemory::new(SparseMemory::<u32>::new_with_memory(small)), small, true, "wxorx(sparse32)"),
        _ => raw(ctx, rng, AsmCoreMachine::new_with_memory(ISA_A, 2, u64::MAX, size), size, true, "asm"),
    }
}

fn addr(rng: &mut Rng, size: u64) -> u64 {
    match rng.below(10) {
        0 | 1 => (rng.below(size / PAGE + 1) * PAGE).wrapping_add(rng.range(-10, 10) as u64),
        2 => size.wrapping_add(rng.range(-10, 4) as u64),
        3 => rng.value(),
        4 => (1u64 << rng.range(31, 63)) | rng.below(size),
        5 => ((1 + rng.below((size >> 18).max(1))) << 18).wrapping_add(rng.range(-10, 10) as u64),
        6 => u64::MAX - rng.below(16),
        _ => rng.below(size),
    }
}

/// The memory traits of the crate, used directly.
fn raw<M: Memory>(ctx: &mut Ctx, rng: &mut Rng, mut m: M, size: usize, checked: bool, name: &str) -> V {
    let wide = M::REG::BITS == 64;
    let mask = if wide { u64::MAX } else { 0xffff_ffff };
    let mut r = RefMem::new(size);
    let size = size as u64;
    ensure!(m.memory_size() as u64 == size && m.memory_pages() as u64 == size / PAGE, "{name}: memory_size {}", m.memory_size());
    let fail = |what: String, e: Error| format!("{name}: {what} fails with {e:?}");
    macro_rules! judge { ($what:expr, $r:expr, $oob:expr, $perm:expr) => {{
        let what = $what;
        match $r {
            Ok(v) => { ensure!(!$oob && !$perm, "{name}: {what} succeeds, it has to be refused"); Some(v) }
            Err(Error::MemOutOfBound(..)) => { ensure!($oob, "{name}: {what} is refused as out of bounds"); None }
            Err(Error::MemWriteOnExecutablePage(_)) => { ensure!($perm, "{name}: {what} is refused for lack of permission"); None }
            Err(e) => return Err(fail(what, e)),
        }
    }} }
    for k in 0..400 {
        let touched = |r: &RefMem, a: u64, n: u64, exec: bool| checked && n > 0 && a < size && (a / PAGE..=(a.saturating_add(n - 1)).min(size - 1) / PAGE).any(|p| (r.flags[p as usize] & EXEC != 0) == exec);
        let len = |rng: &mut Rng| match rng.below(8) { 0 => 0, 1 => rng.below(size + 10), 2 => PAGE * rng.below(4), 3 => u64::MAX - rng.below(3), 4 => 1u64 << rng.range(32, 63), _ => rng.below(40) };
        let w = 1u64 << rng.below(if wide { 4 } else { 3 });
        match rng.below(12) {
            0 | 1 => {
                let a = addr(rng, size) & mask;
                let ra = M::REG::from_u64(a);
                let got = match w { 1 => m.load8(&ra), 2 => m.load16(&ra), 4 => m.load32(&ra), _ => m.load64(&ra) };
                if let Some(v) = judge!(format!("load{}({a:#x})", 8 * w), got, !r.in_bounds(a, w), false) { let want = r.load(a, w).unwrap(); ensure!(v.to_u64() == want, "{name}: load{}({a:#x}) is {:#x}, expected {want:#x}", 8 * w, v.to_u64()); }
            }
            2 | 3 => {
                let (a, v) = (addr(rng, size) & mask, rng.next() & mask);
                let (ra, rv) = (M::REG::from_u64(a), M::REG::from_u64(v));
                let got = match w { 1 => m.store8(&ra, &rv), 2 => m.store16(&ra, &rv), 4 => m.store32(&ra, &rv), _ => m.store64(&ra, &rv) };
                let (oob, perm) = (!r.in_bounds(a, w), touched(&r, a, w, true));
                if judge!(format!("store{}({a:#x})", 8 * w), got, oob, perm).is_some() { r.put(a, &v.to_le_bytes()[..w as usize]); }
            }
            4 => {
                let (a, n) = (addr(rng, size), len(rng).min(size + 8));
                let b = rng.bytes(n as usize);
                let got = m.store_bytes(a, &b);
                let (oob, perm) = (n > 0 && !r.in_bounds(a, n), touched(&r, a, n, true));
                if judge!(format!("store_bytes({a:#x}, {n:#x})"), got, oob, perm).is_some() { r.put(a, &b); }
            }
            5 => {
                let (a, n, v) = (addr(rng, size), len(rng), rng.next() as u8);
                let got = m.store_byte(a, n, v);
                let (oob, perm) = (n > 0 && !r.in_bounds(a, n), touched(&r, a, n, true));
                if judge!(format!("store_byte({a:#x}, {n:#x})"), got, oob, perm).is_some() && n > 0 { r.fill(a, n, v); }
            }
            6 => {
                let (a, n) = (addr(rng, size), len(rng));
                let got = m.load_bytes(a, n);
                if let Some(b) = judge!(format!("load_bytes({a:#x}, {n:#x})"), got, n > 0 && !r.in_bounds(a, n), false) {
                    ensure!(b.len() as u64 == n && (n == 0 || b[..] == r.bytes[a as usize..(a + n) as usize]), "{name}: load_bytes({a:#x}, {n:#x}) returns other bytes than were written");
                }
            }
            7 => {
                let a = addr(rng, size);
                let four = rng.chance(1, 2);
                let n = if four { 4 } else { 2 };
                if !wide && a > mask { continue; }
                let got = if four { m.execute_load32(a) } else { m.execute_load16(a).map(|v| v as u32) };
                let (oob, perm) = (!r.in_bounds(a, n), touched(&r, a, n, false));
                if let Some(v) = judge!(format!("execute_load{}({a:#x})", 8 * n), got, oob, perm) { ensure!(v as u64 == r.load(a, n).unwrap(), "{name}: execute_load{}({a:#x}) is {v:#x}", 8 * n); }
            }
            8 => {
                let p = match rng.below(6) { 0 => size / PAGE, 1 => rng.value(), _ => rng.below(size / PAGE) };
                let f = match rng.below(4) { 0 => rng.next() as u8, 1 => FREEZED, _ => EXEC };
                let (set, got) = if rng.chance(1, 2) { (true, m.set_flag(p, f)) } else { (false, m.clear_flag(p, f)) };
                let want = if set { r.set_flag(p, f) } else { r.clear_flag(p, f) };
                ensure!(got.is_ok() == want.is_ok(), "{name}: changing flags of page {p:#x} gives {got:?}");
            }
            9 => {
                let p = match rng.below(6) { 0 => size / PAGE, 1 => rng.value(), _ => rng.below(size / PAGE) };
                match m.fetch_flag(p) {
                    Ok(f) => ensure!(p < size / PAGE && f & !DIRTY == r.flags[p as usize] & !DIRTY, "{name}: flags of page {p:#x} are {f:#x}"),
                    Err(e) => ensure!(p >= size / PAGE, "{name}: fetch_flag({p:#x}) fails with {e:?}"),
                }
            }
            10 => {
                let wild = checked && rng.chance(1, 4);
                let a = if wild { addr(rng, size) } else { rng.below(size / PAGE) * PAGE };
                let n = if wild { len(rng) } else { PAGE * rng.below((size - a) / PAGE + 1).min(rng.clone().below(80)) };
                let off = if wild { rng.below(3 * PAGE) } else if n > 0 && rng.chance(1, 2) { rng.below(n + 1) } else { 0 };
                let src = if rng.chance(2, 3) { let l = if rng.chance(1, 2) { rng.us(100) } else { rng.us(n.min(1 << 20) as usize + 50) }; Some(Bytes::from(rng.bytes(l))) } else { None };
                let f = *rng.pick(&[0u8, EXEC, FREEZED, EXEC | FREEZED, 0, 0]);
                let got = m.init_pages(a, n, f, src.clone(), off);
                let mut want = r.init_pages(a, n, if checked { f } else { 0 }, src.as_ref().map(|b| &b[..]), off);
                if !checked && matches!(want, Err(Stop::Perm)) {
                    // plain memories know no frozen pages
                    let keep: Vec<u8> = r.flags.clone();
                    for x in &mut r.flags { *x &= !FREEZED; }
                    want = r.init_pages(a, n, 0, src.as_ref().map(|b| &b[..]), off);
                    for (x, y) in r.flags.iter_mut().zip(keep) { *x |= y & FREEZED; }
                }
                ensure!(got.is_ok() == want.is_ok(), "{name}: init_pages({a:#x}, {n:#x}, {f:#x}, {:?}, {off:#x}) gives {got:?}, expected {want:?}", src.map(|s| s.len()));
            }
            _ => if rng.chance(1, 12) {
                m.reset_memory().map_err(|e| fail("reset_memory".into(), e))?;
                r = RefMem::new(size as usize);
            },
        }
        ctx.add("memory-calls", 1);
        if k % 100 == 99 {
            let b = m.load_bytes(0, size).map_err(|e| fail("load_bytes of everything".into(), e))?;
            if b[..] != r.bytes[..] { let k = (0..size as usize).find(|k| b[*k] != r.bytes[*k]).unwrap(); return Err(format!("{name}: byte {k:#x} is {:#x}, expected {:#x}", b[k], r.bytes[k])); }
            for p in 0..size / PAGE { let f = m.fetch_flag(p).map_err(|e| fail("fetch_flag".into(), e))?; ensure!(f & !DIRTY == r.flags[p as usize] & !DIRTY, "{name}: flags of page {p:#x} are {f:#x}, expected {:#x}", r.flags[p as usize]); }
            ctx.seen(mix(&[name.len() as u64, name.as_bytes()[0] as u64, r.flags.iter().fold(7, |h, f| h * 31 + *f as u64 & 0xffff_ffff)]));
        }
    }
    ctx.count(&format!("memory:{name}"));
    Ok(())
}

/// A sparse memory with more allocated pages than fit in 16 bits.
fn many_pages(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let pages = 65_536 + 40u64;
    let mut m = SparseMemory::<u64>::new_with_memory((pages * PAGE) as usize);
    let step = 1 + 2 * rng.below(1000);
    // all pages in a scrambled order
    for k in 0..pages {
        let p = (k * step) % pages;
        let a = p * PAGE + (p % 511) * 8;
        m.store64(&a, &(mix(&[p]))).map_err(|e| format!("store64({a:#x}) fails: {e:?}"))?;
    }
    for p in 0..pages {
        let a = p * PAGE + (p % 511) * 8;
        let hit = (0..pages).len() > 0 && gcd(step, pages) == 1;
        let v = m.load64(&a).map_err(|e| format!("load64({a:#x}) fails: {e:?}"))?;
        if hit { ensure!(v == mix(&[p]), "page {p:#x} of a large sparse memory reads {v:#x}, {:#x} was written", mix(&[p])); }
    }
    ctx.count("large-sparse-memories");
    ctx.seen(step);
    Ok(())
}
fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
trait L { fn len(&self) -> usize; }
impl L for std::ops::Range<u64> { fn len(&self) -> usize { (self.end - self.start) as usize } }
