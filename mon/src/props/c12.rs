//! Data-source snapshots.
use super::*;
use crate::enc::*;
use crate::ensure;
use crate::eng::*;
use crate::host::*;
use crate::refiss::*;
use crate::rng::mix;
use crate::seg::*;
use ckb_vm::Bytes;

pub fn parts() -> Vec<Part> { vec![("chains", 10, chains), ("refusals", 1, refusals)] }

fn chains(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let lo = rng.chance(1, 8);
    let x = if lo { loading(rng, &[CALL_YIELD, CALL_S2, CALL_S2, CALL_LOG]) } else { finishing(rng, |g, r| {
        g.calls.retain(|c| *c != CALL_CLEAN);
        g.calls.extend_from_slice(&[CALL_YIELD, CALL_S2, CALL_S2, CALL_S2, CALL_S2, CALL_PROTECT, CALL_ADD_NC, CALL_YIELD]);
        g.amo_bias = r.chance(1, 4);
        g.mem_bias = r.chance(1, 2);
        g.size = *r.pick(&[15, 25, 40]);
    }, |s, r| {
        // segments that share or rewrite each other's pages
        if s.cfg.version > 0 && r.chance(1, 2) {
            let d = s.img.segs.iter().find(|x| x.flags & PF_W != 0).map(|x| (x.vaddr, x.memsz)).unwrap();
            for _ in 0..1 + r.below(3) {
                let at = match r.below(3) { 0 => (d.0 & !(PAGE - 1)) + r.below(2 * PAGE), 1 => (d.0 + d.1).saturating_sub(r.below(PAGE)), _ => 0x3c000 - 0x1000 * r.below(4) + if r.chance(1, 2) { 0 } else { r.below(PAGE) } };
                let n = r.us(3 * PAGE as usize);
                let sz = n as u64 + if r.chance(1, 2) { 0 } else { r.below(2 * PAGE) };
                if at + sz + PAGE > s.cfg.mem as u64 || (at < 0x2c000 && at + sz > 0x10000) { continue; }
                let data = r.bytes(n);
                let k = r.us(s.img.segs.len() + 1);
                s.img.segs.insert(k, Seg { vaddr: at, data, memsz: sz, flags: PF_R | if r.chance(1, 4) { 0 } else { PF_W } });
            }
        }
        // neighbours in memory and in the file that differ in what may be done with them
        if r.chance(1, 2) {
            let at = 0x30000 + PAGE * r.below(8);
            let mut v = at;
            let k = r.us(s.img.segs.len() + 1);
            for j in 0..2 + r.us(2) {
                let n = PAGE * (1 + r.below(3));
                if v + n > 0x3c000 { break; }
                s.img.segs.insert(k + j, Seg { vaddr: v, data: r.bytes(n as usize), memsz: n, flags: *r.pick(&[PF_R | PF_W, PF_R | PF_X, PF_R]) });
                v += n;
            }
        }
        {
            s.img.elf = Bytes::from(build_elf(s.xlen == 64, s.img.entry, &s.img.segs));
        }
        if s.cfg.version == 0 { s.img.args.clear(); }
    }) };
    let (s, t) = match x { Some(x) => x, None => return Ok(()) };
    // total() ran without data items: with tracked writes and host activity the path may differ (see `loose`)
    let o = Opts { pauses: 1, snap2: *rng.pick(&[3, 8, 10]), flags: true, host: if lo { 0 } else { 5 }, segments: 12, ..OPTS };
    for _ in 0..2 {
        let k = *rng.pick(s.kinds());
        interrupted(ctx, rng, &s, t, k, s.kinds(), &o)?;
    }
    Ok(())
}

fn refusals(ctx: &mut Ctx, rng: &mut Rng) -> V {
    let (s, _) = match finishing(rng, |g, _| g.size = 15, |_, _| {}) { Some(x) => x, None => return Ok(()) };
    let k = *rng.pick(s.kinds());
    let (mut e, _) = s.engine(k);
    let (it, off) = items(rng, &s.img.elf);
    let mut x = crate::s2::S2::new(it);
    let meta = if s.xlen == 64 { ckb_vm::elf::parse_elf::<u64>(&s.img.elf, s.cfg.version) } else { ckb_vm::elf::parse_elf::<u32>(&s.img.elf, s.cfg.version) }.map_err(|x| format!("parse_elf fails: {x:?}"))?;
    e.load_with_meta(&s.img.elf, &meta, &[]).map_err(|x| format!("fails to load: {x:?}"))?;
    e.s2_mark(&mut x.ctx, &meta, 0, off).map_err(|x| format!("mark_program fails: {x:?}"))?;
    let (h, _) = heap(s.cfg.mem as u64);
    if x.src.items.contains_key(&1) && x.src.items[&1].len() >= 4096 {
        let _ = e.s2_store(&mut x.ctx, h, 1, 0, 4096, h + 0x8000);
    }
    let snap = e.s2_make(&x.ctx).map_err(|x| format!("make_snapshot fails: {x:?}"))?;
    for k in s.kinds() {
        for v in 0..3u32 {
            if v == s.cfg.version { continue; }
            let mut c = s.cfg;
            c.version = v;
            c.isa &= !ckb_vm::ISA_MOP;
            let mut n = make(*k, &c, &s.state());
            let r = n.s2_resume(&mut crate::s2::Ctx::new(x.src.clone()), &snap);
            ensure!(matches!(r, Err(ckb_vm::Error::InvalidVersion)), "version {} snapshot on a version {v} {k:?}: {r:?}", s.cfg.version);
            ctx.count("versions-refused");
        }
        if let Some(miss) = snap.pages_from_source.iter().map(|p| p.2).next() {
            let mut it = (*x.src.items).clone();
            it.remove(&miss);
            let src = crate::s2::Src { items: std::sync::Arc::new(it) };
            let mut n = make(*k, &s.cfg, &s.state());
            let r = n.s2_resume(&mut crate::s2::Ctx::new(src), &snap);
            ensure!(r.is_err(), "resuming without data item {miss} succeeds on {k:?}");
            ctx.count("missing-items-refused");
        }
        ctx.seen(mix(&[*k as u64, s.cfg.version as u64, snap.pages_from_source.len() as u64, 6]));
    }
    Ok(())
}
