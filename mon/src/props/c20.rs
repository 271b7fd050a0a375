//! Nothing makes the VM panic, abort or run on.
use super::*;
use crate::common::*;
use crate::ensure;
use crate::galloc;
use crate::hostile::*;
use crate::rng::mix;
use ckb_vm::decoder::{build_decoder, InstDecoder};
use ckb_vm::instructions::tagged::TaggedInstruction;
use ckb_vm::{FlatMemory, Memory};

pub fn parts() -> Vec<Part> { vec![("sessions", 8, sessions), ("memories", 2, memories), ("words", 2, words), ("images", 3, images), ("code", 4, code)] }

/// no single allocation of a call may be larger than this
const CAP: usize = 96 << 20;

fn sessions(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    galloc::capped(CAP, || {
        let mut s = Session::new(rng);
        for _ in 0..60 { s.op(ctx, rng)?; }
        ctx.max("max:cpu-ms-per-call", (s.worst * 1000.0) as u64);
        ctx.max("max:cycles-of-a-run", s.most_cycles);
        ctx.add("breakpoints-and-host-calls-from-the-guest", s.st.lock().unwrap().events);
        drop(s);
        Ok(())
    })
}
fn memories(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    let n = 150;
    galloc::capped(CAP, || bare_any(rng, n, 3.0))?;
    ctx.add("memory-calls", n as u64);
    ctx.seen(rng.next() % 997);
    Ok(())
}
/// every word the decoder takes can be named, costed and measured
fn words(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    let (isa, version) = isa_version(rng);
    let x32 = rng.chance(1, 5);
    let xl = if x32 { 32 } else { 64 };
    let n = 4096 * 3;
    let c = chaos_code(rng, xl, n);
    let mut m = FlatMemory::<u64>::new_with_memory(n);
    m.store_bytes(0, &c).map_err(|e| format!("{e:?}"))?;
    let mut d = if x32 { build_decoder::<u32>(isa, version) } else { build_decoder::<u64>(isa, version) };
    let mut text = 0usize;
    for _ in 0..6000 {
        let pc = match rng.below(8) { 0 => evil(rng, n as u64), 1 => rng.below(n as u64), _ => rng.below(n as u64) & !1 };
        // an odd pc never arises
        let pc = pc & !1;
        if let Ok(i) = d.decode(&mut m, pc) {
            let l = ckb_vm::instructions::instruction_length(i);
            ensure!(l >= 2, "the instruction at {pc:#x} has length {l}");
            let cost = ckb_vm::cost_model::estimate_cycles(i);
            ensure!(cost >= 1, "the instruction {i:#x} at {pc:#x} costs nothing");
            if let Ok(t) = TaggedInstruction::try_from(i) { text += t.to_string().len(); ctx.count("instructions-named"); } else { return Err(format!("the instruction {i:#x} at {pc:#x} cannot be named")); }
            let _ = (ckb_vm::instructions::is_basic_block_end_instruction(i), ckb_vm::instructions::is_slowpath_instruction(i));
            ctx.seen(mix(&[i & 0xff_00ff, version as u64]));
        } else { ctx.count("words-refused"); }
    }
    ensure!(text > 0, "nothing was decoded");
    Ok(())
}
/// many images on one machine each
fn images(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    galloc::capped(CAP, || {
        for _ in 0..12 {
            let mut s = Session::new(rng);
            for _ in 0..1 + rng.below(3) { s.load_one(ctx, rng)?; }
            s.run_one(ctx, rng)?;
        }
        Ok(())
    })
}
/// random code, whole pages of it, entered anywhere
fn code(ctx: &mut Ctx, rng: &mut Rng) -> V {
    trail_clear();
    galloc::capped(CAP, || {
        let mut s = Session::new(rng);
        for _ in 0..25 { s.code_one(ctx, rng)?; }
        ctx.max("max:cycles-of-a-run", s.most_cycles);
        Ok(())
    })
}
