//! The word arithmetic behind every instruction, at both widths, against wide integers.
use super::*;
use crate::ensure;
use crate::rng::mix;
use ckb_vm::Register;

macro_rules! width { ($name:ident, $t:ty, $s:ty, $bits:expr) => {
fn $name(ctx: &mut Ctx, rng: &mut Rng) -> V {
    const B: u32 = $bits;
    let m: u128 = (1u128 << B) - 1;
    let sx = |v: u128| -> i128 { ((v << (128 - B)) as i128) >> (128 - B) };
    for _ in 0..400 {
        let pickv = |rng: &mut Rng| -> $t { match rng.below(4) { 0 => rng.value() as $t, 1 => *rng.pick(&[0, 1, 2, <$t>::MAX, <$t>::MAX / 2, <$t>::MAX / 2 + 1, <$t>::MAX - 1]), 2 => ((1 as $t) << rng.below(B as u64)).wrapping_sub(rng.below(2) as $t), _ => rng.next() as $t } };
        let (a, b) = (pickv(rng), pickv(rng));
        let (ua, ub) = (a as u128, b as u128);
        let (sa, sb) = (sx(ua), sx(ub));
        let sh = rng.below(B as u64) as u32;
        let bit = 1 + rng.below(B as u64 + 8) as u32;
        let eb = bit.min(B);
        let clm: u128 = (0..B).filter(|k| ub >> k & 1 == 1).fold(0u128, |x, k| x ^ (ua << k));
        let by = (B / 8) as usize;
        let bytes = &ua.to_le_bytes()[..by];
        let join = |v: Vec<u8>| -> u128 { v.iter().enumerate().fold(0u128, |x, (k, c)| x | (*c as u128) << (8 * k)) };
        let div0 = ub == 0;
        let table: Vec<(&str, $t, u128)> = vec![
            ("zero", <$t>::zero(), 0), ("one", <$t>::one(), 1), ("min_value", <$t as Register>::min_value(), 0), ("max_value", <$t as Register>::max_value(), m),
            ("eq", Register::eq(&a, &b), (ua == ub) as u128), ("ne", Register::ne(&a, &b), (ua != ub) as u128),
            ("lt", Register::lt(&a, &b), (ua < ub) as u128), ("lt_s", a.lt_s(&b), (sa < sb) as u128),
            ("ge", Register::ge(&a, &b), (ua >= ub) as u128), ("ge_s", a.ge_s(&b), (sa >= sb) as u128),
            ("not of a condition", Register::lt(&a, &b).logical_not(), (ua >= ub) as u128),
            ("cond", Register::lt(&a, &b).cond(&a, &b), ua.min(ub)),
            ("add", Register::overflowing_add(&a, &b), ua + ub), ("sub", Register::overflowing_sub(&a, &b), ua.wrapping_sub(ub)), ("mul", Register::overflowing_mul(&a, &b), ua.wrapping_mul(ub)),
            ("div", Register::overflowing_div(&a, &b), if div0 { m } else { ua / ub }), ("rem", Register::overflowing_rem(&a, &b), if div0 { ua } else { ua % ub }),
            ("signed div", a.overflowing_div_signed(&b), if div0 { m } else { (sa / sb) as u128 }), ("signed rem", a.overflowing_rem_signed(&b), if div0 { ua } else { (sa % sb) as u128 }),
            ("mulh", a.overflowing_mul_high_signed(&b), ((sa * sb) >> B) as u128), ("mulhu", a.overflowing_mul_high_unsigned(&b), (ua * ub) >> B),
            ("mulhsu", a.overflowing_mul_high_signed_unsigned(&b), { let (lo, hi) = (sa.wrapping_mul(ub as i128), sa); let _ = hi; (lo >> B) as u128 }),
            ("clz", Register::clz(&a), (0..B).take_while(|k| ua >> (B - 1 - k) & 1 == 0).count() as u128),
            ("ctz", Register::ctz(&a), (0..B).take_while(|k| ua >> k & 1 == 0).count() as u128),
            ("cpop", Register::cpop(&a), (0..B).filter(|k| ua >> k & 1 == 1).count() as u128),
            ("clmul", Register::clmul(&a, &b), clm), ("clmulh", Register::clmulh(&a, &b), clm >> B), ("clmulr", Register::clmulr(&a, &b), clm >> (B - 1)),
            ("orcb", Register::orcb(&a), join(bytes.iter().map(|c| if *c == 0 { 0 } else { 255 }).collect())),
            ("rev8", Register::rev8(&a), join(bytes.iter().rev().cloned().collect())),
            ("signed shl", a.signed_shl(&(sh as $t)), ua << sh), ("signed shr", a.signed_shr(&(sh as $t)), (sa >> sh) as u128),
            ("rol", Register::rol(&a, &b), { let s = (b as u32) % B; (ua << s) | (ua >> (B - s)) }), ("ror", Register::ror(&a, &b), { let s = (b as u32) % B; (ua >> s) | (ua << (B - s)) }),
            ("zero_extend", a.zero_extend(&(bit as $t)), ua & ((1u128 << eb) - 1)),
            ("sign_extend", a.sign_extend(&(bit as $t)), (((ua << (128 - eb)) as i128) >> (128 - eb)) as u128),
            ("from_i8", <$t>::from_i8(b as i8), b as i8 as i128 as u128), ("from_i16", <$t>::from_i16(b as i16), b as i16 as i128 as u128), ("from_i32", <$t>::from_i32(b as i32), b as i32 as i128 as u128), ("from_i64", <$t>::from_i64(b as i64), b as i64 as i128 as u128),
            ("from_u8", <$t>::from_u8(b as u8), b as u8 as u128), ("from_u16", <$t>::from_u16(b as u16), b as u16 as u128), ("from_u32", <$t>::from_u32(b as u32), b as u32 as u128), ("from_u64", <$t>::from_u64(b as u64), b as u64 as u128),
        ];
        for (n, got, want) in table {
            ensure!(got as u128 == want & m, "{}-bit {n}: {a:#x}, {b:#x} (shift {sh}, bit {bit}) gives {got:#x}, expected {:#x}", B, want & m);
            ctx.add("operations", 1);
        }
        let outs: [(&str, i128, i128); 8] = [
            ("to_i8", a.to_i8() as i128, a as i8 as i128), ("to_i16", a.to_i16() as i128, a as i16 as i128), ("to_i32", a.to_i32() as i128, a as i32 as i128), ("to_i64", a.to_i64() as i128, sa),
            ("to_u8", a.to_u8() as i128, a as u8 as i128), ("to_u16", a.to_u16() as i128, a as u16 as i128), ("to_u32", a.to_u32() as i128, a as u32 as i128), ("to_u64", a.to_u64() as i128, ua as i128),
        ];
        for (n, got, want) in outs { ensure!(got == want, "{}-bit {n}: {a:#x} gives {got}, expected {want}", B); }
        ensure!((<$t as Register>::BITS as u32, <$t as Register>::SHIFT_MASK as u32) == (B, B - 1), "{}-bit constants", B);
        ctx.seen(mix(&[B as u64, (sa < 0) as u64, (sb < 0) as u64, ua.leading_zeros() as u64, ub.leading_zeros() as u64]));
    }
    Ok(())
}
} }
width!(w32, u32, i32, 32);
width!(w64, u64, i64, 64);

pub fn words(ctx: &mut Ctx, rng: &mut Rng) -> V { w32(ctx, rng)?; w64(ctx, rng) }
