//! Programs spread over the address space: many small pieces of code whose addresses differ in few
//! bits, jumping among each other through a table; and programs that touch memory all over.
use crate::enc::*;
use crate::host::heap;
use crate::host::*;
use crate::refiss::*;
use crate::rng::Rng;
use ckb_vm::Bytes;
use std::collections::BTreeMap;

const DATA: u64 = 0x2000;
const MAIN: u64 = 0x8000;
const LOW: u64 = 0x10000;

/// Entry addresses, closed in part under flipping one bit.
pub fn spots(rng: &mut Rng, mem: u64) -> Vec<u64> {
    let top = mem / 4 * 3 - 0x2000;
    let ok = |v: &[u64], a: u64| a >= LOW && a < top && v.iter().all(|b| a.abs_diff(*b) >= 256);
    let mut v: Vec<u64> = vec![];
    for _ in 0..3 + rng.us(4) {
        let a = match rng.below(3) { 0 => LOW + PAGE * rng.below((top - LOW) / PAGE), 1 => LOW + PAGE * rng.below((top - LOW) / PAGE) + PAGE - 2 * rng.below(20), _ => LOW + 2 * rng.below((top - LOW) / 2) };
        if ok(&v, a) { v.push(a); }
        for _ in 0..1 + rng.us(5) {
            let b = *rng.pick(&v.iter().copied().chain([a]).collect::<Vec<_>>());
            let c = b ^ (1 << (8 + rng.below(14)));
            if ok(&v, c) { v.push(c); }
        }
    }
    if v.len() < 2 { v.push(0x40000); v.push(0x80000); }
    v.truncate(40);
    v
}

/// A program with a piece of code at each of these addresses.
pub fn image(rng: &mut Rng, xlen: u32, isa: u8, at: &[u64]) -> Image { image_from(rng, xlen, isa, at, DATA, MAIN) }
/// Entry addresses in a memory of several gigabytes, many of them equal in their low bits.
pub fn far_spots(rng: &mut Rng, mem: u64) -> (Vec<u64>, u64, u64) {
    const G: u64 = 1 << 30;
    let top = mem / 4 * 3 - 0x10000;
    let (data, main) = (LOW * 2 + PAGE * rng.below(64) + rng.below(top / G) * G, LOW * 8 + PAGE * rng.below(64) + rng.below(top / G) * G);
    let ok = |v: &[u64], a: u64| a >= LOW && a < top && v.iter().all(|b| a.abs_diff(*b) >= 256) && a.abs_diff(data + PAGE) > 4 * PAGE && a.abs_diff(main) > 2 * PAGE;
    let mut v: Vec<u64> = vec![];
    for _ in 0..3 + rng.us(4) {
        let a = LOW * 16 + match rng.below(3) { 0 => PAGE * rng.below(32), 1 => PAGE * rng.below(32) + PAGE - 2 * rng.below(20), _ => 2 * rng.below(0x20000) } + rng.below(top / G) * G;
        if ok(&v, a) { v.push(a); }
        for _ in 0..1 + rng.us(5) {
            let b = *rng.pick(&v.iter().copied().chain([a]).collect::<Vec<_>>());
            let c = b ^ (1 << (8 + rng.below(26)));
            if ok(&v, c) { v.push(c); }
        }
    }
    if v.is_empty() { v.push(LOW * 4); }
    v.truncate(30);
    (v, data, main)
}
pub fn image_from(rng: &mut Rng, xlen: u32, isa: u8, at: &[u64], data: u64, main: u64) -> Image {
    use Op::*;
    let rv64 = xlen == 64;
    let (w, ld, sd) = if rv64 { (8u64, LD, SD) } else { (4, LW, SW) };
    // x5 counter, x6 generator, x7 its factor, x28 table, x29 the end, x30 scratch memory, x31 shared dispatcher
    let table = 256usize;
    let bits = 8i64;
    let dispatch = |a: &mut Asm, c: bool| {
        let go = a.label();
        a.ic(ADDI, 5, 5, 0, -1, c);
        a.br(BNE, 5, 0, go);
        a.i(JALR, 0, 29, 0, 0);
        a.bind(go);
        a.i(MUL, 6, 6, 7, 0);
        a.i(ADDI, 6, 6, 0, 1237);
        a.i(SRLI, 12, 6, 0, xlen as i64 / 2);
        a.i(ANDI, 12, 12, 0, (1 << bits) - 1);
        a.ic(SLLI, 12, 12, 0, if rv64 { 3 } else { 2 }, c);
        a.ic(ADD, 12, 12, 28, 0, c);
        a.i(ld, 12, 12, 0, 0);
        a.i(JALR, if c { 0 } else { 1 }, 12, 0, 0);
    };
    let mut pages: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let mut put = |base: u64, b: &[u8]| for (k, x) in b.iter().enumerate() { let p = (base + k as u64) / PAGE; pages.entry(p).or_insert_with(|| vec![0; PAGE as usize])[((base + k as u64) % PAGE) as usize] = *x; };
    // entry, end and shared dispatcher
    let mut a = Asm::new(rv64);
    let (d, e) = (a.label(), a.label());
    a.li(5, 30 + rng.below(1400));
    a.li(6, rng.next() & if rv64 { u64::MAX } else { 0xffff_ffff });
    a.li(7, if rv64 { 6364136223846793005 } else { 1664525 });
    a.li(28, data);
    a.li(30, data + 0x1000);
    a.la(29, e);
    a.la(31, d);
    a.bind(d);
    dispatch(&mut a, false);
    a.bind(e);
    a.i(ANDI, 10, 10, 0, 0xff);
    a.i(ADDI, 17, 0, 0, 93);
    a.ecall();
    put(main, &a.assemble(main).bytes);
    for (k, base) in at.iter().enumerate() {
        let mut a = Asm::new(rv64);
        let n = match rng.below(4) { 0 => 0, 1 => 18 + rng.us(16), _ => 1 + rng.us(8) };
        a.i(XORI, 10, 10, 0, (k as i64 * 31 + 7) & 0x7ff);
        for _ in 0..n {
            let c = rng.chance(1, 2);
            let (rd, rs) = (*rng.pick(&[8u8, 9, 10, 11, 13, 14, 15]), *rng.pick(&[8u8, 9, 10, 11, 13, 14, 15, 5]));
            match rng.below(10) {
                0 => a.i(sd, 0, 30, rs, (rng.below(16) * w) as i64),
                1 => a.i(ld, rd, 30, 0, (rng.below(16) * w) as i64),
                2 => a.ic(ADDI, rd, rd, 0, rng.range(-31, 31), c),
                3 => a.i(AUIPC, rd, 0, 0, (rng.below(16) as i64) << 12),
                4 => a.i(XORI, rd, rs, 0, rng.range(-2048, 2047)),
                5 => a.i(SLLI, rd, rs, 0, 1 + rng.below(20) as i64),
                6 if isa & ISA_B != 0 => a.i(RORI, rd, rs, 0, 1 + rng.below(20) as i64),
                7 if isa & ISA_B != 0 => a.i(*rng.pick(&[CLMUL, CLMULH, CLMULR, ORCB, CPOP, ROL, BSET, ANDN, MINU, SH3ADD]), rd, rd, rs, 0),
                7 => a.i(MUL, rd, rd, rs, 0),
                _ => a.ic(*rng.pick(&[ADD, XOR, SUB]), rd, rd, rs, 0, c),
            }
        }
        match rng.below(3) { 0 => { let c = rng.chance(1, 2); a.ic(JALR, 0, 31, 0, 0, c); } 1 => dispatch(&mut a, true), _ => dispatch(&mut a, false) }
        let b = a.assemble(*base).bytes;
        assert!(b.len() <= 256);
        put(*base, &b);
    }
    let mut t = vec![];
    for _ in 0..table { t.extend_from_slice(&rng.pick(at).to_le_bytes()[..w as usize]); }
    t.resize(0x1000, 0);
    t.extend(rng.bytes(0x100));
    let mut segs = vec![Seg { vaddr: data, memsz: 0x2000, data: t, flags: PF_R | PF_W }];
    // neighbouring pages now and then in one segment
    for (p, b) in pages {
        let v = p * PAGE;
        match segs.last_mut() { Some(s) if s.flags & PF_X != 0 && s.vaddr + s.memsz == v && rng.chance(1, 2) => { s.data.extend(b); s.memsz += PAGE; } _ => segs.push(Seg { vaddr: v, memsz: PAGE, data: b, flags: PF_R | PF_X }) }
    }
    Image { elf: Bytes::from(build_elf(rv64, main, &segs)), segs, entry: main, args: vec![] }
}

/// A program that reads and writes words all over a few areas, with stops in between.
pub fn touch(rng: &mut Rng, xlen: u32, mem: u64, n: usize, stores: u64, calls: &[u64]) -> Image {
    use Op::*;
    let rv64 = xlen == 64;
    let (h, hn) = heap(mem);
    let mut a = Asm::new(rv64);
    let few: Vec<u64> = (0..1 + rng.us(4)).map(|_| match rng.below(3) { 0 => h + PAGE * rng.below(hn), 1 => 0x8000 + PAGE * rng.below((mem / 4 * 3 - 0x10000) / PAGE), _ => (0x40000 * rng.below(mem / 0x40000)).max(0x9000) }).filter(|x| !(0x4000..0x8000).contains(x)).collect();
    let few = if few.is_empty() { vec![h] } else { few };
    for k in 0..n {
        let at = *rng.pick(&few) + 8 * rng.below(512);
        a.li(12, at & if rv64 { u64::MAX } else { 0xffff_ffff });
        if rng.below(10) < stores { a.li(13, rng.next() & if rv64 { u64::MAX } else { 0xffff_ffff }); a.i(*rng.pick(&[if rv64 { SD } else { SW }, SW, SB]), 0, 12, 13, 0); }
        else { a.i(*rng.pick(&[if rv64 { LD } else { LW }, LW, LBU]), 14, 12, 0, 0); a.i(ADD, 11, 11, 14, 0); a.i(XORI, 11, 11, 0, k as i64 & 0x7ff); }
        if !calls.is_empty() && rng.chance(1, 4) { a.li(17, *rng.pick(calls)); a.ecall(); }
    }
    a.i(ANDI, 10, 11, 0, 0xff);
    a.i(ADDI, 17, 0, 0, 93);
    a.ecall();
    let b = a.assemble(0x4000);
    assert!(b.bytes.len() < 0x4000);
    let segs = vec![Seg { vaddr: 0x4000, memsz: b.bytes.len() as u64, data: b.bytes, flags: PF_R | PF_X }];
    Image { elf: Bytes::from(build_elf(rv64, 0x4000, &segs)), segs, entry: 0x4000, args: vec![] }
}

/// A piece of code a host loads on request: how many bytes of memory it takes, where in them it
/// starts, and the code. It is called with x1, works on x8 to x15 and on the words at x30.
pub fn plugin(seed: u64, rv64: bool) -> (u64, u64, Vec<u8>) {
    use Op::*;
    let mut r = Rng::new(seed);
    let (w, ld, sd) = if rv64 { (8u64, LD, SD) } else { (4, LW, SW) };
    let pages = 1 + r.below(3);
    let n = match r.below(4) { 0 => 0, 1 => 20 + r.us(30), _ => 1 + r.us(10) };
    let mut a = Asm::new(rv64);
    a.i(XORI, 10, 10, 0, r.range(-2048, 2047));
    for _ in 0..n {
        let c = r.chance(1, 2);
        let (rd, rs) = (8 + r.below(8) as u8, *r.pick(&[8u8, 9, 10, 11, 12, 13, 14, 15, 5, 6]));
        match r.below(9) {
            0 => a.i(sd, 0, 30, rs, (r.below(16) * w) as i64),
            1 => a.i(ld, rd, 30, 0, (r.below(16) * w) as i64),
            2 => a.ic(ADDI, rd, rd, 0, r.range(-31, 31), c),
            3 => a.i(AUIPC, rd, 0, 0, (r.below(16) as i64) << 12),
            4 => { let l = a.label(); a.br(*r.pick(&[BEQ, BNE, BLT, BGEU]), rd, rs, l); a.i(ADDI, rd, rs, 0, 77); a.bind(l); }
            5 => a.i(MUL, rd, rd, rs, 0),
            _ => a.ic(*r.pick(&[ADD, XOR, SUB]), rd, rd, rs, 0, c),
        }
    }
    match r.below(4) {
        // on to another one
        0 => {
            let l = a.label();
            a.ic(ADDI, 5, 5, 0, -1, true);
            a.br(BGE, 0, 5, l);
            a.i(ld, 12, 28, 0, (r.below(16) * w) as i64);
            a.ic(JALR, 0, 12, 0, 0, r.chance(1, 2));
            a.bind(l);
            a.ic(JALR, 0, 1, 0, 0, false);
        }
        _ => a.ic(JALR, 0, 1, 0, 0, r.chance(1, 2)),
    }
    let size = pages * PAGE;
    let code = a.assemble(0).bytes;
    let room = size - code.len() as u64;
    let off = match r.below(4) { 0 => 0, 1 => room & !1, 2 if pages > 1 => PAGE - 2 * r.below(40), _ => r.below(room / 2 + 1) * 2 };
    (size, off.min(room & !1), code)
}

/// A program that asks its host to load pieces of code here and there, and calls them.
pub fn loader(rng: &mut Rng, xlen: u32, mem: u64, calls: &[u64]) -> Image {
    use Op::*;
    let rv64 = xlen == 64;
    let (w, ld, sd) = if rv64 { (8u64, LD, SD) } else { (4, LW, SW) };
    let top = mem / 4 * 3 - 4 * PAGE;
    let ok = |a: u64| a >= LOW && a < top;
    let mut at: Vec<u64> = vec![];
    while at.len() < 16 {
        let b = if at.is_empty() { LOW } else { *rng.pick(&at) };
        let a = match rng.below(8) {
            0 | 1 => b + PAGE * (1 + rng.below(4)),
            2 | 3 => b ^ (PAGE << rng.below(9)),
            4 => 0x40000 * (1 + rng.below(mem / 0x40000)) - PAGE * rng.below(3),
            // refused by any host
            5 if rng.chance(1, 8) => { at.push(*rng.pick(&[LOW + 8, MAIN, mem - PAGE + 2, mem, mem + PAGE, PAGE - 4])); continue; }
            _ => LOW + PAGE * rng.below((top - LOW) / PAGE),
        };
        if ok(a) { at.push(a); }
    }
    // x5 counter, x6 generator, x7 its factor, x28 table, x30 scratch memory, x31 slots
    let mut a = Asm::new(rv64);
    let (top, end, stub, skip, fresh) = (a.label(), a.label(), a.label(), a.label(), a.label());
    a.li(5, 20 + rng.below(400));
    a.li(6, rng.next() & if rv64 { u64::MAX } else { 0xffff_ffff });
    a.li(7, if rv64 { 6364136223846793005 } else { 1664525 });
    a.li(28, DATA);
    a.li(30, DATA + 0x1000);
    a.li(31, DATA + 0x400);
    a.bind(top);
    a.i(ADDI, 5, 5, 0, -1);
    a.br(BGE, 0, 5, end);
    a.i(MUL, 6, 6, 7, 0);
    a.i(ADDI, 6, 6, 0, 1237);
    a.i(SRLI, 16, 6, 0, xlen as i64 / 2);
    a.i(ANDI, 29, 16, 0, 15);
    a.i(SLLI, 29, 29, 0, if rv64 { 3 } else { 2 });
    a.i(ANDI, 16, 16, 0, *rng.pick(&[0x70i64, 0x30, 0xf0]));
    a.br(BNE, 16, 0, skip);
    // what a slot holds before; then ask
    a.i(ADD, 12, 31, 29, 0);
    a.i(ld, 18, 12, 0, 0);
    if rng.chance(1, 2) {
        // written by the program itself, where it believes that nothing was loaded yet
        let l = a.label();
        a.i(ADD, 12, 28, 29, 0);
        a.i(ld, 13, 12, 0, 0);
        a.la(14, stub);
        a.br(BNE, 13, 14, l);
        let n = rng.below(250) as i64 * 8;
        a.i(*rng.pick(&[sd, SW, SB]), 0, 18, 5, n);
        if rng.chance(1, 2) { a.i(*rng.pick(&[ld, LW, LBU]), 13, 18, 0, n); a.i(ADD, 8, 8, 13, 0); }
        a.bind(l);
    }
    if rng.chance(1, 2) { a.i(ADDI, 10, 18, 0, 0); a.i(ADDI, 11, 5, 0, 0); a.li(12, 40); a.li(17, CALL_STORE); a.ecall(); a.i(ADD, 8, 8, 10, 0); }
    if rng.chance(1, 3) { a.i(ADDI, 10, 18, 0, 0); a.li(11, 0x55); a.li(12, 0x1fff); a.li(17, CALL_FILL); a.ecall(); a.i(ADD, 8, 8, 10, 0); }
    a.i(ADDI, 10, 18, 0, 0);
    a.i(ANDI, 11, 6, 0, 0x7ff);
    a.li(12, rv64 as u64);
    a.li(17, CALL_CODE);
    a.ecall();
    a.i(ADD, 8, 8, 10, 0);
    a.br(BEQ, 10, 0, skip);
    a.i(ADD, 12, 28, 29, 0);
    a.i(sd, 0, 12, 10, 0);
    if rng.chance(1, 2) {
        // bytes around it
        a.i(if rv64 { LD } else { LW }, 13, 18, 0, 0);
        a.i(XOR, 8, 8, 13, 0);
        a.i(LBU, 13, 18, 0, 2040);
        a.i(ADD, 8, 8, 13, 0);
    }
    if !calls.is_empty() && rng.chance(1, 2) { a.li(17, *rng.pick(calls)); a.ecall(); }
    a.bind(skip);
    if !calls.is_empty() { a.br(BNE, 29, 0, fresh); a.li(17, *rng.pick(calls)); a.ecall(); }
    a.bind(fresh);
    a.i(ADD, 12, 28, 29, 0);
    a.i(ld, 12, 12, 0, 0);
    a.i(JALR, 1, 12, 0, 0);
    a.jal(0, top);
    a.bind(end);
    // code that was loaded cannot be written
    if rng.chance(1, 4) { let n = rng.below(250) as i64 * 8; a.i(*rng.pick(&[sd, SW, SB]), 0, 18, 5, n); }
    a.i(XOR, 10, 10, 8, 0);
    a.i(ANDI, 10, 10, 0, 0xff);
    a.i(ADDI, 17, 0, 0, 93);
    a.ecall();
    a.bind(stub);
    a.i(ADDI, 9, 9, 0, 3);
    a.ic(JALR, 0, 1, 0, 0, true);
    let b = a.assemble(MAIN);
    assert!(b.bytes.len() < PAGE as usize);
    let s = b.labels[stub];
    let mut t = vec![];
    for _ in 0..16 { t.extend_from_slice(&s.to_le_bytes()[..w as usize]); }
    t.resize(0x400, 0);
    for x in &at { t.extend_from_slice(&x.to_le_bytes()[..w as usize]); }
    t.resize(0x1000, 0);
    t.extend(rng.bytes(0x100));
    let segs = vec![Seg { vaddr: DATA, memsz: 0x2000, data: t, flags: PF_R | PF_W }, Seg { vaddr: MAIN, memsz: b.bytes.len() as u64, data: b.bytes, flags: PF_R | PF_X }];
    Image { elf: Bytes::from(build_elf(rv64, MAIN, &segs)), segs, entry: MAIN, args: vec![] }
}
