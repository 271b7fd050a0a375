//! Program images with arbitrary headers, and an independent reader of them.
use crate::enc::*;
use crate::refiss::*;
use crate::rng::Rng;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ph { pub ty: u32, pub flags: u32, pub off: u64, pub vaddr: u64, pub paddr: u64, pub filesz: u64, pub memsz: u64, pub align: u64 }

#[derive(Clone, Debug)]
pub struct Raw { pub wide: bool, pub be: bool, pub entry: u64, pub phoff: u64, pub phnum: u16, pub phentsize: u16, pub machine: u16, pub etype: u16, pub phs: Vec<Ph>, /// file contents behind the header and table
    pub body: Vec<u8>, /// whether the table follows the body
    pub table_last: bool }

impl Raw {
    pub fn ehsize(&self) -> usize { if self.wide { 64 } else { 52 } }
    pub fn phsize(&self) -> usize { if self.wide { 56 } else { 32 } }
    /// where the body starts
    pub fn body_at(&self) -> usize { self.ehsize() + if self.table_last { 0 } else { self.phsize() * self.phs.len() } }
    pub fn place_table(&mut self) { self.phoff = if self.table_last { (self.ehsize() + self.body.len()) as u64 } else { self.ehsize() as u64 }; self.phnum = self.phs.len() as u16; }
    pub fn emit(&self) -> Vec<u8> {
        let mut o = vec![];
        let be = self.be;
        let n = |o: &mut Vec<u8>, v: u64, w: usize| { let b = v.to_le_bytes(); if be { o.extend(b[..w].iter().rev()) } else { o.extend(&b[..w]) } };
        let a = if self.wide { 8 } else { 4 };
        o.extend(b"\x7fELF");
        o.extend([if self.wide { 2u8 } else { 1 }, if be { 2 } else { 1 }, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        n(&mut o, self.etype as u64, 2);
        n(&mut o, self.machine as u64, 2);
        n(&mut o, 1, 4);
        n(&mut o, self.entry, a);
        n(&mut o, self.phoff, a);
        n(&mut o, 0, a);
        n(&mut o, 0, 4);
        n(&mut o, self.ehsize() as u64, 2);
        n(&mut o, self.phentsize as u64, 2);
        n(&mut o, self.phnum as u64, 2);
        n(&mut o, if self.wide { 64 } else { 40 }, 2);
        n(&mut o, 0, 2);
        n(&mut o, 0, 2);
        let mut t = vec![];
        for p in &self.phs {
            n(&mut t, p.ty as u64, 4);
            if self.wide { n(&mut t, p.flags as u64, 4); }
            for v in [p.off, p.vaddr, p.paddr, p.filesz, p.memsz] { n(&mut t, v, a); }
            if !self.wide { n(&mut t, p.flags as u64, 4); }
            n(&mut t, p.align, a);
        }
        if self.table_last { o.extend(&self.body); o.extend(&t); } else { o.extend(&t); o.extend(&self.body); }
        o
    }
}

/// An image every loader has to accept: page-disjoint segments inside the address space.
pub fn valid(rng: &mut Rng, xlen: u32, mem: u64, version: u32) -> Raw {
    let wide = xlen == 64;
    let mut r = Raw { wide, be: false, entry: 0, phoff: 0, phnum: 0, phentsize: if wide { 56 } else { 32 }, machine: 243, etype: 2, phs: vec![], body: vec![], table_last: rng.chance(1, 4) };
    let n = rng.us(5) + rng.chance(9, 10) as usize;
    let mut used: Vec<(u64, u64)> = vec![];
    let pages = mem / PAGE;
    let mut bodies = vec![];
    for _ in 0..n {
        if rng.chance(1, 6) {
            // something else than a loadable segment, with arbitrary contents
            let p = Ph { ty: *rng.pick(&[0u32, 2, 3, 4, 6, 7, 0x6474e550, 0x6474e551, 0x6474e552, 0x70000003, 0x10001, u32::MAX]), flags: rng.u32() & 7, off: rng.value(), vaddr: rng.value(), paddr: rng.value(), filesz: rng.value(), memsz: rng.value(), align: rng.value() };
            bodies.push(vec![]);
            r.phs.push(if wide { p } else { Ph { off: p.off as u32 as u64, vaddr: p.vaddr as u32 as u64, paddr: p.paddr as u32 as u64, filesz: p.filesz as u32 as u64, memsz: p.memsz as u32 as u64, align: p.align as u32 as u64, ..p } });
            continue;
        }
        let np = match rng.below(6) { 0 => 1 + rng.below(pages / 2), 1 => 0x3f, 2 => 64, 3 => 65, _ => 1 + rng.below(4) };
        let np = np.min(pages);
        let start = match rng.below(8) { 0 => 0, 1 => pages - np, 2 => ((rng.below(pages) | 63) + 1).saturating_sub(np).min(pages - np), 3 => (rng.below(pages) & !63).min(pages - np), _ => rng.below(pages - np + 1) };
        if used.iter().any(|(a, b)| start < *b && *a < start + np) { continue; }
        used.push((start, start + np));
        let flags = *rng.pick(&[PF_R, PF_R, PF_R | PF_X, PF_R | PF_X, PF_R | PF_W, PF_R | PF_W]) | if rng.chance(1, 8) { *rng.pick(&[8u32, 0x10, 0x80000000, 0x0ff00000]) } else { 0 };
        let pad = if version == 0 && flags & PF_X != 0 || rng.chance(1, 2) { 0 } else { match rng.below(3) { 0 => 1, 1 => PAGE - 1, _ => rng.below(PAGE) } };
        let most = np * PAGE - pad;
        let least = if pad == 0 && np == 1 { 0 } else { ((np - 1) * PAGE + 1).saturating_sub(pad) };
        let memsz = match rng.below(4) { 0 => most, 1 => least.max(1).min(most), _ => least.max(1) + rng.below(most - least.max(1).min(most) + 1) }.min(most);
        let filesz = match rng.below(6) { 0 => 0, 1 => memsz, 2 => memsz / 2, 3 => memsz.saturating_sub(rng.below(5)), 4 => memsz / PAGE * PAGE, _ => rng.below(memsz + 1) };
        let d = rng.bytes(filesz as usize);
        r.phs.push(Ph { ty: 1, flags, off: 0, vaddr: start * PAGE + pad, paddr: if rng.chance(1, 2) { start * PAGE + pad } else { rng.u32() as u64 }, filesz, memsz, align: *rng.pick(&[0u64, 1, PAGE, 0x10000]) });
        bodies.push(d);
    }
    r.body = if rng.chance(1, 3) { let n = rng.us(40); rng.bytes(n) } else { vec![] };
    let at = r.body_at() as u64;
    for (p, d) in r.phs.iter_mut().zip(bodies) {
        if p.ty != 1 { continue; }
        // now and then two segments share their bytes in the file
        let fsz = d.len() as u64;
        if !r.body.is_empty() && fsz <= r.body.len() as u64 && rng.chance(1, 6) { p.off = at + rng.below(r.body.len() as u64 - fsz + 1); } else { p.off = at + r.body.len() as u64; r.body.extend(d); }
        if rng.chance(1, 4) { let n = rng.us(20); r.body.extend(rng.bytes(n)); }
    }
    r.entry = match rng.below(4) { 0 => 0, 1 => if wide { rng.value() } else { rng.u32() as u64 }, _ => { let k = r.phs.iter().find(|p| p.ty == 1 && p.flags & PF_X != 0); k.map_or(4, |p| p.vaddr) } };
    r.place_table();
    r
}

/// Changes header fields to what nobody expects; the contents stay where they are.
pub fn twist(rng: &mut Rng, r: &mut Raw, mem: u64) {
    let len = r.emit().len() as u64;
    for _ in 0..1 + rng.below(3) {
        let k = rng.us(r.phs.len().max(1));
        let odd = |rng: &mut Rng| -> u64 { match rng.below(10) { 0 => 0, 1 => rng.value(), 2 => u64::MAX - rng.below(3 * PAGE), 3 => mem.wrapping_add(rng.range(-2 * PAGE as i64, 2) as u64), 4 => len.wrapping_add(rng.range(-3, 3) as u64), 5 => mem + rng.below(mem), 6 => (1 << 32) + rng.below(mem), 7 => rng.below(mem), 8 => (1u64 << 63) + rng.below(mem), _ => rng.below(3 * PAGE) } };
        match rng.below(16) {
            0 if !r.phs.is_empty() => r.phs[k].flags = rng.u32() & 7,
            1 if !r.phs.is_empty() => r.phs[k].flags = rng.u32(),
            2 if !r.phs.is_empty() => r.phs[k].vaddr = odd(rng),
            3 if !r.phs.is_empty() => r.phs[k].memsz = odd(rng),
            4 if !r.phs.is_empty() => r.phs[k].filesz = odd(rng),
            5 if !r.phs.is_empty() => r.phs[k].off = odd(rng),
            6 if !r.phs.is_empty() => { let m = r.phs[k].memsz; r.phs[k].filesz = m.wrapping_add(rng.below(2 * PAGE)).min(len) }
            7 if r.phs.len() > 1 => { let j = rng.us(r.phs.len()); let v = r.phs[j].vaddr; r.phs[k].vaddr = v.wrapping_add(rng.range(-(PAGE as i64) * 2, PAGE as i64 * 2) as u64) }
            8 if !r.phs.is_empty() => { let p = r.phs[k].clone(); r.phs.push(p); r.place_table() }
            9 => r.phoff = if rng.chance(1, 2) { odd(rng) } else { len.wrapping_sub(rng.below(120)) },
            10 => r.phnum = *rng.pick(&[0u16, 1, 2, 100, 0xffff, 0xfffe, 0x8000]),
            11 => r.entry = odd(rng),
            12 => r.be = !r.be,
            13 => { r.machine = rng.u32() as u16; r.etype = rng.u32() as u16 }
            14 if !r.phs.is_empty() => r.phs[k].ty = *rng.pick(&[0u32, 1, 1, 2, 6]),
            15 if r.phs.len() > 1 => { let j = rng.us(r.phs.len()); r.phs.swap(j, k) }
            _ => if !r.phs.is_empty() { r.phs[k].align = odd(rng) },
        }
    }
}

/// Random damage to the bytes.
pub fn damage(rng: &mut Rng, b: &mut Vec<u8>) {
    match rng.below(6) {
        0 => { let n = rng.us(b.len() + 1); b.truncate(n) }
        1 => { let n = rng.us(130.min(b.len() + 1)); b.truncate(n) }
        2 => { for _ in 0..1 + rng.below(4) { if !b.is_empty() { let k = rng.us(b.len().min(64)); b[k] = rng.next() as u8; } } }
        3 => { for _ in 0..1 + rng.below(6) { if !b.is_empty() { let k = rng.us(b.len().min(400)); b[k] ^= 1 << rng.below(8); } } }
        4 => { let k = rng.us(16.min(b.len()).max(1)); if k < b.len() { b[k] = *rng.pick(&[0u8, 1, 2, 3, 0xff]); } }
        _ => { let n = rng.us(100); b.extend(rng.bytes(n)) }
    }
}

#[derive(Debug)]
pub struct Read { pub entry: u64, pub phs: Vec<Ph>, /// the table's entries do not have the size the format says
    pub odd_table: bool }

/// What the headers say, or why they say nothing.
pub fn read(b: &[u8], xlen: u32) -> Result<Read, &'static str> {
    if b.len() < 16 || &b[..4] != b"\x7fELF" { return Err("no magic number"); }
    let wide = match b[4] { 1 => false, 2 => true, _ => return Err("no such class") };
    let be = match b[5] { 1 => false, 2 => true, _ => return Err("no such byte order") };
    if wide != (xlen == 64) { return Err("wrong word size"); }
    let (eh, ph, a) = if wide { (64usize, 56usize, 8usize) } else { (52, 32, 4) };
    if b.len() < eh { return Err("header cut short"); }
    let n = |at: usize, w: usize| -> u64 { let s = &b[at..at + w]; if be { s.iter().fold(0, |v, x| v << 8 | *x as u64) } else { s.iter().rev().fold(0, |v, x| v << 8 | *x as u64) } };
    let entry = n(24, a);
    let phoff = n(24 + a, a);
    let tail = 24 + 3 * a + 4 + 2;
    let (phentsize, phnum) = (n(tail, 2), n(tail + 2, 2));
    let mut phs = vec![];
    for k in 0..phnum {
        let at = phoff as u128 + k as u128 * ph as u128;
        if at + ph as u128 > b.len() as u128 { return Err("table outside of the file"); }
        let at = at as usize;
        phs.push(if wide {
            Ph { ty: n(at, 4) as u32, flags: n(at + 4, 4) as u32, off: n(at + 8, 8), vaddr: n(at + 16, 8), paddr: n(at + 24, 8), filesz: n(at + 32, 8), memsz: n(at + 40, 8), align: n(at + 48, 8) }
        } else {
            Ph { ty: n(at, 4) as u32, off: n(at + 4, 4), vaddr: n(at + 8, 4), paddr: n(at + 12, 4), filesz: n(at + 16, 4), memsz: n(at + 20, 4), flags: n(at + 24, 4) as u32, align: n(at + 28, 4) }
        });
    }
    Ok(Read { entry, phs, odd_table: phentsize as usize != ph && phnum > 0 })
}

/// Loads what was read; Err(reason) when it has to be refused. `wrap`: memory sizes are rounded up modulo 2^64.
pub fn model(r: &Read, b: &[u8], m: &mut RefMem, version: u32, wrap: bool) -> Result<u64, &'static str> {
    let mut total = 0u64;
    for p in r.phs.iter().filter(|p| p.ty == 1) {
        if p.flags & PF_R == 0 { return Err("unreadable segment"); }
        if p.flags & PF_W != 0 && p.flags & PF_X != 0 { return Err("writable and executable segment"); }
        if p.off as u128 + p.filesz as u128 > b.len() as u128 { return Err("segment outside of the file"); }
        total += p.filesz;
    }
    for p in r.phs.iter().filter(|p| p.ty == 1) {
        let start = p.vaddr / PAGE * PAGE;
        let pad = p.vaddr - start;
        let len = (p.memsz as u128 + pad as u128 + PAGE as u128 - 1) / PAGE as u128 * PAGE as u128;
        let len = if wrap { len & u64::MAX as u128 } else { len };
        if start as u128 + len > m.size() as u128 { return Err("segment outside of the address space"); }
        let fl = if p.flags & PF_X != 0 { EXEC | FREEZED } else if p.flags & PF_W != 0 && version >= 1 { 0 } else { FREEZED };
        m.init_pages(start, len as u64, fl, Some(&b[p.off as usize..(p.off + p.filesz) as usize]), pad).map_err(|_| "segment over a frozen page")?;
        if version == 0 && pad > 0 && fl & EXEC != 0 { return Err("unaligned executable segment in version 0"); }
    }
    Ok(total)
}
