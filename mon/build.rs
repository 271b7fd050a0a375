// Every call of the assembly engine's entry goes through src/asmwrap.rs, or, with the feature `arm`, through
// src/arm.rs: then execute_aarch64.S is assembled and its machine code embedded.
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;

fn main() {
    println!("cargo:rustc-link-arg=-Wl,--wrap=ckb_vm_x64_execute");
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var("CARGO_FEATURE_ARM").is_ok() {
        println!("cargo:rustc-link-arg=-Wl,--wrap=ckb_vm_asm_labels");
        arm();
    }
}

fn repo() -> PathBuf {
    let toml = std::fs::read_to_string(Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("Cargo.toml")).unwrap();
    let line = toml.lines().find(|l| l.starts_with("ckb-vm =")).unwrap();
    let at = line.find("path = \"").unwrap() + 8;
    let p = &line[at..];
    PathBuf::from(&p[..p.find('"').unwrap()])
}

fn arm() {
    let dir = repo().join("src/machine/asm");
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let src = std::env::var("MON_ARM_SOURCE").map(PathBuf::from).unwrap_or(dir.join("execute_aarch64.S"));
    println!("cargo:rerun-if-env-changed=MON_ARM_SOURCE");
    println!("cargo:rerun-if-changed={}", dir.display());
    let obj = out.join("engine_aarch64.o");
    let st = Command::new("clang").args(["--target=aarch64-unknown-linux-gnu", "-c", "-O2", "-ffreestanding", "-fno-stack-protector", "-mgeneral-regs-only", "-Wno-unused-command-line-argument", "-I"]).arg(&dir).arg(&src).arg("-o").arg(&obj).status().expect("clang");
    assert!(st.success(), "execute_aarch64.S does not assemble");
    let b = std::fs::read(&obj).unwrap();
    let u16at = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize;
    let u32at = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
    let u64at = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize;
    let (shoff, shnum, shstr) = (u64at(0x28), u16at(0x3c), u16at(0x3e));
    let sh = |i: usize| shoff + i * 64;
    let cstr = |o: usize| { let e = b[o..].iter().position(|c| *c == 0).unwrap(); String::from_utf8(b[o..o + e].to_vec()).unwrap() };
    let name = |i: usize| cstr(u64at(sh(shstr) + 24) + u32at(sh(i)));
    // code, and read-only data behind it, in one piece
    let mut place: HashMap<usize, usize> = HashMap::new();
    let mut blob: Vec<u8> = vec![];
    for want_exec in [true, false] {
        for i in 1..shnum {
            let (ty, flags, size) = (u32at(sh(i) + 4), u64at(sh(i) + 8), u64at(sh(i) + 32));
            if ty != 1 || flags & 2 == 0 || size == 0 || (flags & 4 != 0) != want_exec { continue; }
            if matches!(name(i).as_str(), ".eh_frame" | ".note.gnu.property") { continue; }
            assert!(flags & 1 == 0, "writable section in the engine");
            while blob.len() % 16 != 0 { blob.push(0); }
            place.insert(i, blob.len());
            let o = u64at(sh(i) + 24);
            blob.extend_from_slice(&b[o..o + size]);
        }
    }
    while blob.len() % 16 != 0 { blob.push(0); }
    let symtab = (1..shnum).find(|i| u32at(sh(*i) + 4) == 2).unwrap();
    let strs = u64at(sh(u32at(sh(symtab) + 40)) + 24);
    let sym = |i: usize| { let o = u64at(sh(symtab) + 24) + i * 24; (cstr(strs + u32at(o)), u16at(o + 6), u64at(o + 8)) };
    let nsym = u64at(sh(symtab) + 32) / 24;
    let mut globals = HashMap::new();
    for i in 0..nsym { let (n, s, v) = sym(i); if let Some(p) = place.get(&s) { globals.insert(n, p + v); } }
    for i in 1..shnum {
        if u32at(sh(i) + 4) != 4 { continue; }
        let Some(&at) = place.get(&u32at(sh(i) + 44)) else { continue };
        let (o, n) = (u64at(sh(i) + 24), u64at(sh(i) + 32) / 24);
        for k in 0..n {
            let r = o + k * 24;
            let (off, info, add) = (u64at(r), u64at(r + 8), u64at(r + 16) as i64);
            let (ty, (sname, sec, val)) = (info & 0xffff_ffff, sym(info >> 32));
            let p = at + off;
            let mut word = u32::from_le_bytes(blob[p..p + 4].try_into().unwrap());
            match place.get(&sec) {
                None => {
                    // a call into Rust: marked with HLT for the interpreter
                    assert!(sname == "inited_memory" && ty == 283, "call of {sname} (relocation {ty}) not known");
                    word = 0xd440_0000 | 0x126 << 5;
                }
                Some(s) => {
                    let t = (s + val) as i64 + add;
                    let d = t - p as i64;
                    match ty {
                        282 | 283 => word = word & 0xfc00_0000 | (d >> 2) as u32 & 0x03ff_ffff,
                        280 => word = word & !(0x7ffff << 5) | ((d >> 2) as u32 & 0x7ffff) << 5,
                        279 => word = word & !(0x3fff << 5) | ((d >> 2) as u32 & 0x3fff) << 5,
                        274 => word = word & 0x9f00_001f | (d as u32 & 3) << 29 | (d >> 2) as u32 % (1 << 19) << 5,
                        273 => word = word & !(0x7ffff << 5) | ((d >> 2) as u32 & 0x7ffff) << 5,
                        // the piece is placed at the start of a page
                        275 => { let q = (t >> 12) - (p as i64 >> 12); word = word & 0x9f00_001f | (q as u32 & 3) << 29 | (q >> 2) as u32 % (1 << 19) << 5 }
                        277 | 278 => word |= (t as u32 & 0xfff) << 10,
                        284 => word |= (t as u32 & 0xfff) >> 1 << 10,
                        285 => word |= (t as u32 & 0xfff) >> 2 << 10,
                        286 => word |= (t as u32 & 0xfff) >> 3 << 10,
                        261 => word = d as u32,
                        _ => panic!("relocation {ty} against {sname} not known"),
                    }
                }
            }
            blob[p..p + 4].copy_from_slice(&word.to_le_bytes());
        }
    }
    let code = *place.iter().find(|(_, p)| **p == 0).unwrap().0;
    let text = u64at(sh(code) + 32);
    std::fs::write(out.join("engine_aarch64.bin"), &blob).unwrap();
    let find = |n: &str| *globals.get(n).unwrap_or_else(|| panic!("no symbol {n}"));
    let (entry, labels) = (find("ckb_vm_x64_execute"), find("ckb_vm_asm_labels"));
    let asm = out.join("engine_embed.s");
    std::fs::write(&asm, format!(".section .rodata\n.balign 4096\n.globl mon_arm_text\nmon_arm_text:\n.incbin \"{}\"\n.globl __wrap_ckb_vm_asm_labels\n.set __wrap_ckb_vm_asm_labels, mon_arm_text + {labels}\n", out.join("engine_aarch64.bin").display())).unwrap();
    let eo = out.join("engine_embed.o");
    assert!(Command::new("clang").arg("-c").arg(&asm).arg("-o").arg(&eo).status().unwrap().success());
    println!("cargo:rustc-link-arg={}", eo.display());
    if std::env::var("CARGO_FEATURE_ARMTEST").is_ok() {
        let no = out.join("armtest_native.o");
        let names: Vec<&String> = { let mut v: Vec<&String> = globals.keys().filter(|n| n.starts_with("armtest_")).collect(); v.sort(); v };
        assert!(Command::new("clang").args(["-c", "-O1", "-fwrapv"]).arg(&src).arg("-o").arg(&no).status().unwrap().success());
        println!("cargo:rustc-link-arg={}", no.display());
        let decl: String = names.iter().map(|n| format!("fn {n}(a: u64, b: u64, c: u64, d: u64) -> u64; ")).collect();
        let list: String = names.iter().map(|n| format!("(\"{n}\", {n} as unsafe extern \"C\" fn(u64, u64, u64, u64) -> u64), ")).collect();
        std::fs::write(out.join("armtest.rs"), format!("extern \"C\" {{ {decl} }}\nfn natives() -> Vec<(&'static str, unsafe extern \"C\" fn(u64, u64, u64, u64) -> u64)> {{ vec![{list}] }}\n")).unwrap();
    }
    let extra: String = globals.iter().filter(|(n, _)| n.starts_with("armtest_")).map(|(n, v)| format!("(\"{n}\", {v}), ")).collect();
    std::fs::write(out.join("arm_consts.rs"), format!(
        "pub const ARM_WORDS: usize = {};\npub const ARM_CODE_WORDS: usize = {};\npub const ARM_ENTRY: usize = {entry};\npub const ARM_HOST_INIT: u64 = 0x126;\npub const ARM_TESTS: &[(&str, usize)] = &[{extra}];\n",
        blob.len() / 4, text / 4)).unwrap();
}
