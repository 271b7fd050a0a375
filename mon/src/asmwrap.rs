//! Watches every entry into the assembly engine: callee-saved registers, stack pointer, the caller's
//! stack, the direction flag and the floating-point control word have to come back as they were, and the
//! machine's own description of its buffers has to stay as it is.
use ckb_vm::machine::asm::AsmCoreMachine;
use std::os::raw::c_uchar;
use std::sync::atomic::{AtomicU64, Ordering};

pub static CALLS: AtomicU64 = AtomicU64::new(0);

#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    r#"
    .section .tbss.mon_rsp,"awT",@nobits
    .balign 8
mon_rsp:
    .zero 8
    .text
    .globl mon_trampoline
    .type mon_trampoline,@function
mon_trampoline:
    push rbx
    push rbp
    push r12
    push r13
    push r14
    push r15
    sub rsp, 520
    stmxcsr [rsp + 512]
    mov dword ptr [rsp + 516], 0x5ca1ab1e
    /* canaries between this frame and the callee's */
    mov rax, 0x5a5ac3c396966969
    xor ecx, ecx
2:  mov [rsp + rcx * 8], rax
    inc ecx
    cmp ecx, 64
    jne 2b
    mov rbx, 0x1111b00b1e5bee01
    mov rbp, 0x2222b00b1e5bee02
    mov r12, 0x3333b00b1e5bee03
    mov r13, 0x4444b00b1e5bee04
    mov r14, 0x5555b00b1e5bee05
    mov r15, 0x6666b00b1e5bee06
    mov fs:[mon_rsp@tpoff], rsp
    call __real_ckb_vm_x64_execute
    movzx eax, al
    /* eax: result; r8: what was found wrong */
    xor r8d, r8d
    cmp rsp, fs:[mon_rsp@tpoff]
    je 3f
    mov rsp, fs:[mon_rsp@tpoff]
    or r8d, 1
3:  mov rdx, 0x1111b00b1e5bee01
    cmp rdx, rbx
    je 3f
    or r8d, 2
3:  mov rdx, 0x2222b00b1e5bee02
    cmp rdx, rbp
    je 3f
    or r8d, 4
3:  mov rdx, 0x3333b00b1e5bee03
    cmp rdx, r12
    je 3f
    or r8d, 8
3:  mov rdx, 0x4444b00b1e5bee04
    cmp rdx, r13
    je 3f
    or r8d, 16
3:  mov rdx, 0x5555b00b1e5bee05
    cmp rdx, r14
    je 3f
    or r8d, 32
3:  mov rdx, 0x6666b00b1e5bee06
    cmp rdx, r15
    je 3f
    or r8d, 64
3:  pushfq
    pop rdx
    test edx, 0x400
    jz 3f
    cld
    or r8d, 128
3:  mov rdx, 0x5a5ac3c396966969
    xor ecx, ecx
4:  cmp rdx, [rsp + rcx * 8]
    je 5f
    or r8d, 256
5:  inc ecx
    cmp ecx, 64
    jne 4b
    stmxcsr [rsp]
    mov ecx, [rsp]
    xor ecx, [rsp + 512]
    test ecx, 0xffc0
    jz 3f
    or r8d, 512
3:  cmp dword ptr [rsp + 516], 0x5ca1ab1e
    je 3f
    or r8d, 256
3:  shl r8, 32
    or rax, r8
    add rsp, 520
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbp
    pop rbx
    ret
    .size mon_trampoline, .-mon_trampoline
"#
);

extern "C" { fn mon_trampoline(m: *mut AsmCoreMachine, d: *const u8) -> u64; }

fn description(m: &AsmCoreMachine) -> [u64; 10] {
    [m.memory_ptr, m.flags_ptr, m.frames_ptr, m.memory_size, m.flags_size, m.frames_size, m.isa as u64, m.version as u64, m.max_cycles, m.chaos_mode as u64]
}

#[no_mangle]
unsafe extern "C" fn __wrap_ckb_vm_x64_execute(m: *mut AsmCoreMachine, d: *const u8) -> c_uchar {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let before = description(&*m);
    let r = mon_trampoline(m, d);
    let bad = r >> 32;
    if bad != 0 {
        let names = ["stack pointer", "rbx", "rbp", "r12", "r13", "r14", "r15", "direction flag", "caller's stack", "mxcsr"];
        let l: Vec<&str> = (0..10).filter(|i| bad >> i & 1 == 1).map(|i| names[i]).collect();
        crate::galloc::die(&format!("HOST-STATE: the assembly engine returned with changed {}", l.join(", ")));
    }
    let after = description(&*m);
    if before != after { crate::galloc::die(&format!("HOST-STATE: the assembly engine changed its machine's description: {before:x?} became {after:x?}")); }
    r as c_uchar
}
