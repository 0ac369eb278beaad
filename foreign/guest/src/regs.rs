//! Calls with every register that callees keep holding a pattern, and looks at them afterwards.
use super::{log, mix, E_REGS};
#[allow(unused_imports)]
use core::mem::size_of;

#[allow(unused_macros)]
macro_rules! tramp {
    ($($l:expr),* $(,)?) => { core::arch::global_asm!(".globl cvh_regs", "cvh_regs:", $($l),*); };
}
/// Integer registers, then floating-point ones.
#[cfg(all(target_arch = "riscv64", not(target_feature = "d")))]
const N: (usize, usize) = (11, 0);
#[cfg(all(target_arch = "riscv64", target_feature = "d"))]
const N: (usize, usize) = (11, 12);
#[cfg(all(target_arch = "riscv32", not(target_feature = "f")))]
const N: (usize, usize) = (11, 0);
#[cfg(all(target_arch = "riscv32", target_feature = "f"))]
const N: (usize, usize) = (11, 12);
#[cfg(target_arch = "loongarch64")]
const N: (usize, usize) = (9, 8);
#[cfg(target_arch = "aarch64")]
const N: (usize, usize) = (10, 8);
#[cfg(all(target_arch = "arm", target_abi = "eabihf"))]
const N: (usize, usize) = (7, 8);
#[cfg(all(target_arch = "arm", not(target_abi = "eabihf")))]
const N: (usize, usize) = (7, 0);
#[cfg(all(any(target_arch = "x86_64", target_arch = "x86"), not(windows)))]
const N: (usize, usize) = (0, 0);
// also the exception list of the thread information block
#[cfg(all(target_arch = "x86_64", windows))]
const N: (usize, usize) = (8, 20);
#[cfg(all(target_arch = "x86", windows))]
const N: (usize, usize) = (3, 0);

// cvh_regs(pats, f, arg): pats are words to load, then room for what is found, 8 bytes each; f(arg)
#[cfg(all(target_arch = "riscv64", target_feature = "d"))]
tramp!(
    "addi sp, sp, -224",
    "sd ra, 0(sp)", "sd s0, 8(sp)", "sd s1, 16(sp)", "sd s2, 24(sp)", "sd s3, 32(sp)", "sd s4, 40(sp)", "sd s5, 48(sp)", "sd s6, 56(sp)",
    "sd s7, 64(sp)", "sd s8, 72(sp)", "sd s9, 80(sp)", "sd s10, 88(sp)", "sd s11, 96(sp)", "sd a0, 104(sp)",
    ".attribute arch, \"rv64gc\"",
    "fsd fs0, 112(sp)", "fsd fs1, 120(sp)", "fsd fs2, 128(sp)", "fsd fs3, 136(sp)", "fsd fs4, 144(sp)", "fsd fs5, 152(sp)",
    "fsd fs6, 160(sp)", "fsd fs7, 168(sp)", "fsd fs8, 176(sp)", "fsd fs9, 184(sp)", "fsd fs10, 192(sp)", "fsd fs11, 200(sp)",
    "ld s1, 0(a0)", "ld s2, 8(a0)", "ld s3, 16(a0)", "ld s4, 24(a0)", "ld s5, 32(a0)", "ld s6, 40(a0)", "ld s7, 48(a0)", "ld s8, 56(a0)",
    "ld s9, 64(a0)", "ld s10, 72(a0)", "ld s11, 80(a0)",
    "fld fs0, 88(a0)", "fld fs1, 96(a0)", "fld fs2, 104(a0)", "fld fs3, 112(a0)", "fld fs4, 120(a0)", "fld fs5, 128(a0)",
    "fld fs6, 136(a0)", "fld fs7, 144(a0)", "fld fs8, 152(a0)", "fld fs9, 160(a0)", "fld fs10, 168(a0)", "fld fs11, 176(a0)",
    "mv a0, a2", "jalr a1", "ld a0, 104(sp)", "addi a0, a0, 184",
    "sd s1, 0(a0)", "sd s2, 8(a0)", "sd s3, 16(a0)", "sd s4, 24(a0)", "sd s5, 32(a0)", "sd s6, 40(a0)", "sd s7, 48(a0)", "sd s8, 56(a0)",
    "sd s9, 64(a0)", "sd s10, 72(a0)", "sd s11, 80(a0)",
    "fsd fs0, 88(a0)", "fsd fs1, 96(a0)", "fsd fs2, 104(a0)", "fsd fs3, 112(a0)", "fsd fs4, 120(a0)", "fsd fs5, 128(a0)",
    "fsd fs6, 136(a0)", "fsd fs7, 144(a0)", "fsd fs8, 152(a0)", "fsd fs9, 160(a0)", "fsd fs10, 168(a0)", "fsd fs11, 176(a0)",
    "fld fs0, 112(sp)", "fld fs1, 120(sp)", "fld fs2, 128(sp)", "fld fs3, 136(sp)", "fld fs4, 144(sp)", "fld fs5, 152(sp)",
    "fld fs6, 160(sp)", "fld fs7, 168(sp)", "fld fs8, 176(sp)", "fld fs9, 184(sp)", "fld fs10, 192(sp)", "fld fs11, 200(sp)",
    "ld ra, 0(sp)", "ld s0, 8(sp)", "ld s1, 16(sp)", "ld s2, 24(sp)", "ld s3, 32(sp)", "ld s4, 40(sp)", "ld s5, 48(sp)", "ld s6, 56(sp)",
    "ld s7, 64(sp)", "ld s8, 72(sp)", "ld s9, 80(sp)", "ld s10, 88(sp)", "ld s11, 96(sp)", "addi sp, sp, 224", "ret",
);
#[cfg(all(target_arch = "riscv64", not(target_feature = "d")))]
tramp!(
    "addi sp, sp, -112",
    "sd ra, 0(sp)", "sd s0, 8(sp)", "sd s1, 16(sp)", "sd s2, 24(sp)", "sd s3, 32(sp)", "sd s4, 40(sp)", "sd s5, 48(sp)", "sd s6, 56(sp)",
    "sd s7, 64(sp)", "sd s8, 72(sp)", "sd s9, 80(sp)", "sd s10, 88(sp)", "sd s11, 96(sp)", "sd a0, 104(sp)",
    "ld s1, 0(a0)", "ld s2, 8(a0)", "ld s3, 16(a0)", "ld s4, 24(a0)", "ld s5, 32(a0)", "ld s6, 40(a0)", "ld s7, 48(a0)", "ld s8, 56(a0)",
    "ld s9, 64(a0)", "ld s10, 72(a0)", "ld s11, 80(a0)",
    "mv a0, a2", "jalr a1", "ld a0, 104(sp)", "addi a0, a0, 88",
    "sd s1, 0(a0)", "sd s2, 8(a0)", "sd s3, 16(a0)", "sd s4, 24(a0)", "sd s5, 32(a0)", "sd s6, 40(a0)", "sd s7, 48(a0)", "sd s8, 56(a0)",
    "sd s9, 64(a0)", "sd s10, 72(a0)", "sd s11, 80(a0)",
    "ld ra, 0(sp)", "ld s0, 8(sp)", "ld s1, 16(sp)", "ld s2, 24(sp)", "ld s3, 32(sp)", "ld s4, 40(sp)", "ld s5, 48(sp)", "ld s6, 56(sp)",
    "ld s7, 64(sp)", "ld s8, 72(sp)", "ld s9, 80(sp)", "ld s10, 88(sp)", "ld s11, 96(sp)", "addi sp, sp, 112", "ret",
);
#[cfg(all(target_arch = "riscv32", not(target_feature = "f")))]
tramp!(
    "addi sp, sp, -64",
    "sw ra, 0(sp)", "sw s0, 4(sp)", "sw s1, 8(sp)", "sw s2, 12(sp)", "sw s3, 16(sp)", "sw s4, 20(sp)", "sw s5, 24(sp)", "sw s6, 28(sp)",
    "sw s7, 32(sp)", "sw s8, 36(sp)", "sw s9, 40(sp)", "sw s10, 44(sp)", "sw s11, 48(sp)", "sw a0, 52(sp)",
    "lw s1, 0(a0)", "lw s2, 8(a0)", "lw s3, 16(a0)", "lw s4, 24(a0)", "lw s5, 32(a0)", "lw s6, 40(a0)", "lw s7, 48(a0)", "lw s8, 56(a0)",
    "lw s9, 64(a0)", "lw s10, 72(a0)", "lw s11, 80(a0)",
    "mv a0, a2", "jalr a1", "lw a0, 52(sp)", "addi a0, a0, 88",
    "sw s1, 0(a0)", "sw s2, 8(a0)", "sw s3, 16(a0)", "sw s4, 24(a0)", "sw s5, 32(a0)", "sw s6, 40(a0)", "sw s7, 48(a0)", "sw s8, 56(a0)",
    "sw s9, 64(a0)", "sw s10, 72(a0)", "sw s11, 80(a0)",
    "lw ra, 0(sp)", "lw s0, 4(sp)", "lw s1, 8(sp)", "lw s2, 12(sp)", "lw s3, 16(sp)", "lw s4, 20(sp)", "lw s5, 24(sp)", "lw s6, 28(sp)",
    "lw s7, 32(sp)", "lw s8, 36(sp)", "lw s9, 40(sp)", "lw s10, 44(sp)", "lw s11, 48(sp)", "addi sp, sp, 64", "ret",
);
#[cfg(all(target_arch = "riscv32", target_feature = "f"))]
tramp!(
    "addi sp, sp, -112",
    "sw ra, 0(sp)", "sw s0, 4(sp)", "sw s1, 8(sp)", "sw s2, 12(sp)", "sw s3, 16(sp)", "sw s4, 20(sp)", "sw s5, 24(sp)", "sw s6, 28(sp)",
    "sw s7, 32(sp)", "sw s8, 36(sp)", "sw s9, 40(sp)", "sw s10, 44(sp)", "sw s11, 48(sp)", "sw a0, 52(sp)",
    ".attribute arch, \"rv32imafc\"",
    "fsw fs0, 56(sp)", "fsw fs1, 60(sp)", "fsw fs2, 64(sp)", "fsw fs3, 68(sp)", "fsw fs4, 72(sp)", "fsw fs5, 76(sp)", "fsw fs6, 80(sp)", "fsw fs7, 84(sp)", "fsw fs8, 88(sp)", "fsw fs9, 92(sp)", "fsw fs10, 96(sp)", "fsw fs11, 100(sp)",
    "lw s1, 0(a0)", "lw s2, 8(a0)", "lw s3, 16(a0)", "lw s4, 24(a0)", "lw s5, 32(a0)", "lw s6, 40(a0)", "lw s7, 48(a0)", "lw s8, 56(a0)", "lw s9, 64(a0)", "lw s10, 72(a0)", "lw s11, 80(a0)",
    "flw fs0, 88(a0)", "flw fs1, 96(a0)", "flw fs2, 104(a0)", "flw fs3, 112(a0)", "flw fs4, 120(a0)", "flw fs5, 128(a0)", "flw fs6, 136(a0)", "flw fs7, 144(a0)", "flw fs8, 152(a0)", "flw fs9, 160(a0)", "flw fs10, 168(a0)", "flw fs11, 176(a0)",
    "mv a0, a2", "jalr a1", "lw a0, 52(sp)", "addi a0, a0, 184",
    "sw s1, 0(a0)", "sw s2, 8(a0)", "sw s3, 16(a0)", "sw s4, 24(a0)", "sw s5, 32(a0)", "sw s6, 40(a0)", "sw s7, 48(a0)", "sw s8, 56(a0)", "sw s9, 64(a0)", "sw s10, 72(a0)", "sw s11, 80(a0)",
    "fsw fs0, 88(a0)", "fsw fs1, 96(a0)", "fsw fs2, 104(a0)", "fsw fs3, 112(a0)", "fsw fs4, 120(a0)", "fsw fs5, 128(a0)", "fsw fs6, 136(a0)", "fsw fs7, 144(a0)", "fsw fs8, 152(a0)", "fsw fs9, 160(a0)", "fsw fs10, 168(a0)", "fsw fs11, 176(a0)",
    "flw fs0, 56(sp)", "flw fs1, 60(sp)", "flw fs2, 64(sp)", "flw fs3, 68(sp)", "flw fs4, 72(sp)", "flw fs5, 76(sp)", "flw fs6, 80(sp)", "flw fs7, 84(sp)", "flw fs8, 88(sp)", "flw fs9, 92(sp)", "flw fs10, 96(sp)", "flw fs11, 100(sp)",
    "lw ra, 0(sp)", "lw s0, 4(sp)", "lw s1, 8(sp)", "lw s2, 12(sp)", "lw s3, 16(sp)", "lw s4, 20(sp)", "lw s5, 24(sp)", "lw s6, 28(sp)",
    "lw s7, 32(sp)", "lw s8, 36(sp)", "lw s9, 40(sp)", "lw s10, 44(sp)", "lw s11, 48(sp)", "addi sp, sp, 112", "ret",
);
#[cfg(target_arch = "loongarch64")]
tramp!(
    "addi.d $sp, $sp, -176",
    "st.d $ra, $sp, 0", "st.d $fp, $sp, 8", "st.d $s0, $sp, 16", "st.d $s1, $sp, 24", "st.d $s2, $sp, 32", "st.d $s3, $sp, 40", "st.d $s4, $sp, 48",
    "st.d $s5, $sp, 56", "st.d $s6, $sp, 64", "st.d $s7, $sp, 72", "st.d $s8, $sp, 80", "st.d $a0, $sp, 88",
    "fst.d $fs0, $sp, 96", "fst.d $fs1, $sp, 104", "fst.d $fs2, $sp, 112", "fst.d $fs3, $sp, 120", "fst.d $fs4, $sp, 128", "fst.d $fs5, $sp, 136",
    "fst.d $fs6, $sp, 144", "fst.d $fs7, $sp, 152",
    "ld.d $s0, $a0, 0", "ld.d $s1, $a0, 8", "ld.d $s2, $a0, 16", "ld.d $s3, $a0, 24", "ld.d $s4, $a0, 32", "ld.d $s5, $a0, 40", "ld.d $s6, $a0, 48",
    "ld.d $s7, $a0, 56", "ld.d $s8, $a0, 64",
    "fld.d $fs0, $a0, 72", "fld.d $fs1, $a0, 80", "fld.d $fs2, $a0, 88", "fld.d $fs3, $a0, 96", "fld.d $fs4, $a0, 104", "fld.d $fs5, $a0, 112",
    "fld.d $fs6, $a0, 120", "fld.d $fs7, $a0, 128",
    "move $a0, $a2", "jirl $ra, $a1, 0", "ld.d $a0, $sp, 88", "addi.d $a0, $a0, 136",
    "st.d $s0, $a0, 0", "st.d $s1, $a0, 8", "st.d $s2, $a0, 16", "st.d $s3, $a0, 24", "st.d $s4, $a0, 32", "st.d $s5, $a0, 40", "st.d $s6, $a0, 48",
    "st.d $s7, $a0, 56", "st.d $s8, $a0, 64",
    "fst.d $fs0, $a0, 72", "fst.d $fs1, $a0, 80", "fst.d $fs2, $a0, 88", "fst.d $fs3, $a0, 96", "fst.d $fs4, $a0, 104", "fst.d $fs5, $a0, 112",
    "fst.d $fs6, $a0, 120", "fst.d $fs7, $a0, 128",
    "fld.d $fs0, $sp, 96", "fld.d $fs1, $sp, 104", "fld.d $fs2, $sp, 112", "fld.d $fs3, $sp, 120", "fld.d $fs4, $sp, 128", "fld.d $fs5, $sp, 136",
    "fld.d $fs6, $sp, 144", "fld.d $fs7, $sp, 152",
    "ld.d $ra, $sp, 0", "ld.d $fp, $sp, 8", "ld.d $s0, $sp, 16", "ld.d $s1, $sp, 24", "ld.d $s2, $sp, 32", "ld.d $s3, $sp, 40", "ld.d $s4, $sp, 48",
    "ld.d $s5, $sp, 56", "ld.d $s6, $sp, 64", "ld.d $s7, $sp, 72", "ld.d $s8, $sp, 80", "addi.d $sp, $sp, 176", "ret",
);
#[cfg(target_arch = "aarch64")]
tramp!(
    "stp x29, x30, [sp, #-192]!", "stp x19, x20, [sp, #16]", "stp x21, x22, [sp, #32]", "stp x23, x24, [sp, #48]", "stp x25, x26, [sp, #64]",
    "stp x27, x28, [sp, #80]", "stp d8, d9, [sp, #96]", "stp d10, d11, [sp, #112]", "stp d12, d13, [sp, #128]", "stp d14, d15, [sp, #144]", "str x0, [sp, #160]",
    "ldp x19, x20, [x0]", "ldp x21, x22, [x0, #16]", "ldp x23, x24, [x0, #32]", "ldp x25, x26, [x0, #48]", "ldp x27, x28, [x0, #64]",
    "ldp d8, d9, [x0, #80]", "ldp d10, d11, [x0, #96]", "ldp d12, d13, [x0, #112]", "ldp d14, d15, [x0, #128]",
    "mov x0, x2", "blr x1", "ldr x0, [sp, #160]", "add x0, x0, #144",
    "stp x19, x20, [x0]", "stp x21, x22, [x0, #16]", "stp x23, x24, [x0, #32]", "stp x25, x26, [x0, #48]", "stp x27, x28, [x0, #64]",
    "stp d8, d9, [x0, #80]", "stp d10, d11, [x0, #96]", "stp d12, d13, [x0, #112]", "stp d14, d15, [x0, #128]",
    "ldp d8, d9, [sp, #96]", "ldp d10, d11, [sp, #112]", "ldp d12, d13, [sp, #128]", "ldp d14, d15, [sp, #144]",
    "ldp x27, x28, [sp, #80]", "ldp x25, x26, [sp, #64]", "ldp x23, x24, [sp, #48]", "ldp x21, x22, [sp, #32]", "ldp x19, x20, [sp, #16]",
    "ldp x29, x30, [sp], #192", "ret",
);
#[cfg(all(target_arch = "arm", target_abi = "eabihf"))]
tramp!(
    ".arm", "push {{r0, r4, r5, r6, r7, r8, r9, r10, r11, lr}}", "vpush {{d8-d15}}",
    "ldr r4, [r0]", "ldr r5, [r0, #8]", "ldr r6, [r0, #16]", "ldr r7, [r0, #24]", "ldr r8, [r0, #32]", "ldr r9, [r0, #40]", "ldr r10, [r0, #48]",
    "vldr d8, [r0, #56]", "vldr d9, [r0, #64]", "vldr d10, [r0, #72]", "vldr d11, [r0, #80]", "vldr d12, [r0, #88]", "vldr d13, [r0, #96]",
    "vldr d14, [r0, #104]", "vldr d15, [r0, #112]",
    "mov r0, r2", "blx r1", "ldr r0, [sp, #64]", "add r0, r0, #120",
    "str r4, [r0]", "str r5, [r0, #8]", "str r6, [r0, #16]", "str r7, [r0, #24]", "str r8, [r0, #32]", "str r9, [r0, #40]", "str r10, [r0, #48]",
    "vstr d8, [r0, #56]", "vstr d9, [r0, #64]", "vstr d10, [r0, #72]", "vstr d11, [r0, #80]", "vstr d12, [r0, #88]", "vstr d13, [r0, #96]",
    "vstr d14, [r0, #104]", "vstr d15, [r0, #112]",
    "vpop {{d8-d15}}", "pop {{r0, r4, r5, r6, r7, r8, r9, r10, r11, lr}}", "bx lr",
);
#[cfg(all(target_arch = "arm", not(target_abi = "eabihf")))]
tramp!(
    ".arm", "push {{r0, r4, r5, r6, r7, r8, r9, r10, r11, lr}}",
    "ldr r4, [r0]", "ldr r5, [r0, #8]", "ldr r6, [r0, #16]", "ldr r7, [r0, #24]", "ldr r8, [r0, #32]", "ldr r9, [r0, #40]", "ldr r10, [r0, #48]",
    "mov r0, r2", "blx r1", "ldr r0, [sp]", "add r0, r0, #56",
    "str r4, [r0]", "str r5, [r0, #8]", "str r6, [r0, #16]", "str r7, [r0, #24]", "str r8, [r0, #32]", "str r9, [r0, #40]", "str r10, [r0, #48]",
    "pop {{r0, r4, r5, r6, r7, r8, r9, r10, r11, lr}}", "bx lr",
);
#[cfg(all(target_arch = "x86_64", windows))]
tramp!(
    "push rbp", "push rbx", "push rdi", "push rsi", "push r12", "push r13", "push r14", "push r15", "push qword ptr gs:[0]", "push rcx",
    "sub rsp, 200", "movups [rsp + 32], xmm6", "movups [rsp + 48], xmm7", "movups [rsp + 64], xmm8", "movups [rsp + 80], xmm9",
    "movups [rsp + 96], xmm10", "movups [rsp + 112], xmm11", "movups [rsp + 128], xmm12", "movups [rsp + 144], xmm13", "movups [rsp + 160], xmm14",
    "movups [rsp + 176], xmm15", "mov rbx, [rcx + 0]", "mov rdi, [rcx + 8]", "mov rsi, [rcx + 16]", "mov r12, [rcx + 24]", "mov r13, [rcx + 32]",
    "mov r14, [rcx + 40]", "mov r15, [rcx + 48]", "mov rax, [rcx + 56]", "mov gs:[0], rax", "movups xmm6, [rcx + 64]", "movups xmm7, [rcx + 80]",
    "movups xmm8, [rcx + 96]", "movups xmm9, [rcx + 112]", "movups xmm10, [rcx + 128]", "movups xmm11, [rcx + 144]", "movups xmm12, [rcx + 160]",
    "movups xmm13, [rcx + 176]", "movups xmm14, [rcx + 192]", "movups xmm15, [rcx + 208]", "mov rcx, r8", "call rdx", "mov rcx, [rsp + 200]",
    "add rcx, 224", "mov [rcx + 0], rbx", "mov [rcx + 8], rdi", "mov [rcx + 16], rsi", "mov [rcx + 24], r12", "mov [rcx + 32], r13",
    "mov [rcx + 40], r14", "mov [rcx + 48], r15", "mov rax, gs:[0]", "mov [rcx + 56], rax", "movups [rcx + 64], xmm6", "movups [rcx + 80], xmm7",
    "movups [rcx + 96], xmm8", "movups [rcx + 112], xmm9", "movups [rcx + 128], xmm10", "movups [rcx + 144], xmm11", "movups [rcx + 160], xmm12",
    "movups [rcx + 176], xmm13", "movups [rcx + 192], xmm14", "movups [rcx + 208], xmm15", "movups xmm6, [rsp + 32]", "movups xmm7, [rsp + 48]",
    "movups xmm8, [rsp + 64]", "movups xmm9, [rsp + 80]", "movups xmm10, [rsp + 96]", "movups xmm11, [rsp + 112]", "movups xmm12, [rsp + 128]",
    "movups xmm13, [rsp + 144]", "movups xmm14, [rsp + 160]", "movups xmm15, [rsp + 176]", "add rsp, 200", "pop rcx", "pop qword ptr gs:[0]",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rsi", "pop rdi", "pop rbx", "pop rbp", "ret",
);
#[cfg(all(target_arch = "x86", windows))]
core::arch::global_asm!(".globl _cvh_regs", "_cvh_regs:",
    "push ebp", "mov ebp, esp", "push ebx", "push esi", "push edi", "mov eax, [ebp + 8]", "mov ebx, [eax + 0]", "mov esi, [eax + 8]",
    "mov edi, [eax + 16]", "mov ecx, [ebp + 12]", "push dword ptr [ebp + 16]", "call ecx", "add esp, 4", "mov eax, [ebp + 8]", "add eax, 24",
    "mov [eax + 0], ebx", "mov [eax + 8], esi", "mov [eax + 16], edi", "pop edi", "pop esi", "pop ebx", "pop ebp", "ret",
);
#[cfg(not(all(any(target_arch = "x86_64", target_arch = "x86"), not(windows))))]
extern "C" {
    fn cvh_regs(pats: *mut u64, f: extern "C" fn(*mut u8), arg: *mut u8);
}

/// Runs `f` that way.
#[inline(never)]
pub fn regs_call<R>(seed: u32, mut f: impl FnMut() -> R) -> R {
    let mut out = None;
    let mut go = || out = Some(f());
    #[cfg(not(all(any(target_arch = "x86_64", target_arch = "x86"), not(windows))))]
    let bad = unsafe {
        extern "C" fn tramp<G: FnMut()>(g: *mut u8) {
            unsafe { (*(g as *mut G))() }
        }
        fn with<G: FnMut()>(_: &G) -> extern "C" fn(*mut u8) {
            tramp::<G>
        }
        let n = N.0 + N.1;
        let mut p = [0u64; 64];
        for i in 0..n {
            p[i] = (mix(seed ^ i as u32) as u64) << 32 | mix(seed.wrapping_add(i as u32)) as u64;
            if size_of::<usize>() == 4 && (i < N.0 || !cfg!(target_arch = "arm")) {
                p[i] &= 0xffff_ffff;
            }
        }
        cvh_regs(p.as_mut_ptr(), with(&go), &mut go as *mut _ as *mut u8);
        let mut bad = 0u32;
        for i in 0..n {
            bad |= ((p[i] != p[n + i]) as u32) << i;
        }
        bad
    };
    #[cfg(all(any(target_arch = "x86_64", target_arch = "x86"), not(windows)))]
    let bad = {
        let _ = (mix(0), N);
        go();
        0
    };
    log(E_REGS, bad, seed);
    out.unwrap()
}
