//! Machine-level probes: register-checked calls, traps, stack alignment.
use super::ast::TrapKind;
use std::arch::{asm, global_asm};

#[cfg(target_arch = "x86_64")]
global_asm!(
    ".globl cvh_call_regs",
    ".type cvh_call_regs,@function",
    "cvh_call_regs:",
    ".cfi_startproc",
    "push rbp", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset rbp, 0",
    "push rbx", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset rbx, 0",
    "push r12", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r12, 0",
    "push r13", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r13, 0",
    "push r14", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r14, 0",
    "push r15", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r15, 0",
    "push rdi", ".cfi_adjust_cfa_offset 8",
    // rdi: patterns, rsi: function, rdx: argument
    "mov rax, rsi",
    "mov rbx, [rdi]",
    "mov rbp, [rdi + 8]",
    "mov r12, [rdi + 16]",
    "mov r13, [rdi + 24]",
    "mov r14, [rdi + 32]",
    "mov r15, [rdi + 40]",
    "mov rdi, rdx",
    "call rax",
    "nop",
    "pop rdi", ".cfi_adjust_cfa_offset -8",
    "mov [rdi + 48], rbx",
    "mov [rdi + 56], rbp",
    "mov [rdi + 64], r12",
    "mov [rdi + 72], r13",
    "mov [rdi + 80], r14",
    "mov [rdi + 88], r15",
    "pop r15", ".cfi_adjust_cfa_offset -8", ".cfi_restore r15",
    "pop r14", ".cfi_adjust_cfa_offset -8", ".cfi_restore r14",
    "pop r13", ".cfi_adjust_cfa_offset -8", ".cfi_restore r13",
    "pop r12", ".cfi_adjust_cfa_offset -8", ".cfi_restore r12",
    "pop rbx", ".cfi_adjust_cfa_offset -8", ".cfi_restore rbx",
    "pop rbp", ".cfi_adjust_cfa_offset -8", ".cfi_restore rbp",
    "ret",
    ".cfi_endproc",
    ".size cvh_call_regs, . - cvh_call_regs",
);
#[cfg(target_arch = "x86_64")]
pub const NREG: usize = 6;

#[cfg(target_arch = "x86")]
global_asm!(
    ".globl cvh_call_regs",
    ".type cvh_call_regs,@function",
    "cvh_call_regs:",
    ".cfi_startproc",
    "push ebp", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset ebp, 0",
    "push ebx", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset ebx, 0",
    "push esi", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset esi, 0",
    "push edi", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset edi, 0",
    "sub esp, 12", ".cfi_adjust_cfa_offset 12",
    // [esp+32]: patterns, [esp+36]: function, [esp+40]: argument
    "mov eax, [esp + 32]",
    "mov ecx, [esp + 36]",
    "mov edx, [esp + 40]",
    "mov [esp], edx",
    "mov ebx, [eax]",
    "mov ebp, [eax + 4]",
    "mov esi, [eax + 8]",
    "mov edi, [eax + 12]",
    "call ecx",
    "nop",
    "mov eax, [esp + 32]",
    "mov [eax + 16], ebx",
    "mov [eax + 20], ebp",
    "mov [eax + 24], esi",
    "mov [eax + 28], edi",
    "add esp, 12", ".cfi_adjust_cfa_offset -12",
    "pop edi", ".cfi_adjust_cfa_offset -4", ".cfi_restore edi",
    "pop esi", ".cfi_adjust_cfa_offset -4", ".cfi_restore esi",
    "pop ebx", ".cfi_adjust_cfa_offset -4", ".cfi_restore ebx",
    "pop ebp", ".cfi_adjust_cfa_offset -4", ".cfi_restore ebp",
    "ret",
    ".cfi_endproc",
    ".size cvh_call_regs, . - cvh_call_regs",
);
#[cfg(target_arch = "x86")]
pub const NREG: usize = 4;

extern "C-unwind" {
    fn cvh_call_regs(pats: *mut usize, f: unsafe extern "C-unwind" fn(*mut u8), data: *mut u8);
}

/// Floating-point control words and the direction flag.
pub fn control_state() -> (u32, u16, bool) {
    let mut mx: u32 = 0;
    let mut cw: u16 = 0;
    let fl: usize;
    unsafe {
        asm!("stmxcsr [{}]", in(reg) &mut mx, options(nostack));
        asm!("fnstcw word ptr [{}]", in(reg) &mut cw, options(nostack));
        #[cfg(target_arch = "x86_64")]
        asm!("pushfq", "pop {}", out(reg) fl);
        #[cfg(target_arch = "x86")]
        asm!("pushfd", "pop {}", out(reg) fl);
    }
    (mx & 0xFFC0, cw, fl & 0x400 != 0)
}

/// Calls `f` with every callee-saved register holding a value derived from `seed`; returns a bit
/// mask of the registers (and control state) that came back different.
#[inline(never)]
pub fn call_checked(seed: u32, f: &mut dyn FnMut()) -> u32 {
    unsafe extern "C-unwind" fn tramp(p: *mut u8) {
        let f = &mut *(p as *mut &mut dyn FnMut());
        f();
    }
    let mut pats = [0usize; 2 * NREG];
    let mut x = seed as u64 | 1;
    for p in pats.iter_mut().take(NREG) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *p = (x >> 13) as usize ^ (x << 40) as usize;
    }
    for i in 0..NREG {
        pats[NREG + i] = !pats[i];
    }
    let before = control_state();
    let mut f = f;
    let pats: &mut [usize; 2 * NREG] = std::hint::black_box(&mut pats);
    unsafe { cvh_call_regs(pats.as_mut_ptr(), tramp, &mut f as *mut &mut dyn FnMut() as *mut u8) };
    let mut bad = 0;
    for i in 0..NREG {
        if pats[i] != pats[NREG + i] {
            bad |= 1 << i;
        }
    }
    if control_state() != before || before.2 {
        bad |= 1 << 31;
    }
    bad
}

// ---------------------------------------------------------------- traps
type Prep = Box<dyn FnOnce(*mut libc::ucontext_t)>;
pub static mut PREP: Option<Prep> = None;

#[cfg(target_arch = "x86_64")]
pub unsafe fn uc_sp(uc: *mut libc::ucontext_t) -> usize {
    (*uc).uc_mcontext.gregs[libc::REG_RSP as usize] as usize
}
#[cfg(target_arch = "x86")]
pub unsafe fn uc_sp(uc: *mut libc::ucontext_t) -> usize {
    (*uc).uc_mcontext.gregs[libc::REG_ESP as usize] as u32 as usize
}
#[cfg(target_arch = "x86_64")]
pub unsafe fn uc_set(uc: *mut libc::ucontext_t, regs: corosensei::trap::TrapHandlerRegs) {
    let corosensei::trap::TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = regs;
    let g = &mut (*uc).uc_mcontext.gregs;
    g[libc::REG_RIP as usize] = rip as i64;
    g[libc::REG_RSP as usize] = rsp as i64;
    g[libc::REG_RBP as usize] = rbp as i64;
    g[libc::REG_RDI as usize] = rdi as i64;
    g[libc::REG_RSI as usize] = rsi as i64;
}
#[cfg(target_arch = "x86")]
pub unsafe fn uc_set(uc: *mut libc::ucontext_t, regs: corosensei::trap::TrapHandlerRegs) {
    let corosensei::trap::TrapHandlerRegs { eip, esp, ebp, ecx, edx } = regs;
    let g = &mut (*uc).uc_mcontext.gregs;
    g[libc::REG_EIP as usize] = eip as i32;
    g[libc::REG_ESP as usize] = esp as i32;
    g[libc::REG_EBP as usize] = ebp as i32;
    g[libc::REG_ECX as usize] = ecx as i32;
    g[libc::REG_EDX as usize] = edx as i32;
}

unsafe extern "C" fn on_signal(sig: i32, _i: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let p = (*std::ptr::addr_of_mut!(PREP)).take();
    match p {
        Some(p) => p(uc as *mut libc::ucontext_t),
        None => {
            libc::signal(sig, libc::SIG_DFL);
        }
    }
}
pub fn install_handlers() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGILL, libc::SIGFPE, libc::SIGBUS] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            sa.sa_sigaction = on_signal as *const () as usize;
            libc::sigfillset(&mut sa.sa_mask);
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    alt_stack();
}
pub fn alt_stack() {
    unsafe {
        let n = 256 * 1024;
        let m = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let st = libc::stack_t { ss_sp: m, ss_flags: 0, ss_size: n };
        libc::sigaltstack(&st, std::ptr::null_mut());
    }
}

#[inline(never)]
fn overflow(n: u64) -> u64 {
    let mut a = [n; 40];
    unsafe { std::ptr::read_volatile(&mut a) };
    if n == u64::MAX {
        return 0;
    }
    overflow(n.wrapping_add(1) & 0xFFFF_FFFF) + std::hint::black_box(a[3])
}
#[inline(never)]
fn deeper(n: u32, f: &dyn Fn()) -> u64 {
    let mut a = [n as u64; 100];
    unsafe { std::ptr::read_volatile(&mut a) };
    if n == 0 {
        f();
        return 1;
    }
    deeper(n - 1, f) + std::hint::black_box(a[7])
}

/// Raises a trap at some depth with `prep` as the action of the trap handler.
pub fn trap_now(kind: TrapKind, depth: u32, prep: Prep) -> ! {
    unsafe { PREP = Some(prep) };
    deeper(depth * 3, &|| unsafe {
        match kind {
            TrapKind::Overflow => {
                overflow(1);
            }
            #[cfg(target_arch = "x86_64")]
            TrapKind::Segv => asm!("mov rbp, 0x1234567", "mov rbx, rbp", "mov r12, rbp", "mov r13, rbp", "mov r14, rbp", "mov r15, rbp", "mov rax, 16", "mov [rax], rax", options(noreturn)),
            #[cfg(target_arch = "x86_64")]
            TrapKind::Ill => asm!("mov rbp, 0x7654321", "mov rbx, rbp", "mov r12, rbp", "mov r13, rbp", "mov r14, rbp", "mov r15, rbp", "ud2", options(noreturn)),
            #[cfg(target_arch = "x86_64")]
            TrapKind::Bus => asm!("xor edx, edx", "xor ecx, ecx", "mov rbp, 3", "mov eax, 5", "div ecx", "ud2", options(noreturn)),
            #[cfg(target_arch = "x86")]
            TrapKind::Segv => asm!("mov ebp, 0x1234567", "mov ebx, ebp", "mov esi, ebp", "mov edi, ebp", "mov eax, 16", "mov [eax], eax", options(noreturn)),
            #[cfg(target_arch = "x86")]
            TrapKind::Ill => asm!("mov ebp, 0x7654321", "mov ebx, ebp", "mov esi, ebp", "mov edi, ebp", "ud2", options(noreturn)),
            #[cfg(target_arch = "x86")]
            TrapKind::Bus => asm!("xor edx, edx", "xor ecx, ecx", "mov ebp, 3", "mov eax, 5", "div ecx", "ud2", options(noreturn)),
        }
    });
    panic!("harness: trap did not happen")
}

/// Address of this function's frame as an approximation of the stack pointer.
#[inline(always)]
pub fn sp() -> usize {
    let r: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        asm!("mov {}, rsp", out(reg) r, options(nomem, nostack, preserves_flags));
        #[cfg(target_arch = "x86")]
        asm!("mov {}, esp", out(reg) r, options(nomem, nostack, preserves_flags));
    }
    r
}

// Stack alignment at function entry, as the ABI guarantees it: a naked-style probe records the
// stack pointer on entry.
#[cfg(target_arch = "x86_64")]
global_asm!(".globl cvh_entry_sp", "cvh_entry_sp:", ".cfi_startproc", "mov rax, rsp", "ret", ".cfi_endproc");
#[cfg(target_arch = "x86")]
global_asm!(".globl cvh_entry_sp", "cvh_entry_sp:", ".cfi_startproc", "mov eax, esp", "ret", ".cfi_endproc");
extern "C" {
    fn cvh_entry_sp() -> usize;
}
/// True if calls made here leave the stack aligned as the ABI demands (16 bytes at the call).
#[inline(never)]
pub fn aligned() -> bool {
    unsafe { (cvh_entry_sp() + std::mem::size_of::<usize>()) % 16 == 0 }
}
