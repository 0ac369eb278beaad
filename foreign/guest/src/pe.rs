//! What the program needs from its surroundings in a Windows image, which a Linux process maps and calls.
use core::ptr::{addr_of_mut, read_volatile, write_volatile};
use corosensei::trap::TrapHandlerRegs;

pub const NATIVE: bool = false;
pub const ARENA: usize = 4 << 20;
pub const STACK: usize = 40 << 10;
pub const SMALL: usize = 16384;
/// Holds a whole page anywhere.
pub const GUARD: usize = 8192;

macro_rules! abi {
    ($abi:literal) => {
        #[repr(C)]
        pub struct Host {
            pub log: extern $abi fn(u32, u32, u32),
            pub allow: extern $abi fn(usize, usize),
            pub deny: extern $abi fn(usize),
            pub returned: extern $abi fn(usize, usize, usize),
            pub maybe_old: extern $abi fn(usize),
            pub arm: extern $abi fn(u32),
            pub exit: extern $abi fn(),
            /// Filled in by the program.
            pub trap: extern $abi fn(usize, usize, *mut usize),
            pub seed: u64,
            pub fuel: usize,
            pub arena: usize,
            pub heap: usize,
            pub heap_end: usize,
        }
        #[no_mangle]
        pub unsafe extern $abi fn guest_main(h: *mut Host) {
            enter(h)
        }
        pub extern $abi fn guest_trap(sp: usize, seed: usize, out: *mut usize) {
            unsafe { crate::prog::trap_entry(sp, seed as u32, out) }
        }
    };
}
#[cfg(target_arch = "x86_64")]
abi!("sysv64");
#[cfg(target_arch = "x86")]
abi!("C");

static mut HOST: *mut Host = core::ptr::null_mut();
static mut MAIN: usize = 0;
static mut NOTE: u32 = 0;
fn host() -> &'static Host {
    unsafe { &*HOST }
}
unsafe fn enter(h: *mut Host) {
    HOST = h;
    (*h).trap = guest_trap;
    crate::heap((*h).heap, (*h).heap_end);
    let x = 0u8;
    MAIN = core::hint::black_box(&x as *const u8 as usize);
    crate::prog::run((*h).seed, (*h).fuel as u32);
    exit()
}
pub fn arena() -> usize {
    host().arena
}
pub fn main_stack() -> usize {
    unsafe { MAIN }
}
/// The host expects more alignment than there is on 32-bit Windows.
macro_rules! call {
    ($f:ident $(, $a:expr)*) => {{
        #[cfg(target_arch = "x86_64")]
        (host().$f)($($a),*);
        #[cfg(target_arch = "x86")]
        unsafe {
            let a: [usize; 4] = { let mut a = [0; 4]; let mut _i = 0; $(a[_i] = $a as usize; _i += 1;)* a };
            core::arch::asm!(
                "mov edi, esp", "and esp, -16",
                "push 0", "push dword ptr [ecx + 8]", "push dword ptr [ecx + 4]", "push dword ptr [ecx]",
                "call eax", "mov esp, edi",
                in("eax") host().$f as usize, in("ecx") a.as_ptr(), out("edi") _, clobber_abi("C"),
            );
        }
    }};
}
#[inline(never)]
pub fn log(k: u32, a: u32, b: u32) {
    call!(log, k, a, b)
}
pub fn allow(lo: usize, hi: usize) {
    call!(allow, lo, hi)
}
pub fn deny(_: usize, hi: usize) {
    call!(deny, hi)
}
/// What a stack was told about its fields.
pub fn returned(base: usize, limit: usize, guaranteed: usize) {
    call!(returned, base, limit, guaranteed)
}
/// The coroutine of a stack ends while running elsewhere.
pub fn maybe_old(base: usize) {
    call!(maybe_old, base)
}
pub fn backtrace(_: *const usize, _: usize) {}
pub fn arm(seed: u32) {
    call!(arm, seed)
}
pub fn exit() -> ! {
    call!(exit);
    loop {}
}
pub fn note(x: u32) {
    unsafe { write_volatile(addr_of_mut!(NOTE), x) }
}
pub fn noted() -> u32 {
    unsafe { read_volatile(addr_of_mut!(NOTE)) }
}
pub fn illegal() {
    unsafe { core::arch::asm!("ud2") }
}
pub fn wild() {
    unsafe { write_volatile(core::hint::black_box(64) as *mut u32, 1) }
}
/// In the order in which the host applies them.
pub unsafe fn regs(r: &TrapHandlerRegs, out: *mut usize) {
    #[cfg(target_arch = "x86_64")]
    let TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = *r;
    #[cfg(target_arch = "x86_64")]
    let a = [rip, rsp, rbp, rdi, rsi];
    #[cfg(target_arch = "x86")]
    let TrapHandlerRegs { eip, esp, ebp, eax, ebx, ecx, edx } = *r;
    #[cfg(target_arch = "x86")]
    let a = [eip, esp, ebp, eax, ebx, ecx, edx];
    for (i, v) in a.iter().enumerate() {
        out.add(i).write(*v as usize);
    }
}

// ---- what the C library would have ----
#[no_mangle]
pub static _fltused: u32 = 0;
#[no_mangle]
pub extern "C" fn _resetstkoflw() -> i32 {
    1
}
#[cfg(target_arch = "x86_64")]
core::arch::global_asm!(
    ".globl __chkstk",
    "__chkstk:",
    "push rcx", "push rax", "lea rcx, [rsp + 24]",
    "1:", "cmp rax, 4096", "jb 2f", "sub rcx, 4096", "test [rcx], rcx", "sub rax, 4096", "jmp 1b",
    "2:", "sub rcx, rax", "test [rcx], rcx", "pop rax", "pop rcx", "ret",
);

#[cfg(target_arch = "x86")]
core::arch::global_asm!(
    ".globl __chkstk",
    "__chkstk:",
    "push ecx", "lea ecx, [esp + 8]",
    "1:", "cmp eax, 4096", "jb 2f", "sub ecx, 4096", "test [ecx], ecx", "sub eax, 4096", "jmp 1b",
    "2:", "sub ecx, eax", "test [ecx], ecx",
    "mov eax, esp", "mov esp, ecx", "mov ecx, [eax]", "push dword ptr [eax + 4]", "ret",
);
#[cfg(target_arch = "x86")]
macro_rules! wide {
    ($($n:literal $f:literal;)*) => { core::arch::global_asm!($(
        concat!(".globl ", $n), concat!($n, ":"),
        "push dword ptr [esp + 16]", "push dword ptr [esp + 16]", "push dword ptr [esp + 16]", "push dword ptr [esp + 16]",
        concat!("call ", $f), "add esp, 16", "ret 16",
    )*); };
}
#[cfg(target_arch = "x86")]
wide! { "__aulldiv" "___udivdi3"; "__aullrem" "___umoddi3"; "__alldiv" "___divdi3"; "__allrem" "___moddi3"; "__allmul" "___muldi3"; }
