//! The guest: `prog` on bare metal, with an interpreter of instructions for hardware.
#![no_std]
#![no_main]
extern crate alloc;

mod prog;

#[cfg(windows)]
#[path = "pe.rs"]
mod sys;
#[cfg(not(windows))]
mod sys {
    use core::ptr::{addr_of_mut, write_volatile};
    use corosensei::trap::TrapHandlerRegs;

    pub const NATIVE: bool = false;
    pub const ARENA: usize = 2 << 20;
    pub const STACK: usize = 40 << 10;
    pub const SMALL: usize = 16384;
    pub const GUARD: usize = 4096;
    const IO: usize = 0x70_0000;

    fn io(off: usize, v: usize) {
        unsafe { write_volatile((IO + off) as *mut usize, v) }
    }
    static mut ARENA_AT: usize = 0;
    static mut MAIN: usize = 0;
    static mut NOTE: u32 = 0;
    pub fn set(arena: usize, main: usize) {
        unsafe {
            ARENA_AT = arena;
            MAIN = main;
        }
    }
    pub fn arena() -> usize {
        unsafe { ARENA_AT }
    }
    pub fn main_stack() -> usize {
        unsafe { MAIN }
    }
    #[inline(never)]
    pub fn log(k: u32, a: u32, b: u32) {
        io(0, k as usize);
        io(0x10, a as usize);
        io(0x20, b as usize);
    }
    pub fn allow(lo: usize, hi: usize) {
        io(0x30, lo);
        io(0x40, hi);
        io(0x50, 1);
    }
    pub fn deny(lo: usize, hi: usize) {
        io(0x30, lo);
        io(0x40, hi);
        io(0x50, 0);
    }
    #[inline(never)]
    pub fn backtrace(p: *const usize, n: usize) {
        io(0x60, p as usize);
        io(0x70, n);
    }
    pub fn arm(seed: u32) {
        io(0x80, seed as usize);
    }
    pub fn exit() -> ! {
        io(0x90, 0);
        loop {}
    }
    pub fn note(x: u32) {
        unsafe { write_volatile(addr_of_mut!(NOTE), x) }
    }
    pub fn noted() -> u32 {
        unsafe { core::ptr::read_volatile(addr_of_mut!(NOTE)) }
    }
    pub fn illegal() {
        unsafe {
            #[cfg(any(target_arch = "riscv64", target_arch = "riscv32"))]
            core::arch::asm!("unimp");
            #[cfg(any(target_arch = "aarch64", target_arch = "arm"))]
            core::arch::asm!("udf #0");
            #[cfg(target_arch = "loongarch64")]
            core::arch::asm!("break 0");
        }
    }
    pub fn wild() {
        io(0xF000, 1);
    }
    /// In the order of the interpreter's register file: see `Cpu::TRAP_REGS`.
    pub unsafe fn regs(r: &TrapHandlerRegs, out: *mut usize) {
        #[cfg(any(target_arch = "riscv64", target_arch = "riscv32"))]
        let a = [r.pc, r.ra, r.sp, r.a0, r.a1, r.s0];
        #[cfg(target_arch = "aarch64")]
        let a = [r.pc, r.sp, r.x0, r.x1, r.x29, r.lr];
        #[cfg(target_arch = "loongarch64")]
        let a = [r.pc, r.sp, r.a0, r.a1, r.fp, r.ra];
        #[cfg(target_arch = "arm")]
        let a = [r.pc, r.r0, r.r1, r.r7, r.r11, r.r13, r.r14, r.cpsr_thumb as u32, r.cpsr_endian as u32];
        for (i, v) in a.iter().enumerate() {
            out.add(i).write(*v as usize);
        }
    }
}

struct Bump;
static mut NEXT: usize = 0;
static mut STOP: usize = 0;
unsafe impl core::alloc::GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 {
        let p = NEXT.next_multiple_of(l.align().max(16));
        NEXT = p + l.size();
        if NEXT > STOP {
            return core::ptr::null_mut();
        }
        p as *mut u8
    }
    unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
}
#[global_allocator]
static A: Bump = Bump;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    sys::log(prog::E_PANIC, 0, 0);
    sys::exit()
}

#[cfg(windows)]
pub unsafe fn heap(lo: usize, hi: usize) {
    NEXT = lo;
    STOP = hi;
}

#[cfg(not(windows))]
#[no_mangle]
pub extern "C" fn guest_main(seed_lo: usize, seed_hi: usize, fuel: usize, arena: usize, heap: usize, heap_end: usize) {
    unsafe {
        NEXT = heap;
        STOP = heap_end;
    }
    let x = 0u8;
    sys::set(arena, core::hint::black_box(&x as *const u8 as usize));
    prog::run((seed_hi as u64) << 32 | seed_lo as u32 as u64, fuel as u32);
    sys::exit()
}

#[cfg(not(windows))]
#[no_mangle]
pub unsafe extern "C" fn guest_trap(sp: usize, seed: usize, out: *mut usize) {
    prog::trap_entry(sp, seed as u32, out);
}
