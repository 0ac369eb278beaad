//! The same program on this machine.
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

pub const MAX: usize = 1 << 16;
/// In memory shared with the parent: number of events, then the events.
static LOG: AtomicPtr<u32> = AtomicPtr::new(std::ptr::null_mut());
static ARENA_AT: AtomicUsize = AtomicUsize::new(0);
static NOTE: AtomicUsize = AtomicUsize::new(0);
static MAIN: AtomicUsize = AtomicUsize::new(0);

pub mod sys {
    use super::*;
    pub const NATIVE: bool = true;
    pub const ARENA: usize = 2 << 20;
    pub const STACK: usize = 40 << 10;
    pub const SMALL: usize = 16384;
    pub const GUARD: usize = 4096;
    #[inline(never)]
    pub fn log(k: u32, a: u32, b: u32) {
        unsafe {
            let p = LOG.load(Ordering::Relaxed);
            let n = *p as usize;
            if n < MAX {
                p.add(1 + n * 3).write(k);
                p.add(2 + n * 3).write(a);
                p.add(3 + n * 3).write(b);
                *p += 1;
            }
        }
    }
    pub fn arena() -> usize {
        ARENA_AT.load(Ordering::Relaxed)
    }
    pub fn main_stack() -> usize {
        MAIN.load(Ordering::Relaxed)
    }
    pub fn allow(_: usize, _: usize) {}
    pub fn deny(_: usize, _: usize) {}
    pub fn backtrace(_: *const usize, _: usize) {}
    pub fn arm(_: u32) {}
    pub fn illegal() {}
    pub fn wild() {}
    pub fn note(x: u32) {
        NOTE.store(x as usize, Ordering::Relaxed)
    }
    pub fn noted() -> u32 {
        NOTE.load(Ordering::Relaxed) as u32
    }
    pub unsafe fn regs(_: &corosensei::trap::TrapHandlerRegs, _: *mut usize) {}
}

fn map(n: usize, flags: i32) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_ANONYMOUS | flags, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

pub fn init() {
    LOG.store(map((MAX * 3 + 1) * 4, libc::MAP_SHARED) as *mut u32, Ordering::Relaxed);
    ARENA_AT.store(map(sys::ARENA, libc::MAP_PRIVATE) as usize, Ordering::Relaxed);
}

/// The status and the events of a process.
pub unsafe fn forked(f: impl FnOnce()) -> (i32, Vec<(u32, u32, u32)>) {
    let p = LOG.load(Ordering::Relaxed);
    *p = 0;
    let pid = libc::fork();
    assert!(pid >= 0);
    if pid == 0 {
        libc::alarm(20);
        f();
        libc::_exit(0);
    }
    let mut st = 0;
    assert_eq!(libc::waitpid(pid, &mut st, 0), pid);
    let n = *p as usize;
    (st, (0..n).map(|i| (*p.add(1 + i * 3), *p.add(2 + i * 3), *p.add(3 + i * 3))).collect())
}

/// The events of the program, run in a process of its own.
pub fn run(seed: u64, fuel: u32) -> Result<Vec<(u32, u32, u32)>, String> {
    let (st, v) = unsafe {
        forked(|| {
            std::panic::set_hook(Box::new(|_| {
                sys::log(crate::prog::E_PANIC, 0, 0);
                libc::_exit(0);
            }));
            let x = 0u8;
            MAIN.store(std::hint::black_box(&x as *const u8 as usize), Ordering::Relaxed);
            crate::prog::run(seed, fuel);
        })
    };
    if st != 0 {
        return Err(format!("natively the program ends with status {st:#x} after {} events", v.len()));
    }
    Ok(v)
}
