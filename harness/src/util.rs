//! Small shared helpers: allocator instrumentation, memory maps, sample output.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI32, AtomicI64, Ordering::*};

/// File descriptor that receives the readable form of the current case, or -1.
pub static SAMPLE_FD: AtomicI32 = AtomicI32::new(-1);

pub fn emit_sample(s: &str) {
    let fd = SAMPLE_FD.load(SeqCst);
    if fd >= 0 {
        let mut b = s.as_bytes();
        unsafe {
            while !b.is_empty() {
                let n = libc::write(fd, b.as_ptr() as *const _, b.len());
                if n <= 0 {
                    break;
                }
                b = &b[n as usize..];
            }
            libc::write(fd, b"\n".as_ptr() as *const _, 1);
        }
    }
}

/// Counts live heap blocks and poisons memory on allocation and release, so that use after free
/// and reads of uninitialised memory change what the oracles see.
pub struct CountAlloc;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
const POISON_MAX: usize = 1 << 16;
unsafe impl GlobalAlloc for CountAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(1, Relaxed);
            if l.size() <= POISON_MAX {
                std::ptr::write_bytes(p, 0xCD, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        if l.size() <= POISON_MAX {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            LIVE.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Map {
    pub lo: usize,
    pub hi: usize,
    pub perms: String,
}
pub fn maps() -> Vec<Map> {
    let t = std::fs::read_to_string("/proc/self/maps").expect("harness: maps");
    t.lines()
        .map(|l| {
            let (r, rest) = l.split_once(' ').unwrap();
            let (a, b) = r.split_once('-').unwrap();
            Map { lo: u64::from_str_radix(a, 16).unwrap() as usize, hi: u64::from_str_radix(b, 16).unwrap() as usize, perms: rest[..4].to_string() }
        })
        .collect()
}

pub fn is_abort_signal(s: i32) -> bool {
    s == libc::SIGABRT || s == libc::SIGILL || s == libc::SIGTRAP
}
