//! The crate's stacks for Windows, on a model of the part of the system that they rely on: reserved, committed and guard
//! pages, and the growth of the stack that the thread information block describes.
use crate::{native, pe, splitmix, Case, Outcome};
use std::ptr::null_mut;

const PAGE: usize = 4096;
/// Soft guard pages of a 64-bit stack.
const GUARD: usize = 2 * PAGE;
pub const E_NEW: u32 = 27;
pub const E_FAILED: u32 = 28;
pub const E_USE: u32 = 29;
pub const E_GROW: u32 = 30;
pub const E_OVERFLOW: u32 = 31;

#[repr(C)]
struct Host {
    op: extern "sysv64" fn(*mut [usize; 3]),
    stack: extern "sysv64" fn(*const [usize; 6], usize),
    failed: extern "sysv64" fn(i32),
    gone: extern "sysv64" fn(usize),
    check: extern "sysv64" fn(u32, usize, usize),
    arm: extern "sysv64" fn(*const u8),
    reset: extern "sysv64" fn() -> i32,
    trap: Option<extern "sysv64" fn(*const u8, usize, *mut usize)>,
    seed: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Page {
    Reserved,
    Ready,
    Guard,
}
struct Region {
    lo: usize,
    pages: Vec<Page>,
    /// What the thread's StackLimit was when the stack was last used.
    limit: usize,
    guaranteed: usize,
}
impl Region {
    fn hi(&self) -> usize {
        self.lo + self.pages.len() * PAGE
    }
    fn set(&mut self, lo: usize, hi: usize, p: Page) {
        if lo >= hi {
            return;
        }
        if lo < self.lo || hi > self.hi() {
            wrong(format!("pages {lo:#x}-{hi:#x} are not all in {:#x}-{:#x}", self.lo, self.hi()));
        }
        for i in (lo - self.lo) / PAGE..(hi - self.lo) / PAGE {
            self.pages[i] = p;
        }
        let prot = if p == Page::Ready { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_NONE };
        unsafe { assert_eq!(libc::mprotect(lo as *mut _, hi - lo, prot), 0) };
    }
}
#[derive(Default)]
struct World {
    regions: Vec<Region>,
    /// Requested size and region of a stack.
    slots: [Option<(usize, usize)>; 8],
    teb: usize,
    rng: u64,
    fuel: u32,
    op: [usize; 3],
    armed: usize,
    overflowed: bool,
    /// How many more allocations succeed.
    fail: usize,
    injected: bool,
    guarantee: usize,
    error: u32,
    host: usize,
    note: usize,
}
static mut WORLD: *mut World = null_mut();
fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}
fn rnd(n: usize) -> usize {
    let w = w();
    w.rng = splitmix(w.rng);
    (w.rng >> 8) as usize % n
}
fn log(k: u32, a: usize, b: usize) {
    native::sys::log(k, a as u32, b as u32)
}
fn wrong(s: String) -> ! {
    unsafe {
        let s = format!("{s}; last operation {:x?}", w().op);
        let n = s.len().min(2000);
        std::ptr::copy_nonoverlapping(s.as_ptr(), w().note as *mut u8, n);
        libc::_exit(3)
    }
}
fn up(n: usize) -> usize {
    (n + PAGE - 1) & !(PAGE - 1)
}
fn field(o: usize) -> &'static mut usize {
    unsafe { &mut *((w().teb + o) as *mut usize) }
}
const F_BASE: usize = 0x8;
const F_LIMIT: usize = 0x10;
const F_DEALLOC: usize = 0x1478;
const F_GUARANTEED: usize = 0x1748;

// ---- the system ----
extern "win64" fn virtual_alloc(at: usize, n: usize, how: u32, prot: u32) -> usize {
    let w = w();
    if w.fail == 0 || n > 1 << 40 {
        w.injected = true;
        w.error = 8;
        return 0;
    }
    w.fail -= 1;
    let ready = match prot & 0x1ff {
        0x04 => Page::Ready,
        0x104 => Page::Guard,
        1 | 2 => Page::Reserved,
        p => wrong(format!("memory is allocated with protection {p:#x}")),
    };
    if how & 0x2000 != 0 {
        if at != 0 || n == 0 {
            wrong(format!("{n:#x} bytes are reserved at {at:#x}"));
        }
        let n = up(n);
        let lo = unsafe { pe::map(0, n, libc::PROT_NONE, libc::MAP_PRIVATE) };
        if lo as isize == -1 {
            w.error = 8;
            w.injected = true;
            return 0;
        }
        let mut r = Region { lo, pages: vec![Page::Reserved; n / PAGE], limit: 0, guaranteed: 0 };
        if how & 0x1000 != 0 {
            r.set(lo, lo + n, ready);
        }
        w.regions.push(r);
        return lo;
    }
    let (lo, hi) = (at & !(PAGE - 1), up(at + n));
    match w.regions.iter_mut().find(|r| r.lo <= lo && lo < r.hi()) {
        Some(r) => r.set(lo, hi, ready),
        None => wrong(format!("memory is committed at {at:#x}, where none is reserved")),
    }
    lo
}
extern "win64" fn virtual_protect(at: usize, n: usize, prot: u32, old: *mut u32) -> i32 {
    w().fail += 1;
    unsafe { old.write(4) };
    (virtual_alloc(at, n, 0x1000, prot) != 0) as i32
}
extern "win64" fn virtual_free(at: usize, n: usize, how: u32) -> i32 {
    let w = w();
    match w.regions.iter().position(|r| r.lo == at) {
        Some(i) if how == 0x8000 && n == 0 => {
            let r = w.regions.remove(i);
            unsafe { libc::munmap(r.lo as *mut _, r.pages.len() * PAGE) };
            1
        }
        _ => wrong(format!("{n:#x} bytes at {at:#x} are freed with {how:#x}; there is no such allocation")),
    }
}
extern "win64" fn set_guarantee(p: *mut u32) -> i32 {
    unsafe {
        let old = w().guarantee as u32;
        if *p != 0 {
            w().guarantee = *p as usize;
        }
        *p = old;
    }
    1
}
extern "win64" fn system_info(p: *mut u32) {
    unsafe {
        std::ptr::write_bytes(p as *mut u8, 0, 48);
        p.add(1).write(PAGE as u32);
        p.add(10).write(1 << 16);
    }
}
extern "win64" fn last_error() -> u32 {
    w().error
}
extern "win64" fn unknown() -> ! {
    wrong("a function of the system is called that is not there (a panic, perhaps)".into())
}

// ---- what is asked for ----
fn size() -> usize {
    match rnd(12) {
        0 => rnd(8200),
        1 => rnd(64) * PAGE + rnd(3).wrapping_sub(1) & 0xfffff,
        2 => 0,
        3 => 1 << rnd(24),
        4 => (1 << 41) + rnd(1 << 40),
        5 => usize::MAX,
        _ => rnd(200_000),
    }
}
extern "sysv64" fn op(out: *mut [usize; 3]) {
    let w = w();
    w.op = [0; 3];
    if w.fuel > 0 {
        w.fuel -= 1;
        let i = rnd(8);
        w.fail = usize::MAX;
        w.injected = false;
        w.op = match w.slots[i] {
            None => {
                if rnd(4) == 0 {
                    w.fail = rnd(4);
                }
                if rnd(2) == 0 {
                    w.guarantee = rnd(5 * PAGE);
                }
                // the default can only panic when there is no memory
                let n = match size() {
                    usize::MAX if w.fail != usize::MAX => 5000,
                    n => n,
                };
                [1, i, n]
            }
            Some((n, _)) => match 2 + rnd(7) {
                k @ 3..=6 => [k, i, 512 + rnd(n - 1535) | 15 * (rnd(3) == 0) as usize],
                k => [k, i, n],
            },
        };
        if let [3..=6, i, n] = &mut w.op {
            // as deep as was promised
            if rnd(3) == 0 {
                *n = w.slots[*i].unwrap().0 - 1024;
            }
        }
    }
    log(E_USE, w.op[0], w.op[1]);
    unsafe { out.write(w.op) }
}
extern "sysv64" fn stack(f: *const [usize; 6], slot: usize) {
    let [base, limit, stack_base, stack_limit, dealloc, guaranteed] = unsafe { *f };
    let w = w();
    let say = |s: &str| -> ! { wrong(format!("{s}: base {base:#x}, limit {limit:#x}, {stack_base:#x} {stack_limit:#x} {dealloc:#x} {guaranteed:#x}")) };
    let Some(i) = w.regions.iter().position(|r| r.hi() == base) else { say("the base is not the end of an allocation") };
    let r = &w.regions[i];
    if stack_base != base || limit != r.lo || dealloc != limit {
        say("base and limit are not the ends of the allocation, or not those in the fields");
    }
    if base % 16 != 0 || limit % 16 != 0 || stack_limit % PAGE != 0 {
        say("alignment");
    }
    if stack_limit <= dealloc || stack_limit >= base {
        say("StackLimit is outside");
    }
    let at = (stack_limit - dealloc) / PAGE;
    if r.pages[at..].iter().any(|p| *p != Page::Ready) {
        say("memory above StackLimit is not accessible");
    }
    // all guard pages are together right there
    let guards = r.pages[..at].iter().rev().take_while(|p| **p == Page::Guard).count();
    if guards * PAGE < GUARD + up(guaranteed.max(1)) && guards < at - 1 {
        say(&format!("{guards} guard pages below StackLimit"));
    }
    if r.pages[0] != Page::Reserved || guards == 0 {
        say(&format!("no guard: {guards} pages, and the last is {:?}", r.pages[0]));
    }
    if r.pages[..at - guards].iter().any(|p| *p != Page::Reserved) {
        say("memory below the guard is committed");
    }
    if guaranteed < w.guarantee && w.op[0] == 1 {
        say("less room for handlers than the thread wants");
    }
    if w.op[0] == 1 {
        let n = if w.op[2] == usize::MAX { 1 << 20 } else { w.op[2].max(4096) };
        if w.fail == 0 && w.injected {
            say("an allocation failed, but there is a stack");
        }
        if base - (dealloc + PAGE + GUARD + up(guaranteed)) < n {
            say(&format!("less room than the {n:#x} bytes requested"));
        }
        if base - stack_limit < 4096 {
            say("less than the minimum is accessible");
        }
        w.slots[slot] = Some((n, base));
        log(E_NEW, slot, n);
    } else {
        if w.slots[slot].unwrap().1 != base {
            say("another stack");
        }
        if (r.limit, r.guaranteed) != (stack_limit, guaranteed) {
            say(&format!("StackLimit and GuaranteedStackBytes were {:#x} and {:#x}", r.limit, r.guaranteed));
        }
    }
    (w.regions[i].limit, w.regions[i].guaranteed) = (stack_limit, guaranteed);
}
fn live() {
    let n = w().slots.iter().flatten().count();
    if n != w().regions.len() {
        wrong(format!("{} allocations for {n} stacks", w().regions.len()));
    }
}
extern "sysv64" fn failed(_: i32) {
    if !w().injected {
        wrong("no stack, although no allocation failed".into());
    }
    log(E_FAILED, 0, 0);
    live();
}
extern "sysv64" fn gone(slot: usize) {
    w().slots[slot] = None;
    live();
}
extern "sysv64" fn check(k: u32, a: usize, b: usize) {
    if a != b {
        wrong(format!("check {k}: {a:#x} instead of {b:#x}"));
    }
}
extern "sysv64" fn arm(h: *const u8) {
    w().armed = h as usize;
}
/// Puts the guard pages of the stack in use back, after an overflow.
extern "sysv64" fn reset() -> i32 {
    let w = w();
    if w.overflowed {
        w.overflowed = false;
        let g = GUARD + up(*field(F_GUARANTEED));
        let r = current();
        let lo = r.lo + PAGE;
        r.set(lo, lo + g, Page::Guard);
        *field(F_LIMIT) = lo + g;
        r.limit = lo + g;
    }
    1
}
fn current() -> &'static mut Region {
    let (b, d) = (*field(F_BASE), *field(F_DEALLOC));
    match w().regions.iter_mut().find(|r| r.lo == d && r.hi() == b) {
        Some(r) => r,
        None => wrong(format!("the thread's stack is {d:#x}-{b:#x}, which is none")),
    }
}

unsafe extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let u = &mut *(ctx as *mut libc::ucontext_t);
    let g = &mut u.uc_mcontext.gregs;
    let at = (*info).si_addr() as usize;
    let (ip, sp) = (g[libc::REG_RIP as usize] as usize, g[libc::REG_RSP as usize] as usize);
    let here = || format!("signal {sig} at {ip:#x}, stack pointer {sp:#x}, address {at:#x}");
    if !w().regions.iter().any(|r| r.lo <= at && at < r.hi()) {
        wrong(here());
    }
    let r = current();
    if at < r.lo || at >= r.hi() || r.pages[(at - r.lo) / PAGE] != Page::Guard {
        wrong(format!("{}, with the stack {:#x}-{:#x}", here(), r.lo, r.hi()));
    }
    if (*field(F_LIMIT), *field(F_GUARANTEED)) != (r.limit, r.guaranteed) {
        let t = (*field(F_LIMIT), *field(F_GUARANTEED), r.limit, r.guaranteed);
        wrong(format!("StackLimit is {:#x}, GuaranteedStackBytes {:#x}, but they were {:#x} and {:#x} on this stack; {}", t.0, t.1, t.2, t.3, here()));
    }
    if rnd(20) == 0 {
        // the code there wants less, so that there is never less room than promised
        r.guaranteed -= rnd(r.guaranteed);
        *field(F_GUARANTEED) = r.guaranteed;
    }
    let limit = at & !(PAGE - 1);
    let need = GUARD + up(*field(F_GUARANTEED));
    if limit >= r.lo + PAGE + need {
        log(E_GROW, 0, 0);
        let old = r.limit;
        r.set(limit, old, Page::Ready);
        r.set(limit - need, limit, Page::Guard);
        r.limit = limit;
        *field(F_LIMIT) = limit;
        return;
    }
    // no room for the guard pages: an overflow
    let h = std::mem::take(&mut w().armed);
    if h == 0 {
        wrong(format!("stack overflow: {} bytes below the base; {}", r.hi() - at, here()));
    }
    log(E_OVERFLOW, 0, 0);
    let (lo, hi) = (r.lo + PAGE, r.limit);
    r.set(lo, hi, Page::Ready);
    r.limit = lo;
    *field(F_LIMIT) = lo;
    w().overflowed = true;
    let mut out = [0usize; 5];
    ((*(w().host as *const Host)).trap.unwrap())(h as *const u8, sp, out.as_mut_ptr());
    for (i, k) in [libc::REG_RIP, libc::REG_RSP, libc::REG_RBP, libc::REG_RDI, libc::REG_RSI].iter().enumerate() {
        g[*k as usize] = out[i] as _;
    }
}

pub struct Machine {
    entry: usize,
    note: *mut u8,
}
impl Machine {
    pub fn new(f: &[u8]) -> Machine {
        let (base, entry, imports) = pe::load(f);
        unsafe {
            let u32_at = |a: usize| (a as *const u32).read() as usize;
            let mut d = base + imports;
            while u32_at(d + 12) != 0 {
                let (mut names, mut slot) = (base + u32_at(d), base + u32_at(d + 16));
                while (names as *const u64).read() != 0 {
                    let name = std::ffi::CStr::from_ptr((base + u32_at(names) + 2) as *const _).to_str().unwrap();
                    let f = match name {
                        "VirtualAlloc" => virtual_alloc as *const () as usize,
                        "VirtualProtect" => virtual_protect as *const () as usize,
                        "VirtualFree" => virtual_free as *const () as usize,
                        "SetThreadStackGuarantee" => set_guarantee as *const () as usize,
                        "GetSystemInfo" | "GetNativeSystemInfo" => system_info as *const () as usize,
                        "GetLastError" => last_error as *const () as usize,
                        _ => unknown as *const () as usize,
                    };
                    (slot as *mut usize).write(f);
                    names += 8;
                    slot += 8;
                }
                d += 20;
            }
        }
        Machine { entry, note: null_mut() }
    }

    pub fn run(&mut self, c: Case) -> (Outcome, Result<(), String>) {
        let (st, log) = unsafe {
            if self.note.is_null() {
                self.note = pe::map(0, 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED) as *mut u8;
            }
            std::ptr::write_bytes(self.note, 0, 4096);
            native::forked(|| self.child(c))
        };
        let note = unsafe { std::ffi::CStr::from_ptr(self.note as *const _) }.to_string_lossy().into_owned();
        let r = match st {
            0 => Ok(()),
            0x300 => Err(note),
            _ => Err(format!("ends with status {st:#x} after {} events", log.len())),
        };
        (Outcome { log, backtraces: 0, frames: 0, steps: 0 }, r)
    }

    unsafe fn child(&self, c: Case) {
        let rw = libc::PROT_READ | libc::PROT_WRITE;
        let alt = pe::map(0, 1 << 18, rw, libc::MAP_PRIVATE);
        let teb = pe::map(0, 0x2000, rw, libc::MAP_PRIVATE);
        let ss = libc::stack_t { ss_sp: alt as *mut _, ss_flags: 0, ss_size: 1 << 18 };
        assert_eq!(libc::sigaltstack(&ss, null_mut()), 0);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGILL, libc::SIGBUS, libc::SIGFPE, libc::SIGTRAP] {
            libc::sigaction(s, &sa, null_mut());
        }
        let mut host = Host { op, stack, failed, gone, check, arm, reset, trap: None, seed: c.seed as usize };
        WORLD = Box::leak(Box::new(World { teb, rng: c.seed, fuel: c.fuel, fail: usize::MAX, host: &host as *const _ as usize, note: self.note as usize, ..World::default() }));
        // the thread's own stack never grows
        *field(F_BASE) = usize::MAX & !0xfff;
        *field(F_LIMIT) = PAGE;
        *field(F_DEALLOC) = PAGE;
        *field(0) = usize::MAX;
        pe::set_segment(teb);
        let entry: extern "sysv64" fn(*mut Host) = std::mem::transmute(self.entry);
        entry(&mut host);
        live();
        if !w().regions.is_empty() {
            wrong("memory is left".into());
        }
    }
}
