//! Windows images, run natively: the image is mapped, its system calls are this program's functions (there are none
//! but `Host`), and the thread information block is a piece of memory that the right segment register points to.
use crate::{native, splitmix, Case, Outcome};
use std::collections::HashMap;
use std::ptr::null_mut;

#[cfg(target_arch = "x86_64")]
mod off {
    pub const BASE: usize = 0x8;
    pub const LIMIT: usize = 0x10;
    pub const DEALLOC: usize = 0x1478;
    pub const GUARANTEED: usize = 0x1748;
}
#[cfg(target_arch = "x86")]
mod off {
    pub const BASE: usize = 0x4;
    pub const LIMIT: usize = 0x8;
    pub const DEALLOC: usize = 0xe0c;
    pub const GUARANTEED: usize = 0xf78;
}

macro_rules! host {
    ($abi:literal) => {
        #[repr(C)]
        struct Host {
            log: extern $abi fn(u32, u32, u32),
            allow: extern $abi fn(usize, usize),
            deny: extern $abi fn(usize),
            returned: extern $abi fn(usize, usize, usize),
            maybe_old: extern $abi fn(usize),
            arm: extern $abi fn(u32),
            exit: extern $abi fn() -> !,
            trap: Option<extern $abi fn(usize, usize, *mut usize)>,
            seed: u64,
            fuel: usize,
            arena: usize,
            heap: usize,
            heap_end: usize,
        }
        type Main = extern $abi fn(*mut Host);
        extern $abi fn log(k: u32, a: u32, b: u32) {
            check();
            native::sys::log(k, a, b);
        }
        extern $abi fn allow(lo: usize, hi: usize) {
            pages(lo, hi, 1);
            let w = world();
            w.stacks.insert(hi, Stack { lo, limit: lo, guaranteed: 0, dealloc: None, old: vec![(lo, 0)], maybe_old: false });
        }
        extern $abi fn deny(hi: usize) {
            let s = world().stacks.remove(&hi).expect("a stack");
            pages(s.lo, hi, -1);
        }
        extern $abi fn maybe_old(base: usize) {
            if let Some(s) = world().stacks.get_mut(&base) {
                s.maybe_old = true;
            }
        }
        extern $abi fn returned(base: usize, limit: usize, guaranteed: usize) {
            check();
            match world().stacks.get_mut(&base) {
                Some(s) => if !s.is(limit, guaranteed) { wrong(format!("a stack was told limit {limit:#x} and guarantee {guaranteed:#x}, but had {:#x} and {:#x}", s.limit, s.guaranteed)) },
                None => wrong(format!("stack {base:#x} is not known")),
            }
        }
        extern $abi fn arm(seed: u32) {
            world().armed = Some(seed);
        }
        extern $abi fn exit() -> ! {
            check();
            unsafe { libc::_exit(0) }
        }
    };
}
#[cfg(target_arch = "x86_64")]
host!("sysv64");
#[cfg(target_arch = "x86")]
host!("C");

struct Stack {
    lo: usize,
    limit: usize,
    guaranteed: usize,
    /// Known since it was seen for the first time.
    dealloc: Option<usize>,
    /// Every limit and guarantee it has had, any of which it may have when its coroutine ended elsewhere.
    old: Vec<(usize, usize)>,
    maybe_old: bool,
}
impl Stack {
    fn is(&mut self, limit: usize, guaranteed: usize) -> bool {
        if (self.limit, self.guaranteed) == (limit, guaranteed) {
            return true;
        }
        if !self.maybe_old || !self.old.contains(&(limit, guaranteed)) {
            return false;
        }
        (self.limit, self.guaranteed, self.maybe_old) = (limit, guaranteed, false);
        true
    }
}
struct World {
    stacks: HashMap<usize, Stack>,
    used: HashMap<usize, i32>,
    teb: usize,
    /// Where the program began.
    top: usize,
    /// Its programs put anything in the registers, this one too.
    #[allow(dead_code)]
    patterns: bool,
    rng: u64,
    armed: Option<u32>,
    host: *mut Host,
    /// For the parent: what was wrong.
    note: *mut u8,
}
static mut WORLD: *mut World = null_mut();
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

#[inline(never)]
fn wrong(s: String) -> ! {
    unsafe {
        let w = world();
        let n = s.len().min(2000);
        std::ptr::copy_nonoverlapping(s.as_ptr(), w.note, n);
        w.note.add(n).write(0);
        libc::_exit(3)
    }
}

/// Does the block describe the stack in use, with the values it last had? Then they change, as Windows does it.
#[inline(never)]
fn check() {
    let x = 0u8;
    let sp = std::hint::black_box(&x as *const u8 as usize);
    unsafe {
        let w = world();
        let f = |o: usize| (w.teb + o) as *mut usize;
        let (base, limit, dealloc, guaranteed) = (*f(off::BASE), *f(off::LIMIT), *f(off::DEALLOC), *f(off::GUARANTEED));
        let Some(s) = w.stacks.get_mut(&base) else {
            wrong(format!("StackBase is {base:#x}, which is no stack's"));
        };
        if sp >= base || sp < s.lo {
            let lo = s.lo;
            wrong(format!("StackBase is {base:#x}, but {sp:#x} is not on that stack ({lo:#x})"));
        }
        let d = *s.dealloc.get_or_insert(dealloc);
        if dealloc != d || !s.is(limit, guaranteed) {
            let t = (s.limit, s.guaranteed, d);
            wrong(format!("StackLimit, GuaranteedStackBytes, DeallocationStack are {limit:#x}, {guaranteed:#x}, {dealloc:#x}, but were {t:x?} on the stack {base:#x}"));
        }
        let first = *f(0);
        #[cfg(target_arch = "x86_64")]
        // the program's own frames may be under a handler, as in Wine
        if first != usize::MAX && !w.patterns && !(base == w.top && first == w.top + 64) {
            wrong(format!("ExceptionList is {first:#x}"));
        }
        #[cfg(target_arch = "x86")]
        {
            // records on this stack, up to the one that every stack ends with
            let (mut at, mut last, lo) = (first, 0, s.lo);
            while at != usize::MAX {
                if at < sp || at > base - 8 + 128 * (base == w.top) as usize {
                    wrong(format!("exception handler {at:#x} is not on the stack {lo:#x}-{base:#x} at {sp:#x}"));
                }
                last = *((at + 4) as *const usize);
                let next = *(at as *const usize);
                if next <= at {
                    wrong(format!("exception handler {next:#x} follows {at:#x}"));
                }
                at = next;
            }
            if last != HANDLER {
                wrong(format!("the list of exception handlers at {first:#x} ends with {last:#x}"));
            }
        }
        w.rng = splitmix(w.rng);
        if w.rng % 3 == 0 {
            s.limit = s.lo.wrapping_sub((w.rng >> 8) as usize % 512 * 8);
            *f(off::LIMIT) = s.limit;
        }
        if w.rng % 5 == 0 {
            s.guaranteed = (w.rng >> 32) as usize;
            *f(off::GUARANTEED) = s.guaranteed;
        }
        s.old.push((s.limit, s.guaranteed));
    }
}

/// The arena is accessible where there are stacks, as far as pages go.
fn pages(lo: usize, hi: usize, d: i32) {
    let w = world();
    for p in lo >> 12..(hi + 0xfff) >> 12 {
        let n = w.used.entry(p).or_insert(0);
        let old = *n;
        *n += d;
        if (old > 0) != (*n > 0) {
            let prot = if *n > 0 { libc::PROT_READ | libc::PROT_WRITE } else { libc::PROT_NONE };
            unsafe { assert_eq!(libc::mprotect((p << 12) as *mut _, 4096, prot), 0) };
        }
    }
}

unsafe extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let w = world();
    let u = &mut *(ctx as *mut libc::ucontext_t);
    let r = &mut u.uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    let (ip, sp) = (libc::REG_RIP as usize, libc::REG_RSP as usize);
    #[cfg(target_arch = "x86")]
    let (ip, sp) = (libc::REG_EIP as usize, libc::REG_ESP as usize);
    let Some(seed) = w.armed.take() else {
        wrong(format!("signal {sig} at {:#x}, stack pointer {:#x}, address {:?}", r[ip], r[sp], (*info).si_addr()));
    };
    let mut out = [0usize; 8];
    // the handler's stack is not one the program knows
    (((*w.host).trap).unwrap())(r[sp] as usize, seed as usize, out.as_mut_ptr());
    #[cfg(target_arch = "x86_64")]
    let order = [libc::REG_RIP, libc::REG_RSP, libc::REG_RBP, libc::REG_RDI, libc::REG_RSI];
    #[cfg(target_arch = "x86")]
    let order = [libc::REG_EIP, libc::REG_ESP, libc::REG_EBP, libc::REG_EAX, libc::REG_EBX, libc::REG_ECX, libc::REG_EDX];
    for (i, k) in order.iter().enumerate() {
        r[*k as usize] = out[i] as _;
    }
}

#[cfg(target_arch = "x86_64")]
pub unsafe fn set_segment(teb: usize) {
    const ARCH_SET_GS: i32 = 0x1001;
    assert_eq!(libc::syscall(libc::SYS_arch_prctl, ARCH_SET_GS, teb), 0);
}
#[cfg(target_arch = "x86")]
pub unsafe fn set_segment(teb: usize) {
    // a descriptor of this process
    let mut d = [u32::MAX, teb as u32, 0xfffff, 1 | 1 << 4 | 1 << 6];
    assert_eq!(libc::syscall(libc::SYS_set_thread_area, d.as_mut_ptr()), 0);
    let sel = d[0] << 3 | 3;
    std::arch::asm!("mov fs, {0:x}", in(reg) sel);
}

/// Nothing, or the end of the chain where the crate looks for it.
unsafe fn set_exception_list(teb: usize, top: usize) {
    let r = (top + 64) as *mut usize;
    r.write(usize::MAX);
    r.add(1).write(HANDLER);
    (teb as *mut usize).write(r as usize);
}

pub unsafe fn map(at: usize, n: usize, prot: i32, flags: i32) -> usize {
    let fixed = if at != 0 { libc::MAP_FIXED_NOREPLACE } else { 0 };
    libc::mmap(at as *mut _, n, prot, libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | flags | fixed, -1, 0) as usize
}

const ARENA: usize = 4 << 20;
const HEAP: usize = 8 << 20;
const MAIN: usize = 1 << 20;

/// The last exception handler.
const HANDLER: usize = 0x1234_5678;

/// Maps an image: its base, its entry point, and its import directory.
pub fn load(f: &[u8]) -> (usize, usize, usize) {
    let u16_at = |o: usize| u16::from_le_bytes(f[o..o + 2].try_into().unwrap()) as usize;
    let u32_at = |o: usize| u32::from_le_bytes(f[o..o + 4].try_into().unwrap()) as usize;
    let pe = u32_at(0x3c);
    assert_eq!(&f[pe..pe + 4], b"PE\0\0");
    let (sections, opt) = (u16_at(pe + 6), pe + 24);
    let (base, dirs) = match u16_at(opt) {
        0x20b => (u64::from_le_bytes(f[opt + 24..opt + 32].try_into().unwrap()) as usize, opt + 112),
        _ => (u32_at(opt + 28), opt + 96),
    };
    let size = u32_at(opt + 56);
    unsafe {
        let rwx = libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC;
        assert_eq!(map(base, (size + 0xfff) & !0xfff, rwx, libc::MAP_PRIVATE), base, "the place of the image is taken");
        let copy = |at: usize, from: usize, n: usize| std::ptr::copy_nonoverlapping(f[from..from + n].as_ptr(), (base + at) as *mut u8, n);
        copy(0, 0, u32_at(opt + 60));
        for i in 0..sections {
            let s = opt + u16_at(pe + 20) + i * 40;
            copy(u32_at(s + 12), u32_at(s + 20), u32_at(s + 16).min(u32_at(s + 8)));
        }
    }
    (base, base + u32_at(opt + 16), u32_at(dirs + 8))
}

pub struct Machine {
    entry: usize,
    note: *mut u8,
}
impl Machine {
    pub fn new(f: &[u8]) -> Machine {
        Machine { entry: load(f).1, note: null_mut() }
    }

    pub fn run(&mut self, c: Case) -> (Outcome, Result<(), String>) {
        let (st, log) = unsafe {
            if self.note.is_null() {
                // one for each worker process
                self.note = map(0, 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED) as *mut u8;
            }
            *self.note = 0;
            native::forked(|| self.child(c))
        };
        let note = unsafe { std::ffi::CStr::from_ptr(self.note as *const _) }.to_string_lossy().into_owned();
        let r = match st {
            0 => Ok(()),
            0x300 => Err(format!("{note} (after {} events)", log.len())),
            _ => Err(format!("ends with status {st:#x} after {} events", log.len())),
        };
        (Outcome { log, backtraces: 0, frames: 0, steps: 0 }, r)
    }

    unsafe fn child(&self, c: Case) -> ! {
        let rw = libc::PROT_READ | libc::PROT_WRITE;
        let mut arena = map(c.arena as usize, ARENA, libc::PROT_NONE, libc::MAP_PRIVATE);
        if arena != c.arena as usize {
            arena = map(0, ARENA, libc::PROT_NONE, libc::MAP_PRIVATE);
        }
        let heap = map(0, HEAP, rw, libc::MAP_PRIVATE);
        let main = map(0, MAIN, rw, libc::MAP_PRIVATE);
        let alt = map(0, 1 << 18, rw, libc::MAP_PRIVATE);
        let teb = map(0, 0x2000, rw, libc::MAP_PRIVATE);
        let top = main + MAIN - 4096;
        let ss = libc::stack_t { ss_sp: alt as *mut _, ss_flags: 0, ss_size: 1 << 18 };
        assert_eq!(libc::sigaltstack(&ss, null_mut()), 0);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGILL, libc::SIGBUS, libc::SIGFPE, libc::SIGTRAP] {
            libc::sigaction(s, &sa, null_mut());
        }
        let host = Box::leak(Box::new(Host {
            log,
            allow,
            deny,
            returned,
            maybe_old,
            arm,
            exit,
            trap: None,
            seed: c.seed,
            fuel: (c.focus << 16 | c.fuel) as usize,
            arena,
            heap,
            heap_end: heap + HEAP,
        }));
        WORLD = Box::leak(Box::new(World { stacks: HashMap::new(), used: HashMap::new(), teb, top, patterns: c.focus & 1 > 0, rng: c.seed, armed: None, host, note: self.note }));
        let w = world();
        w.stacks.insert(top, Stack { lo: main, limit: main + 4096, guaranteed: 0, dealloc: Some(main), old: Vec::new(), maybe_old: false });
        w.used.reserve(4096);
        let f = |o: usize, v: usize| ((teb + o) as *mut usize).write(v);
        f(off::BASE, top);
        f(off::LIMIT, main + 4096);
        f(off::DEALLOC, main);
        set_exception_list(teb, top);
        set_segment(teb);
        let entry: Main = std::mem::transmute(self.entry);
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("mov rsp, {sp}", "call {f}", "ud2", sp = in(reg) top - c.seed as usize % 64 * 16, f = in(reg) entry, in("rdi") host, options(noreturn));
        #[cfg(target_arch = "x86")]
        std::arch::asm!("mov esp, {sp}", "push 0", "push 0", "push 0", "push {h}", "call {f}", "ud2", sp = in(reg) top - c.seed as usize % 64 * 16, f = in(reg) entry, h = in(reg) host, options(noreturn));
    }
}
