//! Towers of contexts for a debugger: at every stop the program announces on fd 1 which marked
//! frames are active; the debugger's own backtrace is compared with that by the check.
use super::*;
use crate::rt::Tape;
use corosensei::stack::{Stack, StackPointer};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{on_stack, Coroutine, Yielder};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

const UNW: bool = cfg!(feature = "unwind");
const SZ: usize = 512 * 1024;
const SLOTS: usize = 24;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Call,
    Co,
    OnStack,
    OnParent,
    /// suspended once, resumed from another frame
    Bounce,
    /// in a destructor while the coroutine is being unwound
    Dtor,
    /// in the function that replaces a trapping coroutine's code
    Trap,
    /// in a signal handler
    Signal,
    /// in a destructor while a panic travels through the coroutine
    Panicking,
    Thread,
    /// two coroutines under the same frame, the second resumed by the first
    Twins,
}
use Op::*;
const ALL: [Op; 11] = [Call, Co, OnStack, OnParent, Bounce, Dtor, Trap, Signal, Panicking, Thread, Twins];

struct Cx {
    ops: Vec<Op>,
    seed: u64,
}
static mut CX: Option<Cx> = None;
static mut CUR: Vec<u32> = Vec::new();
static mut NEXT: usize = 0;
static mut ARENA: usize = 0;
static mut USED: [bool; SLOTS] = [false; SLOTS];
static mut STOPS: u32 = 0;

fn cx() -> &'static Cx {
    unsafe { CX.as_ref().unwrap() }
}
fn push(m: u32) -> usize {
    unsafe {
        CUR.push(m);
        CUR.len() - 1
    }
}
fn pop(n: usize) {
    unsafe { CUR.truncate(n) }
}

/// Stacks at addresses above or below those already in use.
struct A(usize);
impl A {
    fn new(k: usize) -> A {
        unsafe {
            if ARENA == 0 {
                let m = libc::mmap(std::ptr::null_mut(), SZ * SLOTS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                assert!(m != libc::MAP_FAILED, "harness: mmap");
                ARENA = m as usize;
            }
            let mut i = (mix(cx().seed ^ 0x77, k as u64) % SLOTS as u64) as usize;
            while USED[i] {
                i = (i + 1) % SLOTS;
            }
            USED[i] = true;
            A(i)
        }
    }
}
impl Drop for A {
    fn drop(&mut self) {
        unsafe { USED[self.0] = false }
    }
}
unsafe impl Stack for A {
    fn base(&self) -> StackPointer {
        StackPointer::new(unsafe { ARENA } + SZ * (self.0 + 1)).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(unsafe { ARENA } + SZ * self.0).unwrap()
    }
}

type Y = Yielder<(), ()>;
type Co = Coroutine<(), (), (), A>;
type F = fn(usize, Option<&Y>);
macro_rules! markers {
    ($($n:ident $i:literal),*) => {
        $(#[no_mangle]
        #[inline(never)]
        fn $n(k: usize, y: Option<&Y>) {
            let a = std::hint::black_box([(k as u64).wrapping_add($i); 3]);
            let d = push($i);
            step(k, y);
            pop(d);
            std::hint::black_box(a);
        })*
        static FNS: &[F] = &[$($n),*];
    };
}
markers!(cvh_g0 0, cvh_g1 1, cvh_g2 2, cvh_g3 3, cvh_g4 4, cvh_g5 5, cvh_g6 6, cvh_g7 7);

/// Another frame that resumes.
#[no_mangle]
#[inline(never)]
fn cvh_g8(co: &mut Co) {
    let d = push(8);
    let a = std::hint::black_box([d; 4]);
    co.resume(());
    std::hint::black_box(a);
    pop(d);
}
#[no_mangle]
#[inline(never)]
fn cvh_g9(co: &mut Co) {
    let d = push(9);
    let a = std::hint::black_box([d; 2]);
    co.force_unwind();
    std::hint::black_box(a);
    pop(d);
}

/// The debugger stops here.
#[no_mangle]
#[inline(never)]
pub extern "C" fn cvh_stop(n: u32) -> u32 {
    std::hint::black_box(n + 1)
}
fn out(s: String) {
    unsafe { libc::write(1, s.as_ptr() as *const _, s.len()) };
}
#[inline(never)]
fn look(at: &str) {
    let w: Vec<String> = unsafe { CUR.iter().rev().map(|x| x.to_string()).collect() };
    unsafe { STOPS += 1 };
    out(format!("@want {} {} {}\n", unsafe { STOPS }, w.join(","), at));
    std::hint::black_box(cvh_stop(unsafe { STOPS }));
}

struct OnDrop(usize);
impl Drop for OnDrop {
    fn drop(&mut self) {
        let k = self.0;
        let f = FNS[(mix(cx().seed ^ 5, k as u64) % 8) as usize];
        // no further coroutines of this tower are created while unwinding
        let _ = f;
        at_top("unwinding", k);
    }
}
#[no_mangle]
#[inline(never)]
fn cvh_g10(k: usize, at: &str) {
    let d = push(10);
    look(at);
    pop(d);
    std::hint::black_box(k);
}
fn at_top(at: &str, k: usize) {
    cvh_g10(k, at)
}

static mut HANDLER: Option<CoroutineTrapHandler<()>> = None;
static mut TRAP_K: usize = 0;
static mut TRAP_BASE: Vec<u32> = Vec::new();
extern "C" fn on_segv(_s: i32, _i: *mut libc::siginfo_t, u: *mut libc::c_void) {
    unsafe {
        let Some(h) = HANDLER.take() else { libc::_exit(3) };
        let uc = &mut *(u as *mut libc::ucontext_t);
        let k = TRAP_K;
        let regs = h.setup_trap_handler(move || {
            // the frames of the trapping code are gone
            std::mem::swap(&mut CUR, &mut TRAP_BASE);
            FNS[(mix(cx().seed, k as u64) % 8) as usize](k, None);
        });
        #[cfg(target_arch = "x86_64")]
        {
            let corosensei::trap::TrapHandlerRegs { rip, rsp, rbp, rdi, rsi } = regs;
            let g = &mut uc.uc_mcontext.gregs;
            g[libc::REG_RIP as usize] = rip as i64;
            g[libc::REG_RSP as usize] = rsp as i64;
            g[libc::REG_RBP as usize] = rbp as i64;
            g[libc::REG_RDI as usize] = rdi as i64;
            g[libc::REG_RSI as usize] = rsi as i64;
        }
        #[cfg(target_arch = "x86")]
        {
            let corosensei::trap::TrapHandlerRegs { eip, esp, ebp, ecx, edx } = regs;
            let g = &mut uc.uc_mcontext.gregs;
            g[libc::REG_EIP as usize] = eip as i32;
            g[libc::REG_ESP as usize] = esp as i32;
            g[libc::REG_EBP as usize] = ebp as i32;
            g[libc::REG_ECX as usize] = ecx as i32;
            g[libc::REG_EDX as usize] = edx as i32;
        }
    }
}
static mut SIG_K: usize = 0;
extern "C" fn on_usr(_s: i32) {
    let k = unsafe { SIG_K };
    // only plain calls on top: the handler must return before any switch
    FNS[(mix(cx().seed, k as u64) % 8) as usize](usize::MAX - 1, None);
}

fn mk(k: usize, f: impl FnOnce(&Y) + 'static) -> Co {
    Coroutine::with_stack(A::new(k), move |y: &Y, ()| f(y))
}
struct S<T>(T);
unsafe impl<T> Send for S<T> {}

#[inline(always)]
fn step(k: usize, y: Option<&Y>) {
    if k == usize::MAX - 1 {
        return look("in a signal handler");
    }
    let f = FNS[(mix(cx().seed, k as u64) % 8) as usize];
    let here = unsafe { CUR.len() };
    match cx().ops.get(k).copied() {
        None => look("top"),
        Some(Call) => f(k + 1, y),
        Some(OnStack) => {
            on_stack(A::new(k), || f(k + 1, y));
        }
        Some(OnParent) => match y {
            Some(y) => y.on_parent_stack(move || f(k + 1, None)),
            None => f(k + 1, y),
        },
        Some(Co) => {
            mk(k, move |y| f(k + 1, Some(y))).resume(());
        }
        Some(Bounce) => {
            let mut co = mk(k, move |y| {
                y.suspend(());
                f(k + 1, Some(y))
            });
            co.resume(());
            look("suspended");
            cvh_g8(&mut co);
        }
        Some(Dtor) => {
            let mut co = mk(k, move |y| {
                let _g = OnDrop(k);
                y.suspend(());
                f(k + 1, Some(y))
            });
            co.resume(());
            if UNW {
                cvh_g9(&mut co);
                f(k + 1, y);
            } else {
                co.resume(());
            }
        }
        Some(Trap) => {
            let mut co = mk(k, move |y| {
                y.suspend(());
                trapping(k)
            });
            co.resume(());
            unsafe {
                HANDLER = Some(co.trap_handler());
                TRAP_K = k + 1;
                TRAP_BASE = CUR.clone();
                TRAP_BASE.push(8);
            }
            cvh_g8(&mut co);
        }
        Some(Signal) => unsafe {
            SIG_K = k;
            libc::raise(libc::SIGUSR1);
            f(k + 1, y);
        },
        Some(Panicking) if UNW => {
            let mut co = mk(k, move |_| {
                let _g = OnDrop(k);
                panic_any(1u8)
            });
            let _ = catch_unwind(AssertUnwindSafe(|| cvh_g8(&mut co)));
            pop(here);
            drop(co);
            f(k + 1, y);
        }
        Some(Panicking) => f(k + 1, y),
        Some(Thread) => {
            // the tower goes on from a new outermost frame
            let saved = unsafe { std::mem::take(&mut CUR) };
            let r = std::thread::Builder::new().stack_size(1 << 20).spawn(move || f(k + 1, None)).expect("harness: thread").join();
            unsafe { CUR = saved };
            if r.is_err() {
                panic!("harness: thread");
            }
        }
        Some(Twins) => {
            let mut inner = mk(k, move |y| {
                y.suspend(());
                f(k + 1, Some(y));
            });
            inner.resume(());
            let mut inner = Some(S(inner));
            let mut outer = mk(k, move |_| {
                let mut i = inner.take().unwrap().0;
                cvh_g8(&mut i);
            });
            outer.resume(());
        }
    }
    pop(here);
}
#[no_mangle]
#[inline(never)]
fn cvh_g11(n: u32) -> u64 {
    let a = std::hint::black_box([n as u64; 9]);
    push(11);
    let r = if n == 0 { unsafe { std::ptr::read_volatile(16 as *const u8) as u64 } } else { cvh_g11(n - 1) };
    r + a[3]
}
#[inline(never)]
fn trapping(k: usize) {
    std::hint::black_box(cvh_g11((mix(cx().seed, k as u64 ^ 99) % 4) as u32));
}

/// Each line of the file is a tape.
pub fn run(path: &str) -> i32 {
    hush();
    let txt = std::fs::read_to_string(path).expect("tapes");
    unsafe {
        let alt = libc::mmap(std::ptr::null_mut(), 1 << 17, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let _ = alt;
        let mut s: libc::sigaction = std::mem::zeroed();
        s.sa_sigaction = on_segv as *const () as usize;
        s.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &s, std::ptr::null_mut());
        s.sa_sigaction = on_usr as *const () as usize;
        s.sa_flags = libc::SA_NODEFER;
        libc::sigaction(libc::SIGUSR1, &s, std::ptr::null_mut());
    }
    for (i, l) in txt.lines().enumerate() {
        let tape: Vec<u32> = l.split_whitespace().map(|x| x.parse().expect("tape")).collect();
        let mut t = Tape::fixed(tape);
        let n = 1 + t.draw(12) as usize;
        let ops: Vec<Op> = (0..n).map(|_| ALL[t.weighted(&[4, 6, 4, 5, 4, 2, 2, 1, 2, 1, 3])]).collect();
        let seed = t.u64();
        out(format!("@case {i} {ops:?}\n"));
        unsafe {
            CX = Some(Cx { ops, seed });
            CUR.clear();
        }
        cvh_g0(0, None);
    }
    out("@done\n".into());
    0
}
