//! Interruptions at every instruction: windows of code are run with the processor's trap flag
//! set, and the handler does what an asynchronous signal does to the interrupted stack
//! (overwrites what lies below the red zone), or what its hook says.
use crate::fam::mix;
use std::cell::Cell;
use std::sync::atomic::{compiler_fence, Ordering::SeqCst};

const PAGE: usize = 4096;
#[cfg(target_arch = "x86_64")]
const RED: usize = 128;
#[cfg(target_arch = "x86")]
const RED: usize = 0;
const TF: u32 = 0x100;

pub static mut SEED: u64 = 0;
static mut ARMS: u64 = 0;
static mut BUDGET: i64 = 0;
pub static mut STEPS: u64 = 0;
/// First stack pointer found outside every known stack: (pc, sp).
static mut STRAY: Option<(usize, usize)> = None;
/// Writable parts of the stacks that exist.
static mut STACKS: [(usize, usize); 512] = [(0, 0); 512];
static mut NSTACKS: usize = 0;
/// Called at each step instead of overwriting anything; true ends the stepping.
pub type Hook = unsafe fn(uc: *mut libc::ucontext_t, pc: usize, sp: usize) -> bool;
pub static mut HOOK: Option<Hook> = None;

pub fn add_stack(lo: usize, hi: usize) {
    unsafe {
        if SEED != 0 {
            assert!(NSTACKS < 512, "harness: too many stacks");
            // (in an order that suits the handler, which may run in between)
            STACKS[NSTACKS] = (lo, hi);
            compiler_fence(SeqCst);
            NSTACKS += 1;
            compiler_fence(SeqCst);
        }
    }
}
pub fn del_stack(hi: usize) {
    unsafe {
        if SEED != 0 {
            if let Some(i) = (0..NSTACKS).find(|i| STACKS[*i].1 == hi) {
                let last = STACKS[NSTACKS - 1];
                STACKS[i].0 = usize::MAX;
                compiler_fence(SeqCst);
                STACKS[i].1 = last.1;
                compiler_fence(SeqCst);
                STACKS[i].0 = last.0;
                compiler_fence(SeqCst);
                NSTACKS -= 1;
                compiler_fence(SeqCst);
            }
        }
    }
}

unsafe extern "C" fn on_step(_s: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = uc as *mut libc::ucontext_t;
    let g = &mut (*uc).uc_mcontext.gregs;
    let efl = libc::REG_EFL as usize;
    if g[efl] as u32 & TF == 0 {
        if (*info).si_code == libc::TRAP_TRACE {
            return; // the instruction that cleared the flag
        }
        // an int3 of the program's own
        libc::signal(libc::SIGTRAP, libc::SIG_DFL);
        libc::raise(libc::SIGTRAP);
        return;
    }
    STEPS += 1;
    BUDGET -= 1;
    #[cfg(target_arch = "x86_64")]
    let (pc, sp) = (g[libc::REG_RIP as usize] as usize, g[libc::REG_RSP as usize] as usize);
    #[cfg(target_arch = "x86")]
    let (pc, sp) = (g[libc::REG_EIP as usize] as u32 as usize, g[libc::REG_ESP as usize] as u32 as usize);
    if BUDGET <= 0 {
        g[efl] &= !(TF as libc::greg_t);
    }
    if let Some(h) = HOOK {
        if h(uc, pc, sp) {
            (*uc).uc_mcontext.gregs[efl] &= !(TF as libc::greg_t);
        }
        return;
    }
    let local = 0u8;
    if (std::ptr::addr_of!(local) as usize).wrapping_sub(sp.wrapping_sub(1 << 17)) < 1 << 18 {
        return; // no alternate stack
    }
    let mut i = 0;
    while i < NSTACKS {
        let (lo, hi) = STACKS[i];
        if sp >= lo && sp <= hi {
            // as a signal frame would, within the page that is in use
            let top = (sp - RED) & !7;
            let bottom = lo.max(top & !(PAGE - 1)).max(top.wrapping_sub(768));
            let mut a = top;
            while a > bottom {
                a -= 4;
                *(a as *mut u32) = 0xD1D1_0000 ^ a as u32;
            }
            return;
        }
        i += 1;
    }
    if STRAY.is_none() {
        STRAY = Some((pc, sp));
    }
}

thread_local! {
    static KNOWN: Cell<bool> = const { Cell::new(false) };
}
/// Starts single-stepping the calling thread here, at some of the calls.
#[inline(always)]
pub fn arm() {
    unsafe {
        if SEED != 0 {
            arm_now()
        }
    }
}
#[inline(never)]
unsafe fn arm_now() {
    ARMS += 1;
    let h = mix(SEED, ARMS);
    if h % 3 == 0 {
        return;
    }
    if !KNOWN.get() {
        KNOWN.set(true);
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_getattr_np(libc::pthread_self(), &mut at);
        let (mut p, mut n) = (std::ptr::null_mut(), 0);
        libc::pthread_attr_getstack(&at, &mut p, &mut n);
        libc::pthread_attr_destroy(&mut at);
        add_stack(p as usize, p as usize + n);
    }
    start([12, 50, 200, 500][(h >> 8) as usize % 4]);
}
#[inline(always)]
pub unsafe fn start(n: i64) {
    BUDGET = n;
    #[cfg(target_arch = "x86_64")]
    std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq");
    #[cfg(target_arch = "x86")]
    std::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
}
#[inline(always)]
pub unsafe fn stop() {
    #[cfg(target_arch = "x86_64")]
    std::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq");
    #[cfg(target_arch = "x86")]
    std::arch::asm!("pushfd", "and dword ptr [esp], 0xfffffeff", "popfd");
}

/// Prepares this process; seed 0 turns everything off.
pub fn init(seed: u64) {
    unsafe {
        SEED = seed;
        ARMS = 0;
        BUDGET = 0;
        STEPS = 0;
        NSTACKS = 0;
        STRAY = None;
        KNOWN.set(false);
        if seed != 0 {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            sa.sa_sigaction = on_step as *const () as usize;
            libc::sigemptyset(&mut sa.sa_mask);
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        }
    }
}
/// What went wrong, if anything.
pub fn verdict() -> Result<(), String> {
    unsafe {
        match STRAY {
            Some((pc, sp)) => Err(format!("the stack pointer was {sp:#x}, outside every stack, at an instruction ({pc:#x}): {:x?}", &(&*std::ptr::addr_of!(STACKS))[..NSTACKS])),
            None => Ok(()),
        }
    }
}
