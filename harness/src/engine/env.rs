//! State shared by every context of one program run: trace, token registry, slots, stacks.
use super::ast::*;
use super::stack::TStack;
use super::interp::Slot;
use std::cell::UnsafeCell;

pub const TRACE_MAX: usize = 24000;
pub const TOK_MAX: usize = 16384;

macro_rules! events {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(u32)]
        pub enum E { $($n),* }
        pub const E_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
events!(
    Ev, Query, Panicking, CreateSkip, Create, CreateFail, Resume, ResumeSkip, GotYield, GotReturn, BodyStart, Suspend, SuspendBack, BodyEnd, CaptureBad, TokDrop, TokBad, GuardDrop, GuardEnd, Deep, OnStack, OnStackBack, OnParent,
    OnParentBack, Panic, Caught, Hook, StackDrop, StackBad, Force, ForceDone, ForceSkip, DropCo, DropDone, Into, IntoDone, Reset, Swap, LocalBegin, LocalEnd, LResume, LTake, Thread, ThreadEnd, Trap, TrapFn, Check, Locals, Who,
    MainEnd, Live, Return, Stash, Throw, PutBack, BodyUnwind, Skip, ResumeDead, Rethrow,
);

/// Real-only assertions. The reference reports `true`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u32)]
pub enum Chk {
    Where = 1,
    Align,
    Canary,
    Regs,
    Locals,
    Backtrace,
    Bounds,
    Capture,
    TrapRoom,
    Flags,
    ParentBelow,
    SameStack,
}

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum N { $($n),* , COUNT }
        pub const N_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
counters!(
    create, resume, yielded, returned, panic_out, force_susp, force_unst, drop_susp, drop_unst, drop_done, force_err, nested_resume, onstack, onstack_panic, onstack_suspend, onstack_unwind, onparent, onparent_panic, onparent_other, into_ok, into_err,
    reuse, reset_susp, reset_unst, trap, trap_panic, trap_deep, thread_resume, bt_deep, unwind_nest, act_in_unwind, resume_dead, regs, localco, forced_seen, forced_swallowed, multi_live, susp_in_unwind, panicking_true, values_large, values_small,
    borrowed, hook, deep_susp, reparent, bounds, localck, susp_loop, leaky, thread, stash_cross,
);

#[repr(C)]
pub struct EShared {
    /// 0 reference running, 1 reference finished, 2 real running, 3 real finished
    pub stage: u32,
    pub cnt: [u32; N::COUNT as usize],
    pub heap_growth: i64,
    pub steps: u64,
    pub stray: u32,
    pub tr: [Trace; 2],
}
#[repr(C)]
pub struct Trace {
    pub len: u32,
    pub overflow: u32,
    pub ev: [[u32; 3]; TRACE_MAX],
}

pub struct CtxInfo {
    pub parent: u32,
    pub markers: Vec<u32>,
    pub range: (usize, usize),
    /// address of a local of the resumer at the latest resume
    pub resume_addr: usize,
    pub last_thread: u64,
    pub last_resumer: u32,
    pub started: bool,
    pub unwinding_flag: bool,
    pub flag_thread: u64,
    pub parent_range: (usize, usize),
    /// finished or gone: its stack may have been released
    pub dead: bool,
    /// the stack has a guard page right at its limit
    pub guard: bool,
    pub stack_id: u32,
    /// bottom of a thread
    pub root: bool,
}
impl CtxInfo {
    pub fn root() -> CtxInfo {
        CtxInfo { parent: 0, markers: vec![], range: (0, 0), resume_addr: 0, last_thread: 0, last_resumer: 0, started: true, unwinding_flag: false, flag_thread: 0, parent_range: (0, 0), dead: false, guard: false, stack_id: 0, root: true }
    }
}

pub struct EnvInner {
    pub prog: &'static Program,
    pub which: usize,
    pub sh: *mut EShared,
    pub next_tok: u32,
    pub tok: Vec<u8>,
    pub live: i64,
    pub fuel: i64,
    pub depth: u32,
    pub ctx: Vec<CtxInfo>,
    pub cur: u32,
    pub slots: Vec<Slot>,
    pub pool: Vec<TStack>,
    /// caught payloads, with the number of the forced unwind they belong to (if any)
    pub stash: Vec<(Box<dyn std::any::Any + Send>, u32)>,
    /// forced unwinds in progress, outermost first
    pub pend: Vec<u32>,
    pub next_pend: u32,
    pub next_guard: u32,
    pub next_stack: u32,
    pub susp_live: i64,
    pub unwinds: u32,
    pub next_force: u32,
    pub leaky: bool,
    /// no more trace (after the end of main)
    pub closed: bool,
    pub created: u32,
    pub main_pc: usize,
    pub parents: u32,
    pub threads: u32,
    pub cur_thread: u64,
}
pub struct Env(pub UnsafeCell<EnvInner>);
unsafe impl Sync for Env {}
unsafe impl Send for Env {}

/// The environment of the current run. One run is active per process; all of its contexts are
/// strictly interleaved.
pub static mut ENV: *const Env = std::ptr::null();

#[inline]
pub fn env() -> &'static mut EnvInner {
    unsafe { &mut *(*ENV).0.get() }
}
pub fn active() -> bool {
    unsafe { !ENV.is_null() }
}

#[inline(never)]
pub fn ev(k: E, a: u32, b: u32) {
    let e = env();
    if e.closed {
        return;
    }
    unsafe {
        let tr = std::ptr::addr_of_mut!((*e.sh).tr[e.which]);
        let n = (*tr).len as usize;
        if n >= TRACE_MAX {
            (*tr).overflow = 1;
            return;
        }
        (*tr).ev[n] = [k as u32, a, b];
        (*tr).len = n as u32 + 1;
    }
}
pub fn check(c: Chk, ok: bool) {
    ev(E::Check, c as u32, ok as u32)
}
pub fn real() -> bool {
    env().which == 1
}
pub fn cnt(n: N) {
    let e = env();
    if e.which == 0 {
        unsafe { (*e.sh).cnt[n as usize] += 1 }
    }
}
/// Reference only: records whether a context is unwinding as control leaves it.
pub fn publish(ctx: u32, p: bool) {
    let e = env();
    let t = e.cur_thread;
    let c = &mut e.ctx[ctx as usize];
    c.unwinding_flag = p;
    c.flag_thread = t;
}
/// Consumes one unit of fuel; false when the program must wind down.
pub fn fuel() -> bool {
    let e = env();
    e.fuel -= 1;
    e.fuel > 0
}

// ---------------------------------------------------------------- tokens
/// A value that crosses context switches: carries an identity, detects corruption, and records its
/// destruction.
pub trait Tk: 'static + Sized + Into<Tok> {
    const LARGE: bool;
    /// What the token travels in when a coroutine returns it: laid out differently from itself.
    type Ret: 'static;
    fn pack(self) -> Self::Ret;
    fn unpack(r: Self::Ret) -> Self;
    fn new(id: u32) -> Self;
    fn id(&self) -> u32;
}
fn born(id: u32) {
    let e = env();
    e.tok[id as usize] = 1;
    e.live += 1;
}
fn dead(id: u32) {
    let e = env();
    if id as usize >= TOK_MAX || e.tok[id as usize] != 1 {
        ev(E::TokBad, id, if (id as usize) < TOK_MAX { e.tok[id as usize] as u32 } else { 99 });
        return;
    }
    e.tok[id as usize] = 2;
    e.live -= 1;
    ev(E::TokDrop, id, e.cur);
}
pub fn fresh() -> u32 {
    let e = env();
    e.next_tok = (e.next_tok + 1).min(TOK_MAX as u32 - 1);
    e.next_tok
}
pub struct TokS(std::num::NonZeroU32);
impl Tk for TokS {
    const LARGE: bool = false;
    type Ret = (u64, TokS, [u32; 3]);
    fn pack(self) -> Self::Ret {
        let n = self.0.get();
        (!(n as u64), self, [n ^ 0x5555, n, 7])
    }
    fn unpack(r: Self::Ret) -> Self {
        let n = r.1 .0.get();
        if r.0 != !(n as u64) || r.2 != [n ^ 0x5555, n, 7] {
            ev(E::TokBad, n, 78);
        }
        r.1
    }
    fn new(id: u32) -> Self {
        born(id);
        cnt(N::values_small);
        TokS(std::num::NonZeroU32::new(id).unwrap())
    }
    fn id(&self) -> u32 {
        self.0.get()
    }
}
impl Drop for TokS {
    fn drop(&mut self) {
        dead(self.0.get())
    }
}
#[repr(C)]
pub struct TokL {
    a: u64,
    id: u32,
    pad: [u32; 13],
    z: u64,
}
fn mixl(id: u32, k: u32) -> u32 {
    (id.wrapping_mul(0x9E3779B1) ^ k.wrapping_mul(0x85EBCA6B)).rotate_left(k & 31)
}
impl Tk for TokL {
    const LARGE: bool = true;
    type Ret = Box<TokL>;
    fn pack(self) -> Self::Ret {
        Box::new(self)
    }
    fn unpack(r: Self::Ret) -> Self {
        *r
    }
    fn new(id: u32) -> Self {
        born(id);
        cnt(N::values_large);
        let mut pad = [0; 13];
        for (k, p) in pad.iter_mut().enumerate() {
            *p = mixl(id, k as u32);
        }
        TokL { a: !(id as u64), id, pad, z: id as u64 * 0x1_0001_0001 }
    }
    fn id(&self) -> u32 {
        let ok = self.a == !(self.id as u64) && self.z == self.id as u64 * 0x1_0001_0001 && self.pad.iter().enumerate().all(|(k, p)| *p == mixl(self.id, k as u32));
        if !ok {
            ev(E::TokBad, self.id, 77);
        }
        self.id
    }
}
impl Drop for TokL {
    fn drop(&mut self) {
        self.id();
        dead(self.id)
    }
}
pub enum Tok {
    S(TokS),
    L(TokL),
}
impl Tok {
    pub fn id(&self) -> u32 {
        match self {
            Tok::S(t) => t.id(),
            Tok::L(t) => t.id(),
        }
    }
}
impl From<TokS> for Tok {
    fn from(t: TokS) -> Tok {
        Tok::S(t)
    }
}
impl From<TokL> for Tok {
    fn from(t: TokL) -> Tok {
        Tok::L(t)
    }
}
