//! The operations a program uses, implemented twice: by corosensei itself, and by a reference in
//! which every coroutine is an operating system thread handing over control explicitly.
use super::asm;
use super::step::arm;
use super::ast::TrapKind;
use super::env::*;
use super::stack::TStack;
use corosensei::stack::Stack;
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;

pub struct TrapSpec {
    pub kind: TrapKind,
    pub pad: u8,
    pub depth: u32,
    pub body: Box<dyn FnOnce()>,
    pub ret: u32,
}

pub trait Yd {
    fn suspend(&self, id: u32, regs: u32) -> Tok;
    fn on_parent(&self, pad: u8, id: u32, f: &mut dyn FnMut()) -> Tok;
    fn trap(&self, spec: TrapSpec) -> !;
}
pub trait CoDyn {
    /// Returns (yielded, value).
    fn resume(&mut self, id: u32, regs: u32) -> (bool, Tok);
    fn force(&mut self);
    fn started(&self) -> bool;
    fn done(&self) -> bool;
    unsafe fn reset(&mut self);
    fn into_stack(self: Box<Self>) -> TStack;
    fn in_bounds(&self, p: usize) -> Option<bool>;
}
impl CoDyn for Box<dyn CoDyn> {
    fn resume(&mut self, id: u32, regs: u32) -> (bool, Tok) {
        (**self).resume(id, regs)
    }
    fn force(&mut self) {
        (**self).force()
    }
    fn started(&self) -> bool {
        (**self).started()
    }
    fn done(&self) -> bool {
        (**self).done()
    }
    unsafe fn reset(&mut self) {
        (**self).reset()
    }
    fn into_stack(self: Box<Self>) -> TStack {
        (*self).into_stack()
    }
    fn in_bounds(&self, p: usize) -> Option<bool> {
        (**self).in_bounds(p)
    }
}
pub enum StackArg<'a> {
    Own(TStack),
    Ref(&'a mut TStack),
}

pub trait Api: 'static + Sized {
    type Co<T: Tk>: CoDyn + 'static;
    fn create<T: Tk, F: FnOnce(&'static dyn Yd, T) -> T + 'static>(stack: TStack, ctx: u32, f: F) -> Self::Co<T>;
    fn on_stack<R, F: FnOnce() -> R>(stack: StackArg, f: F) -> R;
    /// Whether the logical thread is panicking.
    fn panicking() -> bool;
}

/// Data carried by closures to vary their size and alignment.
#[derive(Clone, Copy)]
pub struct Pad<const M: usize>([u8; M], u32);
impl<const M: usize> Pad<M> {
    pub fn new(seed: u32) -> Self {
        let mut a = [0; M];
        for (i, x) in a.iter_mut().enumerate() {
            *x = (seed as usize * 7 + i * 13) as u8;
        }
        Pad(a, seed)
    }
    pub fn ok(&self) -> bool {
        (0..M).all(|i| self.0[i] == (self.1 as usize * 7 + i * 13) as u8)
    }
}
#[repr(align(64))]
#[derive(Clone, Copy)]
pub struct Al64(pub Pad<60>);
impl Al64 {
    pub fn ok(&self) -> bool {
        self as *const _ as usize % 64 == 0 && self.0.ok()
    }
}

// ================================================================ corosensei
pub struct Real;
pub struct RealCo<T: Tk> {
    co: Coroutine<T, T, T::Ret, TStack>,
}
struct RealY<'a, T: Tk> {
    y: &'a Yielder<T, T>,
    ctx: u32,
}
pub static mut HANDLER_BOXES: i64 = 0;
/// Trap handlers of the live coroutines, by context (same token type as the coroutine).
pub static mut HANDLERS: Vec<Option<&'static dyn Any>> = Vec::new();

struct Snd<T>(T);
unsafe impl<T> Send for Snd<T> {}
impl<T> Snd<T> {
    fn get(self) -> T {
        self.0
    }
}

impl<'a, T: Tk> Yd for RealY<'a, T> {
    fn suspend(&self, id: u32, regs: u32) -> Tok {
        arm();
        if regs != 0 {
            let mut out = None;
            let mut f = || out = Some(self.y.suspend(T::new(id)));
            let bad = asm::call_checked(regs, &mut f);
            check(Chk::Regs, bad == 0);
            return out.unwrap().into();
        }
        self.y.suspend(T::new(id)).into()
    }
    fn on_parent(&self, pad: u8, id: u32, f: &mut dyn FnMut()) -> Tok {
        let f = Snd(f);
        let t = Snd(T::new(id));
        let go = move |ok: bool| {
            check(Chk::Capture, ok);
            (f.get())();
            arm();
            t
        };
        arm();
        // The closure's own value comes back as its result.
        match pad {
            0 => self.y.on_parent_stack(move || go(true)).get().into(),
            1 => {
                let p = Pad::<1>::new(id);
                self.y.on_parent_stack(move || go(p.ok())).get().into()
            }
            2 => {
                let p = Pad::<100>::new(id);
                self.y.on_parent_stack(move || go(p.ok())).get().into()
            }
            3 => {
                let p = Al64(Pad::new(id));
                self.y.on_parent_stack(move || go(p.ok())).get().into()
            }
            _ => {
                let p = Pad::<1200>::new(id);
                self.y.on_parent_stack(move || (go(p.ok()), p)).0.get().into()
            }
        }
    }
    fn trap(&self, spec: TrapSpec) -> ! {
        let th: &'static CoroutineTrapHandler<T::Ret> = unsafe { (&*std::ptr::addr_of!(HANDLERS))[self.ctx as usize].expect("harness: handler").downcast_ref().unwrap() };
        let TrapSpec { kind, pad, depth, body, ret } = spec;
        let go = move |ok: bool| {
            check(Chk::Capture, ok);
            body();
            T::new(ret).pack()
        };
        let prep: Box<dyn FnOnce(*mut libc::ucontext_t)> = Box::new(move |uc| unsafe {
            let sp = asm::uc_sp(uc);
            check(Chk::Bounds, th.stack_ptr_in_bounds(sp));
            let regs = match pad {
                0 => th.setup_trap_handler(move || go(true)),
                1 => {
                    let p = Pad::<1>::new(ret);
                    th.setup_trap_handler(move || go(p.ok()))
                }
                2 => {
                    let p = Pad::<100>::new(ret);
                    th.setup_trap_handler(move || go(p.ok()))
                }
                3 => {
                    let p = Al64(Pad::new(ret));
                    th.setup_trap_handler(move || go(p.ok()))
                }
                _ => {
                    let p = Pad::<900>::new(ret);
                    th.setup_trap_handler(move || go(p.ok()))
                }
            };
            asm::uc_set(uc, regs);
        });
        arm();
        asm::trap_now(kind, depth, prep)
    }
}

impl<T: Tk> CoDyn for RealCo<T> {
    fn resume(&mut self, id: u32, regs: u32) -> (bool, Tok) {
        arm();
        let r = if regs != 0 {
            let mut out = None;
            let co = &mut self.co;
            let mut f = || out = Some(co.resume(T::new(id)));
            let bad = asm::call_checked(regs, &mut f);
            check(Chk::Regs, bad == 0);
            out.unwrap()
        } else {
            self.co.resume(T::new(id))
        };
        match r {
            CoroutineResult::Yield(v) => (true, v.into()),
            CoroutineResult::Return(v) => (false, T::unpack(v).into()),
        }
    }
    fn force(&mut self) {
        arm();
        self.co.force_unwind()
    }
    fn started(&self) -> bool {
        self.co.started()
    }
    fn done(&self) -> bool {
        self.co.done()
    }
    unsafe fn reset(&mut self) {
        self.co.force_reset()
    }
    fn into_stack(self: Box<Self>) -> TStack {
        self.co.into_stack()
    }
    fn in_bounds(&self, p: usize) -> Option<bool> {
        Some(self.co.trap_handler().stack_ptr_in_bounds(p))
    }
}

impl Api for Real {
    type Co<T: Tk> = RealCo<T>;
    fn create<T: Tk, F: FnOnce(&'static dyn Yd, T) -> T + 'static>(stack: TStack, ctx: u32, f: F) -> RealCo<T> {
        arm();
        let co = Coroutine::with_stack(stack, move |y: &Yielder<T, T>, input: T| {
            let ry = RealY { y, ctx };
            let d: &dyn Yd = &ry;
            let d: &'static dyn Yd = unsafe { std::mem::transmute(d) };
            let r = f(d, input).pack();
            arm();
            r
        });
        unsafe {
            let h = &mut *std::ptr::addr_of_mut!(HANDLERS);
            while h.len() <= ctx as usize {
                h.push(None);
            }
            HANDLER_BOXES += 1;
            h[ctx as usize] = Some(Box::leak(Box::new(co.trap_handler())));
        }
        RealCo { co }
    }
    fn on_stack<R, F: FnOnce() -> R>(stack: StackArg, f: F) -> R {
        arm();
        let f = move || {
            let r = f();
            arm();
            r
        };
        match stack {
            StackArg::Own(s) => corosensei::on_stack(s, f),
            StackArg::Ref(s) => corosensei::on_stack(s, f),
        }
    }
    fn panicking() -> bool {
        std::thread::panicking()
    }
}

// ================================================================ reference
pub struct Gate(AtomicU32);
impl Gate {
    fn new() -> Gate {
        Gate(AtomicU32::new(0))
    }
    fn wait(&self) {
        while self.0.compare_exchange(1, 0, SeqCst, SeqCst).is_err() {
            unsafe {
                libc::syscall(libc::SYS_futex, self.0.as_ptr(), 128 /* WAIT|PRIVATE */, 0, std::ptr::null::<u8>());
            }
        }
    }
    fn go(&self) {
        self.0.store(1, SeqCst);
        unsafe {
            libc::syscall(libc::SYS_futex, self.0.as_ptr(), 129, 1);
        }
    }
}
struct RefForced(u32);

enum In<T> {
    None,
    Val(T),
    Force(u32),
}
enum Out<T> {
    None,
    Yield(T),
    Return(T),
    Panic(Box<dyn Any + Send>),
}
struct Chan<T> {
    to_co: Gate,
    to_host: Gate,
    inn: std::cell::UnsafeCell<In<T>>,
    out: std::cell::UnsafeCell<Out<T>>,
    ctx: u32,
}
unsafe impl<T> Sync for Chan<T> {}
unsafe impl<T> Send for Chan<T> {}
impl<T> Chan<T> {
    /// Coroutine side: hand over and wait for the next input.
    fn swap_out(&self, o: Out<T>) -> In<T> {
        unsafe {
            *self.out.get() = o;
            publish(self.ctx, std::thread::panicking());
            self.to_host.go();
            self.to_co.wait();
            env().ctx[self.ctx as usize].unwinding_flag = false;
            std::mem::replace(&mut *self.inn.get(), In::None)
        }
    }
    fn final_out(&self, o: Out<T>) {
        unsafe {
            *self.out.get() = o;
            publish(self.ctx, std::thread::panicking());
            self.to_host.go();
        }
    }
    /// Resumer side.
    fn swap_in(&self, i: In<T>, me: u32) -> Out<T> {
        unsafe {
            *self.inn.get() = i;
            publish(me, std::thread::panicking());
            self.to_co.go();
            self.to_host.wait();
            env().ctx[me as usize].unwinding_flag = false;
            std::mem::replace(&mut *self.out.get(), Out::None)
        }
    }
}

// Threads are reused within a process.
type Job = Box<dyn FnOnce() + 'static>;
struct PoolThread {
    gate: Gate,
    job: std::cell::UnsafeCell<Option<Snd<Job>>>,
}
unsafe impl Sync for PoolThread {}
unsafe impl Send for PoolThread {}
static mut IDLE: Vec<Arc<PoolThread>> = Vec::new();
fn pool_run(job: Job) {
    unsafe {
        let idle = &mut *std::ptr::addr_of_mut!(IDLE);
        let t = match idle.pop() {
            Some(t) => t,
            None => {
                let t = Arc::new(PoolThread { gate: Gate::new(), job: std::cell::UnsafeCell::new(None) });
                let t2 = t.clone();
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || loop {
                        t2.gate.wait();
                        let j = (*t2.job.get()).take().unwrap();
                        (j.get())();
                    })
                    .expect("harness: thread");
                t
            }
        };
        CUR_POOL.with(|_| ());
        *t.job.get() = Some(Snd(Box::new({
            let t = t.clone();
            move || {
                let t2 = t.clone();
                RETURN_TO.with(|r| *r.borrow_mut() = Some(t2));
                job();
            }
        })));
        t.gate.go();
    }
}
thread_local! {
    static CUR_POOL: () = const { () };
    static RETURN_TO: std::cell::RefCell<Option<Arc<PoolThread>>> = const { std::cell::RefCell::new(None) };
}

pub struct Ref;
pub struct RefCo<T: Tk> {
    // field order is drop order: the stack goes last
    f: Option<Box<dyn FnOnce(&'static dyn Yd, T) -> T>>,
    ch: Option<Arc<Chan<T>>>,
    state: RS,
    stack: Option<TStack>,
    ctx: u32,
}
#[derive(PartialEq, Clone, Copy)]
enum RS {
    New,
    Suspended,
    Done,
}
struct RefY<T: Tk> {
    ch: Arc<Chan<T>>,
}
fn got<T: Tk>(i: In<T>) -> Tok {
    match i {
        In::Val(v) => v.into(),
        In::Force(n) => resume_unwind(Box::new(RefForced(n))),
        In::None => unreachable!("harness: no input"),
    }
}
impl<T: Tk> Yd for RefY<T> {
    fn suspend(&self, id: u32, regs: u32) -> Tok {
        let t = got(self.ch.swap_out(Out::Yield(T::new(id))));
        if regs != 0 {
            check(Chk::Regs, true);
        }
        t
    }
    fn on_parent(&self, _pad: u8, id: u32, f: &mut dyn FnMut()) -> Tok {
        let t = T::new(id);
        check(Chk::Capture, true);
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        match r {
            Ok(()) => t.into(),
            Err(p) => {
                #[cfg(not(feature = "unwind"))]
                {
                    drop(p);
                    die()
                }
                #[cfg(feature = "unwind")]
                {
                    drop(t);
                    resume_unwind(p)
                }
            }
        }
    }
    fn trap(&self, spec: TrapSpec) -> ! {
        let TrapSpec { body, ret, .. } = spec;
        check(Chk::Bounds, true);
        let r = catch_unwind(AssertUnwindSafe(|| {
            check(Chk::Capture, true);
            body();
            T::new(ret)
        }));
        self.ch.final_out(match r {
            Ok(v) => Out::Return(v),
            Err(p) => root_panic(p),
        });
        park()
    }
}
fn park() -> ! {
    loop {
        unsafe {
            libc::pause();
        }
    }
}
/// Without unwinding support a panic at the root of a context ends the process.
#[allow(dead_code)]
fn die() -> ! {
    std::process::abort()
}
fn root_panic<T>(p: Box<dyn Any + Send>) -> Out<T> {
    if cfg!(feature = "unwind") {
        Out::Panic(p)
    } else {
        std::mem::forget(p);
        std::process::abort()
    }
}

struct Bomb;
impl Drop for Bomb {
    fn drop(&mut self) {
        std::process::abort()
    }
}

impl<T: Tk> RefCo<T> {
    fn step(&mut self, i: In<T>) -> Out<T> {
        let me = RESUMER.with(|r| r.get());
        self.state = RS::Done;
        let o = self.ch.as_ref().unwrap().swap_in(i, me);
        if let Out::Yield(_) = o {
            self.state = RS::Suspended;
        }
        o
    }
}
thread_local! {
    /// Context on whose behalf this thread currently resumes (set by the interpreter).
    pub static RESUMER: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

impl<T: Tk> CoDyn for RefCo<T> {
    fn resume(&mut self, id: u32, regs: u32) -> (bool, Tok) {
        let val = T::new(id);
        if self.state == RS::Done {
            panic!("reference: resume of a finished coroutine");
        }
        if self.state == RS::New {
            let ch = Arc::new(Chan { to_co: Gate::new(), to_host: Gate::new(), inn: std::cell::UnsafeCell::new(In::None), out: std::cell::UnsafeCell::new(Out::None), ctx: self.ctx });
            self.ch = Some(ch.clone());
            let f = self.f.take().unwrap();
            let ctx = self.ctx;
            pool_run(Box::new(move || {
                ch.to_co.wait();
                RESUMER.with(|r| r.set(ctx));
                let inp = unsafe { std::mem::replace(&mut *ch.inn.get(), In::None) };
                let In::Val(inp) = inp else { unreachable!("harness: first input") };
                let ry = RefY { ch: ch.clone() };
                let d: &dyn Yd = &ry;
                let d: &'static dyn Yd = unsafe { std::mem::transmute(d) };
                let r = catch_unwind(AssertUnwindSafe(|| f(d, inp)));
                let o = match r {
                    Ok(v) => Out::Return(v),
                    Err(p) => root_panic(p),
                };
                unsafe {
                    let t = RETURN_TO.with(|r| r.borrow_mut().take());
                    if let Some(t) = t {
                        (*std::ptr::addr_of_mut!(IDLE)).push(t);
                    }
                }
                ch.final_out(o);
            }));
        }
        let r = match self.step(In::Val(val)) {
            Out::Yield(v) => (true, v.into()),
            Out::Return(v) => (false, v.into()),
            Out::Panic(p) => resume_unwind(p),
            Out::None => unreachable!("harness: no output"),
        };
        if regs != 0 {
            check(Chk::Regs, true);
        }
        r
    }
    fn force(&mut self) {
        match self.state {
            RS::Done => {}
            RS::New => {
                self.state = RS::Done;
                let f = self.f.take();
                drop(f);
            }
            RS::Suspended => {
                if !cfg!(feature = "unwind") {
                    panic!("reference: cannot unwind");
                }
                let e = env();
                e.next_force += 1;
                let n = e.next_force;
                match self.step(In::Force(n)) {
                    Out::Yield(v) | Out::Return(v) => {
                        drop(v);
                        panic!("reference: forced unwind was caught")
                    }
                    Out::Panic(p) => match p.downcast_ref::<RefForced>() {
                        Some(f) if f.0 == n => {}
                        _ => resume_unwind(p),
                    },
                    Out::None => unreachable!("harness: no output"),
                }
            }
        }
    }
    fn started(&self) -> bool {
        self.state != RS::New
    }
    fn done(&self) -> bool {
        self.state == RS::Done
    }
    unsafe fn reset(&mut self) {
        // the closure or the frames are abandoned, never dropped
        if let Some(f) = self.f.take() {
            std::mem::forget(f);
        }
        self.state = RS::Done;
    }
    fn into_stack(mut self: Box<Self>) -> TStack {
        assert!(self.done(), "reference: incomplete coroutine");
        self.stack.take().unwrap()
    }
    fn in_bounds(&self, _p: usize) -> Option<bool> {
        None
    }
}
impl<T: Tk> Drop for RefCo<T> {
    fn drop(&mut self) {
        let b = Bomb;
        self.force();
        std::mem::forget(b);
    }
}

impl Api for Ref {
    type Co<T: Tk> = RefCo<T>;
    fn create<T: Tk, F: FnOnce(&'static dyn Yd, T) -> T + 'static>(stack: TStack, ctx: u32, f: F) -> RefCo<T> {
        RefCo { f: Some(Box::new(f)), ch: None, state: RS::New, stack: Some(stack), ctx }
    }
    fn on_stack<R, F: FnOnce() -> R>(stack: StackArg, f: F) -> R {
        let r = catch_unwind(AssertUnwindSafe(f));
        if !cfg!(feature = "unwind") && r.is_err() {
            std::process::abort();
        }
        if let StackArg::Own(s) = stack {
            let _ = s.base();
            drop(s)
        }
        match r {
            Ok(v) => v,
            Err(p) => resume_unwind(p),
        }
    }
    fn panicking() -> bool {
        let e = env();
        let me = RESUMER.with(|r| r.get());
        std::thread::panicking() || e.ctx.iter().enumerate().any(|(i, c)| i as u32 != me && c.unwinding_flag && c.flag_thread == e.cur_thread)
    }
}
