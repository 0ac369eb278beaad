//! Traps at any instruction: the processor's trap flag stops a coroutine at a chosen instruction
//! that runs on its stack, its own code or the library's, and the trap handler makes it return.
use super::*;
use crate::engine::stack::Custom;
use crate::engine::{asm, step};
use crate::rt::Tape;
use corosensei::stack::Stack;
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Suspend,
    Work(u32),
    OnStack,
    OnParent,
    Child,
    ChildSuspends,
    Down,
}
use Op::*;

type Ret = [u64; 4];
type Th = CoroutineTrapHandler<Ret>;
struct Cx {
    ops: Vec<Op>,
    /// index of the next op
    pc: usize,
    seed: u64,
    /// instructions left until the trap; negative: none
    left: i64,
    /// instructions since the coroutine's stack was entered
    since: u32,
    /// the next resume starts the count
    at: usize,
    panics: bool,
    hit: Option<usize>,
    th: Option<Th>,
    wrong: Option<&'static str>,
}
static mut CX: *mut Cx = std::ptr::null_mut();
#[allow(clippy::mut_from_ref)]
fn cx() -> &'static mut Cx {
    unsafe { &mut *CX }
}
fn val(s: u64) -> Ret {
    [s, !s, s.rotate_left(17), s ^ 0x5A5A]
}
struct Big([u64; 9], u64);

unsafe fn hook(uc: *mut libc::ucontext_t, _pc: usize, sp: usize) -> bool {
    let c = cx();
    let th = c.th.unwrap();
    if !th.stack_ptr_in_bounds(sp) {
        c.since = 0;
        return false;
    }
    c.left -= 1;
    // The instructions right after a switch are the library's own and cannot trap.
    c.since += 1;
    if c.left > 0 || c.since < 16 {
        return false;
    }
    c.hit = Some(sp);
    let (seed, panics) = (c.seed, c.panics);
    let cap = Big([seed; 9], seed);
    let regs = th.setup_trap_handler(move || {
        if !asm::aligned() {
            cx().wrong = Some("stack misaligned in the trap function");
        }
        let mut a = black_box([seed; 40]);
        a[3] ^= 1;
        if cap.0 != [cap.1; 9] || black_box(a)[4] != seed {
            cx().wrong = Some("state of the trap function damaged");
        }
        if panics {
            panic_any(seed);
        }
        val(seed)
    });
    asm::uc_set(uc, regs);
    true
}

#[inline(never)]
fn work(n: u32, x: u64) -> u64 {
    let mut a = black_box([x; 6]);
    for i in 0..n as usize % 9 {
        a[i % 6] = a[(i + 1) % 6].wrapping_mul(31).wrapping_add(i as u64);
    }
    black_box(a)[0]
}
/// What has to be known about `x` after the op; the trap may come anywhere.
#[inline(never)]
fn ops(y: &Yielder<u64, u64>, mut x: u64, depth: u32) -> u64 {
    loop {
        let c = cx();
        let i = c.pc;
        if i >= c.ops.len() {
            return x;
        }
        c.pc = i + 1;
        match c.ops[i] {
            Suspend => x = x.wrapping_add(y.suspend(x)),
            Work(n) => x ^= work(n, x),
            Down if depth < 6 => x = ops(y, x, depth + 1) ^ 1,
            Down => {}
            OnStack => x = x.wrapping_add(on_stack(side(0), move || work(3, x))),
            OnParent => x = x.wrapping_add(y.on_parent_stack(move || work(4, x))),
            Child | ChildSuspends => {
                let twice = c.ops[i] == ChildSuspends;
                let mut co: Coroutine<u64, u64, u64, &'static Side> = Coroutine::with_stack(side(1), move |y, a| if twice { y.suspend(a + 1) } else { a + 2 });
                if let CoroutineResult::Yield(v) = co.resume(x & 0xFFFF) {
                    if let CoroutineResult::Return(w) = co.resume(v) {
                        x ^= w;
                    }
                }
                unsafe { co.force_reset() };
            }
        }
    }
}
/// A stack its user may abandon: only ever used by one context at a time.
struct Side(&'static Custom);
unsafe impl Stack for &'static Side {
    fn base(&self) -> corosensei::stack::StackPointer {
        self.0.base()
    }
    fn limit(&self) -> corosensei::stack::StackPointer {
        self.0.limit()
    }
}
static mut SIDES: [Option<&'static Side>; 2] = [None; 2];
fn side(i: usize) -> &'static Side {
    unsafe { SIDES[i].unwrap() }
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(asm::install_handlers);
    let size = 64 * 1024;
    let mains: Custom = Custom::sized(size, t.draw(64) as usize * 16);
    let s0 = Custom::sized(size, t.draw(64) as usize * 16);
    let s1 = Custom::sized(size, t.draw(64) as usize * 16);
    let rounds = 1 + t.draw(3);
    let mut c = Cx { ops: vec![], pc: 0, seed: 0, left: -1, since: 0, at: 0, panics: false, hit: None, th: None, wrong: None };
    unsafe {
        CX = &mut c;
        let (a, b): (&'static Custom, &'static Custom) = (&*(&s0 as *const _), &*(&s1 as *const _));
        SIDES = [Some(Box::leak(Box::new(Side(a)))), Some(Box::leak(Box::new(Side(b))))];
    }
    step::init(1);
    unsafe { step::HOOK = Some(hook) };
    let r = all(t, st, &mains, rounds);
    unsafe {
        step::stop();
        step::HOOK = None;
        step::init(0);
        for s in &mut *std::ptr::addr_of_mut!(SIDES) {
            drop(Box::from_raw(s.take().unwrap() as *const Side as *mut Side));
        }
    }
    r?;
    ensure!(mains.intact() && s0.intact() && s1.intact(), "memory outside a stack was written");
    Ok(())
}
fn all(t: &mut Tape, st: &mut Stats, mains: &Custom, rounds: u32) -> Result<(), String> {
    let ms: &'static Side = Box::leak(Box::new(Side(unsafe { &*(mains as *const Custom) })));
    let mut desc = String::new();
    let mut hits = 0;
    let mut res = Ok(());
    for _ in 0..rounds {
        let n = t.range(1, 9);
        let list: Vec<Op> = (0..n)
            .map(|_| match t.weighted(&[5, 2, 2, 2, 2, 2, 1]) {
                0 => Suspend,
                1 => Work(t.draw(9)),
                2 => OnStack,
                3 => OnParent,
                4 => Child,
                5 => ChildSuspends,
                _ => Down,
            })
            .collect();
        let c = cx();
        let susp = list.iter().filter(|o| **o == Suspend).count();
        c.at = t.draw(susp as u32 + 1) as usize;
        let hi = [10, 60, 300, 1500][t.draw(4) as usize];
        c.left = 1 + t.draw(hi) as i64;
        c.panics = cfg!(feature = "unwind") && t.draw(4) == 3;
        c.seed = t.draw(u32::MAX) as u64 * 0x9E37_79B9 + 1;
        c.ops = list;
        c.pc = 0;
        c.hit = None;
        c.since = 0;
        desc += &format!("{:?} trap at instruction {} of resume {}{}; ", c.ops, c.left, c.at, if c.panics { ", panics" } else { "" });
        res = round(ms, susp);
        hits += c.hit.is_some() as u32;
        if res.is_err() {
            break;
        }
    }
    unsafe { drop(Box::from_raw(ms as *const Side as *mut Side)) };
    *st.classes.entry("traps").or_insert(0) += hits as u64;
    note(st, hits > 0, desc);
    res
}
fn round(ms: &'static Side, susp: usize) -> Result<(), String> {
    let c = cx();
    let seed = c.seed;
    let mut co: Coroutine<u64, u64, Ret, &'static Side> = Coroutine::with_stack(ms, |y, x| val(ops(y, x, 0)));
    c.th = Some(co.trap_handler());
    let keep = black_box([seed, !seed, seed ^ 7]);
    for k in 0..=susp {
        let armed = k == c.at;
        let r = catch_unwind(AssertUnwindSafe(|| {
            if armed {
                unsafe { step::start(40000) };
            }
            let r = co.resume(seed ^ k as u64);
            unsafe { step::stop() };
            r
        }));
        unsafe { step::stop() };
        ensure!(keep == [seed, !seed, seed ^ 7], "the resumer's variables changed");
        if let Some(m) = c.wrong.take() {
            return Err(m.into());
        }
        match (c.hit, r) {
            (None, Ok(CoroutineResult::Yield(_))) => ensure!(k < susp, "suspended too often"),
            (None, Ok(CoroutineResult::Return(_))) => {
                ensure!(k == susp, "returned early");
                ensure!(co.done(), "not finished after a return");
                return Ok(());
            }
            (None, Err(_)) => return Err("a panic came out of resume, without a trap".into()),
            (Some(_), r) => {
                match r {
                    Ok(CoroutineResult::Return(v)) if !c.panics => ensure!(v == val(seed), "the trap function's value was damaged"),
                    Err(p) if c.panics => ensure!(p.downcast_ref::<u64>() == Some(&seed), "a foreign panic came out of the trapped coroutine"),
                    Ok(CoroutineResult::Yield(_)) => return Err("a trapped coroutine suspended".into()),
                    Ok(_) => return Err("the trap function's panic was lost".into()),
                    Err(_) => return Err("a panic came out of resume instead of the trap function's value".into()),
                }
                ensure!(co.done() && co.started(), "not finished after the trap");
                // as good as new
                let s = co.into_stack();
                let mut co2: Coroutine<u64, u64, u64, &'static Side> = Coroutine::with_stack(s, |y, i| y.suspend(i + 1) + 1);
                ensure!(co2.resume(1) == CoroutineResult::Yield(2) && co2.resume(5) == CoroutineResult::Return(6), "the reused stack misbehaves");
                return Ok(());
            }
        }
    }
    Err("did not return".into())
}
