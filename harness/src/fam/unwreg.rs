//! Callee-saved registers as the landing pads of an unwind find them. In an unoptimised build the
//! frames between a call and its landing pad leave these registers alone, so a destructor that
//! runs because a panic or a forced unwind passes a switch must see the values from before it.
use super::*;
use crate::engine::asm::call_checked;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, Yielder};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;

const N: usize = 5;
std::arch::global_asm!(
    ".globl cvh_read_regs",
    ".type cvh_read_regs,@function",
    "cvh_read_regs:",
    ".cfi_startproc",
    "mov [rdi], rbx",
    "mov [rdi + 8], r12",
    "mov [rdi + 16], r13",
    "mov [rdi + 24], r14",
    "mov [rdi + 32], r15",
    "ret",
    ".cfi_endproc",
    ".size cvh_read_regs, . - cvh_read_regs",
);
extern "C" {
    fn cvh_read_regs(out: *mut u64);
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Resume(u32, u32),
    Suspend(u32),
    Force(u32, u32),
    OnStack(u32),
    OnParent(u32),
    Panic,
    Return,
}
struct Sh {
    ops: Vec<Op>,
    pc: Cell<usize>,
    bad: RefCell<Option<String>>,
    checks: Cell<u32>,
    unwound: Cell<u32>,
}
type Y = Yielder<(), ()>;
type Co = Coroutine<(), (), ()>;
#[derive(Clone)]
struct P(Rc<Sh>);
unsafe impl Send for P {}
impl P {
    fn get(self) -> Rc<Sh> {
        self.0
    }
}
/// Compares the registers at its end with those at its creation.
struct Rg<'a> {
    v: [u64; N],
    sh: &'a Sh,
    at: &'static str,
    calm: bool,
}
impl<'a> Rg<'a> {
    #[inline(never)]
    fn new(sh: &'a Sh, at: &'static str) -> Rg<'a> {
        let mut v = [0; N];
        unsafe { cvh_read_regs(v.as_mut_ptr()) };
        Rg { v, sh, at, calm: false }
    }
}
impl Drop for Rg<'_> {
    #[inline(never)]
    fn drop(&mut self) {
        let mut v = [0; N];
        unsafe { cvh_read_regs(v.as_mut_ptr()) };
        self.sh.checks.set(self.sh.checks.get() + 1);
        if !self.calm {
            self.sh.unwound.set(self.sh.unwound.get() + 1);
        }
        for i in 0..N {
            if v[i] != self.v[i] && self.sh.bad.borrow().is_none() {
                *self.sh.bad.borrow_mut() = Some(format!("{}: {} was {:#x} before and is {:#x} {}", self.at, ["rbx", "r12", "r13", "r14", "r15"][i], self.v[i], v[i], if self.calm { "afterwards" } else { "in the landing pad of an unwind" }));
            }
        }
    }
}
/// `f` with patterned registers and the guard around it.
#[inline(never)]
fn guarded(sh: &Sh, seed: u32, at: &'static str, f: &mut dyn FnMut()) {
    call_checked(seed, &mut || {
        let mut g = Rg::new(sh, at);
        f();
        g.calm = true;
    });
}
fn body(sh: &Rc<Sh>, y: Option<&Y>, depth: u32) {
    let mut kids: [Option<Co>; 2] = [None, None];
    loop {
        let pc = sh.pc.get();
        let Some(op) = sh.ops.get(pc).copied() else { break };
        sh.pc.set(pc + 1);
        match op {
            Op::Resume(i, seed) => {
                let k = &mut kids[i as usize % 2];
                if depth < 5 && (k.is_none() || k.as_ref().unwrap().done()) {
                    let sh = sh.clone();
                    *k = Some(Co::with_stack(DefaultStack::new(192 * 1024).expect("harness: stack"), move |y, ()| body(&sh, Some(y), depth + 1)));
                }
                if let Some(k) = k {
                    let _ = catch_unwind(AssertUnwindSafe(|| guarded(sh, seed, "resume", &mut || drop(k.resume(())))));
                }
            }
            Op::Suspend(seed) => {
                if let Some(y) = y {
                    guarded(sh, seed, "suspend", &mut || y.suspend(()));
                }
            }
            Op::Force(i, seed) => {
                if let Some(k) = &mut kids[i as usize % 2] {
                    let _ = catch_unwind(AssertUnwindSafe(|| guarded(sh, seed, "force_unwind", &mut || k.force_unwind())));
                }
            }
            Op::OnStack(seed) if depth < 5 => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    guarded(sh, seed, "on_stack", &mut || on_stack(DefaultStack::new(192 * 1024).expect("harness: stack"), || body(sh, y, depth + 1)))
                }));
                // only our own panics stop here
                if let Err(p) = r {
                    if !p.is::<u32>() {
                        std::panic::resume_unwind(p);
                    }
                }
            }
            Op::OnParent(seed) if depth < 5 => {
                if let Some(y) = y {
                    let p = P(sh.clone());
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        guarded(sh, seed, "on_parent_stack", &mut || {
                            let p = p.clone();
                            y.on_parent_stack(move || body(&p.get(), None, depth + 1))
                        })
                    }));
                }
            }
            Op::OnStack(_) | Op::OnParent(_) => {}
            Op::Panic => {
                if depth > 0 {
                    panic_any(7u32);
                }
            }
            Op::Return => {
                if depth > 0 {
                    break;
                }
            }
        }
    }
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let n = t.range(3, 30);
    let ops: Vec<Op> = (0..n)
        .map(|_| match t.weighted(&[6, 6, 3, 2, 1, 2, 1]) {
            0 => Op::Resume(t.draw(2), t.u32()),
            1 => Op::Suspend(t.u32()),
            2 => Op::Force(t.draw(2), t.u32()),
            3 => Op::OnStack(t.u32()),
            4 => Op::OnParent(t.u32()),
            5 => Op::Panic,
            _ => Op::Return,
        })
        .collect();
    let sh = Rc::new(Sh { ops, pc: Cell::new(0), bad: RefCell::new(None), checks: Cell::new(0), unwound: Cell::new(0) });
    body(&sh, None, 0);
    note(st, sh.checks.get() >= 3 && sh.unwound.get() >= 1, format!("{:x?}", sh.ops));
    let bad = sh.bad.borrow_mut().take();
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}
