//! Traps turned into returns: handler closures of every size and alignment, every return type,
//! odd stack geometries, and stacks that trap again and again.
use super::geom::{take_wrong, wrong, Load, Pay, M1, M128, M16, M256, M32, M64, M8};
use super::types::*;
use super::*;
use crate::engine::asm;
use crate::engine::ast::TrapKind;
use crate::engine::stack::Custom;
use crate::rt::Tape;
use corosensei::stack::Stack;
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{Coroutine, CoroutineResult, Yielder};

/// With the guard page inside its bounds (as Stack documents) if it is meant to overflow.
struct TStk<'a>(&'a Custom, bool);
unsafe impl Stack for TStk<'_> {
    fn base(&self) -> corosensei::stack::StackPointer {
        self.0.base()
    }
    fn limit(&self) -> corosensei::stack::StackPointer {
        if self.1 {
            corosensei::stack::StackPointer::new(self.0.guard().0).unwrap()
        } else {
            self.0.limit()
        }
    }
}

struct T {
    kind: TrapKind,
    rounds: usize,
    yields: u32,
    depth: u32,
    size: usize,
    off: usize,
    seed: u64,
    panic: bool,
}

#[inline(never)]
fn dig(floor: usize, lo: usize, hi: usize, n: u32) -> u32 {
    let mut a = [n as u8; 256];
    let p = std::hint::black_box(&mut a).as_ptr() as usize;
    if p < lo || p >= hi {
        wrong(format!("trap function frame at {p:#x}, outside the stack {lo:#x}..{hi:#x}"));
        return n;
    }
    if p < floor {
        return n;
    }
    let r = dig(floor, lo, hi, n + 1);
    unsafe { std::ptr::read_volatile(&a) };
    r
}

fn run<R: Val, L: Load>(c: &T) -> Result<(), String> {
    let cust = Custom::sized(c.size, c.off);
    let over = c.kind == TrapKind::Overflow;
    let (lo, hi) = (if over { cust.guard().0 } else { cust.limit().get() }, cust.base().get());
    // where the inaccessible part ends
    let usable = if over { cust.guard().1 } else { lo };
    let sz = std::mem::size_of::<L>() + std::mem::size_of::<R>();
    let what = format!("{} returned from a {:?} trap, {} bytes captured", R::NAME, c.kind, std::mem::size_of::<L>());
    let mut stack: TStk<'static> = TStk(unsafe { &*(&cust as *const Custom) }, over);
    for round in 0..c.rounds {
        reg_reset();
        take_wrong();
        let seed = mix(c.seed, round as u64);
        let (kind, depth, yields, panics) = (c.kind, c.depth, c.yields, c.panic && cfg!(feature = "unwind") && round + 1 == c.rounds);
        let keep = [seed, !seed, seed.rotate_left(9)];
        let th: std::rc::Rc<Cell<Option<CoroutineTrapHandler<R>>>> = Default::default();
        let th2 = th.clone();
        let mut co: Coroutine<u32, u32, R, TStk<'static>> = Coroutine::with_stack(stack, move |y: &Yielder<u32, u32>, mut i: u32| {
            let mut th2 = Some(th2);
            for _ in 0..yields {
                i = y.suspend(i + 1);
            }
            let h = th2.take().unwrap().take().unwrap();
            let load = L::make(seed as u8);
            let prep: Box<dyn FnOnce(*mut libc::ucontext_t)> = Box::new(move |uc| unsafe {
                let sp = asm::uc_sp(uc);
                if !h.stack_ptr_in_bounds(sp) {
                    wrong(format!("stack pointer {sp:#x} of the trap is not in bounds"));
                }
                let regs = h.setup_trap_handler(move || {
                    load.look("state of the trap function");
                    if !asm::aligned() {
                        wrong("stack misaligned in the trap function".into());
                    }
                    // nearly all of the stack is available
                    let need = usable + 6144;
                    dig(need, usable, hi, 0);
                    load.look("state of the trap function after using the stack");
                    drop(load);
                    if panics {
                        std::panic::panic_any(seed);
                    }
                    R::make(seed)
                });
                asm::uc_set(uc, regs);
            });
            asm::trap_now(kind, depth, prep)
        });
        th.set(Some(co.trap_handler()));
        let mut i = 1;
        for _ in 0..yields {
            match co.resume(i) {
                CoroutineResult::Yield(v) => ensure!(v == i + 1, "{what}: wrong value yielded"),
                _ => return Err(format!("{what}: returned early")),
            }
            i += 3;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| co.resume(i)));
        ensure!(keep == [seed, !seed, seed.rotate_left(9)], "{what}: the resumer's variables changed");
        ensure!(if over { cust.intact_above() } else { cust.intact() }, "{what}: memory outside the stack was written");
        match r {
            Ok(CoroutineResult::Return(v)) if !panics => {
                if let Some(m) = take_wrong() {
                    return Err(format!("{what}: {m}"));
                }
                ensure!(v.ok(seed), "{what}: value damaged")
            }
            Ok(CoroutineResult::Return(_)) => return Err(format!("{what}: a panic of the trap function was lost")),
            Ok(CoroutineResult::Yield(_)) => return Err(format!("{what}: reported as Yield")),
            Err(p) => ensure!(panics && p.downcast_ref::<u64>() == Some(&seed), "{what}: a foreign panic came out"),
        }
        if let Some(m) = take_wrong() {
            return Err(format!("{what}: {m}"));
        }
        ensure!(co.done() && co.started(), "{what}: not finished");
        let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(co.resume(0))));
        ensure!(e.is_err(), "{what}: could be resumed again");
        reg_done(&what)?;
        stack = co.into_stack();
        ensure!(stack.base().get() == hi && stack.limit().get() == lo, "{what}: another stack came back");
        let _ = sz;
        // the stack must be as good as new
        let mut co2: Coroutine<u32, u32, u32, TStk<'static>> = Coroutine::with_stack(stack, |y, i| y.suspend(i + 1) + 1);
        ensure!(co2.resume(1) == CoroutineResult::Yield(2) && co2.resume(5) == CoroutineResult::Return(6), "{what}: reused stack misbehaves");
        stack = co2.into_stack();
    }
    Ok(())
}

type TFn = fn(&T) -> Result<(), String>;
macro_rules! rows {
    ($(($r:ty; $n:literal, $m:ident)),*) => { &[$((run::<$r, Pay<$n, $m>> as TFn, <$r as Val>::NAME, std::mem::size_of::<Pay<$n, $m>>(), std::mem::align_of::<$m>())),*] };
}
static ROWS: &[(TFn, &str, usize, usize)] = rows![
    ((); 0, M1), ((); 20, M1), ((); 1, M128), (u8; 33, M8), (u8; 200, M256), (u8; 3, M1), (u64; 500, M16), (u64; 7, M8), (u64; 31, M32), ([u8; 3]; 15, M16), ([u8; 3]; 70, M64), ([u8; 3]; 899, M1), ([u8; 8]; 200, M256), ([u8; 8]; 3, M1), ([u8; 8]; 33, M8), ([u8; 9]; 7, M8), ([u8; 9]; 31, M32), ([u8; 9]; 500, M16), ((u32, u32); 70, M64), ((u32, u32); 899, M1), ((u32, u32); 15, M16), (A64; 0, M1), (A64; 20, M1), (A64; 1, M128), ([u8; 200]; 31, M32), ([u8; 200]; 500, M16), ([u8; 200]; 7, M8), (String; 899, M1), (String; 15, M16), (String; 70, M64), (Box<u64>; 20, M1), (Box<u64>; 1, M128), (Box<u64>; 0, M1), (D4; 200, M256), (D4; 3, M1), (D4; 33, M8), (D65; 15, M16), (D65; 70, M64), (D65; 899, M1), (DA64; 1, M128), (DA64; 0, M1), (DA64; 20, M1), (Option<std::num::NonZeroU64>; 3, M1), (Option<std::num::NonZeroU64>; 33, M8), (Option<std::num::NonZeroU64>; 200, M256), (Result<Vec<u8>, String>; 31, M32), (Result<Vec<u8>, String>; 500, M16), (Result<Vec<u8>, String>; 7, M8), (f64; 0, M1), (f64; 20, M1), (f64; 1, M128), (i128; 33, M8), (i128; 200, M256), (i128; 3, M1)
];

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    asm_once();
    let (f, r, l, al) = ROWS[t.draw(ROWS.len() as u32) as usize];
    let kind = [TrapKind::Segv, TrapKind::Ill, TrapKind::Bus, TrapKind::Overflow][t.draw(4) as usize];
    let c = T {
        kind,
        rounds: t.range(1, 4) as usize,
        yields: t.draw(4),
        depth: t.draw(4),
        size: 96 * 1024 + 16 * t.draw(600) as usize,
        off: 16 * t.draw(512) as usize,
        seed: t.u64(),
        panic: t.chance(1, 3),
    };
    note(st, c.rounds >= 2 || al > 16, format!("{kind:?} trap {} deep after {} suspensions, function capturing {l} bytes aligned to {al} returns {r}, {} traps in a row on a stack of {} (offset {}){}", c.depth * 3, c.yields, c.rounds, c.size, c.off, if c.panic { ", last one panics" } else { "" }));
    st.class_if(al > 16, "overaligned");
    st.class_if(c.panic, "panicking");
    st.class_if(kind == TrapKind::Overflow, "overflow");
    f(&c)
}
fn asm_once() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(asm::install_handlers);
}
