//! Contexts with little room: a small stack, or a resumer that has nearly used up its own.
use super::*;
use crate::engine::stack::Custom;
use crate::engine::asm;
use crate::engine::ast::TrapKind;
use crate::rt::Tape;
use corosensei::trap::CoroutineTrapHandler;
use corosensei::stack::Stack;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};

/// Room that must suffice for a context to be entered and to call a small function.
const NEED: usize = if cfg!(debug_assertions) { 4096 } else { 2048 };

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}
/// Calls itself until only `left` bytes above `lo` are left, then calls `f` there.
#[inline(never)]
fn down(lo: usize, left: usize, f: &mut dyn FnMut()) -> u8 {
    let mut a = [1u8; 40];
    let p = std::hint::black_box(&mut a) as *mut [u8; 40] as usize;
    if p < lo + left + 256 {
        f();
    } else {
        a[3] = down(lo, left, f);
    }
    std::hint::black_box(&a)[3]
}
struct Env {
    c: Custom,
}
impl Env {
    fn new(size: usize, off: usize) -> Env {
        Env { c: Custom::sized(size, off) }
    }
    fn lo(&self) -> usize {
        self.c.limit().get()
    }
    fn hi(&self) -> usize {
        self.c.base().get()
    }
}
struct Snd<T>(T);
unsafe impl<T> Send for Snd<T> {}
impl<T> Snd<T> {
    fn get(self) -> T {
        self.0
    }
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    let kind = t.draw(5);
    one(kind, t, st)
}
pub fn calls(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    let kind = [1, 3][t.draw(2) as usize];
    one(kind, t, st)
}
pub fn parents(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    one(2, t, st)
}
pub fn traps(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    one(4, t, st)
}

fn one(kind: u32, t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let off = 16 * t.draw(300) as usize;
    let room = (NEED + 16 * t.draw(256) as usize) & !15;
    // setting up a trap allocates
    let room = if kind == 4 { room + 2048 } else { room };
    let big = room + 65536;
    let times = 1 + t.draw(3);
    let seen: Cell<(usize, usize)> = Cell::new((usize::MAX, 0));
    let look = || {
        let p = here();
        let (a, b) = seen.get();
        seen.set((a.min(p), b.max(p)));
    };
    let what = ["a coroutine", "on_stack", "on_parent_stack", "on_stack from a full stack", "a trap function"][kind as usize];
    note(st, true, format!("{what} with {room} bytes of room, base {off} below a page boundary, {times} times"));
    let c: &'static Custom;
    let small = kind < 2 || kind == 4;
    let e = Env::new(if small { room } else { big }, off);
    c = unsafe { std::mem::transmute(&e.c) };
    let (lo, hi) = (e.lo(), e.hi());
    let look: &'static dyn Fn() = unsafe { std::mem::transmute(&look as &dyn Fn()) };
    struct B(&'static Custom);
    unsafe impl Stack for B {
        fn base(&self) -> corosensei::stack::StackPointer {
            self.0.base()
        }
        fn limit(&self) -> corosensei::stack::StackPointer {
            self.0.limit()
        }
    }
    match kind {
        0 => {
            let mut co = Coroutine::<u32, u32, u32, B>::with_stack(B(c), move |y: &Yielder<u32, u32>, mut a| {
                for _ in 0..times {
                    look();
                    a = y.suspend(a + 1);
                }
                look();
                a + 2
            });
            for k in 0..times {
                ensure!(co.resume(k) == CoroutineResult::Yield(k + 1), "{what}: wrong value");
            }
            ensure!(co.resume(9) == CoroutineResult::Return(11), "{what}: wrong result");
        }
        1 => {
            for k in 0..times {
                let v = on_stack(B(c), || {
                    look();
                    k + 5
                });
                ensure!(v == k + 5, "{what}: wrong result");
            }
        }
        4 => {
            static ONCE: std::sync::Once = std::sync::Once::new();
            ONCE.call_once(asm::install_handlers);
            let illegal = t.chance(1, 2);
            let th: std::rc::Rc<Cell<Option<CoroutineTrapHandler<u32>>>> = Default::default();
            let th2 = th.clone();
            let mut co = Coroutine::<(), (), u32, B>::with_stack(B(c), move |_, ()| {
                let h = th2.take().unwrap();
                drop(th2);
                let l = Snd(look);
                let prep: Box<dyn FnOnce(*mut libc::ucontext_t)> = Box::new(move |uc| unsafe {
                    let regs = h.setup_trap_handler(move || {
                        (l.get())();
                        77
                    });
                    asm::uc_set(uc, regs);
                });
                asm::trap_now(if illegal { TrapKind::Ill } else { TrapKind::Segv }, 0, prep)
            });
            th.set(Some(co.trap_handler()));
            ensure!(co.resume(()) == CoroutineResult::Return(77), "{what}: wrong result");
        }
        _ => {
            // the outer coroutine uses up its stack before it resumes the inner one
            let other = Env::new(65536, 0);
            let oc: &'static Custom = unsafe { std::mem::transmute(&other.c) };
            let mut outer = Coroutine::<(), (), u32, B>::with_stack(B(c), move |_, ()| {
                let mut inner = Coroutine::<u32, u32, u32, B>::with_stack(B(oc), move |y: &Yielder<u32, u32>, mut a| {
                    for _ in 0..times {
                        let l = Snd(look);
                        let v = y.on_parent_stack(move || {
                            (l.get())();
                            a + 7
                        });
                        a = y.suspend(v);
                    }
                    a
                });
                let mut sum = 0;
                down(lo, room, &mut || {
                    look();
                    for k in 0..times {
                        if kind == 3 {
                            sum += on_stack(B(oc), || k + 7);
                            continue;
                        }
                        match inner.resume(k) {
                            CoroutineResult::Yield(v) => sum += v,
                            CoroutineResult::Return(_) => sum += 1000,
                        }
                    }
                    look();
                });
                if kind == 2 {
                    inner.resume(1);
                }
                sum
            });
            let v = outer.resume(()).as_return();
            ensure!(v == Some((0..times).map(|k| k + 7).sum()), "{what}: wrong values: {v:?}");
            drop(outer);
            ensure!(other.c.intact(), "{what}: memory next to the other stack was written");
        }
    }
    let (a, b) = seen.get();
    ensure!(lo <= a && b < hi, "{what}: frames at {a:#x}..{b:#x} outside the stack {lo:#x}..{hi:#x}");
    ensure!(e.c.intact(), "{what}: memory next to the stack was written");
    Ok(())
}
