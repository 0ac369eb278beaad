//! Unwinding through switches in register-hungry code: the destructors of a frame that holds a
//! switch must find the live values of that frame, wherever the compiler keeps them. Each kernel
//! unwinds twice, once through the library and once out of a plain call; what the destructors
//! see must agree.
use super::kern_el::{El, V4};
use super::*;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

thread_local! {
    static SEEN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
}
#[inline(never)]
fn saw(h: u64) {
    SEEN.with(|s| s.borrow_mut().push(h));
}
/// A copy of the live values; its destructor, inlined into the landing pads, reads them there.
struct Probe<E: El, const N: usize>([E; N], u64);
impl<E: El, const N: usize> Drop for Probe<E, N> {
    #[inline(always)]
    fn drop(&mut self) {
        let mut h = self.1;
        let mut i = 0;
        while i < N {
            h = h.rotate_left(9) ^ self.0[i].bits();
            i += 1;
        }
        saw(h);
    }
}

/// N live values through switches, the last of which unwinds.
#[inline(always)]
fn kernel<E: El, const N: usize>(seed: u64, mut sw: impl FnMut(u64) -> u64) -> u64 {
    let mut v = [E::of(0); N];
    let mut i = 0;
    while i < N {
        v[i] = E::of(seed.rotate_left(i as u32 * 7) ^ i as u64);
        i += 1;
    }
    let mut h = seed;
    let mut k = 0;
    loop {
        let g = Probe(v, h);
        let r = sw(k);
        std::mem::forget(g);
        let first = v[0];
        let mut i = 0;
        while i < N {
            let o = if i + 1 < N { v[i + 1] } else { first };
            v[i] = v[i].step(r, i as u32, o);
            i += 1;
        }
        // a second switch of the same frame, with other values alive
        let g = Probe([v[N / 2]; 1], r);
        let q = sw(k + 1);
        std::mem::forget(g);
        h = h.rotate_left(5) ^ r ^ q ^ v[N / 2].bits();
        k += 2;
        if k > 1000 {
            return h;
        }
    }
}

struct Boom;
fn boom() -> ! {
    resume_unwind(Box::new(Boom))
}
fn msg(seed: u64, k: u64) -> u64 {
    mix(seed ^ 0x77, k)
}
#[inline(never)]
fn plain_call(seed: u64, k: u64, stop: u64) -> u64 {
    if k == stop {
        boom();
    }
    msg(seed, k)
}

struct W<const T: usize>(u64);
#[derive(Clone, Copy)]
struct Plan {
    seed: u64,
    stop: u64,
    depth: u32,
}
/// Runs `f`, which must unwind; returns what the destructors saw.
fn watch(f: impl FnOnce()) -> Result<Vec<u64>, String> {
    SEEN.with(|s| s.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => return Err("nothing was unwound".into()),
        Err(e) => ensure!(e.is::<Boom>(), "a foreign panic came out"),
    }
    Ok(SEEN.with(|s| s.borrow_mut().drain(..).collect()))
}
fn stack() -> DefaultStack {
    DefaultStack::new(128 * 1024).expect("harness: stack")
}
/// Some frames in between, with values of their own.
#[inline(never)]
fn deeper(n: u32, x: u64, f: &mut dyn FnMut() -> u64) -> u64 {
    if n == 0 {
        return f();
    }
    let g = Probe([x ^ n as u64; 3], n as u64);
    let r = deeper(n - 1, x.rotate_left(3), f);
    std::mem::forget(g);
    r
}


struct Kern<const ID: usize>;
macro_rules! lands {
    ($($id:literal $name:literal $e:ty, $n:literal;)*) => {
        const NAMES: &[&str] = &[$($name),*];
        fn run(id: usize, how: u32, p: Plan) -> Result<(Vec<u64>, Vec<u64>), String> {
            match id { $($id => Kern::<$id>::run(how, p),)* _ => unreachable!() }
        }
        $(impl Kern<$id> {
            #[inline(never)]
            fn plain(p: Plan) -> u64 {
                let f = black_box(plain_call as fn(u64, u64, u64) -> u64);
                kernel::<$e, $n>(p.seed, |k| f(p.seed, k, p.stop))
            }
            #[inline(never)]
            fn resumer(co: &mut Coroutine<W<$id>, W<$id>, u64>, p: Plan) -> u64 {
                kernel::<$e, $n>(p.seed, |k| match co.resume(W(k)) {
                    CoroutineResult::Yield(W(v)) => v,
                    CoroutineResult::Return(v) => v ^ 1,
                })
            }
            #[inline(never)]
            fn child(y: &Yielder<W<$id>, W<$id>>, p: Plan) -> u64 {
                kernel::<$e, $n>(p.seed, |k| y.suspend(W(k)).0)
            }
            #[inline(never)]
            fn on_stack(st: &mut DefaultStack, p: Plan) -> u64 {
                kernel::<$e, $n>(p.seed, |k| on_stack(&mut *st, || plain_call(p.seed, k, p.stop)))
            }
            #[inline(never)]
            fn on_parent(y: &Yielder<W<$id>, W<$id>>, p: Plan) -> u64 {
                kernel::<$e, $n>(p.seed, |k| y.on_parent_stack(|| plain_call(p.seed, k, p.stop)))
            }
            fn run(how: u32, p: Plan) -> Result<(Vec<u64>, Vec<u64>), String> {
                let d = p.depth;
                let want = watch(|| { deeper(d, p.seed, &mut || Self::plain(p)); })?;
                let got = match how {
                    // the coroutine panics, the resumer's frame is unwound
                    0 => {
                        let mut co = Coroutine::with_stack(stack(), move |y: &Yielder<W<$id>, W<$id>>, mut w: W<$id>| {
                            while w.0 != p.stop {
                                w = y.suspend(W(msg(p.seed, w.0)));
                            }
                            boom()
                        });
                        let r = watch(|| { deeper(d, p.seed, &mut || Self::resumer(&mut co, p)); })?;
                        ensure!(co.done(), "not finished");
                        r
                    }
                    // the coroutine's frame is unwound: by force, or because it is dropped
                    1 | 2 => {
                        let mut co = Coroutine::with_stack(stack(), move |y: &Yielder<W<$id>, W<$id>>, _: W<$id>| deeper(d, p.seed, &mut || Self::child(y, p)));
                        let mut k = 0;
                        let mut r = co.resume(W(0));
                        while let CoroutineResult::Yield(W(v)) = r {
                            ensure!(v == k, "wrong value yielded");
                            if k == p.stop {
                                break;
                            }
                            r = co.resume(W(msg(p.seed, k)));
                            k += 1;
                        }
                        watch(|| {
                            if how == 1 {
                                co.force_unwind();
                            }
                            drop(co);
                            boom();
                        })?
                    }
                    3 => {
                        let mut st = stack();
                        watch(|| { deeper(d, p.seed, &mut || Self::on_stack(&mut st, p)); })?
                    }
                    // the parent's function panics, the coroutine's frame is unwound
                    4 => {
                        let mut co = Coroutine::with_stack(stack(), move |y: &Yielder<W<$id>, W<$id>>, _: W<$id>| deeper(d, p.seed, &mut || Self::on_parent(y, p)));
                        watch(|| { co.resume(W(0)); })?
                    }
                    // both: the resumer's frame is unwound by the panic of the coroutine's frame
                    _ => {
                        let mut st = stack();
                        let mut co = Coroutine::with_stack(stack(), move |_: &Yielder<W<$id>, W<$id>>, _: W<$id>| deeper(d, p.seed, &mut || Self::on_stack(&mut st, p)));
                        watch(|| { co.resume(W(0)); })?
                    }
                };
                Ok((got, want))
            }
        })*
    };
}
lands! {
    0 "3 u64" u64, 3;
    1 "7 u64" u64, 7;
    2 "12 u64" u64, 12;
    3 "5 u32" u32, 5;
    4 "5 u128" u128, 5;
    5 "6 f64" f64, 6;
    6 "16 f64" f64, 16;
    7 "6 vectors" V4, 6;
    8 "1 u64" u64, 1;
}

fn go(how: u32, t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let id = t.draw(NAMES.len() as u32) as usize;
    let p = Plan { seed: t.u64(), stop: t.draw(20) as u64, depth: t.draw(4) };
    let what = ["the resumer", "a coroutine unwound by force", "a dropped coroutine", "the caller of on_stack", "the caller of on_parent_stack", "the caller of on_stack in a coroutine"][how as usize];
    note(st, p.stop >= 1, format!("{what}: kernel '{}', unwound at switch {}, {} frames in between, seed {:#x}", NAMES[id], p.stop, p.depth, p.seed));
    let (got, want) = run(id, how, p)?;
    ensure!(got == want, "{what}, kernel '{}': destructors saw {got:x?} instead of {want:x?}", NAMES[id]);
    Ok(())
}
/// Panics that leave a coroutine.
pub fn panics(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    let how = [0, 0, 5][t.draw(3) as usize];
    go(how, t, st)
}
pub fn ends(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    let how = [1, 2][t.draw(2) as usize];
    go(how, t, st)
}
pub fn all(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    let how = t.draw(6);
    go(how, t, st)
}
pub fn calls(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    let how = [3, 5][t.draw(2) as usize];
    go(how, t, st)
}
pub fn parents(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(4, t, st)
}
