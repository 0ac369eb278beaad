//! stack_ptr_in_bounds against limit <= p < base, for every stack, state and owner.
use super::*;
use crate::engine::stack::Custom;
use crate::rt::Tape;
use corosensei::stack::{DefaultStack, Stack};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{on_stack, Coroutine, Yielder};

fn probe<R>(t: &mut Tape, h: &CoroutineTrapHandler<R>, lo: usize, hi: usize, what: &str, n: &mut u64) -> Result<(), String> {
    let mut one = |p: usize| -> Result<(), String> {
        *n += 1;
        let want = lo <= p && p < hi;
        let got = h.stack_ptr_in_bounds(p);
        ensure!(got == want, "{what}: stack_ptr_in_bounds({p:#x}) is {got} for the stack {lo:#x}..{hi:#x}");
        Ok(())
    };
    let len = hi - lo;
    for p in [lo, lo.wrapping_sub(1), lo + 1, hi, hi - 1, hi + 1, lo + len / 2, 0, 1, usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, lo + 4095, lo + 4096, lo + 4097, hi - 16, hi - 15, hi - 17, hi + 16, lo - 16, lo.wrapping_add(len * 2), !lo, !hi] {
        one(p)?;
    }
    for _ in 0..24 {
        let r = t.u64() as usize;
        let p = match t.draw(6) {
            0 => r,
            1 => lo.wrapping_add(r % 9000),
            2 => lo.wrapping_sub(r % 9000),
            3 => hi.wrapping_add(r % 9000),
            4 => hi.wrapping_sub(r % 9000),
            _ => lo + r % len,
        };
        one(p)?;
    }
    let mut k = 0;
    while k < usize::BITS {
        one(1 << k)?;
        one(lo ^ 1 << k)?;
        one(hi ^ 1 << k)?;
        one((hi - 1) ^ 1 << k)?;
        k += 1;
    }
    // the parent's own stack
    let here = 0u8;
    one(&here as *const u8 as usize)
}

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

struct Shape {
    trips: u32,
    fin: u8,
    boxed: bool,
}
struct Tp(*mut Tape);

fn go<S: Stack + 'static>(t: &mut Tape, s: S, sh: &Shape, what: &str, n: &mut u64) -> Result<S, String> {
    let (lo, hi) = (s.limit().get(), s.base().get());
    type H = CoroutineTrapHandler<u64>;
    let slot: std::rc::Rc<Cell<Option<H>>> = Default::default();
    let sl = slot.clone();
    let trips = sh.trips;
    let co: Coroutine<u32, Vec<(usize, bool, bool)>, u64, S> = Coroutine::with_stack(s, move |y: &Yielder<u32, Vec<_>>, _| {
        for k in 0..trips {
            let h = sl.get().unwrap();
            let mut v = vec![(here(), h.stack_ptr_in_bounds(here()), true)];
            let p = y.on_parent_stack(here);
            v.push((p, h.stack_ptr_in_bounds(p), false));
            if k % 2 == 0 {
                let p = on_stack(DefaultStack::new(65536).expect("harness: stack"), here);
                v.push((p, h.stack_ptr_in_bounds(p), false));
            }
            y.suspend(v);
        }
        7
    });
    let h0 = co.trap_handler();
    slot.set(Some(h0));
    probe(t, &h0, lo, hi, &format!("{what}, not started"), n)?;
    // the coroutine itself moves: the answer must not
    let mut co = if sh.boxed { *Box::new(co) } else { co };
    let mut hist = vec![h0];
    for k in 0..sh.trips {
        let v = co.resume(k).as_yield().ok_or_else(|| format!("{what}: returned early"))?;
        for (p, got, want) in v {
            *n += 1;
            ensure!(got == want, "{what}: code {} its stack at {p:#x}: in bounds is {got}", if want { "on" } else { "not on" });
        }
        let h = co.trap_handler();
        probe(t, &h, lo, hi, &format!("{what}, suspended {k}"), n)?;
        hist.push(h);
        if k % 2 == 1 {
            let mut b = Box::new(co);
            probe(t, &b.trap_handler(), lo, hi, &format!("{what}, boxed"), n)?;
            hist.push((&mut *b).trap_handler());
            co = *b;
        }
    }
    match sh.fin {
        0 => {
            co.resume(0);
        }
        1 if cfg!(feature = "unwind") => co.force_unwind(),
        _ => unsafe { co.force_reset() },
    }
    probe(t, &co.trap_handler(), lo, hi, &format!("{what}, finished"), n)?;
    for h in hist {
        probe(t, &h, lo, hi, &format!("{what}, handle taken earlier"), n)?;
    }
    Ok(co.into_stack())
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let kind = t.draw(4);
    let size = 48 * 1024 + t.draw(100_000) as usize;
    let sh = Shape { trips: t.draw(5), fin: t.draw(3) as u8, boxed: t.chance(1, 2) };
    let mut n = 0;
    let what = ["default stack", "custom stack", "borrowed custom stack", "borrowed default stack"][kind as usize];
    let desc = format!("{what} of {size} bytes, {} suspensions, finished by {}", sh.trips, ["returning", "unwinding", "reset"][sh.fin as usize]);
    let off = 16 * t.draw(256) as usize;
    note(st, sh.trips >= 1, desc);
    st.class(["default", "custom", "borrowed_custom", "borrowed_default"][kind as usize]);
    match kind {
        0 => {
            let s = go(t, DefaultStack::new(size).expect("harness: stack"), &sh, what, &mut n)?;
            go(t, s, &sh, what, &mut n)?;
        }
        1 => {
            go(t, Custom::new(size, off), &sh, what, &mut n)?;
        }
        2 => {
            let mut c = Custom::new(size, off);
            let r: &'static mut Custom = unsafe { &mut *(&mut c as *mut Custom) };
            let r = go(t, r, &sh, what, &mut n)?;
            go(t, r, &sh, what, &mut n)?;
        }
        _ => {
            let mut c = DefaultStack::new(size).expect("harness: stack");
            let r: &'static mut DefaultStack = unsafe { &mut *(&mut c as *mut DefaultStack) };
            go(t, r, &sh, what, &mut n)?;
        }
    }
    Ok(())
}
