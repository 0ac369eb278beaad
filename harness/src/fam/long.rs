//! Long histories: thousands of operations on the same coroutine, stack or thread. Stack use must
//! not creep, nothing may accumulate, and the state machine must stay exact.
use super::*;
use crate::rt::Tape;
use crate::util::LIVE;
use corosensei::stack::{DefaultStack, Stack};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;

#[inline(never)]
fn sp() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}
const UNW: bool = cfg!(feature = "unwind");

/// One coroutine, very many switches; every kind of call repeated at the same place.
fn creep(t: &mut Tape, n: u32) -> Result<String, String> {
    let acts: Vec<u8> = (0..1 + t.draw(4)).map(|_| t.draw(4) as u8).collect();
    let a2 = acts.clone();
    let mut side = DefaultStack::new(128 * 1024).expect("harness: stack");
    let side2: &'static mut DefaultStack = unsafe { &mut *(&mut side as *mut DefaultStack) };
    let mut co: Coroutine<u32, (usize, usize, u32), u64> = Coroutine::with_stack(DefaultStack::new(160 * 1024).expect("harness: stack"), move |y: &Yielder<u32, _>, mut i| {
        let mut sum = i as u64;
        let mut pat = [0u64; 64];
        for k in 0..n {
            pat[k as usize % 64] = sum;
            let mut par = 0;
            for a in &a2 {
                match a {
                    0 => par = y.on_parent_stack(sp),
                    1 => {
                        on_stack(&mut *side2, || std::hint::black_box(sp()));
                    }
                    2 if UNW => {
                        let r = catch_unwind(AssertUnwindSafe(|| y.on_parent_stack(|| -> () { panic_any(k) })));
                        if *r.unwrap_err().downcast::<u32>().unwrap() != k {
                            sum = 0;
                        }
                    }
                    _ => {}
                }
            }
            i = y.suspend((sp(), par, i + 1));
            if pat[k as usize % 64] != sum {
                sum = 0;
            }
            sum = sum.wrapping_mul(3) ^ i as u64;
        }
        sum
    });
    let mut first = None;
    let mut model = 0u64;
    for k in 0..=n {
        let i = k.wrapping_mul(2654435761) >> 3;
        model = if k == 0 { i as u64 } else { model.wrapping_mul(3) ^ i as u64 };
        match co.resume(i) {
            CoroutineResult::Yield((s, p, v)) if k < n => {
                ensure!(v == i + 1, "switch {k}: wrong value");
                let f = *first.get_or_insert((s, p));
                ensure!(f == (s, p), "stack pointers crept: {f:x?} at the first switch, {:x?} at switch {k}", (s, p));
                ensure!(!co.done(), "done while suspended");
            }
            CoroutineResult::Return(v) if k == n => ensure!(v == model, "state of the coroutine diverged after {n} switches"),
            _ => return Err(format!("switch {k}: wrong kind of result")),
        }
    }
    ensure!(co.done(), "not done");
    Ok(format!("{n} switches of one coroutine, each with calls {acts:?}"))
}

/// One stack, very many coroutines that end in every way.
fn reuse(t: &mut Tape, n: u32) -> Result<String, String> {
    let seed = t.u64();
    let mut st = DefaultStack::new(160 * 1024).expect("harness: stack");
    let (lo, hi) = (st.limit().get(), st.base().get());
    let base = LIVE.load(SeqCst);
    let mut first_sp = [0usize; 8];
    reg_reset();
    let mut live0 = 0;
    for k in 0..n {
        let r = mix(seed, k as u64);
        let how = (r % 6) as usize;
        let pay = D::new();
        let bx = Box::new(k);
        let mut co: Coroutine<u32, (u32, usize), u32> = Coroutine::with_stack(st, move |y, i| {
            let _p = pay;
            let b = bx;
            let j = y.suspend((i + 1, sp()));
            if how == 2 && UNW {
                panic_any(j);
            }
            *b ^ j
        });
        ensure!(!co.started() && !co.done(), "coroutine {k} on a reused stack is not fresh");
        if how != 0 {
            let (v, s) = co.resume(k).as_yield().ok_or("no suspension")?;
            ensure!(v == k + 1, "coroutine {k}: wrong value");
            if first_sp[how] == 0 {
                first_sp[how] = s;
            }
            ensure!(first_sp[how] == s, "coroutine {k} starts at a different place than earlier ones on the same stack");
        }
        match how {
            0 => co.force_unwind(),
            2 if UNW => {
                let e = catch_unwind(AssertUnwindSafe(|| co.resume(r as u32)));
                ensure!(e.is_err_and(|p| p.downcast_ref::<u32>() == Some(&(r as u32))), "coroutine {k}: payload changed");
            }
            3 | 4 if UNW => co.force_unwind(),
            _ => ensure!(co.resume(r as u32) == CoroutineResult::Return(k ^ r as u32), "coroutine {k}: wrong result"),
        }
        ensure!(co.done(), "coroutine {k} not done");
        ensure!(!std::thread::panicking(), "thread still panicking after {k}");
        st = co.into_stack();
        ensure!((st.limit().get(), st.base().get()) == (lo, hi), "another stack came back");
        if k == 20 {
            live0 = LIVE.load(SeqCst);
        }
    }
    reg_done("stack reused")?;
    let grown = LIVE.load(SeqCst) - live0.max(base);
    ensure!(n < 200 || grown < (n / 8) as i64, "{grown} heap blocks more after {n} coroutines");
    Ok(format!("{n} coroutines in a row on one stack, seed {seed:#x}"))
}

/// Many coroutines alive at once, driven in random order against their models.
fn crowd(t: &mut Tape, n: usize) -> Result<String, String> {
    let seed = t.u64();
    reg_reset();
    type C = Coroutine<u64, u64, u64>;
    let mut all: Vec<(C, u64, u64, u64)> = vec![];
    let mk = |s: u64| -> C {
        Coroutine::with_stack(DefaultStack::new(64 * 1024).expect("harness: stack"), move |y, mut x| {
            let _d = D::new();
            let len = s % 9;
            let mut h = s;
            for _ in 0..len {
                h = mix(h, x);
                x = y.suspend(h);
            }
            mix(h, x)
        })
    };
    for i in 0..n {
        let s = mix(seed, i as u64);
        all.push((mk(s), s, s, 0));
    }
    let mut r = seed;
    let mut ops = 0;
    while !all.is_empty() {
        r = mix(r, 1);
        ops += 1;
        let i = (r % all.len() as u64) as usize;
        let m = all.len();
        let j = (r >> 32) as usize % m;
        if r % 13 == 0 {
            all.swap(i, j);
        }
        let (co, s, h, k) = &mut all[i];
        if UNW && r % 29 == 0 {
            co.force_unwind();
            ensure!(co.done(), "not done");
            all.swap_remove(i);
            continue;
        }
        let x = r >> 7;
        *h = mix(*h, x);
        let want = *h;
        let last = *k == *s % 9;
        *k += 1;
        match co.resume(x) {
            CoroutineResult::Yield(v) => ensure!(!last && v == want, "one of {m} coroutines yielded something else"),
            CoroutineResult::Return(v) => {
                ensure!(last && v == want, "one of {m} coroutines returned something else");
                all.swap_remove(i);
            }
        }
    }
    reg_done("crowd")?;
    Ok(format!("{n} live coroutines, {ops} operations in random order, seed {seed:#x}"))
}

/// Deep nests: each coroutine resumes the next; then unwind from somewhere.
fn tower(t: &mut Tape, n: u32) -> Result<String, String> {
    let cut = t.draw(n + 1);
    let end = t.draw(3);
    reg_reset();
    fn level(k: u32, n: u32, cut: u32, end: u32) -> u64 {
        if k == n {
            return 1;
        }
        let d = D::new();
        let mut co: Coroutine<u32, u64, u64> = Coroutine::with_stack(DefaultStack::new(96 * 1024).expect("harness: stack"), move |y, i| {
            let _d = D::new();
            let below = level(k + 1, n, cut, end);
            let j = y.suspend(below + i as u64);
            if k == cut && end == 1 && UNW {
                panic_any(k);
            }
            below + j as u64
        });
        let a = co.resume(k).as_yield().unwrap();
        let r = if end == 2 && UNW && k == cut {
            drop(co);
            a
        } else {
            match catch_unwind(AssertUnwindSafe(|| co.resume(k))) {
                Ok(r) => r.as_return().unwrap(),
                Err(p) => {
                    assert!(co.done());
                    std::panic::resume_unwind(p)
                }
            }
        };
        drop(d);
        r
    }
    let v = match catch_unwind(AssertUnwindSafe(|| level(0, n, cut, end))) {
        Ok(v) => v,
        Err(p) => 5_000_000 + p.downcast_ref::<u32>().map_or(1_000_000, |x| *x) as u64,
    };
    let sum: u64 = 1 + (0..n as u64).sum::<u64>();
    if end == 1 && UNW && cut < n {
        ensure!(v == 5_000_000 + cut as u64, "panic raised {cut} levels up arrived as {v}");
    } else {
        ensure!(v == sum, "tower of {n} computed {v} instead of {sum}");
    }
    reg_done("tower")?;
    Ok(format!("tower of {n} coroutines, level {cut} {}", ["returns", "panics", "is dropped"][end as usize]))
}

fn go(t: &mut Tape, st: &mut Stats, which: &[u32]) -> Result<(), String> {
    hush();
    let w = which[t.draw(which.len() as u32) as usize];
    let d = match w {
        0 => {
            // sometimes more than 2^16
            let n = if t.draw(30) == 29 { 65_400 + t.draw(400) } else { 200 + t.draw(4000) };
            creep(t, n)
        }
        1 => {
            let n = if t.draw(60) == 59 { 65_400 + t.draw(400) } else { 20 + t.draw(1000) };
            reuse(t, n)
        }
        2 => {
            let n = 10 + t.draw(300) as usize;
            crowd(t, n)
        }
        _ => {
            let n = 2 + t.draw(60);
            tower(t, n)
        }
    }?;
    st.class(["creep", "reuse", "crowd", "tower"][w as usize]);
    note(st, true, d);
    Ok(())
}
/// C02, C09: state machine and parent stack.
pub fn machine(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(t, st, &[0, 2, 0, 2])
}
/// C12: stack reuse.
pub fn reuses(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(t, st, &[1])
}
/// C04, C05, C07: cleanup at scale.
pub fn cleanup(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(t, st, &[1, 3, 2, 3])
}
