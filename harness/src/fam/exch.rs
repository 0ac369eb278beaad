//! Threads that exchange values of one size with coroutines of their own at full speed, all at
//! once: whatever passes a value from one side to the other must not be shared between threads.
use super::*;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::{Arc, Barrier};

/// A value of a given size whose contents are a function of a number.
pub trait Val: Copy + Send + 'static {
    fn of(x: u64) -> Self;
    fn is(&self, x: u64) -> bool;
}
#[inline(always)]
fn word(x: u64, i: usize) -> u64 {
    x.wrapping_add(i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
}
impl<const N: usize> Val for [u8; N] {
    #[inline(always)]
    fn of(x: u64) -> Self {
        let mut a = [0; N];
        for (i, b) in a.iter_mut().enumerate() {
            *b = (word(x, i / 8) >> (i % 8 * 8)) as u8;
        }
        a
    }
    #[inline(always)]
    fn is(&self, x: u64) -> bool {
        *self == Self::of(x)
    }
}
impl<const N: usize> Val for [u64; N] {
    #[inline(always)]
    fn of(x: u64) -> Self {
        let mut a = [0; N];
        for (i, b) in a.iter_mut().enumerate() {
            *b = word(x, i);
        }
        a
    }
    #[inline(always)]
    fn is(&self, x: u64) -> bool {
        *self == Self::of(x)
    }
}
struct Job {
    seed: u64,
    rounds: u64,
    /// which of the other transfers to mix in
    calls: u32,
    lives: u64,
}
fn run<T: Val>(j: &Job) -> Result<(), String> {
    let (s, n, calls) = (j.seed, j.rounds, j.calls);
    for life in 0..j.lives {
        let s = mix(s, life);
        let cap = T::of(s ^ 9);
        let mut co: Coroutine<T, T, Result<T, &'static str>> = Coroutine::with_stack(DefaultStack::new(64 * 1024).expect("harness: stack"), move |y: &Yielder<T, T>, mut x: T| {
            for k in 0..n {
                if !x.is(s ^ k << 8) {
                    return Err("a value passed to resume");
                }
                if calls & 1 != 0 && k % 7 == 3 && !y.on_parent_stack(|| T::of(s ^ 5)).is(s ^ 5) {
                    return Err("a result of on_parent_stack");
                }
                if !cap.is(s ^ 9) {
                    return Err("a captured value");
                }
                x = y.suspend(T::of(s ^ k << 8 ^ 1));
            }
            if calls & 2 != 0 {
                panic_any(T::of(s ^ 6));
            }
            Ok(T::of(s ^ 3))
        });
        for k in 0..=n {
            let r = if calls & 2 != 0 && k == n {
                match catch_unwind(AssertUnwindSafe(|| co.resume(T::of(s ^ k << 8)))) {
                    Ok(r) => r,
                    Err(p) => {
                        ensure!(p.downcast_ref::<T>().map_or(false, |v| v.is(s ^ 6)), "the payload of a panic was disturbed by another thread");
                        continue;
                    }
                }
            } else {
                co.resume(T::of(s ^ k << 8))
            };
            match r {
                CoroutineResult::Yield(v) => {
                    ensure!(k < n && v.is(s ^ k << 8 ^ 1), "a value yielded in round {k} was disturbed by another thread");
                }
                CoroutineResult::Return(Err(m)) => return Err(format!("{m} was disturbed by another thread in round {k}")),
                CoroutineResult::Return(Ok(v)) => {
                    ensure!(k == n && v.is(s ^ 3), "a returned value was disturbed by another thread");
                }
            }
            if calls & 4 != 0 && k % 16 == 5 {
                let st = co.trap_handler();
                ensure!(!st.stack_ptr_in_bounds(&s as *const u64 as usize), "the trap bounds of another thread's coroutine");
            }
        }
        ensure!(co.done(), "not done");
        if calls & 8 != 0 {
            let mut st = co.into_stack();
            let arg = T::of(s ^ 7);
            let v = on_stack(&mut st, move || if arg.is(s ^ 7) { T::of(s ^ 8) } else { T::of(0) });
            ensure!(v.is(s ^ 8), "a value passed through on_stack was disturbed by another thread");
        }
    }
    Ok(())
}
macro_rules! sizes {
    ($($t:ty),* $(,)?) => {
        const RUN: &[(&str, fn(&Job) -> Result<(), String>)] = &[$((stringify!($t), run::<$t>)),*];
    };
}
sizes![
    [u8; 1], [u8; 0], [u8; 3], [u8; 4], [u8; 7], [u8; 8], [u8; 9], [u8; 12], [u8; 13], [u64; 2], [u8; 17], [u64; 3], [u8; 31], [u64; 4], [u8; 33], [u64; 5], [u8; 47], [u64; 6],
    [u8; 49], [u64; 7], [u8; 57], [u64; 8], [u8; 64], [u8; 65], [u64; 9], [u64; 12], [u8; 100], [u64; 16], [u8; 129], [u64; 24], [u64; 32], [u8; 257], [u64; 64], [u64; 110],
];

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let threads = 2 + t.draw(5) as u64;
    let which = t.draw(RUN.len() as u32) as usize;
    // now and then different threads use different types
    let spread = if t.chance(1, 4) { t.draw(RUN.len() as u32) as usize } else { 0 };
    let mut calls = t.draw(16);
    if !cfg!(feature = "unwind") {
        calls &= !2;
    }
    let short = t.chance(1, 2);
    let (rounds, lives) = if short { (1 + t.draw(6) as u64, 60) } else { (100 + t.draw(900) as u64, 2) };
    let seed = t.u64();
    note(st, true, format!("{threads} threads exchange {}{} with {lives} coroutines each, {rounds} rounds, options {calls:#b}, seed {seed:#x}", RUN[which].0, if spread > 0 { " and others" } else { "" }));
    st.class(if short { "short_lives" } else { "long_lives" });
    let bar = Arc::new(Barrier::new(threads as usize));
    let hs: Vec<_> = (0..threads)
        .map(|th| {
            let bar = bar.clone();
            let f = RUN[(which + spread * th as usize) % RUN.len()].1;
            std::thread::Builder::new()
                .stack_size(256 * 1024)
                .spawn(move || {
                    bar.wait();
                    f(&Job { seed: mix(seed, th), rounds, calls, lives })
                })
                .expect("harness: thread")
        })
        .collect();
    let mut err = None;
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(m)) => err = Some(m),
            Err(_) => err = Some("a thread was killed by a foreign panic".into()),
        }
    }
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
