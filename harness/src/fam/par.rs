//! Different coroutines on different threads at the same time, and coroutines handed from thread
//! to thread. What each coroutine does is a function of its seed alone, so the outcome must not
//! depend on the schedule.
use super::*;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

fn tid() -> u64 {
    (unsafe { libc::syscall(libc::SYS_gettid) }) as u64
}
#[inline(never)]
fn tls_mark() -> u64 {
    thread_local!(static M: Cell<u64> = const { Cell::new(0) });
    M.with(|m| {
        if m.get() == 0 {
            m.set(tid());
        }
        m.get()
    })
}
static LIVE: AtomicI64 = AtomicI64::new(0);
static CREATED: AtomicU64 = AtomicU64::new(0);
/// Counted across threads.
struct G(u64);
impl G {
    fn new(v: u64) -> G {
        LIVE.fetch_add(1, SeqCst);
        CREATED.fetch_add(1, SeqCst);
        G(v)
    }
}
impl Drop for G {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
        self.0 = !0;
    }
}

/// What a step yields; the last two fields depend on the resuming thread.
struct Out {
    val: u64,
    tid_direct: u64,
    tid_parent: u64,
    parent_sp: usize,
}
type Co = Coroutine<u64, Out, u64>;
/// The contents are `Send` when suspended.
struct SendCo {
    co: Option<Co>,
    seed: u64,
    step: u64,
    acc: u64,
    len: u64,
    end: u8,
}
unsafe impl Send for SendCo {}
struct Sd<T>(T);
unsafe impl<T> Send for Sd<T> {}

fn fold(acc: u64, x: u64, seed: u64) -> u64 {
    mix(acc ^ x, seed)
}
#[inline(never)]
fn nest(depth: u64, y: &Yielder<u64, Out>, seed: u64, len: u64, end: u8, acc: &mut u64) {
    let g = G::new(depth);
    if depth > 0 {
        let l = [seed; 9];
        nest(depth - 1, y, seed, len, end, acc);
        if std::hint::black_box(l)[3] != seed || g.0 != depth {
            *acc = !*acc;
        }
        return;
    }
    for k in 0..len {
        let o = match mix(seed, k) % 5 {
            0 => {
                let (p, sp) = y.on_parent_stack(|| (tls_mark(), sp_here()));
                Out { val: *acc, tid_direct: tls_mark(), tid_parent: p, parent_sp: sp }
            }
            1 => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let _g = G::new(k);
                    panic_any(k)
                }));
                let k2 = *r.unwrap_err().downcast::<u64>().unwrap();
                let p = y.on_parent_stack(tls_mark);
                Out { val: *acc ^ k2 ^ k, tid_direct: tls_mark(), tid_parent: p, parent_sp: 0 }
            }
            2 => {
                let st = DefaultStack::new(65536).expect("harness: stack");
                let v = on_stack(st, || {
                    let _g = G::new(1);
                    mix(*acc, 3)
                });
                *acc ^= v;
                Out { val: *acc, tid_direct: tls_mark(), tid_parent: tls_mark(), parent_sp: 0 }
            }
            3 => {
                let mut inner: Coroutine<u64, u64, ()> = Coroutine::with_stack(DefaultStack::new(131072).expect("harness: stack"), |y, mut i| {
                    let _g = G::new(2);
                    loop {
                        i = y.suspend(i + 1);
                        if !cfg!(feature = "unwind") && i > 5 {
                            return;
                        }
                    }
                });
                let a = inner.resume(1).as_yield().unwrap();
                let b = inner.resume(a).as_yield().unwrap();
                if !cfg!(feature = "unwind") {
                    inner.resume(99);
                }
                drop(inner);
                *acc = fold(*acc, b, seed);
                Out { val: *acc, tid_direct: tls_mark(), tid_parent: tls_mark(), parent_sp: 0 }
            }
            _ => Out { val: *acc, tid_direct: tls_mark(), tid_parent: tls_mark(), parent_sp: 0 },
        };
        // no thread identity is kept across the suspension
        let x = y.suspend(o);
        *acc = fold(*acc, x, seed);
    }
    if end == 1 {
        panic_any(*acc);
    }
}
#[inline(never)]
fn sp_here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}
fn make(seed: u64, len: u64, end: u8) -> SendCo {
    let co = Co::with_stack(DefaultStack::new(160 * 1024).expect("harness: stack"), move |y, first| {
        let mut acc = fold(seed, first, 1);
        let _g = G::new(9);
        nest(seed % 4, y, seed, len, end, &mut acc);
        acc
    });
    SendCo { co: Some(co), seed, step: 0, acc: 0, len, end }
}
fn input(seed: u64, k: u64) -> u64 {
    mix(seed ^ 0x77, k)
}
/// One step on this thread; true when finished.
fn step(c: &mut SendCo, me: u64) -> Result<bool, String> {
    let x = input(c.seed, c.step);
    // the model
    let s = c.seed;
    c.acc = if c.step == 0 { fold(s, x, 1) } else { fold(c.acc, x, s) };
    let k = c.step;
    c.step += 1;
    let local = sp_here();
    if k < c.len {
        match mix(s, k) % 5 {
            2 => c.acc ^= mix(c.acc, 3),
            3 => c.acc = fold(c.acc, 3, s),
            _ => {}
        }
    }
    let r = catch_unwind(AssertUnwindSafe(|| c.co.as_mut().unwrap().resume(x)));
    match r {
        Ok(CoroutineResult::Yield(o)) => {
            ensure!(k < c.len, "coroutine {s:#x} suspended more often than it should");
            ensure!(o.val == c.acc, "coroutine {s:#x}: value of step {k} differs from the sequential run");
            ensure!(o.tid_direct == me && o.tid_parent == me, "coroutine {s:#x}: ran on thread {} / {} but thread {me} resumed it", o.tid_direct, o.tid_parent);
            if o.parent_sp != 0 {
                ensure!(o.parent_sp < local && local - o.parent_sp < 1 << 20, "on_parent_stack did not run on the resuming thread's stack");
            }
            Ok(false)
        }
        Ok(CoroutineResult::Return(v)) => {
            ensure!(k == c.len && c.end != 1, "coroutine {s:#x} returned unexpectedly");
            ensure!(v == c.acc, "coroutine {s:#x}: result differs from the sequential run");
            ensure!(c.co.as_ref().unwrap().done(), "not done");
            Ok(true)
        }
        Err(p) => {
            ensure!(k == c.len && c.end == 1, "coroutine {s:#x}: unexpected panic out of resume");
            ensure!(p.downcast_ref::<u64>() == Some(&c.acc), "coroutine {s:#x}: payload changed");
            ensure!(c.co.as_ref().unwrap().done() && !std::thread::panicking(), "not done after a panic");
            Ok(true)
        }
    }
}
fn finish(mut c: SendCo, done: bool, how: u64) -> Result<(), String> {
    let mut co = c.co.take().unwrap();
    if done {
        match how % 3 {
            0 => drop(co),
            1 => co.force_unwind(),
            _ => drop(co.into_stack()),
        }
    } else if cfg!(feature = "unwind") {
        if how % 2 == 0 {
            co.force_unwind();
            ensure!(co.done(), "not done after force_unwind");
            drop(co.into_stack());
        } else {
            drop(co);
        }
    } else {
        while !co.done() {
            co.resume(0);
        }
    }
    Ok(())
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    LIVE.store(0, SeqCst);
    let threads = 2 + t.draw(5) as u64;
    let mode = t.draw(2);
    let n = 2 + t.draw(10) as u64;
    let seed = t.u64();
    let maxlen = 1 + t.draw(12) as u64;
    let quit = t.chance(1, 3);
    note(st, true, format!("{threads} threads, {}, {n} coroutines{} of up to {maxlen} suspensions, seed {seed:#x}{}", if mode == 0 { "each running its own" } else { "sharing a pool of" }, if mode == 0 { " each" } else { "" }, if quit { ", some abandoned half way" } else { "" }));
    st.class(if mode == 0 { "own_coroutines" } else { "shared_pool" });
    let mk = move |i: u64| {
        let s = mix(seed, i + 1);
        let len = mix(s, 1) % maxlen;
        // a panic that leaves a coroutine aborts without unwinding support
        let end = if cfg!(feature = "unwind") { (mix(s, 2) % 3) as u8 } else { 0 };
        make(s, len, end)
    };
    let bar = Arc::new(Barrier::new(threads as usize));
    let pool: Arc<Mutex<Vec<SendCo>>> = Default::default();
    if mode == 1 {
        let mut p = pool.lock().unwrap();
        for i in 0..n {
            p.push(mk(i));
        }
    }
    let left = Arc::new(AtomicI64::new(n as i64));
    let hs: Vec<_> = (0..threads)
        .map(|th| {
            let (bar, pool, left) = (bar.clone(), pool.clone(), left.clone());
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || -> Result<(), String> {
                    let me = tls_mark();
                    bar.wait();
                    let mut r = mix(seed, 1000 + th);
                    if mode == 0 {
                        // create, run and destroy on this thread, interleaved
                        let mut mine: Vec<SendCo> = (0..n).map(|i| mk(th * 1000 + i)).collect();
                        while !mine.is_empty() {
                            r = mix(r, 5);
                            let i = (r % mine.len() as u64) as usize;
                            let d = step(&mut mine[i], me)?;
                            if d || (quit && r % 11 == 0) {
                                finish(mine.swap_remove(i), d, r >> 20)?;
                            }
                        }
                    } else {
                        while left.load(SeqCst) > 0 {
                            let c = {
                                let mut p = pool.lock().unwrap();
                                r = mix(r, 7);
                                if p.is_empty() { None } else { let i = (r % p.len() as u64) as usize; Some(p.swap_remove(i)) }
                            };
                            let Some(mut c) = c else {
                                std::thread::yield_now();
                                continue;
                            };
                            let out = step(&mut c, me);
                            match out {
                                Ok(d) if d || (quit && r % 17 == 0) => {
                                    left.fetch_sub(1, SeqCst);
                                    finish(c, d, r >> 20)?;
                                }
                                Ok(_) => pool.lock().unwrap().push(c),
                                Err(m) => {
                                    left.store(0, SeqCst);
                                    return Err(m);
                                }
                            }
                        }
                    }
                    Ok(())
                })
                .expect("harness: thread")
        })
        .collect();
    let mut err = None;
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(m)) => err = Some(m),
            Err(_) => err = Some("a thread was killed by a foreign panic".into()),
        }
    }
    if let Some(e) = err {
        return Err(e);
    }
    drop(pool);
    let l = LIVE.load(SeqCst);
    ensure!(l == 0, "{l} values on coroutine stacks were not destroyed exactly once");
    Ok(())
}
