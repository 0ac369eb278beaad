//! Runs histories of default stacks in one process and reports on fd 2 which stacks are alive at
//! every point, for comparison with Valgrind's own log of stack registrations on the same fd.
use super::*;
use crate::rt::Tape;
use corosensei::stack::{DefaultStack, Stack};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::Mutex;

const UNW: bool = cfg!(feature = "unwind");

fn say(s: &str) {
    let l = format!("@ {s}\n");
    unsafe { libc::write(2, l.as_ptr() as *const _, l.len()) };
}
static MEMCHECK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static LIVE: Mutex<BTreeMap<usize, usize>> = Mutex::new(BTreeMap::new());
fn born(lo: usize, hi: usize) {
    LIVE.lock().unwrap().insert(lo, hi);
}
fn gone(lo: usize) {
    LIVE.lock().unwrap().remove(&lo);
}
fn live(at: &str) {
    let l = LIVE.lock().unwrap().clone();
    let v: Vec<String> = l.iter().map(|(a, b)| format!("{a:x}-{b:x}")).collect();
    say(&format!("live {at} | {}", v.join(" ")));
}

/// A default stack whose life is reported.
struct S(std::mem::ManuallyDrop<DefaultStack>, bool);
impl S {
    fn new(size: usize) -> Option<S> {
        match catch_unwind(|| DefaultStack::new(size)) {
            Ok(Ok(s)) => {
                born(s.limit().get(), s.base().get());
                let r = S(std::mem::ManuallyDrop::new(s), false);
                live(&format!("new({size:#x})"));
                Some(r)
            }
            Ok(Err(_)) => {
                say("failed");
                live(&format!("failed new({size:#x})"));
                None
            }
            Err(_) => {
                say("failed");
                live(&format!("panicked new({size:#x})"));
                None
            }
        }
    }
}
impl Drop for S {
    fn drop(&mut self) {
        let lo = self.0.limit().get();
        live("before drop");
        unsafe { std::mem::ManuallyDrop::drop(&mut self.0) };
        gone(lo);
        live("after drop");
    }
}
unsafe impl Stack for S {
    fn base(&self) -> corosensei::stack::StackPointer {
        self.0.base()
    }
    fn limit(&self) -> corosensei::stack::StackPointer {
        self.0.limit()
    }
}
/// Valgrind registers the stacks of threads by itself.
fn thread() {
    let x = 0u8;
    say(&format!("thread {:x}", std::hint::black_box(&x) as *const u8 as usize));
}
unsafe impl Send for Box1 {}
struct Box1(Held);
type Co = Coroutine<u32, u64, u64, S>;
enum Held {
    St(S),
    Co(Co),
}
struct G(u64);
impl Drop for G {
    fn drop(&mut self) {
        std::hint::black_box(&self.0);
    }
}
#[inline(never)]
fn deep(n: u32, y: Option<&Yielder<u32, u64>>) -> u64 {
    let mut a = [n as u64 + 1; 24];
    std::hint::black_box(&mut a);
    let r = if n == 0 {
        live("on a coroutine");
        match y {
            Some(y) => y.suspend(7) as u64 + y.on_parent_stack(|| 1),
            None => 1,
        }
    } else {
        deep(n - 1, y)
    };
    r + a.iter().sum::<u64>()
}
fn make(s: S, kind: u32, d: u32) -> Co {
    Coroutine::with_stack(s, move |y, i| {
        let g = G(i as u64);
        let v = match kind {
            0 => i as u64,
            1 => deep(d, Some(y)),
            2 => deep(d, None),
            3 => {
                // another stack lives and dies here, below this coroutine's own
                let s2 = S::new(64 * 1024);
                let r = y.suspend(3) as u64;
                if let Some(s2) = s2 {
                    on_stack(s2, || deep(2, None));
                }
                r
            }
            4 if UNW => panic_any(i),
            _ => {
                let mut t = 0;
                loop {
                    t += y.suspend(t) as u64;
                    if t > 5000 {
                        break t;
                    }
                }
            }
        };
        v + g.0
    })
}

pub fn case(t: &mut Tape) {
    let mut slots: Vec<Held> = vec![];
    let n = 1 + t.draw(16);
    let small = |t: &mut Tape| -> usize {
        match t.draw(6) {
            0 => 256 * 1024,
            1 => 1 << (17 + t.draw(5)),
            2 => 128 * 1024 + t.draw(200_000) as usize,
            3 => (32 + t.draw(40) as usize) * 4096,
            4 => (32 + t.draw(40) as usize) * 4096 + 1,
            _ => (32 + t.draw(40) as usize) * 4096 - 1,
        }
    };
    for _ in 0..n {
        match t.weighted(&[8, 4, 3, 5, 2, 4, 6, 4, 3, 3, 2, 1, 3]) {
            0 => {
                let z = small(t);
                if let Some(s) = S::new(z) {
                    slots.push(Held::St(s));
                }
            }
            1 => {
                // sizes that cannot be had
                let z = match t.draw(6) {
                    0 => usize::MAX,
                    1 => usize::MAX - 4096,
                    2 => usize::MAX / 2,
                    3 => usize::MAX - 16384,
                    4 => usize::MAX / 4 * 3,
                    _ => usize::MAX >> (1 + t.draw(16)),
                };
                // nothing big may really be allocated
                if z > (isize::MAX as usize) >> 14 {
                    if let Some(s) = S::new(z) {
                        slots.push(Held::St(s));
                    }
                }
            }
            2 => {
                // can be reserved, but not made writable under the limit the check sets
                let z = (if cfg!(target_pointer_width = "64") { 3usize << 30 } else { 900 << 20 }) + t.draw(8192) as usize * 4096;
                if let Some(s) = S::new(z) {
                    slots.push(Held::St(s));
                }
            }
            3 if !slots.is_empty() => {
                let k = t.draw(slots.len() as u32) as usize;
                let mut h = slots.remove(k);
                finish(&mut h);
            }
            4 if slots.len() > 1 => {
                let k = t.draw(slots.len() as u32) as usize;
                slots.swap(0, k);
                let b = Box::new(slots.pop().unwrap());
                slots.insert(0, *b);
                live("moved");
            }
            5 | 6 if !slots.is_empty() => {
                let k = t.draw(slots.len() as u32) as usize;
                let (kind, d, m) = (t.draw(6), t.draw(40), t.draw(4));
                let h = slots.remove(k);
                match h {
                    // recorded finding: Memcheck takes the top of a stack that on_stack has used
                    // for dead when a coroutine starts there
                    Held::St(s) if s.1 && MEMCHECK.load(std::sync::atomic::Ordering::Relaxed) => {
                        say("skip on-stack-then-coroutine");
                        slots.push(Held::St(s));
                    }
                    Held::St(s) => {
                        let mut c = make(s, kind, d);
                        for _ in 0..m {
                            if !c.done() {
                                match catch_unwind(AssertUnwindSafe(|| c.resume(1000))) {
                                    Ok(CoroutineResult::Yield(_)) => live("suspended"),
                                    Ok(CoroutineResult::Return(_)) => live("returned"),
                                    Err(_) => live("panicked"),
                                }
                            }
                        }
                        slots.push(Held::Co(c));
                    }
                    Held::Co(mut c) => {
                        if !c.done() {
                            // without unwinding, run it to its end instead
                            if UNW && t.draw(2) == 0 {
                                c.force_unwind();
                                live("unwound");
                            } else {
                                while !c.done() {
                                    let _ = catch_unwind(AssertUnwindSafe(|| c.resume(1000)));
                                }
                                live("finished");
                            }
                        }
                        match t.draw(2) {
                            0 => slots.push(Held::St(c.into_stack())),
                            _ => drop(c),
                        }
                        live("after coroutine");
                    }
                }
            }
            7 if !slots.is_empty() => {
                let k = t.draw(slots.len() as u32) as usize;
                let pan = UNW && t.chance(1, 4);
                if let Held::St(_) = slots[k] {
                    let Held::St(mut s) = slots.remove(k) else { unreachable!() };
                    let f = || {
                        live("in on_stack");
                        if pan {
                            panic_any(1u8);
                        }
                        deep(3, None)
                    };
                    if t.draw(2) == 0 {
                        s.1 = true;
                        let _ = catch_unwind(AssertUnwindSafe(|| on_stack(&mut s, f)));
                        slots.push(Held::St(s));
                    } else {
                        let _ = catch_unwind(AssertUnwindSafe(|| on_stack(s, f)));
                    }
                    live("after on_stack");
                }
            }
            8 if !slots.is_empty() => {
                // created here, destroyed on another thread
                let k = t.draw(slots.len() as u32) as usize;
                let mut h = Box1(slots.remove(k));
                finish(&mut h.0);
                std::thread::spawn(move || {
                    thread();
                    let h = h;
                    live("on another thread");
                    drop(h);
                })
                .join()
                .unwrap();
                live("after thread");
            }
            9 => {
                // created on another thread
                let z = small(t);
                let s = std::thread::spawn(move || {
                    thread();
                    S::new(z).map(|s| Box1(Held::St(s)))
                })
                .join().unwrap();
                if let Some(Box1(s)) = s {
                    slots.push(s);
                }
            }
            10 => {
                // the usual constructor
                let mut c: Coroutine<u32, u64, u64> = Coroutine::new(|y, i| y.suspend(i as u64) as u64 + 1);
                let (lo, hi) = {
                    // the stack's extent is only known once it is given back
                    c.resume(1);
                    c.resume(2);
                    let s = c.into_stack();
                    let r = (s.limit().get(), s.base().get());
                    born(r.0, r.1);
                    live("Coroutine::new");
                    drop(s);
                    r
                };
                gone(lo);
                std::hint::black_box(hi);
                live("after Coroutine::new");
            }
            12 if !slots.is_empty() => {
                // destroyed by an unwinding panic
                let k = t.draw(slots.len() as u32) as usize;
                let mut h = slots.remove(k);
                finish(&mut h);
                let r: Result<(), _> = catch_unwind(AssertUnwindSafe(move || {
                    let _h = h;
                    live("panicking");
                    panic_any(3u8)
                }));
                drop(r);
                live("after unwinding");
            }
            11 => {
                // many short-lived stacks in between
                let many = if t.chance(1, 400) { 66_000 } else { 1 + t.draw(300) };
                for k in 0..many {
                    let a = DefaultStack::new(131072 + (k as usize % 3) * 4096).expect("harness: stack");
                    if k % 7 == 3 {
                        let b = DefaultStack::new(131072).expect("harness: stack");
                        drop(a);
                        drop(b);
                    }
                }
                live("after many");
            }
            _ => {}
        }
        if slots.len() > 10 {
            let mut h = slots.remove(3);
            finish(&mut h);
        }
    }
    // destroyed in a random order
    while !slots.is_empty() {
        let k = t.draw(slots.len() as u32) as usize;
        let mut h = slots.remove(k);
        finish(&mut h);
    }
    live("end");
}
/// Without unwinding support a suspended coroutine cannot be dropped.
fn finish(h: &mut Held) {
    if let Held::Co(c) = h {
        if !UNW {
            while !c.done() && c.started() {
                let _ = catch_unwind(AssertUnwindSafe(|| c.resume(1000)));
            }
        }
    }
}

/// Each line of the file is a tape.
pub fn run(path: &str, memcheck: bool) -> i32 {
    hush();
    MEMCHECK.store(memcheck, std::sync::atomic::Ordering::Relaxed);
    let txt = std::fs::read_to_string(path).expect("tapes");
    for (i, l) in txt.lines().enumerate() {
        say(&format!("case {i}"));
        let tape: Vec<u32> = l.split_whitespace().map(|x| x.parse().expect("tape")).collect();
        case(&mut Tape::fixed(tape));
    }
    say("done");
    0
}

/// The recorded finding: exactly this history.
pub fn finding() -> i32 {
    let mut s = DefaultStack::new(1 << 18).expect("harness: stack");
    on_stack(&mut s, || deep(3, None));
    let mut c: Coroutine<u32, u64, u64, _> = Coroutine::with_stack(s, |y, i| y.suspend(i as u64) as u64);
    c.resume(1);
    c.resume(2);
    0
}
