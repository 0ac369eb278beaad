//! Towers of nested coroutines, up to a couple of hundred high: each one lives on the stack of
//! the one below and drives it. Values, panics and unwinds pass through every level.
use super::*;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

const UNW: bool = cfg!(feature = "unwind");

#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    Yield,
    /// The coroutine at the top panics; the given level catches it and starts the tower anew.
    Panic(u32),
    /// The given level drops everything above it and starts it anew.
    Cut(u32),
    /// The same with force_unwind.
    Unwind(u32),
    /// The top runs a function on the stack of the level below.
    Parent,
    /// The top runs a function on another stack.
    OnStack,
}
struct Plan {
    n: u32,
    steps: Vec<Step>,
    pos: Cell<usize>,
    /// guards dropped, in order: (level, incarnation)
    log: RefCell<Vec<(u32, u32)>>,
    born: RefCell<Vec<u32>>,
    wrong: RefCell<Option<String>>,
    frames: RefCell<Vec<(usize, usize)>>,
}
struct G(Rc<Plan>, u32, u32);
impl Drop for G {
    fn drop(&mut self) {
        self.0.log.borrow_mut().push((self.1, self.2));
    }
}
struct Boom(u32);
/// What a level sends down: the value, and the step for one of the lower levels to do.
type Y = (u64, Option<Step>);
type Co = Coroutine<u64, Y, u64>;

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

fn level(i: u32, p: &Rc<Plan>) -> Co {
    let p = p.clone();
    let size = if i % 3 == 0 { 96 } else { 128 } * 1024;
    let stack = DefaultStack::new(size).expect("harness: stack");
    use corosensei::stack::Stack;
    let range = (stack.limit().get(), stack.base().get());
    Coroutine::with_stack(stack, move |y: &Yielder<u64, Y>, mut x: u64| {
        let inc = {
            let mut b = p.born.borrow_mut();
            b[i as usize] += 1;
            b[i as usize]
        };
        {
            let mut f = p.frames.borrow_mut();
            f.truncate(i as usize);
            f.push(range);
        }
        let _g = G(p.clone(), i, inc);
        let keep = [x, !x, i as u64];
        let r = if i + 1 == p.n { top(y, x, &p) } else {
            loop {
                let mut up = level(i + 1, &p);
                let mut again = false;
                x += 1;
                let out = loop {
                    let r = catch_unwind(AssertUnwindSafe(|| up.resume(x)));
                    match r {
                        Ok(CoroutineResult::Yield((v, Some(Step::Cut(l) | Step::Unwind(l))))) if l == i => {
                            let _ = v;
                            again = true;
                            break 0;
                        }
                        Ok(CoroutineResult::Yield((v, s))) => x = y.suspend((v + 1, s)) + 1,
                        Ok(CoroutineResult::Return(v)) => break v + 1,
                        Err(e) => match e.downcast::<Boom>() {
                            Ok(b) if b.0 == i => {
                                if !up.done() {
                                    *p.wrong.borrow_mut() = Some(format!("level {} panicked and is not finished", i + 1));
                                }
                                again = true;
                                break 0;
                            }
                            Ok(b) => resume_unwind(b),
                            Err(e) => resume_unwind(e),
                        },
                    }
                };
                if !again {
                    break out;
                }
                let s = p.steps[p.pos.get() - 1];
                let from = p.log.borrow().len();
                if let Step::Unwind(_) = s {
                    up.force_unwind();
                }
                drop(up);
                // everything above is gone, innermost first
                if !matches!(s, Step::Panic(_)) {
                    let l = p.log.borrow();
                    let want: Vec<u32> = (i + 1..p.n).rev().collect();
                    let got: Vec<u32> = l[from..].iter().map(|a| a.0).collect();
                    if got != want {
                        *p.wrong.borrow_mut() = Some(format!("cut at level {i}: destroyed {got:?}"));
                    }
                }
            }
        };
        if std::hint::black_box(keep)[2] != i as u64 || keep[0] != !keep[1] {
            *p.wrong.borrow_mut() = Some(format!("variables of level {i} changed"));
        }
        r
    })
}

fn top(y: &Yielder<u64, Y>, mut x: u64, p: &Rc<Plan>) -> u64 {
    loop {
        let k = p.pos.get();
        let Some(&s) = p.steps.get(k) else { return x };
        p.pos.set(k + 1);
        match s {
            Step::Yield => x = y.suspend((x, None)),
            Step::Panic(l) => panic_any(Boom(l)),
            Step::Cut(_) | Step::Unwind(_) => {
                y.suspend((x, Some(s)));
                *p.wrong.borrow_mut() = Some("an abandoned coroutine went on".into());
            }
            Step::Parent => {
                let a = y.on_parent_stack(here);
                let f = p.frames.borrow();
                if f.len() >= 2 {
                    let (lo, hi) = f[f.len() - 2];
                    if a < lo || a >= hi {
                        *p.wrong.borrow_mut() = Some(format!("on_parent_stack ran at {a:#x}, not on {lo:#x}..{hi:#x}"));
                    }
                }
            }
            Step::OnStack => {
                let v = x;
                x = on_stack(DefaultStack::new(65536).expect("harness: stack"), move || std::hint::black_box(v));
            }
        }
    }
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let n = match t.draw(4) {
        0 => t.range(2, 6),
        1 => t.range(2, 40),
        _ => t.range(2, 250),
    };
    let mut steps = Vec::new();
    for _ in 0..t.range(1, 8) {
        let l = t.draw(n - 1);
        steps.push(match t.draw(6) {
            1 if UNW => Step::Panic(l),
            2 if UNW => Step::Cut(l),
            3 if UNW => Step::Unwind(l),
            4 => Step::Parent,
            5 => Step::OnStack,
            _ => Step::Yield,
        });
    }
    // how the whole tower ends: runs to its end, is dropped or unwound while suspended, panics
    let end = if UNW { t.draw(4) } else { 0 };
    match end {
        1 | 2 => steps.push(Step::Yield),
        3 => steps.push(Step::Panic(u32::MAX)),
        _ => {}
    }
    let what = format!("{n} nested coroutines: {steps:?}, {}", ["run to their end", "dropped", "unwound", "panic"][end as usize]);
    note(st, n >= 8, what.clone());
    st.class_if(n >= 64, "64 or more levels");
    let yields = steps.iter().filter(|s| **s == Step::Yield).count();
    let p = Rc::new(Plan { n, steps, pos: Cell::new(0), log: Default::default(), born: RefCell::new(vec![0; n as usize]), wrong: Default::default(), frames: Default::default() });
    let mut co = level(0, &p);
    // the values that come out, from the variables each level must hold
    let top = n as usize - 1;
    let mut vars = vec![0u64; n as usize];
    let climb = |vars: &mut Vec<u64>, from: usize| {
        for i in from..top {
            vars[i] += 1;
            vars[i + 1] = vars[i];
        }
    };
    vars[0] = 5;
    climb(&mut vars, 0);
    let mut want = Vec::new();
    let mut sent = 5u64;
    for s in &p.steps {
        match s {
            Step::Yield => {
                want.push(vars[top] + top as u64);
                sent += 1000;
                vars[0] = sent;
                climb(&mut vars, 0);
            }
            Step::Panic(l) if *l == u32::MAX => {}
            Step::Panic(l) | Step::Cut(l) | Step::Unwind(l) => climb(&mut vars, *l as usize),
            _ => {}
        }
    }
    let returned = vars[top] + top as u64;
    let mut x = 5u64;
    let mut seen = 0;
    let mut end_ok = false;
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| co.resume(x)));
        if let Some(m) = p.wrong.borrow_mut().take() {
            return Err(format!("{what}: {m}"));
        }
        match r {
            Ok(CoroutineResult::Yield((v, s))) => {
                ensure!(s.is_none(), "{what}: a request for a level came out at the bottom");
                ensure!(want.get(seen) == Some(&v), "{what}: suspension {seen} gave {v}, expected {:?}", want.get(seen));
                ensure!(!co.done() && co.started(), "{what}: wrong state");
                seen += 1;
                if p.pos.get() == p.steps.len() && (end == 1 || end == 2) {
                    break;
                }
                x += 1000;
            }
            Ok(CoroutineResult::Return(v)) => {
                ensure!(end == 0 && p.pos.get() == p.steps.len(), "{what}: returned early");
                ensure!(v == returned, "{what}: returned {v} instead of {returned}");
                end_ok = true;
                break;
            }
            Err(e) => {
                ensure!(end == 3 && e.downcast_ref::<Boom>().map(|b| b.0) == Some(u32::MAX), "{what}: a foreign panic came out");
                ensure!(co.done(), "{what}: not finished after its panic");
                end_ok = true;
                break;
            }
        }
    }
    ensure!(seen == yields, "{what}: {seen} suspensions seen, not {yields}");
    let from = p.log.borrow().len();
    match end {
        1 => drop(co),
        2 => {
            co.force_unwind();
            ensure!(co.done(), "{what}: not finished");
        }
        _ => ensure!(end_ok && co.done(), "{what}: not finished"),
    }
    if end == 1 || end == 2 {
        let got: Vec<u32> = p.log.borrow()[from..].iter().map(|a| a.0).collect();
        ensure!(got == (0..n).rev().collect::<Vec<_>>(), "{what}: destroyed {got:?}");
    }
    // every incarnation of every level was destroyed exactly once
    let mut count = vec![0; n as usize];
    for (l, inc) in p.log.borrow().iter() {
        count[*l as usize] += 1;
        ensure!(count[*l as usize] == *inc, "{what}: incarnation {inc} of level {l} destroyed out of order");
    }
    ensure!(count == *p.born.borrow(), "{what}: created {:?}, destroyed {count:?}", p.born.borrow());
    ensure!(!std::thread::panicking(), "{what}: the thread counts as panicking");
    Ok(())
}
