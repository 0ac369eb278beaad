//! Forced unwinds whose payloads are kept and thrown again in other coroutines. All coroutines
//! run the same code on stacks of the same shape, so that their payloads differ as little as
//! payloads of different coroutines can.
use super::*;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::{Any, TypeId};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

type P = Box<dyn Any + Send>;
enum In {
    Go,
    Raise(P),
}
/// What the code of a coroutine does with the forced unwind it catches.
enum Resp {
    Rethrow,
    Return,
    Suspend,
    Throw(P),
    Nested(usize),
}
type Co = Coroutine<In, u32, u32>;
struct World {
    cos: Vec<RefCell<Co>>,
    resp: RefCell<Vec<Resp>>,
    /// payload the last response kept
    kept: Cell<Option<P>>,
    nested_wrong: Cell<bool>,
}

#[inline(never)]
fn wait(y: &Yielder<In, u32>, d: u32, n: u32) -> In {
    let mut pad = [n; 12];
    std::hint::black_box(&mut pad);
    let _d = D::new();
    let r = if d == 0 { y.suspend(n) } else { wait(y, d - 1, n) };
    std::hint::black_box(&pad);
    r
}

fn body(y: &Yielder<In, u32>, first: In, d: u32, w: &World) -> u32 {
    let mut n = 1;
    let mut got = Ok(first);
    loop {
        match got {
            Ok(In::Go) => {}
            Ok(In::Raise(p)) => resume_unwind(p),
            Err(p) => {
                let r = w.resp.borrow_mut().pop().unwrap_or(Resp::Rethrow);
                match r {
                    Resp::Rethrow => resume_unwind(p),
                    Resp::Return => {
                        w.kept.set(Some(p));
                        return n;
                    }
                    Resp::Suspend => w.kept.set(Some(p)),
                    Resp::Throw(q) => {
                        w.kept.set(Some(p));
                        resume_unwind(q)
                    }
                    Resp::Nested(j) => {
                        let r = catch_unwind(AssertUnwindSafe(|| w.cos[j].borrow_mut().force_unwind()));
                        if r.is_err() || !w.cos[j].borrow().done() {
                            w.nested_wrong.set(true);
                        }
                        resume_unwind(p)
                    }
                }
            }
        }
        got = catch_unwind(AssertUnwindSafe(|| wait(y, d, n)));
        n += 1;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Fresh,
    Susp(u32),
    Done,
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    reg_reset();
    let k = t.range(2, 8) as usize;
    let deep = t.draw(3);
    let same = t.chance(3, 4);
    let w: Rc<World> = Rc::new(World { cos: Vec::new(), resp: RefCell::new(Vec::new()), kept: Cell::new(None), nested_wrong: Cell::new(false) });
    let wp: *const World = &*w;
    let ds: Vec<u32> = (0..k).map(|_| if same { deep } else { t.draw(3) }).collect();
    let cos: Vec<RefCell<Co>> = ds
        .iter()
        .map(|&d| {
            let g = D::new();
            RefCell::new(Coroutine::with_stack(DefaultStack::new(64 * 1024).expect("harness: stack"), move |y: &Yielder<In, u32>, i| {
                let g = g;
                let r = body(y, i, d, unsafe { &*wp });
                drop(g);
                r
            }))
        })
        .collect();
    unsafe { (*(wp as *mut World)).cos = cos };
    let mut m = vec![S::Fresh; k];
    let mut stash: Vec<(usize, P)> = Vec::new();
    let mut fu: Option<TypeId> = None;
    let ops = t.range(6, 30);
    let (mut log, mut crossed) = (String::new(), 0);
    let kinds = |p: &P| (**p).type_id();
    for _ in 0..ops {
        let i = t.draw(k as u32) as usize;
        let co = &w.cos[i];
        // a payload of another coroutine, if there is one
        let foreign = stash.iter().position(|(o, _)| *o != i);
        match (t.weighted(&[4, 5, 1]), m[i]) {
            (_, S::Done) => {
                let r = catch_unwind(AssertUnwindSafe(|| drop(co.borrow_mut().resume(In::Go))));
                ensure!(r.is_err(), "{log}: finished coroutine {i} could be resumed");
                let r = catch_unwind(AssertUnwindSafe(|| co.borrow_mut().force_unwind()));
                ensure!(r.is_ok(), "{log}: unwinding finished coroutine {i} panicked");
            }
            (0, s) => {
                log += &format!(" resume({i})");
                let n = match s {
                    S::Susp(n) => n + 1,
                    _ => 1,
                };
                let r = co.borrow_mut().resume(In::Go);
                ensure!(r == CoroutineResult::Yield(n), "{log}: expected Yield({n}), got {r:?}");
                m[i] = S::Susp(n);
            }
            (2, S::Susp(_)) if foreign.is_some() => {
                let (o, p) = stash.swap_remove(foreign.unwrap());
                log += &format!(" raise payload of {o} in {i}");
                crossed += 1;
                match catch_unwind(AssertUnwindSafe(|| drop(co.borrow_mut().resume(In::Raise(p))))) {
                    Err(q) if Some(kinds(&q)) == fu => stash.push((o, q)),
                    _ => return Err(format!("{log}: the payload did not come out of resume")),
                }
                m[i] = S::Done;
            }
            (_, S::Fresh) => {
                log += &format!(" unwind fresh {i}");
                let r = catch_unwind(AssertUnwindSafe(|| co.borrow_mut().force_unwind()));
                ensure!(r.is_ok(), "{log}: panicked");
                m[i] = S::Done;
            }
            (_, S::Susp(n)) => {
                let other = (0..k).find(|&j| j != i && m[j] != S::Done);
                let what = t.weighted(&[1, 3, 5, 1, 8, 2]);
                let mut thrown = None;
                let r = match what {
                    1 => Resp::Return,
                    2 => Resp::Suspend,
                    3 => Resp::Throw(Box::new(77u64)),
                    4 if foreign.is_some() => {
                        let (o, p) = stash.swap_remove(foreign.unwrap());
                        thrown = Some(o);
                        Resp::Throw(p)
                    }
                    5 if other.is_some() => Resp::Nested(other.unwrap()),
                    _ => Resp::Rethrow,
                };
                log += &format!(" unwind {i} ({})", match &r {
                    Resp::Rethrow => "rethrown".into(),
                    Resp::Return => "returns".into(),
                    Resp::Suspend => "suspends".into(),
                    Resp::Throw(_) if thrown.is_none() => "throws 77".into(),
                    Resp::Throw(_) => format!("throws payload of {}", thrown.unwrap()),
                    Resp::Nested(j) => format!("unwinds {j}, rethrown"),
                });
                let nested = if let Resp::Nested(j) = r { Some(j) } else { None };
                let mode = match &r {
                    Resp::Rethrow | Resp::Nested(_) => 0,
                    Resp::Return => 1,
                    Resp::Suspend => 2,
                    Resp::Throw(_) => 3,
                };
                // popped from the end: the nested unwind finds nothing and rethrows
                w.resp.borrow_mut().push(r);
                let out = catch_unwind(AssertUnwindSafe(|| co.borrow_mut().force_unwind()));
                ensure!(w.resp.borrow().is_empty(), "{log}: the forced unwind never reached the code that catches it");
                if let Some(p) = w.kept.take() {
                    let f = *fu.get_or_insert(kinds(&p));
                    ensure!(kinds(&p) == f, "{log}: the coroutine saw another kind of payload");
                    stash.push((i, p));
                }
                if let Some(j) = nested {
                    ensure!(!w.nested_wrong.get(), "{log}: unwinding {j} from the handler of {i} failed");
                    m[j] = S::Done;
                }
                m[i] = if mode == 2 { S::Susp(n + 1) } else { S::Done };
                match (mode, out) {
                    (0, Ok(())) => {}
                    (0, Err(_)) => return Err(format!("{log}: a completed forced unwind was reported as a panic")),
                    (_, Ok(())) => return Err(format!("{log}: reported as a success")),
                    (3, Err(q)) => match thrown {
                        None => ensure!(q.downcast_ref() == Some(&77u64), "{log}: another panic came out"),
                        Some(o) => {
                            crossed += 1;
                            ensure!(Some(kinds(&q)) == fu, "{log}: another panic came out");
                            stash.push((o, q));
                        }
                    },
                    (_, Err(q)) => ensure!(Some(kinds(&q)) != fu, "{log}: the swallowed payload came out"),
                }
            }
        }
        for j in 0..k {
            let c = w.cos[j].borrow();
            ensure!(c.done() == (m[j] == S::Done) && c.started() == (m[j] != S::Fresh), "{log}: coroutine {j} should be {:?}, done() is {} and started() {}", m[j], c.done(), c.started());
        }
    }
    note(st, crossed > 0, format!("{k} coroutines, depths {ds:?}:{log}"));
    st.class_if(crossed > 0, "payload crossed");
    for c in &w.cos {
        let r = catch_unwind(AssertUnwindSafe(|| c.borrow_mut().force_unwind()));
        ensure!(r.is_ok(), "{log}: final unwind panicked");
    }
    reg_done(&log)
}
