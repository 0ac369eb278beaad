//! Frame chains across contexts. A random tower of coroutines, on_stack and on_parent_stack calls
//! is built; at its top the frame-pointer chain and the unwinder's backtrace are both compared
//! with the contexts the tower really has.
use super::*;
use crate::engine::bt;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, Yielder};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Call,
    Co,
    OnStack,
    OnParent,
    /// the coroutine suspends once and is resumed from one frame further down
    Bounce,
}
struct Cx<'a> {
    ops: &'a [Op],
    out: &'a RefCell<Vec<(Vec<u32>, Vec<u32>, Vec<u32>)>>,
    seed: u64,
}
type Y = Yielder<(), ()>;
type F = fn(&Cx, usize, Option<&Y>, &mut Vec<u32>, &mut Vec<Vec<u32>>);
macro_rules! markers {
    ($($n:ident $i:literal),*) => {
        $(#[inline(never)]
        fn $n(cx: &Cx, k: usize, y: Option<&Y>, cur: &mut Vec<u32>, below: &mut Vec<Vec<u32>>) {
            let a = [$i as u64 + k as u64; 3];
            cur.push($i);
            step(cx, k, y, cur, below);
            std::hint::black_box(a);
        })*
        static FNS: &[F] = &[$($n),*];
    };
}
markers!(m0 0, m1 1, m2 2, m3 3, m4 4, m5 5, m6 6, m7 7);

struct P<T>(T);
unsafe impl<T> Send for P<T> {}

/// `cur`: markers of the running chain, outermost first. `below`: chains by enclosing coroutine,
/// i.e. what the chain was in the parent when each coroutine was last resumed.
#[inline(always)]
fn step(cx: &Cx, k: usize, y: Option<&Y>, cur: &mut Vec<u32>, below: &mut Vec<Vec<u32>>) {
    let f = FNS[(mix(cx.seed, k as u64) % FNS.len() as u64) as usize];
    let here = cur.len();
    match cx.ops.get(k) {
        None => look(cx, cur),
        Some(Op::Call) => f(cx, k + 1, y, cur, below),
        Some(Op::OnStack) => {
            let st = DefaultStack::new(192 * 1024).expect("harness: stack");
            on_stack(st, || f(cx, k + 1, y, cur, below));
        }
        Some(Op::OnParent) => match y {
            Some(y) => {
                // the backtrace still goes through the coroutine that asked
                let p = P((cx, cur as *mut Vec<u32>, below as *mut Vec<Vec<u32>>));
                y.on_parent_stack(move || {
                    let p = p;
                    let P((cx, cur, below)) = p;
                    let (cur, below) = unsafe { (&mut *cur, &mut *below) };
                    f(cx, k + 1, None, cur, below)
                });
            }
            None => f(cx, k + 1, y, cur, below),
        },
        Some(o @ (Op::Co | Op::Bounce)) => {
            let bounce = *o == Op::Bounce;
            let p = P((cx as *const Cx as *const Cx<'static>, cur as *mut Vec<u32>, below as *mut Vec<Vec<u32>>));
            let mut co: Coroutine<(), (), (), DefaultStack> = Coroutine::with_stack(DefaultStack::new(192 * 1024).expect("harness: stack"), move |y: &Y, ()| {
                let p = p;
                let P((cx, cur, below)) = p;
                let (cx, cur, below) = unsafe { (&*cx, &mut *cur, &mut *below) };
                if bounce {
                    // while suspended, the chain has nothing of this coroutine
                    y.suspend(());
                }
                f(cx, k + 1, Some(y), cur, below)
            });
            if bounce {
                co.resume(());
                look(cx, cur);
                resumer(cx, &mut co, cur);
            } else {
                co.resume(());
            }
        }
    }
    cur.truncate(here);
}
/// Another frame that resumes; it is marker 8.
#[inline(never)]
fn resumer(_cx: &Cx, co: &mut Coroutine<(), (), ()>, cur: &mut Vec<u32>) {
    let n = cur.len();
    cur.push(8);
    let a = std::hint::black_box([n; 4]);
    co.resume(());
    std::hint::black_box(a);
    cur.truncate(n);
}

fn fns() -> Vec<usize> {
    let mut v: Vec<usize> = FNS.iter().map(|f| *f as *const () as usize).collect();
    v.push(resumer as *const () as usize);
    v
}
#[cfg(cvh_fp)]
#[inline(always)]
fn fp() -> usize {
    let r: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("mov {}, rbp", out(reg) r, options(nomem, nostack, preserves_flags));
        #[cfg(target_arch = "x86")]
        std::arch::asm!("mov {}, ebp", out(reg) r, options(nomem, nostack, preserves_flags));
    }
    r
}
extern "C" {
    fn _Unwind_FindEnclosingFunction(pc: *mut std::os::raw::c_void) -> *mut std::os::raw::c_void;
}
#[cfg(cvh_fp)]
#[inline(never)]
fn chain() -> Vec<u32> {
    let fns = fns();
    let mut v = vec![];
    let mut f = fp();
    let maps = crate::util::maps();
    for _ in 0..3000 {
        // a broken chain must not crash the check itself
        if f % std::mem::size_of::<usize>() != 0 || !maps.iter().any(|m| m.lo <= f && f + 2 * std::mem::size_of::<usize>() <= m.hi && m.perms.starts_with("rw")) {
            break;
        }
        let (next, ret) = unsafe { (*(f as *const usize), *(f as *const usize).add(1)) };
        if ret == 0 {
            break;
        }
        let e = unsafe { _Unwind_FindEnclosingFunction((ret - 1) as *mut _) } as usize;
        if let Some(k) = fns.iter().position(|x| *x == e) {
            v.push(k as u32);
        }
        if next == 0 {
            break;
        }
        f = next;
    }
    v
}
#[cfg(not(cvh_fp))]
fn chain() -> Vec<u32> {
    vec![]
}
#[inline(never)]
fn look(cx: &Cx, cur: &[u32]) {
    let want: Vec<u32> = cur.iter().rev().copied().collect();
    let by_fp = if cfg!(cvh_fp) { chain() } else { want.clone() };
    let by_cfi = bt::markers(&fns());
    cx.out.borrow_mut().push((want, by_fp, by_cfi));
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let n = 1 + t.draw(14) as usize;
    let ops: Vec<Op> = (0..n).map(|_| [Op::Call, Op::Co, Op::OnStack, Op::OnParent, Op::Bounce][t.weighted(&[2, 4, 2, 3, 2])]).collect();
    let seed = t.u64();
    let switches = ops.iter().filter(|o| **o != Op::Call).count();
    note(st, switches >= 2, format!("tower {ops:?}, markers by {seed:#x}"));
    st.class_if(ops.contains(&Op::OnParent), "on_parent_stack");
    st.class_if(ops.contains(&Op::Bounce), "resumed_from_another_frame");
    let out = RefCell::new(vec![]);
    let cx = Cx { ops: &ops, out: &out, seed };
    m0(&cx, 0, None, &mut vec![], &mut vec![]);
    for (want, by_fp, by_cfi) in out.borrow().iter() {
        ensure!(by_cfi == want, "tower {ops:?}: backtrace lists frames {by_cfi:?}, active (innermost first) are {want:?}");
        ensure!(by_fp == want, "tower {ops:?}: frame-pointer chain has frames {by_fp:?}, active (innermost first) are {want:?}");
    }
    Ok(())
}
