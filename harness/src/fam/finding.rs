//! Recorded findings: each reruns one exact history; exit 1 while it still fails.
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine};
use std::sync::atomic::{AtomicU32, Ordering::*};

pub fn run(key: &str) -> i32 {
    let r = match key {
        "borrowed-stack-forgotten-coroutine" => forgotten(),
        _ => panic!("unknown finding {key}"),
    };
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

/// Safe code only: a coroutine on a borrowed stack is suspended inside thread::scope, so that a
/// thread still borrows a value on that stack; the coroutine is forgotten; the borrow of the stack
/// ends with it, and the stack is used for something else while the thread looks at the value.
fn forgotten() -> Result<(), String> {
    static PHASE: AtomicU32 = AtomicU32::new(0);
    static SEEN: AtomicU32 = AtomicU32::new(0);
    let wait = |n: u32| {
        while PHASE.load(SeqCst) < n {
            std::thread::yield_now();
        }
    };
    let mut st = DefaultStack::new(1 << 18).expect("harness: stack");
    let mut co: Coroutine<(), (), (), &mut DefaultStack> = Coroutine::with_stack(unsafe_free(&mut st), move |y, ()| {
        let value = [AtomicU32::new(0xFEED), AtomicU32::new(0xFEED)];
        std::thread::scope(|s| {
            s.spawn(|| {
                while PHASE.load(SeqCst) < 1 {
                    std::thread::yield_now();
                }
                SEEN.store(if value.iter().all(|v| v.load(SeqCst) == 0xFEED) { 1 } else { 2 }, SeqCst);
                PHASE.store(2, SeqCst);
                // this thread never ends its scope's borrow; the process exits under it
                loop {
                    std::thread::park();
                }
            });
            y.suspend(());
        });
        // keeps the value alive beyond the scope
        std::hint::black_box(&value);
    });
    co.resume(());
    std::mem::forget(co);
    on_stack(&mut st, || fill(0));
    PHASE.store(1, SeqCst);
    wait(2);
    match SEEN.load(SeqCst) {
        1 => Ok(()),
        _ => Err("a value on the stack of a suspended coroutine was overwritten while a scoped thread borrowed it: the coroutine (on `&mut DefaultStack`) was forgotten and the stack reused, all in safe code".into()),
    }
}
fn unsafe_free(s: &mut DefaultStack) -> &mut DefaultStack {
    s
}
#[inline(never)]
fn fill(n: u32) -> u64 {
    let mut a = [0xABu8; 512];
    std::hint::black_box(&mut a);
    if n > 200 {
        return 1;
    }
    fill(n + 1) + a[3] as u64
}
