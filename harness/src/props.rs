//! Which families decide which property.
use crate::engine::ast::*;
use crate::engine::case;
use crate::engine::env::N;
use crate::rt::{Family, Stats, Tape};

macro_rules! engine_family {
    ($f:ident, $prof:expr, $nt:expr) => {
        fn $f(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
            const P: Profile = $prof;
            let nt: fn(&dyn Fn(N) -> u32) -> bool = $nt;
            case(t, st, P, nt)
        }
    };
}
const UNW: bool = cfg!(feature = "unwind");
/// Panics that leave a context abort without unwinding support: keep them rarer there so that
/// most programs run to their end.
const fn pw(w: u32) -> u32 {
    if UNW { w } else { 0 }
}

engine_family!(c01, Profile { panic: pw(1), local: 3, onstack: 3, onparent: 3, ..BASE }, |c| c(N::yielded) >= 2 && c(N::returned) >= 1 && c(N::values_large) > 0 && c(N::values_small) > 0);
engine_family!(c02, Profile { panic: pw(1), swap: 2, into: 3, ..BASE }, |c| c(N::resume) >= 4 && c(N::yielded) >= 2 && c(N::create) >= 2);
engine_family!(c03, Profile { regs: true, locals: 10, deep: 5, onstack: 4, onparent: 4, panic: pw(1), ..BASE }, |c| c(N::regs) + c(N::localck) >= 3 && c(N::yielded) >= 1);
engine_family!(c04, Profile { force: 8, dropco: 8, guard: 12, guard_ops: true, panic: pw(2), onstack: 2, local: 4, resume: 14, ..BASE }, |c| c(N::force_susp) + c(N::drop_susp) >= 1 && c(N::force_unst) + c(N::drop_unst) >= 1);
engine_family!(c05, Profile { panic: 7, catch: 7, throw: 2, panicking: 4, guard: 5, guard_ops: true, local: 3, onstack: 2, onparent: 2, into: 3, ..BASE }, |c| c(N::panic_out) >= 1 && c(N::resume) >= 3);
engine_family!(c06, Profile { rude: 6, relay: 5, throw: 2, catch: 16, force: 10, dropco: 3, guard: 3, panic: 2, resume: 16, suspend: 24, ..BASE }, |c| c(N::forced_seen) >= 1 && (c(N::forced_swallowed) >= 1 || c(N::force_err) >= 1));
engine_family!(c07, Profile { local: 9, swap: 3, force: 5, dropco: 5, guard: 6, guard_ops: true, panic: pw(2), create: 14, catch: 3, relay: 1, into: 2, ..BASE }, |c| c(N::unwind_nest) >= 1 || (c(N::nested_resume) >= 3 && c(N::drop_susp) + c(N::force_susp) >= 1));
engine_family!(c07r, Profile { relay: 6, throw: 3, rude: 1, catch: 16, force: 12, dropco: 3, suspend: 24, resume: 16, local: 3, ..BASE }, |c| c(N::forced_seen) >= 1 && c(N::stash_cross) + c(N::force_err) >= 1);
engine_family!(c08, Profile { onstack: 14, guard: 5, panic: pw(3), catch: 4, force: 4, dropco: 3, deep: 4, ..BASE }, |c| c(N::onstack) >= 2 && (c(N::onstack_panic) >= 1 || c(N::onstack_suspend) >= 1));
engine_family!(c09, Profile { onparent: 18, local: 5, swap: 2, panic: pw(3), catch: 4, deep: 4, onstack: 3, locals: 3, ..BASE }, |c| c(N::onparent) >= 2);
engine_family!(c10, Profile { onstack: 5, onparent: 3, into: 6, trap: 2, deep: 8, panic: pw(2), ..BASE }, |c| c(N::create) >= 2 && c(N::resume) >= 2);
engine_family!(c12, Profile { into: 16, reset: 2, trap: 2, panic: pw(3), force: 5, create: 16, onstack: 4, guard: 5, ..BASE }, |c| c(N::into_ok) >= 1 && c(N::reuse) >= 1);
engine_family!(c13, Profile { trap: 8, into: 6, panic: pw(1), deep: 6, locals: 3, regs: true, guard: 2, ..BASE }, |c| c(N::trap) >= 1);
engine_family!(c14, Profile { query: 16, swap: 4, trap: 2, local: 2, into: 4, ..BASE }, |c| c(N::bounds) >= 2 && c(N::resume) >= 1);
engine_family!(c15, Profile { trap: 2, trace: 14, deep: 12, onstack: 6, onparent: 6, local: 5, panic: pw(2), guard: 4, guard_ops: true, force: 4, swap: 2, ..BASE }, |c| c(N::bt_deep) >= 2);
engine_family!(c16, Profile { panic: 1, catch: 4, force: 3, dropco: 3, onstack: 3, onparent: 3, trap: 1, into: 4, resume: 24, guard: 5, ..BASE }, |c| c(N::resume) >= 2 && c(N::create) >= 1);
engine_family!(c17, Profile { reset: 9, force: 4, into: 6, guard: 5, local: 2, panic: pw(1), dropco: 4, ..BASE }, |c| c(N::reset_susp) >= 1);
engine_family!(c18, Profile { thread: 14, panic: pw(2), force: 4, dropco: 3, onparent: 5, trace: 4, deep: 4, swap: 2, panicking: 3, trap: 1, ..BASE }, |c| c(N::thread_resume) >= 1);
engine_family!(c_steps, Profile { regs: true, panic: pw(2), catch: 4, force: 4, dropco: 4, guard: 4, onstack: 5, onparent: 5, trap: 1, locals: 5, deep: 3, into: 4, ..BASE }, |c| c(N::resume) >= 3 && c(N::yielded) >= 1);
// Everything at once.
engine_family!(all, Profile {
    regs: true, rude: 1, guard_ops: true, panic: pw(3), catch: 5, throw: 1, force: 4, dropco: 4, guard: 5, onstack: 4, onparent: 4, local: 4, into: 4, reset: 1, trap: 1, trace: 2, locals: 2, deep: 4, panicking: 2, ..BASE
}, |c| c(N::resume) >= 3 && c(N::nested_resume) >= 1);

/// Programs interrupted at every instruction of windows of their run.
fn steps(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    unsafe { crate::engine::STEP_SEED = t.draw(u32::MAX) as u64 + 1 };
    let r = c_steps(t, st);
    unsafe { crate::engine::STEP_SEED = 0 };
    r
}

fn fam(name: &'static str, quick: u64, run: crate::rt::CaseFn, rule: &'static str) -> Family {
    Family { name, quick, thorough: quick * 30, run, rule }
}

use crate::fam::*;
pub fn families(prop: &str) -> Vec<Family> {
    match prop {
        "C01" => vec![
            fam("hist", 5000, c01, "small and large values crossed >=2 suspensions and >=1 return"),
            #[cfg(feature = "f-types")]
            fam("types", 40000, types::case, ">=2 suspensions of a coroutine with at least two different types"),
            #[cfg(feature = "f-types")]
            fam("sizes", 6000, types::sizes, ">=1 suspension with a value that is not zero-sized"),
        ],
        "C02" => vec![
            fam("hist", 6000, c02, ">=4 resumes, >=2 suspensions, >=2 coroutines"),
            fam("nest", 400, nest::case, "8 or more levels"),
            fam("long", 500, long::machine, "hundreds to 66 000 operations in one history"),
        ],
        "C03" => vec![
            fam("hist", 4000, c03, ">=3 checked switches (registers or locals) and >=1 suspension"),
            #[cfg(feature = "f-kern")]
            fam("kernels", 60000, kern::case, ">=2 switches inlined into code with many live values"),
            #[cfg(all(target_arch = "x86_64", debug_assertions, feature = "unwind"))]
            fam("landing", 20000, unwreg::case, ">=3 register checks, one of them in the landing pad of an unwind"),
            #[cfg(all(feature = "f-lands", feature = "unwind"))]
            fam("lands", 20000, lands::all, "unwound at the second switch or later"),
            fam("steps", 1500, steps, ">=3 resumes and >=1 suspension"),
            fam("control", 8000, control::case, "control words changed at least once and >=3 switches checked"),
        ],
        "C04" => vec![
            fam("hist", 7000, c04, ">=1 suspended and >=1 unstarted coroutine destroyed"),
            fam("nest", 400, nest::case, "8 or more levels"),
            fam("long", 1200, long::cleanup, "up to 66 000 coroutines ended in one history"),
            #[cfg(all(feature = "f-lands", feature = "unwind"))]
            fam("lands", 20000, lands::ends, "unwound at the second switch or later"),
            fam("closures", 6000, geom::small, "closure with state or over-aligned"),
        ],
        "C05" => vec![
            fam("hist", 6000, c05, ">=1 panic left a resume call, >=3 resumes"),
            fam("nest", 400, nest::case, "8 or more levels"),
            #[cfg(all(feature = "f-lands", feature = "unwind"))]
            fam("lands", 20000, lands::panics, "unwound at the second switch or later"),
            fam("long", 1000, long::cleanup, "up to 66 000 coroutines ended in one history"),
        ],
        "C06" => vec![
            fam("hist", 8000, c06, "a forced unwind was seen by user code and swallowed, replaced or reported"),
            #[cfg(feature = "unwind")]
            fam("cross", 30000, cross::case, "a payload was thrown in another coroutine"),
        ],
        "C07" => vec![
            #[cfg(feature = "unwind")]
            fam("cross", 30000, cross::case, "a payload was thrown in another coroutine"),
            fam("nest", 400, nest::case, "8 or more levels"),
            fam("relay", 4000, c07r, "a forced unwind was intercepted, and crossed into another coroutine or was reported"),
            fam("hist", 6000, c07, "an unwind triggered another coroutine's unwind, or nested resumes plus a forced unwind"),
            fam("long", 1000, long::cleanup, "up to 66 000 coroutines ended in one history"),
        ],
        "C08" => vec![
            fam("hist", 6000, c08, ">=2 on_stack calls, one of which panicked or suspended"),
            #[cfg(all(feature = "f-lands", feature = "unwind"))]
            fam("lands", 15000, lands::calls, "unwound at the second switch or later"),
            fam("tight", 4000, tight::calls, "every case"),
            #[cfg(feature = "f-kern")]
            fam("kernels", 20000, kern::calls, ">=2 calls inlined into code with many live values"),
        ],
        "C09" => vec![
            fam("hist", 6000, c09, ">=2 on_parent_stack calls"),
            #[cfg(all(feature = "f-lands", feature = "unwind"))]
            fam("lands", 15000, lands::parents, "unwound at the second switch or later"),
            fam("tight", 4000, tight::parents, "every case"),
            fam("long", 300, long::machine, "hundreds to 66 000 operations in one history"),
            #[cfg(feature = "f-kern")]
            fam("kernels", 20000, kern::parents, ">=2 calls inlined into code with many live values"),
        ],
        "C10" => vec![
            fam("hist", 3000, c10, ">=2 coroutines created and >=2 resumes"),
            #[cfg(feature = "f-geom")]
            fam("geometry", 16000, geom::case, "closure with state or over-aligned"),
            fam("tight", 6000, tight::case, "every case"),
        ],
        "C11" => vec![fam("memory", 4000, dstack::case, "any request other than a tiny one without fault")],
        "C12" => vec![
            fam("hist", 6000, c12, "a stack was extracted and one was reused"),
            fam("long", 600, long::reuses, "up to 66 000 coroutines in a row on one stack"),
        ],
        "C13" => vec![
            fam("hist", 4000, c13, ">=1 trap converted"),
            fam("anywhere", 5000, anywhere::case, "a trap happened"),
            fam("tight", 4000, tight::traps, "every case"),
            #[cfg(feature = "f-trapf")]
            fam("traps", 12000, trapf::case, ">=2 traps on one stack or an over-aligned closure"),
        ],
        "C14" => vec![
            fam("hist", 3000, c14, ">=2 bounds queries and >=1 resume"),
            fam("bounds", 20000, bounds::case, "queried in several states of the coroutine"),
        ],
        "C15" => vec![
            fam("hist", 5000, c15, ">=2 backtraces through at least two contexts"),
            fam("chain", 20000, fpchain::case, ">=2 context switches on the chain"),
        ],
        "C16" => vec![fam("hist", 6000, c16, ">=2 resumes")],
        "C17" => vec![fam("hist", 6000, c17, "a suspended coroutine was reset")],
        "C18" => vec![
            fam("hist", 3500, c18, "a coroutine was resumed on a different thread than before"),
            fam("parallel", 2500, par::case, "at least two threads run coroutines at the same time"),
            #[cfg(feature = "f-exch")]
            fam("exchange", 800, exch::case, "at least two threads exchange values at the same time"),
        ],
        "ALL" => vec![fam("hist", 6000, all, ">=3 resumes, >=1 nested")],
        _ => vec![],
    }
}
