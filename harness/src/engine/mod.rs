//! Differential engine: random programs over the coroutine API run on corosensei and on a
//! reference implementation; both must produce the same history.
pub mod api;
pub mod asm;
pub mod ast;
pub mod bt;
pub mod env;
pub mod interp;
pub mod stack;
pub mod step;

use crate::rt::{self, hash_u64, Stats, Tape};
use crate::util;
use ast::*;
use env::*;
use std::fmt::Write;

/// Seed of the interruptions in the next case (0: none).
pub static mut STEP_SEED: u64 = 0;
static mut SH: *mut EShared = std::ptr::null_mut();
fn shared() -> *mut EShared {
    unsafe {
        if SH.is_null() {
            SH = rt::shared_alloc::<EShared>(1);
        }
        SH
    }
}

fn reset_env(prog: &'static Program, which: usize, sh: *mut EShared) {
    let mut e = EnvInner {
        prog,
        which,
        sh,
        next_tok: 0,
        tok: vec![0; TOK_MAX],
        live: 0,
        fuel: 2500,
        depth: 0,
        ctx: Vec::with_capacity(256),
        cur: 0,
        slots: (0..NSLOT).map(|_| interp::Slot::Empty).collect(),
        pool: Vec::with_capacity(64),
        stash: Vec::with_capacity(64),
        pend: Vec::with_capacity(64),
        next_pend: 0,
        next_guard: 0,
        next_stack: 0,
        susp_live: 0,
        unwinds: 0,
        next_force: 0,
        leaky: false,
        closed: false,
        created: 0,
        main_pc: 0,
        parents: 0,
        threads: 0,
        cur_thread: 0,
    };
    e.ctx.push(CtxInfo::root());
    unsafe { ENV = Box::leak(Box::new(Env(std::cell::UnsafeCell::new(e)))) };
}

fn hook(i: &std::panic::PanicHookInfo) {
    if active() {
        cnt(N::hook);
        ev(E::Hook, 0, 0);
    }
    if std::env::var_os("CVH_VERBOSE").is_some() {
        eprintln!("panic: {:?} at {:?}", _i(i), i.location());
    }
}
fn _i(p: &std::panic::PanicHookInfo) -> String {
    p.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.payload().downcast_ref::<String>().cloned()).unwrap_or_default()
}

/// Runs `f` in a forked child; returns the wait status, or None if it used up its CPU time.
fn child(f: impl FnOnce()) -> Option<i32> {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            // Spinning is an observation (CPU time); being blocked or starved is not.
            let rl = libc::rlimit { rlim_cur: 10, rlim_max: 12 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            libc::alarm(90);
            f();
            libc::_exit(0);
        }
        if pid < 0 {
            libc::_exit(rt::EXIT_HARNESS);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
            eprintln!("case made no progress in 90 s");
            libc::_exit(rt::EXIT_HARNESS);
        }
        if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGXCPU {
            return None;
        }
        Some(st)
    }
}
fn setup_child() {
    std::panic::set_hook(Box::new(hook));
    asm::install_handlers();
}
fn real_stage(prog: &'static Program, sh: *mut EShared) {
    unsafe {
        reset_env(prog, 1, sh);
        (*sh).stage = 2;
        step::init(STEP_SEED);
        let before = util::LIVE.load(std::sync::atomic::Ordering::SeqCst);
        interp::main::<api::Real>();
        step::stop();
        (*sh).steps = step::STEPS;
        if let Err(m) = step::verdict() {
            eprintln!("{m}");
            (*sh).stray = 1;
        }
        let leaky = env().leaky;
        (*sh).stage = 3;
        // What one run may legitimately keep (lazily initialised state) does not grow again.
        let growth = util::LIVE.load(std::sync::atomic::Ordering::SeqCst) - before;
        (*sh).heap_growth = 0;
        if growth > handlers() && !leaky {
            let (len, ovf) = ((*sh).tr[1].len, (*sh).tr[1].overflow);
            let keep = (*sh).tr[1].ev;
            reset_env(prog, 1, sh);
            (*sh).tr[1].len = 0;
            let h0 = handlers();
            let before = util::LIVE.load(std::sync::atomic::Ordering::SeqCst);
            interp::main::<api::Real>();
            let growth = util::LIVE.load(std::sync::atomic::Ordering::SeqCst) - before;
            (*sh).heap_growth = growth - (handlers() - h0) - env_blocks();
            (*sh).tr[1].len = len;
            (*sh).tr[1].overflow = ovf;
            (*sh).tr[1].ev = keep;
        }
    }
}
fn handlers() -> i64 {
    unsafe { api::HANDLER_BOXES }
}
/// Heap blocks the interpreter itself still holds (marker lists).
fn env_blocks() -> i64 {
    env().ctx.iter().filter(|c| c.markers.capacity() > 0).count() as i64
}

fn ev_name(e: [u32; 3]) -> String {
    let n = E_NAMES.get(e[0] as usize).copied().unwrap_or("?");
    format!("{n}({},{})", e[1], e[2])
}
fn is_noise(k: u32) -> bool {
    k == E::Hook as u32 || k == E::TokDrop as u32 || k == E::BodyUnwind as u32
}

fn compare(sh: *mut EShared, aborted: bool) -> Result<(), String> {
    unsafe {
        let a = &(*sh).tr[0];
        let b = &(*sh).tr[1];
        let (mut la, mut lb) = (a.len as usize, b.len as usize);
        if aborted {
            // An abort may cut or extend the tail of cleanup on the way to it.
            while la > 0 && is_noise(a.ev[la - 1][0]) {
                la -= 1
            }
            while lb > 0 && is_noise(b.ev[lb - 1][0]) {
                lb -= 1
            }
        }
        let n = la.min(lb);
        for i in 0..n {
            if a.ev[i] != b.ev[i] {
                return Err(explain(sh, i));
            }
        }
        if la != lb {
            // Without unwinding support a fatal panic may end the process before any cleanup:
            // then the history stops right where a panic starts.
            let starts = |e: [u32; 3]| e[0] == E::Hook as u32 || e[0] == E::Throw as u32 || (e[0] == E::Panic as u32 && e[1] == PanicKind::Resume as u32) || e[0] == E::Rethrow as u32;
            let full = b.len as usize;
            if aborted && !cfg!(feature = "unwind") && lb < la && full > 0 && full <= a.len as usize && b.ev[full - 1] == a.ev[full - 1] && starts(b.ev[full - 1]) {
                return Ok(());
            }
            return Err(explain(sh, n));
        }
        Ok(())
    }
}
fn explain(sh: *mut EShared, i: usize) -> String {
    unsafe {
        let mut s = String::new();
        let t = &(*sh).tr;
        let f = |w: usize, j: usize| if j < t[w].len as usize { ev_name(t[w].ev[j]) } else { "<end>".into() };
        let _ = write!(s, "history diverges from the reference at event {i}: expected {} got {}; before:", f(0, i), f(1, i));
        for j in i.saturating_sub(8)..i {
            let _ = write!(s, " {}", f(0, j));
        }
        let _ = write!(s, "; expected next:");
        for j in i..i + 5 {
            let _ = write!(s, " {}", f(0, j));
        }
        let _ = write!(s, "; got next:");
        for j in i..i + 5 {
            let _ = write!(s, " {}", f(1, j));
        }
        s
    }
}

fn sig_name(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        format!("signal {}", libc::WTERMSIG(st))
    } else {
        format!("exit {}", libc::WEXITSTATUS(st))
    }
}

/// One case: generate, run both, compare.
pub fn case(t: &mut Tape, st: &mut Stats, p: Profile, nontrivial: fn(&dyn Fn(N) -> u32) -> bool) -> Result<(), String> {
    let prog = Gen::program(t, p);
    if util::SAMPLE_FD.load(std::sync::atomic::Ordering::SeqCst) >= 0 {
        util::emit_sample(&pretty(&prog));
    }
    let h = hash_u64(0, 1);
    st.hash = rt::hash_bytes(h, format!("{prog:?}").as_bytes());
    let sample = if st.want_sample { pretty(&prog) } else { String::new() };
    let sh = shared();
    let prog: &'static Program = Box::leak(Box::new(prog));
    let r = run_both(prog, sh);
    unsafe { drop(Box::from_raw(prog as *const Program as *mut Program)) };
    let c = |n: N| unsafe { (*sh).cnt[n as usize] };
    st.nontrivial = nontrivial(&c);
    let steps = unsafe { (*sh).steps };
    if steps > 0 {
        *st.classes.entry("interrupted_instructions").or_insert(0) += steps;
    }
    for (i, n) in N_NAMES.iter().enumerate() {
        let v = unsafe { (*sh).cnt[i] };
        if v > 0 {
            *st.classes.entry(n).or_insert(0) += v as u64;
        }
    }
    if let Ok(true) = r {
        st.class("aborted_as_expected");
    }
    if st.want_sample {
        st.sample = sample;
    }
    r.map(|_| ())
}

fn run_both(prog: &'static Program, sh: *mut EShared) -> Result<bool, String> {
    unsafe {
        (*sh).stage = 0;
        (*sh).cnt = [0; N::COUNT as usize];
        (*sh).heap_growth = 0;
        (*sh).steps = 0;
        (*sh).stray = 0;
        for t in 0..2 {
            (*sh).tr[t].len = 0;
            (*sh).tr[t].overflow = 0;
        }
        let st = child(|| {
            setup_child();
            reset_env(prog, 0, sh);
            interp::main::<api::Ref>();
            (*sh).stage = 1;
            real_stage(prog, sh);
        });
        let stage = (*sh).stage;
        let Some(st) = st else {
            if stage <= 1 {
                eprintln!("reference run hung");
                libc::_exit(rt::EXIT_HARNESS);
            }
            return Err(format!("no progress: the program does not terminate (reference finished); trace ends with {}", tail(sh)));
        };
        if stage <= 1 {
            // The reference predicts that the process aborts.
            if !(libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGABRT) {
                eprintln!("reference run failed: {} {}", sig_name(st), stage);
                libc::_exit(rt::EXIT_HARNESS);
            }
            let st = child(|| {
                setup_child();
                real_stage(prog, sh);
            });
            return match st {
                None => Err(format!("hang where the process should abort; {}", tail(sh))),
                Some(st) if libc::WIFSIGNALED(st) && util::is_abort_signal(libc::WTERMSIG(st)) => compare(sh, true).map(|_| true),
                Some(st) => Err(match compare(sh, true) {
                    Ok(()) => format!("process should abort here, but ended with {}", sig_name(st)),
                    Err(m) => format!("process should abort, but ended with {}; {m}", sig_name(st)),
                }),
            };
        }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 78 {
            eprintln!("program needs more stack than the harness provides");
            libc::_exit(rt::EXIT_HARNESS);
        }
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            let m = compare(sh, false).err().unwrap_or_default();
            return Err(format!("process died with {} where the reference completes; {m}", sig_name(st)));
        }
        compare(sh, false)?;
        if (*sh).stray != 0 {
            return Err("between two instructions the stack pointer was outside every stack".into());
        }
        if (*sh).heap_growth > 0 {
            return Err(format!("heap blocks leaked by one run: {}", (*sh).heap_growth));
        }
        Ok(false)
    }
}
fn tail(sh: *mut EShared) -> String {
    unsafe {
        let t = &(*sh).tr[1];
        let l = t.len as usize;
        (l.saturating_sub(8)..l).map(|i| ev_name(t.ev[i])).collect::<Vec<_>>().join(" ")
    }
}
