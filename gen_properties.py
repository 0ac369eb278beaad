#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because JSON lines are painful to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CO = "src/coroutine.rs"; X64 = "src/arch/x86_64.rs"; X86 = "src/arch/x86.rs"; ARCH = "src/arch/mod.rs"
UW = "src/unwind.rs"; UT = "src/util.rs"; TR = "src/trap.rs"; ST = "src/stack/mod.rs"; SU = "src/stack/unix.rs"; SV = "src/stack/valgrind.rs"

p("C01", "Values cross a switch unchanged, exactly once, whatever their type",
  "Every value passed to resume, suspend, a coroutine's return, or through on_stack / on_parent_stack arrives at the other side bit-for-bit equal, in order and correctly aligned, for every type (zero-sized, smaller than, equal to or larger than a machine word, over-aligned, enum with niche, with or without a destructor). Ownership moves with it: each value is neither duplicated nor lost, so its destructor runs exactly once. The result classifies a suspension as Yield and completion as Return, and as_yield / as_return project exactly the matching variant.",
  ["inputs", "histories", "configurations"],
  "all types and values for input, yield and return, all resume/suspend sequences, both pointer widths, all feature and optimisation configurations",
  "Tests move (), i32, f64 and String a handful of times; encoding is size-, alignment- and niche-dependent and a wrong boundary shows only for particular layouts.",
  [UT, CO, X64, X86],
  [("encode_val / decode_val: inline in a word or by pointer", UT), ("resume_inner, suspend, switch_and_reset pass one word", CO)],
  observe=["Coroutine::resume", "Yielder::suspend", "on_stack", "Yielder::on_parent_stack"])

p("C02", "Resume, suspend and completion follow the coroutine state machine",
  "For every history of create / resume / suspend / return over any number of live coroutines, resume continues exactly where that coroutine last suspended, control returns to the latest resumer, and no other code runs. started() is false until the first resume (or until it is finished by other means) and true afterwards; done() is true exactly once the body has finished; creating a coroutine runs none of its code. Resuming a finished coroutine panics without running any of its code and leaves it finished.",
  ["histories", "programs", "configurations"],
  "all interleavings of operations on any number of coroutines, resumed from any context (host, other coroutines, on_stack/on_parent_stack closures, destructors)",
  "Tests run fixed two- or three-step histories on one coroutine at a time resumed from one place.",
  [CO, X64, X86],
  [("stack_ptr Option and initial_stack_ptr", CO), ("switch_and_link / switch_yield / switch_and_reset", X64)],
  state=[("stack_ptr", "where a suspended coroutine continues; None when finished", CO), ("parent link", "stack pointer of the latest resumer, stored at the stack base", X64)],
  observe=["Coroutine::resume", "started()", "done()"])

p("C03", "Every switch preserves both sides' execution context",
  "Across any resume, suspend, on_stack or on_parent_stack call, both sides keep their local variables, their stack contents and their callee-saved registers, whatever the other side did in between; the switch itself changes neither the direction flag nor floating-point control. The stack pointer is ABI-aligned whenever user code runs, at any call depth and any inlining or optimisation level. On Windows the thread information block describes the stack in use, with the values it last had there.",
  ["histories", "programs", "configurations"],
  "all register contents, call depths and switch sequences on both sides, every optimisation and feature configuration",
  "A missing clobber or a mis-ordered save only shows when the compiler happens to keep a live value in that register across that switch.",
  [X64, X86, CO],
  [("asm clobber lists and saved RBX/RBP (ESI/EBP)", X64 + ", " + X86), ("stack_init_trampoline, stack_call_trampoline", X64 + ", " + X86)],
  observe=["callee-saved registers around resume/suspend", "locals after a switch", "address alignment of locals"])

p("C04", "Dropping or force-unwinding a coroutine cleans up exactly once",
  "Dropping a coroutine or calling force_unwind destroys each object it owns exactly once, and runs none of its code other than destructors: the live objects on the stack of a suspended one, innermost first, or the closure of one never resumed. This holds even if a destructor panics, or creates, resumes or drops other coroutines, and for a finished coroutine it is a no-op. Afterwards the coroutine is finished, and only then is its stack released.",
  ["histories", "inputs", "fault_sequences"],
  "all suspension points, nestings of live objects, captured closure contents, destructor behaviours and repeated/combined drop and force_unwind calls",
  "Tests force-unwind three fixed coroutines with two flags; no nesting, ordering, panicking destructors or repeated calls.",
  [CO, UW, X64, X86],
  [("force_unwind_slow: drop_initial_obj or ForcedUnwind", CO), ("maybe_force_unwind", UW), ("Drop for Coroutine", CO)],
  observe=["destructor log", "Coroutine::done()", "stack release order"])

p("C05", "A panic in a coroutine reaches its current resumer, intact and once",
  "A panic that leaves a coroutine's body first destroys all its live objects, then continues out of the resume call that is currently running it, with the same payload and without invoking the panic hook again. The coroutine is then finished, and its stack can be reused. No other coroutine or context observes the panic, and after it is caught the thread is no longer panicking.",
  ["histories", "fault_sequences", "inputs"],
  "all panic points, payload types, nesting depths, resumers, and catch positions",
  "Tests panic once with a &str at a fixed point, one level deep, and only check the message.",
  [UW, CO],
  [("catch_unwind_at_root / maybe_resume_unwind", UW), ("resume_inner clears stack_ptr before switching", CO)],
  observe=["payload caught around resume", "destructor log", "panic hook count", "thread::panicking()"])

p("C06", "An intercepted forced unwind is reported, never accepted as success",
  "If a coroutine's code swallows the forced unwind (returning or suspending again), force_unwind panics and reports the true state: finished if the body returned, still suspended and resumable if it suspended. If the coroutine raises another panic instead, force_unwind propagates that one. If the same happens while a coroutine is being dropped, the process aborts rather than releasing a stack that still holds live objects.",
  ["histories", "fault_sequences"],
  "all bodies that catch, swallow, rethrow, replace or suspend during a forced unwind, at any nesting",
  "No test intercepts a forced unwind.",
  [CO, UW],
  [("force_unwind_slow result match and payload identity check", CO), ("abort guard in Drop", CO)],
  observe=["result of force_unwind", "started/done/resume afterwards", "process exit by abort"])

p("C07", "Unwinding is confined when coroutines own or drive one another",
  "When coroutines live on other coroutines' stacks, are moved between owners, or are resumed, unwound and dropped from other coroutines' bodies and destructors, each unwind stops at the boundary of the coroutine it was aimed at. Owned coroutines are cleaned up before the frames that own them go away. The rest of the ownership graph stays usable.",
  ["histories", "programs"],
  "all ownership and resume graphs of nested coroutines with panics and forced unwinds at any point",
  "No test nests coroutines at all.",
  [CO, UW],
  [("ForcedUnwind payload carries the identity of its target", UW), ("Drop for Coroutine runs during unwinding", CO)],
  observe=["global event trace versus reference model"])

p("C08", "on_stack runs the closure on the given stack and returns its outcome",
  "on_stack executes the closure exactly once, with its frames inside the given stack, and returns its result or propagates its panic to the caller, after which the caller continues on its own stack with its state intact. An owned stack is released exactly once, after the closure has finished; a borrowed stack remains usable. Calls nest, may suspend the enclosing coroutine from inside, and clean up when that coroutine is unwound there.",
  ["inputs", "histories", "configurations"],
  "all closure sizes/results, stack geometries, nestings with coroutines, panics and suspensions inside",
  "Tests run one String-returning closure and one panic, never nested, suspended or unwound inside.",
  [CO, X64, X86],
  [("on_stack FuncOrResult union", CO), ("stack_call_trampoline", X64 + ", " + X86)],
  observe=["address of locals in the closure", "result", "stack release events"])

p("C09", "on_parent_stack runs on the resumer's stack without disturbing it",
  "Yielder::on_parent_stack executes the closure exactly once with its frames on the stack of the context that last resumed the coroutine (not on the coroutine's stack), and returns its result to the coroutine. A panic in it unwinds into the coroutine at the call, not into the parent. Neither the parent's nor the coroutine's data is disturbed, and the coroutine can go on suspending and being resumed from the same or different parents.",
  ["histories", "inputs"],
  "all parents (host, nested coroutine, on_stack, another thread), depths, closure sizes and outcomes",
  "Tests call it twice, from one parent, with no result and no check of where it runs.",
  [CO, X64, X86],
  [("ParentStack built from the parent link", CO), ("stack_call_trampoline", X64 + ", " + X86)],
  observe=["address of locals in the closure", "canaries in parent and coroutine frames"])

p("C10", "Nothing is written or executed outside the given stack's bounds",
  "For every stack geometry allowed by the Stack trait (any aligned base, any size, owned or borrowed) and every closure size and alignment, creating, running, trapping and dropping a coroutine touches stack memory only between the stack's limit and base. The captured state is placed there correctly aligned and intact. A closure that cannot be placed is rejected by a panic that loses nothing, never by corrupting memory.",
  ["inputs", "configurations"],
  "all base addresses modulo alignment, stack sizes, closure sizes 0..limit and alignments 1..2^20, including rejected ones",
  "One test uses one 128-byte-aligned closure on a page-aligned default stack.",
  [ARCH, X64, X86, CO],
  [("allocate_obj_on_stack", ARCH), ("init_stack, setup_trap_trampoline, drop_initial_obj offsets", X64 + ", " + X86)],
  observe=["canary areas around a custom stack", "address of captured state"])

p("C11", "DefaultStack gives the requested capacity, a guard page, and no leaks",
  "For every requested size, DefaultStack::new either returns an error (or panics on arithmetic overflow) leaving nothing mapped, or a stack whose memory just below its base is readable and writable for at least the requested size (and at least the documented minimum), with inaccessible memory at its limit so that overflow always faults. base and limit are aligned and bound exactly the mapping. Dropping it unmaps exactly that mapping, including when allocation fails halfway.",
  ["inputs", "fault_sequences", "histories"],
  "all sizes 0..usize::MAX, all allocation/drop orders, allocation failures at either step",
  "Tests only use 1 MiB stacks and never check mappings, guard pages or failures.",
  [SU, ST],
  [("DefaultStack::new mmap + mprotect", SU), ("Drop for DefaultStack munmap", SU)],
  observe=["/proc/self/maps", "faults on guard access", "returned errors"])

p("C12", "A stack is handed back intact or released once, never while live",
  "into_stack returns the very stack the coroutine was created with, only if the coroutine is finished; otherwise it panics and the coroutine is cleaned up as on drop. A returned or borrowed stack can host new coroutines any number of times with no influence from earlier ones, however those ended (return, panic, forced unwind, reset, trap). A stack is released exactly once, and its memory is never released or reused while live objects remain on it.",
  ["histories", "inputs"],
  "all sequences of create / finish / extract / reuse / drop over owned and borrowed stacks",
  "One test reuses one stack once after a trap.",
  [CO, ST],
  [("into_stack assert + ptr::read/forget", CO), ("impl Stack for &mut S", ST)],
  observe=["identity and release events of instrumented stacks"])

p("C13", "A trap can be turned into a clean return or panic at any point",
  "When code on a coroutine's stack traps at any point and depth (bad memory access, illegal instruction, stack overflow) and the trap handler applies the prepared registers, the given function runs with its captured state intact on the reset stack with its full size available. The latest resumer then receives its result as Return, or its panic out of resume; the resumer's state is preserved. The coroutine is then finished and its stack reusable, including for further traps.",
  ["inputs", "histories", "crash_points"],
  "all trap kinds and depths, handler closure sizes/alignments, result types, resumers and stack geometries, repeated traps",
  "Tests trap in the first frame of the first resume only, with a capture-less handler returning i32.",
  [TR, X64, X86, ARCH],
  [("setup_trap_handler + setup_trap_trampoline", TR), ("switch_and_reset", X64 + ", " + X86)],
  observe=["resume result after a SIGSEGV/SIGILL/SIGBUS", "handler captures", "registers of the resumer"])

p("C14", "The trap-bounds predicate is exact",
  "For a coroutine on any stack (default, custom or borrowed), the trap handler's stack_ptr_in_bounds(p) is true exactly when limit <= p < base of the coroutine's own stack, guard pages included, so it holds for code running on the coroutine's stack and for a stack overflow, and not for code running on its parent's stack or on another stack. The answer does not depend on the coroutine's state or on where it was moved.",
  ["inputs", "histories"],
  "all addresses (boundaries in particular), all stack kinds and coroutine states",
  "Tests only assert it positively, for one in-range pointer.",
  [TR, CO, ST, SU],
  [("stack_ptr_in_bounds", TR), ("trap_handler() captures base and limit", CO), ("&mut S forwards base and limit", ST)],
  observe=["CoroutineTrapHandler::stack_ptr_in_bounds"])

p("C15", "Backtraces link every coroutine to the context that last resumed it",
  "A backtrace taken at any point, in any nest of coroutines, on_stack and on_parent_stack calls, lists the active frames of every context innermost first and continues from each coroutine into the frames that last resumed it, down to the outermost caller. The frame-pointer chain links the contexts in the same way, and debuggers can follow the unwind information too. Suspended or previous resumers never appear.",
  ["programs", "histories", "configurations"],
  "all nests of contexts and call depths, after any history of switches and different resumers",
  "Tests check that one function name occurs somewhere in the trace.",
  [X64, X86],
  [("CFI in stack_init_trampoline and stack_call_trampoline", X64 + ", " + X86), ("parent link doubles as a frame record", X64)],
  observe=["_Unwind_Backtrace", "frame-pointer walk", "gdb backtrace"])

p("C16", "Without the unwind feature nothing unwinds across or into a coroutine",
  "Built without unwinding support, a panic that would leave a coroutine body, an on_stack / on_parent_stack closure or a trap handler function aborts the process and never returns to the resumer. force_unwind on a suspended coroutine panics and leaves it suspended and resumable, while dropping one aborts. Everything that needs no unwinding (values, completion, never-started or finished coroutines, panics caught inside) behaves as with the feature.",
  ["histories", "fault_sequences", "configurations"],
  "all histories with panics and drops at any point, in the no-unwind configuration",
  "The no-unwind test configurations skip every test that panics or drops a suspended coroutine.",
  [UW, CO],
  [("abort guard in catch_unwind_at_root", UW), ("cfg(not(unwind)) branch of force_unwind_slow, Drop guard", CO)],
  observe=["exit by SIGABRT in a child process", "state after a failed force_unwind"])

p("C17", "force_reset finishes a coroutine without running anything on its stack",
  "force_reset on a coroutine in any state marks it finished without running any of its code or destructors and without touching other coroutines. Afterwards resume panics, force_unwind and drop do nothing more than release the stack, and the stack can be extracted and reused.",
  ["histories"],
  "all states and depths at which the reset happens, followed by any operations",
  "No test calls force_reset.",
  [CO],
  [("force_reset", CO)],
  observe=["destructor log", "done()", "reuse of the stack"])

p("C18", "A coroutine can be resumed, unwound and dropped on any thread",
  "When a coroutine's contents may be sent, moving it between threads between operations changes nothing: each resume continues it on the calling thread and returns (or panics) to that thread, and on_parent_stack and backtraces use that thread's stack. Different threads can run different coroutines at the same time without influencing one another. Completion, unwinding and stack release work from whichever thread performs them.",
  ["schedules", "histories"],
  "all assignments of operations to threads, relative stack addresses, and concurrent use of distinct coroutines",
  "Tests create a coroutine in a thread but never resume one from two threads.",
  [CO, X64, X86, SU],
  [("parent link rewritten on each resume", X64), ("no thread-local state in the switch", CO)],
  observe=["event trace versus model", "thread ids"])

p("C19", "The type system rejects exactly the unsound uses of the API",
  "Client code without unsafe cannot send a Coroutine or a borrowed Yielder to another thread, smuggle a Yielder through on_parent_stack, let a coroutine capture or exchange non-'static borrows (at creation or by subtyping), keep a Yielder beyond its body, duplicate or share a stack or use it elsewhere while a coroutine holds it, or call the unsafe operations: such programs do not compile. Legitimate uses (Sync sharing when the stack is Sync, sendable default stacks, covariance in yield and return types, contravariance in input, values of any 'static type, borrowed closures and results with on_stack) do compile.",
  ["programs"],
  "all client programs; generated from a grammar of capabilities, bounds, lifetimes and uses",
  "One compile_fail doctest and one Send/Sync assertion for DefaultStack.",
  [CO, ST, TR],
  [("PhantomData markers, 'static and Send bounds, unsafe fn / unsafe trait", CO)],
  observe=["rustc accepts or rejects a generated program"])

p("C20", "Under Valgrind every live default stack is registered, exactly once",
  "While a DefaultStack is alive, Valgrind knows exactly one stack registration covering its memory, made when it is created and removed when it is dropped, whatever the order of creation and destruction and including failed allocations. Programs using coroutines in any way run under Valgrind without errors being reported that come from stack switching. Outside Valgrind the requests change nothing.",
  ["histories", "inputs"],
  "all orders of creation, switching, unwinding and destruction of stacks of any size, on both pointer widths",
  "The tests never run under Valgrind, where the requests are no-ops.",
  [SV, SU],
  [("ValgrindStackRegistration::new / Drop", SV), ("field order and ManuallyDrop in DefaultStack", SU)],
  observe=["Valgrind's own stack registration log", "memcheck error summary"])

with open(os.path.join(os.path.dirname(__file__), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
