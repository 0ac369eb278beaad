"""C19: generated client programs; the oracle says whether each must be accepted or rejected.

A program is decoded from a tape of choices (index 0 = simplest). Programs that must be rejected come with a
twin that differs only in the unsound part and must be accepted, so that a rejection means what it should.
Programs are compiled in batches, one module each, and compiler errors are attributed to modules by line;
only programs whose batch verdict is unexpected are compiled alone, and that verdict counts.
"""
import json, os, random, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from build_lib import BUILD, V, HarnessError, X64, X86, STABLE, _cfg, cargo_build, clean_env

REPLAYS = os.path.join(V, "replays")

LIFETIME = {"E0597", "E0373", "E0521", "E0716", "E0310", "E0491", "E0477", "E0515", "E0621", "E0700", "lifetime", "E0312", "E0495", "E0623", "E0308", "E0712", "E0713"}
BORROW = {"E0499", "E0502", "E0505", "E0506", "E0503", "E0382", "E0597", "E0515", "E0716", "E0713"}
# errors that have no code of their own
NOCODE = [("lifetime", "lifetime"), ("borrowed data escapes", "lifetime"), ("one type is more general", "lifetime"), ("not general enough", "lifetime"), ("cannot be sent between threads", "E0277"),
          ("cannot be shared between threads", "E0277"), ("cannot construct", "E0451"), ("future cannot be", "E0277")]

PRELUDE = """
#![allow(unused, static_mut_refs)]
extern crate corosensei;
pub mod prelude {
    pub use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
    pub use corosensei::stack::{Stack, StackPointer};
    pub use corosensei::trap::CoroutineTrapHandler;
    pub use std::cell::{Cell, RefCell};
    pub use std::rc::Rc;
    pub use std::sync::{Arc, Mutex};
    @DEFAULT@
    pub struct SyncStack(pub u8);
    pub struct CellStack(pub Cell<u8>);
    pub struct RcStack(pub Rc<u8>);
    pub struct GuardStack(pub std::sync::MutexGuard<'static, u8>);
    unsafe impl Stack for SyncStack { fn base(&self) -> StackPointer { todo!() } fn limit(&self) -> StackPointer { todo!() } }
    unsafe impl Stack for CellStack { fn base(&self) -> StackPointer { todo!() } fn limit(&self) -> StackPointer { todo!() } }
    unsafe impl Stack for RcStack { fn base(&self) -> StackPointer { todo!() } fn limit(&self) -> StackPointer { todo!() } }
    unsafe impl Stack for GuardStack { fn base(&self) -> StackPointer { todo!() } fn limit(&self) -> StackPointer { todo!() } }
    pub fn mk<T: 'static>() -> T { todo!() }
    pub fn is_send<T: Send>() {}
    pub fn is_sync<T: Sync>() {}
    pub fn is_static<T: 'static>(_: &T) {}
    pub fn take<T>(_: T) {}
    /// What `Send` wrappers written by users look like.
    pub struct SendIt<T>(pub T);
    unsafe impl<T> Send for SendIt<T> {}
    pub struct W<T>(pub T);
    pub struct N<T> { pub a: T, pub b: u8 }
    pub enum E<T> { A(T), B }
}
"""


class Tape:
    def __init__(self, rng=None, given=None):
        self.rng, self.given, self.out = rng, given, []

    def draw(self, n):
        """0..n-1"""
        if n <= 1:
            return 0
        if self.given is not None:
            i = len(self.out)
            v = self.given[i] % n if i < len(self.given) else 0
        else:
            v = self.rng.randrange(n)
        self.out.append(v)
        return v

    def pick(self, xs):
        return xs[self.draw(len(xs))]


class Ty:
    def __init__(self, s, send=True, sync=True):
        self.s, self.send, self.sync = s, send, sync


LEAVES = [Ty("u32"), Ty("()"), Ty("u8"), Ty("String"), Ty("u128"), Ty("[u64; 40]"), Ty("&'static str"), Ty("Rc<u8>", False, False), Ty("*mut u8", False, False), Ty("Cell<u8>", True, False),
          Ty("std::sync::MutexGuard<'static, u8>", False, True), Ty("Box<dyn Fn()>", False, False), Ty("Box<dyn Fn() + Send>", True, False), Ty("std::sync::mpsc::Receiver<u8>", True, False),
          Ty("fn(Rc<u8>) -> Cell<u8>"), Ty("Option<std::num::NonZeroU8>"), Ty("std::thread::JoinHandle<u8>"), Ty("std::sync::atomic::AtomicU8")]


def ty(t, depth=2):
    k = t.draw(14) if depth else 0
    if k < 7:
        l = t.pick(LEAVES)
        return Ty(l.s, l.send, l.sync)
    a = ty(t, depth - 1)
    if k == 7:
        return Ty("Vec<%s>" % a.s, a.send, a.sync)
    if k == 8:
        b = ty(t, depth - 1)
        return Ty("(%s, %s)" % (a.s, b.s), a.send and b.send, a.sync and b.sync)
    if k == 9:
        return Ty("Option<%s>" % a.s, a.send, a.sync)
    if k == 10:
        return Ty("Arc<%s>" % a.s, a.send and a.sync, a.send and a.sync)
    if k == 11:
        return Ty("RefCell<%s>" % a.s, a.send, False)
    if k == 12:
        return Ty("Mutex<%s>" % a.s, a.send, a.send)
    return Ty("&'static %s" % ("(%s)" % a.s if a.s.startswith("dyn") else a.s), a.sync, a.sync)


class Gen:
    """One program: `items` (module contents), `want` (None: accept, else error codes), `twin` (accepted variant)."""

    def __init__(self, t, nodefault):
        self.t, self.nodefault = t, nodefault

    def stack(self, borrowed=True):
        xs = [Ty("SyncStack"), Ty("CellStack", True, False), Ty("RcStack", False, False), Ty("GuardStack", False, True)]
        if not self.nodefault:
            xs = [Ty("DefaultStack")] + xs
        s = self.t.pick(xs)
        if borrowed and self.t.draw(5) == 4:
            return Ty("&'static mut " + s.s, s.send, s.sync)
        return Ty(s.s, s.send, s.sync)

    def co_ty(self, s=None):
        t = self.t
        s = s or self.stack()
        i, y, r = ty(t), ty(t), ty(t)
        return "Coroutine<%s, %s, %s, %s>" % (i.s, y.s, r.s, s.s), s

    def wrap_ty(self, s):
        k = self.t.draw(7)
        return [s, "Option<%s>" % s, "Vec<%s>" % s, "Box<%s>" % s, "(u8, %s)" % s, "W<%s>" % s, "N<%s>" % s][k]

    def wrap_val(self, v):
        k = self.t.draw(9)
        return [v, "Some(%s)" % v, "vec![%s]" % v, "Box::new(%s)" % v, "(1u8, %s)" % v, "W(%s)" % v, "N { a: %s, b: 0 }" % v, "E::A(%s)" % v, "{ let v = %s; move || v }" % v][k]

    def new_co(self, s, i, y, r, body, mv=True):
        """An expression creating a coroutine; the body may use `y` and `i`."""
        m = "move " if mv else ""
        if s == "DefaultStack" and self.t.draw(2):
            return "Coroutine::<%s, %s, %s>::new(%s|y, i| { %s })" % (i, y, r, m, body)
        return "Coroutine::<%s, %s, %s, %s>::with_stack(mk::<%s>(), %s|y, i| { %s })" % (i, y, r, s, s, m, body)


# Each template returns (class, items, want, twin).
def t_co_auto(g):
    t = g.t
    co, s = g.co_ty()
    k = t.draw(5)
    if k == 0:
        w = g.wrap_ty(co)
        return "coroutine is never Send", "fn f() { is_send::<%s>(); }" % w, {"E0277"}, "fn f() { is_send::<SendIt<%s>>(); }" % w
    if k == 1:
        w = g.wrap_ty(co)
        if s.sync:
            return "coroutine is Sync with a Sync stack", "fn f() { is_sync::<%s>(); }" % w, None, None
        return "coroutine is not Sync with a !Sync stack", "fn f() { is_sync::<%s>(); }" % w, {"E0277"}, "fn f() { is_send::<SendIt<%s>>(); }" % w
    if k == 2:
        w = g.wrap_ty("&'static " + co)
        if s.sync:
            return "shared coroutine reference is Send with a Sync stack", "fn f() { is_send::<%s>(); }" % w, None, None
        return "shared coroutine reference is not Send with a !Sync stack", "fn f() { is_send::<%s>(); }" % w, {"E0277"}, "fn f() { is_send::<SendIt<%s>>(); }" % w
    if k == 3:
        w = g.wrap_ty("&'static mut " + co)
        return "coroutine is never Send by exclusive reference", "fn f() { is_send::<%s>(); }" % w, {"E0277"}, "fn f() { is_send::<SendIt<%s>>(); }" % w
    w = g.wrap_ty("Arc<Mutex<%s>>" % co)
    return "coroutine is not Send in a mutex", "fn f() { is_send::<%s>(); }" % w, {"E0277"}, "fn f() { is_send::<SendIt<%s>>(); }" % w


def t_generic_auto(g):
    """Generic client code: bounds are checked for every type at once."""
    k = g.t.draw(4)
    if k == 0:
        return "Sync for every type of values", "fn f<I, Y, R, S: Stack + Sync>() { is_sync::<Coroutine<I, Y, R, S>>(); is_send::<&'static Coroutine<I, Y, R, S>>() } ".replace("&'static ", "&"), None, None
    if k == 1:
        b = g.t.pick(["Send", "Sync", "Send + Sync"])
        b2 = g.t.pick(["Send + Sync", "Copy + Send", "Send", "Sync"])
        return "never Send whatever the bounds", "fn f<I: %s, Y: %s, R: %s, S: Stack + Send + Sync>() { is_send::<Coroutine<I, Y, R, S>>() }" % (b, b2, b), {"E0277"}, "fn f<I: %s, Y: %s, R: %s, S: Stack + Send + Sync>() { is_sync::<Coroutine<I, Y, R, S>>() }" % (b, b2, b)
    if k == 2:
        return "not Sync without a Sync stack", "fn f<I: Sync, Y: Sync, R: Sync, S: Stack + Send>() { is_sync::<Coroutine<I, Y, R, S>>() }", {"E0277"}, "fn f<I: Sync, Y: Sync, R: Sync, S: Stack + Sync>() { is_sync::<Coroutine<I, Y, R, S>>() }"
    b = g.t.pick(["Send", "Sync", "Send + Sync", "Copy + Send + Sync"])
    q = g.t.pick(["&'static Yielder<I, Y>", "&'static &'static Yielder<I, Y>", "Option<&'static Yielder<I, Y>>"])
    return "borrowed yielder is never Send whatever the bounds", "fn f<I: %s + 'static, Y: %s + 'static>() { is_send::<%s>() }" % (b, b, q), {"E0277"}, "fn f<I: %s + 'static, Y: %s + 'static>() { is_send::<SendIt<%s>>() }" % (b, b, q)


def t_y_auto(g):
    t = g.t
    y = "Yielder<%s, %s>" % (ty(t).s, ty(t).s)
    if t.draw(3) == 0:
        return "yielder is not Sync", "fn f() { is_sync::<%s>(); }" % y, {"E0277"}, "fn f() { is_send::<SendIt<%s>>(); }" % y
    w = g.wrap_ty(t.pick(["&'static %s", "&'static %s", "&'static &'static %s", "Arc<&'static %s>", "Mutex<&'static %s>", "Rc<&'static %s>"]) % y)
    return "borrowed yielder is never Send", "fn f() { is_send::<%s>(); }" % w, {"E0277"}, "fn f() { is_send::<SendIt<%s>>(); }" % w


def t_stack_auto(g):
    k = g.t.draw(4)
    if g.nodefault:
        return "custom stacks as declared", "fn f() { is_send::<&mut SyncStack>(); is_sync::<&mut SyncStack>(); }", None, None
    return "default stack is Send and Sync", "fn f() { is_%s::<%s>(); }" % (["send", "sync"][k & 1], g.wrap_ty(["DefaultStack", "&'static mut DefaultStack"][k >> 1])), None, None


def t_send_prog(g):
    """A whole program moves a coroutine to another thread."""
    t = g.t
    s = g.stack(borrowed=False)
    i, y, r = ty(t), ty(t), ty(t)
    make = g.new_co(s.s, i.s, y.s, r.s, t.pick(["mk()", "y.suspend(mk()); mk()", "drop(i); mk()"]))
    how = [
        "std::thread::spawn(move || drop(w));",
        "std::thread::spawn(move || drop(w)).join().unwrap();",
        "std::thread::scope(|s| { s.spawn(move || drop(w)); });",
        "let (tx, rx) = std::sync::mpsc::channel(); tx.send(w).ok(); std::thread::spawn(move || drop(rx.recv()));",
        "let m = Arc::new(Mutex::new(w)); std::thread::spawn(move || drop(m.lock()));",
        "let f: Box<dyn FnOnce() + Send> = Box::new(move || drop(w)); f();",
        "fn task() -> impl Sized { 1 } let f = async move { drop(w) }; fn run<T: Send>(_: T) {} run(f);",
        "std::thread::Builder::new().spawn(move || { let w = w; }).unwrap();",
    ][t.draw(8)]
    w = g.wrap_val("co")
    pre = t.pick(["", "co.resume(mk());", "co.done();"])
    items = "fn f() { let mut co = %s; %s let w = %%s; %s }" % (make.replace("%", "%%"), pre, how)
    return "sending a coroutine to a thread", items % w, {"E0277"}, items % ("SendIt(%s)" % w)


def t_share_prog(g):
    t = g.t
    s = g.stack(borrowed=False)
    i, y, r = ty(t), ty(t), ty(t)
    make = g.new_co(s.s, i.s, y.s, r.s, "mk()")
    use = t.pick(["take(co.done())", "take(co.started())", "take(co.trap_handler())"])
    items = "fn f() { let mut co = %s; std::thread::scope(|s| { s.spawn(|| %s); %s }); }" % (make, use, t.pick(["", "s.spawn(|| take(co.done()));", "take(co.started());"]))
    if s.sync:
        return "sharing a coroutine between threads with a Sync stack", items, None, None
    return "sharing a coroutine between threads with a !Sync stack", items, {"E0277"}, "fn f() { let mut co = %s; (|| { let s = 1; (|| %s)(); })(); }" % (make, use)


def t_mutref_prog(g):
    t = g.t
    s = g.stack(borrowed=False)
    i, y, r = ty(t), ty(t), ty(t)
    make = g.new_co(s.s, i.s, y.s, r.s, "mk()")
    use = t.pick(["take(co.resume(mk()))", "co.force_unwind()", "take(std::mem::replace(&mut co, mk()))"])
    items = "fn f() { let mut co = %s; %%s }" % make.replace("%", "%%")
    return "using a coroutine exclusively from another thread", items % ("std::thread::scope(|s| { s.spawn(|| { %s; }); });" % use), {"E0277"}, items % ("(|| { %s; })();" % use)


def t_yielder_thread(g):
    t = g.t
    s = g.stack(borrowed=False)
    i, y, r = ty(t), ty(t), ty(t)
    use = t.pick(["take(y.suspend(mk()))", "drop(y)", "y.on_parent_stack(|| ())", "take(&y)"])
    how, twin = [("std::thread::scope(|s| { s.spawn(|| { %s; }); });", "(|| { %s; })();"), ("std::thread::scope(|s| { s.spawn(move || { %s; }); });", "(move || { %s; })();"),
                 ("let v = Mutex::new(y); std::thread::scope(|s| { s.spawn(|| { let y = *v.lock().unwrap(); %s; }); });", "let v = Mutex::new(y); (|| { let y = *v.lock().unwrap(); %s; })();")][t.draw(3)]
    mk = lambda b: "fn f() { let mut co = %s; }" % g_fixed(g, s.s, i.s, y.s, r.s, b + " mk()")
    return "yielder used from another thread", mk(how % use), {"E0277", "E0521", "E0597"}, mk(twin % use)


def g_fixed(g, s, i, y, r, body):
    return "Coroutine::<%s, %s, %s, %s>::with_stack(mk::<%s>(), move |y, i| { %s })" % (i, y, r, s, s, body)


def t_parent(g):
    """What may be captured by on_parent_stack."""
    t = g.t
    s = g.stack(borrowed=False)
    i, y, r = ty(t), ty(t), ty(t)
    mk = lambda b: "fn f() { let mut co = %s; }" % g_fixed(g, s.s, i.s, y.s, r.s, b + " mk()")
    k = t.draw(6)
    res = t.pick(["()", "5u64", "String::new()"])
    if k <= 1:
        use = t.pick(["take(y.suspend(mk()))", "y.on_parent_stack(|| ())", "drop(y)"])
        via = t.draw(6)
        if via == 0:
            return "yielder captured by on_parent_stack", mk("y.on_parent_stack(|| { %s; %s });" % (use, res)), {"E0277"}, mk("(|| { %s; %s })();" % (use, res))
        if via == 1:
            return "yielder moved into on_parent_stack", mk("let w = %s; y.on_parent_stack(move || { drop(w); %s });" % (g.wrap_val("y"), res)), {"E0277"}, mk("let w = %s; y.on_parent_stack(|| ()); (move || { drop(w); %s })();" % (g.wrap_val("y"), res))
        if via == 2:
            return "closure over the yielder captured by on_parent_stack", mk("let c = || { %s; }; y.on_parent_stack(|| { c(); });" % use), {"E0277"}, mk("let c = || { %s; }; (|| { c(); })();" % use)
        if via == 3:
            return "boxed closure over the yielder captured by on_parent_stack", mk("let c: Box<dyn Fn() + '_> = Box::new(|| { %s; }); y.on_parent_stack(|| { c(); });" % use), {"E0277"}, mk("let c: Box<dyn Fn() + '_> = Box::new(|| { %s; }); c();" % use)
        if via == 4:
            return "yielder through shared state in on_parent_stack", mk("let c = Mutex::new(y); y.on_parent_stack(|| { let y = *c.lock().unwrap(); %s; });" % use), {"E0277"}, mk("let c = Mutex::new(y); (|| { let y = *c.lock().unwrap(); %s; })();" % use)
        return "yielder through a local in on_parent_stack", mk("let c = Cell::new(Some(y)); y.on_parent_stack(|| { let y = c.get().unwrap(); %s; });" % use), {"E0277"}, mk("let c = Cell::new(Some(y)); (|| { let y = c.get().unwrap(); %s; })();" % use)
    x = ty(t)
    if k == 2:
        mv = mk("let x: %s = mk(); y.on_parent_stack(move || { take(x); %s });" % (x.s, res))
        if x.send:
            return "Send value moved into on_parent_stack", mv, None, None
        return "!Send value moved into on_parent_stack", mv, {"E0277"}, mk("let x: %s = mk(); y.on_parent_stack(move || { %s }); take(x);" % (x.s, res))
    if k == 3:
        rf = mk("let x: %s = mk(); y.on_parent_stack(|| { take(&x); %s }); take(x);" % (x.s, res))
        if x.sync:
            return "Sync local borrowed by on_parent_stack", rf, None, None
        return "!Sync local borrowed by on_parent_stack", rf, {"E0277"}, mk("let x: %s = mk(); y.on_parent_stack(|| { %s }); take(&x);" % (x.s, res))
    if k == 4:
        rf = mk("let mut x: %s = mk(); y.on_parent_stack(|| { x = mk(); %s }); take(x);" % (x.s, res))
        if x.send:
            return "Send local changed by on_parent_stack", rf, None, None
        return "!Send local changed by on_parent_stack", rf, {"E0277"}, mk("let mut x: %s = mk(); y.on_parent_stack(|| { %s }); x = mk(); take(x);" % (x.s, res))
    return "on_parent_stack returns any type", mk("let v: %s = y.on_parent_stack(|| mk()); take(v);" % x.s), None, None


def t_generic_parent(g):
    """Generic wrappers around on_parent_stack must ask for Send."""
    b = g.t.pick(["", " + 'static", " + Sync", " + Copy", " + Clone"])
    src = "fn f<I, Y, F: FnOnce() -> R%s, R>(y: &Yielder<I, Y>, f: F) -> R { y.on_parent_stack(f) }"
    return "generic wrapper of on_parent_stack", src % b, {"E0277"}, src % (b + " + Send")


NONSTATIC = [("&'a u32", "&x"), ("&'a mut u32", "&mut x"), ("Option<&'a u32>", "Some(&x)"), ("Box<dyn Fn() + 'a>", "Box::new(|| take(&x))"), ("std::slice::Iter<'a, u32>", "std::slice::from_ref(&x).iter()"), ("(u8, &'a u32)", "(1, &x)"), ("W<&'a u32>", "W(&x)")]


def t_capture(g):
    t = g.t
    s = g.stack(borrowed=False)
    k = t.draw(4)
    if k == 0:
        # capture of a borrow of a local
        val = t.pick(NONSTATIC)[1]
        use = t.pick(["take(&b)", "drop(b)"])
        body = t.pick(["", "y.suspend(()); "])
        src = lambda v: "fn f() { let mut x: u32 = 1; let b = %s; let mut co = %s; co.resume(()); }" % (v, g_fixed(g, s.s, "()", "()", "()", body + use))
        return "captured borrow of a local", src(val), LIFETIME, src(t.pick(["Box::leak(Box::new(5u32))", "Box::new(x)", "Rc::new(x)", "\"s\""]))
    if k == 1:
        # by-reference capture without move
        src = lambda mv: "fn f() { let x: String = String::new(); let mut co = Coroutine::<(), (), (), %s>::with_stack(mk::<%s>(), %s|y, i| { y.suspend(()); take(&x); }); co.resume(()); }" % (s.s, s.s, mv)
        return "local captured by reference", src(""), LIFETIME, src("move ")
    if k == 2:
        val = t.pick(NONSTATIC)
        p = t.draw(3)
        src = lambda lt: "fn f<'a>(m: &'a u32) { Coroutine::<%s, %s>::with_stack(mk::<%s>(), |y, i| todo!()); }" % (", ".join((val[0].replace("'a", lt) if q == p else "()") for q in range(3)), s.s, s.s)
        name = ["input", "yield", "return"][p]
        return "non-'static %s type" % name, src("'a"), LIFETIME, src("'static")
    which = t.draw(4)
    bounds = ["'static"] * 4
    bounds[which] = "Sized"
    src = lambda bs: "fn f<I: %s, Y: %s, R: %s, F: FnOnce(&Yielder<I, Y>, I) -> R + %s>(f: F) -> Coroutine<I, Y, R, %s> { Coroutine::with_stack(mk(), f) }" % (*bs, s.s)
    return "generic constructor without 'static on " + ["input", "yield", "return", "closure"][which], src(bounds), {"E0310"}, src(["'static"] * 4)


def t_escape(g):
    """A yielder must not outlive its body or enter another coroutine."""
    t = g.t
    s = g.stack(borrowed=False)
    k = t.draw(8)
    if k == 0:
        return "yielder returned", "fn f() { let co = Coroutine::<(), (), &'static Yielder<(), ()>, %s>::with_stack(mk::<%s>(), |y, i| %s); }" % (s.s, s.s, "y"), LIFETIME, "fn f() { let co = Coroutine::<(), (), &'static Yielder<(), ()>, %s>::with_stack(mk::<%s>(), |y, i| %s); }" % (s.s, s.s, "mk()")
    if k == 1:
        w = t.pick(["Some(y)", "y"])
        tyy = {"Some(y)": "Option<&'static Yielder<(), u8>>", "y": "&'static Yielder<(), u8>"}[w]
        src = "thread_local!(static T: Cell<Option<%s>> = Cell::new(None)); fn f() { let co = %s; }"
        return "yielder kept in a thread-local", src % (tyy, g_fixed(g, s.s, "()", "u8", "()", "T.with(|c| c.set(Some(%s)));" % w)), LIFETIME, src % (tyy, g_fixed(g, s.s, "()", "u8", "()", "T.with(|c| c.set(Some(mk())));"))
    if k == 2:
        use = t.pick(["take(y.suspend(mk()))", "y.on_parent_stack(|| ())", "take(y)"])
        s2 = g.stack(borrowed=False)
        inner = lambda u: "let z = y; let mut co2 = Coroutine::<(), u8, (), %s>::with_stack(mk::<%s>(), move |y2, i2| { %s; }); co2.resume(());" % (s2.s, s2.s, u)
        return "outer yielder used inside an inner coroutine", "fn f() { let co = %s; }" % g_fixed(g, s.s, "()", "u8", "()", inner("let y = z; " + use)), LIFETIME, "fn f() { let co = %s; }" % g_fixed(g, s.s, "()", "u8", "()", inner("let y = y2; " + use))
    if k == 3:
        src = "fn f() { let slot = Rc::new(Cell::new(None)); let s2 = slot.clone(); let mut co = %s; co.resume(()); take(slot.get()); }"
        return "yielder put into shared state", src % g_fixed(g, s.s, "()", "u8", "()", "s2.set(Some(y));"), LIFETIME, src % g_fixed(g, s.s, "()", "u8", "()", "s2.set(Some(1));")
    if k == 4:
        return "yielder of a body with a chosen lifetime", "fn f<'a: 'static>() { } fn g() { let c: fn(&'static Yielder<(), ()>, ()) = |y, i| (); let co: Coroutine<(), (), (), %s> = Coroutine::with_stack(mk(), c); }" % s.s, {"E0308", "E0277", "lifetime", "E0631"}, "fn g() { let c: fn(&Yielder<(), ()>, ()) = |y, i| (); let co: Coroutine<(), (), (), %s> = Coroutine::with_stack(mk(), c); }" % s.s
    if k == 5:
        src = "fn f() { let mut co = %s; }"
        return "yielder yielded", src % ("Coroutine::<(), &'static Yielder<(), u8>, (), %s>::with_stack(mk::<%s>(), |y, i| { let y2: &Yielder<(), &'static Yielder<(), u8>> = y; y2.suspend(unsafe_cast(y)); }); fn unsafe_cast<'a>(y: &'a Yielder<(), &'static Yielder<(), u8>>) -> &'a Yielder<(), u8> { todo!() }" % (s.s, s.s)), LIFETIME, src % ("Coroutine::<(), &'static Yielder<(), u8>, (), %s>::with_stack(mk::<%s>(), |y, i| { y.suspend(mk()); })" % (s.s, s.s))
    if k == 6:
        use = t.pick(["take(y.suspend(mk()))", "drop(y)"])
        return "detached thread holding the yielder", "fn f() { let co = %s; }" % g_fixed(g, s.s, "()", "u8", "()", "std::thread::spawn(move || { %s; });" % use), {"E0277", "E0521", "E0597"}, "fn f() { let co = %s; }" % g_fixed(g, s.s, "()", "u8", "()", "(move || { %s; })();" % use)
    # the same inside on_stack is fine
    use = t.pick(["take(y.suspend(mk()))", "y.on_parent_stack(|| ())"])
    return "yielder used inside on_stack", "fn f() { let co = %s; }" % g_fixed(g, s.s, "()", "u8", "()", "on_stack(mk::<%s>(), || { %s; });" % (g.stack(borrowed=False).s, use)), None, None


def t_borrowed_stack(g):
    t = g.t
    s = g.stack(borrowed=False).s
    body = t.pick(["()", "y.suspend(());"])
    co = "Coroutine::with_stack(&mut s, |y: &Yielder<(), ()>, ()| { %s })" % body
    use = t.pick(["co.resume(());", "co.done();", "co.force_unwind();", "drop(co);", "co.into_stack();"])
    clash = t.pick(["on_stack(&mut s, || ());", "let mut c2 = Coroutine::with_stack(&mut s, |y: &Yielder<(), ()>, ()| ());", "drop(s);", "s.base();", "s = mk();", "let r = &mut s;", "let s2 = s;", "take(&s);"])
    k = t.draw(7)
    tmpl = "fn f() { let mut s: %s = mk(); let mut co = %s; %%s }" % (s, co)
    if k <= 2:
        return "stack used while a coroutine borrows it", tmpl % (clash + use), BORROW, tmpl % (use.replace("drop(co)", "co.done(); drop(co)") + ("" if "co)" in use or "into" in use else "drop(co);") + clash)
    if k == 3:
        # implicit drop of the coroutine is a use too
        return "stack used before the coroutine is dropped", tmpl % clash, BORROW, tmpl % ("drop(co);" + clash)
    if k == 4:
        return "coroutine outlives the stack it borrows", "fn f() { let mut co; { let mut s: %s = mk(); co = %s; %s } %s }" % (s, co, "", use), BORROW, "fn f() { let mut s: %s = mk(); let mut co; { co = %s; } co.resume(()); drop(co); drop(s) }" % (s, co)
    if k == 5:
        return "coroutine returned with a local stack", "fn f() -> Coroutine<(), (), (), &'static mut %s> { let mut s: %s = mk(); %s }" % (s, s, co), LIFETIME | BORROW, "fn f() -> Coroutine<(), (), (), &'static mut %s> { let mut s: &'static mut %s = mk(); %s }" % (s, s, co.replace("&mut s", "s"))
    n = 2 + t.draw(3)
    return "a stack borrowed by one coroutine after another", "fn f() { let mut s: %s = mk(); %s on_stack(&mut s, || ()); }" % (s, " ".join("{ let mut co = %s; co.resume(()); %s }" % (co, "let r: &mut %s = co.into_stack();" % s if t.draw(2) else "") for _ in range(n))), None, None


def t_unsafe(g):
    t = g.t
    co, s = g.co_ty(g.stack(borrowed=False))
    k = t.draw(7)
    if k == 0:
        src = "fn f(co: &mut %s) { %%s }" % co
        return "force_reset without unsafe", src % "co.force_reset();", {"E0133"}, src % "unsafe { co.force_reset() };"
    if k == 1:
        src = "fn f(co: &%s) { %%s }" % co
        return "setup_trap_handler without unsafe", src % "co.trap_handler().setup_trap_handler(|| mk());", {"E0133"}, src % "unsafe { co.trap_handler().setup_trap_handler(|| mk()) };"
    if k == 2:
        src = "struct S; %s Stack for S { fn base(&self) -> StackPointer { todo!() } fn limit(&self) -> StackPointer { todo!() } }"
        return "Stack implemented without unsafe", src % "impl", {"E0200"}, src % "unsafe impl"
    if k == 3:
        src = "fn f(co: &mut %s) { %%s }" % co
        fld = t.pick(["stack", "stack_ptr", "initial_stack_ptr", "drop_fn"])
        return "access to a private field", src % ("let x = &mut co.%s;" % fld), {"E0616", "E0609"}, src % "let x = &mut co.done();"
    if k == 4:
        # a yielder can only be had from a body
        src = "fn f() { let y: Yielder<u8, u8> = %s; }"
        return "a yielder made up by the client", src % t.pick(["Yielder::default()", "Yielder { }", "Default::default()", "Yielder::new()", "Clone::clone(mk::<&'static Yielder<u8, u8>>())", "*mk::<&'static Yielder<u8, u8>>()"]), {"E0599", "E0063", "E0451", "E0277", "E0423", "E0308", "E0507"}, src % "mk()"
    if k == 5:
        src = "fn f(co: %%s) { co.resume(mk()); }"
        r = t.pick(["&", "&&mut ", "Rc<X>", "Arc<X>", "std::cell::Ref<'_, X>"])
        wt = r.replace("X", co) if "X" in r else r + co
        return "resume through a shared reference", "fn f(co: %s) { co.resume(mk()); }" % wt, {"E0596"}, "fn f(co: &mut %s) { co.resume(mk()); }" % co
    src = "fn f(co: %s) { %%s }" % co
    use = t.pick(["co.done()", "drop(co)", "take(&co)"])
    return "coroutine used after its stack was taken", src % ("co.into_stack(); %s;" % use), {"E0382"}, src % ("%s; co.into_stack();" % use.replace("drop(co)", "take(&co)"))


def t_unique(g):
    """Stacks and coroutines have one owner."""
    t = g.t
    s = g.stack(borrowed=False).s
    k = t.draw(4)
    if k == 0:
        via, kind = [("&s", "&"), ("Rc::new(s)", "Rc"), ("Arc::new(s)", "Arc"), ("RefCell::new(s).borrow()", "Ref"), ("&&mut s", "&&mut")][t.draw(5)]
        use = t.pick(["let co = Coroutine::with_stack(%s, |y: &Yielder<(), ()>, ()| ());", "on_stack(%s, || ());", "let b = Stack::base(&%s);"])
        return "stack shared by " + kind, "fn f() { let mut s: %s = mk(); %s }" % (s, use % via), {"E0277"}, "fn f() { let mut s: %s = mk(); %s }" % (s, use % "&mut s")
    if k == 1:
        co, _ = g.co_ty(Ty(s))
        what = t.pick([co, "DefaultStack" if not g.nodefault else co, "Yielder<u8, u8>"])
        tr = t.pick(["Clone", "Copy"])
        return "duplicating a coroutine, stack or yielder", "fn is<T: %s>() {} fn f() { is::<%s>(); }" % (tr, what), {"E0277"}, "fn is<T: %s>() {} fn f() { is::<&'static %s>(); }" % (tr, what)
    co, _ = g.co_ty(Ty(s))
    if k == 2:
        return "stack taken out of a borrowed coroutine", "fn f(co: &mut %s) { take(co.into_stack()); }" % co, {"E0507"}, "fn f(co: %s) { take(co.into_stack()); }" % co
    return "coroutine resumed while something borrows it", "fn f(mut co: %s) { let r = %s; co.resume(mk()); take(r); }" % (co, t.pick(["&co", "&mut co", "Some(&co)", "|| take(co.done())"])), BORROW, "fn f(mut co: %s) { let r = co.done(); co.resume(mk()); take(r); }" % co


def t_trap_capture(g):
    t = g.t
    s = g.stack(borrowed=False).s
    if t.draw(2):
        val = t.pick(NONSTATIC)[1]
        src = lambda v: "fn f(co: &Coroutine<(), (), u32, %s>) { let mut x: u32 = 1; let b = %s; unsafe { co.trap_handler().setup_trap_handler(move || { drop(b); 5 }); } }" % (s, v)
        return "trap function borrowing locals", src(val), LIFETIME, src("Box::new(x)")
    src = lambda a, b: "fn f<'a>(h: CoroutineTrapHandler<&%s u8>) -> CoroutineTrapHandler<&%s u8> { h }" % (a, b)
    return "trap handler with a shorter-lived result", src("'static", "'a"), {"lifetime", "E0308"}, src("'a", "'a")


def variance_ty(t, depth=2):
    """A type with a lifetime `L` in it and its variance in L: 1, -1 or 0."""
    k = t.draw(9) if depth else 0
    if k == 0 or depth == 0:
        return t.pick(["&L u8", "&L str", "std::slice::Iter<L, u8>", "Option<&L u8>"]), 1
    a, v = variance_ty(t, depth - 1)
    if k == 1:
        return "Vec<%s>" % a, v
    if k == 2:
        return "(u8, %s)" % a, v
    if k == 3:
        return "fn(%s)" % a, -v
    if k == 4:
        return "Cell<%s>" % a, 0
    if k == 5:
        return "Rc<%s>" % a, v
    if k == 6:
        return "fn() -> %s" % a, v
    if k == 7:
        return "fn(u8, %s) -> u8" % a, -v
    return "Box<%s>" % a, v


def t_variance(g):
    t = g.t
    s = g.stack(borrowed=False).s
    a, v = variance_ty(t)
    what = t.draw(5)
    shapes = ["Coroutine<T, (), (), %s>" % s, "Coroutine<(), T, (), %s>" % s, "Coroutine<(), (), T, %s>" % s, "&'b Yielder<T, ()>", "&'b Yielder<(), T>"]
    sign = [-1, 1, 1, 1, -1][what]
    mkt = lambda lt: shapes[what].replace("T", a.replace("L", lt))
    pos = v * sign
    # from longer to shorter lifetime is sound iff covariant; the other way iff contravariant
    down = "fn f<'a: 'b, 'b>(x: %s) -> %s { x }" % (mkt("'a"), mkt("'b"))
    up = "fn f<'a: 'b, 'b>(x: %s) -> %s { x }" % (mkt("'b"), mkt("'a"))
    same = "fn f<'a: 'b, 'b>(x: %s) -> %s { x }" % (mkt("'b"), mkt("'b"))
    name = ["coroutine in its input", "coroutine in its yield", "coroutine in its return", "yielder in its input", "yielder in its yield"][what]
    if t.draw(2):
        return ("sound shortening: " + name, down, None, None) if pos == 1 else ("unsound shortening: " + name, down, {"lifetime", "E0308"}, same)
    return ("sound lengthening: " + name, up, None, None) if pos == -1 else ("unsound lengthening: " + name, up, {"lifetime", "E0308"}, same)


def t_onstack(g):
    t = g.t
    s = t.pick([g.stack(borrowed=False).s])
    st = "mk::<%s>()" % s if t.draw(2) else "&mut mk::<%s>()" % s
    k = t.draw(6)
    x = ty(t)
    if k == 0:
        return "on_stack borrows locals and returns borrows", "fn f() { let mut x: %s = mk(); let r = on_stack(%s, || { take(&mut x); &mut x }); take(r); take(x); }" % (x.s, st), None, None
    if k == 1:
        return "on_stack takes and returns any type", "fn f() -> %s { let x: %s = mk(); on_stack(%s, move || x) }" % (x.s, x.s, st), None, None
    if k == 2:
        return "on_stack result borrowing its closure's local", "fn f() { let r = on_stack(%s, || { let x = 5u32; &x }); take(r); }" % st, LIFETIME | BORROW, "fn f() { let x = 5u32; let r = on_stack(%s, || { &x }); take(r); }" % st
    if k == 3:
        return "value used after it moved into on_stack", "fn f() { let x = String::new(); on_stack(%s, move || take(x)); take(x); }" % st, {"E0382"}, "fn f() { let x = String::new(); on_stack(%s, move || take(x.len())); }" % st
    if k == 4:
        return "on_stack result outliving what it borrows", "fn f() { let r; { let x = String::new(); r = on_stack(%s, || &x); } take(r); }" % st, {"E0597"}, "fn f() { let r; let x = String::new(); { r = on_stack(%s, || &x); } take(r); }" % st
    return "on_stack inside on_stack", "fn f() { let mut x: %s = mk(); on_stack(%s, || on_stack(mk::<%s>(), || { x = mk(); })); take(x); }" % (x.s, st, s), None, None


def t_legit(g):
    """Ordinary programs with any types must be accepted."""
    t = g.t
    s = g.stack()
    i, y, r, c = ty(t), ty(t), ty(t), ty(t)
    k = t.draw(4)
    if k == 0:
        return "coroutine over any types", "fn f() { let c: %s = mk(); let mut co = %s; match co.resume(mk()) { CoroutineResult::Yield(v) => { let v: %s = v; } CoroutineResult::Return(v) => { let v: %s = v; } } co.force_unwind(); let s: %s = co.into_stack(); }" % (
            c.s, g_fixed(g, s.s, i.s, y.s, r.s, "take(c); let i: %s = y.suspend(mk()); mk()" % i.s), y.s, r.s, s.s), None, None
    if k == 1:
        return "results projected", "fn f(a: CoroutineResult<%s, %s>, b: CoroutineResult<%s, %s>) { let a: Option<%s> = a.as_yield(); let b: Option<%s> = b.as_return(); }" % (y.s, r.s, y.s, r.s, y.s, r.s), None, None
    if k == 2:
        return "coroutine owned by data structures", "struct H { a: Vec<Coroutine<%s, %s, %s, %s>>, b: Option<Box<dyn FnMut()>> } fn f(h: &mut H) { for c in h.a.iter_mut() { c.resume(mk()); } h.a.clear(); let mut c = h.a.pop().unwrap(); h.b = Some(Box::new(move || { c.resume(mk()); })); }" % (i.s, y.s, r.s, s.s), None, None
    s2 = g.stack()
    return "coroutine inside a coroutine", "fn f() { let co = %s; }" % g_fixed(g, s.s, i.s, y.s, r.s, "let mut inner = %s; inner.resume(mk()); y.suspend(mk()); drop(inner); mk()" % g_fixed(g, s2.s, r.s, y.s, i.s, "y.on_parent_stack(|| ()); mk()")), None, None


TEMPLATES = [(t_co_auto, 3), (t_generic_auto, 1), (t_y_auto, 2), (t_stack_auto, 1), (t_send_prog, 4), (t_share_prog, 2), (t_mutref_prog, 2), (t_yielder_thread, 2), (t_parent, 5), (t_generic_parent, 1), (t_capture, 4), (t_escape, 4),
             (t_borrowed_stack, 4), (t_unsafe, 3), (t_unique, 3), (t_trap_capture, 1), (t_variance, 5), (t_onstack, 3), (t_legit, 3)]
FLAT = [f for f, w in TEMPLATES for _ in range(w)]

FEATS = {
    "py-client": (["default-stack", "unwind"], X64, 1.0),
    "py-client-nodefault": ([], X64, 0.6),
    "py-client-nounw-x86": (["default-stack"], X86, 0.3),
}


def program(tape, config):
    g = Gen(tape, "default-stack" not in FEATS[config][0])
    f = FLAT[tape.draw(len(FLAT))]
    return f(g)


class Lib:
    def __init__(self, config):
        feats, target, _ = FEATS[config]
        arts = cargo_build("lib-" + config, os.path.join(V, "client"), _cfg(STABLE, target, False, feats), sub="check")
        self.target, self.nodefault = target, "default-stack" not in feats
        self.meta = None
        for a in arts:
            if a["target"]["name"] == "corosensei":
                self.meta = [f for f in a["filenames"] if f.endswith(".rmeta")][0]
        if not self.meta:
            raise HarnessError("no metadata of corosensei")

    def rustc(self, src, tag):
        """[(line, code, message)] of the errors in src."""
        path = os.path.join(BUILD, "client-%s.rs" % tag)
        with open(path, "w") as f:
            f.write(src)
        p = subprocess.run(["rustc", "+" + STABLE, "--edition", "2021", "--crate-type", "lib", "--crate-name", "client", "--emit", "metadata", "--target", self.target, "--error-format", "json", "-A", "warnings",
                            "--extern", "corosensei=" + self.meta, "-L", "dependency=" + os.path.dirname(self.meta), "-o", path + ".rmeta", path], env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = []
        for l in p.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                raise HarnessError("rustc: " + l[:500])
            if m.get("level") != "error" or m["message"].startswith("aborting"):
                continue
            sp = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
            code = (m.get("code") or {}).get("code") or next((c for k, c in NOCODE if k in m["message"]), "none")
            errs.append((sp[0]["line_start"] if sp and sp[0]["file_name"] == path else 0, code, m["message"]))
        if p.returncode != 0 and not errs:
            raise HarnessError("rustc failed: " + p.stderr[-1500:])
        for x in (path, path + ".rmeta"):
            if os.path.exists(x):
                os.remove(x)
        return errs

    def batch(self, items, tag):
        """items: list of program texts; returns a list of error lists."""
        head = PRELUDE.replace("@DEFAULT@", "" if self.nodefault else "pub use corosensei::stack::DefaultStack;").strip("\n") + "\n"
        n = head.count("\n")
        src = head + "".join("mod p%d { use super::prelude::*; #[deny(unsafe_code)] mod q {} %s }\n" % (i, t.replace("\n", " ")) for i, t in enumerate(items))
        res = [[] for _ in items]
        for line, code, msg in self.rustc(src, tag):
            i = line - n - 1
            if not 0 <= i < len(items):
                if len(items) > 1:
                    return None
                i = 0
            res[i].append((code, msg))
        return res

    def alone(self, item, tag):
        return self.batch([item], tag)[0]


def verdict(errs, want):
    """None if as expected, else what is wrong."""
    codes = sorted({c for c, _ in errs})
    if want is None:
        return None if not errs else "a legitimate program is rejected: %s" % "; ".join("%s %s" % e for e in errs[:2])
    if not errs:
        return "an unsound program is accepted"
    return None if any(c in want for c in codes) else "UNEXPECTED %s" % codes


def judge_one(lib, tape, config, tag):
    """Compiles the program of a tape alone; (failure or None, class, text)."""
    cls, items, want, twin = program(tape, config)
    e = verdict(lib.alone(items, tag), want)
    txt = items
    if e is None and twin is not None:
        e = verdict(lib.alone(twin, tag), None)
        txt = twin
    if e and e.startswith("UNEXPECTED"):
        e = None
    return e, cls, txt


def shrink(lib, tape, config, log):
    best = list(tape)
    kind = judge_one(lib, Tape(given=best), config, "s")[1]
    i = budget = 0
    while i < len(best) and budget < 60:
        if best[i]:
            c = list(best)
            c[i] = 0
            budget += 1
            try:
                t = Tape(given=c)
                e, k, _ = judge_one(lib, t, config, "s")
                if e and k == kind:
                    best = t.out
            except HarnessError:
                pass
        i += 1
    return best


def client(prop, seed, tier, exes, log):
    t0 = time.time()
    total = 20000 if tier == "quick" else 400000
    part = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [],
            "rules": {"client": "a program that must be rejected whose sound twin was accepted by the same compiler, or a legitimate program over generated types"}}
    distinct = set()
    # in parallel: the three variants of the library
    with ThreadPoolExecutor(8) as ex:
        libs = dict(zip(FEATS, ex.map(Lib, FEATS)))
    BATCH = 200
    jobs = []
    for config, (_, _, share) in FEATS.items():
        n = int(total * share / BATCH)
        jobs += [(config, b) for b in range(n)]

    def run(job):
        config, b = job
        lib = libs[config]
        cases = []
        for k in range(BATCH):
            t = Tape(random.Random("%s-%d-%d-%d" % (config, seed, b, k)))
            cases.append((t, program(t, config)))
        bad, ok = [], []
        # programs that must be accepted, with the twins
        acc = [(j, p[1]) for j, (_, p) in enumerate(cases) if p[2] is None] + [(j, p[3]) for j, (_, p) in enumerate(cases) if p[3] is not None]
        rej = [(j, p[1]) for j, (_, p) in enumerate(cases) if p[2] is not None]
        for grp, must in ((acc, True), (rej, False)):
            res = lib.batch([x for _, x in grp], "%s-%d-%s" % (config, b, must)) if grp else []
            for q, (j, x) in enumerate(grp):
                want = None if must else cases[j][1][2]
                e = verdict(res[q], want) if res is not None else "?"
                if e and not e.startswith("UNEXPECTED"):
                    # decide alone: in a batch, errors elsewhere may hide or add some
                    e = verdict(lib.alone(x, "%s-%d-alone" % (config, b)), want)
                if e:
                    bad.append((j, e))
        return config, cases, bad

    violation = None
    done = 0
    with ThreadPoolExecutor(8) as ex:
        for config, cases, bad in ex.map(run, jobs):
            done += 1
            for j, e in bad:
                if violation:
                    break
                if e.startswith("UNEXPECTED"):
                    # rejected all the same, and its twin is accepted
                    part["classes"]["rejected with an unusual error"] = part["classes"].get("rejected with an unusual error", 0) + 1
                    continue
                tape = shrink(libs[config], cases[j][0].out, config, log)
                e, cls, txt = judge_one(libs[config], Tape(given=tape), config, "s")
                os.makedirs(REPLAYS, exist_ok=True)
                rep = os.path.join(REPLAYS, "%s-%s.txt" % (prop, config))
                with open(rep, "w") as f:
                    f.write("property %s\nconfig %s\ntape %s\n# %s\n# %s\n# %s\n" % (prop, config, " ".join(map(str, tape)), cls, e, txt))
                violation = (rep, "%s [%s]: %s\n%s" % (prop, cls, e, txt))
            for t, p in cases:
                part["evaluations"] += 1
                part["classes"][p[0]] = part["classes"].get(p[0], 0) + 1
                nt = p[3] is not None or p[2] is None and len(t.out) >= 4
                if nt:
                    part["nontrivial"] += 1
                    distinct.add((config, p[1]))
                if len(part["samples"]) < 8 and nt and part["evaluations"] % 97 == 5:
                    part["samples"].append("must be %s [%s] %s" % ("accepted" if p[2] is None else "rejected", p[0], p[1]))
            if violation:
                break
    part["distinct_nontrivial"] = len(distinct)
    part["wall_s"] = round(time.time() - t0, 2)
    return part, violation


def replay(prop, path):
    txt = open(path).read().splitlines()
    get = lambda k: [l.split(" ", 1)[1] if " " in l else "" for l in txt if l.split(" ")[0] == k][0]
    config, tape = get("config"), [int(x) for x in get("tape").split()]
    e, cls, prog = judge_one(Lib(config), Tape(given=tape), config, "r")
    print("%s\n%s\n=> %s" % (cls, prog, e or "as expected"))
    return 1 if e else 0
