//! Interpreter of programs, generic over the implementation of coroutines.
use super::api::*;
use super::ast::*;
use super::env::*;
use super::stack::TStack;
use super::{asm, bt};
use corosensei::stack::Stack;
use std::any::Any;
use std::cell::RefCell;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

pub enum Slot {
    Empty,
    Busy,
    Has(Held<Box<dyn CoDyn>>),
}

#[derive(Clone, Copy)]
pub struct Cx {
    ctx: u32,
    y: Option<&'static dyn Yd>,
    local: Option<&'static dyn LocalDyn>,
    /// bounds of the stack this code runs on ((0, 0) for a thread's own stack)
    range: (usize, usize),
    /// directly on the coroutine's own stack
    own: bool,
    in_parent: bool,
    onstk: bool,
}

/// A coroutine together with its context; operations that run it go through `enter`.
pub struct Held<C: CoDyn> {
    co: ManuallyDrop<C>,
    ctx: u32,
}
impl<C: CoDyn> Held<C> {
    fn into_inner(self) -> C {
        let mut s = ManuallyDrop::new(self);
        unsafe { ManuallyDrop::take(&mut s.co) }
    }
    fn suspended(&self) -> bool {
        self.co.started() && !self.co.done()
    }
}
impl<C: CoDyn> Drop for Held<C> {
    fn drop(&mut self) {
        if self.co.done() {
            cnt(N::drop_done)
        } else if self.co.started() {
            cnt(N::drop_susp);
            if env().unwinds > 0 {
                cnt(N::unwind_nest)
            }
        } else {
            cnt(N::drop_unst)
        }
        let susp = self.suspended();
        ev(E::DropCo, self.ctx, susp as u32);
        {
            let _e = enter(self.ctx, susp, asm::sp(), (1, 1), susp);
            unsafe { ManuallyDrop::drop(&mut self.co) };
        }
        env().ctx[self.ctx as usize].dead = true;
        ev(E::DropDone, self.ctx, 0);
    }
}

pub struct Enter {
    saved: u32,
    unw: bool,
}
impl Drop for Enter {
    fn drop(&mut self) {
        let e = env();
        e.cur = self.saved;
        e.depth -= 1;
        if self.unw {
            e.pend.pop();
            e.unwinds -= 1;
        }
    }
}
/// Control is about to move into context `child` (if `go`).
fn enter(child: u32, go: bool, addr: usize, range: (usize, usize), unw: bool) -> Enter {
    let e = env();
    let saved = e.cur;
    e.depth += 1;
    if go {
        let cur = e.cur;
        let th = e.cur_thread;
        let c = &mut e.ctx[child as usize];
        if c.started && c.last_thread != th {
            cnt(N::thread_resume);
        }
        if c.started && c.last_resumer != cur {
            cnt(N::reparent);
        }
        c.last_thread = th;
        c.last_resumer = cur;
        c.started = true;
        c.parent = cur;
        c.resume_addr = addr;
        c.parent_range = range;
        e.cur = child;
        if e.depth > 1 {
            cnt(N::nested_resume);
        }
    }
    if unw {
        e.next_pend += 1;
        let n = e.next_pend;
        e.pend.push(n);
        e.unwinds += 1;
    }
    Enter { saved, unw }
}

pub trait LocalDyn {
    fn with(&self, f: &mut dyn FnMut(&mut dyn CoDyn, u32));
    fn take(&self) -> Option<Held<Box<dyn CoDyn>>>;
}
struct LocalCell<C: CoDyn>(RefCell<Option<Held<C>>>);
impl<C: CoDyn + 'static> LocalDyn for LocalCell<C> {
    fn with(&self, f: &mut dyn FnMut(&mut dyn CoDyn, u32)) {
        if let Ok(mut b) = self.0.try_borrow_mut() {
            if let Some(h) = &mut *b {
                let c = h.ctx;
                f(&mut *h.co, c)
            } else {
                ev(E::Skip, 1, 0)
            }
        } else {
            ev(E::Skip, 2, 0)
        }
    }
    fn take(&self) -> Option<Held<Box<dyn CoDyn>>> {
        let mut b = self.0.try_borrow_mut().ok()?;
        let h = b.take()?;
        let ctx = h.ctx;
        Some(Held { co: ManuallyDrop::new(Box::new(h.into_inner())), ctx })
    }
}

// ---------------------------------------------------------------- payloads
pub struct Payload {
    id: u32,
    _tok: TokL,
}
fn classify(p: &(dyn Any + Send)) -> (u32, u32) {
    if let Some(p) = p.downcast_ref::<Payload>() {
        return (1, p.id);
    }
    let s: &str = if let Some(s) = p.downcast_ref::<&'static str>() {
        s
    } else if let Some(s) = p.downcast_ref::<String>() {
        s
    } else {
        return (4, 0);
    };
    if let Some(n) = s.strip_prefix("cvh#") {
        return (if p.is::<String>() { 3 } else { 2 }, n.parse().unwrap_or(9999));
    }
    (5, 0)
}
static STRS: [&str; 8] = ["cvh#0", "cvh#1", "cvh#2", "cvh#3", "cvh#4", "cvh#5", "cvh#6", "cvh#7"];

fn throw(k: PanicKind) -> ! {
    let id = fresh();
    ev(E::Panic, k as u32, id);
    match k {
        PanicKind::Str => panic_any(STRS[id as usize % 8]),
        PanicKind::String => panic_any(format!("cvh#{id}")),
        PanicKind::Custom => panic_any(Payload { id, _tok: TokL::new(fresh()) }),
        PanicKind::Resume => resume_unwind(Box::new(Payload { id, _tok: TokL::new(fresh()) })),
    }
}

fn again(p: Box<dyn Any + Send>) -> ! {
    ev(E::Rethrow, 0, 0);
    resume_unwind(p)
}

// ---------------------------------------------------------------- checks
#[inline(never)]
fn where_check(cx: &Cx) {
    let e = env();
    ev(E::Who, cx.ctx, (e.cur == cx.ctx) as u32);
    if !real() {
        check(Chk::Where, true);
        check(Chk::Align, true);
        return;
    }
    let x = 0u8;
    let a = &x as *const u8 as usize;
    let (lo, hi) = cx.range;
    let ok = if (lo, hi) == (0, 0) {
        // a thread's own stack: not inside any known coroutine stack that is in use
        e.ctx.iter().all(|c| c.range == (0, 0) || c.dead || a < c.range.0 || a >= c.range.1)
    } else {
        if lo > 1 && a >= lo && a < lo + 48 * 1024 {
            harness_room();
        }
        a >= lo && a < hi
    };
    check(Chk::Where, ok);
    check(Chk::Align, asm::aligned() && !asm::control_state().2);
}

fn harness_room() {
    if std::env::var_os("CVH_ROOM").is_some() {
        unsafe { libc::_exit(78) }
    }
}

struct Guard<A: Api> {
    ops: &'static [Op],
    cx: Cx,
    id: u32,
    canary: [u32; 4],
    _m: std::marker::PhantomData<A>,
}
fn guard<A: Api>(ops: &'static [Op], cx: Cx) -> Guard<A> {
    let e = env();
    e.next_guard += 1;
    let id = e.next_guard;
    Guard { ops, cx, id, canary: [id ^ 0x5555, !id, id.wrapping_mul(3), 7], _m: std::marker::PhantomData }
}
impl<A: Api> Drop for Guard<A> {
    fn drop(&mut self) {
        let id = self.id;
        ev(E::GuardDrop, id, (self.canary == [id ^ 0x5555, !id, id.wrapping_mul(3), 7]) as u32);
        where_check(&self.cx);
        if !self.ops.is_empty() {
            if A::panicking() {
                cnt(N::act_in_unwind)
            }
            run::<A>(self.cx, self.ops);
            ev(E::GuardEnd, id, 0);
        }
    }
}

/// Destructor of a captured value: runs wherever the closure is destroyed.
struct CapGuard<A: Api> {
    ops: &'static [Op],
    _m: std::marker::PhantomData<A>,
}
impl<A: Api> Drop for CapGuard<A> {
    fn drop(&mut self) {
        if self.ops.is_empty() {
            return;
        }
        let e = env();
        ev(E::GuardDrop, 0, e.cur);
        let range = e.ctx[e.cur as usize].range;
        let cx = Cx { ctx: e.cur, y: None, local: None, range, own: false, in_parent: true, onstk: true };
        run_nowhere::<A>(cx, self.ops);
        ev(E::GuardEnd, 0, 0);
    }
}
/// Runs operations from a place whose stack is not known exactly.
fn run_nowhere<A: Api>(cx: Cx, ops: &'static [Op]) {
    run::<A>(Cx { range: (1, usize::MAX), ..cx }, ops);
}

struct Cap<A: Api, P> {
    tok: TokS,
    _g: CapGuard<A>,
    pad: P,
}
trait PadOk {
    fn ok(&self) -> bool;
}
impl<const M: usize> PadOk for Pad<M> {
    fn ok(&self) -> bool {
        Pad::ok(self)
    }
}
impl PadOk for Al64 {
    fn ok(&self) -> bool {
        Al64::ok(self)
    }
}

fn body<A: Api, T: Tk>(y: &'static dyn Yd, input: T, ctx: u32, body: usize, cap: &dyn Fn() -> u32) -> T {
    struct Mark(u32);
    impl Drop for Mark {
        fn drop(&mut self) {
            ev(E::BodyUnwind, self.0, env().cur)
        }
    }
    let e = env();
    ev(E::BodyStart, ctx, input.id());
    ev(E::Check, Chk::Capture as u32, cap());
    let m = Mark(ctx);
    let cx = Cx { ctx, y: Some(y), local: None, range: e.ctx[ctx as usize].range, own: true, in_parent: false, onstk: false };
    where_check(&cx);
    run::<A>(cx, &e.prog.bodies[body]);
    where_check(&cx);
    ev(E::Check, Chk::Capture as u32, cap());
    std::mem::forget(m);
    drop(input);
    let r = T::new(fresh());
    ev(E::BodyEnd, ctx, r.id());
    r
}

fn build_with<A: Api, T: Tk, P: PadOk + Copy + 'static>(n: &'static New, ctx: u32, st: TStack, pad: P) -> A::Co<T> {
    let id = fresh();
    let b = n.body;
    let cap = Cap::<A, P> { tok: TokS::new(id), _g: CapGuard { ops: &n.cap, _m: std::marker::PhantomData }, pad };
    A::create::<T, _>(st, ctx, move |y, input| {
        let cap = &cap;
        body::<A, T>(y, input, ctx, b, &|| (cap.tok.id() == id && cap.pad.ok()) as u32)
    })
}
fn build<A: Api, T: Tk>(n: &'static New, ctx: u32, st: TStack) -> A::Co<T> {
    match n.pad {
        0 => build_with::<A, T, _>(n, ctx, st, Pad::<0>::new(ctx)),
        1 => build_with::<A, T, _>(n, ctx, st, Pad::<1>::new(ctx)),
        2 => build_with::<A, T, _>(n, ctx, st, Pad::<100>::new(ctx)),
        3 => build_with::<A, T, _>(n, ctx, st, Al64(Pad::new(ctx))),
        _ => build_with::<A, T, _>(n, ctx, st, Pad::<880>::new(ctx)),
    }
}
fn new_ctx(st: &TStack) -> u32 {
    let e = env();
    let guard = st.is_default();
    e.ctx.push(CtxInfo {
        parent: 0, markers: vec![], range: st.range(), resume_addr: 0, parent_range: (0, 0), last_thread: 0, last_resumer: 0, started: false, unwinding_flag: false, flag_thread: 0, dead: false, guard, stack_id: st.id, root: false,
    });
    e.ctx.len() as u32 - 1
}

// ---------------------------------------------------------------- operations
#[inline(never)]
fn do_create<A: Api>(slot: u32, n: &'static New) {
    let e = env();
    if !matches!(e.slots[slot as usize], Slot::Empty) || e.created >= 60 {
        ev(E::CreateSkip, slot, 0);
        return;
    }
    e.created += 1;
    let st = TStack::make(n.stack);
    let ctx = new_ctx(&st);
    ev(E::Create, slot, ctx);
    let sid = st.id;
    let co: Box<dyn CoDyn> = if n.large { Box::new(build::<A, TokL>(n, ctx, st)) } else { Box::new(build::<A, TokS>(n, ctx, st)) };
    cnt(N::create);
    ev(E::Query, (co.started() as u32) << 1 | co.done() as u32, sid);
    let h = Held { co: ManuallyDrop::new(co), ctx };
    // creation may not run anything, so the slot is still free
    env().slots[slot as usize] = Slot::Has(h);
}

struct PutBack {
    slot: usize,
    h: Option<Held<Box<dyn CoDyn>>>,
}
impl Drop for PutBack {
    fn drop(&mut self) {
        if let Some(h) = self.h.take() {
            env().slots[self.slot] = Slot::Has(h);
        }
    }
}
/// Slot numbers from `NSLOT` up select among the slots holding unfinished coroutines (if any),
/// or finished ones when `done`.
fn resolve(slot: u32, done: bool) -> u32 {
    if slot < NSLOT {
        return slot;
    }
    let e = env();
    let mut pick = [0u32; NSLOT as usize];
    let mut n = 0;
    for (i, s) in e.slots.iter().enumerate() {
        if let Slot::Has(h) = s {
            if h.co.done() == done {
                pick[n] = i as u32;
                n += 1;
            }
        }
    }
    if n == 0 {
        slot % NSLOT
    } else {
        pick[slot as usize % n]
    }
}
fn take_slot(slot: u32) -> Option<PutBack> {
    let slot = resolve(slot, false);
    let e = env();
    match std::mem::replace(&mut e.slots[slot as usize], Slot::Busy) {
        Slot::Has(h) => Some(PutBack { slot: slot as usize, h: Some(h) }),
        o => {
            e.slots[slot as usize] = o;
            None
        }
    }
}

fn mark_done(ctx: u32, co: &dyn CoDyn) {
    if co.done() {
        let e = env();
        e.ctx[ctx as usize].dead = true;
    }
}

#[inline(never)]
fn resume_co(cx: &Cx, co: &mut dyn CoDyn, child: u32, regs: u32, keep: &mut Vec<Tok>) {
    let e = env();
    if e.depth >= 10 || !fuel() {
        ev(E::ResumeSkip, child, 1);
        return;
    }
    let id = fresh();
    let was_done = co.done();
    let was_susp = co.started() && !was_done;
    if was_done {
        cnt(N::resume_dead);
        ev(E::ResumeDead, child, id);
    } else {
        cnt(N::resume);
        ev(E::Resume, child, id);
        if regs != 0 {
            cnt(N::regs)
        }
    }
    if was_susp {
        env().susp_live -= 1;
    }
    struct Out(bool);
    impl Drop for Out {
        fn drop(&mut self) {
            if self.0 {
                cnt(N::panic_out)
            }
        }
    }
    let mut o = Out(!was_done);
    let (y, t) = {
        let _e = enter(child, !was_done, asm::sp(), cx.range, false);
        co.resume(id, regs)
    };
    o.0 = false;
    ev(if y { E::GotYield } else { E::GotReturn }, child, t.id());
    cnt(if y { N::yielded } else { N::returned });
    if y {
        let e = env();
        e.susp_live += 1;
        if e.susp_live >= 3 {
            cnt(N::multi_live)
        }
    }
    mark_done(child, co);
    where_check(cx);
    if t.id() & 1 == 1 {
        keep.push(t);
    }
}

#[inline(never)]
fn do_resume(cx: &Cx, slot: u32, regs: u32, keep: &mut Vec<Tok>) {
    match take_slot(slot) {
        None => ev(E::ResumeSkip, slot, 0),
        Some(mut p) => {
            let h = p.h.as_mut().unwrap();
            let c = h.ctx;
            resume_co(cx, &mut *h.co, c, regs, keep);
        }
    }
}

#[inline(never)]
fn force_co(cx: &Cx, co: &mut dyn CoDyn, child: u32) {
    let susp = co.started() && !co.done();
    ev(E::Force, child, susp as u32);
    cnt(if susp { N::force_susp } else if co.done() { N::drop_done } else { N::force_unst });
    if susp && env().unwinds > 0 {
        cnt(N::unwind_nest)
    }
    struct Out;
    impl Drop for Out {
        fn drop(&mut self) {
            cnt(N::force_err)
        }
    }
    let o = Out;
    {
        let _e = enter(child, susp, asm::sp(), cx.range, susp);
        co.force();
    }
    std::mem::forget(o);
    mark_done(child, co);
    ev(E::ForceDone, child, (co.started() as u32) << 1 | co.done() as u32);
    where_check(cx);
}
#[inline(never)]
fn do_force(cx: &Cx, slot: u32) {
    match take_slot(slot) {
        None => ev(E::ForceSkip, slot, 0),
        Some(mut p) => {
            let h = p.h.as_mut().unwrap();
            let c = h.ctx;
            force_co(cx, &mut *h.co, c);
        }
    }
}
#[inline(never)]
fn do_drop(cx: &Cx, slot: u32) {
    match take_slot(slot) {
        None => ev(E::Skip, slot, 3),
        Some(mut p) => {
            let h = p.h.take();
            env().slots[p.slot] = Slot::Empty;
            drop(h);
            where_check(cx);
        }
    }
}
#[inline(never)]
fn do_into(cx: &Cx, slot: u32) {
    match take_slot(resolve(slot, true)) {
        None => ev(E::Skip, slot, 4),
        Some(mut p) => {
            let h = p.h.take().unwrap();
            env().slots[p.slot] = Slot::Empty;
            let ctx = h.ctx;
            let susp = h.suspended();
            let done = h.co.done();
            let range = env().ctx[ctx as usize].range;
            ev(E::Into, ctx, done as u32);
            cnt(if done { N::into_ok } else { N::into_err });
            let co = h.into_inner();
            // a failed extraction destroys the coroutine and its stack while unwinding
            struct Gone(u32);
            impl Drop for Gone {
                fn drop(&mut self) {
                    env().ctx[self.0 as usize].dead = true;
                }
            }
            let _gone = Gone(ctx);
            let st = {
                let _e = enter(ctx, susp, asm::sp(), cx.range, susp);
                Box::new(co).into_stack()
            };
            check(Chk::SameStack, st.range() == range && st.intact());
            ev(E::IntoDone, st.id, ctx);
            env().ctx[ctx as usize].dead = true;
            env().pool.push(st);
        }
    }
}

#[inline(never)]
fn do_query(cx: &Cx, slot: u32) {
    match take_slot(slot) {
        None => ev(E::Skip, slot, 5),
        Some(p) => {
            let h = p.h.as_ref().unwrap();
            ev(E::Query, (h.co.started() as u32) << 1 | h.co.done() as u32, h.ctx);
            let (lo, hi) = env().ctx[h.ctx as usize].range;
            cnt(N::bounds);
            let own = asm::sp();
            let probes = [(lo.wrapping_sub(1), false), (lo, true), (lo + 1, true), (lo + (hi - lo) / 2, true), (hi - 1, true), (hi, false), (hi + 1, false), (0, false), (usize::MAX, false)];
            let mut ok = true;
            for (p, want) in probes {
                if let Some(b) = h.co.in_bounds(p) {
                    ok &= b == want;
                }
            }
            if h.ctx != cx.ctx {
                if let Some(b) = h.co.in_bounds(own) {
                    ok &= !b;
                }
            }
            check(Chk::Bounds, ok);
        }
    }
}

#[inline(never)]
fn do_suspend<A: Api>(cx: &Cx, keep: bool, regs: u32, bag: &mut Vec<Tok>) {
    let Some(y) = cx.y else {
        ev(E::Skip, 0, 6);
        return;
    };
    if !fuel() {
        ev(E::Skip, 0, 7);
        return;
    }
    let p = A::panicking();
    if p {
        if cfg!(feature = "asm-unwind") || env().prog.threads {
            ev(E::Skip, 0, 8);
            return;
        }
        cnt(N::susp_in_unwind);
    }
    if cx.onstk {
        cnt(N::onstack_suspend)
    }
    let id = fresh();
    ev(E::Suspend, cx.ctx, id);
    let t = y.suspend(id, regs);
    ev(E::SuspendBack, cx.ctx, t.id());
    where_check(cx);
    if keep {
        bag.push(t)
    }
}

macro_rules! marker_fns {
    ($($name:ident = $k:literal),*) => {
        $(#[inline(never)]
        fn $name<A: Api>(cx: &Cx, depth: u32, ops: &'static [Op]) -> bool {
            let mut canary = [0u64; 6 + $k];
            for (i, c) in canary.iter_mut().enumerate() { *c = ($k as u64) << 32 ^ (depth as u64) << 16 ^ i as u64 ^ 0xABCD_0000_0000_0000; }
            let canary = std::hint::black_box(&mut canary);
            let _m = Marker::push(cx.ctx, $k);
            let r = deep_next::<A>(cx, depth, ops, $k);
            let ok = canary.iter().enumerate().all(|(i, c)| unsafe { std::ptr::read_volatile(c) } == ($k as u64) << 32 ^ (depth as u64) << 16 ^ i as u64 ^ 0xABCD_0000_0000_0000);
            check(Chk::Canary, ok);
            r
        })*
        fn marker_fn<A: Api>(k: u32) -> fn(&Cx, u32, &'static [Op]) -> bool {
            match k % 8 { $($k => $name::<A>,)* _ => unreachable!() }
        }
    };
}
marker_fns!(mark0 = 0, mark1 = 1, mark2 = 2, mark3 = 3, mark4 = 4, mark5 = 5, mark6 = 6, mark7 = 7);
struct Marker(u32);
impl Marker {
    fn push(ctx: u32, k: u32) -> Marker {
        env().ctx[ctx as usize].markers.push(k);
        Marker(ctx)
    }
}
impl Drop for Marker {
    fn drop(&mut self) {
        env().ctx[self.0 as usize].markers.pop();
    }
}
fn deep_next<A: Api>(cx: &Cx, depth: u32, ops: &'static [Op], k: u32) -> bool {
    if depth <= 1 {
        run::<A>(*cx, ops)
    } else {
        marker_fn::<A>(k * 3 + depth)(cx, depth - 1, ops)
    }
}

#[inline(never)]
fn do_trace<A: Api>() {
    let e = env();
    let mut want = vec![];
    let mut c = e.cur;
    let mut hops = 0;
    loop {
        want.extend(e.ctx[c as usize].markers.iter().rev().copied());
        if e.ctx[c as usize].root || hops > 200 {
            break;
        }
        c = e.ctx[c as usize].parent;
        hops += 1;
    }
    if hops >= 1 && want.len() >= 2 {
        cnt(N::bt_deep)
    }
    if !real() {
        check(Chk::Backtrace, true);
        return;
    }
    let fns: Vec<usize> = (0..8).map(|k| marker_fn::<A>(k) as usize).collect();
    let got = bt::markers(&fns);
    if got != want && std::env::var_os("CVH_VERBOSE").is_some() {
        eprintln!("backtrace want {want:?} got {got:?}");
    }
    check(Chk::Backtrace, got == want);
}

#[inline(never)]
fn do_on_stack<A: Api>(cx: &Cx, k: StackKind, borrowed: bool, pad: u8, ops: &'static [Op]) {
    let mut st = TStack::make(k);
    let range = st.range();
    let id = fresh();
    ev(E::OnStack, st.id, id);
    cnt(N::onstack);
    let sid = st.id;
    let tok = TokL::new(id);
    let cx2 = Cx { range, own: false, onstk: true, ..*cx };
    struct Out(u32);
    impl Drop for Out {
        fn drop(&mut self) {
            cnt(N::onstack_panic);
            ev(E::OnStackBack, self.0, 2)
        }
    }
    let inner = move |ok: bool| {
        check(Chk::Capture, ok);
        where_check(&cx2);
        run::<A>(cx2, ops);
        where_check(&cx2);
        tok
    };
    fn go<A: Api, R>(st: StackArg, f: impl FnOnce() -> R) -> R {
        A::on_stack(st, f)
    }
    let o = Out(sid);
    let call = |st: StackArg| -> TokL {
        match pad {
            0 => go::<A, _>(st, move || inner(true)),
            1 => {
                let p = Pad::<1>::new(id);
                go::<A, _>(st, move || inner(p.ok()))
            }
            2 => {
                let p = Pad::<100>::new(id);
                go::<A, _>(st, move || inner(p.ok()))
            }
            3 => {
                let p = Al64(Pad::new(id));
                go::<A, _>(st, move || inner(p.ok()))
            }
            _ => {
                let p = Pad::<2000>::new(id);
                let (t, p) = go::<A, _>(st, move || (inner(p.ok()), p));
                check(Chk::Capture, p.ok());
                t
            }
        }
    };
    let t = if borrowed {
        struct Back(Option<TStack>);
        impl Drop for Back {
            fn drop(&mut self) {
                let s = self.0.take().unwrap();
                check(Chk::SameStack, s.intact());
                env().pool.push(s)
            }
        }
        let mut b = Back(Some(st));
        let t = call(StackArg::Ref(b.0.as_mut().unwrap()));
        drop(b);
        t
    } else {
        st.uses += 0;
        call(StackArg::Own(st))
    };
    std::mem::forget(o);
    ev(E::OnStackBack, sid, 1);
    check(Chk::Capture, t.id() == id);
    where_check(cx);
}

#[inline(never)]
fn do_on_parent<A: Api>(cx: &Cx, pad: u8, ops: &'static [Op]) {
    let Some(y) = cx.y else {
        ev(E::Skip, 0, 9);
        return;
    };
    if !fuel() {
        ev(E::Skip, 0, 10);
        return;
    }
    let e = env();
    if e.parents >= 3 {
        ev(E::Skip, 0, 17);
        return;
    }
    let c = &e.ctx[cx.ctx as usize];
    let (prange, addr) = (c.parent_range, c.resume_addr);
    // (1, 1): the resumer's stack is not tracked (resumed by a destructor)
    let range = if prange == (1, 1) { (1, usize::MAX) } else { prange };
    let id = fresh();
    ev(E::OnParent, cx.ctx, id);
    cnt(N::onparent);
    env().parents += 1;
    if c.parent != 0 {
        cnt(N::onparent_other)
    }
    struct Out;
    impl Drop for Out {
        fn drop(&mut self) {
            cnt(N::onparent_panic);
            env().parents -= 1;
            ev(E::OnParentBack, 0, 2)
        }
    }
    let o = Out;
    let cx2 = Cx { y: None, local: None, range, own: false, in_parent: true, onstk: true, ..*cx };
    let own = cx.range;
    let mut f = || {
        if real() {
            let a = asm::sp();
            check(Chk::ParentBelow, a < addr && addr - a < 256 * 1024 && (a < own.0 || a >= own.1));
        } else {
            check(Chk::ParentBelow, true);
        }
        where_check(&cx2);
        run::<A>(cx2, ops);
    };
    let t = y.on_parent(pad, id, &mut f);
    std::mem::forget(o);
    env().parents -= 1;
    ev(E::OnParentBack, cx.ctx, 1);
    check(Chk::Capture, t.id() == id);
    where_check(cx);
}

/// Throws the payload caught last; a forced unwind that is no longer in progress is let go, since
/// nothing identifies it any more.
fn throw_stash(forced_only: bool) {
    let e = env();
    let valid = match e.stash.last() {
        None => return,
        Some((_, 0)) => !forced_only,
        Some((_, n)) => e.pend.contains(n),
    };
    if forced_only && matches!(e.stash.last(), Some((_, 0))) {
        return;
    }
    let (p, n) = e.stash.pop().unwrap();
    if valid {
        cnt(N::stash_cross);
        ev(E::Throw, n, 0);
        resume_unwind(p)
    }
    ev(E::Skip, n, 18);
    drop(p);
}

#[inline(never)]
fn do_catch<A: Api>(cx: &Cx, pol: Policy, ops: &'static [Op]) -> bool {
    let r = catch_unwind(AssertUnwindSafe(|| run::<A>(*cx, ops)));
    match r {
        Ok(b) => b,
        Err(p) => {
            let (c, id) = classify(&*p);
            ev(E::Caught, c << 8 | pol as u32, id);
            where_check(cx);
            if c == 4 {
                cnt(N::forced_seen)
            }
            match pol {
                Policy::RethrowForced => {
                    if c == 4 {
                        again(p)
                    }
                    drop(p);
                }
                Policy::Rethrow => again(p),
                Policy::Swallow => {
                    if c == 4 {
                        cnt(N::forced_swallowed)
                    }
                    drop(p)
                }
                Policy::Replace => {
                    if c == 4 {
                        cnt(N::forced_swallowed);
                        throw_stash(true);
                    }
                    drop(p);
                    throw(PanicKind::Custom)
                }
                Policy::Stash => {
                    if c == 4 {
                        again(p)
                    }
                    ev(E::Stash, c, id);
                    env().stash.push((p, 0));
                }
                Policy::Relay => {
                    if c == 4 {
                        // which unwind this is is certain if only one is in progress
                        let &[n] = &env().pend[..] else { again(p) };
                        ev(E::Stash, c, id);
                        env().stash.push((p, n));
                        do_force(cx, NSLOT * 4 - 1);
                        throw_stash(true);
                    } else {
                        drop(p)
                    }
                }
            }
            false
        }
    }
}

#[inline(never)]
fn do_local<A: Api>(cx: &Cx, n: &'static New, ops: &'static [Op]) -> bool {
    let e = env();
    if e.created >= 60 {
        ev(E::CreateSkip, 99, 0);
        return false;
    }
    e.created += 1;
    let st = TStack::make(n.stack);
    let ctx = new_ctx(&st);
    cnt(N::localco);
    ev(E::LocalBegin, ctx, st.id);
    fn inner<A: Api, T: Tk>(cx: &Cx, n: &'static New, ctx: u32, st: TStack, ops: &'static [Op]) -> bool {
        let cell = LocalCell(RefCell::new(Some(Held { co: ManuallyDrop::new(build::<A, T>(n, ctx, st)), ctx })));
        let d: &dyn LocalDyn = &cell;
        let d: &'static dyn LocalDyn = unsafe { std::mem::transmute(d) };
        let r = run::<A>(Cx { local: Some(d), ..*cx }, ops);
        ev(E::LocalEnd, ctx, 0);
        r
    }
    if n.large {
        inner::<A, TokL>(cx, n, ctx, st, ops)
    } else {
        inner::<A, TokS>(cx, n, ctx, st, ops)
    }
}

#[inline(never)]
fn do_local_op(cx: &Cx, which: u32, slot: u32, bag: &mut Vec<Tok>) {
    let Some(l) = cx.local else {
        ev(E::Skip, 0, 11);
        return;
    };
    match which {
        0 => l.with(&mut |co, c| resume_co(cx, co, c, 0, bag)),
        1 => l.with(&mut |co, c| force_co(cx, co, c)),
        _ => {
            if !matches!(env().slots[slot as usize], Slot::Empty) {
                ev(E::Skip, slot, 12);
                return;
            }
            match l.take() {
                None => ev(E::Skip, slot, 13),
                Some(h) => {
                    ev(E::LTake, h.ctx, slot);
                    env().slots[slot as usize] = Slot::Has(h);
                }
            }
        }
    }
}

#[inline(never)]
fn do_thread<A: Api>(cx: &Cx, ops: &'static [Op]) -> bool {
    let e = env();
    if e.threads >= 6 {
        ev(E::Skip, 0, 14);
        return false;
    }
    e.threads += 1;
    cnt(N::thread);
    let no = e.threads as u64;
    let saved_th = e.cur_thread;
    let saved = e.cur;
    e.ctx.push(CtxInfo::root());
    let ctx = e.ctx.len() as u32 - 1;
    ev(E::Thread, ctx, 0);
    e.cur = ctx;
    e.cur_thread = no;
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let tcx = Cx { ctx, y: None, local: None, range: (0, 0), own: false, in_parent: false, onstk: false };
    let job = S(move || {
        RESUMER.with(|r| r.set(ctx));
        asm::alt_stack();
        let r = catch_unwind(AssertUnwindSafe(|| run::<A>(tcx, ops)));
        r.err()
    });
    let th = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let j = job;
            let j = j;
            S((j.0)())
        })
        .expect("harness: thread");
    let r = th.join();
    let e = env();
    e.cur = saved;
    e.cur_thread = saved_th;
    ev(E::ThreadEnd, ctx, 0);
    where_check(cx);
    match r {
        Ok(S(None)) => false,
        Ok(S(Some(p))) => again(p),
        Err(_) => panic!("harness: thread failed"),
    }
}

#[inline(never)]
fn do_trap<A: Api>(cx: &Cx, kind: TrapKind, pan: bool, pad: u8, depth: u32) {
    let (Some(y), true) = (cx.y, cx.own) else {
        ev(E::Skip, 0, 15);
        return;
    };
    if A::panicking() {
        // abandoning an unwinding frame is not an orderly trap
        ev(E::Skip, 0, 16);
        return;
    }
    let e = env();
    let kind = if kind == TrapKind::Overflow && !e.ctx[cx.ctx as usize].guard { TrapKind::Segv } else { kind };
    ev(E::Trap, cx.ctx, kind as u32);
    cnt(N::trap);
    if depth > 0 || kind == TrapKind::Overflow {
        cnt(N::trap_deep)
    }
    if pan {
        cnt(N::trap_panic)
    }
    e.leaky = true;
    e.ctx[cx.ctx as usize].markers.clear();
    let cx2 = Cx { y: None, ..*cx };
    let ret = fresh();
    let body = Box::new(move || {
        ev(E::TrapFn, cx2.ctx, ret);
        where_check(&cx2);
        if real() {
            // nearly the whole stack is available again (whatever the library's own frames take)
            let a = asm::sp();
            check(Chk::TrapRoom, cx2.range.1 - a < 40960);
            check(Chk::Backtrace, trace_reaches::<A>(cx2.ctx));
        } else {
            check(Chk::TrapRoom, true);
            check(Chk::Backtrace, true);
        }
        if pan {
            throw(PanicKind::Custom)
        }
    });
    y.trap(TrapSpec { kind, pad, depth, body, ret })
}
fn trace_reaches<A: Api>(_ctx: u32) -> bool {
    let e = env();
    let mut want = vec![];
    let mut c = e.cur;
    loop {
        want.extend(e.ctx[c as usize].markers.iter().rev().copied());
        if e.ctx[c as usize].root {
            break;
        }
        c = e.ctx[c as usize].parent;
    }
    let fns: Vec<usize> = (0..8).map(|k| marker_fn::<A>(k) as usize).collect();
    bt::markers(&fns) == want
}

#[inline(never)]
fn do_locals<A: Api>(cx: &Cx, seed: u32, bag: &mut Vec<Tok>) {
    let s = std::hint::black_box(seed) as u64;
    let f = |k: u64| s.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(k as u32 * 5 + 1) ^ k;
    let (a, b, c, d, e, g) = (f(1), f(2), f(3), f(4), f(5), f(6));
    let (h, i, j, k, l, m) = (f(7), f(8), f(9), f(10), f(11), f(12));
    let (x, y, z, w) = (s as f64 * 1.5, s as f64 + 0.25, (s as f64).sqrt(), 1.0 / s as f64);
    cnt(N::localck);
    if cx.y.is_some() {
        do_suspend::<A>(cx, false, 0, bag);
    } else {
        do_query(cx, seed % NSLOT);
    }
    let s2 = std::hint::black_box(seed) as u64;
    let ok = (a, b, c, d, e, g) == (f(1), f(2), f(3), f(4), f(5), f(6))
        && (h, i, j, k, l, m) == (f(7), f(8), f(9), f(10), f(11), f(12))
        && (x, y, z, w) == (s2 as f64 * 1.5, s2 as f64 + 0.25, (s2 as f64).sqrt(), 1.0 / s2 as f64);
    check(Chk::Locals, ok);
}

/// Remembers which top-level operation is running.
fn note_main(op: &'static Op) {
    let e = env();
    let m = e.prog.main.as_ptr_range();
    let p = op as *const Op;
    if p >= m.start && p < m.end {
        e.main_pc = (p as usize - m.start as usize) / std::mem::size_of::<Op>();
    }
}

/// Runs a block; true means the enclosing body was asked to return.
pub fn run<A: Api>(cx: Cx, ops: &'static [Op]) -> bool {
    let mut bag: Vec<Tok> = Vec::new();
    seq::<A>(&cx, ops, &mut bag)
}
fn seq<A: Api>(cx: &Cx, ops: &'static [Op], bag: &mut Vec<Tok>) -> bool {
    for (i, op) in ops.iter().enumerate() {
        if !fuel() {
            return true;
        }
        note_main(op);
        let stop = match op {
            Op::Ev(n) => {
                ev(E::Ev, *n, env().cur);
                where_check(cx);
                false
            }
            Op::Query(s) => {
                do_query(cx, *s);
                false
            }
            Op::Panicking => {
                let p = A::panicking();
                if p {
                    cnt(N::panicking_true)
                }
                ev(E::Panicking, p as u32, 0);
                false
            }
            Op::Create(s, n) => {
                do_create::<A>(*s, n);
                false
            }
            Op::Resume { slot, regs } => {
                do_resume(cx, *slot, *regs, bag);
                false
            }
            Op::Suspend { keep, regs } => {
                do_suspend::<A>(cx, *keep, *regs, bag);
                false
            }
            Op::Guard(b) => {
                // live until the end of this block
                let _g = guard::<A>(b, *cx);
                return seq::<A>(cx, &ops[i + 1..], bag);
            }
            Op::Deep(n, b) => {
                ev(E::Deep, *n, 0);
                marker_fn::<A>(*n * 5)(cx, *n, b)
            }
            Op::OnStack { stack, borrowed, pad, ops } => {
                do_on_stack::<A>(cx, *stack, *borrowed, *pad, ops);
                false
            }
            Op::OnParent { pad, ops } => {
                do_on_parent::<A>(cx, *pad, ops);
                false
            }
            Op::Panic(k) => throw(*k),
            Op::Catch(p, b) => do_catch::<A>(cx, *p, b),
            Op::ThrowStash => {
                throw_stash(false);
                false
            }
            Op::Force(s) => {
                do_force(cx, *s);
                false
            }
            Op::DropCo(s) => {
                do_drop(cx, *s);
                false
            }
            Op::IntoStack(s) => {
                do_into(cx, *s);
                false
            }
            Op::Reset(s) => {
                if let Some(mut p) = take_slot(*s) {
                    let h = p.h.as_mut().unwrap();
                    let susp = h.suspended();
                    cnt(if susp { N::reset_susp } else { N::reset_unst });
                    env().leaky = true;
                    unsafe { h.co.reset() };
                    let e = env();
                    let c = &mut e.ctx[h.ctx as usize];
                    c.markers.clear();
                    c.dead = true;
                    ev(E::Reset, h.ctx, (h.co.started() as u32) << 1 | h.co.done() as u32);
                }
                false
            }
            Op::Swap(a, b) => {
                let e = env();
                let (a, b) = (*a as usize, *b as usize);
                if !matches!(e.slots[a], Slot::Busy) && !matches!(e.slots[b], Slot::Busy) {
                    e.slots.swap(a, b);
                    ev(E::Swap, a as u32, b as u32);
                }
                false
            }
            Op::Local(n, b) => do_local::<A>(cx, n, b),
            Op::LResume => {
                do_local_op(cx, 0, 0, bag);
                false
            }
            Op::LForce => {
                do_local_op(cx, 1, 0, bag);
                false
            }
            Op::LTake(s) => {
                do_local_op(cx, 2, *s, bag);
                false
            }
            Op::Repeat(n, b) => {
                let mut r = false;
                for _ in 0..*n {
                    r = run::<A>(*cx, b);
                    if r {
                        break;
                    }
                }
                r
            }
            Op::OnThread(b) => do_thread::<A>(cx, b),
            Op::Trap { kind, panic, pad, depth } => {
                do_trap::<A>(cx, *kind, *panic, *pad, *depth);
                false
            }
            Op::Trace => {
                do_trace::<A>();
                false
            }
            Op::Locals(s) => {
                do_locals::<A>(cx, *s, bag);
                false
            }
            Op::Return => {
                ev(E::Return, cx.ctx, 0);
                true
            }
        };
        if stop {
            return true;
        }
    }
    false
}

/// Runs the whole program, then disposes of everything it left.
pub fn main<A: Api>() {
    let cx = Cx { ctx: 0, y: None, local: None, range: (0, 0), own: false, in_parent: false, onstk: false };
    let prog = env().prog;
    let mut pc = 0;
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| run::<A>(cx, &prog.main[pc..])));
        match r {
            Ok(_) => break,
            Err(p) => {
                let (c, id) = classify(&*p);
                ev(E::Caught, c << 8 | 0xff, id);
                drop(p);
                pc = env().main_pc + 1;
                if pc >= prog.main.len() || env().fuel <= 0 {
                    break;
                }
            }
        }
    }
    ev(E::MainEnd, env().cur, 0);
    env().fuel = 400;
    for s in 0..NSLOT {
        do_drop(&cx, s);
    }
    // the destructors above may have created more
    env().fuel = 200;
    for s in 0..NSLOT {
        do_drop(&cx, s);
    }
    env().fuel = 0;
    for s in 0..NSLOT {
        do_drop(&cx, s);
    }
    while let Some(p) = env().stash.pop() {
        drop(p);
    }
    while let Some(s) = env().pool.pop() {
        drop(s);
    }
    ev(E::Panicking, A::panicking() as u32, 1);
    let e = env();
    let mut h = 0u32;
    for (i, t) in e.tok.iter().enumerate() {
        if *t == 1 {
            h = h.wrapping_mul(31).wrapping_add(i as u32 + 1);
        }
    }
    ev(E::Live, e.live as u32, h);
    e.closed = true;
}
