//! Programs over the corosensei API and their generator.
use crate::rt::Tape;

pub const NSLOT: u32 = 4;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum StackKind {
    Default(u32),
    Custom { size: u32, off: u32 },
    Borrowed { size: u32, off: u32 },
    Pool,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum PanicKind {
    Str,
    String,
    Custom,
    Resume,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Policy {
    RethrowForced,
    Rethrow,
    Swallow,
    Replace,
    Stash,
    /// Keeps an intercepted forced unwind, forces another coroutine meanwhile, then continues it.
    Relay,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum TrapKind {
    Segv,
    Ill,
    Overflow,
    Bus,
}
#[derive(Debug, Clone, PartialEq)]
pub struct New {
    pub body: usize,
    pub stack: StackKind,
    /// capture layout of the closure
    pub pad: u8,
    pub large: bool,
    /// operations run by the destructor of a captured value
    pub cap: Vec<Op>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Ev(u32),
    Query(u32),
    Panicking,
    Create(u32, New),
    Resume { slot: u32, regs: u32 },
    Suspend { keep: bool, regs: u32 },
    Guard(Vec<Op>),
    Deep(u32, Vec<Op>),
    OnStack { stack: StackKind, borrowed: bool, pad: u8, ops: Vec<Op> },
    OnParent { pad: u8, ops: Vec<Op> },
    Panic(PanicKind),
    Catch(Policy, Vec<Op>),
    ThrowStash,
    Force(u32),
    DropCo(u32),
    IntoStack(u32),
    Reset(u32),
    Swap(u32, u32),
    Local(New, Vec<Op>),
    LResume,
    LForce,
    LTake(u32),
    Repeat(u32, Vec<Op>),
    OnThread(Vec<Op>),
    Trap { kind: TrapKind, panic: bool, pad: u8, depth: u32 },
    Trace,
    Locals(u32),
    Return,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Program {
    pub main: Vec<Op>,
    pub bodies: Vec<Vec<Op>>,
    /// programs with threads never suspend a context that is unwinding
    pub threads: bool,
}

/// Relative weights of the operations, per property.
#[derive(Clone, Copy)]
pub struct Profile {
    pub ev: u32,
    pub query: u32,
    pub panicking: u32,
    pub create: u32,
    pub resume: u32,
    pub suspend: u32,
    pub guard: u32,
    pub deep: u32,
    pub onstack: u32,
    pub onparent: u32,
    pub panic: u32,
    pub catch: u32,
    pub throw: u32,
    pub force: u32,
    pub dropco: u32,
    pub into: u32,
    pub reset: u32,
    pub swap: u32,
    pub local: u32,
    pub repeat: u32,
    pub thread: u32,
    pub trap: u32,
    pub trace: u32,
    pub locals: u32,
    pub ret: u32,
    pub regs: bool,
    /// how often catch policies intercept a forced unwind
    pub rude: u32,
    /// how often they hand it to another coroutine
    pub relay: u32,
    pub guard_ops: bool,
    pub main_len: u32,
    pub body_len: u32,
}
pub const BASE: Profile = Profile {
    ev: 2, query: 3, panicking: 1, create: 10, resume: 18, suspend: 18, guard: 4, deep: 3, onstack: 1, onparent: 1, panic: 1, catch: 2, throw: 0,
    force: 2, dropco: 2, into: 2, reset: 0, swap: 1, local: 2, repeat: 2, thread: 0, trap: 0, trace: 0, locals: 1, ret: 1, regs: false, rude: 0, relay: 0,
    guard_ops: false, main_len: 12, body_len: 6,
};

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Main,
    Body,
    Dtor,
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub p: Profile,
    pub nbodies: u32,
    budget: i32,
    ev: u32,
}

impl<'a> Gen<'a> {
    pub fn program(t: &'a mut Tape, p: Profile) -> Program {
        let nb = t.range(1, 4);
        let mut g = Gen { t, p, nbodies: nb, budget: 90, ev: 0 };
        let bodies = (0..nb).map(|_| g.block(K::Body, 0, false, p.body_len)).collect();
        g.budget = 60;
        let mut main = vec![];
        for i in 0..NSLOT {
            // usually begin with a few coroutines
            if g.t.chance(3, 5) {
                let n = g.new_co(0);
                main.push(Op::Create(i, n));
            }
        }
        main.extend(g.block(K::Main, 0, false, p.main_len));
        Program { main, bodies, threads: p.thread > 0 }
    }

    fn block(&mut self, k: K, depth: u32, local: bool, len: u32) -> Vec<Op> {
        let mut v = vec![];
        loop {
            // zero ends the block; expected length is `len`
            if self.budget <= 0 || self.t.draw(len + 1) == 0 || v.len() > 3 * len as usize + 4 {
                return v;
            }
            self.budget -= 1;
            v.push(self.op(k, depth, local));
        }
    }

    fn stack(&mut self) -> StackKind {
        let size = 320 * 1024 + 4096 * self.t.draw(12) + 16 * self.t.draw(256);
        match self.t.weighted(&[4, 3, 2, 4]) {
            0 => StackKind::Default(size),
            1 => StackKind::Custom { size, off: 16 * self.t.draw(64) },
            2 => StackKind::Borrowed { size, off: 16 * self.t.draw(64) },
            _ => StackKind::Pool,
        }
    }
    fn new_co(&mut self, depth: u32) -> New {
        let body = self.t.draw(self.nbodies) as usize;
        let stack = self.stack();
        let pad = self.t.weighted(&[4, 2, 2, 1, 1]) as u8;
        let large = self.t.chance(1, 2);
        let cap = if self.p.guard_ops && depth < 2 && self.t.chance(1, 5) { self.block(K::Dtor, depth + 2, false, 2) } else { vec![] };
        New { body, stack, pad, large, cap }
    }
    fn slot(&mut self) -> u32 {
        self.t.draw(NSLOT)
    }
    /// A slot by number, or (from NSLOT up) one among those that hold a suitable coroutine.
    fn sel(&mut self) -> u32 {
        NSLOT * 4 - 1 - self.t.draw(NSLOT * 4)
    }
    fn regs(&mut self) -> u32 {
        if self.p.regs && self.t.chance(2, 3) { 1 + self.t.draw(1 << 20) } else { 0 }
    }
    fn inner(&mut self, k: K, depth: u32, local: bool) -> Vec<Op> {
        self.block(k, depth + 1, local, 3)
    }

    fn op(&mut self, k: K, depth: u32, local: bool) -> Op {
        let p = self.p;
        let nest = depth < 4;
        let n = |w: u32| if nest { w } else { 0 };
        let b = |w: u32| if k != K::Main { w } else { 0 };
        let l = |w: u32| if local { w } else { 0 };
        let w = [
            p.ev, p.query, p.panicking, p.create, p.resume, b(p.suspend), n(p.guard), n(p.deep), n(p.onstack), b(n(p.onparent)), p.panic, n(p.catch), p.throw, p.force, p.dropco, p.into,
            p.reset, p.swap, n(p.local), l(p.local * 6), l(p.local), l(p.local), n(p.repeat), n(p.thread), b(p.trap), p.trace, p.locals, p.ret * (depth > 0 || k == K::Body) as u32,
        ];
        match self.t.weighted(&w) {
            0 => {
                self.ev += 1;
                Op::Ev(self.ev)
            }
            1 => Op::Query(self.sel()),
            2 => Op::Panicking,
            3 => {
                let s = self.slot();
                let n = self.new_co(depth);
                Op::Create(s, n)
            }
            4 => Op::Resume { slot: self.sel(), regs: self.regs() },
            5 => Op::Suspend { keep: self.t.chance(1, 2), regs: self.regs() },
            6 => Op::Guard(if p.guard_ops && self.t.chance(1, 2) { self.inner(K::Dtor, depth, local) } else { vec![] }),
            7 => Op::Deep(self.t.range(1, 5), self.inner(k, depth, local)),
            8 => {
                let stack = self.stack();
                let borrowed = self.t.chance(1, 2);
                let pad = self.t.draw(5) as u8;
                Op::OnStack { stack, borrowed, pad, ops: self.inner(k, depth, local) }
            }
            9 => Op::OnParent { pad: self.t.draw(5) as u8, ops: self.inner(K::Dtor, depth, local) },
            10 => Op::Panic(self.pkind()),
            11 => {
                let pol = match self.t.weighted(&[6, 2, p.rude, p.rude, p.throw * 2, p.relay]) {
                    0 => Policy::RethrowForced,
                    1 => Policy::Rethrow,
                    2 => Policy::Swallow,
                    3 => Policy::Replace,
                    4 => Policy::Stash,
                    _ => Policy::Relay,
                };
                Op::Catch(pol, self.inner(k, depth, local))
            }
            12 => Op::ThrowStash,
            13 => Op::Force(self.sel()),
            14 => Op::DropCo(self.sel()),
            15 => Op::IntoStack(self.sel()),
            16 => Op::Reset(self.sel()),
            17 => Op::Swap(self.slot(), self.slot()),
            18 => {
                let n = self.new_co(depth);
                Op::Local(n, self.inner(k, depth, true))
            }
            19 => Op::LResume,
            20 => Op::LForce,
            21 => Op::LTake(self.slot()),
            22 => Op::Repeat(self.t.range(2, 6), self.inner(k, depth, local)),
            23 => Op::OnThread(self.inner(K::Main, depth, false)),
            24 => Op::Trap {
                kind: match self.t.weighted(&[3, 3, 2, 1]) {
                    0 => TrapKind::Segv,
                    1 => TrapKind::Ill,
                    2 => TrapKind::Overflow,
                    _ => TrapKind::Bus,
                },
                panic: self.t.chance(1, 4),
                pad: self.t.draw(5) as u8,
                depth: self.t.draw(4),
            },
            25 => Op::Trace,
            26 => Op::Locals(self.t.u32() | 1),
            _ => Op::Return,
        }
    }
    fn pkind(&mut self) -> PanicKind {
        match self.t.draw(4) {
            0 => PanicKind::Custom,
            1 => PanicKind::Str,
            2 => PanicKind::String,
            _ => PanicKind::Resume,
        }
    }
}

fn pp(ops: &[Op], ind: usize, out: &mut String) {
    use std::fmt::Write;
    let pad = "  ".repeat(ind);
    for o in ops {
        match o {
            Op::Guard(b) => nested(out, &pad, "guard (destructor runs)".into(), b, ind),
            Op::Deep(n, b) => nested(out, &pad, format!("deep {n}"), b, ind),
            Op::OnStack { stack, borrowed, pad: p, ops } => nested(out, &pad, format!("on_stack {stack:?} borrowed={borrowed} pad={p}"), ops, ind),
            Op::OnParent { pad: p, ops } => nested(out, &pad, format!("on_parent_stack pad={p}"), ops, ind),
            Op::Catch(pl, b) => nested(out, &pad, format!("catch {pl:?}"), b, ind),
            Op::Repeat(n, b) => nested(out, &pad, format!("repeat {n}"), b, ind),
            Op::OnThread(b) => nested(out, &pad, "on_thread".into(), b, ind),
            Op::Local(n, b) => {
                let _ = writeln!(out, "{pad}local {}", new_s(n));
                if !n.cap.is_empty() {
                    nested(out, &pad, "  capture destructor runs".into(), &n.cap, ind);
                }
                pp(b, ind + 1, out);
            }
            Op::Create(s, n) => {
                let _ = writeln!(out, "{pad}create slot{s} {}", new_s(n));
                if !n.cap.is_empty() {
                    nested(out, &pad, "  capture destructor runs".into(), &n.cap, ind);
                }
            }
            o => {
                let _ = writeln!(out, "{pad}{o:?}");
            }
        }
    }
}
fn new_s(n: &New) -> String {
    format!("body{} {:?} pad={} {}", n.body, n.stack, n.pad, if n.large { "large" } else { "small" })
}
fn nested(out: &mut String, pad: &str, head: String, b: &[Op], ind: usize) {
    use std::fmt::Write;
    let _ = writeln!(out, "{pad}{head}");
    pp(b, ind + 1, out);
}
pub fn pretty(p: &Program) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    for (i, b) in p.bodies.iter().enumerate() {
        let _ = writeln!(s, "body{i}:");
        pp(b, 1, &mut s);
    }
    let _ = writeln!(s, "main:");
    pp(&p.main, 1, &mut s);
    s
}
