//! Floating-point control words across switches. Random programs set the rounding and precision
//! controls here and there; a switch changes neither, so every context must find the words as
//! the context it was switched from left them.
use super::*;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, Yielder};
use std::arch::asm;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Words {
    mx: u32,
    cw: u16,
}
fn read() -> Words {
    let (mx, cw, df) = crate::engine::asm::control_state();
    Words { mx: mx | (df as u32) << 31, cw }
}
fn write(w: Words) {
    unsafe {
        asm!("ldmxcsr [{}]", in(reg) &w.mx, options(nostack));
        asm!("fldcw word ptr [{}]", in(reg) &w.cw, options(nostack));
    }
}
fn pick(t: u32) -> Words {
    Words { mx: 0x1F80 | (t & 3) << 13 | (t >> 2 & 1) << 15 | (t >> 3 & 1) << 6, cw: 0x7F | [0u16, 2, 3, 3][(t >> 4 & 3) as usize] << 8 | ((t >> 6 & 3) as u16) << 10 }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set(u32),
    Resume(u32),
    Suspend,
    OnStack,
    OnParent,
    Return,
}
struct Sh {
    ops: Vec<Op>,
    pc: Cell<usize>,
    model: Cell<Words>,
    bad: RefCell<Option<String>>,
    switches: Cell<u32>,
}
type Y = Yielder<(), ()>;
type Co = Coroutine<(), (), ()>;
#[derive(Clone)]
struct P(Rc<Sh>);
unsafe impl Send for P {}
impl P {
    fn get(self) -> Rc<Sh> {
        self.0
    }
}
impl Sh {
    fn check(&self, at: &str) {
        let got = read();
        self.switches.set(self.switches.get() + 1);
        if got != self.model.get() && self.bad.borrow().is_none() {
            // format with the usual controls in force
            write(pick(0x30));
            *self.bad.borrow_mut() = Some(format!("floating-point control words changed {at}: {:x?} became {got:x?}", self.model.get()));
            write(got);
            self.model.set(got);
        }
    }
}
fn body(sh: &Rc<Sh>, y: Option<&Y>, depth: u32) {
    let mut kids: [Option<Co>; 2] = [None, None];
    loop {
        let pc = sh.pc.get();
        let Some(op) = sh.ops.get(pc).copied() else { break };
        sh.pc.set(pc + 1);
        match op {
            Op::Set(v) => {
                let w = pick(v);
                sh.model.set(w);
                write(w);
            }
            Op::Resume(i) => {
                let k = &mut kids[i as usize % 2];
                if depth < 5 && (k.is_none() || k.as_ref().unwrap().done()) {
                    let sh = sh.clone();
                    *k = Some(Co::with_stack(DefaultStack::new(96 * 1024).expect("harness: stack"), move |y, ()| {
                        sh.check("on the first resume of a coroutine");
                        body(&sh, Some(y), depth + 1)
                    }));
                }
                if let Some(k) = k {
                    let was = k.started();
                    k.resume(());
                    sh.check(if k.done() { "when a coroutine returned" } else if was { "in resume, when a coroutine suspended again" } else { "in resume, when a coroutine first suspended" });
                }
            }
            Op::Suspend => {
                if let Some(y) = y {
                    y.suspend(());
                    sh.check("in suspend");
                }
            }
            Op::OnStack if depth < 5 => {
                on_stack(DefaultStack::new(96 * 1024).expect("harness: stack"), || {
                    sh.check("on entry of an on_stack closure");
                    body(sh, y, depth + 1)
                });
                sh.check("when an on_stack closure returned");
            }
            Op::OnParent if depth < 5 => {
                if let Some(y) = y {
                    let p = P(sh.clone());
                    y.on_parent_stack(move || {
                        let sh = p.get();
                        sh.check("on entry of an on_parent_stack closure");
                        body(&sh, None, depth + 1)
                    });
                    sh.check("when an on_parent_stack closure returned");
                }
            }
            Op::OnStack | Op::OnParent => {}
            Op::Return => {
                if depth > 0 {
                    break;
                }
            }
        }
    }
    // nothing of interest lives on the stacks of those still suspended
    for k in kids.iter_mut().flatten() {
        unsafe { k.force_reset() };
    }
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let n = t.range(3, 30);
    let ops: Vec<Op> = (0..n)
        .map(|_| match t.weighted(&[4, 6, 5, 2, 2, 2]) {
            0 => Op::Set(t.draw(256)),
            1 => Op::Resume(t.draw(2)),
            2 => Op::Suspend,
            3 => Op::OnStack,
            4 => Op::OnParent,
            _ => Op::Return,
        })
        .collect();
    let sets = ops.iter().filter(|o| matches!(o, Op::Set(_))).count();
    let start = read();
    let sh = Rc::new(Sh { ops, pc: Cell::new(0), model: Cell::new(start), bad: RefCell::new(None), switches: Cell::new(0) });
    body(&sh, None, 0);
    write(pick(0x30));
    let bad = sh.bad.borrow_mut().take();
    note(st, sets >= 1 && sh.switches.get() >= 3, format!("{:?}", sh.ops));
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}
