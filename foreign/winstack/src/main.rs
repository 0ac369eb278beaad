//! Does with the crate's Windows stacks what its host asks for.
#![no_main]
use corosensei::stack::{DefaultStack, Stack};
use corosensei::{on_stack, Coroutine, CoroutineResult};
use std::hint::black_box;

#[repr(C)]
pub struct Host {
    /// The next thing to do: kind, slot, size.
    op: extern "sysv64" fn(*mut [usize; 3]),
    /// A stack: slot, base, limit, and the four fields.
    stack: extern "sysv64" fn(*const [usize; 6], usize),
    failed: extern "sysv64" fn(i32),
    gone: extern "sysv64" fn(usize),
    /// Something that must be so.
    check: extern "sysv64" fn(u32, usize, usize),
    /// A coroutine is about to overflow its stack.
    arm: extern "sysv64" fn(*const u8),
    reset: extern "sysv64" fn() -> i32,
    trap: Option<extern "sysv64" fn(*const u8, usize, *mut usize)>,
    seed: usize,
}
static mut HOST: *mut Host = core::ptr::null_mut();
fn host() -> &'static Host {
    unsafe { &*HOST }
}
#[no_mangle]
pub extern "C" fn _resetstkoflw() -> i32 {
    (host().reset)()
}

/// Uses about `n` more bytes of the stack, a page or less at a time.
#[inline(never)]
fn deeper(n: usize, x: u64) -> u64 {
    let mut a = [x; 32];
    black_box(&mut a);
    let r = if n > 512 { deeper(n - 512, x.wrapping_mul(5) ^ a[3]) } else { x };
    black_box(&mut a);
    if a != [x; 32] {
        (host().check)(1, a[0] as usize, x as usize);
    }
    r ^ a[7]
}
/// Deeper, until the stack pointer is below `to`.
#[inline(never)]
fn down_to(to: usize, x: u64) -> u64 {
    let mut a = [x; 16];
    black_box(&mut a);
    let r = if a.as_ptr() as usize > to { down_to(to, x.wrapping_mul(5) ^ a[3]) } else { x };
    black_box(&mut a);
    if a != [x; 16] {
        (host().check)(2, a[0] as usize, x as usize);
    }
    r ^ a[7]
}

type Co = Coroutine<u64, u64, u64, DefaultStack>;
extern "sysv64" fn trap(h: *const u8, sp: usize, out: *mut usize) {
    unsafe {
        let h = &*(h as *const corosensei::trap::CoroutineTrapHandler<u64>);
        (host().check)(3, h.stack_ptr_in_bounds(sp) as usize, 1);
        let r = h.setup_trap_handler(move || down_to(black_box(&sp) as *const _ as usize - 2048, 3) ^ down_to(black_box(&sp) as *const _ as usize - 2048, 3) ^ 77);
        for (i, v) in [r.rip, r.rsp, r.rbp, r.rdi, r.rsi].into_iter().enumerate() {
            out.add(i).write(v as usize);
        }
    }
}

fn tell(slot: usize, s: &DefaultStack) {
    let t = s.teb_fields();
    (host().stack)(&[s.base().get(), s.limit().get(), t.StackBase, t.StackLimit, t.DeallocationStack, t.GuaranteedStackBytes], slot);
}

#[no_mangle]
pub extern "sysv64" fn guest_main(h: *mut Host) {
    unsafe {
        HOST = h;
        (*h).trap = Some(trap);
    }
    let h = host();
    let mut slots: [Option<DefaultStack>; 8] = Default::default();
    loop {
        let mut op = [0; 3];
        (h.op)(&mut op);
        let [kind, i, n] = op;
        match kind {
            0 => break,
            1 => {
                assert!(slots[i].is_none());
                match if n == usize::MAX { Ok(DefaultStack::default()) } else { DefaultStack::new(n) } {
                    Ok(s) => {
                        tell(i, &s);
                        slots[i] = Some(s);
                    }
                    Err(e) => (h.failed)(e.raw_os_error().unwrap_or(-1)),
                }
            }
            2 => {
                slots[i] = None;
                (h.gone)(i);
            }
            // code that goes down to `n` bytes below the base, suspended in between
            3 | 4 | 5 => {
                let s = slots[i].take().unwrap();
                let to = s.base().get() - n;
                let mut co: Co = Coroutine::with_stack(s, move |y, x| {
                    let r = if kind == 4 { x } else { down_to(to, x) };
                    let x = y.suspend(r);
                    down_to(to, x)
                });
                let a = co.resume(n as u64);
                if kind == 5 {
                    // given up
                    unsafe { co.force_reset() };
                } else {
                    let b = co.resume(1);
                    (h.check)(4, matches!((a, b), (CoroutineResult::Yield(_), CoroutineResult::Return(_))) as usize, 1);
                }
                let s = co.into_stack();
                tell(i, &s);
                slots[i] = Some(s);
            }
            6 => {
                let mut s = slots[i].take().unwrap();
                let to = s.base().get() - n;
                let r = on_stack(&mut s, move || down_to(to, 9));
                black_box(r);
                tell(i, &s);
                slots[i] = Some(s);
            }
            // an overflow, turned into a value
            7 => {
                let s = slots[i].take().unwrap();
                let mut co: Co = Coroutine::with_stack(s, |_, x| deeper(usize::MAX, x));
                let t = co.trap_handler();
                (h.arm)(&t as *const _ as *const u8);
                let r = co.resume(n as u64);
                (h.check)(5, r.as_return().map_or(0, |v| v as usize), 77);
                (h.check)(6, co.done() as usize, 1);
                let s = co.into_stack();
                tell(i, &s);
                slots[i] = Some(s);
            }
            // dropped before its start
            _ => {
                let mut s = slots[i].take().unwrap();
                drop(Coroutine::<(), (), (), &mut DefaultStack>::with_stack(&mut s, |_, ()| ()));
                tell(i, &s);
                slots[i] = Some(s);
            }
        }
    }
    for (i, s) in slots.iter_mut().enumerate() {
        if s.take().is_some() {
            (h.gone)(i);
        }
    }
}

#[no_mangle]
pub static _fltused: u32 = 0;
#[no_mangle]
pub static _tls_index: u32 = 0;
core::arch::global_asm!(
    ".globl __chkstk",
    "__chkstk:",
    "push rcx", "push rax", "lea rcx, [rsp + 24]",
    "1:", "cmp rax, 4096", "jb 2f", "sub rcx, 4096", "test [rcx], rcx", "sub rax, 4096", "jmp 1b",
    "2:", "sub rcx, rax", "test [rcx], rcx", "pop rax", "pop rcx", "ret",
);
