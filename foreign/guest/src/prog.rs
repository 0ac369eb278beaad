//! A random program over the coroutine API, for back ends whose code cannot run natively here. The same source is
//! compiled for the guest, whose instructions are interpreted, and for the host, where it runs natively: the two
//! event logs must be equal. A program is a function of its seed and of the number of operations.
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::cell::Cell;
use core::hint::black_box;
use core::mem::{align_of, size_of, ManuallyDrop};
use core::num::NonZeroU32;
use corosensei::stack::{Stack, StackPointer, STACK_ALIGNMENT};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};

use crate::sys;
#[path = "regs.rs"]
mod regs;
use regs::regs_call;

// ---- events ----
pub const E_CREATE: u32 = 1;
pub const E_RESUME: u32 = 2;
pub const E_YIELD: u32 = 3;
pub const E_RETURN: u32 = 4;
pub const E_INPUT: u32 = 5;
pub const E_BAD: u32 = 6;
pub const E_TOK: u32 = 7;
pub const E_STACK: u32 = 8;
pub const E_STATE: u32 = 9;
pub const E_BOUNDS: u32 = 10;
pub const E_KERN: u32 = 11;
pub const E_CALL: u32 = 12;
pub const E_CALLED: u32 = 13;
pub const E_TRAP: u32 = 14;
pub const E_HANDLER: u32 = 15;
pub const E_RESET: u32 = 16;
pub const E_INTO: u32 = 17;
pub const E_CAP: u32 = 18;
pub const E_WHERE: u32 = 19;
pub const E_FINAL: u32 = 20;
pub const E_PANIC: u32 = 21;
pub const E_END: u32 = 22;
pub const E_GEOM: u32 = 23;
pub const E_LOCALS: u32 = 24;
pub const E_UNSTARTED: u32 = 25;
/// Registers not kept by a call, as a mask.
pub const E_REGS: u32 = 26;

fn log(k: u32, a: u32, b: u32) {
    sys::log(k, a, b);
}

// ---- what a program may contain: the upper half of its number of operations ----
/// Values alive in as many registers as there are, across a switch.
pub const F_KERN: u32 = 1 << 0;
/// Values of all types.
pub const F_TYPES: u32 = 1 << 1;
pub const F_ONSTACK: u32 = 1 << 2;
pub const F_PARENT: u32 = 1 << 3;
pub const F_BOUNDS: u32 = 1 << 4;
pub const F_END: u32 = 1 << 5;
pub const F_TRAP: u32 = 1 << 6;
pub const F_GEOM: u32 = 1 << 7;
pub const F_BACK: u32 = 1 << 8;
/// Calls that must panic.
pub const F_FINAL: u32 = 1 << 9;

// ---- values ----
pub trait Val: 'static + Sized {
    fn make(x: u32) -> Self;
    fn get(&self) -> u32;
}
fn mix(x: u32) -> u32 {
    let mut x = x.wrapping_mul(0x9e37_79b1) ^ 0x5bd1_e995;
    x ^= x >> 15;
    x = x.wrapping_mul(0x85eb_ca6b);
    x ^ (x >> 13)
}
impl Val for () {
    fn make(_: u32) {}
    fn get(&self) -> u32 {
        0
    }
}
impl Val for bool {
    fn make(x: u32) -> bool {
        x & 1 == 1
    }
    fn get(&self) -> u32 {
        let b = unsafe { *(self as *const bool as *const u8) };
        b as u32
    }
}
macro_rules! ints { ($($t:ty),*) => { $( impl Val for $t {
    fn make(x: u32) -> $t { ((mix(x) as u64) << 32 | mix(x ^ 0x77) as u64) as $t }
    fn get(&self) -> u32 { let v = *self as u64; (v as u32) ^ mix((v >> 32) as u32) }
} )* } }
ints!(u8, u16, u32, u64, i8, i16, i32, i64);
// the content must not depend on the word size
impl Val for usize {
    fn make(x: u32) -> usize {
        mix(x) as usize | (!(mix(x) as usize) & !0xffff_ffff)
    }
    fn get(&self) -> u32 {
        if size_of::<usize>() == 8 && (*self as u64 >> 32) as u32 != if usize::BITS == 64 { 0xffff_ffff } else { 0 } {
            return 0xbad;
        }
        *self as u32
    }
}
impl Val for u128 {
    fn make(x: u32) -> u128 {
        (u64::make(x) as u128) << 64 | u64::make(x ^ 0x99) as u128
    }
    fn get(&self) -> u32 {
        (*self as u64).get() ^ mix(((*self >> 64) as u64).get())
    }
}
impl Val for f32 {
    fn make(x: u32) -> f32 {
        f32::from_bits(0x3f80_0000 | mix(x) & 0x7f_ffff)
    }
    fn get(&self) -> u32 {
        self.to_bits()
    }
}
impl Val for f64 {
    fn make(x: u32) -> f64 {
        f64::from_bits(0x3ff0_0000_0000_0000 | u64::make(x) & 0xf_ffff_ffff_ffff)
    }
    fn get(&self) -> u32 {
        self.to_bits().get()
    }
}
impl Val for char {
    fn make(x: u32) -> char {
        char::from_u32(0x41 + mix(x) % 0x4000).unwrap_or('?')
    }
    fn get(&self) -> u32 {
        *self as u32
    }
}
impl<const N: usize> Val for [u8; N] {
    fn make(x: u32) -> [u8; N] {
        let mut a = [0; N];
        for (i, b) in a.iter_mut().enumerate() {
            *b = mix(x.wrapping_add(i as u32)) as u8;
        }
        a
    }
    fn get(&self) -> u32 {
        let mut h = N as u32;
        for b in self.iter() {
            h = mix(h ^ *b as u32);
        }
        h
    }
}
#[derive(Clone, Copy)]
pub struct Words<const N: usize>(pub [usize; N]);
impl<const N: usize> Val for Words<N> {
    fn make(x: u32) -> Self {
        let mut a = [0; N];
        for (i, b) in a.iter_mut().enumerate() {
            *b = usize::make(x.wrapping_add(i as u32));
        }
        Words(a)
    }
    fn get(&self) -> u32 {
        let mut h = N as u32;
        for b in self.0.iter() {
            h = mix(h ^ b.get());
        }
        h
    }
}
macro_rules! aligned { ($($n:ident $a:literal $s:literal;)*) => { $(
    #[repr(align($a))]
    pub struct $n([u8; $s]);
    impl Val for $n {
        fn make(x: u32) -> Self { $n(<[u8; $s]>::make(x)) }
        fn get(&self) -> u32 { self.0.get() }
    }
)* } }
aligned! { A8 8 3; A16 16 5; A32 32 33; A64 64 64; A128 128 1; A512 512 7; A16Z 16 0; A256Z 256 0; }
impl Val for Option<NonZeroU32> {
    fn make(x: u32) -> Self {
        NonZeroU32::new(if x % 3 == 0 { 0 } else { mix(x) })
    }
    fn get(&self) -> u32 {
        self.map_or(0, |v| v.get())
    }
}
impl Val for Option<Box<u32>> {
    fn make(x: u32) -> Self {
        if x % 3 == 0 { None } else { Some(Box::new(mix(x))) }
    }
    fn get(&self) -> u32 {
        self.as_ref().map_or(1, |v| **v)
    }
}
impl Val for Result<u8, u32> {
    fn make(x: u32) -> Self {
        if x % 2 == 0 { Ok(mix(x) as u8) } else { Err(mix(x)) }
    }
    fn get(&self) -> u32 {
        match self {
            Ok(v) => *v as u32,
            Err(v) => !*v,
        }
    }
}
impl Val for (u8, u64, u16) {
    fn make(x: u32) -> Self {
        (u8::make(x), u64::make(x ^ 1), u16::make(x ^ 2))
    }
    fn get(&self) -> u32 {
        self.0.get() ^ mix(self.1.get()) ^ mix(mix(self.2.get()))
    }
}
/// Its destruction is an event.
pub struct Tok(u32);
impl Val for Tok {
    fn make(x: u32) -> Tok {
        Tok(mix(x) | 1)
    }
    fn get(&self) -> u32 {
        self.0
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        log(E_TOK, self.0, 0);
    }
}
pub struct BigTok(Tok, [u8; 77]);
impl Val for BigTok {
    fn make(x: u32) -> BigTok {
        BigTok(Tok::make(x), <[u8; 77]>::make(x))
    }
    fn get(&self) -> u32 {
        self.0.get() ^ self.1.get()
    }
}

/// Examines a value that has arrived: alignment and content.
#[inline(never)]
fn arrived<T: Val>(k: u32, v: &T, seed: u32) -> u32 {
    let p = black_box(v as *const T as usize);
    if p % align_of::<T>() != 0 {
        log(E_BAD, 1, k);
    }
    let exp = ManuallyDrop::new(T::make(seed));
    let (a, b) = (black_box(v).get(), black_box(&*exp).get());
    if size_of::<T>() > 0 && a != b {
        log(E_BAD, 2, k);
    }
    if core::mem::needs_drop::<T>() {
        drop(ManuallyDrop::into_inner(exp));
    }
    log(k, a, seed);
    a
}

// ---- stacks ----
pub struct St {
    base: usize,
    limit: usize,
    guard: usize,
    id: u32,
    #[cfg(windows)]
    teb: corosensei::stack::StackTebFields,
}
unsafe impl Stack for St {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
    #[cfg(windows)]
    fn teb_fields(&self) -> corosensei::stack::StackTebFields {
        self.teb
    }
    #[cfg(windows)]
    fn update_teb_fields(&mut self, stack_limit: usize, guaranteed_stack_bytes: usize) {
        self.teb.StackLimit = stack_limit;
        self.teb.GuaranteedStackBytes = guaranteed_stack_bytes;
    }
}
impl Drop for St {
    fn drop(&mut self) {
        log(E_STACK, self.id, 0);
        #[cfg(windows)]
        sys::returned(self.base, self.teb.StackLimit, self.teb.GuaranteedStackBytes);
        sys::deny(self.limit, self.base);
        if self.guard > 0 {
            g().free.push((self.limit, self.base, self.guard));
        }
    }
}
impl St {
    fn at(limit: usize, base: usize, guard: usize) -> St {
        let s = g();
        s.stacks += 1;
        sys::allow(limit + guard, base);
        St {
            base,
            limit,
            guard,
            id: s.stacks,
            #[cfg(windows)]
            teb: corosensei::stack::StackTebFields { StackBase: base, StackLimit: limit + guard, DeallocationStack: limit, GuaranteedStackBytes: 0 },
        }
    }
    fn new() -> Option<St> {
        let s = g();
        if !s.free.is_empty() && s.rnd(2) == 0 {
            let i = s.rnd(s.free.len() as u32) as usize;
            let (l, b, gd) = s.free.swap_remove(i);
            return Some(St::at(l, b, gd));
        }
        // as many everywhere, whatever their sizes there
        if s.fresh == 38 {
            return None;
        }
        s.fresh += 1;
        let al = STACK_ALIGNMENT;
        let size = sys::STACK + s.rnd(256) as usize * 16;
        let guard = sys::GUARD + s.rnd(16) as usize * 16;
        let gap = 64 + s.rnd(64) as usize * 16;
        let odd = s.rnd(2) as usize * 8 % al;
        let lo = s.cursor + gap + if al == 8 { odd } else { 0 };
        let hi = lo + guard + size;
        assert!(hi + 256 <= sys::arena() + sys::ARENA - GEOM_AREA);
        s.cursor = (s.cursor + gap + guard + size + 16).next_multiple_of(16);
        Some(St::at(lo, hi, guard))
    }
}

// ---- state ----
pub struct G {
    rng: u64,
    fuel: u32,
    focus: u32,
    cursor: usize,
    stacks: u32,
    fresh: u32,
    free: Vec<(usize, usize, usize)>,
    slots: Vec<Option<Box<dyn Co>>>,
    /// Frames of `exec` in each coroutine, outermost first (0: the host).
    frames: Vec<Vec<usize>>,
    active: Vec<usize>,
    /// How many other stacks each coroutine's code is on.
    away: Vec<u32>,
    handlers: Vec<Option<Box<dyn Handler>>>,
    geom: Vec<(usize, usize)>,
    depth: u32,
    /// Slots whose coroutine is running.
    busy: u32,
}
static mut STATE: Option<G> = None;
pub fn g() -> &'static mut G {
    #[allow(static_mut_refs)]
    unsafe {
        STATE.as_mut().unwrap_unchecked()
    }
}
impl G {
    #[inline(never)]
    fn next(&mut self) -> u32 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        (self.rng >> 24) as u32
    }
    fn rnd(&mut self, n: u32) -> u32 {
        self.next() % n
    }
    fn has(&self, f: u32) -> bool {
        self.focus & f != 0
    }
    fn kind(&mut self) -> u32 {
        let k = self.rnd(KINDS);
        if self.has(F_TYPES) { k } else { KINDS }
    }
}

pub trait Handler {
    fn inside(&self, p: usize) -> bool;
    unsafe fn setup(&self, seed: u32, out: *mut usize);
}
impl<R: Val> Handler for CoroutineTrapHandler<R> {
    fn inside(&self, p: usize) -> bool {
        self.stack_ptr_in_bounds(p)
    }
    unsafe fn setup(&self, seed: u32, out: *mut usize) {
        let regs = match seed % 5 {
            0 => self.setup_trap_handler(move || in_handler::<R, ()>(seed, ())),
            1 => {
                let c = A64::make(seed);
                self.setup_trap_handler(move || in_handler::<R, A64>(seed, c))
            }
            2 => {
                let c = <[u8; 21]>::make(seed);
                self.setup_trap_handler(move || in_handler::<R, [u8; 21]>(seed, c))
            }
            3 => {
                let c = BigTok::make(seed);
                self.setup_trap_handler(move || in_handler::<R, BigTok>(seed, c))
            }
            _ => {
                let c = Words::<9>::make(seed);
                self.setup_trap_handler(move || in_handler::<R, Words<9>>(seed, c))
            }
        };
        sys::regs(&regs, out);
    }
}
/// What a converted trap runs. On the host it is called where the trap would be.
fn in_handler<R: Val, C: Val>(seed: u32, c: C) -> R {
    arrived(E_HANDLER, &c, seed);
    drop(c);
    let id = *g().active.last().unwrap();
    g().frames[id].clear();
    where_am_i(id);
    if g().has(F_BACK) {
        backtrace();
    }
    R::make(seed ^ 5)
}
fn host_handler<R: Val>(seed: u32) -> R {
    match seed % 5 {
        0 => in_handler::<R, ()>(seed, ()),
        1 => in_handler::<R, A64>(seed, A64::make(seed)),
        2 => in_handler::<R, [u8; 21]>(seed, <[u8; 21]>::make(seed)),
        3 => in_handler::<R, BigTok>(seed, BigTok::make(seed)),
        _ => in_handler::<R, Words<9>>(seed, Words::make(seed)),
    }
}
/// Called by the interpreter in place of a signal handler.
#[allow(dead_code)]
pub unsafe fn trap_entry(sp: usize, seed: u32, out: *mut usize) {
    let s = g();
    let id = *s.active.last().unwrap();
    let h = s.handlers[id].as_ref().unwrap();
    if !h.inside(sp) {
        log(E_BAD, 3, 0);
    }
    if h.inside(sys::main_stack()) {
        log(E_BAD, 4, 0);
    }
    h.setup(seed, out);
}

/// On which stack does this run?
#[inline(never)]
fn where_am_i(id: usize) {
    let x = Cell::new(0u32);
    let p = black_box(&x as *const _ as usize);
    let s = g();
    let (lo, hi) = s.geom[id];
    log(E_WHERE, id as u32, (lo <= p && p < hi) as u32);
}

// ---- coroutines ----
pub struct Trapped(u32);
pub trait Sus {
    fn suspend(&self, seed: u32) -> u32;
    fn ksuspend(&self, seed: u32) -> u32;
    fn on_parent(&self, lv: &Level, seed: u32);
}
pub trait Co {
    fn resume(&mut self, seed: u32) -> Option<u32>;
    fn kresume(&mut self, seed: u32) -> Option<u32>;
    fn state(&self) -> (bool, bool);
    fn bounds(&self, p: usize) -> bool;
    fn limits(&self) -> (usize, usize);
    fn id(&self) -> usize;
    unsafe fn reset(&mut self);
    fn unwind(&mut self);
    fn into_st(self: Box<Self>) -> St;
}
struct Wrap<I: Val, Y: Val, R: Val> {
    co: Coroutine<I, Y, R, St>,
    id: usize,
    lim: (usize, usize),
    seed: u32,
}

/// Many values alive across `$e`; evaluates to its result and logs a digest of them.
macro_rules! kernel {
    ($seed:expr, $e:expr) => {{
        let s = $seed;
        let (a0, a1, a2, a3) = (black_box(mix(s)), black_box(mix(s ^ 1)), black_box(mix(s ^ 2)), black_box(mix(s ^ 3)));
        let (a4, a5, a6, a7) = (black_box(mix(s ^ 4)), black_box(mix(s ^ 5)), black_box(mix(s ^ 6)), black_box(mix(s ^ 7)));
        let (a8, a9, a10, a11) = (black_box(mix(s ^ 8)), black_box(mix(s ^ 9)), black_box(mix(s ^ 10)), black_box(mix(s ^ 11)));
        let (a12, a13, a14, a15) = (black_box(mix(s ^ 12)), black_box(mix(s ^ 13)), black_box(mix(s ^ 14)), black_box(mix(s ^ 15)));
        let (a16, a17, a18, a19) = (black_box(mix(s ^ 16)), black_box(mix(s ^ 17)), black_box(mix(s ^ 18)), black_box(mix(s ^ 19)));
        let (a20, a21, a22, a23) = (black_box(mix(s ^ 20)), black_box(mix(s ^ 21)), black_box(mix(s ^ 22)), black_box(mix(s ^ 23)));
        let (f0, f1, f2, f3) = (black_box(f64::make(s)), black_box(f64::make(s ^ 1)), black_box(f64::make(s ^ 2)), black_box(f64::make(s ^ 3)));
        let (f4, f5, f6, f7) = (black_box(f64::make(s ^ 4)), black_box(f64::make(s ^ 5)), black_box(f64::make(s ^ 6)), black_box(f64::make(s ^ 7)));
        let (f8, f9, f10, f11) = (black_box(f64::make(s ^ 8)), black_box(f64::make(s ^ 9)), black_box(f64::make(s ^ 10)), black_box(f64::make(s ^ 11)));
        let r = $e;
        // combined in a way that needs every one of them only now
        let (z, y) = (black_box(mix(s ^ 77) | 1), black_box(f64::make(s ^ 78)));
        let mut d = 0u32;
        d = (d ^ a0).wrapping_mul(z); d = (d ^ a1).wrapping_mul(z); d = (d ^ a2).wrapping_mul(z); d = (d ^ a3).wrapping_mul(z); d = (d ^ a4).wrapping_mul(z); d = (d ^ a5).wrapping_mul(z); d = (d ^ a6).wrapping_mul(z); d = (d ^ a7).wrapping_mul(z); d = (d ^ a8).wrapping_mul(z); d = (d ^ a9).wrapping_mul(z); d = (d ^ a10).wrapping_mul(z); d = (d ^ a11).wrapping_mul(z); d = (d ^ a12).wrapping_mul(z); d = (d ^ a13).wrapping_mul(z); d = (d ^ a14).wrapping_mul(z); d = (d ^ a15).wrapping_mul(z); d = (d ^ a16).wrapping_mul(z); d = (d ^ a17).wrapping_mul(z); d = (d ^ a18).wrapping_mul(z); d = (d ^ a19).wrapping_mul(z); d = (d ^ a20).wrapping_mul(z); d = (d ^ a21).wrapping_mul(z); d = (d ^ a22).wrapping_mul(z); d = (d ^ a23).wrapping_mul(z);
        let mut g = y;
        g = g + f0; g = g + f1; g = g + f2; g = g + f3; g = g + f4; g = g + f5; g = g + f6; g = g + f7; g = g + f8; g = g + f9; g = g + f10; g = g + f11;
        digest(d, g, s);
        r
    }};
}
#[inline(never)]
fn digest(d: u32, g: f64, seed: u32) {
    log(E_KERN, mix(d ^ g.get()), seed);
}

/// A loop around `$e`, with values that every round needs in registers.
macro_rules! hot {
    ($seed:expr, $n:expr, $x:ident, $k:ident, $e:expr) => {{
        let s: u32 = $seed;
        let (mut a0, mut a1, mut a2, mut a3, mut a4, mut a5, mut a6, mut a7, mut a8, mut a9, mut a10, mut a11, mut a12, mut a13) = (black_box(mix(s ^ 0)), black_box(mix(s ^ 1)), black_box(mix(s ^ 2)), black_box(mix(s ^ 3)), black_box(mix(s ^ 4)), black_box(mix(s ^ 5)), black_box(mix(s ^ 6)), black_box(mix(s ^ 7)), black_box(mix(s ^ 8)), black_box(mix(s ^ 9)), black_box(mix(s ^ 10)), black_box(mix(s ^ 11)), black_box(mix(s ^ 12)), black_box(mix(s ^ 13)));
        for $k in 0..$n {
            $x = $e;
            a0 = a0.rotate_left(3) ^ a1 ^ $x; a1 = a1.rotate_left(3) ^ a2 ^ $x; a2 = a2.rotate_left(3) ^ a3 ^ $x; a3 = a3.rotate_left(3) ^ a4 ^ $x; a4 = a4.rotate_left(3) ^ a5 ^ $x; a5 = a5.rotate_left(3) ^ a6 ^ $x; a6 = a6.rotate_left(3) ^ a7 ^ $x; a7 = a7.rotate_left(3) ^ a8 ^ $x; a8 = a8.rotate_left(3) ^ a9 ^ $x; a9 = a9.rotate_left(3) ^ a10 ^ $x; a10 = a10.rotate_left(3) ^ a11 ^ $x; a11 = a11.rotate_left(3) ^ a12 ^ $x; a12 = a12.rotate_left(3) ^ a13 ^ $x; a13 = a13.rotate_left(3) ^ a0 ^ $x;
        }
        black_box(a0 ^ a1 ^ a2 ^ a3 ^ a4 ^ a5 ^ a6 ^ a7 ^ a8 ^ a9 ^ a10 ^ a11 ^ a12 ^ a13)
    }};
    (float $seed:expr, $n:expr, $x:ident, $k:ident, $e:expr) => {{
        let s: u32 = $seed;
        let (mut f0, mut f1, mut f2, mut f3, mut f4, mut f5, mut f6, mut f7, mut f8, mut f9, mut f10, mut f11) = (black_box(f64::make(s ^ 100)), black_box(f64::make(s ^ 101)), black_box(f64::make(s ^ 102)), black_box(f64::make(s ^ 103)), black_box(f64::make(s ^ 104)), black_box(f64::make(s ^ 105)), black_box(f64::make(s ^ 106)), black_box(f64::make(s ^ 107)), black_box(f64::make(s ^ 108)), black_box(f64::make(s ^ 109)), black_box(f64::make(s ^ 110)), black_box(f64::make(s ^ 111)));
        for $k in 0..$n {
            $x = $e;
            f0 = f0 + f1; f1 = f1 + f2; f2 = f2 + f3; f3 = f3 + f4; f4 = f4 + f5; f5 = f5 + f6; f6 = f6 + f7; f7 = f7 + f8; f8 = f8 + f9; f9 = f9 + f10; f10 = f10 + f11; f11 = f11 + f0;
        }
        black_box((f0 + f1 + f2 + f3 + f4 + f5 + f6 + f7 + f8 + f9 + f10 + f11).get())
    }};
}
#[inline(never)]
fn churn(seed: u32, n: u32) -> u32 {
    #[inline(never)]
    fn id(x: u32) -> u32 {
        black_box(x)
    }
    let (mut x, mut y) = (seed, seed);
    let a = hot!(seed, n, x, k, id(x ^ k));
    let b = hot!(float seed, n, y, k, id(y ^ k));
    a ^ b ^ x ^ y
}
/// Switches in loops, on both sides.
#[inline(never)]
fn kloop(seed: u32) {
    let Some(mut st) = St::new() else { return };
    let n = black_box(2 + seed % 3);
    let float = seed & 8 != 0;
    let (mut x, mut i) = (seed, 0);
    let d = match seed & 3 {
        0 => {
            if float {
                hot!(float seed, n, x, k, on_stack(&mut st, move || churn(x ^ k, n)))
            } else {
                hot!(seed, n, x, k, on_stack(&mut st, move || churn(x ^ k, n)))
            }
        }
        1 => {
            let mut co = Coroutine::<u32, u32, u32, St>::with_stack(st, move |y, mut x| {
                let d = if float { hot!(float x, n, x, k, y.on_parent_stack(move || churn(x ^ k, n))) } else { hot!(x, n, x, k, y.on_parent_stack(move || churn(x ^ k, n))) };
                d ^ x
            });
            let r = co.resume(x);
            log(E_KERN, r.as_return().map_or(1, |r| r), seed);
            churn(x, n)
        }
        _ => {
            let mut co = Coroutine::<u32, u32, u32, St>::with_stack(st, move |y, mut x| {
                let d = if float { hot!(float x, n, x, k, y.suspend(x ^ k)) } else { hot!(x, n, x, k, y.suspend(x ^ k)) };
                d ^ x
            });
            let mut next = |x: u32| {
                i += 1;
                match co.resume(x) {
                    CoroutineResult::Yield(v) => v ^ i,
                    CoroutineResult::Return(v) => v,
                }
            };
            if float { hot!(float seed, n + 1, x, k, next(x ^ k)) } else { hot!(seed, n + 1, x, k, next(x ^ k)) }
        }
    };
    log(E_KERN, d ^ x, seed);
}

impl<I: Val, Y: Val> Sus for Yielder<I, Y> {
    fn suspend(&self, seed: u32) -> u32 {
        sys::note(seed);
        let i = Yielder::suspend(self, Y::make(seed));
        arrived(E_INPUT, &i, sys::noted())
    }
    #[inline(never)]
    fn ksuspend(&self, seed: u32) -> u32 {
        sys::note(seed);
        let i = kernel!(seed, Yielder::suspend(self, Y::make(seed)));
        arrived(E_INPUT, &i, sys::noted())
    }
    fn on_parent(&self, lv: &Level, seed: u32) {
        let l = lv_ptr(lv);
        match if g().has(F_TYPES) { seed % 6 } else { seed % 2 * 4 } {
            0 => self.on_parent_stack(move || called::<(), ()>(l, seed, ())),
            1 => {
                let c = A64::make(seed);
                let r = self.on_parent_stack(move || called::<A64, u64>(l, seed, c));
                arrived(E_CALLED, &r, seed ^ 9);
            }
            2 => {
                let c = <[u8; 200]>::make(seed);
                let r = kernel!(seed, self.on_parent_stack(move || called::<[u8; 200], BigTok>(l, seed, c)));
                arrived(E_CALLED, &r, seed ^ 9);
            }
            3 => {
                let c = Tok::make(seed);
                let r = self.on_parent_stack(move || called::<Tok, A32>(l, seed, c));
                arrived(E_CALLED, &r, seed ^ 9);
            }
            4 => {
                let r = kernel!(seed, self.on_parent_stack(move || called::<(), u8>(l, seed, ())));
                arrived(E_CALLED, &r, seed ^ 9);
            }
            _ => {
                let c = Words::<4>::make(seed);
                let r = self.on_parent_stack(move || called::<Words<4>, Words<7>>(l, seed, c));
                arrived(E_CALLED, &r, seed ^ 9);
            }
        }
    }
}
#[derive(Clone, Copy)]
struct Lv(*const Level<'static>);
unsafe impl Send for Lv {}
fn lv_ptr(p: &Level<'_>) -> Lv {
    Lv(p as *const Level<'_> as *const Level<'static>)
}
fn called<C: Val, R: Val>(l: Lv, seed: u32, c: C) -> R {
    let l = l; // the whole of it
    arrived(E_CALL, &c, seed);
    let _ = exec(unsafe { &*l.0 }, 3);
    drop(c);
    R::make(seed ^ 9)
}

impl<I: Val, Y: Val, R: Val> Wrap<I, Y, R> {
    fn got(&mut self, r: CoroutineResult<Y, R>, seed: u32) -> Option<u32> {
        let _ = seed;
        match r {
            CoroutineResult::Yield(y) => Some(arrived(E_YIELD, &y, sys::noted())),
            CoroutineResult::Return(r) => {
                arrived(E_RETURN, &r, sys::noted());
                None
            }
        }
    }
}
impl<I: Val, Y: Val, R: Val> Co for Wrap<I, Y, R> {
    fn resume(&mut self, seed: u32) -> Option<u32> {
        sys::note(seed);
        let r = self.co.resume(I::make(seed));
        self.got(r, seed)
    }
    #[inline(never)]
    fn kresume(&mut self, seed: u32) -> Option<u32> {
        sys::note(seed);
        let r = kernel!(seed, self.co.resume(I::make(seed)));
        self.got(r, seed)
    }
    fn state(&self) -> (bool, bool) {
        (self.co.started(), self.co.done())
    }
    fn bounds(&self, p: usize) -> bool {
        self.co.trap_handler().stack_ptr_in_bounds(p)
    }
    fn limits(&self) -> (usize, usize) {
        self.lim
    }
    fn id(&self) -> usize {
        self.id
    }
    unsafe fn reset(&mut self) {
        let _ = self.seed;
        #[cfg(windows)]
        if g().away[self.id] > 0 {
            sys::maybe_old(self.lim.1);
        }
        self.co.force_reset()
    }
    fn unwind(&mut self) {
        self.co.force_unwind()
    }
    fn into_st(self: Box<Self>) -> St {
        let s = *self;
        s.co.into_stack()
    }
}

fn make<I: Val, Y: Val, R: Val, C: Val>(st: St, seed: u32, id: usize) -> Box<dyn Co> {
    let lim = (st.limit, st.base);
    let c = C::make(seed);
    let co = Coroutine::with_stack(st, move |y: &Yielder<I, Y>, i: I| -> R {
        arrived(E_CAP, &c, seed);
        arrived(E_INPUT, &i, sys::noted());
        drop(i);
        where_am_i(id);
        let s = g().next();
        let lv = Level { y: Some(y), id, traps: true, parent: true };
        let r = match exec(&lv, 0) {
            Ok(()) => {
                drop(c);
                sys::note(s);
                R::make(s)
            }
            Err(Trapped(t)) => {
                // only natively: where a trap is a return
                core::mem::forget(c);
                sys::note(t ^ 5);
                host_handler::<R>(t)
            }
        };
        r
    });
    let s = g();
    s.geom[id] = lim;
    s.handlers[id] = Some(Box::new(co.trap_handler()));
    s.frames[id].clear();
    Box::new(Wrap { co, id, lim, seed })
}
fn create(kind: u32, st: St, seed: u32, id: usize) -> Box<dyn Co> {
    macro_rules! kinds { ($($n:literal: $i:ty, $y:ty, $r:ty, $c:ty;)*) => { match kind { $( $n => make::<$i, $y, $r, $c>(st, seed, id), )* _ => make::<u32, u32, u32, ()>(st, seed, id) } } }
    kinds! {
        0: (), u64, Words<2>, u8;
        1: bool, usize, (), Tok;
        2: u8, Words<3>, u16, [u8; 3];
        3: u16, A64, u8, A16;
        4: u32, (), BigTok, A64;
        5: u64, u16, f64, Words<5>;
        6: i8, Tok, u32, [u8; 100];
        7: i16, f32, bool, BigTok;
        8: i32, Option<NonZeroU32>, A16, ();
        9: i64, [u8; 5], Option<Box<u32>>, A128;
        10: usize, u128, char, u64;
        11: u128, bool, [u8; 3], Words<1>;
        12: f32, (u8, u64, u16), Tok, A512;
        13: f64, char, Result<u8, u32>, [u8; 900];
        14: char, A16Z, i64, A256Z;
        15: [u8; 7], Option<Box<u32>>, A128, (u8, u64, u16);
        16: Words<1>, [u8; 200], usize, A8;
        17: Words<2>, Words<1>, [u8; 9], f64;
        18: A16, BigTok, A16Z, Words<16>;
        19: A64, f64, u128, [u8; 15];
        20: Tok, u8, (u8, u64, u16), [u8; 17];
        21: BigTok, Result<u8, u32>, A64, [u8; 16];
        22: Option<NonZeroU32>, i32, f32, u16;
        23: Option<Box<u32>>, A16, Words<6>, A32;
    }
}
const KINDS: u32 = 24;

// ---- the interpreter ----
pub struct Level<'a> {
    y: Option<&'a dyn Sus>,
    id: usize,
    traps: bool,
    parent: bool,
}

#[inline(never)]
fn deeper(lv: &Level, depth: u32, seed: u32) -> Result<(), Trapped> {
    let n = seed as usize % 24 + 1;
    let mut a = [0u32; 24];
    for (i, x) in a.iter_mut().enumerate().take(n) {
        *x = mix(seed ^ i as u32);
    }
    black_box(&mut a);
    if g().has(F_KERN) && n % 2 == 0 {
        // whatever happens in there happens with values in all registers that callees keep
        kernel!(seed, exec(lv, depth + 1)?);
    } else {
        exec(lv, depth + 1)?;
    }
    let a = black_box(&a);
    let ok = (0..n).all(|i| a[i] == mix(seed ^ i as u32));
    log(E_LOCALS, ok as u32, n as u32);
    Ok(())
}

fn resume(s: usize, k: bool) {
    let Some(mut co) = g().slots[s].take() else { return };
    g().busy |= 1 << s;
    let depth = g().depth;
    let seed = g().next();
    let id = co.id();
    log(E_RESUME, s as u32, id as u32);
    g().active.push(id);
    let r = if k && seed & 1 == 0 {
        co.kresume(seed)
    } else if k && !g().has(F_BACK) {
        regs_call(seed, || co.resume(seed))
    } else {
        co.resume(seed)
    };
    let top = g().active.pop();
    if top != Some(id) {
        log(E_BAD, 5, 0);
    }
    log(E_STATE, co.state().0 as u32 * 2 + co.state().1 as u32, r.is_none() as u32);
    g().depth = depth;
    g().busy &= !(1 << s);
    g().slots[s] = Some(co);
}
fn resume_if(s: usize, k: bool) {
    // finished ones cannot be resumed
    if g().depth < 12 && g().slots[s].as_ref().is_some_and(|c| !c.state().1) {
        resume(s, k);
    }
}

/// Ends the life of a coroutine.
#[inline(never)]
fn end(s: usize) {
    let Some(mut co) = g().slots[s].take() else { return };
    let (started, done) = co.state();
    let how = g().rnd(8);
    log(E_RESET, how, started as u32 * 2 + done as u32);
    if g().has(F_FINAL) && how == 7 && g().rnd(6) == 0 {
        // what must panic: nothing comes after it
        let what = g().rnd(4);
        log(E_FINAL, what, 0);
        if done {
            co.resume(1);
        } else if what == 0 {
            co.into_st();
        } else if started {
            if what == 1 { drop(co) } else { co.unwind() }
        } else {
            return;
        }
        log(E_FINAL, 99, started as u32 * 2 + done as u32);
        return;
    }
    if done {
        if how < 4 {
            co.unwind();
        }
    } else if !started && how < 5 {
        if how < 3 {
            co.unwind();
            log(E_STATE, co.state().0 as u32 * 2 + co.state().1 as u32, 2);
        } else {
            drop(co);
            return;
        }
    } else {
        unsafe { co.reset() };
        log(E_STATE, co.state().0 as u32 * 2 + co.state().1 as u32, 3);
    }
    if how % 2 == 0 {
        drop(co);
    } else {
        let id = co.id();
        let st = co.into_st();
        log(E_INTO, st.id, (g().geom[id] == (st.limit, st.base)) as u32);
        if how % 4 == 1 {
            let (kind, seed) = (g().kind(), g().next());
            let id = g().new_id();
            log(E_CREATE, s as u32, kind);
            let co = create(kind, st, seed, id);
            g().slots[s] = Some(co);
        }
    }
}

/// Runs `exec` on another stack.
fn on_other(lv: &Level, seed: u32) {
    let Some(st) = St::new() else { return };
    g().away[lv.id] += 1;
    let lim = (st.limit, st.base);
    // traps are for code directly on the coroutine's stack
    let lv2 = Level { y: lv.y, id: lv.id, traps: false, parent: lv.parent };
    let l = lv_ptr(&lv2);
    fn within(lim: (usize, usize)) {
        let x = Cell::new(0u32);
        let p = black_box(&x as *const _ as usize);
        log(E_WHERE, 99, (lim.0 <= p && p < lim.1) as u32);
    }
    match if g().has(F_TYPES) { seed % 6 } else { seed % 2 * 4 } {
        0 => on_stack(st, move || {
            within(lim);
            called::<(), ()>(l, seed, ())
        }),
        1 => {
            let c = A128::make(seed);
            let r = kernel!(seed, on_stack(st, move || called::<A128, A64>(l, seed, c)));
            arrived(E_CALLED, &r, seed ^ 9);
        }
        2 => {
            let c = BigTok::make(seed);
            let mut st = st;
            let r = on_stack(&mut st, move || {
                within(lim);
                called::<BigTok, Tok>(l, seed, c)
            });
            arrived(E_CALLED, &r, seed ^ 9);
        }
        3 => {
            let c = u64::make(seed);
            let r = on_stack(st, move || called::<u64, u128>(l, seed, c));
            arrived(E_CALLED, &r, seed ^ 9);
        }
        4 => {
            let r = kernel!(seed, on_stack(st, move || called::<(), f64>(l, seed, ())));
            arrived(E_CALLED, &r, seed ^ 9);
        }
        _ => {
            let c = [0u8; 33];
            let r = on_stack(st, move || {
                within(lim);
                black_box(&c);
                called::<(), [u8; 100]>(l, seed, ())
            });
            arrived(E_CALLED, &r, seed ^ 9);
        }
    }
    g().away[lv.id] -= 1;
}

#[inline(never)]
fn bounds(s: usize) {
    let Some(co) = g().slots[s].as_ref() else { return };
    let (lo, hi) = co.limits();
    let r = g().next() as usize;
    let mid = lo + r % (hi - lo);
    let mut bits = 0;
    for (i, p) in [lo.wrapping_sub(1), lo, lo + 1, mid, hi - 1, hi, hi + 1, 0, usize::MAX, sys::main_stack(), lo ^ isize::MIN as usize, mid ^ isize::MIN as usize].into_iter().enumerate() {
        bits |= (co.bounds(p) as u32) << i;
    }
    log(E_BOUNDS, bits, 0);
}

/// A coroutine with as little stack as its closure leaves possible, or nearly.
#[inline(never)]
fn geometry(seed: u32) {
    fn case<C: Val>(seed: u32) {
        let s = g();
        let al = STACK_ALIGNMENT;
        let room = sys::SMALL + s.rnd(64) as usize * al;
        let limit = sys::arena() + sys::ARENA - GEOM_AREA + 2048 + s.rnd(128) as usize * al;
        let base = limit + size_of::<C>().next_multiple_of(al) + if align_of::<C>() > al { align_of::<C>() } else { 0 } + room;
        let base = base.next_multiple_of(al);
        let st = St::at(limit, base, 0);
        let c = C::make(seed);
        let end = s.rnd(4);
        log(E_GEOM, size_of::<C>() as u32 % 2, end);
        let tok = Tok::make(seed);
        let mut co = Coroutine::<u32, u32, u32, St>::with_stack(st, move |y, i| {
            // the closure's own stack begins right below the captured state
            let x = Cell::new(0u32);
            let p = black_box(&x as *const _ as usize);
            log(E_WHERE, 98, (limit <= p && p < base) as u32);
            let j = y.suspend(i ^ 3);
            arrived(E_CAP, &c, seed);
            let _t = tok;
            j ^ 4
        });
        if end == 0 {
            // never started: the closure is destroyed
            drop(co);
            log(E_UNSTARTED, 0, 0);
            return;
        }
        match co.resume(seed) {
            CoroutineResult::Yield(v) => log(E_YIELD, v, seed),
            CoroutineResult::Return(_) => log(E_BAD, 6, 0),
        }
        if end == 1 {
            unsafe { co.force_reset() };
            drop(co.into_stack());
            return;
        }
        match co.resume(!seed) {
            CoroutineResult::Return(v) => log(E_RETURN, v, seed),
            CoroutineResult::Yield(_) => log(E_BAD, 6, 0),
        }
        let st = co.into_stack();
        if end == 2 {
            drop(st);
            return;
        }
        // used again at once
        let mut co = Coroutine::<(), (), u64, St>::with_stack(st, |_, ()| 77);
        match co.resume(()) {
            CoroutineResult::Return(v) => log(E_RETURN, v as u32, 0),
            CoroutineResult::Yield(_) => log(E_BAD, 6, 0),
        }
    }
    match g().rnd(18) {
        0 => case::<()>(seed),
        1 => case::<u8>(seed),
        2 => case::<[u8; 7]>(seed),
        3 => case::<u64>(seed),
        4 => case::<[u8; 15]>(seed),
        5 => case::<[u8; 16]>(seed),
        6 => case::<[u8; 17]>(seed),
        7 => case::<Words<3>>(seed),
        8 => case::<[u8; 500]>(seed),
        9 => case::<[u8; 900]>(seed),
        10 => case::<A16>(seed),
        11 => case::<A32>(seed),
        12 => case::<A64>(seed),
        13 => case::<A128>(seed),
        14 => case::<A512>(seed),
        15 => case::<A256Z>(seed),
        16 => case::<BigTok>(seed),
        _ => case::<u128>(seed),
    }
}

#[inline(never)]
fn overflow(n: u32) -> u32 {
    let mut a = [n; 32];
    black_box(&mut a);
    if black_box(n) == u32::MAX {
        return 0;
    }
    overflow(n + 1) ^ black_box(a[(n % 32) as usize])
}

#[inline(never)]
fn trap(lv: &Level) -> Result<(), Trapped> {
    let seed = g().next();
    let kind = g().rnd(3);
    log(E_TRAP, kind, 0);
    if !sys::NATIVE {
        sys::note(seed ^ 5);
        sys::arm(seed);
        match kind {
            0 => sys::illegal(),
            1 => sys::wild(),
            _ => {
                black_box(overflow(0));
            }
        }
        log(E_BAD, 7, 0);
    }
    let _ = lv;
    Err(Trapped(seed))
}

#[inline(never)]
pub fn exec(lv: &Level, depth: u32) -> Result<(), Trapped> {
    let cell = Cell::new(mix(depth));
    {
        let s = g();
        let id = *s.active.last().unwrap();
        s.frames[id].push(black_box(&cell as *const _ as usize));
    }
    g().depth += 1;
    let r = ops(lv, depth);
    if r.is_ok() {
        g().depth -= 1;
        let s = g();
        let id = *s.active.last().unwrap();
        if s.frames[id].pop() != Some(&cell as *const _ as usize) || cell.get() != mix(depth) {
            log(E_BAD, 8, 0);
        }
    }
    r
}
#[inline(never)]
fn backtrace() {
    let s = g();
    let mut v: Vec<usize> = Vec::new();
    for id in s.active.iter() {
        v.extend_from_slice(&s.frames[*id]);
    }
    sys::backtrace(v.as_ptr(), v.len());
}

#[inline(never)]
fn ops(lv: &Level, depth: u32) -> Result<(), Trapped> {
    let n = 1 + g().rnd(10);
    for _ in 0..n {
        if g().fuel == 0 {
            return Ok(());
        }
        g().fuel -= 1;
        let op = g().rnd(27);
        let s = g().rnd(SLOTS as u32) as usize;
        match op {
            0..=4 if lv.y.is_some() => {
                let y = lv.y.unwrap();
                let seed = g().next();
                let id = *g().active.last().unwrap();
                let d = g().depth;
                let k = op < 2 && g().has(F_KERN);
                if k && seed & 1 == 0 {
                    y.ksuspend(seed)
                } else if k && !g().has(F_BACK) {
                    regs_call(seed, || y.suspend(seed))
                } else {
                    y.suspend(seed)
                };
                g().depth = d;
                if *g().active.last().unwrap() != id {
                    log(E_BAD, 9, 0);
                }
            }
            0..=9 => resume_if(s, op % 2 == 0 && g().has(F_KERN)),
            10..=13 => {
                if g().slots[s].is_some() || g().dead(s) {
                    continue;
                }
                let Some(st) = St::new() else { continue };
                let (kind, seed) = (g().kind(), g().next());
                let id = g().new_id();
                log(E_CREATE, s as u32, kind);
                let co = create(kind, st, seed, id);
                g().slots[s] = Some(co);
            }
            14 | 15 if g().depth < 12 && depth < 4 => {
                let seed = g().next();
                deeper(lv, depth, seed)?;
            }
            16 | 17 if g().depth < 12 && g().has(F_ONSTACK) => {
                let seed = g().next();
                if g().keep(seed) { regs_call(seed, || on_other(lv, seed)) } else { on_other(lv, seed) };
            }
            18 | 19 if g().has(F_PARENT) && lv.parent && lv.y.is_some() && g().depth < 12 => {
                let seed = g().next();
                // the yielder cannot be used from there
                let lv2 = Level { y: None, id: lv.id, traps: false, parent: false };
                if g().keep(seed) { regs_call(seed, || lv.y.unwrap().on_parent(&lv2, seed)) } else { lv.y.unwrap().on_parent(&lv2, seed) };
            }
            20 if g().has(F_BOUNDS) => bounds(s),
            21 if g().has(F_END) => end(s),
            22 if g().has(F_TRAP) && lv.traps && g().rnd(2) == 0 => return trap(lv),
            23 if g().has(F_GEOM) => {
                let seed = g().next();
                geometry(seed);
            }
            24 | 25 if g().has(F_BACK) => backtrace(),
            26 if g().has(F_KERN) && g().depth < 12 => {
                let seed = g().next();
                kloop(seed);
            }
            _ => {}
        }
    }
    Ok(())
}
impl G {
    /// Through the calls that look at the registers?
    fn keep(&self, seed: u32) -> bool {
        self.has(F_KERN) && !self.has(F_BACK) && seed & 1 == 1
    }
    /// Is the slot's coroutine running (or gone)?
    fn dead(&self, s: usize) -> bool {
        self.busy & 1 << s != 0
    }
    fn new_id(&mut self) -> usize {
        self.away.push(0);
        self.geom.push((0, 0));
        self.handlers.push(None);
        self.frames.push(Vec::new());
        self.geom.len() - 1
    }
}

const SLOTS: usize = 6;
/// The end of the arena is left to `geometry`.
const GEOM_AREA: usize = 64 << 10;

/// The whole program.
pub fn run(seed: u64, fuel: u32) {
    let mut slots = Vec::new();
    slots.resize_with(SLOTS, || None);
    unsafe {
        STATE = Some(G {
            rng: seed | 1 << 63,
            fuel: fuel & 0xffff,
            focus: fuel >> 16,
            cursor: sys::arena() + 4096,
            stacks: 0,
            fresh: 0,
            free: Vec::new(),
            slots,
            frames: Vec::new(),
            active: Vec::new(),
            away: Vec::new(),
            handlers: Vec::new(),
            geom: Vec::new(),
            depth: 0,
            busy: 0,
        });
    }
    let id = g().new_id();
    g().active.push(id);
    let lv = Level { y: None, id: 0, traps: false, parent: false };
    while g().fuel > 0 {
        let _ = exec(&lv, 0);
    }
    for s in 0..SLOTS {
        if let Some(mut co) = g().slots[s].take() {
            let st = co.state();
            if !st.1 && st.0 {
                unsafe { co.reset() };
            }
            drop(co);
        }
    }
    log(E_END, 0, 0);
}
