//! Values of many types crossing every kind of switch.
use super::*;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::num::*;
use std::rc::Rc;

/// A type whose values can be made from, and checked against, a seed.
pub trait Val: 'static + Sized {
    const NAME: &'static str;
    fn make(s: u64) -> Self;
    fn ok(&self, s: u64) -> bool;
}
fn aligned<T>(x: &T) -> bool {
    (x as *const T as usize) % std::mem::align_of::<T>() == 0
}
macro_rules! plain {
    ($($t:ty, $n:literal, $e:expr;)*) => { $(impl Val for $t {
        const NAME: &'static str = $n;
        fn make(s: u64) -> Self { let f: fn(u64) -> $t = $e; f(s) }
        fn ok(&self, s: u64) -> bool { aligned(self) && *self == Self::make(s) }
    })* };
}
fn bytes<const N: usize>(s: u64) -> [u8; N] {
    let mut a = [0; N];
    for (i, x) in a.iter_mut().enumerate() {
        *x = mix(s, i as u64) as u8;
    }
    a
}
#[derive(PartialEq)]
#[repr(C)]
pub struct Padded(u8, u64, u16);
#[derive(PartialEq)]
#[repr(C, packed)]
pub struct Packed(u8, u64, u16);
#[derive(PartialEq)]
#[repr(align(16))]
pub struct A16(u64);
#[derive(PartialEq)]
#[repr(align(32))]
pub struct A32([u8; 33]);
#[derive(PartialEq)]
#[repr(align(64))]
pub struct A64(u8);
#[derive(PartialEq)]
#[repr(align(128))]
pub struct A128([u8; 3]);
#[derive(PartialEq)]
#[repr(align(4096))]
pub struct A4096(u32);
#[derive(PartialEq)]
#[repr(align(8))]
pub struct ZAl;
#[derive(PartialEq)]
pub enum En {
    A,
    B(u8),
    C(u64, [u16; 3]),
    D(Box<u32>),
    E(Option<NonZeroU32>),
}
#[derive(PartialEq)]
pub struct Big([u64; 700]);
plain! {
    (), "()", |_| ();
    u8, "u8", |s| s as u8;
    i16, "i16", |s| s as i16;
    u32, "u32", |s| s as u32;
    u64, "u64", |s| s;
    usize, "usize", |s| s as usize;
    i128, "i128", |s| (s as i128) << 61 ^ mix(s, 3) as i128;
    f32, "f32", |s| s as f32 * 0.5;
    f64, "f64", |s| s as f64 * 0.25;
    bool, "bool", |s| s & 1 == 1;
    char, "char", |s| char::from_u32((s % 0xD7FF) as u32).unwrap();
    NonZeroUsize, "NonZeroUsize", |s| NonZeroUsize::new(s as usize | 1).unwrap();
    Option<NonZeroU64>, "Option<NonZeroU64>", |s| NonZeroU64::new(if s % 3 == 0 { 0 } else { s });
    Option<u32>, "Option<u32>", |s| if s % 3 == 0 { None } else { Some(s as u32) };
    Result<u8, u64>, "Result<u8,u64>", |s| if s % 2 == 0 { Ok(s as u8) } else { Err(s) };
    Result<(), ()>, "Result<(),()>", |s| if s % 2 == 0 { Ok(()) } else { Err(()) };
    [u8; 3], "[u8;3]", bytes::<3>;
    [u8; 4], "[u8;4]", bytes::<4>;
    [u8; 5], "[u8;5]", bytes::<5>;
    [u8; 7], "[u8;7]", bytes::<7>;
    [u8; 8], "[u8;8]", bytes::<8>;
    [u8; 9], "[u8;9]", bytes::<9>;
    [u8; 12], "[u8;12]", bytes::<12>;
    [u8; 16], "[u8;16]", bytes::<16>;
    [u8; 17], "[u8;17]", bytes::<17>;
    [u8; 200], "[u8;200]", bytes::<200>;
    (u32, u32), "(u32,u32)", |s| (s as u32, (s >> 32) as u32);
    (f32, u16), "(f32,u16)", |s| (s as f32, s as u16);
    (u64, u8), "(u64,u8)", |s| (s, s as u8);
    (usize, usize), "(usize,usize)", |s| (s as usize, mix(s, 1) as usize);
    [f64; 4], "[f64;4]", |s| [s as f64, 1.5, -(s as f64), 0.125];
    A16, "align16", |s| A16(s);
    A32, "align32", |s| A32(bytes(s));
    A64, "align64", |s| A64(s as u8);
    A128, "align128", |s| A128(bytes(s));
    A4096, "align4096", |s| A4096(s as u32);
    ZAl, "zst align8", |_| ZAl;
    En, "enum", |s| match s % 5 { 0 => En::A, 1 => En::B(s as u8), 2 => En::C(s, [s as u16; 3]), 3 => En::D(Box::new(s as u32)), _ => En::E(NonZeroU32::new(s as u32)) };
    Big, "5600 bytes", |s| { let mut a = [0; 700]; for (i, x) in a.iter_mut().enumerate() { *x = mix(s, i as u64); } Big(a) };
    String, "String", |s| format!("value {s}");
    Vec<u16>, "Vec<u16>", |s| (0..s % 40).map(|i| mix(s, i) as u16).collect();
    Box<u64>, "Box<u64>", |s| Box::new(s);
    Option<Box<u8>>, "Option<Box<u8>>", |s| if s % 3 == 0 { None } else { Some(Box::new(s as u8)) };
    Rc<String>, "Rc<String>", |s| Rc::new(format!("{s:x}"));
    Result<Vec<u8>, String>, "Result<Vec<u8>,String>", |s| if s % 2 == 0 { Ok(vec![s as u8; (s % 9) as usize]) } else { Err(format!("{s}")) };
}
impl Val for Padded {
    const NAME: &'static str = "struct with padding";
    fn make(s: u64) -> Self {
        Padded(s as u8, mix(s, 1), mix(s, 2) as u16)
    }
    fn ok(&self, s: u64) -> bool {
        aligned(self) && *self == Self::make(s)
    }
}
impl Val for Packed {
    const NAME: &'static str = "packed struct";
    fn make(s: u64) -> Self {
        Packed(s as u8, mix(s, 1), mix(s, 2) as u16)
    }
    fn ok(&self, s: u64) -> bool {
        let o = Self::make(s);
        { self.0 == o.0 && ({ self.1 } == { o.1 }) && ({ self.2 } == { o.2 }) }
    }
}
/// Zero-sized type with a destructor; the registry counts instances.
pub struct ZDrop(());
impl Val for ZDrop {
    const NAME: &'static str = "zst with destructor";
    fn make(_: u64) -> Self {
        std::mem::forget(D::new());
        ZDrop(())
    }
    fn ok(&self, _: u64) -> bool {
        true
    }
}
impl Drop for ZDrop {
    fn drop(&mut self) {
        // destroys some live instance that a ZDrop created
        let i = REG.with(|r| r.borrow().state.iter().position(|s| *s == 1));
        match i {
            Some(i) => drop(D(i as u32)),
            None => REG.with(|r| r.borrow_mut().bad.push("zero-sized value destroyed too often".into())),
        }
    }
}
macro_rules! dropping {
    ($($n:ident $name:literal { $($f:ident : $t:ty = $e:expr),* } $(#[$m:meta])*;)*) => { $(
        $(#[$m])*
        pub struct $n { $($f: $t,)* d: D }
        impl Val for $n {
            const NAME: &'static str = $name;
            fn make(s: u64) -> Self { let _ = s; $n { $($f: { let f: fn(u64) -> $t = $e; f(s) },)* d: D::new() } }
            fn ok(&self, s: u64) -> bool { let _ = s; let _ = &self.d; aligned(self) $(&& self.$f == { let f: fn(u64) -> $t = $e; f(s) })* }
        }
    )* };
}
dropping! {
    D4 "4 bytes with destructor" { };
    D8 "8 bytes with destructor" { a: u32 = |s| s as u32 };
    D12 "16 bytes with destructor" { a: u64 = |s| s };
    D65 "65 bytes with destructor" { a: [u8; 61] = bytes::<61> };
    DA64 "align64 with destructor" { a: u16 = |s| s as u16 } #[repr(align(64))];
    DBox "heap with destructor" { a: Vec<u8> = |s| vec![s as u8; (s % 33) as usize] };
}

struct Script {
    seed: u64,
    rounds: usize,
    /// per switch of the coroutine: what it does before suspending
    ops: Vec<u8>,
    /// drop / force / reset instead of finishing, after this many resumes
    stop: Option<(usize, u8)>,
    size: usize,
}

thread_local! {
    static BAD: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
fn bad(m: String) {
    BAD.with(|b| b.borrow_mut().push(m))
}
struct Sy<T>(T);
unsafe impl<T> Send for Sy<T> {}
impl<T> Sy<T> {
    fn get(self) -> T {
        self.0
    }
}

fn ring<I: Val, Y: Val, R: Val>(sc: &Script) -> Result<(), String> {
    reg_reset();
    BAD.with(|b| b.borrow_mut().clear());
    let (seed, rounds) = (sc.seed, sc.rounds);
    let ops = sc.ops.clone();
    let (si, sy, sr) = (mix(seed, 101), mix(seed, 102), mix(seed, 103));
    let sub = |a: u64, k: usize| mix(a, k as u64);
    let body = move |y: &Yielder<I, Y>, first: I| -> R {
        let mut cur = first;
        for k in 0..rounds {
            if !cur.ok(sub(si, k)) {
                bad(format!("input {k} of type {} arrived damaged", I::NAME));
            }
            match ops[k % ops.len()] {
                0 => {}
                1 => {
                    let c = Sy(cur);
                    let y0 = Sy(Y::make(sub(sy, k + 5000)));
                    let (a, b) = y
                        .on_parent_stack(move || {
                            let a = c.get();
                            if !a.ok(sub(si, k)) {
                                bad(format!("capture {} damaged on parent stack", I::NAME));
                            }
                            Sy((a, y0.get()))
                        })
                        .get();
                    cur = a;
                    if !cur.ok(sub(si, k)) || !b.ok(sub(sy, k + 5000)) {
                        bad(format!("on_parent_stack result ({}, {}) damaged", I::NAME, Y::NAME));
                    }
                }
                2 => {
                    let st = DefaultStack::new(512 * 1024).expect("harness: stack");
                    let c = cur;
                    cur = on_stack(st, move || {
                        if !c.ok(sub(si, k)) {
                            bad(format!("capture {} damaged on on_stack", I::NAME));
                        }
                        c
                    });
                    if !cur.ok(sub(si, k)) {
                        bad(format!("on_stack result {} damaged", I::NAME));
                    }
                }
                3 => {
                    let st = DefaultStack::new(512 * 1024).expect("harness: stack");
                    let yv = on_stack(st, || y.suspend(Y::make(sub(sy, k))));
                    cur = yv;
                    continue;
                }
                4 => {
                    let st = DefaultStack::new(512 * 1024).expect("harness: stack");
                    // a result of a type of its own
                    let r: R = on_stack(st, || R::make(sub(sr, k + 9000)));
                    if !r.ok(sub(sr, k + 9000)) {
                        bad(format!("on_stack result {} damaged", R::NAME));
                    }
                }
                _ => drop(y.on_parent_stack(|| ())),
            }
            let n = y.suspend(Y::make(sub(sy, k)));
            drop(cur);
            cur = n;
        }
        if !cur.ok(sub(si, rounds)) {
            bad(format!("last input of type {} arrived damaged", I::NAME));
        }
        R::make(sub(sr, rounds))
    };
    let what = format!("<{}, {}, {}>", I::NAME, Y::NAME, R::NAME);
    {
        let mut co: Coroutine<I, Y, R> = Coroutine::with_stack(DefaultStack::new(sc.size).expect("harness: stack"), body);
        let mut finished = false;
        for k in 0..=rounds {
            if let Some((n, how)) = sc.stop {
                if n == k {
                    match how {
                        0 => break,
                        1 if cfg!(feature = "unwind") || !co.started() => co.force_unwind(),
                        _ => break,
                    }
                    ensure!(co.done(), "{what}: not done after force_unwind");
                    break;
                }
            }
            let r = co.resume(I::make(sub(si, k)));
            if k < rounds {
                match r {
                    CoroutineResult::Yield(v) if k % 2 == 0 => ensure!(v.ok(sub(sy, k)), "{what}: yielded value {k} damaged"),
                    r => match r.as_yield() {
                        Some(v) => ensure!(v.ok(sub(sy, k)), "{what}: yielded value {k} damaged (as_yield)"),
                        None => return Err(format!("{what}: suspension {k} was not reported as Yield")),
                    },
                }
            } else {
                ensure!(co.done() && co.started(), "{what}: not done after returning");
                match r {
                    CoroutineResult::Return(v) if k % 2 == 0 => ensure!(v.ok(sub(sr, k)), "{what}: returned value damaged"),
                    r => match r.as_return() {
                        Some(v) => ensure!(v.ok(sub(sr, k)), "{what}: returned value damaged (as_return)"),
                        None => return Err(format!("{what}: completion was not reported as Return")),
                    },
                }
                finished = true;
            }
        }
        // projections of the other variant yield nothing and destroy the value
        let p: CoroutineResult<Y, R> = CoroutineResult::Yield(Y::make(1));
        ensure!(p.as_return().is_none(), "{what}: as_return of Yield");
        let p: CoroutineResult<Y, R> = CoroutineResult::Return(R::make(1));
        ensure!(p.as_yield().is_none(), "{what}: as_yield of Return");
        if !finished && !cfg!(feature = "unwind") && co.started() && !co.done() {
            // cannot be dropped without unwinding: finish it
            let mut k = sc.stop.map_or(0, |s| s.0);
            while !co.done() {
                drop(co.resume(I::make(sub(si, k))));
                k += 1;
            }
        }
    }
    if let Some(m) = BAD.with(|b| b.borrow_mut().pop()) {
        return Err(format!("{what}: {m}"));
    }
    reg_done(&what)
}

#[cfg(feature = "f-types")]
pub use table::{case, sizes};
#[cfg(feature = "f-types")]
mod table {
use super::*;
type RingFn = fn(&Script) -> Result<(), String>;
macro_rules! rings {
    ($(($i:ty, $y:ty, $r:ty)),* $(,)?) => { &[$((ring::<$i, $y, $r> as RingFn, <$i as Val>::NAME, <$y as Val>::NAME, <$r as Val>::NAME)),*] };
}
/// Every type in every role; roles combined so that small meets large, dropping meets plain.
static RINGS: &[(RingFn, &str, &str, &str)] = rings![
    ((), (), ()), ((), u64, ()), (u8, (), Big), (i16, u8, ZDrop), (u32, i16, [u8; 17]), (u64, u32, D12), (usize, usize, u64), (i128, u64, u8),
    (f32, i128, D4), (f64, f32, A64), (bool, f64, f64), (char, bool, i128), (NonZeroUsize, char, char), (Option<NonZeroU64>, NonZeroUsize, bool),
    (Option<u32>, Option<NonZeroU64>, f32), (Result<u8, u64>, Option<u32>, NonZeroUsize), (Result<(), ()>, Result<u8, u64>, Option<NonZeroU64>),
    ([u8; 3], Result<(), ()>, Option<u32>), ([u8; 4], [u8; 3], Result<u8, u64>), ([u8; 5], [u8; 4], Result<(), ()>), ([u8; 7], [u8; 5], [u8; 3]),
    ([u8; 8], [u8; 7], [u8; 4]), ([u8; 9], [u8; 8], [u8; 5]), ([u8; 12], [u8; 9], [u8; 7]), ([u8; 16], [u8; 12], [u8; 8]), ([u8; 17], [u8; 16], [u8; 9]),
    ([u8; 200], [u8; 17], [u8; 12]), ((u32, u32), [u8; 200], [u8; 16]), ((f32, u16), (u32, u32), [u8; 200]), ((u64, u8), (f32, u16), (u32, u32)),
    ((usize, usize), (u64, u8), (f32, u16)), ([f64; 4], (usize, usize), (u64, u8)), (A16, [f64; 4], (usize, usize)), (A32, A16, [f64; 4]), (A64, A32, A16),
    (A128, A64, A32), (A4096, A128, D65), (ZAl, A4096, A128), (En, ZAl, A4096), (Big, En, ZAl), (String, Big, En), (Vec<u16>, String, ()),
    (Box<u64>, Vec<u16>, String), (Option<Box<u8>>, Box<u64>, Vec<u16>), (Rc<String>, Option<Box<u8>>, Box<u64>), (Result<Vec<u8>, String>, Rc<String>, Option<Box<u8>>),
    (Padded, Result<Vec<u8>, String>, Rc<String>), (Packed, Padded, Result<Vec<u8>, String>), (D4, Packed, Padded), (D8, D4, Packed),
    (D12, D8, D4), (D65, D12, D8), (DA64, D65, D12), (DBox, DA64, D65), (u8, DBox, DA64), ((), u8, DBox), (D4, D4, D4), (D65, D65, D65), (u32, D8, u16r),
    (Big, Big, Big), (u64, u64, u64), (A4096, u8, D4),
];
/// One value of a given size in every role, as input, yielded value, result, and closure capture.
fn plain_ring<T: Copy + PartialEq + 'static, const N: usize>(make: fn(u64) -> T, what: &str, seed: u64, rounds: usize, small: bool) -> Result<(), String> {
    let st = DefaultStack::new(if small { 256 * 1024 } else { 6 << 20 }).expect("harness: stack");
    let cap = Box::new(make(mix(seed, 77)));
    let mut co: Coroutine<T, T, [T; N]> = Coroutine::with_stack(st, move |y, mut a| {
        for k in 0..rounds as u64 {
            if a != make(mix(seed, k)) {
                bad(format!("input {k} arrived damaged"));
            }
            a = y.suspend(make(mix(seed, k + 1000)));
        }
        if a != make(mix(seed, rounds as u64)) {
            bad("last input arrived damaged".into());
        }
        if *cap != make(mix(seed, 77)) {
            bad("captured value damaged".into());
        }
        std::array::from_fn(|i| make(mix(seed, 2000 + i as u64)))
    });
    for k in 0..rounds as u64 {
        match co.resume(make(mix(seed, k))) {
            CoroutineResult::Yield(v) => ensure!(v == make(mix(seed, k + 1000)), "{what}: yielded value {k} damaged"),
            CoroutineResult::Return(_) => return Err(format!("{what}: returned early")),
        }
    }
    match co.resume(make(mix(seed, rounds as u64))) {
        CoroutineResult::Return(v) => ensure!((0..N).all(|i| v[i] == make(mix(seed, 2000 + i as u64))), "{what}: result damaged"),
        _ => return Err(format!("{what}: returned late")),
    }
    match BAD.with(|b| b.borrow_mut().pop()) {
        Some(m) => Err(format!("{what}: {m}")),
        None => Ok(()),
    }
}
type PlainFn = fn(&str, u64, usize, bool) -> Result<(), String>;
macro_rules! plains {
    ($(($t:ty, $($n:literal)*))*) => { &[$($((|w, s, r, m| plain_ring::<[$t; $n], 1>(many::<$t, $n>, w, s, r, m), stringify!($t), $n, std::mem::size_of::<$t>() * $n)),*),*] };
}
trait Word: Copy + PartialEq + 'static {
    fn word(x: u64) -> Self;
}
impl Word for u8 {
    fn word(x: u64) -> u8 {
        x as u8
    }
}
impl Word for u16 {
    fn word(x: u64) -> u16 {
        x as u16
    }
}
impl Word for u32 {
    fn word(x: u64) -> u32 {
        x as u32
    }
}
impl Word for usize {
    fn word(x: u64) -> usize {
        x as usize
    }
}
impl Word for u128 {
    fn word(x: u64) -> u128 {
        (x as u128) << 64 | mix(x, 5) as u128
    }
}
fn many<T: Word, const N: usize>(s: u64) -> [T; N] {
    std::array::from_fn(|i| T::word(mix(s, i as u64)))
}
static PLAINS: &[(PlainFn, &str, usize, usize)] = plains![
    (u8, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 39 40 41 47 48 49 55 56 57 63 64 65 71 72 73 96 127 128 129 160 192 255 256 257 384 511 512 513 1000 1023 1024 1025 1500 2047 2048 2049 4000 4095 4096 4097 8191 8192 8193 16384 20000 32767 32769 65535 65536 65537 100000)
    (u16, 1 2 3 4 5 6 7 9 17 100)
    (u32, 1 2 3 4 5 6 7 8 9 10 16 17 33 1025)
    (usize, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 31 32 33 63 64 65 128 500 512 513 1024 2000 8192)
    (u128, 0 1 2 3 4 5 8 9 16 33 256)
];
pub fn sizes(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    BAD.with(|b| b.borrow_mut().clear());
    let (f, ty, n, size) = PLAINS[t.draw(PLAINS.len() as u32) as usize];
    let rounds = t.draw(if size > 4096 { 4 } else { 12 }) as usize;
    let seed = t.u64();
    let what = format!("[{ty}; {n}]");
    note(st, rounds >= 1 && size > 0, format!("{what} as input, yield and return; seed {seed:#x}, {rounds} suspensions"));
    st.class(if size > 4096 { "larger_than_a_page" } else if size > std::mem::size_of::<usize>() { "larger_than_a_word" } else { "up_to_a_word" });
    f(&what, seed, rounds, size <= 2049)
}

/// Zero-sized values with destructors only meet values without counted ones.
static ZRINGS: &[(RingFn, &str, &str, &str)] = rings![(ZDrop, u64, u8), (u8, ZDrop, Big), ([u8; 17], u8, ZDrop), (ZDrop, ZDrop, ZDrop), (ZDrop, (), A64), (String, ZDrop, Box<u64>)];
#[allow(non_camel_case_types)]
type u16r = (u64, u8);

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    let n = RINGS.len() + ZRINGS.len();
    let k = t.draw(n as u32) as usize;
    let (f, i, y, r) = if k < RINGS.len() { RINGS[k] } else { ZRINGS[k - RINGS.len()] };
    let rounds = t.draw(7) as usize;
    let seed = t.u64();
    let nops = 1 + t.draw(4) as usize;
    let ops: Vec<u8> = (0..nops).map(|_| t.draw(6) as u8).collect();
    let stop = if t.chance(1, 4) { Some((t.draw(rounds as u32 + 1) as usize, t.draw(2) as u8)) } else { None };
    let size = 768 * 1024 + 4096 * t.draw(4) as usize;
    let sc = Script { seed, rounds, ops, stop, size };
    let distinct = i != y || y != r;
    note(st, rounds >= 2 && distinct, format!("input {i}, yield {y}, return {r}; seed {seed:#x}, {rounds} suspensions, per-round actions {:?}, stop {:?}", sc.ops, sc.stop));
    if sc.stop.is_some() {
        st.class("stopped_early");
    }
    if sc.ops.iter().any(|o| *o != 0) {
        st.class("with_on_stack_or_parent");
    }
    f(&sc)
}
}
