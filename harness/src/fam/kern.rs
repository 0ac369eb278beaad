//! Switches inlined into register-hungry code: whatever the compiler keeps in registers, stack
//! slots or memory around a switch must survive it. Each kernel runs twice, once switching and
//! once calling a plain function that returns the same values; the results must agree.
use super::kern_el::{El, V4};
use super::*;
use crate::engine::stack::Custom;
use crate::rt::Tape;
use corosensei::stack::DefaultStack;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;

/// N live values through `rounds` switches.
#[inline(always)]
fn kernel<E: El, const N: usize>(seed: u64, rounds: u64, mut sw: impl FnMut(u64) -> u64) -> u64 {
    let mut v = [E::of(0); N];
    let mut i = 0;
    while i < N {
        v[i] = E::of(seed.rotate_left(i as u32 * 7) ^ i as u64);
        i += 1;
    }
    let mut h = seed;
    let mut k = 0;
    while k < rounds {
        let r = sw(k);
        let first = v[0];
        let mut i = 0;
        while i < N {
            let o = if i + 1 < N { v[i + 1] } else { first };
            v[i] = v[i].step(r, i as u32, o);
            i += 1;
        }
        h = h.rotate_left(5) ^ r ^ v[N / 2].bits();
        k += 1;
    }
    let mut i = 0;
    while i < N {
        h = h.rotate_left(11) ^ v[i].bits();
        i += 1;
    }
    h
}
/// Explicit scalars of mixed types, two switches per iteration.
#[inline(always)]
fn mixed(seed: u64, rounds: u64, mut sw: impl FnMut(u64) -> u64) -> u64 {
    let (mut a, mut b, mut c, mut d, mut e) = (seed, seed as u32, !seed, seed as u16, seed as usize);
    let (mut f, mut g) = ((seed % 97) as f64, (seed % 89) as f32);
    let (mut p, mut q) = (seed & 1 == 0, seed as i64 as i128);
    let mut k = 0;
    while k < rounds {
        let r = sw(k);
        k += 1;
        a = a.wrapping_mul(r | 1) ^ c;
        b = b.rotate_left(3) ^ r as u32;
        if p {
            c ^= a >> 7;
        }
        f = f * 0.5 + (r % 61) as f64;
        let s = if k < rounds { sw(k) } else { b as u64 };
        k += 1;
        d = d.wrapping_add(s as u16) ^ b as u16;
        e = e.wrapping_sub(s as usize) ^ d as usize;
        g = g * 0.25 + (s % 31) as f32 + f as f32;
        p = (a ^ e as u64) & 4 != 0;
        q = q.wrapping_mul(3).wrapping_add(s as i128);
    }
    a ^ b as u64 ^ c.rotate_left(9) ^ (d as u64) << 48 ^ e as u64 ^ f.to_bits() ^ g.to_bits() as u64 ^ p as u64 ^ q as u64 ^ (q >> 64) as u64
}
/// One switch per recursion level, on the way down and on the way up.
#[inline(always)]
fn recursive(seed: u64, rounds: u64, mut sw: impl FnMut(u64) -> u64) -> u64 {
    #[inline(never)]
    fn rec(x: u64, k: u64, n: u64, sw: &mut dyn FnMut(u64) -> u64) -> u64 {
        if k >= n {
            return x;
        }
        let a = [x, x ^ 1, x.rotate_left(3), !x];
        let r = sw(k);
        let b = rec(a[1] ^ r, k + 2, n, sw);
        let s = if k + 1 < n { sw(k + 1) } else { 9 };
        a[0] ^ a[2].rotate_left(5) ^ a[3].wrapping_mul(b | 1) ^ s
    }
    rec(seed, 0, rounds, &mut sw)
}
/// A local changed by the other side while this side is inside the switch.
#[inline(always)]
fn shared(seed: u64, rounds: u64, mut sw: impl FnMut(u64) -> u64) -> u64 {
    let mut h = seed;
    let cell = [Cell::new(seed), Cell::new(0)];
    CELL.with(|c| c.set(cell.as_ptr() as usize));
    let mut k = 0;
    while k < rounds {
        cell[0].set(h ^ k);
        cell[1].set(k);
        let r = sw(k);
        h = h.rotate_left(3) ^ cell[0].get() ^ cell[1].get().wrapping_mul(31) ^ r;
        k += 1;
    }
    h
}
thread_local! {
    static CELL: Cell<usize> = const { Cell::new(0) };
}
#[inline(never)]
fn poke() {
    let p = CELL.with(|c| c.get());
    if p != 0 {
        let c = unsafe { &*(p as *const [Cell<u64>; 2]) };
        c[0].set(c[0].get().rotate_left(17) ^ 5);
        c[1].set(c[1].get() + 1000);
    }
}
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
mod simd {
    use super::*;
    #[cfg(target_arch = "x86")]
    use std::arch::x86::*;
    #[cfg(target_arch = "x86_64")]
    use std::arch::x86_64::*;
    #[target_feature(enable = "avx2")]
    #[inline]
    pub fn avx(seed: u64, rounds: u64, mut sw: impl FnMut(u64) -> u64) -> u64 {
        let mut v = [_mm256_set1_epi64x(0); 12];
        for i in 0..12 {
            v[i] = _mm256_set1_epi64x((seed ^ i as u64) as i64);
        }
        let mut k = 0;
        while k < rounds {
            let r = sw(k);
            let x = _mm256_set1_epi64x(r as i64);
            for i in 0..12 {
                v[i] = _mm256_add_epi64(_mm256_xor_si256(v[i], x), v[(i + 5) % 12]);
            }
            k += 1;
        }
        let mut h = 0u64;
        for x in v {
            let a: [u64; 4] = unsafe { std::mem::transmute(x) };
            h = h.rotate_left(7) ^ a[0] ^ a[1].rotate_left(1) ^ a[2].rotate_left(2) ^ a[3].rotate_left(3);
        }
        h
    }
    pub fn have() -> bool {
        is_x86_feature_detected!("avx2")
    }
}

/// A message type of its own for every kernel, so that every kernel has its own switch code.
struct W<const T: usize>(u64);
/// What the two sides send in switch `k`.
#[inline(always)]
fn from_parent(seed: u64, k: u64) -> u64 {
    mix(seed ^ 0xAA, k)
}
#[inline(always)]
fn from_child(seed: u64, k: u64) -> u64 {
    mix(seed ^ 0x55, k)
}

struct Plan {
    seed: u64,
    rounds: u64,
    size: usize,
    touch: bool,
    custom: bool,
}

macro_rules! kernels {
    ($($id:literal $name:literal => |$seed:ident, $n:ident, $sw:ident| $call:expr;)*) => {
        const NAMES: &[&str] = &[$($name),*];
        $(paste_kernel!($id, $seed, $n, $sw, $call);)*
        /// Result of a kernel that calls `f` instead of switching.
        fn plain(id: usize, seed: u64, n: u64, f: fn(u64, u64) -> u64, poke_too: bool) -> u64 {
            match id {
                $($id => {
                    #[inline(never)]
                    fn k($seed: u64, $n: u64, f: fn(u64, u64) -> u64, s2: u64, pk: bool) -> u64 {
                        let mut $sw = |k: u64| { if pk { poke(); } black_box(f)(black_box(s2), k) };
                        $call
                    }
                    k(seed ^ $id, n, f, seed, poke_too)
                })*
                _ => unreachable!(),
            }
        }
        fn run_pair(a: usize, p: &Plan) -> (u64, u64) {
            match a { $($id => pair::<$id>::go(p),)* _ => unreachable!() }
        }
    };
}
/// `pair<ID>::go`: kernel ID in the resumer and in the coroutine.
#[allow(non_camel_case_types)]
struct pair<const ID: usize>;
macro_rules! paste_kernel {
    ($id:literal, $seed:ident, $n:ident, $sw:ident, $call:expr) => {
        impl pair<$id> {
            #[inline(never)]
            fn child(y: &Yielder<W<$id>, W<$id>>, first: W<$id>, s: u64, $n: u64) -> u64 {
                let $seed = s ^ $id;
                let mut cur = first.0;
                let mut $sw = |k: u64| {
                    // the first message came with the first resume; nothing is called here that
                    // would make the compiler spill its registers anyway
                    let got = cur;
                    if k + 1 <= $n {
                        cur = y.suspend(W(from_child(s, k))).0;
                    }
                    got
                };
                $call
            }
            #[inline(never)]
            fn parent<S: corosensei::stack::Stack>(co: &mut Coroutine<W<$id>, W<$id>, u64, S>, s: u64, $n: u64) -> u64 {
                let $seed = s ^ $id;
                let mut $sw = |k: u64| match co.resume(W(from_parent(s, k))) {
                    CoroutineResult::Yield(W(v)) => v,
                    CoroutineResult::Return(v) => v ^ 1,
                };
                $call
            }
            fn go(p: &Plan) -> (u64, u64) {
                let (s, n) = (p.seed, p.rounds);
                if p.custom {
                    Self::with(Custom::new(p.size, 48), s, n)
                } else {
                    Self::with(DefaultStack::new(p.size).expect("harness: stack"), s, n)
                }
            }
            fn with<S: corosensei::stack::Stack>(st: S, s: u64, n: u64) -> (u64, u64) {
                let mut co = Coroutine::with_stack(st, move |y: &Yielder<W<$id>, W<$id>>, w: W<$id>| pair::<$id>::child(y, w, s, n));
                let hp = Self::parent(&mut co, s, n);
                // the child is at its last suspension
                let hc = match co.resume(W(from_parent(s, n))) {
                    CoroutineResult::Return(v) => v,
                    CoroutineResult::Yield(_) => 0xBAD,
                };
                (hp, hc)
            }
        }
    };
}
kernels! {
    0 "3 u64" => |seed, n, sw| kernel::<u64, 3>(seed, n, sw);
    1 "7 u64" => |seed, n, sw| kernel::<u64, 7>(seed, n, sw);
    2 "11 u64" => |seed, n, sw| kernel::<u64, 11>(seed, n, sw);
    3 "20 u64" => |seed, n, sw| kernel::<u64, 20>(seed, n, sw);
    4 "5 u32" => |seed, n, sw| kernel::<u32, 5>(seed, n, sw);
    5 "9 usize" => |seed, n, sw| kernel::<usize, 9>(seed, n, sw);
    6 "5 u128" => |seed, n, sw| kernel::<u128, 5>(seed, n, sw);
    7 "6 f64" => |seed, n, sw| kernel::<f64, 6>(seed, n, sw);
    8 "16 f64" => |seed, n, sw| kernel::<f64, 16>(seed, n, sw);
    9 "9 f32" => |seed, n, sw| kernel::<f32, 9>(seed, n, sw);
    10 "6 vectors" => |seed, n, sw| kernel::<V4, 6>(seed, n, sw);
    11 "mixed scalars" => |seed, n, sw| mixed(seed, n, sw);
    12 "recursion" => |seed, n, sw| recursive(seed, n, sw);
    13 "shared local" => |seed, n, sw| shared(seed, n, sw);
    14 "256-bit vectors" => |seed, n, sw| if simd::have() { unsafe { simd::avx(seed, n, sw) } } else { kernel::<u8, 5>(seed, n, sw) };
    15 "13 u8" => |seed, n, sw| kernel::<u8, 13>(seed, n, sw);
    16 "40 u64" => |seed, n, sw| kernel::<u64, 40>(seed, n, sw);
    17 "1 u64" => |seed, n, sw| kernel::<u64, 1>(seed, n, sw);
}

/// Kernels around on_stack and on_parent_stack.
macro_rules! call_kernels {
    ($($id:literal => |$seed:ident, $n:ident, $sw:ident| $call:expr;)*) => {
        fn run_on_stack(id: usize, p: &Plan, st: &mut DefaultStack) -> u64 {
            match id { $($id => {
                #[inline(never)]
                fn k(s: u64, $n: u64, st: &mut DefaultStack, touch: bool) -> u64 {
                    let $seed = s ^ $id;
                    let mut $sw = |k: u64| on_stack(&mut *st, || { if touch { poke(); } scramble(from_child(s, k)) });
                    $call
                }
                k(p.seed, p.rounds, st, p.touch)
            })* _ => unreachable!() }
        }
        fn run_on_parent(id: usize, p: &Plan) -> u64 {
            let (s, n, touch) = (p.seed, p.rounds, p.touch);
            match id { $($id => {
                #[inline(never)]
                fn k(y: &Yielder<(), ()>, s: u64, $n: u64, touch: bool) -> u64 {
                    let $seed = s ^ $id;
                    let mut $sw = |k: u64| y.on_parent_stack(|| { if touch { poke(); } scramble(from_child(s, k)) });
                    $call
                }
                let mut co = Coroutine::with_stack(DefaultStack::new(p.size).expect("harness: stack"), move |y: &Yielder<(), ()>, ()| k(y, s, n, touch));
                co.resume(()).as_return().unwrap()
            })* _ => unreachable!() }
        }
    };
}
/// Returns its argument after using every register the compiler finds.
#[inline(never)]
fn scramble(x: u64) -> u64 {
    let mut v = [0u64; 16];
    for i in 0..16 {
        v[i] = black_box(x) ^ i as u64;
    }
    let mut f = [0f64; 16];
    for i in 0..16 {
        f[i] = black_box(v[i] % 7) as f64;
    }
    let t: f64 = f.iter().sum();
    black_box(t);
    black_box(v);
    x
}
call_kernels! {
    0 => |seed, n, sw| kernel::<u64, 3>(seed, n, sw);
    1 => |seed, n, sw| kernel::<u64, 7>(seed, n, sw);
    2 => |seed, n, sw| kernel::<u64, 11>(seed, n, sw);
    3 => |seed, n, sw| kernel::<u64, 20>(seed, n, sw);
    4 => |seed, n, sw| kernel::<u32, 5>(seed, n, sw);
    5 => |seed, n, sw| kernel::<usize, 9>(seed, n, sw);
    6 => |seed, n, sw| kernel::<u128, 5>(seed, n, sw);
    7 => |seed, n, sw| kernel::<f64, 6>(seed, n, sw);
    8 => |seed, n, sw| kernel::<f64, 16>(seed, n, sw);
    9 => |seed, n, sw| kernel::<f32, 9>(seed, n, sw);
    10 => |seed, n, sw| kernel::<V4, 6>(seed, n, sw);
    11 => |seed, n, sw| mixed(seed, n, sw);
    12 => |seed, n, sw| recursive(seed, n, sw);
    13 => |seed, n, sw| shared(seed, n, sw);
    14 => |seed, n, sw| if simd::have() { unsafe { simd::avx(seed, n, sw) } } else { kernel::<u8, 5>(seed, n, sw) };
    15 => |seed, n, sw| kernel::<u8, 13>(seed, n, sw);
    16 => |seed, n, sw| kernel::<u64, 40>(seed, n, sw);
    17 => |seed, n, sw| kernel::<u64, 1>(seed, n, sw);
}

/// One side keeps locals whose address the other side has, and uses them between the switches.
#[inline(never)]
fn shared_child(y: &Yielder<u64, u64>, s: u64, n: u64, first: u64) -> u64 {
    let mut cur = first;
    shared(s, n, |k| {
        let got = cur;
        cur = y.suspend(from_child(s, k));
        got
    })
}
#[inline(never)]
fn shared_parent(co: &mut Coroutine<u64, u64, u64>, s: u64, n: u64) -> u64 {
    shared(s, n, |k| match co.resume(from_parent(s, k)) {
        CoroutineResult::Yield(v) => v,
        CoroutineResult::Return(v) => v ^ 1,
    })
}
fn plain_shared(s: u64, n: u64, f: fn(u64, u64) -> u64) -> u64 {
    shared(s, n, |k| {
        poke();
        black_box(f)(black_box(s), k)
    })
}
fn shared_case(p: &Plan) -> Result<(), String> {
    let (s, n) = (p.seed, p.rounds);
    let mk = || DefaultStack::new(p.size).expect("harness: stack");
    // resumer's locals
    let mut co: Coroutine<u64, u64, u64> = Coroutine::with_stack(mk(), move |y, _| {
        for k in 0..n {
            poke();
            y.suspend(from_child(s, k));
        }
        0
    });
    let h = shared_parent(&mut co, s, n);
    CELL.with(|c| c.set(0));
    co.resume(0);
    let e = plain_shared(s, n, from_child);
    ensure!(h == e, "locals of the resumer written by the coroutine read stale after resume ({h:#x} != {e:#x})");
    // coroutine's locals
    let mut co: Coroutine<u64, u64, u64> = Coroutine::with_stack(mk(), move |y, first| shared_child(y, s, n, first));
    for k in 0..n {
        let r = co.resume(from_parent(s, k)).as_yield();
        ensure!(r == Some(from_child(s, k)), "yielded value {k} wrong");
        poke();
    }
    let h = co.resume(0).as_return().unwrap_or(1);
    CELL.with(|c| c.set(0));
    let e = plain_shared(s, n, from_parent);
    ensure!(h == e, "locals of the coroutine written by the resumer read stale after suspend ({h:#x} != {e:#x})");
    Ok(())
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(t, st, None)
}
/// Kernels around on_stack only.
pub fn calls(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(t, st, Some(1))
}
/// Kernels around on_parent_stack only.
pub fn parents(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(t, st, Some(2))
}
fn go(t: &mut Tape, st: &mut Stats, how: Option<u32>) -> Result<(), String> {
    hush();
    let id = t.draw(NAMES.len() as u32) as usize;
    let how = how.unwrap_or_else(|| t.draw(3));
    let p = Plan { seed: t.u64(), rounds: t.range(1, 12) as u64, size: 64 * 1024 + 4096 * t.draw(3) as usize, touch: false, custom: t.chance(1, 2) };
    // the shared-local kernel needs the other side to write; with two such kernels each pokes the
    // other's cell, which the plain run cannot imitate, so it is used one-sided
    let p = Plan { touch: id == 13 && how != 0, ..p };
    CELL.with(|c| c.set(0));
    note(st, p.rounds >= 2, format!("kernel '{}' around {}, {} switches, seed {:#x}, custom stack {}", NAMES[id], ["resume/suspend", "on_stack", "on_parent_stack"][how as usize], p.rounds, p.seed, p.custom));
    st.class(["resume_suspend", "on_stack", "on_parent_stack"][how as usize]);
    match how {
        0 if id == 13 => shared_case(&p)?,
        0 => {
            let (hp, hc) = run_pair(id, &p);
            let (ep, ec) = (plain(id, p.seed, p.rounds, from_child, false), plain(id, p.seed, p.rounds, from_parent, false));
            ensure!(hp == ep, "kernel '{}': live values of the resumer changed across resume ({hp:#x} != {ep:#x})", NAMES[id]);
            ensure!(hc == ec, "kernel '{}': live values of the coroutine changed across suspend ({hc:#x} != {ec:#x})", NAMES[id]);
        }
        1 => {
            let mut s = DefaultStack::new(p.size).expect("harness: stack");
            let h = run_on_stack(id, &p, &mut s);
            CELL.with(|c| c.set(0));
            let e = plain(id, p.seed, p.rounds, from_child, p.touch);
            ensure!(h == e, "kernel '{}': live values of the caller changed across on_stack ({h:#x} != {e:#x})", NAMES[id]);
        }
        _ => {
            let h = run_on_parent(id, &p);
            CELL.with(|c| c.set(0));
            let e = plain(id, p.seed, p.rounds, from_child, p.touch);
            ensure!(h == e, "kernel '{}': live values of the coroutine changed across on_parent_stack ({h:#x} != {e:#x})", NAMES[id]);
        }
    }
    CELL.with(|c| c.set(0));
    Ok(())
}
