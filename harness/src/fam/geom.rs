//! Stack geometry: every base alignment and size, every closure size and alignment.
use super::*;
use crate::engine::asm::aligned;
use crate::engine::stack::Custom;
use crate::rt::Tape;
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::mem::{align_of, size_of};

pub trait Mark: 'static {
    const NEW: Self;
}
macro_rules! marks {
    ($($n:ident $a:literal),*) => { $(#[repr(align($a))] pub struct $n; impl Mark for $n { const NEW: Self = $n; })* };
}
marks!(M1 1, M2 2, M4 4, M8 8, M16 16, M32 32, M64 64, M128 128, M256 256, M512 512, M1024 1024, M2048 2048, M8192 8192, M65536 65536);

thread_local! {
    /// limit and base of the stack of the current case, or zero while the object may be anywhere
    static BOUNDS: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static WRONG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static CUR: Cell<(usize, usize, u32)> = const { Cell::new((0, 0, 0)) };
    static DROPS: Cell<u32> = const { Cell::new(0) };
}
pub fn wrong(m: String) {
    WRONG.with(|w| w.borrow_mut().push(m))
}
pub fn take_wrong() -> Option<String> {
    WRONG.with(|w| std::mem::take(&mut *w.borrow_mut()).into_iter().next())
}

/// N patterned bytes with the alignment of M and a destructor that checks itself.
pub struct Pay<const N: usize, M: Mark> {
    _m: M,
    a: [u8; N],
    seed: u8,
}
impl<const N: usize, M: Mark> Pay<N, M> {
    pub fn new(seed: u8) -> Self {
        let mut a = [0; N];
        for (i, x) in a.iter_mut().enumerate() {
            *x = seed.wrapping_mul(37) ^ i as u8;
        }
        Pay { _m: M::NEW, a, seed }
    }
    #[inline(never)]
    pub fn check(&self, what: &str) {
        let p = std::hint::black_box(self as *const Self as usize);
        if p % align_of::<M>() != 0 {
            wrong(format!("{what}: object of alignment {} at {p:#x}", align_of::<M>()));
        }
        for (i, x) in self.a.iter().enumerate() {
            let v = unsafe { std::ptr::read_volatile(x) };
            if v != self.seed.wrapping_mul(37) ^ i as u8 {
                wrong(format!("{what}: byte {i} of {N} is {v:#x}"));
                return;
            }
        }
    }
}
impl<const N: usize, M: Mark> Drop for Pay<N, M> {
    fn drop(&mut self) {
        self.check("destructor");
        DROPS.with(|d| d.set(d.get() + 1));
        let (l, b) = BOUNDS.with(|b| b.get());
        if b != 0 {
            let p = self as *const Self as usize;
            if p < l || p + size_of::<Self>() > b {
                wrong(format!("object destroyed at {p:#x}, outside its stack {l:#x}..{b:#x}"));
            }
        }
    }
}
/// Zero-sized closure state of a given alignment.
pub struct Zst<M: Mark>(M);
impl<M: Mark> Drop for Zst<M> {
    fn drop(&mut self) {
        let p = std::hint::black_box(self as *const Self as usize);
        if p % align_of::<M>() != 0 {
            wrong(format!("zero-sized object of alignment {} at {p:#x}", align_of::<M>()));
        }
        DROPS.with(|d| d.set(d.get() + 1));
        let (l, b) = BOUNDS.with(|b| b.get());
        if b != 0 && (p < l || p > b) {
            wrong(format!("zero-sized object destroyed at {p:#x}, outside its stack {l:#x}..{b:#x}"));
        }
    }
}

pub trait Load: 'static {
    fn make(seed: u8) -> Self;
    fn look(&self, what: &str);
}
impl<const N: usize, M: Mark> Load for Pay<N, M> {
    fn make(seed: u8) -> Self {
        Pay::new(seed)
    }
    fn look(&self, what: &str) {
        self.check(what)
    }
}
impl<M: Mark> Load for Zst<M> {
    fn make(_: u8) -> Self {
        Zst(M::NEW)
    }
    fn look(&self, what: &str) {
        let p = std::hint::black_box(self as *const Self as usize);
        if p % align_of::<M>() != 0 {
            wrong(format!("{what}: zero-sized object of alignment {} at {p:#x}", align_of::<M>()));
        }
    }
}

/// A stack whose release is counted.
struct GStack<'a> {
    c: &'a Custom,
    d: &'a Cell<u32>,
}
unsafe impl Stack for GStack<'_> {
    fn base(&self) -> StackPointer {
        self.c.base()
    }
    fn limit(&self) -> StackPointer {
        self.c.limit()
    }
}
impl Drop for GStack<'_> {
    fn drop(&mut self) {
        self.d.set(self.d.get() + 1);
        if !self.c.intact() {
            wrong("memory next to the stack was overwritten".into());
        }
    }
}

enum Either {
    Own(GStack<'static>),
    Ref(&'static mut GStack<'static>),
}
unsafe impl Stack for Either {
    fn base(&self) -> StackPointer {
        match self {
            Either::Own(s) => s.base(),
            Either::Ref(s) => <&mut GStack as Stack>::base(s),
        }
    }
    fn limit(&self) -> StackPointer {
        match self {
            Either::Own(s) => s.limit(),
            Either::Ref(s) => <&mut GStack as Stack>::limit(s),
        }
    }
}

struct G {
    size: usize,
    off: usize,
    seed: u8,
    mode: u8,
    borrowed: bool,
    depth: u32,
}

#[inline(never)]
fn burn(n: u32, lo: usize, hi: usize) -> u32 {
    let a = [n as u8; 64];
    let p = std::hint::black_box(&a) as *const u8 as usize;
    if !(lo <= p && p + 64 <= hi) {
        wrong(format!("frame at {p:#x} outside the stack {lo:#x}..{hi:#x}"));
    }
    if !aligned() {
        wrong(format!("stack pointer misaligned {n} calls down"));
    }
    if n == 0 {
        return 0;
    }
    burn(n - 1, lo, hi) + std::hint::black_box(a[9]) as u32
}

fn geometry<L: Load>(g: &G) -> Result<(), String> {
    DROPS.with(|d| d.set(0));
    take_wrong();
    let (sz, al) = (size_of::<L>(), align_of::<L>());
    let c = Custom::sized(g.size, g.off);
    let (lo, hi) = (c.limit().get(), c.base().get());
    let rel = Cell::new(0);
    let what = format!("{sz} bytes aligned to {al} on a stack of {} at offset {}", g.size, hi % 4096);
    let seed = g.seed;
    let depth = g.depth;
    macro_rules! body {
        () => {{
            // captures nothing else: the closure has exactly the size and alignment of the payload
            let pay = L::make(seed);
            CUR.with(|c| c.set((lo, hi, depth)));
            move |y: &Yielder<u32, u32>, first: u32| {
                let p = pay;
                let (lo, hi, depth) = CUR.with(|c| c.get());
                let sz = size_of::<L>();
                p.look("closure state in the coroutine");
                let a = &p as *const L as usize;
                if a < lo || a + sz > hi {
                    wrong(format!("closure state read to {a:#x}, outside the stack"));
                }
                burn(depth, lo, hi);
                let n = y.suspend(first + 1);
                p.look("closure state after a suspension");
                burn(depth, lo, hi);
                n + 1
            }
        }};
    }
    let drive = |st: Either| -> Result<bool, String> {
            let f = body!();
            assert!(std::mem::size_of_val(&f) == sz && std::mem::align_of_val(&f) == al, "harness: closure layout");
            let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Coroutine::<u32, u32, u32, _>::with_stack(st, f)));
            match made {
                Err(_) => {
                    // legitimate only for objects that are unreasonable
                    ensure!(sz > 1024 || al > 256, "{what}: rejected");
                    Ok(false)
                }
                Ok(mut co) => {
                    ensure!(c.intact(), "{what}: creating wrote outside the stack");
                    match g.mode {
                        0 => {
                            BOUNDS.with(|b| b.set((lo, hi)));
                            drop(co);
                            BOUNDS.with(|b| b.set((0, 0)));
                        }
                        1 => {
                            BOUNDS.with(|b| b.set((lo, hi)));
                            co.force_unwind();
                            BOUNDS.with(|b| b.set((0, 0)));
                            ensure!(co.done(), "{what}: not done");
                            let n = DROPS.with(|d| d.get());
                            ensure!(n == 1, "{what}: closure destroyed {n} times");
                            drop(co);
                        }
                        m => {
                            ensure!(co.resume(5) == CoroutineResult::Yield(6), "{what}: wrong yield");
                            if m == 2 || !cfg!(feature = "unwind") {
                                ensure!(co.resume(7) == CoroutineResult::Return(8), "{what}: wrong return");
                            } else if m == 3 {
                                co.force_unwind();
                            }
                            ensure!(c.intact(), "{what}: running wrote outside the stack");
                            drop(co);
                        }
                    }
                    Ok(true)
                }
            }
    };
    let placed = if g.borrowed {
        let mut s = GStack { c: &c, d: &rel };
        let s2: &'static mut GStack<'static> = unsafe { std::mem::transmute(&mut s) };
        let r = drive(Either::Ref(s2))?;
        ensure!(rel.get() == 0, "{what}: a borrowed stack was released");
        // usable again
        if r && g.size >= 16384 {
            let v = on_stack(Either::Ref(unsafe { std::mem::transmute(&mut s) }), || {
                burn(2, lo, hi);
                17
            });
            ensure!(v == 17, "{what}: borrowed stack unusable afterwards");
        }
        drop(s);
        r
    } else {
        drive(Either::Own(unsafe { std::mem::transmute(GStack { c: &c, d: &rel }) }))?
    };
    let n = DROPS.with(|d| d.get());
    ensure!(n == 1, "{what}: closure destroyed {n} times ({})", if placed { "placed" } else { "rejected" });
    ensure!(rel.get() == 1, "{what}: stack released {} times", rel.get());
    ensure!(c.intact(), "{what}: memory outside the stack was written");
    if let Some(m) = take_wrong() {
        return Err(format!("{what}: {m}"));
    }
    Ok(())
}

type GFn = fn(&G) -> Result<(), String>;
macro_rules! grid {
    ($(($s:literal; $($m:ident),*)),* $(,)?) => { &[$($((geometry::<Pay<$s, $m>> as GFn, size_of::<Pay<$s, $m>>(), align_of::<$m>()),)*)*] };
}
macro_rules! zgrid {
    ($($m:ident),*) => { &[$((geometry::<Zst<$m>> as GFn, 0, align_of::<$m>())),*] };
}
/// A few closures of every kind, for the properties that are not about placement.
static SMALL: &[(GFn, usize, usize)] = grid![(0; M1), (3; M1, M4), (7; M8), (15; M1), (40; M8, M64), (500; M16), (1000; M8)];
static ZSMALL: &[(GFn, usize, usize)] = zgrid![M1, M8, M64];
pub fn small(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(t, st, SMALL, ZSMALL, 3)
}

fn go(t: &mut Tape, st: &mut Stats, grid: &[(GFn, usize, usize)], zgrid: &[(GFn, usize, usize)], z: u32) -> Result<(), String> {
    hush();
    let k = if t.chance(1, z) { grid.len() + t.draw(zgrid.len() as u32) as usize } else { t.draw(grid.len() as u32) as usize };
    let (f, sz, al) = if k < grid.len() { grid[k] } else { zgrid[k - grid.len()] };
    let mode = t.draw(5) as u8;
    let off = 16 * t.draw(512) as usize;
    let room = if mode < 2 {
        // nothing runs on the stack, so that the smallest allowed one must do
        [4096, 4096 + 16 * t.draw(16) as usize, 4096 * (1 + t.draw(3) as usize)][t.draw(3) as usize]
    } else {
        let unw = if mode == 2 { 0 } else { 24 * 1024 };
        48 * 1024 + unw + 8 * (sz + al) + 16 * t.draw(400) as usize
    };
    let g = G { size: room, off, seed: t.u32() as u8, mode, borrowed: t.chance(1, 3), depth: t.draw(6) };
    note(st, al > 16 || sz > 0, format!("closure of {sz} bytes aligned to {al}, stack of {room} bytes whose base is {off} below a page boundary, {}, {}", ["dropped", "unwound", "run to completion", "run and unwound", "run and dropped suspended"][mode as usize], if g.borrowed { "borrowed" } else { "owned" }));
    st.class_if(al > 16, "overaligned");
    st.class_if(sz > 1024 || al > 256, "unreasonable_object");
    st.class_if(mode < 2, "never_run");
    f(&g)
}

#[cfg(feature = "f-geom")]
pub use full::case;
#[cfg(feature = "f-geom")]
mod full {
use super::*;
static GRID: &[(GFn, usize, usize)] = grid![
    (0; M1, M2, M4, M8, M16, M32, M64, M128, M256, M512, M1024, M2048, M8192),
    (3; M1, M2, M4, M8, M16, M32, M64, M128, M256, M512, M1024),
    (7; M1, M2, M4, M8, M16, M32, M64, M128, M256),
    (11; M1, M4, M8, M16, M32, M64),
    (14; M1, M8), (15; M1, M2, M4, M8, M16, M32, M64, M128, M256), (16; M1), (17; M1, M16),
    (23; M1, M8, M16), (31; M1, M2, M4, M8, M16, M32, M64), (32; M1), (33; M1), (40; M1, M8), (47; M1, M16), (48; M1, M8),
    (60; M1, M4, M8, M16), (63; M1, M2, M4, M8, M16, M32, M64, M128, M256), (64; M1), (79; M1, M16), (95; M1, M16, M32), (100; M1, M4),
    (127; M1, M8, M16, M32, M64, M128), (128; M1), (200; M1, M8, M32, M64), (255; M1, M2, M4, M8, M16, M32, M64, M128, M256), (300; M4, M16),
    (400; M8, M64, M128), (511; M1, M2, M4, M8, M16, M32, M64, M128, M256, M512), (600; M1, M16), (700; M8, M32), (777; M1, M4),
    (900; M1, M8, M16), (991; M16, M32), (1000; M1, M8), (1007; M1, M16), (1015; M1, M8), (1019; M1, M4), (1022; M1, M2), (1023; M1, M2, M4, M8, M16, M32, M64, M128, M256, M512, M1024),
    (1024; M1, M8), (1025; M1), (1100; M8, M64), (1500; M1, M16), (2000; M1), (3000; M64), (4000; M8), (4064; M1), (4090; M1, M2), (4096; M1, M16), (5000; M1, M64),
    (8000; M8), (8190; M1), (9000; M1, M16), (16000; M1), (70000; M8),
];
static ZGRID: &[(GFn, usize, usize)] = zgrid![M1, M2, M4, M8, M16, M32, M64, M128, M256, M512, M1024, M2048, M8192, M65536];

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    go(t, st, GRID, ZGRID, 8)
}
}
