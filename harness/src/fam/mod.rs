//! Dedicated families: each checks corosensei directly against a small model.
pub mod anywhere;
pub mod bounds;
pub mod control;
#[cfg(feature = "unwind")]
pub mod cross;
pub mod dstack;
#[cfg(feature = "f-exch")]
pub mod exch;
pub mod finding;
pub mod fpchain;
pub mod gdbbt;
pub mod geom;
#[cfg(feature = "f-kern")]
pub mod kern;
#[cfg(any(feature = "f-kern", all(feature = "f-lands", feature = "unwind")))]
pub mod kern_el;
#[cfg(all(feature = "f-lands", feature = "unwind"))]
pub mod lands;
pub mod long;
pub mod nest;
pub mod par;
#[cfg(feature = "f-trapf")]
pub mod trapf;
pub mod tight;
pub mod types;
#[cfg(all(target_arch = "x86_64", debug_assertions, feature = "unwind"))]
pub mod unwreg;
pub mod vg;

use crate::rt::{hash_u64, Stats};
use std::cell::{Cell, RefCell};

/// Registry of values with destructors, per thread of execution that runs a case.
pub struct Reg {
    pub state: Vec<u8>,
    pub bad: Vec<String>,
}
thread_local! {
    pub static REG: RefCell<Reg> = const { RefCell::new(Reg { state: Vec::new(), bad: Vec::new() }) };
}
/// A value whose destruction is counted.
pub struct D(pub u32);
impl D {
    pub fn new() -> D {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.state.push(1);
            D(r.state.len() as u32 - 1)
        })
    }
}
impl Drop for D {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let i = self.0 as usize;
            match r.state.get(i) {
                Some(1) => r.state[i] = 2,
                s => {
                    let m = format!("value {} destroyed twice or never created ({:?})", self.0, s);
                    r.bad.push(m)
                }
            }
        })
    }
}
pub fn reg_reset() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.state.clear();
        r.bad.clear();
    });
}
/// All values created since the reset were destroyed exactly once.
pub fn reg_done(what: &str) -> Result<(), String> {
    REG.with(|r| {
        let r = r.borrow();
        if let Some(b) = r.bad.first() {
            return Err(format!("{what}: {b}"));
        }
        let live = r.state.iter().filter(|s| **s == 1).count();
        if live > 0 {
            return Err(format!("{what}: {live} of {} values never destroyed", r.state.len()));
        }
        Ok(())
    })
}
pub fn reg_live() -> usize {
    REG.with(|r| r.borrow().state.iter().filter(|s| **s == 1).count())
}

#[inline(always)]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 27)
}

/// Silences expected panics in this process.
pub fn hush() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| if std::env::var_os("CVH_VERBOSE").is_none() { std::panic::set_hook(Box::new(|_| {})) });
}

/// Records the case for evidence.
pub fn note(st: &mut Stats, nontrivial: bool, desc: String) {
    crate::util::emit_sample(&desc);
    st.hash = crate::rt::hash_bytes(hash_u64(0, 7), desc.as_bytes());
    st.nontrivial = nontrivial;
    if st.want_sample {
        st.sample = desc;
    }
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

pub struct Flag(pub Cell<bool>);

/// A stack that counts how often it was released and keeps its memory mapped until the end.
pub struct CStack {
    pub inner: crate::engine::stack::Custom,
    pub d: D,
}
unsafe impl corosensei::stack::Stack for CStack {
    fn base(&self) -> corosensei::stack::StackPointer {
        self.inner.base()
    }
    fn limit(&self) -> corosensei::stack::StackPointer {
        self.inner.limit()
    }
}
impl CStack {
    pub fn new(size: usize, off: usize) -> CStack {
        CStack { inner: crate::engine::stack::Custom::new(size, off), d: D::new() }
    }
}
impl Drop for CStack {
    fn drop(&mut self) {
        if !self.inner.intact() {
            REG.with(|r| r.borrow_mut().bad.push("memory around the stack was overwritten".into()));
        }
    }
}
use corosensei::stack::Stack as _;
