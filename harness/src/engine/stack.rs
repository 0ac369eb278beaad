//! Instrumented stacks: identity, release events, canaries around the usable region.
use super::ast::StackKind;
use super::env::*;
use corosensei::stack::{DefaultStack, Stack, StackPointer};
use std::ptr;

const PAGE: usize = 4096;
const CAN: usize = 2048;

/// mmap region: [guard page][canary][limit .. base][canary][..]
pub struct Custom {
    map: usize,
    len: usize,
    limit: usize,
    base: usize,
}
fn pat(a: usize) -> u8 {
    (a as u8).wrapping_mul(31) ^ 0xA7
}
/// Maps `len` bytes: anywhere, or, for some offsets, at a low address or across the address at
/// which a narrower or signed integer would wrap.
unsafe fn place(len: usize, size: usize, off: usize) -> *mut libc::c_void {
    let (rw, fl) = (libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS);
    let edge: usize = if usize::BITS == 64 { 1u64.wrapping_shl(32) as usize } else { 1 << 31 };
    let m = match off / 16 % 6 {
        4 => libc::mmap(0x2000_0000 as *mut libc::c_void, len, rw, fl, -1, 0),
        // off varies what lies above the edge
        5 => {
            let above = (CAN + off + off * 7 % (size / 2 + 1)).min(len - PAGE);
            let at = (edge + above - len) & !(PAGE - 1);
            libc::mmap(at as *mut libc::c_void, len, rw, fl | libc::MAP_FIXED_NOREPLACE, -1, 0)
        }
        _ => libc::MAP_FAILED,
    };
    if m != libc::MAP_FAILED {
        return m;
    }
    libc::mmap(ptr::null_mut(), len, rw, fl, -1, 0)
}
impl Custom {
    pub fn new(size: usize, off: usize) -> Custom {
        Custom::sized(size.max(4096) & !15, off)
    }
    pub fn sized(size: usize, off: usize) -> Custom {
        unsafe {
            let len = (PAGE + CAN + size + off + CAN + 2 * PAGE) & !(PAGE - 1);
            let m = place(len, size, off);
            assert!(m != libc::MAP_FAILED, "harness: mmap");
            libc::mprotect(m, PAGE, libc::PROT_NONE);
            let map = m as usize;
            let base = (map + len - CAN - off) & !15;
            let limit = base - size;
            assert!(limit >= map + PAGE + CAN);
            let c = Custom { map, len, limit, base };
            for a in c.canary() {
                *(a as *mut u8) = pat(a);
            }
            c
        }
    }
    fn canary(&self) -> impl Iterator<Item = usize> {
        (self.limit - CAN..self.limit).chain(self.base..self.base + CAN)
    }
    pub fn intact(&self) -> bool {
        self.canary().all(|a| unsafe { ptr::read_volatile(a as *const u8) == pat(a) })
    }
    pub fn intact_above(&self) -> bool {
        self.canary().filter(|a| *a >= self.base).all(|a| unsafe { ptr::read_volatile(a as *const u8) == pat(a) })
    }
    pub fn guard(&self) -> (usize, usize) {
        (self.map, self.map + PAGE)
    }
}
impl Drop for Custom {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map as *mut _, self.len);
        }
    }
}
unsafe impl Stack for Custom {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}

enum Kind {
    D(DefaultStack),
    C(Custom),
    B(&'static mut Custom),
}
pub struct TStack {
    k: Kind,
    pub id: u32,
    pub uses: u32,
}
impl TStack {
    pub fn make(k: StackKind) -> TStack {
        let e = env();
        if k == StackKind::Pool {
            if let Some(s) = e.pool.pop() {
                let mut s = s;
                s.uses += 1;
                if s.uses > 1 {
                    cnt(N::reuse);
                }
                return s;
            }
        }
        e.next_stack += 1;
        let id = e.next_stack;
        let k = match k {
            StackKind::Default(n) => Kind::D(DefaultStack::new(n as usize).expect("harness: stack")),
            StackKind::Custom { size, off } => Kind::C(Custom::new(size as usize, off as usize)),
            StackKind::Borrowed { size, off } => {
                cnt(N::borrowed);
                Kind::B(Box::leak(Box::new(Custom::new(size as usize, off as usize))))
            }
            StackKind::Pool => Kind::D(DefaultStack::new(320 * 1024).expect("harness: stack")),
        };
        let s = TStack { k, id, uses: 1 };
        let (lo, hi) = s.range();
        super::step::add_stack(if s.is_default() { lo + PAGE } else { lo }, hi);
        s
    }
    pub fn range(&self) -> (usize, usize) {
        (self.limit().get(), self.base().get())
    }
    pub fn is_default(&self) -> bool {
        matches!(self.k, Kind::D(_))
    }
    pub fn intact(&self) -> bool {
        match &self.k {
            Kind::D(_) => true,
            Kind::C(c) => c.intact(),
            Kind::B(c) => c.intact(),
        }
    }
    /// Size that code may rely on having (the default stack's guard page is inside its bounds).
    pub fn usable(&self) -> usize {
        let (l, b) = self.range();
        b - l - PAGE
    }
}
impl Drop for TStack {
    fn drop(&mut self) {
        if !self.intact() {
            ev(E::StackBad, self.id, 0);
        }
        ev(E::StackDrop, self.id, env().cur);
        super::step::del_stack(self.base().get());
        if let Kind::B(c) = &mut self.k {
            unsafe { drop(Box::from_raw(*c as *mut Custom)) }
        }
    }
}
unsafe impl Stack for TStack {
    fn base(&self) -> StackPointer {
        match &self.k {
            Kind::D(s) => s.base(),
            Kind::C(s) => s.base(),
            Kind::B(s) => <&'static mut Custom as Stack>::base(s),
        }
    }
    fn limit(&self) -> StackPointer {
        match &self.k {
            Kind::D(s) => s.limit(),
            Kind::C(s) => s.limit(),
            Kind::B(s) => <&'static mut Custom as Stack>::limit(s),
        }
    }
}
