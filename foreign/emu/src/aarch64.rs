//! AArch64, the part that compilers use here.
use crate::mem::*;

#[derive(Clone)]
pub struct A64 {
    /// x0-x30, and the stack pointer.
    x: [u64; 32],
    v: [u128; 32],
    pc: u64,
    n: bool,
    z: bool,
    c: bool,
    o: bool,
}

fn bits(ins: u32, hi: u32, lo: u32) -> u32 {
    (ins >> lo) & ((1u64 << (hi - lo + 1)) - 1) as u32
}
fn sx(v: u32, n: u32) -> u64 {
    (((v as u64) << (64 - n)) as i64 >> (64 - n)) as u64
}
/// The immediate of logical instructions: (value, for bitfields: wmask, tmask).
fn bitmask(n: u32, imms: u32, immr: u32, w64: bool, imm: bool) -> Option<(u64, u64)> {
    let len = 31 - ((n << 6) | (!imms & 63)).leading_zeros().min(31);
    if len < 1 && (n << 6 | (!imms & 63)) < 2 {
        return None;
    }
    let levels = (1u32 << len) - 1;
    if imm && imms & levels == levels {
        return None;
    }
    let (s, r) = (imms & levels, immr & levels);
    let d = s.wrapping_sub(r) & levels;
    let esize = 1u32 << len;
    let ones = |k: u32| if k >= 64 { !0u64 } else { (1u64 << k) - 1 };
    let emask = ones(esize);
    let welem = ones(s + 1);
    let telem = ones(d + 1);
    let ror = if r == 0 { welem } else { (welem >> r | welem << (esize - r)) & emask };
    let rep = |e: u64| {
        let mut v = 0;
        let mut i = 0;
        while i < 64 {
            v |= e << i;
            i += esize;
        }
        v
    };
    let m = if w64 { !0 } else { 0xffff_ffff };
    Some((rep(ror) & m, rep(telem) & m))
}

impl A64 {
    /// Register 31 is zero.
    #[inline(always)]
    fn r(&self, n: u32) -> u64 {
        if n == 31 { 0 } else { self.x[n as usize] }
    }
    #[inline(always)]
    fn set(&mut self, n: u32, v: u64, w64: bool) {
        if n != 31 {
            self.x[n as usize] = if w64 { v } else { v as u32 as u64 };
        }
    }
    /// Register 31 is the stack pointer.
    fn set_sp31(&mut self, n: u32, v: u64, w64: bool) {
        self.x[n as usize] = if w64 { v } else { v as u32 as u64 };
    }
    fn base(&self, n: u32) -> Res<u64> {
        if n == 31 && self.x[31] % 16 != 0 {
            return Err(Stop::Align(self.x[31]));
        }
        Ok(self.x[n as usize])
    }
    fn add(&mut self, a: u64, b: u64, carry: bool, w64: bool, flags: bool) -> u64 {
        let (r, c, o);
        if w64 {
            let s = a as u128 + b as u128 + carry as u128;
            r = s as u64;
            c = s >> 64 != 0;
            o = (!(a ^ b) & (a ^ r)) >> 63 != 0;
        } else {
            let (a, b) = (a as u32, b as u32);
            let s = a as u64 + b as u64 + carry as u64;
            r = s as u32 as u64;
            c = s >> 32 != 0;
            o = (!(a ^ b) & (a ^ r as u32)) >> 31 != 0;
        }
        if flags {
            self.nz(r, w64);
            self.c = c;
            self.o = o;
        }
        r
    }
    fn nz(&mut self, r: u64, w64: bool) {
        self.n = if w64 { r >> 63 != 0 } else { r >> 31 & 1 != 0 };
        self.z = if w64 { r == 0 } else { r as u32 == 0 };
    }
    fn cond(&self, c: u32) -> bool {
        let r = match c >> 1 {
            0 => self.z,
            1 => self.c,
            2 => self.n,
            3 => self.o,
            4 => self.c && !self.z,
            5 => self.n == self.o,
            6 => self.n == self.o && !self.z,
            _ => true,
        };
        if c & 1 == 1 && c != 15 { !r } else { r }
    }
    fn shift(v: u64, kind: u32, n: u32, w64: bool) -> u64 {
        if w64 {
            match kind {
                0 => v << n,
                1 => v >> n,
                2 => (v as i64 >> n) as u64,
                _ => v.rotate_right(n),
            }
        } else {
            let v = v as u32;
            (match kind {
                0 => v << (n & 31),
                1 => v >> (n & 31),
                2 => (v as i32 >> (n & 31)) as u32,
                _ => v.rotate_right(n & 31),
            }) as u64
        }
    }
    fn extend(&self, r: u32, opt: u32, sh: u32) -> u64 {
        let v = self.r(r);
        (match opt {
            0 => v as u8 as u64,
            1 => v as u16 as u64,
            2 => v as u32 as u64,
            3 | 7 => v,
            4 => v as i8 as u64,
            5 => v as i16 as u64,
            _ => v as i32 as u64,
        }) << sh
    }
    fn call(&self, m: &mut Mem) -> Res<()> {
        if self.x[31] % 16 != 0 {
            return Err(Stop::Align(self.x[31]));
        }
        m.called(self.x[31], self.pc + 4, [self.x[29], self.x[19]]);
        Ok(())
    }
    fn vload(&mut self, m: &Mem, t: u32, p: u64, n: usize) -> Res<()> {
        self.v[t as usize] = if n == 16 { m.read(p, 8)? as u128 | (m.read(p.wrapping_add(8), 8)? as u128) << 64 } else { m.read(p, n)? as u128 };
        Ok(())
    }
    fn vstore(&self, m: &mut Mem, t: u32, p: u64, n: usize) -> Res<()> {
        let v = self.v[t as usize];
        m.write(p, n.min(8), v as u64)?;
        if n == 16 {
            m.write(p.wrapping_add(8), 8, (v >> 64) as u64)?;
        }
        Ok(())
    }
    /// One register: `v`: of the vector file, `size`, `opc`.
    fn mem1(&mut self, m: &mut Mem, ins: u32, p: u64) -> Res<()> {
        let (size, v, opc, t) = (ins >> 30, ins >> 26 & 1, bits(ins, 23, 22), ins & 31);
        if v == 1 {
            let n = if opc & 2 != 0 { 16 } else { 1usize << size };
            if opc & 1 != 0 { self.vload(m, t, p, n) } else { self.vstore(m, t, p, n) }
        } else {
            let n = 1usize << size;
            match opc {
                0 => m.write(p, n, self.r(t)),
                1 => {
                    let x = m.read(p, n)?;
                    self.set(t, x, true);
                    Ok(())
                }
                _ => {
                    if size == 3 {
                        return Ok(());
                    }
                    let x = sx(m.read(p, n)? as u32, 8 * n as u32);
                    self.set(t, x, opc == 2);
                    Ok(())
                }
            }
        }
    }
}

impl Cpu for A64 {
    fn new(_: u32) -> Self {
        A64 { x: [0; 32], v: [0; 32], pc: 0, n: false, z: false, c: false, o: false }
    }
    fn step(&mut self, m: &mut Mem) -> Res<()> {
        if self.pc % 4 != 0 {
            return Err(Stop::Fault(self.pc));
        }
        let ins = m.code32(self.pc)?;
        let next = self.pc + 4;
        let mut pc = next;
        let w64 = ins >> 31 == 1;
        let (d, n, mm) = (ins & 31, bits(ins, 9, 5), bits(ins, 20, 16));
        let unknown = Err(Stop::Unknown(ins));
        match bits(ins, 28, 25) {
            0 => return Err(Stop::Illegal(ins)),
            8 | 9 => match bits(ins, 25, 23) {
                0 | 1 => {
                    let imm = sx(bits(ins, 23, 5) << 2 | bits(ins, 30, 29), 21);
                    let v = if w64 { (self.pc & !0xfff).wrapping_add(imm << 12) } else { self.pc.wrapping_add(imm) };
                    self.set(d, v, true);
                }
                2 => {
                    let imm = (bits(ins, 21, 10) as u64) << if ins >> 22 & 1 == 1 { 12 } else { 0 };
                    let a = self.x[n as usize];
                    let (sub, fl) = (ins >> 30 & 1 == 1, ins >> 29 & 1 == 1);
                    let r = if sub { self.add(a, !imm, true, w64, fl) } else { self.add(a, imm, false, w64, fl) };
                    if fl { self.set(d, r, w64) } else { self.set_sp31(d, r, w64) }
                }
                4 => {
                    let Some((imm, _)) = bitmask(ins >> 22 & 1, bits(ins, 15, 10), bits(ins, 21, 16), w64, true) else { return unknown };
                    let a = self.r(n);
                    match bits(ins, 30, 29) {
                        0 => self.set_sp31(d, a & imm, w64),
                        1 => self.set_sp31(d, a | imm, w64),
                        2 => self.set_sp31(d, a ^ imm, w64),
                        _ => {
                            let r = a & imm;
                            self.nz(r, w64);
                            (self.c, self.o) = (false, false);
                            self.set(d, r, w64);
                        }
                    }
                }
                5 => {
                    let sh = bits(ins, 22, 21) * 16;
                    let imm = (bits(ins, 20, 5) as u64) << sh;
                    let r = match bits(ins, 30, 29) {
                        0 => !imm,
                        2 => imm,
                        3 => self.r(d) & !(0xffff << sh) | imm,
                        _ => return unknown,
                    };
                    self.set(d, r, w64);
                }
                6 => {
                    let (immr, imms) = (bits(ins, 21, 16), bits(ins, 15, 10));
                    let Some((w, t)) = bitmask(ins >> 22 & 1, imms, immr, w64, false) else { return unknown };
                    let a = self.r(n);
                    let rot = if w64 { a.rotate_right(immr) } else { (a as u32).rotate_right(immr) as u64 };
                    let r = match bits(ins, 30, 29) {
                        0 => {
                            let top = if a >> imms & 1 == 1 { !0 } else { 0 };
                            top & !t | (rot & w) & t
                        }
                        1 => {
                            let dst = self.r(d);
                            let bot = dst & !w | rot & w;
                            dst & !t | bot & t
                        }
                        2 => rot & w & t,
                        _ => return unknown,
                    };
                    self.set(d, r, w64);
                }
                _ => {
                    // extr
                    let lsb = bits(ins, 15, 10);
                    let (a, b) = (self.r(n), self.r(mm));
                    let r = if w64 { if lsb == 0 { b } else { b >> lsb | a << (64 - lsb) } } else { (((a as u32 as u64) << 32 | b as u32 as u64) >> lsb) as u32 as u64 };
                    self.set(d, r, w64);
                }
            },
            10 | 11 => {
                if bits(ins, 30, 26) == 5 {
                    if w64 {
                        self.call(m)?;
                        self.x[30] = next;
                    }
                    pc = self.pc.wrapping_add(sx(bits(ins, 25, 0), 26) << 2);
                } else if bits(ins, 30, 25) == 0x1a {
                    let a = if w64 { self.r(d) } else { self.r(d) as u32 as u64 };
                    if (a == 0) == (ins >> 24 & 1 == 0) {
                        pc = self.pc.wrapping_add(sx(bits(ins, 23, 5), 19) << 2);
                    }
                } else if bits(ins, 30, 25) == 0x1b {
                    let b = (ins >> 31) << 5 | bits(ins, 23, 19);
                    if (self.r(d) >> b & 1) == (ins >> 24 & 1) as u64 {
                        pc = self.pc.wrapping_add(sx(bits(ins, 18, 5), 14) << 2);
                    }
                } else if ins >> 24 == 0x54 {
                    if self.cond(ins & 15) {
                        pc = self.pc.wrapping_add(sx(bits(ins, 23, 5), 19) << 2);
                    }
                } else if ins >> 25 == 0x6b {
                    pc = self.r(n);
                    match bits(ins, 24, 21) {
                        0 | 2 => {}
                        1 => {
                            self.call(m)?;
                            self.x[30] = next;
                        }
                        _ => return unknown,
                    }
                } else if ins >> 12 == 0xd5032 || ins >> 12 == 0xd5033 {
                    // hints and barriers
                } else if ins >> 21 == 0x6a1 {
                    return Err(Stop::Illegal(ins));
                } else {
                    return unknown;
                }
            }
            4 | 6 | 12 | 14 => {
                if bits(ins, 29, 27) == 5 {
                    // pairs
                    let v = ins >> 26 & 1 == 1;
                    let opc = ins >> 30;
                    let size: usize = if v { 4 << opc } else if opc == 2 { 8 } else { 4 };
                    let off = (sx(bits(ins, 21, 15), 7) as i64 * size as i64) as u64;
                    let load = ins >> 22 & 1 == 1;
                    let mode = bits(ins, 24, 23);
                    let b = self.base(n)?;
                    let p = if mode == 1 { b } else { b.wrapping_add(off) };
                    let p2 = p.wrapping_add(size as u64);
                    let t2 = bits(ins, 14, 10);
                    if v {
                        if load {
                            self.vload(m, d, p, size)?;
                            self.vload(m, t2, p2, size)?;
                        } else {
                            self.vstore(m, d, p, size)?;
                            self.vstore(m, t2, p2, size)?;
                        }
                    } else if load {
                        let (mut x, mut y) = (m.read(p, size)?, m.read(p2, size)?);
                        if opc == 1 {
                            (x, y) = (x as i32 as u64, y as i32 as u64);
                        }
                        self.set(d, x, true);
                        self.set(t2, y, true);
                    } else {
                        m.write(p, size, self.r(d))?;
                        m.write(p2, size, self.r(t2))?;
                    }
                    if mode == 1 || mode == 3 {
                        self.x[n as usize] = b.wrapping_add(off);
                    }
                } else if bits(ins, 29, 27) == 7 && ins >> 24 & 1 == 1 {
                    let scale = if ins >> 26 & 1 == 1 && ins >> 23 & 1 == 1 { 4 } else { ins >> 30 };
                    let p = self.base(n)?.wrapping_add((bits(ins, 21, 10) as u64) << scale);
                    self.mem1(m, ins, p)?;
                } else if bits(ins, 29, 27) == 7 && ins >> 21 & 1 == 0 {
                    let off = sx(bits(ins, 20, 12), 9);
                    let b = self.base(n)?;
                    match bits(ins, 11, 10) {
                        0 => self.mem1(m, ins, b.wrapping_add(off))?,
                        1 => {
                            self.mem1(m, ins, b)?;
                            self.x[n as usize] = b.wrapping_add(off);
                        }
                        3 => {
                            self.mem1(m, ins, b.wrapping_add(off))?;
                            self.x[n as usize] = b.wrapping_add(off);
                        }
                        _ => return unknown,
                    }
                } else if bits(ins, 29, 27) == 7 && bits(ins, 11, 10) == 2 {
                    let scale = if ins >> 26 & 1 == 1 && ins >> 23 & 1 == 1 { 4 } else { ins >> 30 };
                    let off = self.extend(mm, bits(ins, 15, 13), if ins >> 12 & 1 == 1 { scale } else { 0 });
                    let p = self.base(n)?.wrapping_add(off);
                    self.mem1(m, ins, p)?;
                } else if bits(ins, 29, 27) == 3 && ins >> 24 & 1 == 0 {
                    // literals
                    let p = self.pc.wrapping_add(sx(bits(ins, 23, 5), 19) << 2);
                    if ins >> 26 & 1 == 1 {
                        self.vload(m, d, p, 4 << (ins >> 30))?;
                    } else {
                        let x = match ins >> 30 {
                            0 => m.read(p, 4)?,
                            1 => m.read(p, 8)?,
                            _ => return unknown,
                        };
                        self.set(d, x, true);
                    }
                } else {
                    return unknown;
                }
            }
            5 | 13 => {
                if bits(ins, 28, 24) == 0x0a {
                    let mut b = Self::shift(self.r(mm), bits(ins, 23, 22), bits(ins, 15, 10), w64);
                    if ins >> 21 & 1 == 1 {
                        b = !b;
                    }
                    let a = self.r(n);
                    let r = match bits(ins, 30, 29) {
                        0 | 3 => a & b,
                        1 => a | b,
                        _ => a ^ b,
                    };
                    if bits(ins, 30, 29) == 3 {
                        self.nz(r, w64);
                        (self.c, self.o) = (false, false);
                    }
                    self.set(d, r, w64);
                } else if bits(ins, 28, 24) == 0x0b {
                    let (sub, fl) = (ins >> 30 & 1 == 1, ins >> 29 & 1 == 1);
                    let ext = ins >> 21 & 1 == 1;
                    let (a, b) = if ext { (self.x[n as usize], self.extend(mm, bits(ins, 15, 13), bits(ins, 12, 10))) } else { (self.r(n), Self::shift(self.r(mm), bits(ins, 23, 22), bits(ins, 15, 10), w64)) };
                    let r = if sub { self.add(a, !b, true, w64, fl) } else { self.add(a, b, false, w64, fl) };
                    if ext && !fl { self.set_sp31(d, r, w64) } else { self.set(d, r, w64) }
                } else if bits(ins, 28, 21) == 0xd0 {
                    let (a, mut b) = (self.r(n), self.r(mm));
                    if ins >> 30 & 1 == 1 {
                        b = !b;
                    }
                    let c = self.c;
                    let r = self.add(a, b, c, w64, ins >> 29 & 1 == 1);
                    self.set(d, r, w64);
                } else if bits(ins, 28, 21) == 0xd2 {
                    // ccmp, ccmn
                    if self.cond(bits(ins, 15, 12)) {
                        let a = self.r(n);
                        let b = if ins >> 11 & 1 == 1 { mm as u64 } else { self.r(mm) };
                        if ins >> 30 & 1 == 1 { self.add(a, !b, true, w64, true) } else { self.add(a, b, false, w64, true) };
                    } else {
                        self.n = ins & 8 != 0;
                        self.z = ins & 4 != 0;
                        self.c = ins & 2 != 0;
                        self.o = ins & 1 != 0;
                    }
                } else if bits(ins, 28, 21) == 0xd4 {
                    let r = if self.cond(bits(ins, 15, 12)) {
                        self.r(n)
                    } else {
                        let mut b = self.r(mm);
                        if ins >> 30 & 1 == 1 {
                            b = !b;
                        }
                        if ins >> 10 & 1 == 1 {
                            b = b.wrapping_add(1);
                        }
                        b
                    };
                    self.set(d, r, w64);
                } else if bits(ins, 28, 21) == 0xd6 && ins >> 30 & 1 == 0 {
                    let (a, b) = if w64 { (self.r(n), self.r(mm)) } else { (self.r(n) as u32 as u64, self.r(mm) as u32 as u64) };
                    let sh = (b & if w64 { 63 } else { 31 }) as u32;
                    let r = match bits(ins, 15, 10) {
                        2 => a.checked_div(b).unwrap_or(0),
                        3 if w64 => if b == 0 { 0 } else { (a as i64).wrapping_div(b as i64) as u64 },
                        3 => if b == 0 { 0 } else { (a as i32).wrapping_div(b as i32) as u32 as u64 },
                        k @ 8..=11 => Self::shift(a, k - 8, sh, w64),
                        _ => return unknown,
                    };
                    self.set(d, r, w64);
                } else if bits(ins, 28, 21) == 0xd6 {
                    let a = self.r(n);
                    let r = match (bits(ins, 15, 10), w64) {
                        (0, true) => a.reverse_bits(),
                        (0, false) => (a as u32).reverse_bits() as u64,
                        (2, false) | (3, true) => if w64 { a.swap_bytes() } else { (a as u32).swap_bytes() as u64 },
                        (4, true) => a.leading_zeros() as u64,
                        (4, false) => (a as u32).leading_zeros() as u64,
                        _ => return unknown,
                    };
                    self.set(d, r, w64);
                } else if bits(ins, 28, 24) == 0x1b {
                    let (a, b, c) = (self.r(n), self.r(mm), self.r(bits(ins, 14, 10)));
                    let neg = ins >> 15 & 1 == 1;
                    let p = match bits(ins, 23, 21) {
                        0 => a.wrapping_mul(b),
                        1 => (a as i32 as i64).wrapping_mul(b as i32 as i64) as u64,
                        2 => {
                            self.set(d, ((a as i64 as i128 * b as i64 as i128) >> 64) as u64, true);
                            self.pc = next;
                            return Ok(());
                        }
                        5 => (a as u32 as u64) * (b as u32 as u64),
                        6 => {
                            self.set(d, ((a as u128 * b as u128) >> 64) as u64, true);
                            self.pc = next;
                            return Ok(());
                        }
                        _ => return unknown,
                    };
                    let r = if neg { c.wrapping_sub(p) } else { c.wrapping_add(p) };
                    self.set(d, r, w64);
                } else {
                    return unknown;
                }
            }
            _ => {
                // vectors: moves only
                let (q, op) = (ins >> 30 & 1, ins >> 29 & 1);
                if ins >> 31 == 0 && bits(ins, 28, 19) == 0x1e0 && ins >> 10 & 3 == 1 {
                    let imm8 = (bits(ins, 18, 16) << 5 | bits(ins, 9, 5)) as u64;
                    let cm = bits(ins, 15, 12);
                    let rep32 = |v: u64| v | v << 32;
                    let rep16 = |v: u64| rep32(v | v << 16);
                    let mut v = match cm {
                        0 | 2 | 4 | 6 => rep32(imm8 << (8 * (cm >> 1))),
                        8 | 10 => rep16(imm8 << (8 * (cm >> 1 & 1))),
                        12 => rep32(imm8 << 8 | 0xff),
                        13 => rep32(imm8 << 16 | 0xffff),
                        14 if op == 0 => imm8 * 0x0101_0101_0101_0101,
                        14 => (0..8).map(|i| if imm8 >> i & 1 == 1 { 0xffu64 << (8 * i) } else { 0 }).sum(),
                        _ => return unknown,
                    };
                    if op == 1 && cm != 14 {
                        v = !v;
                    }
                    self.v[d as usize] = if q == 1 || (op == 1 && cm == 14 && q == 1) { v as u128 | (v as u128) << 64 } else { v as u128 };
                } else if ins & 0xbfe0_fc00 == 0x0ea0_1c00 && n == mm {
                    // mov
                    let v = self.v[n as usize];
                    self.v[d as usize] = if q == 1 { v } else { v as u64 as u128 };
                } else if ins & 0xffe0_fc00 == 0x1e60_2800 {
                    // fadd
                    let f = |i: u32| f64::from_bits(self.v[i as usize] as u64);
                    self.v[d as usize] = (f(n) + f(mm)).to_bits() as u128;
                } else {
                    match ins & 0xffff_fc00 {
                        0x1e26_0000 => { let v = self.v[n as usize] as u32 as u64; self.set(d, v, false) }
                        0x1e27_0000 => self.v[d as usize] = self.r(n) as u32 as u128,
                        0x9e66_0000 => { let v = self.v[n as usize] as u64; self.set(d, v, true) }
                        0x9e67_0000 => self.v[d as usize] = self.r(n) as u128,
                        0x1e60_4000 => self.v[d as usize] = self.v[n as usize] as u64 as u128,
                        0x1e20_4000 => self.v[d as usize] = self.v[n as usize] as u32 as u128,
                        _ => return unknown,
                    }
                }
            }
        }
        self.pc = pc;
        Ok(())
    }
    fn pc(&self) -> u64 {
        self.pc
    }
    fn set_pc(&mut self, pc: u64) {
        self.pc = pc
    }
    fn sp(&self) -> u64 {
        self.x[31]
    }
    fn set_sp(&mut self, sp: u64) {
        self.x[31] = sp
    }
    fn set_args(&mut self, a: &[u64], ret: u64) {
        self.x[..a.len()].copy_from_slice(a);
        self.x[30] = ret;
    }
    const APPLY: usize = 6;
    fn apply(&mut self, r: &[u64]) {
        self.pc = r[0];
        for (i, n) in [31, 0, 1, 29, 30].into_iter().enumerate() {
            self.x[n] = r[i + 1];
        }
    }
    fn dwarf(&self, n: u16) -> u64 {
        match n {
            0..=31 => self.x[n as usize],
            64..=95 => self.v[n as usize - 64] as u64,
            _ => 0,
        }
    }
    fn dwarf_count() -> u16 {
        96
    }
    const KEPT: [u16; 2] = [29, 19];
    const SP: u16 = 31;
}
