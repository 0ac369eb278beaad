//! ARMv7-A, the A32 instructions that compilers use here.
use crate::mem::*;

#[derive(Clone)]
pub struct Arm {
    r: [u32; 16],
    d: [u64; 32],
    n: bool,
    z: bool,
    c: bool,
    v: bool,
}

fn shift(kind: u32, x: u32, n: u32, c: bool) -> (u32, bool) {
    match kind {
        _ if n == 0 => (x, c),
        0 => (x.checked_shl(n).unwrap_or(0), if n <= 32 { (x as u64) << n >> 32 & 1 == 1 } else { false }),
        1 => (x.checked_shr(n).unwrap_or(0), n <= 32 && (x as u64) << 1 >> n & 1 == 1),
        2 => {
            let m = n.min(32);
            (((x as i32 as i64) >> m) as u32, ((x as i32 as i64) << 1 >> m) & 1 == 1)
        }
        _ => {
            let y = x.rotate_right(n % 32);
            (y, y >> 31 == 1)
        }
    }
}
/// A constant number of positions as it is encoded.
fn shift_imm(kind: u32, x: u32, n: u32, c: bool) -> (u32, bool) {
    match (kind, n) {
        (1 | 2, 0) => shift(kind, x, 32, c),
        (3, 0) => (x >> 1 | (c as u32) << 31, x & 1 == 1),
        _ => shift(kind, x, n, c),
    }
}

impl Arm {
    #[inline(always)]
    fn get(&self, i: u32) -> u32 {
        if i == 15 { self.r[15].wrapping_add(8) } else { self.r[i as usize] }
    }
    fn cond(&self, c: u32) -> bool {
        let r = match c >> 1 {
            0 => self.z,
            1 => self.c,
            2 => self.n,
            3 => self.v,
            4 => self.c && !self.z,
            5 => self.n == self.v,
            6 => self.n == self.v && !self.z,
            _ => return true,
        };
        r == (c & 1 == 0)
    }
    /// The stack pointer must be aligned where a function begins. (The switches themselves are not functions.)
    fn call(&self, m: &mut Mem, to: u32) -> Res<()> {
        if self.r[13] % 8 != 0 && m.functions.contains(&(to as u64)) {
            return Err(Stop::Align(self.r[13] as u64));
        }
        m.called(self.r[13] as u64, self.r[15] as u64 + 4, [self.r[11] as u64, self.r[6] as u64]);
        Ok(())
    }
    fn add(&mut self, a: u32, b: u32, cin: bool, s: bool) -> u32 {
        let w = a as u64 + b as u64 + cin as u64;
        let r = w as u32;
        if s {
            self.n = r >> 31 == 1;
            self.z = r == 0;
            self.c = w >> 32 == 1;
            self.v = (a ^ r) & (b ^ r) & 1 << 31 != 0;
        }
        r
    }
    /// The operation, its result if it has one.
    fn alu(&mut self, op: u32, a: u32, b: u32, sc: bool, s: bool) -> Option<u32> {
        let c = self.c;
        let logical = match op {
            0 | 8 => a & b,
            1 | 9 => a ^ b,
            12 => a | b,
            13 => b,
            14 => a & !b,
            15 => !b,
            _ => {
                let r = match op {
                    2 | 10 => self.add(a, !b, true, s),
                    3 => self.add(b, !a, true, s),
                    4 | 11 => self.add(a, b, false, s),
                    5 => self.add(a, b, c, s),
                    6 => self.add(a, !b, c, s),
                    _ => self.add(b, !a, c, s),
                };
                return Some(r).filter(|_| op < 8);
            }
        };
        if s {
            self.n = logical >> 31 == 1;
            self.z = logical == 0;
            self.c = sc;
        }
        Some(logical).filter(|_| op < 8 || op > 11)
    }
    fn s(&self, i: u32) -> u32 {
        (self.d[i as usize / 2] >> (i % 2 * 32)) as u32
    }
    fn set_s(&mut self, i: u32, v: u32) {
        let sh = i % 2 * 32;
        let d = &mut self.d[i as usize / 2];
        *d = *d & !(0xffff_ffff << sh) | (v as u64) << sh;
    }
    fn vfp(&mut self, ins: u32, m: &mut Mem) -> Res<()> {
        let b = |i: u32| ins >> i & 1;
        let rn = (ins >> 16 & 15) as usize;
        let rt = (ins >> 12 & 15) as usize;
        let double = b(8) == 1;
        // register numbers, by size
        let num = |four: u32, one: u32| if double { one << 4 | four } else { four << 1 | one };
        let (vd, vn, vm) = (num(ins >> 12 & 15, b(22)), num(ins >> 16 & 15, b(7)), num(ins & 15, b(5)));
        let unknown = Err(Stop::Unknown(ins));
        if ins >> 24 & 15 == 14 {
            if b(4) == 1 {
                // between a core register and half a register
                match ins >> 20 & 15 {
                    0 if !double => self.set_s(vn, self.r[rt]),
                    1 if !double => self.r[rt] = self.s(vn),
                    x @ 0..=3 if double && ins & 0x60 == 0 => {
                        let i = (b(7) << 4 | ins >> 16 & 15) << 1 | x >> 1;
                        if x & 1 == 0 { self.set_s(i, self.r[rt]) } else { self.r[rt] = self.s(i) }
                    }
                    15 if ins >> 16 & 15 == 1 && rt == 15 => {}
                    _ => return unknown,
                }
            } else if ins >> 23 & 1 == 1 && ins >> 20 & 3 == 3 {
                match (ins >> 16 & 15, ins >> 6 & 3) {
                    (0, 1) if double => self.d[vd as usize] = self.d[vm as usize],
                    (0, 1) => self.set_s(vd, self.s(vm)),
                    (h, 0 | 2) if b(6) == 0 => {
                        let i = (h << 4 | ins & 15) as u64;
                        let e = if i >> 6 & 1 == 1 { 0x3fc } else { 0x400 };
                        let v = (i >> 7 & 1) << 63 | (e | (i >> 4 & 3)) << 52 | (i & 15) << 48;
                        if double { self.d[vd as usize] = v } else { self.set_s(vd, (f64::from_bits(v) as f32).to_bits()) }
                    }
                    _ => return unknown,
                }
            } else if ins & 0xffb0_0f50 == 0xee30_0b00 {
                // vadd.f64
                let f = |i: u32| f64::from_bits(self.d[i as usize]);
                self.d[vd as usize] = (f(vn) + f(vm)).to_bits();
            } else {
                return unknown;
            }
            return Ok(());
        }
        // two core registers
        if ins >> 21 & 0x7f == 0x62 {
            if ins & 0xd0 != 0x10 {
                return unknown;
            }
            let (lo, hi) = if double { (vm * 2, vm * 2 + 1) } else { (vm, vm + 1) };
            if b(20) == 1 {
                (self.r[rt], self.r[rn]) = (self.s(lo), self.s(hi));
            } else {
                self.set_s(lo, self.r[rt]);
                self.set_s(hi, self.r[rn]);
            }
            return Ok(());
        }
        let imm = ins & 0xff;
        let base = self.get(rn as u32);
        let (p, u, w) = (b(24) == 1, b(23) == 1, b(21) == 1);
        if p && !w {
            let a = if u { base.wrapping_add(imm * 4) } else { base.wrapping_sub(imm * 4) } as u64;
            match (b(20) == 1, double) {
                (true, true) => self.d[vd as usize] = m.read(a, 8)?,
                (true, false) => {
                    let x = m.read(a, 4)? as u32;
                    self.set_s(vd, x)
                }
                (false, true) => m.write(a, 8, self.d[vd as usize])?,
                (false, false) => m.write(a, 4, self.s(vd) as u64)?,
            }
            return Ok(());
        }
        if p == u && (p || !w) {
            return unknown;
        }
        let start = if u { base } else { base.wrapping_sub(imm * 4) };
        let first = if double { vd * 2 } else { vd };
        for i in 0..imm & !(double as u32) {
            if first + i >= 64 {
                return unknown;
            }
            let a = start.wrapping_add(i * 4) as u64;
            if b(20) == 1 {
                let x = m.read(a, 4)? as u32;
                self.set_s(first + i, x);
            } else {
                m.write(a, 4, self.s(first + i) as u64)?;
            }
        }
        if w {
            self.r[rn] = if u { base.wrapping_add(imm * 4) } else { start };
        }
        Ok(())
    }
    fn media(&mut self, ins: u32) -> Res<()> {
        let (rn, rd, rs, rm) = (ins >> 16 & 15, (ins >> 12 & 15) as usize, ins >> 8 & 15, self.get(ins & 15));
        let op2 = ins >> 5 & 7;
        let rot = rm.rotate_right((ins >> 10 & 3) * 8);
        let base = if rn == 15 { 0 } else { self.get(rn) };
        let (lsb, msb) = (ins >> 7 & 31, ins >> 16 & 31);
        let mask = |n: u32| if n >= 32 { !0 } else { (1 << n) - 1 };
        let v = match (ins >> 20 & 31, op2) {
            (8, 0 | 2 | 4 | 6) => {
                let a = self.get(rn);
                let n = ins >> 7 & 31;
                if ins >> 6 & 1 == 0 { a & 0xffff | (rm << n) & 0xffff_0000 } else { a & 0xffff_0000 | shift_imm(2, rm, n, false).0 & 0xffff }
            }
            (10, 3) => base.wrapping_add(rot as i8 as u32),
            (11, 3) => base.wrapping_add(rot as i16 as u32),
            (14, 3) => base.wrapping_add(rot as u8 as u32),
            (15, 3) => base.wrapping_add(rot as u16 as u32),
            (12, 3) if rn == 15 => rot & 0x00ff_00ff,
            (11, 1) => rm.swap_bytes(),
            (11, 5) => rm.swap_bytes().rotate_left(16),
            (15, 1) => rm.reverse_bits(),
            (15, 5) => (rm as u16).swap_bytes() as i16 as u32,
            // divisions: the destination is elsewhere
            (0x11 | 0x13, 0) => {
                let (a, b) = (rm, self.get(rs));
                let q = if b == 0 {
                    0
                } else if ins >> 21 & 1 == 0 {
                    (a as i32).wrapping_div(b as i32) as u32
                } else {
                    a / b
                };
                self.r[rn as usize] = q;
                return Ok(());
            }
            (0x1a | 0x1b, 2 | 6) => {
                // signed
                (((rm >> lsb) << (31 - msb)) as i32 >> (31 - msb)) as u32
            }
            (0x1e | 0x1f, 2 | 6) => rm >> lsb & mask(msb + 1),
            (0x1c | 0x1d, 0 | 4) => {
                if msb < lsb {
                    return Err(Stop::Unknown(ins));
                }
                let f = mask(msb - lsb + 1);
                let src = if ins & 15 == 15 { 0 } else { rm };
                self.r[rd] & !(f << lsb) | (src & f) << lsb
            }
            (0x1f, 7) => return Err(Stop::Illegal(ins)),
            _ => return Err(Stop::Unknown(ins)),
        };
        self.r[rd] = v;
        Ok(())
    }
}

impl Cpu for Arm {
    fn new(_: u32) -> Self {
        Arm { r: [0; 16], d: [0; 32], n: false, z: false, c: false, v: false }
    }
    fn step(&mut self, m: &mut Mem) -> Res<()> {
        let at = self.r[15];
        if at % 4 != 0 {
            return Err(Stop::Fault(at as u64));
        }
        let ins = m.code32(at as u64)?;
        let unknown = Err(Stop::Unknown(ins));
        let mut pc = at.wrapping_add(4);
        let c4 = ins >> 28;
        if c4 == 15 {
            if ins >> 20 & 0xfff == 0xf57 {
                // barriers
                self.r[15] = pc;
                return Ok(());
            }
            // to Thumb
            return if ins >> 25 == 0x7d { Err(Stop::Fault(at as u64)) } else { unknown };
        }
        if !self.cond(c4) {
            self.r[15] = pc;
            return Ok(());
        }
        let b = |i: u32| ins >> i & 1 == 1;
        let (rn, rd, rs, rm) = ((ins >> 16 & 15), (ins >> 12 & 15), (ins >> 8 & 15), (ins & 15));
        let s = b(20);
        match ins >> 25 & 7 {
            0 if b(7) && b(4) && ins >> 5 & 3 == 0 => {
                let (x, y) = (self.get(rm), self.get(rs));
                let (hi, lo) = (rn as usize, rd as usize);
                let acc = (self.r[hi] as u64) << 32 | self.r[lo] as u64;
                let sx = (x as i32 as i64).wrapping_mul(y as i32 as i64) as u64;
                let ux = x as u64 * y as u64;
                match ins >> 21 & 15 {
                    k @ (0 | 1 | 3) => {
                        let p = x.wrapping_mul(y);
                        let r = [p, p.wrapping_add(self.r[lo]), 0, self.r[lo].wrapping_sub(p)][k as usize];
                        self.r[hi] = r;
                        if s {
                            self.n = r >> 31 == 1;
                            self.z = r == 0;
                        }
                    }
                    k @ (2 | 4..=7) => {
                        let v = match k {
                            2 => ux + self.r[hi] as u64 + self.r[lo] as u64,
                            4 => ux,
                            5 => ux.wrapping_add(acc),
                            6 => sx,
                            _ => sx.wrapping_add(acc),
                        };
                        self.r[lo] = v as u32;
                        self.r[hi] = (v >> 32) as u32;
                        if s {
                            return unknown;
                        }
                    }
                    _ => return unknown,
                }
            }
            0 if b(7) && b(4) => {
                let off = if b(22) { rs << 4 | rm } else { self.get(rm) };
                let base = self.get(rn);
                let moved = if b(23) { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                let a = if b(24) { moved } else { base } as u64;
                let rd = rd as usize;
                let mut load = None;
                match (s, ins >> 5 & 3) {
                    (false, 1) => m.write(a, 2, self.r[rd] as u64)?,
                    (true, 1) => load = Some(m.read(a, 2)? as u32),
                    (true, 2) => load = Some(m.read(a, 1)? as i8 as u32),
                    (true, _) => load = Some(m.read(a, 2)? as i16 as u32),
                    (false, x) => {
                        if rd % 2 != 0 || rd == 14 {
                            return unknown;
                        }
                        if x == 2 {
                            let (lo, hi) = (m.read(a, 4)?, m.read(a + 4, 4)?);
                            if !b(24) || b(21) {
                                self.r[rn as usize] = moved;
                            }
                            self.r[rd] = lo as u32;
                            self.r[rd + 1] = hi as u32;
                            self.r[15] = pc;
                            return Ok(());
                        }
                        m.write(a, 4, self.r[rd] as u64)?;
                        m.write(a + 4, 4, self.r[rd + 1] as u64)?;
                    }
                }
                if !b(24) || b(21) {
                    self.r[rn as usize] = moved;
                }
                if let Some(x) = load {
                    self.r[rd] = x;
                }
            }
            0 if ins >> 23 & 3 == 2 && !s => {
                let (x, y) = (self.get(rm), self.get(rs));
                let half = |v: u32, top: bool| if top { v as i32 >> 16 } else { v as i16 as i32 };
                match (ins >> 21 & 3, ins >> 4 & 15) {
                    (1, 1) => pc = x,
                    (1, 3) => {
                        self.call(m, x)?;
                        self.r[14] = pc;
                        pc = x;
                    }
                    (3, 1) => self.r[rd as usize] = x.leading_zeros(),
                    (3, k) if k & 9 == 8 => self.r[rn as usize] = half(x, b(5)).wrapping_mul(half(y, b(6))) as u32,
                    (0, k) if k & 9 == 8 => self.r[rn as usize] = (half(x, b(5)).wrapping_mul(half(y, b(6))) as u32).wrapping_add(self.r[rd as usize]),
                    (3, 7) | (1, 7) => return Err(Stop::Illegal(ins)),
                    _ => return unknown,
                }
            }
            1 if ins >> 23 & 3 == 2 && !s => {
                let imm = rn << 12 | ins & 0xfff;
                match ins >> 21 & 3 {
                    0 => self.r[rd as usize] = imm,
                    2 => self.r[rd as usize] = self.r[rd as usize] & 0xffff | imm << 16,
                    1 if rn == 0 => {}
                    _ => return unknown,
                }
            }
            k @ (0 | 1) => {
                let (x, sc) = if k == 1 {
                    let n = rs * 2;
                    let x = (ins & 0xff).rotate_right(n);
                    (x, if n == 0 { self.c } else { x >> 31 == 1 })
                } else if b(4) {
                    if b(7) {
                        return unknown;
                    }
                    shift(ins >> 5 & 3, self.get(rm), self.get(rs) & 0xff, self.c)
                } else {
                    shift_imm(ins >> 5 & 3, self.get(rm), ins >> 7 & 31, self.c)
                };
                let a = self.get(rn);
                if let Some(v) = self.alu(ins >> 21 & 15, a, x, sc, s) {
                    if rd == 15 {
                        if s {
                            return unknown;
                        }
                        pc = v;
                    } else {
                        self.r[rd as usize] = v;
                    }
                }
            }
            3 if b(4) => self.media(ins)?,
            k @ (2 | 3) => {
                let off = if k == 2 { ins & 0xfff } else { shift_imm(ins >> 5 & 3, self.get(rm), ins >> 7 & 31, self.c).0 };
                let base = self.get(rn);
                let moved = if b(23) { base.wrapping_add(off) } else { base.wrapping_sub(off) };
                let a = if b(24) { moved } else { base } as u64;
                if !b(24) && b(21) {
                    return unknown;
                }
                let n = if b(22) { 1 } else { 4 };
                if s {
                    let v = m.read(a, n)? as u32;
                    if !b(24) || b(21) {
                        self.r[rn as usize] = moved;
                    }
                    if rd == 15 {
                        pc = v;
                    } else {
                        self.r[rd as usize] = v;
                    }
                } else {
                    m.write(a, n, self.get(rd) as u64)?;
                    if !b(24) || b(21) {
                        self.r[rn as usize] = moved;
                    }
                }
            }
            4 => {
                let list = ins & 0xffff;
                let n = list.count_ones();
                if b(22) || n == 0 {
                    return unknown;
                }
                let base = self.get(rn);
                let end = if b(23) { base.wrapping_add(4 * n) } else { base.wrapping_sub(4 * n) };
                let mut a = match (b(24), b(23)) {
                    (false, true) => base,
                    (true, true) => base.wrapping_add(4),
                    (false, false) => end.wrapping_add(4),
                    (true, false) => end,
                };
                let mut new = self.r;
                for i in 0..16u32 {
                    if list >> i & 1 == 0 {
                        continue;
                    }
                    if s {
                        new[i as usize] = m.read(a as u64, 4)? as u32;
                    } else {
                        m.write(a as u64, 4, self.get(i) as u64)?;
                    }
                    a = a.wrapping_add(4);
                }
                if s {
                    if list >> 15 == 1 {
                        pc = new[15];
                    }
                    self.r = new;
                }
                if b(21) && !(s && list >> rn & 1 == 1) {
                    self.r[rn as usize] = end;
                }
            }
            5 => {
                let off = (ins << 8) as i32 >> 6;
                let to = at.wrapping_add(8).wrapping_add(off as u32);
                if b(24) {
                    self.call(m, to)?;
                    self.r[14] = pc;
                }
                pc = to;
            }
            6 | 7 if b(24) && b(25) && b(26) && b(27) => return unknown,
            _ if ins >> 9 & 7 == 5 => self.vfp(ins, m)?,
            _ => return unknown,
        }
        self.r[15] = pc;
        Ok(())
    }
    fn pc(&self) -> u64 {
        self.r[15] as u64
    }
    fn set_pc(&mut self, pc: u64) {
        self.r[15] = pc as u32;
    }
    fn sp(&self) -> u64 {
        self.r[13] as u64
    }
    fn set_sp(&mut self, sp: u64) {
        self.r[13] = sp as u32;
    }
    fn set_args(&mut self, a: &[u64], ret: u64) {
        for (i, v) in a.iter().enumerate().take(4) {
            self.r[i] = *v as u32;
        }
        self.r[14] = ret as u32;
    }
    fn stack_args<'a>(&self, a: &'a [u64]) -> &'a [u64] {
        &a[4..]
    }
    fn apply(&mut self, r: &[u64]) {
        self.r[15] = r[0] as u32 | r[7] as u32 & 1;
        for (i, k) in [0, 1, 7, 11, 13, 14].into_iter().enumerate() {
            self.r[k] = r[1 + i] as u32;
        }
        if r[8] != 0 {
            self.r[15] |= 1;
        }
    }
    const APPLY: usize = 9;
    fn dwarf(&self, n: u16) -> u64 {
        self.r[n as usize] as u64
    }
    fn dwarf_count() -> u16 {
        16
    }
    const KEPT: [u16; 2] = [11, 6];
    const SP: u16 = 13;
}
