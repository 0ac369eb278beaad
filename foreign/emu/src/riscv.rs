//! RV32/RV64 IMFDC, without the instructions compilers do not use.
use crate::mem::*;

#[derive(Clone)]
pub struct Riscv {
    x: [u64; 32],
    f: [u64; 32],
    pc: u64,
    w64: bool,
}

fn sext(v: u64, bits: u32) -> u64 {
    ((v << (64 - bits)) as i64 >> (64 - bits)) as u64
}

impl Riscv {
    #[inline(always)]
    fn set(&mut self, r: u32, v: u64) {
        if r != 0 {
            self.x[r as usize] = if self.w64 { v } else { v as u32 as u64 };
        }
    }
    #[inline(always)]
    fn addr(&self, a: u64) -> u64 {
        if self.w64 { a } else { a as u32 as u64 }
    }
    /// Expands a compressed instruction.
    fn expand(&self, c: u32) -> Option<u32> {
        let b = |hi: u32, lo: u32| (c >> lo) & ((1 << (hi - lo + 1)) - 1);
        let r = |op: u32, rd: u32, f3: u32, rs1: u32, rs2: u32, f7: u32| op | rd << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | f7 << 25;
        let i = |op: u32, rd: u32, f3: u32, rs1: u32, imm: u32| op | rd << 7 | f3 << 12 | rs1 << 15 | (imm & 0xfff) << 20;
        let s = |op: u32, f3: u32, rs1: u32, rs2: u32, imm: u32| op | (imm & 31) << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | (imm >> 5 & 127) << 25;
        let br = |f3: u32, rs1: u32, imm: u32| 0x63 | (imm >> 11 & 1) << 7 | (imm >> 1 & 15) << 8 | f3 << 12 | rs1 << 15 | (imm >> 5 & 63) << 25 | (imm >> 12 & 1) << 31;
        let j = |rd: u32, imm: u32| 0x6f | rd << 7 | (imm >> 12 & 255) << 12 | (imm >> 11 & 1) << 20 | (imm >> 1 & 1023) << 21 | (imm >> 20 & 1) << 31;
        let (rdp, rsp) = (b(4, 2) + 8, b(9, 7) + 8);
        let (rd, rs2) = (b(11, 7), b(6, 2));
        let imm6 = sext((b(12, 12) << 5 | b(6, 2)) as u64, 6) as u32;
        let uw = b(5, 5) << 6 | b(12, 10) << 3 | b(6, 6) << 2;
        let ud = b(6, 5) << 6 | b(12, 10) << 3;
        let jimm = sext((b(12, 12) << 11 | b(8, 8) << 10 | b(10, 9) << 8 | b(6, 6) << 7 | b(7, 7) << 6 | b(2, 2) << 5 | b(11, 11) << 4 | b(5, 3) << 1) as u64, 12) as u32;
        let bimm = sext((b(12, 12) << 8 | b(6, 5) << 6 | b(2, 2) << 5 | b(11, 10) << 3 | b(4, 3) << 1) as u64, 9) as u32;
        let lwsp = b(3, 2) << 6 | b(12, 12) << 5 | b(6, 4) << 2;
        let ldsp = b(4, 2) << 6 | b(12, 12) << 5 | b(6, 5) << 3;
        let swsp = b(8, 7) << 6 | b(12, 9) << 2;
        let sdsp = b(9, 7) << 6 | b(12, 10) << 3;
        let w64 = self.w64;
        Some(match (c & 3, b(15, 13)) {
            (0, 0) => {
                let imm = b(10, 7) << 6 | b(12, 11) << 4 | b(5, 5) << 3 | b(6, 6) << 2;
                if imm == 0 {
                    return None;
                }
                i(0x13, rdp, 0, 2, imm)
            }
            (0, 1) => i(0x07, rdp, 3, rsp, ud),
            (0, 2) => i(0x03, rdp, 2, rsp, uw),
            (0, 3) if w64 => i(0x03, rdp, 3, rsp, ud),
            (0, 3) => i(0x07, rdp, 2, rsp, uw),
            (0, 5) => s(0x27, 3, rsp, rdp, ud),
            (0, 6) => s(0x23, 2, rsp, rdp, uw),
            (0, 7) if w64 => s(0x23, 3, rsp, rdp, ud),
            (0, 7) => s(0x27, 2, rsp, rdp, uw),
            (1, 0) => i(0x13, rd, 0, rd, imm6),
            (1, 1) if w64 => i(0x1b, rd, 0, rd, imm6),
            (1, 1) => j(1, jimm),
            (1, 2) => i(0x13, rd, 0, 0, imm6),
            (1, 3) if rd == 2 => i(0x13, 2, 0, 2, sext((b(12, 12) << 9 | b(4, 3) << 7 | b(5, 5) << 6 | b(2, 2) << 5 | b(6, 6) << 4) as u64, 10) as u32),
            (1, 3) => 0x37 | rd << 7 | imm6 << 12,
            (1, 4) => match b(11, 10) {
                0 => i(0x13, rsp, 5, rsp, imm6 & 63),
                1 => i(0x13, rsp, 5, rsp, imm6 & 63 | 0x400),
                2 => i(0x13, rsp, 7, rsp, imm6),
                _ => match (b(12, 12), b(6, 5)) {
                    (0, 0) => r(0x33, rsp, 0, rsp, rdp, 0x20),
                    (0, 1) => r(0x33, rsp, 4, rsp, rdp, 0),
                    (0, 2) => r(0x33, rsp, 6, rsp, rdp, 0),
                    (0, 3) => r(0x33, rsp, 7, rsp, rdp, 0),
                    (1, 0) => r(0x3b, rsp, 0, rsp, rdp, 0x20),
                    (1, 1) => r(0x3b, rsp, 0, rsp, rdp, 0),
                    _ => return None,
                },
            },
            (1, 5) => j(0, jimm),
            (1, 6) => br(0, rsp, bimm),
            (1, 7) => br(1, rsp, bimm),
            (2, 0) => i(0x13, rd, 1, rd, imm6 & 63),
            (2, 1) => i(0x07, rd, 3, 2, ldsp),
            (2, 2) => i(0x03, rd, 2, 2, lwsp),
            (2, 3) if w64 => i(0x03, rd, 3, 2, ldsp),
            (2, 3) => i(0x07, rd, 2, 2, lwsp),
            (2, 4) => match (b(12, 12), rd, rs2) {
                (0, _, 0) => i(0x67, 0, 0, rd, 0),
                (0, _, _) => r(0x33, rd, 0, 0, rs2, 0),
                (1, 0, 0) => return None,
                (1, _, 0) => i(0x67, 1, 0, rd, 0),
                _ => r(0x33, rd, 0, rd, rs2, 0),
            },
            (2, 5) => s(0x27, 3, 2, rs2, sdsp),
            (2, 6) => s(0x23, 2, 2, rs2, swsp),
            (2, 7) if w64 => s(0x23, 3, 2, rs2, sdsp),
            (2, 7) => s(0x27, 2, 2, rs2, swsp),
            _ => return None,
        })
    }
    fn call(&self, m: &mut Mem, rd: u32, ret: u64) -> Res<()> {
        if rd == 1 {
            if self.x[2] % 16 != 0 {
                return Err(Stop::Align(self.x[2]));
            }
            m.called(self.x[2], ret, [self.x[8], self.x[9]]);
        }
        Ok(())
    }
}

impl Cpu for Riscv {
    fn new(bits: u32) -> Self {
        Riscv { x: [0; 32], f: [0; 32], pc: 0, w64: bits == 64 }
    }
    fn step(&mut self, m: &mut Mem) -> Res<()> {
        let raw = m.code32(self.pc)?;
        let (ins, len) = if raw & 3 == 3 { (raw, 4) } else { (self.expand(raw & 0xffff).ok_or(Stop::Illegal(raw & 0xffff))?, 2) };
        let (rd, f3, rs1, rs2, f7) = (ins >> 7 & 31, ins >> 12 & 7, ins >> 15 & 31, ins >> 20 & 31, ins >> 25);
        let w64 = self.w64;
        let sx = |v: u64| if w64 { v } else { v as i32 as i64 as u64 };
        let (a, b) = (sx(self.x[rs1 as usize]), sx(self.x[rs2 as usize]));
        let iimm = (ins as i32 >> 20) as i64 as u64;
        let simm = ((ins as i32 >> 25 << 5) | (ins >> 7 & 31) as i32) as i64 as u64;
        let next = self.pc + len;
        let mut pc = next;
        match ins & 127 {
            0x37 => self.set(rd, (ins & !0xfff) as i32 as i64 as u64),
            0x17 => self.set(rd, self.pc.wrapping_add((ins & !0xfff) as i32 as i64 as u64)),
            0x6f => {
                let imm = sext(((ins >> 31) << 20 | (ins >> 12 & 255) << 12 | (ins >> 20 & 1) << 11 | (ins >> 21 & 1023) << 1) as u64, 21);
                self.call(m, rd, next)?;
                self.set(rd, next);
                pc = self.pc.wrapping_add(imm);
            }
            0x67 => {
                self.call(m, rd, next)?;
                pc = a.wrapping_add(iimm) & !1;
                self.set(rd, next);
            }
            0x63 => {
                let imm = sext(((ins >> 31) << 12 | (ins >> 7 & 1) << 11 | (ins >> 25 & 63) << 5 | (ins >> 8 & 15) << 1) as u64, 13);
                let t = match f3 {
                    0 => a == b,
                    1 => a != b,
                    4 => (a as i64) < b as i64,
                    5 => a as i64 >= b as i64,
                    6 => a < b,
                    7 => a >= b,
                    _ => return Err(Stop::Unknown(ins)),
                };
                if t {
                    pc = self.pc.wrapping_add(imm);
                }
            }
            0x03 => {
                let p = self.addr(a.wrapping_add(iimm));
                let v = match f3 {
                    0 => m.read(p, 1)? as i8 as u64,
                    1 => m.read(p, 2)? as i16 as u64,
                    2 => m.read(p, 4)? as i32 as u64,
                    3 => m.read(p, 8)?,
                    4 => m.read(p, 1)?,
                    5 => m.read(p, 2)?,
                    6 => m.read(p, 4)?,
                    _ => return Err(Stop::Unknown(ins)),
                };
                self.set(rd, v);
            }
            0x23 => m.write(self.addr(a.wrapping_add(simm)), 1 << f3, self.addr(b))?,
            0x07 => {
                let p = self.addr(a.wrapping_add(iimm));
                self.f[rd as usize] = match f3 {
                    2 => m.read(p, 4)? | 0xffff_ffff << 32,
                    3 => m.read(p, 8)?,
                    _ => return Err(Stop::Unknown(ins)),
                };
            }
            0x27 => m.write(self.addr(a.wrapping_add(simm)), 1 << f3, self.f[rs2 as usize])?,
            0x13 => {
                let sh = (ins >> 20 & if w64 { 63 } else { 31 }) as u32;
                let au = if w64 { a } else { a as u32 as u64 };
                let v = match f3 {
                    0 => a.wrapping_add(iimm),
                    1 => a << sh,
                    2 => ((a as i64) < iimm as i64) as u64,
                    3 => (a < iimm) as u64,
                    4 => a ^ iimm,
                    5 if ins >> 30 & 1 == 1 => (a as i64 >> sh) as u64,
                    5 => au >> sh,
                    6 => a | iimm,
                    _ => a & iimm,
                };
                self.set(rd, v);
            }
            0x1b => {
                let sh = rs2;
                let v = match f3 {
                    0 => a.wrapping_add(iimm) as i32,
                    1 => (a as i32) << sh,
                    5 if f7 & 0x20 != 0 => a as i32 >> sh,
                    5 => (a as u32 >> sh) as i32,
                    _ => return Err(Stop::Unknown(ins)),
                };
                self.set(rd, v as i64 as u64);
            }
            0x33 if f7 == 1 => {
                let v = if w64 {
                    let (ai, bi) = (a as i64, b as i64);
                    match f3 {
                        0 => a.wrapping_mul(b),
                        1 => ((ai as i128 * bi as i128) >> 64) as u64,
                        2 => ((ai as i128 * b as i128) >> 64) as u64,
                        3 => ((a as u128 * b as u128) >> 64) as u64,
                        4 => if b == 0 { !0 } else { ai.wrapping_div(bi) as u64 },
                        5 => if b == 0 { !0 } else { a / b },
                        6 => if b == 0 { a } else { ai.wrapping_rem(bi) as u64 },
                        _ => if b == 0 { a } else { a % b },
                    }
                } else {
                    let (ai, bi, au, bu) = (a as i32, b as i32, a as u32, b as u32);
                    (match f3 {
                        0 => au.wrapping_mul(bu),
                        1 => ((ai as i64 * bi as i64) >> 32) as u32,
                        2 => ((ai as i64).wrapping_mul(bu as i64) >> 32) as u32,
                        3 => ((au as u64 * bu as u64) >> 32) as u32,
                        4 => if bu == 0 { !0 } else { ai.wrapping_div(bi) as u32 },
                        5 => if bu == 0 { !0 } else { au / bu },
                        6 => if bu == 0 { au } else { ai.wrapping_rem(bi) as u32 },
                        _ => if bu == 0 { au } else { au % bu },
                    }) as u64
                };
                self.set(rd, v);
            }
            0x33 => {
                let sh = (b & if w64 { 63 } else { 31 }) as u32;
                let au = if w64 { a } else { a as u32 as u64 };
                let v = match (f3, f7) {
                    (0, 0) => a.wrapping_add(b),
                    (0, 0x20) => a.wrapping_sub(b),
                    (1, 0) => a << sh,
                    (2, 0) => ((a as i64) < b as i64) as u64,
                    (3, 0) => (a < b) as u64,
                    (4, 0) => a ^ b,
                    (5, 0) => au >> sh,
                    (5, 0x20) => (a as i64 >> sh) as u64,
                    (6, 0) => a | b,
                    (7, 0) => a & b,
                    _ => return Err(Stop::Unknown(ins)),
                };
                self.set(rd, v);
            }
            0x3b => {
                let (ai, bi) = (a as i32, b as i32);
                let v = match (f3, f7) {
                    (0, 0) => ai.wrapping_add(bi),
                    (0, 0x20) => ai.wrapping_sub(bi),
                    (1, 0) => ai << (b & 31),
                    (5, 0) => ((a as u32) >> (b & 31)) as i32,
                    (5, 0x20) => ai >> (b & 31),
                    (0, 1) => ai.wrapping_mul(bi),
                    (4, 1) => if bi == 0 { -1 } else { ai.wrapping_div(bi) },
                    (5, 1) => if bi == 0 { -1 } else { (ai as u32 / bi as u32) as i32 },
                    (6, 1) => if bi == 0 { ai } else { ai.wrapping_rem(bi) },
                    (7, 1) => if bi == 0 { ai } else { (ai as u32 % bi as u32) as i32 },
                    _ => return Err(Stop::Unknown(ins)),
                };
                self.set(rd, v as i64 as u64);
            }
            0x0f => {}
            0x53 => {
                let (fa, fb) = (self.f[rs1 as usize], self.f[rs2 as usize]);
                let add = |x: u64, y: u64| (f64::from_bits(x) + f64::from_bits(y)).to_bits();
                match f7 {
                    0x01 => self.f[rd as usize] = add(fa, fb),
                    0x10 | 0x11 => {
                        let (sign, one) = if f7 == 0x11 { (1u64 << 63, !0u64) } else { (1 << 31, 0xffff_ffff) };
                        let s = match f3 {
                            0 => fb & sign,
                            1 => !fb & sign,
                            _ => (fa ^ fb) & sign,
                        };
                        self.f[rd as usize] = (fa & one & !sign) | s | !one;
                    }
                    0x70 if f3 == 0 => self.set(rd, fa as i32 as i64 as u64),
                    0x71 if f3 == 0 => self.set(rd, fa),
                    0x78 => self.f[rd as usize] = a | 0xffff_ffff << 32,
                    0x79 => self.f[rd as usize] = a,
                    _ => return Err(Stop::Unknown(ins)),
                }
            }
            // unimp and friends
            0x73 => return Err(Stop::Illegal(ins)),
            _ => return Err(Stop::Unknown(ins)),
        }
        self.pc = self.addr(pc);
        Ok(())
    }
    fn pc(&self) -> u64 {
        self.pc
    }
    fn set_pc(&mut self, pc: u64) {
        self.pc = pc
    }
    fn sp(&self) -> u64 {
        self.x[2]
    }
    fn set_sp(&mut self, sp: u64) {
        self.x[2] = sp
    }
    fn set_args(&mut self, a: &[u64], ret: u64) {
        for (i, v) in a.iter().enumerate() {
            self.set(10 + i as u32, *v);
        }
        self.set(1, ret);
    }
    const APPLY: usize = 6;
    fn apply(&mut self, r: &[u64]) {
        self.pc = r[0];
        for (i, n) in [1, 2, 10, 11, 8].into_iter().enumerate() {
            self.set(n, r[i + 1]);
        }
    }
    fn dwarf(&self, n: u16) -> u64 {
        match n {
            0..=31 => self.x[n as usize],
            _ => self.f[n as usize - 32],
        }
    }
    fn dwarf_count() -> u16 {
        64
    }
    const KEPT: [u16; 2] = [8, 9];
    const SP: u16 = 2;
}
