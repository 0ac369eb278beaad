//! LoongArch64, the part that compilers use here.
use crate::mem::*;

#[derive(Clone)]
pub struct Loong {
    r: [u64; 32],
    f: [u64; 32],
    pc: u64,
}

impl Loong {
    #[inline(always)]
    fn set(&mut self, r: u32, v: u64) {
        if r != 0 {
            self.r[r as usize] = v;
        }
    }
    fn call(&self, m: &mut Mem, rd: u32) -> Res<()> {
        if rd == 1 {
            if self.r[3] % 16 != 0 {
                return Err(Stop::Align(self.r[3]));
            }
            m.called(self.r[3], self.pc + 4, [self.r[22], self.r[31]]);
        }
        Ok(())
    }
}

impl Cpu for Loong {
    fn new(_: u32) -> Self {
        Loong { r: [0; 32], f: [0; 32], pc: 0 }
    }
    fn step(&mut self, m: &mut Mem) -> Res<()> {
        if self.pc % 4 != 0 {
            return Err(Stop::Fault(self.pc));
        }
        let ins = m.code32(self.pc)?;
        let (rd, rj, rk) = (ins & 31, ins >> 5 & 31, ins >> 10 & 31);
        let (a, b, d) = (self.r[rj as usize], self.r[rk as usize], self.r[rd as usize]);
        let w = |v: u32| v as i32 as i64 as u64;
        let next = self.pc + 4;
        let mut pc = next;
        let unknown = Err(Stop::Unknown(ins));
        match ins >> 26 {
            4 => self.set(rd, a.wrapping_add(((ins >> 10 & 0xffff) as i16 as i64 as u64) << 16)),
            5..=7 => {
                let imm = (ins >> 5 & 0xf_ffff) as u64;
                let s20 = ((imm << 44) as i64 >> 44) as u64;
                let v = match ins >> 25 {
                    0x0a => s20 << 12,
                    0x0b => d & 0xffff_ffff | s20 << 32,
                    0x0c => self.pc.wrapping_add(s20 << 2),
                    0x0d => self.pc.wrapping_add(s20 << 12) & !0xfff,
                    0x0e => self.pc.wrapping_add(s20 << 12),
                    _ => self.pc.wrapping_add(s20 << 18),
                };
                self.set(rd, v);
            }
            0x10 | 0x11 => {
                let off = ((ins >> 10 & 0xffff | (ins & 31) << 16) << 11) as i32 >> 9;
                if (a == 0) == (ins >> 26 == 0x10) {
                    pc = self.pc.wrapping_add(off as i64 as u64);
                }
            }
            0x13 => {
                let off = ((ins >> 10 & 0xffff) as i16 as i64) << 2;
                self.call(m, rd)?;
                self.set(rd, next);
                pc = a.wrapping_add(off as u64);
            }
            x @ (0x14 | 0x15) => {
                let off = ((ins >> 10 & 0xffff | (ins & 0x3ff) << 16) << 6) as i32 >> 4;
                if x == 0x15 {
                    self.call(m, 1)?;
                    self.set(1, next);
                }
                pc = self.pc.wrapping_add(off as i64 as u64);
            }
            x @ 0x16..=0x1b => {
                let t = match x {
                    0x16 => a == d,
                    0x17 => a != d,
                    0x18 => (a as i64) < d as i64,
                    0x19 => a as i64 >= d as i64,
                    0x1a => a < d,
                    _ => a >= d,
                };
                if t {
                    pc = self.pc.wrapping_add((((ins >> 10 & 0xffff) as i16 as i64) << 2) as u64);
                }
            }
            // loads and stores, immediates
            0 | 0x0a | 0x0b if matches!(ins >> 22, 8..=15 | 0xa0..=0xaf) => {
                let u12 = (ins >> 10 & 0xfff) as u64;
                let s12 = ((u12 << 52) as i64 >> 52) as u64;
                let p = a.wrapping_add(s12);
                match ins >> 22 {
                    8 => self.set(rd, ((a as i64) < s12 as i64) as u64),
                    9 => self.set(rd, (a < s12) as u64),
                    10 => self.set(rd, w(a.wrapping_add(s12) as u32)),
                    11 => self.set(rd, p),
                    12 => self.set(rd, a & 0xf_ffff_ffff_ffff | u12 << 52),
                    13 => self.set(rd, a & u12),
                    14 => self.set(rd, a | u12),
                    15 => self.set(rd, a ^ u12),
                    0xa0 => { let v = m.read(p, 1)? as i8 as u64; self.set(rd, v) }
                    0xa1 => { let v = m.read(p, 2)? as i16 as u64; self.set(rd, v) }
                    0xa2 => { let v = m.read(p, 4)? as i32 as u64; self.set(rd, v) }
                    0xa3 => { let v = m.read(p, 8)?; self.set(rd, v) }
                    0xa4 => m.write(p, 1, d)?,
                    0xa5 => m.write(p, 2, d)?,
                    0xa6 => m.write(p, 4, d)?,
                    0xa7 => m.write(p, 8, d)?,
                    0xa8 => { let v = m.read(p, 1)?; self.set(rd, v) }
                    0xa9 => { let v = m.read(p, 2)?; self.set(rd, v) }
                    0xaa => { let v = m.read(p, 4)?; self.set(rd, v) }
                    0xab => {}
                    0xac => self.f[rd as usize] = m.read(p, 4)?,
                    0xad => m.write(p, 4, self.f[rd as usize])?,
                    0xae => self.f[rd as usize] = m.read(p, 8)?,
                    _ => m.write(p, 8, self.f[rd as usize])?,
                }
            }
            0 => match ins >> 22 {
                1 if ins >> 21 == 3 => {
                    // bstrins.w, bstrpick.w
                    let (hi, lo) = (ins >> 16 & 31, rk);
                    let mask = ((1u64 << (hi - lo + 1)) - 1) as u32;
                    if ins >> 15 & 1 == 1 {
                        self.set(rd, w((a as u32 >> lo) & mask));
                    } else {
                        self.set(rd, w(d as u32 & !(mask << lo) | (a as u32 & mask) << lo));
                    }
                }
                k @ (2 | 3) => {
                    let (hi, lo) = (ins >> 16 & 63, ins >> 10 & 63);
                    let mask = if hi - lo == 63 { !0 } else { (1u64 << (hi - lo + 1)) - 1 };
                    if k == 3 {
                        self.set(rd, (a >> lo) & mask);
                    } else {
                        self.set(rd, d & !(mask << lo) | (a & mask) << lo);
                    }
                }
                4 => {
                    let k = ins >> 10;
                    match k {
                        _ if ins >> 15 == 0x202 => {
                            // fadd.d
                            let f = |i: u32| f64::from_bits(self.f[i as usize]);
                            self.f[rd as usize] = (f(rj as u32) + f(rk as u32)).to_bits()
                        }
                        0x4525 | 0x4526 => self.f[rd as usize] = self.f[rj as usize],
                        0x4529 => self.f[rd as usize] = a & 0xffff_ffff,
                        0x452a => self.f[rd as usize] = a,
                        0x452d => self.set(rd, w(self.f[rj as usize] as u32)),
                        0x452e => self.set(rd, self.f[rj as usize]),
                        _ => return unknown,
                    }
                }
                _ => {
                    let sa2 = ins >> 15 & 3;
                    let v = match ins >> 17 {
                        2 => Some(w((a << (sa2 + 1)).wrapping_add(b) as u32)),
                        3 => Some((a << (sa2 + 1)).wrapping_add(b) as u32 as u64),
                        0x16 => Some((a << (sa2 + 1)).wrapping_add(b)),
                        _ => None,
                    };
                    let v = v.or_else(|| {
                        let u6 = ins >> 10 & 63;
                        Some(match ins >> 16 {
                            0x41 => a << u6,
                            0x45 => a >> u6,
                            0x49 => (a as i64 >> u6) as u64,
                            0x4d => a.rotate_right(u6),
                            _ => return None,
                        })
                    });
                    let v = v.or_else(|| {
                        if ins >> 18 == 3 {
                            let sa3 = ins >> 15 & 7;
                            // bytepick.d: the bytes of rj above the ones of rk
                            return Some(if sa3 == 0 { b } else { b << (8 * sa3) | a >> (64 - 8 * sa3) });
                        }
                        None
                    });
                    let (aw, bw) = (a as u32, b as u32);
                    let v = match v {
                        Some(v) => v,
                        None => match ins >> 15 {
                            0x20 => w(aw.wrapping_add(bw)),
                            0x21 => a.wrapping_add(b),
                            0x22 => w(aw.wrapping_sub(bw)),
                            0x23 => a.wrapping_sub(b),
                            0x24 => ((a as i64) < b as i64) as u64,
                            0x25 => (a < b) as u64,
                            0x26 => if b == 0 { 0 } else { a },
                            0x27 => if b != 0 { 0 } else { a },
                            0x28 => !(a | b),
                            0x29 => a & b,
                            0x2a => a | b,
                            0x2b => a ^ b,
                            0x2c => a | !b,
                            0x2d => a & !b,
                            0x2e => w(aw << (bw & 31)),
                            0x2f => w(aw >> (bw & 31)),
                            0x30 => (aw as i32 >> (bw & 31)) as i64 as u64,
                            0x31 => a << (b & 63),
                            0x32 => a >> (b & 63),
                            0x33 => (a as i64 >> (b & 63)) as u64,
                            0x36 => w(aw.rotate_right(bw & 31)),
                            0x37 => a.rotate_right((b & 63) as u32),
                            0x38 => w(aw.wrapping_mul(bw)),
                            0x39 => ((aw as i32 as i64 * bw as i32 as i64) >> 32) as u64,
                            0x3a => w(((aw as u64 * bw as u64) >> 32) as u32),
                            0x3b => a.wrapping_mul(b),
                            0x3c => ((a as i64 as i128 * b as i64 as i128) >> 64) as u64,
                            0x3d => ((a as u128 * b as u128) >> 64) as u64,
                            0x3e => (aw as i32 as i64 * bw as i32 as i64) as u64,
                            0x3f => aw as u64 * bw as u64,
                            0x40 => w((aw as i32).checked_div(bw as i32).unwrap_or(0) as u32),
                            0x41 => w((aw as i32).checked_rem(bw as i32).unwrap_or(0) as u32),
                            0x42 => w(aw.checked_div(bw).unwrap_or(0)),
                            0x43 => w(aw.checked_rem(bw).unwrap_or(0)),
                            0x44 => (a as i64).checked_div(b as i64).unwrap_or(0) as u64,
                            0x45 => (a as i64).checked_rem(b as i64).unwrap_or(0) as u64,
                            0x46 => a.checked_div(b).unwrap_or(0),
                            0x47 => a.checked_rem(b).unwrap_or(0),
                            0x54 => return Err(Stop::Illegal(ins)),
                            0x81 => w(aw << rk),
                            0x89 => w(aw >> rk),
                            0x91 => (aw as i32 >> rk) as i64 as u64,
                            0x99 => w(aw.rotate_right(rk)),
                            _ => match ins >> 10 {
                                0x04 => (!aw).leading_zeros() as u64,
                                0x05 => aw.leading_zeros() as u64,
                                0x06 => (!aw).trailing_zeros() as u64,
                                0x07 => aw.trailing_zeros() as u64,
                                0x08 => (!a).leading_zeros() as u64,
                                0x09 => a.leading_zeros() as u64,
                                0x0a => (!a).trailing_zeros() as u64,
                                0x0b => a.trailing_zeros() as u64,
                                0x16 => a as i16 as i64 as u64,
                                0x17 => a as i8 as i64 as u64,
                                _ => return unknown,
                            },
                        },
                    };
                    self.set(rd, v);
                }
            },
            0x0e => {
                let p = a.wrapping_add(b);
                match ins >> 15 {
                    0x7000 => { let v = m.read(p, 1)? as i8 as u64; self.set(rd, v) }
                    0x7008 => { let v = m.read(p, 2)? as i16 as u64; self.set(rd, v) }
                    0x7010 => { let v = m.read(p, 4)? as i32 as u64; self.set(rd, v) }
                    0x7018 => { let v = m.read(p, 8)?; self.set(rd, v) }
                    0x7020 => m.write(p, 1, d)?,
                    0x7028 => m.write(p, 2, d)?,
                    0x7030 => m.write(p, 4, d)?,
                    0x7038 => m.write(p, 8, d)?,
                    0x7040 => { let v = m.read(p, 1)?; self.set(rd, v) }
                    0x7048 => { let v = m.read(p, 2)?; self.set(rd, v) }
                    0x7050 => { let v = m.read(p, 4)?; self.set(rd, v) }
                    0x7060 => self.f[rd as usize] = m.read(p, 4)?,
                    0x7068 => self.f[rd as usize] = m.read(p, 8)?,
                    0x7070 => m.write(p, 4, self.f[rd as usize])?,
                    0x7078 => m.write(p, 8, self.f[rd as usize])?,
                    x @ (0x70c0 | 0x70c1 | 0x70d2 | 0x70d3) => {
                        if rd == rj {
                            // what LLVM uses as an undefined instruction
                            return Err(Stop::Illegal(ins));
                        }
                        // amswap: the address is in rj alone
                        let n = if x & 1 == 0 { 4 } else { 8 };
                        let v = m.read(a, n)?;
                        m.write(a, n, b)?;
                        self.set(rd, if n == 4 { w(v as u32) } else { v });
                    }
                    // barriers
                    0x70e4 | 0x70e5 => {}
                    _ => return unknown,
                }
            }
            // ldptr and stptr
            0x09 => {
                let p = a.wrapping_add((((ins >> 10 & 0x3fff) << 18) as i32 >> 16) as i64 as u64);
                match ins >> 24 {
                    0x24 => { let v = m.read(p, 4)? as i32 as u64; self.set(rd, v) }
                    0x25 => m.write(p, 4, d)?,
                    0x26 => { let v = m.read(p, 8)?; self.set(rd, v) }
                    _ => m.write(p, 8, d)?,
                }
            }
            _ => return unknown,
        }
        self.pc = pc;
        Ok(())
    }
    fn pc(&self) -> u64 {
        self.pc
    }
    fn set_pc(&mut self, pc: u64) {
        self.pc = pc
    }
    fn sp(&self) -> u64 {
        self.r[3]
    }
    fn set_sp(&mut self, sp: u64) {
        self.r[3] = sp
    }
    fn set_args(&mut self, a: &[u64], ret: u64) {
        for (i, v) in a.iter().enumerate() {
            self.set(4 + i as u32, *v);
        }
        self.set(1, ret);
    }
    const APPLY: usize = 6;
    fn apply(&mut self, r: &[u64]) {
        self.pc = r[0];
        for (i, n) in [3, 4, 5, 22, 1].into_iter().enumerate() {
            self.set(n, r[i + 1]);
        }
    }
    fn dwarf(&self, n: u16) -> u64 {
        match n {
            0..=31 => self.r[n as usize],
            _ => self.f[n as usize - 32],
        }
    }
    fn dwarf_count() -> u16 {
        64
    }
    const KEPT: [u16; 2] = [22, 31];
    const SP: u16 = 3;
}
