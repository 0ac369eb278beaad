//! The guest's memory: an image, a heap, a stack, and an arena in which only what has been allowed may be touched.
use crate::elf::Elf;

pub const LOW: u64 = 0x40_0000;
pub const HEAP: u64 = 0x20_0000;
pub const HEAP_END: u64 = 0x30_0000;
pub const MAIN_HI: u64 = 0x36_0000;
pub const SIG_HI: u64 = 0x37_0000;
pub const ARENA: u64 = 2 << 20;
pub const IO: u64 = 0x70_0000;
pub const MAGIC: u64 = 0x6f_fff0;

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// An access to memory that may not be touched.
    Fault(u64),
    /// Not an instruction (of the ones that may occur).
    Illegal(u32),
    /// An instruction the interpreter should know.
    Unknown(u32),
    /// A call with a misaligned stack pointer.
    Align(u64),
}
pub type Res<T> = Result<T, Stop>;

#[derive(Clone, Copy, Debug)]
pub enum Io {
    Log(u32, u32, u32),
    Backtrace(u64, u64),
    Arm(u32),
    Exit,
}

pub struct Mem {
    pub ram: Vec<u8>,
    /// Bytes of the arena that may be touched.
    ok: Vec<bool>,
    strict: bool,
    image_hi: u64,
    code: (u64, u64),
    ro: Vec<(u64, u64)>,
    pub arena: u64,
    pub word: usize,
    fresh: Vec<u8>,
    dirty: Vec<bool>,
    regs: [u64; 16],
    pub io: Option<Io>,
    /// Where functions begin.
    /// By stack pointer: the last call made with it, as its return address and the registers that callees keep.
    calls: Vec<(u64, [u64; 2])>,
    pub functions: std::collections::HashSet<u64>,
}

impl Mem {
    pub fn new(e: &Elf) -> Mem {
        let mut ram = vec![0; (LOW + ARENA) as usize];
        let mut image_hi = 0;
        let mut ro = Vec::new();
        let mut code = (u64::MAX, 0);
        for (va, d, msz, flags) in &e.loads {
            assert!(va + msz <= HEAP, "image too large");
            ram[*va as usize..*va as usize + d.len()].copy_from_slice(d);
            image_hi = image_hi.max(va + msz);
            if flags & 1 != 0 {
                code = (code.0.min(*va), code.1.max(va + msz));
            }
            if flags & 2 == 0 {
                ro.push((*va, va + msz));
            }
        }
        let n = ram.len();
        Mem { fresh: ram[..HEAP as usize].to_vec(), ram, ok: vec![false; ARENA as usize], strict: true, image_hi, code, ro, arena: LOW, word: e.bits as usize / 8, dirty: vec![false; n >> 12], regs: [0; 16], io: None, calls: vec![(0, [0; 2]); n / 4], functions: e.funcs.iter().filter(|f| !f.2.contains("trampoline") || f.2 == "stack_call_trampoline").map(|f| f.0).collect() }
    }
    pub fn reset(&mut self, arena: u64, strict: bool) {
        for (i, d) in self.dirty.iter_mut().enumerate() {
            if *d {
                *d = false;
                let (a, b) = (i << 12, (i + 1) << 12);
                if b <= self.fresh.len() {
                    self.ram[a..b].copy_from_slice(&self.fresh[a..b]);
                } else {
                    self.ram[a..b].fill(0);
                }
            }
        }
        self.ok.fill(!strict);
        self.strict = strict;
        self.arena = arena;
        self.io = None;
    }
    #[inline(always)]
    fn at(&self, a: u64, n: usize) -> Res<usize> {
        let r = a.wrapping_sub(self.arena);
        if r < ARENA {
            let r = r as usize;
            if r + n <= ARENA as usize && self.ok[r..r + n].iter().all(|x| *x) {
                return Ok(LOW as usize + r);
            }
            return Err(Stop::Fault(a));
        }
        if a >= 0x1_0000 && a + n as u64 <= SIG_HI && (a < self.image_hi || a >= HEAP) {
            return Ok(a as usize);
        }
        Err(Stop::Fault(a))
    }
    pub fn called(&mut self, sp: u64, ret: u64, kept: [u64; 2]) {
        if let Ok(i) = self.at(sp, 1) {
            self.calls[i / 4] = (ret, kept);
        }
    }
    /// The registers with which the call that returns to `ret` was made.
    pub fn kept(&self, sp: u64, ret: u64) -> Option<[u64; 2]> {
        let i = self.at(sp, 1).ok()?;
        Some(self.calls[i / 4]).filter(|c| c.0 == ret).map(|c| c.1)
    }
    /// Is it in the arena, at all?
    pub fn in_arena(&self, a: u64) -> bool {
        a.wrapping_sub(self.arena) < ARENA
    }
    #[inline(always)]
    pub fn read(&self, a: u64, n: usize) -> Res<u64> {
        let i = self.at(a, n)?;
        let mut b = [0; 8];
        b[..n].copy_from_slice(&self.ram[i..i + n]);
        Ok(u64::from_le_bytes(b))
    }
    #[inline(always)]
    pub fn write(&mut self, a: u64, n: usize, v: u64) -> Res<()> {
        if a.wrapping_sub(IO) < 0x100 {
            return self.device(a - IO, v);
        }
        let i = self.at(a, n)?;
        if self.ro.iter().any(|r| r.0 <= a && a < r.1) {
            return Err(Stop::Fault(a));
        }
        self.ram[i..i + n].copy_from_slice(&v.to_le_bytes()[..n]);
        self.dirty[i >> 12] = true;
        self.dirty[(i + n - 1) >> 12] = true;
        Ok(())
    }
    pub fn read_word(&self, a: u64) -> Res<u64> {
        self.read(a, self.word)
    }
    /// Overwrites memory if it may be touched.
    pub fn scribble(&mut self, a: u64, v: u64) {
        if self.at(a, 4).is_ok() {
            let _ = self.write(a, 4, v);
        }
    }
    pub fn code32(&self, a: u64) -> Res<u32> {
        if a < self.code.0 || a >= self.code.1 || a % 2 != 0 {
            return Err(Stop::Fault(a));
        }
        let i = a as usize;
        Ok(u32::from_le_bytes(self.ram[i..i + 4].try_into().unwrap()))
    }
    fn device(&mut self, off: u64, v: u64) -> Res<()> {
        // the upper half of a word written in two steps
        if off % 16 != 0 {
            return Ok(());
        }
        let k = (off / 16) as usize;
        self.regs[k] = v;
        match k {
            2 => self.io = Some(Io::Log(self.regs[0] as u32, self.regs[1] as u32, v as u32)),
            5 => {
                let (lo, hi) = (self.regs[3].wrapping_sub(self.arena), self.regs[4].wrapping_sub(self.arena));
                if lo > hi || hi > ARENA {
                    return Err(Stop::Fault(self.regs[3]));
                }
                self.ok[lo as usize..hi as usize].fill(v != 0 || !self.strict);
            }
            7 => self.io = Some(Io::Backtrace(self.regs[6], v)),
            8 => self.io = Some(Io::Arm(v as u32)),
            9 => self.io = Some(Io::Exit),
            _ => {}
        }
        Ok(())
    }
}

pub trait Cpu: Clone {
    fn new(bits: u32) -> Self;
    fn step(&mut self, m: &mut Mem) -> Res<()>;
    fn pc(&self) -> u64;
    fn set_pc(&mut self, pc: u64);
    fn sp(&self) -> u64;
    fn set_sp(&mut self, sp: u64);
    fn set_args(&mut self, a: &[u64], ret: u64);
    /// Those of the arguments that are passed in memory.
    fn stack_args<'a>(&self, _: &'a [u64]) -> &'a [u64] {
        &[]
    }
    /// Applies the registers of a trap handler, in the order of the guest's `sys::regs`.
    fn apply(&mut self, r: &[u64]);
    const APPLY: usize;
    /// By DWARF number.
    fn dwarf(&self, n: u16) -> u64;
    fn dwarf_count() -> u16;
    /// DWARF number of the stack pointer.
    const PC_MASK: u64 = !0;
    /// Bytes below the stack pointer that signals leave alone.
    const RED_ZONE: u64 = 0;
    const SP: u16;
    /// Registers that callees keep and that the switches save, by DWARF number.
    const KEPT: [u16; 2];
}
