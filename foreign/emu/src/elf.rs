//! Just enough of ELF for a static executable.
use std::collections::HashMap;

pub struct Elf {
    pub bits: u32,
    /// (address, bytes, size in memory, flags: 1 executable, 2 writable)
    pub loads: Vec<(u64, Vec<u8>, u64, u64)>,
    pub sections: HashMap<String, (u64, Vec<u8>)>,
    pub symbols: HashMap<String, u64>,
    /// Functions by address: (start, end, name).
    pub funcs: Vec<(u64, u64, String)>,
}

impl Elf {
    pub fn parse(d: &[u8]) -> Elf {
        assert_eq!(&d[..4], b"\x7fELF");
        let w64 = d[4] == 2;
        let u16_ = |o: usize| u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as u64;
        let u32_ = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64;
        let u64_ = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
        let word = |o: usize| if w64 { u64_(o) } else { u32_(o) };
        let (phoff, shoff, phentsize, phnum, shentsize, shnum, shstrndx);
        if w64 {
            (phoff, shoff, phentsize, phnum, shentsize, shnum, shstrndx) = (u64_(32), u64_(40), u16_(54), u16_(56), u16_(58), u16_(60), u16_(62));
        } else {
            (phoff, shoff, phentsize, phnum, shentsize, shnum, shstrndx) = (u32_(28), u32_(32), u16_(42), u16_(44), u16_(46), u16_(48), u16_(50));
        }
        let mut loads = Vec::new();
        for i in 0..phnum {
            let o = (phoff + i * phentsize) as usize;
            if u32_(o) != 1 {
                continue;
            }
            let (off, va, fsz, msz, flags) = if w64 { (u64_(o + 8), u64_(o + 16), u64_(o + 32), u64_(o + 40), u32_(o + 4)) } else { (u32_(o + 4), u32_(o + 8), u32_(o + 16), u32_(o + 20), u32_(o + 24)) };
            loads.push((va, d[off as usize..(off + fsz) as usize].to_vec(), msz, flags));
        }
        // name, type, addr, off, size, link
        let sh = |i: u64| {
            let o = (shoff + i * shentsize) as usize;
            if w64 { (u32_(o), u32_(o + 4), u64_(o + 16), u64_(o + 24), u64_(o + 32), u32_(o + 40)) } else { (u32_(o), u32_(o + 4), u32_(o + 12), u32_(o + 16), u32_(o + 20), u32_(o + 24)) }
        };
        let cstr = |o: usize| {
            let e = d[o..].iter().position(|b| *b == 0).unwrap();
            String::from_utf8_lossy(&d[o..o + e]).into_owned()
        };
        let shstr = sh(shstrndx).3;
        let mut sections = HashMap::new();
        let mut symbols = HashMap::new();
        let mut funcs = Vec::new();
        for i in 0..shnum {
            let (name, ty, addr, off, size, link) = sh(i);
            let data = if ty == 8 { Vec::new() } else { d[off as usize..(off + size) as usize].to_vec() };
            if ty == 2 {
                let strs = sh(link).3;
                let ent = if w64 { 24 } else { 16 };
                for j in 0..size / ent {
                    let o = (off + j * ent) as usize;
                    let (nm, info, val, sz) = if w64 { (u32_(o), d[o + 4], u64_(o + 8), u64_(o + 16)) } else { (u32_(o), d[o + 12], word(o + 4), u32_(o + 8)) };
                    if info & 15 == 2 {
                        let n = cstr((strs + nm) as usize);
                        funcs.push((val & !1, (val & !1) + sz, n.clone()));
                        symbols.insert(n, val);
                    }
                }
            }
            sections.insert(cstr((shstr + name) as usize), (addr, data));
        }
        funcs.sort();
        Elf { bits: if w64 { 64 } else { 32 }, loads, sections, symbols, funcs }
    }
    pub fn func_at(&self, pc: u64) -> Option<&(u64, u64, String)> {
        let i = self.funcs.partition_point(|f| f.0 <= pc);
        self.funcs[..i].iter().rev().take(8).find(|f| pc < f.1)
    }
}
