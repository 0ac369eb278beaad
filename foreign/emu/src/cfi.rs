//! Unwinding with the guest's own call frame information.
use crate::elf::Elf;
use crate::mem::*;
use gimli::{BaseAddresses, CfaRule, CommonInformationEntry, DebugFrame, EhFrame, EndianSlice, FrameDescriptionEntry, LittleEndian, RegisterRule, UnwindContext, UnwindSection};

type R = EndianSlice<'static, LittleEndian>;
pub enum Section {
    Eh(EhFrame<R>),
    Debug(DebugFrame<R>),
}
pub struct Cfi {
    sec: Section,
    bases: BaseAddresses,
    /// (start, end, description)
    fdes: Vec<(u64, u64, FrameDescriptionEntry<R>)>,
}
pub struct Frame {
    pub pc: u64,
    pub sp: u64,
    pub cfa: u64,
    /// What callees keep was found as it was at the call.
    pub kept: bool,
}

impl Cfi {
    pub fn new(e: &Elf) -> Cfi {
        let mut fdes = Vec::new();
        let bases;
        let sec;
        if let Some((addr, data)) = e.sections.get(".eh_frame") {
            let data: &'static [u8] = data.clone().leak();
            let mut s = EhFrame::new(data, LittleEndian);
            s.set_address_size(e.bits as u8 / 8);
            bases = BaseAddresses::default().set_eh_frame(*addr).set_text(e.sections[".text"].0);
            collect(&s, &bases, &mut fdes);
            sec = Section::Eh(s);
        } else {
            let data: &'static [u8] = e.sections[".debug_frame"].1.clone().leak();
            let mut s = DebugFrame::new(data, LittleEndian);
            s.set_address_size(e.bits as u8 / 8);
            bases = BaseAddresses::default();
            collect(&s, &bases, &mut fdes);
            sec = Section::Debug(s);
        }
        fdes.sort_by_key(|f| f.0);
        Cfi { sec, bases, fdes }
    }

    /// The frames from the CPU's state outwards, up to `MAGIC`, or what is wrong.
    pub fn unwind<C: Cpu>(&self, c: &C, m: &Mem, limit: usize) -> Result<Vec<Frame>, String> {
        let mask = if m.word == 4 { 0xffff_ffff } else { !0 };
        let mut regs: Vec<u64> = (0..C::dwarf_count()).map(|i| c.dwarf(i)).collect();
        let mut pc = c.pc();
        let mut exact = true;
        let mut kept = false;
        let mut out = Vec::new();
        let mut ctx: UnwindContext<usize> = UnwindContext::new();
        loop {
            if pc == MAGIC {
                return Ok(out);
            }
            if out.len() >= limit {
                return Err(format!("more than {limit} frames"));
            }
            if !out.is_empty() {
                let have = C::KEPT.map(|r| regs[r as usize]);
                kept = false;
                if let Some(k) = m.kept(regs[C::SP as usize], pc) {
                    if k != have {
                        return Err(format!("unwinding to {pc:#x}: registers {:?} are {have:x?}, at the call they were {k:x?}", C::KEPT));
                    }
                    kept = true;
                }
            }
            let at = if exact { pc } else { pc.wrapping_sub(1) };
            let i = self.fdes.partition_point(|f| f.0 <= at);
            let Some(f) = i.checked_sub(1).map(|i| &self.fdes[i]).filter(|f| at < f.1) else {
                return Err(format!("no unwinding information for {at:#x}"));
            };
            let row = match &self.sec {
                Section::Eh(s) => f.2.unwind_info_for_address(s, &self.bases, &mut ctx, at),
                Section::Debug(s) => f.2.unwind_info_for_address(s, &self.bases, &mut ctx, at),
            }
            .map_err(|e| format!("bad unwinding information for {at:#x}: {e}"))?;
            let cfa = match row.cfa() {
                CfaRule::RegisterAndOffset { register, offset } => regs[register.0 as usize].wrapping_add(*offset as u64),
                CfaRule::Expression(e) => {
                    let e = match &self.sec {
                        Section::Eh(s) => e.get(s),
                        Section::Debug(s) => e.get(s),
                    }
                    .map_err(|e| e.to_string())?;
                    eval(e, &regs, m, f.2.cie())?
                }
            } & mask;
            out.push(Frame { pc, sp: regs[C::SP as usize], cfa, kept });
            let mut new = regs.clone();
            new[C::SP as usize] = cfa;
            for (r, rule) in row.registers() {
                let r = r.0 as usize;
                if r >= new.len() {
                    continue;
                }
                new[r] = match rule {
                    RegisterRule::Offset(o) => m.read_word(cfa.wrapping_add(*o as u64) & mask).map_err(|e| format!("register {r} of the caller of {at:#x}: {e:?}"))?,
                    RegisterRule::Register(q) => regs[q.0 as usize],
                    RegisterRule::SameValue => regs[r],
                    RegisterRule::ValOffset(o) => cfa.wrapping_add(*o as u64) & mask,
                    RegisterRule::Undefined => 0,
                    x => return Err(format!("rule {x:?} at {at:#x}")),
                };
            }
            let ra = f.2.cie().return_address_register().0 as usize;
            exact = f.2.is_signal_trampoline();
            // the next frame is looked up before its return address, unless this one was a signal frame
            pc = new[ra] & C::PC_MASK;
            regs = new;
        }
    }
}

fn collect<S: UnwindSection<R>>(s: &S, bases: &BaseAddresses, out: &mut Vec<(u64, u64, FrameDescriptionEntry<R>)>)
where
    S::Offset: gimli::UnwindOffset<usize>,
{
    let mut it = s.entries(bases);
    while let Some(e) = it.next().expect("unwinding information") {
        if let gimli::CieOrFde::Fde(p) = e {
            let f = p.parse(|s, b, o| s.cie_from_offset(b, o)).expect("frame description");
            out.push((f.initial_address(), f.initial_address() + f.len(), f));
        }
    }
}

fn eval(e: gimli::Expression<R>, regs: &[u64], m: &Mem, cie: &CommonInformationEntry<R>) -> Result<u64, String> {
    use gimli::{EvaluationResult, Value};
    let enc = cie.encoding();
    let mut ev = e.evaluation(enc);
    let mut r = ev.evaluate().map_err(|e| e.to_string())?;
    let v = |x: u64| if enc.address_size == 4 { Value::U32(x as u32) } else { Value::U64(x) };
    loop {
        r = match r {
            EvaluationResult::Complete => break,
            EvaluationResult::RequiresRegister { register, .. } => ev.resume_with_register(Value::Generic(regs[register.0 as usize])).map_err(|e| e.to_string())?,
            EvaluationResult::RequiresMemory { address, .. } => {
                let x = m.read_word(address).map_err(|e| format!("unwinding: {e:?}"))?;
                let _ = &v;
                ev.resume_with_memory(Value::Generic(x)).map_err(|e| e.to_string())?
            }
            x => return Err(format!("expression needs {x:?}")),
        };
    }
    match ev.result().into_iter().next().map(|p| p.location) {
        Some(gimli::Location::Address { address }) => Ok(address),
        x => Err(format!("expression gives {x:?}")),
    }
}
