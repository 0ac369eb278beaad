//! DefaultStack against the kernel's view of the address space.
use super::*;
use crate::rt::{wait_pid, Tape};
use corosensei::stack::{DefaultStack, Stack, MIN_STACK_SIZE, STACK_ALIGNMENT};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn page() -> usize {
    unsafe { libc::sysconf(libc::_SC_PAGESIZE) as usize }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Seg {
    lo: usize,
    hi: usize,
    /// r, w, x, p/s packed; 0 is PROT_NONE
    pr: u8,
}
const MAXSEG: usize = 4096;
/// Address space with adjacent equal mappings merged; does not allocate.
pub struct Space {
    n: usize,
    s: [Seg; MAXSEG],
}
static mut BUF: [u8; 1 << 19] = [0; 1 << 19];
static mut SPACES: [Space; 3] = [const { Space { n: 0, s: [Seg { lo: 0, hi: 0, pr: 0 }; MAXSEG] } }; 3];

fn snap(which: usize) -> &'static Space {
    unsafe {
        let buf = &mut *std::ptr::addr_of_mut!(BUF);
        let fd = libc::open(c"/proc/self/maps".as_ptr(), libc::O_RDONLY);
        assert!(fd >= 0, "harness: maps");
        let mut len = 0;
        loop {
            let n = libc::read(fd, buf.as_mut_ptr().add(len) as *mut _, buf.len() - len);
            if n <= 0 {
                break;
            }
            len += n as usize;
        }
        libc::close(fd);
        assert!(len < buf.len(), "harness: maps too long");
        let sp = &mut (&mut *std::ptr::addr_of_mut!(SPACES))[which];
        sp.n = 0;
        let mut i = 0;
        while i < len {
            let mut num = |stop: u8| {
                let mut v = 0usize;
                while buf[i] != stop {
                    v = v.wrapping_shl(4) | (buf[i] as char).to_digit(16).unwrap() as usize;
                    i += 1;
                }
                i += 1;
                v
            };
            let (lo, hi) = (num(b'-'), num(b' '));
            let pr = (buf[i] == b'r') as u8 | ((buf[i + 1] == b'w') as u8) << 1 | ((buf[i + 2] == b'x') as u8) << 2 | ((buf[i + 3] == b's') as u8) << 3;
            let start = i;
            while buf[i] != b'\n' {
                i += 1;
            }
            let line = &buf[start..i];
            i += 1;
            // kernel-managed mappings that may grow by themselves
            if line.ends_with(b"[stack]") || line.ends_with(b"[heap]") {
                continue;
            }
            if sp.n > 0 && sp.s[sp.n - 1].hi == lo && sp.s[sp.n - 1].pr == pr {
                sp.s[sp.n - 1].hi = hi;
            } else {
                assert!(sp.n < MAXSEG, "harness: too many mappings");
                sp.s[sp.n] = Seg { lo, hi, pr };
                sp.n += 1;
            }
        }
        sp
    }
}
impl Space {
    fn segs(&self) -> &[Seg] {
        &self.s[..self.n]
    }
    fn same(&self, o: &Space) -> bool {
        self.segs() == o.segs()
    }
    /// Some(perms) if the whole range is mapped with one protection.
    fn prot(&self, lo: usize, hi: usize) -> Option<u8> {
        self.segs().iter().find(|s| s.lo <= lo && hi <= s.hi).map(|s| s.pr)
    }
    fn overlaps(&self, lo: usize, hi: usize) -> bool {
        self.segs().iter().any(|s| s.lo < hi && lo < s.hi)
    }
    /// Checks that `self` is `old` plus exactly `lo..hi`.
    fn is_plus(&self, old: &Space, lo: usize, hi: usize) -> bool {
        let total = |s: &Space| s.segs().iter().map(|x| x.hi - x.lo).sum::<usize>();
        if total(self) != total(old) + (hi - lo) || old.overlaps(lo, hi) {
            return false;
        }
        old.segs().iter().all(|s| self.prot(s.lo, s.hi) == Some(s.pr))
    }
}

#[derive(Clone, Copy)]
enum Inject {
    No,
    /// address space limit this much above current use
    As(usize),
    /// data limit: making the memory writable fails
    Data,
}

fn usage_kib() -> (usize, usize) {
    // VmSize, VmData
    let t = std::fs::read_to_string("/proc/self/status").unwrap();
    let f = |k: &str| t.lines().find(|l| l.starts_with(k)).unwrap().split_whitespace().nth(1).unwrap().parse::<usize>().unwrap();
    (f("VmSize:"), f("VmData:"))
}

const UNW: bool = cfg!(feature = "unwind");
const ENDS: [&str; 8] = ["dropped", "dropped by an unwinding panic", "dropped on another thread", "dropped with a finished coroutine", "dropped with a suspended coroutine", "dropped by on_stack", "dropped by on_stack whose closure panics", "dropped by a destructor during unwinding"];
/// Ends the life of a stack in one of the ways a program can.
fn end(s: DefaultStack, how: usize) {
    use corosensei::{on_stack, Coroutine};
    struct Held(Option<DefaultStack>);
    impl Drop for Held {
        fn drop(&mut self) {
            drop(self.0.take())
        }
    }
    match how {
        1 => {
            let r = catch_unwind(AssertUnwindSafe(move || {
                let _s = s;
                std::panic::panic_any(1u8)
            }));
            let _: bool = r.is_err();
        }
        2 => std::thread::spawn(move || drop(s)).join().unwrap(),
        3 => {
            let mut co: Coroutine<u32, (), u32, DefaultStack> = Coroutine::with_stack(s, |_, x| x);
            co.resume(1);
        }
        4 if UNW => {
            let mut co: Coroutine<u32, (), u32, DefaultStack> = Coroutine::with_stack(s, |y, x| {
                y.suspend(());
                x
            });
            co.resume(1);
        }
        5 => drop(on_stack(s, || 1)),
        6 if UNW => drop(catch_unwind(AssertUnwindSafe(|| on_stack(s, || std::panic::panic_any(2u8))))),
        7 => {
            let r = catch_unwind(AssertUnwindSafe(move || {
                let _h = Held(Some(s));
                std::panic::panic_any(1u8)
            }));
            let _: bool = r.is_err();
        }
        _ => drop(s),
    }
}
fn warm() {
    drop(catch_unwind(|| panic!("warm")));
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        for k in 1..8 {
            end(DefaultStack::new(256 * 1024).expect("harness: stack"), k);
        }
    });
}

/// Allocates one stack of the given size and checks everything observable about it.
fn one(size: usize, inj: Inject, how: usize) -> Result<&'static str, String> {
    hush();
    let pg = page();
    // warm up so that nothing else maps memory in between
    warm();
    snap(0);
    snap(1);
    unsafe {
        let set = |r, v: usize| {
            let mut rl: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(r, &mut rl);
            rl.rlim_cur = v as libc::rlim_t;
            libc::setrlimit(r, &rl);
        };
        match inj {
            Inject::No => {}
            Inject::As(k) => set(libc::RLIMIT_AS, usage_kib().0 * 1024 + k),
            Inject::Data => set(libc::RLIMIT_DATA, 4096),
        }
    }
    let before = snap(0);
    let r = catch_unwind(AssertUnwindSafe(|| DefaultStack::new(size)));
    let s = match r {
        Err(_) => {
            ensure!(size > usize::MAX - 16 * pg, "DefaultStack::new({size}) panicked");
            ensure!(snap(1).same(before), "DefaultStack::new({size}) panicked and left memory mapped");
            return Ok("overflow_panic");
        }
        Ok(Err(e)) => {
            ensure!(snap(1).same(before), "DefaultStack::new({size}) failed ({e}) and left the address space changed");
            // small requests only fail when made to
            ensure!(size > 64 << 20 || !matches!(inj, Inject::No), "DefaultStack::new({size}) failed: {e}");
            return Ok("error");
        }
        Ok(Ok(s)) => s,
    };
    let (lo, hi) = (s.limit().get(), s.base().get());
    let after = snap(1);
    ensure!(lo % STACK_ALIGNMENT == 0 && hi % STACK_ALIGNMENT == 0, "bounds {lo:#x}..{hi:#x} misaligned");
    ensure!(lo < hi, "bounds {lo:#x}..{hi:#x} empty");
    ensure!(lo % pg == 0 && hi % pg == 0, "bounds {lo:#x}..{hi:#x} are not the mapping's");
    ensure!(after.is_plus(before, lo, hi), "bounds {lo:#x}..{hi:#x} are not exactly what was mapped for size {size}");
    ensure!(after.prot(lo, lo + pg) == Some(0), "no inaccessible memory at the limit {lo:#x} (size {size})");
    let need = size.max(MIN_STACK_SIZE).max(4096);
    ensure!(hi - lo > need, "size {size}: only {} bytes between limit and base", hi - lo);
    // everything above the inaccessible part is one readable and writable block
    let mut rw = lo + pg;
    while rw < hi && after.prot(rw, rw + pg) == Some(0) {
        rw += pg;
    }
    ensure!(after.prot(rw, hi) == Some(3), "size {size}: {rw:#x}..{hi:#x} is not all readable and writable");
    ensure!(hi - rw >= need, "size {size}: only {} usable bytes", hi - rw);
    unsafe {
        let w = |p: usize| std::ptr::write_volatile(p as *mut u8, p as u8);
        w(hi - 1);
        w(hi - need);
        w(rw);
        let mut p = hi - need.min(1 << 20);
        while p < hi {
            w(p);
            p += 64;
        }
    }
    // too small for code to run on
    let how = if size < 64 * 1024 && (3..7).contains(&how) { 0 } else { how };
    end(s, how);
    ensure!(snap(1).same(before), "the address space is not restored after a stack of size {size} was {}", ENDS[how]);
    Ok("stack")
}

/// Overflow: memory right below the stack is ours and must stay untouched.
fn overflow(size: usize, via_coroutine: bool, guard_gap: usize) -> Result<(), String> {
    let s = DefaultStack::new(size).map_err(|e| format!("DefaultStack::new({size}): {e}"))?;
    let lo = s.limit().get();
    let len = 256 * 1024;
    let at = lo - len - guard_gap;
    let m = unsafe {
        libc::mmap(at as *mut _, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0)
    };
    if m == libc::MAP_FAILED {
        // something already lives there: nothing to watch, the fault itself is still checked
    }
    let watch = m as usize == at;
    if watch {
        unsafe { std::ptr::write_bytes(at as *mut u8, 0x5A, len) };
    }
    #[inline(never)]
    fn rec(n: u64, floor: usize) -> u64 {
        let mut a = [n; 24];
        let p = std::hint::black_box(&mut a);
        // stop far below, in case nothing faults
        if (p.as_ptr() as usize) < floor {
            return 7;
        }
        unsafe { std::ptr::write_volatile(&mut p[0], n) };
        rec(n + 1, floor).wrapping_add(p[3])
    }
    let floor = lo - 128 * 1024;
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            for g in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL] {
                libc::signal(g, libc::SIG_DFL);
            }
        }
        let v = if via_coroutine {
            let mut co = corosensei::Coroutine::<(), (), u64>::with_stack(s, move |_, ()| rec(0, floor));
            co.resume(()).as_return().unwrap()
        } else {
            corosensei::on_stack(s, || rec(0, floor))
        };
        unsafe { libc::_exit((v & 1) as i32) }
    }
    let st = wait_pid(pid, 60.0).unwrap_or_else(|| std::process::exit(3));
    let faulted = libc::WIFSIGNALED(st) && matches!(libc::WTERMSIG(st), libc::SIGSEGV | libc::SIGBUS);
    let touched = watch && unsafe { (0..len).any(|i| *((at + i) as *const u8) != 0x5A) };
    if m != libc::MAP_FAILED {
        unsafe { libc::munmap(m, len) };
    }
    ensure!(faulted, "overflowing a stack of size {size} did not fault (status {st:#x})");
    ensure!(!touched, "overflowing a stack of size {size} wrote below its limit");
    drop(s);
    Ok(())
}

/// Many stacks alive, created and dropped in any order.
fn many(t: &mut Tape, n: usize) -> Result<String, String> {
    warm();
    let mut live: Vec<(DefaultStack, usize, u8)> = Vec::with_capacity(64);
    let mut desc = String::with_capacity(4096);
    snap(0);
    snap(2);
    let origin = snap(2);
    for k in 0..n {
        let before = snap(0);
        if live.is_empty() || (t.chance(3, 5) && live.len() < 60) {
            let size = (1 + t.draw(40)) as usize * t.draw(5000) as usize;
            let s = DefaultStack::new(size).map_err(|e| format!("DefaultStack::new({size}): {e}"))?;
            let (lo, hi) = (s.limit().get(), s.base().get());
            ensure!(snap(1).is_plus(before, lo, hi), "bounds {lo:#x}..{hi:#x} of stack {k} are not exactly what was mapped");
            for (o, _, _) in &live {
                ensure!(o.base().get() <= lo || hi <= o.limit().get(), "stack {k} overlaps another live stack");
            }
            unsafe {
                std::ptr::write_volatile((hi - 1) as *mut u8, k as u8);
                std::ptr::write_volatile((hi - size.max(4096)) as *mut u8, k as u8);
            }
            desc.push_str(if desc.is_empty() { "new" } else { ", new" });
            live.push((s, size.max(4096), k as u8));
        } else {
            let i = t.draw(live.len() as u32) as usize;
            let (s, size, _) = live.swap_remove(i);
            let (lo, hi) = (s.limit().get(), s.base().get());
            let how = t.draw(8) as usize;
            let how = if size < 64 * 1024 && (3..7).contains(&how) { 0 } else { how };
            end(s, how);
            ensure!(before.is_plus(snap(1), lo, hi), "a stack was {}, which did not unmap exactly {lo:#x}..{hi:#x}", ENDS[how]);
            desc.push_str(", ");
            desc.push_str(ENDS[how]);
        }
        for (s, sz, v) in &live {
            let hi = s.base().get();
            let ok = unsafe { *((hi - 1) as *const u8) == *v && *((hi - sz) as *const u8) == *v };
            ensure!(ok, "contents of a live stack changed");
        }
    }
    while let Some(x) = live.pop() {
        drop(x);
    }
    ensure!(snap(1).same(origin), "address space not restored after dropping all stacks");
    Ok(desc)
}

fn forked(f: impl FnOnce() -> Result<&'static str, String>) -> Result<String, String> {
    unsafe {
        let mut fd = [0; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0, "harness: pipe");
        let pid = libc::fork();
        if pid == 0 {
            let r = f();
            let (c, m) = match &r {
                Ok(m) => (0, m.to_string()),
                Err(m) => (10, m.clone()),
            };
            libc::write(fd[1], m.as_ptr() as *const _, m.len());
            libc::_exit(c);
        }
        libc::close(fd[1]);
        let mut b = [0u8; 2000];
        let mut len = 0;
        loop {
            let n = libc::read(fd[0], b.as_mut_ptr().add(len) as *mut _, b.len() - len);
            if n <= 0 {
                break;
            }
            len += n as usize;
        }
        libc::close(fd[0]);
        let m = String::from_utf8_lossy(&b[..len]).into_owned();
        let st = wait_pid(pid, 60.0).unwrap_or_else(|| std::process::exit(3));
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                0 => return Ok(m),
                10 => return Err(m),
                _ => {}
            }
        }
        Err(format!("process died (status {st:#x}) {m}"))
    }
}

fn gen_size(t: &mut Tape) -> usize {
    let pg = page();
    let bits = usize::BITS;
    match t.weighted(&[5, 3, 3, 2, 2]) {
        0 => {
            // log-uniform up to 32 MiB
            let e = t.draw(25);
            (t.u32() as usize) % (1usize << (e + 1))
        }
        1 => {
            // around a page multiple
            let k = 1 + t.draw(40) as usize;
            (k * pg + t.draw(5) as usize).saturating_sub(2)
        }
        2 => {
            // huge: fails or reserves address space
            let e = 26 + t.draw(bits - 26);
            let base = 1usize << e;
            base.wrapping_add((t.u64() as usize) % base)
        }
        3 => usize::MAX - t.draw(3 * pg as u32) as usize,
        _ => [0, 1, pg - 1, pg, pg + 1, 4095, 4096, 4097, 1 << 20, usize::MAX / 2, usize::MAX / 2 + 1][t.draw(11) as usize],
    }
}

pub fn case(t: &mut Tape, st: &mut Stats) -> Result<(), String> {
    hush();
    match t.weighted(&[6, 4, 4, 2, 3]) {
        0 => {
            let size = gen_size(t);
            let how = t.draw(8) as usize;
            note(st, true, format!("DefaultStack::new({size}), {}", ENDS[how]));
            let c = one(size, Inject::No, how)?;
            st.class(c);
        }
        1 => {
            let size = gen_size(t).min(1 << 28);
            let gap = t.draw(1 << 22) as usize;
            note(st, size > 4096, format!("DefaultStack::new({size}) with {gap} bytes of address space left"));
            let c = forked(move || one(size, Inject::As(gap), 0))?;
            st.class(if c == "error" { "mmap_failed" } else { "as_limit_sufficed" });
        }
        2 => {
            let size = gen_size(t).min(1 << 28);
            note(st, true, format!("DefaultStack::new({size}) with mprotect failing"));
            let c = forked(move || one(size, Inject::Data, 0))?;
            st.class(if c == "error" { "mprotect_failed" } else { "data_limit_sufficed" });
        }
        3 => {
            let size = gen_size(t) % (1 << 20);
            let via = t.chance(1, 2);
            let gap = 4096 * t.draw(2) as usize;
            let size = if via { size.max(64 * 1024) } else { size.max(16384) };
            note(st, true, format!("overflow of a stack of size {size} ({})", if via { "coroutine" } else { "on_stack" }));
            st.class("overflow");
            overflow(size, via, gap)?;
        }
        _ => {
            let n = 4 + t.draw(40) as usize;
            let d = many(t, n)?;
            note(st, true, format!("many stacks: {d}"));
            st.class("many");
        }
    }
    Ok(())
}
