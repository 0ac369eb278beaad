//! Interprets guests built for architectures this machine does not have, and compares their event logs with those
//! of the same programs run natively.
extern crate alloc;

mod aarch64;
mod arm;
mod cfi;
mod elf;
mod loong;
mod mem;
mod native;
mod pe;
#[cfg(target_arch = "x86_64")]
mod win;
#[path = "../../guest/src/prog.rs"]
#[allow(dead_code)]
mod prog;
mod riscv;
use native::sys;

use elf::Elf;
use mem::*;
use std::collections::HashSet;
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Case {
    seed: u64,
    fuel: u32,
    focus: u32,
    /// Where the arena is.
    arena: u64,
    /// A signal overwrites what is below the stack pointer, every so many instructions (0: never).
    signals: u32,
    /// Only the stacks in use may be touched.
    strict: bool,
}

impl Case {
    fn from(f: &[u64]) -> Case {
        Case { seed: f[0], fuel: f[1] as u32, focus: f[2] as u32, arena: f[3], signals: f[4] as u32, strict: f[5] != 0 }
    }
    fn show(&self, sep: &str) -> String {
        [self.seed, self.fuel as u64, self.focus as u64, self.arena, self.signals as u64, self.strict as u64].map(|x| x.to_string()).join(sep)
    }
}

fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn case(seed: u64, bits: u32, focus: u32, strict: bool) -> Case {
    let a = splitmix(seed);
    let arena = match (bits, a % 8) {
        (64, 0) => 0x1_0000_0000 - 0x10_0000,
        (64, 1) => 0x8000_0000 - 0x10_0000,
        (64, 2 | 3) => 0x7f12_3450_0000,
        (64, 4) => 0x100_0000 + (a >> 40) % 0x8000 * 0x1_0000,
        (32, 0 | 1) => 0x8000_0000 - 0x10_0000,
        (32, 2) => 0xf000_0000,
        _ => 0x100_0000,
    } & !0xfff;
    Case { seed: splitmix(a), fuel: 1 + ((a >> 8) % 20 * ((a >> 16) % 25)) as u32, focus, arena, signals: [0, 0, 7, 31, 150, 1000][(a >> 24) as usize % 6], strict }
}

struct Guest {
    elf: Elf,
    cfi: cfi::Cfi,
    main: u64,
    trap: u64,
}

struct Outcome {
    log: Vec<(u32, u32, u32)>,
    backtraces: u64,
    frames: u64,
    steps: u64,
}

const MAX_STEPS: u64 = 60_000_000;

fn emulate<C: Cpu>(g: &Guest, m: &mut Mem, c: Case) -> (Outcome, Result<(), String>) {
    let mut o = Outcome { log: Vec::new(), backtraces: 0, frames: 0, steps: 0 };
    m.reset(c.arena, c.strict);
    let mut cpu = C::new(g.elf.bits);
    cpu.set_pc(g.main);
    cpu.set_sp(MAIN_HI - 64 - c.seed % 64 * 16);
    let args = [c.seed as u32 as u64, c.seed >> 32, (c.focus << 16 | c.fuel) as u64, c.arena, HEAP, HEAP_END];
    cpu.set_args(&args, MAGIC);
    for (i, v) in cpu.stack_args(&args).iter().enumerate() {
        m.write(cpu.sp() + (i * m.word) as u64, m.word, *v).unwrap();
    }
    let r = go(g, m, c, &mut cpu, &mut o);
    let r = r.map_err(|e| {
        let f = g.elf.func_at(cpu.pc());
        format!("{e} (pc {:#x} in {}, sp {:#x}, after {} events)", cpu.pc(), f.map_or("?", |f| &f.2), cpu.sp(), o.log.len())
    });
    (o, r)
}

fn go<C: Cpu>(g: &Guest, m: &mut Mem, c: Case, cpu: &mut C, o: &mut Outcome) -> Result<(), String> {
    let mut armed: Option<u32> = None;
    // the state in which a trap happened
    let mut saved: Option<C> = None;
    let mut rng = splitmix(c.seed ^ 0x5157);
    let mut until = if c.signals > 0 { rng % c.signals as u64 } else { u64::MAX };
    let out = SIG_HI - 256;
    loop {
        o.steps += 1;
        if o.steps > MAX_STEPS {
            return Err("does not end".into());
        }
        if until != u64::MAX {
            if until == 0 {
                rng = splitmix(rng);
                until = rng % (2 * c.signals as u64) + 1;
                let sp = cpu.sp() & !3;
                for i in 1..=24 {
                    rng = splitmix(rng);
                    m.scribble(sp.wrapping_sub(C::RED_ZONE + 4 * i), rng);
                }
            }
            until -= 1;
        }
        match cpu.step(m) {
            Ok(()) => {}
            Err(Stop::Unknown(i)) => panic!("unknown instruction {i:#010x} at {:#x} in {:?}", cpu.pc(), g.elf.func_at(cpu.pc())),
            Err(s) => {
                let expected = match s {
                    Stop::Fault(a) => a == IO + 0xf000 || m.in_arena(a),
                    Stop::Illegal(_) => true,
                    _ => false,
                };
                let Some(seed) = armed.take().filter(|_| expected) else {
                    return Err(format!("{s:x?}"));
                };
                let sp = cpu.sp();
                saved = Some(cpu.clone());
                cpu.set_sp(SIG_HI - 512);
                cpu.set_args(&[sp, seed as u64, out], MAGIC);
                cpu.set_pc(g.trap);
            }
        }
        if cpu.pc() == MAGIC {
            let Some(s) = saved.take() else {
                return Err("returned from main".into());
            };
            *cpu = s;
            let r: Vec<u64> = (0..C::APPLY).map(|i| m.read_word(out + (i * m.word) as u64).unwrap()).collect();
            cpu.apply(&r);
        }
        match m.io.take() {
            None => {}
            Some(Io::Log(k, a, b)) => {
                o.log.push((k, a, b));
                if o.log.len() >= native::MAX {
                    return Err("too many events".into());
                }
            }
            Some(Io::Arm(s)) => armed = Some(s),
            Some(Io::Exit) => return Ok(()),
            Some(Io::Backtrace(p, n)) => {
                let cells: Vec<u64> = (0..n).map(|i| m.read_word(p + i * m.word as u64).unwrap()).rev().collect();
                let fr = g.cfi.unwind(cpu, m, 400)?;
                o.backtraces += 1;
                o.frames += fr.iter().filter(|f| f.kept).count() as u64;
                let mut it = cells.iter();
                for f in &fr {
                    let name = g.elf.func_at(f.pc.wrapping_sub(1)).map_or("", |f| &f.2);
                    if name.contains("4prog4exec") {
                        match it.next() {
                            Some(x) if f.sp <= *x && *x < f.cfa => {}
                            x => return Err(format!("backtrace: frame {:#x}..{:#x} of exec, expected one with {x:x?}", f.sp, f.cfa)),
                        }
                    }
                }
                if it.next().is_some() {
                    return Err(format!("backtrace: {} frames of exec are missing", it.count() + 1));
                }
                let last = fr.last().and_then(|f| g.elf.func_at(f.pc.wrapping_sub(1))).map_or("", |f| &f.2);
                if last != "guest_main" {
                    return Err(format!("backtrace ends in {last}"));
                }
            }
        }
    }
}

/// Events that are only there in case of an error.
fn bad(e: &(u32, u32, u32)) -> bool {
    match e.0 {
        prog::E_BAD => true,
        prog::E_WHERE | prog::E_LOCALS => e.1.max(e.2) > 0 && (e.0 == prog::E_WHERE && e.2 == 0 && e.1 != 0 || e.0 == prog::E_LOCALS && e.1 == 0),
        _ => false,
    }
}

/// How a case is run.
type Run<'a> = &'a mut dyn FnMut(Case) -> (Outcome, Result<(), String>);

/// Not the program, but operations on the crate's own stacks.
const STACKS: u32 = 1 << 15;

fn judge(run: Run, c: Case) -> (Outcome, Option<String>) {
    let (o, r) = run(c);
    if let Err(e) = r {
        return (o, Some(e));
    }
    if c.focus == STACKS {
        return (o, None);
    }
    let n = match native::run(c.seed, c.focus << 16 | c.fuel) {
        Ok(n) => n,
        Err(e) => return (o, Some(e)),
    };
    if let Some(i) = o.log.iter().position(bad) {
        let e = format!("event {i} {:?} says that something is wrong", o.log[i]);
        return (o, Some(e));
    }
    let i = o.log.iter().zip(&n).take_while(|(a, b)| a == b).count();
    if i < o.log.len().max(n.len()) {
        let e = format!("the histories differ at event {i}: here {:?}, natively {:?}; before: {:?}", o.log.get(i), n.get(i), &n[i.saturating_sub(6)..i]);
        return (o, Some(e));
    }
    (o, None)
}

/// Fewer operations, no signals, the plainest place.
fn shrink(run: Run, mut c: Case, mut why: String) -> (Case, String) {
    let mut tries: Vec<Case> = vec![Case { signals: 0, ..c }, Case { arena: 0x100_0000, ..c }];
    tries.push(Case { signals: 0, arena: 0x100_0000, ..c });
    for t in tries {
        if let Some(e) = judge(run, t).1 {
            (c, why) = (t, e);
        }
    }
    'again: loop {
        for f in (1..c.fuel).take(400) {
            let t = Case { fuel: f, ..c };
            if let Some(e) = judge(run, t).1 {
                (c, why) = (t, e);
                continue 'again;
            }
        }
        break;
    }
    for i in 0..300 {
        let t = Case { seed: splitmix(c.seed ^ i), fuel: c.fuel / 2 + 1, ..c };
        if t.fuel >= c.fuel {
            break;
        }
        if let Some(e) = judge(run, t).1 {
            (c, why) = (t, e);
        }
    }
    (c, why)
}

fn nontrivial(o: &Outcome) -> bool {
    if o.log.iter().any(|e| e.0 >= 30) {
        return true;
    }
    o.log.iter().filter(|e| e.0 == prog::E_YIELD || e.0 == prog::E_CALLED || e.0 == prog::E_HANDLER || e.0 == prog::E_GEOM).count() >= 2
}

fn interpret<C: Cpu>(args: &Args, g: &Guest) -> i32 {
    let mut m = Mem::new(&g.elf);
    run(args, g.elf.bits, &mut |c| emulate::<C>(g, &mut m, c))
}

fn run(args: &Args, bits: u32, run: Run) -> i32 {
    native::init();
    if let Some(c) = args.case {
        let (o, e) = judge(run, c);
        println!("{c:?}: {} events, {} steps, {} backtraces, {} frames", o.log.len(), o.steps, o.backtraces, o.frames);
        if args.verbose {
            println!("{:?}", o.log);
        }
        return match e {
            Some(e) => {
                println!("FOUND {e}");
                1
            }
            None => 0,
        };
    }
    // workers
    let mut pipes = Vec::new();
    for w in 0..args.jobs {
        let mut fd = [0; 2];
        unsafe { libc::pipe(fd.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::close(fd[0]) };
            native::init();
            let mut out = String::new();
            let (mut n, mut nt, mut bt, mut frames, mut steps, mut ev) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
            let mut kinds = [0u64; 32];
            let mut hs = HashSet::new();
            for i in (w as u64..args.cases).step_by(args.jobs) {
                let c = case(splitmix(args.seed).wrapping_add(i), bits, args.focus, args.strict);
                let (o, e) = judge(run, c);
                n += 1;
                bt += o.backtraces;
                frames += o.frames;
                steps += o.steps;
                ev += o.log.len() as u64;
                for x in &o.log {
                    kinds[x.0 as usize & 31] += 1;
                }
                if nontrivial(&o) {
                    nt += 1;
                    hs.insert((c.seed, c.fuel));
                }
                if let Some(e) = e {
                    let (c, e) = shrink(run, c, e);
                    out += &format!("fail {}\n{}\n", c.show(" "), e.replace('\n', " "));
                    break;
                }
            }
            out += &format!("stat {n} {nt} {} {bt} {frames} {steps} {ev}", hs.len());
            for k in kinds {
                out += &format!(" {k}");
            }
            out += "\n";
            use std::os::fd::FromRawFd;
            let mut f = unsafe { std::fs::File::from_raw_fd(fd[1]) };
            f.write_all(out.as_bytes()).unwrap();
            drop(f);
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fd[1]) };
        pipes.push((pid, fd[0]));
    }
    let mut tot = vec![0u64; 7 + 32];
    let mut fails: Vec<(Case, String)> = Vec::new();
    for (pid, fd) in pipes {
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        unsafe { std::fs::File::from_raw_fd(fd) }.read_to_string(&mut s).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 {
            eprintln!("a worker ended with status {st:#x}");
            return 2;
        }
        let mut l = s.lines();
        while let Some(x) = l.next() {
            let f: Vec<u64> = x.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
            if x.starts_with("fail") {
                fails.push((Case::from(&f), l.next().unwrap().to_string()));
            } else {
                for (a, b) in tot.iter_mut().zip(&f) {
                    *a += b;
                }
            }
        }
    }
    println!("STAT {}", tot.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    fails.sort_by_key(|f| f.0.fuel);
    if let Some((c, e)) = fails.first() {
        println!("CASE {}", c.show(":"));
        println!("FOUND {e}");
        return 1;
    }
    for i in 0..2 {
        println!("SAMPLE {:?}", case(splitmix(args.seed).wrapping_add(i), bits, args.focus, args.strict));
    }
    0
}

struct Args {
    seed: u64,
    cases: u64,
    jobs: usize,
    case: Option<Case>,
    focus: u32,
    strict: bool,
    verbose: bool,
}

fn main() {
    let mut a = Args { seed: 1, cases: 100, jobs: 8, case: None, focus: 0x3ff, strict: true, verbose: false };
    let (mut arch, mut file) = (String::new(), String::new());
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("a value");
        match k.as_str() {
            "--arch" => arch = v(),
            "--elf" => file = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--cases" => a.cases = v().parse().unwrap(),
            "--focus" => a.focus = v().parse().unwrap(),
            "--strict" => a.strict = v() == "1",
            "--jobs" => a.jobs = v().parse().unwrap(),
            "--case" => {
                let f: Vec<u64> = v().split(':').map(|x| x.parse().unwrap()).collect();
                a.case = Some(Case::from(&f));
            }
            "--verbose" => a.verbose = true,
            _ => panic!("{k}?"),
        }
    }
    if arch == "pe" {
        let mut m = pe::Machine::new(&std::fs::read(&file).unwrap());
        std::process::exit(run(&a, usize::BITS, &mut |c| m.run(c)));
    }
    #[cfg(target_arch = "x86_64")]
    if arch == "win" {
        a.focus = STACKS;
        let mut m = win::Machine::new(&std::fs::read(&file).unwrap());
        std::process::exit(run(&a, usize::BITS, &mut |c| m.run(c)));
    }
    let elf = Elf::parse(&std::fs::read(&file).unwrap());
    let sym = |n: &str| *elf.symbols.get(n).unwrap_or_else(|| panic!("no {n}"));
    let g = Guest { main: sym("guest_main"), trap: sym("guest_trap"), cfi: cfi::Cfi::new(&elf), elf };
    std::process::exit(match arch.as_str() {
        "riscv" => interpret::<riscv::Riscv>(&a, &g),
        "loong" => interpret::<loong::Loong>(&a, &g),
        "aarch64" => interpret::<aarch64::A64>(&a, &g),
        "arm" => interpret::<arm::Arm>(&a, &g),
        _ => panic!("architecture {arch}?"),
    });
}
