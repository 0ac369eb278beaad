//! Property-testing runtime: choice tape, forked workers, shrinking, evidence.
//!
//! Every case is a pure function of a *tape* of u32 choices. Random cases fill the tape from a
//! PRNG seeded by (VERIF_SEED, family, index); shrinking edits the tape; a replay file is a tape.
//! Cases run in forked worker processes because the typical failure of a stack switching library
//! is a crash: a fatal signal in a worker is itself a failing outcome of that case.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::ptr;

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.rotate_left(32).wrapping_mul(0xD1B54A32D192ED03) ^ c.wrapping_mul(0x94D049BB133111EB) ^ 0x2545F4914F6CDD1D);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

// ---------------------------------------------------------------- tape
pub const TAPE_MAX: usize = 1 << 15;

/// Shared-memory block, one per worker.
#[repr(C)]
pub struct Shared {
    pub fam: u32,
    pub idx: u64,
    pub ticks: u64,
    pub failed: u32,
    pub msg_len: u32,
    pub msg: [u8; 8192],
    pub tape_len: u32,
    pub tape: [u32; TAPE_MAX],
}

pub struct Tape {
    rng: Option<Rng>,
    data: Vec<u32>,
    pos: usize,
    rec: *mut Shared,
}
impl Tape {
    pub fn random(rng: Rng, rec: *mut Shared) -> Tape {
        unsafe { if !rec.is_null() { (*rec).tape_len = 0 } }
        Tape { rng: Some(rng), data: vec![], pos: 0, rec }
    }
    pub fn fixed(data: Vec<u32>) -> Tape {
        Tape { rng: None, data, pos: 0, rec: ptr::null_mut() }
    }
    /// Raw choice: zero once the tape is exhausted.
    fn raw(&mut self) -> u32 {
        let v = match &mut self.rng {
            Some(r) => {
                if self.pos >= TAPE_MAX { 0 } else { (r.next() >> 32) as u32 }
            }
            None => *self.data.get(self.pos).unwrap_or(&0),
        };
        if !self.rec.is_null() && self.pos < TAPE_MAX {
            unsafe {
                (*self.rec).tape[self.pos] = v;
                (*self.rec).tape_len = self.pos as u32 + 1;
            }
        }
        self.pos += 1;
        v
    }
    pub fn draw(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = self.raw();
        // Small stored values decode to themselves, which keeps shrunk tapes readable.
        v % n
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn u32(&mut self) -> u32 {
        self.raw()
    }
    pub fn u64(&mut self) -> u64 {
        (self.raw() as u64) << 32 | self.raw() as u64
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        // zero (the shrunk value) means "no"
        self.draw(den) >= den - num
    }
    /// Weighted choice; index 0 should be the simplest alternative.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn exhausted(&self) -> bool {
        self.rng.is_none() && self.pos >= self.data.len()
    }
}

// ---------------------------------------------------------------- statistics
#[derive(Default)]
pub struct Stats {
    pub nontrivial: bool,
    pub hash: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub sample: String,
    pub want_sample: bool,
}
impl Stats {
    pub fn class(&mut self, k: &'static str) {
        *self.classes.entry(k).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, c: bool, k: &'static str) {
        if c {
            self.class(k)
        }
    }
}
pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf29ce484222325 } else { h };
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_u64(h: u64, v: u64) -> u64 {
    hash_bytes(h, &v.to_le_bytes())
}

pub type CaseFn = fn(&mut Tape, &mut Stats) -> Result<(), String>;

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    /// description of one case for failing tapes
    pub rule: &'static str,
}

// ---------------------------------------------------------------- processes
pub unsafe fn shared_alloc<T>(n: usize) -> *mut T {
    let p = libc::mmap(ptr::null_mut(), std::mem::size_of::<T>() * n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
    assert!(p != libc::MAP_FAILED, "harness: shared mmap failed");
    p as *mut T
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Ok,
    Fail(String),
    Crash(i32),
    Hang,
    Harness(i32),
}
impl Outcome {
    pub fn is_violation(&self) -> bool {
        matches!(self, Outcome::Fail(_) | Outcome::Crash(_))
    }
}

pub const EXIT_FAIL: i32 = 10;
pub const EXIT_HARNESS: i32 = 3;

fn quiet() {
    unsafe {
        if std::env::var_os("CVH_VERBOSE").is_none() {
            let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(fd, 2);
            libc::close(fd);
        }
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
    }
}

/// Waits for `pid`, at most `secs` seconds (`None` = killed as hung).
pub fn wait_pid(pid: i32, secs: f64) -> Option<i32> {
    unsafe {
        let start = now();
        let mut us = 50;
        loop {
            let mut st = 0;
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                return Some(st);
            }
            if now() - start > secs {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return None;
            }
            libc::usleep(us);
            if us < 5000 {
                us = us * 3 / 2
            }
        }
    }
}
pub fn now() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}

fn decode_status(st: i32, sh: *mut Shared) -> Outcome {
    unsafe {
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            return match s {
                libc::SIGKILL | libc::SIGTERM | libc::SIGALRM | libc::SIGINT => Outcome::Harness(s),
                _ => Outcome::Crash(s),
            };
        }
        match libc::WEXITSTATUS(st) {
            0 => Outcome::Ok,
            EXIT_FAIL => {
                let l = (*sh).msg_len as usize;
                let m = std::slice::from_raw_parts(ptr::addr_of!((*sh).msg) as *const u8, l);
                Outcome::Fail(String::from_utf8_lossy(m).into_owned())
            }
            c => Outcome::Harness(c),
        }
    }
}

fn put_msg(sh: *mut Shared, m: &str) {
    unsafe {
        let b = m.as_bytes();
        let l = b.len().min(8192);
        ptr::copy_nonoverlapping(b.as_ptr(), ptr::addr_of_mut!((*sh).msg) as *mut u8, l);
        (*sh).msg_len = l as u32;
        (*sh).failed = 1;
    }
}

/// Runs one tape in a forked child.
pub fn run_isolated(f: CaseFn, tape: &[u32], sh: *mut Shared, want_text: bool) -> (Outcome, String) {
    unsafe {
        (*sh).failed = 0;
        (*sh).msg_len = 0;
        let fd = libc::memfd_create(c"cvh".as_ptr(), 0);
        let pid = libc::fork();
        if pid == 0 {
            quiet();
            let rl = libc::rlimit { rlim_cur: 25, rlim_max: 27 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let mut t = Tape::fixed(tape.to_vec());
            let mut st = Stats { want_sample: want_text, ..Default::default() };
            crate::util::SAMPLE_FD.store(if want_text { fd } else { -1 }, std::sync::atomic::Ordering::SeqCst);
            let r = f(&mut t, &mut st);
            match r {
                Ok(()) => libc::_exit(0),
                Err(m) => {
                    put_msg(sh, &m);
                    libc::_exit(EXIT_FAIL)
                }
            }
        }
        let st = wait_pid(pid, 150.0);
        let mut text = String::new();
        if want_text && fd >= 0 {
            let mut buf = [0u8; 4096];
            let mut off = 0;
            loop {
                let n = libc::pread(fd, buf.as_mut_ptr() as *mut _, buf.len(), off);
                if n <= 0 {
                    break;
                }
                off += n as libc::off_t;
                text.push_str(&String::from_utf8_lossy(&buf[..n as usize]));
            }
        }
        if fd >= 0 {
            libc::close(fd);
        }
        match st {
            None => (Outcome::Hang, text),
            Some(s) => (decode_status(s, sh), text),
        }
    }
}

fn shrink(f: CaseFn, mut tape: Vec<u32>, sh: *mut Shared, mut out: Outcome) -> (Vec<u32>, Outcome, usize) {
    let t0 = now();
    let mut tries = 0usize;
    let budget = 2500usize;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u32> = $cand;
            tries += 1;
            let (o, _) = run_isolated(f, &cand, sh, false);
            if o.is_violation() {
                tape = cand;
                out = o;
                true
            } else {
                false
            }
        }};
    }
    loop {
        let before = tape.clone();
        // remove blocks
        let mut sz = (tape.len() / 2).max(1);
        while sz >= 1 {
            let mut i = 0;
            while i < tape.len() {
                if tries > budget || now() - t0 > 90.0 {
                    return (tape, out, tries);
                }
                let e = (i + sz).min(tape.len());
                let mut c = tape[..i].to_vec();
                c.extend_from_slice(&tape[e..]);
                if !attempt!(c) {
                    i += sz;
                }
            }
            if sz == 1 {
                break;
            }
            sz /= 2;
        }
        // zero, then reduce single choices
        for i in 0..tape.len() {
            if i >= tape.len() || tape[i] == 0 {
                continue;
            }
            if tries > budget || now() - t0 > 90.0 {
                return (tape, out, tries);
            }
            let mut c = tape.clone();
            c[i] = 0;
            if attempt!(c) {
                continue;
            }
            for v in [1u32, 2, 3, 4, 8] {
                if i < tape.len() && v < tape[i] {
                    let mut c = tape.clone();
                    c[i] = v;
                    if attempt!(c) {
                        break;
                    }
                }
            }
        }
        if tape == before {
            return (tape, out, tries);
        }
    }
}

pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub out: String,
    pub replay: String,
    pub jobs: usize,
    pub config: String,
    pub only: Option<String>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct WorkerOut {
    evals: u64,
    nontriv: u64,
    hashes: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
}

fn worker(args: &Args, fams: &[Family], j: usize, sh: *mut Shared, path: &str) -> ! {
    quiet();
    let mut o = WorkerOut { evals: 0, nontriv: 0, hashes: HashSet::new(), classes: BTreeMap::new(), samples: vec![] };
    for (fi, fam) in fams.iter().enumerate() {
        let n = family_cases(args, fam);
        let mut idx = j as u64;
        let mut fam_samples = 0;
        while idx < n {
            unsafe {
                (*sh).fam = fi as u32;
                (*sh).idx = idx;
                (*sh).ticks += 1;
            }
            let rng = Rng::new(args.seed, hash_bytes(0, fam.name.as_bytes()), idx);
            let mut tape = Tape::random(rng, sh);
            let mut st = Stats { want_sample: j == 0 && fam_samples < 1 && idx > 4, ..Default::default() };
            let r = (fam.run)(&mut tape, &mut st);
            if let Err(m) = r {
                put_msg(sh, &m);
                unsafe { libc::_exit(EXIT_FAIL) }
            }
            o.evals += 1;
            *o.classes.entry(format!("family/{}", fam.name)).or_insert(0) += 1;
            for (k, v) in &st.classes {
                *o.classes.entry(format!("{}/{}", fam.name, k)).or_insert(0) += v;
            }
            if st.nontrivial {
                o.nontriv += 1;
                o.hashes.insert(hash_u64(st.hash, fi as u64));
                if st.want_sample && !st.sample.is_empty() {
                    o.samples.push(format!("[{}#{}] {}", fam.name, idx, st.sample));
                    fam_samples += 1;
                }
            }
            idx += args.jobs as u64;
        }
    }
    let mut s = String::new();
    let _ = writeln!(s, "E {} {}", o.evals, o.nontriv);
    for (k, v) in &o.classes {
        let _ = writeln!(s, "C {} {}", v, k);
    }
    for x in &o.samples {
        let _ = writeln!(s, "S {}", jstr(x));
    }
    for h in &o.hashes {
        let _ = writeln!(s, "H {:x}", h);
    }
    if std::fs::write(path, s).is_err() {
        unsafe { libc::_exit(EXIT_HARNESS) }
    }
    unsafe { libc::_exit(0) }
}

fn family_cases(args: &Args, f: &Family) -> u64 {
    let n = if args.thorough { f.thorough } else { f.quick };
    if n == 0 {
        return 0;
    }
    ((n as f64 * args.scale) as u64).max(1)
}

/// Returns the process exit code: 0 held, 1 violation (replay written), 2 error.
pub fn run(args: &Args, fams: Vec<Family>) -> i32 {
    let fams: Vec<Family> = fams.into_iter().filter(|f| args.only.as_ref().map_or(true, |o| o == f.name)).collect();
    let t0 = now();
    let jobs = args.jobs.max(1);
    let mut shs: Vec<*mut Shared> = vec![];
    let mut pids: Vec<i32> = vec![];
    for j in 0..jobs {
        unsafe {
            let sh = shared_alloc::<Shared>(1);
            shs.push(sh);
            let path = format!("{}.w{}", args.out, j);
            let _ = std::fs::remove_file(&path);
            let pid = libc::fork();
            if pid == 0 {
                worker(args, &fams, j, sh, &path);
            }
            pids.push(pid);
        }
    }
    let mut done: Vec<Option<Outcome>> = vec![None; jobs];
    let mut last: Vec<(u64, f64)> = vec![(0, now()); jobs];
    let mut bad: Option<usize> = None;
    while done.iter().any(|d| d.is_none()) {
        for j in 0..jobs {
            if done[j].is_some() {
                continue;
            }
            unsafe {
                let mut st = 0;
                let r = libc::waitpid(pids[j], &mut st, libc::WNOHANG);
                if r == pids[j] {
                    let o = decode_status(st, shs[j]);
                    if o != Outcome::Ok && bad.is_none() {
                        bad = Some(j);
                    }
                    done[j] = Some(o);
                    continue;
                }
                let tk = ptr::read_volatile(ptr::addr_of!((*shs[j]).ticks));
                if tk != last[j].0 {
                    last[j] = (tk, now());
                } else if now() - last[j].1 > 240.0 {
                    libc::kill(pids[j], libc::SIGKILL);
                    libc::waitpid(pids[j], &mut st, 0);
                    done[j] = Some(Outcome::Hang);
                    if bad.is_none() {
                        bad = Some(j);
                    }
                }
            }
        }
        if let Some(b) = bad {
            if matches!(done[b], Some(Outcome::Fail(_)) | Some(Outcome::Crash(_))) {
                for j in 0..jobs {
                    if done[j].is_none() {
                        unsafe {
                            libc::kill(pids[j], libc::SIGKILL);
                            let mut st = 0;
                            libc::waitpid(pids[j], &mut st, 0);
                        }
                        done[j] = Some(Outcome::Ok);
                    }
                }
            }
        }
        unsafe { libc::usleep(3000) };
    }
    // A case that got stuck counts only if, run alone, it spins (SIGXCPU) or fails otherwise.
    for j in 0..jobs {
        if done[j] == Some(Outcome::Hang) {
            unsafe {
                let sh = shs[j];
                let l = (*sh).tape_len as usize;
                let tape = std::slice::from_raw_parts(ptr::addr_of!((*sh).tape) as *const u32, l).to_vec();
                let (o, _) = run_isolated(fams[(*sh).fam as usize].run, &tape, sh, false);
                if o.is_violation() {
                    done[j] = Some(o);
                }
            }
        }
    }
    // a violation takes precedence over a hang or harness error elsewhere
    let vio = (0..jobs).find(|&j| done[j].as_ref().unwrap().is_violation());
    if let Some(j) = vio {
        let sh = shs[j];
        let (fi, idx, tape) = unsafe {
            let l = (*sh).tape_len as usize;
            ((*sh).fam as usize, (*sh).idx, std::slice::from_raw_parts(ptr::addr_of!((*sh).tape) as *const u32, l).to_vec())
        };
        let first = done[j].clone().unwrap();
        let f = fams[fi].run;
        let (mut again, _) = run_isolated(f, &tape, sh, false);
        // threads race: give a schedule-dependent failure some chances
        let mut chances = 20;
        let t1 = now();
        while !again.is_violation() && chances > 0 && now() - t1 < 60.0 {
            again = run_isolated(f, &tape, sh, false).0;
            chances -= 1;
        }
        let (tape, out, tries, repro) = if again.is_violation() {
            let (t, o, n) = shrink(f, tape, sh, again);
            (t, o, n, true)
        } else {
            (tape, first.clone(), 0, false)
        };
        let (_, text) = run_isolated(f, &tape, sh, true);
        let mut s = String::new();
        let _ = writeln!(s, "# property {} config {} family {} case {} seed {}", args.prop, args.config, fams[fi].name, idx, args.seed);
        let _ = writeln!(s, "# original outcome: {:?}", first);
        let _ = writeln!(s, "# shrunk outcome: {:?} ({} attempts, reproducible alone: {})", out, tries, repro);
        for l in text.lines() {
            let _ = writeln!(s, "# {}", l);
        }
        let _ = writeln!(s, "property {}", args.prop);
        let _ = writeln!(s, "config {}", args.config);
        let _ = writeln!(s, "family {}", fams[fi].name);
        let _ = writeln!(s, "seed {} index {}", args.seed, idx);
        let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(s, "tape {}", t.join(" "));
        if std::fs::write(&args.replay, &s).is_err() {
            eprintln!("cannot write replay {}", args.replay);
            return 2;
        }
        if !repro {
            // Depends on earlier cases in the same process, or on the schedule: confirm by rerunning
            // the whole worker sequence; only a repeated failure counts.
            let mut o = Outcome::Hang;
            for _ in 0..3 {
                unsafe {
                    (*sh).failed = 0;
                    (*sh).msg_len = 0;
                    let path = format!("{}.w{}", args.out, j);
                    let pid = libc::fork();
                    if pid == 0 {
                        worker(args, &fams, j, sh, &path);
                    }
                    let st = wait_pid(pid, 200.0);
                    o = st.map(|s| decode_status(s, sh)).unwrap_or(Outcome::Hang);
                }
                if o.is_violation() {
                    break;
                }
            }
            if !o.is_violation() {
                eprintln!("unreproducible failure {:?} (then {:?})", first, o);
                // the caller runs everything once more: failing again elsewhere counts
                return 3;
            }
        }
        println!("FOUND {} :: {:?}", fams[fi].name, out);
        return 1;
    }
    if let Some(b) = bad {
        let sh = shs[b];
        eprintln!("worker error {:?} in family {} case {}", done[b], unsafe { fams.get((*sh).fam as usize).map(|f| f.name).unwrap_or("?") }, unsafe { (*sh).idx });
        return 2;
    }
    // merge
    let mut o = WorkerOut { evals: 0, nontriv: 0, hashes: HashSet::new(), classes: BTreeMap::new(), samples: vec![] };
    for j in 0..jobs {
        let path = format!("{}.w{}", args.out, j);
        let Ok(txt) = std::fs::read_to_string(&path) else { eprintln!("missing worker output"); return 2 };
        let _ = std::fs::remove_file(&path);
        for l in txt.lines() {
            let (k, r) = l.split_at(2);
            match k {
                "E " => {
                    let mut it = r.split(' ');
                    o.evals += it.next().unwrap().parse::<u64>().unwrap();
                    o.nontriv += it.next().unwrap().parse::<u64>().unwrap();
                }
                "C " => {
                    let (v, name) = r.split_once(' ').unwrap();
                    *o.classes.entry(name.to_string()).or_insert(0) += v.parse::<u64>().unwrap();
                }
                "S " => o.samples.push(r.to_string()),
                "H " => {
                    o.hashes.insert(u64::from_str_radix(r, 16).unwrap());
                }
                _ => {}
            }
        }
    }
    let mut s = String::new();
    let _ = write!(s, "{{\"config\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.3},\"classes\":{{", jstr(&args.config), o.evals, o.nontriv, o.hashes.len(), now() - t0);
    for (i, (k, v)) in o.classes.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, jstr(k), v);
    }
    let _ = write!(s, "}},\"rules\":{{");
    for (i, f) in fams.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, jstr(f.name), jstr(f.rule));
    }
    let _ = write!(s, "}},\"samples\":[{}]}}", o.samples.join(","));
    if std::fs::write(&args.out, s).is_err() {
        return 2;
    }
    0
}

pub fn replay(path: &str, all: fn(&str) -> Vec<Family>) -> i32 {
    let txt = std::fs::read_to_string(path).expect("replay file");
    let mut prop = String::new();
    let mut fam = String::new();
    let mut tape = vec![];
    for l in txt.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            prop = x.trim().to_string();
        } else if let Some(x) = l.strip_prefix("family ") {
            fam = x.trim().to_string();
        } else if let Some(x) = l.strip_prefix("tape") {
            tape = x.split_whitespace().map(|x| x.parse().unwrap()).collect();
        }
    }
    let fams = all(&prop);
    let f = fams.iter().find(|f| f.name == fam).expect("family in replay file");
    let sh = unsafe { shared_alloc::<Shared>(1) };
    let (o, text) = run_isolated(f.run, &tape, sh, true);
    println!("{}\n=> {:?}", text, o);
    match o {
        Outcome::Ok => 0,
        o if o.is_violation() => 1,
        _ => 2,
    }
}
