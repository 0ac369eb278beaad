"""Back ends for processors this machine does not have, by interpretation.

A random program over the API (`foreign/guest/src/prog.rs`, a function of a seed and a number of operations) is
compiled for bare metal of another architecture and interpreted (`foreign/emu`), and the same source runs natively.
Both write a log of events, which must be equal. Besides, the interpreter faults on memory that is not a stack in
use (where the property is about that), overwrites what is below the stack pointer at random moments, insists on an
aligned stack pointer at calls, turns real traps into calls of the trap handler, and unwinds with the guest's CFI.

Windows images run on this processor: `foreign/emu/src/pe.rs` maps them, gives them a thread information block, and
checks at every event that it describes the stack in use, while it changes what Windows would change.
"""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from build_lib import BUILD, NIGHTLY, STABLE, V, X64, X86, HarnessError, _cfg, cargo_build, clean_env

REPLAYS = os.path.join(V, "replays")
FLAGS = (
    "-C link-arg=--entry=guest_main -C link-arg=--undefined=guest_trap -C link-arg=--image-base=0x10000 "
    "-C force-unwind-tables=yes -C no-vectorize-loops -C no-vectorize-slp"
)
# an image that starts with the program and stays where it says
PE = (
    "-C linker-flavor=lld-link -C linker=rust-lld -C link-arg=/ENTRY:guest_main -C link-arg=/SUBSYSTEM:CONSOLE "
    "-C link-arg=/NODEFAULTLIB -C link-arg=/FIXED"
)
# name: (interpreter, target, further flags, features, quick)
TARGETS = {
    "riscv64gc": ("riscv", "riscv64gc-unknown-none-elf", "", [], True),
    "riscv32imac": ("riscv", "riscv32imac-unknown-none-elf", "", [], True),
    "loongarch64": ("loong", "loongarch64-unknown-none", "", [], True),
    "armv7a": ("arm", "armv7a-none-eabihf", "", [], True),
    "aarch64": ("aarch64", "aarch64-unknown-none", "", [], True),
    "win64": ("pe", "x86_64-pc-windows-msvc", "", [], True),
    "win32": ("pe32", "i686-pc-windows-msvc", "", [], True),
    "riscv64imac": ("riscv", "riscv64imac-unknown-none-elf", "", [], False),
    "riscv32imafc": ("riscv", "riscv32imafc-unknown-none-elf", "", [], False),
    "riscv64gc-o1": ("riscv", "riscv64gc-unknown-none-elf", "-C opt-level=1", [], False),
    "loongarch64-o1": ("loong", "loongarch64-unknown-none", "-C opt-level=1", [], False),
    "armv7a-o1": ("arm", "armv7a-none-eabihf", "-C opt-level=1", [], False),
    "aarch64-o1": ("aarch64", "aarch64-unknown-none", "-C opt-level=1", [], False),
    "win64-o1": ("pe", "x86_64-pc-windows-msvc", "-C opt-level=1", [], False),
    "win32-o1": ("pe32", "i686-pc-windows-msvc", "-C opt-level=1", [], False),
}
KERN, TYPES, ONSTACK, PARENT, BOUNDS, END, TRAP, GEOM, BACK, FINAL = (1 << i for i in range(10))
# what the programs of a property contain, and whether only stacks in use may be touched
FOCUS = {
    "C01": (TYPES | ONSTACK | PARENT | END, 0),
    "C02": (END | FINAL, 0),
    "C03": (KERN | TYPES | END, 0),
    "C08": (ONSTACK | KERN | TYPES, 0),
    "C09": (PARENT | KERN | TYPES, 0),
    "C10": (TYPES | ONSTACK | PARENT | END | TRAP | GEOM, 1),
    "C12": (TYPES | END | GEOM, 1),
    "C13": (TRAP | ONSTACK | PARENT | TYPES | END | BACK, 1),
    "C14": (BOUNDS | END, 0),
    "C15": (BACK | ONSTACK | PARENT | TRAP, 1),
    "C17": (END | TYPES, 1),
}
KINDS = "create resume yield return input bad destroyed stack state bounds registers call called trap handler end into captured where must-panic panic finished geometry locals never-started kept-registers".split()


def build_emu(names):
    """The interpreters, by whether they run 32-bit images."""
    found = {}
    for p32 in {TARGETS[n][0] == "pe32" for n in names}:
        arts = cargo_build("fx-emu32" if p32 else "fx-emu", os.path.join(V, "foreign", "emu"), _cfg(STABLE, X86 if p32 else X64, True, []))
        exe = [a["executable"] for a in arts if a.get("executable")]
        if not exe:
            raise HarnessError("no interpreter")
        found[p32] = exe[0]
    return found


def sysroot(name, target):
    """One with the core libraries for the target: the crate's build script for ARM compiles small programs."""
    root = os.path.join(BUILD, "fx-%s-sysroot" % name)
    lib = os.path.join(root, "lib", "rustlib", target, "lib")
    cfg = _cfg(NIGHTLY, target, True, [], "-C force-unwind-tables=yes")
    arts = cargo_build("fx-%s-core" % name, os.path.join(V, "foreign", "core"), cfg, ["-Zbuild-std=core,alloc,compiler_builtins"])
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(lib)
    for a in arts:
        if a["target"]["name"] in ("core", "alloc", "compiler_builtins"):
            for f in a["filenames"]:
                for g in {f, f[: f.rindex(".")] + ".rmeta"}:
                    if os.path.exists(g):
                        shutil.copy(g, lib)
    return root


def build_guest(name):
    """The program for a target, or None if the crate cannot be built for it."""
    arch, target, flags, feats, _ = TARGETS[name]
    cfg = _cfg(NIGHTLY, target, True, feats, ((PE if arch.startswith("pe") else FLAGS) + " " + flags).strip())
    extra = ["-Zbuild-std=core,alloc"]
    if arch.startswith("pe"):
        extra.append("-Zbuild-std-features=compiler-builtins-mem")
    try:
        if arch == "arm":
            extra = []
            # unwinding information for debuggers, as there is no other in a common format
            cfg["env"] = {"CARGO_PROFILE_RELEASE_DEBUG": "line-tables-only"}
            cfg["rustflags"] = "--sysroot %s %s" % (sysroot(name, target), cfg["rustflags"])
        arts = cargo_build("fx-" + name, os.path.join(V, "foreign", "guest"), cfg, extra)
    except HarnessError as e:
        if e.targets == {"guest"}:
            raise
        print("skipping %s: %s" % (name, str(e)[:1500]), file=sys.stderr)
        return None
    exe = [a["executable"] for a in arts if a.get("executable")]
    return exe[0] if exe else None


def build(names):
    with ThreadPoolExecutor(max_workers=8) as ex:
        emu = ex.submit(build_emu, names)
        guests = dict(zip(names, ex.map(build_guest, names)))
        return emu.result(), {n: g for n, g in guests.items() if g}


# crates that the standard library's dependencies name, for a program that calls nothing in them
LIBS = "kernel32 ntdll userenv ws2_32 dbghelp synchronization msvcrt advapi32 bcrypt".split()


def build_winstack():
    """The program that does with DefaultStack what its host asks for, or None."""
    d = os.path.join(BUILD, "fx-winlibs")
    os.makedirs(d, exist_ok=True)
    for l in LIBS:
        with open(os.path.join(d, l + ".lib"), "wb") as f:
            f.write(b"!<arch>\n")
    cfg = _cfg(NIGHTLY, "x86_64-pc-windows-msvc", True, [], PE + " -C link-arg=/FORCE:UNRESOLVED -C link-arg=/LIBPATH:" + d)
    try:
        arts = cargo_build("fx-winstack", os.path.join(V, "foreign", "winstack"), cfg, ["-Zbuild-std=std,panic_abort", "-Zbuild-std-features=compiler-builtins-mem"])
    except HarnessError as e:
        if e.targets == {"winstack"}:
            raise
        print("skipping winstack: %s" % str(e)[:1500], file=sys.stderr)
        return None
    exe = [a["executable"] for a in arts if a.get("executable")]
    return exe[0] if exe else None


def winstack(prop, seed, tier, exes, log):
    t0 = time.time()
    with ThreadPoolExecutor() as ex:
        e, guest = ex.submit(build_emu, ["win64"]), ex.submit(build_winstack)
        emu, guest = e.result()[False], guest.result()
    part = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [], "wall_s": 0, "rules": {
        "winstack": "a sequence of operations on stacks for Windows in which a stack grows or overflows",
    }}
    cls, violation = part["classes"], None
    if guest is None:
        cls["winstack/not built"] = 1
        return part, None
    cmd = [emu, "--arch", "win", "--elf", guest, "--seed", str(seed * 1000), "--cases", str(2500 if tier == "quick" else 30000), "--jobs", "8"]
    p = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    out = p.stdout.splitlines()
    found = [l[6:] for l in out if l.startswith("FOUND ")]
    if p.returncode not in (0, 1) or (p.returncode == 1 and not found):
        log("%s winstack: no answer (%d): %s" % (prop, p.returncode, p.stderr[-600:]))
        cls["winstack/no answer"] = 1
        return part, None
    st = [int(x) for l in out if l.startswith("STAT ") for x in l.split()[1:]]
    part["evaluations"], part["nontrivial"], part["distinct_nontrivial"] = st[:3]
    for k, n in zip(("stacks made", "allocation failures", "operations", "growths", "overflows"), st[7 + 27:]):
        cls["winstack/" + k] = n
    part["samples"] = ["winstack: " + l[7:] for l in out if l.startswith("SAMPLE ")][:1]
    if found:
        case = [l[5:] for l in out if l.startswith("CASE ")][0]
        os.makedirs(REPLAYS, exist_ok=True)
        rep = os.path.join(REPLAYS, "%s-winstack.txt" % prop)
        with open(rep, "w") as f:
            f.write("property %s\nconfig py-winstack\ncase %s\n%s\n" % (prop, case, found[0]))
        violation = (rep, "%s winstack: %s" % (prop, found[0][:800]))
    part["wall_s"] = round(time.time() - t0, 2)
    return part, violation


def command(emu, name, guest, extra):
    arch = TARGETS[name][0]
    return [emu[arch == "pe32"], "--arch", arch[:2] if arch.startswith("pe") else arch, "--elf", guest] + extra


def foreign(prop, seed, tier, exes, log):
    t0 = time.time()
    focus, strict = FOCUS[prop]
    names = [n for n, t in TARGETS.items() if (t[4] or tier == "thorough") and not (prop == "C15" and t[0].startswith("pe"))]
    emu, guests = build(names)
    log("%s foreign: %d guests built in %.0f s" % (prop, len(guests), time.time() - t0))
    cases = 2500 if tier == "quick" else 12000
    part = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [], "rules": {
        "foreign": "a program for a foreign processor in whose history at least two yields, calls on other stacks, trap handlers or minimal stacks occur",
    }}
    cls = part["classes"]
    violation = None
    for i, name in enumerate(names):
        if name not in guests:
            cls["foreign/%s not built" % name] = 1
            continue
        # there is nothing to unwind Windows's code with here
        pe = TARGETS[name][0].startswith("pe")
        cmd = command(emu, name, guests[name], ["--seed", str(seed * 1000 + i), "--cases", str(cases), "--jobs", "8", "--focus", str(focus & ~(BACK * pe)), "--strict", str(strict)])
        p = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        out = p.stdout.splitlines()
        if p.returncode not in (0, 1) or (p.returncode == 1 and not any(l.startswith("FOUND ") for l in out)):
            # an instruction the interpreter does not know, say: nothing is known about the crate then
            log("%s foreign %s: no answer (%d): %s" % (prop, name, p.returncode, p.stderr[-600:]))
            cls["foreign/%s no answer" % name] = 1
            continue
        st = [int(x) for l in out if l.startswith("STAT ") for x in l.split()[1:]]
        n, nt, distinct, bt, frames, steps, events = st[:7]
        part["evaluations"] += n
        part["nontrivial"] += nt
        part["distinct_nontrivial"] += distinct
        cls["foreign/%s programs" % name] = n
        for k, v in (("instructions", steps), ("events", events), ("backtraces", bt), ("frames with verified registers", frames)):
            cls["foreign/" + k] = cls.get("foreign/" + k, 0) + v
        for k, v in enumerate(st[8:8 + len(KINDS)]):
            if v:
                cls["foreign/event " + KINDS[k]] = cls.get("foreign/event " + KINDS[k], 0) + v
        part["samples"] += ["foreign %s: %s" % (name, l[7:]) for l in out if l.startswith("SAMPLE ")][:1]
        if p.returncode == 1:
            case = [l[5:] for l in out if l.startswith("CASE ")][0]
            found = [l[6:] for l in out if l.startswith("FOUND ")][0]
            os.makedirs(REPLAYS, exist_ok=True)
            rep = os.path.join(REPLAYS, "%s-foreign-%s.txt" % (prop, name))
            with open(rep, "w") as f:
                f.write("property %s\nconfig py-foreign-%s\ncase %s\n%s\n" % (prop, name, case, found))
            violation = (rep, "%s on %s: %s" % (prop, name, found[:800]))
            break
    part["samples"] = part["samples"][:2]
    part["wall_s"] = round(time.time() - t0, 2)
    return part, violation


def replay(prop, path):
    text = open(path).read()
    case = re.search(r"^case (\S+)$", text, re.M).group(1)
    if "config py-winstack" in text:
        p = subprocess.run([build_emu(["win64"])[False], "--arch", "win", "--elf", build_winstack() or "", "--case", case, "--verbose"], env=clean_env(), stdout=subprocess.PIPE, text=True)
        sys.stdout.write(p.stdout)
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return p.returncode
    name = re.search(r"^config py-foreign-(\S+)$", text, re.M).group(1)
    emu, guests = build([name])
    if name not in guests:
        raise HarnessError("cannot build for " + name)
    p = subprocess.run(command(emu, name, guests[name], ["--case", case, "--verbose"]), env=clean_env(), stdout=subprocess.PIPE, text=True)
    sys.stdout.write(p.stdout)
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return p.returncode
