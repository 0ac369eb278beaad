"""C15: a debugger's backtraces of random towers of contexts.

The program announces at every stop which marked frames are active; GDB's backtrace at that stop must list
exactly those, innermost first. Stacks lie above or below their parents' at random.
"""
import os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from build_lib import BUILD, V, HarnessError, build_harness, clean_env

REPLAYS = os.path.join(V, "replays")
SCRIPT = """set confirm off
set pagination off
set width 0
set height 0
set print frame-arguments none
set print frame-info short-location
set disable-randomization off
set debuginfod enabled off
set auto-load no
set backtrace limit unlimited
handle all nostop noprint pass
handle SIGTRAP stop print nopass
break cvh_stop
commands
silent
echo @bt\\n
bt
echo @end\\n
continue
end
run --gdb %s
"""
WANT = re.compile(r"@want (\d+) ([\d,]*) ([a-z ]+)$")
FRAME = re.compile(r"#\d+ .*?\bcvh_g(\d+)\b")


def stripped(exe):
    out = exe + ".s"
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(exe):
        subprocess.run(["objcopy", "--strip-debug", exe, out + ".tmp"], check=True)
        os.replace(out + ".tmp", out)
    return out


def execute(exe, tapes, tag):
    """[(case line, wanted frames, place, frames shown, gdb's last lines)], how it ended."""
    tp, sp = os.path.join(BUILD, "gdb-%s.tapes" % tag), os.path.join(BUILD, "gdb-%s.gdb" % tag)
    with open(tp, "w") as f:
        f.write("".join(" ".join(map(str, t)) + "\n" for t in tapes))
    with open(sp, "w") as f:
        f.write(SCRIPT % tp)
    try:
        p = subprocess.run(["gdb", "-nx", "-q", "-batch", "-x", sp, exe], env=clean_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        txt = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        txt = (e.stdout or b"").decode(errors="replace") + "\n@timeout\n"
    os.remove(tp)
    os.remove(sp)
    want, bts, cur, case = {}, [], None, ""
    # the program's lines and GDB's may be interleaved within a line's boundary only
    for l in txt.splitlines():
        m = WANT.search(l)
        if m:
            want[int(m.group(1))] = (case, [int(x) for x in m.group(2).split(",") if x], m.group(3))
        elif "@case " in l:
            case = l.partition("@case ")[2]
        elif l.startswith("@bt"):
            cur = []
        elif l.startswith("@end") and cur is not None:
            bts.append(cur)
            cur = None
        elif cur is not None:
            cur.append(l)
    stops = []
    for i, b in enumerate(bts, 1):
        got = [int(m.group(1)) for m in map(FRAME.match, b) if m]
        c, w, at = want.get(i, ("?", None, "?"))
        stops.append((c, w, at, got, b))
    return stops, ("@done" in txt, txt)


def judge(stops, end):
    """(index of the failing case or None, message)"""
    for c, w, at, got, b in stops:
        if w is None:
            continue
        if got != w:
            tail = [l for l in b if not l.startswith("#")][-2:]
            return int(c.split()[0]), "GDB's backtrace (%s) lists frames %s, active (innermost first) are %s%s; tower %s" % (at, got, w, " [%s]" % "; ".join(tail) if tail else "", c)
    if not end[0]:
        last = stops[-1][0] if stops else "0 ?"
        return int(last.split()[0]), "the program did not reach its end under GDB: %s" % end[1].strip().splitlines()[-3:]
    return None, None


def tape(rng):
    return [rng.getrandbits(24) for _ in range(rng.choice([12, 24]))]


def available():
    p = subprocess.run(["gdb", "-nx", "-q", "-batch", "-ex", "set disable-randomization off", "-ex", "starti", "-ex", "echo @ok\\n", "/bin/true"], env=clean_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return "Program stopped" in p.stdout


def shrink(exe, t):
    def bad(t):
        return judge(*execute(exe, [t], "shrink"))[1]
    cur, budget = t, 60
    step = max(1, len(cur) // 2)
    while step and budget > 0:
        k = 0
        while k < len(cur) and budget > 0:
            c = cur[:k] + cur[k + step:]
            budget -= 1
            if bad(c):
                cur = c
            else:
                k += step
        step //= 2
    for k in range(len(cur)):
        if cur[k] and budget > 0:
            budget -= 1
            c = cur[:k] + [0] + cur[k + 1:]
            if bad(c):
                cur = c
    return cur


CONFIGS = ["x64", "x64-rel", "x64-nounw", "x86", "x86-rel", "x86-nounw"]


def gdb(prop, seed, tier, exes, log):
    t0 = time.time()
    part = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [],
            "rules": {"gdb": "a tower stopped in at least once through two or more contexts"}}
    cls = part["classes"]
    if not available():
        log("GDB cannot run programs here: this part is skipped")
        cls["GDB unavailable"] = 1
        part["wall_s"] = 0
        return part, None
    per, rounds = 60, (8 if tier == "quick" else 60)
    jobs = []
    for config in CONFIGS:
        for n in range(rounds):
            rng = random.Random("%s-%d-%d" % (config, seed, n))
            jobs.append((config, stripped(exes[config]) if n % 2 else exes[config], [tape(rng) for _ in range(per)], "%s-%d" % (config, n)))
    violation = None

    def run(job):
        stops, end = execute(job[1], job[2], job[3])
        return job, stops, end, judge(stops, end)

    with ThreadPoolExecutor(8) as ex:
        for (config, exe, tapes, tag), stops, end, (i, what) in ex.map(run, jobs):
            part["evaluations"] += len(tapes)
            key = "%s under GDB" % ("x86_64" if config.startswith("x64") else "i686")
            cls[key] = cls.get(key, 0) + len(tapes)
            seen = set()
            for c, w, at, got, b in stops:
                sw = sum("signal handler called" in l for l in b)
                cls["stops"] = cls.get("stops", 0) + 1
                cls["stops " + at] = cls.get("stops " + at, 0) + 1
                if sw >= 1 and len(w or []) >= 2:
                    seen.add(c)
            part["nontrivial"] += len(seen)
            part["distinct_nontrivial"] += len({c.partition(" ")[2] for c in seen})
            if len(part["samples"]) < 3 and seen:
                part["samples"].append("%s: tower %s" % (config, sorted(seen)[0]))
            if what and not violation:
                small = tapes[i]
                if judge(*execute(exe, [small], "one"))[1]:
                    small = shrink(exe, small)
                    s2, e2 = execute(exe, [small], "final")
                    what = judge(s2, e2)[1] or what
                    tp = [small]
                else:
                    s2, tp = stops, tapes[:i + 1]
                    # a debugger that failed once for another reason is not believed
                    if not judge(*execute(exe, tp, "again"))[1]:
                        log("a difference under GDB did not repeat: %s" % what)
                        continue
                os.makedirs(REPLAYS, exist_ok=True)
                rep = os.path.join(REPLAYS, "%s-gdb-%s.txt" % (prop, config))
                with open(rep, "w") as f:
                    f.write("property %s\nconfig py-gdb-%s%s\n" % (prop, config, "" if exe == exes[config] else "-stripped") + "".join("tape %s\n" % " ".join(map(str, t)) for t in tp) + "# %s\n" % what)
                    for c, w, at, got, b in s2[-3:]:
                        f.write("# stop %s: wanted %s, shown %s\n" % (at, w, got) + "".join("#   %s\n" % l[:200] for l in b))
                violation = (rep, "%s: %s" % (config, what))
    part["wall_s"] = round(time.time() - t0, 2)
    return part, violation


def replay(prop, path):
    txt = open(path).read().splitlines()
    config = [l.split()[1] for l in txt if l.startswith("config ")][0][len("py-gdb-"):]
    s = config.endswith("-stripped")
    config = config[:-len("-stripped")] if s else config
    exe = build_harness([config])[config]
    if s:
        exe = stripped(exe)
    tapes = [[int(x) for x in l.split()[1:]] for l in txt if l.startswith("tape")]
    stops, end = execute(exe, tapes, "replay")
    for c, w, at, got, b in stops:
        print("stop %s (%s): wanted %s, shown %s" % (at, c, w, got))
    bad = judge(stops, end)[1]
    print("=> %s" % (bad or "as expected"))
    return 1 if bad else 0
