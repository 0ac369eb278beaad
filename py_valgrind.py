"""C20: histories of default stacks under Valgrind.

The program under test reports which stacks are alive at every step; Valgrind's own debug log, on the same
stream, says which stack registrations it knows. The oracle compares the two at every report. With Memcheck
(x86_64 only: its 32-bit variant needs a debug libc that is not installed) no error may be reported either.
"""
import os, random, re, resource, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from build_lib import BUILD, V, HarnessError, build_harness, clean_env

REPLAYS = os.path.join(V, "replays")
REG = re.compile(r"stacks\s+register \[start-end\] \[0x([0-9A-F]+)-0x([0-9A-F]+)\] as stack (\d+)")
DEREG = re.compile(r"stacks\s+deregister stack (\d+)")
CHG = re.compile(r"stacks\s+change stack (\d+) from .* to \[0x([0-9A-F]+)-0x([0-9A-F]+)\]")
ERR = re.compile(r"^==\d+== (Invalid |Conditional jump|Use of uninit|Warning: client switching|Syscall param|Jump to|Process terminating|Illegal|Mismatched|Source and dest|Can't|valgrind: )")
PAGE = 4096


def limits(config):
    def f():
        # reserving address space still works beyond this, making it writable does not
        resource.setrlimit(resource.RLIMIT_DATA, ((2 << 30) if config.startswith("x64") else (800 << 20),) * 2)
    return f


def stripped(exe):
    out = exe + ".s"
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(exe):
        subprocess.run(["objcopy", "--strip-debug", exe, out + ".tmp"], check=True)
        os.replace(out + ".tmp", out)
    return out


def execute(exe, config, tool, tapes, tag):
    """The combined log of the tapes under a Valgrind tool (None: without Valgrind)."""
    path = os.path.join(BUILD, "vg-%s.tapes" % tag)
    with open(path, "w") as f:
        f.write("".join(" ".join(map(str, t)) + "\n" for t in tapes))
    cmd = [exe, "--vgmem" if tool == "memcheck" else "--vg", path]
    if tool:
        cmd = ["valgrind", "--tool=" + tool, "-d", "-d", "--vgdb=no"] + cmd
    try:
        p = subprocess.run(cmd, env=clean_env(), stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, preexec_fn=limits(config), timeout=240)
        rc, err = p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, err = "timeout", (e.stderr or b"").decode(errors="replace")
    os.remove(path)
    return rc, err.splitlines()


def judge(rc, log, ncases, tool):
    """(failing case or None, what, events)"""
    regs, initial, start = {}, None, None
    case, events, fails = None, 0, 0
    mc = False
    for l in log:
        if l.startswith("@ "):
            w = l[2:].split(" ", 2)
            if w[0] == "case":
                case = int(w[1])
                if initial is None:
                    # the process's own stacks, known before anything was created
                    initial = dict(regs)
                    start = dict(regs)
                    mc = True
            elif w[0] == "thread":
                sp = int(w[1], 16)
                for n, r in regs.items():
                    if r[0] <= sp <= r[1]:
                        initial[n] = r
            elif w[0] == "failed":
                fails += 1
            elif w[0] == "live" and tool:
                events += 1
                at, _, rest = l[7:].partition(" | ")
                live = [tuple(int(x, 16) for x in r.split("-")) for r in rest.split()]
                mine = {n: r for n, r in regs.items() if n not in initial}
                for lo, hi in live:
                    # Valgrind's end is the highest byte of the stack; one past it is tolerated
                    cover = [n for n, (a, b) in mine.items() if lo <= a <= lo + PAGE and hi - 1 <= b <= hi]
                    touch = [n for n, (a, b) in mine.items() if a < hi and b > lo]
                    if len(cover) != 1 or len(touch) != 1:
                        return case, "%s: stack %x-%x is covered by %d registration(s) and touched by %d: %s" % (at, lo, hi, len(cover), len(touch), {n: "%x-%x" % r for n, r in mine.items()}), events, fails
                if len(mine) != len(live):
                    return case, "%s: %d stacks are alive but %d are registered: alive %s, registered %s" % (at, len(live), len(mine), ["%x-%x" % x for x in live], {n: "%x-%x" % r for n, r in mine.items()}), events, fails
            continue
        m = REG.search(l)
        if m:
            regs[int(m.group(3))] = (int(m.group(1), 16), int(m.group(2), 16))
            continue
        m = DEREG.search(l)
        if m:
            if int(m.group(1)) not in regs:
                return case, "registration %s removed although it does not exist" % m.group(1), events, fails
            if int(m.group(1)) in (start or {}):
                return case, "the registration of the process's own stack was removed", events, fails
            if initial is not None:
                # Valgrind registers and deregisters the stacks of the process's threads itself
                initial.pop(int(m.group(1)), None)
            del regs[int(m.group(1))]
            continue
        m = CHG.search(l)
        if m:
            regs[int(m.group(1))] = (int(m.group(2), 16), int(m.group(3), 16))
            continue
        if mc and ERR.match(l):
            return case, "Valgrind reports: " + l.split("== ", 1)[1], events, fails
    if rc != 0 or "@ done" not in log:
        return case, "the program ended with %s" % rc, events, fails
    return None, None, events, fails


def tape(rng):
    return [rng.getrandbits(24) for _ in range(rng.choice([20, 40, 90]))]


def one(exe, config, tool, t, tag):
    rc, log = execute(exe, config, tool, [t], tag)
    c, what, _, _ = judge(rc, log, 1, tool)
    return what


def shrink(exe, config, tool, tapes, i):
    """Shrinks to a list of tapes, usually one."""
    def bad(ts):
        rc, log = execute(exe, config, tool, ts, "shrink")
        return judge(rc, log, len(ts), tool)[1]
    cur = [tapes[i]]
    if not bad(cur):
        cur = tapes[:i + 1]
        if not bad(cur):
            return cur
    budget = 70
    t = cur[-1]
    pre = cur[:-1]
    step = max(1, len(t) // 2)
    while step and budget > 0:
        k = 0
        while k < len(t) and budget > 0:
            c = t[:k] + t[k + step:]
            budget -= 1
            if c != t and bad(pre + [c]):
                t = c
            else:
                k += step
        step //= 2
    for k in range(len(t)):
        if budget <= 0:
            break
        if t[k]:
            budget -= 1
            c = t[:k] + [0] + t[k + 1:]
            if bad(pre + [c]):
                t = c
    return pre + [t]


FAMS = [("C15", "chain", 0.003), ("C01", "types", 0.004), ("C02", "long", 0.02), ("C12", "long", 0.01), ("C18", "parallel", 0.01)]


def valgrind(prop, seed, tier, exes, log):
    import check
    t0 = time.time()
    mult = 1 if tier == "quick" else 25
    part = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [],
            "rules": {"valgrind": "a history with at least 6 comparisons of live stacks and registrations"}}
    cls = part["classes"]
    jobs = []
    PER = 100
    for config in exes:
        tools = ["none", None] + (["memcheck"] * 2 if config.startswith("x64") else [])
        for n, tool in enumerate(tools * mult if tier != "quick" else tools * 2):
            rng = random.Random("%s-%d-%d-%s" % (config, seed, n, tool))
            tapes = [tape(rng) for _ in range(PER)]
            if n == 0:
                # tens of thousands of stacks, then a few that stay
                tapes.insert(PER // 2, [4, 44, 399] + [0] * 8)
            jobs.append((config, tool, tapes, "%s-%d" % (config, n)))
    violation = None

    def run(job):
        config, tool, tapes, tag = job
        rc, lg = execute(stripped(exes[config]), config, tool, tapes, tag)
        return job, rc, lg, judge(rc, lg, len(tapes), tool)

    for c in exes:
        stripped(exes[c])
    with ThreadPoolExecutor(8) as ex:
        for (config, tool, tapes, tag), rc, lg, (i, what, events, fails) in ex.map(run, jobs):
            key = "%s under %s" % ("x86_64" if config.startswith("x64") else "i686", tool or "no Valgrind")
            cls[key] = cls.get(key, 0) + len(tapes)
            cls["failed allocations"] = cls.get("failed allocations", 0) + fails
            cls["comparisons with the registration log"] = cls.get("comparisons with the registration log", 0) + events
            cls["excluded as the recorded finding"] = cls.get("excluded as the recorded finding", 0) + sum("@ skip" in l for l in lg)
            per = {}
            cur = None
            for l in lg:
                if l.startswith("@ case"):
                    cur = l
                    per[cur] = []
                elif l.startswith("@ live") and cur:
                    per[cur].append(l[7:].split(" | ")[0])
            part["evaluations"] += len(tapes)
            nt = [v for v in per.values() if len(v) >= 6]
            part["nontrivial"] += len(nt)
            part["distinct_nontrivial"] += len({tuple(v) for v in nt})
            if len(part["samples"]) < 6 and nt:
                part["samples"].append("%s: %s" % (key, ", ".join(nt[0])[:600]))
            if what and not violation:
                small = shrink(stripped(exes[config]), config, tool, tapes, i if i is not None else len(tapes) - 1)
                rc2, lg2 = execute(stripped(exes[config]), config, tool, small, "final")
                i2, w2, _, _ = judge(rc2, lg2, len(small), tool)
                if not w2 and rc == "timeout":
                    raise HarnessError("Valgrind timed out")
                os.makedirs(REPLAYS, exist_ok=True)
                rep = os.path.join(REPLAYS, "%s-valgrind-%s.txt" % (prop, config))
                with open(rep, "w") as f:
                    f.write("property %s\nconfig py-valgrind-%s-%s\n" % (prop, config, tool) + "".join("tape %s\n" % " ".join(map(str, t)) for t in small) + "# %s\n" % (w2 or what))
                    f.writelines("# %s\n" % l for l in lg2 if l.startswith("@ ") or REG.search(l) or DEREG.search(l))
                violation = (rep, "%s on %s: %s" % (tool, config, w2 or what))
    # whole families, checked by their own oracles, with Memcheck watching
    if not violation:
        exe = exes["x64-rel"]

        def fam(f):
            p, name, scale = f
            base = os.path.join(BUILD, "vgf-%s-%s" % (p, name))
            for x in os.listdir(BUILD):
                if x.startswith(os.path.basename(base) + ".log"):
                    os.remove(os.path.join(BUILD, x))
            cmd = ["valgrind", "-q", "--vgdb=no", "--tool=memcheck", "--log-file=%s.log.%%p" % base, stripped(exe), "--prop", p, "--only", name, "--seed", str(seed), "--scale", str(scale * mult), "--jobs", "1", "--config", "vg", "--out", base + ".json", "--replay-out", base + ".txt"]
            q = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=700)
            txt = ""
            for x in os.listdir(BUILD):
                if x.startswith(os.path.basename(base) + ".log"):
                    txt += open(os.path.join(BUILD, x), errors="replace").read()
                    os.remove(os.path.join(BUILD, x))
            n = 0
            if os.path.exists(base + ".json"):
                import json
                n = json.load(open(base + ".json"))["evaluations"]
                os.remove(base + ".json")
            return f, q, txt, n
        fams = FAMS
        with ThreadPoolExecutor(6) as ex:
            for (p, name, scale), q, txt, n in ex.map(fam, fams):
                part["evaluations"] += n
                part["nontrivial"] += n
                part["distinct_nontrivial"] += n
                k = "family %s under memcheck" % name
                cls[k] = cls.get(k, 0) + n
                bad = [l for l in txt.splitlines() if ERR.match(l)]
                if (bad or q.returncode == 1) and not violation:
                    os.makedirs(REPLAYS, exist_ok=True)
                    rep = os.path.join(REPLAYS, "%s-memcheck-%s.txt" % (prop, name))
                    with open(rep, "w") as f:
                        f.write("property %s\nconfig py-valgrind-family\nfamily %s %s %s\nseed %d\n" % (prop, p, name, scale * mult, seed) + "\n".join("# " + l for l in (txt.splitlines()[:60] + q.stdout.splitlines()[:20])) + "\n")
                    violation = (rep, "family %s under memcheck: %s" % (name, (bad or [q.stdout])[0][:300]))
                elif q.returncode not in (0, 1):
                    raise HarnessError("family %s under memcheck: exit %s %s" % (name, q.returncode, q.stderr[-500:]))
    # the recorded finding
    if not violation:
        bad = finding(stripped(exes["x64"]))
        part["evaluations"] += 1
        known = check.known_findings(prop)
        key = "on-stack-then-coroutine"
        if bad and key in known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[key], key))
        elif bad:
            os.makedirs(REPLAYS, exist_ok=True)
            rep = os.path.join(REPLAYS, "%s-%s.txt" % (prop, key))
            with open(rep, "w") as f:
                f.write("property %s\nconfig py-valgrind-finding\n# %s\n" % (prop, bad))
            violation = (rep, bad)
    part["wall_s"] = round(time.time() - t0, 2)
    return part, violation


def finding(exe):
    q = subprocess.run(["valgrind", "-q", "--vgdb=no", "--tool=memcheck", exe, "--vgfinding"], env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    bad = [l for l in q.stderr.splitlines() if ERR.match(l)]
    return bad[0] if bad else None


def replay(prop, path):
    txt = open(path).read().splitlines()
    config = [l.split()[1] for l in txt if l.startswith("config ")][0]
    if config == "py-valgrind-finding":
        bad = finding(stripped(build_harness(["x64"])["x64"]))
    elif config == "py-valgrind-family":
        _, p, name, scale = [l for l in txt if l.startswith("family ")][0].split()
        seed = [l.split()[1] for l in txt if l.startswith("seed ")][0]
        exe = stripped(build_harness(["x64-rel"])["x64-rel"])
        q = subprocess.run(["valgrind", "-q", "--vgdb=no", "--tool=memcheck", exe, "--prop", p, "--only", name, "--seed", seed, "--scale", scale, "--jobs", "1", "--config", "vg"], env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        bad = q.stdout + "\n".join(l for l in q.stderr.splitlines() if ERR.match(l))
    else:
        _, _, rest = config.partition("py-valgrind-")
        cfg, _, tool = rest.rpartition("-")
        exe = stripped(build_harness([cfg])[cfg])
        tapes = [[int(x) for x in l.split()[1:]] for l in txt if l.startswith("tape")]
        rc, lg = execute(exe, cfg, None if tool == "None" else tool, tapes, "replay")
        bad = judge(rc, lg, len(tapes), None if tool == "None" else tool)[1]
        print("\n".join(l for l in lg if l.startswith("@ ") or REG.search(l) or DEREG.search(l)))
    print("=> %s" % (bad or "as expected"))
    return 1 if bad else 0
