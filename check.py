#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property on /repo's working tree.

Exit 0: held on everything explored. Exit 1 with `VIOLATION property=<id> replay=<path>`: broken.
Exit 2: the check itself failed. Environment: VERIF_SEED, VERIF_TIER (quick|thorough).
"""
import json, os, re, subprocess, sys, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from build_lib import CONFIGS, HarnessError, build_harness, clean_env, runs_here  # noqa: E402
import plan  # noqa: E402

REPLAYS = os.path.join(V, "replays")
JOBS = 8


def run_config(exe, prop, config, seed, tier, scale, log):
    """Runs the harness binary; returns its JSON part, or a violation tuple."""
    os.makedirs(REPLAYS, exist_ok=True)
    out = os.path.join(V, "build", "part-%s-%s.json" % (prop, config))
    rep = os.path.join(REPLAYS, "%s-%s.txt" % (prop, config))
    for f in (out, rep):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--scale", str(scale), "--out", out, "--replay-out", rep, "--jobs", str(JOBS), "--config", config]
    if tier == "thorough":
        cmd.append("--thorough")
    unconfirmed = 0
    for attempt in (0, 1):
        p = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode in (0, 1):
            break
        unconfirmed += p.returncode == 3
        log("%s/%s: harness error %d: %s" % (prop, config, p.returncode, p.stderr[-400:]))
    if unconfirmed == 2:
        # two separate runs each met a failure, neither on the same case again: it depends on the schedule
        return None, (rep, "schedule-dependent failures: " + p.stderr.strip()[-800:])
    if p.returncode == 1:
        return None, (rep, p.stdout.strip()[:1500])
    if p.returncode != 0:
        raise HarnessError("%s on %s: exit %d\n%s\n%s" % (prop, config, p.returncode, p.stdout[-800:], p.stderr[-800:]))
    with open(out) as f:
        part = json.load(f)
    os.remove(out)
    return part, None


def known_findings(prop):
    """{key: text} of the findings recorded as open for this property."""
    r = {}
    path = os.path.join(V, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def replay(prop, path):
    txt = open(path).read()
    m = re.search(r"^config (\S+)$", txt, re.M)
    config = m.group(1)
    if config.startswith("py-"):
        import pyfam
        return pyfam.replay(prop, path)
    exe = build_harness([config], plan.PLAN[prop].get("heavy", []))[config]
    m = re.search(r"^finding (\S+)$", txt, re.M)
    if m:
        return subprocess.run([exe, "--finding", m.group(1)], env=clean_env()).returncode
    return subprocess.run([exe, "--replay", path], env=clean_env()).returncode


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        # checks build what they need themselves; this only shows early that building works
        build_harness([c for c in CONFIGS if runs_here(c)])
        return 0
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    log = lambda m: print(m, file=sys.stderr, flush=True)
    p = dict(plan.PLAN[prop])
    p["configs"] = [c for c in p["configs"] if runs_here(c[0])]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": plan.LEVEL, "assumptions": plan.ASSUMPTIONS + p.get("assumptions", [])}
    cov = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": [], "classes": {}, "configurations": {}}
    rules = {}
    violation = None
    exes = build_harness([c for c, _ in p["configs"]] + [c for c in p.get("extra_builds", []) if c not in dict(p["configs"])], p.get("heavy", [])) if p["configs"] or p.get("extra_builds") else {}
    build_s = time.time() - t0
    cov["configurations_not_built"] = [c for c, _ in p["configs"] if c not in exes]
    p["configs"] = [c for c in p["configs"] if c[0] in exes]
    known = known_findings(prop)
    for key in p.get("findings", []):
        q = subprocess.run([exes[p["configs"][0][0]], "--finding", key], env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        cov["evaluations"] += 1
        if q.returncode == 1:
            if key in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[key], key))
            else:
                os.makedirs(REPLAYS, exist_ok=True)
                rep = os.path.join(REPLAYS, "%s-%s.txt" % (prop, key))
                with open(rep, "w") as f:
                    f.write("property %s\nconfig %s\nfinding %s\n%s" % (prop, p["configs"][0][0], key, q.stdout))
                violation = (rep, q.stdout.strip()[:800])
        elif q.returncode != 0:
            raise HarnessError("finding %s: exit %d %s" % (key, q.returncode, q.stderr[-500:]))

    def absorb(name, part):
        cov["evaluations"] += part["evaluations"]
        cov["nontrivial"] += part["nontrivial"]
        cov["distinct_nontrivial"] += part["distinct_nontrivial"]
        cov["configurations"][name] = {k: part[k] for k in ("evaluations", "distinct_nontrivial", "wall_s")}
        for k, v in part["classes"].items():
            cov["classes"][k] = cov["classes"].get(k, 0) + v
        rules.update(part["rules"])
        cov["samples"] += [("%s: %s" % (name, s))[:3000] for s in part["samples"]]

    for i, (config, scale) in enumerate(p["configs"]):
        if violation:
            break
        # different cases in every configuration
        part, violation = run_config(exes[config], prop, config, seed * 1000 + i, tier, scale, log)
        if part:
            absorb(config, part)
            log("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (prop, config, part["evaluations"], part["distinct_nontrivial"], part["wall_s"]))
    for fn in p.get("py", []):
        if violation:
            break
        import pyfam
        part, violation = getattr(pyfam, fn)(prop, seed, tier, exes, log)
        if part:
            absorb("py-" + fn, part)
            log("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (prop, fn, part["evaluations"], part["distinct_nontrivial"], part["wall_s"]))
    cov["samples"] = cov["samples"][:12] or ["(stopped at the violation)"]
    cov["rule"] = plan.GENERAL_RULE + " Non-trivial: " + "; ".join("[%s] %s" % kv for kv in sorted(rules.items())) + ". Distinct: by (configuration, generated case)."
    cov["classes"] = dict(sorted(cov["classes"].items()))
    cov["build_s"] = round(build_s, 2)
    ev["coverage"] = cov
    ev["violations"] = 1 if violation else 0
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        rep, msg = violation
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("%s: held on %d cases (%d distinct non-trivial) in %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
