"""Builds the harness crate against /repo's working tree in the configurations a check asks for."""
import hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(V, "build")
X64, X86 = "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu"
STABLE, NIGHTLY = "1.99.1", "nightly"


class HarnessError(Exception):
    ours = False
    # the packages with errors
    targets = frozenset()


def _cfg(tc, target, rel, feats, rustflags="", env=None, std=False):
    return dict(tc=tc, target=target, rel=rel, feats=feats, rustflags=rustflags, env=env or {}, std=std)


CONFIGS = {
    "x64": _cfg(STABLE, X64, False, ["unwind"]),
    "x64-rel": _cfg(STABLE, X64, True, ["unwind"]),
    "x64-nounw": _cfg(STABLE, X64, False, []),
    "x64-nounw-rel": _cfg(STABLE, X64, True, []),
    "x86": _cfg(STABLE, X86, False, ["unwind"]),
    "x86-rel": _cfg(STABLE, X86, True, ["unwind"]),
    "x86-nounw": _cfg(STABLE, X86, False, []),
    "x86-nounw-rel": _cfg(STABLE, X86, True, []),
    "x64-asm": _cfg(NIGHTLY, X64, False, ["asm-unwind"]),
    "x64-asm-rel": _cfg(NIGHTLY, X64, True, ["asm-unwind"]),
    # the nightly toolchain has no standard library for this target: built from its sources
    "x86-asm-rel": _cfg(NIGHTLY, X86, True, ["asm-unwind"], std=True),
    # vector registers: over-aligned objects are moved with instructions that insist on alignment
    "x64-avx": _cfg(STABLE, X64, True, ["unwind"], "-C target-cpu=x86-64-v3"),
    # frame pointers everywhere: the frame-pointer chain can be walked through every context
    "x64-fp": _cfg(STABLE, X64, True, ["unwind"], "-C force-frame-pointers=yes --cfg cvh_fp"),
    "x86-fp": _cfg(STABLE, X86, True, ["unwind"], "-C force-frame-pointers=yes --cfg cvh_fp"),
    # panic=abort: nothing can unwind at all
    "x64-abort": _cfg(STABLE, X64, True, [], "-C panic=abort"),
}


def clean_env():
    e = {k: v for k, v in os.environ.items() if not (k.startswith("CARGO") or k.startswith("RUST") or k.startswith("CVH_")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


def cargo_build(name, manifest_dir, cfg, extra=(), sub="build"):
    env = clean_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, name)
    if cfg["rustflags"]:
        env["RUSTFLAGS"] = cfg["rustflags"]
    env.update(cfg["env"])
    cmd = ["cargo", "+" + cfg["tc"], sub, "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(manifest_dir, "Cargo.toml"), "--target", cfg["target"], "--no-default-features", "--message-format", "json"]
    if cfg["rel"]:
        cmd.append("--release")
    if cfg["std"]:
        cmd.append("-Zbuild-std=std,panic_unwind")
    if cfg["feats"]:
        cmd += ["--features", ",".join(cfg["feats"])]
    cmd += list(extra)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    arts, errs, targets = [], [], set()
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            arts.append(m)
        elif m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
            errs.append(m["message"].get("rendered") or m["message"].get("message"))
            targets.add(m["target"]["name"])
    if p.returncode != 0:
        e = HarnessError("build of %s failed:\n%s\n%s" % (name, "\n".join(errs)[:4000], p.stderr[-2000:]))
        e.ours = targets == {"cvh"}
        e.targets = targets
        raise e
    return arts


def runs_here(name):
    """Whether this machine can run the configuration."""
    if name != "x64-avx":
        return True
    with open("/proc/cpuinfo") as f:
        for line in f:
            if line.startswith("flags"):
                flags = set(line.split())
                return {"avx", "avx2", "bmi1", "bmi2", "fma", "movbe", "f16c", "abm"} <= flags
    return False


def build_harness(names, heavy=()):
    """Returns {config: executable}; `heavy` names the big families to include."""
    os.makedirs(BUILD, exist_ok=True)

    def one(n):
        cfg = dict(CONFIGS[n], feats=CONFIGS[n]["feats"] + list(heavy))
        arts = cargo_build("-".join([n] + [h[2:] for h in heavy]), os.path.join(V, "harness"), cfg)
        exe = [a["executable"] for a in arts if a.get("executable")]
        if not exe:
            raise HarnessError("no executable for " + n)
        return n, exe[0]

    def attempt(n):
        try:
            return one(n)
        except HarnessError as e:
            # an optional feature of nightly compilers that the project's own tests never build
            if not e.ours and "-asm" in n and any("-asm" not in m for m in names):
                print("skipping %s: %s" % (n, str(e)[:1500]), file=sys.stderr)
                return None
            raise

    with ThreadPoolExecutor(max_workers=8) as ex:
        return dict(r for r in ex.map(attempt, names) if r)
