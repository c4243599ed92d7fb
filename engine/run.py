"""Runs the check of one property: extract the MIR of the repository's current
tree, analyse it, write the evidence file, report.

exit 0: held on everything analysed (UNDECIDED lines name what was not decided)
exit 1: VIOLATION lines name the constructs that break the property
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.violations = []     # (key, dict)
        self.undecided = []      # text
        self.notes = []
        self.coverage = {}
        self.assumptions = []
        self.level = "other"
        self.known = known_findings(prop)

    def violation(self, key, rule, where, detail):
        """key: identifies the construct, free of line numbers."""
        if any(k == key for k, _ in self.violations):
            return
        self.violations.append((key, {"rule": rule, "where": where, "detail": detail}))

    def failing(self):
        """Violations that are not known findings."""
        return sum(1 for k, _ in self.violations if k not in self.known)

    def undecide(self, text):
        if text not in self.undecided:
            self.undecided.append(text)


def extract(repo, scratch, features=None):
    drv = os.environ.get("DCP_DRIVER") or os.path.join(VERIF, ".build", "driver", "release", "dcp-mir")
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    if not os.path.exists(drv) or ("DCP_DRIVER" not in os.environ and os.path.getmtime(drv) < os.path.getmtime(src)):
        subprocess.run([os.path.join(VERIF, "setup.sh")], check=True, stdout=sys.stderr)
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="")
    env.pop("CARGO_BUILD_TARGET", None)
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, check=True, capture_output=True, text=True).stdout.strip()
    out = os.path.join(scratch, "mir.json")
    env.update(LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=drv, DCP_MIR_OUT=out,
               CARGO_TARGET_DIR=os.path.join(scratch, "target"),
               RUSTFLAGS="-Zmir-opt-level=0 -Zalways-encode-mir -Coverflow-checks=on -Cdebug-assertions=on -Zub-checks=no")
    from target import TRIPLE
    r = subprocess.run(["cargo", "check", "--lib", "--offline", "-q"] + (["--features", features] if features else [])
                       + (["-Zbuild-std", "--target", TRIPLE] if TRIPLE else []),
                       cwd=repo, env=env, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        sys.stderr.write(r.stdout + r.stderr)
        raise RuntimeError("the repository could not be analysed (cargo check exit %d)" % r.returncode)
    return out


def known_findings(prop):
    """Keys of recorded, unrepaired findings ("open: property=<id> key=<key>: text")."""
    out = {}
    p = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("open: property=%s key=" % prop):
                k, _, t = l.split("key=", 1)[1].partition(": ")
                out[k.strip()] = t.strip()
    return out


# Further targets each check analyses: a property that speaks of sizes can fail on
# one width of usize only, and each vector unit has its own code.
TARGETS = {
    "quick": {"C07": ("aarch64",), "C11": ("i686",), "C19": ("aarch64",)},
    "thorough": dict({p: ("aarch64", "i686") for p in ("C01", "C03", "C04", "C08", "C09", "C11", "C13", "C16", "C17", "C19")},
                     **{p: ("aarch64",) for p in ("C02", "C06", "C07", "C10", "C20", "C21")}, **{p: ("i686",) for p in ("C15", "C18")}),
}


def other_target(rep, prop, name, left):
    """Runs the check for another target in a process of its own and merges its report."""
    fd, path = tempfile.mkstemp(prefix="dcp-%s-%s-" % (prop, name))
    os.close(fd)
    t0 = time.time()
    try:
        env = dict(os.environ, DCP_TARGET=name, DCP_REPORT=path, DCP_BUDGET=str(int(left)))
        env.pop("DCP_MIR", None)
        if os.environ.get("DCP_MIR_" + name):
            env["DCP_MIR"] = os.environ["DCP_MIR_" + name]
        try:
            p = subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, "quick"], env=env,
                                 stdout=subprocess.DEVNULL, start_new_session=True)
            try:
                p.wait(left + 60)
            finally:
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            with open(path) as f:
                d = json.load(f)
        except (subprocess.TimeoutExpired, ValueError) as e:
            rep.undecide("%s: no report (%s)" % (name, type(e).__name__))
            return
    finally:
        os.unlink(path)
    for k, v in d["violations"]:
        rep.violation("%s:%s" % (name, k), v["rule"], v["where"], ["target %s" % name] + list(
            v["detail"] if isinstance(v["detail"], list) else [v["detail"]]))
    for u in d["undecided"]:
        rep.undecide("%s: %s" % (name, u))
    c = d["coverage"]
    rep.coverage.setdefault("other_targets", {})[name] = {
        k: c[k] for k in c if isinstance(c[k], (int, float)) or k in ("by_kind", "conversions_by_set", "outcomes")}
    rep.coverage["other_targets"][name].update(wall_s=round(time.time() - t0, 1), violations=len(d["violations"]),
                                               undecided=len(d["undecided"]))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    repo = os.environ.get("DCP_REPO", "/repo")
    t0 = time.time()
    sys.stdout = os.fdopen(os.dup(1), "w")
    import common
    common.quiet()
    scratch = tempfile.mkdtemp(prefix="dcp-%s-" % prop)
    rep = Report(prop, tier)
    try:
        path = os.environ.get("DCP_MIR") or extract(repo, scratch)
        ctx = common.Context(path, repo, tier, rep, t0)
        mod = importlib.import_module("checks." + prop.lower())
        try:
            mod.run(ctx)
        except Exception as e:
            # the analysis met something it does not understand: no verdict
            traceback.print_exc()
            rep.undecide("analysis stopped: %s: %s" % (type(e).__name__, str(e)[:300]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if os.environ.get("DCP_REPORT"):
        with open(os.environ["DCP_REPORT"], "w") as f:
            json.dump({"violations": rep.violations, "undecided": rep.undecided, "coverage": rep.coverage}, f)
        os._exit(0)
    for name in TARGETS.get(tier, {}).get(prop, ()):
        left = ctx.budget - (time.time() - t0)
        if rep.failing():
            break
        if left < 90:
            rep.undecide("%s: no time left" % name)
            continue
        other_target(rep, prop, name, left)
    known = rep.known
    new = [(k, d) for k, d in rep.violations if k not in known]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    cov = dict(rep.coverage)
    if rep.undecided:
        cov["undecided"] = rep.undecided[:50]
        cov["undecided_count"] = len(rep.undecided)
    if rep.level == "proof":
        cov.setdefault("checker_cmd", "./check %s %s" % (prop, tier))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": rep.level,
          "coverage": cov, "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for n in rep.notes:
        print(n)
    for u in rep.undecided:
        print("UNDECIDED property=%s %s" % (prop, u))
    for k, d in rep.violations:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[k] or k))
    for i, (k, d) in enumerate(new):
        rp = os.path.join(evdir, "replay", "%s-%d.json" % (prop, i))
        with open(rp, "w") as f:
            json.dump(dict(d, property=prop, key=k), f, indent=1)
            f.write("\n")
        print("%s: %s" % (d["where"], d["rule"]))
        for l in (d["detail"] if isinstance(d["detail"], list) else [d["detail"]]):
            print("    %s" % (l,))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    print("%s: %d violation(s), %d undecided, %.1f s" % (prop, len(new), len(rep.undecided), time.time() - t0))
    sys.stdout.flush()
    os._exit(1 if new else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)
