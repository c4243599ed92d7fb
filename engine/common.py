"""Shared by the checks: the analysed program, the worker pool, the list of
supported conversions."""
import multiprocessing as mp
import os
import time
import traceback

COLORS = ("Bt601", "Bt709", "Bt601FR", "Bt709FR")
YUV = (("I420", 3), ("I444", 3), ("Nv12", 1), ("Nv12", 2))
from target import SETS


def yuv_conversions(cs):
    o = []
    for r in ("Argb", "Bgra", "Bgr"):
        for y, n in YUV:
            o.append(((r, "Rgb", 1), (y, cs, n)))
    for y, n in YUV:
        for r in ("Bgra", "Rgba", "Rgb"):
            if r == "Rgb" and y != "Nv12":
                continue
            o.append(((y, cs, n), (r, "Rgb", 1)))
    return o


PACKED = [(("Bgr", "Rgb", 1), ("Rgb", "Rgb", 1)), (("Bgra", "Rgb", 1), ("Rgb", "Rgb", 1)),
          (("Rgb", "Rgb", 1), ("Bgra", "Rgb", 1))]


def all_conversions():
    o = list(PACKED)
    for cs in COLORS:
        o += yuv_conversions(cs)
    return o


def name(c):
    (a, b, n), (x, y, m) = c
    return "%s/%s/%d->%s/%s/%d" % (a, b, n, x, y, m)


_CTX = None


def quiet():
    """The LP library writes to file descriptor 1; keep that out of the report."""
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.close(n)


class Context:
    def __init__(self, path, repo, tier, rep, t0):
        from mir import Program
        self.path = path
        self.repo = repo
        self.tier = tier
        self.rep = rep
        self.t0 = t0
        self._E = None
        self._P = None
        self.budget = int(os.environ.get("DCP_BUDGET") or (780 if tier == "thorough" else 600))

    @property
    def P(self):
        if self._E:
            return self._E.P
        if self._P is None:
            from mir import Program
            self._P = Program(self.path)
        return self._P

    @property
    def E(self):
        if self._E is None:
            import roots
            self._E = roots.Engine(self.path)
        return self._E

    def sets(self):
        """name -> index of the context built for that instruction set."""
        if not hasattr(self, "_sets"):
            cs = self.E.context_sets()
            self._sets = {}
            self.setlist = cs
            P = self.E.P
            t = P.types[P.adt("InstructionSet")]
            ct = P.types[P.adt("Context")]
            fi = [f[0] for f in ct["variants"][0]["f"]].index("set")
            for i, (facts, v) in enumerate(cs):
                nm = t["variants"][v.f[fi].var]["n"].lower()
                self._sets.setdefault(nm, i)
        return self._sets

    def map(self, fn, jobs, group=None):
        """fn(ctx, job) in forked workers; yields (job, result | None, error).
        Jobs of one group run one after another in one worker, which shares what
        the prover has learnt."""
        global _CTX
        _CTX = (self, fn)
        jobs = list(jobs)
        done = set()
        gs = {}
        for i, j in enumerate(jobs):
            gs.setdefault(i if group is None else group(j), []).append((i, j))
        tasks = list(gs.values())
        n = min(len(tasks), int(os.environ.get("DCP_JOBS", "8")))
        if n == 0:
            return
        if os.environ.get("DCP_SERIAL"):
            for t in tasks:
                for i, r, e in _work(t):
                    yield jobs[i], r, e
            return
        ctx = mp.get_context("fork")
        with ctx.Pool(n, maxtasksperchild=8) as pool:
            why = "time budget exhausted"
            it = pool.imap_unordered(_work, tasks, chunksize=1)
            while len(done) < len(jobs):
                try:
                    res = it.next(timeout=max(1, self.budget - (time.time() - self.t0)))
                except mp.TimeoutError:
                    break
                except StopIteration:
                    break
                for i, r, e in res:
                    done.add(i)
                    yield jobs[i], r, e
                if self.rep.failing() >= ENOUGH:
                    why = "not analysed: %d violations already" % self.rep.failing()
                    break
            pool.terminate()
        for i, j in enumerate(jobs):
            if i not in done:
                yield j, None, why


# Violations after which a check stops looking for more
ENOUGH = int(os.environ.get("DCP_ENOUGH", "24"))


def _work(task):
    if not os.environ.get("DCP_SERIAL"):
        quiet()
    ctx, fn = _CTX
    out = []
    for i, job in task:
        if out and ctx.budget - (time.time() - ctx.t0) < 0:
            break
        try:
            out.append((i, fn(ctx, job), None))
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)[-3:]
            msg = "%s: %s [%s]" % (type(e).__name__, str(e)[:300], " ".join("%s:%d" % (x.name, x.lineno) for x in tb))
            out.append((i, None, msg))
    return out
