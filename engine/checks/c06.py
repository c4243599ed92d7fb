"""C06: error bound of every YCbCr/RGB transfer function against the ITU-R equations.

Each function is an affine map of the source bytes followed by roundings and a
clamp.  The bound is computed symbolically: every floor contributes an interval,
every table (clamp, saturation) its exact distance from a clamped line, and the
difference of the coefficients from the standard's is maximised over the cube of
byte values."""
from fractions import Fraction as Fr
import numpy as np
import common
import conv
import pix
import ref
import transfer
from terms import *


class Unbounded(Exception):
    pass


class Aff:
    """sum coef * byte + const + e, e in [lo, hi]."""

    def __init__(self, co=None, c=Fr(0), lo=Fr(0), hi=Fr(0)):
        self.co, self.c, self.lo, self.hi = co or {}, c, lo, hi

    def scale(self, k):
        e = sorted((self.lo * k, self.hi * k))
        return Aff({a: v * k for a, v in self.co.items()}, self.c * k, e[0], e[1])

    def add(self, o):
        co = dict(self.co)
        for a, v in o.co.items():
            co[a] = co.get(a, Fr(0)) + v
        return Aff(co, self.c + o.c, self.lo + o.lo, self.hi + o.hi)

    def range(self):
        lo = self.c + self.lo + sum(min(v, 0) * 255 for v in self.co.values())
        hi = self.c + self.hi + sum(max(v, 0) * 255 for v in self.co.values())
        return lo, hi


def affine(p):
    r = Aff()
    for m, v in p.t.items():
        if not m:
            r = r.add(Aff(c=Fr(v)))
        elif len(m) == 1:
            r = r.add(affatom(m[0]).scale(Fr(v)))
        else:
            raise Unbounded("product")
    return r


def affatom(a):
    k, d = KIND[a], DATA[a]
    if k == "load" and d[0] == "px":
        return Aff({a: Fr(1)})
    if k == "fdiv":
        c = d[1]
        # a multiple of g never has a remainder above c - g
        g = c
        for m, v in d[0].t.items():
            if v % c:
                g = int(np.gcd(g, v % c))
        return affine(d[0]).scale(Fr(1, c)).add(Aff(lo=Fr(-(c - g), c)))
    if k == "fn":
        x = affine(d[1])
        al, be, elo, ehi, clamped = line(d, x)
        if clamped:
            raise Unbounded("clamp inside")
        return x.scale(al).add(Aff(c=be, lo=elo, hi=ehi))
    raise Unbounded(k)


def line(d, x):
    """alpha, beta, error interval, whether the clamp to 0..255 is needed, for a table."""
    tab = TABLES[d[0]]
    lo = d[1].iv()[0]
    n = len(tab)
    xs = np.arange(n, dtype=np.int64) + lo
    # values the argument cannot take do not matter
    rl, rh = x.range()
    keep = (xs >= int(np.floor(float(rl)))) & (xs <= int(np.ceil(float(rh))))
    xs, tab = xs[keep], tab[keep]
    if not len(xs):
        raise Unbounded("empty table")
    best = None
    inner = np.flatnonzero((tab > tab.min()) & (tab < tab.max()))
    if len(inner) < 2:
        if tab.min() == tab.max():
            return Fr(0), Fr(int(tab[0])), Fr(0), Fr(0), False
        raise Unbounded("step")
    i, j = inner[0], inner[-1]
    if i == j:
        raise Unbounded("step")
    s = (int(tab[j]) - int(tab[i])) / (int(xs[j]) - int(xs[i]))
    for m in range(0, 21):
        al = Fr(round(s * (1 << m)), 1 << m)
        if al == 0:
            continue
        # numerator and denominator as integers: exact
        num = xs * al.numerator
        r = tab[inner] * al.denominator - num[inner]
        be = Fr(int(r.max()) + int(r.min()), 2 * al.denominator)
        y = num * (2) + int(be * 2 * al.denominator)         # (al*x + be) * 2*den
        den = 2 * al.denominator
        for clamped in (False, True):
            z = np.clip(y, 0, 255 * den) if clamped else y
            e = tab * den - z
            w = (Fr(int(e.min()), den), Fr(int(e.max()), den))
            size = max(-w[0], w[1])
            if best is None or size < best[0]:
                best = (size, (al, be, w[0], w[1], clamped))
        if best and best[0] <= 1:
            break
    if best is None:
        raise Unbounded("table")
    return best[1]


def bound(t, want):
    """Interval of t - clamp(want), want an Aff without error."""
    if t.c is None and len(t.t) == 1 and KIND[next(iter(t.atoms))] == "fn" and list(t.t.values()) == [1]:
        d = DATA[next(iter(t.atoms))]
        x = affine(d[1])
        al, be, elo, ehi, clamped = line(d, x)
        y = x.scale(al).add(Aff(c=be))
        diff = y.add(want.scale(Fr(-1)))
        lo, hi = diff.range()
        if clamped:
            lo, hi = min(lo, Fr(0)), max(hi, Fr(0))
            return lo + elo, hi + ehi
        lo, hi = lo + elo, hi + ehi
    else:
        diff = affine(t).add(want.scale(Fr(-1)))
        lo, hi = diff.range()
    # a value within 0..255 is at most as far from the clamped equation
    a, b = t.iv()
    if a is None or b is None or a < 0 or b > 255:
        raise Unbounded("range")
    return min(lo, Fr(0)), max(hi, Fr(0))


def wanted(c, comp, vs, src):
    """The ITU-R equation for a component over the canonical source bytes."""
    (sp, scs, _), (dp, dcs, _) = c
    w = Aff()
    if dp in ref.ORDER:
        rows, y0 = ref.inverse(scs)
        row = rows["RGB".index(comp)]
        off = (y0, Fr(128), Fr(128))
        for i, letter in enumerate("YUV"):
            w = w.add(Aff({(letter, 0, 0): row[i]}, -row[i] * off[i]))
        return w, None
    row, o = ref.forward(dcs)["YUV".index(comp)]
    sx, sy = (1, 1) if comp == "Y" else ref.SUB[dp]
    for i, letter in enumerate("RGB"):
        for dy in range(sy):
            for dx in range(sx):
                w = w.add(Aff({(letter, dy, dx): row[i] / (sx * sy)}))
    return w.add(Aff(c=o)), None


def resolve(w, src, vs):
    """Replace (letter, dy, dx) by the atoms of the canonical source bytes."""
    co = {}
    for (letter, dy, dx), v in w.co.items():
        for p in src:
            if letter in p.ch:
                k = pix.code(p.i, dy, dx, p.ch.index(letter))
                co[next(iter(load("px", K(k)).atoms))] = v
    return Aff(co, w.c)


def reference(w, env):
    """clamp(want) over arrays, as integers over a common denominator."""
    den = w.c.denominator
    for v in w.co.values():
        den = den * v.denominator // np.gcd(den, v.denominator)
    den = int(den)
    r = np.int64(int(w.c * den))
    for a, v in w.co.items():
        r = r + np.int64(int(v * den)) * env[a]
    return np.clip(r, 0, 255 * den), den


def worst(t, w, extra=(), seed=1):
    """(input, value, exact) where t is one code value off or more; None if
    that never happens (up to three bytes: all values are tabulated); False if
    none was found."""
    ats = sorted(set(w.co) | {a for _, a in pix.variables(t) or ()} | set(extra))
    if len(ats) <= 3:
        grids = pix.grid(ats)
        full = True
    else:
        m = pix.samples(len(ats), seed)
        # the same colour in the whole block
        rng = np.random.default_rng(seed)
        col = {}
        n = len(m)
        for i, a in enumerate(ats):
            if DATA[a][0] == "px":
                p, dy, dx, ch = pix.decode(DATA[a][1].c)
                key = (p, ch)
                if key not in col:
                    col[key] = np.concatenate([rng.integers(0, 256, n // 2), rng.choice([0, 255], n - n // 2)])
        m2 = np.stack([col[pix.decode(DATA[a][1].c)[0], pix.decode(DATA[a][1].c)[3]] if DATA[a][0] == "px" else rng.integers(0, 256, n) for a in ats], 1)
        m = np.concatenate([m, m2])
        grids = [{a: m[:, i].astype(np.int64) for i, a in enumerate(ats)}]
        full = False
    for env in grids:
        x = pix.evaluate(t, env)
        y, den = reference(w, env)
        x, y = np.broadcast_arrays(x, y)
        i = np.argwhere(np.abs(x * den - y) >= den)
        if len(i):
            i = tuple(i[0])
            vals = {a: int(np.broadcast_to(v, x.shape)[i]) for a, v in env.items()}
            return vals, int(x[i]), "%.3f" % (int(y[i]) / den)
    return None if full else False


def job(ctx, c):
    f = transfer.Functions(ctx, c)
    vio, und = [], list(f.und)
    cnt = {"functions": 0, "bounded": 0, "tabulated": 0}
    mx = Fr(0)
    for k in sorted(f.cells):
        comp = f.channel(k)
        if comp == "A":
            continue
        w = resolve(wanted(c, comp, None, f.src)[0], f.src, None)
        for t, by in f.cells[k].items():
            cnt["functions"] += 1
            s, b = sorted(by.items())[0]
            extra = ()
            if pix.variables(t) is not None:
                try:
                    lo, hi = bound(t, w)
                    if -1 < lo and hi < 1:
                        cnt["bounded"] += 1
                        mx = max(mx, -lo, hi)
                        continue
                except Unbounded:
                    pass
            else:
                loads = [a for a in deep_atoms(t) if KIND[a] == "load"]
                inner = set()
                for a in loads:
                    inner |= deep_atom(a)
                if any(KIND[a] in ("in", "ctr", "opq") and a not in inner for a in deep_atoms(t)):
                    und.append("%s, %s: %s depends on more than source bytes" % (b.ev.where, conv.label(c, s), comp))
                    continue
                extra = [a for a in loads if DATA[a][0] != "px"]
            r = worst(t, w, extra)
            if r is None:
                cnt["tabulated"] += 1
                continue
            if r is False:
                und.append("%s, %s: error of %s not bounded: %s" % (b.ev.where, conv.label(c, s), comp, f.show(t)[:200]))
                continue
            vals, got, exact = r
            for s, b in sorted(by.items()):
                inp = pix.feasible(f.images[s], b)
                if inp is None:
                    und.append("%s, %s: %s is off, at an address not shown reachable" % (b.ev.where, conv.label(c, s), comp))
                    continue
                px = f.inputs({DATA[a][1].c: v for a, v in vals.items() if DATA[a][0] == "px"})
                far = [v for a, v in vals.items() if DATA[a][0] != "px"]
                vio.append({"fn": b.ev.fn, "where": b.ev.where, "comp": comp, "label": conv.label(c, s), "input": inp,
                            "px": px, "far": far, "got": got, "exact": exact, "term": f.show(t)[:200]})
    return cnt, float(mx), vio, und


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    rep.level = "proof"
    tot, mx, n = {}, 0.0, 0
    for j, r, err in ctx.map(job, transfer.jobs(packed=False), transfer.group):
        if r is None:
            rep.undecide("%s: %s" % (common.name(j), err))
            continue
        n += 1
        cnt, m, vio, und = r
        mx = max(mx, m)
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        for u in sorted(set(und))[:20]:
            rep.undecide(u)
        for v in vio:
            d = [v["label"], "source bytes %s: %d instead of %s" % (v["px"], v["got"], v["exact"]), "computed as " + v["term"], "reached with %s" % v["input"]]
            if v["far"]:
                d.append("bytes outside the pixel: %s" % v["far"])
            rep.violation("%s:%s:%s" % (v["fn"], v["comp"], v["label"].split(",")[0]), "%s is off the ITU-R equation by one code value or more" % v["comp"], v["where"], d)
    rep.coverage = dict(tot, conversions=n, sets=list(common.SETS), largest_error_bound=round(mx, 4),
                        rule="|stored value - clamp(ITU-R equation)| < 1 for every byte value",
                        trusted_base=["rustc MIR", "engine/interp.py, models.py (intrinsics), terms.py, pix.py", "engine/ref.py (matrices)"])
    rep.assumptions = ["default features"]
