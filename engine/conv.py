"""One conversion under one instruction set: analysis, obligations, and the
confirmation of obligations that could not be discharged."""
import time
from terms import *
from values import *
import interp
from interp import State, Unsupported
import common
import witness

WHAT = {
    "mem": "access outside the buffer", "null": "null pointer dereferenced", "bounds": "access outside an array",
    "unchecked": "unchecked arithmetic overflows", "panic": "panic", "unreachable": "unreachable code is reached",
    "dstread": "a destination buffer is read", "srcwrite": "a source buffer is written", "align": "access that needs alignment at an address that may lack it",
}


def tuplify(c):
    (a, b, n), (x, y, m) = c
    return (a, b, n), (x, y, m)


class Run:
    """Result of analysing convert_image for one conversion and set."""

    def __init__(self, ctx, c, setname, strides=(True, True), conc=None, light=False):
        E = ctx.E
        I = E.I
        sets = ctx.sets()
        I.ob = interp.Obligations()
        I.depth = 0
        I.mute = 0
        I.light = 1 if light else 0
        I.stack, I.spans, I.span = [], [], None
        I.unsup = []
        t = time.time()
        try:
            self.W, self.out = E.convert(c[0], c[1], strides=strides, setidx=sets[setname], conc=conc)
        finally:
            I.light = 0
        self.ob = I.ob
        self.I = I
        self.t = time.time() - t

    def classify(self):
        """[(state, 'ok' | error variant name)]"""
        P = self.I.P
        ek = P.types[P.adt("ErrorKind")]["variants"]
        r = []
        for st, v in self.out:
            if isinstance(v, Agg) and v.var == 0:
                r.append((st, "ok"))
            elif isinstance(v, Agg) and v.var == 1 and isinstance(v.f[0], Agg):
                r.append((st, ek[v.f[0].var]["n"]))
            else:
                r.append((st, None))
        return r


def site(fn, where):
    """Name of a construct without line numbers."""
    return fn


NAMES = ("width", "height")


def inputs_of(env):
    return {k: v for k, v in env.items() if isinstance(k, str)
            and k.rstrip("0123456789") in ("width", "height", "slen", "dlen", "sstride", "dstride", "snbuf", "dnbuf", "snstr", "dnstr")}


def settle(ctx, c, setname, strides, kinds, ob, seed=1):
    """Splits unproved obligations of the given kinds into (violations, undecided)."""
    vio, und = [], []
    for (kind, fn, where), ds in ob.bad.items():
        if kind not in kinds:
            continue
        done = False
        for d in ds[:4]:
            if d["msg"] == "assertion on an unknown value":
                continue
            facts, goal = d["raw"]
            w = witness.search(facts, [neg(goal)] if goal is not False else [], seed, restarts=30, steps=300)
            if w is None:
                continue
            env, exact = w
            conf = confirm(ctx, c, setname, strides, env, kind, fn)
            if conf is False or (conf is None and not exact):
                continue
            vio.append({"kind": kind, "fn": fn, "where": where, "msg": d["msg"], "stack": d["stack"], "goal": d["goal"],
                        "input": inputs_of(env), "confirmed": bool(conf)})
            done = True
            break
        if not done:
            d = ds[0]
            und.append("%s: %s in %s (%s): cannot prove %s" % (where, d["msg"], fn, label(c, setname), d["goal"][:300]))
    return vio, und


def confirm(ctx, c, setname, strides, env, kind, fn):
    """Analyses the conversion again with the inputs fixed to the witness.
    True: the obligation is broken there; False: it is not; None: no answer."""
    conc = inputs_of(env)
    conc.setdefault("width", 2)
    conc.setdefault("height", 2)
    if conc["width"] * conc["height"] > 5000:
        return None
    for pre in "sd":
        conc.setdefault(pre + "nbuf", 3)
        conc.setdefault(pre + "nstr", 3)
        for i in range(3):
            conc.setdefault("%slen%d" % (pre, i), 1 << 40)
            conc.setdefault("%sstride%d" % (pre, i), 8 * max(1, conc["width"]))
    save = ctx.E.I.ob
    try:
        old = ctx.E.I.UNROLL
        ctx.E.I.UNROLL = 1 << 20
        r = Run(ctx, c, setname, strides, conc)
        bad = [k for k in r.ob.bad if k[0] == kind]
        return bool(bad)
    except Unsupported:
        return None
    except Exception:
        return None
    finally:
        ctx.E.I.UNROLL = old
        ctx.E.I.ob = save


def label(c, setname):
    return "%s, %s" % (common.name(c), setname)


def ob_job(kinds, light=False):
    def f(ctx, job):
        c, s, strides = job
        r = Run(ctx, tuplify(c), s, strides, light=light)
        vio, und = settle(ctx, c, s, strides, kinds, r.ob)
        cnt = {}
        for (k, fn, w), n in r.ob.ok.items():
            if k in kinds:
                cnt[k] = cnt.get(k, 0) + n
        fns = sorted({fn for (k, fn, w) in list(r.ob.ok) + list(r.ob.bad) if k in kinds})
        outs = {}
        for st, k in r.classify():
            outs[str(k)] = outs.get(str(k), 0) + 1
        return {"cnt": cnt, "fns": fns, "vio": vio, "und": und, "outs": outs, "t": r.t,
                "loops": sum(len(e.loops) for st, k in r.classify() for e in st.ev)}
    return f


def jobs_all(colors=common.COLORS, strides=((True, True),)):
    o = []
    for c in common.PACKED:
        o += [(c, s, x) for s in common.SETS for x in strides]
    for cs in colors:
        for c in common.yuv_conversions(cs):
            o += [(c, s, x) for s in common.SETS for x in strides]
    # long ones first
    o.sort(key=lambda j: -cost(j))
    return o


def cost(j):
    c, s, x = j
    (a, _, n), (b, _, m) = c
    return ({"x86": 1, "sse2": 2}.get(s, 3) + (6 if b == "Bgra" and a == "Rgb" else 0)) * (2 if n > 1 or m > 1 else 1)


def complete(env):
    conc = inputs_of(env)
    conc.setdefault("width", 2)
    conc.setdefault("height", 2)
    for pre in "sd":
        conc.setdefault(pre + "nbuf", 3)
        conc.setdefault(pre + "nstr", 3)
        for i in range(3):
            conc.setdefault("%slen%d" % (pre, i), 1 << 40)
            conc.setdefault("%sstride%d" % (pre, i), 0)
    return conc


def entry(ctx, c, s):
    """Where the converter installed for c lives (best effort)."""
    P = ctx.E.P
    key = ("_%s_" % s)
    fs = [f for f in P.fns if f.local and f.kind == "item" and f.blocks and ("::%s::" % s) in f.name
          and c[0][0].lower() in f.name.lower() and c[1][0].lower() in f.name.lower()]
    return P.where(fs[0].span) if fs else "src/lib.rs"


BPP = {"Argb": 4, "Bgra": 4, "Rgba": 4, "Rgb": 3, "Bgr": 3}


def group(j):
    """Conversions that share a kernel, for one instruction set."""
    c, s = j[0], j[1]
    (a, _, n), (b, _, m) = c
    if _ == "Rgb" and a in BPP and b in BPP:
        return c, s
    return BPP.get(a, a), n, BPP.get(b, b), m, s
