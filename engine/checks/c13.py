"""C13: the C entry points against null pointers, invalid enumerations and
plane counts.  The Rust functions behind them are replaced by stand-ins that
check what they are given and return each possible result."""
import interp
import ref
import witness
from terms import *
from values import *
from interp import State, Unsupported
from target import PTR
from roots import U32, U64, I63, struct_value, variant
import front

KINDS = ("mem", "null", "bounds", "enum", "panic", "unchecked", "unreachable")
ERR = {"InvalidValue": 0}


def null(name):
    return eq(inp(name, 0, 1))


class C:
    """One call of a C function: formats as raw integers, nullable pointers."""

    def __init__(self, ctx, pfs):
        E = ctx.E
        self.E, self.I, self.P = E, E.I, E.P
        I = self.I
        I.ob = interp.Obligations()
        I.depth = I.mute = I.light = 0
        I.stack, I.spans, I.span = [], [], None
        I.regions.clear()
        I.arrays.clear()
        self.st = State()
        self.w, self.h = inp("width", 0, U32), inp("height", 0, U32)
        self.fm = {}
        for side, pf in pfs.items():
            raw = K(pf) if pf is not None else inp(side + "_pixel_format", len(front.variants(self.P, "PixelFormat")), U32)
            f = {"pixel_format": raw, "color_space": inp(side + "_color_space", 0, U32), "num_planes": inp(side + "_planes", 0, U32)}
            self.fm[side] = f
            self.st.store[("obj", side)] = struct_value(self.P, "ImageFormat", **f)
        # what the caller had there: a value that is none of the errors
        self.st.store[("obj", "error")] = Agg(99, ())
        self.calls = 0

    def fmt(self, side):
        return Ptr(("obj", side), (), None, None, None, null(side + "_format_ptr"))

    def err(self):
        return Ptr(("obj", "error"), (), None, None, None, null("error_ptr"))

    def array(self, name, n, elem, es=PTR):
        self.I.arrays[name] = {"n": n, "elem": elem}
        return Ptr(("arr", name), (), ZERO, es, None, null(name + "_ptr"))

    def planes(self, side):
        def f(st, i):
            if not isinstance(i, int):
                raise Unsupported("plane at a symbolic index")
            r = "%s%d" % (side, i)
            self.I.regions.setdefault(r, {"len": inp(r + "_len", 0, I63), "writable": side == "dst"})
            return Ptr(("mem", r), (), ZERO, 1, None, null("%s_plane%d" % (side, i)))
        return self.array(side + "_buffers", self.fm[side]["num_planes"], f)

    def strides(self, side):
        def f(st, i):
            if not isinstance(i, int):
                raise Unsupported("stride at a symbolic index")
            return inp("%s_stride%d" % (side, i), 0, U64)
        return self.array(side + "_strides", self.fm[side]["num_planes"], f)

    # what the specification calls an acceptable format
    def good_format(self, side, space=True):
        f = self.fm[side]
        npf, ncs = len(front.variants(self.P, "PixelFormat")), len(front.variants(self.P, "ColorSpace"))
        r = [ge(npf - 1 - f["pixel_format"])]
        if space:
            r.append(ge(ncs - 1 - f["color_space"]))
        pf = f["pixel_format"].c
        if pf is None or pf >= npf:
            return False
        name = front.variants(self.P, "PixelFormat")[pf]
        r.append(disj([eq(f["num_planes"] - k) for k in ref.PLANES[name]]))
        return conj(r)


def arguments(c, st, sides, a, bad):
    """The formats, strides and planes handed to the Rust function are the caller's."""
    I = c.I

    def need(g, text):
        if g is not True and not I.pr.prove(st.facts, g):
            bad.append((text, st, g))
    need(eq(a[0] - c.w), "the width is changed")
    need(eq(a[1] - c.h), "the height is changed")
    for side, (fp, sp, bp) in sides.items():
        f = I.read(st, fp.root, fp.path)
        names = [x[0] for x in c.P.types[c.P.adt("ImageFormat")]["variants"][0]["f"]]
        f = dict(zip(names, f.f))
        n = c.fm[side]["num_planes"]
        for k in ("pixel_format", "color_space", "num_planes"):
            v = f[k]
            if isinstance(v, Agg):
                v = K(c.P.types[c.P.adt("PixelFormat" if k == "pixel_format" else "ColorSpace")]["variants"][v.var]["d"])
                if k == "color_space" and bp is None:
                    continue
            if not isinstance(v, Poly):
                raise Unsupported("format handed to the Rust function")
            if k == "color_space" and bp is None:
                # the size does not depend on it, but it has to be a valid value
                need(ge(len(front.variants(c.P, "ColorSpace")) - 1 - v), "an unchecked integer is used as ColorSpace")
                continue
            need(eq(v - c.fm[side][k]), "the %s format is changed" % side)
            if k != "num_planes":
                t = "PixelFormat" if k == "pixel_format" else "ColorSpace"
                need(ge(len(front.variants(c.P, t)) - 1 - v), "an unchecked integer is used as %s" % t)
        isnull = null(side + "_strides_ptr")
        if not isinstance(sp, Agg) or sp.var is None:
            raise Unsupported("strides handed to the Rust function")
        if sp.var == 0:
            need(isnull, "the %s strides are dropped" % side)
        else:
            p = sp.f[0]
            need(neg(isnull), "null %s strides are used" % side)
            if p.root != ("arr", side + "_strides") or p.off is None:
                bad.append(("the %s strides are not the caller's" % side, st, False))
            else:
                need(conj([eq(p.off), eq(p.meta - n)]), "the %s strides have another length than the number of planes" % side)
        if bp is None:
            continue
        # as many planes as declared, in order
        for i in range(3):
            inside = ge(n - i - 1)
            if I.pr.infeasible(tuple(st.facts) + (inside,)):
                continue
            s2 = st.fork()
            s2.assume(inside)
            if bp.meta is None:
                raise Unsupported("planes handed to the Rust function")
            if not I.pr.prove(s2.facts, ge(bp.meta - i - 1)):
                bad.append(("fewer %s planes than declared are handed on" % side, s2, False))
                continue
            L = interp.Loc(bp.root, bp.path, bp.off + bp.es * i if bp.off is not None else None, bp.es, None)
            v = I.read(s2, bp.root, bp.path + (i,)) if bp.off is None else I.read(s2, bp.root, bp.path + (fdiv(bp.off, bp.es).c + i,))
            if isinstance(v, Agg) and len(v.f) == 1:
                v = v.f[0]
            ok = isinstance(v, Ptr) and v.root == ("mem", "%s%d" % (side, i)) and v.off is not None and v.off.c == 0
            if not ok:
                if isinstance(v, Ptr) or v is UNINIT:
                    bad.append(("%s plane %d is not the caller's" % (side, i), s2, False))
                else:
                    raise Unsupported("plane %r" % (v,))


def results(P, st, log):
    ek = P.types[P.adt("ErrorKind")]["variants"]
    out = []
    for i in [None] + list(range(len(ek))):
        s = st.fork()
        s.log = s.log + (log + (None if i is None else ek[i]["n"],),)
        out.append((s, Agg(0, (UNIT,)) if i is None else Agg(1, (Agg(i, ()),))))
    return out


def outcome(P, f, v):
    """Variant name of the C result."""
    t = P.types[f.locals[0]]
    if isinstance(v, Agg) and v.var is not None:
        return t["variants"][v.var]["n"]
    return None


def job(ctx, j):
    kind, spf, dpf = j
    E = ctx.E
    I, P = E.I, E.P
    bad = []
    exp = {f.sym: f for f in P.fns if f.local and f.export}
    if kind == "convert":
        f = exp["dcp_convert_image"]
        c = C(ctx, {"src": spf, "dst": dpf})
        inner = P.one("convert_image")

        def h(I, st, fn, a):
            c.calls += 1
            arguments(c, st, {"src": (a[2], a[3], a[4]), "dst": (a[5], a[6], a[7])}, a, bad)
            return results(P, st, ("rust",))
        args = [c.w, c.h, c.fmt("src"), c.strides("src"), c.planes("src"), c.fmt("dst"), c.strides("dst"), c.planes("dst"), c.err()]
        need = [neg(null(x)) for x in ("src_format_ptr", "dst_format_ptr", "src_buffers_ptr", "dst_buffers_ptr")]
        need += [c.good_format("src"), c.good_format("dst")]
        for side in ("src", "dst"):
            for i in range(3):
                need.append(disj([ge(i - c.fm[side]["num_planes"]), neg(null("%s_plane%d" % (side, i)))]))
    else:
        f = exp["dcp_get_buffers_size"]
        c = C(ctx, {"src": spf})
        inner = P.one("dcv_color_primitives::get_buffers_size")
        n = c.fm["src"]["num_planes"]
        I.regions["out"] = {"len": n.scale(PTR), "writable": True}

        def h(I, st, fn, a):
            c.calls += 1
            arguments(c, st, {"src": (a[2], a[3], None)}, a, bad)
            o = a[4]
            g = False
            if isinstance(o, Ptr) and o.root == ("mem", "out") and o.meta is not None:
                g = conj([eq(o.off), eq(o.meta - n)])
            if g is False or not I.pr.prove(st.facts, g):
                bad.append(("the output array is not the caller's", st, g))
            return results(P, st, ("rust",))
        args = [c.w, c.h, c.fmt("src"), c.strides("src"), Ptr(("mem", "out"), (), ZERO, PTR, None, null("buffers_size_ptr")), c.err()]
        need = [neg(null("src_format_ptr")), neg(null("buffers_size_ptr")), c.good_format("src", False)]
    good = conj(need)
    old = dict(I.opts)
    I.opts["enums"] = True
    I.hooks[inner.key] = h
    vio, und = [], []
    npf = front.variants(P, "PixelFormat")
    what = "%s %s" % (f.sym, "/".join("an invalid format" if x is None else npf[x] for x in (spf, dpf)[:2 if kind == "convert" else 1]))
    cnt = {"outcomes": 0, "obligations": 0, "discharged": 0, "paths_to_rust": 0}
    try:
        out = I.call(c.st, f, args)
    finally:
        I.opts.clear()
        I.opts.update(old)
        I.hooks.pop(inner.key, None)
    where = P.where(f.span)

    def report(text, facts, goal, wh=where, stack=()):
        w = witness.search(tuple(facts), [neg(goal)] if goal is not False else [], 1)
        if w and w[1]:
            vio.append((text, wh, what, {k: x for k, x in w[0].items() if isinstance(k, str)}, list(stack)))
        else:
            und.append("%s: %s (%s)" % (wh, text, what))
    for st, v in out:
        cnt["outcomes"] += 1
        r = outcome(P, f, v)
        e = st.store.get(("obj", "error"))
        ek = P.types[P.adt("ErrorKind")]["variants"]
        rust = [l[1] for l in st.log if l[0] == "rust"]
        if r not in ("Ok", "Err") or len(rust) > 1:
            und.append("%s: result %r" % (what, v))
            continue
        # malformed input is answered with InvalidValue
        hasptr = neg(null("error_ptr"))
        en = ek[e.var]["n"] if isinstance(e, Agg) and e.var is not None and e.var < len(ek) else None
        goals = []
        if rust:
            cnt["paths_to_rust"] += 1
            goals.append((good, "malformed input reaches the conversion"))
            goals.append(((r == "Ok") == (rust[0] is None), "the result is not the one of the Rust function"))
            if rust[0] is not None:
                goals.append((True if en == rust[0] else null("error_ptr"), "the error is not the one of the Rust function"))
        else:
            goals.append((neg(good), "well-formed input is not handed to the Rust function"))
            goals.append((r == "Err", "malformed input is accepted"))
            goals.append((True if en == "InvalidValue" else null("error_ptr"), "malformed input is not answered with InvalidValue"))
        for g, text in goals:
            cnt["obligations"] += 1
            if g is True or (g is not False and I.pr.prove(st.facts, g)) or I.pr.infeasible(st.facts):
                cnt["discharged"] += 1
            else:
                report(text, st.facts, g)
    for text, st, g in bad:
        cnt["obligations"] += 1
        if not I.pr.infeasible(st.facts):
            report(text, st.facts, g)
    for (k, fn, wh), n in I.ob.ok.items():
        if k in KINDS:
            cnt["obligations"] += n
            cnt["discharged"] += n
    for (k, fn, wh), ds in I.ob.bad.items():
        if k not in KINDS:
            continue
        cnt["obligations"] += 1
        d = ds[0]
        facts, goal = d["raw"]
        report("%s in %s" % (d["msg"], fn), facts, goal, wh, d["stack"])
    if not out:
        und.append("%s: no outcome" % what)
    return cnt, vio, und


def run(ctx):
    rep = ctx.rep
    P = ctx.E.P
    exp = {f.sym: f for f in P.fns if f.local and f.export}
    for s in ("dcp_convert_image", "dcp_get_buffers_size"):
        if s not in exp:
            rep.violation("missing-" + s, "the C function is not exported", "src/lib.rs", s)
    if rep.violations:
        rep.coverage = {"explanation": "anchor missing"}
        return
    n = list(range(len(front.variants(P, "PixelFormat")))) + [None]
    jobs = [("convert", a, b) for a in n for b in n] + [("size", a, None) for a in n]
    tot = {}
    seen = set()
    for j, r, err in ctx.map(job, jobs, lambda j: j[:2]):
        if r is None:
            rep.undecide("%s: %s" % (j, err))
            continue
        cnt, vio, und = r
        for k, x in cnt.items():
            tot[k] = tot.get(k, 0) + x
        for u in und:
            if u not in seen:
                seen.add(u)
                rep.undecide(u)
        for text, wh, what, w, stack in vio:
            rep.violation("%s:%s" % (what.split()[0], text), text, wh, [what, "input %s" % w] + stack)
    if not tot.get("paths_to_rust"):
        rep.undecide("no call of the Rust functions was seen")
    rep.level = "proof"
    rep.coverage = dict(tot, cases=len(jobs),
                        rule="with every pointer nullable and every enumeration an arbitrary 32-bit integer: no null dereference, no read beyond the declared planes, no "
                             "integer used as an enumeration before it is checked; malformed <=> answered InvalidValue without reaching the Rust function; else the caller's "
                             "arguments are handed on unchanged and its result returned",
                        trusted_base=["rustc MIR", "engine/interp.py, prover.py"])
    rep.assumptions = ["default features", "non-null pointers are valid for what the C interface declares"]
