"""C08: exactly the documented conversions are accepted, and each runs the
converter of its own formats and colour space."""
import conv
import front
import ref
import witness
from terms import *
from interp import Unsupported

TOL = 8
COLORS = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (0, 255, 255), (255, 0, 255), (255, 255, 255), (0, 0, 0),
          (200, 60, 20), (30, 90, 180), (128, 128, 128), (90, 200, 140)]


def pairs(ctx, j):
    """Acceptance for one source against every destination, everything else symbolic."""
    s, src = j
    E = ctx.E
    P, I = E.P, E.I
    fns = front.table_fns(E)
    front.stub(I, fns, True)
    vio, und = [], []
    n = {"obligations": 0, "discharged": 0, "outcomes": 0}
    try:
        for pf in front.variants(P, "PixelFormat"):
            for cs in front.variants(P, "ColorSpace"):
                dst = (pf, cs)
                W, _, out = front.run(ctx, s, src, dst)
                sup = (src, dst) in ref.SUPPORTED
                what = "%s/%s -> %s/%s, %s" % (src + dst + (s,))
                seen = set()
                for st, r, v in out:
                    n["outcomes"] += 1
                    n["obligations"] += 1
                    seen.add(r)
                    bad = r == "InvalidOperation" if sup else r in ("ok", "NotEnoughData")
                    if r is None:
                        und.append("%s: result %r" % (what, v))
                    elif not bad or I.pr.infeasible(st.facts):
                        n["discharged"] += 1
                    else:
                        w = witness.search(st.facts, [], 1)
                        if w and w[1]:
                            vio.append((what, "a supported conversion is rejected" if sup else "an unsupported conversion is accepted", {k: x for k, x in w[0].items()}))
                        else:
                            und.append("%s: outcome %s may be wrong" % (what, r))
                if sup and not {"ok"} <= seen:
                    vio.append((what, "a supported conversion never succeeds", {}))
    finally:
        front.stub(I, fns, False)
    return n, vio, und


def image(pf, cs, n, rgb, w=2, h=2):
    """Bytes of a w x h image of one colour."""
    mem = {}
    if pf in ref.ORDER:
        ch = dict(zip("RGB", rgb))
        ch["A"] = 77
        for i in range(w * h):
            for k, c in enumerate(ref.ORDER[pf]):
                mem[0, len(ref.ORDER[pf]) * i + k] = ch[c]
        return mem
    ycc = [int(x + ref.Fr(1, 2)) for x in ref.to_ycc(cs, rgb)]
    v = dict(zip("YUV", ycc))
    base = {}
    for b, chs, sx, sy, at in ref.planes(pf, n):
        o = base.get(b, 0)
        for y in range(h // sy):
            for x in range(w // sx):
                for k, c in enumerate(chs):
                    mem[b, o] = v[c]
                    o += 1
        base[b] = o
    return mem


class Bytes:
    """Evaluates a term over the bytes of the source."""

    def __init__(self, mem):
        import witness as w
        self.e = w.Env(None)
        self.mem = mem
        self.e.atom0 = self.e.atom
        self.e.atom = self.atom

    def atom(self, a):
        if KIND[a] == "load":
            r, off = DATA[a]
            o = self.e.poly(off)
            return self.mem[int(r[3:]), o]
        return self.e.atom0(a)


def written(st):
    out = {}
    for e in st.ev:
        if e.region.startswith("dst"):
            if e.off.c is None or e.loops:
                raise Unsupported("write at %s" % show(e.off))
            for k, t in enumerate(e.terms):
                out[int(e.region[3:]), e.off.c + k] = t
    return out


def identity(ctx, j):
    s, c = j
    w = h = 2
    conc = {"width": w, "height": h}
    for pre in "sd":
        conc[pre + "nbuf"] = conc[pre + "nstr"] = 3
        for i in range(3):
            conc["%slen%d" % (pre, i)] = 1 << 20
            conc["%sstride%d" % (pre, i)] = 0
    I = ctx.E.I
    old = I.UNROLL
    I.UNROLL = 1 << 16
    try:
        r = conv.Run(ctx, c, s, conc=conc)
    finally:
        I.UNROLL = old
    outs = r.classify()
    if len(outs) != 1 or outs[0][1] != "ok":
        return 0, [("a 2x2 image is not converted", "results %s" % [k for _, k in outs])], []
    wr = written(outs[0][0])
    (a, ac, n), (b, bc, m) = c
    src_ref = a in ref.ORDER
    vio, und = [], []
    checks = 0
    for rgb in COLORS:
        mem = image(a, ac, n, rgb, w, h)
        if src_ref:
            exp_rgb = rgb
        else:
            ycc = [int(x + ref.Fr(1, 2)) for x in ref.to_ycc(ac, rgb)]
            exp_rgb = ref.to_rgb(ac, ycc)
        want = image_exact(b, bc, m, exp_rgb, w, h)
        ev = Bytes(mem)
        for k, x in want.items():
            checks += 1
            t = wr.get(k)
            if t is None:
                vio.append(("a byte of the destination is not written", "buffer %d offset %d" % k))
                continue
            try:
                got = ev.e.poly(t)
            except KeyError as e:
                vio.append(("the output depends on something other than the source image", "buffer %d offset %d: %s" % (k + (show(t)[:200],))))
                continue
            if abs(got - x) > TOL:
                vio.append(("the converter that runs is not the one of these formats and colour space",
                            "colour %s, buffer %d offset %d: %d instead of %.1f" % (rgb, k[0], k[1], got, float(x))))
    return checks, vio[:1], und


def image_exact(pf, cs, n, rgb, w, h):
    if pf in ref.ORDER:
        m = image(pf, cs, n, rgb, w, h)
        return {k: (255 if v == 77 and ref.ORDER[pf][k[1] % len(ref.ORDER[pf])] == "A" else v) for k, v in m.items()}
    ycc = ref.to_ycc(cs, rgb)
    v = dict(zip("YUV", ycc))
    mem = {}
    base = {}
    for b, chs, sx, sy, at in ref.planes(pf, n):
        o = base.get(b, 0)
        for i in range((h // sy) * (w // sx)):
            for c in chs:
                mem[b, o] = v[c]
                o += 1
        base[b] = o
    return mem


def run(ctx):
    rep = ctx.rep
    P = ctx.E.P
    sets = list(ctx.sets())
    pfs, css = front.variants(P, "PixelFormat"), front.variants(P, "ColorSpace")
    for x in pfs:
        if x not in ref.PLANES:
            rep.undecide("pixel format %s has no specification" % x)
    convs = [((a, ac, n), (b, bc, m)) for (a, ac), (b, bc) in sorted(ref.SUPPORTED) for n in ref.PLANES[a] for m in ref.PLANES[b]]
    jobs = [("p", s, (p, c)) for s in sets for p in pfs for c in css] + [("i", s, c) for s in sets for c in convs]
    where = P.where(P.one("convert_image").span)
    tot = {"identity_comparisons": 0}

    def f(ctx, j):
        return pairs(ctx, j[1:]) if j[0] == "p" else identity(ctx, j[1:])
    import common
    for j, r, err in ctx.map(f, jobs):
        if r is None:
            rep.undecide("%s: %s" % (j, err))
            continue
        n, vio, und = r
        if j[0] == "p":
            for k, x in n.items():
                tot[k] = tot.get(k, 0) + x
            for what, text, w in vio:
                rep.violation("accept:%s" % what, text, where, [what, "input %s" % w])
        else:
            tot["identity_comparisons"] += n
            for text, det in vio:
                rep.violation("identity:%s" % conv.label(j[2], j[1]), text, "src/lib.rs (table of converters), %s" % common.name(j[2]),
                              [conv.label(j[2], j[1]), det])
        for u in und:
            rep.undecide(u)
    rep.level = "proof"
    rep.coverage = dict(tot, pairs=len(pfs) ** 2 * len(css) ** 2, sets=sets, conversions=len(convs),
                        rule="all pairs of formats and spaces x sets: accepted <=> documented; the terms computed for a 2x2 image match the reference of the "
                             "requested formats and space at the corner colours",
                        trusted_base=["rustc MIR", "engine/interp.py", "engine/ref.py"])
    rep.assumptions = ["default features", "reference table of supported conversions: engine/ref.py, from the crate documentation"]
