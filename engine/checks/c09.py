"""C09: InvalidValue exactly for malformed image formats."""
import front
import ref
import witness
from terms import *
from roots import U32


def job_convert(ctx, j):
    s, src = j
    E = ctx.E
    P, I = E.P, E.I
    fns = front.table_fns(E)
    front.stub(I, fns, True)
    vio, und = [], []
    n = {"obligations": 0, "discharged": 0, "outcomes": 0}
    try:
        for pf in front.variants(P, "PixelFormat"):
            for cs in front.variants(P, "ColorSpace"):
                dst = (pf, cs)
                W, (sp, dp), out = front.run(ctx, s, src, dst)
                good = conj([front.consistent(*src), front.consistent(*dst), front.wellformed(src[0], sp, W.w, W.h),
                             front.wellformed(dst[0], dp, W.w, W.h)])
                check(ctx, "%s/%s -> %s/%s, %s" % (src + dst + (s,)), good, out, n, vio, und)
    finally:
        front.stub(I, fns, False)
    return n, vio, und


def check(ctx, what, good, out, n, vio, und):
    I = ctx.E.I
    n["outcomes"] += len(out)
    for st, r, v in out:
        n["obligations"] += 1
        want = neg(good) if r == "InvalidValue" else good
        if r is None:
            und.append("%s: result %r" % (what, v))
            continue
        if want is True or (want is not False and I.pr.prove(st.facts, want)) or I.pr.infeasible(st.facts):
            n["discharged"] += 1
            continue
        w = witness.search(st.facts, [] if want is False else [neg(want)], 1)
        if w and w[1]:
            vio.append((what, r, {k: x for k, x in w[0].items()}))
        else:
            und.append("%s: outcome %s not shown to agree with the rule: %s" % (what, r, [showf(f) for f in st.facts][:8]))
    if not out:
        und.append("%s: no outcome" % what)


def job_size(ctx, j):
    E = ctx.E
    import sizes
    vio, und = [], []
    n = {"obligations": 0, "discharged": 0, "outcomes": 0}
    P = E.P
    for pf in front.variants(P, "PixelFormat"):
        for cs in front.variants(P, "ColorSpace"):
            for strides in (True, False):
                W, out = sizes.run(ctx, pf, cs, strides)
                good = front.wellformed(pf, W["planes"], W["w"], W["h"])
                check(ctx, "size of %s/%s%s" % (pf, cs, "" if strides else ", no strides"), good, out, n, vio, und)
    return n, vio, und


def run(ctx):
    rep = ctx.rep
    P = ctx.E.P
    sets = list(ctx.sets())
    pfs, css = front.variants(P, "PixelFormat"), front.variants(P, "ColorSpace")
    for x in pfs:
        if x not in ref.PLANES:
            rep.undecide("pixel format %s has no specification" % x)
    jobs = [("c", s, (p, c)) for s in sets for p in pfs for c in css] + [("s", None, None)]
    tot = {}
    where = {"c": P.where(P.one("convert_image").span), "s": P.where(P.one("get_buffers_size").span)}
    pairs = 0

    def f(ctx, j):
        return job_convert(ctx, j[1:]) if j[0] == "c" else job_size(ctx, j)
    for j, r, err in ctx.map(f, jobs):
        if r is None:
            rep.undecide("%s: %s" % (j, err))
            continue
        n, vio, und = r
        pairs += 1
        for k, x in n.items():
            tot[k] = tot.get(k, 0) + x
        for u in und:
            rep.undecide(u)
        for what, res, w in vio:
            kind = "accepted past validation" if res != "InvalidValue" else "rejected with InvalidValue"
            rep.violation("%s:%s" % (what.rsplit(",", 1)[0], kind), "%s although the format is %s" % (kind, "malformed" if res != "InvalidValue" else "well-formed"),
                          where[j[0]], [what, "result %s for %s" % (res, w)])
    rep.level = "proof"
    rep.coverage = dict(tot, format_pairs_per_set=len(pfs) ** 2 * len(css) ** 2, sets=sets,
                        rule="on every path: result == InvalidValue <=> format malformed (formula over planes, width, height)",
                        trusted_base=["rustc MIR", "engine/interp.py, prover.py"])
    rep.assumptions = ["default features"]
