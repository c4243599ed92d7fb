"""C11: no input makes the library panic or overflow an integer."""
import conv
import common
import front
import ref
import sizes
import witness
from terms import *

KINDS = ("panic", "unchecked", "unreachable", "bounds", "null")


def plain(ctx, ob, what):
    """Obligations of a function that is not re-analysed to confirm a witness."""
    vio, und = [], []
    for (kind, fn, where), ds in ob.bad.items():
        if kind not in KINDS:
            continue
        for d in ds[:4]:
            facts, goal = d["raw"]
            w = None if d["msg"] == "assertion on an unknown value" else witness.search(facts, [neg(goal)] if goal is not False else [], 1)
            if w and w[1]:
                vio.append({"kind": kind, "fn": fn, "where": where, "msg": d["msg"], "stack": d["stack"], "goal": d["goal"],
                            "input": {k: x for k, x in w[0].items() if isinstance(k, str)}})
                break
        else:
            d = ds[0]
            und.append("%s: %s in %s (%s): cannot prove %s" % (where, d["msg"], fn, what, d["goal"][:300]))
    cnt = {}
    for (k, fn, w), n in ob.ok.items():
        if k in KINDS:
            cnt[k] = cnt.get(k, 0) + n
    return {"cnt": cnt, "fns": sorted({fn for (k, fn, w) in list(ob.ok) + list(ob.bad) if k in KINDS}), "vio": vio, "und": und}


def merge(a, b):
    if a is None:
        return b
    for k, n in b["cnt"].items():
        a["cnt"][k] = a["cnt"].get(k, 0) + n
    a["fns"] = sorted(set(a["fns"]) | set(b["fns"]))
    a["vio"] += b["vio"]
    a["und"] += b["und"]
    return a


def front_job(ctx, s, src):
    """convert_image from one source format to every destination format."""
    E = ctx.E
    fns = front.table_fns(E)
    front.stub(E.I, fns, True)
    res = None
    try:
        for pf in front.variants(E.P, "PixelFormat"):
            for cs in front.variants(E.P, "ColorSpace"):
                front.run(ctx, s, src, (pf, cs))
                res = merge(res, plain(ctx, E.I.ob, "%s/%s -> %s/%s, %s" % (src + (pf, cs, s))))
    finally:
        front.stub(E.I, fns, False)
    return res


def size_job(ctx, pf):
    E = ctx.E
    res = None
    for cs in front.variants(E.P, "ColorSpace"):
        for n in sorted(ref.PLANES.get(pf, ())) + [None]:
            for some in (True, False):
                sizes.one(ctx, pf, cs, some, n)
                res = merge(res, plain(ctx, E.I.ob, "size of %s/%s" % (pf, cs)))
    return res


def run(ctx):
    rep = ctx.rep
    P = ctx.E.P
    sets = list(ctx.sets())
    full = conv.jobs_all()
    light = conv.jobs_all(colors=("Bt601",) if ctx.tier != "thorough" else common.COLORS,
                          strides=((False, False),) if ctx.tier != "thorough" else ((False, False), (True, False), (False, True)))
    pfs, css = front.variants(P, "PixelFormat"), front.variants(P, "ColorSpace")
    jobs = [("full",) + j for j in full] + [("light",) + j for j in light] + \
           [("front", s, (p, c)) for s in sets for p in pfs for c in css] + [("size", p) for p in pfs]
    fj, lj = conv.ob_job(KINDS), conv.ob_job(KINDS, True)

    def f(ctx, j):
        if j[0] == "full":
            return fj(ctx, j[1:])
        if j[0] == "light":
            return lj(ctx, j[1:])
        if j[0] == "front":
            return front_job(ctx, j[1], j[2])
        return size_job(ctx, j[1])

    def group(j):
        if j[0] in ("full", "light"):
            return (j[0],) + conv.group(j[1:])
        return j
    tot, fns, per = {}, set(), {}
    for job, r, err in ctx.map(f, jobs, group):
        if job[0] in ("full", "light"):
            what = "%s strides %s" % (conv.label(job[1], job[2]), job[3])
        else:
            what = str(job)
        if r is None:
            rep.undecide("%s: %s" % (what, err))
            continue
        fns |= set(r["fns"])
        per[job[0]] = per.get(job[0], 0) + 1
        for k, n in r["cnt"].items():
            tot[k] = tot.get(k, 0) + n
        for u in r["und"]:
            rep.undecide(u)
        for v in r["vio"]:
            rep.violation("%s:%s" % (v["kind"], v["fn"]), "%s: %s" % (conv.WHAT[v["kind"]], v["msg"]), v["where"],
                          [what, "input %s" % v["input"]] + v["stack"] + ["needs %s" % v["goal"]])
    rep.level = "proof"
    n = sum(tot.values())
    rep.coverage = {"obligations": n + len(rep.undecided) + len(rep.violations), "discharged": n, "by_kind": tot, "analyses": per,
                    "functions_with_obligations": sorted(fns),
                    "rule": "every overflow, division, bounds and unreachable assertion of the debug MIR, and every unchecked operation, holds for all inputs; "
                            "no panicking call is reachable",
                    "trusted_base": ["rustc MIR", "engine/interp.py, prover.py", "models of vector intrinsics and std: engine/models.py"]}
    rep.assumptions = ["default features", "slices have at most isize::MAX bytes"]
