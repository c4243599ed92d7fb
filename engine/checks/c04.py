"""C04: an error outcome carries no write to a destination buffer."""
import conv
import common
import front
import witness
from interp import Unsupported
from terms import *


def job(ctx, j):
    c, s, x = j
    r = conv.Run(ctx, conv.tuplify(c), s, x, light=True)
    I = ctx.E.I
    vio, und = [], []
    n = {"outcomes": 0, "error_outcomes": 0, "writes_in_successes": 0, "obligations": 0, "discharged": 0}
    for st, k in r.classify():
        n["outcomes"] += 1
        dst = [e for e in st.ev if e.region.startswith("dst")]
        if k == "ok":
            n["writes_in_successes"] += len(dst)
            continue
        n["error_outcomes"] += 1
        if k is None:
            und.append("%s: result is not understood" % conv.label(c, s))
            continue
        if not dst:
            n["obligations"] += 1
            n["discharged"] += 1
        done = False
        for e in dst:
            n["obligations"] += 1
            facts = list(st.facts) + list(e.facts)
            for atom, trip, inv in e.loops:
                facts.append(ge(trip - 1))
            if I.pr.infeasible(facts):
                n["discharged"] += 1
                continue
            if done:
                continue
            w = witness.search(facts, [], 1, restarts=30, steps=300)
            ok = confirm(ctx, c, s, x, w[0]) if w else None
            if w and (ok or (ok is None and w[1])):
                vio.append((k, e.where, conv.inputs_of(w[0]), bool(ok)))
                done = True
            else:
                und.append("%s: %s reached with a write at %s before it" % (conv.label(c, s), k, e.where))
    return n, vio, und


def confirm(ctx, c, s, x, env):
    conc = conv.complete(env)
    if conc["width"] * conc["height"] > 5000:
        return None
    I = ctx.E.I
    old, I.UNROLL = I.UNROLL, 1 << 20
    try:
        r = conv.Run(ctx, conv.tuplify(c), s, x, conc)
        for st, k in r.classify():
            if k not in ("ok", None):
                return any(e.region.startswith("dst") for e in st.ev)
        return False
    except Unsupported:
        return None
    finally:
        I.UNROLL = old


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    jobs = conv.jobs_all()
    if ctx.tier == "thorough":
        jobs += conv.jobs_all(strides=((False, False), (True, False), (False, True)))
    else:
        jobs += conv.jobs_all(colors=("Bt601",), strides=((False, False),))
    tot, seen = {}, 0
    for j, r, err in ctx.map(job, jobs, conv.group):
        c, s, x = j
        if r is None:
            rep.undecide("%s strides %s: %s" % (conv.label(c, s), x, err))
            continue
        seen += 1
        n, vio, und = r
        for k, m in n.items():
            tot[k] = tot.get(k, 0) + m
        for u in und:
            rep.undecide(u)
        for k, where, w, ok in vio:
            rep.violation("%s:%s" % (common.name(c), where), "destination written before the error %s" % k, where,
                          ["conversion %s strides %s" % (conv.label(c, s), x), "input %s" % w])
    if tot.get("error_outcomes", 0) == 0 or tot.get("writes_in_successes", 0) == 0:
        rep.undecide("no error outcome or no write was seen")
    rep.level = "proof"
    rep.coverage = dict(tot, conversions=seen,
                        rule="on each path of convert_image that returns an error, no store to a destination buffer precedes the return",
                        trusted_base=["rustc MIR", "engine/interp.py, prover.py", "models of vector intrinsics: engine/models.py"])
    rep.assumptions = ["default features"]
