"""C20: greys stay grey, black and white stay black and white, more luma is never
darker, and limited range stays limited.

Decided on the transfer functions of the stored bytes: a grey is a substitution
of one variable for the components (or of 128 for the chroma), after which a function
of at most one byte remains, whose 256 values are all known."""
import numpy as np
import common
import conv
import pix
import ref
import transfer
from terms import *


def letters(f, t):
    """[(atom, letter, (dy, dx))] of a function of source bytes, None for others."""
    vs = pix.variables(t)
    if vs is None:
        return None
    out = []
    for k, a in vs:
        p, dy, dx, ch = pix.decode(k)
        out.append((a, f.src[p].ch[ch], (dy, dx)))
    return out


def values(t):
    """All values of a function of at most one byte, or None."""
    vs = pix.variables(t)
    if vs is None or len(vs) > 1:
        return None
    if not vs:
        return np.full(256, t.c) if t.c is not None else np.broadcast_to(pix.evaluate(t, {}), (256,))
    return np.broadcast_to(pix.evaluate(t, {vs[0][1]: np.arange(256, dtype=np.int64)}), (256,))


def extreme(t, lo, hi):
    """None: t stays in lo..hi; an input for which it does not; False: not decided."""
    l, h = t.iv()
    if l is not None and h is not None and lo <= l and h <= hi:
        return None
    ats = [a for _, a in pix.variables(t)]
    if len(ats) <= 3:
        grids, full = pix.grid(ats), True
    else:
        m = pix.samples(len(ats), 1)
        grids, full = [{a: m[:, i].astype(np.int64) for i, a in enumerate(ats)}], False
    for env in grids:
        x = np.asarray(pix.evaluate(t, env))
        bad = np.argwhere((x < lo) | (x > hi))
        if len(bad):
            i = tuple(bad[0])
            return {a: int(np.broadcast_to(v, x.shape)[i]) for a, v in env.items()}, int(x[i])
    return None if full else False


def job(ctx, c):
    f = transfer.Functions(ctx, c)
    vio, und = [], list(f.und)
    cnt = {"functions": 0, "greys": 0, "ranges": 0}
    (sp, scs, _), (dp, dcs, _) = c
    fwd = dp in ref.YCC
    full = (dcs if fwd else scs).endswith("FR")
    black, white = (0, 255) if full else (16, 235)
    base = {}            # set -> the values of greys, shared by R, G and B

    def report(by, comp, text, detail):
        for s, b in sorted(by.items()):
            inp = pix.feasible(f.images[s], b)
            if inp is None:
                und.append("%s, %s: %s, at an address not shown reachable" % (b.ev.where, conv.label(c, s), text))
            else:
                vio.append({"fn": b.ev.fn, "where": b.ev.where, "comp": comp, "label": conv.label(c, s), "text": text, "detail": detail, "input": inp})

    for k in sorted(f.cells):
        comp = f.channel(k)
        if comp == "A":
            continue
        for t, by in f.cells[k].items():
            cnt["functions"] += 1
            s0, b0 = sorted(by.items())[0]
            at = "%s, %s" % (b0.ev.where, conv.label(c, s0))
            ls = letters(f, t)
            if ls is None:
                und.append("%s: %s depends on more than source bytes" % (at, comp))
                continue
            mp = {}
            if fwd:
                rep = {}
                for a, l, d in ls:
                    # every pixel a grey of its own for chroma; luma has one pixel
                    if l in "RGB":
                        rep.setdefault(d, a)
                        mp[a] = A(rep[d])
            else:
                for a, l, d in ls:
                    if l in "UV":
                        mp[a] = K(128)
            g = subst(t, mp)
            cnt["greys"] += 1
            if comp in "UV":
                if g.c != 128:
                    e = extreme(g, 128, 128)
                    if e is False:
                        und.append("%s: %s of a grey not shown to be 128" % (at, comp))
                    elif e is not None:
                        report(by, comp, "%s of a grey is %d, not 128" % (comp, e[1]), "greys %s" % sorted(e[0].values()))
                        continue
            else:
                v = values(g)
                if v is None:
                    und.append("%s: %s of a grey depends on more than one byte" % (at, comp))
                    continue
                ends = ((0, black), (255, white)) if fwd else ((black, 0), (white, 255))
                bad = [(x, int(v[x]), w) for x, w in ends if v[x] != w]
                if bad:
                    report(by, comp, "%s of %s is not kept" % (comp, "black" if bad[0][0] == ends[0][0] else "white"),
                           "%s is %d for %d, not %d" % (comp, bad[0][1], bad[0][0], bad[0][2]))
                    continue
                down = np.flatnonzero(np.diff(v) < 0)
                if len(down):
                    report(by, comp, "%s of a brighter grey is smaller" % comp, "%d for %d, %d for %d" % (v[down[0]], down[0], v[down[0] + 1], down[0] + 1))
                    continue
                if not fwd:
                    for e in sorted(by):
                        bc, bv = base.setdefault(e, (comp, v))
                        if (v != bv).any():
                            x = int(np.flatnonzero(v != bv)[0])
                            report({e: by[e]}, comp, "greys do not stay grey",
                                   "luma %d: %s is %d, %s is %d" % (x, bc, bv[x], comp, v[x]))
            if fwd and not full:
                cnt["ranges"] += 1
                lo, hi = (16, 235) if comp == "Y" else (16, 240)
                e = extreme(t, lo, hi)
                if e is False:
                    und.append("%s: %s not shown to stay in %d..%d" % (at, comp, lo, hi))
                elif e is not None:
                    report(by, comp, "%s leaves the range %d..%d" % (comp, lo, hi),
                           "%d for %s" % (e[1], f.inputs({DATA[a][1].c: v for a, v in e[0].items()})))
    return cnt, vio, und


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    rep.level = "proof"
    tot, n = {}, 0
    for j, r, err in ctx.map(job, transfer.jobs(packed=False), transfer.group):
        if r is None:
            rep.undecide("%s: %s" % (common.name(j), err))
            continue
        n += 1
        cnt, vio, und = r
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        for u in sorted(set(und))[:20]:
            rep.undecide(u)
        for v in vio:
            rep.violation("%s:%s:%s" % (v["fn"], v["comp"], v["label"].split(",")[0]), v["text"], v["where"],
                          [v["label"], v["detail"], "reached with %s" % v["input"]])
    rep.coverage = dict(tot, conversions=n, sets=list(common.SETS),
                        rule="R=G=B => chroma 128; chroma 128 => R=G=B; black and white kept; luma of greys monotone; limited range output inside 16..235 and 16..240",
                        trusted_base=["rustc MIR", "engine/interp.py, models.py (intrinsics), terms.py, pix.py"])
    rep.assumptions = ["default features"]
