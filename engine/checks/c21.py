"""C21: the layout of an image does not change its colours.

The transfer functions of all conversions of one colour space and direction are
written over component names (R, G, B, or Y, U, V of the sample a pixel uses)
instead of plane, channel and order, and compared across pixel formats."""
import common
import conv
import pix
import ref
import transfer
from terms import *

RGBYUV = "RGBYUV"


def canon(src, t):
    """t over component names, or None."""
    vs = pix.variables(t)
    if vs is None:
        return None
    mp = {}
    for k, a in vs:
        p, dy, dx, ch = pix.decode(k)
        l = src[p].ch[ch]
        if l == "A":
            return None
        mp[a] = load("comp", K((RGBYUV.index(l) * 4 + dy) * 4 + dx))
    return subst(t, mp)



def comps(t):
    return sorted(a for a in deep_atoms(t) if KIND[a] == "load" and DATA[a][0] == "comp")


def text(a):
    k = DATA[a][1].c
    return "%s(%d,%d)" % (RGBYUV[k // 16], k // 4 % 4, k % 4)


def differ(t, u):
    if t is u:
        return None
    ats = sorted(set(comps(t)) | set(comps(u)))
    # pix.differ works on image bytes: any distinct ones will do
    mp = {a: load("px", K(i)) for i, a in enumerate(ats)}
    d = pix.differ(subst(t, mp), subst(u, mp))
    if not d:
        return d
    return {text(ats[k]): v for k, v in d.items()}


def job(ctx, g):
    vio, und = [], []
    cnt = {"functions": 0, "compared": 0, "exhaustive": 0}
    refs = {}            # (set, component, subsampled) -> (term, conversion)
    for c in g:
        f = transfer.Functions(ctx, c)
        und += f.und
        (sp, _, sn), (dp, _, dn) = c
        for k in sorted(f.cells):
            comp = f.channel(k)
            if comp == "A":
                continue
            sub = ref.SUB[dp] if comp in "UV" else None
            for t, by in f.cells[k].items():
                cnt["functions"] += 1
                u = canon(f.src, t)
                flat = None
                if u is not None and comp in "UV":
                    # all pixels of the block of one colour
                    flat = subst(u, {a: load("comp", K(DATA[a][1].c // 16 * 16)) for a in comps(u)})
                for s, b in sorted(by.items()):
                    at = "%s, %s" % (b.ev.where, conv.label(c, s))
                    if u is None:
                        und.append("%s: %s depends on more than colour components" % (at, comp))
                        break
                    for key, v in (((s, comp, sub), u), ((s, comp, "flat"), flat)):
                        if v is None:
                            continue
                        t0, c0 = refs.setdefault(key, (v, c))
                        cnt["compared"] += 1
                        if t0 is v:
                            continue
                        d = differ(t0, v)
                        if d is None:
                            cnt["exhaustive"] += 1
                            continue
                        what = "%s of %s%s to %s differs from %s to %s" % (comp, "a flat block of " if key[2] == "flat" else "", sp, dp, c0[0][0], c0[1][0])
                        if d is False:
                            und.append("%s: %s not decided" % (at, what))
                            continue
                        inp = pix.feasible(f.images[s], b)
                        if inp is None:
                            und.append("%s: %s, at an address not shown reachable" % (at, what))
                            continue
                        vio.append({"fn": b.ev.fn, "where": b.ev.where, "text": what, "label": conv.label(c, s), "px": d, "input": inp})
                        break
    return cnt, vio, und


def groups():
    o = {}
    for c in transfer.jobs(packed=False):
        fwd = c[1][0] in ref.YCC
        o.setdefault((fwd, c[1][1] if fwd else c[0][1]), []).append(c)
    return [sorted(g) for g in o.values()]


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    rep.level = "proof"
    tot, n = {}, 0
    for j, r, err in ctx.map(job, groups()):
        if r is None:
            rep.undecide("%s: %s" % (", ".join(common.name(c) for c in j)[:80], err))
            continue
        n += len(j)
        cnt, vio, und = r
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        for u in und[:20]:
            rep.undecide(u)
        for v in vio:
            rep.violation("%s:%s" % (v["fn"], v["text"]), v["text"], v["where"],
                          [v["label"], "components %s" % v["px"], "reached with %s" % v["input"]])
    rep.coverage = dict(tot, conversions=n, sets=list(common.SETS),
                        rule="per colour space and instruction set, each component is the same function of the components of its pixel or block in every conversion that computes it, and chroma of a block of one colour the same at every subsampling",
                        trusted_base=["rustc MIR", "engine/interp.py, models.py (intrinsics), terms.py, pix.py"])
    rep.assumptions = ["default features"]
