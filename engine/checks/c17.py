"""C17: packed RGB conversions move each component, unchanged, to its place."""
import common
import conv
import pix
import ref
import transfer
from terms import *


def job(ctx, c):
    f = transfer.Functions(ctx, c)
    vio, und = [], list(f.und)
    cnt = {"bytes": f.nbytes, "functions": 0, "exact": 0}
    sch, dch = ref.ORDER[c[0][0]], ref.ORDER[c[1][0]]
    for s, im in f.images.items():
        where = conv.label(c, s)
        seen = set()
        for b in im.bytes():
            comp = dch[b.ch]
            want = K(255) if comp == "A" else load("px", K(pix.code(0, 0, 0, sch.index(comp))))
            k = (b.ch, b.term)
            if k in seen:
                continue
            seen.add(k)
            cnt["functions"] += 1
            if b.term is want:
                cnt["exact"] += 1
                continue
            d = pix.differ(want, b.term)
            if d is None:
                cnt["exact"] += 1
                continue
            text = "%s is not the source's %s" % (comp, comp) if comp != "A" else "alpha is not 255"
            if d is False:
                # a byte of another pixel, or of an unknown place
                loads = [a for a in deep_atoms(b.term) if KIND[a] == "load"]
                inner = set()
                for a in loads:
                    inner |= deep_atom(a)
                if any(KIND[a] in ("in", "ctr", "opq") and a not in inner for a in deep_atoms(b.term)):
                    und.append("%s, %s: %s: value not decided" % (b.ev.where, where, comp))
                    continue
                bad = None
                for a, what, dd in b.far:
                    x = load("far " + DATA[a][0], DATA[a][1])
                    ca = next(iter(x.atoms))
                    if ca not in loads or pix.depends(b.term, ca, loads) is None:
                        continue
                    if dd is None:
                        bad = {} if "dst" in str(what) else None
                        inp = pix.feasible(im, b) if bad is not None else None
                    else:
                        inp = None
                        for more in ([ge(-dd[0] - 1)], [ge(dd[0] - 1)], [ge(-dd[1] - 1)], [ge(dd[1] - len(sch))]):
                            inp = pix.feasible(im, b, more)
                            if inp:
                                break
                    if inp:
                        bad = inp
                        break
                if bad is None:
                    und.append("%s, %s: %s: value not decided" % (b.ev.where, where, comp))
                    continue
                vio.append({"fn": b.ev.fn, "where": b.ev.where, "text": text, "label": where, "input": bad, "px": "a byte of another pixel"})
                continue
            inp = pix.feasible(im, b)
            if inp is None:
                und.append("%s, %s: %s, at an address not shown reachable" % (b.ev.where, where, text))
                continue
            vio.append({"fn": b.ev.fn, "where": b.ev.where, "text": text, "label": where, "input": inp, "px": "source bytes %s, value %s" % (f.inputs(d), f.show(b.term)[:100])})
        for i, comp in enumerate(dch):
            if not any(k[0] == i for k in seen) and not im.und:
                vio.append({"fn": common.name(c), "where": conv.entry(ctx, c, s), "text": "%s is never written" % comp, "label": where, "input": {}, "px": ""})
    return cnt, vio, und


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    rep.level = "proof"
    tot = {}
    n = 0
    for j, r, err in ctx.map(job, list(common.PACKED)):
        if r is None:
            rep.undecide("%s: %s" % (common.name(j), err))
            continue
        n += 1
        cnt, vio, und = r
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        for u in sorted(set(und))[:20]:
            rep.undecide(u)
        for v in vio:
            rep.violation("%s:%s" % (v["fn"], v["text"]), v["text"], v["where"], [v["label"], "reached with %s" % v["input"], v["px"]])
    rep.coverage = dict(tot, conversions=n, sets=list(common.SETS),
                        rule="the value stored for every component of every pixel is that component of the same source pixel, alpha is 255",
                        trusted_base=["rustc MIR", "engine/interp.py, models.py (intrinsics), terms.py, pix.py"])
    rep.assumptions = ["default features"]
