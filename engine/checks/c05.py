"""C05: all instruction sets compute the same function of the same source bytes."""
import common
import conv
import pix
import transfer
from terms import *


def job(ctx, c):
    f = transfer.Functions(ctx, c)
    vio, und = [], list(f.und)
    cnt = {"bytes": f.nbytes, "functions": 0, "compared": 0, "exhaustive": 0}
    for k in sorted(f.cells):
        s0, t0 = f.reference(k)
        cnt["functions"] += len(f.cells[k])
        for t, by in f.cells[k].items():
            for s, b in by.items():
                cnt["compared"] += 1
                if t is t0:
                    continue
                d = pix.differ(t0, t)
                if d is None:
                    cnt["exhaustive"] += 1
                    continue
                what = "%s of %s differs from %s" % (f.channel(k), s, s0)
                if d is False and (b.far or pix.variables(t) is None):
                    # a source byte elsewhere: differs where that byte does
                    vs = pix.variables(t0)
                    far = [a for a, _, _ in b.far]
                    if vs is not None and far:
                        loads = [a for a in deep_atoms(t) if KIND[a] == "load"]
                        others = [a for a in deep_atoms(t) if KIND[a] in ("in", "ctr", "opq") and not any(a in deep_atom(x) for x in loads)]
                        fa = [a for a in loads if DATA[a][0] != "px"]
                        if not others and any(pix.depends(t, a, loads) is not None for a in fa):
                            d = {}
                if d is False:
                    und.append("%s, %s: %s not decided" % (b.ev.where, conv.label(c, s), what))
                    continue
                inp = pix.feasible(f.images[s], b)
                if inp is None:
                    und.append("%s, %s: %s, at an address not shown reachable" % (b.ev.where, conv.label(c, s), what))
                    continue
                vio.append({"fn": b.ev.fn, "where": b.ev.where, "text": what, "label": conv.label(c, s), "px": f.inputs(d), "input": inp,
                            "ref": f.show(t0)[:200], "got": f.show(t)[:200]})
    cells = set(f.cells)
    for s, im in f.images.items():
        have = {k for k in cells if any(s in by for by in f.cells[k].values())}
        if have != cells and not im.und:
            for k in sorted(cells - have):
                vio.append({"fn": common.name(c), "where": conv.entry(ctx, c, s), "text": "%s is never written by %s" % (f.channel(k), s), "label": conv.label(c, s),
                            "px": {}, "input": {}, "ref": "", "got": ""})
    return cnt, vio, und


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    rep.level = "proof"
    tot = {}
    n = 0
    for j, r, err in ctx.map(job, transfer.jobs(), transfer.group):
        if r is None:
            rep.undecide("%s: %s" % (common.name(j), err))
            continue
        n += 1
        cnt, vio, und = r
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        for u in und[:20]:
            rep.undecide(u)
        for v in vio:
            rep.violation("%s:%s" % (v["fn"], v["text"]), "the instruction sets disagree: " + v["text"], v["where"],
                          [v["label"], "reached with %s" % v["input"], "source bytes %s" % v["px"], "scalar: " + v["ref"], "here: " + v["got"]])
    rep.coverage = dict(tot, conversions=n, sets=list(common.SETS),
                        rule="every byte stored by any implementation, as a function of the source bytes named by their place in the image, is the same function in all of them",
                        trusted_base=["rustc MIR", "engine/interp.py, models.py (intrinsics), terms.py, pix.py"])
    rep.assumptions = ["default features"]
