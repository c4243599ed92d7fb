"""C07: a written byte is a function of the matching source pixel or block only."""
import common
import conv
import pix
import ref
import transfer
from terms import *


def job(ctx, c):
    f = transfer.Functions(ctx, c)
    vio, und = [], list(f.und)
    cnt = {"bytes": f.nbytes, "source_bytes_matched": 0, "functions": 0, "alpha_functions": 0}
    for s, im in f.images.items():
        where = conv.label(c, s)

        def report(b, text, extra=(), inp=None):
            inp = inp or pix.feasible(im, b)
            if inp is None:
                und.append("%s, %s: %s, at an address not shown reachable" % (b.ev.where, where, text))
            else:
                vio.append({"fn": b.ev.fn, "where": b.ev.where, "text": text, "label": where, "input": inp, "extra": list(extra)})
        seen = {}
        for b in im.bytes():
            loads = [a for a in deep_atoms(b.term) if KIND[a] == "load"]
            px = [a for a in loads if DATA[a][0] == "px"]
            cnt["source_bytes_matched"] += len(px)
            inner = set()
            for a in loads:
                inner |= deep_atom(a)
            # conditions the store is under that depend on pixel values
            for g in b.ev.facts:
                if fdata(g) and g not in b.state.fset:
                    und.append("%s, %s: a store depends on a pixel value" % (b.ev.where, where))
            k = (b.plane.i, b.ch, b.term)
            if k in seen:
                continue
            seen[k] = b
            cnt["functions"] += 1
            name = "%s of %s" % (b.plane.ch[b.ch], b.plane.name)
            others = [a for a in deep_atoms(b.term) if KIND[a] in ("in", "ctr", "opq") and a not in inner]
            if others:
                # does the value change with a dimension, a counter or an unknown value?
                if any(KIND[a] == "opq" for a in others):
                    und.append("%s, %s: %s depends on a value that was not followed" % (b.ev.where, where, name))
                elif not positional(im, b, others, loads, report, name):
                    und.append("%s, %s: %s may depend on the position or the size" % (b.ev.where, where, name))
                continue
            # the matching pixel, and no other
            for a, what, d in b.far:
                ca = atom_of(b, a)
                if ca is None or ca not in loads:
                    continue        # cancelled out
                if isinstance(what, str) or d is None:
                    if what.endswith("of dst%d" % b.plane.buf) or "dst" in what:
                        if pix.depends(b.term, ca, loads) is not None:
                            report(b, "%s depends on the previous contents of the destination" % name)
                            break
                    und.append("%s, %s: a source address was not understood" % (b.ev.where, where))
                    break
                # not matching for all inputs: find some for which it does not
                dy, dc, ny, nc = d
                if pix.depends(b.term, ca, loads) is None:
                    und.append("%s, %s: %s mentions a source byte it may not depend on" % (b.ev.where, where, name))
                    break
                inp = None
                for more in ([ge(-dy - 1)], [ge(dy - ny)], [ge(-dc - 1)], [ge(dc - nc)]):
                    inp = pix.feasible(im, b, more)
                    if inp:
                        break
                if inp:
                    report(b, "%s depends on a byte of %s that does not belong to its pixel" % (name, what.name),
                           ["%s rows and %s bytes from the matching sample" % (show(dy)[:80], show(dc)[:80])], inp)
                else:
                    und.append("%s, %s: %s: source byte not shown to match" % (b.ev.where, where, name))
                break
            # source alpha
            for k, a in pix.variables(b.term) or ():
                p, dy, dx, ch = pix.decode(k)
                if im.src[p].ch[ch] == "A" and pix.depends(b.term, a, loads) is not None:
                    report(b, "%s depends on the source alpha" % name)
            if b.plane.ch[b.ch] == "A":
                cnt["alpha_functions"] += 1
                if b.term.c != 255:
                    if b.term.c is not None or pix.differ(b.term, K(255)) not in (None, False):
                        report(b, "alpha is not 255", [f.show(b.term)[:200]])
                    elif pix.differ(b.term, K(255)) is False:
                        und.append("%s, %s: alpha not shown to be 255" % (b.ev.where, where))
        # one function per channel, wherever the pixel is
        by = {}
        for (p, ch, t), b in seen.items():
            by.setdefault((p, ch), []).append(b)
        for k, bs in by.items():
            t0 = bs[0].term
            for b in bs[1:]:
                d = pix.differ(t0, b.term)
                if d is None:
                    continue
                name = "%s of %s" % (b.plane.ch[b.ch], b.plane.name)
                if d is False:
                    if not b.far and not bs[0].far:
                        und.append("%s, %s: %s may depend on the position" % (b.ev.where, where, name))
                else:
                    i0 = pix.feasible(im, bs[0])
                    if i0 is not None:
                        report(b, "%s depends on the position of the pixel" % name, ["source bytes %s" % f.inputs(d), "also computed at %s" % bs[0].ev.where])
    return cnt, vio, und


def atom_of(b, a):
    """The atom that a stands for after renaming (far loads keep their address)."""
    r, off = DATA[a]
    x = load("far " + r, off)
    return next(iter(x.atoms)) if x.t else None


def positional(im, b, others, loads, report, name):
    """Two values of the same pixel at different positions or sizes."""
    import witness
    facts = pix.within(b.state, b.ev)
    env = {}
    vals = []
    for seed in range(6):
        w = witness.search(facts, [], seed + 1, restarts=10, steps=200)
        if not w or not w[1]:
            continue
        raw = w[0]
        at = {}
        ok = True
        for a in others:
            n = DATA[a] if KIND[a] == "in" else a
            v = raw.get(n, raw.get(DATA[a] if not isinstance(DATA[a], tuple) else a))
            if v is None:
                ok = False
                break
            at[a] = v
        if not ok:
            continue
        e = {a: 77 for a in loads}
        e.update(at)
        try:
            vals.append((int(pix.evaluate(b.term, e)), w[0]))
        except Exception:
            return False
    if len({v for v, _ in vals}) > 1:
        report(b, "%s depends on the position or the size of the image" % name, ["values %s" % sorted({v for v, _ in vals})], conv.inputs_of(vals[0][1]))
        return True
    return False


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    rep.level = "proof"
    tot = {}
    n = 0
    for j, r, err in ctx.map(job, transfer.jobs(), transfer.group):
        if r is None:
            rep.undecide("%s: %s" % (common.name(j), err))
            continue
        n += 1
        cnt, vio, und = r
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        for u in sorted(set(und))[:20]:
            rep.undecide(u)
        for v in vio:
            rep.violation("%s:%s" % (v["fn"], v["text"]), v["text"], v["where"], [v["label"], "reached with %s" % v["input"]] + v["extra"])
    rep.coverage = dict(tot, conversions=n, sets=list(common.SETS),
                        rule="in the value of every stored byte each source byte lies in the pixel (or block) the destination byte belongs to; no counter, dimension, stride, "
                             "destination byte or source alpha remains; one function per channel; alpha is 255",
                        trusted_base=["rustc MIR", "engine/interp.py, models.py (intrinsics), terms.py, pix.py"])
    rep.assumptions = ["default features"]
