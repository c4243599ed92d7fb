"""C03: exactly the destination image is written."""
import common
import conv
import cover
import pix
import ref
import transfer
import witness
from terms import *

WIDTHS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 18, 20, 22, 24, 26, 28, 30, 31, 32, 33, 34, 36, 38, 40, 42, 44, 46, 48, 50,
          52, 54, 56, 58, 60, 62, 63, 64, 65, 66, 68, 72, 76, 80, 88, 94, 95, 96, 97, 98, 104, 112, 120, 126, 127, 128, 129, 130]
HEIGHTS = [1, 2, 3, 4, 6]


def job(ctx, j):
    c, s = j
    im = pix.Image(ctx, c, s, light=True)
    where = conv.label(conv.tuplify(c), s)
    vio, und = [], []
    cnt = {"stores": 0, "contained": 0, "planes": 0, "rows_covered": 0, "intervals": 0, "source_stores": 0}
    v, u = conv.settle(ctx, conv.tuplify(c), s, (True, True), ("srcwrite",), im.run.ob)
    for x in v:
        vio.append({"fn": x["fn"], "where": x["where"], "text": "a source buffer is written", "label": where, "input": x["input"], "plane": "source"})
    und += u
    und += ["%s: %s" % (where, t) for t in im.und]
    pr = im.I.pr
    for st in im.ok:
        bad = []
        try:
            cov = cover.Coverage(im, st)
        except pix.Nosplit as x:
            und.append("%s: an address is not understood (%s)" % (where, x))
            continue
        # inside the image
        for e in st.ev:
            facts = pix.within(st, e)
            p, R, C = im.place(im.dst, e.region, e.off, facts)
            cnt["stores"] += 1
            facts = facts + (ge(p.S - p.row),)
            goals = [ge(R), ge(p.rows - 1 - R), ge(C), ge(p.row - C - len(e.terms))]
            fail = next((g for g in goals if not pr.prove(facts, g)), None)
            if fail is None:
                cnt["contained"] += 1
            else:
                w = witness.search(facts, [neg(fail)], 1, restarts=30, steps=300)
                if w and w[1]:
                    vio.append({"fn": e.fn, "where": e.where, "text": "bytes outside the image are written", "label": where,
                                "input": conv.inputs_of(w[0]), "plane": p.name, "extra": ["row %s, column %s, %d bytes" % (show(R)[:80], show(C)[:80], len(e.terms))]})
                else:
                    bad.append(("%s: a store is not shown to be inside the image" % e.where, facts, [neg(fail)]))
        # all of the image
        for p in im.dst:
            cnt["planes"] += 1
            for q, facts, pos in cov.plane(p):
                bad.append(("some bytes of %s (row %s) are not shown to be written" % (p.name, show(q)), facts, [], (p, q, pos)))
            cnt["rows_covered"] += 1
        cnt["intervals"] += cov.nint
        if bad:
            r = hunt(im, st, bad, cov.fam)
            if r is None:
                und += ["%s: %s" % (where, b[0]) for b in bad]
            else:
                (kind, p, y, x), inp = r
                ev = [f.e for f in cov.fam[p.i]]
                vio.append({"fn": ev[-1].fn if ev else "convert_image", "where": ev[-1].where if ev else conv.entry(ctx, conv.tuplify(c), s),
                            "text": "row %d, byte %d of %s is %s" % (y, x, p.name, "not written" if kind == "missed" else "written although it is not part of the image"),
                            "label": where, "input": inp, "plane": p.name})
    return cnt, vio, und


def hunt(im, st, bad, fam):
    """Inputs for which the summary, evaluated exactly, misses or exceeds the image."""
    for text, facts, more, *gap in bad:
        for seed in (1, 2):
            w = witness.search(facts, more, seed, restarts=20, steps=200)
            if not w or not w[1]:
                continue
            raw = conv.inputs_of(w[0])
            if gap:
                r = point(im, st, fam, w[0], raw, *gap[0])
                if r:
                    return r
            wd, ht = raw.get("width"), raw.get("height", 2)
            if wd and wd * ht < 60000:
                r = attempt(im, st, wd, ht, raw)
                if r:
                    return r
    for wd in WIDTHS:
        for ht in HEIGHTS:
            r = attempt(im, st, wd, ht, None)
            if r:
                return r
    return None


def point(im, st, fam, w, raw, p, q, pos):
    """The byte at the gap, evaluated exactly for the inputs of the witness."""
    wd, ht = raw.get("width"), raw.get("height", 2)
    if not wd:
        return None
    W = witness.Env(None)
    try:
        W.v = {a: w[witness.nm(a)] for a in witness.free_atoms([eq(q), eq(pos)])}
        y, x = W.poly(q), W.poly(pos)
    except KeyError:
        return None
    for strides in (1, 0):
        env = cover.assignment(im, st, wd, ht, strides)
        for a in list(env):
            n = DATA[a]
            if n in ("snbuf", "dnbuf", "snstr", "dnstr") and n in raw:
                env[a] = raw[n]
        if cover.holds(st, env) is not True:
            continue
        W.v = dict(env)
        W.memo.clear()
        row, rows = W.poly(p.row), W.poly(p.rows)
        if not (0 <= x < row and 0 <= y < rows):
            continue
        for c in (x, row - 1, x + 1, (x + row) // 2):
            if c < row and cover.covered(im, st, env, p, y, c, fam) is False:
                return ("missed", p, y, c), {DATA[a]: v for a, v in env.items()}
    return None


def attempt(im, st, wd, ht, raw):
    for strides in (1, 0):
        env = cover.assignment(im, st, wd, ht, strides)
        if raw:
            for a in list(env):
                n = DATA[a]
                if n in ("snbuf", "dnbuf", "snstr", "dnstr") and n in raw:
                    env[a] = raw[n]
        if raw is None:
            # plane counts that satisfy the path
            ok = False
            for nb in (1, 2, 3):
                for mb in (1, 2, 3):
                    for a in env:
                        if DATA[a] in ("snbuf", "snstr"):
                            env[a] = nb
                        elif DATA[a] in ("dnbuf", "dnstr"):
                            env[a] = mb
                    if cover.holds(st, env):
                        ok = True
                        break
                if ok:
                    break
            if not ok:
                continue
        r = cover.compare(im, st, env)
        if r:
            return r, {DATA[a]: v for a, v in env.items()}
    return None


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    rep.level = "proof"
    jobs = [(c, s) for c, s, x in conv.jobs_all()]
    tot = {}
    n = 0
    for j, r, err in ctx.map(job, jobs, conv.group):
        if r is None:
            rep.undecide("%s, %s: %s" % (common.name(j[0]), j[1], err))
            continue
        n += 1
        cnt, vio, und = r
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        for u in sorted(set(und))[:20]:
            rep.undecide(u)
        for v in vio:
            rep.violation("%s:%s" % (v["fn"], v["text"].split(" is ")[-1]), v["text"], v["where"], [v["label"], "with %s" % v["input"]] + v.get("extra", []))
    rep.coverage = dict(tot, analysed=n, conversions=len(jobs) // 3, sets=list(common.SETS),
                        rule="every store lies inside a row of its plane; for an arbitrary row of every plane the stores' column intervals, chained from 0, reach the end of the row; no store goes to a source buffer",
                        trusted_base=["rustc MIR", "engine/interp.py, models.py (intrinsics), terms.py, prover.py, cover.py"])
    rep.assumptions = ["default features"]
