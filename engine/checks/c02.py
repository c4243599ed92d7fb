"""C02: a conversion succeeds exactly when its buffers are large enough."""
import conv
import front
import ref
import witness
import common
from terms import *
from roots import U64, I63


def side_spec(W, I, side, pf, n, given):
    """(assumption on strides, requirement) as formulas."""
    pre = side[0]
    assume, req = [], []
    nbuf = I.arrays[side + "_buffers"]["n"]
    nstr = I.arrays[side + "_strides"]["n"]
    req.append(ge(nbuf - n))
    if given:
        req.append(ge(nstr - n))
    need = {}
    for b, ch, sx, sy, at in ref.planes(pf, n):
        row, rows = fdiv(W.w, sx) * len(ch), fdiv(W.h, sy)
        if given:
            s = W.inp("%sstride%d" % (pre, b), 0, U64)
            S = phi(ne(s), s, row)
            assume.append(disj([eq(s), ge(s - row)]))
        else:
            S = row
        ln = I.regions["%s%d" % (side, b)]["len"]
        start = need.get(b, ZERO)
        end = S * rows
        # all but the last row of what a buffer holds take a full stride
        req.append(ge(ln - start - S * (rows - 1) - row))
        need[b] = start + end
    return assume, req


def cases(facts, limit=400):
    """Disjunctive normal form of the facts, as lists of literals."""
    lits, ors = [], []
    todo = list(facts)
    while todo:
        f = todo.pop()
        if f is True:
            continue
        if f is False:
            return []
        if f[0] == "and":
            todo += f[1]
        elif f[0] == "or":
            ors.append(f)
        else:
            lits.append(f)
    out = [(frozenset(lits), tuple(lits))]
    for f in ors:
        new = []
        for s, ls in out:
            if any(g in s for g in f[1]):
                new.append((s, ls))
                continue
            for g in f[1]:
                if g is False or (g[0] in ("ge", "eq", "ne") and neg(g) in s):
                    continue
                for sub in cases([g]):
                    if any(neg(x) in s for x in sub):
                        continue
                    new.append((s | set(sub), ls + tuple(x for x in sub if x not in s)))
        out = new
        if len(out) > limit:
            raise ValueError("too many cases")
    return [ls for _, ls in out]


def strides_of(fs):
    out = set()
    for f in fs:
        for a in fallatoms(f):
            if KIND[a] == "in" and "stride" in str(DATA[a]):
                out.add(a)
    return sorted(out)


def refute(pr, facts):
    """The facts have no solution: every case, and automatic and custom strides apart."""
    try:
        cs = cases(facts)
    except ValueError:
        return pr.infeasible(tuple(facts))
    for ls in cs:
        if not refute1(pr, list(ls)):
            return False
    return True


def refute1(pr, ls):
    st = strides_of(ls)
    phis = {}
    for f in ls:
        for a in fallatoms(f):
            if KIND[a] == "phi":
                f0 = DATA[a][0]
                at = fatoms(f0)
                if len(at) == 1 and next(iter(at)) in st:
                    phis.setdefault(next(iter(at)), set()).add(a)
    split = sorted(phis)
    if len(split) > 5:
        split = split[:5]
    for bits in range(1 << len(split)):
        mp, extra = {}, []
        for i, x in enumerate(split):
            if bits >> i & 1:
                mp[x] = ZERO
            else:
                extra.append(ge(A(x) - 1))
                for a in phis[x]:
                    f, u, v = DATA[a]
                    mp[a] = u if f == ne(A(x)) else v
        fs = [substf(f, mp) for f in ls] + extra
        if False in fs:
            continue
        if not pr.infeasible(tuple(f for f in fs if f is not True)):
            return False
    return True


def job(ctx, j):
    c, s, strides = j
    I = ctx.E.I
    r = conv.Run(ctx, c, s, strides, light=True)
    W = r.W
    (a, ac, n), (b, bc, m) = c
    a1, r1 = side_spec(W, I, "src", a, n, strides[0])
    a2, r2 = side_spec(W, I, "dst", b, m, strides[1])
    good = conj([front.wellformed(a, K(n), W.w, W.h), front.wellformed(b, K(m), W.w, W.h)])
    assume = [x for x in [good] + a1 + a2 if x is not True]
    empty = disj([eq(W.w), eq(W.h)])
    ok = disj([empty] + [conj(r1 + r2)])
    cnt = {"obligations": 0, "discharged": 0, "paths": 0}
    vio, und = [], []
    seen = set()
    for st, k in r.classify():
        cnt["paths"] += 1
        seen.add(k)
        facts = I.pr.add(st.facts, assume)
        if I.pr.infeasible(facts, 1):
            continue
        if k == "ok":
            goals = [disj([empty, x]) for x in r1 + r2]
            text = "a buffer that is too small is accepted"
        elif k == "NotEnoughData":
            goals = [neg(ok)]
            text = "buffers that are large enough are rejected"
        elif k == "InvalidValue":
            goals = [neg(good)]
            facts = st.facts
            text = "a well-formed request is rejected with InvalidValue"
        else:
            goals = [False]
            text = "the result is %s" % k
        for g in goals:
            cnt["obligations"] += 1
            if g is True or (k == "ok" and I.pr.prove(facts, g, 2)) or refute(I.pr, list(facts) + ([] if g is False else [neg(g)])):
                cnt["discharged"] += 1
                continue
            if k is None:
                und.append("%s: unknown result" % conv.label(c, s))
                continue
            w = witness.search(facts, [] if g is False else [neg(g)], 1, restarts=40)
            conf = None
            if w:
                conf = confirm(ctx, c, s, strides, w[0], k, goals)
            if w and (conf or (conf is None and w[1])):
                vio.append({"text": text, "input": conv.inputs_of(w[0]), "confirmed": bool(conf), "facts": [showf(f) for f in st.facts][-14:]})
                break
            und.append("%s: %s? not shown impossible: %s" % (conv.label(c, s), text, showf(neg(g))[:300] if g is not False else ""))
    if "ok" not in seen:
        und.append("%s: no successful outcome" % conv.label(c, s))
    return cnt, vio, und


def confirm(ctx, c, s, strides, env, k, goals):
    """Does the analysis with these inputs give the same, wrong, result?"""
    conc = conv.complete(env)
    if conc["width"] * conc["height"] > 4096:
        return None
    I = ctx.E.I
    old = I.UNROLL
    I.UNROLL = 1 << 14
    try:
        r = conv.Run(ctx, c, s, strides, conc, light=True)
    except Exception:
        return None
    finally:
        I.UNROLL = old
    outs = r.classify()
    return len(outs) >= 1 and all(x == k for _, x in outs)


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    jobs = conv.jobs_all()
    more = ((False, False), (True, False), (False, True))
    jobs += conv.jobs_all(colors=common.COLORS if ctx.tier == "thorough" else ("Bt601",), strides=more if ctx.tier == "thorough" else more[:1])
    tot = {}
    P = ctx.E.P
    for j, r, err in ctx.map(job, jobs, conv.group):
        c, s, strides = j
        if r is None:
            rep.undecide("%s strides %s: %s" % (conv.label(c, s), strides, err))
            continue
        cnt, vio, und = r
        for k, x in cnt.items():
            tot[k] = tot.get(k, 0) + x
        for u in und:
            rep.undecide(u)
        for v in vio:
            rep.violation("%s:%s" % (common.name(c), v["text"]), v["text"], conv.entry(ctx, c, s),
                          ["conversion %s, strides given %s" % (conv.label(c, s), strides), "input %s" % v["input"]] + v["facts"])
    rep.level = "proof"
    rep.coverage = dict(tot, analyses=len(jobs), rule="each path: Ok => requirement, NotEnoughData => not requirement, for acceptable strides; no other result",
                        trusted_base=["rustc MIR", "engine/interp.py, prover.py", "engine/ref.py"])
    rep.assumptions = ["default features", "strides automatic or at least one row long"]
