"""Entailment between polynomial constraints.

A goal p >= 0 follows from facts f_i >= 0 when p = sum(l_i * f_i) + c with
l_i >= 0 and c > -1 (p is integer valued).  The multipliers are found with a
linear program and the certificate is re-checked in exact rational arithmetic,
so the linear program is not trusted.  Nonlinear terms are linearised; products
of facts with nonnegative atoms are added where monomials call for them.
Disjunctive facts are split on, to a bounded depth.
"""
from fractions import Fraction
from math import gcd
import numpy as np
from scipy.optimize import linprog
from terms import *

HUGE = 1 << 33
STATS = {"greedy": 0, "queries": 0, "lp": 0, "memo": 0, "split": 0, "fail": 0}

_defs = {}


def atom_facts(a):
    """Constraints that define atom a (without its range)."""
    r = _defs.get(a)
    if r is None:
        k, d = KIND[a], DATA[a]
        p = A(a)
        r = []
        if k == "fdiv":
            q, c = d
            r = [("ge", q - p.scale(c)), ("ge", p.scale(c) + (c - 1) - q)]
        elif k == "fdivs":
            x, y = d
            r = [("ge", x - p * y), disj([eq(y), ("ge", p * y + y - 1 - x)])]
        elif k == "phi":
            f, x, y = d
            r = [disj([conj([f, eqf(p - x)]), conj([neg(f), eqf(p - y)])])]
        elif k == "b2i":
            r = [disj([conj([d, eqf(p - 1)]), conj([neg(d), eqf(p)])])]
        elif k == "bor":
            r = [("ge", p - d[0]), ("ge", p - d[1]), ("ge", d[0] + d[1] - p)]
        elif k == "bxor":
            r = [("ge", d[0] + d[1] - p)]
        elif k == "band":
            r = [("ge", d[0] - p), ("ge", d[1] - p)]
        elif k == "mulq":
            r = []
        r = [x for x in r if x is not True and not (x[0] == "ge" and x[1].c is not None)]
        _defs[a] = r
    return r


def eqf(p):
    """Equation as a fact without interval folding on p itself."""
    if p.c is not None:
        return p.c == 0
    return ("eq", p)


def norm_ne(f):
    p = f[1]
    lo, hi = p.iv()
    if lo is not None and lo >= 0:
        return ge(p - 1)
    if hi is not None and hi <= 0:
        return ge(-p - 1)
    return None


LPOPT = {"maxiter": 2000, "time_limit": 3.0}


class Prover:
    def __init__(self):
        self.memo = {}
        self.lpmemo = {}
        self.cmemo = {}

    # public ------------------------------------------------------------------
    def cheap(self, facts, goal):
        """Sound but very incomplete proof attempt."""
        if goal is True or goal in facts:
            return True
        if goal is False:
            return False
        if goal[0] == "and":
            return all(self.cheap(facts, g) for g in goal[1])
        if goal[0] == "ge":
            key = (goal[1], facts)
            r = self.cmemo.get(key)
            if r is None:
                r = self.cmemo[key] = greedy(facts, goal[1], 40)
            return r
        return False

    def prove(self, facts, goal, depth=5):
        if goal is True:
            return True
        STATS["queries"] += 1
        if goal is False:
            return self.infeasible(facts, depth)
        if goal[0] == "and":
            return all(self.prove(facts, g, depth) for g in goal[1])
        if goal in facts:
            return True
        if goal[0] == "or":
            # prove one disjunct assuming the others fail
            for i, g in enumerate(goal[1]):
                others = [neg(h) for j, h in enumerate(goal[1]) if j != i]
                if self.prove(self.add(facts, others), g, depth):
                    return True
            return False
        if goal[0] == "eq":
            return self.prove(facts, ge(goal[1]), depth) and self.prove(facts, ge(-goal[1]), depth)
        if goal[0] == "ne":
            if self.prove(facts, ge(goal[1] - 1), depth):
                return True
            if self.prove(facts, ge(-goal[1] - 1), depth):
                return True
            return self.infeasible(self.add(facts, [neg(goal)]), depth)
        return self._ge(facts, goal[1], depth)

    def infeasible(self, facts, depth=5):
        if False in facts:
            return True
        return self._ge(facts, K(-1), depth)

    @staticmethod
    def add(facts, more):
        out = list(facts)
        s = set(facts)
        for f in more:
            if f is True:
                continue
            if f is not False and f[0] == "and":
                for g in f[1]:
                    if g not in s:
                        s.add(g)
                        out.append(g)
            elif f not in s:
                s.add(f)
                out.append(f)
        return tuple(out)

    # internals -----------------------------------------------------------------
    def _ge(self, facts, p, depth):
        lo, _ = p.iv()
        if lo is not None and lo >= 0:
            return True
        rel = self._relevant(facts, p)
        if rel is True:
            return True
        key = (p, frozenset(rel))
        r = self.memo.get(key)
        if r is not None and (r[0] or r[1] >= depth):
            STATS["memo"] += 1
            return r[0]
        v = self._search(rel, p, depth)
        self.memo[key] = (v, depth)
        if not v:
            STATS["fail"] += 1
        return v

    def _relevant(self, facts, p):
        """Facts connected with p (all of them when p is constant)."""
        out = []
        if p.c is not None:
            return tuple(f for f in facts if f is not True)
        work = set(deep_atoms(p))
        rest = [f for f in facts if f is not True]
        for f in rest:
            if f is False:
                return True
        changed = True
        rounds = 0
        while changed and rest and rounds < 6:
            changed = False
            rounds += 1
            nxt = []
            add = set()
            for f in rest:
                fa = fallatoms(f)
                if fa & work:
                    out.append(f)
                    add |= fa
                    changed = True
                else:
                    nxt.append(f)
            work |= add
            rest = nxt
        return tuple(out)

    def _units(self, facts):
        """Split into literals and disjunctions, simplifying the latter."""
        lits, ors = [], []
        seen = set()
        queue = list(facts)
        while queue:
            f = queue.pop()
            if f is True or f in seen:
                continue
            if f is False:
                return None, None
            seen.add(f)
            if f[0] == "and":
                queue.extend(f[1])
            elif f[0] == "or":
                ors.append(f)
            elif f[0] == "ne":
                n = norm_ne(f)
                if n is not None:
                    queue.append(n)
                    seen.add(f)
                    lits.append(f)
                else:
                    ors.append(("or", (ge(f[1] - 1), ge(-f[1] - 1))))
                    lits.append(f)
            else:
                lits.append(f)
        return lits, ors

    def _falsified(self, g, lits, index):
        """Cheap test: literal/conjunction g contradicts the literals."""
        if g is False:
            return True
        if g is True:
            return False
        if g[0] == "and":
            return any(self._falsified(x, lits, index) for x in g[1])
        if g[0] == "or":
            return all(self._falsified(x, lits, index) for x in g[1])
        if neg(g) in lits:
            return True
        p = g[1]
        if g[0] == "ne":
            return False
        ps = (p,) if g[0] == "ge" else (p, -p)
        for q in ps:
            # facts with opposite nonconstant part
            k = nonconst(-q)
            lo = index.get(k)
            # f: k + c0 >= 0 -> k >= -c0 ; q = -k + q0 >= 0 -> k <= q0
            if lo is not None and lo > q.const():
                return True
        return False

    def _index(self, lits):
        idx = {}
        for f in lits:
            if f[0] == "ge":
                k = nonconst(f[1])
                v = -f[1].const()
                if idx.get(k, v - 1) < v:
                    idx[k] = v
            elif f[0] == "eq":
                for q in (f[1], -f[1]):
                    k = nonconst(q)
                    v = -q.const()
                    if idx.get(k, v - 1) < v:
                        idx[k] = v
        return idx

    def _search(self, facts, p, depth):
        lits, ors = self._units(facts)
        if lits is None:
            return True
        if p.c is None and greedy(lits, p):
            STATS["greedy"] += 1
            return True
        if depth < 0:
            return False
        # collect atoms and definitional facts
        for _ in range(12):
            r = self._saturate(lits, ors, p)
            if r is True:
                return True
            lits, ors, again = r
            if not again:
                break
        idx = self._index(lits)
        lo = idx.get(nonconst(p))
        if p.c is None and lo is not None and lo + p.const() >= 0:
            return True
        if p.c is None and greedy(lits, p):
            STATS["greedy"] += 1
            return True
        if p.c is not None:
            # facts with huge constants blur the linear program: one against the others
            for f in lits:
                if f[0] == "ge" and abs(f[1].const()) > HUGE and greedy([g for g in lits if g is not f], -f[1] - 1, 40):
                    STATS["greedy"] += 1
                    return True
        if self._lp(lits, p):
            return True
        if depth <= 0:
            return False
        # s + s*k: the first iteration apart from the others
        if p.c is None:
            for m, v in p.t.items():
                if len(m) == 2 and v < 0:
                    for i in (0, 1):
                        if KIND[m[i]] == "ctr" and p.t.get((m[1 - i],), 0) < 0:
                            kk = m[i]
                            one = ge(A(kk) - 1)
                            if one in lits:
                                continue
                            z = {kk: ZERO}
                            p0 = subst(p, z)
                            f0 = tuple(substf(f, z) for f in lits + ors)
                            if False not in f0 and not (p0.iv()[0] is not None and p0.iv()[0] >= 0) \
                                    and not self._search(tuple(f for f in f0 if f is not True), p0, 0):
                                continue
                            if self._search(tuple(lits) + tuple(ors) + (one,), p, depth - 1):
                                return True
        # case split on the most relevant disjunction
        if not ors:
            return False
        ga = deep_atoms(p)
        direct = p.atoms
        scored = []
        for f in ors:
            fa = fallatoms(f)
            if p.c is not None:
                s = 1
            else:
                s = (4 if fatoms(f) & direct else 0) + (1 if fa & ga else 0)
            scored.append((-s, len(f[1]), len(fa), f))
        scored.sort(key=lambda x: x[:3])
        tried = 0
        for s, n, _, f in scored:
            if tried >= (2 if depth >= 4 else 1):
                break
            tried += 1
            STATS["split"] += 1
            rest = [g for g in ors if g is not f]
            ok = True
            for g in f[1]:
                sub = tuple(lits) + tuple(rest) + (g,)
                if not self._search(sub, p, depth - 1):
                    ok = False
                    break
            if ok:
                return True
        return False

    def _saturate(self, lits, ors, p):
        """Add definitional facts of the atoms involved and unit-propagate."""
        litset = set(lits)
        idx = self._index(lits)
        atoms = set(p.atoms)
        for f in lits:
            atoms |= f[1].atoms
        for f in ors:
            atoms |= fatoms(f)
        orset = set(ors)
        todo = list(atoms)
        seen = set(todo)
        changed = False
        while todo:
            a = todo.pop()
            for f in atom_facts(a):
                if f is False:
                    return True
                if f[0] == "or":
                    if f not in orset and f not in self_done(self, f):
                        orset.add(f)
                        ors = ors + [f]
                elif f not in litset:
                    litset.add(f)
                    lits = lits + [f]
                for b in fatoms(f):
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
        # quotients of the same value by related divisors
        fd = sorted(a for a in seen if KIND[a] == "fdiv")
        for a in fd:
            n1, c1 = DATA[a]
            for b in fd:
                n2, c2 = DATA[b]
                if a == b or c2 % c1:
                    continue
                d = (n2 - n1).c
                if d is None:
                    continue
                r = c2 // c1
                F1, F2 = A(a), A(b).scale(r)
                for f in (ge(F1 + (-((-d) // c1)) - F2), ge(F2 + (r - 1) - F1 - d // c1)):
                    if f is not True and f not in litset:
                        litset.add(f)
                        lits = lits + [f]
        # bounds of quotients from bounds of what is divided
        idx = self._index(lits)
        for a in fd:
            n1, c1 = DATA[a]
            k = nonconst(-n1)
            up = idx.get(k)
            if up is not None:
                g = ge(K((n1.const() - up) // c1) - A(a))
                if g is False:
                    return True
                if g is not True and g not in litset:
                    litset.add(g)
                    lits = lits + [g]
            lo = idx.get(nonconst(n1))
            if lo is not None:
                g = ge(A(a) - (n1.const() + lo) // c1)
                if g is False:
                    return True
                if g is not True and g not in litset:
                    litset.add(g)
                    lits = lits + [g]
        # bounds carried over by equations c1*x + c2*y + k == 0
        idx = self._index(lits)
        for f in list(lits):
            if f[0] != "eq":
                continue
            ms = [m for m in f[1].t if m]
            if len(ms) != 2 or len(ms[0]) != 1 or len(ms[1]) != 1:
                continue
            k = f[1].const()
            for m, n in (ms, ms[::-1]):
                x, y = m[0], n[0]
                cx, cy = f[1].t[m], f[1].t[n]
                if cx < 0:
                    cx, cy, kk = -cx, -cy, -k
                else:
                    kk = k
                # cx*x == -cy*y - kk
                lx = idx.get(nonconst(A(x)))
                if LO[x] is not None and (lx is None or LO[x] > lx):
                    lx = LO[x]
                if lx is not None and lx != LO[x]:
                    g = ge(A(y).scale(-cy) - kk - cx * lx)
                    if g is False:
                        return True
                    if g is not True and g not in litset:
                        litset.add(g)
                        lits = lits + [g]
        # unit propagation
        idx = self._index(lits)
        out = []
        new = []
        for f in ors:
            if any(self._holds(g, litset, idx) for g in f[1]):
                continue
            keep = [g for g in f[1] if not self._falsified(g, litset, idx)]
            if not keep:
                return True
            if len(keep) == 1:
                new.append(keep[0])
            elif len(keep) < len(f[1]):
                out.append(("or", tuple(keep)))
            else:
                out.append(f)
        if new:
            l2, o2 = self._units(new)
            if l2 is None:
                return True
            add = [x for x in l2 if x not in litset]
            return lits + add, out + o2, bool(add)
        return lits, out, False

    def _holds(self, g, litset, idx):
        if g is True:
            return True
        if g is False:
            return False
        if g in litset:
            return True
        if g[0] == "and":
            return all(self._holds(x, litset, idx) for x in g[1])
        if g[0] == "or":
            return any(self._holds(x, litset, idx) for x in g[1])
        if g[0] == "ge":
            lo = idx.get(nonconst(g[1]))
            return lo is not None and lo + g[1].const() >= 0
        return False

    # linear programming -----------------------------------------------------------
    def _lp(self, lits, p):
        """p >= 0 from the literals by a Farkas certificate."""
        for phase in (0, 1):
            rows = self._rows(lits, p, phase)
            if rows is None:
                continue
            r = self._farkas(rows, p)
            if r:
                return True
        return False

    def _rows(self, lits, p, phase):
        rows = []  # (poly, is_eq)
        seen = set()

        def push(q, e):
            if q.c is not None:
                return
            if q not in seen:
                seen.add(q)
                rows.append((q, e))

        atoms = set(p.atoms)
        for f in lits:
            if f[0] == "ge":
                push(f[1], False)
            elif f[0] == "eq":
                push(f[1], True)
            atoms |= f[1].atoms
        # ranges
        for a in atoms:
            if LO[a] is not None and LO[a] > -HUGE:
                push(A(a) - LO[a], False)
            if HI[a] is not None and (phase or HI[a] <= HUGE):
                push(HI[a] - A(a), False)
        # products
        nl = set()
        for q in [p] + [r[0] for r in rows]:
            for m in q.t:
                if len(m) >= 2:
                    nl.add(m)
        if nl:
            base = list(rows)
            for rnd in range(2):
                new = []
                for m in sorted(nl):
                    for i in range(len(m)):
                        b = m[i]
                        rest = m[:i] + m[i + 1:]
                        nonneg = LO[b] is not None and LO[b] >= 0
                        for q, e in base:
                            if rest in q.t and (nonneg or e):
                                new.append((q * A(b), e))
                before = len(rows)
                for q, e in new:
                    push(q, e)
                nl2 = set()
                for q, e in rows[before:]:
                    for m in q.t:
                        if len(m) >= 2 and m not in nl:
                            nl2.add(m)
                if not nl2 or len(rows) > 400 or rnd == 1:
                    break
                nl = nl2
            # monomials of nonnegative atoms are nonnegative
            for q in [p] + [r[0] for r in rows]:
                for m in q.t:
                    if len(m) >= 2 and all(LO[a] is not None and LO[a] >= 0 for a in m):
                        push(mk({m: 1}), False)
            if phase:
                # pairwise products of the facts that carry the nonlinear atoms
                na = {a for m in nl for a in m}
                lin = [q for q, e in base if not e and q.atoms & na and all(len(m) <= 1 for m in q.t) and len(q.t) <= 6
                       and all(abs(v) < HUGE for v in q.t.values())][:24]
                for i in range(len(lin)):
                    for j in range(i, len(lin)):
                        if len(rows) > 700:
                            break
                        push(lin[i] * lin[j], False)
        return rows

    def _farkas(self, rows, p):
        # restrict to rows connected with p through monomials
        if p.c is None:
            work = {m for m in p.t if m}
            picked = [False] * len(rows)
            changed = True
            while changed:
                changed = False
                for i, (q, e) in enumerate(rows):
                    if not picked[i] and any(m in work for m in q.t if m):
                        picked[i] = True
                        work |= {m for m in q.t if m}
                        changed = True
            rows = [r for r, k in zip(rows, picked) if k]
        if not rows:
            return False
        monos = {}
        for q, e in rows:
            for m in q.t:
                if m and m not in monos:
                    monos[m] = len(monos)
        for m in p.t:
            if m and m not in monos:
                return False
        key = (p, frozenset(rows))
        r = self.lpmemo.get(key)
        if r is not None:
            return r
        STATS["lp"] += 1
        n = len(rows)
        from scipy.sparse import csc_matrix
        # constants are split as a * 2^63 + b so that floats do not blur them
        big = any(abs(q.const()) > HUGE for q, e in rows) or abs(p.const()) > HUGE
        nb = len(monos)
        data, ri, ci = [], [], []
        cost = np.zeros(n)
        scale = []
        for j, (q, e) in enumerate(rows):
            s = float(max(abs(v) for m, v in q.t.items() if m))
            scale.append(s)
            cc = q.const()
            if big:
                a63 = (cc + (1 << 62)) >> 63
                cc -= a63 << 63
                if a63:
                    data.append(a63 / s)
                    ri.append(nb)
                    ci.append(j)
            cost[j] = cc / s
            for m, v in q.t.items():
                if m:
                    data.append(v / s)
                    ri.append(monos[m])
                    ci.append(j)
        b = np.zeros(nb + (1 if big else 0))
        if big:
            # the leftover multiple of 2^63 may be positive
            data.append(1.0)
            ri.append(nb)
            ci.append(n)
            cost = np.append(cost, 0.0)
            b[nb] = (p.const() + (1 << 62)) >> 63
        for m, v in p.t.items():
            if m:
                b[monos[m]] = v
        if p.c is not None:
            # infeasibility: look for sum l_i f_i = -1 (bounded multipliers)
            pass
        Aeq = csc_matrix((data, (ri, ci)), shape=(len(b), len(cost)))
        ext = [(0, None)] if big else []
        bounds = [(None, None) if e else (0, None) for q, e in rows] + ext
        if p.c is not None:
            bounds = [(-1e6, 1e6) if e else (0, 1e6) for q, e in rows] + ext
        ok = False
        try:
            res = linprog(cost, A_eq=Aeq, b_eq=b, bounds=bounds, method="highs", options=LPOPT)
        except Exception:
            res = None
        if res is not None and res.status == 4 and big:
            try:
                res = linprog(cost, A_eq=Aeq, b_eq=b, bounds=[(lo, 1e7 if hi is None else hi) for lo, hi in bounds], method="highs-ipm", options=LPOPT)
            except Exception:
                res = None
        if res is not None and res.status == 0:
            pc = p.const()
            if big:
                pc -= ((pc + (1 << 62)) >> 63) << 63
            slack = res.x[-1] if big else 0.0
            tol = 1e-3 + 1e-9 * abs(res.fun)
            # hopeless optima are not worth the exact check
            if p.c is not None:
                hopeless = res.fun > -1e-7 and slack < 1e-7
            else:
                hopeless = pc - res.fun < -1 - tol and slack < 1e-9
            ok = not hopeless and self._check(rows, p, res.x, scale)
        elif res is not None and res.status == 3:
            # unbounded: the facts are contradictory; find a bounded certificate
            bounds = [(-1e6, 1e6) if e else (0, 1e6) for q, e in rows] + ext
            res = linprog(cost, A_eq=Aeq, b_eq=b, bounds=bounds, method="highs", options=LPOPT)
            if res.status == 0:
                ok = self._check(rows, p, res.x, scale)
                if not ok:
                    ok = self._check(rows, K(-1), res.x, scale)
        self.lpmemo[key] = ok
        return ok

    def _check(self, rows, p, x, scale):
        """Exact verification of the certificate suggested by the LP."""
        sup = [j for j in range(len(rows)) if abs(x[j]) > 1e-9]
        if p.c is not None:
            # scale so that the largest multiplier is 1
            mx = max([abs(x[j]) for j in sup], default=0)
            if mx == 0:
                return p.c > -1
            for den in (64, 4096, 1 << 20):
                lam = {j: Fraction(float(x[j] / mx)).limit_denominator(den) / Fraction(int(scale[j])) for j in sup}
                if self._verify(rows, p, lam, True):
                    return True
            lam = self._exact(rows, p, sup, homogeneous=True)
            return lam is not None and self._verify(rows, p, lam, True)
        for den in (64, 1 << 20):
            lam = {j: Fraction(float(x[j])).limit_denominator(den) / Fraction(int(scale[j])) for j in sup}
            if self._verify(rows, p, lam, False):
                return True
        lam = self._exact(rows, p, sup, homogeneous=False)
        return lam is not None and self._verify(rows, p, lam, False)

    @staticmethod
    def _verify(rows, p, lam, contradiction):
        acc = {}
        for j, l in lam.items():
            q, e = rows[j]
            if l == 0:
                continue
            if l < 0 and not e:
                return False
            for m, v in q.t.items():
                acc[m] = acc.get(m, 0) + l * v
        if contradiction:
            # sum l f with no variables and negative constant
            return all(v == 0 for m, v in acc.items() if m) and acc.get((), 0) < 0
        for m, v in p.t.items():
            if m:
                if acc.get(m, 0) != v:
                    return False
        for m, v in acc.items():
            if m and v != p.t.get(m, 0):
                return False
        return p.const() - acc.get((), 0) > -1

    @staticmethod
    def _exact(rows, p, sup, homogeneous):
        """Solve for the multipliers on the support in exact arithmetic."""
        if len(sup) > 60:
            return None
        monos = sorted({m for j in sup for m in rows[j][0].t if m} | {m for m in p.t if m})
        n = len(sup)
        mat = [{} for _ in monos]
        at = {m: i for i, m in enumerate(monos)}
        for c, j in enumerate(sup):
            for m, v in rows[j][0].t.items():
                if m:
                    mat[at[m]][c] = v
        for m, v in p.t.items():
            if m:
                mat[at[m]][n] = v
        if homogeneous:
            # fix the combination to have constant -1
            mat.append({c: rows[j][0].const() for c, j in enumerate(sup) if rows[j][0].const()})
            mat[-1][n] = -1
        # fraction-free elimination on sparse integer rows, shortest pivot rows first
        piv = []
        left = [r for r in mat if r]
        done = []
        for c in range(n):
            k = None
            for i, r in enumerate(left):
                if c in r and (k is None or len(r) < len(left[k])):
                    k = i
            if k is None:
                continue
            pr = left.pop(k)
            a = pr[c]
            for rs in (left, done):
                for r in rs:
                    b = r.get(c)
                    if not b:
                        continue
                    g = gcd(a, b)
                    x, y = a // g, b // g
                    if x < 0:
                        x, y = -x, -y
                    if x != 1:
                        for m in r:
                            r[m] *= x
                    for m, v in pr.items():
                        w = r.get(m, 0) - y * v
                        if w:
                            r[m] = w
                        else:
                            r.pop(m, None)
                    if x != 1 and len(r) > 1:
                        g = gcd(*r.values())
                        if g > 1:
                            for m in r:
                                r[m] //= g
            done.append(pr)
            piv.append(c)
        if any(r.get(n) for r in left):
            return None
        lam = {j: Fraction(0) for j in sup}
        for r, c in zip(done, piv):
            lam[sup[c]] = Fraction(r.get(n, 0), r[c])
        return lam


def self_done(pr, f):
    return ()


_nc = {}


def nonconst(p):
    r = _nc.get(p)
    if r is None:
        r = _nc[p] = p - p.const() if p.const() else p
    return r


# greedy certificates --------------------------------------------------------------

def greedy(lits, p, limit=120):
    """Look for p = sum(l_i f_i) + nonnegative rest by cancelling one negative
    monomial at a time.  Every step is exact, so success is a proof."""
    best = {}
    for f in lits:
        if f[0] == "ge":
            qs = (f[1],)
        elif f[0] == "eq":
            qs = (f[1], -f[1])
        else:
            continue
        for q in qs:
            n = nonconst(q)
            o = best.get(n)
            if o is None or q.const() < o.const():
                best[n] = q
    by = {}
    for q in best.values():
        for m, v in q.t.items():
            if m and v < 0:
                by.setdefault(m, []).append(q)
    budget = [limit]
    seen = set()

    def nonneg(m):
        for a in m:
            if LO[a] is None or LO[a] < 0:
                return False
        return True

    def steps(m):
        out = list(by.get(m, ()))
        if len(m) > 1:
            for i in range(len(m)):
                if i and m[i] == m[i - 1]:
                    continue
                b = m[i]
                if LO[b] is None or LO[b] < 0:
                    continue
                rest = m[:i] + m[i + 1:]
                for q in by.get(rest, ()):
                    out.append(q * A(b))
        return out

    def go(p, d, depth):
        lo, _ = p.iv()
        if lo is not None and lo > -d:
            return True
        if depth == 0 or budget[0] <= 0:
            return False
        if (p, d) in seen:
            return False
        seen.add((p, d))
        budget[0] -= 1
        # the monomial to cancel
        bad = []
        for m, v in p.t.items():
            if not m:
                continue
            if v < 0 or not nonneg(m):
                k = 0
                for a in m:
                    if KIND[a] == "ctr":
                        k = max(k, 2)
                bad.append((-k, -len(m), m))
        if not bad:
            # only the constant is negative: trade a fact for it
            for q in best.values():
                if q.const() >= 0 or -q.const() > HUGE and p.const() > -HUGE:
                    continue
                r = None
                for m, v in q.t.items():
                    if m and v > 0:
                        pv = p.t.get(m, 0)
                        if pv <= 0:
                            r = None
                            break
                        r = pv // v if r is None else min(r, pv // v)
                        if not r:
                            break
                if r and go(p - q.scale(r), d, depth - 1):
                    return True
            return False

        bad.sort()
        for _, _, m in bad[:2]:
            v = p.t[m]
            if v > 0:
                continue
            st = steps(m)
            scored = []
            for q in st:
                fv = q.t.get(m)
                if fv is None or fv >= 0:
                    continue
                # p*s - q*r
                g = gcd(-v, -fv)
                s, r = (-fv) // g, (-v) // g
                n = p.scale(s) - q.scale(r)
                nb = sum(1 for mm, vv in n.t.items() if mm and vv < 0)
                big = abs(q.const()) > HUGE
                scored.append((big, nb, len(n.t), n.id, n, d * s))
            for x in scored:
                lo, _ = x[4].iv()
                if lo is not None and lo > -x[5]:
                    return True
            scored.sort(key=lambda x: x[:4])
            for _, _, _, _, n, nd in scored[:5]:
                if go(n, nd, depth - 1):
                    return True
        return False

    return go(p, 1, 8)
