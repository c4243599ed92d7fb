"""Searches for concrete values that satisfy a set of formulas.

The formulas are the facts of an abstract path together with the negation of
an obligation the prover did not discharge.  An assignment of the inputs and
loop counters that satisfies all of them is a definite counterexample (every
other atom is a function of those); an obligation without one stays undecided.
"""
import random
from terms import *

DERIVED = {"fdiv", "fdivs", "phi", "b2i", "bor", "band", "bxor", "fn"}


class Env:
    def __init__(self, rnd):
        self.v = {}
        self.memo = {}
        self.rnd = rnd

    def atom(self, a):
        k = KIND[a]
        if k not in DERIVED:
            return self.v[a]
        r = self.memo.get(a)
        if r is None:
            r = self.memo[a] = self.calc(a, k)
        return r

    def calc(self, a, k):
        d = DATA[a]
        P = self.poly
        if k == "fdiv":
            return P(d[0]) // d[1]
        if k == "fdivs":
            q = P(d[1])
            return P(d[0]) // q if q else 0
        if k == "phi":
            return P(d[1]) if self.form(d[0]) else P(d[2])
        if k == "b2i":
            return 1 if self.form(d) else 0
        if k == "bor":
            return P(d[0]) | P(d[1])
        if k == "band":
            return P(d[0]) & P(d[1])
        if k == "bxor":
            return P(d[0]) ^ P(d[1])
        if k == "fn":
            tab, b = d
            return int(TABLES[tab][P(b) - b.iv()[0]])
        raise KeyError(k)

    def poly(self, p):
        if p.c is not None:
            return p.c
        s = 0
        for m, c in p.t.items():
            for a in m:
                c *= self.atom(a)
                if not c:
                    break
            s += c
        return s

    def form(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "ge":
            return self.poly(f[1]) >= 0
        if k == "eq":
            return self.poly(f[1]) == 0
        if k == "ne":
            return self.poly(f[1]) != 0
        if k == "and":
            return all(self.form(g) for g in f[1])
        if k == "or":
            return any(self.form(g) for g in f[1])
        if k == "not":
            return not self.form(f[1])
        raise KeyError(k)

    def consistent(self):
        """No two loads of one byte have different values."""
        mem = {}
        for a, x in self.v.items():
            if KIND[a] == "load":
                try:
                    k = (DATA[a][0], self.poly(DATA[a][1]))
                except KeyError:
                    continue
                if mem.setdefault(k, x) != x:
                    return False
        return True

    def set(self, a, x):
        self.v[a] = x
        self.memo.clear()


def free_atoms(fs):
    seen, out, todo = set(), set(), []
    for f in fs:
        todo += [a for a in fallatoms(f)]
    for a in todo:
        if KIND[a] not in DERIVED:
            out.add(a)
    return out


def lits(f):
    return list(f[1]) if f is not True and f is not False and f[0] == "and" else [f]


SMALL = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 16, 17, 18, 24, 30, 32, 34, 48, 62, 64, 66, 96, 130)


def search(facts, more, seed=1, restarts=40, steps=400, limit=None):
    """(assignment {name: value}, exact) or None."""
    fs = []
    for f in list(facts) + list(more):
        for g in lits(f):
            if g is False:
                return None
            if g is not True and g not in fs:
                fs.append(g)
    rnd = random.Random(seed)
    free = sorted(free_atoms(fs))
    if limit is not None and len(free) > limit:
        return None
    deps = [sorted(free_atoms([f])) for f in fs]
    users = {a: [i for i in range(len(fs)) if a in deps[i]] for a in free}
    for r in range(restarts):
        env = Env(rnd)
        for a in free:
            lo = LO[a] if LO[a] is not None else 0
            hi = HI[a] if HI[a] is not None else (1 << 63)
            x = rnd.choice(SMALL) if r % 3 else rnd.choice((2, 16, 32, 34, 66))
            if KIND[a] == "load":
                x = rnd.choice((0, 255, 16, 235, 128, rnd.randrange(256)))
            env.v[a] = min(max(x, lo), hi)
        try:
            sat = [env.form(f) for f in fs]
        except (KeyError, IndexError):
            return None
        for s in range(steps):
            bad = [i for i, x in enumerate(sat) if not x]
            if not bad and not env.consistent():
                break
            if not bad:
                exact = all(KIND[a] != "opq" for a in free)
                return {nm(a): env.v[a] for a in free}, exact
            i = rnd.choice(bad)
            best = None
            cands = []
            goal = fs[i]
            while goal[0] in ("or", "and"):
                gs = [g for g in goal[1] if g is not True and g is not False and not env.form(g)]
                if not gs:
                    break
                goal = rnd.choice(gs)
            for a in sorted(free_atoms([goal])):
                for x in moves(env, goal, a, rnd):
                    cands.append((a, x))
            if not cands:
                break
            rnd.shuffle(cands)
            for a, x in cands[:24]:
                lo, hi = LO[a], HI[a]
                if lo is not None and x < lo or hi is not None and x > hi or x == env.v[a]:
                    continue
                old = env.v[a]
                env.set(a, x)
                d = sum(1 for j in users[a] if not env.form(fs[j])) - sum(1 for j in users[a] if not sat[j])
                env.set(a, old)
                d += rnd.random() * 1.5
                if best is None or d < best[0]:
                    best = (d, a, x)
            if best is None:
                continue
            env.set(best[1], best[2])
            for j in users[best[1]]:
                sat[j] = env.form(fs[j])
    return None


def nm(a):
    return DATA[a] if KIND[a] == "in" else show_atom(a)


def moves(env, g, a, rnd):
    cur = env.v[a]
    out = {cur + 1, cur - 1, cur + 2, cur - 2, rnd.choice(SMALL), cur * 2, cur // 2}
    if HI[a] is not None and rnd.random() < .2:
        out |= {HI[a], HI[a] - 1}
    if g[0] in ("ge", "eq", "ne"):
        p = g[1]
        v = env.poly(p)
        # numeric slope in a
        d = max(1, abs(cur) >> 20)
        env.set(a, cur + d)
        try:
            v2 = env.poly(p)
        except (KeyError, IndexError):
            v2 = v
        env.set(a, cur)
        if v2 != v:
            n = -v * d
            q = n // (v2 - v)
            out |= {cur + q, cur + q + 1, cur + q - 1, cur + q + rnd.choice((2, 4, 8, 16))}
        # top-level linear coefficient
        c = 0
        for m, k in p.t.items():
            if m.count(a) == 1:
                for b in m:
                    if b != a:
                        k *= env.atom(b)
                c += k
        if c:
            out |= {cur - v // c, cur - v // c + 1, cur - v // c - 1}
    return out
