"""Which bytes of the destination planes a conversion writes.

Every store is a family of byte ranges: a row and a column that are affine in the
counters of the loops around it, under guards.  For an arbitrary row (one symbol per
residue class of the row steps) the families become intervals of columns, and
the intervals are chained from column 0 to the end of the row; where a guard or
an ordering is not settled by the facts, both cases are followed."""
from math import gcd
import pix
import witness
from terms import *

MAXSPLIT = 14
OTHER = ("slen", "dlen", "snbuf", "dnbuf", "snstr", "dnstr")


class Family:
    """One store: row, column, bytes, loops and the guards beyond the path facts."""

    def __init__(self, e, plane, R, C, n, guards):
        self.e, self.plane, self.R, self.C, self.n, self.guards = e, plane, R, C, n, guards
        self.loops = [(l[0], l[1]) for l in e.loops]


def simplify(pr, facts):
    """Facts with the disjunctions that only one alternative survives resolved."""
    facts = [f for f in facts if f is not True]
    for _ in range(3):
        change = False
        for f in list(facts):
            if f is True or f is False or f[0] != "or":
                continue
            rest = tuple(g for g in facts if g is not f)
            live = []
            for d in f[1]:
                if not pr.infeasible(pr.add(rest, [d]), 2):
                    live.append(d)
            if len(live) < len(f[1]):
                change = True
                facts = list(rest)
                if len(live) == 1:
                    facts = list(pr.add(tuple(facts), [live[0]]))
                elif live:
                    facts.append(disj(live))
                else:
                    return (False,)
        if not change:
            break
    return tuple(facts)


def families(im, st):
    """{plane index: [Family]} of one state; addresses that are not understood raise Nosplit."""
    out = {p.i: [] for p in im.dst}
    for e in st.ev:
        p, R, C = im.place(im.dst, e.region, e.off, pix.within(st, e))
        fs = [f for f in e.facts if f not in st.fset]
        out[p.i] += expand(Family(e, p, R, C, len(e.terms), fs))
    return out


def expand(f):
    """Loops with a small constant trip count become separate families."""
    for i, (k, T) in enumerate(f.loops):
        if T.c is not None and 0 < T.c <= 16:
            out = []
            for v in range(T.c):
                mp = {k: K(v)}
                g = Family(f.e, f.plane, subst(f.R, mp, {}), subst(f.C, mp, {}), f.n, [substf(x, mp, {}) for x in f.guards])
                g.loops = [(k2, subst(t, mp, {})) for j, (k2, t) in enumerate(f.loops) if j != i]
                out += expand(g)
            return out
    return [f]


def coef(p, a):
    """p = c * a + rest, or None when p is not affine in a."""
    c = p.t.get((a,), 0)
    rest = p - A(a).scale(c)
    if a in deep_atoms(rest):
        return None
    return c, rest


class Open(Exception):
    """The facts under which a byte of the row is not shown to be written."""

    def __init__(self, facts, pos=None):
        self.facts = facts
        self.pos = pos


class Row:
    """An interval of columns [lo, hi) written in the row when `needs` holds."""
    __slots__ = ("needs", "c", "d", "L", "U", "n", "e")

    def under(self, needs):
        r = Row()
        r.needs, r.c, r.d, r.L, r.U, r.n, r.e = needs, self.c, self.d, self.L, self.U, self.n, self.e
        return r


class Coverage:
    def __init__(self, im, st):
        self.im, self.st, self.pr = im, st, im.I.pr
        self.fam = families(im, st)
        self.nq = 0
        self.nint = 0
        self.depth = 0

    def prove(self, facts, g):
        self.nq += 1
        return self.pr.prove(facts, g, self.depth)

    def plane(self, p):
        """None when every byte of every row is shown to be written, else the facts of a gap."""
        fam = self.fam[p.i]
        M = 1
        for f in fam:
            for k, T in f.loops:
                c = f.R.t.get((k,), 0)
                if c:
                    M = M * abs(c) // gcd(M, abs(c))
        if M > 16:
            M = 16
        gaps = []
        for rho in range(M):
            t = atom("ctr", ("row", M, rho), 0, None)
            q = A(t).scale(M) + K(rho)
            base = tuple(self.st.facts) + (ge(q), ge(p.rows - q - 1), ge(p.row - 1))
            base = simplify(self.pr, base)
            if False in base or self.pr.infeasible(base, 3):
                continue
            rows = []
            for f in fam:
                r = self.at_row(f, q)
                if r is not None:
                    rows.append(r)
            self.nint += len(rows)
            have = set(base)
            rows = [r.under([g for g in r.needs if g not in have]) for r in rows]
            # conditions on lengths and counts play no part in the rest
            used = {a for r in rows for g in r.needs for a in witness.free_atoms([g])}
            base = tuple(f for f in base if not any(KIND[a] == "in" and a not in used and DATA[a].rstrip("0123456789") in OTHER for a in witness.free_atoms([f])))
            # most orderings follow from the facts at once; look deeper only if that fails
            for self.depth in (0, 2):
                try:
                    self.chain(base, rows, p.row, ZERO, 0)
                    break
                except Open as g:
                    gap = g
            else:
                gaps.append((q, gap.facts, gap.pos))
        return gaps

    def at_row(self, f, q):
        """The family restricted to row q."""
        needs = []
        guards = list(f.guards)
        C = f.C
        loops = list(f.loops)
        inrow = [(k, T) for k, T in loops if k in deep_atoms(f.R)]
        if len(inrow) > 1:
            return None
        if inrow:
            k, T = inrow[0]
            x = coef(f.R, k)
            if x is None or not x[0]:
                return None
            a, b = x
            d = q - b
            if a < 0:
                a, d = -a, -d
            v = fdiv(d, a)
            if (d - v.scale(a)).t:
                m = mod(d, a)
                if m.c is not None:
                    return None         # another residue class
                needs.append(eq(m))
            mp = {k: v}
            memo = {}
            C = subst(C, mp, memo)
            guards = [substf(g, mp, memo) for g in guards]
            T = subst(T, mp, memo)
            needs += [ge(v), ge(T - v - 1)]
            loops = [(k2, subst(t, mp, memo)) for k2, t in loops if k2 != k]
        else:
            g = eq(f.R - q)
            if g is False:
                return None
            if g is not True:
                needs.append(g)
        # loops that do not move the store still have to run
        col = [(k, T) for k, T in loops if k in deep_atoms(C)]
        r = Row()
        r.e, r.n = f.e, f.n
        if len(col) > 1:
            return None
        idle = [(k, T) for k, T in loops if not col or k != col[0][0]]
        for k, T in idle:
            if any(k in fallatoms(g) for g in guards):
                # some iteration: the first one will do if its guards hold
                guards = [substf(g, {k: ZERO}, {}) for g in guards]
            needs.append(ge(T - 1))
        if not col:
            r.c, r.d, r.L, r.U = C, 0, ZERO, K(1)
        else:
            k, T = col[0]
            x = coef(C, k)
            if x is None or x[0] <= 0:
                return None
            r.d, r.c = x
            r.L, r.U = [ZERO], [T]
            rest = []
            for g in guards:
                if k not in fallatoms(g):
                    rest.append(g)
                    continue
                if g[0] != "ge" and g[0] != "eq":
                    return None
                y = coef(g[1], k)
                if y is None or abs(y[0]) != 1:
                    return None
                if g[0] == "eq":
                    v = -y[1].scale(y[0])
                    r.L.append(v)
                    r.U.append(v + 1)
                elif y[0] == 1:
                    r.L.append(-y[1])
                else:
                    r.U.append(y[1] + 1)
            guards = rest
        r.needs = [g for g in needs + guards if g is not True]
        return None if False in r.needs else r

    def extreme(self, facts, ps, big):
        """(the largest / smallest of ps, None) or (None, literal to split on)."""
        if isinstance(ps, Poly):
            return ps, None
        best = ps[0]
        for p in ps[1:]:
            g = ge(p - best) if big else ge(best - p)
            if self.prove(facts, g):
                best = p
            elif not self.prove(facts, neg(g)):
                return None, g
        return best, None

    def chain(self, facts, rows, row, pos, depth):
        """Raises Open unless [pos, row) is covered."""
        live = []
        open_ = []
        status = {}
        for r in rows:
            ok = True
            unk = []
            for g in r.needs:
                s = status.get(g)
                if s is None:
                    s = True if self.prove(facts, g) else False if self.prove(facts, neg(g)) else "?"
                    status[g] = s
                if s is False:
                    ok = False
                    break
                if s == "?":
                    unk.append(g)
            if not ok:
                continue
            if unk:
                open_.append((r.under(unk), unk))
            else:
                live.append(r.under([]) if r.needs else r)
        rows = live + [r for r, _ in open_]
        while not self.prove(facts, ge(pos - row)):
            step, lits = self.advance(facts, live, pos, row)
            if step is not None:
                pos = step
                continue
            lits = [g for r, u in open_ for g in u] + lits
            if not lits or depth >= MAXSPLIT:
                raise Open(self.pr.add(facts, [ge(row - pos - 1)]), pos)
            g = self.choose(facts, lits)
            if g is None:
                raise Open(self.pr.add(facts, [ge(row - pos - 1)]), pos)
            for h in (g, neg(g)):
                f2 = self.pr.add(facts, [h])
                f2 = simplify(self.pr, f2)
                if False in f2 or self.pr.infeasible(f2, self.depth):
                    continue
                self.chain(f2, rows, row, pos, depth + 1)
            return

    def choose(self, facts, lits):
        """The undecided literal that most conditions wait for."""
        n = {}

        def walk(g):
            if g is True or g is False:
                return
            if g[0] in ("or", "and"):
                for h in g[1]:
                    walk(h)
            else:
                n[g] = n.get(g, 0) + 1
        for g in lits:
            walk(g)
        for h in sorted(n, key=lambda h: (-n[h], len(showf(h)), showf(h))):
            if not self.prove(facts, h) and not self.prove(facts, neg(h)):
                return h
        return None

    def advance(self, facts, live, pos, row):
        """(new position, []) or (None, literals worth splitting on)."""
        lits = []
        groups = {}
        for r in live:
            L, g = self.extreme(facts, r.L, True)
            if g is not None:
                lits.append(g)
                continue
            U, g = self.extreme(facts, r.U, False)
            if g is not None:
                lits.append(g)
                continue
            groups.setdefault((r.d, U - L), []).append((r.c + L.scale(r.d), r.n))
        for (d, N), cs in groups.items():
            # bring together the stores whose places differ by constants
            todo = list(cs)
            while todo:
                c0 = todo[0][0]
                same = [((c - c0).c, n) for c, n in todo if (c - c0).c is not None]
                todo = [(c, n) for c, n in todo if (c - c0).c is None]
                for a, b in runs(same):
                    lo = c0 + K(a)
                    ln = b - a
                    if not d:
                        if self.prove(facts, ge(pos - lo)):
                            hi = lo + K(ln)
                            if self.prove(facts, ge(hi - pos - 1)):
                                return hi, []
                            if not self.prove(facts, ge(pos - hi)):
                                lits.append(ge(hi - pos - 1))
                        elif not self.prove(facts, ge(lo - pos - 1)):
                            lits.append(ge(pos - lo))
                        continue
                    if ln < d:
                        continue
                    if not self.prove(facts, ge(N - 1)):
                        if not self.prove(facts, ge(-N)):
                            lits.append(ge(N - 1))
                        continue
                    if self.prove(facts, ge(pos - lo)):
                        hi = lo + N.scale(d) + K(ln - d)
                        if self.prove(facts, ge(hi - pos - 1)):
                            return hi, []
                        if not self.prove(facts, ge(pos - hi)):
                            lits.append(ge(hi - pos - 1))
                    elif not self.prove(facts, ge(lo - pos - 1)):
                        lits.append(ge(pos - lo))
        return None, lits


def runs(cs):
    """Contiguous runs of constant ranges."""
    out = []
    for c, n in sorted(cs):
        if out and c <= out[-1][1]:
            out[-1][1] = max(out[-1][1], c + n)
        else:
            out.append([c, c + n])
    return out


# exact evaluation of the summary --------------------------------------------------

def concrete(im, st, env, limit=200000):
    """{plane: set of (row, column)} the state writes for the given inputs, None if unknown."""
    W = witness.Env(None)
    for a, v in env.items():
        W.v[a] = v
    out = {p.i: set() for p in im.dst}
    fam = families(im, st)
    n = [0]
    for i, fs in fam.items():
        for f in fs:
            if not enum(W, f, list(f.loops), out[i], n, limit):
                return None
    return out


def covered(im, st, env, p, y, x, fam=None):
    """Whether byte x of row y of plane p is written for the given inputs, None if unknown.

    Each store is solved for the counters, so the size of the image does not matter."""
    W = witness.Env(None)
    W.v.update(env)
    unknown = False
    for f in (fam or families(im, st))[p.i]:
        r = hits(W, f, y, x)
        if r:
            return True
        unknown |= r is None
    return None if unknown else False


def hits(W, f, y, x):
    try:
        return solve(W, f, list(f.loops), y, x, [4096])
    except KeyError:
        return None


def solve(W, f, loops, y, x, fuel):
    """Whether some iteration of the loops (outermost first) stores byte x of row y."""
    W.memo.clear()
    if not loops:
        fuel[0] -= 1
        if fuel[0] < 0:
            raise KeyError("fuel")
        c = W.poly(f.C)
        return W.poly(f.R) == y and c <= x < c + f.n and all(W.form(g) for g in f.guards)
    k, T = loops[0]
    inner = {l[0] for l in loops[1:]}
    T = W.poly(T)
    if T <= 0:
        return False
    cand = range(T)
    for P, lo, hi in ((f.R, y, y), (f.C, x - f.n + 1, x)):
        if k not in deep_atoms(P):
            continue
        a = coef(P, k)
        if a is None or not a[0] or inner & deep_atoms(a[1]):
            continue
        a, b = a
        b = W.poly(b)
        # lo <= a*k + b <= hi
        if a < 0:
            a, lo, hi, b = -a, -hi, -lo, -b
        v0, v1 = -((b - lo) // a), (hi - b) // a
        cand = range(max(cand.start, v0), min(cand.stop, v1 + 1))
    if not any(k in deep_atoms(P) for P in (f.R, f.C)) and not any(k in fallatoms(g) for g in f.guards) and not any(k in deep_atoms(t) for _, t in loops[1:]):
        cand = range(1)
    for v in cand:
        W.v[k] = v
        fuel[0] -= 1
        if fuel[0] < 0:
            raise KeyError("fuel")
        if solve(W, f, loops[1:], y, x, fuel):
            return True
    return False


def enum(W, f, loops, out, n, limit):
    if not loops:
        W.memo.clear()
        try:
            if all(W.form(g) for g in f.guards):
                r, c = W.poly(f.R), W.poly(f.C)
                for j in range(f.n):
                    out.add((r, c + j))
                n[0] += f.n
        except KeyError:
            return False
        return n[0] <= limit
    # outer loops have the smaller depth; trips only mention outer counters
    k, T = loops[0]
    W.memo.clear()
    try:
        t = W.poly(T)
    except KeyError:
        return False
    if t > 4096:
        return False
    for v in range(t):
        W.v[k] = v
        if not enum(W, f, loops[1:], out, n, limit):
            return False
    return True


def holds(st, env):
    W = witness.Env(None)
    W.v.update(env)
    try:
        return all(W.form(f) for f in st.facts)
    except KeyError:
        return None


def assignment(im, st, width, height, strides=None, rows=None, raw=None):
    """Values of all inputs for given dimensions: long buffers, padded or automatic strides."""
    env = {}
    names = set()
    fs = list(st.facts)
    for e in st.ev:
        fs += list(e.facts) + [ge(e.off)] + [ge(l[1]) for l in e.loops]
    for p in im.dst + im.src:
        fs += [ge(p.S), ge(p.row), ge(p.rows)]
    for a in witness.free_atoms(fs):
        if KIND[a] != "in":
            continue
        n = DATA[a]
        if raw and n in raw:
            env[a] = raw[n]
        elif n == "width":
            env[a] = width
        elif n == "height":
            env[a] = height
        elif n.startswith(("slen", "dlen")):
            env[a] = 1 << 40
        elif n in ("snbuf", "dnbuf", "snstr", "dnstr"):
            env[a] = 3
        elif "stride" in n:
            env[a] = (4 * width + 21) if strides else 0
        else:
            env[a] = LO[a] or 0
    # plane counts that satisfy the path
    return env


def compare(im, st, env):
    """(kind, plane, row, column) of a byte missed or written outside the image, None, or False if unknown."""
    if holds(st, env) is not True:
        return None
    got = concrete(im, st, env)
    if got is None:
        return False
    W = witness.Env(None)
    W.v.update(env)
    for p in im.dst:
        row, rows = W.poly(p.row), W.poly(p.rows)
        want = {(y, x) for y in range(rows) for x in range(row)}
        miss = want - got[p.i]
        if miss:
            return ("missed", p) + min(miss)
        extra = got[p.i] - want
        if extra:
            return ("extra", p) + min(extra)
    return None
