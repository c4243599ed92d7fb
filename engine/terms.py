"""Terms of the abstract domain: integer polynomials over interned atoms, and
formulas (negation normal form) over polynomial constraints.

Everything is hash-consed, so equality is identity.  An atom is an input, a
loop counter, the floor of a quotient, a byte loaded from a source buffer, a
unary function of a base polynomial given by its table (clamping, saturation),
a conditional merge (phi) or an opaque value with a known range.
"""
from math import gcd, isqrt
import numpy as np

KIND, DATA, LO, HI, ISD, DEPTH = [], [], [], [], [], []
_atoms = {}


def atom(kind, key, lo=None, hi=None, isdata=False, depth=0):
    k = (kind, key)
    i = _atoms.get(k)
    if i is None:
        i = len(KIND)
        _atoms[k] = i
        KIND.append(kind)
        DATA.append(key)
        LO.append(lo)
        HI.append(hi)
        ISD.append(isdata)
        DEPTH.append(depth)
    return i


class Poly:
    __slots__ = ("t", "c", "_iv", "_isd", "_atoms", "__weakref__", "id")

    def __repr__(self):
        return show(self)

    # arithmetic ---------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            o = K(o)
        if o.c == 0:
            return self
        if self.c == 0:
            return o
        if self.c is not None and o.c is not None:
            return K(self.c + o.c)
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        for m, v in b.items():
            x = d.get(m, 0) + v
            if x:
                d[m] = x
            else:
                d.pop(m, None)
        return mk(d)

    __radd__ = __add__

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        if o is self:
            return ZERO
        return self + o.scale(-1)

    def __rsub__(self, o):
        return K(o) - self if isinstance(o, int) else o - self

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        if self.c is not None:
            return K(self.c * k)
        return mk({m: v * k for m, v in self.t.items()})

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        if o.c is not None:
            return self.scale(o.c)
        if self.c is not None:
            return o.scale(self.c)
        d = {}
        for m1, v1 in self.t.items():
            for m2, v2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                x = d.get(m, 0) + v1 * v2
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
        return mk(d)

    __rmul__ = __mul__

    # queries --------------------------------------------------------------
    @property
    def isd(self):
        r = self._isd
        if r is None:
            r = self._isd = any(ISD[a] for m in self.t for a in m)
        return r

    @property
    def atoms(self):
        r = self._atoms
        if r is None:
            r = self._atoms = frozenset(a for m in self.t for a in m)
        return r

    def const(self):
        return self.t.get((), 0)

    def iv(self):
        r = self._iv
        if r is None:
            r = self._iv = _interval(self)
        return r


_polys = {}


def mk(d):
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = d
        if not d:
            p.c = 0
        elif len(d) == 1 and () in d:
            p.c = d[()]
        else:
            p.c = None
        p._iv = p._isd = p._atoms = None
        p.id = len(_polys)
        _polys[key] = p
    return p


_kc = {}


def K(n):
    p = _kc.get(n)
    if p is None:
        p = _kc[n] = mk({(): n} if n else {})
    return p


ZERO = K(0)
ONE = K(1)


def A(i):
    return mk({(i,): 1})


def show_atom(i):
    k, d = KIND[i], DATA[i]
    if k == "in":
        return str(d)
    if k == "ctr":
        return "k%s" % (d,)
    if k == "fdiv":
        return "(%s // %d)" % (show(d[0]), d[1])
    if k == "fdivs":
        return "(%s // %s)" % (show(d[0]), show(d[1]))
    if k == "load":
        return "%s[%s]" % (d[0], show(d[1]))
    if k == "fn":
        return "f%d(%s)" % (d[0], show(d[1]))
    if k == "phi":
        return "phi#%d" % i
    return "%s#%d" % (k, i)


def show(p):
    if p.c is not None:
        return str(p.c)
    out = []
    for m, v in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        if not m:
            out.append("%+d" % v)
            continue
        s = "*".join(show_atom(a) for a in m)
        out.append(("+" if v > 0 else "-") + ("" if abs(v) == 1 else "%d*" % abs(v)) + s)
    r = " ".join(out)
    return r[1:] if r.startswith("+") else r


# intervals ------------------------------------------------------------------

def _mono_iv(m):
    lo, hi = 1, 1
    for a in m:
        l, h = LO[a], HI[a]
        # product of [lo,hi] and [l,h]; None is infinite
        if lo is not None and l is not None and lo >= 0 and l >= 0:
            lo = lo * l
            hi = None if hi is None or h is None else hi * h
            if hi is None and ((h == 0) or (h is not None and h == 0)):
                hi = 0
            continue
        c = []
        inf = False
        for x in (lo, hi):
            for y in (l, h):
                if x is None or y is None:
                    inf = True
                else:
                    c.append(x * y)
        if inf:
            lo, hi = None, None
        else:
            lo, hi = min(c), max(c)
    return lo, hi


def _plain_iv(t):
    lo = hi = 0
    for m, v in t.items():
        if not m:
            lo = None if lo is None else lo + v
            hi = None if hi is None else hi + v
            continue
        l, h = _mono_iv(m) if len(m) > 1 else (LO[m[0]], HI[m[0]])
        if v < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + v * l
        hi = None if (hi is None or h is None) else hi + v * h
        if lo is None and hi is None:
            return None, None
    return lo, hi


def _meet(a, b):
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    return lo, hi


def _interval(p):
    r = _plain_iv(p.t)
    # k * floor(q / c) = (k/c) * (q - rem), rem in [0, c-1]
    best = None
    for m, v in p.t.items():
        if len(m) == 1 and KIND[m[0]] == "fdiv":
            q, c = DATA[m[0]]
            if v % c == 0:
                # the substitution must cancel something
                f = v // c
                if any(mm and p.t.get(mm, 0) * f * x < 0 for mm, x in q.t.items()):
                    if best is None or DEPTH[m[0]] > DEPTH[best[0]]:
                        best = (m[0], q, c, f)
    if best is not None:
        a, q, c, f = best
        p2 = p - mk({(a,): f * c}) + q.scale(f)
        lo, hi = p2.iv()
        # + (-f) * [0, c-1]
        if f > 0:
            lo = None if lo is None else lo - f * (c - 1)
        else:
            hi = None if hi is None else hi + (-f) * (c - 1)
        r = _meet(r, (lo, hi))
    return r


# floor division --------------------------------------------------------------
_fd = {}


def fdiv(p, c):
    """floor(p / c) for a positive integer constant c."""
    if c == 1:
        return p
    if p.c is not None:
        return K(p.c // c)
    k = (p, c)
    r = _fd.get(k)
    if r is None:
        r = _fd[k] = _fdiv(p, c)
    return r


def _fdiv(p, c):
    out, rest = {}, {}
    for m, v in p.t.items():
        if not m:
            q, r = divmod(v, c)
            if q:
                out[m] = q
            if r:
                rest[m] = r
        elif v % c == 0:
            out[m] = v // c
        else:
            rest[m] = v
    base = mk(out)
    rest = mk(rest)
    if rest.c is not None:
        return base
    lo, hi = rest.iv()
    if lo is not None and hi is not None and lo // c == hi // c:
        return base + lo // c
    # a word made of bytes, one of which occurs both below and above the cut
    if any(abs(v) > c for v in rest.t.values()):
        low = mk({m: v % c for m, v in rest.t.items() if v % c})
        lo2, hi2 = low.iv()
        if lo2 is not None and hi2 is not None and lo2 // c == hi2 // c:
            return base + mk({m: v // c for m, v in rest.t.items() if v // c}) + lo2 // c
    g = c
    for m, v in rest.t.items():
        if m:
            g = gcd(g, v)
            if g == 1:
                break
    if g > 1:
        k = rest.const() // g
        inner = mk({m: v // g for m, v in rest.t.items() if m}) + k
        return base + fdiv(inner, c // g)
    # nested: floor((floor(q/d) + b) / c)
    nm = [m for m in rest.t if m]
    if len(nm) == 1 and len(nm[0]) == 1 and rest.t[nm[0]] == 1 and KIND[nm[0][0]] == "fdiv":
        q, d = DATA[nm[0][0]]
        return base + fdiv(q + d * rest.const(), c * d)
    if len(nm) == 1 and len(nm[0]) == 1 and KIND[nm[0][0]] == "fn":
        # a function of a tabulated function: fold into the table
        tab, b = DATA[nm[0][0]]
        v = rest.t[nm[0]]
        return base + mkfn(b, np.floor_divide(TABLES[tab] * v + rest.const(), c))
    if rest.isd:
        # nested, next to other terms
        for m in nm:
            if len(m) == 1 and rest.t[m] == 1 and KIND[m[0]] == "fdiv":
                q, d = DATA[m[0]]
                return base + fdiv(q + (rest - A(m[0])).scale(d), c * d)
    a = atom("fdiv", (rest, c), None if lo is None else lo // c, None if hi is None else hi // c,
             rest.isd, 1 + max(DEPTH[x] for x in rest.atoms))
    return base + A(a)


def fdivsym(p, q):
    """floor(p / q) for nonnegative p and positive q."""
    if q.c is not None:
        return fdiv(p, q.c)
    if p.c == 0:
        return ZERO
    if p is q:
        return ONE
    lo, hi = p.iv()
    a = atom("fdivs", (p, q), 0, hi, p.isd or q.isd, 1 + max(DEPTH[x] for x in p.atoms | q.atoms))
    return A(a)


def mod(p, c):
    if c == 1:
        return ZERO
    return p - fdiv(p, c).scale(c)


# tabulated unary functions -----------------------------------------------------
TABLES = []
_tabkey = {}
MAXTAB = 1 << 21


def table_id(arr):
    arr = np.ascontiguousarray(arr, dtype=np.int64)
    k = (arr.shape[0], arr.tobytes())
    i = _tabkey.get(k)
    if i is None:
        i = len(TABLES)
        TABLES.append(arr)
        _tabkey[k] = i
    return i


def canon_base(p):
    """p = const + g * q with q primitive, constant-free, leading coefficient > 0,
    drilled through single tabulated/floor atoms."""
    while True:
        nm = [m for m in p.t if m]
        if len(nm) == 1 and len(nm[0]) == 1:
            a = nm[0][0]
            if KIND[a] == "fdiv":
                p = DATA[a][0]
                continue
            if KIND[a] == "fn":
                p = DATA[a][1]
                continue
        break
    g = 0
    for m in nm:
        g = gcd(g, p.t[m])
    lead = p.t[min(nm)]
    if lead < 0:
        g = -g
    return mk({m: p.t[m] // g for m in nm})


def mkfn(base, arr):
    """The atom table[base - lo(base)], collapsed when it is affine."""
    lo, hi = base.iv()
    n = hi - lo + 1
    assert arr.shape[0] == n
    if n == 1:
        return K(int(arr[0]))
    d = int(arr[1]) - int(arr[0])
    if (np.diff(arr) == d).all():
        return base.scale(d) + (int(arr[0]) - d * lo)
    a = atom("fn", (table_id(arr), base), int(arr.min()), int(arr.max()), base.isd,
             1 + max(DEPTH[x] for x in base.atoms))
    return A(a)


def base_values(base):
    lo, hi = base.iv()
    if lo is None or hi is None or hi - lo + 1 > MAXTAB:
        return None
    return np.arange(lo, hi + 1, dtype=np.int64)


def eval_over(p, base, vals, memo=None):
    """Values of p as a function of base over vals, or None when p is not a
    function of base alone."""
    if p.c is not None:
        return np.full(vals.shape, p.c, dtype=np.int64)
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    # affine in base?
    bm = next(iter(base.t))
    if bm in p.t and p.t[bm] % base.t[bm] == 0:
        k = p.t[bm] // base.t[bm]
        d = p - base.scale(k)
        if d.c is not None:
            r = memo[p] = vals * k + d.c
            return r
    r = np.zeros(vals.shape, dtype=np.int64)
    for m, v in p.t.items():
        if not m:
            r = r + v
            continue
        x = None
        for a in m:
            if KIND[a] == "fdiv":
                e = eval_over(DATA[a][0], base, vals, memo)
                if e is None:
                    return None
                e = np.floor_divide(e, DATA[a][1])
            elif KIND[a] == "fn":
                e = eval_over(DATA[a][1], base, vals, memo)
                if e is None:
                    return None
                tab = TABLES[DATA[a][0]]
                e = tab[np.clip(e - DATA[a][1].iv()[0], 0, len(tab) - 1)]
            else:
                # single-atom base
                e = eval_over(A(a), base, vals, memo) if len(base.t) == 1 and base.t.get((a,)) == 1 and p is not A(a) else None
                if e is None:
                    return None
            x = e if x is None else x * e
        r = r + v * x
    memo[p] = r
    return r


def apply1(p, f):
    """f applied pointwise to the value of p (f: int64 array -> int64 array)."""
    if p.c is not None:
        return K(int(f(np.array([p.c], dtype=np.int64))[0]))
    b = canon_base(p)
    vals = base_values(b)
    if vals is None:
        return None
    e = eval_over(p, b, vals)
    if e is None:
        return None
    return mkfn(b, f(e))


# formulas ---------------------------------------------------------------------
# True | False | ('ge', p) | ('eq', p) | ('ne', p) | ('and', fs) | ('or', fs)
_ge = {}
_eq = {}
_nary = {}


def _gcd_nonconst(p):
    g = 0
    for m, v in p.t.items():
        if m:
            g = gcd(g, v)
            if g == 1:
                return 1
    return g


def ge(p):
    if p.c is not None:
        return p.c >= 0
    r = _ge.get(p)
    if r is None:
        # floor(x / y) + r >= 0  <=>  x + r * y >= 0   (y positive wherever the
        # quotient is defined)
        for m, v in p.t.items():
            if len(m) == 1 and (v == 1 or v == -1) and KIND[m[0]] == "fdivs":
                x, y = DATA[m[0]]
                rest = p - mk({m: v})
                if m[0] in rest.atoms:
                    continue
                r = ge(x + rest * y) if v == 1 else ge((rest + 1) * y - 1 - x)
                _ge[p] = r
                return r
        g = _gcd_nonconst(p)
        q = p
        if g > 1:
            c = p.const() // g
            q = mk({m: v // g for m, v in p.t.items() if m}) + c
        lo, hi = q.iv()
        if lo is not None and lo >= 0:
            r = True
        elif hi is not None and hi < 0:
            r = False
        else:
            r = ("ge", q)
        _ge[p] = r
    return r


def _modzero(q, nm):
    """q == 0 for q = +-((c + x) mod d) with x in a range shorter than d."""
    for m in nm:
        if len(m) != 1 or KIND[m[0]] != "fdiv":
            continue
        num, d = DATA[m[0]]
        if abs(q.t[m]) != d:
            continue
        s = -1 if q.t[m] > 0 else 1
        if q.scale(s) - num + A(m[0]).scale(d) != ZERO:
            continue
        x = num - num.const()
        lo, hi = x.iv()
        if lo is not None and hi is not None and hi - lo < d:
            v = lo + (-num.const() - lo) % d
            return eq(x - v) if v <= hi else False
        if len(num.atoms) == 1 and d & (d - 1) == 0:
            x = next(iter(num.atoms))
            lo, hi = LO[x], HI[x]
            if set(num.t) - {(), (x,), (x, x)} or num.t.get((x, x), 0) % d != 1 or lo is None or hi is None or hi - lo >= d:
                continue
            # (x - a)(x - b) with a - b odd: one factor is odd, so d divides the other
            sy = lambda v: (v + d // 2) % d - d // 2
            b1, c1 = sy(num.t.get((x,), 0)), sy(num.const())
            disc = b1 * b1 - 4 * c1
            r = isqrt(disc) if disc >= 0 else -1
            if r < 0 or r * r != disc or r % 2 == 0:
                continue
            out = []
            for t in ((-b1 + r) // 2, (-b1 - r) // 2):
                v = lo + (t - lo) % d
                if v <= hi:
                    out.append(eq(A(x) - v))
            return disj(out)
    return None


def eq(p):
    if p.c is not None:
        return p.c == 0
    r = _eq.get(p)
    if r is None:
        g = _gcd_nonconst(p)
        if p.const() % g:
            r = False
        else:
            lead = min(m for m in p.t if m)
            if p.t[lead] < 0:
                g = -g
            q = p if g == 1 else mk({m: v // g for m, v in p.t.items()})
            lo, hi = q.iv()
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                r = False
            else:
                nm = [m for m in q.t if m]
                z = _modzero(q, nm)
                if z is not None:
                    r = z
                elif len(nm) == 1 and len(nm[0]) == 1 and KIND[nm[0][0]] == "bor" and q.const() == 0:
                    x, y = DATA[nm[0][0]]
                    r = conj([eq(x), eq(y)])
                elif len(nm) == 1 and len(nm[0]) == 1 and KIND[nm[0][0]] == "b2i":
                    f = DATA[nm[0][0]]
                    r = neg(f) if q.const() == 0 else f
                elif q.const() == 0 and len(nm) == 1 and len(nm[0]) > 1:
                    r = disj([eq(A(a)) for a in nm[0]])
                elif lo == 0 and len(nm) > 1 and q.const() == 0:
                    # a sum of nonnegative terms is zero iff all of them are
                    parts = []
                    for m, v in q.t.items():
                        l, h = _mono_iv(m)
                        if v < 0 or l is None or l < 0:
                            parts = None
                            break
                        parts.append(eq(mk({m: 1})))
                    r = conj(parts) if parts else ("eq", q)
                else:
                    r = ("eq", q)
        _eq[p] = r
    return r


def ne(p):
    return neg(eq(p))


def conj(fs):
    out = []
    seen = set()
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        for g in (f[1] if f[0] == "and" else (f,)):
            if g not in seen:
                seen.add(g)
                out.append(g)
    for g in out:
        if g[0] in ("ge", "eq", "ne") and neg(g) in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def disj(fs):
    out = []
    seen = set()
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        for g in (f[1] if f[0] == "or" else (f,)):
            if g not in seen:
                seen.add(g)
                out.append(g)
    for g in out:
        if g[0] in ("ge", "eq", "ne") and neg(g) in seen:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    # A or (not A and B) = A or B
    res = []
    for g in out:
        if g[0] == "and":
            keep = [h for h in g[1] if neg(h) not in seen]
            if len(keep) != len(g[1]):
                g = conj(keep)
                if g is True:
                    return True
        if g not in res:
            res.append(g)
    if len(res) == 1:
        return res[0]
    return ("or", tuple(res))


_neg = {}


def neg(f):
    if f is True:
        return False
    if f is False:
        return True
    r = _neg.get(f)
    if r is None:
        k = f[0]
        if k == "ge":
            r = ge(-f[1] - 1)
        elif k == "eq":
            r = ("ne", f[1])
        elif k == "ne":
            r = ("eq", f[1])
        elif k == "and":
            r = disj([neg(x) for x in f[1]])
        else:
            r = conj([neg(x) for x in f[1]])
        _neg[f] = r
    return r


_fpolys = {}


def fpolys(f):
    if f is True or f is False:
        return ()
    r = _fpolys.get(f)
    if r is None:
        if f[0] in ("ge", "eq", "ne"):
            r = (f[1],)
        else:
            s = []
            for x in f[1]:
                for p in fpolys(x):
                    if p not in s:
                        s.append(p)
            r = tuple(s)
        _fpolys[f] = r
    return r


def fdata(f):
    return any(p.isd for p in fpolys(f))


_fatoms = {}


def fatoms(f):
    r = _fatoms.get(f)
    if r is None:
        s = set()
        for p in fpolys(f):
            s |= p.atoms
        r = _fatoms[f] = frozenset(s)
    return r


def feval(f, base, vals, memo):
    """Boolean array of f over base, or None."""
    if f is True or f is False:
        return np.full(vals.shape, f)
    if f[0] in ("ge", "eq", "ne"):
        e = eval_over(f[1], base, vals, memo)
        if e is None:
            return None
        return e >= 0 if f[0] == "ge" else (e == 0 if f[0] == "eq" else e != 0)
    acc = None
    for x in f[1]:
        e = feval(x, base, vals, memo)
        if e is None:
            return None
        acc = e if acc is None else (acc & e if f[0] == "and" else acc | e)
    return acc


def showf(f):
    if f is True or f is False:
        return str(f)
    if f[0] == "ge":
        return "%s >= 0" % show(f[1])
    if f[0] == "eq":
        return "%s == 0" % show(f[1])
    if f[0] == "ne":
        return "%s != 0" % show(f[1])
    return "(" + (" & " if f[0] == "and" else " | ").join(showf(x) for x in f[1]) + ")"


# substitution -------------------------------------------------------------------

def subst(p, mp, memo=None):
    """Replace atoms (dict atom -> Poly) everywhere, including inside atoms."""
    if p.c is not None:
        return p
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    acc = ZERO
    changed = False
    flat = {}
    for m, v in p.t.items():
        xs = None
        for i, a in enumerate(m):
            n = subst_atom(a, mp, memo)
            if n is not None:
                if xs is None:
                    xs = [A(b) for b in m]
                xs[i] = n
        if xs is None:
            flat[m] = flat.get(m, 0) + v
        else:
            changed = True
            x = K(v)
            for y in xs:
                x = x * y
            acc = acc + x
    r = p if not changed else acc + mk({m: v for m, v in flat.items() if v})
    memo[p] = r
    return r


def subst_atom(a, mp, memo):
    """New poly for atom a or None when unchanged."""
    n = mp.get(a)
    if n is not None:
        return n
    k = KIND[a]
    if k in ("in", "ctr", "opq"):
        return None
    key = ("a", a)
    if key in memo:
        return memo[key]
    d = DATA[a]
    r = None
    if k == "fdiv":
        q = subst(d[0], mp, memo)
        if q is not d[0]:
            r = fdiv(q, d[1])
    elif k == "fdivs":
        x, y = subst(d[0], mp, memo), subst(d[1], mp, memo)
        if x is not d[0] or y is not d[1]:
            r = fdivsym(x, y)
    elif k == "load":
        q = subst(d[1], mp, memo)
        if q is not d[1]:
            r = load(d[0], q)
    elif k == "fn":
        q = subst(d[1], mp, memo)
        if q is not d[1]:
            # the table is indexed from the low end of the old base, so it is
            # laid out again over the new one
            tab = TABLES[d[0]]
            olo = d[1].iv()[0]
            r = apply1(q, lambda x: tab[np.clip(x - olo, 0, len(tab) - 1)])
            if r is None and q.c is None:
                # the innermost argument is too wide for a table: q itself
                g = _gcd_nonconst(q)
                b, c = mk({m: v // g for m, v in q.t.items() if m}), q.t.get((), 0)
                vals = base_values(b)
                if vals is not None:
                    r = mkfn(b, tab[np.clip(vals * g + c - olo, 0, len(tab) - 1)])
            if r is None:
                r = A(atom("opq", ("fn", d[0], q), LO[a], HI[a], ISD[a], DEPTH[a]))
    elif k == "phi":
        f = substf(d[0], mp, memo)
        x, y = subst(d[1], mp, memo), subst(d[2], mp, memo)
        if f != d[0] or x is not d[1] or y is not d[2]:
            r = phi(f, x, y)
    elif k == "b2i":
        f = substf(d, mp, memo)
        if f != d:
            r = b2i(f)
    elif k in ("bor", "bxor", "band"):
        x, y = subst(d[0], mp, memo), subst(d[1], mp, memo)
        if x is not d[0] or y is not d[1]:
            r = A(atom(k, (x, y), LO[a], HI[a], ISD[a], DEPTH[a]))
    memo[key] = r
    return r


def substf(f, mp, memo=None):
    if f is True or f is False:
        return f
    if memo is None:
        memo = {}
    if not (fallatoms(f) & mp.keys()):
        return f
    if f[0] == "ge":
        return ge(subst(f[1], mp, memo))
    if f[0] == "eq":
        return eq(subst(f[1], mp, memo))
    if f[0] == "ne":
        return ne(subst(f[1], mp, memo))
    return (conj if f[0] == "and" else disj)([substf(x, mp, memo) for x in f[1]])


_deep = {}


def deep_atoms(p):
    """All atoms of p, including those nested in other atoms."""
    r = _deep.get(p)
    if r is None:
        s = set()
        for a in p.atoms:
            s.add(a)
            s |= deep_atom(a)
        r = _deep[p] = frozenset(s)
    return r


_deepa = {}


def deep_atom(a):
    r = _deepa.get(a)
    if r is None:
        k, d = KIND[a], DATA[a]
        if k == "fdiv":
            r = deep_atoms(d[0])
        elif k == "fdivs":
            r = deep_atoms(d[0]) | deep_atoms(d[1])
        elif k in ("load", "fn"):
            r = deep_atoms(d[1])
        elif k == "phi":
            r = fallatoms(d[0]) | deep_atoms(d[1]) | deep_atoms(d[2])
        elif k == "b2i":
            r = fallatoms(d)
        elif k in ("bor", "bxor", "band"):
            r = deep_atoms(d[0]) | deep_atoms(d[1])
        else:
            r = frozenset()
        _deepa[a] = r
    return r


_fall = {}


def fallatoms(f):
    if f is True or f is False:
        return frozenset()
    r = _fall.get(f)
    if r is None:
        s = frozenset()
        for p in fpolys(f):
            s |= deep_atoms(p)
        r = _fall[f] = s
    return r


# constructors of atoms ------------------------------------------------------------

def inp(name, lo, hi):
    return A(atom("in", name, lo, hi))


def load(region, off):
    return A(atom("load", (region, off), 0, 255, True, 1 + max([DEPTH[x] for x in off.atoms], default=0)))


def b2i(f):
    if f is True:
        return ONE
    if f is False:
        return ZERO
    return A(atom("b2i", f, 0, 1, fdata(f), 1 + max(DEPTH[x] for x in fatoms(f))))


def _hull(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return lo, hi


def phi(f, x, y):
    """x if f else y."""
    if f is True:
        return x
    if f is False:
        return y
    if x is y:
        return x
    if fdata(f):
        r = data_phi(f, x, y)
        if r is not None:
            return r
    # canonical polarity
    if f[0] == "ne":
        f, x, y = neg(f), y, x
    # trivial forms: (p == 0) ? c : p  with c == 0
    if f[0] == "eq":
        d = x - y
        if d is f[1] or d is -f[1]:
            return y
    # division rounding up: (a mod c > 0) ? a / c + 1 : a / c
    d = (x - y).c
    if d == 1 or d == -1:
        low = y if d == 1 else x
        for F in low.atoms:
            if KIND[F] == "fdiv" and low.t.get((F,)) == 1:
                a, c = DATA[F]
                m = a - A(F).scale(c)
                if f == (ge(m - 1) if d == 1 else eq(m)) or f == (ne(m) if d == 1 else ge(-m)):
                    return low - A(F) + fdiv(a + (c - 1), c)
    lo, hi = _hull(x.iv(), y.iv())
    ats = fatoms(f) | x.atoms | y.atoms
    return A(atom("phi", (f, x, y), lo, hi, x.isd or y.isd or fdata(f),
                  1 + max([DEPTH[a] for a in ats], default=0)))


def data_phi(f, x, y):
    cands = []
    for p in list(fpolys(f)) + [x, y]:
        if p.c is None:
            b = canon_base(p)
            if b not in cands:
                cands.append(b)
            # bases of inner atoms
            for a in p.atoms:
                if KIND[a] in ("fdiv", "fn"):
                    q = DATA[a][0] if KIND[a] == "fdiv" else DATA[a][1]
                    if q.c is None:
                        b = canon_base(q)
                        if b not in cands:
                            cands.append(b)
    cands.sort(key=lambda b: (max(DEPTH[a] for a in b.atoms), b.id))
    for b in cands:
        vals = base_values(b)
        if vals is None:
            continue
        memo = {}
        c = feval(f, b, vals, memo)
        if c is None:
            continue
        ex = eval_over(x, b, vals, memo)
        if ex is None:
            continue
        ey = eval_over(y, b, vals, memo)
        if ey is None:
            continue
        return mkfn(b, np.where(c, ex, ey))
    return None


_opq = [0]


def opaque(lo, hi, tag="opq", isdata=False):
    _opq[0] += 1
    return A(atom("opq", (tag, _opq[0]), lo, hi, isdata))
