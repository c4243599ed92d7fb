"""What a conversion writes, in terms of the image instead of addresses.

Every store of the abstract interpretation has a symbolic address, a symbolic value
per byte, the loops around it and the facts it happens under.  Here the address
is split into plane, row and column, and every source byte in the value is
renamed after its place relative to the pixel that is written.  The result no longer
mentions counters, strides or dimensions unless the value really depends on
them, and the same transfer function has the same name wherever it comes from."""
import numpy as np
import conv
import interp
import ref
import witness
from interp import Unsupported
from roots import U64
from terms import *


class Plane:
    def __init__(self, W, side, i, spec, given=True):
        b, ch, sx, sy, at = spec
        self.i, self.buf, self.ch, self.sx, self.sy = i, b, ch, sx, sy
        self.region = "%s%d" % (side, b)
        self.row = fdiv(W.w, sx) * len(ch)
        self.rows = fdiv(W.h, sy)
        s = W.inp("%sstride%d" % (side[0], b), 0, U64)
        # a stride of zero stands for the row length
        self.raw = s if given else ZERO
        self.S = phi(ne(s), s, self.row) if given else self.row
        self.alt = {}
        self.first = W.h if at == "h" else ZERO
        self.name = "%s plane %s" % ("source" if side == "src" else "destination", ch if len(ch) < 3 else "")


class Nosplit(Exception):
    pass


def split(off, S):
    """off = S * row + column."""
    if len(S.t) != 1:
        raise Nosplit("stride %s" % show(S)[:60])
    (sm, sv), = S.t.items()
    if sv != 1 or len(sm) != 1:
        raise Nosplit("stride %s" % show(S)[:60])
    s = sm[0]
    R, C = {}, {}
    for m, v in off.t.items():
        k = m.count(s)
        if k == 0:
            C[m] = C.get(m, 0) + v
        elif k == 1:
            q = list(m)
            q.remove(s)
            R[tuple(q)] = R.get(tuple(q), 0) + v
        else:
            raise Nosplit("square of a stride")
    R, C = mk(R), mk(C)
    for p in (R, C):
        if s in deep_atoms(p):
            raise Nosplit("stride inside a term")
    return R, C


def within(st, e):
    """What holds when the store is executed."""
    out = list(st.facts)
    for f in e.facts:
        if f not in st.fset:
            out.append(f)
    for l in e.loops:
        k = A(l[0]) if isinstance(l[0], int) else l[0]
        out += [ge(k), ge(l[1] - k - 1)] + list(l[2])
    return tuple(out)


class Byte:
    """One byte of a store: plane, row, pixel column, channel and canonical value."""
    __slots__ = ("plane", "R", "X", "ch", "term", "raw", "far", "ev", "j", "state")


class Image:
    """The stores of one conversion under one instruction set."""

    def __init__(self, ctx, c, setname, light=False):
        self.ctx, self.c, self.set = ctx, c, setname
        self.run = conv.Run(ctx, conv.tuplify(c), setname, (True, True), light=light)
        W = self.run.W
        self.I = self.run.I
        (sp, scs, sn), (dp, dcs, dn) = c
        self.src = [Plane(W, "src", i, s) for i, s in enumerate(ref.planes(sp, sn))]
        self.dst = [Plane(W, "dst", i, s) for i, s in enumerate(ref.planes(dp, dn))]
        self.w, self.h = W.w, W.h
        self.und = []
        self.ok = [st for st, k in self.run.classify() if k == "ok"]
        for st, k in self.run.classify():
            if k is None:
                self.und.append("result of unknown kind")

    def place(self, planes, region, off, facts, hint=None):
        """[(plane, row, column)] for an address; one entry unless ambiguous."""
        ps = [p for p in planes if p.region == region]
        if not ps:
            raise Nosplit("region %s" % region)
        R, C = split(off, self.stride(ps, off, facts))
        if len(ps) == 1:
            return ps[0], R - ps[0].first, C
        # luma and chroma in one buffer: rows from the height on are chroma
        luma, chroma = (ps[0], ps[1]) if ps[0].first is ZERO else (ps[1], ps[0])
        d = R - chroma.first
        pr = self.I.pr
        if d.iv()[0] is not None and d.iv()[0] >= 0:
            return chroma, d, C
        if pr.prove(facts, ge(d)):
            return chroma, d, C
        if pr.prove(facts, ge(-d - 1)):
            return luma, R, C
        raise Nosplit("row %s" % show(R)[:60])

    def stride(self, ps, off, facts):
        """The atom that stands for the effective stride of the planes' buffer."""
        p = ps[0]
        if not p.raw.t or all(a in off.atoms for a in p.S.atoms):
            return p.S
        for a in off.atoms:
            if KIND[a] != "phi":
                continue
            if a not in p.alt:
                f, x, y = DATA[a]
                if f == eq(p.raw):
                    f, x, y = neg(f), y, x
                p.alt[a] = f == ne(p.raw) and x is p.raw and any(self.I.pr.prove(facts, eq(y - q.row)) for q in ps)
            if p.alt[a]:
                return A(a)
        return p.S

    def bytes(self):
        """All bytes written on success."""
        if hasattr(self, "_bytes"):
            return self._bytes
        out = []
        seen = set()
        for st in self.ok:
            for e in st.ev:
                # merged states share their events
                k = (e.region, e.off, tuple(e.terms) if e.terms else len(e.terms), tuple((l[0], l[1]) for l in e.loops))
                if k in seen:
                    continue
                seen.add(k)
                try:
                    out += self.event(st, e)
                except Nosplit as x:
                    self.und.append("%s: address %s not understood (%s)" % (e.where, show(e.off)[:120], x))
        self._bytes = out
        return out

    def event(self, st, e):
        facts = within(st, e)
        p, R, C = self.place(self.dst, e.region, e.off, facts)
        n = len(p.ch)
        out = []
        memo = {}
        places = {}
        for j, t in enumerate(e.terms):
            b = Byte()
            b.plane, b.R, b.ev, b.j, b.raw, b.state = p, R, e, j, t, st
            col = C + j
            b.X = fdiv(col, n)
            ch = col - b.X.scale(n)
            if ch.c is None:
                raise Nosplit("channel of column %s" % show(col)[:80])
            b.ch = ch.c
            b.far = []
            mp = {}
            for a in deep_atoms(t):
                if KIND[a] == "load":
                    mp[a] = self.rename(a, p, R, b.X, facts, b.far, places)
            b.term = subst(t, mp, {}) if mp else t
            out.append(b)
        return out

    def rename(self, a, p, R, X, facts, far, places):
        """The source byte of atom a by its place relative to pixel (R, X) of plane p."""
        region, off = DATA[a]
        k = (region, off)
        if k not in places:
            try:
                places[k] = self.place(self.src, region, off, facts) if region.startswith("src") else None
            except Nosplit as x:
                places[k] = x
        q = places[k]
        if q is None or isinstance(q, Exception):
            far.append((a, "%s of %s" % ("a byte", region), None))
            return load("far " + region, off)
        s, r, c = q
        n = len(s.ch)
        # the image pixels under the sample: X*sx.., R*sy..
        x0, y0 = fdiv(X.scale(p.sx), s.sx), fdiv(R.scale(p.sy), s.sy)
        nx, ny = max(1, p.sx // s.sx), max(1, p.sy // s.sy)
        dy, dc = r - y0, c - x0.scale(n)
        dy, dc = self.const(dy, ny, facts), self.const(dc, nx * n, facts)
        if dy is None or dc is None or not (0 <= dy < ny) or not (0 <= dc < nx * n):
            far.append((a, s, (r - y0, c - x0.scale(n), ny, nx * n)))
            return load("far " + region, off)
        return load("px", K(code(s.i, dy, dc // n, dc % n)))

    def const(self, d, n, facts):
        if d.c is not None:
            return d.c
        for k in range(n):
            if self.I.pr.prove(facts, eq(d - k)):
                return k
        return None


def code(plane, dy, dx, ch):
    return ((plane * 4 + dy) * 4 + dx) * 4 + ch


def decode(k):
    ch = k % 4
    dx = k // 4 % 4
    dy = k // 16 % 4
    return k // 64, dy, dx, ch


def pxname(k, src):
    p, dy, dx, ch = decode(k)
    s = src[p]
    n = s.ch[ch]
    return n if (dy, dx) == (0, 0) else "%s(%+d,%+d)" % (n, dx, dy)


def variables(t):
    """Canonical source bytes of a term, or None if it depends on anything else."""
    out = set()
    for a in deep_atoms(t):
        k = KIND[a]
        if k == "load" and DATA[a][0] == "px":
            out.add((DATA[a][1].c, a))
        elif k in ("in", "ctr", "opq", "load"):
            return None
    return sorted(out)


def evaluate(t, env):
    """Values of a term over numpy arrays: env maps atoms to int64 arrays."""
    memo = {}

    def poly(p):
        if p.c is not None:
            return np.int64(p.c)
        r = memo.get(p)
        if r is None:
            r = np.int64(0)
            for m, v in p.t.items():
                x = np.int64(v)
                for a in m:
                    x = x * at(a)
                r = r + x
            memo[p] = r
        return r

    def form(f):
        if f is True or f is False:
            return f
        if f[0] == "ge":
            return poly(f[1]) >= 0
        if f[0] == "eq":
            return poly(f[1]) == 0
        if f[0] == "ne":
            return poly(f[1]) != 0
        r = None
        for g in f[1]:
            x = form(g)
            r = x if r is None else (r & x) if f[0] == "and" else (r | x)
        return r

    def at(a):
        if a in env:
            return env[a]
        k = ("a", a)
        if k in memo:
            return memo[k]
        kind, d = KIND[a], DATA[a]
        if kind == "fdiv":
            r = np.floor_divide(poly(d[0]), d[1])
        elif kind == "fdivs":
            r = np.floor_divide(poly(d[0]), poly(d[1]))
        elif kind == "fn":
            tab = TABLES[d[0]]
            r = tab[np.clip(poly(d[1]) - fnlo(d), 0, len(tab) - 1)]
        elif kind == "phi":
            r = np.where(form(d[0]), poly(d[1]), poly(d[2]))
        elif kind == "b2i":
            r = np.where(form(d), 1, 0)
        elif kind == "band":
            r = poly(d[0]) & poly(d[1])
        elif kind == "bor":
            r = poly(d[0]) | poly(d[1])
        elif kind == "bxor":
            r = poly(d[0]) ^ poly(d[1])
        else:
            raise Unsupported("value of %s" % kind)
        memo[k] = r
        return r
    return poly(t)


def fnlo(d):
    return d[1].iv()[0]


def samples(n, seed):
    """Byte vectors for n variables: corners, single steps, random."""
    rng = np.random.default_rng(seed)
    ext = np.array([0, 1, 15, 16, 17, 127, 128, 129, 234, 235, 236, 239, 240, 241, 254, 255])
    parts = [rng.integers(0, 256, (20000, n)), rng.choice(ext, (20000, n)), rng.choice(np.array([0, 255]), (4096, n))]
    g = np.arange(256)
    parts.append(np.repeat(g[:, None], n, 1))
    for i in range(n):
        for base in (0, 128, 255):
            m = np.full((256, n), base)
            m[:, i] = g
            parts.append(m)
    return np.concatenate(parts)


def grid(atoms):
    """All values of up to three bytes, in slices."""
    g = np.arange(256, dtype=np.int64)
    if len(atoms) == 0:
        yield {}
    elif len(atoms) == 1:
        yield {atoms[0]: g}
    elif len(atoms) == 2:
        yield {atoms[0]: g[:, None], atoms[1]: g[None, :]}
    else:
        for lo in range(0, 256, 16):
            yield {atoms[0]: g[lo:lo + 16, None, None], atoms[1]: g[None, :, None], atoms[2]: g[None, None, :]}


def differ(t, u, seed=1):
    """None: t and u are the same function.  dict: bytes for which they differ.
    False: not decided."""
    if t is u:
        return None
    a, b = variables(t), variables(u)
    if a is None or b is None:
        return False
    ats = [x for _, x in sorted(set(a) | set(b))]
    if len(ats) <= 3:
        for env in grid(ats):
            x, y = np.broadcast_arrays(evaluate(t, env), evaluate(u, env))
            i = np.argwhere(x != y)
            if len(i):
                i = tuple(i[0])
                full = {k: np.broadcast_to(v, x.shape) if x.shape else v for k, v in env.items()}
                return {DATA[k][1].c: int(v[i]) for k, v in full.items()}
        return None
    m = samples(len(ats), seed)
    env = {a: m[:, i] for i, a in enumerate(ats)}
    x, y = np.broadcast_arrays(evaluate(t, env), evaluate(u, env))
    i = np.argwhere(x != y)
    if len(i):
        i = i[0][0]
        return {DATA[k][1].c: int(v[i]) for k, v in env.items()}
    return False


def depends(t, atom, others, seed=1):
    """Values of the other atoms for which t changes with the given atom, or None."""
    ats = [atom] + [o for o in others if o != atom]
    m = samples(len(ats), seed)
    env = {a: m[:, i] for i, a in enumerate(ats)}
    x = evaluate(t, env)
    env2 = dict(env)
    env2[atom] = 255 - env[atom]
    y = evaluate(t, env2)
    x, y = np.broadcast_arrays(x, y)
    i = np.argwhere(x != y)
    return int(i[0][0]) if len(i) else None


def feasible(img, b, more=(), seed=1):
    """Concrete dimensions, strides and counters under which the byte is written."""
    facts = within(b.state, b.ev)
    w = witness.search(facts, list(more), seed, restarts=30, steps=300)
    if w is None or not w[1]:
        return None
    return conv.inputs_of(w[0])
