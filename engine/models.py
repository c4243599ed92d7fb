"""Semantics of functions that are taken as given: CPU intrinsics, compiler
intrinsics and the leaves of the standard library."""
import numpy as np
from terms import *
from values import *


# helpers ------------------------------------------------------------------------

def const_args(I, fn):
    out = []
    for g in fn.ga:
        if g[0] == "c":
            out.append(I.decode(g[2], 0, g[1]).c)
    return out


def type_arg(I, fn, n=0):
    ts = [g[1] for g in fn.ga if g[0] == "t"]
    return ts[n]


def lanes(v, w):
    return [p for _, p in resegment(v.s, w)]


def vec(w, ps):
    return Vec(tuple((w, p) for p in ps))


def ismark(*vs):
    return any(isinstance(v, Vec) and v.s is None or v is LIGHT for v in vs)


def clamp(p, lo, hi):
    """p clamped to [lo, hi]."""
    l, h = p.iv()
    if l is not None and h is not None and l >= lo and h <= hi:
        return p
    r = apply1(p, lambda x: np.clip(x, lo, hi))
    if r is not None:
        return r
    # base too wide: tabulate over p itself
    if l is not None and h is not None and h - l + 1 <= MAXTAB:
        b = own_base(p)
        vals = base_values(b)
        if vals is not None:
            k = next(iter(b.t))
            s = p.t[k] // b.t[k]
            return mkfn(b, np.clip(vals * s + (p - b.scale(s)).c, lo, hi))
    return phi(ge(p - hi - 1), K(hi), phi(ge(K(lo - 1) - p), K(lo), p))


def own_base(p):
    nm = [m for m in p.t if m]
    g = 0
    for m in nm:
        g = gcd(g, p.t[m])
    if p.t[min(nm)] < 0:
        g = -g
    return mk({m: p.t[m] // g for m in nm})


def bitwise(op, a, b):
    sa, sb = a.s, b.s
    out = []
    # operate on whole segments where one side is all zeros or all ones
    if [x for x, _ in sa] == [x for x, _ in sb]:
        pairs = zip(sa, sb)
    else:
        pairs = None
    if pairs is not None:
        ok = True
        tmp = []
        for (w, p), (_, q) in pairs:
            r = seg_op(op, w, p, q)
            if r is None:
                ok = False
                break
            tmp.append((w, r))
        if ok:
            return Vec(tuple(tmp))
    from interp import bitop_u
    ba, bb = resegment(sa, 8), resegment(sb, 8)
    for (w, p), (_, q) in zip(ba, bb):
        r = seg_op(op, 8, p, q)
        if r is None:
            r = bitop_u(op, uns(p, 8), uns(q, 8), 8)
        out.append((8, r))
    return Vec(tuple(out))


def seg_op(op, w, p, q):
    full = (1 << w) - 1
    for x, y in ((p, q), (q, p)):
        if x.c is not None:
            c = x.c & full
            if c == 0:
                return ZERO if op == "BitAnd" else y
            if c == full:
                return y if op == "BitAnd" else (K(full) if op == "BitOr" else K(full) - uns(y, w))
    if p is q:
        return ZERO if op == "BitXor" else p
    if p.c is not None and q.c is not None:
        a, b = p.c & full, q.c & full
        return K(a & b if op == "BitAnd" else (a | b if op == "BitOr" else a ^ b))
    return None


SIMD = {}


def simd(*names):
    def d(f):
        for n in names:
            SIMD[n] = f
        return f
    return d


def lanewise2(w, f):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        return vec(w, [f(x, y) for x, y in zip(lanes(a[0], w), lanes(a[1], w))])
    return g


def both(suffix, f):
    SIMD["_mm_" + suffix] = f
    SIMD["_mm256_" + suffix] = f


for _w in (8, 16, 32, 64):
    both("add_epi%d" % _w, lanewise2(_w, lambda x, y: x + y))
    both("sub_epi%d" % _w, lanewise2(_w, lambda x, y: x - y))
    both("cmpeq_epi%d" % _w, (lambda w: lanewise2(w, lambda x, y: -b2i(eq(uns(x, w) - uns(y, w)))))(_w))
    both("cmpgt_epi%d" % _w, (lambda w: lanewise2(w, lambda x, y: -b2i(ge(sgn(x, w) - sgn(y, w) - 1))))(_w))
for _w in (8, 16):
    _lo, _hi = -(1 << (_w - 1)), (1 << (_w - 1)) - 1
    _u = (1 << _w) - 1
    both("adds_epi%d" % _w, (lambda w, lo, hi: lanewise2(w, lambda x, y: clamp(sgn(x, w) + sgn(y, w), lo, hi)))(_w, _lo, _hi))
    both("subs_epi%d" % _w, (lambda w, lo, hi: lanewise2(w, lambda x, y: clamp(sgn(x, w) - sgn(y, w), lo, hi)))(_w, _lo, _hi))
    both("adds_epu%d" % _w, (lambda w, u: lanewise2(w, lambda x, y: clamp(uns(x, w) + uns(y, w), 0, u)))(_w, _u))
    both("subs_epu%d" % _w, (lambda w, u: lanewise2(w, lambda x, y: clamp(uns(x, w) - uns(y, w), 0, u)))(_w, _u))
    both("avg_epu%d" % _w, (lambda w: lanewise2(w, lambda x, y: fdiv(uns(x, w) + uns(y, w) + 1, 2)))(_w))
for _w in (8, 16, 32):
    for _s, _r in (("i", sgn), ("u", uns)):
        both("max_ep%s%d" % (_s, _w), (lambda w, r: lanewise2(w, lambda x, y: phi(ge(r(x, w) - r(y, w)), r(x, w), r(y, w))))(_w, _r))
        both("min_ep%s%d" % (_s, _w), (lambda w, r: lanewise2(w, lambda x, y: phi(ge(r(y, w) - r(x, w)), r(x, w), r(y, w))))(_w, _r))
both("mullo_epi16", lanewise2(16, lambda x, y: sgn(x, 16) * sgn(y, 16)))
both("mullo_epi32", lanewise2(32, lambda x, y: sgn(x, 32) * sgn(y, 32)))
both("mulhi_epi16", lanewise2(16, lambda x, y: fdiv(sgn(x, 16) * sgn(y, 16), 1 << 16)))
both("mulhi_epu16", lanewise2(16, lambda x, y: fdiv(uns(x, 16) * uns(y, 16), 1 << 16)))
both("mulhrs_epi16", lanewise2(16, lambda x, y: fdiv(fdiv(sgn(x, 16) * sgn(y, 16), 1 << 14) + 1, 2)))
both("mul_epu32", lanewise2(64, lambda x, y: mod(uns(x, 64), 1 << 32) * mod(uns(y, 64), 1 << 32)))


def m_madd(I, st, fn, a):
    if ismark(*a):
        return LVEC
    x, y = lanes(a[0], 16), lanes(a[1], 16)
    return vec(32, [sgn(x[i], 16) * sgn(y[i], 16) + sgn(x[i + 1], 16) * sgn(y[i + 1], 16) for i in range(0, len(x), 2)])


def m_maddubs(I, st, fn, a):
    if ismark(*a):
        return LVEC
    x, y = lanes(a[0], 8), lanes(a[1], 8)
    return vec(16, [clamp(uns(x[i], 8) * sgn(y[i], 8) + uns(x[i + 1], 8) * sgn(y[i + 1], 8), -32768, 32767)
                    for i in range(0, len(x), 2)])


both("madd_epi16", m_madd)
both("maddubs_epi16", m_maddubs)


def m_hadd(w):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        x, y = lanes(a[0], w), lanes(a[1], w)
        n = 128 // w
        out = []
        for h in range(0, len(x), n):
            for z in (x, y):
                out += [z[h + i] + z[h + i + 1] for i in range(0, n, 2)]
        return vec(w, out)
    return g


both("hadd_epi16", m_hadd(16))
both("hadd_epi32", m_hadd(32))


def m_sad(I, st, fn, a):
    raise NotImplementedError


def bit(op):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        return bitwise(op, a[0], a[1])
    return g


for _n, _o in (("and", "BitAnd"), ("or", "BitOr"), ("xor", "BitXor")):
    SIMD["_mm_%s_si128" % _n] = SIMD["_mm256_%s_si256" % _n] = bit(_o)


def m_andnot(I, st, fn, a):
    if ismark(*a):
        return LVEC
    inv = Vec(tuple((w, K((1 << w) - 1) - uns(p, w)) for w, p in resegment(a[0].s, 8)))
    return bitwise("BitAnd", inv, a[1])


SIMD["_mm_andnot_si128"] = SIMD["_mm256_andnot_si256"] = m_andnot


def shift(kind, w):
    def g(I, st, fn, a):
        if ismark(a[0]):
            return LVEC
        cs = const_args(I, fn)
        if cs:
            n = cs[0] & 0xff
        elif isinstance(a[1], Poly) and a[1].c is not None:
            n = a[1].c
        elif isinstance(a[1], Vec) and lanes(a[1], 64)[0].c is not None:
            n = lanes(a[1], 64)[0].c
        else:
            return NotImplemented
        x = lanes(a[0], w)
        if kind == "sll":
            return vec(w, [ZERO if n >= w else p.scale(1 << n) for p in x])
        if kind == "srl":
            return vec(w, [ZERO if n >= w else fdiv(uns(p, w), 1 << n) for p in x])
        return vec(w, [fdiv(sgn(p, w), 1 << min(n, w - 1)) for p in x])
    return g


for _w in (16, 32, 64):
    for _k in ("sll", "srl", "sra"):
        both("%si_epi%d" % (_k, _w), shift(_k, _w))
        both("%s_epi%d" % (_k, _w), shift(_k, _w))


def byteshift(left):
    def g(I, st, fn, a):
        if ismark(a[0]):
            return LVEC
        n = const_args(I, fn)[0] & 0xff
        b = resegment(a[0].s, 8)
        out = []
        for h in range(0, len(b), 16):
            x = list(b[h:h + 16])
            z = [(8, ZERO)] * min(n, 16)
            x = z + x[:16 - len(z)] if left else x[len(z):] + z
            out += x
        return coalesce(Vec(tuple(out)), a[0])
    return g


def coalesce(v, like):
    return v


for _n in ("slli", "bslli"):
    SIMD["_mm_%s_si128" % _n] = SIMD["_mm256_%s_si256" % _n] = byteshift(True)
    SIMD["_mm256_%s_epi128" % _n] = byteshift(True)
for _n in ("srli", "bsrli"):
    SIMD["_mm_%s_si128" % _n] = SIMD["_mm256_%s_si256" % _n] = byteshift(False)
    SIMD["_mm256_%s_epi128" % _n] = byteshift(False)


def unpack(w, high):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        x, y = split_segs(a[0], w), split_segs(a[1], w)
        n = 128 // w
        out = []
        for h in range(0, len(x), n):
            for i in range(n // 2):
                j = h + i + (n // 2 if high else 0)
                out += [x[j], y[j]]
        return from_chunks(out)
    return g


def split_segs(v, w):
    """Chunks of w bits, each a tuple of segments (kept as fine as they are)."""
    s = v.s
    out = []
    acc, n = [], 0
    for b, p in s:
        if b > w or n + b > w:
            return [((w, p),) for _, p in resegment(s, w)]
        acc.append((b, p))
        n += b
        if n == w:
            out.append(tuple(acc))
            acc, n = [], 0
    return out


def from_chunks(ch):
    out = []
    for c in ch:
        out += c
    return Vec(tuple(out))


for _w in (8, 16, 32, 64):
    both("unpacklo_epi%d" % _w, unpack(_w, False))
    both("unpackhi_epi%d" % _w, unpack(_w, True))


def pack(w, lo, hi):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        x, y = lanes(a[0], w), lanes(a[1], w)
        n = 128 // w
        out = []
        for h in range(0, len(x), n):
            out += x[h:h + n] + y[h:h + n]
        return vec(w // 2, [clamp(sgn(p, w), lo, hi) for p in out])
    return g


both("packs_epi16", pack(16, -128, 127))
both("packs_epi32", pack(32, -32768, 32767))
both("packus_epi16", pack(16, 0, 255))
both("packus_epi32", pack(32, 0, 65535))


def shuffle32(I, st, fn, a):
    if ismark(*a):
        return LVEC
    c = const_args(I, fn)[0] & 0xff
    x = split_segs(a[0], 32)
    return from_chunks([x[h + ((c >> (2 * i)) & 3)] for h in range(0, len(x), 4) for i in range(4)])


both("shuffle_epi32", shuffle32)


def shuffle16(hi):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        c = const_args(I, fn)[0] & 0xff
        x = split_segs(a[0], 16)
        out = []
        for h in range(0, len(x), 8):
            b = x[h:h + 8]
            o = 4 if hi else 0
            m = [b[o + ((c >> (2 * i)) & 3)] for i in range(4)]
            out += (b[:4] + m) if hi else (m + b[4:])
        return from_chunks(out)
    return g


both("shufflelo_epi16", shuffle16(False))
both("shufflehi_epi16", shuffle16(True))


def shuffle8(I, st, fn, a):
    if ismark(*a):
        return LVEC
    x, m = split_segs(a[0], 8), lanes(a[1], 8)
    out = []
    for i, k in enumerate(m):
        if k.c is None:
            return NotImplemented
        c = k.c & 0xff
        out.append(((8, ZERO),) if c & 0x80 else x[(i & ~15) + (c & 15)])
    return from_chunks(out)


both("shuffle_epi8", shuffle8)


def m_permutevar8x32(I, st, fn, a):
    if ismark(*a):
        return LVEC
    x, m = split_segs(a[0], 32), lanes(a[1], 32)
    if any(k.c is None for k in m):
        return NotImplemented
    return from_chunks([x[k.c & 7] for k in m])


SIMD["_mm256_permutevar8x32_epi32"] = m_permutevar8x32


def m_permute4x64(I, st, fn, a):
    if ismark(*a):
        return LVEC
    c = const_args(I, fn)[0] & 0xff
    x = split_segs(a[0], 64)
    return from_chunks([x[(c >> (2 * i)) & 3] for i in range(4)])


SIMD["_mm256_permute4x64_epi64"] = m_permute4x64


def m_permute2x128(I, st, fn, a):
    if ismark(*a):
        return LVEC
    c = const_args(I, fn)[0] & 0xff
    x = split_segs(a[0], 128) + split_segs(a[1], 128)
    out = []
    for s in (0, 4):
        k = (c >> s) & 15
        out.append(((128, ZERO),) if k & 8 else x[k & 3])
    return from_chunks(out)


SIMD["_mm256_permute2x128_si256"] = SIMD["_mm256_permute2f128_si256"] = m_permute2x128


def m_blend32(I, st, fn, a):
    if ismark(*a):
        return LVEC
    c = const_args(I, fn)[0]
    x, y = split_segs(a[0], 32), split_segs(a[1], 32)
    return from_chunks([y[i] if (c >> i) & 1 else x[i] for i in range(len(x))])


both("blend_epi32", m_blend32)


def m_blend16(I, st, fn, a):
    if ismark(*a):
        return LVEC
    c = const_args(I, fn)[0]
    x, y = split_segs(a[0], 16), split_segs(a[1], 16)
    return from_chunks([y[i] if (c >> (i & 7)) & 1 else x[i] for i in range(len(x))])


both("blend_epi16", m_blend16)


def m_blendv8(I, st, fn, a):
    if ismark(*a):
        return LVEC
    x, y, m = split_segs(a[0], 8), split_segs(a[1], 8), lanes(a[2], 8)
    if any(k.c is None for k in m):
        return NotImplemented
    return from_chunks([y[i] if m[i].c & 0x80 else x[i] for i in range(len(x))])


both("blendv_epi8", m_blendv8)


def m_alignr(I, st, fn, a):
    if ismark(*a):
        return LVEC
    n = const_args(I, fn)[0] & 0xff
    x, y = split_segs(a[0], 8), split_segs(a[1], 8)
    out = []
    for h in range(0, len(x), 16):
        z = y[h:h + 16] + x[h:h + 16] + [((8, ZERO),)] * 32
        out += z[n:n + 16]
    return from_chunks(out)


both("alignr_epi8", m_alignr)


# construction
def setter(w, rev):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        a = list(a)
        if rev:
            a.reverse()
        return vec(w, a)
    return g


for _p in ("_mm_", "_mm256_"):
    for _w, _x in ((8, "epi8"), (16, "epi16"), (32, "epi32"), (64, "epi64x")):
        SIMD[_p + "set_" + _x] = setter(_w, True)
        SIMD[_p + "setr_" + _x] = setter(_w, False)
        _n = (128 if _p == "_mm_" else 256) // _w
        SIMD[_p + "set1_" + _x] = (lambda w, n: lambda I, st, fn, a: LVEC if ismark(*a) else vec(w, [a[0]] * n))(_w, _n)
SIMD["_mm_setzero_si128"] = lambda I, st, fn, a: vec(64, [ZERO] * 2)
SIMD["_mm256_setzero_si256"] = lambda I, st, fn, a: vec(64, [ZERO] * 4)
SIMD["_mm_undefined_si128"] = SIMD["_mm_setzero_si128"]
SIMD["_mm256_undefined_si256"] = SIMD["_mm256_setzero_si256"]


def m_set_m128i(I, st, fn, a):
    if ismark(*a):
        return LVEC
    return Vec(a[1].s + a[0].s)


SIMD["_mm256_set_m128i"] = m_set_m128i
SIMD["_mm256_setr_m128i"] = lambda I, st, fn, a: LVEC if ismark(*a) else Vec(a[0].s + a[1].s)


def m_extract128(I, st, fn, a):
    if ismark(*a):
        return LVEC
    return from_chunks([split_segs(a[0], 128)[const_args(I, fn)[0] & 1]])


SIMD["_mm256_extracti128_si256"] = SIMD["_mm256_extractf128_si256"] = m_extract128
SIMD["_mm256_castsi256_si128"] = lambda I, st, fn, a: LVEC if ismark(*a) else from_chunks([split_segs(a[0], 128)[0]])
SIMD["_mm256_castsi128_si256"] = lambda I, st, fn, a: LVEC if ismark(*a) else Vec(a[0].s + ((128, ZERO),))
SIMD["_mm256_zextsi128_si256"] = SIMD["_mm256_castsi128_si256"]


def m_insert128(I, st, fn, a):
    if ismark(*a):
        return LVEC
    x = split_segs(a[0], 128)
    x[const_args(I, fn)[0] & 1] = tuple(a[1].s)
    return from_chunks(x)


SIMD["_mm256_inserti128_si256"] = SIMD["_mm256_insertf128_si256"] = m_insert128


def extract(w, signed):
    def g(I, st, fn, a):
        if ismark(*a):
            return LIGHT
        cs = const_args(I, fn)
        n = cs[0] if cs else 0
        x = lanes(a[0], w)
        return (sgn if signed else uns)(x[n % len(x)], w)
    return g


both("extract_epi8", extract(8, False))
both("extract_epi16", extract(16, False))
both("extract_epi32", extract(32, True))
both("extract_epi64", extract(64, True))
SIMD["_mm_cvtsi128_si32"] = SIMD["_mm256_cvtsi256_si32"] = extract(32, True)
SIMD["_mm_cvtsi128_si64"] = SIMD["_mm_cvtsi128_si64x"] = extract(64, True)
SIMD["_mm_cvtsi32_si128"] = lambda I, st, fn, a: LVEC if ismark(*a) else vec(32, [a[0], ZERO, ZERO, ZERO])
SIMD["_mm_cvtsi64_si128"] = SIMD["_mm_cvtsi64x_si128"] = lambda I, st, fn, a: LVEC if ismark(*a) else vec(64, [a[0], ZERO])


def insert(w):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        x = lanes(a[0], w)
        x[const_args(I, fn)[0] % len(x)] = a[1]
        return vec(w, x)
    return g


for _w in (8, 16, 32, 64):
    both("insert_epi%d" % _w, insert(_w))


def widen(f, t, signed):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        n = (256 if fn.key.split("::")[-1].startswith("_mm256") else 128) // t
        return vec(t, [(sgn if signed else uns)(p, f) for p in lanes(a[0], f)[:n]])
    return g


for _f in (8, 16, 32):
    for _t in (16, 32, 64):
        if _t > _f:
            both("cvtepu%d_epi%d" % (_f, _t), widen(_f, _t, False))
            both("cvtepi%d_epi%d" % (_f, _t), widen(_f, _t, True))


def m_broadcast(w):
    def g(I, st, fn, a):
        if ismark(*a):
            return LVEC
        n = (256 if fn.key.split("::")[-1].startswith("_mm256") else 128) // w
        return vec(w, [lanes(a[0], w)[0]] * n)
    return g


for _w, _c in ((8, "b"), (16, "w"), (32, "d"), (64, "q")):
    both("broadcast%s_epi%d" % (_c, _w), m_broadcast(_w))
SIMD["_mm256_broadcastsi128_si256"] = lambda I, st, fn, a: LVEC if ismark(*a) else Vec(a[0].s + a[0].s)
SIMD["_mm_prefetch"] = lambda I, st, fn, a: UNIT
for _n in ("_mm_sfence", "_mm_lfence", "_mm_mfence", "_mm_pause", "_mm256_zeroupper", "_mm256_zeroall"):
    SIMD[_n] = lambda I, st, fn, a: UNIT


def ptr_read(I, st, p, t, what=None):
    from interp import Loc, Unsupported
    while isinstance(p, Agg):
        p = p.f[0]
    if not isinstance(p, Ptr):
        raise Unsupported("read through %r" % (p,))
    I.check_null(st, p)
    L = Loc(p.root, p.path, p.off, p.es, p.meta)
    v = I.read_loc(st, L, t)
    if p.off is None and L.root[0] not in ("mem", "null", "dangling"):
        v = I.coerce(v, t)
    return v


def ptr_write(I, st, p, v, t):
    from interp import Loc, Unsupported
    while isinstance(p, Agg):
        p = p.f[0]
    if not isinstance(p, Ptr):
        raise Unsupported("write through %r" % (p,))
    I.check_null(st, p)
    I.write_loc(st, Loc(p.root, p.path, p.off, p.es, p.meta), v, t)


def bits_ty(I, n):
    """A SIMD type of n bytes."""
    for i, t in enumerate(I.T):
        if t["k"] == "adt" and t["simd"] and t["l"] and t["l"]["size"] == n:
            return i
    return None


def m_loadu(n):
    def g(I, st, fn, a):
        return ptr_read(I, st, a[0], fn_ret(I, fn))
    return g


def fn_ret(I, fn):
    return fn.locals[0] if fn.locals else I.T[fn.ty].get("ret")


def m_storeu(I, st, fn, a):
    ptr_write(I, st, a[0], a[1], fn.locals[2])
    return UNIT


ALIGNED = {"_mm_load_si128": 16, "_mm256_load_si256": 32, "_mm_stream_load_si128": 16, "_mm256_stream_load_si256": 32,
           "_mm_store_si128": 16, "_mm256_store_si256": 32, "_mm_stream_si128": 16, "_mm256_stream_si256": 32}


def m_load(I, st, fn, a):
    name = fn.key.split("::")[-1]
    t = fn_ret(I, fn)
    align(I, st, a[0], ALIGNED.get(name, 0), "vector load")
    sz = {"_mm_loadu_si32": 4, "_mm_loadu_si64": 8, "_mm_loadl_epi64": 8, "_mm_loadu_si16": 2}.get(name)
    if sz is None:
        return ptr_read(I, st, a[0], t)
    it = next(i for i, x in enumerate(I.T) if x["k"] == "int" and not x["signed"] and x["bits"] == 8 * sz)
    p = ptr_read(I, st, a[0], it)
    if ismark(p):
        return LVEC
    return Vec(((8 * sz, p), (128 - 8 * sz, ZERO)))


def m_store(I, st, fn, a):
    name = fn.key.split("::")[-1]
    t = fn.locals[2]
    align(I, st, a[0], ALIGNED.get(name, 0), "vector store")
    sz = {"_mm_storeu_si32": 4, "_mm_storeu_si64": 8, "_mm_storel_epi64": 8, "_mm_storeu_si16": 2}.get(name)
    if sz is None:
        ptr_write(I, st, a[0], a[1], t)
        return UNIT
    it = next(i for i, x in enumerate(I.T) if x["k"] == "int" and not x["signed"] and x["bits"] == 8 * sz)
    v = LIGHT if ismark(a[1]) else lanes(a[1], 8 * sz)[0]
    ptr_write(I, st, a[0], v, it)
    return UNIT


for _n in ("_mm_loadu_si128", "_mm_lddqu_si128", "_mm256_loadu_si256", "_mm256_lddqu_si256",
           "_mm_loadu_si32", "_mm_loadu_si64", "_mm_loadl_epi64", "_mm_loadu_si16"):
    SIMD[_n] = m_load
for _n in ("_mm_storeu_si128", "_mm256_storeu_si256", "_mm_storeu_si32", "_mm_storeu_si64", "_mm_storel_epi64", "_mm_storeu_si16"):
    SIMD[_n] = m_store
for _n in ALIGNED:
    SIMD[_n] = m_load if "load" in _n else m_store


def m_maskload(I, st, fn, a):
    from interp import Unsupported
    ms = lanes(a[1], 32) if isinstance(a[1], Vec) and a[1].s is not None else None
    if ms is None or any(m.c is None for m in ms):
        raise Unsupported("maskload with a variable mask")
    it = next(i for i, x in enumerate(I.T) if x["k"] == "int" and x["signed"] and x["bits"] == 32)
    out = []
    for i, m in enumerate(ms):
        if (m.c >> 31) & 1:
            p = a[0]
            q = Ptr(p.root, p.path, p.off + 4 * i, p.es, None, p.nul)
            out.append(ptr_read(I, st, q, it))
        else:
            out.append(ZERO)
    if ismark(*out):
        return LVEC
    return vec(32, out)


SIMD["_mm_maskload_epi32"] = SIMD["_mm256_maskload_epi32"] = m_maskload


# core and std ------------------------------------------------------------------------
CORE = {}


def core(*names):
    def d(f):
        for n in names:
            CORE[n] = f
        return f
    return d


@core("std::ptr::read_unaligned", "core::ptr::read_unaligned",
      "std::ptr::const_ptr::<impl *const T>::read_unaligned", "std::ptr::mut_ptr::<impl *mut T>::read_unaligned")
def c_readu(I, st, fn, a):
    align(I, st, a[0], 0, "read")
    return ptr_read(I, st, a[0], type_arg(I, fn))


@core("std::ptr::read", "core::ptr::read", "std::ptr::const_ptr::<impl *const T>::read",
      "std::ptr::mut_ptr::<impl *mut T>::read", "std::intrinsics::read_via_copy", "std::intrinsics::volatile_load",
      "std::ptr::read_volatile", "std::ptr::const_ptr::<impl *const T>::read_volatile",
      "std::ptr::mut_ptr::<impl *mut T>::read_volatile")
def c_read(I, st, fn, a):
    t = type_arg(I, fn)
    align(I, st, a[0], I.T[t]["l"]["align"], "read")
    return ptr_read(I, st, a[0], t)


def align(I, st, p, n, what):
    while isinstance(p, Agg) and p.f:
        p = p.f[0]
    if n == 0 and isinstance(p, Ptr) and p.root[0] == "mem":
        I.obligate(st, "align", True, what)    # any address will do
    if n > 1 and isinstance(p, Ptr):
        I.align(st, p, n, what)


@core("std::ptr::write", "std::ptr::mut_ptr::<impl *mut T>::write", "std::intrinsics::write_via_move",
      "std::intrinsics::volatile_store", "std::ptr::write_volatile", "std::ptr::mut_ptr::<impl *mut T>::write_volatile")
def c_write(I, st, fn, a):
    t = type_arg(I, fn)
    align(I, st, a[0], I.T[t]["l"]["align"], "write")
    ptr_write(I, st, a[0], a[1], t)
    return UNIT


@core("std::ptr::const_ptr::<impl *const T>::align_offset", "std::ptr::mut_ptr::<impl *mut T>::align_offset",
      "std::ptr::align_offset")
def c_alignoff(I, st, fn, a):
    p = a[0]
    if I.size(type_arg(I, fn)) == 1 and isinstance(p, Ptr) and p.root[0] == "mem" and p.nul is False and a[1].c is not None:
        return mod(-I.address(p.root, p.off), a[1].c)
    return NotImplemented


@core("std::ptr::write_unaligned", "std::ptr::mut_ptr::<impl *mut T>::write_unaligned")
def c_writeu(I, st, fn, a):
    align(I, st, a[0], 0, "write")
    ptr_write(I, st, a[0], a[1], type_arg(I, fn))
    return UNIT


@core("std::intrinsics::bswap")
def c_bswap(I, st, fn, a):
    t = type_arg(I, fn)
    p = a[0]
    if p is LIGHT:
        return LIGHT
    s = resegment(((8 * I.size(t), p),), 8) if p.c is not None else bytes_of(p, I.size(t))
    return I.from_segs(tuple(reversed(s)), t)


def bytes_of(p, n):
    """8-bit segments of p, recovering the bytes it was assembled from."""
    out = []
    for i in range(n):
        q = mod(p, 256)
        out.append((8, q))
        p = fdiv(p, 256)
    return tuple(out)


@core("std::intrinsics::saturating_sub")
def c_satsub(I, st, fn, a):
    t = I.T[type_arg(I, fn)]
    if t["signed"]:
        return NotImplemented
    d = a[0] - a[1]
    return phi(ge(d), d, ZERO)


@core("std::intrinsics::saturating_add")
def c_satadd(I, st, fn, a):
    t = I.T[type_arg(I, fn)]
    if t["signed"]:
        return NotImplemented
    lo, hi = I.int_range(t)
    d = a[0] + a[1]
    return phi(ge(hi - d), d, K(hi))


@core("std::intrinsics::ctlz", "std::intrinsics::ctlz_nonzero")
def c_ctlz(I, st, fn, a):
    b = I.T[type_arg(I, fn)]["bits"]
    if a[0].c is not None:
        return K(b - (a[0].c & ((1 << b) - 1)).bit_length())
    return opaque(0, b, "ctlz")


@core("std::intrinsics::cttz", "std::intrinsics::cttz_nonzero")
def c_cttz(I, st, fn, a):
    b = I.T[type_arg(I, fn)]["bits"]
    if a[0].c is not None:
        x = a[0].c & ((1 << b) - 1)
        return K(b if x == 0 else (x & -x).bit_length() - 1)
    return opaque(0, b, "cttz")


@core("std::intrinsics::ctpop")
def c_ctpop(I, st, fn, a):
    b = I.T[type_arg(I, fn)]["bits"]
    if a[0].c is not None:
        return K(bin(a[0].c & ((1 << b) - 1)).count("1"))
    return opaque(0, b, "ctpop")


@core("std::intrinsics::wrapping_add", "std::intrinsics::wrapping_sub", "std::intrinsics::wrapping_mul")
def c_wrap(I, st, fn, a):
    t = I.T[type_arg(I, fn)]
    if any(x is LIGHT for x in a):
        return LIGHT
    o = fn.key.rsplit("_", 1)[1]
    return I.wrapv(st, a[0] + a[1] if o == "add" else (a[0] - a[1] if o == "sub" else a[0] * a[1]), t)


@core("std::intrinsics::ptr_offset_from_unsigned", "std::intrinsics::ptr_offset_from")
def c_ofs(I, st, fn, a):
    es = I.size(type_arg(I, fn))
    p, q = a
    if p.root != q.root or p.path != q.path:
        return NotImplemented
    d = (p.off if p.off is not None else ZERO) - (q.off if q.off is not None else ZERO)
    return fdiv(d, es)


@core("std::intrinsics::likely", "std::intrinsics::unlikely", "std::hint::must_use", "std::hint::black_box",
      "std::intrinsics::black_box")
def c_id(I, st, fn, a):
    return a[0]


@core("std::intrinsics::assert_inhabited", "std::intrinsics::assert_zero_valid", "std::intrinsics::assert_mem_uninitialized_valid",
      "std::intrinsics::cold_path", "std::hint::cold_path", "std::hint::spin_loop", "std::hint::assert_unchecked::precondition_check")
def c_unit(I, st, fn, a):
    return UNIT


@core("std::intrinsics::ub_checks", "std::intrinsics::const_eval_select")
def c_no(I, st, fn, a):
    return NotImplemented


@core("std::intrinsics::discriminant_value")
def c_discr(I, st, fn, a):
    p = a[0]
    v = I.read(st, p.root, p.path)
    return I.discr(v, type_arg(I, fn))


@core("std::intrinsics::size_of", "std::mem::size_of")
def c_sizeof(I, st, fn, a):
    return K(I.size(type_arg(I, fn)))


@core("std::intrinsics::unreachable", "std::hint::unreachable_unchecked")
def c_unreach(I, st, fn, a):
    if not I.pr.infeasible(st.facts):
        I.obligate(st, "unreachable", False, "unreachable code may be reached")
    return []


@core("std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy", "std::ptr::copy_nonoverlapping", "std::ptr::copy")
def c_copy(I, st, fn, a):
    copy_bytes(I, st, a[0], a[1], a[2], type_arg(I, fn))
    return UNIT


@core("std::intrinsics::write_bytes", "std::ptr::write_bytes", "std::ptr::mut_ptr::<impl *mut T>::write_bytes")
def c_fill(I, st, fn, a):
    fill_bytes(I, st, a[0], a[1], a[2], type_arg(I, fn))
    return UNIT


def region_range(I, st, p, n, what):
    """Check [p, p + n) for a region pointer."""
    reg = I.regions[p.root[1]]
    I.check_null(st, p)
    I.obligate(st, "mem", disj([eq(n), conj([ge(p.off), ge(reg["len"] - n - p.off)])]),
               "%s of %s bytes at %s of %s" % (what, show(n), show(p.off), p.root[1]))


def emit_range(I, st, dst, n, termf):
    """Write events for n bytes at dst; termf(k) gives the byte."""
    from interp import Event
    reg = I.regions[dst.root[1]]
    if not reg.get("writable"):
        I.obligate(st, "srcwrite", False, "source buffer %s is written" % dst.root[1])
    if I.light and I.mute:
        return
    where = I.cur_where()
    top = I.stack[-1] if I.stack else None
    if n.c is not None and n.c <= 256:
        ts = tuple(None if I.light else termf(K(i)) for i in range(n.c))
        if n.c:
            st.ev = st.ev + (Event(dst.root[1], dst.off, ts, (), (), where, top),)
        return
    kk = atom("ctr", ("cpy", I.loopdepth), 0, None)
    k = A(kk)
    t = None if I.light else termf(k)
    st.ev = st.ev + (Event(dst.root[1], dst.off + k, (t,), (), ((kk, n, ()),), where, top),)


def copy_bytes(I, st, src, dst, n, ety):
    from interp import Unsupported
    es = I.size(ety)
    if not isinstance(n, Poly) or not isinstance(src, Ptr) or not isinstance(dst, Ptr):
        raise Unsupported("copy of unknown memory")
    align(I, st, src, I.T[ety]["l"]["align"], "copy")
    align(I, st, dst, I.T[ety]["l"]["align"], "copy")
    nb = n.scale(es)
    if nb.c == 0:
        return
    if dst.root[0] == "mem":
        region_range(I, st, dst, nb, "copy to")
        if src.root[0] == "mem":
            region_range(I, st, src, nb, "copy from")
            if I.regions[src.root[1]].get("writable"):
                I.obligate(st, "dstread", False, "destination buffer %s is read" % src.root[1])
            emit_range(I, st, dst, nb, lambda k: load(src.root[1], src.off + k))
            return
        if nb.c is not None and nb.c <= 256:
            segs = []
            for i in range(n.c):
                v = ptr_read(I, st, I.ptr_offset(st, as_elem(I, src, es), K(i), ety) if i else src, ety)
                segs += resegment(I.to_segs(v, ety), 8)
            emit_range(I, st, dst, nb, lambda k: uns(segs[k.c][1], 8))
            return
    if n.c is not None and n.c <= 256:
        s, d = as_elem(I, src, es) if n.c > 1 else src, as_elem(I, dst, es) if n.c > 1 else dst
        vals = [ptr_read(I, st, I.ptr_offset(st, s, K(i), ety) if i else s, ety) for i in range(n.c)]
        for i, v in enumerate(vals):
            ptr_write(I, st, I.ptr_offset(st, d, K(i), ety) if i else d, v, ety)
        return
    raise Unsupported("copy of %s elements" % show(n))


def as_elem(I, p, es):
    if p.off is None:
        return Ptr(p.root, p.path, ZERO, es, p.meta, p.nul)
    return p


def fill_bytes(I, st, dst, val, n, ety):
    from interp import Unsupported
    if not isinstance(dst, Ptr) or not isinstance(n, Poly):
        raise Unsupported("fill of unknown memory")
    nb = n.scale(I.size(ety))
    align(I, st, dst, I.T[ety]["l"]["align"], "fill")
    if dst.root[0] == "mem":
        region_range(I, st, dst, nb, "fill")
        emit_range(I, st, dst, nb, lambda k: val)
        return
    raise Unsupported("fill")


def panics(I, st, fn, a):
    if not I.mute:
        if not I.pr.infeasible(st.facts):
            I.obligate(st, "panic", False, "panic reachable: %s" % fn.name)
        else:
            I.obligate(st, "panic", True, "")
    return []


PANIC = ("core::panicking::", "std::rt::panic", "core::option::unwrap_failed", "core::option::expect_failed",
         "core::result::unwrap_failed", "core::slice::index::slice_", "core::slice::copy_from_slice_impl::len_mismatch_fail",
         "core::str::slice_error_fail", "std::rt::begin_panic", "core::slice::<impl [T]>::copy_from_slice::len_mismatch_fail",
         "std::process::abort", "core::intrinsics::abort", "std::intrinsics::abort", "alloc::alloc::handle_alloc_error",
         "alloc::raw_vec::handle_error", "alloc::raw_vec::capacity_overflow", "std::option::unwrap_failed",
         "std::option::expect_failed", "std::result::unwrap_failed", "std::rt::panic_fmt")


def detected(I, st, fn, a):
    name = fn.key.rsplit("::", 1)[1]
    return eq(inp("detected(%s)" % name, 0, 1) - 1)


def cpuid(I, st, fn, a):
    leaf = a[0].c if isinstance(a[0], Poly) else None
    sub = a[1].c if len(a) > 1 and isinstance(a[1], Poly) else 0
    t = I.T[fn_ret(I, fn)]
    fs = []
    for f in t["variants"][0]["f"]:
        fs.append(inp("cpuid(%s,%s).%s" % (leaf, sub, f[0]), 0, (1 << 32) - 1))
    return Agg(None, tuple(fs))


def fmt_opaque(I, st, fn, a):
    return Opq(("fmt", next(I.fresh)))


FMT = ("std::fmt::Arguments", "core::fmt::rt::Argument", "std::fmt::format", "std::fmt::Formatter", "alloc::fmt::format")


def install(I):
    pass


def lookup(fn):
    k = fn.key
    last = k.rsplit("::", 1)[-1]
    f = None
    if last.startswith("_mm") and "arch" in k:
        f = SIMD.get(last)
        if f is None:
            return None
        return wrap(f)
    if last.startswith("v") and "arch::aarch64::" in k:
        import neon
        f = neon.lookup(last)
        return None if f is None else wrap(f)
    if "arch" in k and last in ("__cpuid", "__cpuid_count"):
        return wrap(cpuid)
    if "arch" in k and last == "_xgetbv":
        return wrap(lambda I, st, fn, a: inp("xgetbv(%s)" % (a[0].c,), 0, (1 << 64) - 1))
    if "::__is_feature_detected::" in k:
        return wrap(detected)
    f = CORE.get(k)
    if f is None and k.startswith("core::"):
        f = CORE.get("std::" + k[6:])
    if f is not None:
        return wrap(f)
    if k.startswith(PANIC):
        return panics
    if k.endswith("::precondition_check"):
        return wrap(c_unit)
    if k.startswith(FMT):
        return wrap(fmt_opaque)
    return None


def wrap(f):
    def g(I, st, fn, a):
        r = f(I, st, fn, a)
        if r is NotImplemented or isinstance(r, list):
            return r
        return [(st, r)]
    return g
