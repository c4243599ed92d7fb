"""Models of the AArch64 vector intrinsics."""
import re
from terms import *
from values import *
from models import lanes, vec, ismark, clamp, ptr_read, ptr_write, fn_ret, const_args, align, lanewise2

NEON = {}


def neon(*names):
    def d(f):
        for n in names:
            NEON[n] = f
        return f
    return d


def names(fmt, types):
    """fmt with {t} replaced by each element type; [(name, width, reading)]"""
    return [(fmt.format(t=t), int(t[1:]), sgn if t[0] == "s" else uns) for t in types.split()]


INT = "s8 s16 s32 s64 u8 u16 u32 u64"
SHORT = "s8 s16 s32 u8 u16 u32"


def unary(f):
    """f(lanes) -> Vec, for a vector and further arguments."""
    def g(I, st, fn, a):
        if ismark(*[x for x in a if isinstance(x, Vec)]):
            return LVEC
        return f(a, const_args(I, fn))
    return g


for _q in ("", "q"):
    for _n, _w, _r in names("vadd%s_{t}" % _q, INT):
        NEON[_n] = lanewise2(_w, lambda x, y: x + y)
    for _n, _w, _r in names("vsub%s_{t}" % _q, INT):
        NEON[_n] = lanewise2(_w, lambda x, y: x - y)
    for _n, _w, _r in names("vmul%s_{t}" % _q, SHORT):
        NEON[_n] = (lambda w, r: lanewise2(w, lambda x, y: r(x, w) * r(y, w)))(_w, _r)
    for _n, _w, _r in names("vmax%s_{t}" % _q, SHORT):
        NEON[_n] = (lambda w, r: lanewise2(w, lambda x, y: phi(ge(r(x, w) - r(y, w)), r(x, w), r(y, w))))(_w, _r)
    for _n, _w, _r in names("vmin%s_{t}" % _q, SHORT):
        NEON[_n] = (lambda w, r: lanewise2(w, lambda x, y: phi(ge(r(y, w) - r(x, w)), r(x, w), r(y, w))))(_w, _r)
    for _n, _w, _r in names("vqadd%s_{t}" % _q, SHORT):
        _lo, _hi = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1) if _r is sgn else (0, (1 << _w) - 1)
        NEON[_n] = (lambda w, r, lo, hi: lanewise2(w, lambda x, y: clamp(r(x, w) + r(y, w), lo, hi)))(_w, _r, _lo, _hi)
    for _n, _w, _r in names("vqsub%s_{t}" % _q, SHORT):
        _lo, _hi = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1) if _r is sgn else (0, (1 << _w) - 1)
        NEON[_n] = (lambda w, r, lo, hi: lanewise2(w, lambda x, y: clamp(r(x, w) - r(y, w), lo, hi)))(_w, _r, _lo, _hi)
    for _n, _w, _r in names("vhadd%s_{t}" % _q, SHORT):
        NEON[_n] = (lambda w, r: lanewise2(w, lambda x, y: fdiv(r(x, w) + r(y, w), 2)))(_w, _r)
    for _n, _w, _r in names("vrhadd%s_{t}" % _q, SHORT):
        NEON[_n] = (lambda w, r: lanewise2(w, lambda x, y: fdiv(r(x, w) + r(y, w) + 1, 2)))(_w, _r)
    for _n, _w, _r in names("vdup%s_n_{t}" % _q, INT) + names("vmov%s_n_{t}" % _q, INT):
        NEON[_n] = (lambda w, n: lambda I, st, fn, a: LVEC if ismark(a[0]) else vec(w, [a[0]] * n))(_w, (128 if _q else 64) // _w)
    for _n, _w, _r in names("vpadd%s_{t}" % _q, INT):
        def _f(w):
            def h(a, c):
                x = lanes(a[0], w) + lanes(a[1], w)
                return vec(w, [x[i] + x[i + 1] for i in range(0, len(x), 2)])
            return unary(h)
        NEON[_n] = _f(_w)
    # shifts by a constant
    for _n, _w, _r in names("vshr%s_n_{t}" % _q, INT):
        NEON[_n] = (lambda w, r: unary(lambda a, c: vec(w, [fdiv(r(x, w), 1 << c[0]) for x in lanes(a[0], w)])))(_w, _r)
    for _n, _w, _r in names("vrshr%s_n_{t}" % _q, INT):
        NEON[_n] = (lambda w, r: unary(lambda a, c: vec(w, [fdiv(r(x, w) + (1 << (c[0] - 1)), 1 << c[0]) for x in lanes(a[0], w)])))(_w, _r)
    for _n, _w, _r in names("vshl%s_n_{t}" % _q, INT):
        NEON[_n] = (lambda w: unary(lambda a, c: vec(w, [x.scale(1 << c[0]) for x in lanes(a[0], w)])))(_w)
    # interleave and deinterleave
    for _n, _w, _r in names("vzip1%s_{t}" % _q, INT) + names("vzip2%s_{t}" % _q, INT):
        def _f(w, k):
            def h(a, c):
                x, y = lanes(a[0], w), lanes(a[1], w)
                n = len(x) // 2
                return vec(w, [z for i in range(k * n, k * n + n) for z in (x[i], y[i])])
            return unary(h)
        NEON[_n] = _f(_w, 1 if "zip2" in _n else 0)
    for _n, _w, _r in names("vuzp1%s_{t}" % _q, INT) + names("vuzp2%s_{t}" % _q, INT):
        NEON[_n] = (lambda w, k: unary(lambda a, c: vec(w, (lanes(a[0], w) + lanes(a[1], w))[k::2])))(_w, 1 if "uzp2" in _n else 0)
    for _n, _w, _r in names("vtrn1%s_{t}" % _q, INT) + names("vtrn2%s_{t}" % _q, INT):
        def _f(w, k):
            def h(a, c):
                x, y = lanes(a[0], w), lanes(a[1], w)
                return vec(w, [z for i in range(k, len(x), 2) for z in (x[i], y[i])])
            return unary(h)
        NEON[_n] = _f(_w, 1 if "trn2" in _n else 0)
    for _n, _w, _r in names("vext%s_{t}" % _q, INT):
        def _f(w):
            def h(a, c):
                x = lanes(a[0], w) + lanes(a[1], w)
                return vec(w, x[c[0]:c[0] + len(x) // 2])
            return unary(h)
        NEON[_n] = _f(_w)

for _n, _w, _r in names("vget_low_{t}", INT):
    NEON[_n] = (lambda w: unary(lambda a, c: vec(w, lanes(a[0], w)[:64 // w])))(_w)
for _n, _w, _r in names("vget_high_{t}", INT):
    NEON[_n] = (lambda w: unary(lambda a, c: vec(w, lanes(a[0], w)[64 // w:])))(_w)
for _n, _w, _r in names("vcombine_{t}", INT):
    NEON[_n] = unary(lambda a, c: Vec(a[0].s + a[1].s))
for _n, _w, _r in names("vmovl_{t}", SHORT):
    NEON[_n] = (lambda w, r: unary(lambda a, c: vec(2 * w, [r(x, w) for x in lanes(a[0], w)])))(_w, _r)
for _n, _w, _r in names("vmovl_high_{t}", SHORT):
    NEON[_n] = (lambda w, r: unary(lambda a, c: vec(2 * w, [r(x, w) for x in lanes(a[0], w)[64 // w:]])))(_w, _r)
for _n, _w, _r in names("vmovn_{t}", "s16 s32 s64 u16 u32 u64"):
    NEON[_n] = (lambda w: unary(lambda a, c: vec(w // 2, lanes(a[0], w))))(_w)


def narrow(w, r, lo, hi, rnd):
    def h(a, c):
        k = c[0] if c else 0
        return vec(w // 2, [clamp(fdiv(r(x, w) + (1 << (k - 1) if rnd and k else 0), 1 << k) if k else r(x, w), lo, hi)
                            for x in lanes(a[0], w)])
    return unary(h)


for _n, _w, _r in names("vqmovn_{t}", "s16 s32 s64 u16 u32 u64"):
    _h = _w // 2
    _b = (-(1 << (_h - 1)), (1 << (_h - 1)) - 1) if _r is sgn else (0, (1 << _h) - 1)
    NEON[_n] = narrow(_w, _r, *_b, False)
    for _m, _x in (("vqshrn_n_", False), ("vqrshrn_n_", True)):
        NEON[_n.replace("vqmovn_", _m)] = narrow(_w, _r, *_b, _x)
for _n, _w, _r in names("vqmovun_{t}", "s16 s32 s64"):
    _b = (0, (1 << (_w // 2)) - 1)
    NEON[_n] = narrow(_w, _r, *_b, False)
    for _m, _x in (("vqshrun_n_", False), ("vqrshrun_n_", True)):
        NEON[_n.replace("vqmovun_", _m)] = narrow(_w, _r, *_b, _x)
for _n, _w, _r in names("vrshrn_n_{t}", "s16 s32 s64 u16 u32 u64"):
    NEON[_n] = (lambda w, r: unary(lambda a, c: vec(w // 2, [fdiv(r(x, w) + (1 << (c[0] - 1)), 1 << c[0]) for x in lanes(a[0], w)])))(_w, _r)
for _n, _w, _r in names("vshrn_n_{t}", "s16 s32 s64 u16 u32 u64"):
    NEON[_n] = (lambda w, r: unary(lambda a, c: vec(w // 2, [fdiv(r(x, w), 1 << c[0]) for x in lanes(a[0], w)])))(_w, _r)


def widening(w, r, acc, high, scalar, sub=False):
    """vmull, vmlal, vmlsl and their _high and _n forms."""
    def h(a, c):
        s = list(a)
        base = lanes(s.pop(0), 2 * w) if acc else None
        x = lanes(s[0], w)
        if high:
            x = x[len(x) // 2:]
        if scalar:
            y = [s[1]] * len(x)
        else:
            y = lanes(s[1], w)
            if high:
                y = y[len(y) // 2:]
        ps = [r(p, w) * r(q, w) for p, q in zip(x, y)]
        if acc:
            ps = [b - p if sub else b + p for b, p in zip(base, ps)]
        return vec(2 * w, ps)
    return unary(h)


for _op, _acc, _sub in (("vmull", False, False), ("vmlal", True, False), ("vmlsl", True, True)):
    for _hi in ("", "_high"):
        for _sc in ("", "_n"):
            for _n, _w, _r in names("%s%s%s_{t}" % (_op, _hi, _sc), SHORT):
                NEON[_n] = widening(_w, _r, _acc, bool(_hi), bool(_sc), _sub)
for _n, _w, _r in names("vaddl_{t}", SHORT):
    NEON[_n] = (lambda w, r: unary(lambda a, c: vec(2 * w, [r(x, w) + r(y, w) for x, y in zip(lanes(a[0], w), lanes(a[1], w))])))(_w, _r)
for _n, _w, _r in names("vaddw_{t}", SHORT):
    NEON[_n] = (lambda w, r: unary(lambda a, c: vec(2 * w, [x + r(y, w) for x, y in zip(lanes(a[0], 2 * w), lanes(a[1], w))])))(_w, _r)


# memory: none of these needs more than the alignment of an element
def load_seq(I, st, fn, a):
    align(I, st, a[0], elem(fn) // 8 if elem(fn) > 8 else 0, "vector load")
    return ptr_read(I, st, a[0], fn_ret(I, fn))


def elem(fn):
    return int(re.search(r"_[su](\d+)$", fn.key.rsplit("::", 1)[-1]).group(1))


def load_int(I, st, fn, a):
    align(I, st, a[0], elem(fn) // 8 if elem(fn) > 8 else 0, "vector load")
    v = ptr_read(I, st, a[0], fn_ret(I, fn))
    if ismark(*v.f):
        return v
    w = elem(fn)
    x = [p for f in v.f for p in lanes(f, w)]
    n = len(v.f)
    return Agg(None, tuple(vec(w, x[i::n]) for i in range(n)))


def store_seq(I, st, fn, a):
    align(I, st, a[0], elem(fn) // 8 if elem(fn) > 8 else 0, "vector store")
    ptr_write(I, st, a[0], a[1], fn.locals[2])
    return UNIT


def store_int(I, st, fn, a):
    align(I, st, a[0], elem(fn) // 8 if elem(fn) > 8 else 0, "vector store")
    v = a[1]
    if not ismark(*v.f):
        w = elem(fn)
        ls = [lanes(f, w) for f in v.f]
        x = [l[i] for i in range(len(ls[0])) for l in ls]
        k = len(ls[0])
        v = Agg(None, tuple(vec(w, x[i * k:i * k + k]) for i in range(len(ls))))
    ptr_write(I, st, a[0], v, fn.locals[2])
    return UNIT


def store_lane(I, st, fn, a):
    w = elem(fn)
    align(I, st, a[0], w // 8 if w > 8 else 0, "store of a lane")
    it = next(i for i, x in enumerate(I.T) if x["k"] == "int" and not x["signed"] and x["bits"] == w)
    ptr_write(I, st, a[0], LIGHT if ismark(a[1]) else uns(lanes(a[1], w)[const_args(I, fn)[0]], w), it)
    return UNIT


def get_lane(I, st, fn, a):
    w = elem(fn)
    if ismark(a[0]):
        return LIGHT
    return (uns if "_u" in fn.key.rsplit("::", 1)[-1] else sgn)(lanes(a[0], w)[const_args(I, fn)[0]], w)


for _q in ("", "q"):
    for _t in INT.split():
        NEON["vld1%s_%s" % (_q, _t)] = load_seq
        NEON["vst1%s_%s" % (_q, _t)] = store_seq
        NEON["vst1%s_lane_%s" % (_q, _t)] = store_lane
        NEON["vget%s_lane_%s" % (_q, _t)] = get_lane
        for _k in "234":
            NEON["vld%s%s_%s" % (_k, _q, _t)] = load_int
            NEON["vst%s%s_%s" % (_k, _q, _t)] = store_int


def lookup(last):
    if last.startswith("vreinterpret"):
        return lambda I, st, fn, a: a[0]
    return NEON.get(last)
