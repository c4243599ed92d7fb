"""Abstract values."""
from terms import *


class Agg:
    """struct / tuple / array (var None) or enum value with a known variant."""
    __slots__ = ("var", "f")

    def __init__(self, var, f):
        self.var = var
        self.f = f

    def __repr__(self):
        return "Agg(%s,%s)" % (self.var, self.f)


class Ptr:
    """Pointer or reference.  root/path name an object; off (bytes) and es are
    used for elements of arrays and for byte regions; meta is a slice length;
    nul is the condition under which the pointer is null."""
    __slots__ = ("root", "path", "off", "es", "meta", "nul")

    def __init__(self, root, path=(), off=None, es=None, meta=None, nul=False):
        self.root = root
        self.path = path
        self.off = off
        self.es = es
        self.meta = meta
        self.nul = nul

    def __repr__(self):
        return "Ptr(%s%s+%s m=%s%s)" % (self.root, self.path, self.off, self.meta, "" if self.nul is False else " nul?")

    def same(self, o):
        return (self.root == o.root and self.path == o.path and self.off is o.off and self.es == o.es
                and self.meta is o.meta and self.nul == o.nul)


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return "Fn(%s)" % self.fn.name


class Vec:
    """SIMD / raw bits: least significant segment first, (bits, residue)."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Vec%s" % (self.s,)


class Wrap:
    """Arithmetic result that may have wrapped: p is the exact value, over the
    condition under which it does not fit."""
    __slots__ = ("p", "bits", "signed", "over")

    def __init__(self, p, bits, signed, over):
        self.p = p
        self.bits = bits
        self.signed = signed
        self.over = over


class SymEnum:
    """Fieldless enum read from unknown memory: only its discriminant."""
    __slots__ = ("d", "ty")

    def __init__(self, d, ty):
        self.d = d
        self.ty = ty


class Opq:
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "Opq(%s)" % (self.tag,)


class _Un:
    def __repr__(self):
        return "UNINIT"


UNINIT = _Un()
UNIT = Agg(None, ())
LIGHT = A(atom("light", "light", None, None, True))
LVEC = Vec(None)


def is_bool(v):
    return v is True or v is False or type(v) is tuple


# segments --------------------------------------------------------------------

def uns(p, bits):
    """Unsigned reading of residue p modulo 2**bits."""
    lo, hi = p.iv()
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << bits):
        return p
    return mod(p, 1 << bits)


def sgn(p, bits):
    lo, hi = p.iv()
    h = 1 << (bits - 1)
    if lo is not None and hi is not None and lo >= -h and hi < h:
        return p
    return mod(p + h, 1 << bits) - h


def resegment(segs, width):
    """Segments of exactly the given width (in bits)."""
    if all(b == width for b, _ in segs):
        return segs
    out = []
    acc = []
    accb = 0
    # fast paths: widen or narrow uniformly
    for b, p in segs:
        while b:
            if accb == 0 and b == width:
                out.append((width, p))
                b = 0
                continue
            take = min(b, width - accb)
            if take == b:
                acc.append((b, p))
                b = 0
            else:
                acc.append((take, p))
                p = fdiv(p, 1 << take)
                b -= take
            accb += take
            if accb == width:
                out.append((width, join_segs(acc)))
                acc = []
                accb = 0
    if acc:
        raise ValueError("resegment: ragged")
    return tuple(out)


def join_segs(parts):
    if len(parts) == 1:
        return parts[0][1]
    tot = ZERO
    sh = 0
    for i, (b, p) in enumerate(parts):
        x = p if i == len(parts) - 1 else uns(p, b)
        tot = tot + x.scale(1 << sh)
        sh += b
    return tot
