"""Entry points of the analysis: public functions called with symbolic inputs."""
import target
from terms import *
from values import *
from interp import Interp, State, Unsupported
from prover import Prover

U32 = (1 << 32) - 1
U64 = target.USIZE
I63 = target.ISIZE


class World:
    """Symbolic inputs of one call of convert_image."""

    def __init__(self, I, conc=None):
        self.I = I
        conc = conc or {}

        def inp(name, lo, hi):
            import terms
            x = conc.get(name)
            return terms.inp(name, lo, hi) if x is None else x if isinstance(x, Poly) else K(x)
        self.inp = inp
        self.w = inp("width", 0, U32)
        self.h = inp("height", 0, U32)
        I.regions.clear()
        I.arrays.clear()
        for side, pre in (("src", "s"), ("dst", "d")):
            for i in range(3):
                I.regions["%s%d" % (side, i)] = {"len": inp("%slen%d" % (pre, i), 0, I63), "writable": side == "dst"}
        for side, pre in (("src", "s"), ("dst", "d")):
            I.arrays[side + "_buffers"] = {"n": inp(pre + "nbuf", 0, I63 // (2 * target.PTR)), "elem": self.buf(side, pre)}
            I.arrays[side + "_strides"] = {"n": inp(pre + "nstr", 0, I63 // target.PTR), "elem": self.stride(pre)}

    def buf(self, side, pre):
        def f(st, i):
            if not isinstance(i, int):
                raise Unsupported("buffer at a symbolic index")
            r = "%s%d" % (side, i)
            if r not in self.I.regions:
                self.I.regions[r] = {"len": self.inp("%slen%d" % (pre, i), 0, I63), "writable": side == "dst"}
            return Ptr(("mem", r), (), ZERO, 1, self.I.regions[r]["len"])
        return f

    def stride(self, pre):
        def f(st, i):
            if not isinstance(i, int):
                raise Unsupported("stride at a symbolic index")
            return self.inp("%sstride%d" % (pre, i), 0, U64)
        return f

    def arr(self, name, es):
        return Ptr(("arr", name), (), ZERO, es, self.I.arrays[name]["n"])


def variant(P, adt, name):
    t = P.types[P.adt(adt)]
    for i, v in enumerate(t["variants"]):
        if v["n"] == name:
            return i
    raise KeyError(name)


def struct_value(P, adt, **kw):
    t = P.types[P.adt(adt)]
    names = [f[0] for f in t["variants"][0]["f"]]
    return Agg(None, tuple(kw[n] for n in names))


class Engine:
    def __init__(self, path):
        from mir import Program
        self.P = Program(path)
        self.I = Interp(self.P)
        self.ctx = {}
        self.I.hooks["std::sync::OnceLock::<T>::get_or_init"] = self.once
        self.set = None
        self.sym = 0

    # Context::global() --------------------------------------------------------
    def once(self, I, st, fn, args):
        """get_or_init: the stored value is the closure's result; it is
        computed once per outcome of CPU detection."""
        lock, init = args
        vt = I.T[fn.locals[0]]["e"] if fn.locals else None
        key = (lock.root, lock.path)
        root = ("once", key)
        if self.set is not None and key in self.ctx:
            out = [self.ctx[key][self.set]]
        else:
            out = self.run_init(I, fn, init)
            self.ctx[key] = out
            if self.set is not None:
                out = [out[self.set]]
        res = []
        for facts, val in out:
            s = st.fork() if len(out) > 1 else st
            s.store[root] = val
            ok = True
            if self.set is None:
                for f in facts:
                    ok = ok and s.assume(f)
            if ok:
                res.append((s, Ptr(root, ())))
        return res

    def run_init(self, I, fn, init):
        saved = (I.depth, I.stack, I.spans, I.span, I.loopdepth)
        I.depth, I.stack, I.spans = I.depth + 1, [], []
        st = State()
        try:
            r = self.call_value(st, fn, init, [])
        finally:
            I.depth, I.stack, I.spans, I.span, I.loopdepth = saved
        return [(s.facts, v) for s, v in r]

    def call_value(self, st, fn, f, args):
        I = self.I
        if isinstance(f, FnV):
            return I.call(st, f.fn, args)
        # the closure type is a generic argument of the caller
        for g in fn.ga:
            if g[0] == "t":
                t = self.P.types[g[1]]
                if t["k"] == "fndef":
                    return I.call(st, self.P.fns[t["fn"]], args)
                if t["k"] == "closure":
                    for c in self.P.fns:
                        if c.ty == g[1]:
                            return I.call(st, c, [f] + args)
        raise Unsupported("call of an unknown value")

    def context_sets(self):
        """The possible values of the global context: (facts, value)."""
        P = self.P
        g = P.one("Context::global")
        self.set = None
        st = State()
        r = self.I.call(st, g, [])
        return [(s.facts, s.store[v.root]) for s, v in r]

    # convert_image -------------------------------------------------------------
    def image_format(self, st, name, pf, cs, planes):
        P = self.P
        v = struct_value(P, "ImageFormat",
                         pixel_format=pf if not isinstance(pf, str) else Agg(variant(P, "PixelFormat", pf), ()),
                         color_space=cs if not isinstance(cs, str) else Agg(variant(P, "ColorSpace", cs), ()),
                         num_planes=planes if isinstance(planes, Poly) else K(planes))
        st.store[("obj", name)] = v
        return Ptr(("obj", name), ())

    def convert(self, src, dst, strides=(True, True), setidx=None, conc=None):
        """All outcomes of convert_image for a pair of (format, space, planes)."""
        I, P = self.I, self.P
        W = World(I, conc)
        self.set = setidx
        st = State()
        f = P.one("convert_image")
        a = [W.w, W.h, self.image_format(st, "sf", *src), self.opt(strides[0], W.arr("src_strides", target.PTR)), W.arr("src_buffers", 2 * target.PTR),
             self.image_format(st, "df", *dst), self.opt(strides[1], W.arr("dst_strides", target.PTR)), W.arr("dst_buffers", 2 * target.PTR)]
        I.depth = 0
        return W, I.call(st, f, a)

    @staticmethod
    def opt(some, v):
        return Agg(1, (v,)) if some else Agg(0, ())
