"""get_buffers_size with symbolic dimensions, strides and output slots."""
from terms import *
from values import *
import interp
from interp import State, Unsupported
import target
from roots import World, U32, I63
import front

CASES = (1, 2, 3, None)


def one(ctx, pf, cs, strides, planes, conc=None):
    E = ctx.E
    I, P = E.I, E.P
    I.ob = interp.Obligations()
    I.depth = I.mute = I.light = 0
    I.stack, I.spans, I.span = [], [], None
    W = World(I, conc)
    st = State()
    n = inp("planes", 0, U32)
    if planes is None:
        for k in CASES[:-1]:
            st.assume(ne(n - k))
        # the other counts, zero included
        pv = n
    else:
        pv = K(planes)
    nout = W.inp("nout", 0, I63 // target.PTR)
    I.regions["out"] = {"len": nout.scale(target.PTR), "writable": True}
    f = P.one("get_buffers_size")
    a = [W.w, W.h, E.image_format(st, "f", pf, cs, pv), E.opt(strides, W.arr("src_strides", target.PTR)), Ptr(("mem", "out"), (), ZERO, target.PTR, nout)]
    return W, nout, pv, I.call(st, f, a)


def run(ctx, pf, cs, strides):
    """All outcomes: ({'planes','w','h','nout'}, [(state, result name, value)])."""
    E = ctx.E
    outs = []
    n = inp("planes", 0, U32)
    for planes in CASES:
        W, nout, pv, r = one(ctx, pf, cs, strides, planes)
        for st, v in r:
            if planes is not None:
                s = st.fork()
                s.assume(eq(n - planes))
                st = s
            outs.append((st, front.err_name(E.P, v), v))
    return {"planes": n, "w": W.w, "h": W.h, "nout": nout}, outs
