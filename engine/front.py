"""convert_image in front of the converters: all pairs of image formats."""
from terms import *
from values import *
import interp
from interp import State, Unsupported
from roots import World, U32
import ref


def variants(P, adt):
    return [v["n"] for v in P.types[P.adt(adt)]["variants"]]


def table_fns(E):
    """Local functions held by any context (the installed converters)."""
    from checks.c15 import converters
    out = {}
    for facts, v in E.context_sets():
        for f in converters(E, v):
            out[f.key] = f
    return out


def err_name(P, v):
    if isinstance(v, Agg) and v.var == 0:
        return "ok"
    if isinstance(v, Agg) and v.var == 1 and isinstance(v.f[0], Agg):
        return P.types[P.adt("ErrorKind")]["variants"][v.f[0].var]["n"]
    return None


def stub(I, fns, on):
    """Replace the converters by 'succeeds or fails', recording the call."""
    for k in fns:
        if on:
            def h(I, st, fn, a):
                st.log = st.log + (("converter", fn.name),)
                s2 = st.fork()
                return [(st, True), (s2, False)]
            I.hooks[k] = h
        else:
            I.hooks.pop(k, None)


def run(ctx, setname, src, dst):
    """Outcomes of convert_image with converters stubbed: src, dst = (format, space);
    planes, dimensions, strides and buffers symbolic."""
    E = ctx.E
    I = E.I
    sets = ctx.sets()
    I.ob = interp.Obligations()
    I.depth = I.mute = I.light = 0
    I.stack, I.spans, I.span = [], [], None
    np_ = [inp("src_planes", 0, U32), inp("dst_planes", 0, U32)]
    W, out = E.convert((src[0], src[1], np_[0]), (dst[0], dst[1], np_[1]), setidx=sets[setname])
    return W, np_, [(st, err_name(E.P, v), v) for st, v in out]


def wellformed(pf, n, w, h):
    """Formula: n planes and a w x h image are acceptable for the format."""
    fs = [disj([eq(n - k) for k in ref.PLANES[pf]])]
    if pf in ref.SUB:
        sx, sy = ref.SUB[pf]
        if sx == 2:
            fs.append(eq(mod(w, 2)))
        if sy == 2:
            fs.append(eq(mod(h, 2)))
    return conj(fs)


def consistent(pf, cs):
    return (pf in ref.ORDER) == (cs == "Rgb")
