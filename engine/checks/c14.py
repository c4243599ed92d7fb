"""C14: ownership of the string handed to C (typestate of the CString)."""
from terms import *
from values import *
from interp import State, Unsupported
from callgraph import CallGraph, api_roots


class Tok:
    n = 0


def tokens(v, out):
    if isinstance(v, Opq) and isinstance(v.tag, tuple) and v.tag[:1] == ("cstring",):
        out.append(v.tag)
    elif isinstance(v, Agg):
        for x in v.f:
            tokens(x, out)
    return out


def install(I, bad):
    def new(I, st, fn, a):
        Tok.n += 1
        t = ("cstring", Tok.n)
        other = st.fork()
        st.log = st.log + (("new", t),)
        return [(st, Agg(0, (Opq(t),))), (other, Agg(1, (Opq(("nul error",)),)))]

    def into_raw(I, st, fn, a):
        ts = tokens(a[0], [])
        if len(ts) != 1:
            raise Unsupported("into_raw of an unknown string")
        st.log = st.log + (("release", ts[0]),)
        return [(st, Ptr(("owned",) + ts[0], (), ZERO, 1))]

    def from_raw(I, st, fn, a):
        p = a[0]
        if not isinstance(p, Ptr):
            raise Unsupported("from_raw of an unknown pointer")
        if p.nul is not False:
            if not I.pr.prove(st.facts, neg(p.nul)):
                bad.append(("from_raw-null", "CString::from_raw is reached with a null pointer", I.cur_where()))
        Tok.n += 1
        t = ("cstring", Tok.n)
        st.log = st.log + (("take", p.root, t, show(p.off) if p.off is not None else "0"),)
        return [(st, Opq(t))]

    def drop(I, st, g, p):
        v = I.read(st, p.root, p.path) if isinstance(p, Ptr) else None
        for t in tokens(v, []):
            st.log = st.log + (("drop", t),)
    h = I.hooks
    h["drop"] = drop
    for f in I.P.fns:
        n = f.key
        if n.endswith("CString::new") or n.endswith("CString::from_vec_unchecked"):
            h[n] = new
        elif n.endswith("CString::into_raw"):
            h[n] = into_raw
        elif n.endswith("CString::from_raw"):
            h[n] = from_raw
        elif n in ("std::mem::drop", "core::mem::drop"):
            def mdrop(I, st, fn, a):
                for t in tokens(a[0], []):
                    st.log = st.log + (("drop", t),)
                return [(st, UNIT)]
            h[n] = mdrop
        elif ("CStr::as_ptr" in n or "CString as" in n or "CString::as_" in n) and not n.endswith("::drop"):
            def borrow(I, st, fn, a):
                v = a[0]
                if isinstance(v, Ptr):
                    v = v if v.root[0] == "borrow" else I.read(st, v.root, v.path)
                if isinstance(v, Ptr):
                    return [(st, v)]
                ts = tokens(v, [])
                if len(ts) != 1:
                    raise Unsupported("borrow of an unknown string")
                return [(st, Ptr(("borrow",) + ts[0], (), ZERO, 1))]
            h[n] = borrow


ALLOW = {"CString::into_raw": "c_api::dcp_describe_acceleration", "CString::from_raw": "c_api::dcp_unref_string"}


def run(ctx):
    rep = ctx.rep
    P = ctx.P
    E = ctx.E
    P = E.P
    I = E.I
    bad = []
    install(I, bad)
    obl = dis = 0
    details = []
    # 1. the string returned to C
    exp = {f.sym: f for f in P.fns if f.local and f.export}
    for s in ("dcp_describe_acceleration", "dcp_unref_string"):
        if s not in exp:
            rep.violation("missing-" + s, "the C function that hands out / releases the string is not exported", "src/lib.rs", s)
    if rep.violations:
        rep.coverage = {"explanation": "anchor missing"}
        return
    f = exp["dcp_describe_acceleration"]
    where = P.where(f.span)
    try:
        desc = [g for g in P.find("describe_acceleration")]
        for g in desc:
            I.hooks[g.key] = lambda I, st, fn, a: [(st, Opq(("string",)))]
        outs = I.call(State(), f, [])
        nret = 0
        for st, v in outs:
            obl += 1
            rel = [l[1] for l in st.log if l[0] == "release"]
            dropped = [l[1] for l in st.log if l[0] == "drop"]
            new = [l[1] for l in st.log if l[0] == "new"]
            okv = None
            if isinstance(v, Ptr) and v.root[0] == "owned":
                t = v.root[1:]
                if t in dropped:
                    okv = "the returned pointer's string is also dropped here"
                elif rel.count(t) != 1:
                    okv = "the string is not released exactly once to the caller"
                elif v.path or (v.off is not None and v.off.c != 0):
                    okv = "the pointer returned is not the start of the allocation"
                nret += 1
            elif isinstance(v, Ptr) and v.root == ("null",):
                if rel:
                    okv = "a released string is not returned to the caller (leak)"
            elif isinstance(v, Ptr):
                okv = "the pointer returned does not own its allocation (%s): freeing it is not the caller's right, or it dangles" % (v.root[0],)
            else:
                rep.undecide("dcp_describe_acceleration returns an unrecognised value %r" % (v,))
                continue
            if okv is None:
                dis += 1
            else:
                rep.violation("describe:" + okv[:40], "ownership of the string returned to C", where, [okv] + [str(l) for l in st.log])
            details.append("dcp_describe_acceleration returns %s after %s" % (v.root[0], [l[0] for l in st.log]))
        if not nret and not rep.violations and not rep.undecided:
            rep.violation("describe:never", "no path returns a string", where, "every path returns null")
    except Unsupported as e:
        rep.undecide("dcp_describe_acceleration: %s" % e)
    # 2. releasing it
    f = exp["dcp_unref_string"]
    where = P.where(f.span)
    try:
        st = State()
        nul = eq(inp("null(string)", 0, 1) - 1)
        arg = Ptr(("cstring argument",), (), ZERO, 1, None, nul)
        outs = I.call(st, f, [arg])
        for st, v in outs:
            obl += 1
            takes = [l for l in st.log if l[0] == "take"]
            drops = [l[1] for l in st.log if l[0] == "drop"]
            isnull = I.pr.infeasible(I.pr.add(st.facts, [neg(nul)]))
            notnull = I.pr.infeasible(I.pr.add(st.facts, [nul]))
            okv = None
            if isnull:
                if takes:
                    okv = "a null pointer is freed"
            elif not notnull and not takes:
                okv = "a string that is not null may not be released (leak)"
            elif notnull or takes:
                if len(takes) != 1:
                    okv = "the string is taken back %d times, expected once" % len(takes)
                elif takes[0][1] != ("cstring argument",) or takes[0][3] != "0":
                    okv = "what is released is not the pointer that was passed"
                elif drops.count(takes[0][2]) != 1:
                    okv = "the string is dropped %d times, expected once" % drops.count(takes[0][2])
            if okv is None:
                dis += 1
            else:
                rep.violation("unref:" + okv[:40], "release of the string", where, [okv] + [str(l) for l in st.log])
            details.append("dcp_unref_string: null=%s log %s" % (isnull, [l[0] for l in st.log]))
        for k, t, w in bad:
            obl += 1
            rep.violation("unref:" + k, "release of the string", w, t)
    except Unsupported as e:
        rep.undecide("dcp_unref_string: %s" % e)
    # 3. nobody else converts raw strings
    cg = CallGraph(P)
    sites = 0
    for g in P.fns:
        if not g.local or g.blocks is None:
            continue
        for c, sp, k in cg.calls[g.id]:
            if c is None:
                continue
            cn = P.fns[c].key
            for fn, owner in ALLOW.items():
                if cn.endswith(fn):
                    sites += 1
                    par = cg.reach([exp["dcp_describe_acceleration"].id if "into" in fn else exp["dcp_unref_string"].id])
                    others = [f2 for s, f2 in exp.items()
                              if s not in ("dcp_describe_acceleration", "dcp_unref_string") and g.id in cg.reach([f2.id])]
                    obl += 1
                    if g.id not in par or others:
                        rep.violation("site:" + g.name, "raw string conversion outside the two C functions", P.where(sp),
                                      "%s calls %s" % (g.name, cn))
                    else:
                        dis += 1
    rep.level = "proof"
    rep.coverage = {"obligations": obl, "discharged": dis,
                    "trusted_base": ["rustc MIR construction", "driver/src/main.rs (MIR extraction)", "engine/interp.py (abstract interpreter)",
                                     "std: CString::into_raw/from_raw transfer ownership; dropping a CString frees it once"],
                    "conversion_sites": sites, "paths": details,
                    "functions": [exp[s].name for s in ("dcp_describe_acceleration", "dcp_unref_string")],
                    "rule": "typestate of each CString on every path: released to the caller exactly once / taken back and dropped exactly once"}
    rep.assumptions = ["a C caller passes to dcp_unref_string only pointers it got from dcp_describe_acceleration, once each"]
