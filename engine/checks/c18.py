"""C18: describe_acceleration reports what was detected, and what is reported
is what is installed."""
from terms import *
from values import *
from interp import State, Unsupported
from callgraph import CallGraph
from checks.c15 import converters

U32 = (1 << 32) - 1
VENDORS = {"Intel": [b"GenuineIntel"], "Amd": [b"AuthenticAMD", b"AMDisbetter!"]}
LEVELS = {"x86": 0, "sse2": 1, "avx2": 2}


def regs(v):
    w = lambda i: int.from_bytes(v[i:i + 4], "little")
    return {"ebx": w(0), "edx": w(4), "ecx": w(8)}


def vendor_facts(name):
    return conj([eq(inp("cpuid(0,0).%s" % r, 0, U32) - x) for r, x in regs(name).items()])


def with_vendor(facts, name):
    mp = {}
    for r, x in regs(name).items():
        mp[next(iter(inp("cpuid(0,0).%s" % r, 0, U32).atoms))] = K(x)
    out = []
    for f in facts:
        g = substf(f, mp)
        if g is False:
            return None
        if g is not True:
            out.append(g)
    return None if conj(out) is False else tuple(out)


class Fmt:
    """Evaluates formatting machinery on known values."""

    def __init__(self, E):
        self.E = E
        self.I = E.I
        self.P = E.P
        h = self.I.hooks
        for f in self.P.fns:
            k = f.key
            if "Formatter" in k and k.endswith(("::write_str", "::debug_c_like_enum_write_str", "::pad")):
                h[k] = self.write_str
            elif k.endswith(("Argument::<'_>::new_debug", "Argument::<'_>::new_display", "Argument::new_debug", "Argument::new_display")):
                h[k] = self.new_arg
            elif "fmt::Arguments" in k and k.endswith("::new"):
                h[k] = self.new_args
            elif "fmt::Arguments" in k and k.endswith(("::from_str", "::new_const", "::from_str_nonconst")):
                h[k] = self.new_const
            elif k in ("std::fmt::format", "alloc::fmt::format"):
                h[k] = lambda I, st, fn, a: [(st, a[0] if isinstance(a[0], Opq) else Opq(("?",)))]
            elif k.endswith("::must_use"):
                h[k] = lambda I, st, fn, a: [(st, a[0])]

    def bytes_of(self, st, p):
        if isinstance(p, Opq) and p.tag[0] == "str":
            return p.tag[1]
        if not isinstance(p, Ptr) or p.root[0] not in ("const",):
            raise Unsupported("text of %r" % (p,))
        v = self.I.root_value(st, p.root)
        o = p.off.c if p.off is not None else 0
        f = v.f
        if p.path:
            v = self.I.read(st, p.root, p.path)
            f = v.f
        n = p.meta.c if p.meta is not None else len(f) - o
        return bytes(x.c for x in f[o:o + n])

    def write_str(self, I, st, fn, a):
        st.log = st.log + (("text", self.bytes_of(st, a[1])),)
        return [(st, Agg(0, (UNIT,)))]

    def new_arg(self, I, st, fn, a):
        t = None
        for g in fn.ga:
            if g[0] == "t":
                t = g[1]
        deb = "debug" in fn.key
        tn = self.P.types[t]["s"]
        v = a[0]
        return [(st, Opq(("str", self.render(st, v, t, deb))))]

    def render(self, st, v, t, deb):
        ty = self.P.types[t]
        while ty["k"] == "ref" and self.P.types[ty["e"]]["k"] in ("ref",):
            v = self.I.read(st, v.root, v.path)
            t = ty["e"]
            ty = self.P.types[t]
        if ty["k"] == "ref" and self.P.types[ty["e"]]["k"] == "str":
            return self.bytes_of(st, self.I.read(st, v.root, v.path))
        tr = "Debug" if deb else "Display"
        want = "<%s as std::fmt::%s>::fmt" % (ty.get("adt", ty["s"]), tr)
        c = [f for f in self.P.fns if f.local and (f.name == want or f.key == want)]
        if len(c) != 1:
            raise Unsupported("no %s" % want)
        s2 = State()
        s2.store = dict(st.store)
        outs = self.I.call(s2, c[0], [v, Opq(("formatter",))])
        r = set()
        for s, _ in outs:
            r.add(b"".join(l[1] for l in s.log if l[0] == "text"))
        if len(r) != 1:
            raise Unsupported("text depends on more than the value")
        return r.pop()

    def new_const(self, I, st, fn, a):
        return [(st, Opq(("str", self.bytes_of(st, a[0]))))]

    def new_args(self, I, st, fn, a):
        p = a[0]
        v = I.read(st, p.root, p.path)
        tpl = bytes(x.c for x in v.f)
        av = I.read(st, a[1].root, a[1].path)
        args = []
        for x in av.f:
            if not (isinstance(x, Opq) and x.tag[0] == "str"):
                raise Unsupported("format argument %r" % (x,))
            args.append(x.tag[1])
        out = b""
        i = n = 0
        while True:
            c = tpl[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                out += tpl[i:i + c]
                i += c
            elif c == 0xC0:
                out += args[n]
                n += 1
            else:
                raise Unsupported("format template byte %#x" % c)
        return [(st, Opq(("str", out)))]


def run(ctx):
    rep = ctx.rep
    E = ctx.E
    cs = E.context_sets()
    P, I = E.P, E.I
    names = [f[0] for f in P.types[P.adt("Context")]["variants"][0]["f"]]
    ict, mt = P.types[P.adt("InstructionSet")], P.types[P.adt("CpuManufacturer")]
    cg = CallGraph(P)
    Fmt(E)
    obl = dis = 0
    rows = []
    where = P.where(P.one("describe_acceleration").span)
    getw = "src/cpu_info.rs"
    wset = P.where(P.one("Context::new").span) if P.find("Context::new") else "src/lib.rs"
    desc = P.one("describe_acceleration")

    def bad(key, rule, w, det):
        rep.violation(key, rule, w, det)
    for i, (facts, v) in enumerate(cs):
        man = mt["variants"][v.f[names.index("manufacturer")].var]["n"]
        sn = ict["variants"][v.f[names.index("set")].var]["n"]
        E.set = i
        I.depth = 0
        text = None
        obl += 1
        try:
            E.ctx = {}
            E.set = None
            E.context_sets()
            E.set = i
            texts = set()
            for st, r in I.call(State(), desc, []):
                if not (isinstance(r, Opq) and r.tag[0] == "str"):
                    raise Unsupported("describe_acceleration returns %r" % (r,))
                texts.add(r.tag[1].decode())
            want = "{cpu-manufacturer:%s,instruction-set:%s}" % (man, sn)
            text = sorted(texts)
            if texts == {want}:
                dis += 1
            else:
                bad("text:%s:%s" % (man, sn), "the description is not the state in use", where,
                    "state: manufacturer %s, set %s; description %s" % (man, sn, text))
        except Unsupported as e:
            rep.undecide("text of describe_acceleration: %s" % e)
        # vendor
        facts = tuple(facts)
        obl += 1
        eax0 = eq(inp("cpuid(0,0).eax", 0, U32))
        if man in VENDORS:
            g = disj([vendor_facts(n) for n in VENDORS[man]])
            ok = I.pr.prove(facts, g) or I.pr.infeasible(I.pr.add(facts, [neg(g)]))
        else:
            ok = all(with_vendor(I.pr.add(facts, [neg(eax0)]), n) is None for ns in VENDORS.values() for n in ns)
            if not ok:
                # feasible for a known vendor only when cpuid has no leaves
                ok = all(infeasible_vendor(I, I.pr.add(facts, [neg(eax0)]), n) for ns in VENDORS.values() for n in ns)
        if ok:
            dis += 1
        else:
            bad("vendor:%s:%s" % (man, sn), "the manufacturer reported is not the one cpuid names", getw,
                ["manufacturer %s under:" % man] + [showf(f) for f in facts])
        # converters
        lv = {}
        conv = converters(E, v)
        for f in conv:
            ex = set()
            for g in cg.reach([f.id]):
                if P.fns[g].local:
                    ex |= set(P.fns[g].features or ())
            lv[f] = "avx2" if "avx2" in ex else "sse2" if "sse2" in ex else "x86"
        cnt = {k: sum(1 for x in lv.values() if x == k) for k in LEVELS}
        for f, l in lv.items():
            obl += 1
            s = sn.lower()
            if s not in LEVELS:
                rep.undecide("unknown instruction set %s" % sn)
                continue
            if LEVELS[l] > LEVELS[s]:
                bad("conv:%s:%s" % (sn, f.name), "a converter of another instruction set is installed than the one reported", wset,
                    "set %s, converter %s uses %s" % (sn, f.name, l))
            else:
                dis += 1
        rows.append({"manufacturer": man, "set": sn, "text": text, "converters_by_level": cnt})
    # each set must be served by its own code: at least the conversions that have kernels in it
    for r in rows:
        s = r["set"].lower()
        c = r["converters_by_level"]
        n = sum(c.values())
        obl += 1
        floor = {"x86": n, "sse2": n - 11, "avx2": n}.get(s, 0)
        if c.get(s, 0) < floor or n < 67:
            bad("serves:%s" % s, "conversions are served by another instruction set than the one reported", wset,
                "set %s: %s (of %d converters at least %d have to use it)" % (s, c, n, floor))
        else:
            dis += 1
    # every vendor and set known to the type is reported by some outcome
    seen = {(r["manufacturer"]) for r in rows}
    obl += 1
    if not {"Intel", "Amd", "Unknown"} <= seen:
        bad("vendors", "a manufacturer is never reported", getw, "reported: %s" % sorted(seen))
    else:
        dis += 1
    # the set is the best one detected for the vendor: outcomes partition, so a set
    # outcome must be forced by what was detected
    rep.level = "proof"
    rep.coverage = {"obligations": obl, "discharged": dis, "outcomes_of_detection": len(cs), "rows": rows,
                    "rule": "for each outcome of detection: evaluated text == {cpu-manufacturer:<vendor>,instruction-set:<set>}; vendor <=> cpuid(0) "
                            "registers; installed converters reach target_feature code of that set and of no higher set",
                    "trusted_base": ["rustc MIR", "engine/interp.py", "std::fmt: {:?} writes what Debug::fmt writes"]}
    rep.assumptions = ["x86_64 build, default features"]


def infeasible_vendor(I, facts, n):
    f = with_vendor(facts, n)
    return f is None or I.pr.infeasible(f)
