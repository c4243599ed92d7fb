"""C15: vector code is installed only behind run-time detection, and nothing
else uses instructions beyond the target's baseline."""
from terms import *
from values import *
from callgraph import CallGraph, api_roots

BASE = {"x87", "sse", "sse2", "fxsr"}
LEVEL = {"sse2": set(BASE),
         "avx2": BASE | {"sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "popcnt"},
         "x86": set(BASE)}
# what an outcome of detection has to imply before code needing the feature is installed
IMPLIES = {"avx2": ("avx2", "avx512f"), "avx": ("avx", "avx2", "fma", "f16c", "avx512f"), "sse4.2": ("sse4.2", "avx", "avx2"), "sse4.1": ("sse4.1", "sse4.2", "avx", "avx2"),
           "ssse3": ("ssse3", "sse4.1", "sse4.2", "avx", "avx2"), "sse3": ("sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2")}


def detected_implied(pr, facts, feats):
    """Every way of meeting the facts has one of the features detected: with all
    of them undetected, the facts contradict each other."""
    mp = {}
    for f in feats:
        a = inp("detected(%s)" % f, 0, 1)
        mp[next(iter(a.atoms))] = ZERO
    fs = []
    for f in facts:
        g = substf(f, mp)
        if g is False:
            return True
        if g is True:
            continue
        fs.append(g)
    if conj(fs) is False:
        return True
    return pr.infeasible(tuple(fs))


def bit_implied(pr, facts, name, bit):
    """The facts imply that the bit of the input is set."""
    x = inp(name, 0, (1 << 32) - 1)
    b = fdiv(x, 1 << bit) - fdiv(x, 1 << (bit + 1)).scale(2)
    g = ne(b)
    return any(f == g for f in facts) or pr.prove(tuple(facts), g)


def converters(E, v):
    P = E.P
    names = [f[0] for f in P.types[P.adt("Context")]["variants"][0]["f"]]
    tab = v.f[names.index("converters")]
    return [x.f[0].fn for x in tab.f if isinstance(x, Agg) and x.var == 1]


def run(ctx):
    rep = ctx.rep
    E = ctx.E
    cs = E.context_sets()
    P, I = E.P, E.I
    cg = CallGraph(P)
    obl = dis = 0
    rows = []
    ict = P.types[P.adt("InstructionSet")]
    names = [f[0] for f in P.types[P.adt("Context")]["variants"][0]["f"]]
    allconv = set()
    seenset = set()
    for facts, v in cs:
        sname = ict["variants"][v.f[names.index("set")].var]["n"].lower()
        seenset.add(sname)
        conv = converters(E, v)
        allconv |= {f.id for f in conv}
        need = {}
        for f in conv:
            par = cg.reach([f.id])
            for g in par:
                for ft in P.fns[g].features or ():
                    if ft not in need:
                        need[ft] = (f, g, par)
        explicit = set()
        for f in conv:
            for g in cg.reach([f.id]):
                if P.fns[g].local:
                    explicit |= set(P.fns[g].features or ())
        done = {}
        for ft, (f, g, par) in sorted(need.items()):
            obl += 1
            if ft in BASE:
                if ft == "sse2" and "sse2" in explicit and not bit_implied(I.pr, facts, "cpuid(1,0).edx", 26) \
                        and not detected_implied(I.pr, facts, ("sse2", "avx", "avx2")):
                    rep.violation("sse2:%s" % sname, "SSE2 converters are installed without checking cpuid(1).edx bit 26 or detection",
                                  P.where(P.one("cpu_info::get").span) if P.find("cpu_info::get") else "src/cpu_info.rs",
                                  ["outcome: set=%s" % sname] + [showf(x) for x in facts])
                    continue
                dis += 1
                continue
            if ft not in IMPLIES:
                ok = detected_implied(I.pr, facts, (ft,))
            else:
                k = IMPLIES[ft]
                if k not in done:
                    done[k] = detected_implied(I.pr, facts, k) or (
                        # the operating system enables AVX and cpuid reports AVX2
                        ft == "avx2" and detected_implied(I.pr, facts, IMPLIES["avx"]) and bit_implied(I.pr, facts, "cpuid(7,0).ebx", 5))
                ok = done[k]
            if ok:
                dis += 1
            else:
                rep.violation("detect:%s:%s" % (sname, ft),
                              "code using %s is installed without detection of the feature by the operating-system aware test" % ft,
                              P.where(P.fns[g].span) if P.fns[g].span else f.name,
                              ["outcome: set=%s, conditions: %s" % (sname, "; ".join(showf(x) for x in facts)),
                               "installed converter: " + f.name, "reaches: " + " -> ".join(cg.path(par, g)[-4:])])
        rows.append({"set": sname, "converters": len(conv), "features_reached": sorted(need)})
    # everything else
    par = cg.reach(api_roots(P), stop=())
    # functions reached without going through a converter
    def reach_without(roots):
        seen = {r: None for r in roots}
        w = list(roots)
        while w:
            f = w.pop()
            nx = [(c, sp) for c, sp, k in cg.calls[f] if c is not None] + [(c, None) for c in cg.taken[f]]
            for c, sp in nx:
                if c in allconv or c in seen:
                    continue
                seen[c] = (f, sp)
                w.append(c)
        return seen
    direct = reach_without(api_roots(P))
    for g, p in direct.items():
        fn = P.fns[g]
        obl += 1
        extra = [x for x in (fn.features or ()) if x not in BASE]
        if extra:
            rep.violation("direct:%s" % fn.name, "a function needing %s is reachable without going through the dispatch table" % ",".join(extra),
                          P.where(fn.span) if fn.span else fn.name, cg.path(direct, g))
        else:
            dis += 1
    # a converter is only callable through the table
    for f in P.fns:
        if f.blocks is None or f.id not in direct:
            continue
        for c, sp, k in cg.calls[f.id]:
            if c in allconv:
                obl += 1
                rep.violation("call:%s" % P.fns[c].name, "a converter is called directly, bypassing the dispatch table", P.where(sp),
                              "%s calls %s" % (f.name, P.fns[c].name))
    # caller of a target_feature function has the feature or is an installed converter
    asm = [(f, sp) for f in P.fns if f.blocks is not None and f.local for c, sp, k in cg.calls[f.id] if k == "asm"]
    for f, sp in asm:
        rep.undecide("inline assembly in %s (%s)" % (f.name, P.where(sp)))
    if not cs or not allconv:
        rep.violation("anchor", "no outcome of detection installs converters", "src/lib.rs", "Context::new")
    if len(seenset) < 2 or not any("avx2" in r["features_reached"] for r in rows):
        rep.undecide("only the sets %s were found; no AVX2 converter is installed" % sorted(seenset))
    rep.level = "proof"
    rep.coverage = {"obligations": obl, "discharged": dis, "outcomes_of_detection": len(cs), "rows": rows,
                    "functions_outside_converters": len(direct), "converters": len(allconv),
                    "rule": "for every outcome of detection, each target feature reachable from an installed converter is implied by the "
                            "conditions of that outcome; functions reached without the table use the baseline only",
                    "trusted_base": ["rustc MIR and target_feature attributes", "engine/interp.py", "engine/prover.py",
                                     "std is_x86_feature_detected checks the processor and the operating system"]}
    rep.assumptions = ["x86_64 target, default features; the aarch64 and 32-bit configurations are not compiled here"]
