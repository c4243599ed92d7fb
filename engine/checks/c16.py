"""C16: no mutable state is shared between calls.  Effect analysis over every
function reachable from the public entry points."""
import re
from callgraph import CallGraph, api_roots

# effects that depend on, or change, something other than the arguments
DENY = [
    (r"(core|std)::sync::atomic::", "atomic shared state"),
    (r"intrinsics::atomic_", "atomic shared state"),
    (r"std::sync::(\w+::)*(Mutex|RwLock|Condvar|Barrier|Reentrant|mpsc|Once::|OnceState|Arc|poison)", "synchronisation between calls"),
    (r"std::thread::|std::thread_local|LocalKey|thread_local", "threads or thread-local state"),
    (r"std::env::", "process environment"), (r"std::(fs|io|net|os|process|time)::", "effects outside the process"),
    (r"(core|std)::cell::(\w+::)*(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)", "interior mutability"),
    (r"RandomState|hash::random|getrandom|fastrand", "randomness"),
    (r"_rdtsc|rdtscp|_rdrand|_rdseed|llvm\.x86\.rd(rand|seed|tsc|pmc)", "values that differ between executions"),
    (r"std::sys(_common)?::", "operating system interface"), (r"spin_loop", "busy waiting"),
    (r"(^|::)libc::", "C library call"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
# library functions without analysable body that depend on their arguments only
ALLOW = [re.compile(x) for x in (
    r"^(core|std)::(panicking|intrinsics|fmt|ptr|slice|str|num|mem|option|result|iter|ops|convert|cmp|array|alloc|hint|ub_checks|any|clone|default|char|ascii|marker|borrow|error|range|unicode)::",
    r"^(core::arch|core::core_arch|std::arch|core::stdarch)::", r"^alloc::", r"^std::(alloc|string|vec|ffi|boxed|borrow|collections::TryReserve)::", r"^std_detect::",
    r"^<.* as (core|std|alloc)::", r"^core::", r"^llvm\.", r"^__rust_|__rust_dealloc|__rust_alloc",
)]
INIT = re.compile(r"^std::sync::(\w+::)*(OnceLock|LazyLock)")
INIT_OK = re.compile(r"::(get_or_init|get|force|deref|new)(::|$|<)")


def zero_sized(P, g):
    t = P.types[g]
    return t.get("k") in ("fndef", "closure") and (t.get("l") or {}).get("size") == 0


def run(ctx):
    rep = ctx.rep
    P = ctx.P
    G = CallGraph(P)
    roots = api_roots(P)
    inits, uses = [], {}
    # initialisers of lazily built values are reached through their type
    par = {}
    work = list(roots)
    stop = {f.id for f in P.fns if INIT.search(f.name)}
    starts = set(roots)
    while True:
        par = G.reach(sorted(starts), stop=stop)
        more = set()
        for f in par:
            fn = P.fns[f]
            if f in stop:
                for g in fn.ga:
                    if g[0] == "t" and P.types[g[1]].get("fn") is not None:
                        x = P.types[g[1]]["fn"]
                        x = int(x)
                        if x not in par:
                            more.add(x)
        if not more - starts:
            break
        starts |= more
    obl = 0
    sites = 0
    stat = {s["name"]: s for s in P.statics}
    used = {}
    initfns = set()
    for f in par:
        if f in stop:
            for g in P.fns[f].ga:
                if g[0] == "t" and P.types[g[1]].get("fn") is not None:
                    initfns.add(int(P.types[g[1]]["fn"]))
    only_init = None

    def from_calls(f):
        """Is f reachable other than through the initialiser?"""
        nonlocal only_init
        if only_init is None:
            # function pointers made while the context is built are called by conversions
            held = set()
            for g in G.reach(sorted(initfns), taken=False):
                held |= G.taken[g]
            only_init = G.reach(sorted(set(roots) | (held - stop)), stop=stop | initfns)
        return f in only_init and f not in initfns

    for f in sorted(par):
        fn = P.fns[f]
        for s in G.statics[f]:
            used.setdefault(s, []).append(f)
        for sp in G.tlsrefs.get(f, ()):
            obl += 1
            rep.violation("tls:%s" % fn.key, "thread-local state", P.where(sp), G.path(par, f))
        for callee, sp, kind in G.calls[f]:
            sites += 1
            if kind == "asm" and not fn.name.startswith(("std::arch", "core::arch", "core::core_arch")):
                rep.undecide("%s: inline assembly in %s" % (P.where(sp) if sp else "?", fn.name))
        if fn.local and fn.kind == "item":
            obl += 1
            continue
        obl += 1
        if f in stop:
            if not INIT_OK.search(fn.key):
                rep.undecide("%s: use of %s" % (G.path(par, f)[-1], fn.name))
            if fn.key.endswith("get_or_init"):
                cl = [g[1] for g in fn.ga if g[0] == "t"]
                if not any(zero_sized(P, g) for g in cl[1:]):
                    rep.violation("init:%s" % fn.name, "the value built at first use depends on the arguments of that call", where_called(P, G, par, f), G.path(par, f))
            continue
        hit = next((why for r, why in DENY if r.search(fn.name) or r.search(fn.key)), None)
        if hit and (fn.key.startswith("core::fmt") or re.match(r"^(core|std)::(fmt|panicking)", fn.key)):
            hit = None
        if hit and hit in ("interior mutability",) and "drop_glue" in fn.key:
            hit = None
        if hit:
            if from_calls(f):
                rep.violation("effect:%s" % fn.key, "a conversion reaches %s: %s" % (fn.key, hit), where_called(P, G, par, f), G.path(par, f))
            else:
                rep.undecide("%s is used while the context is built: %s" % (fn.name, hit))
        elif fn.blocks is None and not any(r.search(fn.key) or r.search(fn.name) for r in ALLOW) and fn.kind not in ("intrinsic", "llvm"):
            rep.undecide("%s: effects of %s are not known" % (where_called(P, G, par, f), fn.name))
    for name, fs in sorted(used.items()):
        s = stat.get(name)
        obl += 1
        if s is None:
            if name.startswith(("std", "core", "alloc")):
                continue
            rep.undecide("static %s is not described" % name)
            continue
        w = P.where(s["span"])
        path = G.path(par, fs[0])
        t = P.types[s["t"]]
        if s["mut"]:
            rep.violation("static:%s" % name, "mutable static shared by all calls", w, path)
        elif s["tls"]:
            rep.violation("static:%s" % name, "thread-local static", w, path)
        elif not t.get("freeze"):
            inner = t.get("adt", "")
            if INIT.search(inner):
                g = [x[1] for x in t["ga"] if x[0] == "t"]
                if not P.types[g[0]].get("freeze"):
                    rep.violation("static:%s" % name, "the shared value has interior mutability", w, path)
            else:
                rep.violation("static:%s" % name, "static with interior mutability, shared by all calls", w, path)
    # weakly ordered stores need a fence before the function returns to another thread
    nt = [f for f in par if re.search(r"nontemporal_store|_mm(256)?_stream|llvm.*movnt", P.fns[f].name)]
    if nt:
        obl += 1
        if not any("sfence" in P.fns[f].name for f in par):
            rep.violation("stream", "non-temporal stores without a fence: another thread may see the image without them", where_called(P, G, par, nt[0]), G.path(par, nt[0]))
    conv = [f for f in par if P.fns[f].local and P.fns[f].kind == "item"]
    if len(conv) < 60 or not used:
        rep.undecide("only %d functions of the library are reachable from its entry points" % len(conv))
    rep.level = "proof"
    rep.coverage = {"obligations": obl, "discharged": obl - len(rep.violations) - len(rep.undecided), "entry_points": [P.fns[r].name for r in roots],
                    "functions": len(par), "library_functions": len(conv), "call_sites": sites, "statics": sorted(used),
                    "rule": "no reachable function touches a mutable, thread-local or interior-mutable static, an atomic, a lock, a thread, the environment, "
                            "the file system, the clock or a source of randomness; the only lazily built value is immutable afterwards and built from nothing but detection",
                    "trusted_base": ["rustc MIR", "std functions without MIR classified by module"]}
    rep.assumptions = ["default features"]


def where_called(P, G, par, f):
    p = par.get(f)
    if p and p[1]:
        return P.where(p[1])
    while p:
        f = p[0]
        if P.fns[f].local and P.fns[f].span:
            return P.where(P.fns[f].span)
        p = par.get(f)
    return "src/lib.rs"
