"""Loads the MIR dump and precomputes control-flow structure and liveness."""
import json
import pickle


# Wrappers of the standard library that only mark how their content may be used: seen through
TRANSPARENT = ("MaybeUninit", "ManuallyDrop", "MaybeDangling")


class Fn:
    __slots__ = ("id", "name", "tname", "def_", "sym", "kind", "intr", "ty", "ga", "local", "features", "export",
                 "span", "foreign", "abi", "locals", "argc", "blocks", "names", "empty", "_region", "_live", "_addr",
                 "key", "_succ")

    def __repr__(self):
        return "<fn %s>" % self.name


class Region:
    """A loop body or whole function: nodes in topological order, inner loops
    collapsed into their header."""
    __slots__ = ("entry", "nodes", "rank", "loops", "depth")


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.allocs = d["allocs"]
        self.files = d["files"]
        self.statics = d["statics"]
        self.generic = d["generic"]
        self.roots = d["roots"]
        self.adts = d["adts"]
        self.fns = []
        for i, f in enumerate(d["fns"]):
            o = Fn()
            o.id = i
            o.name = f["name"]
            o.tname = f["tname"]
            o.def_ = f["def"]
            o.sym = f["sym"]
            o.kind = f["kind"]
            o.intr = f["intr"]
            o.ty = f["ty"]
            o.ga = f["ga"]
            o.local = f["local"]
            o.features = f["features"]
            o.export = f["export"]
            o.span = f.get("span")
            o.foreign = f["foreign"]
            o.abi = f.get("abi")
            o.locals = f.get("locals")
            o.argc = f.get("argc")
            o.blocks = f.get("blocks")
            o.names = dict((a, b) for a, b in f.get("names", []))
            o.empty = f.get("empty_shim", False)
            o._region = o._live = o._addr = o._succ = None
            o.key = f["def"] or f["name"]
            self.fns.append(o)
        self.unwrap_types()
        self.bydef = {}
        for f in self.fns:
            self.bydef.setdefault(f.key, []).append(f)
        self._adt_by_name = None

    def unwrap_types(self):
        """Makes the wrappers that only mark how a value may be used transparent."""
        W = {}
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t["adt"].rsplit("::", 1)[-1] in TRANSPARENT and t["adt"].split("::")[0] in ("std", "core"):
                W[i] = t["variants"][0]["f"][-1][1]
        if not W:
            return
        new = {}
        for i in W:
            j = W[i]
            while j in W:
                j = W[j]
            new[i] = self.types[j]
        field = dict((i, len(self.types[i]["variants"][0]["f"]) - 1) for i in W)
        old = list(self.types)
        for i in W:
            self.types[i] = new[i]

        def place(f, pl):
            if not pl[1]:
                return
            t = f.locals[pl[0]]
            out = []
            for p in pl[1]:
                k = p[0]
                if k == "f":
                    if t in W and p[1] == field[t]:
                        t = p[2]
                        continue
                    t = p[2]
                elif k == "*":
                    t = old[t].get("e") if t is not None else None
                elif k in ("i", "c", "s"):
                    t = old[t].get("e") if t is not None and k != "s" else t
                elif k == "o":
                    t = p[1]
                out.append(p)
            if len(out) != len(pl[1]):
                pl[1][:] = out

        def op(f, o):
            if o[0] in ("c", "m"):
                place(f, o[1])

        for f in self.fns:
            def upl(pl, f=f):
                place(f, pl)

            def uop(o, f=f):
                if o[0] in ("c", "m"):
                    place(f, o[1])

            for b in f.blocks or ():
                for st in b[0]:
                    k = st[0]
                    if k == "=":
                        place(f, st[1])
                        rv = st[2]
                        ruses(rv, uop, upl)
                        if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in W:
                            a = rv[1][1]
                            if old[a]["ak"] == "union" and rv[1][3] != field[a]:
                                st[2] = ["uninit"]
                            else:
                                st[2] = ["use", rv[2][0]]
                    elif k == "sd":
                        place(f, st[1])
                    elif k == "assume":
                        uop(st[1])
                    elif k == "cpy":
                        for o in st[1:4]:
                            uop(o)
                t = b[1]
                if t[0] == "switch":
                    uop(t[1])
                elif t[0] == "call":
                    uop(t[1])
                    for o in t[2]:
                        uop(o)
                    place(f, t[3])
                elif t[0] == "assert":
                    uop(t[1])
                    for o in t[5]:
                        uop(o)
                elif t[0] == "drop":
                    place(f, t[1])

    def where(self, span):
        if not span:
            return "?"
        fn = self.files[span[0]]
        return "%s:%d" % (fn, span[1])

    def find(self, name):
        """Functions whose definition path is name (crate prefix optional)."""
        r = self.bydef.get(name) or self.bydef.get("dcv_color_primitives::" + name) or []
        return r

    def one(self, name):
        r = self.find(name)
        if len(r) != 1:
            raise KeyError("%s: %d definitions" % (name, len(r)))
        return r[0]

    def adt(self, name):
        if self._adt_by_name is None:
            self._adt_by_name = {}
            for i, t in enumerate(self.types):
                if t["k"] == "adt":
                    self._adt_by_name.setdefault(t["adt"], []).append(i)
        for k, v in self._adt_by_name.items():
            if k == name or k.endswith("::" + name):
                return v[0]
        raise KeyError(name)

    # control flow -----------------------------------------------------------
    def succ(self, f):
        if f._succ is None:
            f._succ = [successors(b[1]) for b in f.blocks]
        return f._succ

    def region(self, f):
        if f._region is None:
            succ = self.succ(f)
            seen = {0}
            st = [0]
            while st:
                b = st.pop()
                for s in succ[b]:
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            f._region = build_region(succ, 0, seen, 0)
        return f._region

    def addr_taken(self, f):
        if f._addr is None:
            s = set()
            for b in f.blocks:
                for st in b[0]:
                    if st[0] == "=" and st[2][0] in ("ref", "addr"):
                        pl = st[2][1]
                        if not (pl[1] and any(p[0] == "*" for p in pl[1])):
                            s.add(pl[0])
            f._addr = s
        return f._addr

    def live(self, f):
        """live-in locals per block."""
        if f._live is None:
            succ = self.succ(f)
            n = len(f.blocks)
            use = [set() for _ in range(n)]
            dfn = [set() for _ in range(n)]
            for i, b in enumerate(f.blocks):
                u, d = use[i], dfn[i]

                def upl(pl, u=u, d=d):
                    if pl[0] not in d:
                        u.add(pl[0])
                    for p in pl[1]:
                        if p[0] == "i" and p[1] not in d:
                            u.add(p[1])

                def uop(o):
                    if o[0] in ("c", "m"):
                        upl(o[1])

                def dpl(pl, u=u, d=d):
                    if not pl[1]:
                        if pl[0] not in u:
                            d.add(pl[0])
                    else:
                        upl(pl)

                for st in b[0]:
                    k = st[0]
                    if k == "=":
                        rv = st[2]
                        ruses(rv, uop, upl)
                        dpl(st[1])
                    elif k == "sd":
                        upl(st[1])
                    elif k == "dead":
                        if st[1] not in u:
                            d.add(st[1])
                    elif k == "assume":
                        uop(st[1])
                    elif k == "cpy":
                        for o in st[1:4]:
                            uop(o)
                t = b[1]
                if t[0] == "switch":
                    uop(t[1])
                elif t[0] == "call":
                    uop(t[1])
                    for o in t[2]:
                        uop(o)
                    dpl(t[3])
                elif t[0] == "assert":
                    uop(t[1])
                    for o in t[5]:
                        uop(o)
                elif t[0] == "drop":
                    upl(t[1])
                elif t[0] == "ret":
                    u.add(0)
            live = [set(x) for x in use]
            changed = True
            while changed:
                changed = False
                for i in range(n - 1, -1, -1):
                    o = set()
                    for s in succ[i]:
                        o |= live[s]
                    x = use[i] | (o - dfn[i])
                    if x != live[i]:
                        live[i] = x
                        changed = True
            f._live = live
        return f._live


def ruses(rv, uop, upl):
    k = rv[0]
    if k in ("addr", "ref", "discr", "len"):
        upl(rv[1])
    elif k == "agg":
        for o in rv[2]:
            uop(o)
    elif k in ("bin", "cbin"):
        uop(rv[2])
        uop(rv[3])
    elif k == "cast":
        uop(rv[2])
    elif k in ("repeat", "use"):
        uop(rv[1])
    elif k == "un":
        uop(rv[2])


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = []
        for _, b in t[2]:
            if b not in r:
                r.append(b)
        if t[3] not in r:
            r.append(t[3])
        return r
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[4]]
    if k == "asm":
        return [] if t[2] is None else [t[2]]
    return []


def scc(nodes, edges):
    """Tarjan, iterative.  Returns components in reverse topological order."""
    index, low, on, st, out = {}, {}, set(), [], []
    cnt = 0
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(edges(root)))]
        index[root] = low[root] = cnt
        cnt += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt
                    cnt += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(edges(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    return out


def build_region(succ, entry, nodes, depth):
    r = Region()
    r.entry = entry
    r.nodes = frozenset(nodes)
    r.depth = depth
    r.rank = {}
    r.loops = {}
    # edges inside the region except those back to its entry
    edges = lambda b: [s for s in succ[b] if s in r.nodes and s != entry]
    comps = scc([entry], edges)
    comps.reverse()
    for i, comp in enumerate(comps):
        cs = set(comp)
        for b in comp:
            r.rank[b] = i
        if len(comp) > 1 or comp[0] in edges(comp[0]):
            if entry in cs:
                raise ValueError("irreducible")
            heads = {s for b in r.nodes - cs for s in edges(b) if s in cs}
            if len(heads) != 1:
                raise ValueError("irreducible loop")
            h = heads.pop()
            r.loops[h] = build_region(succ, h, cs, depth + 1)
    return r
