"""Resolved call graph of the monomorphised program."""


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.calls = {}     # fn id -> [(callee id | None, site span, kind)]   kind: call | drop | asm
        self.taken = {}     # fn id -> set of fn ids whose address is taken
        self.statics = {}   # fn id -> set of static names referenced
        self.tlsrefs = {}
        self._amemo = {}
        for f in P.fns:
            c, t, s = [], set(), set()
            if f.blocks is not None:
                for b in f.blocks:
                    for st in b[0]:
                        self.walk(st[:-1] if isinstance(st, list) else st, t, s)
                        if st[0] == "=" and st[2][0] in ("reify", "closurefn") and isinstance(st[2][1], int):
                            t.add(st[2][1])
                        if st[0] == "=" and st[2][0] in ("tls", "threadlocal"):
                            self.tlsrefs.setdefault(f.id, []).append(st[-1])
                    term = b[1]
                    sp = b[2] if len(b) > 2 else None
                    if term[0] == "call":
                        f0 = term[1]
                        if f0[0] == "k" and "fn" in f0[1]:
                            c.append((f0[1]["fn"], sp, "call"))
                        else:
                            c.append((None, sp, "indirect"))
                            self.walk(f0, t, s)
                        for a in term[2]:
                            self.walk(a, t, s)
                    elif term[0] == "drop":
                        if term[4] is not None:
                            c.append((term[4], sp, "drop"))
                    elif term[0] == "asm":
                        c.append((None, sp, "asm"))
                    else:
                        self.walk(term, t, s)
            self.calls[f.id] = c
            self.taken[f.id] = t
            self.statics[f.id] = s

    def walk(self, x, t, s):
        if isinstance(x, dict):
            if "fn" in x:
                t.add(x["fn"])
            if "p" in x and "b" in x:
                for _, a in x["p"]:
                    at, as_ = self.alloc_refs(a)
                    t |= at
                    s |= as_
            for k, v in x.items():
                if k in ("a", "tc"):
                    self.walk(v, t, s)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, (list, dict)):
                    self.walk(y, t, s)

    def alloc_refs(self, a):
        if a in self._amemo:
            return self._amemo[a]
        t, s = set(), set()
        self._amemo[a] = (t, s)
        j = self.P.allocs[a]
        if j["k"] == "fn":
            t.add(j["fn"])
        elif j["k"] == "static":
            s.add(j["name"])
        elif j["k"] == "mem":
            self.walk(j["a"], t, s)
        return t, s

    def reach(self, roots, taken=True, stop=()):
        """Functions reachable from roots; parent map for call paths."""
        par = {r: None for r in roots}
        work = list(roots)
        while work:
            f = work.pop()
            if f in stop:
                continue
            nx = [(c, sp) for c, sp, k in self.calls[f] if c is not None]
            if taken:
                nx += [(c, None) for c in self.taken[f]]
            for c, sp in nx:
                if c not in par:
                    par[c] = (f, sp)
                    work.append(c)
        return par

    def path(self, par, f):
        out = []
        while f is not None:
            p = par[f]
            out.append("%s%s" % (self.P.fns[f].name, " (called at %s)" % self.P.where(p[1]) if p and p[1] else ""))
            f = p[0] if p else None
        return out[::-1]


def api_roots(P):
    """Functions callable from outside: exported C symbols and the public Rust
    entry points."""
    out = []
    for n in ("convert_image", "get_buffers_size", "describe_acceleration"):
        out += [f.id for f in P.find(n)]
    out += [f.id for f in P.fns if f.local and f.export]
    return sorted(set(out))
