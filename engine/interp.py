"""Abstract interpreter for monomorphised MIR.

Paths are explored forward; states are joined where control flow joins when
they have the same shape (variants, pointer targets, constant booleans), loops
are summarised with inductive variables and verified invariants.
"""
import itertools
import re
import target
from terms import *
from values import *
from prover import Prover, STATS
from mir import Program


class Unsupported(Exception):
    pass


class Mismatch(Exception):
    pass


class Event:
    """A write to a byte region."""
    __slots__ = ("region", "off", "terms", "facts", "loops", "where", "fn", "data")

    def __init__(self, region, off, terms, facts, loops, where, fn):
        self.region = region
        self.off = off
        self.terms = terms
        self.facts = facts
        self.loops = loops
        self.where = where
        self.fn = fn


class State:
    __slots__ = ("store", "facts", "fset", "ev", "log")

    def __init__(self):
        self.store = {}
        self.facts = ()
        self.fset = frozenset()
        self.ev = ()
        self.log = ()

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.facts = self.facts
        s.fset = self.fset
        s.ev = self.ev
        s.log = self.log
        return s

    def setfacts(self, facts):
        self.facts = tuple(facts)
        self.fset = frozenset(self.facts)

    def assume(self, f):
        """Add a fact; False when it is trivially contradictory."""
        if f is True:
            return True
        if f is False:
            return False
        gs = f[1] if f[0] == "and" else (f,)
        new = []
        for g in gs:
            if g in self.fset:
                continue
            if neg(g) in self.fset:
                return False
            new.append(g)
        if new:
            self.facts = self.facts + tuple(new)
            self.fset = self.fset | frozenset(new)
        return True


class Obligations:
    def __init__(self):
        self.ok = {}
        self.bad = {}

    def record(self, key, good, detail=None):
        if good:
            self.ok[key] = self.ok.get(key, 0) + 1
        else:
            self.bad.setdefault(key, []).append(detail)


class Loc:
    """A resolved place."""
    __slots__ = ("root", "path", "off", "es", "meta", "nul")

    def __init__(self, root, path, off=None, es=None, meta=None, nul=False):
        self.root = root
        self.path = path
        self.off = off
        self.es = es
        self.meta = meta
        self.nul = nul


class Interp:
    MAX_STATES = 200
    UNROLL = 64

    def __init__(self, prog, prover=None):
        self.P = prog
        self.T = prog.types
        self.pr = prover or Prover()
        self.ob = Obligations()
        self.mute = 0
        self.lemmas = set()
        self.light = 0
        self.depth = 0
        self.stack = []
        self.regions = {}     # name -> dict(len=Poly, writable=bool)
        self.arrays = {}      # name -> dict(n=Poly, elem=callable idx->Value, es=size)
        self.consts = {}      # const roots
        self.constmemo = {}
        self.loopdepth = 0
        self.native = {}
        self.hooks = {}
        self.opts = {}
        self.analysed = set()
        self.callsites = 0
        self.fresh = itertools.count()
        self.loops_done = {}
        self.unsup = []
        self.prune_memo = {}
        self.pending = {}     # literal -> {quotient atom: literals under which it is zero}
        import models
        models.install(self)

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.T[i]

    def size(self, i):
        l = self.T[i]["l"]
        return l["size"]

    def int_range(self, t):
        b = t["bits"]
        if t["signed"]:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def place_ty(self, fn, pl):
        t = fn.locals[pl[0]]
        for p in pl[1]:
            k = p[0]
            if k == "*":
                t = self.T[t]["e"] if "e" in self.T[t] else self.box_target(t)
            elif k == "f":
                t = p[2]
            elif k in ("i", "c"):
                t = self.T[t]["e"]
            elif k == "o":
                t = p[1]
        return t

    def box_target(self, t):
        raise Unsupported("deref of %s" % self.T[t]["s"])

    def op_ty(self, fn, o):
        if o[0] == "k":
            return o[1]["t"]
        if o[0] == "r":
            return None
        return self.place_ty(fn, o[1])

    # -------------------------------------------------------------- constants
    def constant(self, c):
        k = id(c)
        v = self.constmemo.get(k)
        if v is not None:
            return v[0]
        if "fn" in c:
            v = FnV(self.P.fns[c["fn"]])
        elif "a" in c:
            v = self.decode(c["a"], 0, c["t"])
        elif "z" in c:
            v = self.zst(c["t"])
        elif "tc" in c:
            tc = c["tc"]
            if tc[0] == "c":
                v = self.decode(tc[2], 0, c["t"])
            elif tc[0] == "z":
                v = self.zst(c["t"])
            else:
                raise Unsupported("constant")
        else:
            raise Unsupported("constant %s" % c)
        self.constmemo[k] = (v, c)
        return v

    def zst(self, t):
        ty = self.T[t]
        k = ty["k"]
        if k == "adt" and ty["ak"] == "enum":
            for i, vv in enumerate(ty["variants"]):
                return Agg(i, tuple(self.zst(f[1]) for f in vv["f"]))
        if k == "adt":
            return Agg(None, tuple(self.zst(f[1]) for f in ty["variants"][0]["f"]))
        if k == "tuple":
            return Agg(None, tuple(self.zst(e) for e in ty["e"]))
        if k == "array":
            return Agg(None, tuple(self.zst(ty["e"]) for _ in range(ty["n"])))
        if k == "fndef":
            return FnV(self.P.fns[ty["fn"]])
        if k == "closure":
            return Agg(None, ())
        return UNIT

    def decode(self, a, off, t):
        ty = self.T[t]
        k = ty["k"]
        l = ty["l"]
        n = l["size"] if l else 0
        b = a["b"]

        def raw(o, n):
            h = b[2 * o:2 * (o + n)]
            if "?" in h:
                return None
            return int.from_bytes(bytes.fromhex(h), "little")

        if k == "int":
            x = raw(off, n)
            if x is None:
                return UNINIT
            if ty["signed"] and x >> (8 * n - 1):
                x -= 1 << (8 * n)
            return K(x)
        if k == "bool":
            x = raw(off, 1)
            return UNINIT if x is None else x != 0
        if k == "char":
            x = raw(off, 4)
            return UNINIT if x is None else K(x)
        if k == "float":
            return Opq(("float", raw(off, n)))
        if k in ("ref", "ptr", "fnptr"):
            tgt = None
            for o, i in a["p"]:
                if o == off:
                    tgt = i
            if tgt is None:
                x = raw(off, target.PTR)
                if k == "fnptr":
                    return Opq(("fnptr", x))
                if x == 0:
                    return Ptr(("null",), (), ZERO, 1, None, True)
                et = self.T[ty["e"]]
                if et["k"] in ("slice", "str"):
                    return Ptr(("dangling",), (), ZERO, 1, K(raw(off + target.PTR, target.PTR)))
                return Ptr(("dangling",), (), ZERO, 1, None)
            al = self.P.allocs[tgt]
            if al["k"] == "fn":
                return FnV(self.P.fns[al["fn"]])
            if k == "fnptr":
                return Opq(("fnptr",))
            base = raw(off, target.PTR)
            et = self.T[ty["e"]]
            if al["k"] == "static":
                return Ptr(("static", al["name"], tgt), ())
            if al["k"] != "mem":
                return Opq(("alloc", al["k"]))
            if et["k"] in ("slice", "str"):
                m = raw(off + target.PTR, target.PTR)
                if et["k"] == "str":
                    es, tt = 1, None
                else:
                    es, tt = self.size(et["e"]) or 1, et["e"]
                root = ("const", tgt, tt)
                if root not in self.consts:
                    cnt = len(al["a"]["b"]) // 2 // es
                    if tt is None:
                        vals = tuple(K(x) for x in bytes.fromhex(al["a"]["b"]))
                    else:
                        vals = tuple(self.decode(al["a"], i * es, tt) for i in range(cnt))
                    self.consts[root] = Agg(None, vals)
                return Ptr(root, (), K(base), es, K(m))
            root = ("const", tgt, ty["e"])
            if et["l"] and et["l"]["sized"]:
                if root not in self.consts:
                    self.consts[root] = None
                    self.consts[root] = self.decode(al["a"], base, ty["e"])
                return Ptr(root, ())
            return Opq(("alloc", tgt))
        if k == "adt":
            if ty["simd"]:
                s = []
                for i in range(n):
                    x = raw(off + i, 1)
                    if x is None:
                        return UNINIT
                    s.append((8, K(x)))
                return Vec(tuple(s))
            if ty["ak"] == "enum":
                v = l["variants"]
                if v[0] == "1":
                    vi = v[1]
                    offs = l["fields"][1] if l["fields"][0] == "s" else []
                elif v[0] == "m":
                    tagoff, tagsz, enc, voffs = v[1], v[2], v[3], v[4]
                    ptag = any(o == off + tagoff for o, _ in a["p"])
                    x = raw(off + tagoff, tagsz)
                    if enc[0] == "d":
                        vi = None
                        for i, vv in enumerate(ty["variants"]):
                            if (vv["d"] & ((1 << (8 * tagsz)) - 1)) == x:
                                vi = i
                        if vi is None:
                            return UNINIT
                    else:
                        unt, lo, hi, start = enc[1:5]
                        if ptag:
                            vi = unt
                        else:
                            if x is None:
                                return UNINIT
                            d = (x - start) & ((1 << (8 * tagsz)) - 1)
                            vi = lo + d if d <= hi - lo else unt
                    offs = voffs[vi]
                else:
                    raise Unsupported("empty enum constant")
                vv = ty["variants"][vi]
                return Agg(vi, tuple(self.decode(a, off + o, f[1]) for o, f in zip(offs, vv["f"])))
            if ty["ak"] == "union":
                f = max(ty["variants"][0]["f"], key=lambda f: self.size(f[1]))
                return Agg(None, tuple(self.decode(a, off, g[1]) if g is f else UNINIT for g in ty["variants"][0]["f"]))
            fs = ty["variants"][0]["f"]
            if l["fields"][0] == "s":
                offs = l["fields"][1]
            elif l["fields"][0] == "a":
                offs = [i * l["fields"][1] for i in range(len(fs))]
            else:
                offs = [0] * len(fs)
            return Agg(None, tuple(self.decode(a, off + o, f[1]) for o, f in zip(offs, fs)))
        if k == "tuple":
            offs = l["fields"][1] if l["fields"][0] == "s" else []
            return Agg(None, tuple(self.decode(a, off + o, e) for o, e in zip(offs, ty["e"])))
        if k == "array":
            es = self.size(ty["e"])
            return Agg(None, tuple(self.decode(a, off + i * es, ty["e"]) for i in range(ty["n"])))
        if k == "pat":
            return self.decode(a, off, ty["e"])
        if k in ("fndef", "closure"):
            return self.zst(t)
        return Opq(("const", ty["s"]))

    # ------------------------------------------------------------------ places
    def loc(self, st, fn, pl):
        L = Loc((self.depth, pl[0]), ())
        for p in pl[1]:
            k = p[0]
            if k == "*":
                v = self.read_loc(st, L, None)
                if isinstance(v, Agg) and len(v.f) >= 1:
                    # Box / Unique wrappers
                    while isinstance(v, Agg):
                        v = v.f[0]
                if not isinstance(v, Ptr):
                    if isinstance(v, Opq):
                        L = Loc(("opq", v.tag), ())
                        continue
                    raise Unsupported("deref of %r" % (v,))
                self.check_null(st, v)
                L = Loc(v.root, v.path, v.off, v.es, v.meta)
            elif k == "f":
                if L.off is not None:
                    L = self.elem(L)
                    if L.off is not None:
                        # field of a struct inside a byte region: keep offset
                        raise Unsupported("field of raw memory")
                meta = L.meta
                L = Loc(L.root, L.path + (p[1],))
                if meta is not None:
                    # the unsized tail of a struct
                    tf = self.T[p[2]]
                    if tf["k"] == "slice":
                        L = Loc(L.root, L.path, ZERO, self.size(tf["e"]), meta)
                    elif not (tf["l"] and tf["l"]["sized"]):
                        L = Loc(L.root, L.path, None, None, meta)
            elif k == "d" or k == "o":
                continue
            elif k == "i":
                i = self.read(st, (self.depth, p[1]), ())
                L = self.index(L, i, st, fn, pl)
            elif k == "c":
                if p[3]:
                    if L.meta is None:
                        raise Unsupported("constant index from end")
                    L = self.index(L, L.meta - p[1], st, fn, pl)
                else:
                    L = self.index(L, K(p[1]), st, fn, pl)
            elif k == "s":
                if p[3]:
                    m = L.meta - p[1] - p[2]
                else:
                    m = K(p[2] - p[1])
                if L.off is None:
                    L = Loc(L.root, L.path, K(p[1] * 1), 1, m)
                    raise Unsupported("subslice of array place")
                L = Loc(L.root, L.path, L.off + p[1] * L.es, L.es, m)
            else:
                raise Unsupported("projection %s" % k)
        return L

    def index(self, L, i, st, fn, pl):
        if L.off is not None:
            return Loc(L.root, L.path, L.off + i.scale(L.es), L.es, None)
        if isinstance(i, Poly) and i.c is not None:
            return Loc(L.root, L.path + (i.c,))
        return Loc(L.root, L.path + (("sym", i),))

    def elem(self, L):
        """Location of the array element an offset pointer designates."""
        r = L.root[0]
        if r == "mem":
            return L
        q = fdiv(L.off, L.es) if L.es else ZERO
        if L.root[0] == "arr":
            if q.c is None:
                return Loc(L.root, L.path + (("sym", q),))
            return Loc(L.root, L.path + (q.c,))
        if q.c is None:
            return Loc(L.root, L.path + (("sym", q),))
        return Loc(L.root, L.path + (q.c,))

    def check_null(self, st, v):
        if v.nul is not False:
            self.obligate(st, "null", neg(v.nul) if v.nul is not True else False, "dereference of a null pointer")

    def check_enum(self, st, v, t):
        """A value read as an enumeration has to be one of its variants."""
        ty = self.T[t]
        if ty["k"] != "adt":
            return
        if ty["ak"] == "enum":
            if isinstance(v, Poly) and v is not LIGHT and ty["variants"] and not any(x["f"] for x in ty["variants"]):
                self.obligate(st, "enum", disj([eq(v - x["d"]) for x in ty["variants"]]),
                              "an unchecked integer is used as %s" % ty["adt"].split("::")[-1])
        elif ty["ak"] == "struct" and isinstance(v, Agg) and len(v.f) == len(ty["variants"][0]["f"]):
            for x, f in zip(v.f, ty["variants"][0]["f"]):
                self.check_enum(st, x, f[1])

    # reading -----------------------------------------------------------------
    def root_value(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root in self.consts:
                return self.consts[root]
            if root[0] == "static":
                return self.static_value(st, root)
            if root[0] == "opq":
                return Opq(root[1])
            return UNINIT
        return v

    def static_value(self, st, root):
        al = self.P.allocs[root[2]]
        if al.get("init") is None:
            return Opq(root)
        v = self.consts.get(root)
        if v is None:
            v = self.decode(al["init"], 0, al["t"])
            self.consts[root] = v
        return v

    def read(self, st, root, path):
        if root[0] == "arr":
            return self.read_arr(st, root, path)
        v = self.root_value(st, root)
        for i, p in enumerate(path):
            if isinstance(v, Agg):
                if isinstance(p, tuple):
                    return self.read_sym(st, v, p[1], path[i + 1:])
                if p >= len(v.f):
                    self.obligate(st, "bounds", False, "array index %d beyond %d elements" % (p, len(v.f)))
                    return UNINIT
                v = v.f[p]
            elif isinstance(v, Opq):
                return Opq((v.tag, p))
            elif v is UNINIT:
                return UNINIT
            elif isinstance(v, (Poly, Ptr, FnV)) and p == 0:
                # transparent wrapper
                continue
            elif isinstance(v, Vec):
                return self.vec_field(v, p)
            else:
                raise Unsupported("projection %s of %r" % (p, v))
        return v

    def read_sym(self, st, v, i, rest):
        """Element of a value array at a symbolic index."""
        def go(x):
            for p in rest:
                if not isinstance(x, Agg) or isinstance(p, tuple):
                    raise Unsupported("symbolic index")
                x = x.f[p]
            return x
        vals = [go(x) for x in v.f]
        if all(isinstance(x, Poly) for x in vals):
            if self.light and any(x.isd for x in vals):
                return LIGHT
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = phi(eq(i - k), vals[k], r)
            return r
        if all(is_bool(x) for x in vals):
            return disj([conj([eq(i - k), x]) for k, x in enumerate(vals)])
        if vals and all(x is vals[0] for x in vals):
            return vals[0]
        raise Unsupported("symbolic index into aggregates")

    def vec_field(self, v, p):
        raise Unsupported("field of vector")

    def read_arr(self, st, root, path):
        name = root[1]
        arr = self.arrays[name]
        if not path:
            raise Unsupported("whole external array")
        i = path[0]
        w = st.store.get(root)
        if w is not None:
            if isinstance(i, tuple):
                raise Unsupported("symbolic index into written array")
            if i in w:
                v = w[i]
            else:
                v = arr["elem"](st, i)
        else:
            v = arr["elem"](st, i[1] if isinstance(i, tuple) else i)
        for p in path[1:]:
            if isinstance(v, Agg) and not isinstance(p, tuple):
                v = v.f[p]
            else:
                raise Unsupported("projection of external element")
        return v

    def read_loc(self, st, L, t):
        if L.root[0] == "mem":
            if L.off is None:
                raise Unsupported("region without offset")
            return self.read_mem(st, L, t)
        if L.root[0] in ("null", "dangling"):
            if t is not None and self.size(t) == 0:
                return self.zst(t)
            self.obligate(st, "mem", False, "read through an invalid pointer")
            return UNINIT
        if L.off is not None:
            return self.read_elem(st, L, t)
        v = self.read(st, L.root, L.path)
        if isinstance(v, Wrap):
            v = self.unwrap(st, v)
        return v

    def unwrap(self, st, w):
        n = neg(w.over)
        if all(x in st.fset for x in (n[1] if type(n) is tuple and n[0] == "and" else (n,))) or self.pr.prove(st.facts, n):
            return w.p
        b = w.bits
        r = sgn_full(w.p, b) if w.signed else mod(w.p, 1 << b)
        d = w.p - r
        if len(d.t) == 1:
            (m, c), = d.t.items()
            if c == 1 << b and len(m) == 1 and KIND[m[0]] == "fdiv":
                # a later test of the overflow flag makes this zero
                lits = frozenset(n[1] if type(n) is tuple and n[0] == "and" else (n,))
                for l in lits:
                    self.pending.setdefault(l, {})[m[0]] = lits
        return r

    def resolve(self, st, c):
        """The state after c was assumed: wrapped values that c shows not to have wrapped."""
        if not self.pending or type(c) is not tuple:
            return st
        mp = {}
        for l in (c[1] if c[0] == "and" else (c,)):
            for a, lits in self.pending.get(l, {}).items():
                if lits <= st.fset or all(x in st.fset or self.pr.prove(st.facts, x, 0) for x in lits):
                    mp[a] = ZERO
        if not mp:
            return st
        return self.subst_state(st, mp)

    def read_elem(self, st, L, t):
        """Element of an array object through an offset pointer."""
        if L.root[0] == "arr":
            arr = self.arrays[L.root[1]]
            n = arr["n"]
            q = fdiv(L.off, L.es)
            self.obligate(st, arr.get("kind", "mem"), conj([ge(q), ge(n - 1 - q)]),
                          "read of %s beyond its %s elements" % (L.root[1], show(n)))
        EL = self.elem(L)
        if t is not None and self.size(t) != L.es:
            # access at another width: gather from bytes
            return self.read_wide(st, L, t)
        return self.read(st, EL.root, EL.path)

    def read_wide(self, st, L, t):
        n = self.size(t)
        if L.off.c is None:
            raise Unsupported("wide read at symbolic offset of an array object")
        o = L.off.c
        segs = []
        need = n
        i = o // L.es
        skip = o % L.es
        while need > 0:
            v = self.read(st, L.root, L.path + (i,))
            s = self.to_segs(v, None, L.es)
            s = resegment(s, 8)[skip:]
            skip = 0
            s = s[:need]
            segs += s
            need -= len(s)
            i += 1
        return self.from_segs(tuple(segs), t)

    def read_mem(self, st, L, t):
        reg = self.regions[L.root[1]]
        n = self.size(t)
        if n == 0:
            return self.zst(t)
        if not (self.light and self.opts.get("light_nobounds")):
            self.obligate(st, "mem", conj([ge(L.off), ge(reg["len"] - n - L.off)]),
                          "read of %d bytes at %s of %s" % (n, show(L.off), L.root[1]))
        if self.light:
            return self.light_value(t)
        if reg.get("writable"):
            self.obligate(st, "dstread", False, "destination buffer %s is read" % L.root[1])
        segs = tuple((8, load(L.root[1], L.off + j)) for j in range(n))
        return self.from_segs(segs, t)

    def light_value(self, t):
        ty = self.T[t]
        k = ty["k"]
        if k == "int":
            return LIGHT
        if k == "adt":
            if ty["simd"]:
                return LVEC
            if ty["ak"] == "struct":
                return Agg(None, tuple(self.light_value(f[1]) for f in ty["variants"][0]["f"]))
        if k == "array":
            return Agg(None, tuple(self.light_value(ty["e"]) for _ in range(ty["n"])))
        if k == "tuple":
            return Agg(None, tuple(self.light_value(e) for e in ty["e"]))
        raise Unsupported("memory of type %s" % ty["s"])

    # bit-level views ----------------------------------------------------------
    def to_segs(self, v, t, size=None):
        """Bit segments of a value (t optional for scalars)."""
        if isinstance(v, Vec):
            if v.s is None:
                n = size if size is not None else self.size(t)
                return tuple((8, LIGHT) for _ in range(n))
            return v.s
        if isinstance(v, Poly):
            n = size if size is not None else self.size(t)
            return ((8 * n, v),)
        if is_bool(v):
            return ((8, b2i(v)),)
        if isinstance(v, Agg):
            if t is None:
                raise Unsupported("bits of aggregate")
            ty = self.T[t]
            if ty["k"] == "array":
                out = []
                for x in v.f:
                    out += self.to_segs(x, ty["e"])
                return tuple(out)
            if ty["k"] == "pat":
                return self.to_segs(v, ty["e"])
            if ty["k"] in ("adt", "tuple"):
                l = ty["l"]
                if ty["k"] == "adt" and ty["ak"] == "enum":
                    if len(v.f) == 0:
                        return ((8 * l["size"], K(ty["variants"][v.var]["d"])),)
                    raise Unsupported("bits of enum")
                fs = [f[1] for f in ty["variants"][0]["f"]] if ty["k"] == "adt" else ty["e"]
                offs = l["fields"][1] if l["fields"][0] == "s" else [0] * len(fs)
                parts = sorted([(o, i) for i, o in enumerate(offs) if self.size(fs[i])])
                out = []
                pos = 0
                for o, i in parts:
                    if o != pos:
                        raise Unsupported("bits of padded struct")
                    out += self.to_segs(v.f[i], fs[i])
                    pos = o + self.size(fs[i])
                if pos != l["size"]:
                    raise Unsupported("bits of padded struct")
                return tuple(out)
        raise Unsupported("bits of %r" % (v,))

    def from_segs(self, segs, t):
        ty = self.T[t]
        k = ty["k"]
        n = self.size(t)
        if k == "int" or k == "char":
            p = join_segs(segs)
            if p is LIGHT or (self.light and p.isd):
                return LIGHT
            if k == "int" and ty["signed"]:
                return sgn(p, 8 * n)
            return uns(p, 8 * n)
        if k == "bool":
            return ne(uns(join_segs(segs), 8))
        if k == "adt":
            if ty["simd"]:
                if self.light:
                    return LVEC
                return Vec(tuple(segs))
            if ty["ak"] == "struct":
                fs = [f[1] for f in ty["variants"][0]["f"]]
                return Agg(None, self._split(segs, ty["l"], fs))
            if ty["ak"] == "enum" and all(not v["f"] for v in ty["variants"]):
                d = uns(join_segs(segs), 8 * n)
                if d.c is not None:
                    for i, v in enumerate(ty["variants"]):
                        if v["d"] == d.c:
                            return Agg(i, ())
                return SymEnum(d, t)
        if k == "tuple":
            return Agg(None, self._split(segs, ty["l"], ty["e"]))
        if k == "array":
            es = self.size(ty["e"])
            bs = resegment(segs, 8 * es) if es else ()
            return Agg(None, tuple(self.from_segs((b,), ty["e"]) for b in bs))
        if k == "pat":
            return self.from_segs(segs, ty["e"])
        raise Unsupported("bits to %s" % ty["s"])

    def _split(self, segs, l, fs):
        bs = resegment(segs, 8)
        offs = l["fields"][1] if l["fields"][0] == "s" else [i * l["fields"][1] for i in range(len(fs))]
        return tuple(self.from_segs(bs[o:o + self.size(f)], f) if self.size(f) else self.zst(f) for o, f in zip(offs, fs))

    # writing -------------------------------------------------------------------
    def write_loc(self, st, L, v, t=None):
        if L.root[0] == "mem":
            return self.write_mem(st, L, v, t)
        if L.root[0] in ("null", "dangling"):
            if t is not None and self.size(t) == 0:
                return
            self.obligate(st, "mem", False, "write through an invalid pointer")
            return
        if L.root[0] == "opq":
            return
        if L.root[0] in ("const", "static"):
            self.obligate(st, "mem", False, "write to a constant or static")
            return
        if L.off is not None:
            if L.root[0] == "arr":
                arr = self.arrays[L.root[1]]
                q = fdiv(L.off, L.es)
                self.obligate(st, "mem", conj([ge(q), ge(arr["n"] - 1 - q)]),
                              "write of %s beyond its %s elements" % (L.root[1], show(arr["n"])))
            if t is not None and self.size(t) != L.es:
                return self.write_wide(st, L, v, t)
            L = self.elem(L)
        self.write(st, L.root, L.path, v)

    def write_wide(self, st, L, v, t):
        if L.off.c is None:
            raise Unsupported("wide write at symbolic offset of an array object")
        arr = self.read(st, L.root, L.path)
        if not isinstance(arr, Agg):
            raise Unsupported("wide write")
        n = self.size(t)
        o = L.off.c
        if o % L.es or n % L.es:
            raise Unsupported("unaligned wide write")
        segs = resegment(self.to_segs(v, t), 8 * L.es)
        for k in range(n // L.es):
            p = segs[k][1]
            old = arr.f[o // L.es + k] if o // L.es + k < len(arr.f) else None
            if old is None:
                self.obligate(st, "mem", False, "write beyond an array")
                return
            self.write(st, L.root, L.path + (o // L.es + k,), LIGHT if self.light and p.isd else uns(p, 8 * L.es))

    def write(self, st, root, path, v):
        if root[0] == "arr":
            w = dict(st.store.get(root) or {})
            i = path[0]
            if isinstance(i, tuple):
                raise Unsupported("symbolic write to external array")
            if len(path) > 1:
                raise Unsupported("nested write to external array")
            w[i] = v
            st.store[root] = w
            return
        if not path:
            st.store[root] = v
            return
        old = st.store.get(root)
        st.store[root] = self._upd(st, old, path, 0, v)

    def _upd(self, st, old, path, k, v):
        if k == len(path):
            return v
        p = path[k]
        if old is None or old is UNINIT:
            if isinstance(p, tuple):
                return UNINIT
            f = [UNINIT] * (p + 1)
            f[p] = self._upd(st, UNINIT, path, k + 1, v)
            return Agg(None, tuple(f))
        if isinstance(old, Agg):
            f = list(old.f)
            if isinstance(p, tuple):
                i = p[1]
                out = []
                for j, x in enumerate(f):
                    n = self._upd(st, x, path, k + 1, v)
                    out.append(self.mergeval(n, x, eq(i - j)))
                return Agg(old.var, tuple(out))
            while len(f) <= p:
                f.append(UNINIT)
            f[p] = self._upd(st, f[p], path, k + 1, v)
            return Agg(old.var, tuple(f))
        if isinstance(old, Opq):
            return old
        if p == 0:
            return v
        raise Unsupported("update of %r" % (old,))

    def write_mem(self, st, L, v, t):
        name = L.root[1]
        reg = self.regions[name]
        n = self.size(t)
        if n == 0:
            return
        self.obligate(st, "mem", conj([ge(L.off), ge(reg["len"] - n - L.off)]),
                      "write of %d bytes at %s of %s" % (n, show(L.off), name))
        if not reg.get("writable"):
            self.obligate(st, "srcwrite", False, "source buffer %s is written" % name)
        if self.light:
            terms = None
            if self.mute:
                return
            terms = (None,) * n
        else:
            segs = self.to_segs(v, t)
            if segs and segs[0][1] is LIGHT:
                terms = (None,) * n
            else:
                bs = resegment(segs, 8)
                terms = tuple(uns(p, 8) for _, p in bs)
        st.ev = st.ev + (Event(name, L.off, terms, (), (), self.cur_where(), self.stack[-1] if self.stack else None),)

    def cur_where(self):
        return self.P.where(self.span) if self.span else "?"

    # alignment -----------------------------------------------------------------
    def address(self, root, off):
        """Address of a byte of a buffer: the buffer may start anywhere."""
        return inp("address_%s" % root[1], 1, target.ISIZE) + off

    def addr_of(self, v):
        if v.root[0] == "mem" and v.off is not None and v.nul is False:
            return self.address(v.root, v.off)
        return Opq(("addr", next(self.fresh), v.nul))

    def align_place(self, st, fn, pl, L, what):
        """The alignment an access to the place requires."""
        last = max((i for i, p in enumerate(pl[1]) if p[0] == "*"), default=-1)
        a = None
        for i in range(last + 1, len(pl[1]) + 1):
            l = self.T[self.place_ty(fn, (pl[0], pl[1][:i]))]["l"]
            if not l:
                continue
            # a field of a packed type needs no more than the packing
            a = l["align"] if a is None else min(a, l["align"])
        if a is not None and a > 1:
            self.align(st, L, a, what)

    def align(self, st, p, a, what):
        if a > 1 and p.root[0] == "mem" and p.off is not None:
            self.obligate(st, "align", eq(mod(self.address(p.root, p.off), a)),
                          "%s of %s at %s requires alignment %d" % (what, p.root[1], show(p.off), a))

    # obligations ---------------------------------------------------------------
    span = None

    def obligate(self, st, kind, f, msg):
        if self.mute:
            if f is not True and f is not False:
                for g in (f[1] if f[0] == "and" else (f,)):
                    if g not in st.fset:
                        self.lemmas.add(g)
                st.assume(f)
            return True
        if f is True:
            ok = True
        else:
            ok = self.pr.prove(st.facts, f)
        fn = self.stack[-1] if self.stack else None
        key = (kind, self.user_site(), msg.split(" at ")[0] if False else kind)
        self.ob.record((kind, fn.name if fn else "?", self.cur_where()), ok,
                       None if ok else {"msg": msg, "stack": self.trace(), "facts": [showf(x) for x in st.facts][-30:],
                                        "goal": showf(f) if f is not False else "False",
                                        "raw": (tuple(st.facts), f), "light": self.light})
        if not ok and f is not False:
            self.assume(st, f)
        return ok

    def assume(self, st, f):
        """Add a fact; disjunctions are first simplified against the state."""
        if f is True:
            return True
        if f is False:
            return False
        gs = f[1] if f[0] == "and" else (f,)
        for g in gs:
            if g[0] != "or" or g in st.fset or fdata(g):
                if not st.assume(g):
                    return False
                continue
            if not self.assume_or(st, g):
                return False
        return True

    def assume_or(self, st, g):
        pr = self.pr
        live = []
        for x in g[1]:
            if not pr.infeasible(pr.add(st.facts, [x]), 1):
                live.append(x)
        if not live:
            return False
        if len(live) == 1:
            return self.assume(st, live[0])
        hoist = []
        if len(live) <= 3:
            for i, x in enumerate(live):
                for l in (x[1] if x[0] == "and" else (x,)):
                    if l[0] == "or" or l in hoist:
                        continue
                    if all(pr.prove(pr.add(st.facts, [y]), l, 1) for j, y in enumerate(live) if j != i):
                        hoist.append(l)
        for l in hoist:
            if not st.assume(l):
                return False
        h = disj(live)
        if hoist and pr.prove(st.facts, h, 1):
            return True
        return st.assume(h)

    def trace(self):
        return ["%s (%s)" % (f.name, self.P.where(s)) for f, s in zip(self.stack, self.spans + [self.span])]

    def user_site(self):
        return None

    # operands -------------------------------------------------------------------
    def operand(self, st, fn, o):
        k = o[0]
        if k == "k":
            return self.constant(o[1])
        if k == "r":
            return o[1] == "OverflowChecks"
        pl = o[1]
        if not pl[1]:
            v = st.store.get((self.depth, pl[0]))
            if v is None:
                t = fn.locals[pl[0]]
                l = self.T[t]["l"]
                if l and l["size"] == 0:
                    return self.zst(t)
                return UNINIT
            if type(v) is Wrap:
                return self.unwrap(st, v)
            return v
        L = self.loc(st, fn, pl)
        if L.root[0] == "mem":
            self.align_place(st, fn, pl, L, "read")
        v = self.read_loc(st, L, self.place_ty(fn, pl) if L.root[0] == "mem" or L.off is not None else None)
        if self.opts.get("enums"):
            self.check_enum(st, v, self.place_ty(fn, pl))
        if v is UNINIT:
            t = self.place_ty(fn, pl)
            l = self.T[t]["l"]
            if l and l["size"] == 0:
                return self.zst(t)
        return v

    # rvalues -----------------------------------------------------------------------
    def rvalue(self, st, fn, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(st, fn, rv[1])
        if k in ("ref", "addr"):
            L = self.loc(st, fn, rv[1])
            if k == "ref" and L.root[0] == "mem":
                self.align_place(st, fn, rv[1], L, "reference")
            return self.make_ptr(st, fn, L, rv[1])
        if k == "agg":
            fs = tuple(self.operand(st, fn, o) for o in rv[2])
            kind = rv[1]
            if kind[0] == "adt":
                ty = self.T[kind[1]]
                if ty["ak"] == "enum":
                    return Agg(kind[2], fs)
                if ty["ak"] == "union":
                    n = len(ty["variants"][0]["f"])
                    f = [UNINIT] * n
                    f[kind[3]] = fs[0]
                    return Agg(None, tuple(f))
                if ty["simd"] and fs:
                    return Vec(self.to_segs(fs[0], ty["variants"][0]["f"][0][1]))
                return Agg(None, fs)
            if kind[0] == "rawptr":
                p, m = fs
                if isinstance(p, Ptr):
                    return Ptr(p.root, p.path, p.off, p.es, m if isinstance(m, Poly) else None, p.nul)
                return p
            return Agg(None, fs)
        if k == "bin":
            return self.binop(st, fn, rv[1], self.operand(st, fn, rv[2]), self.operand(st, fn, rv[3]),
                              self.op_ty(fn, rv[2]), self.op_ty(fn, rv[3]))
        if k == "cbin":
            return self.checked(st, rv[1], self.operand(st, fn, rv[2]), self.operand(st, fn, rv[3]), self.op_ty(fn, rv[2]))
        if k == "cast":
            return self.cast(st, fn, rv[1], self.operand(st, fn, rv[2]), rv[3], rv[4])
        if k == "reify":
            return FnV(self.P.fns[rv[1]])
        if k == "discr":
            L = self.loc(st, fn, rv[1])
            t = self.place_ty(fn, rv[1])
            v = self.read_loc(st, L, t)
            if self.opts.get("enums"):
                self.check_enum(st, v, t)
            return self.discr(v, t)
        if k == "uninit":
            return UNINIT
        if k == "len":
            L = self.loc(st, fn, rv[1])
            if L.meta is not None:
                return L.meta
            v = self.read(st, L.root, L.path)
            return K(len(v.f))
        if k == "repeat":
            v = self.operand(st, fn, rv[1])
            return Agg(None, (v,) * rv[2])
        if k == "un":
            v = self.operand(st, fn, rv[2])
            if rv[1] == "PtrMetadata":
                if isinstance(v, Ptr):
                    return v.meta if v.meta is not None else UNIT
                return Opq(("meta", v))
            if rv[1] == "Not":
                if is_bool(v):
                    return neg(v)
                t = self.T[self.op_ty(fn, rv[2])]
                if not isinstance(v, Poly):
                    return Opq("not")
                if self.light and v.isd:
                    return LIGHT
                if t["signed"]:
                    return -v - 1
                return K((1 << t["bits"]) - 1) - v
            if rv[1] == "Neg":
                if not isinstance(v, Poly):
                    return Opq("neg")
                if self.light and v.isd:
                    return LIGHT
                t = self.T[self.op_ty(fn, rv[2])]
                return self.wrapv(st, -v, t)
        raise Unsupported("rvalue %s" % k)

    def make_ptr(self, st, fn, L, pl):
        if L.root[0] == "mem" or L.off is not None:
            return Ptr(L.root, L.path, L.off, L.es, L.meta)
        return Ptr(L.root, L.path, None, None, L.meta)

    def discr(self, v, t):
        ty = self.T[t]
        if isinstance(v, Agg):
            if v.var is None:
                return ZERO
            return K(ty["variants"][v.var]["d"])
        if isinstance(v, SymEnum):
            return v.d
        if isinstance(v, Opq):
            return Opq(("discr", v.tag))
        if isinstance(v, (Poly,)):
            return v
        if v is UNINIT and ty["k"] == "adt" and ty["l"] and ty["l"]["size"] == 0 and ty["l"]["variants"][0] == "1":
            # only one variant is possible: it needs no memory, and so no initialisation
            return K(ty["variants"][ty["l"]["variants"][1]]["d"])
        raise Unsupported("discriminant of %r" % (v,))

    def wrapv(self, st, p, t):
        """p reduced to the range of integer type t."""
        lo, hi = self.int_range(t)
        l, h = p.iv()
        if l is not None and h is not None and l >= lo and h <= hi:
            return p
        if self.light and p.isd:
            return LIGHT
        b = t["bits"]
        if not p.isd and self.pr.prove(st.facts, conj([ge(p - lo), ge(hi - p)])):
            return p
        return sgn_full(p, b) if t["signed"] else mod(p, 1 << b)

    def binop(self, st, fn, op, a, b, ta, tb):
        if isinstance(a, Wrap):
            a = self.unwrap(st, a)
        if isinstance(b, Wrap):
            b = self.unwrap(st, b)
        if isinstance(a, (Opq, type(UNINIT))) or isinstance(b, (Opq, type(UNINIT))):
            if op in ("Eq", "Ne"):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Opq) and isinstance(x.tag, tuple) and x.tag[0] == "addr" and len(x.tag) == 3 and y is ZERO:
                        return x.tag[2] if op == "Eq" else neg(x.tag[2])
            return Opq(("bin", next(self.fresh)))
        if op == "Offset":
            return self.ptr_offset(st, a, b, self.T[ta]["e"])
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnV) or isinstance(b, FnV):
            return self.ptr_cmp(st, op, a, b)
        if is_bool(a) and is_bool(b):
            if op in ("BitAnd",):
                return conj([a, b])
            if op == "BitOr":
                return disj([a, b])
            if op in ("BitXor", "Ne"):
                return disj([conj([a, neg(b)]), conj([neg(a), b])])
            if op == "Eq":
                return disj([conj([a, b]), conj([neg(a), neg(b)])])
            a, b = b2i(a), b2i(b)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if isinstance(a, Agg) and not a.f and isinstance(b, Agg):
                return {"Eq": True, "Ne": False}.get(op, Opq("bin"))
            raise Unsupported("%s of %r, %r" % (op, a, b))
        light = self.light and (a.isd or b.isd)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if light:
                return ("ne", LIGHT)
            if op == "Eq":
                return eq(a - b)
            if op == "Ne":
                return ne(a - b)
            if op == "Lt":
                return ge(b - a - 1)
            if op == "Le":
                return ge(b - a)
            if op == "Gt":
                return ge(a - b - 1)
            return ge(a - b)
        if op == "Cmp":
            raise Unsupported("Cmp")
        if light:
            return LIGHT
        t = self.T[ta]
        bits = t.get("bits", 32)
        if op in ("Add", "Sub", "Mul"):
            p = a + b if op == "Add" else (a - b if op == "Sub" else a * b)
            return self.wrapv(st, p, t)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            p = a + b if op[0] == "A" else (a - b if op[0] == "S" else a * b)
            lo, hi = self.int_range(t)
            self.obligate(st, "unchecked", conj([ge(p - lo), ge(hi - p)]), "unchecked arithmetic overflows")
            return p
        if op == "Div" or op == "Rem":
            if t["signed"]:
                la, _ = a.iv()
                lb, _ = b.iv()
                if b.c is not None and b.c > 0:
                    if la is not None and la >= 0:
                        q = fdiv(a, b.c)
                    else:
                        q = phi(ge(a), fdiv(a, b.c), -fdiv(-a, b.c))
                    return q if op == "Div" else a - q.scale(b.c)
                if la is not None and la >= 0 and lb is not None and lb >= 0:
                    q = fdivsym(a, b)
                    return q if op == "Div" else a - q * b
                raise Unsupported("signed division")
            q = fdivsym(a, b)
            return q if op == "Div" else a - q * b
        if op in ("Shl", "ShlUnchecked"):
            if b.c is None:
                if a.c is not None:
                    return self.shl_sym(st, a, b, t)
                raise Unsupported("shift by a variable")
            s = b.c & (bits - 1)
            return self.wrapv(st, a.scale(1 << s), t)
        if op in ("Shr", "ShrUnchecked"):
            if b.c is None:
                return self.shr_sym(st, a, b, t)
            return fdiv(a, 1 << (b.c & (bits - 1)))
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, op, a, b, t)
        raise Unsupported("binop %s" % op)

    def shl_sym(self, st, a, b, t):
        lo, hi = b.iv()
        if lo is None or hi is None or hi - lo > 64:
            raise Unsupported("shift by a variable")
        r = self.wrapv(st, a.scale(1 << hi), t)
        for s in range(hi - 1, lo - 1, -1):
            r = phi(eq(b - s), self.wrapv(st, a.scale(1 << s), t), r)
        return r

    def shr_sym(self, st, a, b, t):
        lo, hi = b.iv()
        if lo is None or hi is None or hi - lo > 64:
            raise Unsupported("shift by a variable")
        r = fdiv(a, 1 << hi)
        for s in range(hi - 1, lo - 1, -1):
            r = phi(eq(b - s), fdiv(a, 1 << s), r)
        return r

    def bitop(self, st, op, a, b, t):
        bits = t["bits"]
        signed = t["signed"]
        if a.c is not None and b.c is not None:
            return K({"BitAnd": a.c & b.c, "BitOr": a.c | b.c, "BitXor": a.c ^ b.c}[op])
        if signed:
            ua, ub = uns(a, bits), uns(b, bits)
        else:
            ua, ub = a, b
        r = bitop_u(op, ua, ub, bits)
        if signed:
            return sgn(r, bits)
        return r

    def checked(self, st, op, a, b, ta):
        if isinstance(a, Wrap):
            a = self.unwrap(st, a)
        if isinstance(b, Wrap):
            b = self.unwrap(st, b)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Unsupported("checked %s of %r %r" % (op, a, b))
        t = self.T[ta]
        if self.light and (a.isd or b.isd):
            return Agg(None, (LIGHT, False))
        p = a + b if op == "Add" else (a - b if op == "Sub" else a * b)
        lo, hi = self.int_range(t)
        over = disj([ge(K(lo - 1) - p), ge(p - hi - 1)])
        if over is False:
            return Agg(None, (p, False))
        if self.pr.cheap(st.facts, neg(over)):
            return Agg(None, (p, False))
        return Agg(None, (Wrap(p, t["bits"], t["signed"], over), over))

    # pointers ------------------------------------------------------------------------
    def ptr_offset(self, st, p, n, ety):
        """p.offset(n) elements of type ety."""
        if isinstance(n, Wrap):
            n = self.unwrap(st, n)
        if not isinstance(p, Ptr) or not isinstance(n, Poly):
            return Opq("ptr")
        es = self.size(ety)
        d = n.scale(es)
        if d.c == 0:
            return p
        if p.off is None:
            # pointer to a single object, or to the first element of an array value
            raise Unsupported("offset of object pointer")
        return Ptr(p.root, p.path, p.off + d, p.es, p.meta, p.nul)

    def ptr_cmp(self, st, op, a, b):
        if isinstance(a, FnV) and isinstance(b, FnV):
            if op == "Eq":
                return a.fn is b.fn
            if op == "Ne":
                return a.fn is not b.fn
            raise Unsupported("function pointer order")
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            for x, y in ((a, b), (b, a)):
                if x.root == ("null",):
                    if op == "Eq":
                        return y.nul
                    if op == "Ne":
                        return neg(y.nul)
            if a.root == b.root and a.path == b.path:
                x = a.off if a.off is not None else ZERO
                y = b.off if b.off is not None else ZERO
                d = x - y
                return {"Eq": lambda: eq(d), "Ne": lambda: ne(d), "Lt": lambda: ge(-d - 1), "Le": lambda: ge(-d),
                        "Gt": lambda: ge(d - 1), "Ge": lambda: ge(d)}[op]()
        raise Unsupported("comparison of pointers %r %r" % (a, b))

    # casts -----------------------------------------------------------------------------
    def cast(self, st, fn, k, v, src, dst):
        if isinstance(v, Wrap):
            v = self.unwrap(st, v)
        td = self.T[dst]
        if k == "IntToInt":
            if is_bool(v):
                return b2i(v)
            if isinstance(v, Agg) and v.var is not None:
                v = self.discr(v, src)
            if isinstance(v, SymEnum):
                v = v.d
            if isinstance(v, Poly):
                if v is LIGHT:
                    return v
                if td["k"] == "char":
                    return v
                if td["k"] == "bool":
                    return ne(v)
                return self.wrapv_cast(st, v, td)
            return Opq(("cast", next(self.fresh)))
        if k in ("PtrToPtr", "MutToConstPointer", "FnPtrToPtr"):
            if isinstance(v, Ptr) and "e" in td:
                te = self.T[td["e"]]
                ts = self.T[src]
                if v.off is None and "e" in ts and ts["e"] != td["e"] and self.T[ts["e"]]["k"] == "array" and te["k"] != "array":
                    return Ptr(v.root, v.path, ZERO, self.size(self.T[ts["e"]]["e"]), None, v.nul)
                if te["k"] not in ("slice", "str") and v.meta is not None:
                    return Ptr(v.root, v.path, v.off, v.es, None, v.nul)
            return v
        if k == "ArrayToPointer":
            return self.array_ptr(st, v, src, dst)
        if k == "Unsize":
            return self.unsize(st, v, src, dst)
        if k == "UnsafeFnPointer":
            return v
        if k in ("Transmute", "BoxDerefTransmute", "Subtype"):
            return self.transmute(st, v, src, dst)
        if k == "ReifyFnPointer(Safe)" or k.startswith("ReifyFnPointer") or k.startswith("ClosureFnPointer"):
            return v
        if k in ("PointerExposeAddress", "PointerWithExposedProvenance"):
            return self.addr_of(v) if isinstance(v, Ptr) else Opq(("addr", next(self.fresh)))
        if k in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            raise Unsupported("floating point")
        raise Unsupported("cast %s" % k)

    def wrapv_cast(self, st, p, t):
        lo, hi = self.int_range(t)
        l, h = p.iv()
        if l is not None and h is not None and l >= lo and h <= hi:
            return p
        if self.light and p.isd:
            return LIGHT
        b = t["bits"]
        if not p.isd and self.pr.prove(st.facts, conj([ge(p - lo), ge(hi - p)])):
            return p
        return sgn_full(p, b) if t["signed"] else mod(p, 1 << b)

    def array_ptr(self, st, v, src, dst):
        if not isinstance(v, Ptr):
            return v
        if v.off is not None:
            return Ptr(v.root, v.path, v.off, v.es, None, v.nul)
        at = self.T[self.T[src]["e"]]
        return Ptr(v.root, v.path, ZERO, self.size(at["e"]), None, v.nul)

    def unsize(self, st, v, src, dst):
        s = self.T[src]
        if not isinstance(v, Ptr) or "e" not in s:
            return v
        at = self.T[s["e"]]
        if at["k"] == "array":
            n = K(at["n"])
            if v.off is not None:
                return Ptr(v.root, v.path, v.off, v.es, n, v.nul)
            return Ptr(v.root, v.path, ZERO, self.size(at["e"]), n, v.nul)
        td = self.T[self.T[dst]["e"]]
        if at["k"] == "adt" and at["ak"] == "struct" and td["k"] == "adt" and td["adt"] == at["adt"] and v.off is None:
            # a struct with an unsized tail
            while at["k"] == "adt" and at["ak"] == "struct" and at["variants"][0]["f"]:
                at = self.T[at["variants"][0]["f"][-1][1]]
            if at["k"] == "array":
                return Ptr(v.root, v.path, None, None, K(at["n"]), v.nul)
        return v

    def transmute(self, st, v, src, dst):
        if src == dst or v is UNINIT:
            return v
        s, d = self.T[src], self.T[dst]
        # scalars wrapped in single-field structs
        try:
            leaf = self.strip(v, src)
        except Unsupported:
            leaf = None
        if leaf is not None:
            lv, lt = leaf
            lk, dk = self.T[lt]["k"], self.inner(dst)
            if dk is not None:
                dkk = self.T[dk]["k"]
                if isinstance(lv, Ptr) and dkk in ("ptr", "ref", "fnptr"):
                    te = self.T[self.T[dk]["e"]]
                    if te["k"] not in ("slice", "str") and lv.meta is not None:
                        lv = Ptr(lv.root, lv.path, lv.off, lv.es, None, lv.nul)
                    return self.rewrap(lv, dst)
                if isinstance(lv, FnV) and dkk in ("fnptr", "ptr", "ref"):
                    return self.rewrap(lv, dst)
                if isinstance(lv, Ptr) and dkk == "int":
                    return self.rewrap(self.addr_of(lv), dst)
                if isinstance(lv, Opq):
                    return self.rewrap(lv, dst)
                if is_bool(lv) and dkk == "bool":
                    return self.rewrap(lv, dst)
                if lk == "int" and dkk == "int" and isinstance(lv, Poly) and self.size(lt) == self.size(dk):
                    return self.rewrap(self.wrapv_cast(st, lv, self.T[dk]) if lv is not LIGHT else lv, dst)
            # the niche of Option<NonZero>
            if isinstance(lv, Poly) and lv is not LIGHT and d["k"] == "adt" and d["adt"].endswith("option::Option"):
                el = d["variants"][1]["f"][0][1]
                if self.T[el]["k"] == "adt" and self.T[el]["adt"].endswith("NonZero"):
                    if self.pr.prove(st.facts, ne(lv)):
                        return Agg(1, (self.rewrap(lv, el),))
                    if self.pr.prove(st.facts, eq(lv)):
                        return Agg(0, ())
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Vec) and v.s is None:
            return self.light_value(dst)
        if isinstance(v, Opq):
            return v
        segs = self.to_segs(v, src)
        if any(p is LIGHT for _, p in segs):
            return self.light_value(dst)
        return self.from_segs(segs, dst)

    def inner(self, t):
        """Type of the single scalar inside t, or None."""
        while True:
            ty = self.T[t]
            k = ty["k"]
            if k == "pat":
                t = ty["e"]
                continue
            if k == "adt" and ty["ak"] == "struct" and not ty["simd"]:
                fs = [f[1] for f in ty["variants"][0]["f"] if self.T[f[1]]["l"] and self.size(f[1])]
                if len(fs) == 1:
                    t = fs[0]
                    continue
                return None
            if k in ("int", "ptr", "ref", "fnptr", "bool", "char"):
                return t
            return None

    def strip(self, v, t):
        while True:
            ty = self.T[t]
            k = ty["k"]
            if k == "pat":
                t = ty["e"]
                continue
            if k == "adt" and ty["ak"] == "struct" and not ty["simd"]:
                fs = [(i, f[1]) for i, f in enumerate(ty["variants"][0]["f"]) if self.T[f[1]]["l"] and self.size(f[1])]
                if len(fs) == 1 and isinstance(v, Agg):
                    v = v.f[fs[0][0]]
                    t = fs[0][1]
                    continue
                if len(fs) == 1 and isinstance(v, (Ptr, Poly, FnV, Opq)):
                    t = fs[0][1]
                    continue
                raise Unsupported("strip")
            return v, t

    def coerce(self, v, t):
        """A value read through a pointer that was cast: only scalars of the
        same kind can be given another type."""
        k = self.T[t]["k"]
        if isinstance(v, Agg) and (k in ("int", "bool", "char", "array") or k == "adt" and self.T[t]["simd"]):
            raise Unsupported("read of an aggregate as %s" % self.T[t]["s"])
        return v

    def rewrap(self, v, t):
        ty = self.T[t]
        k = ty["k"]
        if k == "pat":
            return self.rewrap(v, ty["e"])
        if k == "adt" and ty["ak"] == "struct":
            out = []
            for f in ty["variants"][0]["f"]:
                if self.T[f[1]]["l"] and self.size(f[1]):
                    out.append(self.rewrap(v, f[1]))
                else:
                    out.append(self.zst(f[1]))
            return Agg(None, tuple(out))
        return v

    # ------------------------------------------------------------------ execution
    def call(self, st, fn, args, argtys=None):
        """Execute fn; returns [(state, value)]."""
        h = self.hooks.get(fn.key)
        if h is not None:
            r = h(self, st, fn, args)
            if r is not NotImplemented:
                return r
        m = self.model(fn)
        if m is not None:
            r = m(self, st, fn, args)
            if r is not NotImplemented:
                return r
        if fn.empty:
            return [(st, UNIT)]
        if fn.blocks is None:
            return self.opaque_call(st, fn, args)
        if len(self.stack) > 60:
            raise Unsupported("recursion")
        return self.exec_fn(st, fn, args)

    def opaque_call(self, st, fn, args):
        raise Unsupported("call to %s" % fn.name)

    _models = {}

    def model(self, fn):
        m = self.native.get(fn.id)
        if m is None:
            import models
            m = models.lookup(fn) or 0
            self.native[fn.id] = m
        return m or None

    def exec_fn(self, st, fn, args):
        self.depth += 1
        d = self.depth
        self.stack.append(fn)
        self.spans = self.spans + [self.span]
        if not self.mute or self.mute:
            self.analysed.add(fn.id)
        saved = self.span
        try:
            for i, a in enumerate(args):
                st.store[(d, i + 1)] = a
            reg = self.P.region(fn)
            out = self.exec_region(fn, reg, [st])
            res = []
            for s in out["ret"]:
                v = s.store.get((d, 0))
                if v is None:
                    v = self.zst(fn.locals[0]) if self.T[fn.locals[0]]["l"] and self.size(fn.locals[0]) == 0 else UNINIT
                if type(v) is Wrap:
                    v = self.unwrap(s, v)
                for i in range(len(fn.locals)):
                    s.store.pop((d, i), None)
                res.append((s, v))
            return res
        finally:
            self.depth -= 1
            self.stack.pop()
            self.spans = self.spans[:-1]
            self.span = saved

    spans = []

    def exec_region(self, fn, reg, states):
        """Run the region from its entry.  Result: 'ret' states, 'back' states
        and states leaving to other blocks."""
        out = {"ret": [], "back": []}
        pending = {reg.entry: list(states)}
        first = True
        live = self.P.live(fn)
        while pending:
            b = min(pending, key=lambda x: (reg.rank[x], x))
            sts = pending.pop(b)
            if len(sts) > 1 or not first:
                sts = self.join(fn, b, sts)
            first = False
            if b in reg.loops and b != reg.entry:
                lout = self.exec_loop(fn, reg.loops[b], sts)
                out["ret"] += lout["ret"]
                for tgt, ss in lout.items():
                    if tgt in ("ret", "back"):
                        continue
                    self.route(reg, out, pending, tgt, ss)
                continue
            for s in sts:
                for tgt, ns in self.exec_block(fn, b, s):
                    if tgt == "ret":
                        out["ret"].append(ns)
                    else:
                        self.route(reg, out, pending, tgt, [ns])
        # states that return together
        if len(out["ret"]) > 1 and reg.depth == 0:
            out["ret"] = self.join(fn, None, out["ret"])
        return out

    def route(self, reg, out, pending, tgt, ss):
        if tgt == reg.entry:
            out["back"] += ss
        elif tgt in reg.nodes:
            pending.setdefault(tgt, []).extend(ss)
        else:
            out.setdefault(tgt, []).extend(ss)

    # joins ------------------------------------------------------------------------
    def join(self, fn, b, sts, coarse=False):
        d = self.depth
        if b is not None:
            live = self.P.live(fn)[b]
            addr = self.P.addr_taken(fn)
            n = len(fn.locals)
            for s in sts:
                dead = [k for k in s.store if k[0] == d and k[1] not in live and k[1] not in addr]
                for k in dead:
                    del s.store[k]
        else:
            for s in sts:
                dead = [k for k in s.store if k[0] == d and k[1] != 0]
                for k in dead:
                    del s.store[k]
        if len(sts) == 1:
            return sts
        groups = []
        for s in sts:
            for i, g in enumerate(groups):
                m = self.merge2(g, s, coarse)
                if m is not None:
                    groups[i] = m
                    break
            else:
                groups.append(s)
        if len(groups) > self.MAX_STATES:
            raise Unsupported("too many paths in %s" % fn.name)
        return groups

    def selector(self, a, b, ra, rb):
        """A formula true on a's paths and false on b's."""
        sb = set(rb)
        for f in ra:
            n = neg(f)
            if n in sb or (n is not False and n is not True and n[0] == "and" and all(x in sb for x in n[1])):
                return f
        sa = set(ra)
        for f in rb:
            n = neg(f)
            if n in sa or (n is not False and n is not True and n[0] == "and" and all(x in sa for x in n[1])):
                return n
        ca = conj(ra)
        n = neg(ca)
        if n is not True and n is not False:
            if all(x in b.fset for x in (n[1] if n[0] == "and" else (n,))):
                return ca
            if not fdata(n) and self.pr.prove(b.facts, n, 2):
                return ca
        return None

    def merge2(self, a, b, coarse=False):
        if a.log != b.log:
            return None
        ra = [f for f in a.facts if f not in b.fset]
        rb = [f for f in b.facts if f not in a.fset]
        # differing store entries
        diff = []
        sa, sb = a.store, b.store
        if len(sa) == len(sb):
            for k, v in sa.items():
                w = sb.get(k)
                if w is None:
                    if k not in sb:
                        diff.append(k)
                        continue
                if v is not w:
                    diff.append(k)
        else:
            for k in sa.keys() | sb.keys():
                if sa.get(k) is not sb.get(k):
                    diff.append(k)
        sel = None
        new = {}
        if diff or a.ev is not b.ev:
            light_sel = self.light and (any(fdata(f) for f in ra) or any(fdata(f) for f in rb))
            sel = self.selector(a, b, ra, rb)
            if sel is None and light_sel:
                sel = ("ne", LIGHT)
            self._merge_coarse = coarse or (sel is not None and fdata(sel))
            try:
                for k in diff:
                    x, y = sa.get(k), sb.get(k)
                    if x is None or y is None:
                        continue        # only on one side: dropped
                    new[k] = self.mergeval(x, y, sel)
            except Mismatch:
                return None
            if a.ev is not b.ev:
                ev = self.merge_events(a, b, sel, ra, rb)
                if ev is None:
                    return None
            else:
                ev = a.ev
        else:
            ev = a.ev
        m = State()
        m.store = dict(sa)
        for k in diff:
            if k in new:
                m.store[k] = new[k]
            else:
                m.store.pop(k, None)
        m.ev = ev
        m.log = a.log
        common = [f for f in a.facts if f in b.fset]
        na = [f for f in ra if not fdata(f)]
        nb = [f for f in rb if not fdata(f)]
        # strengthen: literals that hold on both sides
        up = []
        if not self.opts.get("nostrengthen"):
            ka, kb = [], []
            for f in na:
                if f[0] != "or" and neg(f) not in b.fset and self.pr.prove(b.facts, f, 2):
                    up.append(f)
                else:
                    ka.append(f)
            for f in nb:
                if f[0] != "or" and neg(f) not in a.fset and self.pr.prove(a.facts, f, 2):
                    if f not in up:
                        up.append(f)
                else:
                    kb.append(f)
            na, nb = ka, kb
        o = disj([conj(na), conj(nb)])
        facts = common + [f for f in up if f not in common]
        if o is not True and o is not False:
            for g in (o[1] if o[0] == "and" else (o,)):
                if g not in facts:
                    facts.append(g)
        m.setfacts(facts)
        return m

    _merge_coarse = False

    @staticmethod
    def canonical_phi(sel, x, y):
        p = phi(sel, x, y)
        return not any(KIND[a] == "phi" and a not in x.atoms and a not in y.atoms for a in p.atoms)

    def mergeval(self, x, y, sel):
        if x is y:
            return x
        tx, ty = type(x), type(y)
        if tx is Wrap or ty is Wrap:
            raise Mismatch
        if tx is Poly and ty is Poly:
            if self.light and (x.isd or y.isd):
                return LIGHT
            if sel is None:
                raise Mismatch
            if self.light and fdata(sel):
                return LIGHT
            if self.loopdepth and not self._merge_coarse and not (x.isd or y.isd) and not self.canonical_phi(sel, x, y):
                # inside loops, bounds chosen by a condition are kept on separate paths
                raise Mismatch
            return phi(sel, x, y)
        bx, by = (x is True or x is False or tx is tuple), (y is True or y is False or ty is tuple)
        if bx and by:
            if x == y:
                return x
            if sel is None:
                raise Mismatch
            if not self._merge_coarse and (x is True or x is False) and (y is True or y is False):
                raise Mismatch
            if self.light and fdata(sel):
                return ("ne", LIGHT)
            return disj([conj([sel, x]), conj([neg(sel), y])])
        if tx is not ty:
            if x is UNINIT or y is UNINIT:
                return UNINIT
            raise Mismatch
        if tx is Agg:
            if x.var != y.var or len(x.f) != len(y.f):
                raise Mismatch
            return Agg(x.var, tuple(self.mergeval(p, q, sel) for p, q in zip(x.f, y.f)))
        if tx is Ptr:
            if x.root != y.root or x.path != y.path or x.es != y.es:
                raise Mismatch
            if (x.off is None) != (y.off is None) or (x.meta is None) != (y.meta is None):
                raise Mismatch
            if x.same(y):
                return x
            off = x.off if x.off is y.off else self.mergeval(x.off, y.off, sel)
            meta = x.meta if x.meta is y.meta else self.mergeval(x.meta, y.meta, sel)
            nul = x.nul if x.nul == y.nul else self.mergeval(x.nul, y.nul, sel)
            return Ptr(x.root, x.path, off, x.es, meta, nul)
        if tx is FnV:
            if x.fn is not y.fn:
                raise Mismatch
            return x
        if tx is Vec:
            if x.s is None or y.s is None:
                return LVEC
            if [b for b, _ in x.s] == [b for b, _ in y.s]:
                xs, ys = x.s, y.s
            else:
                xs, ys = resegment(x.s, 8), resegment(y.s, 8)
            if sel is None:
                raise Mismatch
            return Vec(tuple((b, p if p is q else phi(sel, uns(p, b), uns(q, b))) for (b, p), (_, q) in zip(xs, ys)))
        if tx is Opq:
            return x if x.tag == y.tag else Opq(("merge", next(self.fresh)))
        if tx is SymEnum:
            if sel is None:
                raise Mismatch
            return SymEnum(phi(sel, x.d, y.d), x.ty)
        if tx is dict:
            if x.keys() != y.keys():
                raise Mismatch
            return {k: self.mergeval(x[k], y[k], sel) for k in x}
        raise Mismatch

    def merge_events(self, a, b, sel, ra, rb):
        """Union of the two event sequences; branch-local events keep their
        branch condition, and paired writes to the same place are merged."""
        n = 0
        ea, eb = a.ev, b.ev
        while n < len(ea) and n < len(eb) and ea[n] is eb[n]:
            n += 1
        ta, tb = list(ea[n:]), list(eb[n:])
        out = list(ea[:n])
        ca = tuple(f for f in ra)
        cb = tuple(f for f in rb)
        used = set()
        for x in ta:
            hit = None
            for j, y in enumerate(tb):
                if j not in used and y.region == x.region and y.off is x.off and len(y.terms) == len(x.terms) \
                        and y.loops == x.loops and sel is not None and not x.facts and not y.facts:
                    hit = j
                    break
            if hit is not None:
                y = tb[hit]
                used.add(hit)
                ts = tuple(p if p is q else (None if p is None or q is None else phi(sel, p, q))
                           for p, q in zip(x.terms, y.terms))
                out.append(Event(x.region, x.off, ts, (), x.loops, x.where, x.fn))
            else:
                out.append(Event(x.region, x.off, x.terms, x.facts + ca, x.loops, x.where, x.fn))
        for j, y in enumerate(tb):
            if j not in used:
                out.append(Event(y.region, y.off, y.terms, y.facts + cb, y.loops, y.where, y.fn))
        return tuple(out)

    # blocks -----------------------------------------------------------------------
    def exec_block(self, fn, b, st):
        """Returns [(target, state)]."""
        d = self.depth
        stmts, term, tspan = fn.blocks[b]
        for s in stmts:
            k = s[0]
            if k == "=":
                self.span = s[3]
                pl = s[1]
                v = self.rvalue(st, fn, s[2], pl)
                if not pl[1]:
                    st.store[(d, pl[0])] = v
                else:
                    L = self.loc(st, fn, pl)
                    if L.root[0] == "mem":
                        self.align_place(st, fn, pl, L, "write")
                    self.write_loc(st, L, v, self.place_ty(fn, pl) if L.root[0] == "mem" or L.off is not None else None)
            elif k == "dead":
                st.store.pop((d, s[1]), None)
            elif k == "sd":
                self.span = s[3]
                L = self.loc(st, fn, s[1])
                old = self.read(st, L.root, L.path)
                f = old.f if isinstance(old, Agg) else ()
                self.write(st, L.root, L.path, Agg(s[2], f))
            elif k == "assume":
                v = self.operand(st, fn, s[1])
                self.span = s[2]
                if is_bool(v):
                    self.obligate(st, "unchecked", v, "assumption may not hold")
            elif k == "cpy":
                self.span = s[4]
                src, dst, n = (self.operand(st, fn, o) for o in s[1:4])
                import models
                t = self.op_ty(fn, s[1])
                models.copy_bytes(self, st, src, dst, n, self.T[t]["e"])
            else:
                raise Unsupported("statement %s" % k)
        self.span = tspan
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            return self.switch(fn, term, st)
        if k == "assert":
            return self.do_assert(fn, term, st)
        if k == "call":
            return self.do_call(fn, term, st)
        if k == "drop":
            g = self.P.fns[term[4]] if term[4] is not None else None
            if g is not None and not g.empty:
                L = self.loc(st, fn, term[1])
                p = self.make_ptr(st, fn, L, term[1])
                h = self.hooks.get("drop")
                if h:
                    h(self, st, g, p)
            return [(term[2], st)]
        if k == "unreachable":
            if not self.pr.infeasible(st.facts):
                self.obligate(st, "unreachable", False, "unreachable code may be reached")
            return []
        if k in ("resume", "abort"):
            return []
        raise Unsupported("terminator %s" % k)

    def feasible(self, st, f):
        """f can hold in st (False only when refuted)."""
        if f is False:
            return False
        if f is True:
            return True
        if neg(f) in st.fset:
            return False
        if fdata(f):
            return self.data_feasible(st, f)
        if self.mute:
            return not self.pr.prove(st.facts, neg(f), -1)
        return not self.pr.prove(st.facts, neg(f), 1)

    def data_feasible(self, st, f):
        """Data conditions: refute against the data facts over one base."""
        if self.light:
            return True
        fs = [g for g in st.facts if fdata(g)]
        if not fs and f[0] in ("ge", "eq", "ne"):
            pass
        cands = []
        for p in fpolys(f):
            if p.c is None and p.isd:
                b = canon_base(p)
                if b not in cands:
                    cands.append(b)
                for a in p.atoms:
                    if KIND[a] in ("fdiv", "fn"):
                        q = DATA[a][0] if KIND[a] == "fdiv" else DATA[a][1]
                        if q.c is None:
                            b = canon_base(q)
                            if b not in cands:
                                cands.append(b)
        for b in cands:
            vals = base_values(b)
            if vals is None:
                continue
            memo = {}
            c = feval(f, b, vals, memo)
            if c is None:
                continue
            for g in fs:
                e = feval(g, b, vals, memo)
                if e is not None:
                    c = c & e
            if not c.any():
                return False
        return True

    def switch(self, fn, term, st):
        v = self.operand(st, fn, term[1])
        outs = []
        if v is True or v is False:
            x = 1 if v else 0
            for val, t in term[2]:
                if val == x:
                    return [(t, st)]
            return [(term[3], st)]
        if isinstance(v, Poly) and v.c is not None:
            x = v.c
            ty = self.T[term[4]]
            if x < 0:
                x += 1 << ty["bits"]
            for val, t in term[2]:
                if val == x:
                    return [(t, st)]
            return [(term[3], st)]
        if type(v) is tuple:
            conds = []
            rest = True
            for val, t in term[2]:
                c = v if val else neg(v)
                conds.append((c, t))
                rest = conj([rest, neg(c)])
            conds.append((rest, term[3]))
        elif isinstance(v, Poly):
            if v is LIGHT:
                conds = [(("ne", LIGHT), t) for _, t in term[2]] + [(("ne", LIGHT), term[3])]
                return [(t, st.fork()) for _, t in conds]
            conds = []
            rest = True
            ty = self.T[term[4]]
            for val, t in term[2]:
                if ty["k"] == "int" and ty["signed"] and val >> (ty["bits"] - 1):
                    val -= 1 << ty["bits"]
                c = eq(v - val)
                conds.append((c, t))
                rest = conj([rest, neg(c)])
            conds.append((rest, term[3]))
        elif isinstance(v, Opq) or v is UNINIT:
            h = self.hooks.get("opaque_switch")
            if h:
                h(self, st, fn, v)
            tg = [t for _, t in term[2]] + [term[3]]
            seen = []
            for t in tg:
                if t not in seen and fn.blocks[t][1][0] != "unreachable":
                    seen.append(t)
            return [(t, st.fork()) for t in seen]
        else:
            raise Unsupported("switch on %r" % (v,))
        live = []
        for c, t in conds:
            if fn.blocks[t][1][0] == "unreachable" and not fn.blocks[t][0] and isinstance(v, Poly) and c is not False:
                # exhaustiveness of a match: must be provable
                if self.feasible(st, c):
                    if self.opts.get("trust_enum") or self.enum_discr(fn, term[1]):
                        continue
                    live.append((c, t))
                continue
            if self.feasible(st, c):
                live.append((c, t))
        if not live:
            # contradictory state
            return []
        if len(live) == 1:
            c, t = live[0]
            st.assume(c) if not (c is True) and not self.implied(st, c) else None
            st = self.resolve(st, c)
            return [] if st is None else [(t, st)]
        for i, (c, t) in enumerate(live):
            s = st if i == len(live) - 1 else st.fork()
            if self.assume(s, c):
                s = self.resolve(s, c)
                if s is not None:
                    outs.append((t, s))
        return outs

    def enum_discr(self, fn, o):
        return False

    def implied(self, st, c):
        return True

    def do_assert(self, fn, term, st):
        v = self.operand(st, fn, term[1])
        f = v if term[2] else neg(v) if is_bool(v) else None
        if not is_bool(v):
            if isinstance(v, Opq):
                self.obligate(st, "panic", False, "assertion on an unknown value")
                return [(term[4], st)]
            raise Unsupported("assert on %r" % (v,))
        if f is False:
            self.obligate(st, "panic", False, "%s check always fails" % term[3])
            return []
        if f is not True:
            if self.light and fdata(f):
                pass
            else:
                self.assert_ob(st, f, term[3])
        return [(term[4], st)]

    def assert_ob(self, st, f, kind):
        if fdata(f):
            ok = not self.data_feasible(st, neg(f))
            if not self.mute:
                self.ob.record(("panic", self.stack[-1].name, self.cur_where()), ok,
                               None if ok else {"msg": "%s check may fail" % kind, "stack": self.trace(), "goal": showf(f), "facts": [],
                                              "raw": (tuple(st.facts), f)})
            if not ok:
                st.assume(f)
            return
        self.obligate(st, "panic", f, "%s check may fail" % kind)

    def do_call(self, fn, term, st):
        f = self.operand(st, fn, term[1])
        args = [self.operand(st, fn, o) for o in term[2]]
        if not isinstance(f, FnV):
            h = self.hooks.get("indirect")
            if h:
                r = h(self, st, f, args)
            else:
                raise Unsupported("indirect call through %r" % (f,))
        else:
            self.callsites += 1
            self.cur_term = term
            c = f.fn
            if len(args) == 2 and isinstance(args[1], Agg) and fn.kind != "shim" and c.ty is not None and self.T[c.ty]["k"] == "closure":
                # the arguments of a closure called through a Fn trait come as a tuple
                args = [args[0]] + list(args[1].f)
            r = self.call(st, c, args)
        out = []
        d = self.depth
        if term[4] is None:
            return []
        self.span = fn.blocks[0][2] if False else self.span
        for s, v in r:
            pl = term[3]
            if not pl[1]:
                s.store[(d, pl[0])] = v
            else:
                L = self.loc(s, fn, pl)
                if L.root[0] == "mem":
                    self.align_place(s, fn, pl, L, "write")
                self.write_loc(s, L, v, self.place_ty(fn, pl) if L.root[0] == "mem" or L.off is not None else None)
            out.append((term[4], s))
        return out

    # loops -----------------------------------------------------------------------
    def exec_loop(self, fn, reg, states):
        out = {"ret": [], "back": []}
        for s in states:
            r = self.run_loop(fn, reg, s, 0)
            for k, v in r.items():
                out.setdefault(k, []).extend(v)
        return out

    def leaves_diff(self, a, b, path=()):
        """Paths at which values a and b differ; None when shapes differ."""
        if a is b:
            return []
        ta, tb = type(a), type(b)
        if ta is Agg and tb is Agg:
            if a.var != b.var or len(a.f) != len(b.f):
                return None
            out = []
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                r = self.leaves_diff(x, y, path + (i,))
                if r is None:
                    return None
                out += r
            return out
        if ta is Poly and tb is Poly:
            return [path]
        if ta is Ptr and tb is Ptr:
            if a.root != b.root or a.path != b.path or a.es != b.es or a.nul != b.nul:
                return None
            if (a.off is None) != (b.off is None) or (a.meta is None) != (b.meta is None):
                return None
            out = []
            if a.off is not b.off:
                out.append(path + ("off",))
            if a.meta is not b.meta:
                out.append(path + ("meta",))
            return out
        if (is_bool(a)) and (is_bool(b)):
            return [] if a == b else [path + ("bool",)]
        if ta is Vec and tb is Vec:
            return [] if (a.s is None and b.s is None) or a.s == b.s else [path + ("vec",)]
        if ta is FnV and tb is FnV:
            return [] if a.fn is b.fn else None
        if ta is Opq and tb is Opq:
            return []
        if a is UNINIT or b is UNINIT:
            return [path + ("uninit",)]
        if ta is dict and tb is dict:
            return None if a != b else []
        if ta is Wrap or tb is Wrap:
            return [path + ("uninit",)]
        if ta is SymEnum and tb is SymEnum:
            return [] if a.d is b.d else None
        return None

    def get_leaf(self, v, path):
        for p in path:
            if p == "off":
                return v.off
            if p == "meta":
                return v.meta
            if p in ("bool", "vec", "uninit"):
                return v
            v = v.f[p]
        return v

    def set_leaf(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p == "off":
            return Ptr(v.root, v.path, x, v.es, v.meta, v.nul)
        if p == "meta":
            return Ptr(v.root, v.path, v.off, v.es, x, v.nul)
        if p in ("bool", "vec", "uninit"):
            return x
        f = list(v.f)
        f[p] = self.set_leaf(f[p], path[1:], x)
        return Agg(v.var, tuple(f))

    def state_diff(self, fn, header, a, b):
        """Leaves (root, path) that differ between two header states."""
        live = self.P.live(fn)[header]
        addr = self.P.addr_taken(fn)
        d = self.depth
        out = []
        for k in a.store:
            if k[0] == d and k[1] not in live and k[1] not in addr:
                continue
            x = a.store[k]
            y = b.store.get(k)
            if x is y:
                continue
            if y is None:
                continue
            r = self.leaves_diff(x, y)
            if r is None:
                return None
            out += [(k, p) for p in r]
        return out

    unrolling = False

    def run_loop(self, fn, reg, S, peeled):
        if self.unrolling or self.mute:
            return self.run_loop1(fn, reg, S, peeled)
        S0 = S.fork()
        ob = ({k: v for k, v in self.ob.ok.items()}, {k: list(v) for k, v in self.ob.bad.items()})
        saved = (list(self.stack), self.spans, self.span, self.depth, self.loopdepth)
        try:
            return self.run_loop1(fn, reg, S, peeled)
        except Unsupported:
            # a short loop over distinct things: execute it
            self.ob.ok, self.ob.bad = ob
            self.stack[:], self.spans, self.span, self.depth, self.loopdepth = saved
            self.unrolling = True
            try:
                return self.unroll(fn, reg, S0, 10)
            finally:
                self.unrolling = False

    def run_loop1(self, fn, reg, S, peeled):
        h = reg.entry
        self.join(fn, h, [S])
        mark = len(KIND)
        self.loopdepth += 1
        lid = self.loopdepth
        try:
            # 1. find the loop-carried leaves
            self.mute += 1
            self.light += 1
            try:
                M = self.discover(fn, reg, S)
                if M is not None:
                    H, ks, indu, noninv = self.induct(fn, reg, S, M, lid, mark)
            finally:
                self.mute -= 1
                self.light -= 1
            if M is None:
                if peeled >= 4:
                    raise Unsupported("loop at %s does not stabilise" % self.P.where(fn.blocks[h][2]))
                return self.peel(fn, reg, S, peeled)
            if H is None:
                # body never returns to the header
                return self.exec_region(fn, reg, [S.fork()])
            # 2. the real pass
            return self.final_pass(fn, reg, S, H, ks, indu, noninv, lid, peeled)
        finally:
            self.loopdepth -= 1

    def peel(self, fn, reg, S, peeled):
        out = self.exec_region(fn, reg, [S.fork()])
        back = out["back"]
        out["back"] = []
        if back:
            for s in self.join(fn, reg.entry, back, True):
                r = self.run_loop(fn, reg, s, peeled + 1)
                for k, v in r.items():
                    out.setdefault(k, []).extend(v)
        return out

    def leaf_type_range(self, k, path, fn):
        return None, None

    def discover(self, fn, reg, S):
        """Leaves that change around the loop: dict (root,path) -> havoc atom."""
        M = {}
        for rnd in range(8):
            cur = S.fork()
            cur.ev = ()
            for (k, p), hv in M.items():
                cur.store[k] = self.set_leaf(cur.store[k], p, hv)
            if M:
                # facts survive only if they do not mention replaced values: the
                # replaced leaves are fresh atoms, so facts about old values remain true
                pass
            out = self.exec_region(fn, reg, [cur.fork()])
            back = out["back"]
            if not back:
                return M if M or rnd == 0 else M
            if len(back) > 1:
                back = self.join(fn, reg.entry, back, True)
                if len(back) > 1:
                    return None
            B = back[0]
            diff = self.state_diff(fn, reg.entry, cur, B)
            if diff is None:
                return None
            new = False
            for key in diff:
                if key not in M:
                    k, p = key
                    leaf = self.get_leaf(cur.store[k], p)
                    if p and p[-1] == "uninit":
                        M[key] = UNINIT
                    elif p and p[-1] == "bool":
                        M[key] = ("ne", A(atom("opq", ("hvb", self.loopdepth, len(M)), None, None)))
                    elif p and p[-1] == "vec":
                        M[key] = LVEC
                    else:
                        rng = self.leaf_int_type(fn, k, p) or (None, None)
                        M[key] = A(atom("opq", ("hv", self.loopdepth, len(M), rng), rng[0], rng[1]))
                    new = True
            if not new:
                return M
        return None

    def leaf_int_type(self, fn, k, path):
        """(lo, hi) of the integer type of a leaf when it can be determined."""
        d, l = k[0], k[1]
        if not isinstance(d, int) or d < 1 or d > len(self.stack):
            return None
        f = self.stack[d - 1] if d - 1 < len(self.stack) else None
        base = self.depth - len(self.stack)
        f = self.stack[d - 1 - base] if 0 <= d - 1 - base < len(self.stack) else None
        if f is None or not f.locals or l >= len(f.locals):
            return None
        t = f.locals[l]
        v = None
        for p in path:
            if p == "meta":
                return 0, target.ISIZE
            if p == "off":
                return 0, target.ISIZE
            ty = self.T[t]
            if ty["k"] == "adt" and ty["ak"] == "struct":
                t = ty["variants"][0]["f"][p][1]
            elif ty["k"] == "tuple":
                t = ty["e"][p]
            elif ty["k"] == "array":
                t = ty["e"]
            elif ty["k"] == "closure" and ty.get("up") is not None:
                t = self.T[ty["up"]]["e"][p] if self.T[ty["up"]]["k"] == "tuple" else None
                if t is None:
                    return None
            else:
                return None
        ty = self.T[t]
        if ty["k"] == "int":
            return self.int_range(ty)
        return None

    def induct(self, fn, reg, S, M, lid, mark):
        """Express the carried leaves through the iteration counter."""
        kk = atom("ctr", lid, 0, None)
        k = A(kk)

        def foreign(a):
            """Symbols made during one iteration mean nothing at the header."""
            if KIND[a] == "ctr":
                return DATA[a] > lid
            return KIND[a] == "opq" and (a >= mark or (DATA[a] and DATA[a][0] in ("hv", "hvb") and DATA[a][1] > lid))
        hv = {next(iter(v.atoms)) for v in M.values() if isinstance(v, Poly) and v is not LIGHT}
        H0 = S.fork()
        H0.ev = ()
        for (r, p), x in M.items():
            H0.store[r] = self.set_leaf(H0.store[r], p, x)
        out = self.exec_region(fn, reg, [H0.fork()])
        if not out["back"]:
            return None, None, None, None
        back = self.join(fn, reg.entry, out["back"], True)
        if len(back) > 1:
            raise Unsupported("loop with several shapes")
        B = back[0]
        indu, non = {}, {}
        tent = {}
        for (r, p), x in M.items():
            if not isinstance(x, Poly):
                non[(r, p)] = x
                continue
            init = self.get_leaf(S.store[r], p)
            nv = self.get_leaf(B.store[r], p)
            if isinstance(nv, Poly) and isinstance(init, Poly):
                dlt = nv - x
                if not (deep_atoms(dlt) & hv) and not dlt.isd:
                    indu[(r, p)] = (init, dlt)
                    continue
                # wrapping arithmetic that may turn out not to wrap
                d2 = dlt
                for mono, v in dlt.t.items():
                    if len(mono) == 1 and v % (1 << 16) == 0 and KIND[mono[0]] == "fdiv":
                        d2 = d2 - mk({mono: v})
                if d2 is not dlt and not (deep_atoms(d2) & hv) and not d2.isd:
                    indu[(r, p)] = (init, d2)
                    tent[(r, p)] = True
                    continue
            non[(r, p)] = self.havoc(fn, lid, r, p, nv, init)
        def header(extra):
            return self.loop_header(S, indu, non, k, extra)
        while True:
            r = self.invariants(fn, reg, S, header, indu, non, kk, k, foreign)
            if r is None:
                return None, None, None, None
            H, inv = r
            if not tent:
                break
            out = self.exec_region(fn, reg, [H.fork()])
            B = self.join(fn, reg.entry, out["back"], True) if out["back"] else []
            bad = []
            for key in tent:
                want = subst(self.get_leaf(H.store[key[0]], key[1]), {kk: k + 1})
                if len(B) != 1 or self.get_leaf(B[0].store[key[0]], key[1]) is not want:
                    bad.append(key)
            if not bad:
                break
            for key in bad:
                del tent[key]
                init, dlt = indu.pop(key)
                non[key] = self.havoc(fn, lid, key[0], key[1], None, init)
        return H, (kk, k, tuple(inv)), indu, non

    def loop_header(self, S, indu, non, k, extra):
        """Header state in terms of the counter; facts of S stay."""
        H = S.fork()
        H.ev = ()
        for (r, p), (init, dlt) in indu.items():
            H.store[r] = self.set_leaf(H.store[r], p, init + dlt * k)
        for (r, p), x in non.items():
            H.store[r] = self.set_leaf(H.store[r], p, x)
        for f in extra:
            H.assume(f)
        return H

    def havoc(self, fn, lid, r, p, nv, init):
        rng = self.leaf_int_type(fn, r, p) or (None, None)
        if isinstance(nv, Poly) and nv.isd or isinstance(init, Poly) and init.isd:
            return LIGHT
        return A(atom("opq", ("hv", lid, r, p, rng), rng[0], rng[1]))

    def invariants(self, fn, reg, S, header, indu, non, kk, k, foreign):
        extra = []
        for (r, p), (init, dlt) in indu.items():
            rng = self.leaf_int_type(fn, r, p)
            if rng:
                v = init + dlt * k
                if dlt.c is None or dlt.c < 0:
                    f = ge(v - rng[0])
                    if f is not True:
                        extra.append(f)
        inv = list(extra)
        nonatoms = {a for x in non.values() if isinstance(x, Poly) for a in x.atoms}
        for rnd in range(2):
            H = header(inv)
            out = self.exec_region(fn, reg, [H.fork()])
            if not out["back"]:
                return None
            B = self.join(fn, reg.entry, out["back"], True)
            if len(B) > 1:
                raise Unsupported("loop with several shapes")
            B = B[0]
            add = []
            for f in B.facts:
                if f[0] == "or" or f in H.fset or fdata(f) or f in self.lemmas:
                    continue
                at = fallatoms(f)
                if kk not in at or at & nonatoms or any(foreign(a) for a in at):
                    continue
                if any(kk in deep_atoms(A(a)) for q in fpolys(f) for a in q.atoms if a != kk):
                    continue
                g = substf(f, {kk: k - 1})
                if g is True:
                    continue
                at0 = substf(g, {kk: ZERO})
                if at0 is not False and self.pr.prove(S.facts, at0, 0):
                    pass
                else:
                    g = disj([eq(k), g])
                if g is not True and g not in inv:
                    add.append(g)
            if not add:
                break
            inv += add
        return header(inv), inv

    def final_pass(self, fn, reg, S, H, ks, indu, non, lid, peeled):
        kk, k, inv = ks
        # a constant trip count is unrolled instead
        self.mute += 1
        self.light += 1
        try:
            probe = self.exec_region(fn, reg, [H.fork()])
        finally:
            self.mute -= 1
            self.light -= 1
        trip = None
        for tgt, ss in probe.items():
            if tgt in ("back", "ret"):
                continue
            for s in ss:
                t = self.solve_trip(s, kk)
                if t is not None and t.c is not None and (trip is None or t.c < trip):
                    trip = t.c
        if trip is not None and trip <= self.UNROLL:
            return self.unroll(fn, reg, S, trip)
        out = self.exec_region(fn, reg, [H.fork()])
        back = self.join(fn, reg.entry, out["back"], True)
        evs = ()
        if len(back) > 1:
            raise Unsupported("loop with several shapes")
        if back:
            B = back[0]
            evs = B.ev
            # verify that the summary is inductive
            if not self.mute:
                nxt = {kk: k + 1}
                d = self.state_diff(fn, reg.entry, H, B)
                if d is None:
                    raise Unsupported("loop summary: shape changes")
                for (r, p) in d:
                    if (r, p) in indu:
                        want = subst(self.get_leaf(H.store[r], p), nxt)
                        got = self.get_leaf(B.store[r], p)
                        if want is not got:
                            raise Unsupported("loop summary not inductive")
                    elif (r, p) not in non:
                        raise Unsupported("loop summary misses a changed value")
                for (r, p) in indu:
                    if (r, p) not in d and not (indu[(r, p)][1] is ZERO):
                        raise Unsupported("loop summary not inductive")
                bad = []
                for f in inv:
                    g = substf(f, nxt)
                    # type-range facts hold because the arithmetic is checked
                    if g is not True and g not in B.fset and not self.pr.prove(B.facts, g, 3):
                        if not self.is_range_fact(f, indu, k):
                            bad.append(f)
                if bad:
                    # candidates that are not inductive are dropped, and the loop analysed again
                    inv = tuple(f for f in inv if f not in bad)
                    H = self.loop_header(S, indu, non, k, inv)
                    return self.final_pass(fn, reg, S, H, (kk, k, inv), indu, non, lid, peeled)
        res = {"ret": [], "back": []}
        for tgt, ss in out.items():
            if tgt == "back":
                continue
            for s in ss:
                T = self.solve_trip(s, kk)
                mp = {}
                if T is not None:
                    mp[kk] = T
                else:
                    T = A(atom("opq", ("exit", lid, next(self.fresh)), 0, None))
                    mp[kk] = T
                s2 = self.subst_state(s, mp)
                if s2 is None:
                    continue
                lev = tuple(Event(e.region, e.off, e.terms, e.facts, ((kk, T, inv),) + e.loops, e.where, e.fn) for e in evs)
                s2.ev = S.ev + lev + tuple(self.subst_event(e, mp) for e in s.ev)
                res.setdefault(tgt, []).append(s2)
        return res

    def is_range_fact(self, f, indu, k):
        for (init, dlt) in indu.values():
            v = init + dlt * k
            if f[0] == "ge" and (f[1] is v or ge(v) == f):
                return True
        return False

    def subst_event(self, e, mp):
        memo = {}
        return Event(e.region, subst(e.off, mp, memo), tuple(t if t is None else subst(t, mp, memo) for t in e.terms),
                     tuple(substf(f, mp, memo) for f in e.facts),
                     tuple((a, subst(t, mp, memo), tuple(substf(f, mp, memo) for f in iv)) for a, t, iv in e.loops), e.where, e.fn)

    def subst_state(self, s, mp):
        memo = {}
        n = State()
        keys = mp.keys()

        def sv(v):
            t = type(v)
            if t is Poly:
                return subst(v, mp, memo) if deep_atoms(v) & keys else v
            if t is tuple:
                return substf(v, mp, memo)
            if t is Agg:
                f = tuple(sv(x) for x in v.f)
                return v if all(a is b for a, b in zip(f, v.f)) else Agg(v.var, f)
            if t is Ptr:
                o = v.off if v.off is None else sv(v.off)
                m = v.meta if v.meta is None else sv(v.meta)
                return v if o is v.off and m is v.meta else Ptr(v.root, v.path, o, v.es, m, v.nul)
            if t is Vec:
                if v.s is None:
                    return v
                return Vec(tuple((b, sv(p)) for b, p in v.s))
            if t is Wrap:
                return Wrap(sv(v.p), v.bits, v.signed, substf(v.over, mp, memo))
            if t is SymEnum:
                return SymEnum(sv(v.d), v.ty)
            if t is dict:
                return {k: sv(x) for k, x in v.items()}
            return v
        for k, v in s.store.items():
            n.store[k] = sv(v)
        fs = []
        for f in s.facts:
            g = substf(f, mp, memo)
            if g is True:
                continue
            if g is False:
                return None
            for x in (g[1] if g[0] == "and" else (g,)):
                if x not in fs:
                    fs.append(x)
        n.setfacts(fs)
        n.ev = s.ev
        n.log = s.log
        return n

    def solve_trip(self, s, kk):
        """Value of the counter in an exit state, from its bounds."""
        ups, los = [], []
        for f in s.facts:
            if f[0] not in ("ge", "eq"):
                continue
            p = f[1]
            c = p.t.get((kk,))
            if c is None:
                continue
            r = p - mk({(kk,): c})
            if kk in deep_atoms(r):
                continue
            if f[0] == "eq":
                if c < 0:
                    c, r = -c, r
                    return fdiv(r, c)
                return fdiv(-r, c)
            if c < 0:
                ups.append((r, -c))      # r - c k >= 0
            else:
                los.append((-r, c))      # c k >= -r
        best = None
        for U, c in ups:
            for Lw, c2 in los:
                if c == c2:
                    dd = U - Lw
                    if dd.c is not None and 0 <= dd.c <= c - 1:
                        t = fdiv(U, c)
                        return t
                elif c2 and c:
                    # scale to a common factor
                    m = c * c2
                    dd = U.scale(c2) - Lw.scale(c)
                    if dd.c is not None and 0 <= dd.c <= m - 1:
                        best = fdiv(U, c)
        if best is not None:
            return best
        # one-sided: counter is zero when bounded above by 0
        for U, c in ups:
            if U.c is not None and 0 <= U.c < c:
                return ZERO
        # non-syntactic: test candidate upper bounds against the facts
        for U, c in ups:
            t = fdiv(U, c)
            if self.pr.prove(s.facts, ge(A(kk) - t), 3):
                return t
        return None

    def unroll(self, fn, reg, S, trip):
        res = {"ret": [], "back": []}
        cur = [S]
        for i in range(trip + 2):
            out = self.exec_region(fn, reg, [s.fork() for s in cur])
            for tgt, ss in out.items():
                if tgt != "back":
                    res.setdefault(tgt, []).extend(ss)
            cur = out["back"]
            if not cur:
                break
            cur = self.join(fn, reg.entry, cur)
        if cur:
            raise Unsupported("unrolled loop does not end")
        return res


def sgn_full(p, b):
    h = 1 << (b - 1)
    return mod(p + h, 1 << b) - h


def bit_support(p):
    """Mask of the bits that may be set in the nonnegative p, when its terms
    occupy disjoint bit fields; None otherwise."""
    m = 0
    for mono, v in p.t.items():
        if v < 0:
            return None
        if not mono:
            f = v
        else:
            l, h = (LO[mono[0]], HI[mono[0]]) if len(mono) == 1 else (None, None)
            if len(mono) > 1 or l is None or h is None or l < 0:
                return None
            sh = (v & -v).bit_length() - 1
            odd = v >> sh
            if odd != 1:
                f = ((1 << ((odd * h).bit_length())) - 1) << sh
            else:
                f = ((1 << h.bit_length()) - 1) << sh
        if m & f:
            return None
        m |= f
    return m


def support(p):
    m = bit_support(p)
    if m is not None:
        return m
    lo, hi = p.iv()
    if lo is None or hi is None or lo < 0:
        return None
    g = 0
    for v in p.t.values():
        g |= v & -v if v > 0 else (-v) & v
    low = min((abs(v) & -abs(v)) for v in p.t.values()) if p.t else 1
    return ((1 << hi.bit_length()) - 1) & ~(low - 1)


def bitop_u(op, a, b, bits):
    full = (1 << bits) - 1
    if a.c is not None and b.c is None:
        a, b = b, a
    if op == "BitAnd" and b.c is not None:
        return and_mask(a, b.c, bits)
    ma, mb = support(a), support(b)
    if op in ("BitOr", "BitXor"):
        if a is b:
            return a if op == "BitOr" else ZERO
        if ma is not None and mb is not None and not (ma & mb):
            return a + b
        if b.c is not None:
            # a | m = a + m - (a & m) ; a ^ m = a + m - 2 (a & m)
            x = and_mask(a, b.c, bits)
            return a + b - (x if op == "BitOr" else x.scale(2))
        lo, hi = a.iv()
        lo2, hi2 = b.iv()
        k = "bor" if op == "BitOr" else "bxor"
        if a.id > b.id:
            a, b = b, a
        hh = None
        if hi is not None and hi2 is not None:
            hh = (1 << max(hi, hi2).bit_length()) - 1
        return A(atom(k, (a, b), max(lo or 0, lo2 or 0) if op == "BitOr" else 0, hh, a.isd or b.isd,
                      1 + max([DEPTH[x] for x in a.atoms | b.atoms], default=0)))
    if a is b:
        return a
    if ma is not None and mb is not None and not (ma & mb):
        return ZERO
    lo, hi = a.iv()
    lo2, hi2 = b.iv()
    if a.id > b.id:
        a, b = b, a
    return A(atom("band", (a, b), 0, min(x for x in (hi, hi2, full) if x is not None), a.isd or b.isd,
                  1 + max([DEPTH[x] for x in a.atoms | b.atoms], default=0)))


def and_mask(a, m, bits):
    """a & m for 0 <= a < 2**bits."""
    s = support(a)
    if s is not None:
        if not (s & ~m):
            return a
        if not (s & m):
            return ZERO
    lo, hi = a.iv()
    if hi is not None:
        top = hi.bit_length()
        m &= (1 << top) - 1
    else:
        top = bits
        m &= (1 << bits) - 1
    # runs of ones
    out = ZERO
    i = 0
    while m >> i:
        if not (m >> i) & 1:
            i += 1
            continue
        j = i
        while (m >> j) & 1:
            j += 1
        # bits [i, j)
        hi_part = mod(a, 1 << j) if j < top else a
        out = out + hi_part - mod(hi_part, 1 << i)
        i = j
    return out
