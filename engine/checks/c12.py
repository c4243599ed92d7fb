"""C12: the public C header against the compiled interface, both directions.

The header is parsed by clang (syntax tree and record layouts); the other side
is what rustc compiled: exported symbols with their call ABI, type layouts and
enumeration discriminants."""
import json
import os
import re
import subprocess
import tempfile

HDR = "include/dcv_color_primitives.h"


def clang(repo, args, text, suffix):
    with tempfile.TemporaryDirectory(prefix="dcp-hdr-") as d:
        p = os.path.join(d, "use" + suffix)
        with open(p, "w") as f:
            f.write(text)
        return subprocess.run(["clang", "--target=x86_64-unknown-linux-gnu", "-I", os.path.join(repo, "include"), "-fsyntax-only"] + args + [p],
                              capture_output=True, text=True, errors="replace")


class Header:
    def __init__(self, repo):
        r = clang(repo, ["-std=c11", "-Xclang", "-ast-dump=json"], '#include <stddef.h>\n#include "dcv_color_primitives.h"\n', ".c")
        if r.returncode:
            raise RuntimeError("the header does not compile: " + r.stderr[:400])
        top = json.loads(r.stdout)["inner"]
        self.line = {}
        self.enums, self.records, self.typedefs, self.funcs, self.vars = {}, {}, {}, {}, {}
        byid = {}
        cur = None
        for d in top:
            k = d["kind"]
            loc = d.get("loc", {})
            for l in (loc, loc.get("spellingLoc", {}), loc.get("expansionLoc", {})):
                if "file" in l:
                    cur = l["file"]
            if k in ("EnumDecl", "RecordDecl"):
                byid[d["id"]] = d
            if not cur or os.path.basename(cur) != os.path.basename(HDR):
                if k == "TypedefDecl":
                    self.typedefs[d["name"]] = d
                continue
            n = d.get("name")
            if n:
                self.line[n] = loc.get("line") or loc.get("expansionLoc", {}).get("line")
            if k == "TypedefDecl":
                self.typedefs[n] = d
                o = self.owned(d)
                if o in byid:
                    t = byid[o]
                    if t["kind"] == "EnumDecl":
                        self.enums[n] = self.enumerators(t)
                    else:
                        self.records[n] = t
            elif k == "FunctionDecl":
                self.funcs[n] = d
            elif k == "VarDecl":
                self.vars[n] = d
        self.sizes(repo)

    def owned(self, d):
        for i in d.get("inner", []):
            x = (i.get("ownedTagDecl") or {}).get("id") or (i.get("decl") or {}).get("id")
            if x:
                return x
            x = self.owned(i)
            if x:
                return x
        return None

    def enumerators(self, t):
        r, v = [], -1
        for c in t.get("inner", []):
            if c["kind"] != "EnumConstantDecl":
                continue
            x = self.const(c)
            v = v + 1 if x is None else x
            r.append((c["name"], v, c.get("loc", {}).get("line")))
        return r

    def const(self, d):
        for i in d.get("inner", []):
            if "value" in i and i["kind"] in ("ConstantExpr", "IntegerLiteral"):
                return int(i["value"])
            x = self.const(i)
            if x is not None:
                return x
        return None

    def sizes(self, repo):
        """Layout of every type and field, as clang computes it."""
        names = sorted(self.records) + sorted(self.enums)
        fields = {n: [c["name"] for c in self.records[n].get("inner", []) if c["kind"] == "FieldDecl"] for n in self.records}
        # constant expressions are folded by the front end: read them back from the syntax tree
        out = ['#include <stddef.h>\n#include "dcv_color_primitives.h"\n']
        keys = []
        for n in names:
            for e in ("sizeof(%s)" % n, "_Alignof(%s)" % n) + tuple("offsetof(%s, %s)" % (n, f) for f in fields.get(n, [])):
                out.append("enum { k%d = %s };\n" % (len(keys), e))
                keys.append(e)
        for n in self.enums:
            out.append("enum { k%d = ((%s)-1) > 0 };\n" % (len(keys), n))
            keys.append("unsigned(%s)" % n)
        r = clang(repo, ["-std=c11", "-Xclang", "-ast-dump=json"], "".join(out), ".c")
        if r.returncode:
            raise RuntimeError(r.stderr[:400])
        self.k = {}

        def walk(d):
            if d.get("kind") == "EnumConstantDecl" and re.fullmatch(r"k\d+", d.get("name", "")):
                self.k[keys[int(d["name"][1:])]] = self.const(d)
            for i in d.get("inner", []):
                walk(i)
        walk(json.loads(r.stdout))
        self.fields = fields

    def type(self, qual):
        """C type -> ('int',bits,signed) | ('adt',name) | ('ptr',const,pointee) | ('void',)"""
        q = qual.strip()
        if q.endswith("const") and "*" in q:
            q = q[:-5].strip()      # a const parameter is no business of the caller's
        m = re.fullmatch(r"(.*)\*(\s*(const|restrict|volatile))*", q)
        if m:
            inner = m.group(1).strip()
            if "*" in inner:
                const = bool(re.search(r"\*\s*const$", inner))
            else:
                const = bool(re.search(r"\bconst\b", inner))
            return ("ptr", const, self.type(inner))
        q = " ".join(w for w in q.split() if w not in ("const", "volatile", "enum", "struct"))
        std = {"uint8_t": 8, "uint16_t": 16, "uint32_t": 32, "uint64_t": 64, "size_t": 64, "uintptr_t": 64, "unsigned int": 32, "unsigned char": 8,
               "unsigned long": 64, "unsigned short": 16, "unsigned": 32, "unsigned long long": 64}
        sgn = {"int8_t": 8, "int16_t": 16, "int32_t": 32, "int64_t": 64, "ssize_t": 64, "ptrdiff_t": 64, "int": 32, "char": 8, "signed char": 8, "long": 64,
               "short": 16, "long long": 64, "intptr_t": 64}
        if q == "void":
            return ("void",)
        if q in self.enums or q in self.records:
            return ("adt", q)
        if q in std:
            return ("int", std[q], False)
        if q in sgn:
            return ("int", sgn[q], True)
        if q in ("_Bool", "bool"):
            return ("bool",)
        if q in ("float", "double"):
            return (q,)
        if q in self.typedefs:
            return self.type(self.typedefs[q]["type"].get("desugaredQualType") or self.typedefs[q]["type"]["qualType"])
        return ("?", q)


def plain(s):
    return s.replace("_", "").lower()


def common_prefix(names):
    """Longest prefix of whole words shared by all the names."""
    w = [n.split("_") for n in names]
    k = 0
    while all(len(x) > k + 1 for x in w) and len({x[k] for x in w}) == 1:
        k += 1
    return "_".join(w[0][:k]) + ("_" if k else "")


def match(P, H, ct, rt, where, bad, pairs):
    """The C type ct and the Rust type rt are the same at the ABI."""
    t = P.types[rt]
    k = t["k"]
    if ct[0] == "void":
        if not (t["l"] or {}).get("size") == 0:
            bad("%s is void in the header and %s in the library" % (where, t["s"]))
        return
    if ct[0] == "ptr":
        if k == "adt" and t["adt"].endswith("option::Option"):
            rt2 = t["ga"]
            inner = [x for x in t["variants"][1]["f"]]
            return match(P, H, ct, inner[0][1], where, bad, pairs)
        if k not in ("ptr", "ref"):
            return bad("%s is a pointer in the header and %s in the library" % (where, t["s"]))
        if ct[1] and t.get("mut"):
            bad("%s points to constant data in the header and is %s in the library" % (where, t["s"]))
        if not ct[1] and not t.get("mut") and ct[2][0] != "void":
            bad("%s points to data the library may write in the header and is %s in the library" % (where, t["s"]))
        if ct[2][0] == "void":
            return
        return match(P, H, ct[2], t["e"], "what %s points to" % where, bad, pairs)
    if ct[0] == "int":
        if k != "int" or t["bits"] != ct[1] or (t["signed"] != ct[2]):
            bad("%s is a%s %d-bit integer in the header and %s in the library" % (where, " signed" if ct[2] else "n unsigned", ct[1], t["s"]))
        return
    if ct[0] == "bool":
        if k != "bool":
            bad("%s is a boolean in the header and %s in the library" % (where, t["s"]))
        return
    if ct[0] == "adt":
        if k != "adt":
            return bad("%s is %s in the header and %s in the library" % (where, ct[1], t["s"]))
        pairs.setdefault(ct[1], set()).add(rt)
        return
    raise RuntimeError("C type %s" % (ct,))


def run(ctx):
    rep = ctx.rep
    P = ctx.E.P
    repo = ctx.repo
    rep.level = "proof"
    cov = {"functions": 0, "arguments": 0, "types": 0, "enumerators": 0, "fields": 0}
    hdr = os.path.join(repo, HDR)
    if not os.path.exists(hdr):
        rep.violation("no-header", "the public C header does not exist", HDR, HDR)
        rep.coverage = dict(cov, explanation="no header")
        return
    # the header stands on its own, in C and in C++
    for suffix, std in ((".c", "-std=c99"), (".c", "-std=c11"), (".cpp", "-std=c++11")):
        r = clang(repo, [std], '#include "dcv_color_primitives.h"\n', suffix)
        if r.returncode:
            e = [l for l in r.stderr.splitlines() if "error:" in l]
            rep.violation("compiles:" + suffix, "the header does not compile on its own", HDR, [std] + [re.sub(r"^\S*/", "", x) for x in e[:3]])
    try:
        H = Header(repo)
    except RuntimeError as e:
        if not rep.violations:
            rep.undecide(str(e))
        rep.coverage = dict(cov, explanation="the header could not be parsed")
        return
    exp = {}
    for f in P.fns:
        if f.local and f.export and f.abi:
            exp.setdefault(f.sym, f)

    def at(n):
        return "%s:%s" % (HDR, H.line.get(n) or "?")
    for n in sorted(H.funcs):
        if n not in exp:
            rep.violation("undefined:" + n, "declared in the header, not exported by the library", at(n), n)
    for n, f in sorted(exp.items()):
        if n.startswith("dcp_") and n not in H.funcs:
            rep.violation("undeclared:" + n, "exported by the library, not declared in the header", P.where(f.span), n)
    pairs = {}
    for n in sorted(set(H.funcs) & set(exp)):
        f, d = exp[n], H.funcs[n]
        cov["functions"] += 1

        def bad(text, n=n, f=f):
            rep.violation("%s:%s" % (n, text), text, at(n), ["%s, compiled at %s" % (n, P.where(f.span))])
        if str(f.abi["conv"]) != "C":
            bad("the calling convention is %s" % f.abi["conv"])
        q = d["type"]["qualType"]
        ret = q[:q.index("(")].strip()
        params = [c for c in d.get("inner", []) if c["kind"] == "ParmVarDecl"]
        match(P, H, H.type(ret), f.abi["ret"], "the result", bad, pairs)
        if d.get("variadic") or len(params) != len(f.abi["args"]):
            bad("%d arguments in the header, %d in the library" % (len(params), len(f.abi["args"])))
            continue
        for i, (p, a) in enumerate(zip(params, f.abi["args"])):
            cov["arguments"] += 1
            match(P, H, H.type(p["type"]["qualType"]), a, "argument %d (%s)" % (i + 1, p.get("name", "?")), bad, pairs)
        # the same names in another order are swapped arguments
        rn = [(f.names or {}).get(i + 1) for i in range(len(params))]
        cn = [p.get("name") for p in params]
        if rn != cn and sorted(map(str, rn)) == sorted(map(str, cn)):
            bad("arguments in the order %s in the header and %s in the library" % (", ".join(cn), ", ".join(rn)))
    # layouts, transitively through structures
    done = set()
    while set(pairs) - done:
        for n in sorted(set(pairs) - done):
            done.add(n)
            cov["types"] += 1
            for rt in sorted(pairs[n]):
                t = P.types[rt]

                def bad(text, n=n, t=t):
                    rep.violation("%s:%s" % (n, text), text, at(n), ["%s and %s" % (n, t["s"])])
                l = t["l"]
                if l["size"] != H.k["sizeof(%s)" % n] or l["align"] != H.k["_Alignof(%s)" % n]:
                    bad("size %d, alignment %d in the header; %d, %d in the library" % (H.k["sizeof(%s)" % n], H.k["_Alignof(%s)" % n], l["size"], l["align"]))
                if n in H.enums:
                    if t["ak"] != "enum":
                        bad("an enumeration in the header, not in the library")
                        continue
                    cov["enumerators"] += len(H.enums[n])
                    pre = common_prefix([e[0] for e in H.enums[n]])
                    cname = {}
                    rname = {plain(v["n"]): v["d"] for v in t["variants"]}
                    for e, v, line in H.enums[n]:
                        x = plain(e[len(pre):])
                        cname.setdefault(v, []).append(x)
                        if x in rname:
                            if rname[x] != v:
                                bad("%s is %d in the header and %d in the library" % (e, v, rname[x]))
                        elif v not in rname.values():
                            bad("%s = %d has no counterpart in the library" % (e, v))
                        elif x == "lrgb" and rname.get("rgb", v) != v:
                            # documented as the former name of RGB
                            bad("%s is %d, RGB is %d in the library" % (e, v, rname["rgb"]))
                    for v in t["variants"]:
                        if v["d"] not in cname:
                            bad("%s = %d is missing in the header" % (v["n"], v["d"]))
                        elif plain(v["n"]) not in cname[v["d"]]:
                            # renamed on one side: the other names must not clash
                            if any(x in rname and rname[x] != v["d"] for x in cname[v["d"]]) or plain(v["n"]) in {x for xs in cname.values() for x in xs}:
                                bad("%s = %d is called otherwise in the header" % (v["n"], v["d"]))
                            else:
                                rep.undecide("%s: %s = %d is called %s in the header" % (n, v["n"], v["d"], "/".join(cname[v["d"]])))
                    continue
                if t["ak"] != "struct":
                    bad("a structure in the header, not in the library")
                    continue
                rf = t["variants"][0]["f"]
                off = l["fields"][1] if l["fields"][0] == "s" else []
                byname = {plain(x[0]): (i, x) for i, x in enumerate(rf)}
                cf = [c for c in H.records[n].get("inner", []) if c["kind"] == "FieldDecl"]
                cov["fields"] += len(cf)
                if len(cf) != len(rf):
                    bad("%d fields in the header, %d in the library" % (len(cf), len(rf)))
                same = sorted(plain(c["name"]) for c in cf) == sorted(byname)
                for i, c in enumerate(cf):
                    o = H.k["offsetof(%s, %s)" % (n, c["name"])]
                    if plain(c["name"]) in byname:
                        j = byname[plain(c["name"])][0]
                    else:
                        j = off.index(o) if o in off else None
                    if j is None:
                        bad("field %s is at offset %d in the header, where the library has none" % (c["name"], o))
                        continue
                    if off[j] != o:
                        bad("field %s is at offset %d in the header and %d in the library" % (c["name"], o, off[j]))
                    match(P, H, H.type(c["type"]["qualType"]), rf[j][1], "field %s" % c["name"], bad, pairs)
    # the automatic stride: zero is what the library treats as automatic (see C10)
    v = H.vars.get("DCP_STRIDE_AUTO")
    if v is None:
        rep.undecide("DCP_STRIDE_AUTO is not a constant of the header")
    elif H.const(v) != 0:
        rep.violation("stride-auto", "DCP_STRIDE_AUTO is %s, the library takes 0 for automatic" % H.const(v), at("DCP_STRIDE_AUTO"), "DCP_STRIDE_AUTO")
    # the public types of the interface are all in the header
    for n in sorted((set(H.enums) | set(H.records)) - done):
        rep.undecide("%s is not used by any function of the header" % n)
    if not cov["functions"]:
        rep.undecide("no function compared")
    rep.coverage = dict(cov, declared=sorted(H.funcs), exported=sorted(exp), types_compared=sorted(done),
                        rule="every declared function is exported with the same calling convention, argument and result types; every dcp_* export is declared; enumerators, "
                             "field offsets, sizes and alignments agree; the header compiles on its own as C and C++",
                        trusted_base=["clang 18 (syntax tree, layouts)", "rustc (call ABI, layouts)"])
    rep.assumptions = ["x86_64 Linux ABI"]
