#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of finished checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "C01": ("abstract interpretation of the MIR of every converter with symbolic sizes, strides and lengths; every load and store is proved inside its slice from the path facts",
            "91 conversions x 3 instruction sets, all dimensions, strides and lengths; thorough: i686 and aarch64 (NEON) too"),
    "C02": ("abstract interpretation: path facts of every return compared with the specified size condition, both directions",
            "91 conversions x 3 instruction sets; strides at least one row or automatic"),
    "C03": ("abstract interpretation of the MIR: every store proved inside a row of its plane; the column intervals of the stores chained, for an arbitrary row, from 0 to the end of the row",
            "91 conversions x 3 instruction sets, all sizes and strides"),
    "C04": ("effect analysis on the abstract interpretation: no store to a destination on a path that returns an error",
            "91 conversions x 3 instruction sets plus the dispatcher"),
    "C05": ("abstract interpretation: the transfer function of every stored byte (pixel position and source bytes it is computed from) extracted for each instruction set and compared",
            "91 conversions x 3 instruction sets, all sizes; functions of up to three bytes compared over all their values, the others as canonical terms"),
    "C06": ("affine error analysis of the transfer function of every stored byte against the ITU-R matrices",
            "88 YCbCr/RGB conversions x 3 instruction sets, all byte values"),
    "C07": ("dependence analysis of every stored byte: the source pixels it is computed from and the position it is stored at, as functions of the loop counters",
            "91 conversions x 3 instruction sets, all sizes and strides"),
    "C08": ("abstract interpretation of the dispatcher for every format/colour-space pair and of every installed converter",
            "all pairs of documented formats, three instruction sets"),
    "C09": ("abstract interpretation of the validation path, compared with the documented rules",
            "all formats and colour spaces, symbolic plane counts and dimensions"),
    "C10": ("abstract interpretation of the size query with symbolic dimensions and strides",
            "all formats, all dimensions and strides"),
    "C11": ("abstract interpretation: every panic, overflow and division obligation on every path is discharged",
            "all conversions and the size query, all inputs"),
    "C12": ("comparison of the clang syntax tree and record layouts of the header with the symbols, call ABI, layouts and discriminants rustc compiled",
            "all declarations, all exports; x86_64 Linux ABI"),
    "C13": ("abstract interpretation of the C entry points with nullable pointers and enumerations as arbitrary 32-bit integers",
            "all formats and one invalid one on each side; plane counts, pointers and colour spaces symbolic"),
    "C14": ("ownership dataflow over the MIR call graph: the only into_raw/from_raw pair, null guard, no other release",
            "all functions reachable from the C API, every path"),
    "C15": ("effect analysis of target features: call graph of every installed converter against the detection facts its context was built under",
            "all contexts, all converters, all reachable functions"),
    "C16": ("effect analysis on the MIR call graph: mutable statics, interior mutability, thread locals, foreign calls, blocking primitives",
            "all functions reachable from the public API"),
    "C17": ("dependence analysis of every stored byte of the packed RGB conversions: it must be the named component of the same pixel",
            "3 conversions x 3 instruction sets, all sizes and strides"),
    "C18": ("abstract interpretation of the detection code and of the formatting code; effect analysis of the installed converters",
            "all outcomes of detection"),
    "C19": ("alignment analysis on the abstract interpretation: for every access, the alignment its instruction requires against what is proved of the address",
            "91 conversions x 3 x86 instruction sets and the NEON ones, all base addresses, sizes and strides"),
    "C20": ("dependence analysis: the transfer function of every stored byte restricted to greys (one variable for the components, neutral chroma), decided over all its values",
            "88 YCbCr/RGB conversions x 3 instruction sets, all byte values; thorough: NEON too"),
    "C21": ("dependence analysis: the transfer functions of all conversions of a colour space, written over component names, compared with each other",
            "88 YCbCr/RGB conversions x 3 instruction sets, all byte values; thorough: NEON too"),
}
DONE = os.environ.get("CHECKS", " ".join(CHECKS)).split()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
LEVEL = {}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "technique": "static analysis: " + t, "level": CHECKS[i][2] if len(CHECKS[i]) > 2 else "proof", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check for this property is not finished yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
