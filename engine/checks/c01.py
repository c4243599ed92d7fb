"""C01: every memory access of every conversion stays inside its buffer."""
import conv
import common

KINDS = ("mem", "null", "bounds", "unreachable")


def run(ctx):
    rep = ctx.rep
    ctx.sets()
    jobs = conv.jobs_all()
    more = ((False, False), (True, False), (False, True))
    if ctx.tier == "thorough":
        jobs += conv.jobs_all(strides=more)
    else:
        # absent strides stand for three zeros: the colour space does not matter
        jobs += conv.jobs_all(colors=("Bt601",), strides=more[:1])
    tot, fns, per = {}, set(), {}
    for job, r, err in ctx.map(conv.ob_job(KINDS, True), jobs, conv.group):
        c, s, x = job
        if r is None:
            rep.undecide("%s strides %s: %s" % (conv.label(c, s), x, err))
            continue
        fns |= set(r["fns"])
        for k, n in r["cnt"].items():
            tot[k] = tot.get(k, 0) + n
        if r["outs"].get("ok", 0) == 0:
            rep.undecide("%s strides %s: no successful outcome" % (conv.label(c, s), x))
        for u in r["und"]:
            rep.undecide(u)
        for v in r["vio"]:
            rep.violation("%s:%s" % (v["kind"], v["fn"]), "%s: %s" % (conv.WHAT[v["kind"]], v["msg"]), v["where"],
                          ["conversion %s" % conv.label(c, s), "input %s" % v["input"]] + v["stack"] + ["needs %s" % v["goal"]])
        per.setdefault(s, 0)
        per[s] += 1
    rep.level = "proof"
    n = sum(tot.values())
    rep.coverage = {"obligations": n + len(rep.undecided) + len(rep.violations), "discharged": n, "by_kind": tot, "conversions_by_set": per,
                    "functions_with_accesses": sorted(fns),
                    "rule": "each load and store of a conversion: 0 <= offset and offset + size <= length of the buffer, for all widths, heights, strides, lengths",
                    "trusted_base": ["rustc MIR", "engine/interp.py, prover.py", "models of vector intrinsics: engine/models.py"]}
    rep.assumptions = ["default features", "slices have at most isize::MAX bytes"]
