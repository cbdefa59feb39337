"""P05: tree-search strategies keep and order the open nodes."""
from vp import *
import random

def histories(ctx, num, seed):
    r = tlc("GenDiver", simulate=num, depth=160, seed=seed, workers=4, timeout=600, stats=ctx.st)
    if not r["ok"]: raise CheckError("GenDiver: " + str(r["violated"]) + r["out"][-800:])
    return [json.loads(json.loads(s)) for s in sorted(set(printed(r["out"], "HIST")))]

def to_job(jid, h):
    c = h["cfg"]
    o = "bonmin.max_dive_depth %d\nbonmin.max_backtracks_in_dive %d\nbonmin.stop_diving_on_cutoff %s\n" % (min(c["maxDepth"], 1000000), c["maxBack"], "yes" if c["stop"] else "no")
    return {"job": jid, "kind": c["kind"], "cmp": c["cmp"], "stop": c["stop"], "maxDepth": c["maxDepth"], "maxBack": c["maxBack"], "nsol": c["nsol"], "nlim": c["nlim"], "opts": o, "ops": h["ops"]}

INTS = ("bp", "cut", "obj", "guess", "best")
def project(evs):
    out = []
    for e in evs:
        if e["ev"] == "exit": e = {"ev": "exit", "sig": e["sig"] or abs(e["rc"])}
        e = dict(e)
        for k in INTS:
            if k in e: e[k] = int(max(-10**9, min(10**9, round(e[k]))))
        out.append(e)
    return out

def check(ctx):
    drv = build("drv_diver")["drv_diver"]
    r = tlc("MCDiver", "MCDiver" if ctx.quick else "MCDiverDeep", timeout=3000, stats=ctx.st, xmx="12g")
    if not r["ok"]: raise CheckError("design model MCDiver: %s" % r["violated"])
    ctx.cov["model_states"] = r["distinct"]
    hs = []
    for k in range(1 if ctx.quick else 6): hs += histories(ctx, 500 if ctx.quick else 2000, ctx.seed * 100 + k)
    jobs = [to_job("h%d" % i, h) for i, h in enumerate(hs)]
    tr = replay(ctx, drv, "TraceDiver", jobs, lambda j, evs: project(evs), shards=6)
    groups = [(j["job"], tr[j["job"]]) for j in jobs if j["job"] in tr]; byid = {j["job"]: j for j in jobs}
    kinds = {}; ops = {}
    for k, evs in groups:
        j = byid[k]
        kinds[j["kind"]] = kinds.get(j["kind"], 0) + 1
        for e in evs: ops[e["ev"]] = ops.get(e["ev"], 0) + 1
    ctx.cov.update(histories=len(jobs), by_strategy=kinds, operations=ops)
    for g in groups[:2]: ctx.sample(g[1][:6])
    ctx.assume += ["nodes and their Cbc bookkeeping are built by the driver; the trees are the real objects", "Cbc's own heap (base class) is trusted to order by the configured comparison"]
