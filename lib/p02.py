"""P02: the relaxations solved by a complete B-BB run certify its answer."""
import gen
from common import *
from vp import *
LEVEL = "model_checking"
# branching rules that probe with something else than the nonlinear relaxation, and heuristics, are covered by P01 only
OUT = ("lp-strong", "qp-strong", "heuristic", "pump", "fathom")
COMBOS = [(c, o) for c, o in enumerate(BB_COMBOS) if not any(t in o for t in OUT)]
ST = {1: "optimal", 2: "optimal", 3: "infeasible"}

def project(j, evs):
    I = j["inst"]; o = I["oracle"]; ni = o["ni"]; out = [{"ev": "inst", "oracle": o}]; seen = set()
    for e in evs:
        if e["ev"] != "nlp" or not e["orig"]: continue
        xl, xu = e["xl"][:ni], e["xu"][:ni]
        t = {"ev": "nlp", "lo": [int(round(v)) for v in xl], "hi": [int(round(v)) for v in xu], "st": ST.get(e["st"], "other"), "v": scaled(e.get("obj", 0)) if e["st"] in (1, 2) else 0,
             "integral": all(abs(v - round(v)) < 1e-6 for v in xl + xu),
             "contsame": all(abs(e["xl"][i] - orig(I, "lb")[i]) < 1e-6 and abs(e["xu"][i] - orig(I, "ub")[i]) < 1e-6 for i in range(ni, I["n"]))}
        k = json.dumps(t)
        if k in seen: continue
        seen.add(k); out.append(t)
    r = next((e for e in evs if e["ev"] == "result"), None); x = evs[-1]
    out[0].update(has=bool(r and r["hasSol"]), obj=scaled(r["bestObj"]) if r and r["hasSol"] else 0)
    out.append({"ev": "end", "sig": x["sig"] or abs(x["rc"]), "exc": r["exc"] if r else "died", "has": bool(r and r["hasSol"]), "obj": scaled(r["bestObj"]) if r and r["hasSol"] else 0})
    return out

def check(ctx):
    drv = build("drv_solve")["drv_solve"]
    for c in ["MCBranchBound"] + (["MCBranchBound2"]):
        r = tlc("MCBranchBound", c, timeout=1500, stats=ctx.st, xmx="8g")
        if not r["ok"]: raise CheckError("design model %s: %s" % (c, r["violated"]))
    ctx.cov["model_states"] = ctx.st.distinct
    k = 24 if ctx.quick else 250; js = []
    for i, (c, o) in enumerate(COMBOS):
        for t in range(k):
            s = (i*k + t)*7 % 3000
            js.append(job("%d/%d" % (s, c), vary(gen.instance(s), s + c), "bonmin.algorithm B-BB\n" + o, record=1))
    for s in range(3000, 3000 + (300 if ctx.quick else 3000)): js.append(job("%d/d" % s, vary(gen.instance(s), s), "bonmin.algorithm B-BB\n", record=1))
    kd = 8 if ctx.quick else 80
    for i, (c, o) in enumerate(COMBOS):
        for t in range(kd): s = (i*kd + t) % 2000; js.append(job("deep%d/%d" % (s, c), vary(gen.instance(s, "deep"), s + c), "bonmin.algorithm B-BB\n" + o, record=1))
    tr = replay(ctx, drv, "TraceBranchBound", js, project)
    n = sum(len(t) - 2 for t in tr.values())
    ctx.cov.update(runs=len(tr), option_sets=len(COMBOS), distinct_relaxations=n, largest_run=max(len(t) for t in tr.values()))
    k = max(tr, key=lambda k: len(tr[k])); ctx.sample({"job": k, "events": tr[k][1:6], "end": tr[k][-1]}); ctx.sample({"job": js[0]["job"], "events": tr[js[0]["job"]][1:]})
    ctx.assume += ["each relaxation's outcome as returned by Ipopt is observed at the solver boundary; the solver itself is trusted only as far as the lattice values computed by TLC do not contradict it",
                   "branching rules that probe with linear or quadratic models and primal heuristics are left to P01"]
