"""P09: a relaxation that could not be solved is never taken for an infeasible one, unless the user asked for that."""
import random
import gen
from common import *
from vp import *
LEVEL = "model_checking"
FATAL = {-4, -1, -5, -2}
STRICT = [opts(s) for s in ["variable_selection most-fractional", "variable_selection osi-simple", "variable_selection random", "variable_selection most-fractional; tree_search_strategy probed-dive",
                            "variable_selection most-fractional; tree_search_strategy dfs-dive", "variable_selection most-fractional; node_comparison depth-first", "variable_selection most-fractional; warm_start optimum", "variable_selection most-fractional; warm_start interior_point"]]
LOOSE = [opts(s) for s in ["", "variable_selection nlp-strong-branching", "variable_selection osi-strong", "num_resolve_at_root 2; num_resolve_at_node 1", "variable_selection most-fractional; num_resolve_at_node 2", "heuristic_dive_fractional yes", "variable_selection qp-strong-branching", "variable_selection lp-strong-branching"]]

def jobs(n, seed):
    js = []
    for i in range(n):
        rng = random.Random(seed + i); s = 60000 + seed % 100000 + i; kind = rng.choice([None, "deep", "deep", "mixed", "int", "bin"])
        a = "B-BB" if i % 3 else rng.choice(["B-OA", "B-QG", "B-Hyb", "B-Ecp"])
        strict = a == "B-BB" and rng.random() < .75
        o = rng.choice(STRICT if strict else LOOSE) if a == "B-BB" else MF
        pol = rng.choice(["stop", "stop", "fathom"]); N = rng.choice([0, 0, 1, 3]); inj = []; span = rng.choice([3, 8, 20, 40])
        for _ in range(rng.randint(1, 3)):
            k = rng.randint(0, span); st = rng.choice([-3, -8, -6, -7] + ([-2, -4] if rng.random() < .1 else [-3])); inj += [[k + t, st] for t in range(rng.choice([1, 1, 2, 2, 3, N + 2, N + 2]))]
        if pol == "fathom" and rng.random() < .3: inj = [[k, -3] for k in range(rng.randint(0, 6), 60, rng.randint(1, 5))]
        js.append(job("f%d" % i, vary(gen.instance(s, kind), s), "bonmin.algorithm %s\n" % a + o + "bonmin.nlp_failure_behavior %s\nbonmin.num_retry_unsolved_random_point %d\n" % (pol, N), record=1, timeout=40, inject=inj, _pol=pol, _n=N, _strict=strict))
    return js
def project(j, evs):
    I = j["inst"]; o = I["oracle"]; ni = o["ni"]; out = [{"ev": "inst", "oracle": o, "strict": j["_strict"], "policy": j["_pol"], "retries": j["_n"]}]
    for e in evs:
        if e["ev"] == "nlp" and e["orig"]:
            out.append({"ev": "nlp", "lo": [int(round(v)) for v in e["xl"][:ni]], "hi": [int(round(v)) for v in e["xu"][:ni]], "class": "fatal" if e["st"] in FATAL else "fine" if e["st"] in (1, 2, 3, 4) else "failed"})
    r = next((e for e in evs if e["ev"] == "result"), None); x = evs[-1]
    out.append({"ev": "return", "lp": "B-BB" not in j["opts"], "sig": x["sig"] or abs(x["rc"]), "exc": r["exc"] if r else "died", "mip": r["mip"] if r else -1, "has": bool(r and r["hasSol"]), "obj": scaled(r["bestObj"]) if r and r["hasSol"] else 0,
                "xi": [scaled(v) for v in r["x"][:ni]] if r and r["hasSol"] else []})
    return out
def check(ctx):
    drv = build("drv_solve")["drv_solve"]
    r = tlc("MCFailures", timeout=600, stats=ctx.st)
    if not r["ok"]: raise CheckError("design model MCFailures: %s" % r["violated"])
    ctx.cov["model_states"] = r["distinct"]
    js = jobs(2400 if ctx.quick else 24000, ctx.seed*1000000); tr = replay(ctx, drv, "TraceFailures", js, project); c = {}
    for t in tr.values():
        k = "%s %s %s" % ("strict" if t[0]["strict"] else "loose", t[0]["policy"], t[-1]["exc"]); c[k] = c.get(k, 0) + 1
    ctx.cov.update(runs=len(tr), endings=c, failed_attempts=sum(1 for t in tr.values() for e in t if e.get("class") == "failed"))
    k = next(iter(tr)); ctx.sample(tr[k][:6])
    ctx.assume += ["failures are injected by replacing the status the NLP solver returns", "a time limit reached inside one NLP is left to P04"]
