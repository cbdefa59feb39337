"""P10: every option the user gives, whatever way, reaches the setup, its copies and the search; precedence, refusals, defaults and presets."""
import gen
from vp import *
LEVEL = "model_checking"
NUM = {"cutoff", "cutoff_decr", "allowable_gap", "allowable_fraction_gap", "integer_tolerance", "time_limit"}
STR = {"nlp_failure_behavior", "node_comparison", "tree_search_strategy", "algorithm", "variable_selection", "heuristic_RINS", "heuristic_dive_fractional", "heuristic_dive_vectorLength", "heuristic_dive_MIP_vectorLength", "heuristic_dive_MIP_fractional", "heuristic_feasibility_pump"}
def asg(a): return [("bonmin." if a[0] else "") + ("2mir_cuts" if a[1] == "two_mir_cuts" else a[1]), "num" if a[1] in NUM else "str" if a[1] in STR else "int", a[2]]
def problem(seed, binary):
    i = gen.instance(seed, "deep")
    return dict(i, type=[1 if t else 0 for t in i["type"]], lb=[0 if t else a for t, a in zip(i["type"], i["lb"])], ub=[1 if t else b for t, b in zip(i["type"], i["ub"])], x0=[0 if t else x for t, x in zip(i["type"], i["x0"])]) if binary else i
def make(jid, h, k):
    st = h[-1]; ops = [{"src": o["src"], "set": [asg(a) for a in o["set"]]} for o in h[:-1]]
    j = {"job": jid, "inst": problem(3 + k % 5, k % 2), "api": "tminlp" if st["file"] or k % 3 else "osi", "ops": ops, "timeout": 60, "_h": h}
    if st["file"]: j["optfile"] = "".join("%s %s\n" % (asg(a)[0], a[2]) for a in st["set"])
    return j
def general(i): return any(t == 2 and not (a == 0 and b == 1) for t, a, b in zip(i["type"], i["lb"], i["ub"]))
def left(v): return next((t for t in ("100", "77.5") if float(t) - 5 <= float(v) <= float(t)), v)     # initialising the LP-based algorithms uses up some of the time
def project(j, evs):
    h = j["_h"]; out = [{"ev": "new"}]; k = 0
    for e in evs:
        if e["ev"] == "op": out.append({"ev": "give", "src": e["src"], "set": h[k]["set"], "refused": e["refused"]}); k += 1
        elif e["ev"] == "report":
            out.append({"ev": "start", "file": h[-1]["file"], "set": h[-1]["set"], "refused": False})
            drop = lambda d: {a: left(b) if a == "time_limit" else b for a, b in d.items() if a != "sos_constraints"}
            out.append({"ev": "report", "exc": e["exc"], "setup": drop(e.get("setup", {})), "copy": drop(e.get("copy", {})), "search": e.get("search", {}), "cuts": [[c[0], str(c[1])] for c in e.get("cuts", [])], "ccuts": [[c[0], str(c[1])] for c in e.get("ccuts", [])], "general": general(j["inst"]), "heur": e.get("heur", [])})
        elif e["ev"] == "exit":
            if e["sig"] or e["rc"]: out.append({"ev": "died", "sig": e["sig"] or abs(e["rc"])})
        else: out.append({"ev": e["ev"]})
    return out
def check(ctx):
    drv = build("drv_opts")["drv_opts"]
    ctx.cov["model_states"] = 0
    for cfg in ("MCOptions", "MCOptionsAlgo"):
        r = tlc("MCOptions", cfg, timeout=600, stats=ctx.st)
        if not r["ok"]: raise CheckError("design model %s: %s %s" % (cfg, r["violated"], r["out"][-500:]))
        ctx.cov["model_states"] += r["distinct"]
    r = tlc("MCOptions", "GenOptions", simulate=1500 if ctx.quick else 40000, depth=10, seed=ctx.seed, workers=1, timeout=900, stats=ctx.st)
    hs = {}
    for s in sorted(set(printed(r["out"], "HIST"))): h = json.loads(json.loads(s)); hs[json.dumps(h[:-1])] = h
    hs = [hs[k] for k in sorted(hs)]
    js = [make("o%d" % i, h, ctx.seed + i) for i, h in enumerate(hs)]
    tr = replay(ctx, drv, "TraceOptions", js, project)
    n = {}; used = set(); algos = {}
    for t in tr.values():
        for e in t:
            n[e["ev"] + ("/refused" if e.get("refused") else "")] = n.get(e["ev"] + ("/refused" if e.get("refused") else ""), 0) + 1
            if e["ev"] in ("give", "start"): used |= {(a[1], a[2]) for a in e["set"]}
            if e["ev"] == "report": a = e["setup"].get("algorithm", "?"); algos[a] = algos.get(a, 0) + 1
    ctx.cov.update(histories=len(js), events=n, option_values=len(used), algorithms=algos)
    for k in list(tr)[:2]: ctx.sample(tr[k][:5])
    ctx.assume += ["option ranges are sampled: some legal and some illegal texts of each option", "Ipopt's option registry is trusted to store what it accepts"]
