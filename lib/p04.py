"""P04: limits, gaps and cutoffs."""
import gen, json
from common import *
from vp import *
LEVEL = "model_checking"
HARD = {55, 118}
OAGAP = ("B-OA", "B-Hyb")   # outer approximation gives up a subtree once it is within the gap: the bound is then the incumbent value

def jobs(quick):
    js = []
    N = 60 if quick else 700
    for s in range(N):
        if s in HARD: continue
        for d in ("", "deep"):
            I = vary(gen.instance(s, d or None), s)
            o, _ = gen.pyopt(I); opt = o[0] if o else 0
            for ai, a in enumerate(["B-BB"] + LPB):
                if d == "" and a == "B-iFP" and s % 2: continue
                base = "bonmin.algorithm %s\n" % a + ("" if a == "B-BB" else MF)
                def add(name, o, mode, ev=None, **k): js.append(dict(job("%s%d/%s/%s" % (d, s, a, name), I, base + opts(o), **k), mode=mode, evk=ev or {}))
                def lim(name, o, ev=None): add(name, o, "stopped", dict(ev or {}, seen=not (a == "B-BB" and name == "time")), record=1)   # a heuristic out of time may drop its point
                n = (s + ai) % 7
                lim("node%d" % n, "node_limit %d" % n, {"nlim": n}); lim("node%d" % (2*n + 9), "node_limit %d" % (2*n + 9), {"nlim": 2*n + 9})
                if a == "B-BB":
                    t = ["dive", "probed-dive", "dfs-dive", "dfs-dive-dynamic", "top-node"][s % 5]
                    lim("node-" + t, "node_limit %d; tree_search_strategy %s" % (n, t), {"nlim": n})
                lim("sol", "solution_limit %d" % (1 + s % 3), {"slim": 1 + s % 3, "sstrict": a not in ("B-Hyb", "B-iFP")})
                if a == "B-BB": lim("sol1", "solution_limit 1; heuristic_feasibility_pump no; node_comparison depth-first", {"slim": 1, "sstrict": True})
                lim("iter", "iteration_limit %d" % (3*s % 97))
                lim("time", "time_limit %g" % (0.004*(1 + s % 8)))
                add("off", ("solution_limit 0", "iteration_limit 0", "solution_limit 0; iteration_limit 0")[s % 3], "exact")   # 0 deactivates
                for dc in (-6, -1, 0, 1, 7)[s % 2::2] + (0.5, -0.5)[s % 2:s % 2 + 1]:
                    add("cut%g" % dc, "cutoff %g" % (opt + dc), "cutoff", {"cut": opt + dc})
                add("sig", "", "stopped", sigint=5*s % 23); add("sige", "", "stopped", sigeval=11*s % 160)
                g = (0.5, 2, 5)[s % 3]; add("gap%g" % g, "allowable_gap %g" % g, "gap", {"gap": g, "slack": a in OAGAP})
                f = (0.05, 0.3)[s % 2]; add("fgap%g" % f, "allowable_fraction_gap %g" % f, "gap", {"gap": f*(abs(opt) + 1)/(1 - f) + 1e-3, "slack": a in OAGAP})
                cd = (0.9, 3)[s % 2]
                if a == "B-BB": add("decr%g" % cd, "cutoff_decr %g" % cd, "gap", {"gap": cd, "slack": True})   # the search is exhaustive up to the decrement only
    return js

TL = 2
def long_jobs(quick):
    gs = []
    for s in range(3 if quick else 30):
        I = gen.long_instance(s, width=0 if s % 3 == 2 else 25, n=32 if s % 3 == 2 else 24 + s % 5, m=4 if s % 3 == 2 else 3); js = []
        for a in ["B-BB"] + LPB:
            base = "bonmin.algorithm %s\n" % a + ("" if a == "B-BB" else MF) + opts("time_limit %d" % TL)
            def add(o, **k): js.append(dict(job("long%d/%s/%s" % (s, a, o), I, base + opts(o), timeout=90, record=1), lim=dict({"tlim": 100*TL, "nlim": -1, "ilim": -1, "slim": -1}, **k)))
            add("")
            if s % 3 == 2: continue
            add("iteration_limit 300", ilim=300); add("node_limit 60", nlim=60); add("solution_limit 2", slim=2)
            if a == "B-BB":
                for o in ("heuristic_RINS yes; heuristic_dive_fractional yes", "pump_for_minlp yes", "tree_search_strategy dive", "heuristic_dive_MIP_fractional yes", "variable_selection strong-branching; number_before_trust 100; node_limit 20"):
                    add(o, **({"nlim": 20} if "node_limit" in o else {}))
        gs.append(("long%d" % s, js))
    return gs
def long_event(j, evs):
    ex = evs[-1]; r = next((e for e in evs if e.get("ev") == "result"), None); I = j["inst"]; b = seen_point(I, evs)
    e = dict({"ev": "run", "job": j["job"], "sig": ex["sig"] if ex["sig"] else (0 if ex["rc"] == 0 else 1000 + abs(ex["rc"])), "exc": "died", "mip": -1, "has": False, "obj": 0, "bound": 0, "fx": 0, "viol": 0, "frac": 0,
              "cpu": 0, "nodes": 0, "its": 0, "nsol": 0, "slack": 1000, "islack": 300, "sslack": 1, "seen": 2000000000 if b is None or "/B-BB/" in j["job"] else scaled(b)}, **j["lim"])
    if r is not None:
        e.update(exc=r["exc"], mip=r["mip"], has=r["hasSol"], obj=scaled(r["bestObj"]), bound=scaled(r["bestBound"]), nodes=r["nodes"], its=r["its"], nsol=r.get("nsol", 0), cpu=int(100*r.get("cpu", 0)), fx=scaled(r.get("fx", 0)), viol=scaled(r["viol"]))
        if r["hasSol"]: e["frac"] = scaled(max(abs(v - round(v)) for v, t in zip(r["x"], I["type"]) if t))
    return e
def check_long(ctx, drv):
    gs = long_jobs(ctx.quick); flat = [j for _, js in gs for j in js]; res = dict(zip([j["job"] for j in flat], run_jobs(drv, flat)))
    def tr(js, res): return [{"ev": "problem"}] + [long_event(j, res[j["job"]]) for j in js if res.get(j["job"])]
    groups = [(k, tr(js, res)) for k, js in gs]; by = dict(gs)
    for k, idx, ev in validate(ctx, "TraceLong", groups)[:2]:
        again = tr(by[k], dict(zip([j["job"] for j in by[k]], run_jobs(drv, by[k], nproc=2))))
        r = validate(ctx, "TraceLong", [(k, again)])
        if r: ctx.violation("%s rejected by TraceLong: %s" % (r[0][2].get("job"), json.dumps(r[0][2])[:400]), {"jobs": by[k], "index": r[0][1], "event": r[0][2]})
    ctx.cov["long_runs"] = sum(len(g) - 1 for _, g in groups)
    return groups

def check(ctx):
    drv = build("drv_solve")["drv_solve"]
    js = jobs(ctx.quick)
    def project(j, evs): return [{"ev": "inst", "oracle": j["inst"]["oracle"]}, run_event(j["inst"], evs, j["mode"], **j["evk"])]
    tr = replay(ctx, drv, "TraceAnswers", js, project)
    k = {}
    for j in js:
        if j["job"] in tr: e = tr[j["job"]][1]; t = "%s/%s/%d" % (j["mode"], j["job"].split("/")[2].rstrip("0123456789.-"), e["mip"]); k[t] = k.get(t, 0) + 1
    check_long(ctx, drv)
    ctx.cov.update(runs=len(tr), outcomes=k)
    for j in js[:2]: ctx.sample({"job": j["job"], "opts": j["opts"], "event": tr[j["job"]][1]})
    ctx.assume += ["cutoff_decr is only exercised with B-BB: the outer-approximation generators apply it relative to the objective value","problems as in P01; TLC computes the optimum against which limits, gaps and cutoffs are judged"]
