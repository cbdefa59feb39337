"""P03: one consistent final report, however the run ends."""
import gen
from common import *
from vp import *
LEVEL = "model_checking"
FATAL = {-4, -1, -5, -2}

def scenarios(quick):
    js = []
    def add(name, inst, o, **k): js.append(job("%d:%s" % (len(js), name), inst, o, record=1, **k))
    N = 30 if quick else 300
    for s in range(N):
        for a in ["B-BB"] + LPB:
            base = "bonmin.algorithm %s\n" % a + ("" if a == "B-BB" else MF)
            I = vary(gen.instance(s if s not in (55, 118) else 10000 + s, "deep" if s % 2 else None), s); C = gen.instance(s, "cont")
            for n in (0, 1, 3): add("node%d" % n, I, base + "bonmin.node_limit %d\n" % n, limited=True)
            add("solutions", I, base + "bonmin.solution_limit %d\n" % (1 + s % 2), limited=True)
            add("iterations", I, base + "bonmin.iteration_limit %d\n" % (s % 40), limited=True)
            add("time0", I, base + "bonmin.time_limit 0\n", limited=True); add("time", I, base + "bonmin.time_limit %g\n" % (0.005*(1 + s % 9)), limited=True)
            add("cutoff", I, base + "bonmin.cutoff %d\n" % (s % 41 - 20)); add("gap", I, base + "bonmin.allowable_gap 3\n", gap=True)
            add("plain", I, base); add("continuous", C, base); add("tminlp", I, base, api="tminlp"); add("contapi", C, base, api="tminlp")
            U = dict(C, lb=["-inf"]*C["n"], ub=["inf"]*C["n"]); U["obj"] = {"q": [], "l": [[i, -1 - i] for i in range(C["n"])], "k": 0}; U["con"] = []
            add("unbounded", U, base)
            for st in (-3, -8, -7, -2, -4, -1, 3, 4):
                k = (s + st) % 9
                add("fail%d@%d" % (st, k), I, base, inject=[[k, st]])
                if st in (-3, -2): add("cfail%d" % st, C, base, inject=[[0, st]]); add("allfail%d" % st, I, base + "bonmin.node_limit 200\n", inject=[], injectAll=st, limited=True)
            for q in (s % 5, 3*s % 17): add("interrupt%d" % q, I, base, sigint=q)
            add("interrupte%d" % s, I, base, sigeval=7*s % 60); add("cinterrupt", C, base, sigint=0)
            add("fathom", I, base + "bonmin.nlp_failure_behavior fathom\nbonmin.max_consecutive_failures 1\nbonmin.node_limit 300\n", inject=[[k, -8] for k in range(s % 7, 60, 2)], limited=True)
    return js

def fx(v): return scaled(v)
def project(j, evs):
    I = j["inst"]; ints = [i for i, t in enumerate(orig(I, "type")) if t]
    out = [{"ev": "job", "limited": bool(j.get("limited"))}]
    for e in evs:
        if e["ev"] == "started": out.append({"ev": "started"})
        elif e["ev"] == "nlp":
            t = {"ev": "nlp", "class": "fatal" if e["st"] in FATAL else "fine" if e["st"] in (1, 2, 3) else "recoverable"}
            if out[-1] != t: out.append(t)
        elif e["ev"] == "finalize": out.append({"ev": "finalize", "st": e["st"], "has": e["has"], "n": e["n"], "ncols": I["n"], "obj": fx(e["obj"]), "x": [fx(v) for v in e.get("x", [])]})
        elif e["ev"] == "result":
            x = e.get("x", [])
            out.append({"ev": "return", "exc": e["exc"], "mip": e["mip"], "has": e["hasSol"], "obj": fx(e["bestObj"]), "bound": fx(e["bestBound"]), "x": [fx(v) for v in x], "fx": fx(e.get("fx", 0)), "otol": max(20, int(abs(fx(e.get("fx", 0)))*1e-6)),
                        "viol": int(min(2e9, e["viol"]*1e6)), "intdist": [int(min(1e9, abs(x[i] - round(x[i]))*1e6)) for i in ints] if x else [], "nodes": e["nodes"], "gap": bool(j.get("gap"))})
        elif e["ev"] == "exit": out.append({"ev": "exit", "sig": e["sig"] or abs(e["rc"])})
        else: out.append({"ev": e["ev"]})
    return out

def check(ctx):
    drv = build("drv_solve")["drv_solve"]
    r = tlc("MCOutcome", timeout=600, stats=ctx.st)
    if not r["ok"]: raise CheckError("design model MCOutcome: %s" % r["violated"])
    js = scenarios(ctx.quick); tr = replay(ctx, drv, "TraceOutcome", js, project)
    ends = {}
    for j in js:
        t = tr.get(j["job"])
        if t:
            f = [e["st"] for e in t if e["ev"] == "finalize"]; k = j["job"].split(":")[1].split("@")[0].rstrip("0123456789.-") + "->" + ",".join(map(str, f)); ends[k] = ends.get(k, 0) + 1
    ctx.cov.update(runs=len(tr), endings=ends); ctx.sample(tr[js[0]["job"]]); ctx.sample(tr[js[20]["job"]])
    ctx.assume += ["failures of relaxations are injected by replacing the status returned by the NLP solver after it ran"]
