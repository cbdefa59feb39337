"""P08: linearisations keep every feasible point and are tight where they are made."""
import random
import gen, p06
from common import LPB, LP_COMBOS
from vp import *
LEVEL = "model_checking"
BIG = 100000000
OPTS = ["", "", "", "bonmin.tiny_element 3\n", "bonmin.tiny_element 1.5\n", "bonmin.cut_strengthening_type sglobal\n", "bonmin.oa_cuts_log_level 1\n"]

def make(jid, hist, seed):
    rng = random.Random(seed); n = 3; lo = [rng.randint(-4, 1), rng.choice([0, 0, 0, -2]), rng.randint(-4, 1)]; up = [rng.randint(lo[0] + 1, 4), 1, rng.randint(lo[2] + 1, 4)]
    con = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .7:
            r = p06.fn(rng, n, "q")
            if rng.random() < .3: r = {"q": [[i, j, -c] for i, j, c in r["q"]], "l": [[i, -c] for i, c in r["l"]], "k": r["k"]}; b = dict(r, lb=-rng.randint(3, 16), ub=BIG)
            else: b = dict(r, lb=-BIG, ub=rng.randint(3, 16))
        else: b = p06.row(rng, n, "lin")
        con.append(b)
    o = p06.fn(rng, n, "obj") if rng.random() < .6 else p06.fn(rng, n, "lin")
    if not o["q"]: o["k"] = rng.randint(-3, 3)
    ty = ["I", "B" if lo[1] == 0 else "I", "C"]
    base = {"n": n, "obj": dict(o, lb=0, ub=0), "con": con, "lo": lo, "up": up, "ty": ty}
    opt = OPTS[seed % len(OPTS)]
    pool = [p06.row(rng, n, "q" if p == 5 and "sglobal" not in opt else "lin") for p in range(6)]   # strengthening knows the rows of the user's problem only
    ops = []; ab = []; objs = [{"lo": list(lo), "up": list(up), "nr": len(con), "at": 0}]
    pt = lambda b=None: [rng.randint(lo[v], up[v]) for v in range(n)]
    def solve(o): ops.append(["solve", o, 0]); ab.append({}); objs[o]["at"] = 2
    for h in hist:
        k, o = h[0], h[1] - 1; b = objs[o]
        nox = k in ("bend", "coa") or (k == "oa" and h[2] % 4 == 0) or (k == "relax" and h[2] < 2)
        if k in ("oa", "coa", "relax", "bend") and b["at"] < 1 + nox: solve(o)            # the code reads the multipliers of a solve
        if k == "bnd":
            v = h[2] - 1; a = rng.randint(lo[v], up[v]); c = rng.choice([a, rng.randint(a, up[v])]); ops.append(["bnd", o, v, a, c, rng.randint(0, 2)]); ab.append({"v": v + 1, "lo": a, "up": c}); b["lo"][v] = a; b["up"][v] = c; b["at"] = min(b["at"], 1)
        elif k == "solve": solve(o)
        elif k == "clone": ops.append(["clone", o]); ab.append({}); objs.append(json.loads(json.dumps(b)))
        elif k == "assign": p = h[2] - 1; ops.append(["assign", o, p]); ab.append({"p": p + 1}); objs[o] = json.loads(json.dumps(objs[p]))
        elif k == "cut": rs = [pool[p-1] for p in h[2]]; ops.append(["cut", o, [p06.cpp(r) for r in rs], 0]); ab.append({"rows": rs}); b["nr"] += len(rs); b["at"] = 0
        elif k == "del": ix = [i-1 for i in h[2]]; ops.append(["del", o, ix]); ab.append({"idx": ix}); b["nr"] -= len(ix); b["at"] = 0
        elif k == "oa":
            x = None if h[2] % 4 == 0 else pt(); g = rng.choice([0, 1, 1, 2]); x2 = pt() + [rng.randint(-20, 60)] if x and h[2] % 5 == 1 else None; th = rng.choice([0, 1, 3]); gl = rng.random() < .7
            ops.append(["oa", o, x, g, x2, th + .5, gl]); ab.append({"g": g, "y": x or [], "x2": x2[:n] if x2 else [], "theta": th, "global": gl})
        elif k == "coa": j = rng.randrange(b["nr"]); gl = rng.random() < .7; ops.append(["coa", o, j, None if h[2] == 0 else pt(), gl]); ab.append({"row": j, "global": gl})
        elif k == "relax": g = rng.choice([0, 1, 1]); ops.append(["relax", o, None if h[2] < 2 else pt(), g]); ab.append({"g": g})
        elif k == "bend": gl = rng.random() < .7; ops.append(["bend", o, gl]); ab.append({"global": gl})
    inst = {"n": n, "type": [2, 1 if ty[1] == "B" else 2, 0], "lb": lo, "ub": up, "x0": pt(), "obj": base["obj"], "con": [p06.cpp(r) for r in con], "fortran": seed % 3 == 1}
    return {"job": jid, "inst": inst, "ops": ops, "timeout": 60, "nolook": True, "opts": opt, "_abs": ab, "_base": base}

def project(j, evs):
    out = []; it = iter(j["_abs"])
    for e in evs:
        if e["ev"] == "start": out.append({"ev": "start", "base": j["_base"], "exact": not ("tiny" in j["opts"] or "sglobal" in j["opts"])})
        elif e["ev"] == "exit": out.append({"ev": "exit", "sig": e["sig"] or abs(e["rc"])})
        else: out.append(dict(e, **next(it, {})))
    return out

NLP_COMBOS = ["bonmin.nlp_solve_frequency 1\nbonmin.nlp_solves_per_depth 1e100\nbonmin.nlp_solve_max_depth 100\n" + o for o in ["", "bonmin.oa_cuts_scope local\n", "bonmin.add_only_violated_oa yes\n"]]
def runs(ctx, per, base_seed):
    """Whole runs with the cut generators of every algorithm logged."""
    js = []; s = base_seed
    for k in range(per):
        for a in LPB:
            for c, o in enumerate(LP_COMBOS + NLP_COMBOS):
                s += 1; m = make("x", [], s); b = m["_base"]
                while all(not r["q"] for r in b["con"]) and not b["obj"]["q"]: s += 1; m = make("x", [], s); b = m["_base"]
                js.append({"job": "g%d_%s_%d" % (k, a, c), "inst": m["inst"], "opts": "bonmin.algorithm %s\n" % a + o, "api": "tminlp", "timeout": 30, "cuts": 40, "_base": b})
    return js
def project_run(j, evs):
    out = [{"ev": "start", "base": j["_base"], "exact": True}]
    for e in evs:
        if e["ev"] == "gcut":
            e = dict(e); e["nlo"] = [-(-v // 1000) for v in e.pop("lo")]; e["nup"] = [v // 1000 for v in e.pop("up")]; out.append(e)
    return out
def hists(ctx, num):
    r = tlc("MCCuts", "GenCuts", simulate=num, depth=40, seed=ctx.seed, workers=4, timeout=900, stats=ctx.st)
    hs = {}
    for s in sorted(set(printed(r["out"], "HIST"))): h = json.loads(json.loads(s)); hs[json.dumps(h[:-1])] = h
    return [hs[k] for k in sorted(hs)]

def check(ctx):
    drv = build("drv_osi")["drv_osi"]
    r = tlc("MCCuts", timeout=1500, stats=ctx.st)
    if not r["ok"]: raise CheckError("design model MCCuts: %s %s" % (r["violated"], r["out"][-500:]))
    ctx.cov["model_states"] = r["distinct"]
    js = [make("c%d" % i, h, ctx.seed*100000 + i) for i, h in enumerate(hists(ctx, 300 if ctx.quick else 3000))]
    tr = replay(ctx, drv, "TraceCuts", js, project)
    n = {}; nc = 0
    for t in tr.values():
        for e in t: n[e["ev"]] = n.get(e["ev"], 0) + 1; nc += len(e.get("cuts", []))
    ctx.cov.update(histories=len(js), operations=n, cuts=nc)
    drv = build("drv_solve")["drv_solve"]
    js = runs(ctx, 3 if ctx.quick else 20, ctx.seed*1000000)
    t2 = replay(ctx, drv, "TraceCuts", js, project_run); g = {}
    for t in t2.values():
        for e in t:
            if e["ev"] == "gcut": g[e["gen"]] = g.get(e["gen"], 0) + len(e["cuts"])
    ctx.cov.update(runs=len(js), generated_cuts=g)
    for k in list(tr)[:2]: ctx.sample(tr[k][:5])
    ctx.assume += ["nonlinear rows are convex quadratic with small integer data; every lattice point of the box is tried against every cut"]
