"""P06: the relaxation seen through the solver interface is the problem with the box and rows it was given, copies are independent."""
import random
import gen
from vp import *
LEVEL = "model_checking"
BIG = 100000000
WS = ["none", "optimum", "interior_point", "fake_basis"]

def fn(rng, n, kind):
    Q = gen.quad_zero()
    if kind == "obj":
        for i in range(n): gen.add_sq(Q, {i: 1}, -rng.randint(-4, 5), rng.choice([1, 1, 2]))
        if rng.random() < .6: gen.add_sq(Q, gen.form(rng, list(range(n)), maxn=2), rng.randint(-2, 2))
    elif kind == "q":
        for i in rng.sample(range(n), rng.randint(1, 2)): gen.add_sq(Q, {i: 1}, 0)
        if rng.random() < .4: gen.add_sq(Q, gen.form(rng, list(range(n)), maxn=2), 0)
        gen.add_lin(Q, gen.form(rng, list(range(n))))
    else: gen.add_lin(Q, gen.form(rng, list(range(n))))
    return gen.dump(Q)
def row(rng, n, kind, eq=False):
    r = fn(rng, n, kind)
    if kind == "q": return dict(r, lb=-BIG, ub=rng.randint(3, 14))
    a = rng.randint(-4, 2); lb, ub = rng.choice([(-BIG, a + 4), (a, BIG), (a, a + rng.randint(1, 6)), (a, a) if eq and rng.random() < .5 else (a, a + 5)]); return dict(r, lb=lb, ub=ub)
def cpp(r): return dict(r, lb="-inf" if r["lb"] <= -BIG else r["lb"], ub="inf" if r["ub"] >= BIG else r["ub"])

def make(jid, hist, seed):
    rng = random.Random(seed); n = 3; lo = [rng.randint(-4, -1), 0, rng.randint(-4, 0)]; up = [rng.randint(1, 4), 1, rng.randint(1, 4)]
    con = [row(rng, n, "lin" if rng.random() < .5 else "q", i == 0) for i in range(rng.randint(1, 2))]
    base = {"n": n, "obj": dict(fn(rng, n, "obj"), lb=0, ub=0), "con": con, "lo": lo, "up": up, "ty": ["I", "B", "C"]}
    pool = [row(rng, n, "q" if p == 5 else "lin") for p in range(6)]
    ops = []; ab = []; objs = [{"lo": list(lo), "up": list(up), "rows": 0}]; nws = 0
    def box(v):
        a = rng.randint(lo[v], up[v]); b = rng.randint(a, up[v]); return (a, b)
    def xb(k):
        if k == 1: return [1], [rng.randint(0, 1)], 1           # norm 1: on the binary
        m = rng.randint(1, n); ix = sorted(rng.sample(range(n), m)); return ix, [rng.randint(-4, 4) for _ in ix], 2
    def solve(o, again):      # the first solve after switching problems that reaches Ipopt starts anew
        b = objs[o]; ops.append(["solve", o, 0 if b.get("sw") or b.get("mode") else again]); ab.append({}); b["at"] = 1
        if not b.get("mode") and b["lo"] != b["up"]: b["sw"] = 0
    for h in hist:
        k, o = h[0], h[1] - 1
        if k in ("feas", "getws") and not objs[o].get("at") and not objs[o].get("mode"): solve(o, 1)   # warm starts are taken, and the feasibility problem started, from a solved relaxation
        if k == "bnd": v = h[2] - 1; a, b = box(v); ops.append(["bnd", o, v, a, b, h[4]]); ab.append({"v": v + 1, "lo": a, "up": b}); objs[o]["lo"][v] = a; objs[o]["up"][v] = b
        elif k == "solve": solve(o, h[2])
        elif k == "clone": ops.append(["clone", o]); ab.append({}); objs.append(json.loads(json.dumps(objs[o])))
        elif k == "assign": p = h[2] - 1; ops.append(["assign", o, p]); ab.append({"p": p + 1}); objs[o] = json.loads(json.dumps(objs[p]))
        elif k == "cut": rs = [pool[p-1] for p in h[2]]; ops.append(["cut", o, [cpp(r) for r in rs], h[3]]); ab.append({"rows": rs}); objs[o]["rows"] += len(rs)
        elif k == "del": ix = [i-1 for i in h[2]]; rng.shuffle(ix); ops.append(["del", o, ix]); ab.append({"idx": ix}); objs[o]["rows"] -= len(ix)
        elif k == "type": ops.append(["type", o, h[2]-1, h[3]]); ab.append({"v": h[2], "t": "I" if h[3] else "C"})
        elif k == "setx":
            x = None if h[2] == 0 else [rng.randint(lo[v], up[v]) for v in range(n)]; ops.append(["setx", o, x]); ab.append({"x": x or []}); objs[o].pop("at", 0)
        elif k == "getws" and not objs[o].get("at"): continue
        elif k == "getws": ops.append(["getws", o]); ab.append({}); nws += 1
        elif k == "setws":
            if not nws: continue
            ops.append(["setws", o, rng.randrange(nws)]); ab.append({})
        elif k == "hot" and objs[o].get("mode"): continue
        elif k == "hot":
            solve(o, 1)
            st = []
            for _ in range(rng.randint(1, 3)): v = rng.randrange(n); a, b = box(v); st.append((v, a, b))
            ops.append(["hot", o, [list(s) for s in st]]); ab.append({"steps": [{"v": v + 1, "lo": a, "up": b} for v, a, b in st]})
        elif k in ("feas", "switch"):
            if k == "feas" and objs[o].get("mode"): continue      # the two share the feasibility problem
            ix, x, norm = xb(h[2]); f = {"kind": "dist", "xbar": x, "inds": ix, "norm": norm, "cut": [], "rhs": 0}
            if k == "feas": c = rng.randint(0, 60) if h[2] == 2 else None; f["cut"] = [c] if c is not None else []; ops.append(["feas", o, x, ix, norm, c])
            else:
                r = None
                if h[2] == 2: ix, x, norm = xb(1); r = rng.randint(0, 1); f = {"kind": "loc", "xbar": x, "inds": ix, "norm": 1, "cut": [], "rhs": r}
                ops.append(["switch", o, x, ix, norm, r])
            ab.append({"f": f})
            if k == "switch": objs[o]["sw"] = objs[o]["mode"] = 1
        elif k == "back": objs[o]["sw"] = 1; objs[o]["mode"] = 0; ops.append(["back", o]); ab.append({})
    inst = {"n": n, "type": [2, 1, 0], "lb": lo, "ub": up, "x0": [rng.randint(lo[v], up[v]) for v in range(n)], "obj": base["obj"], "con": [cpp(r) for r in con], "fortran": seed % 3 == 1}
    return {"job": jid, "inst": inst, "ops": ops, "timeout": 60, "opts": "bonmin.warm_start %s\n" % WS[seed % 4] + ("" if any(h[0] in ("switch", "setx") for h in hist) else "bonmin.num_resolve_at_node 1\n" if seed % 7 == 3 else "bonmin.num_resolve_at_root 1\n" if seed % 7 == 5 else ""), "_abs": ab, "_base": base}

def project(j, evs):
    out = []; it = iter(j["_abs"])
    for e in evs:
        if e["ev"] == "start": out += [{"ev": "start", "base": j["_base"]}, {"ev": "look", "objs": e["objs"]}]
        elif e["ev"] == "exit": out.append({"ev": "exit", "sig": e["sig"] or abs(e["rc"])})
        else: e = dict(e); ob = e.pop("objs"); out.append(dict(e, **next(it, {}))); out.append({"ev": "look", "op": e["ev"], "objs": ob})
    return out

def check(ctx):
    drv = build("drv_osi")["drv_osi"]
    r = tlc("MCOsiNlp", timeout=1500, stats=ctx.st)
    if not r["ok"]: raise CheckError("design model MCOsiNlp: %s %s" % (r["violated"], r["out"][-500:]))
    ctx.cov["model_states"] = r["distinct"]
    r = tlc("MCOsiNlp", "GenOsiNlp", simulate=300 if ctx.quick else 4000, depth=40, seed=ctx.seed, workers=4, timeout=900, stats=ctx.st)
    hs = {}
    for s in sorted(set(printed(r["out"], "HIST"))): h = json.loads(json.loads(s)); hs[json.dumps(h[:-1])] = h
    hs = [hs[k] for k in sorted(hs)]
    js = [make("h%d" % i, h, ctx.seed*100000 + i) for i, h in enumerate(hs)]
    tr = replay(ctx, drv, "TraceOsiNlp", js, project)
    n = {}; st = {}
    for t in tr.values():
        for e in t:
            n[e["ev"]] = n.get(e["ev"], 0) + 1
            if e.get("op") in ("solve", "feas"):
                for b in e["objs"]: st[b["st"]] = st.get(b["st"], 0) + 1
    ctx.cov.update(histories=len(js), operations=n, statuses=st)
    for k in list(tr)[:2]: ctx.sample(tr[k][:5])
    ctx.assume += ["problems are convex quadratic with small integer data; points and multipliers are compared to three digits", "Ipopt is trusted to converge on them"]
