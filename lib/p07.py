"""P07: the NLPs handed to the NLP solver are the problem they stand for."""
import random
from vp import *
LEVEL = "model_checking"
BIG = 100000000

def qrow(rng, n, kind):
    q = {}; l = {}
    if kind != "lin":
        for _ in range(rng.randint(1, 3)):
            i, j = sorted((rng.randrange(n), rng.randrange(n))); q[(i, j)] = rng.choice([-4, -2, 2, 4, 6]) if i != j else rng.choice([-3, -1, 1, 2])
    for i in rng.sample(range(n), rng.randint(0 if q else 1, n)): l[i] = rng.choice([-3, -2, -1, 1, 2])
    return {"q": [[i, j, c] for (i, j), c in sorted(q.items())], "l": [[i, c] for i, c in sorted(l.items())], "k": 0}
def bounded(rng, r):
    a = rng.randint(-9, 5); lb, ub = rng.choice([(-BIG, a), (a, BIG), (a, a + rng.randint(1, 6)), (a, a)]); return dict(r, lb=lb, ub=ub)
def cpp(r): return dict(r, lb="-inf" if r["lb"] <= -BIG else r["lb"], ub="inf" if r["ub"] >= BIG else r["ub"])

def make(jid, hist, seed):
    rng = random.Random(seed); n = 3
    base = {"n": n, "obj": bounded(rng, qrow(rng, n, rng.choice(["lin", "q"]))), "con": [bounded(rng, qrow(rng, n, rng.choice(["lin", "q", "q"]))) for _ in range(rng.randint(1, 3))], "lo": [rng.randint(-3, 0) for _ in range(n)], "up": [rng.randint(1, 4) for _ in range(n)]}
    base["scale"] = rng.choice([1, 100]); base["obj"]["k"] = rng.randint(-3, 3)
    user = base
    if seed % 3 == 2:                             # the objective moved into the rows: minimise z with f(x) - z <= 0
        f = base["obj"]; f = {"q": f["q"], "l": f["l"] + [[n, -1]], "k": f["k"], "lb": -BIG, "ub": 0}
        base = dict(base, n=n+1, obj={"q": [], "l": [[n, 1]], "k": 0, "lb": 0, "ub": 0}, con=[f] + base["con"], lo=base["lo"] + [-BIG], up=base["up"] + [BIG], wrap=1); n += 1
    pool = []
    for p in range(6):
        r = bounded(rng, qrow(rng, n, "lin" if p % 3 == 0 else "q"))
        if r["q"]: r["k"] = rng.choice([0, 0, 3, -2])
        pool.append((r, rng.randrange(3)))
    ops = []; evs = []; rows = [0]                # evs: the abstract side of every operation
    def pt(): return [rng.randint(-3, 4) for _ in range(n)]
    def look(k=None):
        for o in ([k] if k is not None else range(len(rows))):
            for fp in (0, 1):
                x = pt(); of = rng.choice([1, 1, 0, 2]); ops.append(["eval", o, fp, x, of, rng.randint(0, 6)]); evs.append({})
    look()
    for h in hist:
        k, o = h[0], h[1] - 1
        if k == "add":
            x = pt(); rs = [pool[p-1] for p in h[3]]; ops.append(["add", o, h[2], [dict(cpp(r), type=t) for r, t in rs], x])
            evs.append({"rows": [r for r, _ in rs], "how": h[2], "isq": [bool(r["q"]) for r, _ in rs], "x": x}); rows[o] += len(rs)
        elif k == "del": ix = [i-1 for i in h[2]]; rng.shuffle(ix); ops.append(["del", o, ix, rows[o]]); evs.append({"idx": ix}); rows[o] -= len(ix)
        elif k == "clone": ops.append(["clone", o]); evs.append({}); rows.append(rows[o])
        elif k == "lin": c = [h[2], h[3]] + [rng.randint(-2, 2) for _ in range(n-2)]; ops.append(["lin", o, c, h[4]]); evs.append({"c": c, "c0": h[4]})
        elif k == "reset": ops.append(["reset", o]); evs.append({})
        elif k == "bnd": w = rng.randrange(3); ops.append(["bnd", o, h[2], h[3] if w != 1 else None, h[4] if w != 2 else None]); evs.append({"i": h[2], "setlo": w != 1, "setup": w != 2, "lo": h[3], "up": h[4]})
        elif k == "bnds": lo = [rng.randint(-3, 0) for _ in range(n)]; up = [rng.randint(1, 4) for _ in range(n)]; ops.append(["bnds", o, lo, up, h[2]]); evs.append({"lo": lo, "up": up, "which": h[2]})
        elif k == "fp":
            f = dict(h[2]); m = rng.randint(1, n); f["inds"] = sorted(rng.sample(range(n), m)); f["xbar"] = [rng.randint(0, 1) if f["norm"] == 1 or f["local"] else rng.randint(-2, 3) for _ in range(m)]
            if f["cutoff"]: f["cutoff"] = [rng.choice([0, rng.randint(-9, 9), 120])]
            if f["local"]: f["local"] = [rng.randint(0, 3)]
            ops.append(["fp", o, dict(f, cutoff=f["cutoff"][0] if f["cutoff"] else None, local=f["local"][0] if f["local"] else None)]); evs.append({"fp": f})
        look()
    inst = {"n": 3, "type": [2, 2, 0], "lb": user["lo"], "ub": user["up"], "x0": [0]*3, "obj": user["obj"], "con": [cpp(r) for r in user["con"]], "fortran": seed % 2 == 1}
    return {"job": jid, "inst": inst, "ops": ops, "timeout": 30, "wrap": n - 3, "scale": base["scale"], "_abs": evs, "_base": base}

def project(j, evs):
    out = []; it = iter(j["_abs"])
    for e in evs:
        if e["ev"] == "start": out.append({"ev": "start", "base": j["_base"]})
        elif e["ev"] == "exit": out.append({"ev": "exit", "sig": e["sig"] or abs(e["rc"])})
        else: out.append(dict(e, **next(it, {})))
    return out

def check(ctx):
    drv = build("drv_nlp")["drv_nlp"]
    r = tlc("MCNlpView", timeout=1500, stats=ctx.st, env={})
    if not r["ok"]: raise CheckError("design model MCNlpView: %s %s" % (r["violated"], r["out"][-500:]))
    ctx.cov["model_states"] = r["distinct"]
    r = tlc("MCNlpView", "GenNlpView", simulate=300 if ctx.quick else 6000, depth=40, seed=ctx.seed, workers=4, timeout=900, stats=ctx.st)
    hs = {}
    for s in sorted(set(printed(r["out"], "HIST"))): h = json.loads(json.loads(s)); hs[json.dumps(h[:-1])] = h       # one history per simulated prefix
    hs = [hs[k] for k in sorted(hs)]
    js = [make("h%d" % i, h, ctx.seed*100000 + i) for i, h in enumerate(hs)]
    tr = replay(ctx, drv, "TraceNlpView", js, project)
    n = {}
    for t in tr.values():
        for e in t: n[e["ev"]] = n.get(e["ev"], 0) + 1
    ctx.cov.update(histories=len(js), operations=n)
    for k in list(tr)[:2]: ctx.sample(tr[k][:4])
    ctx.assume += ["problem functions are quadratic with integer data, so that values and derivatives are exact", "the user's own callbacks are trusted"]
