"""Seeded generator of small integer-data MINLP instances.

Every function is a sum of squares of integer linear forms plus a linear form (convex), expanded to
integer coefficients.  Continuous variables come in two kinds whose optimum is a closed form of the
integer variables: 'epi' (y >= p_j(x), y minimised) and 'track' ((z - a.x - b)^2 in the objective).
The record has both the full model (for the C++ drivers) and the integer description (for TLA+).
"""
import random

def quad_zero(): return {"q": {}, "l": {}, "k": 0}
def add_sq(Q, form, b, w=1):
    """Q += w*(form.x + b)^2"""
    it = sorted(form.items())
    for a, (i, ci) in enumerate(it):
        Q["q"][(i, i)] = Q["q"].get((i, i), 0) + w*ci*ci
        for (j, cj) in it[a+1:]:
            Q["q"][(i, j)] = Q["q"].get((i, j), 0) + 2*w*ci*cj
        Q["l"][i] = Q["l"].get(i, 0) + 2*w*b*ci
    Q["k"] += w*b*b
def add_lin(Q, form, k=0):
    for i, c in form.items(): Q["l"][i] = Q["l"].get(i, 0) + c
    Q["k"] += k
def add_quad(Q, R):
    for k, c in R["q"].items(): Q["q"][k] = Q["q"].get(k, 0) + c
    add_lin(Q, R["l"], R["k"])
def dump(Q):
    return {"q": [[i, j, c] for (i, j), c in sorted(Q["q"].items()) if c],
            "l": [[i, c] for i, c in sorted(Q["l"].items()) if c], "k": Q["k"]}
def ev(Q, x):
    return sum(c*x[i]*x[j] for (i, j), c in Q["q"].items()) + sum(c*x[i] for i, c in Q["l"].items()) + Q["k"]

def form(rng, idx, lo=-2, hi=2, maxn=3):
    k = rng.randint(1, min(maxn, len(idx)))
    f = {}
    for i in rng.sample(idx, k):
        c = 0
        while c == 0: c = rng.randint(lo, hi)
        f[i] = c
    return f

def instance(seed, kind=None, **kw):
    """kind: 'int' pure integer, 'mixed' with continuous vars, 'bin', 'lin' (all linear), 'infeas', 'cont'"""
    rng = random.Random(seed)
    kind = kind or rng.choice(["int", "mixed", "bin", "mixed", "infeas"])
    sub = kind
    if kind == "infeas": sub = rng.choice(["int", "mixed", "bin"])
    deep = kind == "deep"                                   # closest-vector objectives: large search trees
    ni = 0 if kind == "cont" else rng.randint(2, 4)
    if deep: ni = rng.randint(4, 6)
    types, lb, ub = [], [], []
    for i in range(ni):
        if deep: u = rng.choice([1, 1, 2, 3] if ni < 6 else [1, 1, 2]); types.append(1 if u == 1 else 2); lb.append(0); ub.append(u)
        elif sub == "bin" or rng.random() < 0.3: types.append(1); lb.append(0); ub.append(1)
        else:
            a = rng.randint(-2, 1); types.append(2); lb.append(a); ub.append(a + rng.randint(1, 4 if ni <= 3 else 3))
    if sub == "bin": ni += 1; types.append(1); lb.append(0); ub.append(1)
    ints = list(range(ni)); n = ni
    obj = quad_zero(); base = quad_zero(); cons = []
    def den(): return 1
    if ints:
        for _ in range(rng.randint(0, 2) if not deep else ni): add_sq(base, form(rng, ints) if not deep else form(rng, ints, -3, 3, 4), rng.randint(-3, 3), 1)
        add_lin(base, {i: rng.randint(-4, 4) for i in ints})
    # constraints on integers (aim: nonempty continuous interior around a centre point)
    icons = []
    if ints:
        ctr = [rng.randint(lb[i], ub[i]) for i in ints]
        for _ in range(rng.randint(1, 3) if not deep else rng.randint(0, 2)):
            Q = quad_zero(); t = rng.random()
            if kind != "lin" and t < 0.65:
                for _ in range(rng.randint(1, 2)): add_sq(Q, form(rng, ints), rng.randint(-2, 2))
                if rng.random() < 0.5: add_lin(Q, form(rng, ints))
                r = ev(Q, ctr) + rng.randint(1, 4)
                icons.append({"Q": Q, "lb": None, "ub": r})
            elif t < 0.85:
                add_lin(Q, form(rng, ints, -3, 3))
                v = ev(Q, ctr); icons.append({"Q": Q, "lb": v - rng.randint(1, 5), "ub": v + rng.randint(1, 3)})
            elif t < 0.95 or sub == "mixed":   # (Ipopt drops the objective of 'square' problems: no equalities with continuous vars)
                add_lin(Q, form(rng, ints, -3, 3)); v = ev(Q, ctr); icons.append({"Q": Q, "lb": v - rng.randint(0, 3), "ub": None})
            else:
                add_lin(Q, form(rng, ints, -2, 2, 4)); v = ev(Q, ctr); icons.append({"Q": Q, "lb": v, "ub": v})
    if kind == "infeas":
        mode = rng.randint(0, 2)
        if mode == 1 and sub == "mixed": mode = 0
        if mode == 0:     # ellipsoid around a half-integer centre, radius too small for any lattice point
            Q = quad_zero(); k = min(2, ni)
            pick = rng.sample(ints, k)
            for i in pick:
                c = rng.randint(lb[i], ub[i]-1); add_sq(Q, {i: 2}, -(2*c+1))
            icons = [{"Q": Q, "lb": None, "ub": k - 1 if k > 1 else 0.5}]
            icons[0]["ub"] = 1 if k == 2 else 0
            if k == 1: icons[0]["ub"] = 0
        elif mode == 1:   # parity: 2*form = odd
            Q = quad_zero(); f = form(rng, ints, 1, 2, 3); add_lin(Q, {i: 2*c for i, c in f.items()})
            ctr = [rng.randint(lb[i], ub[i]) for i in ints]
            v = ev(Q, ctr); icons.append({"Q": Q, "lb": v+1 if v < sum(2*c*ub[i] for i, c in f.items()) else v-1, "ub": None})
            icons[-1]["ub"] = icons[-1]["lb"]
        else:             # disjoint slabs: relaxation itself infeasible
            f = form(rng, ints, 1, 2, 3); Q = quad_zero(); add_lin(Q, f); R = quad_zero(); add_lin(R, f)
            v = sum(c*lb[i] for i, c in f.items()); icons.append({"Q": Q, "lb": v+3, "ub": None}); icons.append({"Q": R, "lb": None, "ub": v+1})
    cont = []
    ncont = 0
    if sub in ("mixed",) : ncont = rng.randint(1, 2)
    if kind == "cont": ncont = rng.randint(1, 3)
    add_quad(obj, base)
    for c in icons: cons.append((c["Q"], c["lb"], c["ub"]))
    for _ in range(ncont):
        y = n; n += 1; types.append(0)
        if kind != "cont" and rng.random() < 0.6 or (kind == "cont" and rng.random() < 0.3):
            lo, hi = -30, 60 + 40*rng.randint(0, 2); w = rng.randint(1, 2); ps = []
            if ints:
                for _ in range(rng.randint(1, 2)):
                    P = quad_zero(); add_sq(P, form(rng, ints), rng.randint(-2, 2)); add_lin(P, form(rng, ints), rng.randint(-3, 3)); ps.append(P)
            else:
                P = quad_zero(); P["k"] = rng.randint(-5, 5); ps.append(P)
            lb.append(lo); ub.append(hi); add_lin(obj, {y: w})
            for P in ps:
                C = quad_zero(); add_quad(C, P); add_lin(C, {y: -1}); k = C["k"]; C["k"] = 0; cons.append((C, None, -k))
            cont.append({"kind": "epi", "idx": y, "lo": lo, "hi": hi, "w": w, "ps": [dump(P) for P in ps]})
        else:
            lo = rng.randint(-4, 0); hi = lo + rng.randint(2, 6); f = form(rng, ints) if ints else {}
            b = rng.randint(-6, 6); lb.append(lo); ub.append(hi)
            g = dict(f); g[y] = -1; add_sq(obj, g, b)
            cont.append({"kind": "track", "idx": y, "lo": lo, "hi": hi, "f": [[i, c] for i, c in sorted(f.items())], "b": b})
    # x0: midpoint-ish interior start
    x0 = [min(ub[i], max(lb[i], rng.choice([lb[i], ub[i], (lb[i]+ub[i])/2.0]))) for i in range(n)]
    full = {"n": n, "type": types, "lb": lb, "ub": ub, "x0": x0, "obj": dump(obj),
            "con": [dict(dump(Q), lb="-inf" if a is None else a, ub="inf" if b is None else b) for Q, a, b in cons]}
    # constants: constraint constants are folded into the bounds
    for c in full["con"]:
        k = c.pop("k")
        if c["lb"] != "-inf": c["lb"] -= k
        if c["ub"] != "inf": c["ub"] -= k
        c["k"] = 0
    orc = {"ni": ni, "ilb": lb[:ni], "iub": ub[:ni], "base": dump(base),
           "icon": [dict(dump(c["Q"]), haslb=c["lb"] is not None, lb=c["lb"] or 0, hasub=c["ub"] is not None, ub=c["ub"] or 0) for c in icons],
           "cont": cont}
    full["oracle"] = orc; full["kind"] = kind; full["seed"] = seed
    return full

def pyopt(inst):
    """Independent (python) enumeration, used only to pick interesting instances; verdicts come from TLC."""
    import itertools
    o = inst["oracle"]; best = None; pts = 0
    def qv(Q, x): return sum(c*x[i]*x[j] for i, j, c in Q["q"]) + sum(c*x[i] for i, c in Q["l"]) + Q["k"]
    for x in itertools.product(*[range(a, b+1) for a, b in zip(o["ilb"], o["iub"])]):
        if any((c["haslb"] and qv(c, x) < c["lb"]) or (c["hasub"] and qv(c, x) > c["ub"]) for c in o["icon"]): continue
        v = qv(o["base"], x); ok = True
        for c in o["cont"]:
            if c["kind"] == "epi":
                y = max([c["lo"]] + [qv(P, x) for P in c["ps"]])
                if y > c["hi"]: ok = False; break
                v += c["w"]*y
            else:
                t = sum(k*x[i] for i, k in c["f"]) + c["b"]
                d = max(0, c["lo"]-t, t-c["hi"]); v += d*d
        if not ok: continue
        pts += 1
        if best is None or v < best[0]: best = (v, x)
    return best, pts

def long_instance(s, n=26, m=3, width=25):
    """A market-split problem: too large to enumerate.  width 0: hardly any solution; otherwise solutions are there but the optimum is hard to prove."""
    r = random.Random(s); A = [[r.randrange(100) for _ in range(n)] for _ in range(m)]
    con = [{"q": [], "l": [[i, a[i]] for i in range(n) if a[i]], "k": 0, "lb": sum(a)//2 - width, "ub": sum(a)//2} for a in A]
    con.append({"q": [[i, i, 1] for i in range(n)], "l": [], "k": 0, "lb": -1e30, "ub": n})
    return {"n": n, "type": [1]*n, "lb": [0]*n, "ub": [1]*n, "x0": [0]*n, "con": con,
            "obj": {"q": [[i, i, 1] for i in range(n)], "l": [[i, c] for i in range(n) for c in [r.randrange(-3, 4)] if c], "k": 0}}
