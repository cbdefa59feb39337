#!/usr/bin/env python3
"""hunt.py SPEC.py [POOL] [N]: find jobs on which a planted change shows.  Copies /repo/src, applies SPEC's edits, builds the driver from both trees and
compares the views of a pool of jobs that no check uses.  Writes SPEC's directory /<id>.jobs.json (a few that differ, a few that do not)."""
import sys, os, json, runpy, shutil, subprocess, random
sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif/tools")
spec = sys.argv[1]; g = runpy.run_path(spec); pool = sys.argv[2] if len(sys.argv) > 2 else g.get("pool", "solve"); N = int(sys.argv[3]) if len(sys.argv) > 3 else 600
import seed as S
T = "/tmp/hunt_" + g["id"]
def jobs():
    import gen
    from common import BB_COMBOS, LP_COMBOS, DYN_COMBOS, LPB, MF, job, vary
    rng = random.Random(5); out = []
    if pool in ("solve", "bb", "lp", "lim"):
        for t in range(N):
            s = 40000 + t; kind = rng.choice([None, "deep", "mixed", "int", "bin", "infeas"]); inst = vary(gen.instance(s, kind), t)
            lp = pool == "lp" or (pool != "bb" and t % 2); a = rng.choice(LPB) if lp else "B-BB"; o = rng.choice(LP_COMBOS) + MF if lp else rng.choice(BB_COMBOS)
            if g.get("opts") is not None: o = rng.choice(g["opts"])
            if pool == "lim": o += rng.choice(["bonmin.node_limit %d\n" % rng.randint(0, 5), "bonmin.solution_limit 1\n", "bonmin.cutoff %d\n" % rng.randint(-20, 60), "bonmin.allowable_gap %d\n" % rng.randint(1, 9), "bonmin.iteration_limit %d\n" % rng.randint(1, 60)])
            out.append(job("h%d" % t, inst, "bonmin.algorithm %s\n" % a + o, api=g.get("api", rng.choice(["osi", "tminlp"]))))
        return "drv_solve", out
    import importlib, vp
    m = importlib.import_module(pool); ctx = vp.Ctx("PX", "quick", "model_checking"); ctx.seed = 977
    return g["driver"], g["mk"](m, ctx, N)
def build(repo, drv):
    p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0,'/verif/lib'); import vp; print(vp.build('%s')['%s'])" % (drv, drv)], env=dict(os.environ, VP_REPO=repo), capture_output=True, text=True)
    if p.returncode: sys.exit("BUILD " + p.stderr[-1500:])
    return p.stdout.strip().splitlines()[-1]
drv, js = jobs(); js = [{k: v for k, v in j.items() if not k.startswith("_")} for j in js]
shutil.rmtree(T, ignore_errors=True); shutil.copytree("/repo/src", T + "/src")
for f, a, b in g["edits"]:
    s = open(T + "/" + f).read(); assert s.count(a) == 1, (f, s.count(a), a[:80]); open(T + "/" + f, "w").write(s.replace(a, b))
d1 = build(T, drv); d0 = build("/repo", drv); shutil.rmtree(T)
import vp
ns = {}; exec(S.VIEWS.get(g["view"], g["view"]), ns); view = ns["view"]
r0 = vp.run_jobs(d0, js); r1 = vp.run_jobs(d1, js); diff = []; same = []
for j, a, b in zip(js, r0, r1):
    if a is None or b is None: continue
    va, vb = view(a), view(b)
    if va != vb: diff.append((j, va, vb))
    else: same.append(j)
print("differ", len(diff), "of", len(js))
ok = g.get("good", lambda v: True)
diff = [d for d in diff if ok(d[1])]
for j, a, b in diff[:8]: print(j["job"], j.get("opts", "").replace("\n", ";")[:90], str(a)[:150], "->", str(b)[:150])
json.dump([d[0] for d in diff[:4]] + same[:3], open(os.path.dirname(os.path.abspath(spec)) + "/" + g["id"] + ".jobs.json", "w"))
