#!/usr/bin/env python3
"""Helper for planting bugs:  seed.py new SPEC.py   |  seed.py run ID [PROP]  |  seed.py demo ID
SPEC.py defines: id, property, needs, breaks, edits=[(file, old, new)], driver, jobs (list), view(list of events)->json-able"""
import sys, os, json, subprocess, shutil, runpy, textwrap
R = "/verif"; REPO = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
DEMO = r'''#!/bin/bash
# Builds the driver beside this script against /repo's freshly built library, runs fixed jobs and compares the outcome with what a correct solver gives.
D=$(cd "$(dirname "$0")" && pwd); S=/repo/src; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
L=/repo/_build/src/CbcBonmin/.libs
g++ -std=c++17 -O1 -w -DHAVE_CONFIG_H -DHAVE_CSTDDEF -DBONMINLIB_BUILD -I"$D" -I"$D/config" -I$S/Interfaces -I$S/Interfaces/Ipopt -I$S/Algorithms -I$S/Algorithms/OaGenerators -I$S/Algorithms/Branching -I$S/Algorithms/QuadCuts -I$S/CbcBonmin -I$S/CbcBonmin/Heuristics -I/usr/include/coin "$D/@DRV@.cpp" -o "$T/drv" -L$L -lbonmin -Wl,-rpath,$L -lipopt -ldmumps_seq -lCbcSolver -lCbc -lpthread -lrt -lCgl -lOsiClp -lClpSolver -lClp -lOsi -lCoinUtils -lbz2 -lz -llapack -lblas -lm -ldl || exit 2
"$T/drv" < "$D/jobs.ndjson" > "$T/out.ndjson" || exit 3
python3 "$D/compare.py" "$T/out.ndjson" "$D/expected.json"
'''
COMPARE = r'''import sys, json
@VIEW@
def load(p):
    res, cur = [], []
    for l in open(p):
        e = json.loads(l); cur.append(e)
        if e.get("ev") == "exit": res.append(cur); cur = []
    return res
if __name__ == "__main__":
    got = [view(e) for e in load(sys.argv[1])]
    if len(sys.argv) > 3: json.dump(got, open(sys.argv[2], "w")); sys.exit(0)
    exp = json.load(open(sys.argv[2])); got = json.loads(json.dumps(got))
    bad = [(i, g, x) for i, (g, x) in enumerate(zip(got, exp)) if g != x]
    for b in bad[:3]: print("job %d: got %s expected %s" % b)
    sys.exit(1 if bad or len(got) != len(exp) else 0)
'''
VIEWS = {"solve": '''def view(evs):
    r = [e for e in evs if e.get("ev") == "result"]; x = evs[-1]
    if not r: return ["died"]
    r = r[0]
    return [r["exc"], r["mip"], r["hasSol"], round(r["bestObj"], 2) + 0.0 if abs(r["bestObj"]) < 1e8 else "inf", x["sig"]]
''', "all": '''def view(evs):
    def f(v):
        if isinstance(v, float): return round(v, 3) + 0.0 if abs(v) < 1e20 else "inf"
        if isinstance(v, dict): return {k: f(w) for k, w in v.items()}
        if isinstance(v, list): return [f(w) for w in v]
        return v
    return [f({k: e[k] for k in e if k not in ("time",)}) for e in evs]
'''}
def build():
    p = sh("bash /opt/vp/build.sh"); 
    if p.returncode: print("BUILD FAILED", p.stderr[-1500:]); return False
    return True
def tests():
    p = sh("bash /opt/vp/test.sh /tmp/seed_t.json"); return not json.load(open("/tmp/seed_t.json"))["failed"] and json.load(open("/tmp/seed_t.json"))["passed"]
def new(spec):
    g = runpy.run_path(spec); d = "%s/seeded/%s" % (R, g["id"]); 
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(R + "/harness"):
        if f.endswith(".hpp") or f == g["driver"] + ".cpp": shutil.copy(R + "/harness/" + f, d)
    shutil.copytree(R + "/harness/config", d + "/config", dirs_exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO.replace("@DRV@", g["driver"])); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/compare.py", "w").write(COMPARE.replace("@VIEW@", VIEWS.get(g["view"], g["view"])))
    open(d + "/jobs.ndjson", "w").write("".join(json.dumps(j) + "\n" for j in g["jobs"]))
    ok = True
    try:
        # expected values from the clean tree
        if not build(): return False
        s = open(d + "/demo.sh").read().replace('"$D/expected.json"', '"$D/expected.json" write'); open("/tmp/seed_demo.sh", "w").write(s.replace('$(cd "$(dirname "$0")" && pwd)', d))
        p = sh("cd /repo && bash /tmp/seed_demo.sh"); print("expected:", p.returncode, p.stdout[-300:], p.stderr[-800:])
        
        for f, a, b in g["edits"]:
            s = open(REPO + "/" + f).read(); assert s.count(a) == 1, (f, s.count(a), a[:80]); open(REPO + "/" + f, "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout; open(d + "/patch.diff", "w").write(diff)
        if not build(): return False
        t = tests(); p = sh("cd /repo && bash %s/demo.sh" % d); print("patched: tests", t, "demo rc", p.returncode, p.stdout[-150:])
        ok = bool(t) and p.returncode == 1
    finally:
        clean(); build()
    p = sh("cd /repo && bash %s/demo.sh" % d); print("clean: demo rc", p.returncode, p.stdout[-300:]); ok = ok and p.returncode == 0
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("SEED", g["id"], "OK" if ok else "REJECTED")
    return ok
def run(i, prop=None):
    d = "%s/seeded/%s" % (R, i); prop = prop or json.load(open(d + "/meta.json"))["property"]
    p = sh("git -C /repo apply %s/patch.diff" % d); assert p.returncode == 0, p.stderr
    try: p = sh("cd /verif && python3 check.py %s quick" % prop)
    finally: clean()
    print(i, prop, "rc", p.returncode, "\n".join(l[:250] for l in p.stdout.splitlines() if not l.startswith("KNOWN"))[-900:])
    return p.returncode
if __name__ == "__main__":
    c = sys.argv[1]
    if c == "new": sys.exit(0 if new(sys.argv[2]) else 1)
    if c == "run":
        for i in (sorted(os.listdir(R + "/seeded")) if sys.argv[2] == "all" else [sys.argv[2]]): run(i, sys.argv[3] if len(sys.argv) > 3 else None)
