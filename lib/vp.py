"""Shared machinery: build, TLC, drivers, evidence, verdicts."""
import os, sys, json, time, hashlib, subprocess, shutil, tempfile, fcntl, glob, re
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
JOBS = os.cpu_count() or 4
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C")

class CheckError(Exception):
    """The machinery (not the code under test) failed: never a VIOLATION."""

def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]

def _files(top, exts):
    out = []
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if not x.startswith(".")]
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out

def build(*drivers):
    """Build libbonmin from REPO's working tree (content addressed) and the given drivers; returns {name: path}."""
    hs = _files(os.path.join(REPO, "src"), (".cpp", ".hpp", ".h", ".c"))
    if not hs: raise CheckError("no sources under %s/src" % REPO)
    har = os.path.join(ROOT, "harness")
    key = _hash(hs + [os.path.join(har, "Makefile")] + _files(os.path.join(har, "config"), (".h",)))
    base = os.path.join(ROOT, ".build"); os.makedirs(base, exist_ok=True)
    out = os.path.join(base, "b" + key)
    with open(os.path.join(base, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for old in sorted(glob.glob(os.path.join(base, "b*")), key=os.path.getmtime)[:-6]:
            if old != out: shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True); os.utime(out)
        def mk(*tg):
            p = subprocess.run(["make", "-s", "-C", har, "-j%d" % JOBS, "REPO=" + REPO, "OUT=" + out, *tg], capture_output=True, text=True, env=ENV)
            if p.returncode: raise CheckError("build failed: " + (p.stderr or p.stdout)[-3000:])
        if not os.path.exists(out + "/lib.ok"):
            mk("lib"); open(out + "/lib.ok", "w").close(); shutil.rmtree(out + "/obj", ignore_errors=True)
        tg = [out + "/" + d for d in drivers]
        # drivers are rebuilt when their own sources changed (make's time stamps + content stamp)
        dkey = _hash(_files(har, (".cpp", ".hpp")))
        st = out + "/drv.key"
        if not os.path.exists(st) or open(st).read() != dkey:
            for d in glob.glob(out + "/drv_*"): 
                if os.path.isfile(d): os.remove(d)
            open(st, "w").write(dkey)
        if tg: mk("LIBREADY=1", *tg)
    return {d: os.path.join(out, d) for d in drivers}

def unpermute(j, evs):
    """answers about a problem whose variables were reordered (common.permute), in the original order"""
    p = (j.get("inst") or {}).get("perm") if isinstance(j.get("inst"), dict) else None
    if p is None: return evs
    n = len(p); back = {q: i for i, q in enumerate(p)}
    for e in evs:
        for k in ("x", "xl", "xu"):
            if isinstance(e.get(k), list) and len(e[k]) >= n: e[k] = [e[k][p[i]] for i in range(n)] + e[k][n:]
        for c in e.get("cuts", []) if isinstance(e.get("cuts"), list) else []:
            if isinstance(c, dict) and "a" in c: c["a"] = sorted([back.get(i, i), v] for i, v in c["a"])
    return evs
def run_jobs(exe, jobs, nproc=JOBS, extra_env=None, wall=500, max_hangs=16):
    """Feed ndjson jobs to nproc copies of a driver; returns the list of event lists, one per job (ends with an exit event).
    Jobs go out in rounds; when too many jobs hang (killed by their alarm) or the time is up, the rest is not run: its entries are None."""
    env = dict(ENV, **(extra_env or {})); t0 = time.time()
    res = [None]*len(jobs); hangs = 0
    def go(ch):
        if not ch: return
        inp = "".join(json.dumps(jobs[i]) + "\n" for i in ch)
        try: p = subprocess.run([exe], input=inp, capture_output=True, text=True, env=env, timeout=800)
        except subprocess.TimeoutExpired: raise CheckError("driver %s exceeded its time" % exe)
        if p.returncode: raise CheckError("driver %s rc=%d %s" % (exe, p.returncode, p.stderr[-500:]))
        cur = []; k = 0
        for line in p.stdout.splitlines():
            try: e = json.loads(line)
            except ValueError: e = {"ev": "garbled", "raw": line[:200]}
            cur.append(e)
            if e.get("ev") == "exit":
                res[ch[k]] = unpermute(jobs[ch[k]], cur); cur = []; k += 1
        if k != len(ch): raise CheckError("driver %s answered %d of %d jobs" % (exe, k, len(ch)))
    step = 4*nproc; pos = 0; todo = list(range(len(jobs)))
    with ThreadPoolExecutor(nproc) as tp:
        while pos < len(todo):
            part = todo[pos:pos+step]; pos += step; t1 = time.time()
            list(tp.map(go, [part[i::nproc] for i in range(nproc)]))
            hangs += sum(1 for i in part if res[i][-1]["sig"] == 14)
            if hangs >= max_hangs or time.time() - t0 > wall: break
            if time.time() - t1 < 8: step = min(step*2, 400*nproc)
    return res

class Tlc:
    def __init__(self): self.states = 0; self.distinct = 0; self.runs = 0; self.actions = {}

def tlc(module, cfg=None, env=None, workers=JOBS, simulate=None, depth=None, seed=None, timeout=600, stats=None, coverage=False, xmx="6g", soft=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg.  Returns dict(ok, violated, out, generated, distinct)."""
    tmp = tempfile.mkdtemp(prefix="vp_tlc_")
    try:
        for f in glob.glob(os.path.join(ROOT, "spec", "*")): shutil.copy(f, tmp)
        cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-cp", CP, "tlc2.TLC", "-config", (cfg or module) + ".cfg", "-metadir", tmp + "/meta", "-workers", str(workers), "-noGenerateSpecTE"]
        if coverage: cmd += ["-coverage", "1"]
        if simulate is not None: cmd += ["-simulate", "num=%d" % simulate]
        if depth: cmd += ["-depth", str(depth)]
        if seed is not None: cmd += ["-seed", str(seed)]
        cmd.append(module)
        e = dict(ENV); e.pop("JAVA_TOOL_OPTIONS", None); e.update({k: str(v) for k, v in (env or {}).items()})
        try: p = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True, env=e, timeout=timeout)
        except subprocess.TimeoutExpired as t:
            raise CheckError("TLC %s exceeded %ds" % (module, timeout))
        out = p.stdout
        g = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", out)
        gen, dis = (int(g[-1][0].replace(",", "")), int(g[-1][1].replace(",", ""))) if g else (0, 0)
        if simulate is not None:
            g = re.findall(r"([\d,]+) states checked|The number of states generated: ([\d,]+)", out)
            if g: gen = int((g[-1][0] or g[-1][1]).replace(",", "")); dis = gen
        viol = None
        m = re.search(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated|Error: Temporal properties were violated|Error: Property (\S+) is violated|Error: Evaluating (?:assumption|postcondition)|[Pp]ostcondition \S* ?is violated|POSTCONDITION|Error: Deadlock reached", out) if p.returncode else None
        if p.returncode: 
            if m: viol = m.group(0)
            elif soft and "Error: The behavior up to this point is" in out: viol = "evaluation"
            elif p.returncode in (10, 11, 12, 13): viol = "rc%d" % p.returncode
            else: raise CheckError("TLC %s rc=%d: %s" % (module, p.returncode, out[-2500:] + p.stderr[-500:]))
        r = dict(ok=p.returncode == 0, violated=viol, out=out, generated=gen, distinct=dis)
        if coverage:
            cov = {}
            for a, n, d in re.findall(r"<(\w+) line[^>]*>: ([\d]+):([\d]+)", out): cov[a] = int(d)
            r["coverage"] = cov
        if stats is not None: stats.states += dis; stats.distinct += dis; stats.transitions = getattr(stats, "transitions", 0) + gen; stats.runs += 1
        return r
    finally: shutil.rmtree(tmp, ignore_errors=True)

def printed(out, tag):
    """Values printed by PrintT(<<tag, ...>>) where the payload is a JSON string or simple values."""
    return re.findall(r'<<"%s", (.*)>>' % re.escape(tag), out)

class Ctx:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time(); self.cov = {}; self.samples = []; self.viol = []; self.known = []; self.assume = []
        self.st = Tlc(); self.traces = 0
        kf = os.path.join(ROOT, "known_findings.json")
        self.kf = [k for k in json.load(open(kf))["findings"] if k["property"] == pid] if os.path.exists(kf) else []
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    @property
    def quick(self): return self.tier == "quick"
    def path(self, name): return os.path.join(self.tmp, name)
    def is_known(self, key):
        for k in self.kf:
            if k["key"] == key:
                if key not in self.known: self.known.append(key); print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])); sys.stdout.flush()
                return True
        return False
    def violation(self, what, data=None):
        d = os.path.join(ROOT, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol) + 1))
        json.dump({"property": self.pid, "what": what, "data": data}, open(p, "w"), indent=1, default=str)
        self.viol.append(what)
        if len(self.viol) <= 5:
            print("# " + what[:600]); print("VIOLATION property=%s replay=%s" % (self.pid, p)); sys.stdout.flush()
    def sample(self, s):
        if len(self.samples) < 4: self.samples.append(s)
    def done(self):
        c = dict(self.cov)
        if self.level == "model_checking":
            c.setdefault("states", self.st.distinct); c.setdefault("transitions", getattr(self.st, "transitions", 0)); c.setdefault("traces_validated_against_impl", self.traces)
        c["samples"] = self.samples or ["(none)"]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": c, "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assume, "violations": len(self.viol)}
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return 1 if self.viol else 0

def scaled(x, s=10000, lim=2000000000):
    """double -> int scaled by s, saturated to 32 bits"""
    if x is None: return 0
    if x != x: return 1999999999
    v = x*s
    if v >= lim: return lim
    if v <= -lim: return -lim
    return int(round(v))

def ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows: f.write(json.dumps(r) + "\n")

def validate(ctx, module, groups, cfg=None, shards=4, max_rounds=6, scale_timeout=600, env=None):
    """Trace validation.  groups: list of (key, [events]); every group's first event resets the spec.
    TLC must consume every line of every group; returns the list of (key, index, event) of rejected groups."""
    bad = []
    groups = [g for g in groups if g[1]]
    if not groups: return bad
    shards = max(1, min(shards, len(groups)))
    parts = [groups[i::shards] for i in range(shards)]
    def go(si):
        mine = list(parts[si]); rej = []
        for _ in range(max_rounds):
            if not mine: break
            p = ctx.path("%s_%d.ndjson" % (module, si)); rows = [e for _, evs in mine for e in evs]; ndjson(p, rows)
            r = tlc(module, cfg, env=dict(env or {}, TRACE=p), workers=1, timeout=scale_timeout, stats=ctx.st, xmx="3g", soft=True)
            m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', r["out"]); ls = re.findall(r"^(?:/\\ )?l = (\d+)$", r["out"], re.M) if r["violated"] == "evaluation" else []
            if ls: m = re.match(r"(\d+) (\d+)", "%d %d" % (int(ls[-1]) - 1, len(rows)))     # the line at l has no meaning in the specification (overflow, missing field): rejected
            if not m: raise CheckError("TLC %s: no acceptance line: %s" % (module, r["out"][-1500:]))
            acc, tot = int(m.group(1)), int(m.group(2))
            if tot != len(rows): raise CheckError("TLC %s read %d of %d lines" % (module, tot, len(rows)))
            if acc >= tot: break
            k = acc; pos = 0                      # first unconsumed line is rows[acc]
            for gi, (key, evs) in enumerate(mine):
                if pos <= k < pos + len(evs): rej.append((key, k - pos, evs[k - pos])); mine = mine[gi+1:]; break
                pos += len(evs)
        return rej
    with ThreadPoolExecutor(shards) as tp:
        for r in tp.map(go, range(shards)): bad += r
    rejected = {k for k, _, _ in bad}
    ctx.traces += sum(1 for k, _ in groups if k not in rejected)
    return bad

def replay(ctx, drv, module, jobs, project, cfg=None, shards=8, extra=None, limit=3, nproc=JOBS):
    """The conformance loop: run the jobs on the real code, project every job's events to a trace of the specification `module`
    (the projection's first event resets it), have TLC validate all traces, and re-run a rejected job alone before believing it.
    Jobs whose id is a listed finding are judged apart.  Returns {job id: events}."""
    res = run_jobs(drv, jobs, nproc=nproc); by = {}; tr = {}
    for j, evs in zip(jobs, res):
        if evs is None: continue
        by[j["job"]] = j; tr[j["job"]] = project(j, evs)
    known = {k["key"] for k in ctx.kf}
    bad = validate(ctx, module, [(k, t) for k, t in tr.items() if k not in known], cfg=cfg, shards=shards)
    kb = validate(ctx, module, [(k, t) for k, t in tr.items() if k in known], cfg=cfg, shards=8, max_rounds=50) if known else []
    for key, _, _ in kb: ctx.is_known(key)
    n = 0
    for key, idx, ev in bad:
        if n >= limit: break
        again = project(by[key], run_jobs(drv, [dict(by[key], timeout=max(60, by[key].get("timeout", 0)))], nproc=1)[0])
        r = validate(ctx, module, [(key, again)], cfg=cfg)
        if r:
            n += 1
            ctx.violation("%s: step %d is not a behaviour of %s: %s" % (key, r[0][1], module, json.dumps(r[0][2])[:400]), {"job": by[key], "index": r[0][1], "event": r[0][2], "trace": again[:200]})
    ctx.cov["jobs_not_run"] = sum(1 for e in res if e is None)
    return tr
