"""P01: complete runs end with the right answer, whatever the algorithm and the options."""
import gen
from common import *
from vp import *

HARD = {55, 118}     # problems of the listed findings: not repeated under every option set

# Osi's own setupList aborts on objects of several priorities; these option sets use it
def OSI(o): return "osi-" in o or "number_before_trust_list -1" in o
def jobs_for(quick):
    """list of (job, seed); LP-based algorithms are run with most-fractional branching (Cbc's strong branching on LPs: see known findings)"""
    out = []
    nb = 300 if quick else 2500
    for s in range(nb):
        inst = vary(gen.instance(s), s)
        for a in ["B-BB"] + LPB:
            out.append((job("%d/%s" % (s, a), inst, "bonmin.algorithm %s\n" % a + ("" if a == "B-BB" else MF), api="tminlp" if s % 2 else "osi"), s))
    k = 36 if quick else 150
    for c, o in enumerate(BB_COMBOS):
        for t in range(k):
            s = (c*k + t) % 800
            out.append((job("%d/B-BB/%d" % (s, c), vary(gen.instance(s), s + c), "bonmin.algorithm B-BB\n" + o), s))
    for c, o in enumerate(LP_COMBOS):
        for t in range(k):
            s = (c*k + t) % 800
            a = LPB[(c + t) % 5] if quick else None
            for a in ([a] if a else LPB):
                if s in HARD: continue
                out.append((job("%d/%s/%d" % (s, a, c), vary(gen.instance(s), s + c), "bonmin.algorithm %s\n" % a + MF + o), s))
    k = 30 if quick else 200
    for c, o in enumerate(DYN_COMBOS):
        for s in range(k):
            kind = [None, "lin", "infeas", "deep", "mixed"][s % 5]; s += 7000 + c*k
            out.append((job("dyn%d/%d" % (s, c), vary(gen.instance(s, kind), s), "bonmin.algorithm B-BB\n" + o, api="tminlp"), s))
    for kind in ("lin", "cont", "bin", "int", "mixed", "infeas"):
        for s in range(5000, 5000 + k):
            inst = gen.instance(s, kind)
            for a in (["B-BB"] if kind == "cont" else ["B-BB", LPB[s % 5]]):
                out.append((job("%s%d/%s" % (kind, s, a), inst, "bonmin.algorithm %s\n" % a + ("" if a == "B-BB" else MF)), s))
    ns = 240 if quick else 2400                  # special ordered sets; user priorities and branching directions
    for s in range(ns):
        I = with_sos(gen.instance(20000 + s, "deep" if s % 2 else "bin"), s)
        if I:
            o = BB_COMBOS[s % len(BB_COMBOS)]; o2 = LP_COMBOS[s % len(LP_COMBOS)]
            out.append((job("sos%d/B-BB" % s, vary(I, s), "bonmin.algorithm B-BB\n" + ("" if "pump_for_minlp" in o or OSI(o) else o), api="tminlp" if s % 3 else "osi"), -1))
            if "pump" not in o2 and "fp_" not in o2: out.append((job("sos%d/B-OA" % s, vary(I, s), "bonmin.algorithm B-OA\n" + MF + o2), -1))
        I = vary(with_branching(gen.instance(21000 + s, "deep" if s % 2 else None), s), s); o = BB_COMBOS[(s + 7) % len(BB_COMBOS)]
        out.append((job("prio%d/B-BB" % s, I, "bonmin.algorithm B-BB\n" + ("" if OSI(o) else o), api="tminlp" if s % 3 else "osi"), -1))
        out.append((job("prio%d/%s" % (s, LPB[s % 5]), I, "bonmin.algorithm %s\n" % LPB[s % 5] + MF), -1))
    nd = 60 if quick else 600
    for s in range(nd):
        for a in ["B-BB"] + LPB: out.append((job("deep%d/%s" % (s, a), vary(gen.instance(s, "deep"), s), "bonmin.algorithm %s\n" % a + ("" if a == "B-BB" else MF), api="tminlp" if s % 2 else "osi"), -1 - s))
    for c, o in enumerate(BB_COMBOS):
        for t in range(6 if quick else 60): s = 1000 + (c*6 + t) % 700; out.append((job("deep%d/B-BB/%d" % (s, c), gen.instance(s, "deep"), "bonmin.algorithm B-BB\n" + o), -1 - s))
    for c, o in enumerate(LP_COMBOS):
        for t in range(5 if quick else 50): s = 1000 + (c*5 + t) % 700; out.append((job("deep%d/%s/%d" % (s, LPB[t % 5], c), gen.instance(s, "deep"), "bonmin.algorithm %s\n" % LPB[t % 5] + MF + o), -1 - s))
    return out

def finding(k):
    I = gen.instance(k["seed"], k.get("kind"))
    return vary(with_sos(I, k["sos"]) if "sos" in k else I, k.get("vary", 0))
def check(ctx):
    drv = build("drv_solve")["drv_solve"]
    js = jobs_for(ctx.quick)
    listed = {(k["seed"], k["opts"]) for k in ctx.kf}
    known = {k["key"]: k for k in ctx.kf}
    js = [(j, s) for j, s in js if (s, j["opts"]) not in listed]
    for k in known.values():                                     # listed findings are always run, on the plain spelling of the problem
        js.append((job(k["key"], finding(k), k["opts"], timeout=15), k["seed"]))
    res = run_jobs(drv, [j for j, _ in js], wall=450 if ctx.quick else 3000)
    def event(j, evs): return run_event(j["inst"], evs, "exact")
    by = {}
    for (j, _), evs in zip(js, res):
        if evs is not None: by[j["job"]] = (j, event(j, evs))
    groups, kgroups, cur = [], [], {}
    for jid, (j, e) in by.items():
        if jid in known: kgroups.append((jid, [{"ev": "inst", "oracle": j["inst"]["oracle"]}, e])); continue
        o = j["inst"]["oracle"]; g = cur.setdefault(json.dumps(o), [{"ev": "inst", "oracle": o}]); g.append(dict(e, job=jid))
    # split the runs of one problem in groups so that one rejection does not hide the others
    for o, g in cur.items():
        for i in range(1, len(g), 8): groups.append((g[i]["job"], [g[0]] + g[i:i+8]))
    for key, _, _ in validate(ctx, "TraceAnswers", kgroups, shards=8, max_rounds=50): ctx.is_known(key)
    bad = validate(ctx, "TraceAnswers", groups, shards=8)
    for key, idx, ev in bad:
        if len(ctx.viol) >= 3: break
        jid = ev.get("job", key); j = by[jid][0]
        ev2 = event(j, run_jobs(drv, [dict(j, timeout=60)], nproc=1)[0])        # run again alone; a rejected run must be rejected again
        if validate(ctx, "TraceAnswers", [(jid, [{"ev": "inst", "oracle": j["inst"]["oracle"]}, ev2])]):
            ctx.violation("run %s rejected by the specification: %s" % (jid, json.dumps(ev2)), {"job": j, "event": ev2})
    kinds = {}
    for jid, (j, e) in by.items(): kinds[str(e["mip"])] = kinds.get(str(e["mip"]), 0) + 1
    ctx.cov.update(runs=len(by), problems=len(cur), option_sets_bb=len(BB_COMBOS), option_sets_lp=len(LP_COMBOS), outcomes_by_mip_status=kinds, known_findings_seen=len(ctx.known))
    j0 = js[0][0]; ctx.sample({"job": j0["job"], "opts": j0["opts"], "event": by[j0["job"]][1]}); ctx.sample({"job": js[-1][0]["job"], "opts": js[-1][0]["opts"], "event": by[js[-1][0]["job"]][1]})
    ctx.assume += ["problems are the seeded integer-data convex MINLPs of lib/gen.py (at most 5 integer and 3 continuous variables); the optimum is computed by TLC by enumeration",
                   "LP-based algorithms are run with most-fractional branching, except for the listed findings"]
LEVEL = "model_checking"
