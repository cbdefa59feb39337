#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
R = os.path.dirname(os.path.abspath(__file__))
CH = {
 "P01": ("TLA+ oracle (enumerated optimum) + TLC trace validation of complete solver runs", "TLC computes the exact optimum of every generated problem by enumeration and accepts a run only if its status, value, point and bound are right; covers about 2,000 runs (quick) over 6 algorithms and over 100 option sets; problems are small and convex."),
 "P05": ("exhaustive TLC model checking of the strategies + replay of TLC-generated histories on the real trees with trace validation", "No node lost/duplicated proved on the model for up to 4 (thorough 5) nodes under all protocols; the real tree objects are bound to it step by step on thousands of generated histories."),
 "P02": ("TLA+ model of branch-and-bound as a certificate (model checked) + TLC trace validation of every relaxation solved by real runs", "The model shows a complete certificate is exactly what a right answer needs; TLC then checks for about 1,800 recorded runs (quick) that the solved relaxations cover the whole lattice, are sound on it and stay in the original box."),
 "P03": ("TLA+ model of the run's life cycle (model checked) + TLC trace validation of recorded endings under limits, gaps, unboundedness and injected NLP failures", "About 4,900 endings (quick) over all algorithms; every report and accessor value is checked against the contract."),
 "P04": ("TLA+ oracle (enumerated optimum) + TLC trace validation of interrupted, gap-limited and cutoff-limited runs", "About 7,400 runs (quick) with every kind of limit at many interruption points; claims are judged against the optimum TLC computes."),
 "P06": ("TLA+ model of relaxation objects (copy independence model checked) + replay of TLC-generated operation histories on real OsiTMINLPInterface objects; TLC validates every observation (KKT conditions, lattice optimality, rows, bounds) ", "1200 histories (quick) of up to 12 operations on up to three objects with four warm-start modes; points compared to three digits, Ipopt trusted to converge on convex data."),
 "P07": ("TLA+ model of the derived NLPs (derivative consistency model checked) + replay of TLC-generated modification histories on the real objects with exact trace validation", "All values and derivatives are integers and compared exactly by TLC with the specification's; about 650 histories of 14 operations (quick), three objects each."),
 "P08": ("TLA+ specification of valid and tight linearisations (model checked: they characterise the feasible set) + TLC-generated histories replayed on the real interface and cuts recorded from whole runs; TLC tries every lattice point against every cut", "1200 interface histories with about 15,000 cuts and 700 whole runs with about 5,000 generator cuts (quick); convex quadratic rows, numbers to three digits."),
 "P09": ("TLA+ model of the failure policy (model checked on a small branch-and-bound with an unreliable relaxation solver) + fault injection into real runs; TLC validates every attempt and judges the answer against the enumerated optimum", "2,400 runs (24,000 thorough) with injected NLP failures at 1-60 points each, both policies, 0-3 retries, B-BB (16 option sets) and the LP-based algorithms; problems as in P01"),
 "P10": ("TLA+ model of the option list and of the setup's defaults and presets (model checked); TLC generates option histories, they are replayed into the real setup, and TLC validates refusals and every reported parameter, generator and heuristic of setup, copy and search", "about 1,200 histories (30,000 thorough) of up to 7 assignments groups over 32 options with 128 legal and illegal values, four routes, six algorithms"),
}
NA = {}
def main():
    props = [json.loads(l) for l in open(R + "/properties.jsonl")]
    checks = []
    for p in props:
        i = p["id"]
        if i in CH:
            t, n = CH[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in CH],
         "notes": "TLA+ specifications in spec/, checked with TLC; drivers in harness/ are built from /repo's working tree into .build/ (content addressed)."}
    json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
main()
