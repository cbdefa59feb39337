#!/usr/bin/env python3
"""mut.py LIST.py [ID...]: apply each change of LIST.py (M = [(id, "P0x[ P0y]", [(file, old, new)])]) to a copy of /repo's sources and run the
named quick checks against it; prints which checks report a violation.  /repo is not touched."""
import sys, os, runpy, shutil, subprocess, time
W = "/tmp/vmut_%d" % os.getpid(); shutil.copytree("/verif", W, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))   # a snapshot: /verif may be edited meanwhile
L = runpy.run_path(sys.argv[1])["M"]; only = sys.argv[2:]
for i, props, edits in L:
    if only and i not in only: continue
    T = "/tmp/mut_" + i; shutil.rmtree(T, ignore_errors=True); shutil.copytree("/repo/src", T + "/src")
    try:
        for f, a, b in edits:
            s = open(T + "/src/" + f).read()
            if s.count(a) != 1: print(i, "EDIT", f, s.count(a), a[:60]); break
            open(T + "/src/" + f, "w").write(s.replace(a, b))
        else:
            for p in props.split():
                t = time.time(); q = subprocess.run([sys.executable, "check.py", p, "quick"], cwd=W, env=dict(os.environ, VP_REPO=T, VERIF_SEED="1"), capture_output=True, text=True)
                o = [l for l in q.stdout.splitlines() if not l.startswith("KNOWN")]
                print("%-26s %s rc %d %3ds %s" % (i, p, q.returncode, time.time() - t, (o[-1] if o else q.stderr[-300:])[:150]), flush=True)
    finally: shutil.rmtree(T)
shutil.rmtree(W)
