#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: run one property's check."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(pid.lower())
    ctx = vp.Ctx(pid, tier, getattr(mod, "LEVEL", "model_checking"))
    try: mod.check(ctx)
    except vp.CheckError as e:
        ctx.done(); print("CHECK-ERROR property=%s %s" % (pid, e)); return 1 if ctx.viol else 2
    except Exception:
        traceback.print_exc(); return 1 if ctx.viol else 2
    rc = ctx.done()
    print("%s %s: %s (%.0f s) %s" % (pid, tier, "VIOLATED" if rc else "held", __import__("time").time() - ctx.t0, {k: v for k, v in ctx.cov.items() if isinstance(v, (int, float))}))
    return rc
sys.exit(main())
