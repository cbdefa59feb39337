#!/usr/bin/env python3
"""Pre-builds the library and all drivers from /repo's working tree (checks rebuild by themselves when the tree differs)."""
import sys, os, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp
print(vp.build(*[os.path.basename(f)[:-4] for f in glob.glob(os.path.join(vp.ROOT, "harness", "drv_*.cpp"))]))
