#!/usr/bin/env python3
"""Warm the object cache and make sure the tools answer."""
import os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from props import PROPS
want = sorted({(t["driver"], t.get("flavor", "asan"), tuple(t.get("extra_src", ()))) for P in PROPS.values() for t in P["trace"]})
bad = 0
for w in want:
    try: vp.build(*w)
    except vp.CheckError as e: print("setup:", w, e); bad = 1
r = subprocess.run(["java", "-cp", vp.JAR, "tlc2.TLC", "-h"], capture_output=True)
print("setup done", len(want), "drivers")
sys.exit(bad)
