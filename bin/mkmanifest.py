#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        mods = sorted({m["module"] for m in P.get("mc", [])} | {t["module"] for t in P["trace"]})
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + i,
            evidence_file="evidence/%s.json" % i,
            technique=P.get("technique", "TLA+ specification (%s) model-checked with TLC; behaviours of the real code validated against it by TLC" % ", ".join(mods)),
            level="model_checking",
            level_note=P.get("note", "Specification exhaustively checked within small constants; the code is covered to the extent of the generated and recorded histories (seeded; see evidence). Trusts TLC, the driver's logging of arguments and public observers, and the compiler.")))
    else:
        na.append(dict(property=i, reason="no check built (yet) in this framework; see DESIGN.md"))
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
   notes="Specifications in spec/, conformance drivers in harness/, machinery in bin/. No hooks in /repo."), open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
