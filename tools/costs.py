#!/usr/bin/env python3
"""notes how long each harness took, from the evidence files, in tools/costs.json (seconds, rounded): the order check.py runs them in"""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = R + "/tools/costs.json"
c = json.load(open(p)) if os.path.exists(p) else {}
def walk(x):
    if isinstance(x, dict):
        if "harness" in x and "wall_s" in x and "not_run" not in x: c[x["harness"]] = max(1, round(x["wall_s"]))
        for v in x.values(): walk(v)
    if isinstance(x, list):
        for v in x: walk(v)
for f in glob.glob(R + "/evidence/*.json"): walk(json.load(open(f)))
json.dump(dict(sorted(c.items())), open(p, "w"), indent=0)
