#!/usr/bin/env python3
"""Collect, from the last run of each check on the unchanged tree, inputs that reach each required
coverage point, into witness.json. check.py replays them when no path reaches such a point any more."""
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402
import registry  # noqa: E402

f = f"{V}/witness.json"
old = json.load(open(f)) if os.path.exists(f) else {}
new = {}
for p, hs in sorted(registry.CHECKS.items()):
    for h in hs:
        n = h["name"]
        if n in new or not h.get("covers"):
            continue
        crate = h.get("crate", "full")
        outs = sorted(glob.glob(f"{V}/target/out/P*-{n}.json"), key=os.path.getmtime)
        w = json.load(open(outs[-1])).get("witness", {}) if outs else {}
        new[n] = {}
        for c in sorted({c for q in registry.CHECKS.values() for g in q if g["name"] == n for c in g.get("covers", [])}):
            for inputs in (old.get(n, {}).get(c), w.get(c)):
                if inputs is not None and c in check.replay(crate, n, inputs)[1]:
                    new[n][c] = inputs
                    break
            else:
                print(f"{n}: no witness for {c}", "(not run)" if not outs else "")
json.dump(new, open(f, "w"), indent=0, sort_keys=True)
