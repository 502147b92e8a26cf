#!/usr/bin/env python3
"""Write MANIFEST.json from the registry and the list of properties."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry

NA = getattr(registry, "NOT_APPLICABLE", {})
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for p in props:
    if p not in registry.CHECKS:
        continue
    hs = registry.CHECKS[p]
    q = [h for h in hs if h["tier"] == "quick"]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "solver-based checking of the real code: path-wise symbolic execution of the program's LLVM IR, "
                     "every branch and assertion decided by an SMT solver (z3)",
        "level": "model_checking",
        "level_note": f"exhaustive over all inputs within the bounds of {len(q)} quick and {len(hs) - len(q)} further thorough harnesses; "
                      "bounds per harness in the evidence file; counterexamples replayed natively",
    })
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in registry.CHECKS]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {"guard": "none", "enable": "none", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
