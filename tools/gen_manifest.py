#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and properties_config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from properties_config import CONFIG, TECHNIQUE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CONFIG:
        c = CONFIG[i]
        variants = sorted({j["variant"] for j in c["jobs"]})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": TECHNIQUE.get(i) or c.get("technique") or
                         "runtime monitoring: reference-model oracle on randomized and systematic executions under AddressSanitizer/UBSan",
            "level": "exploration",
            "level_note": "Held on the executions counted in the evidence file (builds: %s); says nothing about executions that were not produced. "
                          "Trusts the reference model in harness/%s and the sanitizer runtimes.%s" %
                          (", ".join(variants), c["jobs"][0]["src"][0],
                           (" Assumes: " + "; ".join(c["assumptions"]) + ".") if c.get("assumptions") else ""),
        })
    else:
        na.append({"property": i, "reason": "No check has been built for it yet."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors sit at the public API; schedules are perturbed by link-time wrappers (harness/perturb.cc)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
