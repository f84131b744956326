#!/usr/bin/env python3
"""regenerates MANIFEST.json from spec.py and properties.jsonl"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        sans = sorted(set(x[1] for x in s["runs"]))
        tech = "runtime monitoring: " + s["technique"] + " | builds: " + ", ".join({"asan": "gcc AddressSanitizer+UBSan", "tsan": "gcc ThreadSanitizer with injected delays and spurious wake-ups", "plain": "uninstrumented -O2"}[x] for x in sans)
        checks.append(dict(property=i, quick_cmd="python3 tools/run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 tools/run.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="exploration", level_note=s.get("note", "sampled executions under monitors; no claim beyond what was observed")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="LITIV_VERIF_HOOKS", enable="harness builds pass -DLITIV_VERIF_HOOKS=1; no hook was needed in /repo so far (schedule perturbation is done by link-time wrapping of the pthread/condition-variable entry points)", source_commits=[]),
         checks=checks, not_applicable=na, notes="Every check rebuilds its harness and the /repo sources it exercises from the working tree. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
