#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs import SPECS, NOT_APPLICABLE
checks = []
for pid in sorted(SPECS):
    s = SPECS[pid]
    checks.append(dict(property=pid, quick_cmd="python3 check.py " + pid,
        thorough_cmd="VERIF_TIER=thorough python3 check.py " + pid,
        evidence_file="evidence/%s.json" % pid,
        technique=s.get("technique", "runtime monitoring: model-based monitor over randomized histories under ASan+UBSan"),
        level=s.get("level", "exploration"),
        level_note=s.get("note", "Held on the executions explored (counts in the evidence file); trusts the compiler, the sanitizer runtimes and the reference model in harness/.")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes="No hooks are needed in /repo: harnesses use the public API, link-time wrapping of system calls and scripted peers. known_findings.json lists repaired defects and known findings.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
