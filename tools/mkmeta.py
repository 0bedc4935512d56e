#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
from checks import CHECKS, TECHNIQUE, NOTE
TOP = os.path.dirname(HERE)
with open(os.path.join(TOP, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i not in CHECKS:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i,
                       thorough_cmd="python3 check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=TECHNIQUE.get(i, TECHNIQUE["default"]), level=c["level"],
                       level_note=NOTE.get(i, NOTE["default"])))
m = dict(version=1, setup_cmd="python3 tools/prebuild.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors observe the public interface and the allocator, so nothing there is guarded. Commits in /repo are fix: commits only (see known_findings.txt).")
with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
