#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vp/catalog.py and vp/props.py."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from vp.catalog import CAT, NA
from vp.props import PROPS
with open("properties.jsonl", "w") as f:
    for pid in sorted(CAT):
        assert len(CAT[pid]["title"]) <= 80, pid
        f.write(json.dumps({k: v for k, v in CAT[pid].items() if k[0] != "_"}) + "\n")
checks = []
for pid in sorted(CAT):
    if pid in NA: continue
    p = PROPS[pid]
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid, evidence_file="evidence/%s.json" % pid,
                       technique=p.get("technique") or "symbolic execution of the library's LLVM IR (own executor over z3), counterexamples replayed on a sanitised native build",
                       level=p["level"], level_note="Bounds: %s. Assumes: %s." % (p["bounds"], "; ".join(p["assumptions"]))))
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="No hooks in /repo. engine/ is the symbolic executor, harness/ the harnesses, vp/props.py the units and bounds, known_findings.json the findings.")
json.dump(m, open("MANIFEST.json", "w"), indent=1); print(len(checks), "checks", len(NA), "not applicable")
miss = set(PROPS) - set(CAT); assert not miss, miss
