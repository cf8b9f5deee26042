#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run after adding a check)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
               technique=CHECKS[p].get("technique", "runtime monitoring: recorded history against a reference model"),
               level="exploration", level_note=CHECKS[p].get("note", "held on the executions produced; trusts the Go runtime and the harness's reference model"))
          for p in props if p in CHECKS]
na = [dict(property=p, reason="check not built yet") for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
     notes="No hooks: the monitors use the exported API only. VERIF_SEED and VERIF_TIER are honoured; python3 check.py --replay FILE repeats a violation."),
     open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
