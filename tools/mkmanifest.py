#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/checks")
from registry import PROPS
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in PROPS:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    r = PROPS[p["id"]]
    note = f"Seeded search over generated cases ({r['quick']} quick, {r['thorough']} thorough) in {len(r['configs'])} build configuration(s); bounded exploration, not a proof. Trusts the reference model in harness/, gcc's address and bounds sanitizers, and the case generator's reach (see DESIGN.md)."
    if r["assumptions"]:
        note += " Assumes: " + "; ".join(r["assumptions"]) + "."
    checks.append(dict(property=p["id"], quick_cmd=f"python3 checks/run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 checks/run.py {p['id']}",
                       technique=r.get("technique") or "stateful property-based testing against a reference model, coverage-guided tape search with shrinking",
                       level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 checks/run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks build the unmodified sources with sanitizers and coverage instrumentation. Replay a failure with 'python3 checks/run.py --replay <file>'.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
