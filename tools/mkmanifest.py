#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
M = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read(), {"M": M})
checks, na = [], []
for p in props:
    if p in M and "technique" in M[p]:
        checks.append({"property": p, "quick_cmd": f"python3 /verif/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 /verif/check.py {p}",
                       "technique": M[p]["technique"], "level": "exploration", "level_note": M[p]["note"]})
    else:
        na.append({"property": p, "reason": M.get(p, {}).get("reason", "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 /verif/check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks: everything is observed through the public interface. Harness: /verif/harness; driver: /verif/check.py; findings: /verif/known_findings.jsonl."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
