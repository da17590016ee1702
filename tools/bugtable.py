#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
R = "/verif"
c = json.load(open(R + "/tools/caught.json"))
rows = []
for id in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{id}/meta.json"))
    need = m["needs"].replace("|", "/").rstrip(".")
    rows.append(f"| {id} ({m['property']}) | {need} | {c.get(id.split('-')[0], 'not run yet')} |")
s = open(R + "/DESIGN.md").read()
s = re.sub(r"(\| bug \| what it needs to manifest \| reported by \|\n\|---\|---\|---\|\n)(?:(?:\||@@TABLE@@).*\n)*", lambda k: k.group(1) + "\n".join(rows) + "\n", s)
open(R + "/DESIGN.md", "w").write(s)
