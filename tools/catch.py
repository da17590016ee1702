#!/usr/bin/env python3
"""Which checks report a seeded change: tools/catch.py [--all-checks] [--tier T] ID...

Applies each patch to /repo, runs the check of its property (or every check),
and undoes it straight afterwards."""
import json, os, subprocess, sys
ROOT = "/verif"
args = sys.argv[1:]
every = "--all-checks" in args
args = [a for a in args if a != "--all-checks"]
ids = args or sorted(os.listdir(f"{ROOT}/seeded"))
man = json.load(open(f"{ROOT}/MANIFEST.json"))
cmds = {c["property"] if "property" in c else c["id"]: c for c in man["checks"]}
for id in ids:
    meta = json.load(open(f"{ROOT}/seeded/{id}/meta.json"))
    subprocess.run(["git", "-C", "/repo", "apply", f"{ROOT}/seeded/{id}/patch.diff"], check=True)
    try:
        props = sorted(cmds) if every else [meta["property"]]
        hits = []
        for p in props:
            if p not in cmds:
                hits.append(f"{p}: unclaimed"); continue
            env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            r = subprocess.run(["python3", f"{ROOT}/check.py", p], cwd=ROOT, env=env, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 1 and lines:
                hits.append(f"{p}: CAUGHT")
            elif r.returncode:
                hits.append(f"{p}: exit {r.returncode} {r.stdout[-300:]}")
            elif not every:
                hits.append(f"{p}: missed")
        print(id, f"[{meta['property']}]", "; ".join(hits), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
