#!/usr/bin/env python3
"""Validates seeded changes: tools/plant.py ID...   (or --all)

For each /verif/seeded/ID: in a scratch copy of /repo, the demonstration passes
without the change, the change applies and builds, the existing tests pass with
it and the demonstration fails with it."""
import json, os, re, shutil, subprocess, sys

ROOT = "/verif/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def names(out):
    seen, ok = {}, set()
    for name in re.findall(r"^test (.+?) \.\.\. ok$", out, re.M):
        name = re.sub(r" \(line \d+\)", "", name)
        seen[name] = seen.get(name, 0) + 1
        ok.add((name, seen[name]))
    return ok

def demo(id, cwd):
    return sh(["bash", f"{ROOT}/{id}/demo.sh"], cwd)

def check(id, copy, base_tests):
    p = demo(id, copy)
    if p.returncode != 0:
        return f"demo fails on the unchanged tree\n{p.stdout[-2000:]}"
    p = sh(["git", "apply", f"{ROOT}/{id}/patch.diff"], copy)
    if p.returncode:
        return "does not apply: " + p.stdout
    try:
        p = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 && cargo check --workspace --benches --offline", copy, shell=True)
        if "error: could not compile" in p.stdout or "error[" in p.stdout:
            return "does not build\n" + p.stdout[-3000:]
        lost = base_tests - names(p.stdout)
        if lost:
            return f"existing tests fail: {sorted(lost)}"
        p = demo(id, copy)
        if p.returncode == 0:
            return "demo passes with the change"
        print("   demo:", p.stdout.strip().splitlines()[-4:])
    finally:
        sh(["git", "checkout", "--", "."], copy)
    return None

def main():
    ids = sys.argv[1:]
    if ids == ["--all"]:
        ids = sorted(os.listdir(ROOT))
    copy = "/tmp/plant-copy"
    if os.path.isdir(copy):
        shutil.rmtree("/tmp/plant-copy")
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    p = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", copy, shell=True)
    base = names(p.stdout)
    print(len(base), "tests pass on the unchanged tree")
    bad = 0
    for id in ids:
        why = check(id, copy, base)
        print(id, "OK" if why is None else "BAD: " + why, flush=True)
        bad += why is not None
    shutil.rmtree("/tmp/plant-copy")
    sys.exit(bad > 0)

main()
