#!/usr/bin/env python3
"""usage: tryrefac.py [id[:CHECK,..] ...]  applies each behaviour-preserving edit to /repo, builds, runs the stable tests and the listed checks, undoes."""
import json, subprocess, sys, time
ns = {}
exec(open("/verif/tools/refactors.py").read(), ns)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests"))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
for a in sys.argv[1:] or list(ns["REFS"]):
    rid, _, only = a.partition(":")
    checks, edits = ns["REFS"][rid]
    if only: checks = only.split(",")
    try:
        ok = True
        for f, old, new in edits:
            t = open("/repo/" + f).read()
            if old not in t: print(rid, "NO MATCH", f, repr(old[:80])); ok = False; break
            open("/repo/" + f, "w").write(t.replace(old, new, 1))
        if not ok: continue
        b = sh("cd /repo && GOPROXY=off GOFLAGS=-mod=readonly go vet ./... ; GOPROXY=off GOFLAGS=-mod=readonly go build ./...")
        if b.returncode: print(rid, "DOES NOT BUILD", b.stderr[-800:]); continue
        sh("bash /opt/vp/test.sh /tmp/refac.json")
        miss = stable - set(json.load(open("/tmp/refac.json"))["passed"])
        if miss: print(rid, "TESTS FAIL", sorted(miss)[:5])
        for c in checks:
            t0 = time.time()
            r = sh(f"cd /verif && ./run.sh {c} quick")
            print(rid, c, "quiet" if r.returncode == 0 else f"ALARM {r.returncode}", f"{time.time()-t0:.0f}s", "" if r.returncode == 0 else (r.stdout + r.stderr)[-1500:], flush=True)
    finally:
        sh("git -C /repo checkout -- . && git -C /repo clean -fdq")
