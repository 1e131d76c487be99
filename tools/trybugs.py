#!/usr/bin/env python3
"""usage: trybugs.py [-a] [seed id ...]  applies each seeded change to /repo, runs the quick check of its property (-a: all checks), undoes it."""
import json, os, subprocess, sys, time
root = "/verif"
args = sys.argv[1:]
allc = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(root + "/seeded"))
claimed = [c["property"] for c in json.load(open(root + "/MANIFEST.json"))["checks"]]
for i in ids:
    p = f"{root}/seeded/{i}"
    prop = json.load(open(p + "/meta.json"))["property"]
    if subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip():
        sys.exit("/repo not clean")
    if subprocess.run(["git", "-C", "/repo", "apply", p + "/patch.diff"]).returncode: print(i, "does not apply"); continue
    try:
        for c in (claimed if allc else [prop]):
            t = time.time()
            r = subprocess.run([root + "/run.sh", c, "quick"], capture_output=True, text=True, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i:28s} {c} exit={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else 'NO ANSWER'} {time.time()-t:.0f}s {v[:1]}", flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-1500:])
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
