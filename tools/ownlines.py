#!/usr/bin/env python3
"""lists planted bugs that remove no line of the original repository (such a bug does not count)"""
import os, re, subprocess
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
blames = {}
def own(f, n):
    if f not in blames:
        blames[f] = [l.split()[0].lstrip("^") for l in subprocess.run(["git", "-C", "/repo", "blame", "-s", "-w", f], capture_output=True, text=True).stdout.splitlines()]
    return not base.startswith(blames[f][n - 1])
for i in sorted(os.listdir("/verif/seeded")):
    removed = []
    for l in open(f"/verif/seeded/{i}/patch.diff"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-"): removed.append(own(f, n)); n += 1
        elif l.startswith(" "): n += 1
    if removed and all(removed): print("own lines only:", i)
    if subprocess.run(["git", "-C", "/repo", "apply", "--check", f"/verif/seeded/{i}/patch.diff"], capture_output=True).returncode: print("does not apply:", i)
