#!/usr/bin/env python3
"""usage: mkseed.py SPEC.py [id ...]   SPEC defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo="go main" or demo_sh=..)}
Builds the patch in a scratch copy of /repo, checks that it compiles, passes the stable tests, and that the demonstration
fails with it and passes without it; then stores it in /verif/seeded/<id>."""
import json, os, subprocess, sys, shutil, tempfile
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change; run with the repository as working directory
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOFLAGS=-mod=readonly
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
cd "$tmp" && timeout 200 ./demo
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:] or list(ns["SEEDS"])
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests"))
for sid in want:
    s = ns["SEEDS"][sid]
    work = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = work + "/repo"
        sh(f"git clone -q /repo {repo}")
        dst = work + "/seed"; os.mkdir(dst)
        if "demo_sh" in s:
            open(dst + "/demo.sh", "w").write(s["demo_sh"])
        else:
            open(dst + "/demo.sh", "w").write(SH)
        for n, t in s.get("files", {}).items(): open(f"{dst}/{n}", "w").write(t)
        if "demo" in s: open(dst + "/main.go", "w").write(s["demo"])
        os.chmod(dst + "/demo.sh", 0o755)
        r = sh(f"bash {dst}/demo.sh", cwd=repo)
        if r.returncode != 0:
            print(sid, "DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-1500:], r.stderr[-1500:]); continue
        bad = False
        for f, old, new in s["edits"]:
            p = f"{repo}/{f}"; t = open(p).read()
            if t.count(old) < 1: print(sid, "NO MATCH in", f, repr(old)); bad = True; break
            open(p, "w").write(t.replace(old, new, 1))
        if bad: continue
        b = sh("go build ./...", cwd=repo, env={**os.environ, "GOPROXY": "off", "GOFLAGS": "-mod=readonly"})
        if b.returncode: print(sid, "DOES NOT BUILD", b.stderr[-1500:]); continue
        diff = sh("git diff", cwd=repo).stdout
        r = sh(f"bash {dst}/demo.sh", cwd=repo)
        if r.returncode == 0: print(sid, "DEMO PASSES WITH THE CHANGE", r.stdout[-500:]); continue
        demo_out = (r.stdout + r.stderr)[-300:]
        # tests: test.sh works on /repo, so apply there and undo
        open(work + "/p.diff", "w").write(diff)
        if sh("git status --porcelain", cwd="/repo").stdout.strip(): print("/repo is not clean"); sys.exit(1)
        a = sh(f"git -C /repo apply {work}/p.diff")
        if a.returncode: print(sid, "DOES NOT APPLY", a.stderr); continue
        try:
            sh(f"bash /opt/vp/test.sh {work}/o.json")
            passed = set(json.load(open(work + "/o.json"))["passed"])
        finally:
            sh("git -C /repo checkout -- .")
        miss = stable - passed
        if miss: print(sid, "TESTS FAIL:", sorted(miss)[:5]); continue
        out = os.environ.get("SEED_OUT", "/verif/seeded") + "/" + sid
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(dst, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1, ensure_ascii=False)
        print(sid, "kept;", demo_out.strip().replace("\n", " | "))
    finally:
        shutil.rmtree(work, ignore_errors=True)
