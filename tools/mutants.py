#!/usr/bin/env python3
"""usage: mutants.py survivors OUT.jsonl [file ...]   small changes of /repo's files (tools/mutate) that compile and pass the stable tests
       mutants.py checks IN.jsonl OUT.jsonl [n k]     runs the quick checks on each of them (every n-th from k) until one catches it; run it under ns.sh"""
import json, os, subprocess, sys, tempfile, shutil, threading, queue, time
ORDER = {
 "tokenizer/lattice/": "C02 C01 C03 C04 C14 C17 C05 C06 C07", "tokenizer/tokenizer.go": "C17 C01 C05 C14 C03 C06 C07", "tokenizer/tokenizer_option.go": "C17 C04 C18", "tokenizer/token.go": "C08 C10 C13 C14",
 "filter/sentence": "C11 C12", "filter/ja": "C10", "filter/": "C09 C10", "cmd/server/api": "C13", "cmd/server/demo": "C15", "cmd/server/cmd": "C19 C18 C13", "cmd/tokenize": "C16 C18 C20", "cmd/sentence": "C16 C18 C20", "cmd/lattice": "C16 C18 C20", "kagome.go": "C18 C20"}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests"))
env = {**os.environ, "GOPROXY": "off", "GOFLAGS": "-mod=readonly", "GOMAXPROCS": "3"}
def apply(root, m):
    p = f"{root}/{m['file']}"; t = open(p, "rb").read()
    open(p, "wb").write(t[:m["Start"]] + m["New"].encode() + t[m["End"]:])
    return p, t
if sys.argv[1] == "survivors":
    files = sys.argv[3:] or [f for f in sh("cd /repo && git ls-files '*.go' | grep -v -e _test.go -e _examples -e doc.go").stdout.split()]
    sh("cd /verif/tools/mutate && GOFLAGS= go build -o /tmp/mutate .", env=env)
    q = queue.Queue()
    for l in sh("cd /repo && /tmp/mutate " + " ".join(files)).stdout.splitlines(): q.put(json.loads(l))
    out = open(sys.argv[2], "w"); lock = threading.Lock(); n = [0, 0, 0]
    def work():
        d = tempfile.mkdtemp(prefix="mut-"); sh(f"cp -a /repo {d}/repo"); r = d + "/repo"
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p, t = apply(r, m)
            try:
                b = sh("go build ./...", cwd=r, env=env)
                if b.returncode: n[0] += 1; continue
                # most tests of package filter panic: one process each
                one = sorted({x.split("/")[-1] for x in stable if "/v2/filter/" in x and "/ja/" not in x})
                try: o = sh("timeout 100 go test -json -vet=off $(go list ./... | grep -v '/v2/filter$')" + "".join(f"; timeout 20 go test -json -vet=off -run '^{x}$' ./filter" for x in one), cwd=r, env=env, timeout=300).stdout
                except subprocess.TimeoutExpired: n[1] += 1; continue
                passed = set()
                for l in o.splitlines():
                    try: e = json.loads(l)
                    except ValueError: continue
                    if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
                if stable - passed: n[1] += 1; continue
                n[2] += 1
                with lock: out.write(json.dumps(m) + "\n"); out.flush()
            finally: open(p, "wb").write(t)
        shutil.rmtree(d)
    ts = [threading.Thread(target=work) for _ in range(4)]
    for x in ts: x.start()
    for x in ts: x.join()
    print("not compiling", n[0], "killed by tests", n[1], "survivors", n[2])
else:
    ms = [json.loads(l) for l in open(sys.argv[2])]
    n, k = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (1, 0)
    out = open(sys.argv[3], "a")
    for m in ms[k::n]:
        cs = next(v for a, v in ORDER.items() if m["file"].startswith(a)).split()[:int(os.environ.get("MUT_MAX", 99))]
        p, t = apply("/repo", m)
        res = "missed"
        t0 = time.time()
        try:
            for c in cs:
                try: r = sh(f"cd /verif && timeout 800 ./run.sh {c} quick")
                except Exception as e: res = "error " + str(e); break
                if r.returncode == 1: res = c; break
                if r.returncode: res = f"{c} exit {r.returncode} " + r.stderr[-300:]; break
        finally: open(p, "wb").write(t)
        out.write(json.dumps({**m, "result": res, "time": int(time.time() - t0)}) + "\n"); out.flush()
