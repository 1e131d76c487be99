#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED is the table of checks; properties without an entry go to not_applicable."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = "explicit enumeration of inputs on the real code against an explicit reference model"
CLAIMED = {
 "C01": (T, "Every string up to the stated length over a symbol alphabet covering all character categories and ill-formed UTF-8, every spelling of the IPA and UniDic dictionaries, every character, every run length to the stated bound, complete families of synthetic dictionaries (word costs, connection costs, context ids, invoke/group settings), saturating totals; trusts the Go runtime and the tiling oracle. Nothing is said beyond the bounds."),
 "C02": (T + " (explicit lattice, exhaustive path search)", "Cost of the returned path compared with the minimum over an independently built lattice; the reference minimum is itself checked against explicit enumeration of all paths for small inputs. Trusts the decoding of the dictionary tables (costs, connection matrix) and the statement's candidate rule."),
 "C03": (T, "Ids and classes compared with an independent enumeration of the dictionary (all spellings and ids by walking the index), over the same input space as C01."),
 "C04": (T, "All subsets of a set of overlapping user entries x all strings up to the bound with favourable and unfavourable system costs, and the IPA dictionary with a mixed user dictionary."),
 "C05": (T, "Extended compared with Search, token by token and byte by byte, over the same input space as C01."),
 "C17": (T, "All entry points compared with each other over the same input space as C01 (graph exports on a reduced one)."),
}
extra = os.path.join(here, "claimed.json")
if os.path.exists(extra):
    CLAIMED.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo; harnesses use its public interfaces, and build-time overlays where the code has to be instrumented."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not")
