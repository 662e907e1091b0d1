#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason="the check for this property is not built yet"))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="Harnesses are an external Go module (harness/) that replaces the library by /repo; no hooks are needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
