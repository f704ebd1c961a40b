#!/usr/bin/env python3
"""Writes MANIFEST.json from vc/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(os.path.join(V, "vc/props.json")))
NA = json.load(open(os.path.join(V, "vc/not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash vc/setup.sh",
     "hooks": {"guard": "cfg(chromaprint_verif)", "enable": "RUSTFLAGS='--cfg chromaprint_verif' CHROMAPRINT_VERIF_HOOKS=/verif/hooks", "source_commits": ["51e4b44"]},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in P:
        c = P[i]
        e = {"property": i, "quick_cmd": "python3 vc/check.py %s" % i, "thorough_cmd": "python3 vc/check.py %s --tier thorough" % i,
             "technique": c.get("technique", "contract-based deductive verification (Verus) of mechanically extracted real code"),
             "level": c.get("level", "proof"), "level_note": c.get("note", "")}
        if c.get("theorems"): e["theorems"] = c["theorems"]
        m["checks"].append(e)
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "contracts for this part are not written yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
