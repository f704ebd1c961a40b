#!/usr/bin/env python3
"""Development tool: records binder names, loop structure and callees of the functions under contract on the unchanged tree."""
import json, os, subprocess, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bl = os.path.join(V, "contracts", "baseline.json")
if os.path.exists(bl): os.remove(bl)
out = {}
for u in sorted(glob.glob(os.path.join(V, "units", "*.json"))):
    subprocess.check_call([os.path.join(V, ".build/tool/debug/extract"), "/repo", os.path.join(V, "contracts"), u, "/tmp/bl.rs", "/tmp/bl.json"])
    for f in json.load(open("/tmp/bl.json"))["functions"]:
        if f["status"] in ("ok",) and f["info"]:
            i = f["info"]
            out[f["id"]] = {"binders": i["binders"], "post": i["post"], "bounds": i["bounds"], "loops": i["loops"], "callees": i["callees"], "outer": i["outer"]}
        elif f["status"] != "assumed": print("!!", u, f["id"], f["status"], f["detail"])
json.dump(out, open(bl, "w"), indent=0, sort_keys=True)
print(len(out), "functions")
