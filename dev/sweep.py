#!/usr/bin/env python3
"""dev/sweep.py [bug ids..]: applies every seeded change to the repository beside this directory (/repo for /verif), runs the check of its property, undoes it."""
import sys, os, json, subprocess, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=os.path.join(os.path.dirname(V),"repo")
ids = sys.argv[1:] or sorted(os.listdir(V+"/seeded"))
for b in ids:
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    subprocess.run(["git","-C",R,"apply",f"{V}/seeded/{b}/patch.diff"],check=True)
    try:
        p = subprocess.run(["python3",V+"/vc/check.py",m["property"]],cwd=V,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    finally:
        subprocess.run(["git","-C",R,"checkout","--","."],check=True)
    out = p.stdout.strip().splitlines()
    v = [l for l in out if l.startswith("VIOLATION")]
    print(b, "rc", p.returncode, "CAUGHT" if p.returncode==1 and v else "MISSED", v[:1])
    for l in out:
        if l.startswith(("failing input","failed obl","not proved")): print("    ", l[:260])
