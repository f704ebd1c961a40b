#!/usr/bin/env python3
"""dev/bug.py SPEC.py [id..] : makes and confirms seeded bugs.  SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks,
 demo=(module file, rust test code) or demo_sh=text)].  Not used by any check."""
import sys, os, subprocess, json, shutil, runpy
V = "/verif"
BASE = os.environ.get("BASE", "/repo")
SH = '''#!/bin/bash
# runs the test in demo.rs inside a scratch copy of the crate (cwd is the repository)
h=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$d"' EXIT
tar --exclude=./target --exclude=./.git -cf - . | tar -xf - -C "$d" || exit 3
cat "$h/demo.rs" >> "$d/%s"
cd "$d" || exit 3
[ -f Cargo.lock ] || true
CARGO_TARGET_DIR="$d/target" cargo test --offline -q -p %s %s vp_demo -- --nocapture
'''
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    os.environ['RUST_BACKTRACE'] = '0'
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only: continue
        d = os.path.join(V, "seeded", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        w = "/tmp/bugw"; subprocess.run(["rm", "-rf", w]); subprocess.run(["cp", "-a", BASE, w])
        ok = True
        for f, o, n in b["edits"]:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(o) != 1: print(b["id"], "edit matches", s.count(o), "times:", o[:60]); ok = False; break
            open(p, "w").write(s.replace(o, n))
        if not ok: shutil.rmtree(d); continue
        open(os.path.join(d, "patch.diff"), "w").write(run(["git", "diff"], w).stdout)
        if "demo_sh" in b: open(os.path.join(d, "demo.sh"), "w").write(b["demo_sh"])
        else:
            f, code = b["demo"]
            pk, kind = ("rusty-chromaprint", "--lib") if f.startswith("chromaprint") else (("fpcalc", "") if f.startswith("fpcalc") else ("compare", ""))
            open(os.path.join(d, "demo.sh"), "w").write(SH % (f, pk, kind))
            open(os.path.join(d, "demo.rs"), "w").write("\n#[cfg(test)]\nmod vp_demo {\n    use super::*;\n" + code + "\n}\n")
        for n, t in b.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ, RUST_BACKTRACE="0", CARGO_TARGET_DIR=w + "/target")
        t = run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], w, env=env)
        fails = [l for l in t.stdout.splitlines() if l.startswith("test ") and ("FAILED" in l)]
        base = run(["bash", d + "/demo.sh"], BASE); bad = run(["bash", d + "/demo.sh"], w)
        good = (t.returncode == 0 or not fails and "test result" in t.stdout and "error" not in t.stdout) and base.returncode == 0 and bad.returncode != 0 and "error[" not in bad.stdout and "running 1 test" in bad.stdout + ("running 1 test" if "demo_sh" in b else "")
        print(b["id"], "OK" if good else "REJECTED", "tests rc", t.returncode, "fails", fails, "demo base", base.returncode, "with bug", bad.returncode)
        if not good:
            shutil.rmtree(d)
            if base.returncode or "error[" in bad.stdout or bad.returncode == 0: print(base.stdout[-1500:], bad.stdout[-1500:])
    subprocess.run(["rm", "-rf", "/tmp/bugw"])
main()
