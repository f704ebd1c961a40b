#!/usr/bin/env python3
"""dev/quiet.py SPEC.py [ids..]: applies behaviour-preserving edits, one at a time, to the repository beside this
directory and runs the checks that look at the edited file; a check that alarms is reported as ALARM."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.path.join(os.path.dirname(V), "repo")
ns = {}
exec(open(sys.argv[1]).read(), ns)
BY = {"audio_processor": "C07 C08 C09 C10", "chroma": "C08 C16", "chroma_filter": "C08 C11 C17", "chroma_normalizer": "C08 C18",
      "classifier": "C14", "compression": "C01 C02", "fft": "C07 C08 C11", "filter": "C13", "fingerprint_calculator": "C08 C11 C14",
      "fingerprint_matcher": "C03 C04 C05 C06 C20", "fingerprinter": "C07 C08 C09 C11 C16 C19", "gaussian": "C15 C03", "gradient": "C15",
      "quantize": "C14", "rolling_image": "C08 C12", "fpcalc": "C21 C23 C24", "compare": "C25", "cargo": "", "utils": "C22"}
ids = sys.argv[2:]
for e in ns["EDITS"]:
    i, f, subs = e[:3]
    if ids and not any(i == x or i.startswith(x + "-") for x in ids): continue
    path = {"fpcalc": "fpcalc/src/main.rs", "compare": "compare/src/main.rs", "utils": "compare/src/utils.rs"}.get(f, "chromaprint/src/%s.rs" % f)
    p = os.path.join(R, path)
    s = open(p).read()
    for a, b in subs:
        if s.count(a) < 1: print(i, "PATTERN MISSING", a[:60], flush=True); break
        s = s.replace(a, b, 1)
    else:
        try:
            open(p, "w").write(s)
            if os.environ.get("NOTEST") is None:
                q = subprocess.run(["cargo", "test", "--offline", "-q", "--workspace"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if q.returncode: print(i, "TESTS FAIL", q.stdout[-1500:], flush=True); continue
            for c in (e[3] if len(e) > 3 else BY[f]).split():
                q = subprocess.run(["python3", V + "/vc/check.py", c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                ev = json.load(open(V + "/evidence/%s.json" % c))
                lost = [l for l in q.stdout.splitlines() if l.startswith(("not proved", "failed obl"))]
                v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
                print(i, c, "quiet" if q.returncode == 0 and not v else "ALARM rc=%d %s" % (q.returncode, v[:1]), "" if not lost else "| " + lost[0][:200], flush=True)
        finally:
            subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
