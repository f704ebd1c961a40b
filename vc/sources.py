"""Fingerprints of the source files (comments and white space dropped): a check whose tree differs from the one the
contracts were written for gives its native complement more time.  `python3 vc/sources.py` records /repo's."""
import hashlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(V), "repo")
def prints(repo):
    r = {}
    for d, _, fs in os.walk(repo):
        if "/target" in d or "/." in d[len(repo):]: continue
        for f in fs:
            if f.endswith(".rs") and "/tests" not in d:
                p = os.path.join(d, f)
                t = re.sub(r"//[^\n]*", "", open(p, errors="replace").read())
                r[os.path.relpath(p, repo)] = hashlib.sha256(re.sub(r"\s+", "", t).encode()).hexdigest()[:16]
    return r
def changed():
    try: base = json.load(open(os.path.join(V, "vc", "sources.json")))
    except OSError: return True
    return prints(REPO) != base
if __name__ == "__main__":
    json.dump(prints(REPO), open(os.path.join(V, "vc", "sources.json"), "w"), indent=0, sort_keys=True)
