#!/usr/bin/env python3
"""Decides one property: vc/check.py PROP [--tier quick|thorough].  See DESIGN.md."""
import json, os, re, subprocess, sys, time, shutil, fcntl
import sources

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.join(os.path.dirname(V), "repo")
BUILD = os.path.join(V, ".build")
ENV = dict(os.environ)
T0 = time.time()

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), "timeout"

def build_tool():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "tool"))
    env.pop("RUSTFLAGS", None)
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], 600, env, os.path.join(V, "tool"))
    if rc:
        log(e)
        raise SystemExit(2)
    return os.path.join(BUILD, "tool", "debug", "extract")

def build_harness():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "harness"), RUSTFLAGS="--cfg chromaprint_verif", CHROMAPRINT_VERIF_HOOKS=os.path.join(V, "hooks"))
    # the hook text is read through include!; make sure a change of the hooks directory is noticed
    rc, o, e = sh(["cargo", "build", "--offline", "--release", "-q"], 600, env, os.path.join(V, "harness"))
    if rc:
        return None, e[-3000:]
    return os.path.join(BUILD, "harness", "release", "vharness"), ""

def build_fpcalc():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "fpcalc"), CARGO_PROFILE_DEV_OPT_LEVEL="1")
    env.pop("RUSTFLAGS", None)
    rc, o, e = sh(["cargo", "build", "--offline", "-q", "-p", "fpcalc", "-p", "compare"], 800, env, REPO)
    if rc:
        return e[-3000:]
    ENV["VC_FPCALC"] = os.path.join(BUILD, "fpcalc", "debug", "fpcalc")
    ENV["VC_COMPARE"] = os.path.join(BUILD, "fpcalc", "debug", "compare")
    return ""

# ----------------------------------------------------------------------------------------------- deductive layer
CANARY = "\n//@fn vc_canary\nverus! { proof fn vc_canary() ensures false { broadcast use {real_ax, seq_ax}; } }\n//@endfn\n"

class Unit:
    def __init__(self, name, tool, work, vacuity=False):
        self.name, self.tool, self.work = name, tool, work
        self.spec = json.load(open(os.path.join(V, "units", name + ".json")))
        self.fn = {f: {"state": "proved", "why": []} for f in self.spec["verify"]}
        self.notes, self.errors, self.diag = [], [], []
        self.smt_ms = 0
        self.obl = 0
        self.verified = 0
        self.prelude_failed = []
        self.runs = 0
        self.ok = False
        self.vacuity = vacuity
        self.trusted = []
        self.gen = ""

    def extract(self, external):
        u = dict(self.spec)
        u["external"] = sorted(external)
        if self.vacuity:
            u["vacuity"] = True
        up = os.path.join(self.work, self.name + ".json")
        json.dump(u, open(up, "w"))
        self.rs = os.path.join(self.work, self.name + ".rs")
        oj = os.path.join(self.work, self.name + ".out.json")
        rc, o, e = sh([self.tool, REPO, os.path.join(V, "contracts"), up, self.rs, oj], 120)
        if rc:
            raise RuntimeError("extraction failed: " + e[-2000:])
        return json.load(open(oj))

    def fn_at(self, ranges, line):
        for f, (a, b) in ranges.items():
            if a <= line <= b:
                return f
        return None

    def tags(self, d, lines):
        """properties named in the `//[C..]` remark of the clause, invariant or assertion that failed"""
        t = set()
        for sp in d.get("spans", []):
            if sp["line_end"] - sp["line_start"] < 3:
                for l in lines[sp["line_start"] - 1:sp["line_end"]]:
                    k = re.search(r"//\[(C[^\]]*)\]", l)
                    if k:
                        t |= set(k.group(1).split())
        return sorted(t)

    def verus(self, rlimit):
        rc, o, e = sh(["verus", self.rs, "--crate-type=bin", "--output-json", "--time", "--error-format=json", "--num-threads", "8", "--rlimit", str(rlimit), "--multiple-errors", "5"], 800)
        self.runs += 1
        ds = []
        for l in e.splitlines():
            try:
                d = json.loads(l)
                if d.get("level") == "error":
                    ds.append(d)
            except ValueError:
                pass
        try:
            js = json.loads(o)
        except ValueError:
            js = None
        return rc, js, ds, e

    def run(self, rlimit=30):
        external = set(self.spec.get("external", []))
        base_ext = set(external)
        for attempt in range(14):
            x = self.extract(external)
            self.errors = x["errors"]
            ranges = x["ranges"]
            text = open(self.rs).read()
            if not self.vacuity:
                n = text.count("\n") + 1
                open(self.rs, "w").write(text + CANARY)
                ranges["vc_canary"] = [n, n + 10]
            for f in x["functions"]:
                if f["id"] in self.fn and f["status"] not in ("ok", "assumed"):
                    if f["status"] == "structural":
                        self.fn[f["id"]].setdefault("notes", f["detail"])
                    else:
                        self.fn[f["id"]]["state"] = "undecided"
                        self.fn[f["id"]]["why"] = [f["status"] + ": " + f["detail"]]
            rc, js, ds, raw = self.verus(rlimit)
            vr = (js or {}).get("verification-results", {})
            verified, errors = vr.get("verified", 0), vr.get("errors", 0)
            front = js is None or (verified == 0 and errors == 0) or vr.get("encountered-vir-error")
            self.info = {f["id"]: f for f in x["functions"]}
            if not front:
                self.ok = True
                break
            bad = set()
            msgs = []
            for d in ds:
                msgs.append(d["message"])
                hit = None
                for prim in (True, False):
                    for s in d.get("spans", []):
                        if s["is_primary"] != prim:
                            continue
                        f = self.fn_at(ranges, s["line_start"])
                        if f and f in self.fn and f not in external:
                            hit = f
                            break
                    if hit:
                        break
                if hit:
                    bad.add(hit)
                    self.fn[hit]["state"] = "undecided"
                    self.fn[hit]["why"].append("outside the verifier's subset: " + d["message"][:300])
            self.diag.append({"front-end": msgs[:5]})
            if not bad:
                self.notes.append("front end rejects the unit: " + " | ".join(msgs[:3]) + ("" if msgs else raw[-500:]))
                for f in self.fn:
                    if self.fn[f]["state"] == "proved":
                        self.fn[f] = {"state": "undecided", "why": ["front end rejects the unit"]}
                return
            external |= bad
        if not self.ok:
            for f in self.fn:
                if self.fn[f]["state"] == "proved":
                    self.fn[f] = {"state": "undecided", "why": ["front end rejects the unit"]}
            return
        self.verified = verified
        self.obl = verified + errors
        for m in (js.get("times-ms", {}).get("smt", {}).get("smt-run-module-times") or []):
            self.smt_ms += m.get("time", 0)
        self.failed_spans = []
        canary = False
        lines = text.splitlines()
        for d in ds:
            if d["message"].startswith("aborting due to"):
                continue
            hit = None
            for prim in (True, False):
                for s in d.get("spans", []):
                    if s["is_primary"] == prim:
                        f = self.fn_at(ranges, s["line_start"])
                        if f:
                            hit = f
                            break
                if hit:
                    break
            if hit == "vc_canary":
                canary = True
                continue
            if self.vacuity:
                for s in d.get("spans", []):
                    self.failed_spans.append(s["line_start"])
                if "Resource limit" in d["message"] or "rlimit" in d["message"]:
                    # the solver could not prove `false` within its budget either
                    self.failed_spans += range(ranges[hit][0], ranges[hit][1] + 1) if hit in ranges else []
                continue
            m = re.sub(r"\s+", " ", d.get("rendered", d["message"]))[:1500]
            if hit in self.fn:
                r = self.fn[hit]
                gave_up = "rlimit" in d["message"] or "Resource limit" in d["message"]
                if gave_up:
                    if r["state"] == "proved":
                        r["state"] = "undecided"
                    r["why"].append("solver gave up (resource limit): " + m)
                else:
                    if r.get("notes"):
                        if r["state"] != "failed":
                            r["state"] = "undecided"
                        r["why"].append("anchors of the contract lost (%s); open obligation: %s" % (r["notes"], m))
                    elif hit not in external:
                        r["state"] = "failed"
                        r["why"].append(m)
                        r.setdefault("fails", []).append((self.tags(d, lines), m))
            else:
                name = "lemma"
                for sp in d.get("spans", []):
                    if sp["is_primary"]:
                        for l in reversed(text.splitlines()[:sp["line_start"]]):
                            k = re.match(r"\s*(?:pub )?(?:(?:proof|broadcast|exec|open|closed|spec) )*fn (\w+)", l)
                            if k:
                                name = k.group(1)
                                break
                        break
                gave_up = "rlimit" in d["message"] or "Resource limit" in d["message"]
                self.prelude_failed.append((name, gave_up, ("gave up: " if gave_up else "") + m))
        self.ranges = ranges
        if not self.vacuity:
            self.obl -= 1  # the canary is not an obligation of the program
            if not canary:
                self.notes.append("canary obligation was not refuted: verifier context is inconsistent or verifier did not run")
                for f in self.fn:
                    self.fn[f] = {"state": "undecided", "why": ["canary not refuted"]}
        self.gen = text
        # trusted pieces present in the generated text
        cur = None
        prel = False
        for l in text.splitlines():
            t = l.strip()
            if t.startswith("//@prelude"): prel = True
            if t.startswith("//@endprelude"): prel = False
            if re.search(r"\b(assume\(|admit\(|assume_specification|external_body|axiom fn|uninterp spec fn|external_type_specification|exec_allows_no_decreases_clause|external_trait)", t) and "fn " in t:
                k = re.search(r"external_body|assume_specification|axiom|uninterp|assume|admit", t)
                nm = re.search(r"(?:fn\s+|\[ *)([\w:<>\[\]]+)", t[k.end():])
                self.trusted.append(nm.group(1) if nm else t[:60])
        self.trusted = sorted(set(self.trusted))

def vacuity(unit_name, tool, work):
    """assert(false) at the end of every function and of every loop body must fail: contracts and invariants are satisfiable."""
    u = Unit(unit_name, tool, work, vacuity=True)
    u.run()
    if not u.ok:
        return None, ["vacuity run: front end rejects the unit"]
    marks = []
    for n, l in enumerate(open(u.rs).read().splitlines()):
        if "/*vacuity*/" in l:
            marks.append(n + 1)
    missing = [m for m in marks if m not in u.failed_spans]
    inv = []
    for m in missing:
        f = u.fn_at(u.ranges, m)
        inv.append("%s line %d" % (f, m))
    return len(marks), inv

# ----------------------------------------------------------------------------------------------- native layer
def native(h, prop, seed, ms, maxc=10**9):
    rc, o, e = sh([h, "search", prop, str(seed), str(ms), str(maxc)], ms / 1000 + 240)
    try:
        return json.loads(o.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {"ok": False, "what": "native oracle aborted (exit %s): %s" % (rc, (e or o)[-400:]), "cases": 0, "case": -1, "seed": seed}

def main():
    prop = sys.argv[1]
    tier = ENV.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(ENV.get("VERIF_SEED", "1"))
    cfg = json.load(open(os.path.join(V, "vc", "props.json")))[prop]
    known = [l.strip() for l in open(os.path.join(V, "known_findings.txt"))] if os.path.exists(os.path.join(V, "known_findings.txt")) else []
    work = os.path.join(BUILD, "work-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    violations = []

    # ---- deductive layer
    tool = build_tool() if cfg.get("units") else None
    units, targets, proofs = [], {}, []
    if tool:
        from concurrent.futures import ThreadPoolExecutor
        def one(uc):
            u = Unit(uc["unit"], tool, work)
            try:
                u.run(uc.get("rlimit", 30))
                # a solver that gave up or a failed obligation gets a second chance with more resources
                if any(r["state"] == "undecided" and any("gave up" in w for w in r["why"]) for r in u.fn.values()) or any(p[1] for p in u.prelude_failed):
                    u2 = Unit(uc["unit"], tool, work)
                    u2.run(uc.get("rlimit", 30) * 4)
                    return uc, u2
            except RuntimeError as ex:
                u.notes.append(str(ex))
                for f in u.fn:
                    u.fn[f] = {"state": "undecided", "why": [str(ex)[:500]]}
            return uc, u
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, cfg["units"]))
        for uc, u in res:
            units.append(u)
            # targets: the functions (and theorems) whose contracts state the property; the other functions of the unit only
            # support them, so an open obligation there leaves the property undecided (bounded check) instead of refuting it
            tg = uc.get("targets")
            for f in u.spec["verify"]:
                r = dict(u.fn.get(f, {"state": "undecided", "why": ["not in unit"]}))
                if tg is not None and r["state"] == "failed" and f not in tg:
                    r = {"state": "undecided", "why": ["supporting contract no longer proved: " + r["why"][0]] + r["why"][1:]}
                elif r["state"] == "failed" and r.get("fails"):
                    # several properties share the function: the clause that failed says whose it is
                    # (`untagged`: whose clauses without a remark count: true, false, or the list of those functions)
                    un = uc.get("untagged", True)
                    un = f in un if isinstance(un, list) else un
                    mine = [w for t, w in r["fails"] if prop in t or (not t and un)]
                    if not mine:
                        r = {"state": "undecided", "why": ["a clause of another property is no longer proved: " + r["why"][0]] + r["why"][1:]}
                    else:
                        r["why"] = mine + [w for w in r["why"] if w not in mine]
                if f not in targets or targets[f]["state"] == "proved":
                    targets[f] = r
            for f in tg or []:
                if f not in u.fn and not any(p[0] == f for p in u.prelude_failed) and ("fn " + f) not in u.gen:
                    targets[f] = {"state": "undecided", "why": ["not in unit"]}
            for name, gave_up, p in u.prelude_failed:
                st = "undecided" if gave_up or (tg is not None and name not in tg) else "failed"
                targets["lemma %s in unit %s" % (name, u.name)] = {"state": st, "why": [p]}
    failed = {f: r for f, r in targets.items() if r["state"] == "failed"}
    undecided = {f: r for f, r in targets.items() if r["state"] == "undecided"}

    # ---- other machine-checked parts (Kani harnesses, ..)
    extra = []
    for c in cfg.get("extra", []):
        mod = __import__("extra")
        r = getattr(mod, c["fn"])(dict(c, tier=tier, seed=seed, V=V, REPO=REPO, BUILD=BUILD, work=work, sh=sh, ENV=ENV))
        extra.append(r)
        for v in r.get("violations", []):
            violations.append(v)
        for f in r.get("failed", []):
            failed[f["name"]] = {"state": "failed", "why": [f["why"]]}
            targets[f["name"]] = failed[f["name"]]
        for f in r.get("undecided", []):
            undecided[f["name"]] = {"state": "undecided", "why": [f["why"]]}
            targets[f["name"]] = undecided[f["name"]]
        for f in r.get("proved", []):
            targets[f] = {"state": "proved", "why": []}

    # ---- native oracles
    nat = None
    nat_err = ""
    if cfg.get("native", True):
        h, nat_err = build_harness()
        if h and cfg.get("fpcalc"):
            nat_err = build_fpcalc()
            h = None if nat_err else h
        if h:
            # the proof is about real arithmetic and assumed dependencies; on a tree other than the one the contracts were
            # written for, the bounded complement on the compiled code gets more time
            quick = cfg.get("quick_ms", 5000) if not sources.changed() else cfg.get("changed_ms", 40000)
            ms = quick if tier == "quick" else cfg.get("thorough_ms", 120000)
            nat = native(h, prop, seed, ms)
            if nat["ok"] and (failed or undecided):
                n2 = native(h, prop, seed + 7919, cfg.get("search_ms", 60000))
                n2["cases"] += nat["cases"]
                nat = n2
            if not nat["ok"]:
                violations.append({"kind": "input", "what": nat["what"], "replay": {"cmd": [h, "one", prop, str(nat.get("seed", seed)), str(nat.get("case", -1))], "seed": nat.get("seed"), "case": nat.get("case")}})
        else:
            log("native harness does not build:", nat_err)

    # ---- assumed contracts against the real dependencies (evidence about the trusted base; decides nothing)
    conf = {}
    if nat is not None and cfg.get("units"):
        names = {uc["unit"] for uc in cfg["units"]}
        used = ["A-std", "A-float"] + (["A-resampler"] if "audio" in names else []) + (["A-fft"] if "fft" in names else [])
        for a in used:
            conf[a] = native(h, a, seed, 300 if tier == "quick" else 20000)
            if not conf[a]["ok"]:
                log("an assumed contract does not hold:", a, conf[a].get("what"))

    # ---- vacuity (thorough)
    vac = None
    if tier == "thorough" and tool and not failed and not undecided:
        vac = {"probes": 0, "unsatisfiable": []}
        for uc in cfg["units"]:
            n, inv = vacuity(uc["unit"], tool, work)
            vac["probes"] += n or 0
            ok = json.load(open(os.path.join(V, "units", uc["unit"] + ".json"))).get("vacuous_ok", [])
            vac["unsatisfiable"] += [x for x in inv if x.split(" line ")[0] not in ok]
        allowed = set(cfg.get("vacuous_ok", []))
        vac["unsatisfiable"] = [x for x in vac["unsatisfiable"] if x.split(" line ")[0] not in allowed]
        if vac["unsatisfiable"]:
            for x in vac["unsatisfiable"]:
                log("contract or invariant unsatisfiable:", x)

    # ---- verdict
    out = []
    replay = os.path.join(BUILD, "replay", prop + ".json")
    rc = 0
    proof_part = {f: r["why"][:4] for f, r in failed.items()}
    kf = [l for l in known if l.startswith("KNOWN-FINDING: property=%s " % prop)]
    for l in kf:
        print(l)
    if violations:
        rc = 1
        json.dump({"property": prop, "failing_input": violations, "failed_obligations": proof_part, "how_to_replay": "run `cmd` after the check has built the harness"}, open(replay, "w"), indent=1)
        for v in violations:
            print("failing input:", v["what"])
        for f, w in proof_part.items():
            print("failed obligation in %s: %s" % (f, w[0][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif failed:
        rc = 1
        json.dump({"property": prop, "failed_obligations": proof_part, "verifier_output": {u.name: u.fn for u in units}, "native_search": nat}, open(replay, "w"), indent=1)
        for f, w in proof_part.items():
            print("failed obligation in %s: %s" % (f, w[0][:400]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    elif undecided:
        for f, r in undecided.items():
            print("not proved on this tree (bounded check instead): %s: %s" % (f, "; ".join(r["why"])[:300]))
    obl = sum(u.obl for u in units) + sum(r.get("obligations", 0) for r in extra)
    dis = sum(u.verified for u in units) + sum(r.get("discharged", 0) for r in extra)
    trusted = sorted(set(t for u in units for t in u.trusted))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "; ".join(["verus .build/work-%s/%s.rs (generated from /repo by .build/tool/debug/extract)" % (prop, u.name) for u in units] + [r["cmd"] for r in extra if r.get("cmd")]),
            "trusted_base": ["Verus 0.2026.09.13 with Z3", "the extraction rules R1..R26 of /verif/tool (DESIGN.md)"] + ["trusted: " + t for t in trusted] + cfg.get("trusted", []),
            "functions_under_contract": {f: r["state"] for f, r in targets.items()},
            "failed": proof_part,
            "undecided_bounded_standin": {f: r["why"][:2] for f, r in undecided.items()},
            "solver_ms": sum(u.smt_ms for u in units), "verifier_runs": sum(u.runs for u in units),
            "notes": [n for u in units for n in u.notes] + [e for u in units for e in u.errors],
            "native_oracle": nat if nat is not None else {"unavailable": nat_err[-500:]},
            "vacuity": vac,
            "assumed_contracts_sampled": conf,
            "extra": [{k: v for k, v in r.items() if k in ("name", "cmd", "obligations", "discharged", "cases", "explanation", "proved")} for r in extra],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": 1 if rc else 0,
    }
    if cfg.get("level") in ("exploration",):
        ev["coverage"]["evaluations"] = (nat or {}).get("cases", 0) + sum(r.get("cases", 0) for r in extra)
        ev["coverage"]["distinct_nontrivial"] = ev["coverage"]["evaluations"]
        ev["coverage"]["rule"] = cfg.get("rule", "")
        ev["coverage"]["samples"] = [s for r in extra for s in r.get("samples", [])] or [cfg.get("rule", "")]
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d of %d obligations discharged, %d functions under contract, native cases %s, %.1f s" % (prop, dis, obl, len(targets), (nat or {}).get("cases", "-"), time.time() - T0))
    sys.exit(rc)

if __name__ == "__main__":
    sys.path.insert(0, os.path.join(V, "vc"))
    main()
