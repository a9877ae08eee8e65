#!/usr/bin/env python3
"""Decide one property: check.py ID [quick|thorough]

1. Kani discharges the contracts of kani/harness/src/<id>.rs against /repo's current source.
2. Verus discharges the contracts laid over functions extracted from /repo's current source.
3. Whatever a verifier refutes or cannot decide is run natively (kani/native) to obtain a
   failing input on the real, unpatched code; bounded stand-ins always run natively.
Exit 0 / 1 with a VIOLATION line; exit 2 only if nothing at all could be built.
"""
import hashlib, json, os, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import props as P
import patchdeps

T0 = time.time()
PID = sys.argv[1]
TIER = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
C = P.PROPS[PID]
BUILD = os.path.join(ROOT, "build")
KT = os.path.join(BUILD, "kani-target")
NT = os.path.join(BUILD, "native-target")
THOROUGH = TIER == "thorough"
DEADLINE = T0 + (5400 if THOROUGH else 760)
os.makedirs(BUILD, exist_ok=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def left():
    return max(5.0, DEADLINE - time.time())

def sh(cmd, cwd, timeout):
    """Run; on timeout end the whole process group."""
    import signal
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return 124, out or ""

# ---------------------------------------------------------------- native
native = {"built": None, "log": ""}
def native_build():
    if native["built"] is None:
        t = time.time()
        rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", NT],
                     os.path.join(ROOT, "kani", "native"), min(left(), 600))
        native["built"] = rc == 0
        native["log"] = out[-4000:]
        log("native build", "ok" if rc == 0 else "FAILED", "%.1fs" % (time.time() - t))
        if rc != 0:
            print(out[-3000:])
    return native["built"]

FVN = os.path.join(NT, "release", "fvn")
def native_search(prefixes, millis, maxiter=10**9, exact=False):
    if not prefixes or not native_build():
        return []
    rc, out = sh([FVN, "search", str(SEED), str(millis), str(maxiter)] + list(prefixes), ROOT, left())
    rows = []
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                rows.append(json.loads(l))
            except ValueError:
                pass
    if rc not in (0,):
        rows.append({"contract": "native-run", "held": rc == 124, "evals": 0, "distinct": 0, "discards": 0,
                     "message": "native run ended with status %d: %s" % (rc, out[-300:]), "tape": "", "sample": "", "secs": 0})
    if exact:
        rows = [r for r in rows if r["contract"] in prefixes or r["contract"] == "native-run"]
    return rows

def native_replay(name, tape):
    if not native_build():
        return None
    rc, out = sh([FVN, "replay", name, tape], ROOT, 60)
    return out.strip() if rc != 0 and ("FAILED" in out or rc < 0) else None

# ---------------------------------------------------------------- kani
IGNORED = ("NaN on ",)
def kani_cmd(harnesses, timeout, out, extra=()):
    cmd = ["cargo", "kani", "--features", C["feature"], "--target-dir", KT]
    for h in harnesses:
        cmd += ["--harness", h]
    cmd += ["-j", "8", "--output-format", "terse", "--no-assertion-reach-checks", "--no-overflow-checks",
            "-Z", "unstable-options", "--harness-timeout", "%ds" % timeout, "--export-json", out]
    return cmd + list(extra)

kani = {"harnesses": 0, "obligations": 0, "discharged": 0, "ok": [], "refuted": {}, "undecided": {},
        "solver_s": 0.0, "functions": set(), "built": True, "log": "", "cmd": "", "wall": 0.0, "vacuous": []}
def run_kani():
    pre = list(C.get("kani", [])) + (list(C.get("kani_thorough", [])) if THOROUGH else [])
    if not pre:
        return
    patchdeps.main()
    outj = os.path.join(BUILD, "kani_%s.json" % PID)
    if os.path.exists(outj):
        os.remove(outj)
    ht = 900 if THOROUGH else C.get("harness_timeout", 330)
    cmd = kani_cmd(pre, ht, outj)
    kani["cmd"] = " ".join(cmd)
    t = time.time()
    reserve = 120 if not THOROUGH else 300
    rc, out = sh(cmd, os.path.join(ROOT, "kani", "harness"), max(60, left() - reserve))
    kani["wall"] = time.time() - t
    kani["log"] = out[-6000:]
    expected = harness_names(pre)
    if not os.path.exists(outj):
        if rc == 124:
            for h in expected:
                kani["undecided"][h] = "time limit of the run"
        else:
            kani["built"] = False
            print(out[-3000:])
        # terse output still tells which harnesses finished
        return
    d = json.load(open(outj))
    stats = {}
    for x in d.get("cbmc", []):
        if isinstance(x, dict):
            cs = x.get("cbmc_stats") or {}
            for k, v in cs.items():
                if "solver" in k and isinstance(v, (int, float)):
                    kani["solver_s"] += v
    seen = set()
    for r in d["verification_results"]["results"]:
        h = r["harness_id"].split("::")[-1]
        seen.add(h)
        kani["harnesses"] += 1
        checks = [c for c in r.get("checks", []) if not c.get("description", "").startswith(IGNORED)]
        cov = [c for c in checks if c.get("status") in ("Satisfied", "Unsatisfiable")]
        rest = [c for c in checks if c.get("status") not in ("Satisfied", "Unsatisfiable")]
        bad = [c for c in rest if c.get("status") in ("Failure",)]
        und = [c for c in rest if c.get("status") in ("Undetermined", "Unknown")]
        kani["obligations"] += len(rest)
        kani["discharged"] += sum(1 for c in rest if c.get("status") in ("Success", "Unreachable"))
        for c in rest:
            f = (c.get("location") or {}).get("file") or ""
            if "/repo/src" in f or f.startswith("../../../repo/src") or "repo/src/" in f:
                kani["functions"].add((f.split("repo/")[-1], shorten(c.get("function") or "")))
        soft = [c for c in bad if "unwinding" in c.get("description", "").lower() or "unsupported" in (c.get("category") or "").lower()
                or "not currently supported" in c.get("description", "")]
        hard = [c for c in bad if c not in soft]
        if hard and not soft:
            kani["refuted"][h] = [("%s [%s:%s]" % (c.get("description"), (c.get("location") or {}).get("file"), (c.get("location") or {}).get("line"))) for c in hard][:6]
        elif hard or soft:
            kani["undecided"][h] = "loop bound or unsupported construct: %s" % (soft or hard)[0].get("description")
        elif r["status"] != "Success" and (und or not rest or True) and not (rest and not und and not bad and r["status"] == "Failure" and any(c["status"] == "Unsatisfiable" for c in cov) is False and ignored_only(r)):
            kani["undecided"][h] = "solver limit (time or memory)"
        elif not rest:
            kani["undecided"][h] = "no obligations generated"
        elif not any(c["status"] == "Satisfied" for c in cov):
            kani["undecided"][h] = "vacuous: end of contract unreachable"
            kani["vacuous"].append(h)
        else:
            kani["ok"].append(h)
    for h in expected - seen:
        kani["undecided"][h] = "not run"
    log("kani: %d harnesses, %d obligations, %d discharged, refuted %s, undecided %s, %.0fs" % (
        kani["harnesses"], kani["obligations"], kani["discharged"], list(kani["refuted"]), kani["undecided"], kani["wall"]))

def shorten(fn):
    """Drop generic arguments: <a::Pipe<X, Y> as b::AudioNode>::tick -> Pipe::tick."""
    fn = re.sub(r'::\{closure.*$', '', fn)
    prev = None
    m = re.match(r'^<(.*?)(<.*>)? as .*>::(\w+)', fn)
    if m:
        return m.group(1).split("::")[-1].split("<")[0] + "::" + m.group(3)
    while prev != fn:
        prev = fn
        fn = re.sub(r'(::)?<[^<>]*>', '', fn)
    return "::".join(fn.split("::")[-2:])

def ignored_only(r):
    """The harness failed only because of ignored check classes."""
    bad = [c for c in r.get("checks", []) if c.get("status") == "Failure"]
    return bool(bad) and all(c.get("description", "").startswith(IGNORED) for c in bad)

def harness_names(prefixes):
    names = set()
    f = os.path.join(ROOT, "kani", "harness", "src", C["feature"] + ".rs")
    s = open(f).read()
    for m in re.finditer(r'^\s*fn (\w+) \[', s, re.M):
        if any(p in m.group(1) for p in prefixes):
            names.add(m.group(1))
    return names

def playback(h):
    """Concrete draws of Kani's counterexample, as hex words."""
    outj = os.path.join(BUILD, "pb.json")
    cmd = ["cargo", "kani", "--features", C["feature"], "--target-dir", KT, "--harness", h, "--no-assertion-reach-checks",
           "--no-overflow-checks", "-Z", "unstable-options", "-Z", "concrete-playback", "--concrete-playback", "print",
           "--harness-timeout", "200s"]
    rc, out = sh(cmd, os.path.join(ROOT, "kani", "harness"), min(left(), 260))
    tapes = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        words = re.findall(r'vec!\[([0-9, ]*)\]', m.group(1))
        tapes.append(",".join("".join("%02x" % int(b) for b in w.split(",") if b.strip()) for w in words))
    return tapes, out[-3000:]

# ---------------------------------------------------------------- main
violations = []   # (kind, contract, text, replay dict)
def report(kind, contract, text, replay):
    violations.append((kind, contract, text, replay))

verus = {"units": [], "verified": 0, "refuted": {}, "undecided": {}, "functions": [], "seconds": 0.0, "trusted": [], "cmd": ""}
def run_verus():
    if not C.get("verus"):
        return
    import vx
    for unit in C["verus"]:
        r = vx.run(unit, THOROUGH)
        verus["units"].append({k: r[k] for k in ("unit", "status", "verified", "errors", "functions", "dropped", "seconds")})
        verus["verified"] += r["verified"]
        verus["seconds"] += r["seconds"]
        verus["functions"] += r["functions"]
        verus["trusted"] += r["trusted"]
        verus["cmd"] = r["cmd"]
        if r["status"] == "refuted":
            verus["refuted"][unit] = r["detail"]
        elif r["status"] != "ok":
            verus["undecided"][unit] = r["detail"]
        log("verus %s: %s, %d verified, %d errors, %.1fs" % (unit, r["status"], r["verified"], r["errors"], r["seconds"]))

def main():
    run_verus()
    run_kani()
    bounded_rows, fallback_rows = [], []
    # Bounded stand-ins: always.
    if C.get("bounded"):
        ms = C.get("bounded_ms", 2500) * (6 if THOROUGH else 1)
        bounded_rows = native_search(C["bounded"], ms)
        log("bounded stand-ins: %d contracts, %d evaluations" % (len(bounded_rows), sum(r["evals"] for r in bounded_rows)))
    # Native search of whatever is refuted or undecided.
    cand = list(kani["refuted"]) + list(kani["undecided"])
    if not kani["built"]:
        cand = C.get("kani", [])
    if (verus["refuted"] or verus["undecided"]) and C.get("verus_native"):
        cand += C["verus_native"]
    if cand:
        fallback_rows = native_search(cand, 6000)
        log("native search of refuted/undecided: %d contracts, %d evaluations" % (len(fallback_rows), sum(r["evals"] for r in fallback_rows)))
    known = [k for k in P.known_findings() if k["property"] == PID and k.get("status") == "open"]
    for r in bounded_rows + fallback_rows:
        if not r["held"]:
            kf = [k for k in known if k["contract"] == r["contract"]]
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (PID, kf[0]["what"]))
                continue
            report("input", r["contract"], r["message"], {"contract": r["contract"], "tape": r["tape"], "message": r["message"],
                   "replay_cmd": "%s replay %s '%s'" % (FVN, r["contract"], r["tape"])})
    if not violations:
        for h, why in kani["refuted"].items():
            tapes, out = ([], "")
            if left() > 150:
                tapes, out = playback(h)
            hit = None
            for t in tapes:
                m = native_replay(h, t)
                if m:
                    hit = (t, m)
                    break
            if hit:
                report("input", h, hit[1], {"contract": h, "tape": hit[0], "message": hit[1], "verifier": why,
                       "replay_cmd": "%s replay %s '%s'" % (FVN, h, hit[0])})
                break
            report("obligation", h, "; ".join(why), {"contract": h, "failed_obligations": why, "counterexample_draws": tapes, "verifier_output": out})
        for u, why in verus["refuted"].items():
            report("obligation", u, why[:300], {"unit": u, "failed_obligations": why, "verifier_output": why})
    # A violation with a failing input takes precedence.
    violations.sort(key=lambda v: v[0] != "input")
    ev = evidence(bounded_rows, fallback_rows)
    json.dump(ev, open(os.path.join(ROOT, "evidence", PID + ".json"), "w"), indent=1)
    if violations:
        kind, contract, text, rep = violations[0]
        rp = os.path.join(BUILD, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s_%s.json" % (PID, contract))
        json.dump({"property": PID, "kind": kind, "all": [(v[0], v[1], v[2]) for v in violations], **rep}, open(path, "w"), indent=1)
        for v in violations[:8]:
            log("violated:", v[1], "-", v[2])
        print("VIOLATION property=%s replay=%s%s" % (PID, path, "" if kind == "input" else " no-failing-input-found"), flush=True)
        return 1
    nothing = (C.get("kani") and not kani["built"]) and native["built"] is False
    if nothing:
        log("the contracts no longer build against /repo: no answer")
        return 2
    log("held")
    return 0

def evidence(bounded_rows, fallback_rows):
    ob = kani["obligations"] + verus["verified"] + sum(u["errors"] for u in verus["units"])
    di = kani["discharged"] + verus["verified"]
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": " && ".join(x for x in (verus["cmd"], kani["cmd"]) if x) or (FVN + " search"),
        "trusted_base": sorted(set(C.get("trusted", []) + P.TRUSTED_COMMON * bool(kani["cmd"]) + verus["trusted"])),
        "kani": {"contracts_discharged": sorted(kani["ok"]), "refuted": kani["refuted"], "undecided": kani["undecided"],
                 "contracts": kani["harnesses"], "wall_s": round(kani["wall"], 1), "solver_s": round(kani["solver_s"], 2), "backend": "CBMC 6 / CaDiCaL via Kani 0.68"},
        "verus": {"units": verus["units"], "seconds": round(verus["seconds"], 1), "undecided": verus["undecided"], "backend": "Verus / Z3"},
        "functions_with_obligations": sorted({("%s %s" % f).strip() for f in kani["functions"]}) + sorted(verus["functions"]),
    }
    rows = bounded_rows + fallback_rows
    if rows:
        cov["bounded"] = {"label": "bounded: sampled executions of the real code, not counted as proved",
                          "evaluations": sum(r["evals"] for r in rows), "distinct_nontrivial": sum(r["distinct"] for r in rows),
                          "rule": "each contract run on pseudorandom draws (seed %d); distinct draw sequences counted, discarded draws excluded" % SEED,
                          "samples": [{"contract": r["contract"], "draws": r["sample"][:160]} for r in rows if r["sample"]][:4],
                          "contracts": {r["contract"]: r["evals"] for r in rows},
                          "because": C.get("bounded_why", "")}
        cov["evaluations"] = cov["bounded"]["evaluations"]
        cov["distinct_nontrivial"] = cov["bounded"]["distinct_nontrivial"]
        cov["rule"] = cov["bounded"]["rule"]
        cov["samples"] = cov["bounded"]["samples"]
    return {"property": PID, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": C["level"], "coverage": cov,
            "assumptions": C.get("assumptions", []) + P.ASSUME_COMMON * bool(kani["cmd"]), "wall_s": round(time.time() - T0, 1), "violations": len(violations)}

sys.exit(main())
