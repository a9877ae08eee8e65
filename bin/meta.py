#!/usr/bin/env python3
"""Developer tool: write properties.jsonl and MANIFEST.json from one table (not run by any check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = lambda files, mech, state=(), obs=(): {"files": ["src/" + f for f in files],
    "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech],
    "state": [{"name": n, "meaning": m, "where": "src/" + w} for n, m, w in state], "observe_at": list(obs), "hook_needed": None}
# id, title, statement, over, quantifier text, why tests can't, anchors
PROPS = []
def prop(id, title, statement, over, qtext, why, anchors):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})
CHECKS = {}
NA = {}
def claim(id, technique, level, note):
    CHECKS[id] = {"property": id, "quick_cmd": "python3 bin/check.py %s quick" % id, "thorough_cmd": "python3 bin/check.py %s thorough" % id,
                  "technique": technique, "level": level, "level_note": note}
KANI = "contracts on the real Rust functions discharged by Kani (CBMC/SAT) from /repo's current source on every run"
COMMON = " Trusted: Kani/CBMC; wide and generic-array compiled on portable paths; hashbrown and thingbuf replaced by sequential stand-ins. Component counts and channel counts are fixed per contract."
NETNOTE = " Trusted: Verus/Z3; the extraction and its listed rewrites; opaque boxed units, buffers and hash map with assumed contracts; uniqueness of generated IDs."
exec(open(os.path.join(ROOT, "bin", "meta_table.py")).read())
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
for i in ids:
    assert (i in CHECKS) != (i in NA), i
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/patchdeps.py",
     "checks": [CHECKS[i] for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "No hooks in /repo: every contract is stated over the public API or over functions extracted mechanically on each run. Fix commits in /repo are listed in known_findings.json."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import jsonschema
for p in PROPS:
    jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(PROPS), "properties,", len(m["checks"]), "claimed")
