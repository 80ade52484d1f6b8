#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CORE = "cavalier_contours/src/"
BOOL = CORE + "polyline/internal/pline_boolean.rs"
OFF = CORE + "polyline/internal/pline_offset.rs"
INT = CORE + "polyline/internal/pline_intersects.rs"
SEGI = CORE + "polyline/pline_seg_intersect.rs"
SEG = CORE + "polyline/pline_seg.rs"
TR = CORE + "polyline/traits.rs"
VIEW = CORE + "polyline/pline_view.rs"
SHAPE = CORE + "shape_algorithms/mod.rs"
BM = CORE + "core/math/base_math.rs"
FFI = "cavalier_contours_ffi/src/lib.rs"
UIS = "cavalier_contours_ui/src/"
MATH = CORE + "core/math/"

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, hook=None, claim=True, na=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=text, why=why, anchors=anchors,
                  technique=technique, note=note, claim=claim, na=na))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")
sys.path.insert(0, ROOT)
from runs import RUNS
checks, na = [], []
for p in P:
    if p["claim"] and p["id"] in RUNS:
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check registered yet (under construction)"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Runtime monitors over generated workloads; see DESIGN.md. known_findings.jsonl lists defects of the tree that are recorded or repaired."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", [x["property"] for x in na])
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    print("no jsonschema (use python3-vt)")
