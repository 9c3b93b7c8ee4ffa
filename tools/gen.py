#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/propdata.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H); sys.path.insert(0, os.path.dirname(H))
import propdata as D
V = os.path.dirname(H)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in D.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        **({"observe_at": p["observe"]} if "observe" in p else {}), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in D.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 -c \"from sa import mir; mir.ensure_driver()\"", "checks": checks,
           "not_applicable": na, "notes": D.NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
from sa import props
ids = {p["id"] for p in D.PROPS if "na" not in p}
assert ids == set(props.PROPS), (ids ^ set(props.PROPS))
try:
    import jsonschema
except ImportError:
    sys.exit()
for f, s in (("MANIFEST.json", "MANIFEST"),):
    jsonschema.validate(json.load(open(os.path.join(V, f))), json.load(open("/root/.vp/%s.schema.json" % s)))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), sch)
