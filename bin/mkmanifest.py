"""Regenerate MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PROOF = {}
exec(open(os.path.join(V, "bin", "levels.py")).read())
ns = {}
exec(open(os.path.join(V, "contracts", "props.py")).read(), ns)
PR = ns["PROPS"]
checks = []
for p in props:
    i = p["id"]
    lv, note = LEVELS.get(i, DEFAULT)
    checks.append(dict(
        property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=TECH["mixed" if lv == "exploration" and i in PR else lv], level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks,
               not_applicable=NOT_APPLICABLE, notes=NOTES),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
