#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, technique, level="model_checking", note="", state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, technique=technique, level=level, note=note, state=state, observe=list(observe)))
exec(open(os.path.join(V, "tools", "catalog_data.py")).read())

NA = []
exec(open(os.path.join(V, "tools", "catalog_na.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
             "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
             "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}
        if q["state"]: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in q["state"]]
        if q["observe"]: d["anchors"]["observe_at"] = q["observe"]
        f.write(json.dumps(d) + "\n")
na = {n["property"] for n in NA}
m = {"version": 1, "setup_cmd": "python3 bin/setup",
     "checks": [{"property": q["id"], "quick_cmd": "python3 bin/check " + q["id"],
                 "thorough_cmd": "env VERIF_TIER=thorough python3 bin/check " + q["id"],
                 "technique": q["technique"], "level": q["level"], "level_note": q["note"]} for q in P if q["id"] not in na],
     "not_applicable": NA,
     "notes": "TLA+ specifications in spec/, checked with TLC; traces of the real library are checked against them. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try: import jsonschema
except ImportError: raise SystemExit("run with python3-vt")
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), ps)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(NA), "not applicable")
