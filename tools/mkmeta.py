"""Writes properties.jsonl and MANIFEST.json from the single list below."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
                  _note=note, _na=na))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

built = {f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if re.match(r"p\d+\.py$", f)}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if p["_na"] or i not in built:
        na.append({"property": i, "reason": p["_na"] or "no check built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh %s quick" % i,
        "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "explicit-state model checking: exhaustive bounded enumeration of executions of the real code against an independent reference model",
        "level": "model_checking",
        "level_note": p["_note"] or "Every element of the stated bounded space is executed on the code in /repo and compared with an independently written reference model; nothing is claimed beyond the bounds.",
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: the checks drive public entry points of the code in /repo's working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties;", len(checks), "claimed;", [x["property"] for x in na])
