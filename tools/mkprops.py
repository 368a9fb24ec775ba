#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl and /verif/MANIFEST.json (both committed).
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, level_note, claimed=True, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.rstrip().endswith("."), id
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append(dict(p=dict(id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a),
        technique=technique, level_note=level_note, claimed=claimed))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["p"]) + "\n")
have = lambda i: os.path.exists(os.path.join(V, "harness", i.lower() + ".cpp")) or i in ("P31", "P32")
checks, na = [], []
for x in P:
    i = x["p"]["id"]
    if x["claimed"] and have(i):
        checks.append({"property": i, "quick_cmd": "bash /verif/check.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough bash /verif/check.sh %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": x["technique"], "level": "exploration", "level_note": x["level_note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Each check rebuilds the library from /repo's working tree with clang+ASan into /verif/build and runs one generated-input harness (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "claimed")
