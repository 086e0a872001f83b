#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a},
                      technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tool", "proptable.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in PROPS:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        f.write(json.dumps(x["p"]) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt lib/build.py setup",
     "checks": [{"property": x["p"]["id"], "quick_cmd": "python3-vt check.py %s quick" % x["p"]["id"], "thorough_cmd": "python3-vt check.py %s thorough" % x["p"]["id"],
                 "technique": x["technique"], "level": "other", "level_note": x["note"]} for x in PROPS if not x["na"]],
     "not_applicable": [{"property": x["p"]["id"], "reason": x["na"]} for x in PROPS if x["na"]],
     "notes": "All checks are static analyses of /repo's current source (clang front end, normalised SSA, effect summaries); nothing of /repo is executed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
