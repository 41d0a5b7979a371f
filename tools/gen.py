#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/proptext.py (so the two stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "sim")]
from proptext import CLAIMED, NOT_APPLICABLE
from props import PROPS

def prop(id, p):
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
             observe_at=p.get("observe_at", []), hook_needed=p.get("hook"))
    if p.get("state"):
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
    assert len(p["title"]) <= 80, p["title"]
    return dict(id=id, title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in (CLAIMED, NOT_APPLICABLE):
        for id, p in d.items():
            f.write(json.dumps(prop(id, p)) + "\n")
m = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[])
for id, p in CLAIMED.items():
    if id not in PROPS:
        m["not_applicable"].append(dict(property=id, reason="no check built yet"))
        continue
    m["checks"].append(dict(property=id, quick_cmd="python3 check.py %s --tier quick" % id,
                            thorough_cmd="python3 check.py %s --tier thorough" % id,
                            technique=p["technique"], level="exploration", level_note=p["level_note"]))
for id, p in NOT_APPLICABLE.items():
    m["not_applicable"].append(dict(property=id, reason=p["reason"]))
m["notes"] = "No hooks: every nondeterminism seam (stream buffers, random bit sources, callbacks, element operations, iterators, process input files) is a public template parameter or argument. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
