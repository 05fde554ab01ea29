#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from sa/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.props import PROPS
out = []
checks, na = [], []
for i in sorted(PROPS):
    p = PROPS[i]
    anc = {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}
    if p["state"]:
        anc["state"] = p["state"]
    if p["observe"]:
        anc["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["title"]
    out.append(json.dumps({"id": i, "title": p["title"], "statement": p["statement"],
                           "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": anc}))
    if p["reason"]:
        na.append({"property": i, "reason": p["reason"]})
    else:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "technique": p["technique"], "level": "other",
                       "level_note": p["level_note"] or "Static: every listed construct is decided for all inputs from the current source; what no listed construct covers is not decided."})
open(os.path.join(H, "properties.jsonl"), "w").write("\n".join(out) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of the source in /repo (override with SA_REPO). No hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
