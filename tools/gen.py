#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NA, PROPS  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHY = ("The tests run a few fixed arrays with hand-computed answers; this quantifies over every value, order, tie and edge case "
       "within the bounds, which no finite sample settles.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["text"]},
            "why_tests_cant": p.get("why", WHY),
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": "symbolic execution of the real Python code, branches and assertions decided by z3 (SMT) over bounded symbolic inputs",
        "level": "model_checking",
        "level_note": p.get("note", "Every path of the real functions over symbolic inputs within the stated sizes and ranges; exact real "
                            "arithmetic in place of floating point, library routines replaced by models of their documented behaviour, each "
                            "explored path replayed on the unmodified code."),
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "See DESIGN.md. VERIF_STRICT=1 makes a check fail when any task is not exhaustive within its bounds.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
