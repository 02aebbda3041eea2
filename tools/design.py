#!/usr/bin/env python3
"""Fills DESIGN.md from tools/DESIGN.in.md: property table, defects, planted bugs."""
import json, os, re, sys
sys.path.insert(0, "/verif/tools")
from props import NA, PROPS
V = "/verif/"
s = open(V + "tools/DESIGN.in.md").read()
rows = []
for p in PROPS:
    try:
        src = open(V + "harness/%s.py" % p["id"].lower()).read()
    except OSError:
        src = ""
    fns = []
    for m in re.finditer(r'@harness\(\s*\w+,\s*\[([^\]]*)\],\s*((?:f?"[^"]*"\s*)+)(.*?)\ndef (\w+)', src, re.S):
        b = "".join(re.findall(r'"([^"]*)"', m.group(2)))
        f = ", ".join(re.findall(r'"([^"]*)"', m.group(1)))
        fns.append("  * `%s` (%s): %s" % (m.group(4), f, b))
    rows.append("### %s %s\n\n%s\n\nOver %s. Decided by symbolic execution of the functions named below against the definition written out in the harness; "
                "within these bounds:\n\n%s\n" % (p["id"], p["title"], p["statement"], p["text"], "\n".join(fns)))
for p in NA:
    rows.append("### %s %s (not applicable)\n\n%s\n\nNot decided: %s\n" % (p["id"], p["title"], p["statement"], p["reason"]))
k = json.load(open(V + "known_findings.json"))
fixed = "\n".join("* " + x for x in k["fixed"]) or "none"
opn = "\n".join("* property=%s %s" % (x["property"], x["what"]) for x in k["findings"]) or "none"
caught = json.load(open(V + "tools/caught.json")) if os.path.exists(V + "tools/caught.json") else {}
seeds = []
for d in sorted(os.listdir(V + "seeded")):
    m = json.load(open(V + "seeded/%s/meta.json" % d))
    seeds.append("| %s | %s | %s; needs %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], caught.get(d, "?")))
s = s.replace("@@PROPS@@", "\n".join(rows)).replace("@@FIXED@@", fixed).replace("@@OPEN@@", opn)
s = s.replace("@@SEEDS@@", "| id | property | breaks | caught |\n|---|---|---|---|\n" + "\n".join(seeds))
open(V + "DESIGN.md", "w").write(s)
