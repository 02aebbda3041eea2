#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines S = [dict(id, property, file, edits=[(old, new)...], needs, breaks, demo)...];
writes /verif/seeded/<id>/ (patch.diff against /repo's HEAD, demo.sh, demo.py, meta.json)."""
import difflib
import json
import os
import subprocess
import sys

ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["S"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    out = ""
    files = s["files"] if "files" in s else {s["file"]: s["edits"]}
    for path, edits in files.items():
        old = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + path], capture_output=True, text=True, check=True).stdout
        new = old
        for a, b in edits:
            assert new.count(a) == 1, (s["id"], path, new.count(a), a)
            new = new.replace(a, b)
        out += "diff --git a/%s b/%s\n" % (path, path)
        out += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + path, "b/" + path))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport RUBIN_SIM_DATA_DIR=/nonexistent MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
