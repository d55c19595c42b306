#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ for each entry of SEEDS in the spec: dict(id, prop, needs, breaks, edits=[(file under src, old, new)], demo, files={})."""
import difflib, json, os, runpy, shutil, sys
V = "/verif"
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, a, b in s["edits"]:
        p = "src/" + f
        t = new.get(p) or open("/repo/" + p).read()
        if t.count(a) != 1:
            sys.exit("%s: %d matches in %s: %s" % (s["id"], t.count(a), f, a[:60]))
        new[p] = t.replace(a, b)
    out = ""
    for p, t in new.items():
        o = open("/repo/" + p).read()
        out += "diff --git a/%s b/%s\n" % (p, p)
        out += "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + p, "b/" + p))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    open(d + "/demo.py", "w").write(s["demo"])
    shutil.copy(V + "/seedlib/fix.py", d + "/fix.py")
    for n, t in s.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
