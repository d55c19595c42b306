#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props
OVER = {"s": "schedules", "c": "crash_points", "i": "inputs", "h": "histories", "f": "configurations", "x": "fault_sequences"}
checks, na = [], []
with open(V + "/properties.jsonl", "w") as out:
    for p in props.PROPS:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        json.dump({"id": p["id"], "title": p["title"], "statement": p["statement"],
                   "quantifier": {"over": [OVER[c] for c in p["over"]], "text": p["q"]},
                   "why_tests_cant": p["why"], "anchors": anchors}, out)
        out.write("\n")
        assert len(p["title"]) <= 80, p["id"]
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            assert os.path.exists(V + "/checks/%s.py" % p["id"]), p["id"]
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 engine/build.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: each check extracts the resolved program (clang AST and control flow graphs of every translation unit, with the build's flags) from /repo's current "
                    "tree and decides its rules on it. No code of /repo is run."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
