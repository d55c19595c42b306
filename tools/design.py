#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md (the general part) and, per property, how it is decided (HOW), the rules the last run decided (evidence) and the planted bugs."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import props
from how import HOW
seeds = {}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    seeds.setdefault(m["property"], []).append((i, m))
out = [open(V + "/tools/design.md").read().rstrip(), "", "## Properties", ""]
for p in props.PROPS:
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    if "na" in p:
        out += ["Not applicable: " + p["na"], ""]
        continue
    out += [HOW[p["id"]].strip(), ""]
    e = V + "/evidence/%s.json" % p["id"]
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        out += ["Size on this tree: %d rules, %d obligations, %d automaton states, %.0f s after extraction. Rules: %s." % (
            len(c["rules"]), c["obligations"], c["automaton_states"], json.load(open(e))["wall_s"], "; ".join(c["rules"])), ""]
    for i, m in seeds.get(p["id"], ()):
        out += ["Planted bug `%s` (%s; needs %s): caught." % (i, m["what_it_breaks"], m["needs"]), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
