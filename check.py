#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property on /repo's current source. Exit 0 holds, 1 violation, 2 the analysis could not be done."""

import importlib.util
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)

import build  # noqa: E402
from flow import Analysis  # noqa: E402
from prog import AnalysisError, Prog  # noqa: E402


def known(prop):
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                key, _, what = line[len("known: property=%s " % prop):].partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def listed(kn, v):
    """What the known findings say about a violation (rule @ function)."""
    return [w for key, w in kn if key == "%s @ %s" % (v["rule"], v["where"].split("(")[-1].rstrip(")"))]


def runCheck(prop, prog, tier):
    path = os.path.join(HERE, "checks", prop + ".py")
    spec = importlib.util.spec_from_file_location(prop, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    an = Analysis(prop, prog)
    an.tier = tier
    parts = [mod.run] if hasattr(mod, "run") else [v for k, v in vars(mod).items() if k.startswith("p_")]
    for part in parts:
        try:
            part(an)
        except AnalysisError as e:
            an.unsure("%s: %s" % (part.__name__, e))
        except Exception:
            an.unsure("%s: %s" % (part.__name__, traceback.format_exc()))
    if not an.obl:
        raise AnalysisError("no obligation was checked: " + "; ".join(an.undecided))
    an.assumptions = getattr(mod, "ASSUME", [])
    return an


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    try:
        cache = os.environ.get("VERIF_EXTRACT")                     # development only: analyse an extraction already made
        if cache:
            prog = Prog([os.path.join(cache, f) for f in sorted(os.listdir(cache))])
            prog.files = []
        else:
            prog = build.load()
        an = runCheck(prop, prog, tier)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        print("ANALYSIS-ERROR property=%s" % prop)
        traceback.print_exc()
        return 2

    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    finding, viol = [], []
    kn = known(prop)
    for v in an.viol:
        k = listed(kn, v)
        (finding if k else viol).append((v, k))
    rules = sorted({o[0] for o in an.obl})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of %d translation units (%d functions resolved by clang with the build's flags). Every path of the listed entry points' inlined flow "
                           "graphs was explored by the automaton of each rule; call-graph and table rules were decided over the whole program." % (len(prog.files), len(prog.fns)),
            "translation_units": len(prog.files),
            "functions_resolved": len(prog.fns),
            "functions_in_flow_graphs": len(an.functions),
            "flow_graphs": an.flows,
            "automaton_states": sum(f["states"] for f in an.flows),
            "rules": rules,
            "obligations": sum(o[2] for o in an.obl),
            "sites": sorted({"%s | %s" % (o[0], o[1]) for o in an.obl})[:400],
            "notes": an.notes,
            "undecided": an.undecided,
        },
        "assumptions": an.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for v, k in finding:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[0] or v["message"]))
    print("%s: %d rules, %d obligations, %d flow graphs, %d states, %.1f s" % (prop, len(rules), evidence["coverage"]["obligations"], len(an.flows), evidence["coverage"]["automaton_states"],
                                                                           time.time() - t0))
    for n in an.notes:
        print("note: " + n)
    for n in an.undecided:
        print("undecided: " + n)
    if viol:
        rep = os.path.join(ev, prop + ".violation.txt")
        with open(rep, "w") as f:
            for v, _ in viol:
                txt = "rule: %s\n  at: %s\n  what: %s\n" % (v["rule"], v["where"], v["message"])
                if v["path"]:
                    txt += "  path: %s\n" % " > ".join(v["path"])
                f.write(txt)
                sys.stdout.write(txt)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
