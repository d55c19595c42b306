#!/usr/bin/env python3
"""Runs the checks against small source variants (selftest/cases/*.py) made in scratch copies of /repo.

run.py [-p PROP,..] [-c CASE-prefix] [-j N]: each case says which properties must report it ([] = behaviour is unchanged, so nobody may).
A variant is only analysed, never built or executed."""

import argparse
import glob
import importlib.util
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
for d in (VERIF, VERIF + "/engine", VERIF + "/checks"):
    sys.path.insert(0, d)

import build  # noqa: E402
import check  # noqa: E402
from prog import AnalysisError  # noqa: E402


def cases():
    out = []
    for path in sorted(glob.glob(os.path.join(HERE, "cases", "*.py"))):
        spec = importlib.util.spec_from_file_location("c", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.CASES
    return out


def one(job):
    case, props = job
    d = tempfile.mkdtemp(prefix="vpm-")
    try:
        subprocess.run(["rsync", "-a", "--exclude=_build", "--exclude=.git", "/repo/", d + "/r/"], check=True) if shutil.which("rsync") else \
            subprocess.run("mkdir %s/r && tar -C /repo --exclude=./_build --exclude=./.git -cf - . | tar -C %s/r -xf -" % (d, d), shell=True, check=True)
        for file, old, new in case["edits"]:
            path = os.path.join(d, "r", "src", file)
            s = open(path).read()
            if s.count(old) != 1:
                return case, {"*": "EDIT does not apply (%d matches in %s)" % (s.count(old), file)}
            open(path, "w").write(s.replace(old, new))
        res = {}
        try:
            prog = build.load(d + "/r")
        except AnalysisError as e:
            return case, {"*": "EXTRACT " + str(e)[-300:]}
        for p in props:
            try:
                an = check.runCheck(p, prog, "quick")
                if an.undecided:
                    res[p] = "ERROR undecided: " + "; ".join(an.undecided)
                viol = [v for v in an.viol if not check.listed(check.known(p), v)]
                if viol:
                    res[p] = "; ".join("%s @ %s: %s" % (v["rule"], v["where"], v["message"]) for v in viol)
            except AnalysisError as e:
                res[p] = "ERROR " + str(e)
            except Exception:
                res[p] = "ERROR " + traceback.format_exc()
        return case, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-p")
    ap.add_argument("-c")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-a", action="store_true", help="all checks for every case (default: expected ones; all for refactorings)")
    a = ap.parse_args()
    allp = sorted(os.path.basename(x)[:-3] for x in glob.glob(VERIF + "/checks/[A-Z][0-9]*.py"))
    sel = a.p.split(",") if a.p else None
    jobs = []
    for c in cases():
        if a.c and not c["id"].startswith(a.c):
            continue
        ps = [p for p in allp if not sel or p in sel]
        if c["expect"] and not a.a:
            ps = [p for p in ps if p in c["expect"]]
            if not ps:
                continue
        if sel and c["expect"] and not set(sel) & set(c["expect"]):
            continue
        jobs.append((c, ps))
    bad = 0
    with multiprocessing.Pool(a.j) as pool:
        for case, res in pool.imap(one, jobs):
            got = {p for p, v in res.items() if not v.startswith("ERROR")}
            err = {p: v for p, v in res.items() if v.startswith("ERROR")}
            want = set(case["expect"])
            if "*" in res:
                st = "BROKEN " + res["*"]
            elif err:
                st = "ERROR " + str(err)
            elif want and not want & got:
                st = "MISSED"
            elif not want and got:
                st = "FALSE ALARM " + str(res)
            else:
                st = "ok"
            if st != "ok":
                bad += 1
            print("%-12s %-30s %s" % ("" if st == "ok" else "***", case["id"], st if st != "ok" or not a.v else "ok " + str(res)), flush=True)
    print("%d cases, %d not as expected" % (len(jobs), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
