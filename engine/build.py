"""Builds the extractor when needed and extracts the resolved program from /repo's current working tree."""

import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)

from prog import AnalysisError, Prog  # noqa: E402

GCC = sorted(glob.glob("/usr/lib/gcc/x86_64-linux-gnu/*/include")) + [""]
ENV = dict(os.environ, LC_ALL="C.UTF-8", CC="gcc", PYTHONDONTWRITEBYTECODE="1", VP_IDIRAFTER=GCC[0])
for v in ("LD_LIBRARY_PATH", "CFLAGS", "LDFLAGS"):
    ENV.pop(v, None)


def buildTool():
    src = os.path.join(HERE, "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "extract-" + h)
    if os.path.exists(out):
        return out
    llvm = sorted(glob.glob("/usr/lib/llvm-*/include/clang"))[-1].split("/include")[0]
    libs = sorted(glob.glob(llvm + "/lib/libclang-cpp.so*"))[-1:] + [x for x in sorted(glob.glob(llvm + "/lib/libLLVM*.so*")) if "LLVM-" in x or "libLLVM.so" in x][-1:]
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + llvm + "/include", "-o", tmp, src] + libs, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the extractor:\n" + r.stdout[-3000:])
    os.rename(tmp, out)
    return out


def load(repo=None, keep=None):
    """Extract and load. Returns (Prog, info)."""
    repo = os.path.realpath(repo or REPO)
    tool = buildTool()
    tmp = tempfile.mkdtemp(prefix="vpx-")
    try:
        bd = os.path.join(tmp, "b")
        for cmd in (["meson", "setup", bd, repo, "--buildtype=release", "--wrap-mode=nodownload", "-Dwerror=false"],
                    ["ninja", "-C", bd, "src/command/help/help.auto.c.inc", "src/postgres/interface.auto.c.inc"]):
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise AnalysisError("cannot configure %s:\n%s" % (repo, r.stdout[-3000:]))
        src = os.path.join(repo, "src") + "/"
        files = sorted({os.path.realpath(os.path.join(e["directory"], e["file"])) for e in json.load(open(os.path.join(bd, "compile_commands.json")))})
        files = [f for f in files if f.endswith(".c") and f.startswith(src)]
        n = min(8, os.cpu_count() or 2)
        procs = []
        for i in range(n):
            o = os.path.join(tmp, "p%d.json" % i)
            procs.append((o, subprocess.Popen([tool, o, src, bd] + files[i::n], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        outs, fail = [], []
        for o, p in procs:
            log, _ = p.communicate()
            if p.returncode:
                fail.append(log[-2000:])
            outs.append(o)
        if fail:
            raise AnalysisError("the source does not parse:\n" + "\n".join(fail))
        prog = Prog(outs)
        prog.repo = repo
        prog.files = files
        if keep:
            os.makedirs(keep, exist_ok=True)
            for o in outs:
                shutil.copy(o, keep)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if len(prog.fns) < 1700:
        raise AnalysisError("only %d functions were extracted" % len(prog.fns))
    return prog


if __name__ == "__main__":
    print(buildTool())
