"""Inlined flow graphs, value terms and path-sensitive automaton exploration (a dataflow analysis over (point, tracked values, tracked
branch facts, rule state); no path is executed and nothing is handed to a solver)."""

import re

from prog import AnalysisError, THROWS, lval, strLit

# Term constructors ------------------------------------------------------------------------------------------------------------------
#  ("int", v) ("str", s) ("p", i) ("fld", base, field, rec) ("deref", t) ("addr", t) ("idx", b, i) ("op", o, a, b) ("not", t)
#  ("un", o, t) ("call", fn, args, uid) ("icall", "Rec.field", args, uid) ("ite", c, a, b) ("and", a, b) ("or", a, b)
#  ("phi", alts) ("hav", what) ("struct", rec, ((f, t), ...)) ("glob", name) ("fn", name) ("var", inst, id)

SIGNED = set()                                                       # functions that return a signed type
UNSIGNED = set()                                                     # functions that return an unsigned type
ZERO = ("int", 0)
ONE = ("int", 1)
MAXDEPTH = 14

# Calls whose result is a function of their arguments (and of state that rules treat as fixed while a command runs). They get no
# identity of their own so the same question asked twice is the same term.
PURE_PREFIX = (
    "cfgOption", "cfgCommand", "cfgLock", "strEq", "strZ", "strSize", "strEmpty", "strBegins", "strEnds", "strCmp", "strBase", "strChr", "strPath", "strDup",
    "storageFeature", "storageType", "storageDriver", "storageRepo", "storagePg", "storageSpool", "storageLocal", "manifestData", "manifestCipher",
    "infoArchivePg", "infoArchiveId", "infoArchiveCipher", "infoBackupPg", "infoBackupCipher", "infoPgDataTotal", "infoPgDataCurrent", "infoPgData",
    "compressTypeFromName", "compressTypeEnum", "compressExt", "ioReadFilterGroup", "ioWriteFilterGroup", "storageReadIo", "storageWriteIo",
    "varBool", "varStr", "varUInt", "varInt", "varLst", "varType", "bufPtr", "bufUsed", "bufSize", "bufEq", "bufEmpty", "bufRemains",
    "protocolParallelJob", "storageWriteSync", "storageWriteAtomic", "storageWriteCreate", "storageWriteName", "storageReadName", "walIs", "pgLsn", "pgXact", "pgWal",
    "strNewFmt", "strNewZ", "strNewZN", "strSub", "strTrim", "strUpper", "strLower", "strNewEncode", "bufNewDecode", "bufNewC", "strIdTo", "strIdFrom", "zNewStrId",
    "memcmp", "strcmp", "strncmp", "strlen", "backupFileRepoPath", "manifestPathPg", "strLstExists", "strLstFind", "lockTypeArchive", "errorCode", "errorType", "errorInstanceOf",
    "objMemContext", "cipherSpec", "lstComparatorStr", "hrnDummy", "isSystemDb", "compressible", "pgVersion", "cvt", "sckHost", "httpResponseCode", "storageWriteTruncate",
    "strNewVar", "regExpMatchOne", "dateYear", "userRoot", "userId", "groupId", "STR", "storagePath", "S_IS",
)
PURE = {"strLstSize", "strLstGet", "lstSize", "lstEmpty", "strLstEmpty", "lstGet", "varLstSize", "varLstGet", "manifestFileTotal", "manifestFile", "manifestPathTotal", "manifestPath",
        "manifestTargetTotal", "manifestTarget", "manifestLinkTotal", "manifestLink", "storageLstSize", "storageLstGet", "infoBackupDataTotal", "infoBackupData", "manifestFileFind",
        "infoBackupDataByLabel", "manifestTargetFind", "manifestTargetBase", "manifestPathFind"}
# Pure for naming but never remembered as a branch fact (the container may change)
UNSTABLE = {"strLstSize", "strLstGet", "lstSize", "lstEmpty", "strLstEmpty", "lstGet", "varLstSize", "varLstGet", "bufUsed", "bufRemains", "bufEmpty",
            "storageLstSize", "storageLstGet", "strSize", "strEmpty", "lstFind", "lstExists", "strLstExists"}


EMPTY = {"strLstEmpty": "strLstSize", "lstEmpty": "lstSize", "strEmpty": "strSize", "bufEmpty": "bufUsed", "varLstEmpty": "varLstSize", "manifestFileEmpty": "manifestFileTotal",
         "storageLstEmpty": "storageLstSize"}


NEVER = {"errorCode", "errorType"}


def killMutated(facts, args):
    """Facts about the content of containers that are handed to a non-pure call."""
    if not facts:
        return facts
    roots = []
    for a in args:
        if a[0] == "addr":
            a = a[1]
        if a[0] in ("call", "icall", "fld", "p", "var", "out", "deref", "glob"):
            roots.append(a)
    if not roots:
        return facts
    drop = []
    for f in facts:
        for t in walkTerm(f):
            if t[0] == "call" and t[1] in UNSTABLE and t[2] and any(x in roots for x in accessPath(t[2][0])):
                drop.append(f)
                break
    return {k: v for k, v in facts.items() if k not in drop} if drop else facts


def accessPath(t):
    """A container's term and the objects it is part of (a container made by a call is its own object)."""
    while True:
        yield t
        if t[0] in ("fld", "deref", "addr", "idx"):
            t = t[1]
        elif t[0] == "call" and len(t) > 3 and t[3] is None and t[2]:
            t = t[2][0]
        else:
            return


def isPure(prog, name):
    if name in PURE or name.startswith(PURE_PREFIX):
        return True
    f = prog.fns.get(name)
    if f is not None and f.inheader:
        c = getattr(f, "_pure", None)
        if c is None:
            f._pure = False
            ps = [p for p in f.pts() if p.tries is not None]
            ok = all(p.kind in ("nop", "ret", "exit", "decl", "log", "cond", "br", "val", "call") for p in ps)
            if ok:
                for p in ps:
                    if p.kind == "call" and not (p.data[2] and p.data[2][0] == "f" and isPure(prog, p.data[2][1])):
                        ok = False
            c = f._pure = ok
        return c
    return False


def walkTerm(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in TAGS:
                    yield from walkTerm(x)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            if y and isinstance(y[0], str) and y[0] in TAGS:
                                yield from walkTerm(y)
                            elif len(y) == 2 and isinstance(y[1], tuple):
                                yield from walkTerm(y[1])


TAGS = {"int", "str", "p", "fld", "deref", "addr", "idx", "op", "not", "un", "call", "icall", "ite", "and", "or", "phi", "hav", "struct", "glob", "fn", "var", "out", "arr", "eq", "lt"}


def termSize(t, cap=400):
    n = 0
    for _ in walkTerm(t):
        n += 1
        if n > cap:
            break
    return n


def fmt(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 7:
        return "..."
    if not t:
        return "()"
    k = t[0]
    if k == "int":
        return str(t[1])
    if k == "str":
        return '"%s"' % t[1]
    if k == "p":
        return "param%d" % t[1]
    if k == "fld":
        return "%s.%s" % (fmt(t[1], d + 1), t[2])
    if k in ("call", "icall"):
        return "%s(%s)" % (t[1], ", ".join(fmt(a, d + 1) for a in t[2]))
    if k == "op":
        return "(%s %s %s)" % (fmt(t[2], d + 1), t[1], fmt(t[3], d + 1))
    if k in ("and", "or", "eq", "lt"):
        return "(%s %s %s)" % (fmt(t[1], d + 1), {"eq": "==", "lt": "<"}.get(k, k), fmt(t[2], d + 1))
    if k in ("glob", "fn"):
        return t[1]
    if k == "phi":
        return "phi{%s}" % " | ".join(fmt(a, d + 1) for a in t[1])
    if k == "struct":
        return "%s{%s}" % (t[1], ", ".join(".%s=%s" % (f, fmt(v, d + 1)) for f, v in t[2]))
    if k == "ite":
        return "(%s ? %s : %s)" % tuple(fmt(x, d + 1) for x in t[1:4])
    return "%s(%s)" % (k, ", ".join(fmt(x, d + 1) if isinstance(x, tuple) else str(x) for x in t[1:]))


class Inst:
    __slots__ = ("id", "fn", "parent", "callPt", "base", "depth", "children", "stack")

    def __init__(self, id, fn, parent, callPt, base):
        self.id = id
        self.fn = fn
        self.parent = parent
        self.callPt = callPt
        self.base = base
        self.depth = 0 if parent is None else parent.depth + 1
        self.children = {}
        self.stack = (fn.name,) if parent is None else parent.stack + (fn.name,)


class Graph:
    """Function `entry` with callees inlined. inline(fn, inst, pt) decides which."""

    def __init__(self, prog, entry, inline=None, maxDepth=10, maxNodes=60000):
        self.prog = prog
        self.insts = []
        self.nodes = []                                              # global id -> (inst, Pt)
        self.maxDepth = maxDepth
        self.maxNodes = maxNodes
        self.inline = inline or (lambda f, i, p: False)
        self.entryFn = prog.fn(entry) if isinstance(entry, str) else entry
        self.root = self._mk(self.entryFn, None, None)
        signs(prog)
        self.memo = {}
        self.loopN = 0                                               # values cut off so far because they depend on themselves
        self._tracked = None
        self._live = {}
        self._factTerms = None

    def _mk(self, fn, parent, callPt):
        pts = fn.pts()
        inst = Inst(len(self.insts), fn, parent, callPt, len(self.nodes))
        self.insts.append(inst)
        for p in pts:
            self.nodes.append((inst, p))
        if len(self.nodes) > self.maxNodes:
            raise AnalysisError("flow graph of %s too large" % self.entryFn.name)
        for p in pts:
            if p.tries is None or p.kind != "call":
                continue
            c = p.data[2]
            if not c or c[0] != "f":
                continue
            f = self.prog.fns.get(c[1])
            if f is None or f.name in inst.stack or inst.depth >= self.maxDepth:
                continue
            if self.inline(f, inst, p):
                inst.children[p.idx] = self._mk(f, inst, p)
        return inst

    def gid(self, inst, idx):
        return inst.base + idx

    def where(self, gid):
        inst, p = self.nodes[gid]
        return "%s:%d (%s)" % (inst.fn.file, p.line or inst.fn.line, inst.fn.name)

    # Value terms ----------------------------------------------------------------------------------------------------------------------
    def ev(self, inst, e, idx, env=None, depth=0, busy=()):
        """Term of expression e evaluated at point idx of inst."""
        if depth > MAXDEPTH:
            self.loopN += 1
            return ("hav", "deep")
        k = e[0]
        if k == "i":
            return ("int", e[1])
        if k == "e":
            return ("int", e[2])
        if k == "s":
            return ("str", e[1])
        if k == "f":
            return ("fn", e[1])
        if k in ("v", "g", "m", "d", "x"):
            loc = lval(e)
            if loc is not None:
                return self.loc(inst, e, loc, idx, env, depth, busy)
            if k == "m":
                b = self.ev(inst, e[1][1] if e[1][0] == "d" else e[1], idx, env, depth + 1, busy)
                return fieldOf(b, e[2], e[3])
            if k == "d":
                return mkDeref(self.ev(inst, e[1], idx, env, depth + 1, busy))
            return ("idx", self.ev(inst, e[1], idx, env, depth + 1, busy), self.ev(inst, e[2], idx, env, depth + 1, busy))
        if k == "a":
            s = strLit(e)
            if s is not None:
                return ("str", s)
            loc = lval(e[1])
            if loc is not None and "*" not in loc[1] and not isinstance(loc[0], str):
                t = ("var", inst.id, loc[0])
                for f in loc[1]:
                    t = ("fld", t, f, "")
                return ("addr", t)
            return ("addr", self.ev(inst, e[1], idx, env, depth + 1, busy))
        if k == "c":
            return self.elem(inst, e[1], idx, env, depth, busy)
        if k == "b":
            return mkOp(e[1], self.ev(inst, e[2], idx, env, depth + 1, busy), self.ev(inst, e[3], idx, env, depth + 1, busy))
        if k == "l":
            a = self.ev(inst, e[2], idx, env, depth + 1, busy)
            b = self.ev(inst, e[3], idx, env, depth + 1, busy)
            if a[0] == "int":
                return (b if a[1] else ZERO) if e[1] == "&&" else (ONE if a[1] else b)
            return ("and" if e[1] == "&&" else "or", a, b)
        if k == "u":
            t = self.ev(inst, e[2], idx, env, depth + 1, busy)
            if e[1] == "!":
                return mkNot(t)
            if t[0] == "int" and isinstance(t[1], int):
                return ("int", -t[1] if e[1] == "-" else ~t[1])
            return ("un", e[1], t)
        if k == "S":
            s = strLit(e)
            if s is not None:
                return ("str", s)
            return ("struct", e[1], tuple(sorted((f, self.ev(inst, v, idx, env, depth + 1, busy)) for f, v in e[2].items())))
        if k == "A":
            return ("arr", tuple(ZERO if v is None else self.ev(inst, v, idx, env, depth + 1, busy) for v in e[1]))
        return ("hav", e[1] if len(e) > 1 else k)

    def elem(self, inst, eid, idx, env, depth, busy):
        p = inst.fn.elemOf.get(eid)
        if p is None:
            return ("hav", "elem")
        if env is not None:
            v = env.get(("r", inst.id, p.idx))
            if v is not None:
                return v
        key = ("e", inst.id, eid)
        if env is None and key in self.memo:
            return self.memo[key]
        if key in busy:
            self.loopN += 1
            return ("hav", ("loop", inst.fn.name, p.line))
        n0 = self.loopN
        busy = busy + (key,)
        d = p.data
        k = p.data[1]
        if k == "call":
            t = self.callTerm(inst, p, env, depth, busy)
        elif k == "log":
            a = self.ev(inst, d[3], p.idx, env, depth + 1, busy)
            b = self.ev(inst, d[4], p.idx, env, depth + 1, busy)
            t = ("and" if d[2] == "&&" else "or", a, b)
            if a[0] == "int":
                t = (b if a[1] else ZERO) if d[2] == "&&" else (ONE if a[1] else b)
        elif k == "cond":
            c = self.ev(inst, d[2], p.idx, env, depth + 1, busy)
            a = self.ev(inst, d[3], p.idx, env, depth + 1, busy)
            b = self.ev(inst, d[4], p.idx, env, depth + 1, busy)
            t = mkIte(c, a, b)
        elif k == "as":
            t = self.ev(inst, d[3], p.idx, env, depth + 1, busy)
        elif k == "opas":
            t = mkOp(d[2], self.ev(inst, d[3], p.idx, env, depth + 1, busy), self.ev(inst, d[4], p.idx, env, depth + 1, busy))
        elif k == "inc":
            b = self.ev(inst, d[4], p.idx, env, depth + 1, busy)
            t = b if d[3] else mkOp("+" if d[2] == "++" else "-", b, ONE)
        elif k == "val":
            t = self.ev(inst, d[2], p.idx, env, depth + 1, busy) if d[2] else ("hav", "void")
        else:
            t = ("hav", k)
        if env is None and (len(busy) == 1 or self.loopN == n0):
            self.memo[key] = t
        return t

    def callTerm(self, inst, p, env, depth, busy):
        d = p.data
        child = inst.children.get(p.idx)
        if child is not None:
            if env is not None:
                v = env.get(("r", inst.id, p.idx))
                if v is not None:
                    return v
            rets = []
            for q in child.fn.pts():
                if q.kind == "ret" and q.tries is not None and q.data[2] is not None:
                    t = self.ev(child, q.data[2], q.idx, env, depth + 1, busy)
                    if t not in rets:
                        rets.append(t)
            return mkPhi(rets)
        args = tuple(self.ev(inst, a, p.idx, env, depth + 1, busy) for a in d[3])
        c = d[2]
        if c and c[0] == "f":
            n = c[1]
            if n == "__errno_location":
                return ("call", n, (), None)
            e = EMPTY.get(n)
            if e is not None and args:
                return mkOp("==", ("call", e, args[:1], None), ZERO)
            if n in ("strEqZ", "strEq") and len(args) == 2:
                a0, a1 = (x[2][0] if x[0] == "call" and x[1] in ("strZ", "strNewZ", "STR") and len(x[2]) == 1 else x for x in args)
                return ("call", "strEq", tuple(sorted((a0, a1), key=repr)), None)
            if n == "strcmp" and len(args) == 2 and args[0][0] == "str" and args[1][0] == "str":
                return ("int", 0 if args[0] == args[1] else -1 if args[0] < args[1] else 1)
            if isPure(self.prog, n):
                if n in ("strDup", "strNewZ", "strIdFromStr") and len(args) == 1:
                    if n == "strDup":
                        return args[0]
                    if args[0][0] == "str":
                        return args[0]
                if n in ("strZ", "bufPtr", "bufPtrConst") and args and args[0][0] == "str":
                    return args[0]
                if n in ("strEq", "bufEq"):
                    args = tuple(sorted(args, key=repr))
                return ("call", n, args, None)
            return ("call", n, args, self.gid(inst, p.idx))
        if c and c[0] == "m":
            return ("icall", "%s.%s" % (c[3], c[2]), args, self.gid(inst, p.idx))
        return ("icall", "?", args, self.gid(inst, p.idx))

    def loc(self, inst, e, loc, idx, env, depth, busy):
        """Value of an access path."""
        root, path = loc
        if isinstance(root, str):
            g = root[2:]
            if not path:
                s = self.prog.strOf(g)
                if s is not None:
                    return ("str", s)
                gv = self.prog.gvars.get(g)
                if gv is not None and gv["const"] and gv["init"] is not None and gv["init"][0] in ("i", "e", "s"):
                    return self.ev(inst, gv["init"], idx, None, depth + 1, busy)
                return ("glob", g)
            return self.apply(("glob", g), e)
        if env is not None:
            tr = self.tracked()
            for n in range(len(path), -1, -1):
                v = env.get((inst.id, root, path[:n]))
                if v is not None:
                    v = self.applyPath(v, e, path, n)
                    return self.overlay(inst, e, loc, idx, env, depth, busy, v)
        key = ("l", inst.id, idx, loc)
        if env is None and key in self.memo:
            return self.memo[key]
        if key in busy:
            self.loopN += 1
            return ("hav", ("loop", inst.fn.name, inst.fn.locals[root][1]))
        n0 = self.loopN
        b2 = busy + (key,)
        defs = inst.fn.reaching(idx, loc)
        alts = []
        for (di, kind, dl) in sorted(defs, key=repr):
            alts.append(self.defTerm(inst, di, kind, dl, e, path, env, depth, b2))
        t = self.overlay(inst, e, loc, idx, env, depth, b2, mkPhi(alts))
        if env is None and (not busy or self.loopN == n0):
            self.memo[key] = t
        return t

    def overlay(self, inst, e, loc, idx, env, depth, busy, t):
        """The value of a struct some of whose fields were assigned since the whole was."""
        parts = inst.fn.partials(loc)
        if not parts:
            return t
        over = {}
        for f, le in parts.items():
            fl = (loc[0], loc[1] + (f,))
            if any(len(dl[1]) > len(loc[1]) for _, k, dl in inst.fn.reaching(idx, fl) if k != "entry"):
                over[f] = self.loc(inst, le, fl, idx, env, depth + 1, busy)
        if not over:
            return t
        rec = t[1] if t[0] == "struct" else ""
        base = t[2] if t[0] == "struct" else (("", t),)
        d = dict(base)
        d.update(over)
        return ("struct", rec, tuple(sorted(d.items(), key=lambda x: x[0])))

    def defTerm(self, inst, di, kind, dl, e, path, env, depth, busy):
        root = dl[0]
        if kind == "entry":
            # Uninitialized local, parameter, or memory reached through one
            base = self.rootTerm(inst, root, env, depth, busy)
            if not path:
                return base
            # memory behind a pointer: resolve the pointer itself at its own definition
            return None if base is None else self.applyPath(self.ptrRoot(inst, root, base), e, path, 0)
        p = inst.fn.pts()[di]
        n = len(dl[1])
        if kind == "decl":
            if p.data[3] is None:
                return ("hav", "uninit")
            v = self.ev(inst, p.data[3], di, env, depth + 1, busy)
            return self.applyPath(v, e, path, n)
        if kind == "as":
            v = self.ev(inst, p.data[3], di, env, depth + 1, busy)
            return self.applyPath(v, e, path, n)
        if kind == "opas":
            return mkOp(p.data[2], self.ev(inst, p.data[3], di, env, depth + 1, busy), self.ev(inst, p.data[4], di, env, depth + 1, busy))
        if kind == "inc":
            return mkOp("+" if p.data[2] == "++" else "-", self.ev(inst, p.data[4], di, env, depth + 1, busy), ONE)
        # out parameter
        return ("out", self.callTermName(inst, p), self.gid(inst, di), path[n:])

    def callTermName(self, inst, p):
        c = p.data[2]
        return c[1] if c and c[0] == "f" else (c[2] if c and c[0] == "m" else "?")

    def ptrRoot(self, inst, root, base):
        return base

    def rootTerm(self, inst, root, env, depth, busy):
        for i, (vid, _n, _t) in enumerate(inst.fn.params):
            if vid == root:
                if inst.parent is None:
                    return ("p", i)
                if env is not None:
                    v = env.get(("a", inst.id, i))
                    if v is not None:
                        return v
                args = inst.callPt.data[3]
                if i < len(args):
                    return self.ev(inst.parent, args[i], inst.callPt.idx, env, depth + 1, busy)
                return ("hav", "arg")
        return ("var", inst.id, root)

    def applyPath(self, v, e, path, n):
        """Apply path[n:] (fields/derefs/indexes of lvalue e) to value v."""
        if n == len(path):
            return v
        # collect the expression chain outermost..root
        chain = []
        x = e
        while x[0] in ("m", "d", "x"):
            if x[0] == "d" and x[1][0] == "a":
                x = x[1][1]
                continue
            chain.append(x)
            x = x[1]
        chain.reverse()
        for step in chain[n:]:
            if step[0] == "m":
                v = fieldOf(v, step[2], step[3])
            elif step[0] == "d":
                v = mkDeref(v)
            else:
                v = ("idx", v, ("hav", "i"))
        return v

    def apply(self, v, e):
        l = lval(e)
        return self.applyPath(v, e, l[1], 0)

    # Tracked locations: locals with several definitions that decide branches -----------------------------------------------------------
    def exprLocs(self, fn, e, out, elems):
        if not isinstance(e, list):
            if isinstance(e, dict):
                for v in e.values():
                    self.exprLocs(fn, v, out, elems)
            return
        if not e:
            return
        if e[0] in ("v", "m", "d", "x") and not isinstance(e[0], list):
            l = lval(e)
            if l is not None:
                if not isinstance(l[0], str):
                    out.add(l)
                    # the pointers on the way
                    for n in range(len(l[1])):
                        if l[1][n] == "*":
                            out.add((l[0], l[1][:n]))
                if e[0] == "x":
                    self.exprLocs(fn, e[2], out, elems)
                return
        if e[0] == "c" and len(e) == 2 and isinstance(e[1], int):
            elems.add(e[1])
            return
        for v in e[0:]:
            if isinstance(v, (list, dict)):
                self.exprLocs(fn, v, out, elems)

    def tracked(self, extra=(), only=None, defNodes=None):
        """Locations with several reaching definitions that the value of a branch (of `only`, when given) or of an extra expression
        depends on. defNodes collects the definitions."""
        if self._tracked is not None:
            return self._tracked
        tr = set()
        seen = set()
        work = []
        deps = {}                                                    # location or argument -> locations its value is made of
        for inst in self.insts:
            for p in inst.fn.pts():
                if p.tries is None:
                    continue
                if p.kind in ("br", "sw") and (only is None or self.gid(inst, p.idx) in only):
                    work.append((inst, p.idx, p.data, None))
        work.extend((a, b, c, None) for a, b, c in extra)
        while work:
            inst, idx, e, owner = work.pop()
            locs, elems = set(), set()
            self.exprLocs(inst.fn, e, locs, elems)
            for eid in elems:
                p = inst.fn.elemOf.get(eid)
                if p is None or ("e", inst.id, eid, owner) in seen:
                    continue
                seen.add(("e", inst.id, eid, owner))
                if p.data[1] == "call":
                    ch = inst.children.get(p.idx)
                    if ch is not None:
                        for q in ch.fn.pts():
                            if q.kind == "ret" and q.tries is not None and q.data[2] is not None:
                                work.append((ch, q.idx, q.data[2], owner))
                                if defNodes is not None:
                                    defNodes.add(ch.base + q.idx)
                        continue
                    work.append((inst, p.idx, p.data[3], owner))
                else:
                    for sub in p.data[2:]:
                        if isinstance(sub, list):
                            work.append((inst, p.idx, sub, owner))
            for loc in locs:
                me = (inst.id, loc)
                if owner is not None:
                    deps.setdefault(owner, set()).add(me)
                if ("l", inst.id, idx, loc) in seen:
                    continue
                seen.add(("l", inst.id, idx, loc))
                for f, le in inst.fn.partials(loc).items():
                    tr.add((inst.id, (loc[0], loc[1] + (f,))))
                    work.append((inst, idx, le, me))
                defs = inst.fn.reaching(idx, loc)
                if len(defs) > 1:
                    tr.add(me)
                for (di, kind, dl) in defs:
                    if kind == "entry":
                        for i, (vid, _n, _t) in enumerate(inst.fn.params):
                            if vid == loc[0] and inst.parent is not None and i < len(inst.callPt.data[3]):
                                work.append((inst.parent, inst.callPt.idx, inst.callPt.data[3][i], ("a", inst.id, i)))
                                tr.add(("a", inst.id, i))
                                deps.setdefault(me, set()).add(("a", inst.id, i))
                        continue
                    p = inst.fn.pts()[di]
                    if defNodes is not None and len(defs) > 1:
                        defNodes.add(inst.base + di)
                    if kind in ("decl", "as"):
                        if p.data[3] is not None:
                            work.append((inst, di, p.data[3], me))
                    elif kind == "opas":
                        work.append((inst, di, p.data[3], me))
                        work.append((inst, di, p.data[4], me))
        # A value made of a tracked location has to be remembered from when it was made
        real = {t for t in tr if t[0] != "a"}
        grow = True
        while grow:
            grow = False
            for o, ds in deps.items():
                if o[0] != "a" and o not in real and ds & real:
                    real.add(o)
                    grow = True
        tr |= real
        self._tracked = tr
        self._trByInst = {}
        for t in tr:
            if t[0] != "a":
                self._trByInst.setdefault(t[0], set()).add(t[1])
        return tr

    def liveAt(self, inst, key):
        """Point indexes of inst from which a use of the location (or call element) is still ahead."""
        k = (inst.fn.name, key)
        r = self._live.get(k)
        if r is not None:
            return r
        pts = inst.fn.pts()
        uses = set()
        for p in pts:
            if p.tries is None:
                continue
            locs, elems = set(), set()
            if p.kind in ("br", "sw"):
                self.exprLocs(inst.fn, p.data, locs, elems)
            elif p.data is not None and p.kind not in ("nop", "try"):
                subs = p.data[2:]
                if p.kind == "as" and key[0] != "r" and lval(p.data[2]) == key:
                    subs = p.data[3:]                                # the target of an assignment is not read
                for sub in subs:
                    if isinstance(sub, list):
                        self.exprLocs(inst.fn, sub, locs, elems)
            if key[0] != "r":
                todo, seenE = list(elems), set()
                while todo:
                    e = todo.pop()
                    if e in seenE or e not in inst.fn.elemOf:
                        continue
                    seenE.add(e)
                    more = set()
                    for sub in inst.fn.elemOf[e].data[2:]:
                        if isinstance(sub, list):
                            self.exprLocs(inst.fn, sub, locs, more)
                    todo.extend(more)
            if key[0] == "r":
                if key[1] in elems:
                    uses.add(p.idx)
            else:
                root, path = key
                for (r0, pa) in locs:
                    if r0 == root and (pa[:len(path)] == path or path[:len(pa)] == pa):
                        uses.add(p.idx)
                        break
        kills = set()
        if key[0] != "r":
            for p in pts:
                if p.tries is not None and p.kind in ("decl", "as"):
                    for loc, kind in inst.fn._defs(p.idx):
                        if loc[0] == key[0] and key[1][:len(loc[1])] == loc[1] and "[]" not in loc[1]:
                            kills.add(p.idx)
        live = set()
        work = list(uses)
        while work:
            i = work.pop()
            if i in live:
                continue
            live.add(i)
            for j in pts[i].pred:
                if j in live or j in kills and j not in uses:
                    continue
                work.append(j)
        self._live[k] = live
        return live


def mkDeref(t):
    if t[0] == "addr":
        return t[1]
    return ("deref", t)


def fieldOf(b, field, rec):
    """b.field / b->field (pointer and value bases are not distinguished)."""
    if b[0] == "addr":
        b = b[1]
    if b[0] == "deref":
        b = b[1]
    if b[0] == "struct":
        for f, v in b[2]:
            if f == field:
                return v
        if b[2] and b[2][0][0] == "":
            return fieldOf(b[2][0][1], field, rec)                       # changed copy of a value
        return ZERO
    if b[0] == "int" and b[1] == 0:
        return ZERO
    if b[0] == "phi" and any(a[0] == "struct" for a in b[1]):
        return mkPhi([fieldOf(a, field, rec) for a in b[1]])
    return ("fld", b, field, rec)


def mkPhi(alts):
    out = []
    for a in alts:
        if a is None:
            continue
        if a[0] == "phi":
            for x in a[1]:
                if x not in out:
                    out.append(x)
        elif a not in out:
            out.append(a)
    if not out:
        return ("hav", "none")
    if len(out) == 1:
        return out[0]
    return ("phi", tuple(sorted(out, key=repr)))


def mkIte(c, a, b):
    if c[0] == "int":
        return a if c[1] else b
    if a == b:
        return a
    if a == ONE and b == ZERO and isBoolish(c):
        return c
    if a == ZERO and b == ONE:
        return mkNot(c)
    return ("ite", c, a, b)


def mkNot(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "int":
        return ("int", 0 if t[1] else 1)
    return ("not", t)


def mkOp(o, a, b):
    if a[0] == "int" and b[0] == "int" and isinstance(a[1], int) and isinstance(b[1], int):
        try:
            x, y = a[1], b[1]
            v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "|": lambda: x | y, "&": lambda: x & y,
                 "<<": lambda: x << y, ">>": lambda: x >> y, "==": lambda: int(x == y), "!=": lambda: int(x != y),
                 "<": lambda: int(x < y), ">": lambda: int(x > y), "<=": lambda: int(x <= y), ">=": lambda: int(x >= y),
                 "^": lambda: x ^ y}.get(o)
            if v is not None and not (o in ("<<", ">>") and y > 64):
                return ("int", v())
        except Exception:
            pass
    if o in ("==", "!=") and a[0] in ("ite", "phi") and b[0] == "int":
        pass
    return ("op", o, a, b)


# Branch literals ----------------------------------------------------------------------------------------------------------------------
def lits(t, pol, out=None):
    """Literals [(atom, bool)] implied by term t being true (pol) or false."""
    if out is None:
        out = []
    if not t:
        return "()"
    k = t[0]
    if k == "not":
        return lits(t[1], not pol, out)
    if k == "and":
        if pol:
            lits(t[1], True, out)
            lits(t[2], True, out)
        else:
            out.append((t, False))
        return out
    if k == "or":
        if not pol:
            lits(t[1], False, out)
            lits(t[2], False, out)
        else:
            out.append((t, True))
        return out
    if k == "ite":
        for c, x, other in ((True, t[2], t[3]), (False, t[3], t[2])):
            # the other alternative cannot have this truth value, so the condition is known
            if (other[0] == "int" and bool(other[1]) != pol):
                lits(t[1], c, out)
                return lits(x, pol, out)
    out.append(atom(t, pol))
    return out


def isBoolish(t):
    return t[0] in ("not", "and", "or", "eq", "lt") or (t[0] == "op" and t[1] in ("==", "!=", "<", ">", "<=", ">="))


def signs(prog):
    """Note which functions return a signed or an unsigned type."""
    if not UNSIGNED:
        SIGNED.update(n for n, r in prog.returns() if r.replace("const ", "") in ("int", "long", "long long", "ssize_t", "__ssize_t", "int64_t", "int32_t", "off_t", "__off_t", "pid_t", "__pid_t", "time_t"))
        UNSIGNED.update(f.name for f in prog.fns.values() if f.ret.replace("const ", "").startswith(("unsigned", "uint", "size_t", "bool", "_Bool")))


def signed(t):
    return t[0] == "call" and t[1] in SIGNED or t[:2] == ("P", "call") and any(n in SIGNED for n in t[2])


def atom(t, pol):
    """Canonical (atom, polarity)."""
    if not t:
        return "()"
    k = t[0]
    if k == "op":
        o, a, b = t[1], t[2], t[3]
        if o in ("==", "!="):
            p = pol if o == "==" else not pol
            if a[0] == "int" and b[0] != "int":
                a, b = b, a
            if b[0] == "int" and b[1] in (0, 1) and isBoolish(a):
                # comparison of a boolean with true/false
                l = lits(a, p if b[1] == 1 else not p)
                if len(l) == 1:
                    return l[0]
            if b[0] == "int":
                return (("eq", a, b), p)
            x, y = sorted((a, b), key=repr)
            return (("eq", x, y), p)
        if o in ("<", ">", "<=", ">="):
            if o in (">", "<="):
                # a > b  ==  b < a ; a <= b == !(b < a)
                p = pol if o == ">" else not pol
                l, r = b, a
            else:
                p = pol if o == "<" else not pol
                l, r = a, b
            # l < r
            if l[0] == "int" and isinstance(l[1], int) and r[0] != "int":
                # c < r  ==  !(r < c + 1)
                l, r, p = r, ("int", l[1] + 1), not p
            if r == ONE and not signed(l):
                return (("eq", l, ZERO), p)
            return (("lt", l, r), p)
    if k == "int":
        return (("eq", t, ZERO), not pol)
    return (("eq", t, ZERO), not pol)


NONNULL = re.compile(r"[a-z]New([A-Z]\w*)?$|^(de)?compressFilter(P|Pack)?$|^strNew|^bufNew|^(strL|l)stGet$|^cfgOption(Idx)?(Str|Lst|Kv)$")   # constructors throw when they fail


def truth(a, facts):
    """Truth of atom a under facts (dict atom -> bool) or None."""
    v = facts.get(a)
    if v is not None:
        return v
    if a[0] == "eq":
        x, c = a[1], a[2]
        if x[0] == "int" and c[0] == "int":
            return x[1] == c[1]
        if x[0] == "str" and c == ZERO:
            return False
        if x[0] in ("addr", "struct", "fn") and c == ZERO:
            return False
        if x[0] == "glob" and c == ZERO and x[1].endswith("_STR"):
            return False
        if x[0] == "call" and c == ZERO and NONNULL.search(x[1]) and not x[1].startswith("pckRead"):
            return False
        if c[0] == "int":
            for f, pv in facts.items():
                if pv and f[0] == "eq" and f[1] == x and f[2][0] == "int" and f[2] != c:
                    return False
    elif a[0] == "lt" and a[2] == ZERO and a[1][0] == "call" and a[1][1] in UNSIGNED:
        return False
    elif a[0] == "lt" and a[1][0] == "int" and a[2][0] == "int" and isinstance(a[1][1], int) and isinstance(a[2][1], int):
        return a[1][1] < a[2][1]
    elif a[0] in ("and", "or"):
        l, r = evalBool(a[1], facts), evalBool(a[2], facts)
        if a[0] == "and":
            if l is False or r is False:
                return False
            if l and r:
                return True
        else:
            if l or r:
                return True
            if l is False and r is False:
                return False
    return None


def evalBool(t, facts):
    if not t:
        return "()"
    k = t[0]
    if k == "not":
        v = evalBool(t[1], facts)
        return None if v is None else not v
    if k in ("and", "or"):
        return truth(t, facts)
    if k == "ite":
        c = evalBool(t[1], facts)
        if c is not None:
            return evalBool(t[2] if c else t[3], facts)
        a, b = evalBool(t[2], facts), evalBool(t[3], facts)
        return a if a is not None and a == b else None
    if k == "phi":
        vs = {evalBool(x, facts) for x in t[1]}
        return vs.pop() if len(vs) == 1 else None
    a, p = atom(t, True)
    if a[0] == "eq" and a[1][0] in ("ite", "phi"):
        # compare each alternative
        alts = []
        if a[1][0] == "ite":
            c = evalBool(a[1][1], facts)
            alts = [a[1][2], a[1][3]] if c is None else [a[1][2] if c else a[1][3]]
        else:
            alts = list(a[1][1])
        vs = set()
        for x in alts:
            aa, pp = atom(("op", "==", x, a[2]), True)
            v = truth(aa, facts)
            vs.add(None if v is None else v == pp)
        if len(vs) == 1:
            v = vs.pop()
            return None if v is None else v == p
        return None
    v = truth(a, facts)
    return None if v is None else v == p


def isCtr(t):
    return t[0] == "hav" and isinstance(t[1], tuple) and t[1][0] == "ctr"


def stable(a):
    for t in walkTerm(a):
        if t[0] == "call" and t[1] in NEVER:
            return False
        if t[0] == "hav" and not isCtr(t):
            return False
        if t[0] == "call" and t[1] == "__errno_location":
            return False
    return True


# Exploration -----------------------------------------------------------------------------------------------------------------------------
class Ctx:
    """What a rule sees at a point: resolved call name, argument terms, facts."""

    __slots__ = ("g", "gid", "inst", "pt", "env", "facts")

    def __init__(self, g, gid, env, facts):
        self.g = g
        self.gid = gid
        self.inst, self.pt = g.nodes[gid]
        self.env = env
        self.facts = facts

    @property
    def name(self):
        if self.pt.kind != "call":
            return None
        c = self.pt.data[2]
        if c and c[0] == "f":
            return c[1]
        if c and c[0] == "m":
            return "%s.%s" % (c[3], c[2])
        return "?"

    def nargs(self):
        return len(self.pt.data[3])

    def arg(self, i):
        a = self.pt.data[3]
        if i >= len(a):
            return ("hav", "noarg")
        return self.g.ev(self.inst, a[i], self.pt.idx, self.env)

    def args(self):
        return [self.arg(i) for i in range(self.nargs())]

    def result(self):
        return self.g.elem(self.inst, self.pt.eid, self.pt.idx, self.env, 0, ())

    def where(self):
        return self.g.where(self.gid)

    def lhs(self):
        """Term of an assigned location (fields of values/pointers, variables as ('var', inst, id))."""
        d = self.pt.data
        e = d[2] if self.pt.kind == "as" else d[3] if self.pt.kind == "opas" else d[4]
        if e[0] == "m":
            return self.g.ev(self.inst, e[1][1] if e[1][0] == "d" else e[1], self.pt.idx, self.env), e[2], e[3]
        return None

    def rhs(self):
        d = self.pt.data
        return self.g.ev(self.inst, d[3] if self.pt.kind in ("as",) else d[4], self.pt.idx, self.env)

    def local(self, path):
        pass


class Budget(Exception):
    pass


_shape = {}


def shape(t):
    """A term without its numbers and loop values: what is the same question in another iteration has the same shape."""
    r = _shape.get(t)
    if r is None:
        if t[0] in ("int", "phi", "hav"):
            r = ("?",)
        elif t[0] == "fld":
            r = ("fld", shape(t[1]), t[2])
        else:
            r = tuple(shape(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS else
                      tuple(shape(y) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in TAGS else y for y in x) if isinstance(x, tuple) else x for x in t)
        _shape[t] = r
    return r


_norm = {}


def norm(t):
    """A term without the record types of fields, which are not known for parts of values."""
    r = _norm.get(t)
    if r is None:
        if t[0] == "fld":
            r = ("fld", norm(t[1]), t[2])
        elif t[0] == "call" and len(t) > 3 and t[3] is not None:
            r = t[:2] + t[3:]                                            # one result, though the arguments may be told apart on a way
        else:
            r = tuple(norm(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in TAGS else
                      tuple(norm(y) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in TAGS else y for y in x) if isinstance(x, tuple) else x for x in t)
        _norm[t] = r
    return r


class Explorer:
    """Explores (node, env, facts, pending throw, rule state) and calls the rule's hooks.

    rule hooks (all optional):
      start() -> state
      node(ctx, st) -> new state, or None to stop the path
      edge(ctx, literals, st) -> new state       (literals: [(atom, bool)])
      throw(ctx, st) -> called when an error leaves the entry function (st)
      exit(ctx, st, ret) -> called at normal return with the returned term
    """

    def __init__(self, g, rule, maxStates=150000, trackArgs=None, coarse=False, once=False, trackRet=False, focus=None, soft=(),
                 errorWays=True):
        """focus: nodes that matter to the rule; when given, values and facts are kept only where a decision about them is ahead that
        such a node depends on. soft: expressions whose value is wanted if it would have been tracked anyway."""
        self.once = once
        self.g = g
        self.rule = rule
        self.maxStates = maxStates
        self.coarse = coarse
        self.states = 0
        extra = []
        if trackArgs:
            for inst in g.insts:
                for p in inst.fn.pts():
                    if p.kind == "call" and p.tries is not None:
                        c = p.data[2]
                        n = c[1] if c and c[0] == "f" else ("%s.%s" % (c[3], c[2]) if c and c[0] == "m" else None)
                        if n in trackArgs:
                            sel = trackArgs[n]
                            for i, a in enumerate(p.data[3]):
                                if sel is None or i in sel:
                                    extra.append((inst, p.idx, a))
        if trackRet:
            for p in g.root.fn.pts():
                if p.kind == "ret" and p.tries is not None and p.data[2] is not None:
                    extra.append((g.root, p.idx, p.data[2]))
        g._tracked = None
        self.only = None
        if focus is not None:
            focus = set(focus)
            if trackRet:
                focus.update(g.gid(g.root, p.idx) for p in g.root.fn.pts() if p.kind == "ret" and p.tries is not None)
            full = g.tracked(extra)
            self.only = self._slice(focus, extra, errorWays)
            g._tracked = None
            tr = g.tracked(list(extra) + list(soft), only=self.only)
            g._tracked = None
            hard = g.tracked(extra, only=self.only)
            tr = (tr & full) | hard
            g._tracked = tr
            g._trByInst = {}
            for t in tr:
                if t[0] != "a":
                    g._trByInst.setdefault(t[0], set()).add(t[1])
        self.tr = g.tracked(extra)
        self.ftest = self._factTests()
        self.fshape = {}
        for x in self.ftest:
            if shape(x) != ("?",):
                self.fshape.setdefault(shape(x), set()).update(self.factNodes[x])

    def _factTests(self):
        """atom -> set of global branch ids that test it, for atoms tested at two or more places."""
        g = self.g
        tests = {}
        for inst in g.insts:
            for p in inst.fn.pts():
                if p.tries is None or p.kind not in ("br", "sw"):
                    continue
                t = g.ev(inst, p.data, p.idx)
                if p.kind == "sw":
                    tests.setdefault(("sw", t), set()).add(g.gid(inst, p.idx))
                    continue
                for a in self._atoms(t):
                    tests.setdefault(a, set()).add(g.gid(inst, p.idx))
        keep = set()
        # group eq-tests of one operand: x == A, x == B are related
        byOp = {}
        for a, ns in tests.items():
            op = a[1] if a[0] in ("eq", "sw") else a
            byOp.setdefault(norm(op), set()).update(ns)
            if op[0] == "phi":
                # on a way the variable has one of these values
                for x in op[1]:
                    if x[0] in ("call", "fld"):
                        byOp.setdefault(norm(x), set()).update(ns)
        for op in list(byOp):
            if len(byOp[op]) > 1 and (self.only is None or byOp[op] & self.only):
                keep.add(op)
        self.factNodes = {op: byOp[op] if self.only is None else byOp[op] & self.only for op in keep}
        return keep

    def _slice(self, focus, extra, errorWays):
        """Branches that decide whether a focus node runs, or what a value such a decision uses is. Without errorWays, ways that only end
        in an error do not count as alternatives."""
        g = self.g
        cd = self._controlDeps(errorWays)
        only = {n for n in focus if g.nodes[n][1].kind in ("br", "sw")}
        rel = set(focus)
        done = set()
        while True:
            work = [n for n in rel if n not in done]
            while work:
                n = work.pop()
                if n in done:
                    continue
                done.add(n)
                for b in cd.get(n, ()):
                    if b not in done:
                        work.append(b)
                    only.add(b)
            size = len(rel)
            g._tracked = None
            g.tracked(extra, only=only, defNodes=rel)
            g._tracked = None
            if len(rel) == size:
                return only

    def _controlDeps(self, errorWays):
        g = self.g
        end = g.root.base + g.root.fn.exit
        succ, pred = {}, {}
        for gid, (inst, p) in enumerate(g.nodes):
            if p.tries is None:
                continue
            if p.kind == "call":
                ch = inst.children.get(p.idx)
                if ch is not None:
                    out = [ch.base + ch.fn.entry]
                elif inst.fn.isNoret(p.data):
                    out = [end] if errorWays else []
                else:
                    out = [inst.base + t for t, _ in p.succ]
            elif p.kind == "exit":
                out = [inst.parent.base + t for t, _ in inst.callPt.succ] if inst.parent is not None else []
            elif p.kind == "ret":
                out = [inst.base + inst.fn.exit]
            else:
                out = [inst.base + t for t, _ in p.succ]
            succ[gid] = out
            for o in out:
                pred.setdefault(o, []).append(gid)
        # Only what can still end normally
        order, seen = [], {end}
        stack = [(end, iter(pred.get(end, ())))]
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(pred.get(m, ()))))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        num = {n: i for i, n in enumerate(order)}
        idom = {end: end}
        change = True
        while change:
            change = False
            for n in order[1:]:
                new = None
                for m in succ[n]:
                    if m in idom:
                        if new is None:
                            new = m
                        else:
                            a, b = m, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    change = True
        cd = {}
        for n in order:
            ss = [m for m in succ[n] if m in num]
            if len(ss) < 2:
                continue
            for m in ss:
                while m != idom[n]:
                    cd.setdefault(m, set()).add(n)
                    if m == end:
                        break
                    m = idom[m]
        return cd

    def _atoms(self, t, d=0):
        k = t[0]
        if k == "not":
            return self._atoms(t[1], d)
        if k in ("and", "or"):
            return [t] + self._atoms(t[1], d + 1) + self._atoms(t[2], d + 1)
        if k == "ite":
            return self._atoms(t[1], d + 1) + self._atoms(t[2], d + 1) + self._atoms(t[3], d + 1)
        if k == "phi":
            out = []
            for x in t[1][:6]:
                out += self._atoms(x, d + 1)
            return out
        a, _ = atom(t, True)
        if a[0] == "eq" and a[1][0] in ("ite",) and d < 4:
            return [a] + self._atoms(a[1][1], d + 1)
        return [a]

    def _reachBack(self, nodes):
        """Global ids from which one of nodes can be reached (over the inlined graph, ignoring calls/returns matching)."""
        g = self.g
        if not hasattr(self, "_gpred"):
            pred = {}
            for gid, (inst, p) in enumerate(g.nodes):
                if p.tries is None:
                    continue
                for s in self.succAll(gid):
                    pred.setdefault(s, []).append(gid)
            self._gpred = pred
        live = set()
        work = list(nodes)
        while work:
            i = work.pop()
            if i in live:
                continue
            live.add(i)
            work.extend(self._gpred.get(i, ()))
        return live

    def succAll(self, gid):
        g = self.g
        inst, p = g.nodes[gid]
        out = []
        ch = inst.children.get(p.idx) if p.kind == "call" else None
        if ch is not None:
            out.append(ch.base + ch.fn.entry)
        if p.kind == "exit" and inst.parent is not None:
            for t, _ in inst.callPt.succ:
                out.append(inst.parent.base + t)
        if p.kind == "ret":
            out.append(inst.base + inst.fn.exit)
        for t, _ in p.succ:
            out.append(inst.base + t)
        if p.handler is not None:
            out.append(inst.base + p.handler)
        return out

    def factLive(self, op, gid):
        c = getattr(self, "_fl", None)
        if c is None:
            c = self._fl = {}
        l = c.get(op)
        if l is None:
            n = norm(op)
            l = c[op] = self._reachBack(self.factNodes[n] if n in self.factNodes else self.fshape[shape(op)])
        return gid in l

    def throwTarget(self, inst, p):
        """Handler point (inst, idx, tryidx) for an error raised at p, or None when it leaves the entry function."""
        while True:
            if p.handler is not None:
                tid = [t for t, m in p.tries if m == "body"][-1]
                return inst, p.handler, tid
            if inst.parent is None:
                return None
            p = inst.callPt
            inst = inst.parent

    def run(self):
        g, rule = self.g, self.rule
        start = g.root.base + g.root.fn.entry
        st0 = rule.start()
        init = (start, (), (), (), st0)
        self.parent = {init: None}
        work = [init]
        while work:
            s = work.pop()
            self.states += 1
            if self.states > self.maxStates:
                raise Budget()
            for n in self.step(s):
                if n not in self.parent:
                    self.parent[n] = s
                    work.append(n)
        return self

    def trace(self, s, limit=14):
        out = []
        while s is not None:
            inst, p = self.g.nodes[s[0]]
            if p.kind in ("br", "sw"):
                nxt = out[-1][0] if out else None
                out.append((s[0], "%s:%d" % (inst.fn.file, p.line)))
            elif p.kind == "call" and inst.children.get(p.idx) is not None:
                out.append((s[0], "%s:%d->%s()" % (inst.fn.file, p.line, inst.children[p.idx].fn.name)))
            s = self.parent[s]
        tr = [x[1] for x in reversed(out)]
        if len(tr) > limit:
            tr = tr[:4] + ["..."] + tr[-(limit - 5):]
        return tr

    def step(self, s):
        gid, envT, factT, pend, st = s
        g, rule = self.g, self.rule
        inst, p = g.nodes[gid]
        env = dict(envT)
        facts = dict(factT)
        self.cur = s
        ctx = Ctx(g, gid, env, facts)
        k = p.kind

        if k == "ret":
            ret = None
            if p.data[2] is not None:
                ret = g.ev(inst, p.data[2], p.idx, env)
            if rule.nodeHook:
                st = rule.node(ctx, st)
                if st is None:
                    return
            yield from self.leave(inst, ret, env, facts, pend, st)
            return
        if k == "exit":
            yield from self.leave(inst, None, env, facts, pend, st)
            return

        if rule.nodeHook and k in ("call", "as", "opas", "inc", "decl", "cond"):
            st = rule.node(ctx, st)
            if st is None:
                return

        # Throws
        if k == "call":
            c = p.data[2]
            name = c[1] if c and c[0] == "f" else None
            noret = inst.fn.isNoret(p.data)
            if name == "errorInternalTryEnd":
                tid = p.tries[-1][0] if p.tries else None
                if (inst.id, tid) in pend:
                    # The error was not caught, so it is thrown again
                    pend2 = tuple(x for x in pend if x != (inst.id, tid))
                    yield from self.raise_(inst, p, env, facts, pend2, st, ctx)
                    return
            child = inst.children.get(p.idx)
            if noret:
                yield from self.raise_(inst, p, env, facts, pend, st, ctx)
                return
            if child is not None:
                env2 = {kk: v for kk, v in env.items()}
                for i, a in enumerate(p.data[3]):
                    if ("a", child.id, i) in self.tr:
                        env2[("a", child.id, i)] = self.cap(g.ev(inst, a, p.idx, env))
                yield self.mk(child.base + child.fn.entry, env2, facts, pend, st)
                return
            if p.handler is not None or self.throwTarget(inst, p) is not None:
                if name is None or not self.noThrow(name):
                    yield from self.raise_(inst, p, env, facts, pend, st, ctx)
            # executing a call again makes what was known about its previous result void
            facts = {a: v for a, v in facts.items() if not mentions(a, gid)}
            if facts and not (name is not None and isPure(g.prog, name)):
                facts = killMutated(facts, ctx.args())

        # Definitions
        for (loc, kind) in inst.fn._defs(p.idx):
            tl = self.g._trByInst.get(inst.id)
            if not tl:
                break
            for t in tl:
                if t[0] != loc[0]:
                    continue
                if t[1][:len(loc[1])] == loc[1]:
                    # t is loc or below it: new value
                    if kind in ("decl", "as"):
                        rhs = p.data[3]
                        if rhs is None:
                            v = ("hav", "uninit")
                        else:
                            v = g.ev(inst, rhs, p.idx, env)
                            v = self.below(v, t[1][len(loc[1]):])
                    elif kind == "out":
                        v = ("out", g.callTermName(inst, p), gid, t[1][len(loc[1]):])
                    else:
                        v = ("hav", (kind, gid))
                        if kind == "opas" and p.data[2] == "|" or kind == "opas" and p.data[2] == "&":
                            v = mkOp(p.data[2], env.get((inst.id,) + t, ("hav", gid)), g.ev(inst, p.data[4], p.idx, env))
                    if not self.once and t[1] == () and loc[1] == () and t[0] in inst.fn.counters():
                        # The iterations of a counting loop are alike, only one of them is looked at
                        v = ("hav", ("ctr", inst.id, t[0]))
                        facts = {a: x for a, x in facts.items() if not contains(a, v)}
                        st = rule.drop(st, v)
                    env[(inst.id,) + t] = self.cap(v, gid)

        if k in ("br",):
            t = g.ev(inst, p.data, p.idx, env)
            yield from self.branch(ctx, inst, p, t, env, facts, pend, st)
            return
        if k == "sw":
            t = g.ev(inst, p.data, p.idx, env)
            for tgt, lab in p.succ:
                if lab[0] == "case":
                    ls = [(("eq", t, g.ev(inst, lab[1], p.idx, env)), True)]
                else:
                    ls = [(("eq", t, g.ev(inst, v, p.idx, env)), False) for v in lab[1]]
                yield from self.take(ctx, inst, tgt, ls, env, facts, pend, st)
            return
        for tgt, _ in p.succ:
            yield self.mk(inst.base + tgt, env, facts, pend, st)

    def below(self, v, path):
        for f in path:
            if f == "*":
                v = mkDeref(v)
            elif f == "[]":
                v = ("idx", v, ("hav", "i"))
            else:
                v = fieldOf(v, f, "")
        return v

    def cap(self, v, gid=None):
        if termSize(v, 120) > 120:
            # Keep what is on the outside of a large value
            if v[0] == "phi" and len(v[1]) <= 4:
                return mkPhi([self.cap(x, gid) for x in v[1]])
            if v[0] == "call":
                left = max(6, 60 // max(1, len(v[2])))
                v = ("call", v[1], tuple(a if termSize(a, left) <= left else ("hav", ("big", gid)) for a in v[2]), v[3])
                if termSize(v, 120) <= 120:
                    return v
            return ("hav", ("big", gid))
        return v

    def branch(self, ctx, inst, p, t, env, facts, pend, st):
        only = self.onceBranch(p, t) if self.once and p.loop else None
        for tgt, lab in p.succ:
            pol = lab == "T"
            if only is not None and pol != only:
                continue
            v = evalBool(t, facts)
            if v is not None and v != pol:
                continue
            for alt in self.splitTerm(t, facts):
                at, afacts = alt
                ok = True
                v = evalBool(at, {**facts, **afacts})
                if v is not None and v != pol:
                    continue
                ls = lits(at, pol)
                # resolve a false conjunction / true disjunction with what is known
                ls = self.refine(ls, {**facts, **afacts})
                if ls is None:
                    continue
                extra = [(a, b) for a, b in afacts.items()]
                p2 = pend
                if self.isCatch(inst, p):
                    tid = p.tries[-1][0]
                    if pol:
                        p2 = tuple(x for x in pend if x != (inst.id, tid))
                yield from self.take(ctx, inst, tgt, extra + ls, env, facts, p2, st)

    SIZES = ("lstSize", "strLstSize", "varLstSize", "storageLstSize", "manifestFileTotal", "manifestPathTotal", "manifestTargetTotal", "manifestLinkTotal", "manifestDbTotal",
             "infoBackupDataTotal", "infoPgDataTotal", "cfgOptionGroupIdxTotal")

    def onceBranch(self, p, t):
        """Representative iteration: a loop over the elements of a container visits one element (container taken as not empty)."""
        if t[0] != "op" or t[1] not in ("<", ">", "!="):
            return None
        a, b = (t[2], t[3]) if t[1] != ">" else (t[3], t[2])
        if b[0] != "call" or b[1] not in self.SIZES:
            return None
        return a == ZERO

    def isCatch(self, inst, p):
        c = p.data
        if c[0] == "c":
            q = inst.fn.elemOf.get(c[1])
            return q is not None and q.data[1] == "call" and q.data[2] == ["f", "errorInternalCatch"]
        return False

    def splitTerm(self, t, facts, d=0):
        """Case split on the condition of ite terms at the top of a branch term, so each alternative is a plain condition."""
        if d > 3:
            return [(t, {})]
        if t[0] == "not":
            return [(mkNot(x), f) for x, f in self.splitTerm(t[1], facts, d)]
        if t[0] == "ite":
            out = []
            for pol, x in ((True, t[2]), (False, t[3])):
                v = evalBool(t[1], facts)
                if v is not None and v != pol:
                    continue
                ls = self.refine(lits(t[1], pol), facts)
                if ls is None:
                    continue
                add = {a: b for a, b in ls}
                for y, f in self.splitTerm(x, {**facts, **add}, d + 1):
                    out.append((y, {**add, **f}))
            return out
        if t[0] == "op" and t[2][0] == "ite" and t[3][0] != "ite":
            return [(mkOp(t[1], x, t[3]) if x[0] != "ite" else t, f) for x, f in self.splitIte(t[2], facts, d)]
        if t[0] == "op" and t[3][0] == "ite" and t[2][0] != "ite":
            return [(mkOp(t[1], t[2], x) if x[0] != "ite" else t, f) for x, f in self.splitIte(t[3], facts, d)]
        if t[0] == "phi":
            return [(x, {}) for x in t[1]]
        if t[0] in ("and", "or"):
            # A value made by && or ||: the cases it is evaluated in
            out = []
            stop = t[0] == "or"
            for c, f0 in self.splitTerm(t[1], facts, d + 1):
                for pol in (True, False):
                    fs = {**facts, **f0}
                    v = evalBool(c, fs)
                    if v is not None and v != pol:
                        continue
                    ls = self.refine(lits(c, pol), fs)
                    if ls is None:
                        continue
                    add = {**f0, **{a: b for a, b in ls}}
                    if pol is stop:
                        out.append((ONE if stop else ZERO, add))
                    else:
                        for y, f in self.splitTerm(t[2], {**facts, **add}, d + 1):
                            out.append((y, {**add, **f}))
            return out if out else [(t, {})]
        return [(t, {})]

    def splitIte(self, t, facts, d):
        out = []
        if t[0] != "ite" or d > 3:
            return [(t, {})]
        for pol, x in ((True, t[2]), (False, t[3])):
            v = evalBool(t[1], facts)
            if v is not None and v != pol:
                continue
            ls = self.refine(lits(t[1], pol), facts)
            if ls is None:
                continue
            add = {a: b for a, b in ls}
            for y, f in self.splitIte(x, {**facts, **add}, d + 1):
                out.append((y, {**add, **f}))
        return out

    def refine(self, ls, facts):
        out = []
        for a, pol in ls:
            if a[0] in ("and", "or"):
                l, r = evalBool(a[1], facts), evalBool(a[2], facts)
                if a[0] == "and" and pol is False:
                    if l is True and r is None:
                        out += lits(a[2], False)
                        continue
                    if r is True and l is None:
                        out += lits(a[1], False)
                        continue
                    if l is True and r is True:
                        return None
                if a[0] == "or" and pol is True:
                    if l is False and r is None:
                        out += lits(a[2], True)
                        continue
                    if r is False and l is None:
                        out += lits(a[1], True)
                        continue
                    if l is False and r is False:
                        return None
            out.append((a, pol))
        return out

    def take(self, ctx, inst, tgt, ls, env, facts, pend, st):
        nf = facts
        for a, pol in ls:
            v = truth(a, nf)
            if v is not None and v != pol:
                return
        add = {}
        for a, pol in ls:
            op = a[1] if a[0] == "eq" else a
            if not self.coarse and op[0] != "int" and (norm(op) in self.ftest or (self.once or any(isCtr(x) for x in walkTerm(op))) and shape(op) in self.fshape) and stable(a):
                add[a] = pol
        if add:
            nf = dict(facts)
            nf.update(add)
        if self.rule.edgeHook:
            st = self.rule.edge(ctx, ls, st)
            if st is None:
                return
        yield self.mk(inst.base + tgt, env, nf, pend, st)

    def mk(self, gid, env, facts, pend, st):
        inst, p = self.g.nodes[gid]
        # keep only what can still matter
        e = []
        for kk, v in env.items():
            if kk[0] == "a":
                i = self.g.insts[kk[1]]
                if not self.onStack(i, inst):
                    continue
            elif kk[0] == "r":
                i = self.g.insts[kk[1]]
                if not self.onStack(i, inst):
                    continue
                pi = p.idx if i is inst else self.ptOf(i, inst)
                q = i.fn.pts()[kk[2]]
                if pi not in self.g.liveAt(i, ("r", q.eid)) and pi != kk[2]:
                    continue
            else:
                i = self.g.insts[kk[0]]
                if not self.onStack(i, inst):
                    continue
                pi = p.idx if i is inst else self.ptOf(i, inst)
                if pi not in self.g.liveAt(i, (kk[1], kk[2])):
                    continue
            e.append((kk, v))
        f = []
        for a, v in facts.items():
            op = a[1] if a[0] == "eq" else a
            if self.factLive(op, gid):
                f.append((a, v))
        e.sort(key=lambda x: repr(x[0]))
        f.sort(key=repr)
        return (gid, tuple(e), tuple(f), pend, st)

    def onStack(self, i, inst):
        while inst is not None:
            if inst is i:
                return True
            inst = inst.parent
        return False

    def ptOf(self, i, inst):
        """Call point in instance i that leads to inst."""
        while inst.parent is not i:
            inst = inst.parent
        return inst.callPt.idx

    def leave(self, inst, ret, env, facts, pend, st):
        g = self.g
        if inst.parent is None:
            self.rule.exit(Ctx(g, inst.base + inst.fn.exit, env, facts), st, ret)
            return
        cp = inst.callPt
        par = inst.parent
        env = dict(env)
        if ret is not None:
            env[("r", par.id, cp.idx)] = self.cap(ret)
        # the parent's definitions through address-taken arguments
        for (loc, kind) in par.fn._defs(cp.idx):
            for t in g._trByInst.get(par.id, ()):
                if t[0] == loc[0] and t[1][:len(loc[1])] == loc[1]:
                    env[(par.id,) + t] = ("out", g.callTermName(par, cp), g.gid(par, cp.idx), t[1][len(loc[1]):])
        for tgt, _ in cp.succ:
            yield self.mk(par.base + tgt, env, facts, pend, st)

    def raise_(self, inst, p, env, facts, pend, st, ctx):
        tgt = self.throwTarget(inst, p)
        if self.rule.throwHook:
            st = self.rule.throw(ctx, st, tgt)
            if st is None:
                return
        if tgt is None:
            return
        ti, h, tid = tgt
        # An error in the code that cleans up ends up in the handler once more; it is pending once
        yield self.mk(ti.base + h, env, facts, pend if (ti.id, tid) in pend else pend + ((ti.id, tid),), st)

    NOTHROW = ("strZ", "__errno_location", "errorInternal", "logInternal", "logAny", "memContext", "objMemContext", "errorMessage", "errorCode", "errorType",
               "close", "closedir", "free", "ssl", "SSL_", "libssh2", "PQ", "_setjmp", "setjmp", "strEq", "lstSize", "strLstSize", "lstGet", "strLstGet", "cfgOption", "strSize")

    def noThrow(self, name):
        return name.startswith(self.NOTHROW)


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


def mentions(a, gid):
    for t in walkTerm(a):
        if t[0] in ("call", "icall") and t[3] == gid:
            return True
        if t[0] == "out" and t[2] == gid:
            return True
    return False


class Rule:
    def drop(self, st, term):
        """What was decided about the term no longer holds."""
        return st

    """Base class: a path automaton."""
    nodeHook = True
    edgeHook = False
    throwHook = False

    def start(self):
        return ()

    def node(self, ctx, st):
        return st

    def edge(self, ctx, ls, st):
        return st

    def throw(self, ctx, st, tgt):
        return st

    def exit(self, ctx, st, ret):
        pass
