"""Resolved whole-program model: loads the extractor's output, flattens each function's CFG into points, answers reaching-definition
and call-graph questions. Nothing here executes the analysed program."""

import json
import re
from collections import defaultdict

NOISE = {
    "stackTracePush", "stackTracePop", "stackTraceParamLog", "stackTraceParamBuffer", "stackTraceParamAdd", "stackTraceParam",
    "memContextSwitch", "memContextSwitchBack", "memContextDiscard", "memContextKeep",
}

THROWS = {
    "errorInternalThrow", "errorInternalThrowFmt", "errorInternalThrowSys", "errorInternalThrowSysFmt", "errorInternalPropagate",
}


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable source): neither a pass nor a violation."""


class Pt:
    """A point of a function: one evaluated element, a branch, a switch, a return or the exit."""

    __slots__ = ("kind", "data", "line", "succ", "pred", "idx", "eid", "tries", "handler", "loop")

    def __init__(self, kind, data, line, eid=None):
        self.kind = kind
        self.data = data
        self.line = line
        self.succ = []
        self.pred = []
        self.eid = eid
        self.idx = -1
        self.tries = ()
        self.handler = None
        self.loop = None


def lval(e):
    """Access path (root var, path) of an lvalue expression or None."""
    path = []
    while True:
        k = e[0]
        if k == "v":
            return (e[1], tuple(reversed(path)))
        if k == "g":
            return ("g:" + e[1], tuple(reversed(path)))
        if k == "m":
            path.append(e[2])
            e = e[1]
        elif k == "d":
            path.append("*")
            e = e[1]
            if e[0] == "a":
                path.pop()
                e = e[1]
        elif k == "x":
            path.append("[]")
            e = e[1]
        else:
            return None


class Fn:
    def __init__(self, d):
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.end = d["end"]
        self.ext = d["ext"]
        self.noret = d["noret"]
        self.ret = d["ret"]
        self.params = d["params"]
        self.locals = {l[0]: l for l in d["locals"]}
        self.raw = d
        self.points = None
        self._rd = {}

    def __repr__(self):
        return "<Fn %s>" % self.name

    @property
    def inheader(self):
        return self.file.endswith(".h")

    @property
    def logged(self):
        """Parameters that are written to the log and to stack traces."""
        return {e[3][0][1] for b in self.raw["blocks"] for e in b[1] if e[1] == "call" and e[2] == ["f", "stackTraceParamBuffer"] and e[3] and e[3][0][0] == "s"}

    def pts(self):
        if self.points is None:
            self._flatten()
        return self.points

    def _flatten(self):
        d = self.raw
        blocks = {b[0]: b for b in d["blocks"]}
        pts = []
        first = {}
        pend = []
        elemOf = {}

        def add(p):
            p.idx = len(pts)
            pts.append(p)
            return p

        for b in d["blocks"]:
            bid, elems, cond, succs, kind, noret, tline = b
            chain = [add(Pt("nop", None, 0))]
            for e in elems:
                k = e[1]
                if k == "call" and e[2] and e[2][0] == "f" and e[2][1] in NOISE:
                    p = Pt("nop", None, e[-1], e[0])
                    p.data = e
                elif k == "decl":
                    p = Pt("decl", e, e[-1], e[0])
                else:
                    p = Pt(k, e, e[-1], e[0])
                add(p)
                if k != "decl":
                    elemOf[e[0]] = p
                chain.append(p)
            for a, c in zip(chain, chain[1:]):
                a.succ.append((c.idx, None))
            first[bid] = chain[0].idx
            pend.append((chain[-1], cond, succs, kind, bid, tline))

        exitIdx = first[d["exit"]]
        pts[exitIdx].kind = "exit"
        line = 0
        for last, cond, succs, kind, bid, tline in pend:
            if last.idx == exitIdx:
                continue
            live = [s for s in succs if s is not None]
            # A noreturn call or a throw ends the path
            if last.kind == "call" and self.isNoret(last.data):
                last.succ = []
                continue
            if kind == "SwitchStmt":
                p = add(Pt("sw", cond, tline or last.line))
                last.succ.append((p.idx, None))
                vals = [s[1][0] for s in succs if s[1] != "default"]
                for s in succs:
                    if s[1] == "default":
                        p.succ.append((first[s[0]], ("default", vals)))
                    else:
                        p.succ.append((first[s[0]], ("case", s[1][0])))
                continue
            if len(succs) == 2 and len(live) == 2 and cond is not None:
                # Function parameter logging is not behaviour: skip it. Real log messages are kept.
                if cond[0] == "c" and cond[1] in elemOf:
                    ce = elemOf[cond[1]].data
                    if ce and ce[1] == "call" and ce[2] == ["f", "logAny"]:
                        a = ce[3][0]
                        isFn = a[0] == "v" and self.locals[a[1]][1] == "FUNCTION_LOG_logLevel"
                        last.succ.append((first[succs[1 if isFn else 0]], None))
                        continue
                p = add(Pt("br", cond, tline or last.line))
                p.loop = kind if kind in ("ForStmt", "WhileStmt", "DoStmt", "&&", "||") else None
                last.succ.append((p.idx, None))
                p.succ.append((first[succs[0]], "T"))
                p.succ.append((first[succs[1]], "F"))
                continue
            if len(live) == 0:
                continue
            if len(live) > 1 and cond is None:
                for s in live:
                    last.succ.append((first[s], None))
                continue
            last.succ.append((first[live[0]], None))

        self.entry = first[d["entry"]]
        self.exit = exitIdx
        self.elemOf = elemOf

        # Reachability from the entry and compaction of empty points
        def skip(i):
            seen = set()
            while pts[i].kind == "nop" and len(pts[i].succ) == 1 and i not in seen:
                seen.add(i)
                i = pts[i].succ[0][0]
            return i

        for p in pts:
            p.succ = [(skip(t), l) for t, l in p.succ]
        self.entry = self.entry if pts[self.entry].kind != "nop" else skip(self.entry)

        # Branches on setjmp: body on the true edge, the false edge is reached by throws only
        self.tryHandler = {}
        for p in pts:
            if p.kind == "br" and self._isSetjmp(p.data, elemOf):
                t = [s for s in p.succ if s[1] == "T"][0]
                f = [s for s in p.succ if s[1] == "F"][0]
                self.tryHandler[p.idx] = f[0]
                p.kind = "try"
                p.succ = [(t[0], None)]
        # Propagate try nesting
        self._tries(pts)
        for p in pts:
            if p.tries is None:
                continue
            for t, _ in p.succ:
                pts[t].pred.append(p.idx)
            if p.handler is not None and (p.kind == "call"):
                pts[p.handler].pred.append(p.idx)
        for p in pts:
            if p.loop and p.tries is not None:
                seen = set()
                work = [t for t, _ in p.succ]
                while work:
                    i = work.pop()
                    if i not in seen:
                        seen.add(i)
                        work.extend(t for t, _ in pts[i].succ)
                if p.idx not in seen:
                    p.loop = None
        self.points = pts

    def isNoret(self, e):
        return e[2] and e[2][0] == "f" and (e[2][1] in THROWS or e[2][1] in self.prog.noret)

    @staticmethod
    def _isSetjmp(cond, elemOf):
        if cond[0] == "b" and cond[1] == "==" and cond[2][0] == "c":
            p = elemOf.get(cond[2][1])
            return p is not None and p.data[1] == "call" and p.data[2] in (["f", "_setjmp"], ["f", "setjmp"], ["f", "__sigsetjmp"])
        return False

    def _tries(self, pts):
        """Set p.tries (stack of (try idx, mode)) and p.handler (throw target) by forward propagation."""
        for p in pts:
            p.tries = None
        work = [(self.entry, ())]
        while work:
            i, st = work.pop()
            p = pts[i]
            if p.tries is not None:
                continue
            p.tries = st
            body = [t for t, m in st if m == "body"]
            p.handler = self.tryHandler[body[-1]] if body else None
            nst = st
            if p.kind == "try":
                work.append((self.tryHandler[i], st + ((i, "catch"),)))
                nst = st + ((i, "body"),)
            elif p.kind == "call" and p.data[2] == ["f", "errorInternalTryEnd"]:
                nst = st[:-1]
            for t, _ in p.succ:
                work.append((t, nst))

    # Reaching definitions ---------------------------------------------------------------------------------------------------------
    def defsAt(self, p):
        """Locations written by a point: list of (loc, kind)."""
        k = p.kind
        out = []
        if k == "decl":
            out.append(((p.data[2], ()), "decl"))
        elif k == "as":
            l = lval(p.data[2])
            if l:
                out.append((l, "as"))
        elif k == "opas":
            l = lval(p.data[3])
            if l:
                out.append((l, "opas"))
        elif k == "inc":
            l = lval(p.data[4])
            if l:
                out.append((l, "inc"))
        elif k == "call":
            for k, a in enumerate(p.data[3]):
                if a[0] in ("a", "v") and p.data[2] and p.data[2][0] == "f" and self.prog.constParam(p.data[2][1], k):
                    continue
                if a[0] == "a":
                    l = lval(a[1])
                    if l is not None and not (p.data[2] and p.data[2][0] == "f" and p.data[2][1] in self.prog.constAddr(a)):
                        out.append((l, "out"))
                elif a[0] == "v" and "[" in self.locals[a[1]][2]:
                    out.append(((a[1], ()), "out"))
        return out

    def counters(self):
        """Local variables that are counted up and compared with a bound."""
        c = getattr(self, "_ctr", None)
        if c is None:
            inc, cmp = set(), set()
            for p in self.pts():
                if p.tries is None:
                    continue
                if p.kind == "inc" and p.data[4][0] == "v":
                    inc.add(p.data[4][1])
                elif p.kind == "br" and p.data[0] == "b" and p.data[1] in ("<", ">", "<=", ">="):
                    for x in p.data[2:4]:
                        if x[0] == "v":
                            cmp.add(x[1])
            c = self._ctr = inc & cmp
        return c

    def reaching(self, idx, loc):
        """Set of (point idx, kind, def loc) that define loc at entry of point idx; point -1 stands for the value at function entry."""
        key = (idx, loc)
        r = self._rd.get(key)
        if r is not None:
            return r
        pts = self.pts()
        res = set()
        seen = set()
        work = list(pts[idx].pred)
        if idx == self.entry:
            res.add((-1, "entry", loc))
        root, path = loc
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            p = pts[i]
            hit = False
            ds = p.__dict__ if False else self._defs(i)
            for (r0, pa), kind in ds:
                if r0 == root and path[:len(pa)] == pa:
                    res.add((i, kind, (r0, pa)))
                    hit = True
            if hit:
                continue
            if i == self.entry:
                res.add((-1, "entry", loc))
            work.extend(p.pred)
        self._rd[key] = res
        return res

    def partials(self, loc):
        """Fields of a struct variable that are assigned on their own: field -> lvalue expression."""
        c = getattr(self, "_parts", None)
        if c is None:
            c = {}
            for p in self.pts():
                if p.tries is None or p.kind not in ("as", "opas", "inc"):
                    continue
                e = p.data[2] if p.kind == "as" else p.data[3] if p.kind == "opas" else p.data[4]
                while e[0] == "m":
                    l = lval(e)
                    if l is None or isinstance(l[0], str) or "*" in l[1] or "[]" in l[1]:
                        break
                    c.setdefault((l[0], l[1][:-1]), {})[l[1][-1]] = e
                    e = e[1]
            self._parts = c
        return c.get(loc, {})

    def _defs(self, i):
        c = getattr(self, "_dc", None)
        if c is None:
            c = self._dc = {}
        d = c.get(i)
        if d is None:
            d = c[i] = self.defsAt(self.points[i])
        return d


class Prog:
    def __init__(self, paths):
        self.fns = {}
        self.gvars = {}
        self.enums = {}
        self.enumval = {}
        self.recs = {}
        self.decls = {}
        self.noret = set(THROWS)
        raw = []
        for path in paths:
            with open(path) as f:
                for line in f:
                    d = json.loads(line)
                    k = d["k"]
                    if k == "fn":
                        if d["name"] not in self.fns:
                            fn = Fn(d)
                            fn.prog = self
                            self.fns[fn.name] = fn
                        if d["noret"]:
                            self.noret.add(d["name"])
                    elif k == "gv":
                        old = self.gvars.get(d["name"])
                        if old is None or (old["init"] is None and d["init"] is not None):
                            self.gvars[d["name"]] = d
                    elif k == "en":
                        self.enums[d["name"]] = dict(map(tuple, d["vals"]))
                        for n, v in d["vals"]:
                            self.enumval[n] = v
                    elif k == "mac":
                        self.enumval.setdefault(d["name"], d["val"])
                    elif k == "rec":
                        self.recs.setdefault(d["name"], d)
                    elif k == "decl":
                        self.decls.setdefault(d["name"], d)
                        if d["noret"]:
                            self.noret.add(d["name"])
        self._slots = None
        self._cg = None

    def returns(self):
        """(name, return type) of every function known."""
        out = {n: d.get("ret", "") for n, d in self.decls.items()}
        out.update((f.name, f.ret) for f in self.fns.values())
        return out.items()

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            raise AnalysisError("anchor function '%s' not found in the analysed source" % name)
        return f

    def enum(self, name):
        if name not in self.enumval:
            raise AnalysisError("anchor enumerator '%s' not found in the analysed source" % name)
        return self.enumval[name]

    def constParam(self, name, k):
        """Parameter k of the function is a pointer to something constant: the function does not write through it."""
        c = getattr(self, "_cpar", None)
        if c is None:
            c = self._cpar = {}
        r = c.get((name, k))
        if r is None:
            fn = self.fns.get(name)
            r = c[(name, k)] = fn is not None and k < len(fn.params) and re.match(r"const [\w ]+\*\s*(const)?$", fn.params[k][2]) is not None
        return r

    def constAddr(self, a):
        return ()

    # Function pointer slots: (record, field) -> functions ever stored there -----------------------------------------------------------
    def slots(self):
        if self._slots is None:
            s = defaultdict(set)

            def walk(e, rec=None, field=None):
                if not isinstance(e, list) or not e:
                    return
                if e[0] == "f" and rec is not None:
                    s[(rec, field)].add(e[1])
                elif e[0] == "S":
                    for f, v in e[2].items():
                        walk(v, e[1], f)
                elif e[0] == "A":
                    for v in e[1]:
                        if v is not None:
                            walk(v, rec, field)
                else:
                    for v in e[1:]:
                        if isinstance(v, list):
                            walk(v)

            for g in self.gvars.values():
                if g["init"] is not None:
                    walk(g["init"])
            for f in self.fns.values():
                for b in f.raw["blocks"]:
                    for el in b[1]:
                        if el[1] == "as" and el[2][0] == "m" and el[3][0] == "f":
                            s[(el[2][3], el[2][2])].add(el[3][1])
                        for v in el[2:]:
                            if isinstance(v, list):
                                walk(v)
                                if el[1] == "call":
                                    for a in (v if v and isinstance(v[0], list) else ()):
                                        walk(a)
            self._slots = s
        return self._slots

    # Call graph ---------------------------------------------------------------------------------------------------------------------
    def callees(self, name):
        """Direct callees, functions whose address is taken, and functions reachable through slot calls."""
        if self._cg is None:
            self._cg = {}
        r = self._cg.get(name)
        if r is not None:
            return r
        f = self.fns.get(name)
        direct, addr, slot = set(), set(), set()
        if f is not None:
            def walk(e):
                if not isinstance(e, list):
                    if isinstance(e, dict):
                        for v in e.values():
                            walk(v)
                    return
                if e and e[0] == "f" and len(e) == 2 and isinstance(e[1], str):
                    addr.add(e[1])
                    return
                if e and e[0] == "g" and len(e) == 2 and isinstance(e[1], str):
                    g = self.gvars.get(e[1])
                    if g is not None and g["init"] is not None and e[1] not in seenG:
                        seenG.add(e[1])
                        walk(g["init"])
                    return
                for v in e:
                    walk(v)

            seenG = set()
            for p in f.pts():
                if p.tries is None:
                    continue
                if p.kind == "call":
                    c = p.data[2]
                    if c and c[0] == "f":
                        direct.add(c[1])
                    elif c and c[0] == "m":
                        slot.add((c[3], c[2]))
                    elif c:
                        walk(c)
                    walk(p.data[3])
                elif p.data is not None and p.kind not in ("nop", "try"):
                    walk(p.data)
        r = (direct, addr, slot)
        self._cg[name] = r
        return r

    def edges(self, name, addr=True):
        d, a, s = self.callees(name)
        out = set(d)
        if addr:
            out |= a
        for k in s:
            out |= self.slots().get(k, set())
        return out

    def reach(self, roots, addr=True, stop=()):
        """Functions reachable from roots; returns {name: parent}."""
        par = {r: None for r in roots}
        work = list(roots)
        while work:
            n = work.pop()
            if n in stop:
                continue
            for m in self.edges(n, addr):
                if m not in par:
                    par[m] = n
                    work.append(m)
        return par

    def callers(self):
        c = getattr(self, "_callers", None)
        if c is None:
            c = defaultdict(set)
            for f in self.fns:
                for m in self.callees(f)[0]:
                    c[m].add(f)
            self._callers = c
        return c

    def sites(self, callee):
        """All call sites (fn, point) of a directly called function."""
        out = []
        for c in sorted(self.callers()[callee]):
            f = self.fns[c]
            for p in f.pts():
                if p.kind == "call" and p.tries is not None and p.data[2] == ["f", callee]:
                    out.append((f, p))
        return out

    def strOf(self, g):
        """String value of a const String global, if it is one."""
        v = self.gvars.get(g)
        if v is None or v["init"] is None:
            return None
        return strLit(v["init"])


def strLit(e):
    """String value of STRDEF()/STRING_STATIC style initializers."""
    if not isinstance(e, list) or not e:
        return None
    if e[0] == "s":
        return e[1]
    if e[0] == "a":
        return strLit(e[1])
    if e[0] == "S" and e[1].startswith("String"):
        b = e[2].get("buffer") or e[2].get("pub")
        return strLit(b) if b else None
    return None
