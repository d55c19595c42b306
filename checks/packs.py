"""Agreement of the two ends of a pack: what one function writes, the other reads, in the same order, with the same types and under conditions that match. Language inclusion of the sequences of pack calls
along the paths of the writer in those of the reader, on the control flow graphs; simple constants are followed, so that a branch on a value that was written as a constant is taken as it must be."""
SKIP = ("New", "NewC", "NewIo", "NewInternal", "End", "EndP", "Free", "Result", "Move", "ToLog", "Id", "Next", "Type", "Consume", "Type", "Size", "Buf", "Data", "DataP")
NEUTRAL = ("memContext", "stackTrace", "errorInternal", "log", "mem", "obj", "str", "lst", "var", "buf", "kv")


def nameOf(p):
    return p.data[2][1] if p.kind == "call" and p.data and p.data[2][0] == "f" else None


class Side:
    """One end: the pack calls with the prefix, inlining helpers that are given the pack."""
    def __init__(self, prog, fn, prefix, stop=(), start=None):
        self.prog, self.prefix, self.stop, self.start0 = prog, prefix, stop, start
        self.root = fn
        self.pts = {}
        self.inl = {}
        self.other = set()
        self.rel = {}

    def point(self, fn, i):
        if fn not in self.pts:
            self.pts[fn] = {p.idx: p for p in self.prog.fns[fn].pts()}
            self.nested(fn)
        return self.pts[fn][i]

    def nested(self, fn):
        """Calls on a pack that was itself read from a pack."""
        ps = self.pts[fn].values()
        ids = {p.data[0] for p in ps if nameOf(p) and nameOf(p).startswith("pckReadPackRead")}
        vs = {p.data[2] for p in ps if p.kind == "decl" and p.data[3] and p.data[3][0] == "c" and p.data[3][1] in ids}
        for p in ps:
            if p.kind == "call" and p.data and any(a == ["v", v] for a in p.data[3] for v in vs) and not (nameOf(p) or "").startswith("pckReadPack"):
                self.other.add(id(p))

    def entry(self, fn):
        self.point(fn, min(self.pts[fn]) if fn in self.pts else next(iter(self.prog.fns[fn].pts())).idx)
        has = {s for p in self.pts[fn].values() for s, _ in p.succ}
        f = self.prog.fns[fn]
        return f.entry if hasattr(f, "entry") else min(i for i in self.pts[fn])

    def kind(self, p):
        n = nameOf(p)
        if id(p) in self.other:
            return None
        if n and n.startswith(self.prefix):
            k = n[len(self.prefix):]
            if k.endswith("Internal"):
                k = k[:-8]
            return None if k in SKIP else "Pack" if k == "PackRead" else k
        return None

    def relevant(self, fn):
        """What is worth remembering in a function: the terms of the branches that decide which pack call comes next."""
        if fn in self.rel:
            return self.rel[fn]
        self.entry(fn)
        ps = self.pts[fn]
        stop = {i for i, p in ps.items() if self.kind(p) or p.kind == "exit" or nameOf(p) in self.stop or self.inlinable(p, 1)}
        nxt = {i: {i} if i in stop else set() for i in ps}
        more = True
        while more:
            more = False
            for i, p in sorted(ps.items(), reverse=True):
                if i not in stop:
                    new = set().union(*[nxt[s] for s, _ in p.succ]) if p.succ else set()
                    if new != nxt[i]:
                        nxt[i], more = new, True
        out = set()

        def terms(e):
            if isinstance(e, list) and e:
                if e[0] in ("v", "m", "c"):
                    out.add(str(e))
                for x in e[1:]:
                    if isinstance(x, list):
                        terms(x)

        for p in ps.values():
            if p.kind == "br" and p.data and len({frozenset(nxt[s]) for s, _ in p.succ}) > 1:
                terms(p.data)
        size = -1
        while size != len(out):
            size = len(out)
            for p in ps.values():
                if not p.data:
                    continue
                if p.kind == "decl" and str(["v", p.data[2]]) in out:
                    terms(p.data[3])
                elif p.kind == "as" and str(p.data[2]) in out:
                    terms(p.data[3])
                elif p.kind == "cond" and str(["c", p.data[0]]) in out:
                    for x in p.data[2:5]:
                        terms(x)
                elif p.kind == "ret" and str(["c", p.data[0]]) in out:
                    terms(p.data[2])
        self.rel[fn] = out
        return out

    def inlinable(self, p, depth):
        n = nameOf(p)
        f = self.prog.fns.get(n)
        if f is None or id(p) in self.other or depth > 4 or n.startswith("pck") or f.file.startswith("common/type/"):
            return False
        if n not in self.inl:
            t = "PackWrite" if self.prefix == "pckWrite" else "PackRead"
            if not any(t in x[2] for x in f.params if len(x) > 2 and isinstance(x[2], str)):
                self.inl[n] = False
            else:
                self.inl[n] = any(nameOf(q) and nameOf(q).startswith(self.prefix) and nameOf(q)[len(self.prefix):] not in SKIP for q in f.pts())
        return self.inl[n]

    def evaluate(self, e, env, fr):
        """Constant, "nz" or None."""
        if e is None:
            return None
        if e[0] == "i":
            return e[1]
        if e[0] == "e":
            return e[2]
        if e[0] in ("c", "v", "m"):
            return env.get((fr, str(e)))
        if e[0] == "u" and e[1] == "!":
            x = self.evaluate(e[2], env, fr)
            return None if x is None else int(x == 0) if x != "nz" else 0
        if e[0] == "b" and e[1] in ("==", "!=", ">", "<", ">=", "<="):
            l, r = self.evaluate(e[2], env, fr), self.evaluate(e[3], env, fr)
            if l is None or r is None:
                return None
            if "nz" in (l, r):
                k = r if l == "nz" else l
                if k == 0 and e[1] in ("==", "!="):
                    return int(e[1] == "!=")
                if k == 0 and l == "nz" and e[1] == ">":
                    return 1
                return None
            return int({"==": l == r, "!=": l != r, ">": l > r, "<": l < r, ">=": l >= r, "<=": l <= r}[e[1]])
        return None

    def assign(self, env, fr, lv, v):
        k = (fr, str(lv))
        if k[1] not in self.relevant(fr[-1][0] if fr else self.root) and not any(k[1][:-1] in x[1] for x in env if x[0] == fr):
            return env
        env = dict(env)
        pre = str(lv)[:-1]
        for x in [x for x in env if x[0] == fr and (x[1] == k[1] or pre in x[1])]:
            del env[x]
        if v is not None and k[1] in self.relevant(fr[-1][0] if fr else self.root):
            env[k] = v
        return env

    def steps(self, fr, i, env):
        """Successors of a point: (frames, point, environment)."""
        fn = fr[-1][0] if fr else self.root
        p = self.point(fn, i)
        if p.kind == "exit":
            if not fr:
                return []
            up = fr[:-1]
            ufn = up[-1][0] if up else self.root
            env = {k: v for k, v in env.items() if k[0] != fr}
            return [(up, s, env) for s, _ in self.point(ufn, fr[-1][1]).succ]
        if p.kind == "decl":
            e = p.data[3]
            env = self.assign(env, fr, ["v", p.data[2]], self.value(e, env, fr))
            if e and e[0] == "S":
                for f, x in e[2].items():
                    v = self.value(x, env, fr)
                    if v is not None:
                        env = self.assign(env, fr, ["m", ["v", p.data[2]], f, e[1]], v)
        elif p.kind == "as":
            env = self.assign(env, fr, p.data[2], self.value(p.data[3], env, fr))
        elif p.kind == "inc":
            x = self.evaluate(p.data[4], env, fr)
            env = self.assign(env, fr, p.data[4], "nz" if x is not None and p.data[2] == "++" else None)
        elif p.kind == "opas":
            lv = next((x for x in p.data[2:] if isinstance(x, list) and x[0] in ("v", "m")), None)
            if lv:
                env = self.assign(env, fr, lv, None)
        elif p.kind == "call" and not self.kind(p):
            # Called again, the answer may be another one
            env = self.assign(env, fr, ["c", p.data[0]], None)
        elif p.kind == "cond":
            c = self.evaluate(p.data[2], env, fr)
            if c is not None:
                v = self.evaluate(p.data[3] if c else p.data[4], env, fr)
                if v is not None:
                    env = dict(env)
                    env[(fr, str(["c", p.data[0]]))] = v
        n = nameOf(p)
        if n and n in ("protocolPackNew", "lstNew", "strLstNew", "memNewInternal", "pckWriteNew"):
            env = dict(env)
            env[(fr, str(["c", p.data[0]]))] = "nz"
        if self.inlinable(p, len(fr)) and not any(x[0] == n for x in fr):
            return [(fr + ((n, i),), self.entry(n), env)]
        out = []
        b = self.evaluate(p.data, env, fr) if p.kind == "br" and p.data else None
        for s, l in p.succ:
            if b is not None and (l == "F" and b != 0 or l == "T" and b == 0):
                continue
            # What a branch says about a variable holds on it
            e2 = env
            if p.kind == "br" and p.data and b is None:
                e2 = self.learn(p.data, l == "T", env, fr)
            out.append((fr, s, e2))
        return out

    def learn(self, e, pol, env, fr):
        while e[0] == "u" and e[1] == "!":
            e, pol = e[2], not pol
        if e[0] == "b" and e[1] in ("==", "!=") and e[3][0] in ("i", "e") and e[2][0] in ("v", "m", "c"):
            k = e[3][1] if e[3][0] == "i" else e[3][2]
            if (e[1] == "==") == pol:
                return self.assign(env, fr, e[2], k)
            if k == 0:
                return self.assign(env, fr, e[2], "nz")
        elif e[0] == "b" and e[1] == ">" and e[3] == ["i", 0] and e[2][0] in ("v", "m", "c"):
            return self.assign(env, fr, e[2], "nz" if pol else 0)
        elif e[0] in ("v", "m", "c"):
            return self.assign(env, fr, e, "nz" if pol else 0)
        return env

    def value(self, e, env, fr):
        return self.evaluate(e, env, fr) if e else None

    def next(self, fr, i, env, after):
        """Pack calls that come next from the point (after: from its successors), and whether the end is reached: [((frames, point), environment) or None]."""
        out, seen = {}, set()
        q = self.steps(fr, i, env) if after else [(fr, i, env)]
        while q:
            fr, i, env = q.pop()
            k = (fr, i, frozenset(env.items()))
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 60000:
                raise OverflowError("too many states in " + self.root)
            fn = fr[-1][0] if fr else self.root
            p = self.point(fn, i)
            if self.kind(p):
                out[(fr, i, frozenset(env.items()))] = p
                continue
            if nameOf(p) in self.stop or p.kind == "exit" and not fr:
                out[None] = None
                continue
            q += self.steps(fr, i, env)
        return out

    def first(self):
        return self.next((), self.entry(self.root), {}, False)


def const(side, fr, p, env):
    """Constant that is written, or None."""
    a = p.data[3]
    return side.evaluate(a[1], env, fr) if len(a) > 1 and isinstance(a[1], list) else None


def default(p):
    for a in p.data[3]:
        if a and a[0] == "S" and "defaultValue" in a[2]:
            return a[2]["defaultValue"]
    return None


SAME = {"Null": ("Null",), "Obj": ("Obj",)}


def align(W, R, budget=40000, short=False):
    """(pairs, problems): the pairs of points that meet, and the pack calls of the writer that no reader path takes. A state is (writer point, reader point)."""
    pairs, problems = set(), {}
    states, edges, accept = {}, {}, set()
    todo = []

    def rstart():
        return list(R.first().items())

    def push(s, frm):
        edges.setdefault(s, set())
        if frm is not None:
            edges[s].add(frm)
        if s not in states:
            states[s] = True
            todo.append(s)

    ws = W.first()
    init = []
    for w in ws:
        if w is None:
            continue
        for r, _ in rstart():
            push((w, r), None)
            init.append((w, r))
    meet = {}
    while todo:
        s = todo.pop()
        if len(states) > budget:
            raise OverflowError("too many states")
        w, r = s
        if w is None and r is None:
            accept.add(s)
            continue
        rp = None if r is None else R.point(r[0][-1][0] if r[0] else R.root, r[1])
        rk = None if r is None else R.kind(rp)
        wp = None if w is None else W.point(w[0][-1][0] if w[0] else W.root, w[1])
        wk = None if w is None else W.kind(wp)
        if rk == "Null":
            fr, i, env = r
            d = dict(env)
            c = ["c", rp.data[0]]
            # There is a value
            if w is not None and wk != "Null":
                e = dict(d)
                e[(fr, str(c))] = 0
                for x in R.next(fr, i, e, True):
                    push((w, x), s)
            # There is none: a null that was written or the end
            e = dict(d)
            e[(fr, str(c))] = 1
            if wk == "Null":
                for y in W.next(w[0], w[1], dict(w[2]), True):
                    for x in R.next(fr, i, e, True):
                        push((y, x), s)
            elif w is None or wk in ("ArrayEnd", "ObjEnd"):
                for x in R.next(fr, i, e, True):
                    push((w, x), s)
            continue
        if w is None and short:
            # What was left out at the end is read as not set
            for x in R.next(r[0], r[1], dict(r[2]), True):
                push((None, x), s)
            continue
        if w is None or r is None:
            continue
        if wk == rk or wk == "Null" and rk not in ("ArrayBegin", "ArrayEnd", "ObjBegin", "ObjEnd"):
            meet[s] = (w[:2], r[:2])
            cv = None if wk == "Null" else const(W, w[0], wp, dict(w[2]))
            e = dict(r[2])
            if wk == "Null":
                cv = 0
            if cv is not None:
                e[(r[0], str(["c", rp.data[0]]))] = cv
            for y in W.next(w[0], w[1], dict(w[2]), True):
                for x in R.next(r[0], r[1], e, True):
                    push((y, x), s)
    # States from which the end is reached together
    good, q = set(accept), list(accept)
    while q:
        s = q.pop()
        for t in edges.get(s, ()):
            if t not in good:
                good.add(t)
                q.append(t)
    pairs = {meet[s] for s in meet if s in good}
    # Every path of the writer: subsets of the good states, by writer point
    okW = {s[0] for s in good}
    bad = {w for w in {s[0] for s in states} if w is not None and w not in okW}
    # Writer points whose predecessor is read, but that are not read themselves
    for w in bad:
        problems[w[:2]] = W.point(w[0][-1][0] if w[0] else W.root, w[1])
    seenW, q = set(), [w for w in ws if w is not None]
    while q:
        w = q.pop()
        if w in seenW or w is None:
            continue
        seenW.add(w)
        if w not in okW:
            problems[w[:2]] = W.point(w[0][-1][0] if w[0] else W.root, w[1])
            continue
        nx = list(W.next(w[0], w[1], dict(w[2]), True))
        if None in nx and not any(s[0] is None and any(t[0] == w for t in edges[s]) for s in good):
            problems[w[:2] + ("end",)] = W.point(w[0][-1][0] if w[0] else W.root, w[1])
        q += nx
    return pairs, problems, bool(accept & good) or not ws or set(ws) == {None}


# Meaning --------------------------------------------------------------------------------------------------------------------------------
def marks(prog, side, fr, e, depth=5, seen=None):
    """Names in what is written: calls, fields, enumerators, options; locals and parameters of helpers are followed."""
    out = set()
    if not isinstance(e, list) or not e or depth < 0:
        return out
    fn = fr[-1][0] if fr else side.root
    side.point(fn, next(iter(prog.fns[fn].pts())).idx)
    if e[0] == "c" and len(e) == 2:
        for p in side.pts[fn].values():
            if p.data and isinstance(p.data, list) and p.data[0] == e[1]:
                if p.kind == "call":
                    n = nameOf(p)
                    out.add(n or "slot")
                    for a in p.data[3]:
                        out |= marks(prog, side, fr, a, depth - 1)
                elif p.kind == "cond":
                    for a in p.data[2:5]:
                        out |= marks(prog, side, fr, a, depth - 1)
                elif p.kind in ("as", "inc", "opas"):
                    for a in p.data[2:5]:
                        out |= marks(prog, side, fr, a, depth - 1)
        return out
    if e[0] == "v" and len(e) == 2:
        ps = [k for k, x in enumerate(prog.fns[fn].params) if x[0] == e[1]]
        if ps:
            if fr:
                up = fr[:-1]
                ufn = up[-1][0] if up else side.root
                call = side.point(ufn, fr[-1][1])
                if ps[0] < len(call.data[3]):
                    out |= marks(prog, side, up, call.data[3][ps[0]], depth - 1)
            else:
                out.add("param:%d" % ps[0])
            return out
        for p in side.pts[fn].values():
            if p.kind == "decl" and p.data[2] == e[1] or p.kind == "as" and p.data[2] == e:
                out |= marks(prog, side, fr, p.data[3], depth - 1)
        return out
    if e[0] == "m":
        out.add("%s.%s" % (e[3], e[2]))
        return out | marks(prog, side, fr, e[1], depth - 1)
    if e[0] == "e":
        return {e[1]}
    if e[0] == "g":
        return {e[1]}
    if e[0] == "i":
        return {"=%s" % e[1]}
    if e[0] == "s":
        return {'"%s"' % e[1]}
    if e[0] == "S":
        for x in e[2].values():
            out |= marks(prog, side, fr, x, depth - 1)
        return out
    for x in e[1:]:
        out |= marks(prog, side, fr, x, depth - 1)
    return out


def dests(prog, side, fr, e, depth=4):
    """Where a value that was read goes: fields ("Rec.field") and arguments ("function#i")."""
    out = set()
    if depth < 0:
        return out
    fn = fr[-1][0] if fr else side.root
    side.point(fn, next(iter(prog.fns[fn].pts())).idx)
    for p in side.pts[fn].values():
        d = p.data
        if not d:
            continue
        if p.kind == "call":
            n = nameOf(p)
            if n is None and d[2][0] == "m" and d[2][3].endswith("Interface"):
                for k, a in enumerate(d[3]):
                    if a == e or a and a[0] != "S" and uses(a, e):
                        out.add("slot:%s#%d" % (d[2][2], k))
            for k, a in enumerate(d[3]):
                if a == e:
                    if n and n in prog.fns and not n.startswith(("pck", "memContext")):
                        out.add("%s#%d" % (n, k))
                    out |= dests(prog, side, fr, ["c", d[0]], depth - 1)
                elif a and a[0] == "S":
                    for f, x in a[2].items():
                        if x == e:
                            out.add("%s.%s" % (a[1], f))
                elif a and uses(a, e):
                    if n and n in prog.fns:
                        out.add("%s#%d" % (n, k))
                    out |= dests(prog, side, fr, ["c", d[0]], depth - 1)
        elif p.kind == "decl" or p.kind == "as":
            r = d[3]
            lv = ["v", d[2]] if p.kind == "decl" else d[2]
            if r == e or r and r[0] not in ("S",) and uses(r, e):
                if lv[0] == "v":
                    out |= dests(prog, side, fr, lv, depth - 1) if lv != e else set()
                    out.add("var")
                elif lv[0] == "m":
                    out.add("%s.%s" % (lv[3], lv[2]))
            elif r and r[0] == "S":
                for f, x in r[2].items():
                    if x == e or uses(x, e):
                        out.add("%s.%s" % (r[1], f))
        elif p.kind == "cond":
            if e in d[2:5]:
                out |= dests(prog, side, fr, ["c", d[0]], depth - 1)
        elif p.kind == "ret":
            if d[2] == e or d[2] and uses(d[2], e):
                if fr:
                    up = fr[:-1]
                    call = side.point(up[-1][0] if up else side.root, fr[-1][1])
                    out |= dests(prog, side, up, ["c", call.data[0]], depth - 1)
                else:
                    out.add("return")
        elif p.kind == "br" and uses(d, e):
            out.add("test")
    return out


def uses(x, e):
    return x == e or isinstance(x, list) and any(uses(y, e) for y in x if isinstance(y, (list, dict))) or isinstance(x, dict) and any(uses(y, e) for y in x.values())
