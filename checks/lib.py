"""Helpers shared by the checks."""
from graph import walkTerm
from flow import LitPat
from prog import AnalysisError
from wire import Order


def okLit(call):
    """Literals that say a system call did not fail."""
    return [call + " != -1", call + " >= 0"]


def local(prog, name):
    """Calls made by a function and the static functions it uses."""
    out, work, seen = set(), [name], {name}
    while work:
        n = work.pop()
        for c in prog.callees(n)[0]:
            out.add(c)
            f = prog.fns.get(c)
            if f is not None and not f.ext and not f.inheader and c not in seen:
                seen.add(c)
                work.append(c)
    return out


def strId5(s):
    v = 0
    for i, c in enumerate(s):
        v |= ({"-": 27}.get(c) or ord(c) - 96) << (4 + 5 * i)
    return v


def keyOf(t):
    """Text of a key given as string or as 5 bit string id."""
    if t[0] == "str":
        return t[1]
    if t[0] == "int":
        v = int(t[1])
        if v & 0xf == 0:
            v >>= 4
            s = ""
            while v:
                c = v & 31
                s += "-" if c == 27 else chr(96 + c) if c < 27 else "?"
                v >>= 5
            return s
        return "id%d" % t[1]
    return None


def hasField(t, field, rec=None):
    return any(x[0] == "fld" and x[2] == field and (rec is None or x[3] == rec) for x in walkTerm(t))


def hasCall(t, *names):
    return any(x[0] in ("call", "icall") and x[1] in names for x in walkTerm(t))


def callOf(t, *names):
    for x in walkTerm(t):
        if x[0] in ("call", "icall") and x[1] in names:
            return x
    return None


def litPats(prog, pats):
    return [p if callable(p) else LitPat(prog, p) for p in pats]


def structArg(t, field):
    """Field of a by-value parameter struct."""
    if t[0] == "struct":
        for k, v in (t[2].items() if isinstance(t[2], dict) else t[2]):
            if k == field:
                return v
    return None


def typed(i, rec):
    """Event predicate: argument i is the address of a local variable of the given record type."""
    def pred(ctx):
        t = ctx.arg(i)
        if t[0] == "addr" and t[1][0] == "var":
            ty = ctx.g.insts[t[1][1]].fn.locals[t[1][2]][2]
            return rec in ty.replace("*", " ").split()
        return any(x[0] == "struct" and x[1] == rec for x in walkTerm(t))
    return pred


class View:
    """A function with its static helpers inlined, queried without path enumeration."""

    def __init__(self, A, entry, alsoInline=(), noInline=()):
        self.A = A
        self.g = A.graph(entry, alsoInline=alsoInline, noInline=noInline)
        self.o = Order(self.g)
        self.entry = entry
        self._br = None
        self._flags, self._val = {}, {}

    def calls(self, *names):
        out = []
        for w, n, args, inst, p in self.A.calls(self.g, set(names)):
            r = self.o.rank(self.g.gid(inst, p.idx))
            if r is not None:
                out.append(Site(self, w, n, args, inst, p, r))
        return sorted(out, key=lambda s: s.rank)

    def assigns(self, rec=None, field=None):
        out = []
        g = self.g
        for inst in g.insts:
            for p in inst.fn.pts():
                if p.tries is None or p.kind not in ("as", "opas"):
                    continue
                e = p.data[2] if p.kind == "as" else p.data[3]
                if e[0] != "m" or (rec is not None and e[3] != rec) or (field is not None and e[2] != field):
                    continue
                r = self.o.rank(g.gid(inst, p.idx))
                if r is None:
                    continue
                rhs = g.ev(inst, p.data[3] if p.kind == "as" else p.data[4], p.idx)
                out.append(Site(self, g.where(g.gid(inst, p.idx)), e[2], [rhs], inst, p, r))
        return sorted(out, key=lambda s: s.rank)

    def defs(self, inst, var):
        """Sites that give a local variable a value (args[0]; None when it is not a plain assignment)."""
        out = []
        for p in inst.fn.pts():
            if p.tries is None:
                continue
            for loc, kind in inst.fn.defsAt(p):
                if loc[0] == var and not loc[1]:
                    e = p.data[3] if kind in ("decl", "as") else None
                    r = self.o.rank(self.g.gid(inst, p.idx))
                    if r is not None:
                        out.append(Site(self, self.g.where(self.g.gid(inst, p.idx)), "=", [None if e is None else self.g.ev(inst, e, p.idx)], inst, p, r))
        return out

    def inits(self, rec, field):
        """Values the field gets: assignments and initialisers."""
        out = self.assigns(rec, field)
        g = self.g

        def walk(inst, p, e):
            if isinstance(e, dict):
                e = list(e.values())
            if not isinstance(e, list) or not e:
                return
            if e[0] == "S" and len(e) == 3 and e[1] == rec and field in e[2]:
                r = self.o.rank(g.gid(inst, p.idx))
                if r is not None:
                    out.append(Site(self, g.where(g.gid(inst, p.idx)), field, [g.ev(inst, e[2][field], p.idx)], inst, p, r))
            for v in e:
                if isinstance(v, (list, dict)):
                    walk(inst, p, v)
        for inst in g.insts:
            for p in inst.fn.pts():
                if p.tries is not None and p.data is not None and p.kind not in ("nop", "try"):
                    walk(inst, p, p.data[2:] if p.kind not in ("br", "sw") else p.data)
        return sorted(out, key=lambda s: s.rank)

    def branch(self, inst, p):
        if self._br is None:
            self._br = {}
        k = (inst.id, p.idx)
        t = self._br.get(k)
        if t is None:
            t = self._br[k] = self.g.ev(inst, p.data, p.idx)
        return t

    def tested(self, fn):
        """Local variables that are compared with a constant in a branch and have several definitions: {var: {point: rhs}}."""
        r = self._flags.get(fn.name)
        if r is None:
            tv = set()
            for p in fn.pts():
                if p.kind == "br":
                    x = testOf(p.data)
                    if x:
                        tv.add(x[0])
            defs, bad = {}, set()
            par = {x[0] for x in fn.params}
            for p in fn.pts():
                if p.tries is None:
                    continue
                for loc, kind in fn.defsAt(p):
                    if loc[0] in tv:
                        if loc[1] or kind not in ("decl", "as") or p.data[3] is None and kind == "as":
                            bad.add(loc[0])
                        else:
                            defs.setdefault(loc[0], {})[p.idx] = p.data[3]
            r = self._flags[fn.name] = {v: d for v, d in defs.items() if v not in bad and v not in par and 1 < len(d) <= 4}
        return r

    def escape(self, src, dst, through, skip):
        r = self._escape(src, dst, through, skip, True)
        return self._escape(src, dst, through, skip, False) if r is False else r

    def _escape(self, src, dst, through, skip, flags):
        """Is there a way from a point of src to a point of dst that passes none of `through` and takes no branch edge whose literal is in
        skip? Returns a list of lines of such a way, or None. Variables that are tested directly are followed back to the definition that
        reaches the branch on the way taken."""
        from graph import lits, mkOp, mkNot
        g = self.g
        through = set(through)
        dst = set(dst)
        none = frozenset()
        par = {(s, none): None for s in src}
        work = list(par)
        while work:
            st = work.pop()
            n, env = st
            inst, p = g.nodes[n]
            nxt = []
            if flags and p.kind in ("decl", "as"):
                tv = self.tested(inst.fn)
                for v, d in tv.items():
                    if p.idx in d:
                        env = frozenset([x for x in env if x[:2] != (inst.id, v)] + [(inst.id, v, p.idx)])
            ch = inst.children.get(p.idx) if p.kind == "call" else None
            if ch is not None:
                nxt = [ch.base + ch.fn.entry]
            elif p.kind == "exit" and inst.parent is not None:
                env = frozenset(x for x in env if x[0] != inst.id) if env else env
                nxt = [inst.parent.base + t for t, _ in inst.callPt.succ]
            elif p.kind == "ret":
                nxt = [inst.base + inst.fn.exit]
            elif p.kind == "call" and inst.fn.isNoret(p.data):
                nxt = []
            elif p.kind in ("br", "sw"):
                term = None
                if env and p.kind == "br":
                    x = testOf(p.data)
                    if x:
                        for ii, v, di in env:
                            if ii == inst.id and v == x[0]:
                                rhs = self.tested(inst.fn)[v][di]
                                if rhs is not None:
                                    term = self.value(inst, rhs, di)
                                    if x[1] is not None:
                                        term = mkOp(x[1], term, ("int", x[2]))
                                    if x[3]:
                                        term = mkNot(term)
                if term is None:
                    term = self.branch(inst, p)
                for t, lab in p.succ:
                    if p.kind == "br":
                        if term[0] == "int" and bool(int(term[1])) != (lab == "T"):
                            continue
                        if implies(term, lab == "T", skip):
                            continue
                    elif lab[0] == "case":
                        if any(s(a, pol) for a, pol in lits(mkOp("==", term, caseOf(lab[1])), True) for s in skip):
                            continue
                    elif lab[0] == "default":
                        if any(s(a, pol) for x in lab[1] for a, pol in lits(mkOp("==", term, caseOf(x)), False) for s in skip):
                            continue
                    nxt.append(inst.base + t)
            else:
                nxt = [inst.base + t for t, _ in p.succ]
            for m in nxt:
                if m in through or (m, env) in par and m not in dst:
                    continue
                if m in dst:
                    path = [(m, env), st]
                    while par[path[-1]] is not None:
                        path.append(par[path[-1]])
                    out = []
                    for i, _ in reversed(path):
                        ii, pp = g.nodes[i]
                        if pp.kind in ("br", "sw", "call") and pp.line and (not out or out[-1] != str(pp.line)):
                            out.append(str(pp.line))
                    return out
                par[(m, env)] = st
                work.append((m, env))
            if flags and len(par) > 200000:
                return False
        return None

    def value(self, inst, e, idx):
        k = (inst.id, idx)
        t = self._val.get(k)
        if t is None:
            t = self._val[k] = self.g.ev(inst, e, idx)
        return t


def caseOf(e):
    """The value of a case label."""
    return ("int", e[1] if e[0] == "i" else e[2]) if isinstance(e, (list, tuple)) else ("int", e)


def testOf(e):
    """(var, op, const, negated) if the branch expression tests a local variable."""
    neg = False
    while e[0] == "u" and e[1] == "!":
        neg = not neg
        e = e[2]
    if e[0] == "v":
        return e[1], None, None, neg
    if e[0] == "b" and e[1] in ("==", "!=") and e[2][0] == "v" and e[3][0] in ("i", "e"):
        return e[2][1], e[1], e[3][1] if e[3][0] == "i" else e[3][2], neg
    return None


def implies(t, pol, preds, d=0):
    """If t is true (pol) or false one of the literals preds accepts holds."""
    k = t[0]
    if k == "not":
        return implies(t[1], not pol, preds, d)
    if k in ("and", "or") and d < 6:
        l, r = implies(t[1], pol, preds, d + 1), implies(t[2], pol, preds, d + 1)
        return (l or r) if (k == "and") == pol else (l and r)
    if k == "int":
        return bool(int(t[1])) != pol
    if k == "ite" and d < 6:
        return all(implies(t[1], c, preds, d + 1) or implies(x, pol, preds, d + 1) for c, x in ((True, t[2]), (False, t[3])))
    from graph import atom
    if k == "phi" and d < 6 and len(t[1]) <= 6 and all(implies(x, pol, preds, d + 1) for x in t[1]):
        return True
    a, q = atom(t, pol)
    return any(s(a, q) for s in preds)


class Site:
    def __init__(self, view, where, name, args, inst, p, rank):
        self.view, self.where, self.name, self.args, self.inst, self.p, self.rank = view, where, name, args, inst, p, rank
        self._c = None

    @property
    def gid(self):
        return self.view.g.gid(self.inst, self.p.idx)

    @property
    def conds(self):
        if self._c is None:
            self._c = self.view.o.conds(self.inst, self.p)
        return self._c

    def under(self, *pats):
        """Every given literal pattern is implied by the branches that dominate the point."""
        prog = self.view.A.prog
        for p in pats:
            q = p if callable(p) else LitPat(prog, p)
            if not any(q(a, pol) for a, pol in self.conds) and self.view.escape([entryOf(self.view).gid], [self.gid], [], [q]) is not None:
                return False
        return True


def covered(A, view, src, dst, through, skip, rule, what, where=None):
    """Every way from src to dst passes one of `through` unless a listed skip condition was taken."""
    if not src or not dst:
        A.unsure("%s: anchors of rule '%s' not found" % (view.entry, rule))
        return
    path = view.escape([s.gid for s in src], [d.gid for d in dst], [t.gid for t in through], litPats(A.prog, skip))
    if path is not None:
        A.bad(rule, where or A.loc(view.entry), what, path[-14:])
    A.ok(rule, "%s: %s" % (view.entry, what))


class _At:
    def __init__(self, gid, where=""):
        self.gid, self.where = gid, where


def entryOf(v):
    return _At(v.g.root.base + v.g.root.fn.entry)


def exitOf(v):
    return _At(v.g.root.base + v.g.root.fn.exit)


def precede(A, v, first, then, rule, what, skip=()):
    """On every way from the entry to a site of `then` one of `first` is passed, or a branch edge with a literal of skip is taken."""
    if not then:
        A.unsure("%s: anchor of rule '%s' not found" % (v.entry, rule))
        return
    sk = litPats(A.prog, skip)
    for t in then:
        path = v.escape([entryOf(v).gid], [t.gid], [f.gid for f in first], sk)
        if path is not None:
            A.bad(rule, t.where, what, path[-14:])
        A.ok(rule, t.where)


def follow(A, v, src, through, rule, what, skip=(), to=None):
    """On every way from a site of src to the normal return (or the sites of `to`) one of `through` is passed or a skip edge is taken."""
    if not src:
        A.unsure("%s: anchor of rule '%s' not found" % (v.entry, rule))
        return
    sk = litPats(A.prog, skip)
    dst = [exitOf(v).gid] if to is None else [t.gid for t in to]
    for s in src:
        path = v.escape([s.gid], dst, [t.gid for t in through], sk)
        if path is not None:
            A.bad(rule, s.where, what, path[-14:])
        A.ok(rule, s.where)


def strs(t):
    return [x[1] for x in walkTerm(t) if x[0] == "str"]


def strHas(t, sub):
    return any(sub in s for s in strs(t))


def mentionsField(t, name):
    """Does the term contain the field, also as part of a value a call filled in?"""
    for x in walkTerm(t):
        if x[0] == "fld" and x[2] == name:
            return True
        if x[0] == "out" and isinstance(x[-1], tuple) and name in x[-1]:
            return True
    return False


def fieldLit(name, val):
    """Literal predicate: the field is known to be zero (val 0) or not zero (val 1)."""
    def pred(a, pol):
        return a[0] == "eq" and a[2] == ("int", 0) and pol is (val == 0) and mentionsField(a[1], name)
    return pred


def countsFromZero(t):
    """Is an index term one that starts at zero?"""
    base = []

    def walk(x, d=0):
        if x[0] == "phi" and d < 12:
            for y in x[1]:
                walk(y, d + 1)
        elif x[0] == "ite" and d < 12:
            walk(x[2], d + 1)
            walk(x[3], d + 1)
        elif x[0] == "op" and x[1] == "+" and any(y[0] in ("phi", "hav") for y in x[2:4]):
            for y in x[2:4]:
                if y[0] == "phi":
                    walk(y, d + 1)
        elif x[0] != "hav":
            base.append(x)
    walk(t)
    return bool(base) and all(x == ("int", 0) for x in base)


def alts(t, cap=64):
    """[(term without conditional parts, [literals])]: the values t takes, with what is known when it takes them."""
    from graph import lits
    if not isinstance(t, tuple) or not t:
        return [(t, [])]
    if t[0] == "ite":
        out = []
        for pol, x in ((True, t[2]), (False, t[3])):
            ls = lits(t[1], pol)
            out += [(y, ls + m) for y, m in alts(x, cap)]
        return out[:cap]
    out = [((), [])]
    for x in t:
        sub = alts(x, cap) if isinstance(x, tuple) else [(x, [])]
        if len(out) * len(sub) > cap:
            sub = [(x, [])]
        out = [(a + (y,), m + n) for a, m in out for y, n in sub]
    return out


def rel(a, pol):
    """(left, operator, right) of a literal."""
    if a[0] == "eq":
        return a[1], "==" if pol else "!=", a[2]
    if a[0] == "lt":
        return (a[1], "<", a[2]) if pol else (a[1], ">=", a[2])
    return None


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def cmp0(name, ops, pred=lambda t: True, text=""):
    """Literal: the result of the comparison function is known to be in one of the relations of ops with zero."""
    from flow import LitFn

    def f(a, pol):
        r = rel(a, pol)
        if r is None:
            return False
        for x, o, y in (r, (r[2], FLIP[r[1]], r[0])):
            if y == ("int", 1) and o in ("<", ">="):
                o, y = {"<": "<=", ">=": ">"}[o], ("int", 0)
            if x[0] == "call" and x[1] == name and y == ("int", 0) and o in ops and pred(x):
                return True
        return False
    return LitFn(f, {name}, text or "%s %s 0" % (name, "/".join(ops)))


def relLit(ops, left, right, words, text):
    """Literal: x op y with left(x) and right(y), in either order."""
    from flow import LitFn

    def f(a, pol):
        r = rel(a, pol)
        if r is None:
            return False
        return any(o in ops and left(x) and right(y) for x, o, y in (r, (r[2], FLIP[r[1]], r[0])))
    return LitFn(f, set(words), text)


def nearest(v, add, srcs):
    """The sites of srcs from which a site of add is reached without passing another one of srcs."""
    return [s for s in srcs if any(v.escape([s.gid], [a.gid], [x.gid for x in srcs if x is not s], []) is not None for a in add)]


def holder(A, entry, pred):
    """The functions among the entry and its static helpers that contain a call for which pred(name, args) holds, found without inlining."""
    out = []
    for n in [entry] + sorted(local(A.prog, entry)):
        f = A.prog.fns.get(n)
        if f is None or n != entry and (f.ext or f.inheader):
            continue
        g = A.graph(n, noInline=tuple(local(A.prog, n)))
        for w, c, args, inst, p in A.calls(g, set(A.prog.callees(n)[0])):
            if pred(c, args):
                out.append(n)
                break
    return out


def arith(t, *names):
    """Is the term the value of one of the calls, or computed from it by arithmetic?"""
    if t[0] == "call":
        return t[1] in names
    if t[0] == "op":
        return any(arith(x, *names) for x in t[2:4])
    if t[0] in ("phi",):
        return any(arith(x, *names) for x in t[1])
    if t[0] == "ite":
        return any(arith(x, *names) for x in t[2:4])
    return False
