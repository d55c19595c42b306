"""Rule layer: a small pattern language over resolved terms, an automaton that collects events and branch literals along every path of
an inlined flow graph, and the obligations (guard / ordering / must-pass / argument) that are decided from it."""

import os
import re
import sys

from graph import Budget, contains, signs, Explorer, Graph, Rule, ZERO, atom, fieldOf, fmt, isPure, lits, mentions, truth, walkTerm, stable
from prog import AnalysisError, NOISE

sys.setrecursionlimit(20000)
SLICE = os.environ.get("VERIF_SLICE", "1") == "1"


# Pattern language -----------------------------------------------------------------------------------------------------------------------
#   name(a, b)   call (direct or "Rec.field" slot) with at least these leading arguments; name() any arguments; a|b alternatives
#   .f           field f of anything; pat.f field f of something matching pat
#   @E           enumerator E          123   integer        "text"  string (STRDEF, literals, const String globals)
#   ~pat         the term or one of its sub terms matches     _     anything       #N  parameter N of the entry
#   'text'       string containing text
#   $name        global variable       &name  function address
TOK = re.compile(r"""\s*(==|!=|<=|>=|[<>!~.(),@#$&|]|"[^"]*"|'[^']*'|-?\d+|[A-Za-z_]\w*)""")


class Pat:
    def __init__(self, prog, text):
        self.text = text
        self.prog = prog
        self.toks = []
        i = 0
        while i < len(text.rstrip()):
            m = TOK.match(text, i)
            if not m:
                raise AnalysisError("bad pattern: " + text)
            self.toks.append(m.group(1))
            i = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expr(self):
        t = self.next()
        if t == "~":
            e = ("P", "has", self.expr())
        elif t == "@":
            e = ("int", self.prog.enum(self.next()))
        elif t == "#":
            e = ("P", "par", int(self.next()))
        elif t == "$":
            e = ("P", "glob", self.next())
        elif t == "&":
            e = ("P", "fn", self.next())
        elif t == ".":
            e = ("P", "fld", None, self.next())
        elif t == "_":
            e = ("P", "any")
        elif t.startswith('"'):
            e = ("P", "str", t[1:-1])
        elif t.startswith("'"):
            e = ("P", "sub", t[1:-1])
        elif re.match(r"-?\d+$", t):
            e = ("int", int(t))
        elif t == "(":
            e = self.expr()
            self.next()
        else:
            names = [t]
            while self.peek() in ("|", ".") and self._callAhead():
                sep = self.next()
                if sep == ".":
                    names[-1] += "." + self.next()
                else:
                    names.append(self.next())
            if self.peek() == "(":
                self.next()
                args = []
                while self.peek() != ")":
                    args.append(self.expr())
                    if self.peek() == ",":
                        self.next()
                self.next()
                e = ("P", "call", tuple(names), tuple(args))
            else:
                raise AnalysisError("bad pattern: " + self.text)
        while self.peek() == ".":
            self.next()
            e = ("P", "fld", e, self.next())
        return e

    def _callAhead(self):
        j = self.i
        while j < len(self.toks) and (self.toks[j] in ("|", ".") or re.match(r"[A-Za-z_]\w*$", self.toks[j])):
            j += 1
        return j < len(self.toks) and self.toks[j] == "("


def match(p, t):
    if t[0] == "phi" and t[1] and p[0] == "P" and p[1] not in ("any", "has"):
        return all(match(p, x) for x in t[1])
    if p[0] == "int":
        return t[0] == "int" and t[1] == p[1]
    k = p[1]
    if k == "any":
        return True
    if k == "has":
        return any(match(p[2], x) for x in walkTerm(t))
    if k == "par":
        return t == ("p", p[2])
    if k == "glob":
        return t == ("glob", p[2])
    if k == "fn":
        return t == ("fn", p[2])
    if k == "str":
        return t == ("str", p[2])
    if k == "sub":
        return t[0] == "str" and p[2] in t[1]
    if k == "fld":
        return t[0] == "fld" and t[2] == p[3] and (p[2] is None or match(p[2], t[1]))
    if k == "call":
        if t[0] not in ("call", "icall") or t[1] not in p[2]:
            return False
        return len(t[2]) >= len(p[3]) and all(match(a, b) for a, b in zip(p[3], t[2]))
    return False


class TermPat:
    def __init__(self, prog, text):
        q = Pat(prog, text)
        self.p = q.expr()
        self.text = text
        if q.peek() is not None:
            raise AnalysisError("bad pattern: " + text)

    def __call__(self, t):
        if t[0] in ("phi",):
            return all(self(x) for x in t[1])
        if t[0] == "ite":
            return self(t[2]) and self(t[3])
        return match(self.p, t)


class LitPat:
    """Literal pattern: [!] expr [op expr]."""

    def __init__(self, prog, text):
        signs(prog)
        q = Pat(prog, text)
        pol = True
        if q.peek() == "!":
            q.next()
            pol = False
        a = q.expr()
        op = q.peek()
        if op in ("==", "!=", "<", ">", "<=", ">="):
            q.next()
            b = q.expr()
            t = ("op", op, a, b)
        else:
            t = a
        if q.peek() is not None:
            raise ValueError("literal pattern %s" % text)
        self.atom, self.pol = atom(t, pol)
        self.text = text

    def __call__(self, a, pol):
        if pol is not None and pol == self.pol and a[0] == self.atom[0]:
            if match(self.atom[1], a[1]) and match(self.atom[2], a[2]):
                return True
            if a[0] == "eq" and match(self.atom[1], a[2]) and match(self.atom[2], a[1]):
                return True
        # x == c implies x != d
        if pol and not self.pol and a[0] == "eq" and self.atom[0] == "eq" and self.atom[2][0] == "int" and a[2][0] == "int" and \
                a[2] != self.atom[2] and match(self.atom[1], a[1]):
            return True
        return False


def patWords(lp):
    """Names of calls and fields one of which occurs in every term the literal pattern matches, or None."""
    if isinstance(lp, AnyLit):
        out = set()
        for p in lp.pats:
            w = patWords(p) if hasattr(p, "text") else None
            if w is None:
                return None
            out |= w
        return out
    if not isinstance(lp, LitPat):
        return getattr(lp, "words", None)

    def words(p):
        out = set()
        if isinstance(p, tuple):
            if len(p) > 2 and p[0] == "P" and p[1] == "call":
                out.update(p[2])
            elif len(p) > 3 and p[0] == "P" and p[1] == "fld":
                out.add(p[3])
            elif len(p) > 2 and p[0] == "P" and p[1] == "par":
                out.add(("p", p[2]))
            for x in p:
                out |= words(x)
        elif isinstance(p, list):
            for x in p:
                out |= words(x)
        return out
    w = words(lp.atom)
    return w or None


class LitFn:
    """Literal given as a predicate, with names of calls or fields one of which occurs in every term it matches."""

    def __init__(self, fn, words, text):
        self.fn, self.words, self.text = fn, set(words), text

    def __call__(self, a, pol):
        return self.fn(a, pol)


class AnyLit:
    def __init__(self, pats):
        self.pats = pats
        self.text = " or ".join(p.text for p in pats)

    def __call__(self, a, pol):
        return any(p(a, pol) for p in self.pats)


class Event:
    """Event pattern: call name(s) with optional argument patterns; or "=.field" assignment to a field, "=.field:pat" with value."""

    def __init__(self, prog, spec):
        self.pred = None
        self.spec = spec
        if isinstance(spec, tuple):
            spec, self.pred = spec
        self.assign = None
        self.names = set()
        self.text = spec
        self.args = []
        self.deref = {"=*": "d", "=v": "v"}.get(spec)                   # what a pointer points to, or a variable, is set or counted up
        if self.deref:
            pass
        elif spec.startswith("="):
            m = re.match(r"=(\w*)\.(\w+)(?::(.*))?$", spec)
            self.assign = (m.group(1), m.group(2), TermPat(prog, m.group(3)) if m.group(3) else None)
        else:
            q = Pat(prog, spec)
            self.alts = []
            while True:
                e = q.expr()
                if e[0] != "P" or e[1] != "call":
                    raise AnalysisError("bad event: " + spec)
                self.alts.append((set(e[2]), e[3]))
                if q.peek() is None:
                    break
                if q.next() != "|":
                    raise AnalysisError("bad event: " + spec)
            self.names = set().union(*(n for n, _ in self.alts))
            self.args = max((a for _, a in self.alts), key=len)

    def __call__(self, ctx):
        if self.deref:
            return derefs(ctx.pt) == self.deref and (self.pred is None or self.pred(ctx))
        if self.assign:
            if ctx.pt.kind not in ("as", "opas", "inc") or ctx.pt.kind == "inc" and self.assign[2] is not None:
                return False
            l = ctx.lhs()
            if l is None or l[1] != self.assign[1] or (self.assign[0] and l[2] != self.assign[0]):
                return False
            if self.assign[2] is not None and not self.assign[2](ctx.rhs()):
                return False
            return self.pred is None or self.pred(ctx)
        if ctx.pt.kind != "call":
            return False
        c = ctx.pt.data[2]
        if not c:
            return False
        n = c[1] if c[0] == "f" else ("%s.%s" % (c[3], c[2]) if c[0] == "m" else "callback" if c[0] == "v" else None)
        if n not in self.names:
            return False
        for names, args in self.alts:
            if n in names and all(a == ("P", "any") or anyAlt(a, ctx.arg(i)) for i, a in enumerate(args)):
                return self.pred is None or self.pred(ctx)
        return False


def derefs(p):
    return p.data[2 if p.kind == "as" else 3 if p.kind == "opas" else 4][0] if p.kind in ("as", "opas", "inc") else None


def anyAlt(p, t):
    """Does some alternative of t match?"""
    if match(p, t):
        return True
    if t[0] == "phi":
        return any(anyAlt(p, x) for x in t[1])
    if t[0] == "ite":
        return anyAlt(p, t[2]) or anyAlt(p, t[3])
    return False


class Occ:
    __slots__ = ("st", "where", "args", "facts", "node", "ret", "line", "ctxname", "raw")


class Collect(Rule):
    nodeHook = True
    edgeHook = True

    def __init__(self, flow):
        self.f = flow

    def start(self):
        return frozenset()

    def edge(self, ctx, ls, st):
        f = self.f
        add = None
        for a, pol in ls:
            for lab, lp in f.lits.items():
                if lp(a, pol):
                    add = add or set()
                    add.add(lab if lab in f.sticky else (lab, a))
        if add:
            # a new decision replaces what a previous iteration decided about the same question
            st = frozenset(st | add)
        return st

    def node(self, ctx, st):
        f = self.f
        hit = []
        for lab, ev in f.events.items():
            if ev(ctx):
                hit.append(lab)
        if ctx.pt.kind == "call" and ctx.inst.children.get(ctx.pt.idx) is None:
            drop = [x for x in st if isinstance(x, tuple) and mentions(x[1], ctx.gid)]
            if drop:
                st = st - set(drop)
        for lab in hit:
            f.record(lab, ctx, st)
            k = f.kill.get(lab)
            for new, (ev, pred) in f.latch.items():
                if ev == lab and pred(st):
                    st = st | {new}
            if k:
                st = frozenset(x for x in st if (x[0] if isinstance(x, tuple) else x) not in k)
            st = st | {lab}
            if lab in f.stop:
                return None
        return st

    def drop(self, st, term):
        d = [x for x in st if isinstance(x, tuple) and contains(x[1], term)]
        return st - set(d) if d else st

    def exit(self, ctx, st, ret):
        self.f.exits.setdefault((st, ret), self.f.ex.cur)

    def throw(self, ctx, st, tgt):
        if tgt is None and self.f.wantThrows:
            self.f.throws.setdefault((st, ctx.where()), self.f.ex.cur)
        return st


class Flow:
    def __init__(self, an, entry, events, lits=None, kill=None, stop=(), inline=None, noInline=(), extra=(), maxStates=120000,
                 maxDepth=8, small=120, throws=False, trackArgs=None, alsoInline=(), once=False, trackRet=False, sticky=(), latch=None):
        self.once = once
        self.latch = latch or {}        # label: (event, pred): when the event occurs in a state with pred the label is set
        self.sticky = set(sticky)
        self.trackRet = trackRet
        prog = an.prog
        self.an = an
        self.prog = prog
        self.entry = entry
        self.events = {k: v if isinstance(v, Event) else Event(prog, v) for k, v in events.items()}
        self.lits = {}
        for k, v in (lits or {}).items():
            if isinstance(v, str):
                v = LitPat(prog, v)
            elif isinstance(v, (list, tuple)):
                v = AnyLit([x if callable(x) else LitPat(prog, x) for x in v])
            elif not hasattr(v, "text"):
                pass
            self.lits[k] = v
        self.kill = kill or {}
        self.stop = set(stop)
        self.wantThrows = throws
        self.occ = {k: {} for k in self.events}
        self.exits = {}
        self.throws = {}
        self.vocab = set()
        for e in self.events.values():
            self.vocab |= e.names
        self.fields = {e.assign[1] for e in self.events.values() if e.assign}
        self.derefs = {e.deref for e in self.events.values() if e.deref}
        self.noInline = set(noInline)
        self.alsoInline = set(alsoInline)
        self.small = small
        self.trackArgs = trackArgs
        self._rel = {}
        self.g = Graph(prog, entry, inline or self.policy, maxDepth=maxDepth)
        self.coarse = False
        self.incomplete = False
        self.go(maxStates * (10 if getattr(an, "tier", "") == "thorough" else 1))

    def focus(self):
        """Nodes the events and literals of this flow can be about, and the argument expressions of the events."""
        words = set()
        for lp in self.lits.values():
            if not hasattr(lp, "text"):
                return None, ()
            w = patWords(lp)
            if w is None:
                return None, ()
            words |= w
        g = self.g
        nodes, soft = set(), []
        for inst in g.insts:
            for p in inst.fn.pts():
                if p.tries is None:
                    continue
                if p.kind == "call":
                    c = p.data[2]
                    n = c[1] if c and c[0] == "f" else ("%s.%s" % (c[3], c[2]) if c and c[0] == "m" else None)
                    if n in self.vocab:
                        nodes.add(g.gid(inst, p.idx))
                        soft.extend((inst, p.idx, a) for a in p.data[3])
                elif self.derefs and derefs(p) in self.derefs:
                    nodes.add(g.gid(inst, p.idx))
                elif p.kind == "inc":
                    if p.data[4][0] == "m" and p.data[4][2] in self.fields:
                        nodes.add(g.gid(inst, p.idx))
                elif p.kind in ("as", "opas"):
                    e = p.data[2] if p.kind == "as" else p.data[3]
                    if e[0] == "m" and e[2] in self.fields:
                        nodes.add(g.gid(inst, p.idx))
                        soft.append((inst, p.idx, p.data[3] if p.kind == "as" else p.data[4]))
                elif p.kind in ("br", "sw") and words:
                    t = g.ev(inst, p.data, p.idx)
                    if any(x[0] in ("call", "icall") and x[1] in words or x[0] == "fld" and x[2] in words or
                           x[0] == "out" and isinstance(x[-1], tuple) and any(y in words for y in x[-1] if isinstance(y, str)) or x[0] == "p" and ("p", x[1]) in words for x in walkTerm(t)):
                        nodes.add(g.gid(inst, p.idx))
                        for tgt, _ in p.succ:
                            nodes.add(inst.base + tgt)
        return nodes, soft

    def go(self, maxStates):
        rule = Collect(self)
        rule.throwHook = self.wantThrows
        kw = dict(maxStates=maxStates, once=self.once, trackRet=self.trackRet)
        focus, soft = self.focus() if SLICE and not self.wantThrows else (None, ())
        modes = [dict(trackArgs=self.trackArgs, focus=focus, soft=soft)]
        if focus is not None:
            modes.append(dict(trackArgs=self.trackArgs, focus=focus, soft=soft, errorWays=False))
        # Without the value tracking infeasible paths appear, so nothing found then can be an alarm
        modes.append(dict(trackArgs=None, coarse=True))
        for i, m in enumerate(modes):
            self.coarse = m.get("coarse", False)
            for d in self.occ.values():
                d.clear()
            self.exits.clear()
            self.throws.clear()
            self.ex = Explorer(self.g, rule, **kw, **m)
            try:
                self.ex.run()
                break
            except Budget:
                self.incomplete = i == len(modes) - 1
        self.an.noteFlow(self)

    def relevant(self, f, seen=()):
        """Does f (through functions that could be inlined) perform an event?"""
        r = self._rel.get(f.name)
        if r is not None:
            return r
        self._rel[f.name] = False
        res = False
        for p in f.pts():
            if p.tries is None:
                continue
            if p.kind == "call":
                c = p.data[2]
                if c and c[0] == "f":
                    if c[1] in self.vocab:
                        res = True
                        break
                    h = self.prog.fns.get(c[1])
                    if h is not None and self.candidate(h) and self.relevant(h):
                        res = True
                        break
                elif c and c[0] == "m" and "%s.%s" % (c[3], c[2]) in self.vocab:
                    res = True
                    break
            elif derefs(p) == "d" and "d" in self.derefs:
                res = True
                break
            elif p.kind in ("as", "opas", "inc") and self.fields:
                e = p.data[2] if p.kind == "as" else p.data[3] if p.kind == "opas" else p.data[4]
                if e[0] == "m" and e[2] in self.fields:
                    res = True
                    break
        self._rel[f.name] = res
        return res

    def candidate(self, f):
        if f.name in self.vocab or f.name in self.noInline:
            return False
        if f.name in self.alsoInline:
            return True
        return not f.ext and not f.inheader and f.name not in NOISE

    def policy(self, f, inst, p):
        if not self.candidate(f):
            return False
        if self.relevant(f) or f.name in self.alsoInline:
            return True
        return len(f.pts()) <= self.small

    def record(self, lab, ctx, st):
        key = (ctx.gid, st)
        d = self.occ[lab]
        if key not in d:
            o = Occ()
            o.st = st
            o.where = ctx.where()
            o.args = ctx.args() if ctx.pt.kind == "call" else ([ctx.rhs()] if ctx.pt.kind in ("as", "opas") else [])
            o.node = self.ex.cur
            o.ctxname = ctx.name
            d[key] = o

    def sites(self, lab):
        return sorted({o.where for o in self.occ[lab].values()})

    def labels(self, st):
        return {x[0] if isinstance(x, tuple) else x for x in st}


def has(st, lab):
    if lab in st:
        return True
    return any(isinstance(x, tuple) and x[0] == lab for x in st)


def holds(st, need):
    """need: label | [any of] | callable(st)"""
    if callable(need):
        return need(st)
    if isinstance(need, str):
        return has(st, need)
    return any(holds(st, n) for n in need)


class Analysis:
    """Per property run: obligations, violations, coverage."""

    def __init__(self, prop, prog):
        self.prop = prop
        self.prog = prog
        self.obl = []
        self.viol = []
        self.notes = []
        self.undecided = []
        self.flows = []
        self.functions = set()
        self.units = 0

    # Bookkeeping ------------------------------------------------------------------------------------------------------------------------
    def noteFlow(self, f):
        self.flows.append({
            "entry": f.entry if isinstance(f.entry, str) else f.entry.name, "points": len(f.g.nodes), "inlined": len(f.g.insts) - 1, "states": f.ex.states,
            "coarse": f.coarse, "incomplete": f.incomplete})
        for i in f.g.insts:
            self.functions.add(i.fn.name)
        if f.coarse:
            self.notes.append("flow of %s exceeded its state budget: its path rules are not armed in this run" % self.flows[-1]["entry"])

    def ok(self, rule, where, n=1):
        self.obl.append((rule, where, n))

    def bad(self, rule, where, msg, trace=None):
        self.viol.append({"rule": rule, "where": where, "message": msg, "path": trace or []})

    def fn(self, name):
        f = self.prog.fn(name)
        self.functions.add(name)
        return f

    def slot(self, rec, field):
        s = self.prog.slots().get((rec, field))
        if not s:
            raise AnalysisError("nothing is stored in slot %s.%s" % (rec, field))
        return sorted(s)

    def flow(self, entry, events, lits=None, **kw):
        self.fn(entry)
        return Flow(self, entry, events, lits, **kw)

    # Obligations over a flow --------------------------------------------------------------------------------------------------------------
    def atLeast(self, f, lab, n, why=""):
        c = len({o.node[0] for o in f.occ[lab].values()})
        if c < n:
            self.unsure("%s: only %d sites of '%s' (%s) found, expected %d %s" % (f.entry, c, lab, f.events[lab].text, n, why))
            return False
        return True

    def unsure(self, why, *more):
        """A rule that cannot be decided on this tree: reported in the evidence, never an alarm."""
        self.undecided.append(": ".join((why,) + more))

    def guard(self, f, lab, needs, rule, min=1):
        """At every occurrence of lab the path so far satisfies each of needs."""
        if min and not self.atLeast(f, lab, min):
            return
        if f.coarse:
            return
        bad = set()
        for o in f.occ[lab].values():
            for n in needs:
                if not holds(o.st, n):
                    key = (o.where, str(n))
                    if key not in bad:
                        bad.add(key)
                        self.bad(rule, o.where, "%s reached without %s" % (o.ctxname or lab, need2s(f, n)), f.ex.trace(o.node))
        for w in f.sites(lab):
            self.ok(rule, w)

    def argIs(self, f, lab, i, pred, rule, what, min=1):
        """Argument i of every occurrence satisfies pred (a pattern or callable on the term)."""
        if min and not self.atLeast(f, lab, min):
            return
        p = pred if callable(pred) else TermPat(self.prog, pred)
        seen = set()
        for o in f.occ[lab].values():
            t = o.args[i] if i < len(o.args) else ("hav", "noarg")
            if not p(t) and o.where not in seen:
                if not f.coarse:
                    seen.add(o.where)
                    self.bad(rule, o.where, "argument %d of %s is %s, expected %s" % (i, o.ctxname or lab, fmt(t), what), f.ex.trace(o.node))
        for w in f.sites(lab):
            self.ok(rule, w)

    def must(self, f, lab, rule, unless=(), when=None, retTrue=None):
        """Every normal return has lab (label, list of alternatives or callable) or one of the allowed skips."""
        if f.coarse:
            return
        n = 0
        done = set()
        for (st, ret), node in f.exits.items():
            if when is not None and not holds(st, when):
                continue
            n += 1
            if holds(st, lab) or any(holds(st, u) for u in unless):
                continue
            if rule in done:
                continue
            done.add(rule)
            self.bad(rule, "%s:%d (%s)" % (f.g.entryFn.file, f.g.entryFn.line, f.g.entryFn.name),
                     "a normal return is reached without %s" % need2s(f, lab), f.ex.trace(node))
        if n == 0:
            self.unsure("%s: no path to check for rule '%s'" % (f.entry, rule))
            return
        self.ok(rule, "%s returns of %s" % (n, f.entry), n)

    def retGuard(self, f, retPred, needs, rule, what="the value"):
        """Every normal return whose value may satisfy retPred(term) satisfies needs."""
        if f.coarse:
            return
        n = 0
        done = set()
        for (st, ret), node in f.exits.items():
            if ret is None or not retPred(ret):
                continue
            n += 1
            if retPred in (maybeTrue, maybeFalse):
                # what the value itself says when it is true (false)
                st = frozenset(st | {lab for a, pol in lits(ret, retPred is maybeTrue) for lab, lp in f.lits.items() if lp(a, pol)})
            for need in needs:
                if not holds(st, need) and str(need) not in done:
                    done.add(str(need))
                    self.bad(rule, "%s:%d (%s)" % (f.g.entryFn.file, f.g.entryFn.line, f.g.entryFn.name),
                             "%s (%s) is returned without %s" % (what, fmt(ret), need2s(f, need)), f.ex.trace(node))
        if n == 0:
            self.unsure("%s: no return to check for rule '%s'" % (f.entry, rule))
            return
        self.ok(rule, "%s returns of %s" % (n, f.entry), n)

    # Path-insensitive views (all definitions that may reach a use are alternatives of the term) ---------------------------------------------
    def graph(self, entry, alsoInline=(), noInline=(), inline=None, small=0):
        self.fn(entry)
        also, no = set(alsoInline), set(noInline)

        def pol(f, inst, p):
            if f.name in no:
                return False
            if f.name in also:
                return True
            return not f.ext and not f.inheader and f.name not in NOISE
        g = Graph(self.prog, entry, inline or pol)
        for i in g.insts:
            self.functions.add(i.fn.name)
        return g

    def calls(self, g, names):
        """[(where, name, args, inst, pt)] of calls in a graph."""
        if isinstance(g, str):
            g = self.graph(g)
        out = []
        for inst in g.insts:
            for p in inst.fn.pts():
                if p.kind != "call" or p.tries is None:
                    continue
                c = p.data[2]
                n = c[1] if c and c[0] == "f" else ("%s.%s" % (c[3], c[2]) if c and c[0] == "m" else None)
                if n in names:
                    out.append((g.where(g.gid(inst, p.idx)), n, [g.ev(inst, a, p.idx) for a in p.data[3]], inst, p))
        return out

    def structs(self, g, rec):
        """[(where, {field: term})] of compound literals of a record type stored or passed in a graph."""
        if isinstance(g, str):
            g = self.graph(g)
        out = []

        def walk(inst, p, e):
            if isinstance(e, dict):
                for v in e.values():
                    walk(inst, p, v)
                return
            if not isinstance(e, list) or not e:
                return
            if e[0] == "S" and len(e) == 3 and e[1] == rec:
                out.append((g.where(g.gid(inst, p.idx)), {f: g.ev(inst, v, p.idx) for f, v in e[2].items()}))
            for v in e:
                if isinstance(v, (list, dict)):
                    walk(inst, p, v)
        for inst in g.insts:
            for p in inst.fn.pts():
                if p.tries is not None and p.data is not None and p.kind not in ("nop", "try"):
                    walk(inst, p, p.data[2:] if p.kind not in ("br", "sw") else p.data)
        return out

    def eachIs(self, items, pred, rule, what, min=1):
        """items: [(where, term)]; each must satisfy pred."""
        p = pred if callable(pred) else TermPat(self.prog, pred)
        items = list(items)
        if len(items) < min:
            self.unsure("%s: %d instances, expected %d" % (rule, len(items), min))
        for w, t in items:
            if not p(t):
                self.bad(rule, w, "%s, found %s" % (what, fmt(t)))
            self.ok(rule, w)

    # Obligations over the whole program -----------------------------------------------------------------------------------------------------
    def notReach(self, root, targets, rule, stop=(), addr=True):
        self.fn(root)
        par = self.prog.reach([root], addr=addr, stop=stop)
        for t in targets:
            if t in par:
                path = [t]
                while par[path[-1]] is not None:
                    path.append(par[path[-1]])
                self.bad(rule, self.loc(root), "%s can reach %s" % (root, t), list(reversed(path)))
        self.ok(rule, "%s: %d functions reachable" % (root, len(par)), len(par))

    def loc(self, name):
        f = self.prog.fn(name)
        return "%s:%d (%s)" % (f.file, f.line, f.name)


def need2s(f, n):
    if callable(n):
        return getattr(n, "text", "the required condition")
    if isinstance(n, str):
        if n in f.events:
            return "a previous %s" % f.events[n].text
        if n in f.lits:
            return "the condition %s" % getattr(f.lits[n], "text", n)
        return n
    return " or ".join(need2s(f, x) for x in n)


def structField(t, field):
    return fieldOf(t, field, "")


def maybeTrue(t):
    return not (t[0] == "int" and t[1] == 0)


def maybeFalse(t):
    return not (t[0] == "int" and t[1] != 0)
