"""Order and dominating conditions of program points in an inlined flow graph, without path enumeration. Used to compare the two sides of a
format: what is written under which condition and in which order against what is read."""

from graph import fmt, lits, mkOp, walkTerm


class Order:
    def __init__(self, g):
        self.g = g
        self._rank = None
        self._dom = {}

    def succ(self, gid):
        g = self.g
        inst, p = g.nodes[gid]
        out = []
        ch = inst.children.get(p.idx) if p.kind == "call" else None
        if ch is not None:
            out.append(ch.base + ch.fn.entry)
            return out
        if p.kind == "exit" and inst.parent is not None:
            return [inst.parent.base + t for t, _ in inst.callPt.succ]
        if p.kind == "ret":
            out.append(inst.base + inst.fn.exit)
        out += [inst.base + t for t, _ in p.succ]
        return out

    def rank(self, gid):
        """Position in a topological order (back edges ignored)."""
        if self._rank is None:
            start = self.g.root.base + self.g.root.fn.entry
            seen, post, stack = {start}, [], [(start, iter(self.succ(start)))]
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        stack.append((m, iter(self.succ(m))))
                        break
                else:
                    post.append(n)
                    stack.pop()
            self._rank = {n: len(post) - i for i, n in enumerate(post)}
        return self._rank.get(gid)

    def _without(self, fn, edge):
        """Points reachable from the function's entry when one branch edge is removed."""
        key = (fn.name, edge)
        r = self._dom.get(key)
        if r is None:
            pts = fn.pts()
            r = set()
            work = [fn.entry]
            while work:
                i = work.pop()
                if i in r:
                    continue
                r.add(i)
                p = pts[i]
                for k, (t, _) in enumerate(p.succ):
                    if (i, k) != edge:
                        work.append(t)
                if p.handler is not None and p.kind == "call":
                    work.append(p.handler)
                if p.kind == "ret":
                    work.append(fn.exit)
            self._dom[key] = r
        return r

    def conds(self, inst, p):
        """Literals (atom, polarity) that hold whenever the point is reached: branch edges every path to it takes."""
        out = []
        while inst is not None:
            fn = inst.fn
            for b in fn.pts():
                if b.tries is None or b.kind not in ("br", "sw") or b.idx == p.idx:
                    continue
                for k, (t, lab) in enumerate(b.succ):
                    if p.idx in self._without(fn, (b.idx, k)):
                        continue
                    term = self.g.ev(inst, b.data, b.idx)
                    if b.kind == "br":
                        out += lits(term, lab == "T")
                    elif lab[0] == "case":
                        out += lits(mkOp("==", term, ("int", lab[1])), True)
            p = inst.callPt
            inst = inst.parent
        return out


def callsIn(t, names):
    return [x for x in walkTerm(t) if x[0] in ("call", "icall") and x[1] in names]


def fieldsIn(t, rec=None):
    return [x for x in walkTerm(t) if x[0] == "fld" and (rec is None or x[3] in rec)]


def show(c):
    return "%s%s" % ("" if c[1] else "not ", fmt(c[0]))
