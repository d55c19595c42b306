"""Data passes through the reads, writes, filters and combined reads complete, in order and once."""
from C40 import cases, fld, lit, num
from C41 import can, isArg, steps, way
from graph import fmt, walkTerm
from lib import View, entryOf, exitOf, hasCall, implies

ASSUME = ["a filter that cannot take all of its input says so and is not done before it has delivered everything", "a driver writes all of the buffer it is given and reads in order"]

WRITE = "what is written reaches the driver, once"
CLOSE = "closing a write delivers what the filters still hold"
SEEK = "buffered data goes to the place it was written for"
READ = "what the driver read goes through the filters, all of it and once"
ATEND = "the end is reported when nothing is left to read or to deliver"
AHEAD = "data read ahead is handed out first and once"
LINE = "a line is what stands before the line feed"
LIMIT = "a limited read delivers its part and no more"
COPY = "the copying filter copies all of its input once"
CHAIN = "each filter gets the output of the one before it"
RESULT = "the result of every filter is recorded"
RANGE = "a combined read delivers the requested ranges"
QUEUE = "queued files are read in the order of the requests"


def truth(pred, want, text, *words):
    """pred holds / does not hold for a boolean term that is true."""
    def f(a, pol):
        if a[0] == "eq" and a[2] == ("int", 0):
            return pol is not want and pred(a[1])
        return a[0] not in ("eq", "lt") and pol is want and pred(a)
    return lit(text, f, *words)


def call(n, *args):
    def f(t):
        return any(x[0] in ("call", "icall") and x[1] == n and all(p is None or len(x[2]) > i and p(x[2][i]) for i, p in enumerate(args)) for x in cases(t))
    return f


def zeroOf(p, want, text, *words):
    """The unsigned p is (want) or is not zero."""
    def f(a, pol):
        if a[0] == "eq" and a[2] == ("int", 0) and p(a[1]):
            return pol is want
        if a[0] == "lt" and num(a[1]) == 0 and p(a[2]):
            return pol is not want
        if a[0] == "lt" and num(a[2]) == 1 and p(a[1]):
            return pol is want
        return False
    return lit(text, f, *words)


def anyOf(text, *lits):
    return lit(text, lambda a, pol: any(x.fn(a, pol) if hasattr(x, "fn") else x.f(a, pol) for x in lits), *sorted({w for x in lits for w in x.words}))


def size(n, x):
    return call(n, x)


def empty(x, want):
    return anyOf("empty" if want else "not empty", zeroOf(size("bufUsed", x), want, ""), truth(call("bufEmpty", x), want, ""))


def full(x, want):
    return anyOf("full" if want else "not full", zeroOf(size("bufRemains", x), want, ""), truth(call("bufFull", x), want, ""))


def minus(x, y):
    return lambda t: any(c[0] == "op" and c[1] == "-" and x(c[2]) and y(c[3]) for c in cases(t))


OUT = fld("output")
INB = fld("input")
POS = fld("outputPos")
GROUPSAME = call("ioFilterGroupInputSame")


def part(s, n, field):
    """Field of the structure whose address is the argument, also when it is a local variable."""
    t = s.args[n]
    while t[0] == "addr":
        t = t[1]
    for u in [t] + ([d.args[0] for d in s.view.defs(s.inst, t[2]) if d.args[0] is not None] if t[0] == "var" else []):
        if u[0] == "struct":
            return next((x for k, x in u[2] if k == field), None)
    return None


def either(p, q):
    return lambda t: p(t) or q(t)


def p_write(A):
    for name in ("ioWrite", "ioWriteClose"):
        v = View(A, name)
        closing = name == "ioWriteClose"
        rule = CLOSE if closing else WRITE
        proc, start, out = v.calls("ioFilterGroupProcess"), entryOf(v), exitOf(v)
        if not proc:
            A.unsure("%s: no filters" % name, rule)
            continue
        w = v.calls("IoWriteInterface.write")
        zero = [s for s in v.calls("bufUsedZero") if OUT(s.args[0])]
        for s in proc:
            if not (OUT(s.args[2]) and (num(s.args[1]) == 0 if closing else isArg(1)(s.args[1]))):
                A.bad(rule, s.where, "something else is given to the filters")
        for s in w:
            if not OUT(s.args[1]):
                A.bad(rule, s.where, "another buffer is written")
        if closing:
            way(A, v, rule, "the filters are not asked for what they hold", [start], [out], [], proc)
            done = truth(call("ioFilterGroupDone"), True, "the filters are done")
            gclose = v.calls("ioFilterGroupClose")
            way(A, v, rule, "the filters are not finished", proc, gclose + [out], [done])
            way(A, v, rule, "the last data is not written", proc, gclose + [out], [truth(call("ioFilterGroupDone"), False, "not done"), empty(OUT, True)], w)
            dclose = v.calls("IoWriteInterface.close")
            way(A, v, RESULT, "the results of the filters are not gathered", [start], [out], [], gclose)
            for s in dclose:
                for x in w:
                    if can(v, s, x):
                        A.bad(rule, x.where, "data is written after the file was closed")
            way(A, v, rule, "the file is not closed", [start], [out], [truth(fld("close"), False, "no close", "close")], dclose)
        else:
            way(A, v, rule, "data is not written", [start], [out], [truth(isArg(1), False, "no data"), empty(isArg(1), True)], proc)
            way(A, v, rule, "a part of the data is left out", proc, [out], [truth(GROUPSAME, False, "the input is used up")])
            for s in proc:
                for d in proc:
                    path = v.escape([s.gid], [d.gid], [], [truth(GROUPSAME, True, "the same input is needed")])
                    if path is not None:
                        A.bad(rule, d.where, "the data is written twice", path[-14:])
            add = []
            for k, t, s in steps(v, "IoWrite", "position"):
                if not (k == "add" and call("bufUsed", OUT)(t)):
                    A.bad(SEEK, s.where, "the position is changed by %s" % fmt(t)[:60])
                add.append(s)
                for z in zero:
                    if can(v, z, s, proc):
                        A.bad(SEEK, s.where, "the position is counted after the buffer was cleared")
            way(A, v, SEEK, "the position is not counted", w, [out] + proc, [], add)
        way(A, v, rule, "a full buffer is not written", proc, [out] + proc, [full(OUT, False)], w)
        way(A, v, rule, "what was written is kept and written again", w, [out] + proc + w, [], zero)
        way(A, v, rule, "data is dropped", [start] + proc, zero, [], w)
        A.ok(rule, A.loc(name))


def p_seek(A):
    v = View(A, "ioWriteFlush")
    w = v.calls("IoWriteInterface.write")
    zero = [s for s in v.calls("bufUsedZero") if OUT(s.args[0])]
    way(A, v, WRITE, "what is buffered is not flushed", [entryOf(v)], [exitOf(v)], [empty(OUT, True)], w)
    way(A, v, WRITE, "what was flushed is kept and written again", w, [exitOf(v)], [], zero)
    way(A, v, WRITE, "data is dropped", [entryOf(v)], zero, [empty(OUT, True)], w)
    v = View(A, "ioWriteSeek", noInline=("ioWriteFlush",))
    seek, fl = v.calls("IoWriteInterface.seek"), v.calls("ioWriteFlush")
    pos = fld("position")

    def samePos(a, pol):
        return a[0] == "eq" and pol is True and any(pos(x) and isArg(1)(y) for x, y in ((a[1], a[2]), (a[2], a[1])))
    way(A, v, SEEK, "the data is written where the file happens to be", [entryOf(v)], [exitOf(v)], [lit("already there", samePos, "position")], seek)
    way(A, v, SEEK, "buffered data is moved to the new place", [entryOf(v)], seek, [], fl)
    for s in seek:
        if not isArg(1)(s.args[1]):
            A.bad(SEEK, s.where, "another place is sought")
        A.ok(SEEK, s.where)
    good = []
    for k, t, s in steps(v, "IoWrite", "position"):
        if k != "set" or not isArg(1)(t):
            A.bad(SEEK, s.where, "the position is recorded as %s" % fmt(t)[:60])
        good.append(s)
    way(A, v, SEEK, "the new position is not recorded", [entryOf(v)], [exitOf(v)], [lit("already there", samePos, "position")], good)


def eofDriver(t):
    cs = cases(t)
    return any(c[0] in ("icall", "call") and c[1] == "IoReadInterface.eof" for c in cs) and all(c[0] in ("icall", "call") and c[1] == "IoReadInterface.eof" or num(c) == 0 for c in cs) or call("ioReadEofDriver")(t)


def p_read(A):
    v = View(A, "ioReadInternal")
    start, out = entryOf(v), exitOf(v)
    proc, rd = v.calls("ioFilterGroupProcess"), v.calls("IoReadInterface.read")
    if not proc or not rd:
        A.unsure("ioReadInternal: no filters or no read", READ)
        return
    zero = [s for s in v.calls("bufUsedZero") if INB(s.args[0])]
    null = []
    for k, t, s in steps(v, "IoRead", "input"):
        if k != "set" or num(t) != 0:
            A.bad(READ, s.where, "the input is replaced")
        null.append(s)
    for s in proc:
        if not (INB(s.args[1]) or num(s.args[1]) == 0) or not isArg(1)(s.args[2]):
            A.bad(READ, s.where, "something else is given to the filters")
    for s in rd:
        if not INB(s.args[1]):
            A.bad(READ, s.where, "the data is read into another buffer")
    same, notSame = truth(GROUPSAME, True, "the same input is needed"), truth(GROUPSAME, False, "the input is used up")
    way(A, v, READ, "data is read behind input that was used already", [start] + proc + rd, rd, [], zero)
    way(A, v, READ, "input that is still needed is dropped", [start] + proc, zero + null, [notSame, truth(INB, False, "no input")])
    way(A, v, READ, "the input ends before the source does", [start], null, [truth(eofDriver, True, "the source is at its end")])
    way(A, v, READ, "the source is read beyond its end", [start], rd, [truth(eofDriver, False, "the source has more"), truth(lambda t: t[0] == "fld" and t[2] == "eof", False, "the source has no end", "eof")])
    way(A, v, READ, "what was read does not reach the filters", rd, [out] + rd + null, [empty(INB, True)], proc)
    way(A, v, READ, "the filters are not told of the end", null, [out], [truth(INB, True, "more input")], proc)
    for s in proc:
        path = v.escape([p.gid for p in proc], [s.gid], [x.gid for x in zero + null], [same, truth(INB, False, "no more input")])
        if path is not None:
            A.bad(READ, s.where, "the same data goes through the filters twice", path[-14:])
    limit = v.calls("bufLimitSet")
    way(A, v, READ, "the limit of one read stays for the following ones", limit, [out] + zero + proc, [], v.calls("bufLimitClear")) if limit else None
    eof = truth(either(call("ioReadEof"), fld("eofAll")), True, "end of the data")
    got = lit("got data", lambda a, pol: a[0] == "lt" and pol is True and call("bufUsed", isArg(1))(a[2]), "bufUsed")
    enough = full(isArg(1), True)
    way(A, v, READ, "a blocking read stops too early", [start], [out], [eof, enough, truth(isArg(2), False, "not blocking")])
    way(A, v, READ, "a read that does not block returns nothing", [start], [out], [eof, enough, got])
    for k, t, s in steps(v, None, "eofAll"):
        due = [truth(eofDriver, True, "the source is at its end"), truth(call("ioFilterGroupDone"), True, "the filters are done")]
        if k != "set" or not (num(t) == 0 or all(implies(t, True, [d.fn]) or s.under(d) for d in due)):
            A.bad(ATEND, s.where, "the end is reported too early")
        A.ok(ATEND, s.where)
    # Open and close
    o = View(A, "ioReadOpen")
    op = [s for s in o.calls("ioFilterGroupOpen")]
    way(A, o, READ, "the filters are not opened", [entryOf(o)], [exitOf(o)], [truth(lambda t: call("IoReadInterface.open")(t) or t[0] in ("ite", "phi"), False, "the source does not exist", "IoReadInterface.open")], op)
    c = View(A, "ioReadClose")
    way(A, c, RESULT, "the results of the filters are not gathered", [entryOf(c)], [exitOf(c)], [], c.calls("ioFilterGroupClose"))
    # Drain and flush read all
    for n in ("ioReadDrain", "ioReadFlush", "ioCopy"):
        d = View(A, n, noInline=("ioRead", "ioReadEof", "ioReadOpen", "ioReadClose"))
        r = d.calls("ioRead")
        if n == "ioCopy" or not r:
            continue
        skip = [eof] + ([truth(call("ioReadOpen"), False, "the source does not exist")] if n == "ioReadDrain" else [])
        if n == "ioReadFlush":
            way(A, d, READ, "data is left unread", r, [exitOf(d)], [eof])
        else:
            way(A, d, READ, "a single read does not take all of the data", [entryOf(d)], r, [], [s for s in d.calls("ioFilterGroupAdd") if hasCall(s.args[1], "ioSinkNew")])
        way(A, d, READ, "data is left unread", [entryOf(d)], [exitOf(d)], skip, r)
        for s in r:
            way(A, d, READ, "reading goes on with a full buffer", r, r, [], [x for x in d.calls("bufUsedZero")])


def least(t, remains, room):
    """min(what is left, what fits): both values occur and nothing else."""
    cs = cases(t)
    return any(remains(c) for c in cs) and any(room(c) for c in cs) and all(remains(c) or room(c) for c in cs)


def anyIn(t, p):
    return any(p(x) for x in walkTerm(t))


def p_ahead(A):
    left = lambda t: any(c[0] == "op" and c[1] == "-" and anyIn(c[2], lambda x: x[0] == "call" and x[1] == "bufUsed" and OUTISH(x[2][0])) for c in cases(t))          # noqa: E731
    for name in ("ioRead", "ioReadSmall"):
        v = View(A, name, noInline=("ioReadInternal", "ioReadEof"))
        start, out = entryOf(v), exitOf(v)
        cat, rd = v.calls("bufCatSub"), v.calls("ioReadInternal")
        if not cat or not rd:
            A.unsure("%s: no copy or no read" % name, AHEAD)
            continue
        direct = [s for s in rd if isArg(1)(s.args[1])]
        ahead = [s for s in rd if s not in direct]
        none = zeroOf(left, True, "nothing was read ahead", "bufUsed")
        noBuf = truth(OUTISH, False, "nothing was read ahead", "output")
        good = []
        for s in cat:
            if not (isArg(1)(s.args[0]) and OUTISH(s.args[1])):
                A.bad(AHEAD, s.where, "other data is handed out")
            if not least(s.args[3], left, call("bufRemains", isArg(1))):
                A.bad(AHEAD, s.where, "not all of what was read ahead is handed out: %s" % fmt(s.args[3])[:60])
            A.ok(AHEAD, s.where)
        for k, t, s in steps(v, "IoRead", "outputPos"):
            if k == "add" and least(t, left, call("bufRemains", isArg(1))):
                good.append(s)
            elif k == "set" and num(t) == 0:
                pass
            else:
                A.bad(AHEAD, s.where, "the position in the data read ahead is changed by %s" % fmt(t)[:60])
        reset = [s for k, t, s in steps(v, "IoRead", "outputPos") if k == "set"]
        way(A, v, AHEAD, "data read ahead is handed out again", cat, [out] + rd + cat, [], good)
        for s in good:
            for d in good:
                if can(v, s, d, cat):
                    A.bad(AHEAD, d.where, "data read ahead is skipped")
        way(A, v, AHEAD, "new data is handed out before data that was read ahead", [start], direct + ahead, [none, noBuf, full(isArg(1), True)], cat)
        zero = [s for s in v.calls("bufUsedZero") if OUTISH(s.args[0])]
        if zero + reset:
            way(A, v, AHEAD, "data read ahead is dropped", [start], zero + reset, [none, noBuf], cat)
        if cat and zero + reset:
            way(A, v, AHEAD, "data read ahead is dropped", cat, zero + reset, [full(isArg(1), False)])
        if name == "ioReadSmall":
            way(A, v, AHEAD, "reading ahead goes behind data that was handed out", [start] + cat, ahead, [], zero) if ahead else None
            way(A, v, AHEAD, "data read ahead is skipped", [start] + cat, ahead, [], reset) if ahead else None
            way(A, v, AHEAD, "data read ahead is not handed out", ahead, [out], [truth(call("ioReadEof"), True, "end"), full(isArg(1), True)], cat)
            way(A, v, AHEAD, "less than asked for is delivered before the end", [start], [out], [full(isArg(1), True), truth(either(call("ioReadEof"), fld("eofAll")), True, "end")])
        else:
            way(A, v, AHEAD, "nothing is read", [start], [out], [full(isArg(1), True)], direct)
            for s in direct:
                if num(s.args[2]) != 1:
                    A.bad(AHEAD, s.where, "the read returns before the buffer is full")
        A.ok(AHEAD, A.loc(name))


def OUTISH(t):
    return any(c[0] == "fld" and c[2] == "output" or c[0] == "call" and c[1] == "bufNew" for c in cases(t))


def p_line(A):
    v = View(A, "ioReadLineParam", noInline=("ioReadInternal", "ioReadEof"))
    start, out = entryOf(v), exitOf(v)
    rd, used = v.calls("ioReadInternal"), v.calls("bufUsedSet")
    move = v.calls("memmove", "memcpy")
    if not rd:
        A.unsure("ioReadLineParam: no read", LINE)
        return
    diff = lambda t: t[0] == "op" and t[1] == "-" and hasCall(t, "memchr")                       # noqa: E731
    line, rest = [], []
    for s in v.calls("strNewZN"):
        (line if hasCall(s.args[1], "memchr") else rest).append(s)
    for s in line:
        if not diff(s.args[1]):
            A.bad(LINE, s.where, "the length of the line is %s" % fmt(s.args[1])[:60])
        A.ok(LINE, s.where)
    adds = []
    for k, t, s in steps(v, "IoRead", "outputPos"):
        if k == "add":
            if not (t[0] == "op" and t[1] == "+" and (diff(t[2]) and num(t[3]) == 1 or diff(t[3]) and num(t[2]) == 1)):
                A.bad(LINE, s.where, "the next line starts at %s" % fmt(t)[:60])
            adds.append(s)
        elif not (k == "set" and num(t) == 0):
            A.bad(LINE, s.where, "the next line starts at %s" % fmt(t)[:60])
    look = v.calls("memchr")
    way(A, v, LINE, "a line is delivered twice", look, [out] + look, [truth(call("memchr"), False, "no line feed", "memchr")], adds) if look else None
    reset = [s for k, t, s in steps(v, "IoRead", "outputPos") if k == "set"]
    way(A, v, LINE, "what was read is skipped", [start], rd, [], reset)
    way(A, v, LINE, "the rest of the line is not kept", [start], rd, [], used)
    left = lambda t: any(c[0] == "op" and c[1] == "-" and anyIn(c[2], lambda x: x[0] == "call" and x[1] == "bufUsed") for c in cases(t))                     # noqa: E731
    way(A, v, LINE, "the rest of the line is not moved to the start", [start], used, [zeroOf(left, True, "nothing left", "bufUsed"), zeroOf(lambda t: fld("outputPos")(t), True, "at the start already", "outputPos")], move)
    for s in used:
        if not left(s.args[1]):
            A.bad(LINE, s.where, "the rest of the line is cut: %s" % fmt(s.args[1])[:60])
        for m in move:
            if not left(m.args[2]):
                A.bad(LINE, m.where, "only a part of the rest is moved")
            A.ok(LINE, m.where)
    eof = truth(either(call("ioReadEof"), fld("eofAll")), True, "end")
    for s in rest:
        if not (s.under(eof) and s.under(truth(isArg(1), True, "allowed"))):
            A.bad(LINE, s.where, "a line without line feed is taken before the end")
        if not call("bufUsed")(s.args[1]):
            A.bad(LINE, s.where, "the length of the last line is %s" % fmt(s.args[1])[:60])
    way(A, v, LINE, "a line is made of nothing", [start], [out], [], line + rest)


def p_limit(A):
    v = View(A, "ioLimitRead", noInline=("ioRead",))
    left, room = minus(fld("limit"), fld("current")), call("bufRemains", isArg(1))
    if not A.prog.fns.get("ioLimitRead"):
        A.unsure("ioLimitRead not found", LIMIT)
        return
    ls, rd = v.calls("bufLimitSet"), v.calls("ioRead")
    for s in ls:
        t = s.args[1]
        ok = t[0] == "op" and t[1] == "+" and any(call("bufUsed", isArg(1))(x) and least(y, left, room) for x, y in ((t[2], t[3]), (t[3], t[2])))
        if not ok:
            A.bad(LIMIT, s.where, "the read is limited to %s" % fmt(t)[:80])
        A.ok(LIMIT, s.where)
    way(A, v, LIMIT, "the read is not limited", [entryOf(v)], rd, [], ls)
    got = []
    for k, t, s in steps(v, "IoLimitRead", "current"):
        if k != "add" or not (least(t, left, room) or call("ioRead")(t)):
            A.bad(LIMIT, s.where, "what was read is counted as %s" % fmt(t)[:60])
        got.append(s)
    way(A, v, LIMIT, "what was read is not counted", rd, [exitOf(v)], [], got)


def p_copy(A):
    v = View(A, "ioBufferProcess")
    left, room = minus(call("bufUsed", isArg(1)), fld("inputPos")), call("bufRemains", isArg(2))
    cat = v.calls("bufCatSub")
    if not cat:
        A.unsure("ioBufferProcess: no copy", COPY)
        return
    out = exitOf(v)
    for s in cat:
        if not (isArg(2)(s.args[0]) and isArg(1)(s.args[1]) and fld("inputPos")(s.args[2]) and least(s.args[3], left, room)):
            A.bad(COPY, s.where, "other data is copied")
        A.ok(COPY, s.where)
    way(A, v, COPY, "nothing is copied", [entryOf(v)], [out], [], cat)

    def whole(a, pol):
        return a[0] == "eq" and pol is True and any(call("bufUsed", isArg(1))(x) and y[0] == "op" and y[1] == "+" for x, y in ((a[1], a[2]), (a[2], a[1])))
    al = lit("everything was copied", whole, "bufUsed")
    part = lit("a part was copied", lambda a, pol: a[0] == "eq" and whole(a, True) and pol is False or a[0] == "lt" and call("bufUsed", isArg(1))(a[2]) and pol is True, "bufUsed")
    add = []
    for k, t, s in steps(v, "IoBuffer", "inputPos"):
        if k == "add" and least(t, left, room):
            add.append(s)
        elif k == "set" and num(t) == 0:
            if not s.under(al):
                A.bad(COPY, s.where, "the position is reset before all was copied")
            add.append(s)
        else:
            A.bad(COPY, s.where, "the position becomes %s" % fmt(t)[:60])
    way(A, v, COPY, "the position is not advanced", cat, [out], [], add)
    for k, t, s in steps(v, "IoBuffer", "inputSame"):
        if num(t) == 0 and not s.under(al):
            A.bad(COPY, s.where, "the input is dropped before all was copied")
        elif num(t) == 1 and not s.under(part):
            A.bad(COPY, s.where, "the same input is asked for after all was copied")
        A.ok(COPY, s.where)
    way(A, v, COPY, "it is not said whether the input is needed again", cat, [out], [], [s for k, t, s in steps(v, "IoBuffer", "inputSame")])


def p_group(A):
    v = View(A, "ioFilterGroupProcess")
    start, out = entryOf(v), exitOf(v)
    io, i = v.calls("ioFilterProcessInOut"), v.calls("ioFilterProcessIn")
    if not io or not i:
        A.unsure("ioFilterGroupProcess: filters are not called", CHAIN)
        return
    LOC, FO, SAME, DONE = fld("inputLocal"), fld("output"), call("ioFilterInputSame"), call("ioFilterDone")
    # Input and output
    ins = [(k, t, s) for k, t, s in steps(v, "IoFilterGroup", "input")]
    for k, t, s in ins:
        if not isArg(1)(t):
            A.bad(CHAIN, s.where, "the first filter gets %s" % fmt(t)[:60])
    way(A, v, CHAIN, "the first filter does not get the input", [start], io + i, [], [s for _, _, s in ins])
    last = []
    for k, t, s in steps(v, "IoFilterData", "output"):
        if isArg(2)(t):
            last.append(s)
        elif k == "set" and num(t) == 0:
            for l, txt in ((truth(DONE, True, "the filter is done"), "a filter is told of the end before the one ahead of it is done"), (empty(FO, True), "output that was not used is dropped")):
                if v.escape([start.gid], [s.gid], [], [l]) is not None:
                    A.bad(CHAIN, s.where, txt)
        else:
            A.bad(CHAIN, s.where, "the output of a filter becomes %s" % fmt(t)[:60])
    way(A, v, CHAIN, "the last filter does not get the output", [start], io + i, [], last)
    null = [s for k, t, s in steps(v, "IoFilterData", "output") if num(t) == 0]
    if not null:
        A.bad(CHAIN, A.loc("ioFilterGroupProcess"), "no filter is ever told of the end")
    for s in io + i:
        way(A, v, CHAIN, "a filter that is done gets more input", [start], [s], [truth(DONE, False, "the filter is not done")])
        if not anyIn(s.args[1], lambda x: x[0] == "fld" and x[2] == "input"):
            A.bad(CHAIN, s.where, "a filter gets something else as input")
    for s in io:
        if not FO(s.args[2]) and not isArg(2)(s.args[2]):
            A.bad(CHAIN, s.where, "a filter writes to another place")
    zero = [s for s in v.calls("bufUsedZero")]
    for s in zero:
        if not LOC(s.args[0]):
            A.bad(CHAIN, s.where, "another buffer is cleared")
    notSame = truth(SAME, False, "the input is used up")
    way(A, v, CHAIN, "input is dropped before it was used", [start] + io, zero, [notSame])
    way(A, v, CHAIN, "input is dropped before it was used", [start], zero, [], io)
    way(A, v, CHAIN, "input that was used is used again", io, io + [out], [truth(SAME, True, "needed again"), truth(LOC, False, "not a buffer of the group")], zero)
    # A filter that needs its input again is remembered
    sets = [(k, t, s) for k, t, s in steps(v, None, "inputSame")]
    true = [s for k, t, s in sets if num(t) == 1]
    false = [s for k, t, s in sets if num(t) == 0]
    way(A, v, CHAIN, "it is not remembered that the input is needed again", io, io + [out], [notSame], true)
    way(A, v, CHAIN, "the same input is asked for without need", [start], true, [truth(SAME, True, "needed again")])
    dn = [(k, t, s) for k, t, s in steps(v, None, "done")]
    dTrue, dFalse = [s for k, t, s in dn if num(t) == 1], [s for k, t, s in dn if num(t) == 0]
    for k, t, s in dn:
        if num(t) not in (0, 1):
            A.unsure("ioFilterGroupProcess: done is computed", ATEND)
    way(A, v, ATEND, "the end state is that of the call before", io + i, [out], [], dTrue + dFalse)

    # The scan that ends the call: a filter that is not done or needs its input again
    endScan = lit("all filters were looked at", lambda a, pol: a[0] == "lt" and pol is False and call("ioFilterGroupSize")(a[2]), "ioFilterGroupSize")
    way(A, v, ATEND, "the group is done though not all filters were looked at", dTrue, [out], [endScan], dFalse)
    per = [s for s in v.calls("ioFilterInputSame", "ioFilterDone") if not any(can(v, s, x) for x in io + i)]
    if per:
        seen = [s for s in per if s.name == "ioFilterDone"]
        same = [s for s in per if s.name == "ioFilterInputSame"]
        way(A, v, ATEND, "a filter that is not done is overlooked", [s for s in seen], [out] + same, [truth(DONE, True, "done")], dFalse)
        way(A, v, ATEND, "a filter that needs its input again is overlooked", same, [out], [notSame], [s for s in true if not any(can(v, s, x) for x in io + i)])
        way(A, v, ATEND, "a filter that needs its input again is taken as done", same, [out], [notSame], dFalse)
        way(A, v, ATEND, "it is not looked whether a filter is done", same, same, [truth(SAME, True, "again")], seen)
        way(A, v, ATEND, "it is not looked whether a filter needs its input again", dTrue, [out], [endScan], same)
    else:
        A.bad(ATEND, A.loc("ioFilterGroupProcess"), "the filters are not looked at in the end")
    more = lit("the output is full", lambda a, pol: full(isArg(2), True).fn(a, pol), "bufFull")
    # Leaving the loop: either nothing needs its input again, or the output is full
    gnot = truth(GROUPSAME, False, "the input is used up")
    way(A, v, CHAIN, "the group stops while there is room and input", io + i, dTrue, [gnot, more])
    # A chain stops at a filter only while that one has room and is not done
    for l, txt in ((full(FO, False), "a filter's output is left though its buffer is full"), (truth(DONE, False, "not done"), "the filters behind one that is done are not told")):
        way(A, v, CHAIN, txt, io, dTrue, [l, endScan], io + i)
    # Open: an output for the last filter, and the input of each filter is the output of the one before
    o = View(A, "ioFilterGroupOpen", noInline=("ioFilterGroupAdd",))
    add = [s for s in o.calls("ioFilterGroupAdd") if hasCall(s.args[1], "ioBufferNew")]
    has = truth(lambda t: any(c[0] == "call" and c[1] == "ioFilterOutput" and lastOf(c) for c in cases(t)), True, "the last filter has output")
    way(A, o, CHAIN, "a group has no filter that produces output", [entryOf(o)], [exitOf(o)], [has], add)
    for s in add:
        if o.escape([entryOf(o).gid], [s.gid], [], [truth(call("ioFilterOutput"), False, "no output"), zeroOf(call("ioFilterGroupSize"), True, "no filters")]) is not None:
            A.bad(CHAIN, s.where, "a copy is added where there is output already")
    ins = [s for k, t, s in steps(o, "IoFilterData", "input")]
    loc = [(t, s) for k, t, s in steps(o, "IoFilterData", "inputLocal")]
    outs = [(t, s) for k, t, s in steps(o, "IoFilterData", "output")]
    if not ins or not loc or not outs:
        A.bad(CHAIN, A.loc("ioFilterGroupOpen"), "the filters are not connected")
    for t, s in outs:
        if not hasCall(t, "bufNew"):
            A.bad(CHAIN, s.where, "the output of a filter is %s" % fmt(t)[:60])
        if not s.under(truth(call("ioFilterOutput"), True, "output")):
            A.bad(CHAIN, s.where, "a filter without output gets a buffer")
    # Close: result of every filter
    c = View(A, "ioFilterGroupClose")
    r = [s for s in c.calls("lstAdd") if anyIn(s.args[0], lambda x: x[0] == "fld" and x[2] == "filterResult")]
    if not r:
        A.bad(RESULT, A.loc("ioFilterGroupClose"), "the results are not recorded")
    way(A, c, RESULT, "the result of a filter is not recorded", [entryOf(c)], [exitOf(c)], [endScan], [])
    for s in r:
        t = part(s, 1, "type"), part(s, 1, "result")
        if t[0] is not None and not hasCall(t[0], "ioFilterType") or t[1] is not None and not hasCall(t[1], "ioFilterResult"):
            A.bad(RESULT, s.where, "something else is recorded as the result")
        A.ok(RESULT, s.where)
    way(A, c, RESULT, "the result of a filter is not recorded", [s for s in c.calls("ioFilterGroupGet")] or r, [exitOf(c)] + c.calls("ioFilterGroupGet"), [], r)


def lastOf(c):
    return anyIn(c, lambda x: x[0] == "op" and x[1] == "-" and num(x[3]) == 1 and hasCall(x[2], "ioFilterGroupSize")) or hasCall(c, "lstGetLast")


def p_multi(A):
    v = View(A, "storageReadMultiDefaultAdd", noInline=("storageReadMultiDefaultQueue",))
    start, out = entryOf(v), exitOf(v)
    prior = lambda t: hasCall(t, "lstGetLast")                                                   # noqa: E731
    pf = lambda f: fld(f, prior)                                                                 # noqa: E731
    off = fld("offset", isArg(2))
    lim = lambda t: any(c[0] == "call" and c[1] == "varUInt64" for c in cases(t))                # noqa: E731
    adds = v.calls("lstAdd")
    rq = [s for s in adds if fld("requestList", isArg(0))(s.args[0])]
    rg = [s for s in adds if s not in rq]
    ext = []

    def plus(t, *ps):
        """Sum and difference: flattened signed parts match the predicates."""
        parts = []

        def go(x, sign):
            if x[0] == "op" and x[1] in ("+", "-"):
                go(x[2], sign)
                go(x[3], sign if x[1] == "+" else -sign)
            elif x[0] == "cast":
                go(x[-1], sign)
            else:
                parts.append((sign, x))
        go(t, 1)
        parts2 = list(parts)
        for sign, p in ps:
            hit = [q for q in parts2 if q[0] == sign and p(q[1])]
            if not hit:
                return False
            parts2.remove(hit[0])
        return not parts2
    for k, t, s in steps(v, "StorageReadMultiRequest", "limit"):
        if not (plus(t, (1, off), (-1, pf("offset")), (1, lim)) if k == "set" else False):
            A.bad(RANGE, s.where, "the combined request ends at %s" % fmt(t)[:80])
        ext.append(s)
        A.ok(RANGE, s.where)
    same = truth(call("strEq"), True, "the same file")
    apart = ((1, off), (-1, pf("offset")), (-1, pf("limit")))

    def le(a, pol, *parts):
        """The sum of the parts is zero or less (true literal) written as a comparison."""
        return a[0] == "lt" and (pol is False and plus(("op", "-", a[2], a[1]), *parts) or pol is True and plus(("op", "-", a[1], a[2]), *parts))
    near = lit("near enough", lambda a, pol: le(a, pol, *(apart + ((-1, fld("readOver")),))), "readOver")
    order = lit("behind the one before", lambda a, pol: le(a, pol, *[(-x, y) for x, y in apart]), "offset")
    bound = lit("limited", lambda a, pol: a[0] == "eq" and pol is False and pf("limit")(a[1]) and str(num(a[2])).isdigit() and int(num(a[2])) > 2**60, "limit")
    for l, txt in ((same, "requests for different files are combined"), (near, "requests are combined though they are far apart"), (order, "a range before the last one is accepted"), (bound, "a request without limit is extended")):
        way(A, v, RANGE, txt, [start], ext, [l])
    way(A, v, RANGE, "a request is lost", [start], [out], [], rq + ext)
    if not ext or not rq:
        A.bad(RANGE, A.loc("storageReadMultiDefaultAdd"), "a request is lost")
    for s in ext:
        for d in rq:
            if can(v, s, d):
                A.bad(RANGE, d.where, "a request is read twice")
    apartIs = lambda t: plus(t, *apart)                                                          # noqa: E731
    adj = anyOf("right behind", zeroOf(apartIs, True, "right behind"), lit("right behind", lambda a, pol: a[0] == "eq" and pol is True and any(off(x) and plus(y, (1, pf("offset")), (1, pf("limit"))) for x, y in ((a[1], a[2]), (a[2], a[1]))), "offset"))
    gap = anyOf("behind a gap", zeroOf(apartIs, False, "behind a gap"), lit("behind a gap", lambda a, pol: a[0] == "eq" and pol is False and any(off(x) and plus(y, (1, pf("offset")), (1, pf("limit"))) for x, y in ((a[1], a[2]), (a[2], a[1]))), "offset"))
    firstR, nextR = [], []
    for s in rg:
        o, l = part(s, 1, "offset"), part(s, 1, "limit")
        if o is None or l is None:
            continue
        if off(o) and lim(l):
            nextR.append(s)
        elif pf("offset")(o) and pf("limit")(l):
            firstR.append(s)
        else:
            A.bad(RANGE, s.where, "a range is recorded as %s, %s" % (fmt(o)[:40], fmt(l)[:40]))
        A.ok(RANGE, s.where)
    if not firstR or not nextR:
        A.bad(RANGE, A.loc("storageReadMultiDefaultAdd"), "the ranges of a combined request are not recorded")
    else:
        way(A, v, RANGE, "the unused bytes between two ranges are delivered", [start], ext, [adj], nextR)
        way(A, v, RANGE, "a range is recorded that follows without a gap", [start], nextR, [gap])
        newList = truth(lambda t: fld("rangeList")(t), True, "there are ranges")
        way(A, v, RANGE, "the first range is not recorded", [start], nextR, [newList], firstR)
        for s in ext:
            for d in firstR:
                if can(v, s, d):
                    A.bad(RANGE, d.where, "the first range is recorded with the length of the combined request")
    rl = []
    for k, t, s in steps(v, "StorageReadMultiRange", "limit"):
        if not (hasCall(t, "lstGetLast") and plus(t, (1, off), (-1, fld("offset", lambda b: hasCall(b, "lstGetLast") and anyIn(b, lambda x: x[0] == "fld" and x[2] == "rangeList"))), (1, lim)) if k == "set" else lim(t)):
            A.bad(RANGE, s.where, "the last range ends at %s" % fmt(t)[:80])
        rl.append(s)
    way(A, v, RANGE, "the last range is not extended", [start], ext, [truth(fld("rangeList"), False, "no ranges"), gap], rl)
    for f, p in (("offset", off), ("versionId", lambda t: anyIn(t, lambda x: x[0] == "fld" and x[2] == "versionId"))):
        for s in v.inits("StorageReadMultiRequest", f):
            if not p(s.args[0]):
                A.bad(RANGE, s.where, "%s of the request is %s" % (f, fmt(s.args[0])[:60]))
            A.ok(RANGE, s.where)

    # Read
    v = View(A, "storageReadMultiDefault", noInline=("storageReadMultiDefaultQueue",))
    start, out = entryOf(v), exitOf(v)
    rd = [s for s in v.calls("ioRead") if isArg(1)(s.args[1])]
    if not rd:
        A.unsure("storageReadMultiDefault: no read", RANGE)
        return
    RANGEQ = lambda t: anyIn(t, lambda x: x[0] == "fld" and x[2] == "rangeList")                 # noqa: E731
    req = lambda f: fld(f, lambda b: hasCall(b, "lstGet") and not RANGEQ(b))                     # noqa: E731
    remains = lambda t: any(c[0] == "op" and c[1] == "-" and anyIn(c[2], lambda x: x[0] == "fld" and x[2] == "limit") and anyIn(c[3], lambda x: x[0] == "fld" and x[2] == "rangeRead") for c in cases(t))      # noqa: E731
    noRange = truth(lambda t: RANGEQ(t) and not hasCall(t, "lstSize"), False, "no ranges", "rangeList")
    noRangeList = lit("no ranges", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and req("rangeList")(a[1]), "rangeList")
    lastRange = lit("the last range", lambda a, pol: a[0] == "lt" and (num(a[1]) == 1 and pol is False and hasCall(a[2], "lstSize") or num(a[2]) == 2 and pol is True and hasCall(a[1], "lstSize")), "lstSize")
    moreRange = lit("more ranges", lambda a, pol: a[0] == "lt" and (num(a[1]) == 1 and pol is True and hasCall(a[2], "lstSize") or num(a[2]) == 2 and pol is False and hasCall(a[1], "lstSize")), "lstSize")
    small = lit("no more room than the range has", lambda a, pol: a[0] == "lt" and (pol is False and remains(a[1]) and call("bufRemains", isArg(1))(a[2]) or pol is True and call("bufRemains", isArg(1))(a[1]) and remains(a[2])), "bufRemains")
    ls = v.calls("bufLimitSet")
    for s in ls:
        if not remains(s.args[1]):
            A.bad(RANGE, s.where, "the read is limited to %s" % fmt(s.args[1])[:80])
    way(A, v, RANGE, "the read goes into unused bytes", [start], rd, [noRange, noRangeList, lastRange, small], ls)
    clr = v.calls("bufLimitClear")
    for s in ls:
        for c in clr:
            if can(v, s, c, rd):
                A.bad(RANGE, c.where, "the read goes into unused bytes")
    way(A, v, RANGE, "the limit of the read before is kept", [start], rd, [], clr)
    cnt = []
    for k, t, s in steps(v, "StorageReadMultiRequest", "rangeRead"):
        if k == "add" and call("ioRead")(t):
            cnt.append(s)
        elif not (k == "set" and num(t) == 0):
            A.bad(RANGE, s.where, "what was read of the range is counted as %s" % fmt(t)[:60])
    reset = [s for k, t, s in steps(v, "StorageReadMultiRequest", "rangeRead") if k == "set"]
    way(A, v, RANGE, "what was read of the range is not counted", rd, [out], [noRange, noRangeList], cnt)
    drop = [s for s in v.calls("lstRemoveIdx") if RANGEQ(s.args[0])]
    whole = zeroOf(lambda t: remains(t), True, "the range was read", "rangeRead")
    wholeEq = lit("the range was read", lambda a, pol: a[0] == "eq" and pol is True and any(fld("limit")(x) and anyIn(y, lambda q: q[0] == "fld" and q[2] == "rangeRead") for x, y in ((a[1], a[2]), (a[2], a[1]))), "rangeRead")
    notWhole = zeroOf(lambda t: remains(t), False, "the range was not read yet", "rangeRead")
    notWholeEq = lit("the range was not read yet", lambda a, pol: a[0] in ("eq", "lt") and wholeEq.fn(("eq",) + tuple(a[1:]), True) and pol is False, "rangeRead")
    way(A, v, RANGE, "a range is left before it was read", [start], drop, [whole, wholeEq])
    way(A, v, RANGE, "a range is left that is the last one", [start], drop, [moreRange])
    way(A, v, RANGE, "a range is not left after it was read", rd, [out], [noRange, noRangeList, lastRange, notWhole, notWholeEq], drop)
    way(A, v, RANGE, "the next range starts with the count of the one before", drop, [out], [], reset)
    for s in drop:
        if num(s.args[1]) != 0:
            A.bad(RANGE, s.where, "another range is removed")
    for s in reset:
        if v.escape([start.gid], [s.gid], [], [whole, wholeEq]) is not None:
            A.bad(RANGE, s.where, "the count is reset within a range")
    over = v.calls("ioLimitReadNew")
    for s in over:
        t = s.args[1]
        nxt = lambda b: anyIn(b, lambda x: x[0] == "call" and x[1] == "lstGet" and num(x[2][1]) == 1)              # noqa: E731
        if not plus(t, (1, fld("offset", nxt)), (-1, lambda x: fld("offset")(x) and not nxt(x)), (-1, fld("limit", lambda b: not nxt(b)))):
            A.bad(RANGE, s.where, "the number of unused bytes is %s" % fmt(t)[:80])
        A.ok(RANGE, s.where)
    drain = [s for s in v.calls("ioReadDrain") if hasCall(s.args[0], "ioLimitReadNew")]
    way(A, v, RANGE, "the unused bytes are delivered", [start], drop, [], drain)
    for s in drop:
        for d in over:
            if can(v, s, d):
                A.bad(RANGE, d.where, "the number of unused bytes is taken from the wrong range")

    # Queue
    v = View(A, "storageReadMultiDefaultQueue")
    add = [s for s in v.calls("lstAdd") if fld("queue")(s.args[0])]
    new = v.calls("storageReadNew")
    for s in new:
        for i, f in ((1, "file"), (5, "offset"), (6, "limit"), (8, "versionId")):
            if len(s.args) > i and not anyIn(s.args[i], lambda x: x[0] == "fld" and x[2] == f):
                A.bad(QUEUE, s.where, "the file is opened with another %s" % f)
        if len({x for i in (1, 5, 6) for x in walkTerm(s.args[i]) if x[0] == "call" and x[1] == "lstGet"}) > 1:
            A.bad(QUEUE, s.where, "the file is opened with parts of another request")
        A.ok(QUEUE, s.where)
    for s in new:
        g = [x for x in walkTerm(s.args[1]) if x[0] == "call" and x[1] == "lstGet"]
        for x in g:
            if not anyIn(x[2][1], lambda y: y[0] == "call" and y[1] == "lstSize" and fld("queue")(y[2][0])):
                A.bad(QUEUE, s.where, "the requests that are queued already are queued again")
    way(A, v, QUEUE, "an opened file is not queued", new, [exitOf(v)] + new, [], add)
