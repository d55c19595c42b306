"""Failures are reported: no error is swallowed, and the exit status tells."""
from flow import LitFn, has, maybeTrue
from graph import fmt, walkTerm
from lib import View, exitOf, follow, hasCall, precede, rel, strs

ASSUME = ["a system call that fails says so as documented and sets errno", "a handler that passes on the type, code or message of the error, or writes down a result, does so for those who need to know"]

READ = {"errorMessage", "errorType", "errorCode", "errorStackTrace", "errorTypeCode", "errorInternalPropagate"}
THROW = {"errorInternalThrow", "errorInternalThrowFmt", "errorInternalThrowSys", "errorInternalThrowSysFmt"}
# Handlers that may be silent by what they protect: the calls of the protected part
QUIET = [{"varUIntForce", "varNewStr"}]


def name(p):
    return p.data[2][1] if p.kind == "call" and p.data[2][0] == "f" else None


def conveys(A, n, depth=2):
    """Passes on or throws an error itself, or by a helper."""
    if n in READ or n in THROW:
        return True
    if n not in A.prog.fns or depth == 0 or A.prog.fns[n].ext and depth < 2:
        return False
    c = set(A.prog.callees(n)[0])
    return bool(c & (READ - {"errorTypeCode"})) or n.startswith("err") is False and any(conveys(A, x, depth - 1) for x in c if x in A.prog.fns and not A.prog.fns[x].ext)


def handlers(fn):
    """(try, points by index, inside, entry points, protected points) of each handler."""
    pts = {p.idx: p for p in fn.pts()}
    for t in sorted({t[0] for p in pts.values() for t in p.tries or () if t[1] == "catch"}):
        inside = {i for i, p in pts.items() if (t, "catch") in (p.tries or ())}
        entry = [i for i in inside if name(pts[i]) == "errorInternalCatch" and pts[i].tries[-1] == (t, "catch")]
        body = [p for p in pts.values() if (t, "body") in (p.tries or ())]
        yield t, pts, inside, entry, body


def silent(A, pts, inside, e):
    """A path through the handler entered at e that tells nobody."""
    q, seen = [e], set()
    cond = pts[e].data[0]
    while q:
        i = q.pop()
        if i in seen:
            continue
        seen.add(i)
        p = pts[i]
        if i not in inside:
            return p
        if p.kind in ("as", "inc", "opas"):
            continue
        n = name(p)
        if n == "logAny":
            a = p.data[3][0]
            if a[0] == "e" and a[2] <= A.prog.enum("logLevelDetail"):
                continue
        elif n and n != "errorInternalCatch" and conveys(A, n):
            continue
        q += [s for s, l in p.succ if not (p.kind == "br" and p.data == ["c", cond] and l == "F")]
    return None


def p_handlers(A):
    R = "an error that is caught is passed on, noted or logged"
    anyErr = ("RuntimeError",)
    n = 0
    for fname, fn in sorted(A.prog.fns.items()):
        if fn.file.startswith("common/error/"):
            continue
        for t, pts, inside, entry, body in handlers(fn):
            for e in entry:
                types = {x[1][1] for x in pts[e].data[3] if x[0] == "a" and x[1][0] == "g"}
                if not types & set(anyErr):
                    continue
                n += 1
                where = "%s:%d (%s)" % (fn.file, pts[e].line, fname)
                A.ok(R, where)
                if silent(A, pts, inside, e) is None:
                    continue
                calls = {name(p) for p in body if name(p) in A.prog.fns}
                calls = {c for c in calls if not c.startswith(("memContext", "errorInternal", "stackTrace", "strZ", "logAny"))}
                if calls and calls <= QUIET[0]:
                    continue
                if locks(A, calls):
                    continue
                A.bad(R, where, "an error is caught and nobody is told")
    if n < 30:
        A.unsure("only %d handlers of any error found" % n)


def locks(A, calls):
    """Reads who holds a lock to say it in an error."""
    return bool(calls) and all(c in A.prog.fns and A.prog.fns[c].file == "common/lock.c" for c in calls)


# Counted errors -------------------------------------------------------------------------------------------------------------------------
def truth(e, env):
    """Truth of an expression when the variables of env are true, false or at least one ("n"), or None."""
    if e[0] == "v" and len(e) == 2 and e[1] in env:
        return bool(env[e[1]])
    if e[0] == "i":
        return e[1] != 0
    if e[0] == "u" and e[1] == "!":
        x = truth(e[2], env)
        return None if x is None else not x
    if e[0] == "b" and e[1] in ("==", "!=", ">", "<", ">=", "<="):
        op, l, r = e[1], e[2], e[3]
        if r[0] == "v":
            op, l, r = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op), r, l
        if l[0] == "v" and len(l) == 2 and l[1] in env and r[0] == "i":
            k = r[1]
            if env[l[1]] == "n":
                return {"==": False if k < 1 else None, "!=": True if k < 1 else None, ">": True if k < 1 else None, ">=": True if k <= 1 else None, "<": False if k <= 1 else None,
                        "<=": False if k < 1 else None}[op]
            x = int(env[l[1]])
            return {"==": x == k, "!=": x != k, ">": x > k, ">=": x >= k, "<": x < k, "<=": x <= k}[op]
    return None


def ends(A, fn, start, v, depth=3):
    """A normal end that is reached from start with v >= 1: a point, or None; "?" if not decided."""
    pts = {p.idx: p for p in fn.pts()}
    q, seen = [(i, ((v, "n"),)) for i in start], set()
    while q:
        i, env = q.pop()
        if (i, env) in seen:
            continue
        seen.add((i, env))
        if len(seen) > 20000:
            return "?"
        p = pts[i]
        d = dict(env)
        if p.kind == "exit" or p.kind == "ret":
            return p
        n = name(p)
        if p.kind in ("as", "decl", "opas"):
            w = p.data[2] if p.kind == "decl" else next((x[1] for x in p.data if isinstance(x, list) and x[:1] == ["v"] and len(x) == 2), None)
            e = next((x for x in p.data[3:] if isinstance(x, list)), None)
            if p.kind == "opas":
                d = d if w == v else {k: x for k, x in d.items() if k != w}
            elif isinstance(w, int):
                x = "n" if e and e[0] == "v" and d.get(e[1] if len(e) > 1 else None) == "n" else truth(e, d) if e else None
                if w == v and x is None:
                    return "?"
                d.pop(w, None)
                if x is not None:
                    d[w] = x
        if n and depth:
            if ["a", ["v", v]] in p.data[3]:
                return "?"
            if ["v", v] in p.data[3] and n in A.prog.fns and not n.startswith("log"):
                k = p.data[3].index(["v", v])
                sub = A.prog.fns[n]
                if k < len(sub.params):
                    r = ends(A, sub, [sub.entry if hasattr(sub, "entry") else min(x.idx for x in sub.pts())], sub.params[k][0], depth - 1)
                    if r is None:
                        continue
        x = truth(p.data, d) if p.kind == "br" and p.data else None
        env = tuple(sorted(d.items(), key=str))
        q += [(s, env) for s, l in p.succ if not (x is True and l == "F" or x is False and l == "T")]
    return None


def p_counted(A):
    R = "a command that goes on after an error ends in an error"
    for F in ("cmdAnnotate", "cmdExpire"):
        fn = A.prog.fns.get(F)
        if fn is None:
            A.unsure(F + " not found")
            continue
        found = 0
        for t, pts, inside, entry, body in handlers(fn):
            for e in entry:
                # Each path through the handler either throws or sets what is then an error
                q, seen = [e], set()
                while q:
                    i = q.pop()
                    if i in seen:
                        continue
                    seen.add(i)
                    p = pts[i]
                    where = "%s:%d (%s)" % (fn.file, p.line or pts[e].line, F)
                    v = None
                    if i not in inside:
                        A.bad(R, where, "an error is caught and not counted")
                        continue
                    if p.kind == "inc" and p.data[2] == "++" and p.data[4][0] == "v":
                        v = p.data[4][1]
                    elif p.kind == "opas" or p.kind == "as":
                        l = next((x for x in p.data if isinstance(x, list) and x[:1] == ["v"]), None)
                        v = l[1] if l else None
                    if v is not None:
                        found += 1
                        A.ok(R, where)
                        r = ends(A, fn, [s for s, l in p.succ], v)
                        if r == "?":
                            A.unsure("%s: what becomes of the count is not clear" % where)
                        elif r is not None:
                            A.bad(R, where, "the command can end normally after an error")
                        continue
                    q += [s for s, l in p.succ if not (p.kind == "br" and p.data == ["c", pts[e].data[0]] and l == "F")]
        if not found:
            A.unsure("no handler in " + F)


# Exit status ----------------------------------------------------------------------------------------------------------------------------
def p_exit(A):
    R = "the exit status of a failed command is the code of the error"
    f = A.flow("exitSafe", {"code": "errorCode()"}, {"error": "#1"}, trackRet=True)
    for (st, ret), nd in f.exits.items():
        A.ok(R, A.loc("exitSafe"))
        if has(st, "error") and not (ret is not None and ret[0] == "call" and ret[1] == "errorCode"):
            A.bad(R, A.loc("exitSafe"), "after an error the status is %s" % (fmt(ret) if ret else "nothing"))
        if has(st, "!error") and ret != ("p", 0):
            A.bad(R, A.loc("exitSafe"), "without an error the status is %s" % (fmt(ret) if ret else "nothing"))
    fn = A.prog.fns["main"]
    hs = list(handlers(fn))
    if not hs:
        A.unsure("main handles no errors")
    for t, pts, inside, entry, body in hs:
        for e in entry:
            A.ok(R, "%s:%d (main)" % (fn.file, pts[e].line))
            if pts[e].data[3][-1] != ["i", 1]:
                A.bad(R, "%s:%d (main)" % (fn.file, pts[e].line), "fatal errors are not handled")
            call = [pts[i] for i in inside if name(pts[i]) == "exitSafe"]
            if not call:
                A.bad(R, "%s:%d (main)" % (fn.file, pts[e].line), "an error does not end in an exit status")
            for p in call:
                if p.data[3][1] != ["i", 1] and p.data[3][1][0] != "v":
                    A.bad(R, "%s:%d (main)" % (fn.file, p.line), "the error is not told")
            # Every path of the handler goes through the call
            q, seen = [e], set()
            while q:
                i = q.pop()
                if i in seen or name(pts[i]) == "exitSafe":
                    continue
                seen.add(i)
                if i not in inside:
                    A.bad(R, "%s:%d (main)" % (fn.file, pts[e].line), "a handled error need not end in an exit status")
                    break
                q += [s for s, l in pts[i].succ if not (pts[i].kind == "br" and pts[i].data == ["c", pts[e].data[0]] and l == "F")]
    cmds = tuple(sorted(n for n in A.prog.fns if n.startswith("cmd") and A.prog.fns[n].ext))
    f = A.flow("main", {"bad": ("exitSafe()", lambda ctx: ctx.arg(1) == ("int", 1)), "good": ("exitSafe()", lambda ctx: ctx.arg(1) == ("int", 0))}, {}, trackRet=True,
               noInline=cmds + ("exitSafe", "cfgLoad", "protocolFree", "protocolServerNew", "exitInit", "errorHandlerSet"))
    n = 0
    for (st, ret), nd in f.exits.items():
        n += 1
        A.ok(R, A.loc("main"))
        if not has(st, "bad") and not has(st, "good"):
            A.bad(R, A.loc("main"), "the process ends without an exit status")
        if ret is None or not hasCall(ret, "exitSafe"):
            A.bad(R, A.loc("main"), "the exit status is %s" % (fmt(ret) if ret else "nothing"))
        elif has(st, "bad") and not any(x[0] == "call" and x[1] == "exitSafe" and x[2][1] == ("int", 1) for x in walkTerm(ret)):
            A.bad(R, A.loc("main"), "after an error the exit status is that of success")
    if not n:
        A.unsure("main has no exit")
    R = "what a command returns is the exit status"
    v = View(A, "main", noInline=cmds)
    for c in ("cmdArchiveGet", "cmdStorageGet"):
        fn = A.prog.fns.get(c)
        ss = v.calls(c)
        if not ss:
            A.unsure(c + " is not called")
            continue
        used = [x for x in v.calls("exitSafe") if any(hasCall(y, c) for y in x.args[:1])]
        A.ok(R, A.loc("main"))
        if not used:
            A.bad(R, ss[0].where, "the result of %s is lost" % c)
    R = "a signal ends in an error"
    v = View(A, "exitOnSignal")
    for s in v.calls("exit"):
        A.ok(R, s.where)
        if not (hasCall(s.args[0], "errorTypeCode") and "TermError" in fmt(s.args[0]) or s.args[0] == ("int", 63)):
            A.bad(R, s.where, "the status after a signal is %s" % fmt(s.args[0]))


# Child processes ------------------------------------------------------------------------------------------------------------------------
def p_exec(A):
    R = "a child process that fails is an error"
    ST = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and status(a[1], 0xff00), {"waitpid"}, "failed")
    OKS = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and status(a[1], 0xff00), {"waitpid"}, "status 0")
    SIG = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and status(a[1], 0x7f), {"waitpid"}, "signal")
    NOSIG = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and status(a[1], 0x7f), {"waitpid"}, "no signal")
    ALIVE = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] == "call" and a[1][1] == "waitpid", {"waitpid"}, "alive")
    lits = {"failed": ST, "zero": OKS, "sig": SIG, "noSig": NOSIG, "alive": ALIVE}
    f = A.flow("execOne", {"wait": "waitpid()"}, lits, trackRet=True)
    A.must(f, "wait", R)
    A.must(f, ["zero"], R)
    A.must(f, ["noSig"], R)
    ex = callers(A, "waitpid")
    chk = [n for n in ex if n != "execOne" and n in readers(A)]
    for n in chk:
        f = A.flow(n, {"wait": "waitpid()"}, lits, trackRet=True)
        A.must(f, "wait", R)
        A.must(f, ["alive"], R)
    for slot in (("IoReadInterface", "read"), ("IoWriteInterface", "write"), ("IoReadInterface", "eof")):
        for n in A.slot(*slot):
            if A.prog.fns[n].file != "common/exec.c":
                continue
            f = A.flow(n, {"wait": "waitpid()", "caught": "errorInternalCatch()", "again": "errorInternalPropagate()"}, {}, trackRet=True)
            for st in {st for st, ret in f.exits}:
                A.ok(R, A.loc(n))
                if has(st, "caught"):
                    A.bad(R, A.loc(n), "an error talking to the child process is swallowed")
            if slot[1] == "eof":
                A.ok(R, A.loc(n))
                if not f.occ.get("wait"):
                    A.bad(R, A.loc(n), "the end of the output does not make it look at the child process")
            else:
                for occ in f.occ.get("again", {}).values():
                    A.ok(R, occ.where)
                    if not has(occ.st, "wait"):
                        A.bad(R, occ.where, "the error of the child process is not looked for")
    R = "a child process that cannot be started ends in an error"
    v = View(A, "execOpen")
    for s in v.calls("execvp"):
        A.ok(R, s.where)
        if not v.calls("exit", "_exit"):
            A.bad(R, s.where, "the child goes on after exec failed")
    for s in v.calls("exit", "_exit"):
        A.ok(R, s.where)
        if s.args[0] == ("int", 0):
            A.bad(R, s.where, "a child that could not be started exits with success")


def status(t, mask):
    """The exit status or the signal of the child."""
    return any(x[0] == "op" and x[1] == "&" and ("int", mask) in x[2:] for x in walkTerm(t)) and any(x[0] == "out" and x[1] == "waitpid" for x in walkTerm(t))


def callers(A, n):
    return sorted(A.prog.callers().get(n, ()))


def readers(A):
    r = set()
    for slot in (("IoReadInterface", "read"), ("IoWriteInterface", "write"), ("IoReadInterface", "eof")):
        for n in A.slot(*slot):
            if A.prog.fns[n].file == "common/exec.c":
                r |= set(A.prog.callees(n)[0])
    return r


# System calls ---------------------------------------------------------------------------------------------------------------------------
# What changes files, permissions or processes, or hands out what is then used
SYS = ("write fsync rename ftruncate chmod fchmod chown fchown lchown utimes utime mkdir rmdir symlink link waitpid fork pipe unlink read open opendir stat lstat readlink socket bind listen connect "
       "setsockopt setsid chdir fcntl poll select").split()
COUNT = ("waitpid", "read", "write", "open", "fork", "readlink", "socket", "fcntl", "poll", "select")


def isFailure(c):
    def f(a, pol):
        r = rel(a, pol)
        if r is None or r[0][0] != "call" or r[0][1] != c or r[2][0] != "int":
            return False
        op, k = r[1], r[2][1]
        if c == "opendir":
            return op == "==" and k == 0
        return op == "==" and k == -1 or op == "<" and k == 0 or op == "<=" and k == -1 or op == "!=" and k == 0 and c not in COUNT
    return f


def p_system(A):
    R1, R2 = "the result of a system call is looked at", "a system call that fails is an error"
    errno = LitFn(lambda a, pol: hasCall(a[1], "__errno_location") if len(a) > 1 and isinstance(a[1], tuple) else False, {"__errno_location"}, "errno")
    n = 0
    for fname, fn in sorted(A.prog.fns.items()):
        pts = list(fn.pts())
        use = {}
        for p in pts:
            if name(p) in SYS:
                use.setdefault(name(p), []).append(p)
        if not use:
            continue
        ref = set()
        for p in pts:
            ids(p.data, ref)
        for c in sorted(use):
            for p in use[c]:
                n += 1
                where = "%s:%d (%s)" % (fn.file, p.line, fname)
                A.ok(R1, where)
                if p.data[0] not in ref and c != "unlink":
                    A.bad(R1, where, "the result of %s is not looked at" % c)
            f = A.flow(fname, {}, {"fail": LitFn(isFailure(c), {c}, c + " fails"), "errno": errno}, trackRet=True, noInline=tuple(x for x in A.prog.fns if x != fname and A.prog.fns[x].ext))
            good = {ret for st, ret in f.exits if not has(st, "fail")}
            for (st, ret), nd in f.exits.items():
                A.ok(R2, A.loc(fname))
                if has(st, "fail") and not has(st, "errno") and ret in good:
                    A.bad(R2, A.loc(fname), "%s can fail and nobody is told" % c)
                    break
    if n < 30:
        A.unsure("only %d system calls found" % n)


def ids(x, ref):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "c" and isinstance(x[1], int):
            ref.add(x[1])
        for y in x:
            ids(y, ref)
