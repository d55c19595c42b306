"""Protocol: only equal versions talk, every request is answered by its own response, and errors arrive as errors."""
from flow import LitFn, has
from lib import View, alts, callOf, countsFromZero, entryOf, exitOf, fieldLit, follow, hasCall, mentionsField, precede, rel, relLit, strId5, strs, structArg
from graph import fmt, walkTerm
from C16 import call

ASSUME = ["a stream delivers what was written in order or fails"]


def lastField(t):
    while isinstance(t, tuple) and t and t[0] in ("deref", "cast"):
        t = t[1]
    return t[2] if isinstance(t, tuple) and t and t[0] == "fld" else None


def structsIn(t):
    for x in walkTerm(t):
        if x[0] == "struct":
            yield dict(x[2])


def p_greeting(A):
    R = "client and server talk only if name, service and version are the same"
    v = View(A, "protocolClientNew")
    w = View(A, "protocolServerNew")
    want = {}
    for s in w.calls("jsonWriteZ", "jsonWriteStr"):
        k = callOf(s.args[0], "jsonWriteKeyStrId")
        if k is not None and k[2][1][0] == "int":
            want[k[2][1][1]] = s.args[1]
    A.ok(R, A.loc("protocolServerNew"), 3)
    ver = [x for x in want.values() if x[0] == "str" and any(c.isdigit() for c in x[1])]
    if len(want) < 3 or not ver or ("p", 1) not in want.values():
        A.bad(R, A.loc("protocolServerNew"), "the greeting does not have them: %s" % ", ".join(fmt(x) for x in want.values()))
    eq = LitFn(lambda a, pol: a[0] == "eq" and pol is False and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("strEqZ", "strEq") and any(hasCall(x, "jsonReadStr") for x in a[1][2]), {"strEqZ", "strEq"}, "equal")
    got = v.calls("jsonReadStr")
    if not got:
        A.bad(R, A.loc("protocolClientNew"), "the greeting is not read")
    for s in got:
        follow(A, v, [s], [], R, "a value of the greeting is not compared", [eq], to=[exitOf(v)] + got)
    have = {}
    n = None
    for s in v.calls("strEqZ", "strEq"):
        if not any(hasCall(x, "jsonReadStr") for x in s.args):
            continue
        for x in s.args:
            for y in walkTerm(x):
                if y[0] == "arr":
                    n = len(y[1:]) if not (len(y) == 2 and isinstance(y[1], tuple) and y[1] and isinstance(y[1][0], tuple)) else len(y[1])
            for d in structsIn(x):
                if "key" in d and "value" in d and d["key"][0] == "int":
                    have[d["key"][1]] = d["value"]
    keys = set(have)
    for s in v.calls("jsonReadKeyExpectStrId", "jsonReadKeyRequireStrId"):
        if s.args[1][0] == "int":
            keys.add(s.args[1][1])
    A.ok(R, A.loc("protocolClientNew"), len(want))
    for k, t in want.items():
        if k not in keys:
            A.bad(R, A.loc("protocolClientNew"), "the value %s of the greeting is not checked" % fmt(t))
        elif k in have and t[0] == "str" and strs(have[k]) != {t[1]} and t[1] not in strs(have[k]):
            A.bad(R, A.loc("protocolClientNew"), "%s is expected, but %s is sent" % (fmt(have[k])[:60], fmt(t)))
        elif k in have and t[0] == "p" and not any(x == ("p", 1) for x in walkTerm(have[k])):
            A.bad(R, A.loc("protocolClientNew"), "%s is expected, but the service is sent" % fmt(have[k])[:60])
    # all elements are looked at
    if have and n:
        end = [relLit((">=", "=="), countsFromZero, lambda y: y[0] == "int" and y[1] >= len(want), set(), "all are compared")]
        follow(A, v, [entryOf(v)], [], R, "not all values of the greeting are compared", end)


def p_response(A):
    F = "protocolClientResponseInternal"
    resp, err = A.prog.enum("protocolMessageTypeResponse"), A.prog.enum("protocolMessageTypeError")
    isType = lambda t: hasCall(t, "pckReadU32") or mentionsField(t, "type")
    good = relLit(("==",), isType, lambda y: y == ("int", resp), {"pckReadU32", "type"}, "it is a response")
    nerr = relLit(("!=",), isType, lambda y: y == ("int", err), {"pckReadU32", "type"}, "it is no error")
    sid = lambda t: hasCall(t, "pckReadU64")
    own = LitFn(lambda a, pol: a[0] == "eq" and pol is True and sid(a[1]) and (a[2] == ("int", 0) or mentionsField(a[2], "sessionId")) or
                a[0] == "eq" and pol is True and sid(a[2]) and mentionsField(a[1], "sessionId"), {"pckReadU64"}, "it is for this session")
    stored = LitFn(lambda a, pol: a[0] == "eq" and pol is False and a[2] == ("int", 0) and a[1] == ("fld", ("p", 0), "stored") or
                   a[0] == "eq" and pol is False and a[2] == ("int", 0) and lastField(a[1]) == "stored" and any(x == ("p", 0) for x in walkTerm(a[1])) and not hasCall(a[1], "lstGet"), {"stored"}, "it was stored for this session")
    free = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and lastField(a[1]) == "stored" and hasCall(a[1], "lstGet"), {"stored"}, "nothing is stored")
    f = A.flow(F, {"put": "=.packRead", "find": "protocolClientSessionFindIdx()", "idle": "=.state"},
               {"good": good, "nerr": nerr, "own": own, "stored": stored, "free": free}, sticky=("good", "nerr", "own", "stored"), noInline=("protocolClientSessionFindIdx", "protocolClientStateExpectIdle"), trackRet=True)
    R = "what is returned to the caller of a request is a response and no error"
    for (st, ret), node in f.exits.items():
        A.ok(R, A.loc(F))
        if not has(st, "good"):
            A.bad(R, A.loc(F), "other messages are returned", f.ex.trace(node))
    R = "a request gets its own response"
    for (st, ret), node in f.exits.items():
        A.ok(R, A.loc(F))
        if not has(st, "own") and not has(st, "stored"):
            A.bad(R, A.loc(F), "a response of another session is returned", f.ex.trace(node))
    R = "a response is kept for the session it belongs to, none is overwritten"
    A.guard(f, "put", ["free"], R)
    v = View(A, F, noInline=("protocolClientSessionFindIdx",))
    for s in v.assigns(None, "packRead"):
        A.ok(R, s.where)
        if not hasCall(s.args[0], "pckReadPackRead"):
            A.bad(R, s.where, "%s is kept" % fmt(s.args[0])[:80])
    fi = v.calls("protocolClientSessionFindIdx")
    for s in fi:
        A.ok(R, s.where)
        if not hasCall(s.args[1], "pckReadU64"):
            A.bad(R, s.where, "the session is %s" % fmt(s.args[1])[:80])
    for n in ("type", "close", "packRead"):
        ws = v.assigns(None, n)
        if n != "close" or ws:
            follow(A, v, fi, ws, R, "the %s of a response for another session is forgotten" % n, to=[exitOf(v)] + v.calls("pckReadNewIo"))
    R = "a response is kept for the session it belongs to, none is overwritten"
    f = A.flow("protocolClientSessionFindIdx", {}, {"eq": LitFn(lambda a, pol: a[0] == "eq" and pol is True and {lastField(a[1]), lastField(a[2])} & {"sessionId"} and ("p", 1) in a[1:3], {"sessionId"}, "same id")}, sticky=("eq",), trackRet=True)
    for (st, ret), node in f.exits.items():
        A.ok(R, A.loc("protocolClientSessionFindIdx"))
        if not has(st, "eq"):
            A.bad(R, A.loc("protocolClientSessionFindIdx"), "another session is found", f.ex.trace(node))


def p_error(A):
    R = "an error of the other side is raised with its code and message"
    err = A.prog.enum("protocolMessageTypeError")
    F = "protocolClientError"
    v = View(A, F)
    th = [s for s in v.calls("errorInternalThrow", "errorInternalThrowFmt") if hasCall(s.args[0], "errorTypeFromCode")]
    A.ok(R, A.loc(F), 3)
    if not th:
        A.bad(R, A.loc(F), "no error is raised")
        return
    nerr = relLit(("!=",), lambda t: t == ("p", 1), lambda y: y == ("int", err), set(), "no error")
    follow(A, v, [entryOf(v)], [], R, "an error is ignored", [nerr])
    for s in th:
        c = callOf(s.args[0], "errorTypeFromCode")
        if not hasCall(c[2][0], "pckReadI32"):
            A.bad(R, s.where, "the code is %s" % fmt(c[2][0])[:60])
        if not any(hasCall(x, "pckReadStr") for x in s.args[4:]):
            A.bad(R, s.where, "the message is %s" % fmt(s.args[4])[:60])
    v = View(A, "protocolServerError", noInline=("protocolServerResponse",))
    for n, i in (("pckWriteI32", 1), ("pckWriteStr", 2)):
        ws = v.calls(n)
        A.ok(R, A.loc("protocolServerError"))
        if not ws or ws[0].args[1] != ("p", i):
            A.bad(R, A.loc("protocolServerError"), "the %s is not sent" % ("code" if i == 1 else "message"))
        follow(A, v, [entryOf(v)], [s for s in ws if s.args[1] == ("p", i)], R, "the %s is not sent" % ("code" if i == 1 else "message"))
    rs = v.calls("protocolServerResponse")
    follow(A, v, [entryOf(v)], rs, R, "nothing is sent")
    for s in rs:
        A.ok(R, s.where)
        if structArg(s.args[1], "type") != ("int", err):
            A.bad(R, s.where, "it is not sent as an error")
    v = View(A, "protocolServerResponse")
    R = "a response is sent with the session and type it has"
    ws = {"pckWriteU64": lambda t: lastField(t) == "sessionId", "pckWriteU32": lambda t: lastField(t) == "type", "pckWriteBool": lambda t: lastField(t) == "close"}
    for n, ok in ws.items():
        cs = v.calls(n)
        A.ok(R, A.loc("protocolServerResponse"))
        if not any(ok(s.args[1]) for s in cs):
            A.bad(R, A.loc("protocolServerResponse"), "sent as %s" % ", ".join(fmt(s.args[1])[:60] for s in cs))
        else:
            follow(A, v, [entryOf(v)], cs, R, "it is not sent")
    follow(A, v, [entryOf(v)], v.calls("ioWriteFlush"), R, "it is not sent at once")
    v = View(A, "protocolClientRequestInternal")
    follow(A, v, [entryOf(v)], v.calls("ioWriteFlush"), "a request is sent at once", "it stays in the buffer")
    R = "a request is sent with the command and session it is for"
    for n, fld in (("pckWriteStrId", "command"), ("pckWriteU64", "sessionId")):
        A.ok(R, A.loc("protocolClientRequestInternal"))
        if not any(lastField(s.args[1]) == fld for s in v.calls(n)):
            A.bad(R, A.loc("protocolClientRequestInternal"), "the %s is not sent" % fld)
    idle = A.prog.enum("protocolClientStateIdle")
    R = "no request is sent while another one is being sent or received"
    isIdle = relLit(("==",), lambda t: lastField(t) == "state", lambda y: y == ("int", idle), {"state"}, "idle")
    for F in ("protocolClientRequestInternal", "protocolClientResponseInternal"):
        v = View(A, F)
        op = v.calls("pckWriteNewIo", "pckReadNewIo")
        for s in op:
            path = v.escape([entryOf(v).gid], [s.gid], [], [isIdle])
            A.ok(R, s.where)
            if path is not None:
                A.bad(R, s.where, "the state is not looked at", path[-10:])


def p_server(A):
    F = "protocolServerProcess"
    H = "ProtocolServerHandler."
    cmd = LitFn(lambda a, pol: a[0] == "eq" and pol is True and {lastField(a[1]), lastField(a[2])} == {"id", "command"}, {"id", "command"}, "the handler of the command")
    same = LitFn(lambda a, pol: a[0] == "eq" and pol is True and {lastField(a[1]), lastField(a[2])} == {"id", "sessionId"}, {"id", "sessionId"}, "the session of the request")
    noses = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and lastField(a[1]) == "sessionRequired", {"sessionRequired"}, "no session")
    ex = strId5("exit")
    isExit = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", ex) and lastField(a[1]) == "id", {"id"}, "exit")
    leaf = ("protocolServerRequest", "protocolServerResponse", "protocolServerError")
    f = A.flow(F, {"req": "protocolServerRequest()", "open": H + "open()", "proc": H + "process()", "procs": H + "processSession()", "close": H + "close()", "rm": "lstRemoveIdx(.sessionList)"},
               {"cmd": cmd, "same": same, "noses": noses}, sticky=("cmd", "same", "noses"), kill={"req": ["cmd", "same", "noses"]}, noInline=leaf)
    R = "a request is handled by the handler of its command"
    for l in ("open", "proc", "procs", "close"):
        A.guard(f, l, ["cmd"], R)
    R = "a request with a session gets the data of that session"
    for l in ("procs", "close", "rm"):
        A.guard(f, l, [["same", "noses"]], R)
    f = A.flow(F, {"req": "protocolServerRequest()", "resp": "protocolServerResponse()", "err": "protocolServerError()", "caught": "errorInternalCatch()", "try": "errorInternalTryBegin()"},
               {"exit": isExit}, sticky=("exit",), kill={"req": ["resp", "err", "exit", "caught"], "try": ["caught"]}, noInline=leaf)
    R = "every request is answered before the next one is read"
    A.guard(f, "req", [lambda st: not has(st, "req") or has(st, "resp") or has(st, "err")], R)
    for (st, ret), node in f.exits.items():
        A.ok(R, A.loc(F))
        if not has(st, "exit"):
            A.bad(R, A.loc(F), "it ends without being told to", f.ex.trace(node))
    R = "an error of a handler is sent to the client"
    if not f.sites("err"):
        A.bad(R, A.loc(F), "errors are not sent")
    A.guard(f, "resp", [lambda st: not has(st, "caught")], R)
    A.argIs(f, "err", 1, lambda t: hasCall(t, "errRetryType", "errorCode", "errorTypeCode"), R, "the code is", min=0)
    A.argIs(f, "err", 2, lambda t: hasCall(t, "errRetryMessage", "errorMessage"), R, "the message is", min=0)


def p_helper(A):
    R = "a process or connection is used again only for the same purpose, host and process"
    F = "protocolHelperClientGet"
    names = ("type", "storageType", "hostIdx", "processId")
    lits = {n: LitFn(lambda a, pol, n=n, i=i: a[0] == "eq" and pol is True and (lastField(a[1]) == n and a[2] == ("p", i) or lastField(a[2]) == n and a[1] == ("p", i)), {n}, "same " + n) for i, n in enumerate(names)}
    f = A.flow(F, {"get": "lstGet()"}, lits, trackRet=True, sticky=names, kill={"get": list(names)})
    A.retGuard(f, lambda t: t != ("int", 0), list(names), R, "a client")
    for F, t, k in (("protocolLocalGet", "protocolClientLocal", 0), ("protocolRemoteGet", "protocolClientRemote", 0)):
        v = View(A, F, noInline=("protocolHelperClientGet", "protocolLocalExec", "protocolRemoteExec"))
        g = v.calls("protocolHelperClientGet")
        for s in g:
            A.ok(R, s.where, 4)
            if s.args[0] != ("int", A.prog.enum(t)) or s.args[1] != ("p", 0) or s.args[2] != ("p", 1):
                A.bad(R, s.where, "looked up by %s" % ", ".join(fmt(x)[:40] for x in s.args))
            for n, i in (("type", 0), ("storageType", 1), ("hostIdx", 2), ("processId", 3)):
                for w in v.inits("ProtocolHelperClient", n):
                    A.ok(R, w.where)
                    if w.args[0] != s.args[i]:
                        A.bad(R, w.where, "%s is remembered as %s" % (n, fmt(w.args[0])[:60]))
        for s in v.calls("protocolLocalExec", "protocolRemoteExec"):
            A.ok(R, s.where)
            if s.args[1] != ("p", 0) or s.args[2] != ("p", 1):
                A.bad(R, s.where, "started for %s" % ", ".join(fmt(x)[:40] for x in s.args[1:3]))
    R = "a remote works on the host that belongs to the repository or cluster"
    for F, typ, loc in (("storageRepoGet", "protocolStorageTypeRepo", "repoIsLocal"), ("storagePgGet", "protocolStorageTypePg", "pgIsLocal")):
        v = View(A, F)
        rs = v.calls("protocolRemoteGet")
        for s in rs:
            A.ok(R, s.where, 2)
            if s.args[0] != ("int", A.prog.enum(typ)) or s.args[1] != ("p", 0):
                A.bad(R, s.where, "the remote is that of %s" % ", ".join(fmt(x)[:40] for x in s.args[:2]))
        follow(A, v, [entryOf(v)], rs, R, "the local host is used although another one is configured", [call(loc, 1, lambda t: t[2][0] == ("p", 0))])
        precede(A, v, [], rs, R, "another host is used although none is configured", [call(loc, 0, lambda t: t[2][0] == ("p", 0))])
