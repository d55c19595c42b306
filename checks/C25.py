"""Parallel processes: every job is run and its result or its error reaches the command."""
from flow import LitFn, has
from lib import View, alts, callOf, countsFromZero, entryOf, exitOf, fieldLit, follow, hasCall, mentionsField, precede, relLit, structArg
from graph import fmt, walkTerm
from C16 import call

ASSUME = ["select() reports a descriptor as readable when a response or the end of the connection is there"]
CB = "ProtocolParallel.callbackFunction"


def isCode(t):
    return t[0] == "call" and t[1] == "protocolParallelJobErrorCode" or t[0] == "fld" and t[2] == "code"


def users(A):
    """The functions that run jobs: those that call protocolParallelProcess()."""
    return sorted(A.prog.callers().get("protocolParallelProcess", ()))


def p_users(A):
    code = LitFn(lambda a, pol: a[0] == "eq" and pol is False and a[2] == ("int", 0) and isCode(a[1]), {"protocolParallelJobErrorCode", "code"}, "the job failed")
    good = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and isCode(a[1]), {"protocolParallelJobErrorCode", "code"}, "the job did not fail")
    us = users(A)
    if len(us) < 5:
        A.unsure("only %s run jobs" % us)
    for fn in us:
        f = A.flow(fn, {"proc": "protocolParallelProcess()", "get": "protocolParallelResult()", "use": "protocolParallelJobResult()", "done": "protocolParallelDone()",
                        "rep": "archiveAsyncStatusErrorWrite()", "cnt": "=.jobErrorTotal", "ok": ("archiveAsyncStatusOkWrite()", lambda ctx: hasCall(ctx.arg(1), "protocolParallelJobKey") or mentionsField(ctx.arg(1), "key"))},
                   {"err": code, "good": good}, once=True, sticky=("err", "good"),
                   kill={"get": ["err", "good", "rep", "cnt"]})
        R = "the result of a job is used only if the job did not fail"
        A.guard(f, "use", ["good"], R, min=0)
        if f.sites("ok"):
            A.guard(f, "ok", ["good"], R, min=0)
        R = "the error of a job reaches the command"
        # a job whose error code was never looked at
        for lab in ("get", "done"):
            A.guard(f, lab, [lambda st: not has(st, "err") or has(st, "rep") or has(st, "cnt")], R)
        A.atLeast(f, "proc", 1)
        R = "the result of every finished job is fetched"
        v = View(A, fn, noInline=("protocolParallelResult", "protocolParallelDone"))
        follow(A, v, v.calls("protocolParallelProcess"), [], "a command ends only when all of its jobs are done", "it ends while jobs may be running", [call("protocolParallelDone", 1)])
        got = v.calls("protocolParallelResult")
        if not got:
            A.bad(R, A.loc(fn), "results are not fetched")
        fetched(A, v, got, R)


def fetched(A, v, got, R):
    from lib import rel
    # the number of fetches is the number of finished jobs: the loop runs from zero while less than that
    n = 0
    for s in got:
        cs = [c for c in s.conds if any(hasCall(x, "protocolParallelProcess") for x in c[0][1:] if isinstance(x, tuple))]
        for a, pol in cs:
            r = rel(a, pol)
            if r is None:
                continue
            n += 1
            x, op, y = r
            if hasCall(x, "protocolParallelProcess"):
                from lib import FLIP
                op, x, y = FLIP[op], y, x
            A.ok(R, s.where)
            if y[0] != "call" and y[0] != "phi":
                A.bad(R, s.where, "up to %s" % fmt(y)[:80])
            elif op in ("<", "!=") and not countsFromZero(x):
                A.bad(R, s.where, "the first result is left out")
            elif op not in ("<", "!=", ">"):
                A.bad(R, s.where, "fetched while %s %s %s" % (fmt(x)[:40], op, fmt(y)[:40]))
    if not n:
        A.unsure("%s: loop over results not recognised" % v.entry)


def p_executor(A):
    F = "protocolParallelProcess"
    done, run = A.prog.enum("protocolParallelJobStateDone"), A.prog.enum("protocolParallelJobStateRunning")
    f = A.flow(F, {"resp": "protocolClientSessionResponse()", "err": "protocolParallelJobErrorSet()", "res": "protocolParallelJobResultSet()",
                   "done": ("protocolParallelJobStateSet()", lambda ctx: ctx.arg(1) == ("int", done)), "run": ("protocolParallelJobStateSet()", lambda ctx: ctx.arg(1) == ("int", run)),
                   "req": "protocolClientSessionRequestAsync()", "caught": "errorInternalCatch()", "add": "lstAdd(.jobList)", "cb": CB + "()", "job": "=.job", "ses": "=.session"},
               {}, kill={"resp": ["err", "res", "caught"], "cb": ["add", "req", "job", "ses"]},
               trackArgs={"protocolParallelJobErrorSet": [0, 1, 2]})
    R = "a job is done when it has a result or an error"
    A.atLeast(f, "resp", 1)
    A.guard(f, "done", [lambda st: has(st, "err") if has(st, "caught") else has(st, "res") or has(st, "err")], R)
    R = "the error of a job is kept as it was raised"
    if not f.sites("err"):
        A.bad(R, A.loc(F), "errors of jobs are not kept")
    A.argIs(f, "err", 1, lambda t: hasCall(t, "errorCode", "errorTypeCode"), R, "the code is", min=0)
    A.argIs(f, "err", 2, lambda t: hasCall(t, "errorMessage"), R, "the message is", min=0)
    A.argIs(f, "err", 0, lambda t: mentionsField(t, "job"), R, "it is kept for", min=0)
    R = "a started job is kept until it is done"
    A.guard(f, "req", ["add"], R)

    v = View(A, F)
    free = relNull("job", True)
    cb = v.calls(CB)
    R = "a process gets a new job only when it has none"
    if not cb:
        A.unsure("callback not found")
    for s in cb:
        A.ok(R, s.where)
        if not any(free(a, p) for a, p in s.conds):
            A.bad(R, s.where, "it may still run another job")
    R = "a job is sent with its own command and parameters, and its response is its own"
    for s in v.calls("protocolClientSessionNew"):
        A.ok(R, s.where, 2)
        c = callOf(s.args[1], "protocolParallelJobCommand")
        if not (c is not None and hasCall(c, CB)) and not mentionsField(s.args[1], "command"):
            A.bad(R, s.where, "the command is %s" % fmt(s.args[1])[:100])
        if structArg(s.args[2], "async") != ("int", 1):
            A.bad(R, s.where, "the session does not take the response of this job only")
    for s in v.calls("protocolClientSessionRequestAsync"):
        A.ok(R, s.where)
        t = structArg(s.args[1], "param")
        if t is None or not hasCall(t, "protocolParallelJobParam") and not mentionsField(t, "param"):
            A.bad(R, s.where, "the parameters are %s" % fmt(s.args[1])[:100])
    sess = v.calls("protocolClientSessionNew")
    req = v.calls("protocolClientSessionRequestAsync")
    for s in v.calls("protocolParallelJobResultSet"):
        A.ok(R, s.where)
        if not hasCall(s.args[1], "protocolClientSessionResponse") or not mentionsField(s.args[0], "job"):
            A.bad(R, s.where, "the result is %s" % fmt(s.args[1])[:100])
    R = "a started job is kept until it is done"
    for fld in ("job", "session"):
        w = [x for x in v.inits("ProtocolParallelJobData", fld) if x.args[-1] != ("int", 0)]
        if not w:
            A.bad(R, A.loc(F), "the %s is not kept" % fld)
        else:
            follow(A, v, req, w, R, "the %s is forgotten" % fld)
    w = [x for x in v.inits("ProtocolParallelJobData", "job") if x.args[-1] == ("int", 0)]
    d = [s for s in v.calls("protocolParallelJobStateSet") if s.args[1] == ("int", done)]
    follow(A, v, v.calls("protocolParallelJobResultSet"), w, R, "the process stays occupied", to=[exitOf(v)] + cb)
    follow(A, v, v.calls("protocolParallelJobResultSet"), d, R, "the job is never done", to=[exitOf(v)] + cb)
    R = "every process gets its response read and its next job"
    for s in v.calls("protocolClientSessionResponse") + cb:
        A.ok(R, s.where)
        for a, p in s.conds:
            from lib import rel
            r = rel(a, p)
            if r and r[1] in ("<", "!=", ">") and any(x[0] == "call" and x[1] == "lstSize" for x in (r[0], r[2])):
                i = r[0] if r[2][0] == "call" else r[2]
                if not countsFromZero(i) and i[0] not in ("hav",):
                    A.bad(R, s.where, "the first process is left out")


def relNull(field, null):
    return LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is null and mentionsField(a[1], field), {field}, field)


def p_result(A):
    done = A.prog.enum("protocolParallelJobStateDone")
    isDone = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", done) and (hasCall(a[1], "protocolParallelJobState") or mentionsField(a[1], "state")), {"state", "protocolParallelJobState"}, "done")
    f = A.flow("protocolParallelResult", {"rm": "lstRemoveIdx(.jobList)"}, {"d": isDone}, sticky=("d",), trackRet=True)
    R = "only finished jobs are handed out, each once"
    A.retGuard(f, lambda t: t != ("int", 0), ["d"], R, "the job")
    A.retGuard(f, lambda t: t != ("int", 0), ["rm"], R, "the job stays in the list:")
    A.guard(f, "rm", ["d"], R)
    v = View(A, "protocolParallelResult")
    for s in v.calls("lstRemoveIdx"):
        g = [x for x in v.calls("lstGet")]
        A.ok(R, s.where)
        if g and not any(x.args[1] == s.args[1] for x in g):
            A.bad(R, s.where, "another job is removed than the one handed out")
        if g and not all(countsFromZero(x.args[1]) for x in g):
            A.bad(R, s.where, "the first job is never handed out")
    R = "done means that no job is left"
    f = A.flow("protocolParallelDone", {"set": "=.state"}, {"e": LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and (pol is True and a[1][0] == "call" and a[1][1] == "lstSize" or pol is False and a[1][0] == "call" and a[1][1] == "lstEmpty") and mentionsField(a[1], "jobList"), {"lstSize", "lstEmpty"}, "no job is left"),
              "was": isDone}, sticky=("e", "was"), trackRet=True)
    A.guard(f, "set", ["e"], R, min=0)
    A.retGuard(f, lambda t: t != ("int", 0) and not mentionsField(t, "state"), [["e", "was"]], R, "true")
    R = "the error of a job is kept as it was raised"
    v = View(A, "protocolParallelJobErrorSet")
    for fld, i in (("code", 1), ("message", 2)):
        w = v.assigns(None, fld)
        A.ok(R, A.loc("protocolParallelJobErrorSet"))
        if not w:
            A.bad(R, A.loc("protocolParallelJobErrorSet"), "the %s is not kept" % fld)
        for x in w:
            if not all(t == ("p", i) or t[0] == "call" and t[2] and t[2][0] == ("p", i) for t, _ in alts(x.args[-1])):
                A.bad(R, x.where, "the %s is %s" % (fld, fmt(x.args[-1])[:60]))
        follow(A, v, [entryOf(v)], w, R, "the %s is not kept" % fld)
