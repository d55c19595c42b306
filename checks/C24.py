"""Locks: commands that exclude one another never run at the same time."""
from flow import LitFn, has, maybeTrue, maybeFalse
from lib import View, alts, callOf, countsFromZero, exitOf, fieldLit, follow, hasCall, mentionsField, precede, relLit, strs, structArg
from graph import fmt, walkTerm
from C16 import call
from C21 import opt

ASSUME = ["flock() locks work on the file system of the lock path"]
LOCK = {"annotate": "Backup", "backup": "Backup", "expire": "Backup", "restore": "Restore", "stanza-create": "All", "stanza-delete": "All", "stanza-upgrade": "All", "archive-push": "Archive", "archive-get": "Archive"}
ALWAYS = {"annotate", "backup", "expire", "restore", "stanza-create", "stanza-delete", "stanza-upgrade"}
REMOTE = {"annotate", "archive-push", "backup", "expire", "stanza-create", "stanza-delete", "stanza-upgrade"}


def at(e, v):
    e.where = v.entry
    return e


def special(t):
    """the descriptor that stands for a lock of the process that started this one"""
    return t[0] == "int" and int(t[1]) < -1


def p_table(A):
    R = "commands that change the same things share a lock"
    g = A.prog.gvars.get("parseRuleCommand")
    seen = set()
    for e in g["init"][1]:
        f = e[2]
        name = f["name"][1]
        if name not in LOCK:
            continue
        seen.add(name)
        A.ok(R, "parseRuleCommand[%s]" % name, 3)
        num = lambda k: f[k][-1] if k in f else 0
        want = A.prog.enum("lockType" + LOCK[name])
        if num("lockType") != want:
            A.bad(R, "config/parse.auto.c.inc (parseRuleCommand)", "%s takes lock type %s" % (name, num("lockType")))
        if name in ALWAYS and not num("lockRequired"):
            A.bad(R, "config/parse.auto.c.inc (parseRuleCommand)", "%s takes no lock" % name)
        if name in REMOTE and not num("lockRemoteRequired"):
            A.bad(R, "config/parse.auto.c.inc (parseRuleCommand)", "%s takes no lock on the repository host" % name)
    for n in LOCK:
        if n not in seen:
            A.unsure("command %s not found" % n)


def p_start(A):
    R = "a command holds its lock before it starts"
    v = View(A, "cfgLoad", noInline=("cfgLockRequired", "cfgLockType", "cmdLockAcquire", "cfgLoadUpdateOption", "cfgParse", "cmdBegin", "lockInit", "cfgLoadLogFile"))
    acq = v.calls("cmdLockAcquire")
    none = A.prog.enum("lockTypeNone")
    skip = [LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[1][0] == "call" and a[1][1] == "cfgLockType" and a[2] == ("int", none), {"cfgLockType"}, "no lock type"),
            call("cfgLockRequired", 0), call("cfgCommandHelp", 1), call("cfgCommandHelp", 1)]
    beg = v.calls("cmdBegin")
    if not acq:
        A.bad(R, A.loc("cfgLoad"), "no lock is acquired")
        return
    follow(A, v, beg, acq, R, "the command starts without its lock", skip)
    for s in acq:
        A.ok(R, s.where)
        if structArg(s.args[0], "returnOnNoLock") not in (None, ("int", 0)):
            A.bad(R, s.where, "the result is ignored")
    main, asy = A.prog.enum("cfgCmdRoleMain"), A.prog.enum("cfgCmdRoleAsync")
    role = lambda val: LitFn(lambda a, pol: a[0] == "eq" and a[1][0] == "call" and a[1][1] == "cfgCommandRole" and a[2] == ("int", val) and pol is True, {"cfgCommandRole"}, "role %d" % val)
    notRole = lambda val: LitFn(lambda a, pol: a[0] == "eq" and a[1][0] == "call" and a[1][1] == "cfgCommandRole" and a[2] == ("int", val) and pol is False, {"cfgCommandRole"}, "not role %d" % val)
    f = A.flow("cfgLockRequired", {}, {"m": role(main), "a": role(asy), "nm": notRole(main), "na": notRole(asy), "r": fieldLit("lockRequired", 1), "nr": fieldLit("lockRequired", 0)}, trackRet=True)
    for (st, t), _ in f.exits.items():
        if t is None:
            continue
        for r in (main, asy):
            for req in (0, 1):
                if r == main and (has(st, "nm") or has(st, "a")) or r == asy and (has(st, "na") or has(st, "m")) or req and has(st, "nr") or not req and has(st, "r"):
                    continue
                x = num(t, {"cfgCommandRole": r, ".lockRequired": req})
                A.ok(R, "cfgLockRequired")
                if x is None:
                    A.unsure("cfgLockRequired: %s" % fmt(t)[:100])
                elif bool(x) != bool(req or r == asy):
                    A.bad(R, A.loc("cfgLockRequired"), "a lock is %srequired in the %s role of a command that %s one" % ("" if x else "not ", "main" if r == main else "async", "needs" if req else "does not need"))
    # remote
    v = View(A, "cmdRemote", noInline=("lockStopTest", "cmdLockAcquire"))
    notReq = [call("cfgLockRemoteRequired", 0), LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "cfgOptionUInt" and opt(A, a[1], "cfgOptProcess"), {"cfgOptionUInt"}, "process > 0")]
    R = "the first remote of a command holds the lock on the repository host"
    acq = v.calls("cmdLockAcquire")
    if not acq:
        A.bad(R, A.loc("cmdRemote"), "no lock is acquired")
    precede(A, v, acq, v.calls("protocolServerResponse", "protocolServerProcess"), R, "the remote serves without lock", notReq)
    for s in acq:
        A.ok(R, s.where)
        if structArg(s.args[0], "returnOnNoLock") not in (None, ("int", 0)):
            A.bad(R, s.where, "the result is ignored")
    R = "only one asynchronous process works on a queue"
    for c in ("cmdArchivePush", "cmdArchiveGet"):
        v = View(A, c, noInline=("cmdLockAcquire",))
        ex = v.calls("cmdAsyncExec")
        precede(A, v, [], ex, R, "an asynchronous process is started without the lock", [call("cmdLockAcquire", 1)])


def p_acquire(A):
    own = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strEq" and hasCall(a[1], "lockReadData", "lockExecId") | mentionsField(a[1], "execId"), {"strEq"}, "own exec id")
    fl = lambda pol0, v: LitFn(lambda a, pol: a[0] == "eq" and a[1][0] == "call" and a[1][1] == "flock" and (a[2] == ("int", -1) and pol is pol0 or a[2] == ("int", 0) and pol is (not pol0)), {"flock"}, v)
    ew = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 11), {"__errno_location"}, "held by another process")
    f = A.flow("lockAcquire", {"add": "lstAdd()", "flock": "flock()", "write": "lockWrite()"},
               {"got": fl(False, "flock worked"), "busy": fl(True, "flock failed"), "own": own, "would": ew, "held": call("lstFind", 1), "free": call("lstFind", 0),
                "wait": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "returnOnNoLock"), {"returnOnNoLock"}, "may return")},
               kill={"flock": {"got", "busy", "own", "would"}}, trackRet=True, sticky={"got", "own", "would"}, noInline=("lockReadData", "lockWrite"), stop=("lockReadData", "lockWrite"))
    A.retGuard(f, maybeTrue, [["got", "own"], "add"], "a lock counts as acquired only if the file is locked", "true")
    A.retGuard(f, maybeFalse, ["wait"], "a lock that cannot be acquired is an error unless the caller asked to be told", "false")
    A.retGuard(f, maybeFalse, [lambda st: not has(st, "got")], "a lock counts as acquired only if the file is locked", "false")
    A.guard(f, "add", [["got", "own"]], "a lock is recorded only when it is held")
    R = "the lock is exclusive and not waited for"
    A.argIs(f, "flock", 1, lambda t: t[0] == "int" and int(t[1]) == 6, R, "LOCK_EX | LOCK_NB")
    A.argIs(f, "flock", 0, lambda t: hasCall(t, "open"), R, "the file opened")
    v = View(A, "lockAcquire", noInline=("lockReadData", "lockWrite"))
    R = "a process does not acquire a lock twice"
    precede(A, v, [], v.calls("open"), R, "it may hold the lock", [call("lstFind", 0)])
    R = "the holder of a lock is on record"
    add = v.calls("lstAdd")
    isExec = LitFn(lambda a, pol: pol is True and a[0] == "eq" and special(a[2]), {"flock", "open"}, "held by the main process")
    follow(A, v, add, v.calls("lockWrite"), R, "the lock is not written", [isExec])
    R = "a lock that was not acquired is closed"
    op = v.calls("open")
    for s in op:
        A.ok(R, s.where)
        if s.args[1][0] == "int" and not int(s.args[1][1]) & 0o100:
            A.bad(R, s.where, "a missing lock file is not created")
        if s.args[1][0] == "int" and int(s.args[1][1]) & 0o1000:
            A.bad(R, s.where, "the lock file of another process is truncated")


def p_release(A):
    v = View(A, "lockRelease")
    R = "a lock file is removed while it is still locked"
    rem, cl = v.calls("storageRemove", "unlink"), v.calls("close")
    if not rem or not cl:
        A.bad(R, A.loc("lockRelease"), "the lock is not %s" % ("removed" if not rem else "closed"))
        return
    precede(A, v, rem, cl, R, "the file is unlocked before it is removed")
    for r in rem:
        path = v.escape([c.gid for c in cl], [r.gid], [x.gid for x in v.calls("lstGet", "lstRemoveIdx")], [])
        A.ok(R, r.where)
        if path is not None:
            A.bad(R, r.where, "a file is removed after it was unlocked")
    R = "the lock of the main process is not released by its remote"
    isExec = LitFn(lambda a, pol: pol is False and a[0] == "eq" and special(a[2]) and mentionsField(a[1], "fd"), {"fd"}, "own lock")
    precede(A, v, [], rem + cl, R, "a lock of another process is released", [isExec])
    R = "all locks are released"
    f = A.flow("lockRelease", {"get": "lstGet()", "gone": "storageRemove()"}, {"empty": LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and (a[1][1] == "lstSize" and pol is True or a[1][1] == "lstEmpty" and pol is False), {"lstSize", "lstEmpty"}, "no lock is left")}, kill={"get": {"empty"}})
    A.must(f, "empty", R)
    v = View(A, "lockRead")
    R = "a lock counts as held only if the file is locked and its content valid"
    fr = LitFn(lambda a, pol: a[0] == "eq" and a[1][0] == "call" and a[1][1] == "flock" and a[2] == ("int", 0) and pol is False or a[0] == "eq" and a[1][0] == "call" and a[1][1] == "flock" and a[2] == ("int", -1) and pol is True, {"flock"}, "locked")
    precede(A, v, [], v.calls("lockReadData"), R, "the content is used although the file is not locked", [fr])
    for s in v.calls("flock"):
        A.ok(R, s.where)
        if s.args[1] != ("int", 6):
            A.bad(R, s.where, "flock(%s)" % fmt(s.args[1]))
    unl = v.calls("unlink", "storageRemove")
    R = "a lock file is removed while it is still locked"
    for r in unl:
        path = v.escape([c.gid for c in v.calls("close")], [r.gid], [], [])
        A.ok(R, r.where)
        if path is not None:
            A.bad(R, r.where, "a file is removed after it was unlocked")


def p_status(A):
    R = "a lock counts as held only if the file is locked and its content valid"
    e = A.prog.enum
    fr = LitFn(lambda a, pol: a[0] == "eq" and a[1][0] == "call" and a[1][1] == "flock" and (a[2] == ("int", 0) and pol is False or a[2] == ("int", -1) and pol is True), {"flock"}, "locked")
    f = A.flow("lockRead", {"data": "lockReadData()"}, {"locked": fr}, trackRet=True, noInline=("lockReadData",), sticky={"locked"})
    def status(t):
        s = structArg(t, "status")
        return s
    A.retGuard(f, lambda t: status(t) is not None and status(t) in (("int", e("lockReadStatusValid")),), ["locked", "data"], R, "valid")
    for (st, r), _ in f.exits.items():
        if r is not None and status(r) == ("int", e("lockReadStatusValid")):
            A.ok(R, "lockRead")
            d = structArg(r, "data")
            if d is None or not hasCall(d, "lockReadData"):
                A.bad(R, A.loc("lockRead"), "valid although the content could not be read")
    n = [status(r) for (st, r), _ in f.exits.items() if r is not None]
    if not any(x == ("int", e("lockReadStatusValid")) for x in n):
        A.unsure("lockRead: status %s" % [fmt(x) if x else x for x in n][:4])


def p_all(A):
    R = "a command runs only with all of its locks"
    got = lambda val: call("lockAcquire", val)
    f = A.flow("cmdLockAcquire", {"acq": "lockAcquire()", "rel": "lockRelease()"}, {"yes": got(1), "no": got(0)}, trackRet=True, noInline=("lockAcquire", "lockRelease", "cmdLockList"), stop=("lockAcquire", "lockRelease"), once=True)
    v = View(A, "cmdLockAcquire", noInline=("lockAcquire", "lockRelease", "cmdLockList"))
    acq = v.calls("lockAcquire")
    if not acq:
        A.bad(R, A.loc("cmdLockAcquire"), "no lock is acquired")
        return
    # every result is looked at before the next lock is tried, or can be seen in what is returned
    for s in acq:
        A.ok(R, s.where)
        if not countsFromZero(s.args[0][2][1] if s.args[0][0] == "call" and s.args[0][1] == "strLstGet" else ("int", 0)):
            A.bad(R, s.where, "the first lock is left out")
        if ("p", 0) != s.args[1]:
            A.bad(R, s.where, "acquired with %s" % fmt(s.args[1])[:60])
        path = v.escape([s.gid], [s.gid], [], litPats(A, [got(1)]))
        if path is not None:
            A.bad(R, s.where, "the next lock is tried without looking at the result", path[-10:])
    follow(A, v, acq, v.calls("lockRelease"), "locks are released when not all of them can be acquired", "some locks are kept", [got(1)])
    R = "a command runs only with all of its locks"
    isCall = lambda t: t[0] == "call" and t[1] == "lockAcquire"
    for pred, need, what in ((maybeTrue, lambda st: not has(st, "no"), "true"), (maybeFalse, ["no"], "false")):
        other = lambda t, pred=pred: pred(t) and not isCall(t)
        if any(r is not None and other(r) for (st, r), _ in f.exits.items()):
            A.retGuard(f, other, [need], R, what)
    R = "the locks a command holds are released at its end"
    for s in v.assigns(None, "held"):
        A.ok(R, s.where)
    v = View(A, "exitSafe", noInline=("cmdLockRelease",))
    rel = v.calls("cmdLockRelease")
    if not rel:
        A.bad(R, A.loc("exitSafe"), "locks are not released")
    v = View(A, "cmdLockRelease", noInline=("lockRelease",))
    held = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "held"), {"held"}, "nothing held")
    precede(A, v, v.calls("lockRelease"), [at(exitOf(v), v)], R, "locks are not released", [held])


def litPats(A, l):
    import lib
    return lib.litPats(A.prog, l)


def p_names(A):
    R = "lock names tell stanza, type and repository apart"
    e = A.prog.enum
    fn = "cmdLockList"
    v = View(A, fn)
    add = v.calls("strLstAdd", "strLstAddFmt", "strLstAddSub")
    for s in add:
        t = s.args[1]
        A.ok(R, s.where, 3)
        st, key = opt(A, t, "cfgOptStanza"), callOf(t, "cfgOptionGroupIdxToKey")
        if not st:
            A.bad(R, s.where, "the stanza is not part of the name")
        if key is None:
            A.bad(R, s.where, "the repository is not part of the name")
        if not any(x[0] in ("idx",) and x[1][0] == "glob" or x[0] == "glob" for x in walkTerm(t)):
            A.unsure("%s: type in %s" % (s.where, fmt(t)[:150]))
    g = A.prog.gvars.get("lockTypeName")
    if g:
        names = [x[1] for x in g["init"][1] if x and x[0] == "s"]
        A.ok(R, "lockTypeName")
        if len(set(names)) != len(names) or len(names) < e("lockTypeAll"):
            A.bad(R, A.loc(fn), "names of lock types are %s" % names)
    R = "commands that need all locks take all of them, for every repository"
    if not add:
        A.bad(R, A.loc(fn), "the list of locks is empty")
    last = e("lockTypeAll") - 1
    for s in add:
        for what, key, envs in (
                ("type", ("cfgLockType",), [({"cfgLockType": k}, (0, last) if k == last + 1 else (k, k)) for k in range(last + 2)]),
                ("repository", ("cfgOptionGroupIdxTotal", "cfgOptionGroupIdxDefault"), [({"cfgOptionTest": b, "cfgOptionGroupIdxDefault": 3, "cfgOptionGroupIdxTotal": 5}, (3, 3) if b else (0, 4)) for b in (0, 1)])):
            A.ok(R, s.where, len(envs))
            for env, (lo, hi) in envs:
                r = [x for x in (bounds(a, pol, env) for a, pol in s.conds if any(hasCall(y, *key) for y in a[1:] if isinstance(y, tuple))) if x]
                if not r:
                    A.unsure("%s: range of %s" % (s.where, what))
                elif r[0] != (lo, hi):
                    A.bad(R, s.where, "with %s the %s runs from %d to %d, not from %d to %d" % (", ".join("%s = %d" % x for x in env.items()), what, *r[0], lo, hi))


def bounds(a, pol, env):
    """(first, last) value of a counter compared with a bound in a literal that holds in the loop."""
    from lib import FLIP, rel
    r = rel(a, pol)
    if r is None:
        return None
    l, op, x = r
    if l[0] != "phi" and x[0] == "phi":
        l, op, x = x, FLIP[op], l
    if l[0] != "phi" or op not in ("<", "<="):
        return None
    lo, hi = {num(y, env) for y in l[1] if not (y[0] == "op" and y[1] == "+")}, num(x, env)
    if len(lo) != 1 or None in lo or hi is None:
        return None
    return lo.pop(), hi - (op == "<")


def num(t, env):
    if t[0] == "int":
        return int(t[1])
    if t[0] == "call":
        return env.get(t[1])
    if t[0] == "fld":
        return env.get("." + t[2])
    if t[0] in ("and", "or"):
        x, y = num(t[1], env), num(t[2], env)
        if t[0] == "and":
            return 0 if x == 0 or y == 0 else None if x is None or y is None else 1
        return 1 if x or y else None if x is None or y is None else 0
    if t[0] == "ite":
        c = num(t[1], env)
        return None if c is None else num(t[2] if c else t[3], env)
    if t[0] == "not":
        c = num(t[1], env)
        return None if c is None else int(not c)
    if t[0] in ("op", "eq", "lt"):
        op, x, y = (t[1], t[2], t[3]) if t[0] == "op" else ("==" if t[0] == "eq" else "<", t[1], t[2])
        x, y = num(x, env), num(y, env)
        if x is None or y is None:
            return None
        try:
            return {"+": x + y, "-": x - y, "==": int(x == y), "!=": int(x != y), "<": int(x < y), "<=": int(x <= y), ">": int(x > y), ">=": int(x >= y)}.get(op)
        except TypeError:
            return None
    return None
