"""stop and start: no new work begins after stop, and only the stanza in question is affected."""
from flow import LitFn, has
from lib import View, callOf, countsFromZero, entryOf, exitOf, follow, hasCall, precede, relLit, strHas, strs, mentionsField
from graph import fmt, walkTerm
from C16 import call
from C21 import opt

ASSUME = ["the lock path is the same for all commands of a host"]
CHANGE = ("storagePut", "storageNewWrite", "storageRemove", "storagePathRemove", "storagePathCreate", "storageMove", "storageLinkCreate", "infoBackupSaveFile", "infoArchiveSaveFile", "dbGet", "dbBackupStart",
          "protocolParallelProcess", "cmdAsyncExec", "archivePushFile", "archivePushCheck", "pgControlFromFile")


def isStop(t):
    return hasCall(t, "lockStopFileName") or strHas(t, ".stop")


def p_commands(A):
    R = "a command that changes the repository does not start when stopped"
    for c in ("cmdBackup", "cmdExpire", "cmdStanzaCreate", "cmdStanzaUpgrade", "cmdArchivePush", "cmdArchivePushAsync"):
        v = View(A, c, noInline=("lockStopTest",))
        t = v.calls("lockStopTest")
        if not t:
            A.bad(R, A.loc(c), "whether it was stopped is not tested")
            continue
        # clearing of old errors and the list of what is ready in the spool may come first
        eff = [s for s in v.calls(*CHANGE) if not hasCall(s.args[0], "storageSpoolWrite", "storageSpool")]
        precede(A, v, t, eff, R, "work starts before the test")
        precede(A, v, t, [at(exitOf(v), v)], R, "it ends without the test")
    v = View(A, "cmdRemote", noInline=("lockStopTest", "cmdLockAcquire"))
    e = A.prog.enum
    notReq = [call("cfgLockRemoteRequired", 0), LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "cfgOptionUInt" and opt(A, a[1], "cfgOptProcess"), {"cfgOptionUInt"}, "process > 0")]
    res = v.calls("protocolServerResponse")
    R = "a remote does not serve a command that changes the repository when stopped"
    t = v.calls("lockStopTest")
    if not t:
        A.bad(R, A.loc("cmdRemote"), "whether it was stopped is not tested")
    precede(A, v, t, res + v.calls("protocolServerProcess"), R, "it is not tested", notReq)


def at(e, v):
    e.where = v.entry
    return e


def p_test(A):
    R = "the stop file of the stanza and the one of all stanzas are honoured"
    v = View(A, "lockStopTest", noInline=("lockStopFileName",))
    ex = [at(exitOf(v), v)]
    gone = lambda pred: call("storageExists", 0, lambda t: isStop(t[2][1]) and pred(t[2][1]))
    noStanza = call("cfgOptionTest", 0, lambda t: opt(A, t, "cfgOptStanza"))
    precede(A, v, [], ex, R, "the stop file of the stanza is not looked for", [gone(lambda t: opt(A, t, "cfgOptStanza")), noStanza])
    precede(A, v, [], ex, R, "the stop file of all stanzas is not looked for", [gone(lambda t: callOf(t, "lockStopFileName") is not None and callOf(t, "lockStopFileName")[2][0] == ("int", 0))])
    for s in v.calls("storageExists"):
        A.ok(R, s.where)
        if not hasCall(s.args[0], "storageLocal", "storageLocalWrite"):
            A.bad(R, s.where, "looked for in %s" % fmt(s.args[0])[:60])
    R = "stop, start and the test use the same file"
    v = View(A, "lockStopFileName")
    fm = v.calls("strNewFmt", "strCatFmt")
    for s in fm:
        A.ok(R, s.where)
        if not any(opt(A, a, "cfgOptLockPath") for a in s.args) or not any(("p", 0) in list(walkTerm(a)) for a in s.args) or not any(strHas(a, "all") for a in s.args):
            A.bad(R, s.where, "the name is %s" % ", ".join(fmt(x)[:40] for x in s.args))
    for c in ("cmdStop", "cmdStart"):
        v = View(A, c, noInline=("lockStopFileName",))
        for s in v.calls("storageNewWrite", "storageRemove", "storageExists"):
            n = callOf(s.args[1], "lockStopFileName")
            A.ok(R, s.where)
            if n is not None and not (n[2][0][0] == "call" and n[2][0][1] in ("cfgOptionStrNull",) and opt(A, n[2][0], "cfgOptStanza")):
                A.bad(R, s.where, "the file is that of %s" % fmt(n[2][0])[:60])


def p_stop(A):
    v = View(A, "cmdStop", noInline=("lockStopFileName",))
    R = "the stop file exists before processes are terminated"
    nw = [s for s in v.calls("storageNewWrite") if isStop(s.args[1])]
    put = [s for s in v.calls("storagePut") if isStop(s.args[0])] + [s for s in v.calls("ioWriteClose", "ioWriteOpen")if any(isStop(x) for x in s.args)]
    done = [s for s in put if s.name != "ioWriteOpen"]
    kill = v.calls("kill")
    read = v.calls("lockRead")
    lst = [s for s in v.calls("storageList", "storageNewItr") if opt(A, s.args[1] if len(s.args) > 1 else s.args[0], "cfgOptLockPath")]
    have = call("storageExists", 1, lambda t: isStop(t[2][1]))
    if not nw or not done:
        A.bad(R, A.loc("cmdStop"), "no stop file is written")
    precede(A, v, done, kill + read + lst, R, "running processes are looked for before the stop file exists", [have])
    precede(A, v, done, [at(exitOf(v), v)], R, "no stop file is written", [have])
    R = "only processes are terminated that hold a lock"
    valid = A.prog.enum("lockReadStatusValid")
    ok = LitFn(lambda a, pol: a[0] == "eq" and mentionsField(a[1], "status") and a[2][0] == "int" and pol is True and int(a[2][1]) == valid, {"status"}, "valid")
    precede(A, v, [], kill, R, "the lock was not found valid", [ok])
    for s in kill:
        A.ok(R, s.where, 2)
        if not mentionsField(s.args[0], "processId"):
            A.bad(R, s.where, "the signal is sent to %s" % fmt(s.args[0])[:60])
        if s.args[1] != ("int", 15):
            A.bad(R, s.where, "the signal is %s" % fmt(s.args[1]))
    R = "stop for a stanza affects no other stanza"
    noStanza = [call("cfgOptionTest", 0, lambda t: opt(A, t, "cfgOptStanza")),
                LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] in ("ite", "phi") and opt(A, a[1], "cfgOptStanza"), {"cfgOptionTest", "strNewFmt"}, "no stanza"),
                LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "cfgOptionStrNull" and opt(A, a[1], "cfgOptStanza"), {"cfgOptionStrNull"}, "no stanza")]
    own = lambda t: opt(A, t, "cfgOptStanza")
    begins = [call("strBeginsWith", 1, lambda t: own(t[2][1])), call("strBeginsWithZ", 1, lambda t: own(t[2][1])), call("strEq", 1, own), call("strLstExists", 1, own), call("regExpMatchOne", 1, own)]
    exact = [call("strEq", 1, own), call("strEqZ", 1, own), call("strLstExists", 1, own), call("regExpMatchOne", 1), call("regExpMatch", 1)]
    precede(A, v, [], kill + read, R, "lock files of other stanzas are used", noStanza + begins)
    precede(A, v, [], kill + read, R, "lock files of stanzas are used whose name begins with that of the stanza", noStanza + exact)
    R = "every process that holds a lock is terminated"
    get = [s for s in v.calls("strLstGet") if hasCall(s.args[0], "storageList")]
    for s in get:
        A.ok(R, s.where)
        if not countsFromZero(s.args[1]):
            A.bad(R, s.where, "the first lock is left out")
    notOk = LitFn(lambda a, pol: a[0] == "eq" and mentionsField(a[1], "status") and a[2][0] == "int" and pol is (int(a[2][1]) != valid), {"status"}, "not valid")
    twice = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "lstFind", "lstExists"), {"lstFind"}, "signalled before")
    follow(A, v, read, kill, R, "a lock is read but the process not terminated", [notOk, twice])
    follow(A, v, read, kill, R, "a lock is read but the process not terminated", [notOk, twice], to=get)


def p_start(A):
    v = View(A, "cmdStart", noInline=("lockStopFileName",))
    R = "start allows work again"
    rem = [s for s in v.calls("storageRemove") if isStop(s.args[1])]
    if not rem:
        A.bad(R, A.loc("cmdStart"), "the stop file is not removed")
        return
    precede(A, v, rem, [at(exitOf(v), v)], R, "the stop file stays", [call("storageExists", 0, lambda t: isStop(t[2][1]))])
    for s in v.calls("storageRemove", "storagePathRemove"):
        A.ok(R, s.where)
        if not isStop(s.args[1]):
            A.bad(R, s.where, "%s is removed" % fmt(s.args[1])[:60])
