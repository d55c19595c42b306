"""archive-push reports success only for WAL that every configured repository holds (or that the queue limit allows to drop)."""

import C33
from flow import has, maybeTrue
from lib import View, alts, callOf, countsFromZero, exitOf, follow, hasCall, strHas
from prog import AnalysisError

ASSUME = ["the archive storage's own writes are decided by C01", "repositories listed at the start of the command do not change while it runs"]


def p_main(A):
    # Every repository's error reaches the final decision
    f = A.flow(
        "archivePushFile",
        {"caught": "errorInternalCatch()", "add": "strLstAdd|strLstAddFmt|strLstAddZ(strLstDup(#9))",
         "new": "storageNewWrite(~storageRepoIdxWrite())", "open": "ioWriteOpen()", "write": "ioWrite()", "close": "ioWriteClose()",
         "find": "walSegmentFindOne()"},
        {"noErr": "strLstSize(strLstDup(#9)) == 0", "notSeg": "!walIsSegment(#5)", "missing": "walSegmentFindOne() == 0", "found": "walSegmentFindOne() != 0",
         "eof": "ioReadEof()", "same": "strEq()", "noRepo": "lstSize(#8) == 0"},
        kill={"caught": {"add"}}, once=True)
    A.must(f, "noErr", "push of one file returns only when no repository reported an error (including errors found before)")
    A.must(f, "add", "an error caught for one repository is added to the error list", when="caught")
    A.must(f, "close", "a file that is not already stored is written to completion in each repository",
           unless=["same", "noRepo", "caught"])
    A.guard(f, "close", ["open", "write", "eof"], "a destination is closed only after the whole source was read and written to it")
    A.guard(f, "new", [["notSeg", "missing"]], "a segment is written only to repositories that do not hold it", min=1)

    f = A.flow("archivePushFile", {"close": "ioReadOpen|ioRead()", "caught": "errorInternalCatch()"},
               {"missing": "walSegmentFindOne() == 0", "noErr": "strLstSize(strLstDup(#9)) == 0"}, sticky=["missing"])
    A.must(f, "close", "a segment some repository does not hold is written whatever the other repositories hold", when="missing", unless=["caught"])

    # The synchronous command
    f = A.flow(
        "cmdArchivePush",
        {"push": "archivePushFile()", "stop": "lockStopTest()", "status": "archiveAsyncStatus(@archiveModePush)", "repoAdd": "lstAdd(~lstNew())"},
        {"async": "cfgOptionBool(@cfgOptArchiveAsync)", "asyncOk": "archiveAsyncStatus(@archiveModePush)", "queueSet": "cfgOptionTest(@cfgOptArchivePushQueueMax)",
         "over": "cfgOptionUInt64(@cfgOptArchivePushQueueMax) < ~storageInfo()"})
    A.must(f, ["push", "asyncOk", lambda st: has(st, "queueSet") and has(st, "over")],
           "archive-push returns success only after the file was pushed, the async process reported it pushed, or the configured queue limit was exceeded")
    A.must(f, lambda st: has(st, "asyncOk") or not has(st, "async"), "in async mode success requires the async process's ok status")
    A.must(f, "stop", "archive-push honours the stop file")
    A.guard(f, "push", ["stop"], "nothing is pushed before the stop file is tested")
    A.guard(f, "status", ["stop"], "nothing is pushed before the stop file is tested")

    # The asynchronous command
    f = A.flow(
        "cmdArchivePushAsync",
        {"ok": "archiveAsyncStatusOkWrite(@archiveModePush)", "err": "archiveAsyncStatusErrorWrite(@archiveModePush)", "result": "protocolParallelResult()",
         "stop": "lockStopTest()", "fatal": "archiveAsyncStatusErrorWrite(@archiveModePush, 0)", "done": "protocolParallelJobFree()", "process": "protocolParallelProcess()",
         "client": "protocolParallelClientAdd()"},
        {"jobOk": "protocolParallelJobErrorCode(_) == 0", "jobErr": "protocolParallelJobErrorCode(_) != 0", "queueSet": "cfgOptionTest(@cfgOptArchivePushQueueMax)",
         "over": "cfgOptionUInt64(@cfgOptArchivePushQueueMax) < ~storageInfo()", "allDone": "protocolParallelDone()"},
        kill={"result": {"jobOk", "jobErr", "ok", "err"}}, small=260)
    A.guard(f, "ok", [["jobOk", lambda st: has(st, "queueSet") and has(st, "over")]],
            "an ok status is written only for a file whose push succeeded or when the configured queue limit was exceeded", min=2)
    A.guard(f, "done", [["ok", "err"]], "each finished push leaves a status file", min=1)
    A.guard(f, "done", [lambda st: has(st, "err") if has(st, "jobErr") else True], "a failed push leaves an error status")
    A.must(f, ["allDone", lambda st: has(st, "queueSet") and has(st, "over")], "the async process waits for all pushes it started")
    A.guard(f, "client", ["stop"], "nothing is pushed before the stop file is tested")
    A.guard(f, "ok", ["stop"], "nothing is acknowledged before the stop file is tested")

    # A fatal error of the async process is reported to the foreground process and not swallowed
    A.must(f, lambda st: not has(st, "fatal"), "a fatal error of the async process is rethrown")

    # Status evaluation in the foreground process
    f = A.flow(
        "archiveAsyncStatus", {"get": "storageGet()"},
        {"okExists": "storageExists(storageSpool(), ~'.ok')", "noOk": "!storageExists(storageSpool(), ~'.ok')", "errExists": "storageExists(storageSpool(), ~'.error')",
         "throwReq": "#2"}, trackRet=True)
    A.retGuard(f, maybeTrue, ["okExists"], "a file counts as pushed only when its ok status file exists")
    A.must(f, lambda st: not (has(st, "errExists") and has(st, "throwReq")), "an error status is thrown once errors are requested")


def p_async(A):
    """What the asynchronous command decided reaches the processes that push."""
    C33.part("archivePushAsyncCallback", "archivePushFileProtocol")(A)


def p_status(A):
    """Status files left over from before are not taken for WAL that is pushed now."""
    v = View(A, "cmdArchivePushAsync")
    adds = v.calls("strLstAdd", "strLstAddSub", "strLstAddSubN")
    okL = {s.args[0] for s in adds if hasCall(s.args[1], "storageSpool")}
    readyL = {s.args[0] for s in adds if hasCall(s.args[1], "storagePg") and strHas(s.args[1], "archive_status")}
    rm = [s for s in v.calls("storageRemove") if hasCall(s.args[0], "storageSpoolWrite") and not hasCall(s.args[0], "storagePg")]
    stale = [s for s in rm if callOf(s.args[1], "strLstMergeAnti")]
    other = [s for s in rm if s not in stale]
    rule = "an ok status is dropped when PostgreSQL no longer waits for the file, so that a later file of that name is pushed"
    merge = [s for s in v.calls("strLstMergeAnti") if s.args[0] in okL and s.args[1] in readyL]
    if not okL or not readyL:
        raise AnalysisError("the lists of ok and ready files were not found")
    if not stale and not any(strHas(s.args[1], ".ok") for s in other):
        A.bad(rule, A.loc("cmdArchivePushAsync"), "no ok status file is removed")
    for s in stale:
        ms = [x for x, _ in alts(s.args[1])]
        if any(not callOf(x, "strLstMergeAnti") for x in ms):
            A.bad(rule, s.where, "in some case no ok status file is looked at")
        g = callOf(s.args[1], "strLstGet")
        if g is not None and not countsFromZero(g[2][1]):
            A.bad(rule, s.where, "the first of the ok status files is not looked at")
        m = callOf(s.args[1], "strLstMergeAnti")
        if m is not None and m[2][0] in readyL:
            A.bad(rule, s.where, "the status of files that are ready is removed instead")
        A.ok(rule, s.where)
    if stale and merge:
        last = [s for s in adds if s.args[0] in okL]
        follow(A, v, last, merge, rule, "ok status files are kept without looking for the ready file")
    if not [s for s in other if hasCall(s.args[1], "storageSpool")]:
        A.bad("error status files are removed before files are pushed again", A.loc("cmdArchivePushAsync"), "status files other than ok are not removed")
    A.ok("error status files are removed before files are pushed again", "cmdArchivePushAsync")
    # What is pushed is what is ready and has no ok status
    push = [s for s in v.calls("strLstMergeAnti") if s.args[0] in readyL and s.args[1] in okL]
    rule = "every file that PostgreSQL waits for and that has no ok status is pushed"
    if not push and not v.calls("strLstMergeAnti"):
        raise AnalysisError("the list of files to push was not found")
    if not push:
        A.bad(rule, A.loc("cmdArchivePushAsync"), "the files to push are not the ready files without an ok status")
    A.ok(rule, "cmdArchivePushAsync")
