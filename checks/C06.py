"""archive-get delivers only complete files of the right cluster, and reports missing only when the file is missing."""
from flow import has, LitFn, maybeTrue
from lib import View, hasField, typed
from graph import fmt

ASSUME = ["a copy that returns copied everything", "the repository content does not change during one lookup"]


def p_file(A):
    f = A.flow(
        "archiveGetFile",
        {"copy": "storageCopy()", "caught": "errorInternalCatch()", "decrypt": "cipherBlockNew(@cipherModeDecrypt, .cipherSpecArchive)", "decomp": "decompressFilter(compressTypeFromName(.file))",
         "dest": "storageNewWrite(#0, #3)", "idx": "=.actualIdx"},
        {"noCipher": "cipherSpecType(.cipherSpecArchive) == 0", "cipherNone": "cipherSpecType(.cipherSpecArchive) == @cipherTypeNone", "noComp": "compressTypeFromName(.file) == @compressTypeNone"},
        kill={"caught": {"copy", "decrypt", "decomp", "idx"}, "dest": {"decrypt", "decomp", "copy"}})
    A.must(f, "copy", "a requested file is delivered only when one of the candidates was copied without error")
    A.must(f, "idx", "the candidate that was copied is reported")
    A.guard(f, "copy", [["decrypt", "noCipher", "cipherNone"]], "an encrypted file is decrypted")
    A.guard(f, "copy", [["decomp", "noComp"]], "a compressed file is decompressed")
    A.guard(f, "decomp", [["decrypt", "noCipher", "cipherNone"]], "decryption comes before decompression")
    A.argIs(f, "copy", 1, "storageNewWrite(#0, #3)", "the copy goes to the requested destination", "the destination")
    A.argIs(f, "copy", 0, "storageNewRead(storageRepoIdx(.repoIdx), ~.file)", "the copy comes from the repository the candidate was found in", "the candidate in its repository")


def allFailed(a, pol):
    """A running count equals the number of repositories."""
    return pol is True and a[0] == "eq" and any(
        x[0] == "call" and x[1] == "lstSize" and x[2][:1] == (("p", 2),) and y[0] == "hav" for x, y in ((a[1], a[2]), (a[2], a[1])))


def p_find(A):
    f = A.flow(
        "archiveGetFind",
        {"map": "lstAdd(.archiveFileMapList)", "err": "=.errorType", "hash": "strLstAddIfMissing()", "caught": "errorInternalCatch()"},
        {"notSeg": "!walIsSegment(#0)", "one": "strLstSize() <= 1", "few": "lstSize() <= 1", "found": "lstSize() != 0", "found2": "!lstEmpty()", "some": "_ != lstSize(#2)", "all": LitFn(allFailed, ["lstSize"], "all repositories failed")},
        trackRet=True)
    A.guard(f, "map", [["notSeg", "few", "one"]], "candidates with different checksums are an error, none of them is delivered")
    A.guard(f, "map", [["found", "found2"]], "a file counts as found only when a candidate exists")
    A.guard(f, "map", ["some"], "a lookup for which every repository failed is an error")
    A.guard(f, "map", [lambda st: not has(st, "err")], "an error stops the delivery")
    A.must(f, "err", "a lookup for which every repository failed is an error", when="all")
    A.retGuard(f, maybeTrue, ["map"], "a segment counts as found only when it is in the list of files to get")
    # Candidates carry the identity of the place they were found in
    g = A.graph("archiveGetFind")
    st = A.structs(g, "ArchiveGetFile")
    rule = "a candidate keeps the repository, archive id and cipher it was found with"
    if len(st) < 2:
        A.unsure("archiveGetFind: %d candidate structs" % len(st))
    for w, d in st:
        for fld in ("repoIdx", "archiveId", "cipherSpecArchive"):
            if fld in d and not hasField(d[fld], fld):
                A.bad(rule, w, "%s of the candidate is %s" % (fld, fmt(d[fld])))
            if fld not in d:
                A.bad(rule, w, "%s of the candidate is not set" % fld)
        if not (hasField(d.get("file", ("int", 0)), "archiveId")):
            A.bad(rule, w, "the candidate's file name does not contain the archive id it was found in")
        A.ok(rule, w)


def p_check(A):
    f = A.flow(
        "archiveGetCheck",
        {"add": ("lstAdd()", typed(1, "ArchiveGetFindCacheArchive")), "ctl": "pgControlFromFile(storagePg())", "find": "archiveGetFind()", "repo": "infoArchiveLoadFile()", "err": "=.errorType", "caught": "errorInternalCatch()"},
        {"sys": ["infoPgData().systemId == pgControlFromFile().systemId"], "ver": ["infoPgData().version == pgControlFromFile().version"],
         "okChk": "pgControlFromFile().checkpoint != _", "badChk": "pgControlFromFile().checkpoint == _", "label": "storageExists(storagePg(), \"backup_label\")",
         "notFound": "!archiveGetFind()", "noRepo": "lstSize() == 0", "someRepo": "lstSize() != 0"},
        noInline=("archiveGetFind",), sticky=["notFound"], once=False)
    A.guard(f, "add", ["sys", "ver"], "only archives of this cluster and version are searched")
    A.guard(f, "find", [["okChk", "label"]], "an invalid checkpoint written by restore without backup_label is refused")
    A.guard(f, "find", [lambda st: not has(st, "notFound")], "segments after a missing one are not fetched")
    A.must(f, ["find", "err"], "with no usable repository the lookup is an error", unless=[lambda st: has(st, "someRepo")])


def p_single(A):
    f = A.flow("cmdArchiveGet",
               {"move": "storageMove()", "get": "archiveGetFile()", "status": "archiveAsyncStatus(@archiveModeGet)", "check": "archiveGetCheck()", "fork": "cmdAsyncExec()", "info": "storageInfo()",
                "local": "pgIsLocalVerify()"},
               {"found": "storageExists(storageSpool())", "notFound": "!storageExists(storageSpool())", "ok": "archiveAsyncStatus(@archiveModeGet)", "noErr": ["archiveGetCheck().errorType == 0"],
                "some": "lstSize(archiveGetCheck().archiveFileMapList) != 0", "none": "lstSize(archiveGetCheck().archiveFileMapList) == 0", "retry": "cfgOptionBool(@cfgOptArchiveMissingRetry)",
                "own": "cmdLockOwn()", "notOwn": "!cmdLockOwn()"},
               noInline=("archiveGetCheck", "archiveAsyncStatus", "queueNeed", "cmdLockOwn"), trackRet=True, small=200)
    zero = lambda t: t == ("int", 0)
    A.retGuard(f, zero, [["move", "get"]], "archive-get reports success only when the file was delivered", "success")
    nonzero = lambda t: t[0] == "int" and t[1] != 0
    A.retGuard(f, nonzero, [["ok", "none"]], "archive-get reports a file as missing only when a lookup confirmed that it is missing", "missing")
    A.guard(f, "get", ["noErr"], "a failed lookup is an error and not a missing file")
    A.guard(f, "get", ["some"], "only a file that was found is delivered")
    A.guard(f, "move", ["found"], "a segment is taken from the queue only when it is completely there", min=1)
    A.guard(f, "move", ["status"], "an error status is honoured before a segment is taken from the queue")
    A.must(f, "noErr", "a failed lookup is an error and not a missing file", when="check")
    A.must(f, "local", "archive-get runs only where PostgreSQL is")


def p_async(A):
    f = A.flow(
        "cmdArchiveGetAsync",
        {"move": "storageMove(storageSpoolWrite())", "ok": "archiveAsyncStatusOkWrite(@archiveModeGet)", "err": "archiveAsyncStatusErrorWrite(@archiveModeGet)", "result": "protocolParallelResult()",
         "fatal": "archiveAsyncStatusErrorWrite(@archiveModeGet, 0)", "done": "protocolParallelJobFree()", "check": "archiveGetCheck()",
         "missing": "archiveAsyncStatusOkWrite(@archiveModeGet, strLstGet(cfgCommandParam()))"},
        {"jobOk": "protocolParallelJobErrorCode(_) == 0", "jobErr": "protocolParallelJobErrorCode(_) != 0", "allDone": "protocolParallelDone()", "noErr": "archiveGetCheck().errorType == 0",
         "err0": "archiveGetCheck().errorType != 0", "less": "lstSize(archiveGetCheck().archiveFileMapList) < strLstSize(cfgCommandParam())", "none": "lstSize(archiveGetCheck().archiveFileMapList) == 0"},
        kill={"result": {"jobOk", "jobErr", "ok", "err", "move"}}, noInline=("archiveGetCheck",))
    A.guard(f, "move", ["jobOk"], "a segment gets its final queue name only when its transfer succeeded")
    A.guard(f, "done", [lambda st: has(st, "err") if has(st, "jobErr") else has(st, "move")], "each transfer ends with the segment in the queue or an error status")
    A.guard(f, "missing", ["noErr", "less"], "a segment is reported missing only when the lookup did not fail")
    A.must(f, "err", "a failed lookup leaves an error status", when="err0")
    A.must(f, lambda st: not has(st, "fatal"), "a fatal error of the async process is rethrown")
    A.must(f, ["allDone", "none"], "the async process waits for all transfers it started")
    A.argIs(f, "move", 1, "storageNewRead(storageSpool(), ~'.pgbackrest.tmp')", "segments move from their temporary to their final queue name", "the temporary file")

    # The worker writes under the temporary name
    v = View(A, "archiveGetFileProtocol")
    rule = "a worker writes a segment under a temporary name"
    for s in v.calls("archiveGetFile"):
        t = s.args[3]
        if not any(x[0] == "str" and ".pgbackrest.tmp" in x[1] for x in __import__("graph").walkTerm(t)):
            A.bad(rule, s.where, "the destination is %s" % fmt(t))
        A.ok(rule, s.where)


def p_queue(A):
    f = A.flow("cmdArchiveGet", {"rm": "storageRemove(storageSpoolWrite())", "keep": "strLstAdd()"}, {"ideal": "!strLstExists()", "status": "archiveAsyncStatus()"}, small=200,
               noInline=("archiveGetCheck", "archiveAsyncStatus"), once=True)
    A.guard(f, "rm", [["ideal", "status"]], "a queued segment that is still wanted is not removed")
