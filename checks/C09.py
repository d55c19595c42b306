"""An online backup is bracketed by backup start and stop, is of the stanza's own cluster, and all WAL it needs is in the archive."""
from flow import LitFn, has
from lib import arith, View, callOf, countsFromZero, fieldLit, follow, hasCall, hasField, mentionsField, precede, strHas
from graph import fmt, walkTerm
from C07 import isManifest

ASSUME = ["PostgreSQL's backup start/stop functions return the LSNs, WAL names and label file they document",
          "the segment list of an LSN range is computed correctly (pgLsnRangeToWalSegmentList)"]
OFF = "cfgOptionBool(@cfgOptOnline) == 0"
ON = "cfgOptionBool(@cfgOptOnline) != 0"


def p_cluster(A):
    v = View(A, "cmdBackup")
    build = v.calls("manifestNewBuild")
    for fld in ("version", "systemId"):
        def same(a, pol, fld=fld):
            return pol is True and a[0] == "eq" and mentionsField(a[1], fld) and mentionsField(a[2], fld)
        precede(A, v, [], build, "a backup is only taken of the cluster the stanza was created for",
                "the cluster is backed up without its %s being compared with the stanza" % fld, [same])
    precede(A, v, [], build, "an offline backup of a running cluster is refused", "the cluster is backed up offline without looking for postmaster.pid",
            [ON, "storageExists(_, ~'postmaster.pid') == 0", "cfgOptionBool(@cfgOptForce) != 0"])
    stop = v.calls("lockStopTest")
    precede(A, v, stop, build, "a backup honours the stop file", "the cluster is backed up before the stop file is tested")


def p_bracket(A):
    v = View(A, "cmdBackup")
    start, stopc = v.calls("dbBackupStart"), v.calls("dbBackupStop")
    build, para = v.calls("manifestNewBuild"), v.calls("protocolParallelProcess")
    info = v.calls("infoBackupSaveFile")
    listed = info + [s for s in v.calls("storageCopy") if isManifest(s.args[1])]
    comp = v.calls("manifestBuildComplete")
    if not start or not stopc:
        A.unsure("backup start or stop call not found")
        return
    R = "files are listed and copied between backup start and backup stop"
    precede(A, v, start, build, R, "the cluster's files are listed before the backup was started", [OFF])
    precede(A, v, start, para, R, "files are copied before the backup was started", [OFF])
    precede(A, v, v.calls("checkDbConfig"), start, "the archive settings of the cluster are checked before the backup starts", "the backup starts without checking the configuration", [OFF])
    precede(A, v, stopc, listed, R, "the backup is listed without having been stopped", [OFF])
    for s in stopc:
        path = v.escape([s.gid], [p.gid for p in para + start], [], [])
        if path:
            A.bad(R, s.where, "files are copied after the backup was stopped", path)
        A.ok(R, s.where)
    precede(A, v, [], stopc, R, "the backup is stopped before all files were copied", ["protocolParallelDone()"])
    pings = [s for s in v.calls("dbPing") if len(s.args) > 1 and s.args[1] == ("int", 1)]
    follow(A, v, para, pings, "a promotion during the copy is noticed before the backup stops", "the state of the clusters is not checked after the copies", to=stopc, skip=[OFF])
    sb = fieldLit("dbStandby", 0)
    precede(A, v, [s for s in v.calls("dbReplayWait")], para, "a standby is read only after it replayed the start of the backup", "files are copied from a standby that may be behind",
            [OFF, sb, "dbGet().standby == 0"])
    precede(A, v, [s for s in pings if mentionsField(s.args[0], "dbStandby") or mentionsField(s.args[0], "standby")], stopc,
            "a promotion during the copy is noticed before the backup stops", "the standby is not checked after the copies", [OFF, sb])

    # What stop returned is stored
    put = v.calls("storagePut")
    for name, fld in (("backup_label", "backupLabel"), ("tablespace_map", "tablespaceMap")):
        rule = "the %s file returned by backup stop is stored and listed" % name
        ps = [s for s in put if mentionsField(s.args[1], fld) and hasCall(s.args[1], "dbBackupStop")]
        if not ps:
            A.bad(rule, stopc[0].where, "%s is not written to the repository" % name)
            continue
        gone = "dbBackupStop().%s == 0" % fld
        follow(A, v, stopc, ps, rule, "%s may be left out" % name, skip=[gone], to=listed)
        for s in ps:
            if not strHas(s.args[0], name):
                A.bad(rule, s.where, "%s is stored under another name" % name)
            add = v.calls("manifestFileAdd")
            follow(A, v, [s], add, rule, "%s is not added to the manifest" % name, to=listed)

    # The range recorded is the one of this backup
    rule = "the manifest records the range returned by backup start and stop"
    want = {1: ("dbBackupStart", "lsn"), 2: ("dbBackupStart", "walSegmentName"), 4: ("dbBackupStop", "lsn"), 5: ("dbBackupStop", "walSegmentName"), 6: ("infoPgDataCurrent", "id"),
            7: ("infoPgDataCurrent", "systemId")}
    for s in comp:
        for i, (fn, fld) in want.items():
            t = s.args[i]
            if not (hasCall(t, fn) and mentionsField(t, fld)):
                if t[0] in ("hav", "phi") or any(x[0] == "hav" for x in walkTerm(t)):
                    A.unsure("%s: argument %d of manifestBuildComplete: %s" % (s.where, i + 1, fmt(t)[:80]))
                else:
                    A.bad(rule, s.where, "%s of %s is taken from %s" % (fld, fn, fmt(t)[:120]))
            A.ok(rule, s.where)
    precede(A, v, comp, listed, rule, "the backup is listed without its start and stop positions")
    for s in comp:
        path = v.escape([s.gid], [x.gid for x in stopc], [], [])
        if path:
            A.bad(rule, s.where, "the positions are recorded before backup stop")

    # Copy start time
    rule = "copying starts in a later second than the one in which the files were listed"
    wait = [lambda a, pol: a[0] == "lt" and ((pol is True and arith(a[2], "dbTimeMSec")) or (pol is False and arith(a[1], "dbTimeMSec"))), OFF]
    follow(A, v, build, [], rule, "copying may start in the second in which the files were listed", skip=wait, to=para)


def p_wal(A):
    v = View(A, "cmdBackup")
    info = v.calls("infoBackupSaveFile")
    listed = info + [s for s in v.calls("storageCopy") if isManifest(s.args[1])]
    find = v.calls("walSegmentFind")
    rule = "all WAL from start to stop is found in the archive before the backup is listed"
    if not find:
        A.bad(rule, A.loc("cmdBackup"), "WAL segments are not looked up")
        return
    off = ["cfgOptionBool(@cfgOptArchiveCheck) == 0", "_ >= strLstSize(pgLsnRangeToWalSegmentList())", "_ == strLstSize(pgLsnRangeToWalSegmentList())",
           "strLstEmpty(pgLsnRangeToWalSegmentList()) != 0"]
    precede(A, v, find, listed, rule, "the backup may be listed without its WAL", off)
    get = [s for s in v.calls("strLstGet") if hasCall(s.args[0], "pgLsnRangeToWalSegmentList")]
    if get:
        follow(A, v, get, find, rule, "a segment may be left out", to=listed)
    stopc = v.calls("dbBackupStop")
    for s in find:
        path = v.escape([s.gid], [x.gid for x in stopc], [], [])
        if path:
            A.bad(rule, s.where, "WAL is looked up before the backup was stopped")
        r = callOf(s.args[1], "pgLsnRangeToWalSegmentList")
        g = callOf(s.args[1], "strLstGet")
        if r is None:
            A.unsure("%s: looks up %s" % (s.where, fmt(s.args[1])[:100]))
            continue
        if not (mentionsField(r[2][1], "lsnStart") and mentionsField(r[2][2], "lsnStop") and mentionsField(r[2][0], "timeline") and mentionsField(r[2][3], "walSegmentSize")):
            A.bad(rule, s.where, "the segments looked up are %s" % fmt(r)[:200])
        if g is not None and not countsFromZero(g[2][1]):
            A.bad(rule, s.where, "the first segment is left out")
        n = callOf(s.args[0], "walSegmentFindNew")
        if n is not None:
            if not (hasCall(n[2][0], "storageRepo") and mentionsField(n[2][1], "archiveId") or hasCall(n[2][1], "infoArchiveId")):
                A.bad(rule, s.where, "the segments are looked up in %s" % fmt(n)[:200])
            if not strHasOpt(A, n[2][3], "cfgOptArchiveTimeout"):
                A.bad(rule, s.where, "a missing segment is not an error (timeout %s)" % fmt(n[2][3])[:80])
        A.ok(rule, s.where)

    f = A.flow("walSegmentFind", {}, {"noTimeout": ".timeout == 0"}, trackRet=True)
    A.retGuard(f, lambda t: t == ("int", 0), ["noTimeout"], "a segment that does not turn up within the timeout is an error", "no segment")
    v2 = View(A, "walSegmentFind")
    dup = [s for s in v2.calls("strDup") if hasCall(s.args[0], "strLstGet") or mentionsField(s.args[0], "list")]
    rule = "a segment stored twice with different content is an error"
    for s in dup:
        if mentionsField(s.args[0], "prefix"):
            continue
        if not any(a[0] == "eq" and pol is True and a[2] == ("int", 1) or a[0] == "lt" and a[2] == ("int", 2) and pol is True for a, pol in s.conds):
            A.bad(rule, s.where, "a segment is returned without the number of matches being one")
        A.ok(rule, s.where)

    # The check made right after the start
    chk = v.calls("walSegmentFindOne")
    start = v.calls("dbBackupStart")
    rule = "archiving is checked to work before files are copied"
    if not chk:
        A.bad(rule, start[0].where if start else A.loc("cmdBackup"), "no segment is looked up after backup start")
    else:
        follow(A, v, start, chk, rule, "the check is left out", skip=["dbBackupStart().walSegmentCheck == 0"], to=v.calls("protocolParallelProcess"))
        for s in start:
            if not strHasOpt(A, s.args[2], "cfgOptArchiveCheck"):
                A.bad(rule, s.where, "backup start is asked for a segment to check when %s" % fmt(s.args[2])[:80])


def strHasOpt(A, t, opt):
    n = A.prog.enum(opt)
    for x in walkTerm(t):
        if x[0] == "call" and x[1].startswith("cfgOption") and any(a == ("int", n) for a in x[2]):
            return True
    return any(x[0] == "hav" for x in walkTerm(t))


def p_db(A):
    v = View(A, "dbBackupStart")
    end = [s for s in v.assigns("DbBackupStartResult", "lsn") if s.args[0] != ("int", 0)]
    if not end:
        A.unsure("dbBackupStart: result not found")
    def lsnOk(a, pol):
        return a[0] == "lt" and ((pol is False and mentionsField(a[1], "checkpoint")) or (pol is True and mentionsField(a[2], "checkpoint")))
    precede(A, v, [], end, "pg_control on disk is at least as new as backup start", "the checkpoint of pg_control is not compared with the start LSN", [lsnOk])
    def tl(a, pol):
        return a[0] == "eq" and pol is True and any(hasCall(x, "pgTimelineFromWalSegment") for x in a[1:3]) and any(mentionsField(x, "timeline") for x in a[1:3])
    precede(A, v, [], end, "the timeline of the WAL is the one of pg_control", "the timeline of the start segment is not compared", [tl])
    f = A.flow("dbBackupStart", {"switch": "dbWalSwitch()"}, {"check": "#2 != 0", "same": "strEq()"})
    A.must(f, "switch", "the segment to be checked is complete", when=lambda st: has(st, "check") and has(st, "same"))

    v = View(A, "dbReplayWait")
    ex = [s for s in v.calls("dbExec") if strHas(s.args[1], "checkpoint")]
    rule = "a standby is used only after it replayed and checkpointed the start of the backup, on the same timeline"
    reach = ["pckReadBool() != 0"]
    precede(A, v, [], ex, rule, "the checkpoint is requested before the replay reached the start", reach)
    from lib import exitOf
    precede(A, v, ex, [exitOf(v)], rule, "the wait may end without a checkpoint")
    follow(A, v, ex, [], rule, "the wait may end before the checkpoint", skip=reach)
    def tl2(a, pol):
        return a[0] == "eq" and pol is True and any(mentionsField(x, "timeline") for x in a[1:3]) and any(x == ("p", 2) for x in a[1:3])
    follow(A, v, ex, [], rule, "the timeline of the standby is not compared", skip=[tl2])

    v = View(A, "dbPing")
    rule = "a promotion of the standby or a demotion of the primary during the backup is an error"
    sites = v.calls("dbIsInRecovery") or v.calls("dbQueryColumn")
    f = A.flow("dbPing", {"asked": "dbIsInRecovery|dbQueryColumn()"}, {"force": "#1 != 0", "old": "_ < ~time()"},)
    A.must(f, "asked", rule, when="force")
    def eqRec(a, pol):
        return a[0] == "eq" and pol is True and any(hasCall(x, "dbIsInRecovery", "pckReadBool", "dbQueryColumn") for x in a[1:3])
    follow(A, v, sites, [], rule, "the result of the query is ignored", skip=[eqRec])


def _ctl(a, pol):
    return a[0] == "eq" and a[2] == ("int", 0) and pol is False and a[1][0] == "call" and a[1][1] == "strEq" and strHas(a[1], "pg_control")


CTL = LitFn(_ctl, {"strEq"}, "the file is pg_control")


def p_control(A):
    f = A.flow("cmdBackup", {"queue": "protocolParallelNew()", "file": "manifestFileUnpack|manifestFile()"},
               {"online": ON, "ctl": CTL}, noInline=("backupStart", "backupInit", "backupResume", "backupBuildIncrPrior", "backupJobResult", "backupComplete", "backupArchiveCheckCopy", "backupStop"), sticky=["ctl"])
    A.guard(f, "queue", [lambda st: has(st, "ctl") or not has(st, "online")], "pg_control is part of every online backup")
