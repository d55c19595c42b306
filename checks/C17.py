"""Restore picks a backup from which the target can be reached."""
from flow import LitFn, has
from lib import View, callOf, follow, hasCall, hasField, mentionsField, precede, strHas
from graph import fmt, walkTerm
from C16 import call

ASSUME = ["backup.info lists backups in the order in which they were made (its keys are labels that start with the time)"]


def p_set(A):
    fn = "restoreBackupSet"
    e = A.prog.enum
    TIME, LSN = e("CFGOPTVAL_RESTORE_TYPE_TIME"), e("CFGOPTVAL_RESTORE_TYPE_LSN")

    def ty(v, val):
        return LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", v) and pol is val and hasCall(a[1], "cfgOptionSeq"), {"cfgOptionSeq"}, "type")
    hasT = lambda t: hasCall(t, "cvtZToTime") or hasField(t, "time") or any(x[0] in ("hav", "out") for x in walkTerm(t))
    f = A.flow(fn, {"pick": "=RestoreBackupData.backupSet", "info": "infoBackupLoadFile()", "data": "infoBackupData()"},
               {"time": ty(TIME, True), "lsn": ty(LSN, True), "notTime": ty(TIME, False), "notLsn": ty(LSN, False),
                "before": LitFn(lambda a, pol: a[0] == "lt" and pol is True and mentionsField(a[1], "backupTimestampStop"), {"backupTimestampStop"}, "stopped before the target"),
                "upto": LitFn(lambda a, pol: a[0] == "lt" and pol is False and mentionsField(a[2], "backupLsnStop"), {"backupLsnStop"}, "stopped up to the target"),
                "label": call("strEq", 1, lambda t: mentionsField(t, "backupLabel")),
                "cluster": LitFn(lambda a, pol: (a[0] == "lt" and pol is False and mentionsField(a[1], "backupPgId")) or (a[0] == "eq" and pol is True and (mentionsField(a[1], "backupPgId") or mentionsField(a[2], "backupPgId"))), {"backupPgId"}, "of the current cluster"),
                "default": LitFn(lambda a, pol: a[0] == "eq" and pol is True and hasCall(a[1], "cfgOptionSource") and a[2] == ("int", e("cfgSourceDefault")), {"cfgOptionSource"}, "no set requested")},
               kill={"info": {"before", "upto", "label", "cluster", "data"}, "data": {"before", "upto", "label"}},
               sticky=["cluster", "label", "before", "upto", "time", "lsn", "notTime", "notLsn", "default"])
    R = "the backup chosen ends before the target of recovery"
    A.guard(f, "pick", [["label", lambda st: has(st, "time") and has(st, "before"), lambda st: has(st, "lsn") and has(st, "upto"), "cluster"]], R)
    A.guard(f, "pick", [["label", "notTime", lambda st: has(st, "time") and has(st, "before")]], R)
    A.guard(f, "pick", [["label", "notLsn", lambda st: has(st, "lsn") and has(st, "upto")]], R)
    A.guard(f, "pick", [["label", "default"]], "a requested set is restored and no other")
    A.must(f, "pick", "without a usable backup nothing is restored")
    # a backup once chosen is kept
    A.guard(f, "pick", [lambda st: not has(st, "pick")], "the first repository with a usable backup is chosen")
    v = View(A, fn)
    pk = v.assigns("RestoreBackupData", "backupSet")
    R = "the latest usable backup is chosen"
    n = 0
    for s in v.calls("infoBackupData"):
        i = s.args[1]
        if strId(i):
            n += 1
        A.ok(R, s.where)
    if n < 2 and len(v.calls("infoBackupData")) >= 2:
        A.bad(R, A.loc(fn), "backups are not looked at from the last on")
    R = "label, key and repository belong together"
    for fld, need in (("repoIdx", None), ("cipherSpecManifest", "infoBackupCipherSpec"), ("backupSet", None)):
        for s in v.assigns("RestoreBackupData", fld):
            if need and not hasCall(s.args[0], need):
                A.bad(R, s.where, "%s is %s" % (fld, fmt(s.args[0])[:100]))
            A.ok(R, s.where)
    li = v.calls("infoBackupLoadFile")
    for s in v.assigns("RestoreBackupData", "repoIdx"):
        if li and not any(s.args[0] in list(walkTerm(x.args[0])) for x in li):
            A.bad(R, s.where, "the repository is %s" % fmt(s.args[0])[:100])
    for s in li:
        c, k = callOf(s.args[0], "storageRepoIdx"), callOf(s.args[2], "cfgCipherSpecMainIdx")
        if c is None or k is None or c[2][0] != k[2][0]:
            A.bad(R, s.where, "backup.info is read with the key of another repository")
        A.ok(R, s.where)
    c = View(A, "cmdRestore", noInline=(fn,))
    for s in c.calls("manifestLoadFile", "infoArchiveLoadFile"):
        if not (mentionsField(s.args[0], "repoIdx") and (mentionsField(s.args[2], "cipherSpecManifest") or mentionsField(s.args[2], "repoIdx"))):
            A.bad(R, s.where, "%s reads %s" % (s.name, fmt(s.args[0])[:100]))
        A.ok(R, s.where)


def strId(i):
    return any(x[0] == "call" and x[1] == "infoBackupDataTotal" for x in walkTerm(i)) and any(x[0] == "op" and x[1] == "-" for x in walkTerm(i)) or \
        ("infoBackupDataTotal" in fmt(i) and "- 1" in fmt(i))


def p_timeline(A):
    fn = "timelineVerify"
    f = A.flow(fn, {"hist": "historyLoad()|storageGet()", "item": "lstGet()"},
               {"cur": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[1][0] == "call" and a[1][1] == "strEq" and strHas(a[1], "current"), {"strEq"}, "current timeline"),
                "default": LitFn(lambda a, pol: False, set(), ""),
                "same": LitFn(lambda a, pol: pol is True and a[0] == "eq" and ("p", 3) in a[1:3] and not mentionsField(a[1], "timeline") and not mentionsField(a[2], "timeline"), {"timelineLatest", "cvtZToUInt", "cvtZToUIntBase"}, "same timeline"),
                "tl": LitFn(lambda a, pol: pol is True and a[0] == "eq" and ("p", 3) in a[1:3] and (mentionsField(a[1], "timeline") or mentionsField(a[2], "timeline")), {"timeline"}, "backup timeline in the history"),
                "lsn": LitFn(lambda a, pol: pol is True and a[0] == "lt" and a[1] == ("p", 4) and mentionsField(a[2], "lsn"), {"lsn"}, "forked after the backup")},
               kill={"item": {"tl", "lsn"}}, sticky=["cur", "same"], noInline=("historyLoad", "timelineLatest"))
    R = "a backup is restored to a timeline only if it is in the history of the timeline"
    A.must(f, ["cur", "same", lambda st: has(st, "tl") and has(st, "lsn")], R)
    v = View(A, "cmdRestore", noInline=("restoreBackupSet", "restoreCleanBuild", "restoreManifestMap"))
    R = "the timeline is checked from the start of the backup"
    e = A.prog.enum
    for s in v.calls(fn):
        for i, fld in ((2, "pgVersion"), (3, "archiveStart"), (4, "lsnStart")):
            if not mentionsField(s.args[i], fld):
                A.bad(R, s.where, "argument %d is %s" % (i + 1, fmt(s.args[i])[:100]))
        if ("int", e("cfgOptTargetTimeline")) not in list(walkTerm(s.args[5])) or ("int", e("cfgOptType")) not in list(walkTerm(s.args[6])):
            A.bad(R, s.where, "the target is %s" % fmt(s.args[5])[:100])
        if not hasCall(s.args[7], "infoArchiveCipherSpec"):
            A.bad(R, s.where, "the key of the history is %s" % fmt(s.args[7])[:100])
        A.ok(R, s.where)
    v = View(A, fn)
    R = "the history is that of the cluster of the backup"
    for s in v.calls("storageNewRead", "storageList"):
        if s.args[0] != ("p", 0) or ("p", 1) not in list(walkTerm(s.args[1])):
            A.bad(R, s.where, "%s reads %s" % (s.name, fmt(s.args[1])[:100]))
        A.ok(R, s.where)
