"""Differential and incremental backups build on a complete backup of the same cluster and reference only files that did not change."""
from flow import LitFn, has
from lib import View, callOf, exitOf, fieldLit, follow, hasCall, hasField, mentionsField, precede, strHas
from graph import fmt, walkTerm
from C07 import isManifest
from C10 import eqLit

ASSUME = ["a file whose size and modification time are unchanged is unchanged unless a listed anomaly turns content comparison on"]
TAKEN = ("size", "sizeRepo", "checksumSha1", "checksumRepoSha1", "reference", "bundleId", "bundleOffset", "blockIncrSize", "blockIncrChecksumSize", "blockIncrMapSize", "checksumPage",
         "checksumPageError", "checksumPageErrorList")


def p_prior(A):
    e = A.prog.enum
    fn = "backupBuildIncrPrior"
    f = A.flow(fn, {"load": "manifestLoadFile()", "data": "infoBackupData()"},
               {"diff": "cfgOptionStrId(@cfgOptType) == @backupTypeDiff", "notDiff": "cfgOptionStrId(@cfgOptType) != @backupTypeDiff", "full": "cfgOptionStrId(@cfgOptType) == @backupTypeFull",
                "priorFull": ".backupType == @backupTypeFull", "notPriorFull": ".backupType != @backupTypeFull",
                "id": LitFn(lambda a, pol: a[0] == "eq" and pol is True and any(mentionsField(x, "backupPgId") for x in a[1:3]) and any(hasCall(x, "infoPgDataCurrent") for x in a[1:3]),
                            {"backupPgId"}, "same cluster")},
               kill={"data": {"id", "priorFull", "notPriorFull"}}, sticky=["id", "priorFull"])
    R = "the prior backup is of the same cluster and of the right type"
    A.guard(f, "load", ["id"], R)
    A.guard(f, "load", [lambda st: has(st, "priorFull") if has(st, "diff") else True], R)
    A.guard(f, "load", [lambda st: not has(st, "full")], R)

    v = View(A, "cmdBackup")
    incr = v.calls("manifestBuildIncr")
    ld = [s for s in v.calls("manifestLoadFile") if isManifest(s.args[1]) and hasField(s.args[1], "backupLabel")]
    rule = "the prior backup is read from its final, verified manifest"
    for s in incr:
        t = s.args[1]
        if not hasCall(t, "manifestLoadFile") and not any(x[0] == "hav" for x in walkTerm(t)):
            A.bad(rule, s.where, "the prior manifest is %s" % fmt(t)[:120])
        if not any(x == ("int", e("cfgOptType")) for x in walkTerm(s.args[2])):
            A.bad(rule, s.where, "the type recorded is %s" % fmt(s.args[2])[:120])
        if not (mentionsField(s.args[3], "walSegmentName") or hasCall(s.args[3], "dbBackupStart")):
            A.bad(rule, s.where, "the timeline is taken from %s" % fmt(s.args[3])[:120])
        A.ok(rule, s.where)
    if not incr:
        A.unsure("cmdBackup: manifestBuildIncr not called")
    rule = "files of dependent backups are stored with the key of the backup they refer to"
    cs = v.calls("manifestCipherSpecSet")
    follow(A, v, incr, [s for s in cs if not hasCall(s.args[1], "cipherSpecGen")], rule, "the key of the prior backup is not taken over", to=v.calls("protocolParallelProcess"))
    # With no usable prior backup the backup becomes full
    rule = "without a usable prior backup the backup is full"
    v2 = View(A, fn)
    f = A.flow(fn, {"set": "cfgOptionSet(@cfgOptType)", "load": "manifestLoadFile()"}, {"full": "cfgOptionStrId(@cfgOptType) == @backupTypeFull"})
    A.must(f, ["set", "load", "full"], rule)
    for s in v2.calls("cfgOptionSet"):
        if s.args[0] == ("int", e("cfgOptType")):
            if not any(x == ("int", e("backupTypeFull")) for x in walkTerm(s.args[2])):
                A.bad(rule, s.where, "the type is set to %s" % fmt(s.args[2])[:80])
            A.ok(rule, s.where)
    # compression of referenced files
    rule = "a dependent backup is compressed like the backup it refers to"
    sets = [s for s in v2.calls("cfgOptionSet") if s.args[0] == ("int", e("cfgOptCompressType"))]
    lds = v2.calls("manifestLoadFile")
    follow(A, v2, lds, sets, rule, "the compression type of the prior backup is not taken over", skip=[LitFn(
        lambda a, pol: a[0] == "eq" and pol is True and (mentionsField(a[1], "backupOptionCompressType") or mentionsField(a[2], "backupOptionCompressType")), {"backupOptionCompressType"}, "same")])
    for s in sets:
        if not mentionsField(s.args[2], "backupOptionCompressType"):
            A.bad(rule, s.where, "the compression type is set to %s" % fmt(s.args[2])[:100])
        A.ok(rule, s.where)


def p_incr(A):
    fn = "manifestBuildIncr"
    deltaT = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and hasCall(a[1], "varBool") and mentionsField(a[1], "backupOptionDelta"), {"varBool"}, "delta")
    f = A.flow(
        fn, {"noCopy": "=ManifestFile.copy:0", "file": "manifestFile()|manifestFileUnpack(#0)", "upd": "manifestFileUpdateByIdx|manifestFilePackUpdate|manifestFileUpdate()",
             "ref": "=ManifestFile.reference"},
        {"size": eqLit("size"), "time": eqLit("timestamp"), "delta": deltaT,
         "zero": LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and mentionsField(a[1], "size"), {"size"}, "empty"),
         "blk": LitFn(lambda a, pol: (a[0] == "lt" and pol is True and mentionsField(a[2], "blockIncrMapSize")) or
                      (a[0] == "eq" and pol is False and a[2] == ("int", 0) and mentionsField(a[1], "blockIncrMapSize")), {"blockIncrMapSize"}, "prior block map")},
        kill={"file": {"noCopy", "size", "time", "zero", "ref", "blk"}})
    R = "a file is referenced instead of copied only if size and time are unchanged, or it is empty, or its content will be compared"
    A.guard(f, "noCopy", [[lambda st: has(st, "size") and has(st, "time"), "zero"]], R)
    A.guard(f, "ref", [["size", "blk"]], "a file refers to a prior copy only if it can be one or part of it")

    v = View(A, fn, noInline=("manifestDeltaCheck",))
    for s in v.assigns("ManifestFile", "copy"):
        if s.args[0] == ("int", 0):
            off = any((pol is False and a[0] in ("and", "eq", "or") and not (a[0] == "eq" and a[2] == ("int", 0)) or pol is True and a[0] == "eq" and a[2] == ("int", 0)) and hasCall(a[1], "varBool") and
                      mentionsField(a[1], "backupOptionDelta") or pol is False and a[0] == "and" and hasCall(a, "varBool") and mentionsField(a, "backupOptionDelta") for a, pol in s.conds)
            zero = [a for a, pol in s.conds if pol is True and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "size")]
            if not off and len(zero) < 2:
                A.bad(R, s.where, "the file is not copied although the content is to be compared")
            A.ok(R, s.where)
    refs = v.assigns("ManifestFile", "reference")
    rule = "a referenced file takes over everything recorded about the copy it refers to"
    if not refs:
        A.unsure("%s: reference not found" % fn)
        return
    for s in refs:
        if not (mentionsField(s.args[0], "reference") and mentionsField(s.args[0], "backupLabel")):
            A.bad(rule, s.where, "the reference is %s" % fmt(s.args[0])[:160])
        A.ok(rule, s.where)
    upd = v.calls("manifestFileUpdateByIdx", "manifestFilePackUpdate", "manifestFileUpdate", "manifestFilePack")
    for fld in TAKEN:
        ss = v.assigns("ManifestFile", fld)
        if not ss:
            A.bad(rule, refs[0].where, "%s is not taken over" % fld)
            continue
        for s in ss:
            if not mentionsField(s.args[0], fld):
                A.bad(rule, s.where, "%s is set to %s" % (fld, fmt(s.args[0])[:100]))
        # assigned whenever the reference is: neither way around one without the other
        for r in refs:
            a = v.escape([entry(v)], [r.gid], [s.gid for s in ss], [])
            b = v.escape([r.gid], [u.gid for u in upd] or [exitOf(v).gid], [s.gid for s in ss], [])
            if a and b and r.gid not in [s.gid for s in ss]:
                A.bad(rule, r.where, "%s may keep another value" % fld, b)
            A.ok(rule, r.where)
    rule = "the prior backup's references are known to the new one"
    for fld, ok in (("backupLabelPrior", lambda t: hasField(t, "backupLabel") and rooted(t, 1)), ("referenceList", lambda t: hasField(t, "referenceList") and rooted(t, 1)),
                    ("bundleRaw", lambda t: hasField(t, "bundleRaw") and rooted(t, 1)), ("backupType", lambda t: t == ("p", 2))):
        ss = v.assigns(None, fld)
        precede(A, v, ss, [exitOf(v)], rule, "%s is not set" % fld)
        for s in ss:
            if not ok(s.args[0]):
                A.bad(rule, s.where, "%s is %s" % (fld, fmt(s.args[0])[:100]))


def entry(v):
    return v.g.root.base + v.g.root.fn.entry


def rooted(t, i):
    return any(x == ("p", i) for x in walkTerm(t))


def p_anomaly(A):
    """Anomalies that make time stamps untrustworthy turn content comparison on."""
    R = "a clock or history anomaly turns content comparison on (%s)"
    already = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and hasCall(a[1], "varBool") and mentionsField(a[1], "backupOptionDelta"), {"varBool"}, "on")
    two = lambda a, fld: mentionsField(a[1], fld) and mentionsField(a[2], fld)
    absent = "manifestFileExists(#1) == 0"
    notFound = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] == "call" and a[1][1].startswith("manifestFile") and "Find" in a[1][1], {"manifestFilePackFindDefault"}, "absent")
    for fn, what, safe in (
            ("manifestBuildValidate", "time stamp in the future",
             [LitFn(lambda a, pol: a[0] == "lt" and pol is False and a[1] == ("p", 2) and mentionsField(a[2], "timestamp") or
                    a[0] == "lt" and pol is True and mentionsField(a[1], "timestamp") and a[2] == ("p", 2) , {"timestamp"}, "not in the future")]),
            ("manifestDeltaCheck", "time stamp before the prior backup's",
             [absent, notFound, LitFn(lambda a, pol: a[0] == "lt" and pol is False and two(a, "timestamp") and rooted(a[2], 1) or a[0] == "lt" and pol is True and two(a, "timestamp") and rooted(a[1], 1), {"timestamp"}, "later"),
              eqLit("timestamp")]),
            ("manifestDeltaCheck", "size changed but time stamp did not",
             [absent, notFound, eqLit("sizeOriginal"), LitFn(lambda a, pol: a[0] == "eq" and pol is False and two(a, "timestamp") or a[0] == "lt" and pol is True and two(a, "timestamp"), {"timestamp"}, "other time")])):
        if fn not in A.prog.fns:
            A.unsure("%s not found" % fn)
            continue
        lits = {"s%d" % i: l for i, l in enumerate(safe)}
        lits["already"] = already
        names = ["s%d" % i for i in range(len(safe))]
        f = A.flow(fn, {"set": ("=ManifestData.backupOptionDelta", lambda c: not hasCall(c.rhs(), "varNewBool")), "file": ("manifestFile|manifestFileUnpack()", lambda c: c.arg(0) == ("p", 0))},
                   lits, kill={"file": set(names)}, sticky=names + ["already"])
        ok = lambda st, names=names: any(has(st, x) for x in names + ["set", "already"])
        A.guard(f, "file", [lambda st: not has(st, "file") or ok(st)], R % what)
        A.must(f, ok, R % what, when="file")
    fn = "manifestBuildIncr"
    for what, safe in (
            ("timeline switch", ["#3 == 0", LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and a[1][0] == "fld" and a[1][2] == "archiveStop", {"archiveStop"}, "no WAL"),
                                 LitFn(lambda a, pol: a[0] == "eq" and pol is False and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strEq" and mentionsField(a[1], "archiveStop"), {"strEq"}, "same")]),
            ("online option changed", [LitFn(lambda a, pol: a[0] == "eq" and pol is True and two(a, "backupOptionOnline"), {"backupOptionOnline"}, "same")])):
        lits = {"s%d" % i: l for i, l in enumerate(safe)}
        names = list(lits)
        f = A.flow(fn, {"set": ("=ManifestData.backupOptionDelta", lambda c: not hasCall(c.rhs(), "varNewBool")), "file": "manifestFileUpdateByIdx()"}, lits, sticky=names)
        A.guard(f, "file", [names + ["set"]], R % what)
