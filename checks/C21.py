"""Expire removes only what retention or the user allows, in an order that leaves usable backups."""
from flow import LitFn, has
from lib import View, alts, callOf, cmp0, countsFromZero, entryOf, follow, hasCall, holder, mentionsField, nearest, precede, relLit, strHas, strs, structArg
from graph import fmt, isBoolish, lits, walkTerm
from C16 import call

ASSUME = ["backup labels sort in the order in which the backups were made", "time of the hosts that make backups and expire them agrees"]
REMOVE = ("storageRemove", "storagePathRemove")
BACKUP = "<REPO:BACKUP>"
GONE = (call("infoBackupLabelExists", 0, lambda t: mentionsField(t, "backupLabelPrior")), call("strBeginsWith", 1, lambda t: hasCall(t, "storageList")))


def opt(A, t, o):
    return ("int", A.prog.enum(o)) in list(walkTerm(t))


def dry(A, val):
    return call("cfgOptionBool", val, lambda t: t[2][0] == ("int", A.prog.enum("cfgOptDryRun")))


def zero(t):
    return t == ("int", 0)


def p_dry(A):
    v = View(A, "cmdExpire")
    chg = v.calls(*REMOVE, "infoBackupSaveFile", "infoArchiveSaveFile", "backupLinkLatest", "storagePut", "storageMove", "storagePathCreate", "storageLinkCreate", "storageNewWrite")
    precede(A, v, [], chg, "a dry run changes nothing", "the repository is changed in a dry run", [dry(A, 0), call("cfgOptionValid", 0, lambda t: t[2][0] == ("int", A.prog.enum("cfgOptDryRun")))])


def p_order(A):
    v = View(A, "cmdExpire")
    load = v.calls("infoBackupLoadFileReconstruct", "infoBackupLoadFile")
    save = v.calls("infoBackupSaveFile")
    rem = v.calls(*REMOVE)
    man = [s for s in rem if s.name == "storageRemove" and strHas(s.args[1], "backup.manifest")]
    R = "backup.info is saved before files of backups and WAL are removed"
    if not save:
        A.bad(R, A.loc("cmdExpire"), "backup.info is not saved")
    follow(A, v, load, save, R, "files are removed before backup.info was saved", [dry(A, 1)], to=[s for s in rem if s not in man])
    R = "an expired backup is made unusable before its files are removed"
    dep = v.calls("infoBackupDataDependentList")
    DESC = ("int", A.prog.enum("sortOrderDesc"))
    copy = [s for s in man if any(x.endswith(".copy") for x in strs(s.args[1]))]
    main = [s for s in man if s not in copy]
    dele = v.calls("infoBackupDataDelete")
    get = [s for s in v.calls("strLstGet") if hasCall(s.args[0], "infoBackupDataDependentList")]
    for fs, what in ((main, "its manifest stays"), (copy, "the copy of its manifest stays")):
        follow(A, v, get, fs, R, what, [dry(A, 1)], to=get + save)
        for s in fs:
            A.ok(R, s.where)
            if not hasCall(s.args[1], "strLstGet") or not hasCall(s.args[1], "infoBackupDataDependentList"):
                A.bad(R, s.where, "%s is removed" % fmt(s.args[1])[:100])
    follow(A, v, get, dele, "what is expired is removed from backup.info", "it stays in backup.info", to=get + save)
    R = "a backup is expired after the backups that depend on it"
    for s in v.calls("strLstSort"):
        if hasCall(s.args[0], "infoBackupDataDependentList"):
            A.ok(R, s.where)
            if s.args[1] != DESC:
                A.bad(R, s.where, "a backup is expired before those that depend on it")
    for s in get:
        A.ok(R, s.where)
        if not hasCall(s.args[0], "strLstSort"):
            A.bad(R, s.where, "dependent backups are not expired first")
        if not countsFromZero(s.args[1]):
            A.bad(R, s.where, "the first is left out")
    for s in dele:
        if not hasCall(s.args[1], "infoBackupDataDependentList"):
            A.bad(R, s.where, "%s is expired without dependent backups" % fmt(s.args[1])[:100])
        A.ok(R, s.where)


def p_retain(A):
    v = View(A, "cmdExpire")
    e = A.prog.enum
    kinds = set()
    for s in v.calls("infoBackupDataDependentList"):
        t = s.args[1]
        rx = callOf(t, "backupRegExp")
        types = {k for k in ("full", "differential", "incremental") if rx is not None and structArg(rx[2][0], k) == ("int", 1)}
        if opt(A, t, "cfgOptSet") and not hasCall(t, "strLstGet"):
            kinds.add("set")
            adhoc(A, v, s)
        elif t[0] == "call" and t[1] == "strLstGet" and hasCall(t, "infoBackupDataLabelList"):
            k, o = ("full", "cfgOptRepoRetentionFull") if types == {"full"} else ("diff", "cfgOptRepoRetentionDiff")
            kinds.add(k)
            R = "as many %s backups are kept as configured" % ("full" if k == "full" else "differential")
            lst, idx = t[2][0], t[2][1]
            isRet = lambda x: x[0] == "call" and x[1] == "cfgOptionIdxUInt" and opt(A, x, o) or zero(x)
            ret = lambda x: all(isRet(y) for y, _ in alts(x)) and opt(A, x, o)
            size = lambda x: x[0] == "call" and x[1] == "strLstSize" and x[2][0] == lst
            diff = lambda x: x[0] == "op" and x[1] == "-" and size(x[2]) and ret(x[3])
            plus = lambda x: x[0] == "op" and x[1] == "+" and (x[2] == idx and ret(x[3]) or x[3] == idx and ret(x[2]))
            A.ok(R, s.where, 4)
            if not (s.under(relLit(("<",), lambda x: x == idx, diff, {"strLstSize"}, "")) and s.under(relLit((">", ">="), size, ret, {"strLstSize"}, "")) or s.under(relLit(("<",), plus, size, {"strLstSize"}, ""))):
                A.bad(R, s.where, "the limit is not total less retention")
            if not (s.under(relLit(("!=", ">"), ret, zero, {"cfgOptionIdxUInt"}, "")) or s.under(relLit((">=",), ret, lambda x: x == ("int", 1), {"cfgOptionIdxUInt"}, ""))):
                A.bad(R, s.where, "backups are expired although retention is not set")
            if not countsFromZero(idx) or hasCall(lst, "strLstSort") and callOf(lst, "strLstSort")[2][1] != ("int", e("sortOrderAsc")):
                A.bad(R, s.where, "not the oldest are expired first")
            if k == "diff":
                A.ok(R, s.where)
                if types != {"full", "differential"}:
                    A.bad(R, s.where, "backups of types %s are expired" % sorted(types))
                R = "retention of differential backups expires no full backup"
                if not s.under(call("regExpMatchOne", 0, lambda x: hasCall(x, "backupRegExp") and x[2][1] == t)):
                    A.bad(R, s.where, "full backups are expired")
                A.ok(R, s.where)
        elif t[0] == "fld" and t[2] == "backupLabel" and hasCall(t, "infoBackupData"):
            kinds.add("time")
        else:
            A.unsure("%s: expires %s" % (s.where, fmt(t)[:100]))
    for k in ("set", "full", "diff", "time"):
        if k not in kinds:
            A.unsure("expiry by %s not found" % k)
    fns = holder(A, "cmdExpire", lambda n, a: n == "infoBackupDataByLabel" and any(hasCall(x, "strLstGet") for x in a))
    fns = [f for f in fns if any(p[2] in ("const time_t", "time_t") for p in A.prog.fns[f].params)]
    for fn in fns:
        i = [p[2] in ("const time_t", "time_t") for p in A.prog.fns[fn].params].index(True)
        R = "by time only backups are expired that a newer backup older than the limit replaces"
        f = A.flow(fn, {"dep": "infoBackupDataDependentList()", "look": "infoBackupDataByLabel()"},
                   {"older": relLit(("<", "<="), lambda t: mentionsField(t, "backupTimestampStop"), lambda t: t == ("p", i), {"backupTimestampStop"}, "older than the limit"),
                    "differ": call("strEq", 0, lambda t: mentionsField(t, "backupLabel"))}, kill={"look": {"older"}, "dep": {"differ"}}, sticky=["older"])
        A.guard(f, "dep", ["older", "differ"], R)
        w = View(A, fn)
        for s in w.calls("strLstSort"):
            if hasCall(s.args[0], "infoBackupDataLabelList") and not hasCall(s.args[0], "infoBackupDataDependentList"):
                rx = callOf(s.args[0], "backupRegExp")
                if s.args[1] != ("int", e("sortOrderAsc")) or rx is None or any(structArg(rx[2][0], k) == ("int", 1) for k in ("differential", "incremental")):
                    A.bad(R, s.where, "the list is not that of the full backups from the oldest on")
                A.ok(R, s.where)
        for s in w.calls("infoBackupDataByLabel"):
            g = callOf(s.args[1], "strLstGet")
            if g is not None and (countsFromZero(g[2][1]) or not hasCall(g[2][1], "strLstSize")):
                A.bad(R, s.where, "not the newest backup older than the limit is looked for")
            A.ok(R, s.where)
        for s in w.calls("infoBackupDataDependentList"):
            d = callOf(s.args[1], "infoBackupData")
            if d is None or d[2][1] != ("int", 0):
                A.bad(R, s.where, "not the oldest backup is expired")
            A.ok(R, s.where)
    R = "the time limit is retention days ago"
    for s in v.calls(*fns):
        t = [a for a in s.args if hasCall(a, "time")]
        if not t or not any(x[0] == "op" and x[1] == "-" and hasCall(x[2], "time") and ("int", 86400) in list(walkTerm(x[3])) and opt(A, x[3], "cfgOptRepoRetentionFull") for a in t for x in walkTerm(a)):
            A.bad(R, s.where, "the limit is %s" % [fmt(a)[:80] for a in t])
        A.ok(R, s.where)


def adhoc(A, v, s):
    R = "the last full backup of a cluster is not expired on request"
    full = lambda t: hasCall(t, "infoBackupDataLabelList")
    latest = lambda c: any(x[0] == "call" and x[1] == "strLstGet" and x[2][1] == ("int", 0) and hasCall(x[2][0], "strLstSort") for x in c[2][:2])
    for c in v.calls("strCmp", "strEq"):
        if any(x[0] == "call" and x[1] == "strLstGet" and full(x) and x[2][1] == ("int", 0) for x in c.args[:2]):
            for x in c.args[:2]:
                if full(x) and callOf(x, "strLstSort") and callOf(x, "strLstSort")[2][1] != ("int", A.prog.enum("sortOrderDesc")):
                    A.bad(R, c.where, "the label is not compared with the newest full backup")
    notLatest = [cmp0("strCmp", ("!=", "<", ">"), latest), call("strEq", 0, latest)]
    isSize = lambda t: t[0] == "call" and t[1] == "strLstSize" and full(t)
    one = lambda t: t == ("int", 1)
    precede(A, v, [], [s], R, "the only full backup is expired", notLatest + [relLit(("!=", ">"), isSize, one, {"strLstSize"}, ""), relLit((">=",), isSize, lambda t: t == ("int", 2), {"strLstSize"}, "")])
    pg = lambda t: mentionsField(t, "backupPgId")
    precede(A, v, [], [s], R, "the only full backup of the current cluster is expired", notLatest + [relLit(("==",), pg, pg, {"backupPgId"}, "")])
    R = "the link to the latest backup is kept up to date"
    link = v.calls("backupLinkLatest")
    if not link:
        A.bad(R, A.loc("cmdExpire"), "the link is not updated")
    follow(A, v, [s], link, R, "the link is not updated", [call("infoBackupLabelExists", 1), dry(A, 1)], to=v.calls("infoBackupSaveFile"))
    R = "a request names a backup"
    precede(A, v, [], [s], R, "any label is accepted", [call("infoBackupLabelExists", 1, lambda t: opt(A, t, "cfgOptSet"))])


def p_remove(A):
    v = View(A, "cmdExpire")
    hist = lambda s: strHas(s.args[1], "backup.history")
    rem = [s for s in v.calls("storagePathRemove") if strHas(s.args[1], BACKUP) and not hist(s)]
    R = "only backups that are not in backup.info are removed"
    cur = lambda t: hasCall(t[2][0], "infoBackupDataLabelList")
    precede(A, v, [], rem, R, "a backup is removed whether it is in backup.info or not", [call("strLstExists", 0, cur), call("infoBackupLabelExists", 0)])
    for s in rem:
        ok = [c for c in v.calls("strLstExists") if cur((0, 0, c.args)) and callOf(s.args[1], "strLstGet") == callOf(c.args[1], "strLstGet")] or v.calls("infoBackupLabelExists")
        if not ok:
            A.bad(R, s.where, "not the backup looked for is removed")
        A.ok(R, s.where)
        g = callOf(s.args[1], "strLstGet")
        l = callOf(s.args[1], "storageList")
        rx = l and callOf(l, "backupRegExp")
        if l is not None and (rx is None or structArg(rx[2][0], "noAnchorEnd") == ("int", 1)):
            A.bad(R, s.where, "directories that are no backup are removed")
    lst = [s for s in v.calls("infoBackupDataLabelList") if zero(s.args[1])]
    dele = v.calls("infoBackupDataDelete")
    load = v.calls("infoBackupLoadFileReconstruct", "infoBackupLoadFile")
    for s in lst:
        p = v.escape([s.gid], [d.gid for d in dele], [x.gid for x in load], [])
        if p is not None and any(v.escape([s.gid], [x.gid], [y.gid for y in load], []) is not None for x in rem):
            A.bad(R, s.where, "backups are expired after the list was made", p[-8:])
        A.ok(R, s.where)
    R = "the backup that can be resumed is kept"
    fns = holder(A, "cmdExpire", lambda n, a: n == "storagePathRemove" and strHas(a[1], BACKUP) and not strHas(a[1], "backup.history"))
    for fn in fns:
        isCopy = lambda t: any(x.endswith(".copy") for x in strs(t))
        isMan = lambda t: strHas(t, "backup.manifest") and not isCopy(t)
        w = View(A, fn)
        rem = [s for s in w.calls("storagePathRemove") if strHas(s.args[1], BACKUP)]
        get = nearest(w, rem, [s for s in w.calls("strLstGet") if hasCall(s.args[0], "storageList")])
        var = {(s.inst.id, s.p.data[3][1][1]): s.inst for s in get if s.p.data[3][1][0] == "v"}
        keep = []
        for (_, k), inst in var.items():
            ds = w.defs(inst, k)
            for d in ds:
                vals = alts(d.args[0]) if d.args[0] is not None else []
                vals = [(("int", int(pol)), ls + lits(x, pol)) for x, ls in vals for pol in (True, False) if isBoolish(x)] + [(x, ls) for x, ls in vals if not isBoolish(x)]
                if any(x[0] == "int" and not zero(x) for x, _ in vals):
                    keep.append(d)
                    for x, ls in vals:
                        if zero(x) and not any(l(a, pol) for l in GONE for a, pol in ls):
                            A.bad(R, d.where, "it is removed although the backup it is based on was not expired")
        ex = [s for s in w.calls("storageExists") if isCopy(s.args[1])]
        if not keep or not ex:
            A.unsure("%s: protection of the backup that can be resumed not found" % fn)
            continue
        lit = [call("storageExists", 1, isMan), call("storageExists", 0, isCopy)]
        follow(A, w, ex, keep, R, "it is removed", lit, to=rem)
        precede(A, w, ex, rem, R, "it is removed", lit + [call("strLstSize", 0), call("strLstEmpty", 1)])
        back = [d for (_, k), inst in var.items() for d in w.defs(inst, k) if d.args[0] == ("int", 0) and any(w.escape([x.gid], [d.gid], [], []) is not None for x in keep)]
        for d in back:
            for l in GONE:
                if not d.under(l):
                    A.bad(R, d.where, "it is removed although the backup it is based on was not expired")
            A.ok(R, d.where)
    if not fns:
        A.unsure("removal of backups not found")


def p_history(A):
    fns = holder(A, "cmdExpire", lambda n, a: n == "storagePathRemove" and strHas(a[1], "backup.history"))
    if not fns:
        A.unsure("removal of history not found")
    for fn in fns:
        v = View(A, fn)
        R = "history of unexpired backups is kept"
        files = [s for s in v.calls("storageRemove") if strHas(s.args[1], "backup.history")]
        cur = lambda t: hasCall(t[2][0], "infoBackupDataLabelList")
        precede(A, v, [], files, R, "history is removed although the backup is not expired", [call("strLstExists", 0, cur)])
        mn = lambda t: hasCall(t, "backupLabelFormat")
        isMin = lambda c: mn(c[2][1]) and not mn(c[2][0])
        precede(A, v, [], files, "history is kept as long as configured", "history is removed before its time", [cmp0("strCmp", "<", isMin)])
        years = [s for s in v.calls("storagePathRemove") if strHas(s.args[1], "backup.history")]
        precede(A, v, [], years, "history is kept as long as configured", "history is removed before its time", [cmp0("strCmp", "<", isMin)])
        f = A.flow(fn, {"year": ("strLstGet()", lambda c: strHas(c.arg(0), "backup.history")), "cur": ("strLstGet()", lambda c: hasCall(c.arg(0), "infoBackupDataLabelList") and not strHas(c.arg(0), "backup.history")), "rem": "storagePathRemove()"},
                   {"other": call("strBeginsWith", 0), "done": LitFn(lambda a, pol: a[0] == "lt" and pol is False and hasCall(a[2], "strLstSize") and hasCall(a[2], "infoBackupDataLabelList"), {"strLstSize"}, "all looked at"),
                    "none": relLit(("==",), lambda t: hasCall(t, "strLstSize") and hasCall(t, "infoBackupDataLabelList"), zero, {"strLstSize"}, "no backup")},
                   kill={"year": {"other", "done", "cur", "in", "none"}, "cur": {"other", "done"}}, latch={"in": ("cur", lambda st: has(st, "cur") and not has(st, "other"))}, sticky=["other", "done"])
        A.guard(f, "rem", [["done", "none"], lambda st: not has(st, "in"), lambda st: not has(st, "cur") or has(st, "other")], R)
        for s in v.calls("strLstGet"):
            if hasCall(s.args[0], "infoBackupDataLabelList") and not countsFromZero(s.args[1]):
                A.bad(R, s.where, "the first backup is not looked at")


def p_repo(A):
    v = View(A, "cmdExpire")
    R = "a repository is expired by its own content and configuration"
    e = A.prog.enum
    IDX = {"storageRepoIdx": 0, "storageRepoIdxWrite": 0, "cfgCipherSpecMainIdx": 0, "cfgOptionIdxUInt": 1, "cfgOptionIdxTest": 1, "cfgOptionIdxStrId": 1, "cfgOptionIdxSeq": 1, "cfgOptionIdxSet": 1, "backupLinkLatest": 1}
    terms = {}
    for s in v.calls(*IDX):
        terms.setdefault(s.args[IDX[s.name]], []).append(s)
        A.ok(R, s.where)
    if terms:
        main = max(terms, key=lambda t: len(terms[t]))
        for t, ss in terms.items():
            if t != main:
                for s in ss:
                    A.bad(R, s.where, "%s uses repository %s" % (s.name, fmt(t)[:60]))
    else:
        A.unsure("repository index not found")
    for s in v.calls("storageRepo", "storageRepoWrite", "cfgCipherSpecMain"):
        A.bad(R, s.where, "%s is the default repository" % s.name)


def p_info(A):
    v = View(A, "infoBackupDataDependentList")
    R = "all backups that depend on a backup are known"
    add = v.calls("strLstAdd")
    first = [s for s in add if s.args[1] == ("p", 1)]
    if not first:
        A.bad(R, A.loc("infoBackupDataDependentList"), "the backup itself is not in the list")
    d = v.calls("infoBackupData")
    dep = [s for s in add if mentionsField(s.args[1], "backupLabel")]
    none = LitFn(lambda a, pol: a[0] == "eq" and pol is True and zero(a[2]) and a[1][0] == "fld" and a[1][2] == "backupPrior", {"backupPrior"}, "no prior")
    follow(A, v, d, dep, R, "a dependent backup is left out", [none, call("strLstExists", 0, lambda t: mentionsField(t[2][1], "backupPrior"))])
    follow(A, v, d, dep, R, "a dependent backup is left out", [none, call("strLstExists", 0, lambda t: mentionsField(t[2][1], "backupPrior"))], to=d)
    precede(A, v, first, d, R, "the backup itself is added too late")
    for s in d:
        if not countsFromZero(s.args[1]):
            A.bad(R, s.where, "the first backup is left out")
        A.ok(R, s.where)
    R = "the list of backups is sorted"
    for fn in [n for n, f in A.prog.fns.items() if f.file == A.prog.fns["infoBackupDataDependentList"].file]:
        w = [s for s in View(A, fn, noInline=tuple(A.prog.callees(fn)[0])).calls("lstAdd") if mentionsField(s.args[0], "backup")]
        if w and A.prog.fns[fn].ext:
            v = View(A, fn)
            srt = [s for s in v.calls("lstSort") if s.args[1] == ("int", A.prog.enum("sortOrderAsc"))]
            follow(A, v, [s for s in v.calls("lstAdd") if mentionsField(s.args[0], "backup")], srt, R, "a backup is added without sorting")
    R = "labels are listed without exception"
    v = View(A, "infoBackupDataLabelList")
    follow(A, v, v.calls("infoBackupData"), v.calls("strLstAdd"), R, "a backup is left out", [call("regExpMatch", 0)])
    follow(A, v, v.calls("infoBackupData"), v.calls("strLstAdd"), R, "a backup is left out", [call("regExpMatch", 0)], to=v.calls("infoBackupData"))
