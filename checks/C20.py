"""Expire keeps the WAL that a retained backup needs."""
from flow import LitFn, has
from lib import View, alts, callOf, cmp0, countsFromZero, follow, hasCall, holder, mentionsField, nearest, precede, rel, relLit, strHas, structArg
from graph import fmt, walkTerm
from C16 import call

ASSUME = ["WAL file names sort in the order of timeline and position", "backup labels sort in the order in which the backups were made"]
ARCH = "<REPO:ARCHIVE>"


def sub(t):
    """(base, length) of strSubN(base, 0, n), length None when not cut."""
    if t[0] == "call" and t[1] == "strSubN" and t[2][1] == ("int", 0) and t[2][2][0] == "int":
        return t[2][0], int(t[2][2][1])
    return t, None


def wal(side, lens):
    """Predicate: strCmp of a listed name with the given end of a range, cut to matching lengths."""
    def pred(c):
        (x, n), (y, m) = sub(c[2][0]), sub(c[2][1])
        return mentionsField(y, side) and (n, m) in lens
    return pred


def p_ranges(A):
    DIR = {(None, 16), (16, 16)}
    FILE = {(24, None), (24, 24)}
    fns = holder(A, "cmdExpire", lambda n, a: n == "storageList" and any(strHas(x, "[0-F]{16}") or strHas(x, "{16}") for x in a))
    if not fns:
        A.unsure("function that removes WAL not found")
    for fn in fns:
        f = A.flow(fn, {"item": "strLstGet()", "range": ("lstGet()", lambda c: True), "dir": "storagePathRemove()", "file": "storageRemove()"},
                   {"dBelow": cmp0("strCmp", "<", wal("start", DIR)), "dAbove": cmp0("strCmp", ">", wal("stop", DIR)),
                    "fBelow": cmp0("strCmp", "<", wal("start", FILE)), "fAbove": cmp0("strCmp", ">", wal("stop", FILE)),
                    "done": LitFn(lambda a, pol: a[0] == "lt" and pol is False and hasCall(a[2], "lstSize") and not hasCall(a[2], "strLstSize"), {"lstSize"}, "all ranges seen")},
                   kill={"item": {"dBelow", "dAbove", "fBelow", "fAbove", "done", "range", "dIn", "fIn"}, "range": {"dBelow", "dAbove", "fBelow", "fAbove", "done"}},
                   latch={"dIn": ("range", lambda st: has(st, "range") and not has(st, "dBelow") and not has(st, "dAbove")), "fIn": ("range", lambda st: has(st, "range") and not has(st, "fBelow") and not has(st, "fAbove"))},
                   sticky=["dBelow", "dAbove", "fBelow", "fAbove", "done"])
        R = "WAL in the range of a retained backup is not removed"
        for ev, k in (("dir", "d"), ("file", "f")):
            A.guard(f, ev, ["done"], R)
            A.guard(f, ev, [lambda st: not has(st, k + "In"), lambda st: not has(st, "range") or has(st, k + "Below") or has(st, k + "Above")], R)
        v = View(A, fn)
        for s in v.calls("lstGet"):
            if not countsFromZero(s.args[1]):
                A.bad(R, s.where, "the first range is not looked at")
            A.ok(R, s.where)


def p_keep(A):
    fns = holder(A, "cmdExpire", lambda n, a: n == "infoArchiveLoadFile")
    if len(fns) != 1:
        A.unsure("function that expires WAL not found")
        return
    v = View(A, fns[0])
    e = A.prog.enum
    rem = [s for s in v.calls("storageRemove", "storagePathRemove") if strHas(s.args[1], ARCH)]
    opt = lambda t, o: ("int", e(o)) in list(walkTerm(t))
    R = "without archive retention no WAL is removed"
    isRet = lambda t: hasCall(t, "cfgOptionIdxUInt") and opt(t, "cfgOptRepoRetentionArchive")
    zero = lambda t: t == ("int", 0)
    precede(A, v, [], rem, R, "WAL is removed although archive retention is not set",
            [relLit(("!=", ">"), isRet, zero, {"cfgOptionIdxUInt"}, "retention set"), relLit((">=",), isRet, lambda t: t == ("int", 1), {"cfgOptionIdxUInt"}, "retention set")])
    R = "WAL is kept until there are enough backups"
    before = LitFn(lambda a, pol: a[0] == "eq" and pol is False and a[2] == ("int", 0) and opt(a[1], "cfgOptArchiveExpireBefore"), {"cfgOptionStr", "cfgOptionTest"}, "explicit limit")
    isBk = lambda t: hasCall(t, "infoBackupDataLabelList")
    precede(A, v, [], rem, R, "WAL is removed although there is no backup", [before, call("strLstEmpty", 0, isBk), relLit(("!=", ">"), lambda t: hasCall(t, "strLstSize") and isBk(t), zero, {"strLstSize"}, "")])
    precede(A, v, [], rem, R, "WAL is removed although there are fewer backups than to retain",
            [before, relLit(("<=", "<", "=="), isRet, lambda t: t[0] == "call" and t[1] == "strLstSize" and isBk(t), {"strLstSize"}, "enough backups")])
    R = "histories of archive.info and backup.info agree"
    hist = [s for s in v.calls("infoPgData") if hasCall(s.args[0], "infoBackupPg")]
    for fld in ("id", "systemId", "version"):
        if not hist:
            A.bad(R, A.loc(fns[0]), "the histories are not compared")
            break
        lit = relLit(("==",), lambda t: mentionsField(t, fld) and hasCall(t, "infoBackupPg"), lambda t: mentionsField(t, fld) and not hasCall(t, "infoBackupPg"), {fld}, "same " + fld)
        follow(A, v, hist, [], R, "%s is not compared" % fld, skip=[lit], to=rem + hist)
    done = LitFn(lambda a, pol: a[0] == "lt" and pol is False and hasCall(a[2], "infoPgDataTotal"), {"infoPgDataTotal"}, "all compared")
    precede(A, v, [], rem, R, "WAL is removed before the histories were compared", [done])
    R = "the archive of the current cluster is not removed"
    cur = relLit(("!=",), lambda t: mentionsField(t, "id") and hasCall(t, "infoPgDataCurrent"), lambda t: True, {"id"}, "not the current cluster")
    whole = [s for s in rem if s.name == "storagePathRemove" and not hasCall(s.args[1], "strLstSort")]
    precede(A, v, [], whole, R, "the archive directory is removed whatever the cluster", [cur])
    none = [call("strLstEmpty", 1), relLit(("==",), lambda t: hasCall(t, "strLstSize"), zero, {"strLstSize"}, "")]
    precede(A, v, [], whole, "an archive with backups is not removed", "the archive directory is removed although there are backups", none)
    # the ranges that are kept
    R = "the WAL of every backup of the cluster is kept"
    # lists of the backups of this cluster and of the ranges
    recOf = lambda s: varType(v, s.args[1])
    bkAdd = [s for s in v.calls("lstAdd") if recOf(s) == "InfoBackupData"]
    rgAdd = [s for s in v.calls("lstAdd") if recOf(s) not in ("InfoBackupData", None)]
    if not bkAdd or not rgAdd:
        A.unsure("%s: lists of backups and ranges not found" % fns[0])
        return
    bk = nearest(v, bkAdd, v.calls("infoBackupData"))
    other = relLit(("!=",), lambda t: mentionsField(t, "backupPgId"), lambda t: not mentionsField(t, "backupPgId"), {"backupPgId"}, "of another cluster")
    uses = [s for s in v.calls("lstGet") if any(x == bkAdd[0].args[0] for x in walkTerm(s.args[0]))]
    for s in bk:
        follow(A, v, [s], bkAdd, R, "a backup of the cluster is left out", skip=[other], to=[s] + uses)
        if not countsFromZero(s.args[1]):
            A.bad(R, s.where, "the first backup is left out")
        A.ok(R, s.where)
    lbl = lambda t: mentionsField(t, "backupLabel")
    fromList = lambda t: lbl(t) and hasCall(t, "lstGet")
    later = cmp0("strCmp", ">", lambda c: lbl(c[2][0]) and lbl(c[2][1]) and hasCall(c[2][0], "lstGet"))
    later2 = cmp0("strCmp", "<", lambda c: lbl(c[2][0]) and lbl(c[2][1]) and hasCall(c[2][1], "lstGet") and not hasCall(c[2][0], "lstGet"))
    off = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and mentionsField(a[1], "backupArchiveStart") and hasCall(a[1], "lstGet"), {"backupArchiveStart"}, "offline")
    use = [s for s in uses if any(s.gid == x.gid for x in nearest(v, rgAdd, uses))]
    lists = v.calls("storageList")
    walDir = [s for s in lists if any(strHas(x, "{16}") for x in s.args)]
    follow(A, v, use, rgAdd, R, "the WAL of a backup is not kept", skip=[later, later2, off], to=uses + walDir)
    for s in use:
        if not countsFromZero(s.args[1]):
            A.bad(R, s.where, "the WAL of the first backup is not kept")
        A.ok(R, s.where)
    isBefore = lambda t: opt(t, "cfgOptArchiveExpireBefore")
    rec = recOf(rgAdd[0])
    st = v.inits(rec, "start")
    sp = v.inits(rec, "stop")
    if not st or not sp:
        A.unsure("%s: ends of the ranges not found" % fns[0])
    for s in st:
        if not (mentionsField(s.args[0], "backupArchiveStart") or isBefore(s.args[0])) or any(hasCall(s.args[0], x) for x in ("strSubN",)):
            A.bad(R, s.where, "a range starts at %s" % fmt(s.args[0])[:100])
        A.ok(R, s.where)
    R = "the WAL from the retained backup on is kept without end"
    notRet = cmp0("strCmp", ("!=", "<"), lambda c: lbl(c[2][0]) and lbl(c[2][1]))
    notRet2 = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strEq" and all(lbl(x) for x in a[1][2][:2]), {"strEq"}, "not the retained backup")
    for s in sp:
        t = s.args[0]
        if t == ("int", 0):
            pass
        elif mentionsField(t, "backupArchiveStop"):
            if not s.under(notRet) and not s.under(notRet2):
                A.bad(R, s.where, "the WAL after the retained backup is not kept")
        elif mentionsField(t, "backupArchiveStart"):        # up to the start of the retained backup
            if not s.under(before):
                A.bad(R, s.where, "a range ends at %s" % fmt(t)[:100])
        else:
            A.bad(R, s.where, "a range ends at %s" % fmt(t)[:100])
        A.ok(R, s.where)
    # explicit limit
    R = "an explicit limit is respected"
    lim = [s for s in rgAdd if any(v.escape([x.gid], [s.gid], [y.gid for y in st if y is not x], []) is not None for x in st if isBefore(x.args[0]))]
    noLim = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and isBefore(a[1]), {"cfgOptionStr", "cfgOptionTest"}, "no limit")
    newer = cmp0("strCmp", (">=", ">", "=="), lambda c: isBefore(c[2][0]))
    precede(A, v, lim, [s for s in rem if hasCall(s.args[1], "strLstSort") and not strHas(s.args[1], "history")] and walDir, R, "WAL after the limit is removed", [noLim, newer])
    c = View(A, "cmdExpire", noInline=fns)
    ok = [call("regExpMatchOne", 1, lambda t: isBefore(t) and strHas(t, "^[0-F]{24}$")), call("cfgOptionTest", 0, lambda t: opt(t, "cfgOptArchiveExpireBefore"))]
    precede(A, c, [], c.calls(*fns), R, "the limit is not checked to be a segment", ok)
    # history files
    R = "history files of retained timelines are kept"
    hf = [s for s in rem if strHas(s.args[1], ".history") or any(strHas(x, ".history") for x in walkTerm(s.args[1]) if x[0] == "call")]
    old = cmp0("strCmp", "<", lambda x: sub(x[2][0])[1] == 8 and sub(x[2][1])[1] == 8 and (mentionsField(x[2][1], "backupArchiveStart")))
    precede(A, v, [], hf, R, "a history file is removed although its timeline is retained", [old])


def varType(v, t):
    if t[0] == "addr" and t[1][0] == "var":
        ty = v.g.insts[t[1][1]].fn.locals[t[1][2]][2]
        w = [x for x in ty.replace("*", " ").split() if x not in ("const", "struct")]
        return w[0] if w else None
    return None


def p_choice(A):
    """The backup from which WAL is kept is the oldest of the newest N backups of the type."""
    fns = holder(A, "cmdExpire", lambda n, a: n == "infoArchiveLoadFile")
    if len(fns) != 1:
        return
    v = View(A, fns[0])
    e = A.prog.enum
    opt = lambda t, o: ("int", e(o)) in list(walkTerm(t))
    DESC = ("int", e("sortOrderDesc"))
    R = "backups are counted by the configured type"
    want = {"backupTypeFull": {"full"}, "backupTypeDiff": {"full", "differential"}, "backupTypeIncr": {"full", "differential", "incremental"}}
    lists = [s for s in v.calls("infoBackupDataLabelList") if hasCall(s.args[1], "backupRegExp")]
    for s in lists:
        got = {k for k in ("full", "differential", "incremental") if structArg(callOf(s.args[1], "backupRegExp")[2][0], k) == ("int", 1)}
        ty = [n for n in want if s.under(LitFn(lambda a, pol: a[0] == "eq" and pol is True and hasCall(a[1], "cfgOptionIdxStrId", "cfgOptionIdxSeq") and opt(a[1], "cfgOptRepoRetentionArchiveType") and isEnum(a[2], n, e(n)), set(), n))]
        if len(ty) == 1 and want[ty[0]] != got:
            A.bad(R, s.where, "%s counts %s" % (ty[0], ", ".join(sorted(got))))
        A.ok(R, s.where)
    if len(lists) < 3:
        A.bad(R, A.loc(fns[0]), "only %d types of retention are known" % len(lists))
    R = "the newest backups are retained"
    isBk = lambda t: hasCall(t, "infoBackupDataLabelList")
    for s in v.calls("strLstSort"):
        if isBk(s.args[0]) and s.args[1] != DESC:
            A.bad(R, s.where, "backups are not sorted from the newest on")
        if isBk(s.args[0]):
            A.ok(R, s.where)
    add = v.calls("strLstAdd")
    isNew = lambda t: t[0] == "call" and t[1] == "strLstNew"
    top = [s for s in add if callOf(s.args[1], "strLstGet") and isBk(s.args[1])]
    if not top:
        A.unsure("list of retained backups not found")
        return
    isRet = lambda t: t[0] == "call" and t[1] == "cfgOptionIdxUInt" and opt(t, "cfgOptRepoRetentionArchive") or t == ("int", 0)
    size = lambda t: t[0] == "call" and t[1] == "strLstSize" and isBk(t)
    lim = relLit(("<",), lambda t: True, lambda t: all(isRet(x) or size(x) for x, _ in alts(t)) and opt(t, "cfgOptRepoRetentionArchive"), {"cfgOptionIdxUInt"}, "within retention")
    for s in top:
        if not countsFromZero(callOf(s.args[1], "strLstGet")[2][1]) or not s.under(lim):
            A.bad(R, s.where, "not as many backups are retained as configured")
        A.ok(R, s.where)
    R = "WAL is kept from the oldest retained backup on"
    lbl = lambda t: mentionsField(t, "backupLabel")
    n = 0
    for s in v.calls("strCmp", "strEq"):
        for x, y in ((s.args[0], s.args[1]), (s.args[1], s.args[0])):
            if lbl(x) and not lbl(y) and y[0] == "call" and y[1] == "strLstGet" and isNew(y[2][0]):
                n += 1
                A.ok(R, s.where)
                if y[2][1] != ("int", 0):
                    A.bad(R, s.where, "the retained backup is %s" % fmt(y)[:80])
                for d in [d for d in add if d.args[0] == y[2][0]]:
                    g = d.args[1]
                    if g[0] != "call" or g[1] != "strLstGet":
                        continue
                    if down(g[2][1], g[2][0]) and d.under(relLit(("==",), lambda t: t[0] == "call" and t[1] == "strLstSize" and t[2][0] == y[2][0], lambda t: t == ("int", 0), {"strLstSize"}, "")):
                        continue
                    same = cmp0("strCmp", ("==",), lambda c: any(w[0] == "call" and w[1] == "strLstGet" and isNew(w[2][0]) and down(w[2][1], w[2][0]) for w in c[2][:2]))
                    same2 = call("strEq", 1, lambda c: any(w[0] == "call" and w[1] == "strLstGet" and isNew(w[2][0]) and down(w[2][1], w[2][0]) for w in c[2][:2]))
                    if not d.under(same) and not d.under(same2):
                        A.bad(R, d.where, "the retained backups are not collected from the oldest on")
                    A.ok(R, d.where)
    if not n:
        A.unsure("choice of the retained backup not found")


def isEnum(t, name, val):
    return t == ("int", val) or name in fmt(t)


def down(i, lst):
    """The index starts at the end of the list."""
    return any(x[0] == "op" and x[1] == "-" and x[2][0] == "call" and x[2][1] == "strLstSize" and x[2][2][0] == lst and x[3] == ("int", 1) for x in walkTerm(i))
