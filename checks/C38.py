"""The check command succeeds only after it has seen a segment arrive in every repository."""
from flow import LitFn, has
from graph import fmt, walkTerm
from lib import View, countsFromZero, exitOf, hasCall, implies, mentionsField, precede, strs
from C22 import p_info                                                                                          # noqa: F401 (also a part of this property)

ASSUME = ["PostgreSQL archives the segment that pg_switch_wal() has closed by the archive_command it reports"]

WAL = "check succeeds only when the segment was found in every repository"
SAME = "the segment looked for is the one just switched, in the archive of the current history of the same repository"
CONF = "info files of every repository are compared with the cluster before the switch"
ROLE = "each cluster is checked with its own version, index and role"
NONE = "without any cluster, or a standby whose repository is local without its primary, check fails"
ALL = "every stanza is checked, each with a configuration of its own"
PATH = "the data directory of every configured cluster is read"
SET = "a cluster with the wrong path, version or archive settings is an error"
SWITCH = "a segment is switched for the check even when nothing else was written"
MISS = "a segment that does not turn up within the timeout is an error"

NI = ("walSegmentFindOne", "walSegmentFind", "checkDbConfig", "checkStanzaInfoPg", "dbGet", "dbWalSwitch", "cfgLoadStanza", "storageHelperFree", "protocolFree", "dbPgControl", "infoArchiveLoadFile", "infoArchiveId", "storageList",
      "repoIsLocal", "cfgCipherSpecMainIdx", "storageRepoIdx", "storagePgIdx", "dbFree", "strLstSize", "cfgOptionGroupIdxTotal", "cfgOptionTest", "cfgOptionBool", "cfgParseStanzaList")


def zero(a, pol, want=True):
    return a[1] if a[0] == "eq" and a[2] == ("int", 0) and pol is want else None


def bound(test):
    """The two literals of a loop over test(term of the limit): (there is another one, there is none)."""
    def more(a, pol):
        return a[0] == "lt" and (pol is True and test(a[2])) or a[0] == "eq" and pol is False and (test(a[2]) and a[1][0] != "int" or test(a[1]) and a[2][0] != "int")

    def none(a, pol):
        return a[0] == "lt" and (pol is False and test(a[2])) or a[0] == "eq" and pol is True and (test(a[2]) or test(a[1]))
    return more, none


def total(A, grp):
    n = ("int", A.prog.enum(grp))
    return bound(lambda t: t[0] == "call" and t[1] == "cfgOptionGroupIdxTotal" and t[2][0] == n)


def role(name):
    def null(a, pol):
        t = zero(a, pol)
        return t is not None and t[0] in ("fld", "ofld") and t[2] == name
    return LitFn(null, {name}, "there is no " + name)


def p_wal(A):
    more, none = total(A, "cfgOptGrpRepo")
    w = {"cfgOptionGroupIdxTotal"}
    report = A.prog.enum("cfgOptReport")
    f = A.flow("cmdCheck", {"get": "dbGet()", "switch": "dbWalSwitch()", "find": "walSegmentFindOne()|walSegmentFind()", "conf": "checkStanzaInfoPg()", "set": "checkDbConfig()"},
               {"more": LitFn(more, w, "another repository"), "none": LitFn(none, w, "all repositories"), "np": role("primary"), "ns": role("standby"),
                "local": LitFn(lambda a, pol: zero(a, pol, False) is not None and zero(a, pol, False)[0] == "call" and zero(a, pol, False)[1] == "repoIsLocal", {"repoIsLocal"}, "a local repository"),
                "lost": LitFn(lambda a, pol: zero(a, pol) is not None and (zero(a, pol)[0] == "hav" or zero(a, pol)[0] == "call" and zero(a, pol)[1] == "repoIsLocal") or a[0] == "or", {"repoIsLocal"}, "not known of all repositories"),
                "report": LitFn(lambda a, pol: zero(a, pol, False) is not None and zero(a, pol, False)[0] == "call" and ("int", report) in zero(a, pol, False)[2], {"cfgOptionBool"}, "report")},
               kill={"get": {"more", "none", "np", "ns", "local", "lost", "switch", "find", "conf", "set"}, "switch": {"more", "none", "find"}, "find": {"more"}, "conf": {"more"}, "set": {"more", "none", "conf"}},
               noInline=NI, sticky=["more", "none", "np", "ns", "local", "lost", "report"])
    n = 0
    for (st, ret), node in f.exits.items():
        if not has(st, "get"):
            continue
        n += 1
        at = A.loc("cmdCheck")
        if has(st, "np") and has(st, "ns"):
            A.bad(NONE, at, "check succeeds without any cluster")
        if has(st, "np") and has(st, "local") and not has(st, "lost"):
            A.bad(NONE, at, "check succeeds for a standby with a local repository although the primary was not found")
        if not has(st, "np"):
            if not has(st, "switch"):
                A.bad(WAL, at, "check succeeds without a switch of the segment on the primary")
            elif has(st, "more"):
                A.bad(WAL, at, "a repository is passed without the segment being looked for in it")
            elif not has(st, "none"):
                A.bad(WAL, at, "check ends before the segment was looked for in all repositories")
        A.ok(WAL, at)
    if not n:
        A.unsure("check has no end", WAL)
    for o in f.occ["switch"].values():
        if not has(o.st, "set"):
            A.bad(SET, o.where, "the segment is switched before the settings of the cluster were checked")
        elif has(o.st, "more"):
            A.bad(CONF, o.where, "the info files of a repository are not looked at")
        elif not has(o.st, "none"):
            A.bad(CONF, o.where, "the segment is switched before the info files of all repositories were looked at")
        A.ok(CONF, o.where)


def p_standby(A):
    """The same for a standby: info files compared."""
    v = View(A, "cmdCheck", noInline=NI)
    sets = [s for s in v.calls("checkDbConfig") if any(mentionsField(x, "standby") for x in s.args)]
    conf = [s for s in v.calls("checkStanzaInfoPg") if any(mentionsField(x, "standby") for x in s.args)]
    if not sets:
        A.bad(ROLE, A.loc("cmdCheck"), "the settings of a standby are not checked")
        return
    if not conf:
        A.bad(CONF, A.loc("cmdCheck"), "the info files are not compared with the standby")
        return

    def ns(a, pol):
        t = zero(a, pol)
        return t is not None and t[0] in ("fld", "ofld") and t[2] == "standby"
    more, none = total(A, "cfgOptGrpRepo")
    g = v.calls("dbGet")
    ends = [exitOf(v)] + g
    r = v.escape([s.gid for s in g], [e.gid for e in ends], [s.gid for s in sets], [ns])
    if r is not None:
        A.bad(ROLE, g[0].where, "a standby is passed without a check of its settings")
    r = v.escape([s.gid for s in g], [e.gid for e in ends], [s.gid for s in conf], [ns, none])
    if r is not None:
        A.bad(CONF, g[0].where, "a standby is passed without a look at the info files")
    A.ok(CONF, conf[0].where)


def roleOf(t):
    out = set()
    for x in walkTerm(t):
        if x[0] in ("fld", "ofld"):
            if x[2] in ("primary", "primaryIdx"):
                out.add(0)
            if x[2] in ("standby", "standbyIdx"):
                out.add(1)
    return out


def isRole(t, one):
    if t[0] == "int":
        return {int(t[1] != 0)} == one
    return t[0] in ("hav", "p") or t[0] == "call" and t[1] == "dbIsStandby" and roleOf(t) <= one or t[0] in ("fld", "ofld") and t[2] == "standby" and roleOf(t[1]) == one


def raw(e):
    """The array accesses in an expression."""
    if isinstance(e, (list, tuple)):
        if e and e[0] == "x":
            yield e
        for x in e:
            yield from raw(x)


def p_args(A):
    v = View(A, "cmdCheck", noInline=NI)
    sets = v.calls("checkDbConfig")
    if not sets:
        A.bad(ROLE, A.loc("cmdCheck"), "settings are not checked")
    for s in sets:
        r = [roleOf(x) for x in s.args]
        one = r[2]
        if len(one) != 1:
            A.unsure("the cluster of %s is not known" % s.where, ROLE)
            continue
        if r[0] != one or r[1] != one or not isRole(s.args[3], one) or not any(x[0] in ("fld", "ofld") and x[2] == "version" for x in walkTerm(s.args[0])):
            A.bad(ROLE, s.where, "checked with %s" % ", ".join(fmt(x)[:50] for x in s.args))
        A.ok(ROLE, s.where)
    for s in v.calls("checkStanzaInfoPg"):
        r1, r2 = roleOf(s.args[1]), roleOf(s.args[2])
        if len(r1) != 1 or r1 != r2 or not any(x[0] in ("fld", "ofld") and x[2] == "version" for x in walkTerm(s.args[1])) or not any(x[0] in ("fld", "ofld") and x[2] == "systemId" for x in walkTerm(s.args[2])):
            A.bad(ROLE, s.where, "info files are compared with %s, %s" % (fmt(s.args[1])[:60], fmt(s.args[2])[:60]))
        A.ok(ROLE, s.where)
        index(A, v, s, CONF)
    for s in v.calls("dbWalSwitch"):
        if roleOf(s.args[0]) != {0}:
            A.bad(ROLE, s.where, "the segment is switched on %s" % fmt(s.args[0])[:60])
        A.ok(ROLE, s.where)
    k = A.prog.enum("cfgOptArchiveTimeout")
    find = v.calls("walSegmentFindOne")
    if not find:
        A.unsure("walSegmentFindOne() is not called", SAME)
    for s in find:
        A.ok(SAME, s.where)
        index(A, v, s, WAL)
        if not hasCall(s.args[2], "dbWalSwitch"):
            A.bad(SAME, s.where, "%s is looked for" % fmt(s.args[2])[:60])
        if not hasCall(s.args[1], "infoArchiveId"):
            A.bad(SAME, s.where, "it is looked for in %s" % fmt(s.args[1])[:80])
        i = s.args[0][2][0] if s.args[0][0] == "call" else None
        for e in raw(s.p.data[3][1]):
            x = v.value(s.inst, e[2], s.p.idx)
            if x[0] != "hav" and i is not None and i[0] != "hav" and x != i:
                A.bad(SAME, s.where, "the archive id is the one of %s" % fmt(x)[:60])
        if s.args[3] == ("int", 0) or not (any(x == ("int", k) for x in walkTerm(s.args[3])) or any(x[0] == "hav" for x in walkTerm(s.args[3])) or s.args[3][0] == "int" and s.args[3][1] > 0):
            A.bad(MISS, s.where, "a missing segment is no error (timeout %s)" % fmt(s.args[3])[:40])
    for s in v.calls("infoArchiveLoadFile"):
        a = [x[2][0] for x in walkTerm(s.args[0]) if x[0] == "call" and x[1] == "storageRepoIdx"]
        b = [x[2][0] for x in walkTerm(s.args[2]) if x[0] == "call" and x[1] == "cfgCipherSpecMainIdx"]
        if a and b and a != b:
            A.bad(SAME, s.where, "archive.info of %s is loaded with the cipher of %s" % (fmt(a[0])[:40], fmt(b[0])[:40]))
        A.ok(SAME, s.where)


def index(A, v, s, rule):
    t = [x for x in walkTerm(s.args[0]) if x[0] == "call" and x[1] == "storageRepoIdx"]
    if not t:
        A.bad(rule, s.where, "%s is not the storage of the repository of the loop" % fmt(s.args[0])[:60])
    elif t[0][2][0][0] != "hav" and not countsFromZero(t[0][2][0]):
        A.bad(rule, s.where, "repositories are counted %s" % fmt(t[0][2][0])[:60])


def p_stanza(A):
    def size(t):
        return t[0] == "call" and t[1] in ("strLstSize", "lstSize")
    more, none = bound(size)
    st = ("int", A.prog.enum("cfgOptStanza"))
    report = ("int", A.prog.enum("cfgOptReport"))

    def optIs(k, want):
        def lit(a, pol):
            t = zero(a, pol, not want)
            return t is not None and t[0] == "call" and t[1].startswith("cfgOption") and k in t[2]
        return lit
    f = A.flow("cmdCheck", {"get": "dbGet()", "load": "cfgLoadStanza()", "sf": "storageHelperFree()", "pf": "protocolFree()"},
               {"more": LitFn(more, {"strLstSize", "lstSize"}, "another stanza"), "none": LitFn(none, {"strLstSize", "lstSize"}, "no more stanzas"), "given": LitFn(optIs(st, True), {"cfgOptionTest"}, "a stanza is given"),
                "report": LitFn(optIs(report, True), {"cfgOptionBool"}, "report")},
               kill={"get": {"more", "none"}, "load": {"get"}}, noInline=NI, sticky=["more", "none", "given", "report"])
    n = 0
    for (s, ret), node in f.exits.items():
        n += 1
        if has(s, "report") or has(s, "none") and not has(s, "more"):
            A.ok(ALL, A.loc("cmdCheck"))
        else:
            A.bad(ALL, A.loc("cmdCheck"), "check ends before all stanzas were checked")
    if not n:
        A.unsure("check has no end", ALL)
    for o in f.occ["get"].values():
        if not has(o.st, "given") and not has(o.st, "load"):
            A.bad(ALL, o.where, "a stanza is checked without its configuration being loaded")
        A.ok(ALL, o.where)
    for o in f.occ["load"].values():
        if not has(o.st, "sf") or not has(o.st, "pf"):
            A.bad(ALL, o.where, "a configuration is loaded while storages or connections of the last one are kept")
        A.ok(ALL, o.where)
    v = View(A, "cmdCheck", noInline=NI)
    for s in v.calls("cfgLoadStanza"):
        t = [x for x in walkTerm(s.args[0]) if x[0] == "call" and x[1] == "strLstGet"]
        if t and (not hasCall(t[0], "cfgParseStanzaList") or t[0][2][1][0] != "hav" and not countsFromZero(t[0][2][1])):
            A.bad(ALL, s.where, "stanza %s is loaded" % fmt(t[0])[:80])


def p_paths(A):
    v = View(A, "cmdCheck", noInline=NI)
    ls = [s for s in v.calls("storageList") if hasCall(s.args[0], "storagePgIdx")]
    if not ls:
        A.bad(PATH, A.loc("cmdCheck"), "no data directory is read")
    more, none = total(A, "cfgOptGrpPg")
    for s in ls:
        t = [x for x in walkTerm(s.args[0]) if x[0] == "call" and x[1] == "storagePgIdx"][0][2][0]
        if t[0] != "hav" and not countsFromZero(t):
            A.bad(PATH, s.where, "clusters are counted %s" % fmt(t)[:60])
        A.ok(PATH, s.where)
    f = A.flow("cmdCheck", {"get": "dbGet()", "list": ("storageList()", lambda ctx: hasCall(ctx.arg(0), "storagePgIdx"))},
               {"more": LitFn(more, {"cfgOptionGroupIdxTotal"}, "another cluster"), "none": LitFn(none, {"cfgOptionGroupIdxTotal"}, "no more clusters")}, noInline=NI, kill={"get": {"more", "none"}, "list": {"more"}},
               sticky=["more", "none"])
    for (st, ret), node in f.exits.items():
        if has(st, "get") and (has(st, "more") or not has(st, "none")):
            A.bad(PATH, A.loc("cmdCheck"), "check succeeds without a read of the data directory of a cluster")


def p_settings(A):
    e = A.prog.enum
    v = {"p": [("p", i) for i in range(len(A.prog.fns["checkDbConfig"].params))]}

    def call(t, *names):
        return t[0] == "call" and t[1] in names

    def version(a, pol):
        return a[0] == "eq" and pol is True and any(x == ("p", 0) and (mentionsField(y, "pgVersion") or hasCall(y, "dbPgVersion")) for x, y in ((a[1], a[2]), (a[2], a[1])))

    def path(a, pol):
        t = zero(a, pol) if zero(a, pol) is not None and call(zero(a, pol), "strCmp") else zero(a, pol, False)
        if t is None or not (call(t, "strCmp") and pol is True or call(t, "strEq") and pol is False):
            return False
        k = ("int", e("cfgOptPgPath"))
        return any(call(x, "cfgOptionIdxStr", "cfgOptionIdxStrNull") and x[2][0] == k and x[2][1] == ("p", 1) for x in t[2]) and any(mentionsField(x, "pgDataPath") or hasCall(x, "dbPgDataPath") for x in t[2])

    def mode(word):
        def lit(a, pol):
            t = a[1] if a[0] == "eq" and a[2] == ("int", 0) else None
            if t is None or not (call(t, "strCmpZ", "strCmp") and pol is False or call(t, "strEq", "strEqZ") and pol is True):
                return False
            return word in strs(t) and any(mentionsField(x, "archiveMode") or hasCall(x, "dbArchiveMode") for x in t[2])
        return lit

    def opt(name, want):
        def lit(a, pol):
            t = zero(a, pol, not want)
            return t is not None and t[0] == "call" and t[1].startswith("cfgOption") and ("int", e(name)) in t[2]
        return lit

    def cmdSet(a, pol):
        t = zero(a, pol, False)
        return t is not None and (t[0] in ("fld", "ofld") and t[2] == "archiveCommand" or call(t, "dbArchiveCommand"))

    def cmdOurs(a, pol):
        t = zero(a, pol, False)
        return t is not None and (call(t, "strstr") and "pgbackrest" in strs(t) and any(mentionsField(x, "archiveCommand") or hasCall(x, "dbArchiveCommand") for x in t[2][:1]) or call(t, "strstr") and any(x[0] == "hav" for x in walkTerm(t)))
    standby = ("p", 3)
    lits = {"version": LitFn(version, {("p", 0)}, "same version"), "path": LitFn(path, {"strCmp", "strEq"}, "same path"),
            "standby": LitFn(lambda a, pol: zero(a, pol, False) == standby, {standby}, "standby"),
            "off": LitFn(lambda a, pol: opt("cfgOptArchiveCheck", False)(a, pol), {"cfgOptionBool", "cfgOptionValid"}, "no archive check"), "modeNo": LitFn(opt("cfgOptArchiveModeCheck", False), {"cfgOptionBool"}, "no mode check"),
            "on": LitFn(mode("off"), {"strCmpZ", "strCmp", "strEq", "strEqZ"}, "archive_mode is not off"), "notAlways": LitFn(mode("always"), {"strCmpZ", "strCmp", "strEq", "strEqZ"}, "archive_mode is not always"),
            "set": LitFn(cmdSet, {"archiveCommand", "dbArchiveCommand"}, "there is an archive_command"), "ours": LitFn(cmdOurs, {"strstr"}, "archive_command is pgbackrest")}
    f = A.flow("checkDbConfig", {}, lits, sticky=list(lits), trackRet=True)
    n = 0
    at = A.loc("checkDbConfig")
    for (st, ret), node in f.exits.items():
        n += 1
        for l, what in (("version", "the version of the cluster is not compared"), ("path", "the path of the cluster is not compared")):
            if not has(st, l):
                A.bad(SET, at, what)
        if not has(st, "standby") and not has(st, "off"):
            if not has(st, "on"):
                A.bad(SET, at, "archive_mode = off is accepted")
            if not has(st, "notAlways") and not has(st, "modeNo"):
                A.bad(SET, at, "archive_mode = always is accepted")
            if not has(st, "set") or not has(st, "ours"):
                A.bad(SET, at, "an archive_command without pgbackrest is accepted")
        A.ok(SET, at)
    if not n:
        A.unsure("checkDbConfig() never returns", SET)


def p_switch(A):
    v = View(A, "dbWalSwitch", noInline=("dbQueryColumn", "dbQueryRow", "dbQuery", "dbExec"))
    q = v.calls("dbQueryColumn", "dbQueryRow", "dbQuery", "dbExec")
    point = [s for s in q if any("pg_create_restore_point" in x for x in strs(s.args[-1]))]
    sw = [s for s in q if any("pg_switch_" in x for x in strs(s.args[-1]))]
    if not sw:
        A.unsure("the switch is not found", SWITCH)
        return
    precede(A, v, point, sw, SWITCH, "the segment is switched without anything being written to it first")


def p_find(A):
    f = A.flow("walSegmentFind", {}, {"noTimeout": ".timeout == 0"}, trackRet=True)
    A.retGuard(f, lambda t: t == ("int", 0), ["noTimeout"], MISS, "no segment")
