"""A backup leaves out only what PostgreSQL makes anew and what the user excludes."""
import re

from flow import LitFn, has
from graph import fmt, walkTerm
from C34 import globStrs
from lib import View, hasCall, strs, structArg

ASSUME = ["the list of files that may be left out is the one of the documentation of PostgreSQL's base backup and of pgBackRest",
          "the storage lists every entry of a directory (C34)", "POSIX extended regular expressions mean what Python's mean for the expressions used here"]

SKIP = "an entry is left out only for a listed reason"
DEPTH = "every entry of a directory is looked at"
FIELDS = "an entry is recorded with its own attributes"
LINK = "a link is followed, its destination must exist"
EMPTY = "only an empty file in a bundled backup is recorded without being copied"
EXPR = "the expressions tell temporary and permanent relations apart"
EXCL = "the user's exclusions are taken as they are"
UNLOG = "a relation counts as unlogged only when its own init fork is there"
SET = "the manifest is built for this cluster with the options of the command"

CONTENT = {"pg_dynshmem", "pg_notify", "pg_replslot", "pg_serial", "pg_snapshots", "pg_stat_tmp", "pg_subtrans"}
FILES = {"postgresql.auto.conf.tmp", "backup_label", "backup_label.old", "postmaster.opts", "postmaster.pid"}
FROM12 = {"recovery.signal", "standby.signal"}
TO12 = {"recovery.conf", "recovery.done"}
FROM13 = {"backup_manifest", "backup_manifest.tmp"}
NAMES = CONTENT | FILES | FROM12 | TO12 | FROM13 | {"archive_status"}

NAME, PARENT, DB = ("fld", ("p", 4), "name"), ("p", 1), ("p", 3)


def fld(t, *path):
    """t is the field path of something (the record types of fields are erased)."""
    for x in reversed(path):
        if t[0] not in ("fld", "ofld") or t[-1] != x and t[2] != x:
            return False
        t = t[1]
    return True


def truth(a, pol):
    """The term a literal says is true (non-zero), or None."""
    return a[1] if pol is False and a[0] == "eq" and a[2] == ("int", 0) else None


def isStr(t, s):
    return s in strs(t) and len(strs(t)) == 1 and not any(x[0] == "call" for x in walkTerm(t))


def callOf(t, *names):
    return t if t is not None and t[0] == "call" and t[1] in names else None


def isName(t):
    return t[0] in ("fld", "ofld") and "name" in t[1:] and t[1] == ("p", 4)


def same(A, other, name):
    """A literal: strEq(other, name), for a string or a predicate of a term."""
    def f(a, pol):
        c = callOf(truth(a, pol), "strEq", "strEqZ")
        return bool(c) and any(other(x) and (name(y) if callable(name) else isStr(y, name)) for x, y in (c[2], c[2][::-1]))
    return LitFn(f, {"strEq", "strEqZ"}, "is %s" % (name if isinstance(name, str) else "the name"))


def full(t):
    """The name of an entry in the manifest: parent/name."""
    return t[0] == "call" and t[1] == "strNewFmt" and "%s/%s" in strs(t) and [x for x in walkTerm(t) if x == PARENT] and any(isName(x) for x in walkTerm(t))


def listLit(field):
    def f(a, pol):
        c = callOf(truth(a, pol), "strLstExists")
        return bool(c) and fld(c[2][0], field) and c[2][0][1] == ("p", 0) and bool(full(c[2][1]))
    return LitFn(f, {"strLstExists"}, "the name is on the list %s" % field)


def version(bound, old):
    """pgVersion < bound (old) or >= bound."""
    def f(a, pol):
        if a[0] == "lt" and a[2][0] == "int" and any(x[0] in ("fld", "ofld") and x[2] == "pgVersion" for x in walkTerm(a[1])):
            return pol is True and a[2][1] <= bound if old else pol is False and a[2][1] >= bound
        if a[0] == "lt" and a[1][0] == "int" and any(x[0] in ("fld", "ofld") and x[2] == "pgVersion" for x in walkTerm(a[2])):
            return pol is False and a[1][1] < bound if old else pol is True and a[1][1] >= bound - 1
        return False
    return LitFn(f, {"pgVersion"}, "pgVersion %s %d" % ("<" if old else ">=", bound))


def field(name):
    return LitFn(lambda a, pol: truth(a, pol) is not None and fld(truth(a, pol), name) and truth(a, pol)[1] == ("p", 0), {name}, name)


def loose(a, pol):
    """A test of the name that cannot be read: against something that is not a constant."""
    c = callOf(truth(a, pol), "strEq", "strEqZ", "strLstExists", "strBeginsWith", "strBeginsWithZ", "strEndsWith", "strEndsWithZ", "regExpMatch", "regExpMatchOne")
    if not c or not any(isName(x) for t in c[2] for x in walkTerm(t)):
        return False
    return any(x[0] in ("hav", "phi", "ite", "idx", "deref") or x[0] == "glob" and not strs(x) for t in c[2] for x in walkTerm(t))


def table(A, t):
    """The strings of a table of constants."""
    return set().union(*[globStrs(A.prog, x[1]) for x in walkTerm(t) if x[0] == "glob"] or [set()])


def build(A):
    lit = {"tmp": LitFn(lambda a, pol: bool(callOf(truth(a, pol), "strBeginsWithZ", "strBeginsWith")) and isName(truth(a, pol)[2][0]) and isStr(truth(a, pol)[2][1], "pgsql_tmp"), {"strBeginsWithZ", "strBeginsWith"}, "the name begins with pgsql_tmp"),
           "single": listLit("excludeSingle"), "content": listLit("excludeContent"),
           "root": same(A, lambda t: t == PARENT, "pg_data"), "online": field("online"),
           "wal": same(A, lambda t: t == PARENT, lambda t: fld(t, "manifestWalName") and t[1] == ("p", 0)),
           "db": LitFn(lambda a, pol: truth(a, pol) == DB, {DB}, "in the path of a database"),
           "init": LitFn(lambda a, pol: bool(callOf(truth(a, pol), "strBeginsWithZ", "strBeginsWith")) and isName(truth(a, pol)[2][0]) and isStr(truth(a, pol)[2][1], "pg_internal.init"), {"strBeginsWithZ", "strBeginsWith"}, "the name begins with pg_internal.init"),
           "len": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 16) and bool(callOf(a[1], "strSize")) and isName(a[1][2][0]), {"strSize"}, "and is not longer"),
           "pid": LitFn(lambda a, pol: bool(callOf(truth(a, pol), "regExpMatchOne")) and pidExp(truth(a, pol)[2][0]) and any(isName(x) for x in walkTerm(truth(a, pol)[2][1])), {"regExpMatchOne"}, "or ends with a process id"),
           "temp": LitFn(lambda a, pol: bool(callOf(truth(a, pol), "regExpMatch")) and fld(truth(a, pol)[2][0], "tempRelationExp") and isName(truth(a, pol)[2][1]), {"regExpMatch"}, "the name is that of a temporary relation"),
           "end": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and bool(callOf(a[1], "storageItrMore")), {"storageItrMore"}, "no more entries"),
           "ge12": version(120000, False), "lt12": version(120000, True), "ge13": version(130000, False),
           "special": LitFn(lambda a, pol: pol is True and a[0] == "eq" and fld(a[1], "type") and a[1][1] == ("p", 4) and a[2] == ("int", A.prog.enum("storageTypeSpecial")), {"type"}, "a special file"),
           "loose": LitFn(loose, {"strEq", "strEqZ", "strLstExists", "strBeginsWith", "strBeginsWithZ", "strEndsWith", "strEndsWithZ", "regExpMatch", "regExpMatchOne"}, "a test of the name that cannot be read")}
    for n in NAMES:
        lit["=" + n] = same(A, isName, n)
    for k, names in (("content", CONTENT), ("files", FILES)):
        lit["=@" + k] = same(A, isName, lambda t, names=names: t[0] in ("idx", "fld", "deref") and table(A, t) and table(A, t) <= names)
    ev = {"file": "manifestFileAdd()", "path": "manifestPathAdd()", "rec": "manifestBuildInfo()", "link": "manifestLinkAdd()",
          "target": "manifestTargetAdd()", "next": "storageItrNext()", "warn": "logInternal()|logInternalFmt()"}
    return A.flow("manifestBuildInfo", ev, lit, kill={"rec": ["next"], "next": ["rec"]}, sticky=list(lit))


def pidExp(t):
    """An expression that matches the end of pg_internal.init.PID only."""
    s = strs(t)
    try:
        e = re.compile(next(iter(s))) if len(s) == 1 else None
    except re.error:
        e = None
    return bool(e and e.search(".123") and not e.search("") and not e.search("x") and not e.search(".x"))


def one(st, *names):
    return any(has(st, "=" + n) for n in names)


def reason(st):
    """Why an entry was left out, or what was done with it."""
    if has(st, "tmp") or has(st, "single"):
        return True
    if has(st, "file"):
        return True
    if has(st, "link") and has(st, "target") and has(st, "rec"):
        return True
    if has(st, "path"):
        return has(st, "content") or has(st, "root") and one(st, "@content", *CONTENT) or has(st, "online") and has(st, "wal") and one(st, "archive_status") or has(st, "end")
    if has(st, "special") and has(st, "warn"):
        return True
    if has(st, "db") and (has(st, "init") and (has(st, "len") or has(st, "pid")) or has(st, "temp")):
        return True
    if has(st, "online") and has(st, "wal"):
        return True
    return has(st, "root") and (one(st, "@files", *FILES) or has(st, "ge12") and one(st, *FROM12) or has(st, "lt12") and one(st, *TO12) or has(st, "ge13") and one(st, *FROM13))


def p_skip(A):
    f = build(A)
    if f.coarse:
        A.unsure("too many paths", SKIP)
        return
    n = 0
    for (st, ret), node in f.exits.items():
        n += 1
        if not reason(st):
            if has(st, "loose"):
                A.unsure("the reason for leaving out an entry cannot be read", SKIP)
                continue
            what = sorted(x for x in f.labels(st) if x not in ("warn",))
            A.bad(SKIP, A.loc("manifestBuildInfo"), "an entry is left out without a listed reason (known on this path: %s)" % (", ".join(what) or "nothing"))
        elif has(st, "next"):
            A.bad(DEPTH, A.loc("manifestBuildInfo"), "an entry of a directory is read but not handed on")
        else:
            A.ok(SKIP, A.loc("manifestBuildInfo"))
    if n < 8:
        A.unsure("only %d ways out of manifestBuildInfo()" % n, SKIP)
    for o in f.occ["next"].values():
        if has(o.st, "next"):
            A.bad(DEPTH, o.where, "the next entry of a directory is read before the last was handed on")
        else:
            A.ok(DEPTH, o.where)


def itrOf(t):
    return next((x for x in walkTerm(t) if x[0] == "call" and x[1] == "storageNewItr"), None)


def p_depth(A):
    v = View(A, "manifestBuildInfo")
    for s in v.calls("manifestBuildInfo"):
        up, pg, db = s.args[1], s.args[2], s.args[3]
        if hasCall(s.args[4], "storageItrNext") or any(x[0] == "call" and x[1] == "storageItrNext" for x in walkTerm(s.args[4])) or full(up):
            for c in [x for x in walkTerm(db) if x[0] == "call" and x[1] == "regExpMatch"]:
                if not fld(c[2][0], "dbPathExp") or not full(c[2][1]):
                    A.bad(DEPTH, s.where, "whether a path is the path of a database is decided by %s" % fmt(c)[:120])
            if not hasCall(db, "regExpMatch") or DB in list(walkTerm(db)):
                A.bad(DEPTH, s.where, "the entries of a path are taken for those of a database when %s" % fmt(db)[:80])
            if not full(up):
                A.bad(DEPTH, s.where, "the name of the path is %s" % fmt(up)[:120])
            A.ok(DEPTH, s.where)
        else:
            if db != DB:
                A.bad(LINK, s.where, "what a link leads to is taken for a part of a database when %s" % fmt(db)[:80])
            A.ok(LINK, s.where)
    for s in v.calls("storageNewItr"):
        if structArg(s.args[2], "expression") not in (None, ("int", 0)) or structArg(s.args[2], "level") not in (None, ("int", 0)) and False:
            A.bad(DEPTH, s.where, "the list of entries is filtered")
        A.ok(DEPTH, s.where)


def p_link(A):
    missing = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and fld(a[1], "exists") and follows(a[1]), {"exists"}, "the destination of the link is missing")
    there = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and fld(a[1], "exists") and follows(a[1]), {"exists"}, "the destination of the link is there")
    f = A.flow("manifestBuildInfo", {"link": "manifestLinkAdd()", "rec": "manifestBuildInfo()", "look": ("storageInfo()", lambda ctx: structArg(ctx.arg(2), "followLink") == ("int", 1) and structArg(ctx.arg(2), "ignoreMissing") in (None, ("int", 0)))},
               {"miss": missing, "there": there}, sticky=["miss", "there"])
    for o in f.occ["rec"].values():
        if not has(o.st, "link"):
            continue
        if has(o.st, "there") or has(o.st, "look"):
            A.ok(LINK, o.where)
        else:
            A.bad(LINK, o.where, "a link is followed although its destination may be missing")


def follows(t):
    c = next((x for x in walkTerm(t) if x[0] == "call" and x[1] == "storageInfo"), None)
    return c is None or structArg(c[2][2], "followLink") == ("int", 1)


OWN = {"ManifestFile": {"size": "size", "sizeOriginal": "size", "sizeRepo": "size", "mode": "mode", "user": "user", "group": "group", "timestamp": "timeModified"},
       "ManifestPath": {"mode": "mode", "user": "user", "group": "group"},
       "ManifestLink": {"user": "user", "group": "group", "destination": "linkDestination"}}


def p_fields(A):
    v = View(A, "manifestBuildInfo", noInline=("manifestPathAdd", "manifestFileAdd", "manifestLinkAdd", "manifestTargetAdd"))
    for rec, fields in OWN.items():
        for to, frm in fields.items():
            got = v.inits(rec, to)
            for s in got:
                t = s.args[-1]
                if t[0] == "int" and t[1] == 0:
                    continue
                # The path added for a tablespace has the attributes of another path
                if rec == "ManifestPath" and (hasCall(t, "manifestPathFind") or fld(t, to)) and t[1] != ("p", 4):
                    continue
                if t != ("fld", ("p", 4), frm) and not (fld(t, frm) and t[1] == ("p", 4)):
                    A.bad(FIELDS, s.where, "%s is set to %s" % (to, fmt(t)[:120]))
                else:
                    A.ok(FIELDS, s.where)
            if not any(fld(s.args[-1], frm) for s in got):
                A.bad(FIELDS, A.loc("manifestBuildInfo"), "%s is not recorded" % to)
    for rec in ("ManifestFile", "ManifestPath", "ManifestLink"):
        for s in v.inits(rec, "name"):
            t = s.args[-1]
            if t != ("int", 0) and not full(t) and not (t[0] == "call" and t[1] == "strSub" and full(t[2][0])) and not isStr(t, "pg_tblspc") and t[0] not in ("phi", "hav", "ite"):
                A.bad(FIELDS, s.where, "the name is %s" % fmt(t)[:120])
    f = A.flow("manifestBuildInfo", {"no": "=ManifestFile.copy:0", "file": "manifestFileAdd()"},
               {"zero": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and fld(a[1], "size"), {"size"}, "the file is empty"),
                "bundle": LitFn(lambda a, pol: truth(a, pol) is not None and fld(truth(a, pol), "bundle"), {"bundle"}, "files are bundled")}, sticky=["zero", "bundle"])
    A.guard(f, "no", ["zero", "bundle"], EMPTY, min=0)
    if not any(s.args[-1] == ("int", 1) for s in v.inits("ManifestFile", "copy")):
        A.bad(EMPTY, A.loc("manifestBuildInfo"), "files are not marked to be copied")


TS = "PG_15_202209061"
DBPATH = (["pg_data/global", "pg_data/base/1", "pg_data/base/16384", "pg_tblspc/1/%s/1" % TS, "pg_tblspc/16387/%s/16385" % TS],
          ["pg_data", "pg_data/base", "pg_data/base/pgsql_tmp", "pg_data/global/x", "pg_data/base/1/x", "pg_data/pg_wal", "pg_data/pg_xact", "pg_tblspc/1", "pg_tblspc/1/PG_14_202107181/1",
           "pg_tblspc/1/%s" % TS, "pg_tblspc/1/%s/1/x" % TS, "xpg_data/global", "pg_data/globalx", "pg_data/base/1x", "pg_data/myglobal", "pg_data/x/pg_data/global"])
TEMP = (["t1_1", "t12_16384", "t1_1_fsm", "t1_1_vm", "t1_1.1", "t1_1_fsm.12"],
        ["16384", "1", "16384_fsm", "16384.1", "16384_init", "t1", "t_1", "t1_", "t1_x", "tx_1", "xt1_1", "t1_1x", "t1_1_init", "pg_filenode.map", "PG_VERSION", "t1_1.x", "pg_control", "1_t1_1"])
REL = (["1", "16384", "16384_fsm", "16384_vm", "16384.1", "16384_vm.12"],
       ["16384_init", "16384_init.1", "pg_filenode.map", "PG_VERSION", "pg_control", "x", "16384x", "t1_16384", "x16384", "16384_x", "pg_internal.init", "16384_initx"])


def compiled(t):
    s = strs(t)
    c = [x for x in walkTerm(t) if x[0] == "call" and x[1] in ("regExpNew", "strNewFmt", "pgTablespaceId", "strZ")]
    if len(s) != 1 or s[0].count("%") > 1:
        return None
    if "%s" in s[0] and not any(x[1] == "pgTablespaceId" for x in c):
        return None
    try:
        return re.compile(s[0].replace("%s", TS))
    except re.error:
        return None


def tryOn(A, where, t, corpus, what, prefix=""):
    e = compiled(t)
    if e is None:
        A.unsure("the expression for %s cannot be read: %s" % (what, fmt(t)[:100]), EXPR)
        return
    for x, want in [(x, True) for x in corpus[0]] + [(x, False) for x in corpus[1]]:
        if bool(e.search(prefix + x)) != want:
            A.bad(EXPR, where, "%s%s is %staken for %s by %s" % (prefix, x, "not " if want else "", what, e.pattern))
    A.ok(EXPR, where, len(corpus[0]) + len(corpus[1]))


def p_expr(A):
    v = View(A, "manifestNewBuild", noInline=("manifestBuildInfo",))
    for f, corpus, what in (("dbPathExp", DBPATH, "the path of a database"), ("tempRelationExp", TEMP, "a temporary relation")):
        got = [s for s in v.inits("ManifestBuildData", f) if s.args[-1] != ("int", 0)]
        if not got:
            A.unsure("no value of %s" % f, EXPR)
        for s in got:
            tryOn(A, s.where, s.args[-1], corpus, what)
    use = [s for s in v.calls("regExpMatch") if hasCall(s.args[1], "manifestFileNameGet")]
    for s in use:
        for d in DBPATH[0]:
            tryOn(A, s.where, s.args[0], REL, "a relation", d + "/")
        tryOn(A, s.where, s.args[0], ([], [x + "/16384" for x in DBPATH[1]] + DBPATH[0][:1]), "a relation")


INTO = {"manifest": None, "storagePg": 0, "online": 4, "checksumPage": 5, "tablespaceList": 10, "blockIncrMap": 8}


def p_set(A):
    v = View(A, "manifestNewBuild", noInline=("manifestBuildInfo",))
    for f, i in INTO.items():
        for s in [s for s in v.inits("ManifestBuildData", f) if s.args[-1] != ("int", 0)]:
            if i is not None and s.args[-1] != ("p", i):
                A.bad(SET, s.where, "%s is %s" % (f, fmt(s.args[-1])[:100]))
            else:
                A.ok(SET, s.where)
        if not v.inits("ManifestBuildData", f) and i is not None and f != "blockIncrMap":
            A.bad(SET, A.loc("manifestNewBuild"), "%s is not set" % f)
    for s in v.inits("ManifestBuildData", "manifestWalName"):
        if s.args[-1] != ("int", 0) and not (hasCall(s.args[-1], "pgWalPath") and "pg_data/%s" in strs(s.args[-1]) and ("p", 1) in list(walkTerm(s.args[-1]))):
            A.bad(SET, s.where, "the path of the WAL is %s" % fmt(s.args[-1])[:100])
        A.ok(SET, s.where)
    for f, i in (("pgVersion", 1), ("pgCatalogVersion", 2), ("backupOptionOnline", 4), ("bundle", 6), ("blockIncr", 7)):
        for s in v.inits("ManifestData", f):
            if s.args[-1] not in (("p", i), ("int", 0)):
                A.bad(SET, s.where, "%s is %s" % (f, fmt(s.args[-1])[:100]))
            A.ok(SET, s.where)
    for s in v.calls("manifestBuildInfo"):
        if s.args[3] != ("int", 0) or not isStr(s.args[1], "pg_data"):
            A.bad(DEPTH, s.where, "the entries of the data directory are taken for those of %s" % fmt(s.args[1])[:60])
        A.ok(DEPTH, s.where)
    for s in v.calls("storageNewItr"):
        if structArg(s.args[2], "errorOnMissing") != ("int", 1):
            A.bad(DEPTH, s.where, "a missing data directory is taken for an empty one")
        A.ok(DEPTH, s.where)
    f = A.flow("manifestNewBuild", {"next": "storageItrNext()", "rec": "manifestBuildInfo()", "sort": "lstSort()"},
               {"end": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and bool(callOf(a[1], "storageItrMore")), {"storageItrMore"}, "no more entries")},
               kill={"rec": ["next"], "next": ["rec"]}, sticky=["end"], noInline=("manifestBuildInfo",))
    for (st, ret), node in f.exits.items():
        if has(st, "next") or not has(st, "end"):
            A.bad(DEPTH, A.loc("manifestNewBuild"), "an entry of the data directory is not looked at")
        else:
            A.ok(DEPTH, A.loc("manifestNewBuild"))
    for o in f.occ["next"].values():
        if has(o.st, "next"):
            A.bad(DEPTH, o.where, "the next entry of the data directory is read before the last was handed on")


OPTS = {4: "cfgOptOnline", 5: "cfgOptChecksumPage", 6: "cfgOptRepoBundle", 7: "cfgOptRepoBlock", 9: "cfgOptExclude"}


def p_caller(A):
    n = 0
    for c in sorted(A.prog.callers().get("manifestNewBuild", ())):
        if "test" in A.prog.fns[c].file:
            continue
        v = View(A, c, noInline=("manifestNewBuild", "cfgOptionBool", "cfgOptionLst"))
        for s in v.calls("manifestNewBuild"):
            n += 1
            for i, o in OPTS.items():
                t = s.args[i]
                used = [x for x in walkTerm(t) if x[0] == "call" and x[1].startswith("cfgOption")]
                k = A.prog.enum(o)
                if not any(("int", k) in list(walkTerm(x)) for x in used):
                    if used or t[0] == "int":
                        A.bad(SET, s.where, "argument %d is %s, not the option %s" % (i, fmt(t)[:80], o))
                    continue
                if i == 9 and t[0] == "ite":
                    A.bad(EXCL, s.where, "the exclusions depend on something else")
                A.ok(SET, s.where)
    if not n:
        A.unsure("no call of manifestNewBuild()", SET)


def p_exclude(A):
    v = View(A, "manifestNewBuild", noInline=("manifestBuildInfo",))

    def slash(a, pol):
        return a[0] == "eq" and a[2] == ("int", 0) and bool(callOf(a[1], "strEndsWithZ", "strEndsWith")) and isStr(a[1][2][1], "/")
    f = A.flow("manifestNewBuild", {"get": ("strLstGet()", lambda ctx: ctx.arg(0) == ("p", 9)), "one": "strLstAdd()", "all": "strLstAddSub()|strLstAddSubZ()|strLstAddSubN()"},
               {"slash": LitFn(lambda a, pol: pol is False and slash(a, pol), {"strEndsWithZ", "strEndsWith"}, "ends with /"),
                "plain": LitFn(lambda a, pol: pol is True and slash(a, pol), {"strEndsWithZ", "strEndsWith"}, "does not end with /")},
               kill={"get": ["slash", "plain", "one", "all"]}, noInline=("manifestBuildInfo",), sticky=["slash", "plain"])
    for o in f.occ["one"].values():
        if has(o.st, "get") and has(o.st, "slash") or not has(o.st, "plain"):
            A.bad(EXCL, o.where, "an exclusion of the contents of a path is taken for one of the path")
        else:
            A.ok(EXCL, o.where)
    for o in f.occ["all"].values():
        if has(o.st, "plain") or not has(o.st, "slash"):
            A.bad(EXCL, o.where, "an exclusion of a file or path is taken for one of the contents of a path with a shorter name")
        else:
            A.ok(EXCL, o.where)
    for s in v.calls("strLstAdd", "strLstAddSub"):
        t = s.args[1]
        if not hasCall(t, "strLstGet") or "pg_data/%s" not in strs(t):
            A.bad(EXCL, s.where, "what is excluded is %s" % fmt(t)[:100])
        if len(s.args) > 2:
            n = s.args[2]
            if not (n[0] == "op" and n[1] == "-" and n[3] == ("int", 1) or fmt(n).endswith("- 1)")):
                A.bad(EXCL, s.where, "the name of the path whose contents are excluded has %s characters" % fmt(n)[:100])


def p_unlogged(A):
    got = []

    def idEq(a, pol):
        if a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call":
            if a[1][1] in ("strcmp",):
                return pol is True
            if a[1][1] in ("strEq", "strEqZ"):
                return pol is False
        return False

    def pathEq(a, pol):
        if a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call":
            if a[1][1] in ("strncmp", "memcmp"):
                return pol is True
            if a[1][1] in ("strEq", "strEqZ", "strBeginsWith", "strBeginsWithZ"):
                return pol is False
        return False
    f = A.flow("manifestNewBuild", {"name": "manifestFileNameGet()", "look": "manifestFileExists()", "rm": "manifestFileRemove()"},
               {"id": LitFn(idEq, {"strcmp", "strEq", "strEqZ"}, "the file id is the last one"),
                "dir": LitFn(pathEq, {"strncmp", "memcmp", "strEq", "strEqZ", "strBeginsWith", "strBeginsWithZ"}, "the path is the last one"),
                "rel": LitFn(lambda a, pol: bool(callOf(truth(a, pol), "regExpMatch")) and hasCall(truth(a, pol)[2][1], "manifestFileNameGet"), {"regExpMatch"}, "the file is a relation"),
                "yes": LitFn(lambda a, pol: truth(a, pol) is not None and hasCall(truth(a, pol), "manifestFileExists"), {"manifestFileExists"}, "an init fork is there"),
                "no": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and bool(callOf(a[1], "manifestFileExists")), {"manifestFileExists"}, "no init fork is there")},
               kill={"name": ["look", "id", "dir", "rel", "no"], "look": ["no"]}, noInline=("manifestBuildInfo",), sticky=["id", "dir", "rel", "no"])
    for o in f.occ["rm"].values():
        got.append(o)
        if not has(o.st, "rel"):
            A.bad(UNLOG, o.where, "a file that is not a relation is removed from the manifest")
        elif has(o.st, "no"):
            A.bad(UNLOG, o.where, "a relation is removed from the manifest although it has no init fork")
        elif not has(o.st, "look") and not (has(o.st, "id") and has(o.st, "dir")):
            A.bad(UNLOG, o.where, "a relation is removed from the manifest because of an init fork that may be of a relation %s" % ("in another path" if has(o.st, "id") else "with another file id"))
        else:
            A.ok(UNLOG, o.where)
    v = View(A, "manifestNewBuild", noInline=("manifestBuildInfo",))
    for s in v.calls("manifestFileRemove"):
        if not callOf(s.args[1], "manifestFileNameGet"):
            A.bad(UNLOG, s.where, "what is removed from the manifest is %s" % fmt(s.args[1])[:100])
    for s in v.calls("manifestFileExists"):
        t = s.args[1]
        if not any(x.endswith("_init") for x in strs(t)):
            A.bad(UNLOG, s.where, "the file that is looked for is %s" % fmt(t)[:100])
        elif not hasCall(t, "manifestFileNameGet"):
            A.bad(UNLOG, s.where, "the init fork that is looked for is not of the relation")
        A.ok(UNLOG, s.where)
