"""A selective restore zeroes the files of excluded databases and nothing else."""
from flow import LitFn, has
from lib import View, callOf, follow, hasCall, hasField, mentionsField, precede, strHas
from graph import fmt, walkTerm
from flow import maybeTrue
from C16 import call

ASSUME = ["regular expression matching"]


def p_zero(A):
    R = "only files matched by the expression are zeroed, and never PG_VERSION"
    fn = "restoreFileZeroed"
    f = A.flow(fn, {"m": "regExpMatch()"}, {"match": call("regExpMatch", 1), "keep": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("strEndsWith", "strEndsWithZ") and strHas(a[1], "PG_VERSION"), {"strEndsWith", "strEndsWithZ"}, "not PG_VERSION")})
    A.retGuard(f, maybeTrue, ["match", "keep"], R, "zeroed")
    v = View(A, "restoreJobCallback")
    n = 0
    for s in v.calls("pckWriteBool"):
        if hasCall(s.args[1], "regExpMatch"):
            n += 1
            if not mentionsField(s.args[1], "zeroExp") or not mentionsField(s.args[1], "name"):
                A.bad(R, s.where, "zeroed when %s" % fmt(s.args[1])[:140])
            A.ok(R, s.where)
    if not n:
        A.unsure("restoreJobCallback: zero flag not found")
    c = View(A, "cmdRestore", noInline=("restoreSelectiveExpression", "restoreBackupSet", "restoreCleanBuild", "restoreManifestMap"))
    R = "without an expression nothing is zeroed"
    for s in c.assigns(None, "zeroExp"):
        if not hasCall(s.args[0], "restoreSelectiveExpression"):
            A.bad(R, s.where, "the expression is %s" % fmt(s.args[0])[:100])
        A.ok(R, s.where)


def p_expr(A):
    fn = "restoreSelectiveExpression"
    v = View(A, fn)
    R = "the expression matches the directory of a database as a whole"
    n = 0
    for s in v.calls("strCatFmt", "strNewFmt", "strCatZ", "strCat"):
        for w in [x[1] for x in walkTerm(s.args[1] if s.name.startswith("strCat") else s.args[0]) if x[0] == "str"]:
            if "%s" in w and "PG_VERSION" not in w and ("/" in w):
                n += 1
                for alt in w.split("|"):
                    if alt and not (alt.startswith("(^") and alt.endswith("/%s/)")):
                        A.bad(R, s.where, "part '%s' of the expression may match other files" % alt)
                A.ok(R, s.where)
            elif "PG_VERSION" in w and not w.startswith("^"):
                A.bad(R, s.where, "databases are looked for with '%s'" % w)
    if n < 2:
        A.bad(R, A.loc(fn), "the expression does not cover the default and other tablespaces")
    for s in v.calls("regExpNew"):
        ss = [x[1] for x in walkTerm(s.args[0]) if x[0] == "str"]
        if ss and not any(x.startswith("^") for x in ss):
            A.bad(R, s.where, "databases are looked for with '%s'" % ss[0])
        A.ok(R, s.where)
    R = "databases that do not exist or may not be chosen are refused"
    e = A.prog.enum
    exists = call("strLstExists", 1)
    f = A.flow(fn, {"inc": "strLstRemove()", "item": "strLstGet()", "exc": ("strLstAdd()", lambda c: True)},
               {"in": exists, "db": call("manifestDbFindDefault", 1), "out": call("strLstExists", 0)},
               kill={"item": {"in", "db", "out"}}, sticky=["out", "db"], small=1)
    for o in f.occ["inc"].values():
        if not any(isinstance(x, tuple) and x[0] == "in" and x[1][1][2][0] == o.args[0] for x in o.st):
            A.bad(R, o.where, "a database is included that is not one of the databases of the backup")
        A.ok(R, o.where)
    rm = v.calls("strLstRemove")
    if not rm:
        A.bad(R, A.loc(fn), "included databases are not taken off the list")
    for s in rm:
        c = [a[1] for a, pol in s.conds if pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strLstExists"]
        lists = {x[2][0] for x in c}
        if s.args[0] in lists:
            lists.discard(s.args[0])
        if len(lists) < 2:
            A.bad(R, s.where, "an included database is not compared with the system databases and the excluded ones")
        A.ok(R, s.where)
    inc = lambda t: ("int", e("cfgOptDbInclude")) in list(walkTerm(t))
    exc = lambda t: ("int", e("cfgOptDbExclude")) in list(walkTerm(t))
    adds = [s for s in v.calls("strLstAdd") if exc(s.args[1])]
    if not adds:
        A.unsure("%s: list of excluded databases not found" % fn)
    get = [s for s in v.calls("strLstGet") if exc(s.args[0])]
    follow(A, v, get, adds, R, "an excluded database is left out")
    all_ = {s.args[0] for s in rm}
    precede(A, v, [], adds, R, "a database that does not exist is excluded", [call("strLstExists", 1, lambda t: t[2][0] in all_) if all_ else exists])
    for s in rm:
        if not s.under(call("strLstExists", 0, lambda t: t[2][0] in {x.args[0] for x in adds})):
            A.bad(R, s.where, "an included database is not compared with the excluded ones")
    R = "system databases are restored unless excluded"
    anti = v.calls("strLstMergeAnti")
    if len(anti) < 2:
        A.bad(R, A.loc(fn), "system databases are not taken off the list of databases to zero")
    srt = v.calls("strLstSort")
    for s in anti:
        for t in s.args[:2]:
            if t[0] == "call" and t[1] == "strLstMergeAnti":
                continue
            ok = [x for x in srt if x.args[0] == t]
            if not ok:
                A.bad(R, s.where, "lists are compared that are not sorted")
            else:
                precede(A, v, ok, [s], R, "lists are compared that are not sorted")
        A.ok(R, s.where)
    sysAdd = [s for s in v.calls("strLstAdd", "strLstAddIfMissing") if s.under(call("pgDbIsSystemId", 1))]
    if not sysAdd:
        A.bad(R, A.loc(fn), "system databases found by id are not listed")
    db = v.calls("manifestDb")
    for n in ("pgDbIsSystem", "pgDbIsSystemId"):
        follow(A, v, db, v.calls("strLstAdd", "strLstAddIfMissing"), R, "a system database is not recognised", skip=[call(n, 0)], to=db[:1])
