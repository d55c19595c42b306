"""A delta restore removes what is not part of the backup, all of it, and nothing else."""
from flow import LitFn, has
from lib import View, callOf, exitOf, fieldLit, follow, hasCall, hasField, mentionsField, precede, strHas, structArg
from graph import fmt, walkTerm
from C13 import TOUCH, touches, walkers

ASSUME = ["the storage iterator returns every entry of a directory"]


def nz(name, *fields):
    """The call is known not to be NULL / false."""
    return LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == name, {name}, name)


def z(name):
    return LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == name, {name}, "no " + name)


def p_entries(A):
    ws = walkers(A)
    if not ws:
        A.unsure("function that goes through the target directories not found")
    for fn in ws:
        entries(A, fn)


def typeIs(A, n):
    v = A.prog.enum(n)
    return LitFn(lambda a, pol: pol is True and a[0] == "eq" and mentionsField(a[1], "type") and a[2] == ("int", v), {"type"}, n)


def entries(A, fn):
    ign = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strLstExists" and mentionsField(a[1], "fileIgnore"), {"strLstExists"}, "ignored")
    f = A.flow(fn,
               {"next": "storageItrNext()", "more": "storageItrMore()", "rm": "storageRemove()", "rmdir": "storagePathRemove()", "down": ("%s()" % fn, lambda c: True), "itr": "storageNewItr()"},
               {"ign": ign, "tFile": typeIs(A, "storageTypeFile"), "tLink": typeIs(A, "storageTypeLink"), "tPath": typeIs(A, "storageTypePath"), "tSpec": typeIs(A, "storageTypeSpecial"),
                "mFile": nz("manifestFileExists"), "noFile": z("manifestFileExists"), "mLink": nz("manifestLinkFindDefault"), "noLink": z("manifestLinkFindDefault"),
                "mPath": nz("manifestPathFindDefault"), "noPath": z("manifestPathFindDefault"),
                "dest": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strEq" and mentionsField(a[1], "destination") and mentionsField(a[1], "linkDestination"), {"strEq"}, "same destination"),
                "moved": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strEq" and mentionsField(a[1], "destination"), {"strEq"}, "destination changed")},
               kill={"next": {"ign", "tFile", "tLink", "tPath", "tSpec", "mFile", "mLink", "mPath", "noFile", "noLink", "noPath", "dest", "moved", "rm", "rmdir", "down", "itr"}},
               sticky=["mLink", "noLink", "mFile", "noFile", "mPath", "noPath"])
    R = "everything that is not part of the backup is removed"

    def settled(st):
        return (not has(st, "next") or has(st, "rm") or has(st, "rmdir") or has(st, "ign") or
                has(st, "tFile") and has(st, "mFile") and has(st, "noLink") or
                has(st, "tLink") and has(st, "mLink") and has(st, "dest") or
                has(st, "tPath") and has(st, "mPath") and has(st, "noLink") and has(st, "down"))
    A.guard(f, "more", [settled], R)
    A.must(f, settled, R)
    R = "nothing that is part of the backup is removed"
    A.guard(f, "rm", [["tSpec", "noFile", "mLink", "moved", "noLink"]], R)
    A.guard(f, "rm", [lambda st: not (has(st, "tPath"))], R)
    A.guard(f, "rm", [lambda st: not (has(st, "tFile") and has(st, "mFile") and has(st, "noLink"))], R)
    A.guard(f, "rm", [lambda st: not (has(st, "tLink") and has(st, "mLink") and has(st, "dest"))], R)
    A.guard(f, "rmdir", ["tPath", ["noPath", "mLink"]], R)
    R = "links are not followed out of the data directory"
    A.guard(f, "down", ["tPath", "noLink"], R)
    A.guard(f, "itr", ["tPath", "noLink"], R)

    same = lambda fld, lab: LitFn(lambda a, pol: pol is True and a[0] == "eq" and (mentionsField(a[1], fld) or mentionsField(a[2], fld)), {fld}, lab)
    g = A.flow(fn, {"next": "storageItrNext()", "more": "storageItrMore()", "rm": "storageRemove()|storagePathRemove()", "own": "lchown()", "mod": "chmod()"},
               {"ign": ign, "u": same("userId", "same user"), "g": same("groupId", "same group"), "m": same("mode", "same mode"), "tLink": typeIs(A, "storageTypeLink")},
               kill={"next": {"ign", "u", "g", "m", "rm", "own", "mod", "tLink"}}, sticky=["u", "g", "m"], noInline=(fn,))
    R = "what is kept gets the owner and mode of the manifest"
    kept = lambda st: not has(st, "next") or has(st, "rm") or has(st, "ign") or ((has(st, "own") or has(st, "u") and has(st, "g")) and (has(st, "tLink") or has(st, "mod") or has(st, "m")))
    A.guard(g, "more", [kept], R)
    A.must(g, kept, R)
    b = A.flow(fn, {"next": "storageItrNext()", "more": "storageItrMore()"},
               {"ign": ign, "base": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "basePath"), {"basePath"}, "base"), "file": typeIs(A, "storageTypeFile")},
               kill={"next": {"ign", "base", "file"}}, noInline=(fn,))
    A.guard(b, "more", [lambda st: not has(st, "ign") or (has(st, "base") and has(st, "file"))], "only files of the data directory itself are ignored")

    v = View(A, fn)
    R = "only entries of the target are changed"
    own = [s for s in v.calls("lchown", "chmod", "storageRemove", "storagePathRemove")]
    for s in own:
        t = s.args[0] if s.name in ("lchown", "chmod") else s.args[1]
        if not ((hasField(t, "targetPath") and (mentionsField(t, "name") or hasCall(t, "storageItrNext"))) or any(x[0] == "hav" for x in walkTerm(t))):
            A.bad(R, s.where, "%s of %s" % (s.name, fmt(t)[:160]))
        A.ok(R, s.where)
    for s in v.calls("manifestFileExists", "manifestLinkFindDefault", "manifestPathFindDefault", "manifestFileFind"):
        if not (hasField(s.args[1], "targetName") and (mentionsField(s.args[1], "name") or hasCall(s.args[1], "storageItrNext"))):
            A.bad(R, s.where, "%s is looked up in the manifest" % fmt(s.args[1])[:160])
        A.ok(R, s.where)
    sub = v.assigns(None, "targetPath")
    for s in sub:
        if not (hasField(s.args[0], "targetPath") and (mentionsField(s.args[0], "name") or hasCall(s.args[0], "storageItrNext"))):
            A.bad(R, s.where, "the path below is %s" % fmt(s.args[0])[:160])
        A.ok(R, s.where)
    bp = v.assigns(None, "basePath")
    dn = v.calls(fn)
    if dn:
        precede(A, v, [s for s in bp if s.args[0] == ("int", 0)], dn, "files below the data directory are not ignored", "files of a subdirectory may be ignored")


def p_targets(A):
    """Each target is cleaned; missing paths and links are made."""
    v = View(A, "restoreCleanBuild", noInline=walkers(A))
    ws = [s for s in touches(v) if s.name in walkers(A)]
    R = "every existing target is cleaned"
    if not ws:
        A.bad(R, A.loc("restoreCleanBuild"), "targets are not cleaned")
        return
    noFile = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "file"), {"file"}, "linked file")
    g = A.flow("restoreCleanBuild", {"walk": "|".join("%s()" % w for w in walkers(A)), "end": "manifestPath()"},
               {"there": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "exists") and not hasCall(a[1], "storageInfo"), {"exists"}, "target exists"),
                "file": noFile}, kill={"walk": {"there", "file"}}, sticky=["there", "file"], noInline=walkers(A), stop=("end",), small=1)
    A.guard(g, "end", [lambda st: not has(st, "there") or has(st, "file")], R)
    e = A.prog.enum
    g = A.flow("restoreCleanBuild", {"target": "manifestTarget()", "dir": "pgTablespaceId()", "info": ("storageInfo()", lambda c: not hasCall(c.arg(1), "manifestPath", "manifestLink", "manifestLinkFindDefault")), "end": "manifestFileExists()"},
               {"noTbl": fieldLit("tablespaceId", 0), "notLink": LitFn(lambda a, pol: a[0] == "eq" and mentionsField(a[1], "type") and a[2][0] == "int" and (pol is False) == (a[2][1] == e("manifestTargetTypeLink")), {"type"}, "not a link")},
               kill={"target": {"noTbl", "notLink", "dir", "info"}}, stop=("info", "end"), noInline=walkers(A), small=1)
    A.guard(g, "info", [["noTbl", "notLink", "dir"]], "only the directory of the PostgreSQL version is cleaned in a tablespace")
    f = A.flow("restoreCleanBuild", {"get": "manifestPathFind()", "path": "manifestPath()", "link": "manifestLink()", "mk": "storagePathCreate()", "ln": "storageLinkCreate()"},
               {"there": ".exists", "tbl": "strEq()", "mLink": nz("manifestLinkFindDefault"), "noLink": z("manifestLinkFindDefault")},
               kill={"path": {"there", "tbl", "mk", "ln", "mLink", "noLink"}, "link": {"there", "mk", "ln"}}, noInline=walkers(A), sticky=["tbl", "there", "mLink", "noLink"], small=1)
    R = "every path and link of the backup exists before files are restored"
    A.guard(f, "path", [lambda st: not has(st, "path") or has(st, "there") or has(st, "tbl") or has(st, "mk") and has(st, "noLink") or has(st, "ln") and has(st, "mLink")], R)
    A.guard(f, "link", [lambda st: not has(st, "link") or has(st, "there") or has(st, "ln")], R)
    R = "paths and links are made as the manifest says"
    for s in v.calls("storageLinkCreate"):
        if not mentionsField(s.args[1], "destination"):
            A.bad(R, s.where, "the link points to %s" % fmt(s.args[1])[:120])
        A.ok(R, s.where)
    for s in v.calls("storagePathCreate"):
        m = structArg(s.args[2], "mode")
        if m is None or not mentionsField(m, "mode"):
            A.bad(R, s.where, "the mode of the path is %s" % ("not set" if m is None else fmt(m)[:100]))
        A.ok(R, s.where)
    own = v.calls("lchown")
    for s in own:
        A.ok(R, s.where)
    R = "an existing path gets the owner and mode of the manifest"
    precede(A, v, [], [s for s in ws], R, "a target is cleaned without being checked", [fieldLit("exists", 1)])


def p_ignored(A):
    """Files that are left alone besides those of the manifest."""
    v = View(A, "restoreCleanBuild", noInline=walkers(A))
    R = "only the restore manifest and, with type preserve, recovery settings are left alone"
    ok = {"backup.manifest": False, "postgresql.auto.conf": True, "recovery.signal": True, "standby.signal": True, "recovery.conf": True}
    n, left = 0, set()
    own = {s.args[0] for s in v.calls("strLstAdd", "strLstAddZ", "strLstAddIfMissing") if strHas(s.args[1], "backup.manifest")}
    for s in v.calls("strLstAdd", "strLstAddZ", "strLstAddIfMissing"):
        if s.args[0] in own or hasField(s.args[0], "fileIgnore") or strHas(s.args[1], "backup.manifest"):
            n += 1
            names = [x[1] for x in walkTerm(s.args[1]) if x[0] == "str"]
            for w in names or ["?"]:
                if w not in ok:
                    A.bad(R, s.where, "%s is left alone" % (w if names else fmt(s.args[1])[:100]))
                elif ok[w] and not s.under("cfgOptionSeq(@cfgOptType) == @CFGOPTVAL_RESTORE_TYPE_PRESERVE"):
                    A.bad(R, s.where, "%s is left alone although recovery settings are not preserved" % w)
            A.ok(R, s.where)
            left |= set(names)
    if not n:
        A.unsure("restoreCleanBuild: list of ignored files not found")
    for w in sorted(set(ok) - left):
        A.bad(R, A.loc("restoreCleanBuild"), "%s is not left alone" % w)
    R = "only files that restore writes itself are taken out of the manifest"
    for s in v.calls("manifestFileRemove"):
        names = [x[1] for x in walkTerm(s.args[1]) if x[0] == "str"]
        for w in names or ["?"]:
            if w not in ("pg_data/tablespace_map", "pg_data/postgresql.auto.conf"):
                A.bad(R, s.where, "%s is not restored" % w)
            if w.endswith("auto.conf") and not s.under("cfgOptionSeq(@cfgOptType) == @CFGOPTVAL_RESTORE_TYPE_PRESERVE"):
                A.bad(R, s.where, "%s is not restored although recovery settings are not preserved" % w)
        A.ok(R, s.where)
