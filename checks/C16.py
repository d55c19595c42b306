"""Links and tablespaces are restored where the user asked for, and links that overlap are refused."""
from flow import LitFn, has
from lib import View, callOf, exitOf, fieldLit, follow, hasCall, hasField, mentionsField, precede, strHas, structArg
from graph import fmt, walkTerm

ASSUME = ["a file link into a subdirectory of a linked directory is not looked for (the documentation excludes only the same file and nested directories)"]


def call(name, val, *conds):
    """The call is known to return true (val 1) or false / NULL (val 0)."""
    return LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is (val == 0) and a[1][0] == "call" and a[1][1] == name and all(c(a[1]) for c in conds), {name}, "%s%s" % ("" if val else "no ", name))


def notLink(A):
    e = A.prog.enum("manifestTargetTypeLink")
    return LitFn(lambda a, pol: a[0] == "eq" and mentionsField(a[1], "type") and a[2][0] == "int" and
                 (pol is False and int(a[2][1]) == e or pol is True and int(a[2][1]) != e), {"type"}, "not a link")


def p_overlap(A):
    root = "manifestLinkCheck"
    v = View(A, root)
    add = v.calls("lstAdd")
    tg = v.calls("manifestTarget")
    R = "every link is compared with every other link"
    if not add:
        A.bad(R, A.loc(root), "links are not collected")
        return
    follow(A, v, tg, add, R, "a link is not remembered for comparison with later links", skip=[notLink(A)])
    follow(A, v, tg, add, R, "a link is not remembered for comparison with later links", skip=[notLink(A)], to=tg[:1])
    precede(A, v, [], add, "a link does not point into the data directory", "the destination is not compared with the data directory", [call("strBeginsWith", 0, lambda t: mentionsField(t, "basePath"))])
    f = A.flow(root, {"target": "manifestTarget()", "add": "lstAdd()"},
               {"new": call("lstFind", 0), "files": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "file"), {"file"}, "file link"),
                "same": call("strEq", 1, lambda t: mentionsField(t, "file")), "differ": call("strEq", 0), "done": "_ >= lstSize()",
                "sub": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strBeginsWith", {"strBeginsWith"}, "one path contains the other")},
               kill={"target": {"new", "files", "same", "differ", "done", "sub", "add"}})
    A.guard(f, "add", [["new", "differ", "done"]], "two links do not point to the same file or directory")
    A.guard(f, "add", [["new", "files"]], "two links do not point to the same file or directory")
    A.guard(f, "add", [lambda st: not has(st, "same"), lambda st: not has(st, "sub")], "two links do not point to the same file or directory")
    A.must(f, lambda st: not has(st, "sub") and not has(st, "same"), "overlapping links are refused")
    # neighbours in the sorted list
    R = "a linked directory is compared with the next linked directories in order"
    bw = [s for s in v.calls("strBeginsWith") if not mentionsField(s.args[1], "basePath")]
    prior = [s for s in bw if hasCall(s.args[1], "lstGet")]
    nxt = [s for s in bw if hasCall(s.args[0], "lstGet")]
    first = [s for s in add if s.under(call("lstFind", 0))]
    isFile = fieldLit("file", 1)
    srt = v.calls("lstSort")
    for nm, ss in (("before", prior), ("after", nxt)):
        if not ss:
            A.bad(R, A.loc(root), "linked directories are not compared with those %s them" % nm)
            continue
        follow(A, v, first or add, ss, R, "a linked directory is not compared with those %s it" % nm, skip=[isFile, "_ < 0", "_ >= lstSize()"])
        for s in ss:
            c = callOf(s.args[1] if nm == "before" else s.args[0], "lstGet")
            g = [x for x in v.calls("lstGet") if x.args[1] == c[2][1]]
            follow(A, v, g, ss, R, "a linked directory %s is left out" % nm, skip=[isFile])
    precede(A, v, srt, bw, R, "the list is not sorted")


def p_data(A):
    fn = "restoreManifestMap"
    v = View(A, fn)
    R = "the data directory is restored to pg1-path"
    f = A.flow(fn, {"upd": ("manifestTargetUpdate()", lambda c: any(x == ("int", A.prog.enum("cfgOptPgPath")) for x in walkTerm(c.arg(2)))), "base": "manifestTargetBase()"},
               {"same": call("strEq", 1, lambda t: hasCall(t, "cfgOptionStr"))}, small=1)
    A.must(f, ["upd", "same"], R)

    R = "a mapped tablespace is linked where it is restored"
    e = A.prog.enum
    tbl = [s for s in v.calls("manifestTargetUpdate") if mentionsField(s.args[1], "name") and not hasCall(s.args[1], "manifestTargetBase") and s.under(LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "tablespaceId"), {"tablespaceId"}, "tablespace"))]
    lnk = [s for s in v.calls("manifestLinkUpdate") if strHas(s.args[1], "pg_data/%s")]
    if not tbl:
        A.unsure("%s: mapping of tablespaces not found" % fn)
    else:
        follow(A, v, tbl, lnk, R, "the link of a mapped tablespace is not updated")
        for s in tbl + lnk:
            A.ok(R, s.where)
        if tbl and lnk and not any(t.args[2] == l.args[2] for t in tbl for l in lnk):
            A.bad(R, lnk[0].where, "the link points to %s" % fmt(lnk[0].args[2])[:120])
    byName = lambda t: mentionsField(t, "tablespaceName")
    byId = lambda t: mentionsField(t, "tablespaceId")
    R = "a mapping that contradicts itself or names nothing is refused"

    def kv(which, val):
        return LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is (val == 0) and hasCall(a[1], "kvGet") and which(a[1]), {"kvGet"}, "map")
    f = A.flow(fn, {"target": "manifestTarget()", "upd": ("manifestLinkUpdate()", lambda c: any(x in (("int", e("cfgOptTablespaceMap")), ("int", e("cfgOptTablespaceMapAll"))) for x in walkTerm(c.arg(2)))), "k": "varLstGet()", "next": "strLstSort()"},
               {"noName": kv(byName, 0), "noId": kv(byId, 0), "eq": call("strEq", 1, lambda t: all(any(hasCall(x, "kvGet") and w(x) for x in t[2]) for w in (byName, byId))), "noMap": "cfgOptionKvNull(@cfgOptTablespaceMap) == 0"},
               kill={"target": {"noName", "noId", "eq"}}, small=1)
    A.guard(f, "upd", [["noName", "noId", "eq", "noMap"]], R)
    keys = [s for s in v.calls("varLstGet")]
    ks = [s for s in v.calls("strLstExists")]
    f2 = [s for s in keys if any(v.escape([s.gid], [k.gid], [], []) is not None for k in ks)]
    follow(A, v, f2 or keys, [], R, "a tablespace that does not exist is accepted", skip=[call("strLstExists", 1)])
    if not ks:
        A.bad(R, A.loc(fn), "tablespaces of the map are not looked up")


def p_links(A):
    fn = "restoreManifestMap"
    v = View(A, fn)
    R = "a mapped link is a link, path or file of the backup and no tablespace"
    adds = v.calls("manifestTargetAdd") + [s for s in v.calls("manifestTargetUpdate") if len(s.args) > 3 and s.args[3] != ("int", 0)]
    noTbl = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "tablespaceId"), {"tablespaceId"}, "no tablespace")
    f = A.flow(fn, {"link": "kvGet(cfgOptionKvNull(@cfgOptLinkMap))", "add": "manifestTargetAdd()", "upd": ("manifestTargetUpdate()", lambda c: c.arg(3) != ("int", 0)), "ladd": "manifestLinkAdd()", "lupd": ("manifestLinkUpdate()", lambda c: not strHas(c.arg(1), "pg_data/%s") or True)},
               {"noTbl": noTbl, "isLink": LitFn(lambda a, pol: a[0] == "eq" and pol is True and mentionsField(a[1], "type") and a[2] == ("int", A.prog.enum("manifestTargetTypeLink")), {"type"}, "link"),
                "path": call("manifestPathFindDefault", 1), "file": call("manifestFileExists", 1)},
               kill={"link": {"noTbl", "isLink", "path", "file", "ladd", "lupd", "add", "upd"}}, small=1)
    A.guard(f, "ladd", [["path", "file"]], R)
    A.guard(f, "upd", ["lupd"], "a mapped link is restored where it points")
    A.guard(f, "add", ["ladd"], "a mapped link is restored where it points")
    for s in v.calls("manifestTargetUpdate"):
        if len(s.args) > 3 and s.args[3] != ("int", 0):
            if not s.under(noTbl):
                A.bad(R, s.where, "a tablespace may be mapped as link")
            A.ok(R, s.where)
    R = "links that are not asked for are restored in place"
    rm = v.calls("manifestTargetRemove")
    lr = v.calls("manifestLinkRemove")
    if not rm or not lr:
        A.bad(R, A.loc(fn), "links are never removed from the manifest")
        return
    from lib import covered
    mapped = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "kvGet"), {"kvGet"}, "mapped")
    isTbl = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "tablespaceId"), {"tablespaceId"}, "tablespace")
    tg = [s for s in v.calls("manifestTarget") if any(v.escape([s.gid], [r.gid], [], []) is not None for r in rm) and s.under(call("cfgOptionBool", 0, lambda t: ("int", A.prog.enum("cfgOptLinkAll")) in t[2]))]
    for ss, what in ((rm, "target"), (lr, "link")):
        follow(A, v, tg, ss, R, "the %s is kept" % what, skip=[notLink(A), isTbl, mapped])
        follow(A, v, tg, ss, R, "the %s is kept" % what, skip=[notLink(A), isTbl, mapped], to=tg)
    R = "links that are asked for are restored as links"
    noMap = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and (hasCall(a[1], "kvGet") or a[1][0] == "call" and a[1][1] == "cfgOptionKvNull"), {"kvGet", "cfgOptionKvNull"}, "not mapped")
    for s in rm + lr:
        if not s.under(call("cfgOptionBool", 0)):
            A.bad(R, s.where, "removed although all links are asked for")
        if not s.under(noTbl):
            A.bad(R, s.where, "a tablespace is restored without its link")
        A.ok(R, s.where)
    precede(A, v, [], rm, R, "a mapped link is removed", [noMap])
