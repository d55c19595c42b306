"""A restore changes the data directory only after every precondition was checked."""
from flow import LitFn, has
from lib import View, callOf, fieldLit, follow, hasCall, hasField, litPats, local, mentionsField, precede, strHas, structArg
from graph import fmt, walkTerm
from C07 import isManifest

ASSUME = ["a running cluster has postmaster.pid in its data directory"]
TOUCH = ("storageRemove", "storagePathRemove", "storagePathCreate", "storageLinkCreate", "lchown", "chmod", "storageMove", "storagePut", "manifestSave", "protocolParallelProcess")


def walkers(A):
    """Static functions of restore that go through a directory."""
    return tuple(sorted(n for n in local(A.prog, "cmdRestore") if n in A.prog.fns and not A.prog.fns[n].ext and not A.prog.fns[n].inheader and "storageItrNext" in A.prog.callees(n)[0]))


NODELTA = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and (mentionsField(a[1], "delta") or hasCall(a[1], "cfgOptionBool")), {"delta"}, "no delta")


def touches(v, *names):
    out = [s for s in v.calls(*walkers(v.A)) if not s.under(NODELTA)]
    for s in v.calls(*(names or TOUCH)):
        if s.name in ("storagePathRemove", "storageRemove") and hasCall(s.args[0], "storageSpoolWrite"):
            continue
        out.append(s)
    return out


def p_order(A):
    v = View(A, "cmdRestore", noInline=walkers(A))
    D = touches(v)
    if len({s.name for s in D}) < 6:
        A.unsure("cmdRestore: only %s found" % sorted({s.name for s in D}))
    not_ = lambda w: LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "storageExists" and strHas(a[1], w) and hasCall(a[1], "storagePg"),
                           {"storageExists"}, "no " + w)
    precede(A, v, [], D, "nothing is changed while PostgreSQL is running", "the data directory is changed without checking for postmaster.pid", [not_("postmaster.pid")])
    precede(A, v, v.calls("pgIsLocalVerify"), D, "the cluster is local", "the data directory is changed without checking that it is local")
    val = v.calls("manifestValidate")
    precede(A, v, val, D, "the manifest is valid before anything is changed", "the manifest is not validated first")
    lc = v.calls("manifestLinkCheck")
    precede(A, v, lc, D, "links were checked before anything is changed", "links are not checked first")
    same = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strEq" and mentionsField(a[1], "backupLabel"), {"strEq"}, "label matches")
    precede(A, v, [], D, "the manifest is the one of the requested backup", "the label of the manifest is not compared", [same])
    precede(A, v, [], D, "the manifest has files", "the data directory is changed although the manifest has no files",
            ["0 < manifestFileTotal()", "manifestFileTotal() != 0", "manifestFileTotal() != 0"])
    tl = v.calls("timelineVerify")
    precede(A, v, tl, D, "the target timeline was checked before anything is changed", "the timeline is not checked first", [fieldLit("backupOptionOnline", 0)])
    mp = [s for s in v.calls("manifestTargetUpdate", "manifestTargetRemove", "manifestTargetAdd", "manifestLinkUpdate", "manifestLinkAdd", "manifestLinkRemove")]
    rule = "links are checked as they will be created"
    for s in lc:
        A.ok(rule, s.where)
        p = v.escape([s.gid], [m.gid for m in mp], [], [])
        if p is not None:
            A.bad(rule, s.where, "targets are mapped after links were checked", p[-10:])
    rule = "the manifest restored is the final manifest of the chosen set"
    for s in v.calls("manifestLoadFile"):
        if not isManifest(s.args[1]) or not (hasField(s.args[1], "backupSet") or hasCall(s.args[1], "infoBackupData") or any(x[0] == "hav" for x in walkTerm(s.args[1]))):
            A.bad(rule, s.where, "the manifest is %s" % fmt(s.args[1])[:160])
        A.ok(rule, s.where)


def p_delta(A):
    ver = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "storageExists") and strHas(a[1], "PG_VERSION"), {"storageExists"}, "PG_VERSION exists")
    man = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "storageExists") and strHas(a[1], "backup.manifest"), {"storageExists"}, "backup.manifest exists")
    f = A.flow("cmdRestore", {"load": "manifestLoadFile()", "setD": "cfgOptionSet(@cfgOptDelta)", "setF": "cfgOptionSet(@cfgOptForce)"},
               {"ver": ver, "man": man, "noD": "!cfgOptionBool(@cfgOptDelta)", "noF": "!cfgOptionBool(@cfgOptForce)"}, stop=("load",), noInline=("restoreBackupSet",))
    R = "files are kept or removed only in a directory that is recognised as a data directory"
    A.guard(f, "load", [["ver", "man", "setD", "noD"], ["ver", "man", "setF", "noF"]], R)
    for lab in ("setD", "setF"):
        A.argIs(f, lab, 2, lambda t: strHas(t, "false") or "FALSE" in fmt(t) or ("int", 0) in walkTerm(t), R, "the option is switched off")


def p_check(A):
    """Targets are all checked before the first is changed."""
    v = View(A, "restoreCleanBuild", noInline=walkers(A))
    D = touches(v)
    first = [s for s in v.calls("storageInfo") if structArg(s.args[2], "followLink") == ("int", 1) and structArg(s.args[2], "ignoreMissing") == ("int", 1)]
    rule = "all targets are checked before one is changed"
    if not first:
        A.unsure("restoreCleanBuild: check of the targets not found")
    for d in D:
        A.ok(rule, d.where)
        if True:
            p = v.escape([d.gid], [s.gid for s in first], [], [])
            if p is not None:
                A.bad(rule, d.where, "a target is checked after another one was changed", p[-12:])
    # in the pass that checks, the recursion removes nothing
    f = A.flow("restoreCleanBuild",
               {"info": "storageInfo(_, _)", "set": "=RestoreCleanCallbackData.exists:1", "itr": "storageNewItr()", "target": "manifestTarget()", "walk": "|".join("%s()" % w for w in walkers(A)) or "storageItrNext()",
                "on": "=RestoreCleanCallbackData.delta:1", "end": "manifestFileExists()|storageRemove()|storagePathCreate()|manifestFileRemove()"},
               {"notRoot": "!userRoot()", "root": "userRoot()",
                "owner": LitFn(lambda a, pol: pol is True and a[0] == "eq" and any(hasCall(x, "userId") for x in a[1:3]) and any(mentionsField(x, "userId") for x in a[1:3]), {"userId"}, "owned by the user"),
                "mode": LitFn(lambda a, pol: pol is True and a[0] == "eq" and mentionsField(a[1], "mode") and a[2] == ("int", 0o700), {"mode"}, "accessible"),
                "delta": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and (mentionsField(a[1], "delta") or hasCall(a[1], "cfgOptionBool")), {"delta", "cfgOptionBool"}, "delta"),
                "free": "!storageExists()"},
               kill={"target": {"owner", "mode", "delta", "free", "itr", "root", "notRoot", "info", "set", "on"}}, noInline=walkers(A), stop=("set", "end"))
    R = "a target that exists is checked for owner, permissions and content"
    A.guard(f, "walk", [lambda st: not has(st, "on") or has(st, "delta")], "while targets are checked nothing is removed")
    A.guard(f, "set", [["root", "owner"], "mode", ["delta", "free", "itr"]], R)


def p_recurse(A):
    for fn in walkers(A):
        recurse(A, fn)
    if not walkers(A):
        A.unsure("function that goes through the target directories not found")


def recurse(A, fn):
    v = View(A, fn)
    D = touches(v)
    delta = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "delta"), {"delta"}, "delta")
    rule = "without delta nothing that exists is changed"
    precede(A, v, [], D, rule, "changed although delta is not set", [delta])
    nxt = v.calls("storageItrNext")
    ignored = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strLstExists" and mentionsField(a[1], "fileIgnore"), {"strLstExists"}, "ignored")
    more = v.calls("storageItrMore")
    follow(A, v, nxt, [], rule, "something that exists is accepted although delta is not set", skip=[delta, ignored], to=more)
    follow(A, v, nxt, [], rule, "something that exists is accepted although delta is not set", skip=[delta, ignored])
    f = A.flow(fn, {"next": "storageItrNext()", "more": "storageItrMore()"},
               {"ign": ignored, "base": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and mentionsField(a[1], "basePath"), {"basePath"}, "base"),
                "file": LitFn(lambda a, pol: pol is True and a[0] == "eq" and mentionsField(a[1], "type") and a[2] == ("int", A.prog.enum("storageTypeFile")), {"type"}, "file"), "delta": delta},
               kill={"next": {"ign", "base", "file"}}, noInline=(fn,))
    A.guard(f, "more", [lambda st: not has(st, "ign") or (has(st, "base") and has(st, "file"))], "only files of the data directory itself are ignored")
