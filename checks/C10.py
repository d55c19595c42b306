"""A backup is resumed only from a compatible unfinished one, and only files that can be trusted are kept."""
from flow import LitFn, has
from lib import View, callOf, follow, hasCall, hasField, mentionsField, precede, strHas, structArg
from graph import fmt, walkTerm
from C07 import isManifest

ASSUME = ["labels sort by time", "whether a kept file still has its recorded content is decided by C08 (it is read again)"]
COPIED = ("sizeRepo", "checksumSha1", "checksumRepoSha1", "blockIncrSize", "blockIncrChecksumSize", "blockIncrMapSize", "checksumPage", "checksumPageError", "checksumPageErrorList")


def eqLit(field, also=None):
    """Both sides of an equality (or string comparison) mention the field."""
    def pred(a, pol):
        if a[0] == "eq" and pol is True and mentionsField(a[1], field) and (mentionsField(a[2], field) or also is not None and also(a[2])):
            return True
        if a[0] == "eq" and pol is True and also is not None and mentionsField(a[2], field) and also(a[1]):
            return True
        if a[0] == "eq" and a[2] == ("int", 0) and pol is False and a[1][0] == "call" and a[1][1] == "strEq":
            return all(mentionsField(x, field) for x in a[1][2])
        return False
    return LitFn(pred, {field}, "equal " + field)


def p_find(A):
    opt = A.prog.enum
    isOpt = lambda o: (lambda t: any(x[0] == "call" and x[1].startswith("cfgOption") and any(y == ("int", opt(o)) for y in x[2]) for x in walkTerm(t)))
    v = View(A, "backupResume")
    cl = v.calls("manifestFileUpdate")
    sets = v.calls("manifestBackupLabelSet")
    use = cl + sets
    R = "only a compatible unfinished full backup is resumed"
    if not use:
        A.unsure("backupResume: use of the resumed manifest not found")
        return
    f = A.flow(
        "backupResume", {"use": "manifestFileUpdate|manifestBackupLabelSet()", "load": "manifestLoadFile()"},
        {"unfinished": LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] == "call" and a[1][1] == "storageExists" and not strHas(a[1], "manifest.copy"),
                             {"storageExists"}, "final manifest missing"),
         "full": "cfgOptionStrId(@cfgOptType) == @backupTypeFull", "on": "cfgOptionBool(@cfgOptResume)",
         "version": eqLit("backrestVersion"), "type": eqLit("backupType", isOpt("cfgOptType")), "prior": eqLit("backupLabelPrior"),
         "compress": eqLit("backupOptionCompressType", lambda t: isOpt("cfgOptCompressType")(t) or hasField(t, "backupOptionCompressType"))},
        noInline=("backupResumeClean",), sticky=["unfinished", "full", "on", "version", "type", "prior", "compress"])
    for lab, what in (("unfinished", "not completed"), ("full", "of a full backup"), ("on", "with resume enabled"), ("version", "made by the same version"), ("type", "of the same type"),
                      ("prior", "based on the same prior backup"), ("compress", "compressed the same way")):
        A.guard(f, "use", [lab], "%s (%s)" % (R, what))
    A.guard(f, "use", ["load"], "%s (%s)" % (R, "its manifest is verified"))

    rule = "only an unfinished backup is removed"
    rm = [s for s in v.calls("storagePathRemove")]
    n = 0
    for s in rm:
        if hasCall(s.args[1], "storageItrNext") or mentionsField(s.args[1], "name") or any(x[0] == "p" for x in walkTerm(s.args[1])):
            continue
        n += 1
        if not s.under("!storageExists()"):
            A.bad(rule, s.where, "a backup is removed without its final manifest being looked for")
        ex = [a for a, pol in s.conds if pol is True and a[1][0] == "call" and a[1][1] == "storageExists" and a[2] == ("int", 0)]
        if ex and not all(isManifest(a[1]) or any(x[0] == "hav" for x in walkTerm(a[1])) for a in ex):
            A.bad(rule, s.where, "the file looked for is %s" % fmt(ex[0][1])[:160])
        A.ok(rule, s.where)

    rule = "the latest backup is the one looked at"
    for s in v.calls("storageExists"):
        if isManifest(s.args[1]):
            g = callOf(s.args[1], "strLstGet")
            srt = callOf(s.args[1], "strLstSort")
            if g is not None and srt is not None:
                desc = srt[2][1] == ("int", opt("sortOrderDesc"))
                first = g[2][1] == ("int", 0)
                if desc != first:
                    A.bad(rule, s.where, "the manifest looked for is not the one of the latest backup")
                A.ok(rule, s.where)

    rule = "a resumed backup keeps its label and its key"
    for s in sets:
        if not hasField(s.args[1], "backupLabel"):
            A.bad(rule, s.where, "the label is %s" % fmt(s.args[1])[:120])
        A.ok(rule, s.where)
    cs = v.calls("manifestCipherSpecSet")
    follow(A, v, sets, cs, rule, "files stored with the key of the unfinished backup are kept under another key")


def p_clean(A):
    clean = "backupResumeClean"
    f = A.flow(
        clean, {"next": "storageItrNext()", "update": "manifestFileUpdate()", "remove": "storageRemove|storagePathRemove()", "deeper": clean + "()"},
        {"isCopy": LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and strHas(a[1], "backup.manifest.copy"), {"strEq"}, "manifest copy"),
         "inNew": "manifestFileExists(#1)", "inOld": "manifestFileExists(#2)", "sum": ".checksumSha1 != 0", "size": eqLit("size"), "time": eqLit("timestamp"), "delta": "#4 != 0",
         "comp": LitFn(lambda a, pol: a[0] == "eq" and pol is True and (("p", 3) in (a[1], a[2])) and (hasCall(a[1], "compressTypeFromName") or hasCall(a[2], "compressTypeFromName")),
                       {"compressTypeFromName"}, "same compression"),
         "block": "strEndsWithZ(_, ~'.pgbi')", "nonZero": ".size != 0"},
        kill={"next": {"update", "remove", "deeper", "isCopy", "inNew", "inOld", "sum", "size", "time", "comp", "block", "nonZero"}}, sticky=["isCopy"])
    R = "a file of the unfinished backup is kept only if %s"
    for lab, what in (("inNew", "the cluster still has it"), ("inOld", "the unfinished backup lists it"), ("sum", "its checksum was recorded"), ("size", "its size did not change")):
        A.guard(f, "update", [lab], R % what)
    A.guard(f, "update", [["time", "delta"]], R % "it was not modified or its content is compared")
    A.guard(f, "update", [["comp", "block"]], R % "it is compressed as configured")
    rule = "what is not kept is removed from the unfinished backup"
    one = lambda st: any(has(st, x) for x in ("update", "remove", "deeper", "isCopy"))
    A.guard(f, "next", [lambda st: not has(st, "next") or one(st)], rule)
    A.must(f, one, rule, when="next")
    A.guard(f, "remove", [lambda st: not has(st, "update")], "a file that is kept stays in the repository")

    v = View(A, clean)
    up = v.calls("manifestFileUpdate")
    rule = "a kept file takes over what the unfinished backup recorded"
    for fld in COPIED:
        ss = v.assigns("ManifestFile", fld)
        if not ss:
            A.bad(rule, up[0].where if up else A.loc(clean), "%s is not taken over" % fld)
            continue
        for s in ss:
            if not mentionsField(s.args[0], fld):
                A.bad(rule, s.where, "%s is set to %s" % (fld, fmt(s.args[0])[:100]))
            A.ok(rule, s.where)
        precede(A, v, ss, up, rule, "%s may not be taken over" % fld)
    for fld, ok in (("resume", lambda t: t == ("int", 1)), ("delta", lambda t: t == ("p", 4))):
        ss = v.assigns("ManifestFile", fld)
        precede(A, v, ss, up, "the content of a kept file is read again", "%s is not set" % fld)
        for s in ss:
            if not ok(s.args[0]):
                A.bad("the content of a kept file is read again", s.where, "%s is %s" % (fld, fmt(s.args[0])[:80]))
    v2 = View(A, "backupResume", noInline=(clean,))
    for s in v2.calls(clean):
        opt = A.prog.enum
        for i, o in ((3, "cfgOptCompressType"), (4, "cfgOptDelta")):
            if not any(x == ("int", opt(o)) for x in walkTerm(s.args[i])):
                A.bad("files are compared with the options of this backup", s.where, "argument %d is %s" % (i + 1, fmt(s.args[i])[:100]))
            A.ok("files are compared with the options of this backup", s.where)
