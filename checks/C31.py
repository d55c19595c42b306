"""The verify command calls nothing valid that it has not checked, and counts and shows what it finds damaged."""
from flow import LitFn, has
from graph import fmt, lits, walkTerm
from lib import FLIP, View, alts, hasCall, mentionsField, rel, relLit, strHas, structArg

ASSUME = ["the parallel executor gives every job to a local process once and returns its result (C17)",
          "hash and size filters see all of the data that is read through them (C34)"]

EQUAL = "a file is valid only when it was read in full and its checksum and size are the recorded ones"
COUNT = "every result other than valid is counted and put on the list of the backup or archive it belongs to"
ONCE = "every file of a backup is checked, or its result is known, or it has no content of its own"
WHAT = "a file is checked where it is stored against what was recorded for it"
KEEP = "nothing leaves the work lists before it has been handed out or recorded"
HIST = "the history of archive.info, backup.info and each manifest must agree"
DONE = "a referenced file counts as valid without a check only when all results of the prior backup are known"
NAME = "the result of a referenced file is looked up by the name it is stored with"


def enum(A, name):
    return A.prog.enum(name)


def mayBe(val):
    def f(t):
        return t[0] == "phi" and any(f(x) for x in t[1]) or t[0] == "ite" and (f(t[2]) or f(t[3])) or t[0] not in ("phi", "ite") and (t[0] != "int" or t[1] == val)
    return f


def p_file(A):
    f = A.flow("verifyFile", {"read": "ioReadDrain()"},
               {"open": "ioReadDrain()", "sum": LitFn(lambda a, pol: sumLit(a, pol), {"bufEq"}, "the checksum is the recorded one"),
                "size": LitFn(lambda a, pol: sizeLit(a, pol), {"pckReadU64", "ioFilterGroupResult"}, "the size is the recorded one")}, trackRet=True)
    ok = enum(A, "verifyOk")
    A.retGuard(f, mayBe(ok), ["open", "sum", "size"], EQUAL, "verifyOk")
    none = {"clear": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", enum(A, "cipherTypeNone")) and hasCall(a[1], "cipherSpecType"), {"cipherSpecType"}, "the file is not encrypted"),
            "plain": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[1:] == (("p", 3), ("int", enum(A, "compressTypeNone"))), {("p", 3)}, "the file is not compressed")}

    def adds(*names):
        return ("ioFilterGroupAdd()", lambda ctx: hasCall(ctx.arg(1), *names))
    f = A.flow("verifyFile", {"crypt": adds("cipherBlockNew"), "comp": adds("decompressFilter"), "hash": adds("cryptoHashNew"), "size": adds("ioSizeNew"), "read": "ioReadDrain()"}, none, sticky=list(none))
    for x in ("hash", "size"):
        A.guard(f, x, [lambda st: (has(st, "crypt") or has(st, "clear")) and (has(st, "comp") or has(st, "plain"))], EQUAL)
    A.guard(f, "comp", [["crypt", "clear"]], EQUAL)
    A.guard(f, "read", ["hash", "size"], EQUAL)
    v = View(A, "verifyFile")
    for s in v.calls("storageNewRead"):
        t = s.args[2] if len(s.args) > 2 else ("int", 0)
        for x, i in (("offset", 1), ("limit", 2)):
            y = structArg(t, x)
            if y is None or y != ("p", i):
                A.bad(EQUAL, s.where, "the %s of what is read is %s" % (x, fmt(y) if y else "not set"))
        A.ok(EQUAL, s.where)


def sumLit(a, pol):
    return pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "bufEq" and \
        any(x == ("p", 4) for x in a[1][2]) and any(hasCall(x, "ioFilterGroupResult") for x in a[1][2])


def sizeLit(a, pol):
    return pol is True and a[0] == "eq" and ("p", 5) in a[1:3] and any(hasCall(x, "ioFilterGroupResult") for x in a[1:3])


# Results -----------------------------------------------------------------------------------------------------------------------------------------
def isArchive(val):
    def f(a, pol):
        if a[0] != "eq" or a[2] != ("int", 0) or a[1][0] != "call" or a[1][1] != "strEq":
            return False
        if pol is None:
            return False
        if any(strHas(x, "archive") or x == ("glob", "STORAGE_REPO_ARCHIVE_STR") for x in a[1][2]) or strHas(a[1], "<REPO:ARCHIVE>"):
            return (not pol) == val
        if any(x == ("glob", "STORAGE_REPO_BACKUP_STR") for x in a[1][2]) or strHas(a[1], "<REPO:BACKUP>"):
            return not pol and not val
        return False
    return LitFn(f, {"strEq"}, "the file is %sin the archive" % ("" if val else "not "))


def resultIs(A, ok):
    val = enum(A, "verifyOk")

    def f(a, pol):
        return a[0] == "eq" and a[2] == ("int", val) and a[1][0] in ("call", "cast") and hasCall(a[1], "pckReadU32") and not hasCall(a[1], "strEq") and pol is ok
    return LitFn(f, {"pckReadU32"}, "the result is %sverifyOk" % ("" if ok else "not "))


def p_results(A):
    lits = {"ok": resultIs(A, True), "bad": resultIs(A, False), "failed": "protocolParallelJobErrorCode() != 0", "ran": "protocolParallelJobErrorCode() == 0",
            "archive": isArchive(True), "backup": isArchive(False)}
    ev = {"next": "protocolParallelResult()", "count": "=.jobErrorTotal", "wal": "=.totalValidWal", "file": "=.totalFileValid", "badWal": "verifyAddInvalidWalFile()",
          "badFile": "verifyInvalidFileAdd()", "invalid": "=.status:@backupInvalid"}
    f = A.flow("verifyProcess", ev, lits, kill={"next": set(lits) | {"count", "wal", "file", "badWal", "badFile", "invalid"}}, sticky=list(lits),
               noInline=("verifyAddInvalidWalFile", "verifyInvalidFileAdd", "verifyLogInvalidResult", "verifyRender", "verifyBackupInfoFile", "verifyArchiveInfoFile", "verifyPgHistory",
                         "verifyBackupSet", "verifySetBackupCheckArchive"))
    A.guard(f, "wal", ["ok", "ran"], COUNT)
    A.guard(f, "file", ["ok", "ran"], COUNT)

    def done(st):
        if not has(st, "next"):
            return True
        if has(st, "ran") and has(st, "ok"):
            return has(st, "wal") or has(st, "file")
        if not has(st, "count"):
            return False
        if has(st, "archive"):
            return has(st, "badWal")
        return has(st, "badFile") and has(st, "invalid")
    A.guard(f, "next", [done], COUNT)
    A.must(f, done, COUNT)


def p_log(A):
    f = A.flow("verifyLogInvalidResult", {"log": "logInternal()|logInternalFmt()"},
               {"archive": isArchive(True), "gone": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[1:] == (("p", 1), ("int", enum(A, "verifyFileMissing"))), {("p", 1)}, "the file is missing")},
               trackRet=True)
    A.retGuard(f, mayBe(0), ["archive", "gone"], COUNT, "no error")


def p_status(A):
    """What is shown as status and whether it is an error depends on all that was counted."""
    v = View(A, "verifyProcess", noInline=("verifyRender",))
    n = 0
    for s in v.calls("strCatFmt", "strNewFmt", "strCat", "strCatZ"):
        for t in s.args:
            for x in walkTerm(t):
                if x[0] == "ite" and any(strHas(y, "error") for y in x[2:4]) and any(strHas(y, "ok") for y in x[2:4]):
                    n += 1
                    ls = lits(x[1], strHas(x[2], "error"))
                    if not mentionsField(x[1], "jobErrorTotal"):
                        A.bad(COUNT, s.where, "the status is decided by %s" % fmt(x[1]))
                    elif len(ls) == 1 and not some(ls[0]):
                        A.bad(COUNT, s.where, "the status is an error only for some numbers of errors: %s" % fmt(x[1]))
                    A.ok(COUNT, s.where)
    if not n:
        A.unsure("verifyProcess does not decide the status by a condition")


def some(l):
    """The literal holds for every number of errors but 0."""
    r = rel(*l)
    return r is None or any(c == ("int", k) and o in ops for t, o, c in ((r[0], r[1], r[2]), (r[2], FLIP[r[1]], r[0])) for k, ops in ((0, (">", "!=")), (1, (">=",)))) or not any(y[0] == "int" for y in (r[0], r[2]))


def reads(e, name):
    """The expression has the field."""
    return isinstance(e, (list, tuple)) and (len(e) > 2 and e[0] == "m" and e[2] == name or any(reads(x, name) for x in e))


def p_sum(A):
    f = A.flow("verifyProcess", {"run": "protocolParallelNew()", "sum": ("=v", lambda ctx: ctx.pt.kind != "inc" and reads(ctx.pt.data[3 if ctx.pt.kind == "as" else 4], "jobErrorTotal"))}, {}, sticky=["run", "sum"], noInline=OWN)
    if not f.sites("sum"):
        A.unsure("verifyProcess adds the errors of the jobs to no variable")
        return
    A.must(f, "sum", COUNT, when="run")


OWN = ("verifyAddInvalidWalFile", "verifyInvalidFileAdd", "verifyLogInvalidResult", "verifyRender", "verifyBackupInfoFile", "verifyArchiveInfoFile", "verifyPgHistory", "verifyBackupSet",
       "verifySetBackupCheckArchive")


# Manifest and history ----------------------------------------------------------------------------------------------------------------------------
def counted(A, entry):
    """An error is counted where the caller's total is passed to the function, or in the data of the job."""
    ps = A.prog.fns[entry].params
    if not any(ty.replace("const", "").replace(" ", "") in ("unsignedint*", "uint*") for _, _, ty in ps):
        return "=.jobErrorTotal"

    def pred(ctx):
        d = ctx.pt.data
        e = d[2 if ctx.pt.kind == "as" else 3 if ctx.pt.kind == "opas" else 4]
        t = ctx.g.ev(ctx.inst, e[1], ctx.pt.idx, ctx.env)
        return t[0] == "p" and ps[t[1]][2].replace("const", "").replace(" ", "") in ("unsignedint*", "uint*") or mentionsField(t, "jobErrorTotal")
    return ("=*", pred)


def p_manifest(A):
    def fld0(name, words):
        return LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "fld" and a[1][2] == name, {name}, words)
    same = {x: fieldsEq(x) for x in ("id", "systemId", "version")}
    flag = [("p", i) for i, (_, _, ty) in enumerate(A.prog.fns["verifyManifestFile"].params) if ty.replace("const ", "") in ("bool", "_Bool")]
    ev = {"invalid": "=.status:@backupInvalid", "gone": "=.status:@backupMissingManifest", "busy": "=.status:@backupInProgress", "count": counted(A, "verifyManifestFile")}
    lits = dict(same, none=fld0("manifest", "there is no manifest"), other=LitFn(statusOther, {"status"}, "the state of the backup is already recorded"),
                cur=LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1] in flag, set(flag), "the backup may be in progress"), lost=relLit(("==",), lambda t: t[0] == "fld" and t[2] == "errorCode" and strHas(t, BACKUP_MANIFEST), lambda t: hasCall(t, "errorTypeCode") and not mentionsField(t, "errorCode"),
                            {"errorCode"}, "the manifest is missing"))
    f = A.flow("verifyManifestFile", ev, lits, noInline=("verifyInfoFile",), sticky=list(lits), trackRet=True)
    A.retGuard(f, lambda t: t != ("int", 0), [["id", "none"], ["systemId", "none"], ["version", "none"]], HIST, "a manifest")
    A.guard(f, "busy", ["lost", "cur"], HIST)
    A.guard(f, "gone", ["lost"], HIST)
    n = 0
    for (st, ret), node in f.exits.items():
        if ret == ("int", 0) or has(st, "none"):
            n += 1
            if not any(has(st, x) for x in ("invalid", "gone", "busy", "other")):
                A.bad(NOMAN, A.loc("verifyManifestFile"), "a backup without a usable manifest is left valid", f.ex.trace(node))
            elif has(st, "invalid") and not has(st, "count"):
                A.bad(NOMAN, A.loc("verifyManifestFile"), "a backup without a usable manifest is not counted as an error", f.ex.trace(node))
    A.ok(NOMAN, A.loc("verifyManifestFile"), n)


BACKUP_MANIFEST = "backup.manifest"
NOMAN = "a backup without a usable manifest is not valid"


def statusOther(a, pol):
    return a[0] == "eq" and a[1][0] in ("fld", "phi") and mentionsField(a[1], "status") and not hasCall(a[1]) and a[2] == ("int", 0) and pol is False


def fieldsEq(name):
    """The field of an entry of the history is equal to the same one (pgId, pgSystemId, ...) of something else."""
    names = {name, "pg" + name[0].upper() + name[1:]}

    def part(t):
        return t[0] == "fld" and t[2] in names
    return LitFn(lambda a, pol: pol is True and a[0] == "eq" and part(a[1]) and part(a[2]), names, "%s is equal" % name)


def p_history(A):
    eq = {x: fieldsEq(x) for x in ("id", "systemId", "version")}
    ne = {"more": LitFn(lambda a, pol: pol is True and a[0] == "lt" and hasCall(a[2], "infoPgDataTotal"), {"infoPgDataTotal"}, "there is another entry"),
          "total": LitFn(lambda a, pol: pol is True and a[0] == "eq" and all(x[0] == "call" and x[1] == "infoPgDataTotal" for x in a[1:3]), {"infoPgDataTotal"}, "the number of entries is equal")}
    f = A.flow("verifyPgHistory", {"entry": ("infoPgData()", lambda ctx: not hasCall(ctx.arg(1), "infoPgDataCurrentId")), "current": "checkStanzaInfo()"}, dict(eq, **ne), kill={"entry": set(eq)},
               sticky=list(eq) + ["total"], noInline=("checkStanzaInfo",))
    A.must(f, "total", HIST)
    A.must(f, "current", HIST)
    A.must(f, lambda st: not has(st, "entry") or all(has(st, x) for x in eq), HIST)


def p_archiveIds(A):
    """An archive id that is not in the history is counted as an error."""
    f = A.flow("verifySetBackupCheckArchive", {"count": counted(A, "verifySetBackupCheckArchive"), "history": "infoPgArchiveId()"},
               {"missing": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("strLstExists", "lstExists"), {"strLstExists", "lstExists"}, "an archive id is not in the history"),
                "none": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("strSize", "strLstSize") and not mentionsField(a[1], "archiveIdList"), {"strSize", "strLstSize"}, "nothing is missing")},
               sticky=["missing", "none"])
    A.must(f, lambda st: not has(st, "missing") or has(st, "count") or has(st, "none"), COUNT)


# Files of a backup -------------------------------------------------------------------------------------------------------------------------------
def one(t, field):
    return t[0] == "fld" and t[2] == field


def isZeroFld(field, val, words):
    """The field is (not) zero."""
    return LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and one(a[1], field) and pol is val or
                 a[0] == "lt" and a[2] == ("int", 1) and one(a[1], field) and pol is val, {field}, words)


def found(val):
    """The file was (not) found in the list of invalid files of the prior backup."""
    def f(a, pol):
        r = rel(a, pol)
        if r is None:
            return False
        for x, o, y in (r, (r[2], r[1], r[0])):
            if o in ("==", "!=") and hasCall(x, "lstFindIdx", "lstFind") and mentionsField(x, "invalidFileList") and x[0] == "call":
                missing = (o == "==")
                return missing is not val
        return False
    return LitFn(f, {"lstFindIdx", "lstFind"}, "the file is %s the prior backup's invalid files" % ("among" if val else "not among"))


def p_backup(A):
    lits = {"bundle": isZeroFld("bundleId", False, "the file is in a bundle"), "plain": isZeroFld("bundleId", True, "the file is not in a bundle"),
            "empty": isZeroFld("size", True, "the file is empty"), "bundled": isZeroFld("bundle", False, "the backup is bundled"),
            "bad": found(True), "good": found(False), "done": isZeroFld("fileVerifyComplete", False, "the prior backup is complete"), "never": isZeroFld("backupLabel", True, "a backup has no label"),
            "ref": isZeroFld("reference", False, "the file is in a prior backup"), "noref": isZeroFld("reference", True, "the file is not in a prior backup")}
    ev = {"file": "manifestFile()", "job": "protocolParallelJobNew()", "valid": "=.totalFileValid", "add": "verifyInvalidFileAdd()", "invalid": "=.status:@backupInvalid",
          "count": "=.totalFileVerify", "step": "=.manifestFileIdx", "drop": "strLstRemoveIdx()"}
    f = A.flow("verifyBackup", ev, lits, kill={"file": set(lits) | {"job", "valid", "add", "invalid", "count"}}, sticky=list(lits), noInline=("verifyManifestFile", "verifyInvalidFileAdd"))
    A.guard(f, "valid", [lambda st: has(st, "empty") and has(st, "bundled") or has(st, "done") and has(st, "good") and has(st, "plain")], ONCE)

    def dealt(st):
        return not has(st, "file") or has(st, "never") or has(st, "ref") and has(st, "noref") or has(st, "job") or has(st, "valid") or has(st, "add") and has(st, "invalid")
    A.guard(f, "file", [lambda st: dealt(st) and (not has(st, "file") or has(st, "count"))], ONCE)
    A.must(f, lambda st: dealt(st) and (not has(st, "file") or has(st, "count")), ONCE)
    A.guard(f, "add", ["bad"], ONCE)


def p_job(A):
    """Parameters of a job for a file of a backup."""
    repo = isZeroFld("checksumRepoSha1", False, "there is a checksum of what is stored")
    f = A.flow("verifyBackup", {"get": "manifestFile()", "sum": "pckWriteBin()", "u64": "pckWriteU64()", "off": ("pckWriteU64()", lambda ctx: mentionsField(ctx.arg(1), "bundleOffset")), "type": "pckWriteU32()", "cipher": "cipherSpecPack()", "path": "backupFileRepoPath()", "bool": "pckWriteBool()", "job": "protocolParallelJobNew()"},
               {"repo": repo, "file": isZeroFld("checksumRepoSha1", True, "there is no checksum of what is stored"), "bundle": isZeroFld("bundleId", False, "the file is in a bundle"),
                "plain": isZeroFld("bundleId", True, "the file is not in a bundle"), "ref": isZeroFld("reference", False, "the file is in a prior backup")}, noInline=("verifyManifestFile", "verifyInvalidFileAdd"), sticky=["repo", "file", "bundle", "plain", "ref"],
               kill={"get": {"ref"}, "path": {"repo", "file", "bundle", "plain", "sum", "u64", "off", "cipher", "type"}}, trackArgs={"pckWriteBin": None, "pckWriteU64": None, "pckWriteU32": None, "cipherSpecPack": None, "pckWriteBool": None, "backupFileRepoPath": None})
    V = 1                                                               # the value is the second argument

    def want(o, name, wrong):
        t = o.args[V] if len(o.args) > V else ("int", 0)
        return not (any(mentionsField(t, x) for x in wrong) or not mentionsField(t, name))
    if not A.atLeast(f, "sum", 1) or f.coarse:
        return
    for o in f.occ["sum"].values():
        a, b = ("checksumRepoSha1", "checksumSha1") if has(o.st, "repo") else ("checksumSha1", "checksumRepoSha1")
        if not want(o, a, (b,)) or not has(o.st, "repo") and not has(o.st, "file"):
            A.bad(WHAT, o.where, "the checksum handed to the job is %s" % fmt(o.args[V]), f.ex.trace(o.node))
        A.ok(WHAT, o.where)
    for o in f.occ["u64"].values():
        if has(o.st, "sum"):
            if not (one(o.args[V], "sizeRepo" if has(o.st, "repo") else "size")):
                A.bad(WHAT, o.where, "the size handed to the job is %s" % fmt(o.args[V]), f.ex.trace(o.node))
        elif not has(o.st, "bundle") or not one(o.args[V], "sizeRepo" if has(o.st, "off") else "bundleOffset"):
            A.bad(WHAT, o.where, "the part of the bundle handed to the job is %s" % fmt(o.args[V]), f.ex.trace(o.node))
        A.ok(WHAT, o.where)
    for o in f.occ["cipher"].values():
        none = any(hasCall(x, "cipherSpecNewNone") for x in o.args)
        if none != has(o.st, "repo"):
            A.bad(WHAT, o.where, "the data is %sdecrypted though the checksum is of what is %sstored" % ("not " if none else "", "" if has(o.st, "repo") else "not "), f.ex.trace(o.node))
        A.ok(WHAT, o.where)
    for o in f.occ["type"].values():
        none = o.args[V] == ("int", enum(A, "compressTypeNone"))
        if none != has(o.st, "repo"):
            A.bad(WHAT, o.where, "the data is %sdecompressed though the checksum is of what is %sstored" % ("not " if none else "", "" if has(o.st, "repo") else "not "), f.ex.trace(o.node))
        A.ok(WHAT, o.where)
    for o in f.occ["path"].values():
        p = o.args[-1]
        if mentionsField(o.args[0], "reference") != has(o.st, "ref"):
            A.bad(WHAT, o.where, "the file is looked for in backup %s" % fmt(o.args[0]), f.ex.trace(o.node))
        for x in ("manifestName", "bundleId", "blockIncr", "compressType"):
            y = structArg(p, x)
            if y is None or not mentionsField(y, {"manifestName": "name", "blockIncr": "blockIncrMapSize", "compressType": "backupOptionCompressType"}.get(x, x)):
                A.bad(WHAT, o.where, "%s of the path is %s" % (x, fmt(y) if y else "not set"))
        A.ok(WHAT, o.where)


# Work lists --------------------------------------------------------------------------------------------------------------------------------------
def inList(t, field, regexp):
    """The term is the work list (or what it was last set to)."""
    return mentionsField(t, field) or hasGlob(t, regexp)


def hasGlob(t, name):
    return any(x[0] == "glob" and x[1] == name for x in walkTerm(t))


def emptyLit(val, field, regexp):
    def f(a, pol):
        if a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("strLstSize", "strLstEmpty", "lstSize") and inList(a[1][2][0], field, regexp):
            return pol is (val if a[1][1] != "strLstEmpty" else not val)
        if a[0] == "lt" and a[2] == ("int", 1) and a[1][0] == "call" and a[1][1] in ("strLstSize", "lstSize") and inList(a[1][2][0], field, regexp):
            return pol is val
        return False
    return LitFn(f, {"strLstSize", "strLstEmpty", "lstSize"}, "%s is %sempty" % (field, "" if val else "not "))


FILE, PATH = "WAL_SEGMENT_FILE_REGEXP_STR", "WAL_SEGMENT_DIR_REGEXP_STR"


def drop(field, regexp, *others):
    def pred(ctx):
        e, t = ctx.pt.data[3][0], ctx.arg(0)
        return reads(e, field) or inList(t, field, regexp) and not any(mentionsField(t, x) for x in others)
    return ("strLstRemoveIdx()", pred)


def p_archive(A):
    quiet = ("verifyCreateArchiveIdRange", "verifyFileLoad", "verifyArchiveInfoFile", "protocolParallelJobNew")
    f = A.flow("verifyArchive", {"job": "protocolParallelJobNew()", "file": drop("walFileList", FILE)},
               {"outside": LitFn(outside, {"strCmp"}, "the segment is not in the range"),
                "filter": isZeroFld("enableArchiveFilter", False, "only a range is verified")},
               kill={"file": {"job", "outside"}}, noInline=quiet, sticky=["filter", "outside"])
    A.guard(f, "file", [lambda st: has(st, "job") or has(st, "outside") and has(st, "filter")], KEEP)
    v = View(A, "verifyArchive", noInline=quiet)
    for field, regexp, below, belowExp, others in (("walPathList", PATH, "walFileList", FILE, ("walFileList",)), ("archiveIdList", "-", "walPathList", PATH, ("walPathList", "walFileList"))):
        ss = [s for s in v.calls("strLstRemoveIdx") if inList(s.args[0], field, regexp) and not any(mentionsField(s.args[0], x) for x in others)]
        if not ss:
            A.unsure("verifyArchive removes nothing from %s" % field)
        for s in ss:
            if not s.under(emptyLit(True, below, belowExp)):
                if any(x[0] == "phi" and all(y[0] == "int" for y in x[1]) for c, _ in s.conds for x in walkTerm(c)):
                    A.unsure("the condition for removing from %s is not resolved" % field)
                else:
                    A.bad(KEEP, s.where, "an element of %s is removed while %s may still hold elements" % (field, below))
            A.ok(KEEP, s.where)
    g = A.flow("verifyCreateArchiveIdRange", {"drop": "strLstRemoveIdx()", "range": "lstAdd()", "stop": "=.stop", "dup": "strEq()", "count": counted(A, "verifyCreateArchiveIdRange")}, {"same": LitFn(sameSegment, {"strEq"}, "two files are of the same segment")},
               sticky=["same"])
    A.guard(g, "drop", ["same", "count"], KEEP)


def signOf(a, pol, x, y):
    """What is known of the order of something about x and something about y: -1, 0, 1 as a set."""
    r = rel(a, pol)
    if r is None:
        return None
    for l, o, c, flip in (r + (False,), (r[2], r[1], r[0], True)):
        if c[0] != "int" or l[0] != "call" or l[1] != "strCmp":
            continue
        i = [mentionsField(z, x) or z == x for z in l[2]]
        j = [mentionsField(z, y) or z == y for z in l[2]]
        if not (i[0] and j[1] and not i[1] or i[1] and j[0] and not i[0]):
            return None
        test = {"<": lambda s: s < c[1], ">": lambda s: s > c[1], "<=": lambda s: s <= c[1], ">=": lambda s: s >= c[1], "==": lambda s: s == c[1], "!=": lambda s: s != c[1]}[FLIP[o] if flip else o]
        got = {s for s in (-1, 0, 1) if test(s)}
        return got if i[0] else {-s for s in got}
    return None


def outside(a, pol):
    """The segment is before the first or after the last one that is needed."""
    return any(signOf2(a, pol, x) == {s} for x, s in (("archiveStart", 1), ("archiveStop", -1)))


def signOf2(a, pol, x):
    """The order of the value of field x and something else."""
    r = rel(a, pol)
    if r is None:
        return None
    for l in (r[0], r[2]):
        if l[0] == "call" and l[1] == "strCmp":
            i = [mentionsField(z, x) for z in l[2]]
            if i[0] != i[1]:
                return signOf(a, pol, l[2][0 if i[0] else 1], l[2][1 if i[0] else 0])
    return None


def sameSegment(a, pol):
    return pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "strEq" and all(hasCall(x, "strSubN") for x in a[1][2])


def segSize(t):
    if t[0] == "phi":
        return all(segSize(x) for x in t[1])
    return all(x[0] == "fld" and x[2] == "size" and (mentionsField(x, "pgWalInfo") or hasCall(x, "pgWalFromBuffer")) for x, _ in alts(t))


def p_archiveJob(A):
    v = View(A, "verifyArchive", noInline=("verifyCreateArchiveIdRange", "verifyFileLoad"))
    for name, pred, what in (("pckWriteBin", lambda t: hasCall(t, "bufNewDecode") and hasCall(t, "strSubN"), "the checksum in the name of the file"),
                             ("pckWriteU64", segSize, "the segment size"),
                             ("pckWriteU32", lambda t: hasCall(t, "compressTypeFromName"), "the type in the name of the file")):
        ss = v.calls(name)
        if not ss:
            A.unsure("verifyArchive has no call of %s" % name)
        for s in ss:
            if not pred(s.args[1]):
                A.bad(WHAT, s.where, "%s handed to the job is %s" % (what, fmt(s.args[1])))
            A.ok(WHAT, s.where)
    for s in v.calls("cipherSpecPack"):
        if not any(mentionsField(x, "cipherSpecArchive") for x in s.args):
            A.bad(WHAT, s.where, "the cipher of the job is %s" % fmt(s.args[1]))
        A.ok(WHAT, s.where)


def p_backups(A):
    end = relLit(("==", ">=", ">"), lambda t: not hasCall(t, "manifestFileTotal") and not mentionsField(t, "totalFileManifest"), lambda t: hasCall(t, "manifestFileTotal") or mentionsField(t, "totalFileManifest"),
                 {"manifestFileTotal", "totalFileManifest"}, "there is no other file")
    f = A.flow("verifyBackup",
               {"drop": ("strLstRemoveIdx()", lambda ctx: mentionsField(ctx.arg(0), "backupList")), "count": "=.jobErrorTotal", "invalid": "=.status:@backupInvalid", "manifest": "verifyManifestFile()",
                "step": ("=.manifestFileIdx", lambda ctx: ctx.pt.kind in ("inc", "opas") or ctx.rhs() != ("int", 0))},
               {"none": "verifyManifestFile() == 0", "end": end}, noInline=("verifyManifestFile", "verifyInvalidFileAdd"), sticky=["none", "end"],
               kill={"drop": {"none", "end", "count", "invalid", "step"}, "manifest": {"none"}, "step": {"end"}})
    A.guard(f, "drop", [lambda st: has(st, "none") or has(st, "end") and (has(st, "step") or has(st, "count") and has(st, "invalid"))], KEEP)


def p_callback(A):
    f = A.flow("verifyJobCallback", {"arch": "verifyArchive()", "back": "verifyBackup()"},
               {"job": "verifyArchive() != 0", "more": emptyLit(False, "archiveIdList", "-")}, noInline=("verifyArchive", "verifyBackup"), sticky=["job", "more"])
    A.must(f, [["back", "job", "more"]][0], KEEP)


def p_labels(A):
    """Backups that are only in backup.info are verified too."""
    f = A.flow("verifyProcess", {"label": ("strLstGet()", lambda ctx: hasCall(ctx.arg(0), "infoBackupDataLabelList")), "add": "strLstAdd()", "list": "infoBackupDataLabelList()"},
               {"there": LitFn(lambda a, pol: any(x[0] == "call" and x[1] in ("strLstFindIdx", "strLstExists") and hasCall(x, "infoBackupDataLabelList") for x in a[1:3]) and
                               (pol is False), {"strLstFindIdx", "strLstExists"}, "the backup is in the list")},
               kill={"label": {"there", "add"}}, sticky=["there"],
               noInline=("verifyAddInvalidWalFile", "verifyInvalidFileAdd", "verifyLogInvalidResult", "verifyRender", "verifyBackupInfoFile", "verifyArchiveInfoFile", "verifyPgHistory",
                         "verifyBackupSet", "verifySetBackupCheckArchive"))
    def done(st):
        return not has(st, "label") or has(st, "there") or has(st, "add")
    A.guard(f, "label", [done], KEEP)
    A.must(f, done, KEEP)


def p_set(A):
    """With one backup selected, the backups a block incremental backup refers to are verified too."""
    f = A.flow("verifyBackupSet", {"file": "manifestFile()", "refs": "manifestReferenceList()"},
               {"whole": isZeroFld("blockIncrMapSize", True, "the file is not block incremental"), "caught": "errorInternalCatch()"}, kill={"file": {"whole"}}, sticky=["whole", "caught"])
    A.guard(f, "file", [lambda st: not has(st, "file") or has(st, "whole")], ONCE)
    A.must(f, lambda st: not has(st, "file") or has(st, "whole") or has(st, "refs") or has(st, "caught"), ONCE)


def p_range(A):
    """A damaged WAL file is put on the list of the range it is in."""
    def less(a, pol):
        return signOf(a, pol, "stop", ("p", 3)) == {-1}
    f = A.flow("verifyAddInvalidWalFile", {"range": ("lstGet()", lambda ctx: ctx.arg(0) == ("p", 0)), "add": "verifyInvalidFileAdd()"},
               {"less": LitFn(less, {"strCmp"}, "the range ends before the file")}, kill={"range": {"less"}}, noInline=("verifyInvalidFileAdd",), sticky=["less"])
    A.guard(f, "range", [lambda st: not has(st, "range") or has(st, "less")], COUNT)
    A.must(f, lambda st: not has(st, "range") or has(st, "less") or has(st, "add"), COUNT)
    if f.sites("add") and not f.coarse:
        for o in f.occ["add"].values():
            if has(o.st, "less"):
                A.bad(COUNT, o.where, "the file is put on the list of a range that ends before it", f.ex.trace(o.node))
            A.ok(COUNT, o.where)


def p_render(A):
    """A backup that is not valid is shown."""
    def state(name, val):
        v = enum(A, name)
        return LitFn(lambda a, pol: pol is val and a[0] == "eq" and a[1][0] == "fld" and a[1][2] == "status" and a[2] == ("int", v), {"status"}, "the state is %s%s" % ("" if val else "not ", name))
    lits = {"valid": state("backupValid", True), "busy": state("backupInProgress", True), "sound": state("backupInvalid", False), "there": state("backupMissingManifest", False)}
    f = A.flow("verifyRender", {"backup": ("lstGet()", lambda ctx: ctx.arg(0) == ("p", 1)), "show": ("strCatFmt()|strCat()|strCatZ()", lambda ctx: any(mentionsField(ctx.arg(i), "backupLabel") for i in range(1, 4)))},
               lits, kill={"backup": set(lits) | {"show"}}, sticky=list(lits), noInline=("verifyCreateFileErrorsStr",))

    def done(st):
        return not has(st, "backup") or has(st, "show") or has(st, "valid") or has(st, "busy") or has(st, "sound") and has(st, "there")
    A.guard(f, "backup", [done], COUNT)
    A.must(f, done, COUNT)


def p_info(A):
    f = A.flow("verifyInfoFile", {"err": "=.errorCode:errorCode()", "sum": "=.checksum", "load": "verifyFileLoad()"}, {"caught": "errorInternalCatch()"}, noInline=("verifyFileLoad",), sticky=["caught"])
    A.must(f, ["err", "sum"], "an info file that cannot be loaded is reported as unusable")
    A.must(f, "err", "an info file that cannot be loaded is reported as unusable", when="caught")


# Results of a prior backup -----------------------------------------------------------------------------------------------------------------------
def p_complete(A):
    all_ = LitFn(lambda a, pol: mentionsField(a, "totalFileManifest") and mentionsField(a, "totalFileValid") or mentionsField(a, "pending"), {"totalFileManifest", "totalFileValid"}, "all results are known")
    f = A.flow("verifyProcess", {"done": "=.fileVerifyComplete"}, {"all": all_}, sticky=["all"],
               noInline=("verifyAddInvalidWalFile", "verifyInvalidFileAdd", "verifyLogInvalidResult", "verifyRender", "verifyBackupInfoFile", "verifyArchiveInfoFile", "verifyPgHistory",
                         "verifyBackupSet", "verifySetBackupCheckArchive"))
    if A.atLeast(f, "done", 1):
        if any(not has(o.st, "all") for o in f.occ["done"].values()):
            A.bad(DONE, A.loc("verifyProcess"), "a backup is marked as completely verified when its last file is handed out, not when its result is known")
        A.ok(DONE, A.loc("verifyProcess"))


def p_name(A):
    v = View(A, "verifyBackup", noInline=("verifyManifestFile", "verifyInvalidFileAdd"))
    n = 0
    for s in v.calls("lstFindIdx", "lstFind"):
        if not mentionsField(s.args[0], "invalidFileList"):
            continue
        n += 1
        if not any(mentionsField(x, "blockIncrMapSize") for x in s.args[1:]):
            A.bad(NAME, A.loc("verifyBackup"), "the name does not depend on whether the file is stored as block incremental")
        A.ok(NAME, s.where)
    if not n:
        A.unsure("verifyBackup does not look up results of a prior backup")
