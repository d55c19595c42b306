"""Restore ends with verified content: what is written is compared with the checksum of the manifest, what is kept was compared before."""
from flow import LitFn, has
from lib import View, callOf, entryOf, fieldLit, follow, hasCall, hasField, mentionsField, precede, structArg
from graph import fmt, walkTerm

ASSUME = ["the hash filter computes the SHA1 of the bytes that pass it", "delta restore with force trusts size and time of files older than the start of the copy (documented)"]


def fldOf(t, name, call):
    """Does the term contain the field of what the call returned?"""
    for x in walkTerm(t):
        if x[0] == "fld" and x[2] == name:
            b = x[1]
            while b[0] in ("fld", "d", "deref", "addr", "phi") and len(b) > 1 and isinstance(b[1], tuple):
                b = b[1]
            if b[0] == "call" and b[1] == call:
                return True
            if b[0] in ("phi", "hav", "alt") and hasCall(b, call):
                return True
    return False


def rf(t, name):
    """A field of the file that is restored."""
    return fldOf(t, name, "lstGet")


def both(fld):
    return lambda a, pol: pol is True and a[0] == "eq" and any(rf(x, fld) for x in a[1:3]) and any(fldOf(x, fld, "storageInfo") for x in a[1:3])


def hashLit(a, pol):
    if a[0] == "eq" and a[2] == ("int", 0) and pol is False and a[1][0] == "call" and a[1][1] == "bufEq":
        x, y = a[1][2][:2]
        for u, w in ((x, y), (y, x)):
            if rf(u, "checksum") and (hasCall(w, "ioFilterGroupResult") or any(z[0] == "hav" for z in walkTerm(w))):
                return True
    return False


SUM = LitFn(hashLit, {"bufEq"}, "checksum of the manifest matches")
SIZE0 = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and rf(a[1], "size"), {"size"}, "size is zero")


def p_preserve(A):
    pres = A.prog.enum("restoreResultPreserve")
    f = A.flow("restoreFile",
               {"file": "lstGet(#9)", "pres": "=RestoreFileResult.result:%d" % pres, "drain": "ioReadDrain()", "hash": "ioFilterGroupAdd(_, cryptoHashNew(@hashTypeSha1))",
                "info": "storageInfo()"},
               {"delta": "#4", "force": "#5", "notZero": ".zero == 0", "exists": ".exists", "sum": SUM, "size0": SIZE0,
                "noForce": "!#5",
                "size": LitFn(both("size"), {"size"}, "same size"),
                "time": LitFn(both("timeModified"), {"timeModified"}, "same time"),
                "old": LitFn(lambda a, pol: pol is True and a[0] == "lt" and hasCall(a[1], "storageInfo") and a[2] == ("p", 3), {"timeModified"}, "older than the copy"),
                "utime": "utime() != -1"},
               kill={"file": {"force", "noForce", "notZero", "exists", "sum", "size0", "size", "time", "old", "hash", "drain", "utime", "info", "pres"}, "info": {"size", "time"}}, sticky=["exists"],
               noInline=("restoreFileWrite",))
    R = "a file is kept only if it is known to have the content of the backup"
    A.guard(f, "pres", ["delta", "notZero", "exists"], R)
    A.guard(f, "pres", [["force", "size0", lambda st: has(st, "size") and has(st, "sum")]], R)
    A.guard(f, "pres", [["size0", "sum", lambda st: has(st, "size") and has(st, "time") and has(st, "old") and has(st, "force")]], R)
    A.guard(f, "pres", [["noForce", lambda st: has(st, "size") and has(st, "time") and has(st, "old")]], R)
    A.guard(f, "pres", [["force", "size0", "drain"]], R)
    A.guard(f, "pres", [["force", "time", "utime"]], "a kept file has the time of the backup")


def p_copy(A):
    f = A.flow("restoreFile",
               {"file": "lstGet(#9)", "hash": "ioFilterGroupAdd(_, cryptoHashNew(@hashTypeSha1))",
                "dec": "ioFilterGroupAdd(_, decompressFilter(#2))", "crypt": "ioFilterGroupAdd(_, cipherBlockNew(@cipherModeDecrypt, #7))",
                "copy": "ioCopy()", "delta": "blockDeltaNew()", "bw": "ioWrite()", "close": "ioWriteClose()", "drain": "ioReadDrain()", "map": "blockMapNewRead()",
                "seek": "ioWriteSeek()"},
               {"sum": SUM, "noCipher": "cipherSpecType(#7) == @cipherTypeNone", "noComp": "#2 == @compressTypeNone"},
               kill={"file": {"hash", "dec", "crypt", "drain", "bw"}, "copy": {"sum"}, "delta": {"sum"}, "bw": {"sum", "drain", "close", "seek"}, "close": {"drain"}, "dec": {"hash"}, "crypt": {"hash", "dec"},
                     "drain": {"sum"}},
               sticky=["sum"])
    R = "the content written is compared with the checksum of the manifest"

    def clean(st):
        return has(st, "sum") or not (has(st, "copy") or has(st, "delta"))
    for lab in ("copy", "delta"):
        A.guard(f, lab, [clean], R)
    A.must(f, clean, R)
    A.guard(f, "copy", ["hash"], "the checksum is computed over the original content")
    A.guard(f, "copy", [["noCipher", "crypt"]], "encrypted files are decrypted with the key of the backup")
    A.guard(f, "map", [["noCipher", "crypt"]], "encrypted files are decrypted with the key of the backup")
    A.guard(f, "copy", [["noComp", "dec"]], "compressed files are decompressed")
    A.guard(f, "bw", ["seek"], "each block is written at its own offset")
    # a file put together from blocks is read again as a whole
    def reread(st):
        return not has(st, "bw") or (has(st, "drain") and has(st, "hash"))
    A.guard(f, "file", [reread], "a file restored from blocks is read back as a whole")
    A.must(f, lambda st: reread(st), "a file restored from blocks is read back as a whole")


def p_results(A):
    e = A.prog.enum
    v = View(A, "restoreFile")
    R = "a file is kept, zeroed or copied"
    vals = {e("restoreResultPreserve"), e("restoreResultZero"), e("restoreResultCopy")}
    for s in v.assigns("RestoreFileResult", "result"):
        t = s.args[0]
        if t[0] != "int" or int(t[1]) not in vals:
            A.bad(R, s.where, "the result is %s" % fmt(t)[:80])
        A.ok(R, s.where)
    f = A.flow("restoreFile", {"file": "lstGet(#9)", "zero": "=RestoreFileResult.result:%d" % e("restoreResultZero"), "close": "ioWriteClose()", "new": "storageNewWrite(storagePgWrite())"},
               {"size0": SIZE0, "z": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and rf(a[1], "zero"), {"zero"}, "zeroed"),
                "trunc": "ftruncate() != -1", "nz": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and rf(a[1], "zero"), {"zero"}, "not zeroed")},
               kill={"file": {"size0", "z", "nz", "close", "trunc", "new"}, "new": {"close", "trunc"}})
    A.guard(f, "zero", [["size0", "z"]], "only empty and excluded files are written without content")
    A.guard(f, "zero", ["close", ["nz", "trunc"]], "only empty and excluded files are written without content")

    rule = "each file to be copied is copied"
    cp = v.calls("ioCopy", "blockDeltaNew")
    add = v.calls("storageReadMultiAdd")
    notCopy = LitFn(lambda a, pol: a[0] == "eq" and hasField(a[1], "result", "RestoreFileResult") and a[2][0] == "int" and
                    (pol is False and int(a[2][1]) == e("restoreResultCopy") or pol is True and int(a[2][1]) != e("restoreResultCopy")), {"result"}, "not to be copied")
    res = [s for s in v.calls("lstGet") if hasCall(s.args[0], "lstNew") or s.args[0][0] == "hav"]
    after = res
    if not after or not cp or not add:
        A.unsure("restoreFile: copy loop not found")
    else:
        follow(A, v, after, cp, rule, "a file is reported as copied without being copied", skip=[notCopy])
        follow(A, v, v.calls("lstAdd"), add, rule, "a file to be copied is not read", skip=[notCopy, LitFn(
            lambda a, pol: hashLit(a, pol) or (a[0] == "lt" and pol is True and a[2] == ("p", 3)), set(), "kept")])

    rule = "files are restored with the name, mode, owner and time of the backup"
    for s in v.calls("storageNewWrite"):
        if not hasField(s.args[1], "name", "RestoreFile"):
            A.bad(rule, s.where, "the file written is %s" % fmt(s.args[1])[:100])
        nt = structArg(s.args[2], "noTruncate")
        if nt == ("int", 1):
            continue
        for k, fld in (("modeFile", "mode"), ("user", "user"), ("group", "group"), ("timeModified", "timeModified")):
            t = structArg(s.args[2], k)
            if t is None or not hasField(t, fld, "RestoreFile"):
                A.bad(rule, s.where, "%s of the file is %s" % (k, "not set" if t is None else fmt(t)[:100]))
        A.ok(rule, s.where)
        if nt is not None and nt != ("int", 0) and not hasField(nt, "blockChecksum", "RestoreFile"):
            A.bad("old content is left in a file only for a block restore that compared it", s.where, "content is left when %s" % fmt(nt)[:100])
    rule = "old content is left in a file only for a block restore that compared it"
    for s in v.assigns("RestoreFile", "blockChecksum"):
        if not hasCall(s.args[0], "ioFilterGroupResult"):
            A.bad(rule, s.where, "block checksums are %s" % fmt(s.args[0])[:100])
        A.ok(rule, s.where)


def p_jobs(A):
    v = View(A, "restoreProcessQueue")
    rule = "every file of the manifest is restored"
    get = v.calls("manifestFilePackGet", "manifestFile")
    add = [s for s in v.calls("lstAdd") if any(hasCall(a, "manifestFilePackGet") for a in s.args)] or [s for s in v.calls("lstAdd") if hasCall(s.args[0], "lstGet")]
    follow(A, v, get, add, rule, "a file is not queued")
    follow(A, v, get, add, rule, "a file is not queued", to=get)
    for s in add:
        A.ok(rule, s.where)
    v = View(A, "restoreJobCallback")
    rm = v.calls("lstRemoveIdx")
    wr = [s for s in v.calls("pckWriteBin") if hasField(s.args[1], "checksumSha1") or mentionsField(s.args[1], "checksumSha1")]
    precede(A, v, wr, rm, rule, "a file is taken from the queue without being sent")
    f = A.flow("restoreJobCallback", {"rm": "lstRemoveIdx()", "new": "protocolParallelJobNew()"}, {}, noInline=("restoreJobQueueNext", "restoreFilePgPath", "restoreManifestOwnerReplace", "restoreFileZeroed"))
    A.must(f, "new", rule, when="rm")
    rule = "files are read from where the backup stored them"
    ps = v.calls("backupFileRepoPath")
    if not ps:
        A.unsure("restoreJobCallback: path of the file not found")
    for s in ps:
        if not (mentionsField(s.args[0], "reference") and mentionsField(s.args[0], "backupLabel")):
            A.bad(rule, s.where, "the backup is %s" % fmt(s.args[0])[:140])
        for k, fld in (("manifestName", "name"), ("bundleId", "bundleId"), ("compressType", "backupOptionCompressType"), ("blockIncr", "blockIncrMapSize")):
            t = structArg(s.args[1], k)
            if t is None or not mentionsField(t, fld):
                A.bad(rule, s.where, "%s is %s" % (k, "not set" if t is None else fmt(t)[:100]))
        A.ok(rule, s.where)
    f = A.flow("restoreJobCallback", {"file": "manifestFileUnpack()", "first": "pckWriteStr(_, backupFileRepoPath())", "add": ("pckWriteBin()", lambda c: mentionsField(c.arg(1), "checksumSha1"))},
               {"bundle": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2][0] != "int" and a[1][0] != "int", {"bundleId"}, "same bundle"),
                "ref": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[1][0] == "call" and a[1][1] == "strEq", {"strEq"}, "same backup")},
               kill={"file": {"bundle", "ref", "first"}}, noInline=("restoreJobQueueNext", "restoreFilePgPath", "restoreManifestOwnerReplace", "restoreFileZeroed"))
    A.guard(f, "add", [["first", lambda st: has(st, "bundle") and has(st, "ref")]], "files restored by one job are in the same repository file")
