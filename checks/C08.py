"""What a backup records about a file is what was stored, and a file is left uncopied only when a verified copy exists."""
from flow import has
from lib import View, callOf, hasCall, hasField, strHas, structArg
from graph import fmt, walkTerm

ASSUME = ["the hash, size, page checksum and block incremental filters compute what their names say over the bytes that pass them"]


def p_chain(A):
    f = A.flow(
        "backupFile",
        {"src": "storageNewRead|ioBufferReadNew()", "hash": "ioFilterGroupAdd(_, cryptoHashNew(@hashTypeSha1))", "size": "ioFilterGroupAdd(_, ioSizeNew())",
         "page": "ioFilterGroupAdd(_, pageChecksumNew())", "comp": "ioFilterGroupAdd(_, compressFilter())", "enc": "ioFilterGroupAdd(_, cipherBlockNew(@cipherModeEncrypt, #6))",
         "bi": "ioFilterGroupAdd(_, blockIncrNew())", "open": ("ioReadOpen()", lambda c: not hasCall(c.arg(0), "storageReadMultiIo")),
         "drain": "ioReadDrain()"},
        {"noCipher": "cipherSpecType(#6) == @cipherTypeNone", "noComp": "#4 == @compressTypeNone", "noPage": ".pgFileChecksumPage == 0"},
        kill={"src": {"hash", "size", "page", "comp", "enc", "bi", "noPage", "open"}, "comp": {"hash", "size"}, "enc": {"hash", "size"}, "bi": {"hash", "size"}}, stop=("open",))
    for lab in ("comp", "bi"):
        A.guard(f, lab, ["hash", "size"], "checksum and size are taken of the original content")
    A.guard(f, "enc", [lambda st: has(st, "comp") or (has(st, "hash") and has(st, "size"))], "checksum and size are taken of the original content")
    A.guard(f, "comp", [lambda st: not has(st, "enc")], "content is compressed before it is encrypted")
    A.guard(f, "page", [lambda st: not (has(st, "comp") or has(st, "enc") or has(st, "bi"))], "page checksums are verified on the original content")
    A.guard(f, "open", ["size", "hash"], "checksum and size are taken of the stored content")
    A.guard(f, "open", [["noCipher", "enc", "bi"]], "an encrypted repository gets only encrypted files")
    A.guard(f, "open", [["noComp", "comp", "bi"]], "files are compressed as the manifest says")
    A.guard(f, "open", [["noPage", "page"]], "page checksums are verified when the file has them")
    A.guard(f, "drain", ["hash", "size"], "files compared instead of copied are hashed completely", min=2)


def p_write(A):
    f = A.flow(
        "backupFile",
        {"new": "storageNewWrite()", "wopen": "ioWriteOpen(~storageNewWrite())", "close": "ioWriteClose(~storageNewWrite())", "first": "ioWrite(~storageNewWrite())",
         "copy": "ioCopy(_, ~storageNewWrite())", "rec": "=BackupFileResult.repoSize", "sum": "=BackupFileResult.copyChecksum:ioFilterGroupResult()", "read": "ioRead()"},
        {"eof": "ioReadEof()"},
        kill={"read": {"eof", "copy", "first", "rec", "sum"}}, noInline=("backupFileBlockIncr",))
    A.must(f, "close", "the repository file is closed without error", when="new")
    A.guard(f, "first", ["wopen"], "the repository file is open")
    A.guard(f, "rec", ["first"], "the whole content is stored")
    A.guard(f, "rec", [["copy", "eof"]], "the whole content is stored")


RES = "BackupFileResult"


def idx(t):
    """(filter type key, index) of a filter group result."""
    c = callOf(t, "ioFilterGroupResult", "ioFilterGroupResultPack")
    if c is None:
        return None
    i = ("int", 0)
    if len(c[2]) > 2:
        i = structArg(c[2][2], "idx") or i
    return (c[2][1], i[1] if i[0] == "int" else None)


def p_results(A):
    v = View(A, "backupFile")
    hashT = A.prog.enumval.get("CRYPTO_HASH_FILTER_TYPE")
    want = {"copySize": ("size", 0), "copyChecksum": ("hash", 0), "repoSize": ("size", 1), "repoChecksum": ("hash", 1)}
    kinds = {}
    rule = "sizes and checksums come from the right end of the filter chain"
    for fld, (k, i) in want.items():
        for s in v.assigns(RES, fld):
            r = s.args[0]
            x = idx(r)
            if x is None:
                if fld.startswith("repo"):
                    A.bad(rule, s.where, "%s is %s" % (fld, fmt(r)[:160]))
                elif not (hasField(r, "pgFileSize") if fld == "copySize" else (hasField(r, "pgFileChecksum") or mentionsZero(r))):
                    A.bad(rule, s.where, "%s is %s" % (fld, fmt(r)[:160]))
                elif fld == "copyChecksum" and mentionsZero(r) and not emptyCopy(s):
                    A.bad(rule, s.where, "the checksum of an empty file is recorded for a file that may not be empty")
                A.ok(rule, s.where)
                continue
            if x[1] != i:
                A.bad(rule, s.where, "%s is taken from filter %s" % (fld, x[1]))
            kinds.setdefault(k, set()).add(x[0])
            A.ok(rule, s.where)
    for k, ts in kinds.items():
        if len(ts) != 1:
            A.bad(rule, A.loc("backupFile"), "%s values come from different filters" % k)
    if set(kinds) != {"size", "hash"} or kinds["size"] & kinds["hash"]:
        A.bad(rule, A.loc("backupFile"), "sizes and checksums are not read from the size and hash filters")

    e = A.prog.enum
    name = {e("backupCopyResult" + n): n for n in ("NoOp", "Checksum", "Skip", "Truncate", "Copy")}
    rule2 = "a file is left uncopied only when the same content is known to be there"
    seen = set()

    def eqField(s, fld):
        return any(pol is True and a[0] == "eq" and (hasField(a[1], fld) or hasField(a[2], fld)) for a, pol in s.conds)

    def sameSum(s, fld):
        return any(c is not None and any(hasField(x, fld) for x in c[2]) and (any(idx(x) or hasCall(x, "ioFilterGroupResult") for x in c[2]))
                   for c in (trueCall(a, pol, "bufEq") for a, pol in s.conds))

    for s in v.assigns(RES, "backupCopyResult"):
        r = s.args[0]
        n = name.get(int(r[1])) if r[0] == "int" else None
        if n is None:
            A.unsure("%s: copy result %s" % (s.where, fmt(r)[:80]))
            continue
        seen.add(n)
        if n == "NoOp":
            if not sameSum(s, "pgFileChecksum"):
                A.bad(rule2, s.where, "the file counts as unchanged without its checksum being compared")
            if not eqField(s, "pgFileSize"):
                A.bad(rule2, s.where, "the file counts as unchanged without its size being compared")
            if not s.under(".manifestFileHasReference"):
                A.bad(rule2, s.where, "the file counts as unchanged without a backup that holds it")
        elif n == "Checksum":
            if not (sameSum(s, "repoFileChecksum") or sameSum(s, "pgFileChecksum")):
                A.bad(rule2, s.where, "a resumed file is kept without its checksum being compared")
            if not eqField(s, "repoFileSize"):
                A.bad(rule2, s.where, "a resumed file is kept without its size being compared")
            if not s.under(".manifestFileResume"):
                A.bad(rule2, s.where, "a file is kept that is not from a resumed backup")
            c = [trueCall(a, pol, "bufEq") for a, pol in s.conds]
            if not any(c is not None and any(hasCall(x, "storageNewRead") for x in c[2]) and not any(hasCall(x, "storagePg") for x in c[2]) for c in c):
                A.bad(rule2, s.where, "a resumed file is kept without its copy in the repository being read")
        elif n == "Skip":
            if not (s.under("!ioReadDrain()") or s.under("!ioReadOpen()")):
                A.bad(rule2, s.where, "a file is skipped that is not missing")
        elif n == "Truncate":
            if not (emptyCopy(s) and s.under("#1 != 0")):
                A.bad(rule2, s.where, "a file is recorded as empty that is not")
        A.ok(rule2, s.where)
    if not {"NoOp", "Checksum", "Skip"} <= seen:
        A.unsure("copy results found: %s" % sorted(seen))
    rule3 = "only files that may vanish are allowed to be missing"
    for s in v.calls("storageNewRead"):
        if hasCall(s.args[0], "storagePg"):
            t = structArg(s.args[2], "ignoreMissing") if len(s.args) > 2 else None
            if t is not None and not hasField(t, "pgFileIgnoreMissing") and t != ("int", 0):
                A.bad(rule3, s.where, "missing is ignored when %s" % fmt(t)[:100])
            A.ok(rule3, s.where)
    rule4 = "each file of a bundle is recorded at the offset where it was stored"
    offs = v.assigns(RES, "bundleOffset")
    for s in offs:
        A.ok(rule4, s.where)
        if not (hasField(s.args[0], "repoSize") or any(x[0] == "hav" for x in walkTerm(s.args[0]))):
            A.bad(rule4, s.where, "the offset is %s" % fmt(s.args[0])[:120])


def emptyCopy(s):
    """Is the size of the original content known to be zero?"""
    for a, pol in s.conds:
        if pol is True and a[0] == "eq" and a[2] == ("int", 0):
            if hasField(a[1], "copySize") or (idx(a[1]) or (0, None))[1] == 0:
                return True
    return False


def trueCall(a, pol, name):
    if a[0] == "eq" and a[2] == ("int", 0) and pol is False and a[1][0] == "call" and a[1][1] == name:
        return a[1]
    return None


def mentionsZero(t):
    return any(x[0] == "glob" and "ZERO" in x[1] for x in walkTerm(t)) or "SHA1_ZERO" in fmt(t)


def p_manifest(A):
    v = View(A, "backupJobResult")
    up = v.calls("manifestFileUpdate")
    rule = "the manifest entry takes over everything the copy reported"
    if not up:
        A.unsure("backupJobResult: manifest update not found")
        return
    for fld in ("size", "sizeRepo", "checksumSha1", "checksumRepoSha1", "reference", "checksumPageError", "checksumPageErrorList", "bundleId", "bundleOffset", "blockIncrMapSize"):
        ss = v.assigns("ManifestFile", fld)
        if not ss:
            A.bad(rule, up[0].where, "%s keeps the value of the previous backup" % fld)
            continue
        from lib import follow
        nxt = v.calls("manifestFileFind")
        follow(A, v, nxt, ss, rule, "%s of an updated file may keep the old value" % fld, to=up)
        if fld == "reference":
            for s in ss:
                if s.args[0] != ("int", 0):
                    A.bad(rule, s.where, "a copied file keeps a reference to another backup")
