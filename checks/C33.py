"""Processes agree on what they send each other: parameters and results are read as they were written and used for what they mean."""
from packs import Side, align, default, dests, marks
from prog import AnalysisError

ASSUME = ["the pack library reads back a value that was written with the same type", "both processes run the same version (decided by C29's handshake rules or by the greeting)"]

STOP = ("protocolParallelJobNew", "protocolClientRequest", "protocolClientRequestInternal", "protocolClientSessionRequest", "protocolClientSessionOpen", "protocolClientRequestP",
        "protocolClientSessionRequestAsync")

F = "ManifestFile."
# What a value that was read is used as -> what has to have been written (any of)
MEANING = {
    ("archivePushAsyncCallback", "archivePushFileProtocol"): {
        "archivePushFile#0": ["ArchivePushAsyncData.walPath"], "archivePushFile#1": ["cfgOptArchiveHeaderCheck"], "archivePushFile#2": ["cfgOptArchiveModeCheck"],
        "archivePushFile#3": ["ArchivePushCheckResult.pgVersion"], "archivePushFile#4": ["ArchivePushCheckResult.pgSystemId"], "archivePushFile#5": ["ArchivePushAsyncData.walFileList"],
        "archivePushFile#6": ["ArchivePushAsyncData.compressType", "cfgOptCompressType"], "archivePushFile#7": ["ArchivePushAsyncData.compressLevel", "cfgOptCompressLevel"],
        "archivePushFile#9": ["ArchivePushCheckResult.errorList"]},
    ("archiveGetAsyncCallback", "archiveGetFileProtocol"): {"archiveGetFile#1": ["ArchiveFileMap.request"]},
    ("archiveGetFileProtocol", "cmdArchiveGetAsync"): {"cfgOptionGroupName#1": ["ArchiveGetFileResult.actualIdx"], "strLstJoin#0": ["ArchiveGetFileResult.warnList"]},
    ("archivePushFileProtocol", "cmdArchivePushAsync"): {"archiveAsyncStatusOkWrite#2": ["ArchivePushFileResult.warnList"]},
    ("backupJobCallback", "backupFileProtocol"): {
        "backupFile#0": ["backupFileRepoPath"], "backupFile#1": ["BackupJobData.bundleId", "=0"], "backupFile#2": ["ManifestData.bundleRaw", "=0"], "backupFile#3": ["manifestReferenceList"],
        "backupFile#4": ["BackupJobData.compressType", "cfgOptCompressType"], "backupFile#5": ["BackupJobData.compressLevel", "cfgOptCompressLevel"], "backupFile#7": ["cfgOptPgVersionForce"],
        "backupFile#8": ["BackupJobData.pageSize"],
        "BackupFile.pgFile": ["manifestPathPg"], "BackupFile.pgFileDelta": [F + "delta"], "BackupFile.pgFileIgnoreMissing": [F + "name"], "BackupFile.pgFileSize": [F + "size"],
        "BackupFile.pgFileSizeOriginal": [F + "sizeOriginal"], "BackupFile.pgFileCopyExactSize": ["backupProcessFilePrimary", "BackupJobData.standbyExp"],
        "BackupFile.pgFileChecksum": [F + "checksumSha1"], "BackupFile.pgFileChecksumPage": [F + "checksumPage"], "BackupFile.pgFilePageHeaderCheck": ["cfgOptPageHeaderCheck"],
        "BackupFile.blockIncrSize": [F + "blockIncrSize", "=0"], "BackupFile.blockIncrChecksumSize": [F + "blockIncrChecksumSize"],
        "BackupFile.blockIncrSuperSize": ["BackupJobData.blockIncrSizeSuper"], "BackupFile.blockIncrMapPriorFile": [F + "reference", "Null"],
        "BackupFile.blockIncrMapPriorOffset": [F + "bundleOffset"], "BackupFile.blockIncrMapPriorSize": [F + "blockIncrMapSize"], "BackupFile.manifestFile": [F + "name"],
        "BackupFile.repoFileChecksum": [F + "checksumRepoSha1"], "BackupFile.repoFileSize": [F + "sizeRepo"], "BackupFile.manifestFileResume": [F + "resume"],
        "BackupFile.manifestFileHasReference": [F + "reference"]},
    ("restoreJobCallback", "restoreFileProtocol"): {
        "restoreFile#1": ["RestoreJobData.repoIdx"], "restoreFile#2": ["ManifestData.backupOptionCompressType"], "restoreFile#3": ["ManifestData.backupTimestampCopyStart"],
        "restoreFile#4": ["cfgOptDelta"], "restoreFile#8": ["manifestReferenceList"], "RestoreFile.name": ["restoreFilePgPath"], "RestoreFile.checksum": [F + "checksumSha1"],
        "RestoreFile.size": [F + "size"], "RestoreFile.timeModified": [F + "timestamp"], "RestoreFile.mode": [F + "mode"], "RestoreFile.zero": ["restoreFileZeroed"],
        "RestoreFile.user": [F + "user"], "RestoreFile.group": [F + "group"], "RestoreFile.offset": [F + "bundleOffset"], "RestoreFile.limit": [F + "sizeRepo", F + "blockIncrMapSize"],
        "RestoreFile.blockIncrMapSize": [F + "blockIncrMapSize"], "RestoreFile.blockIncrSize": [F + "blockIncrSize"], "RestoreFile.blockIncrChecksumSize": [F + "blockIncrChecksumSize"],
        "RestoreFile.manifestFile": [F + "name"]},
    ("restoreFileProtocol", "restoreJobResult"): {"manifestFileFind#1": ["RestoreFileResult.manifestFile"]},
    ("backupFileProtocol", "backupJobResult"): {
        "manifestFileFind#1": ["BackupFileResult.manifestFile"], "ManifestFile.size": ["BackupFileResult.copySize"], "ManifestFile.bundleOffset": ["BackupFileResult.bundleOffset"],
        "ManifestFile.blockIncrMapSize": ["BackupFileResult.blockIncrMapSize"], "ManifestFile.sizeRepo": ["BackupFileResult.repoSize"],
        "ManifestFile.checksumSha1": ["BackupFileResult.copyChecksum"], "ManifestFile.checksumRepoSha1": ["BackupFileResult.repoChecksum"]},
    ("protocolServerError", "protocolClientError"): {"errorTypeFromCode#0": ["param:1"], "errorInternalThrow#4": ["param:2"], "errorInternalThrow#5": ["param:3"]},
    ("protocolServerResponse", "protocolClientResponseInternal"): {
        "protocolClientSessionFindIdx#1": ["ProtocolServer.sessionId"], "ProtocolClientSession.type": ["ProtocolServerResponseParam.type"],
        "ProtocolClientSession.close": ["ProtocolServerResponseParam.close"], "ProtocolClientSession.packRead": ["ProtocolServerResponseParam.data"]},
    ("protocolClientRequestInternal", "protocolServerRequest"): {
        "ProtocolServerRequestResult.id": ["ProtocolClientSession.command"], "ProtocolServerRequestResult.type": ["param:1"], "ProtocolServer.sessionId": ["ProtocolClientSession.sessionId"],
        "ProtocolServerRequestResult.sessionRequired": ["ProtocolClientSessionPub.open"], "ProtocolServerRequestResult.param": ["param:2"]},
    ("verifyArchive", "verifyFileProtocol"): {
        "verifyFile#3": ["compressTypeFromName"], "verifyFile#4": ["bufNewDecode"], "verifyFile#5": ["PgWal.size"]},
    ("verifyBackup", "verifyFileProtocol"): {
        "verifyFile#1": [F + "bundleOffset"], "verifyFile#2": [F + "sizeRepo"], "verifyFile#3": ["ManifestData.backupOptionCompressType", "compressTypeNone"],
        "verifyFile#4": [F + "checksumSha1", F + "checksumRepoSha1"], "verifyFile#5": [F + "size", F + "sizeRepo"]},
}
PAIRS = list(MEANING) + [
    ("dbQuery", "dbQueryProtocol"), ("storageRemoteInfo", "storageRemoteInfoProtocol"), ("storageRemoteLinkCreate", "storageRemoteLinkCreateProtocol"),
    ("storageRemoteList", "storageRemoteListProtocol"), ("storageRemotePathCreate", "storageRemotePathCreateProtocol"), ("storageRemotePathRemove", "storageRemotePathRemoveProtocol"),
    ("storageRemotePathSync", "storageRemotePathSyncProtocol"), ("storageRemoteRemove", "storageRemoteRemoveProtocol"), ("storageReadRemoteOpen", "storageRemoteReadOpenProtocol"),
    ("storageReadMultiRemoteOpen", "storageRemoteReadMultiOpenProtocol"), ("storageWriteRemoteOpen", "storageRemoteWriteOpenProtocol"), ("configOptionProtocol", "configOptionRemote"),
    ("configOptionRemote", "configOptionProtocol"), ("verifyFileProtocol", "verifyProcess"), ("storageRemoteListProtocol", "storageRemoteList"),
    ("storageRemoteInfoProtocol", "storageRemoteInfo"), ("storageRemotePathRemoveProtocol", "storageRemotePathRemove"), ("storageRemoteFeatureProtocol", "storageRemoteNew"),
    ("blockIncrNew", "blockIncrNewPack"), ("pageChecksumNew", "pageChecksumNewPack"), ("blockChecksumNew", "blockChecksumNewPack"), ("compressParamList", "compressFilterPack"),
    ("decompressParamList", "compressFilterPack"), ("cipherBlockNew", "cipherBlockNewPack"), ("cryptoHashNew", "cryptoHashNewPack"), ("cipherSpecPack", "cipherSpecNewPack"),
    ("ioFilterGroupParamAll", "storageRemoteFilterGroup"), ("ioFilterGroupResultAll", "ioFilterGroupResultAllSet")]
# The driver function that sends a request -> the slot of the storage interface the other end has to call
SLOT = {"storageRemoteInfo": "info", "storageRemoteLinkCreate": "linkCreate", "storageRemoteList": "list", "storageRemotePathCreate": "pathCreate", "storageRemotePathRemove": "pathRemove",
        "storageRemotePathSync": "pathSync", "storageRemoteRemove": "remove"}


def pairing(A, w, r):
    for n in (w, r):
        if n not in A.prog.fns:
            raise AnalysisError("no function %s" % n)
    W, R = Side(A.prog, w, "pckWrite", STOP), Side(A.prog, r, "pckRead", ("pckReadEnd",) if r.startswith("protocol") else ())
    try:
        pairs, problems, accepted = align(W, R, short=r == "protocolServerRequest")
    except OverflowError as e:
        raise AnalysisError(str(e))
    return W, R, pairs, problems, accepted


def where(side, fr, i):
    fn = fr[-1][0] if fr else side.root
    return "%s:%s (%s)" % (A_FILE(side, fn), side.point(fn, i).line, fn)


def A_FILE(side, fn):
    return side.prog.fns[fn].file


def norm(d):
    """A default that moves along is told by the name of the field it is kept in."""
    if d is None or d == ["i", 0]:
        return None
    return d[2] if d[0] == "m" else str(d)


def mentions(x):
    return ({x[2]} if x[0] == "m" else set()) | {f for y in x[1:] if isinstance(y, list) and y for f in mentions(y)} if isinstance(x, list) and x else set()


def running(A, side, fn, d, names):
    """The default that moves along is set from the value that was sent or read."""
    rule = "a default that moves along is moved by both ends"
    fields = {x.rpartition(".")[2] for x in names if "." in x and "#" not in x}
    calls = {p.data[0]: p for p in side.prog.fns[fn].pts() if p.kind == "call" and p.data}
    sets = [p for p in side.prog.fns[fn].pts() if p.kind == "as" and p.data[2][0] == "m" and p.data[2][2] == d[2]]

    def full(x, depth=3):
        out = mentions(x)
        for y in walk(x):
            if y[0] == "c" and len(y) == 2 and y[1] in calls and depth:
                for a in calls[y[1]].data[3]:
                    out |= full(a, depth - 1)
        return out

    if not sets:
        return A.bad(rule, A.loc(fn), "%s is the default for the next value but is never set in %s" % (d[2], fn))
    if not any(full(p.data[3]) & fields for p in sets):
        return A.bad(rule, "%s:%s (%s)" % (side.prog.fns[fn].file, sets[0].line, fn), "%s is not set from the value it is the default for" % d[2])
    A.ok(rule, "%s %s" % (fn, d[2]))


def walk(x):
    if isinstance(x, list) and x:
        yield x
        for y in x[1:]:
            yield from walk(y)


def part(w, r):
    def run(A):
        W, R, pairs, problems, accepted = pairing(A, w, r)
        rule = "what one process writes is read by the other in the same order and with the same types"
        if not pairs and not problems:
            raise AnalysisError("%s and %s exchange nothing" % (w, r))
        for k, p in sorted(problems.items(), key=str):
            A.bad(rule, "%s:%s (%s)" % (A.prog.fns[k[0][-1][0] if k[0] else w].file, p.line, k[0][-1][0] if k[0] else w), "%s that is written here is not what %s reads" % (W.kind(p), r))
        if not problems and not accepted:
            A.bad(rule, A.loc(r), "%s does not read to the end what %s writes" % (r, w))
        if problems or not accepted:
            return
        info, recs = [], set()
        for (wf, wi), (rf, ri) in sorted(pairs, key=str):
            wp, rp = W.point(wf[-1][0] if wf else w, wi), R.point(rf[-1][0] if rf else r, ri)
            A.ok(rule, where(W, wf, wi))
            kind = W.kind(wp)
            if kind in ("ObjBegin", "ObjEnd", "ArrayBegin", "ArrayEnd"):
                continue
            e = wp.data[3][1] if len(wp.data[3]) > 1 and kind != "Null" else None
            m = marks(A.prog, W, wf, e) if e is not None else {"Null"}
            info.append((where(W, wf, wi), where(R, rf, ri), m, dests(A.prog, R, rf, ["c", rp.data[0]]), wp, rp, e))
            dw, dr = default(wp), default(rp)
            if norm(dw) != norm(dr) and kind != "Null":
                A.bad("a value that is not sent because it is the default is read as that default", where(W, wf, wi), "the default differs between writing and reading")
            for side, fr, d, other in ((W, wf, dw, dr), (R, rf, dr, dw)):
                if d and d[0] == "m" and kind != "Null":
                    recs.add(d[3])
                    running(A, side, fr[-1][0] if fr else side.root, d, m if side is W else dests(A.prog, R, rf, ["c", rp.data[0]]))
            A.ok("a value that is not sent because it is the default is read as that default", where(R, rf, ri))
        # A value that is sent as a difference to the one before
        for ww, rw, m, ds, wp, rp, e in info:
            for x in walk(e):
                if x[0] == "m" and x[3] in recs:
                    for side, names in ((W, m), (R, ds)):
                        for fn in {n for n in side.pts if any(p is wp or p is rp for p in side.pts[n].values())}:
                            running(A, side, fn, x, names)
        # Meaning
        rule2 = "a value that was sent is used for what it means"
        table = MEANING.get((w, r), {})
        seen = set()
        wanted = {d: set(ms) for d, ms in table.items()}
        for ww, rw, m, ds, wp, rp, e in info:
            for d in sorted(ds):
                if d in wanted:
                    seen.add(d)
                    need = wanted[d]
                    if m & need:
                        A.ok(rule2, rw)
                        continue
                    other = [x for x, ms in wanted.items() if x != d and ms & m - {"=0", F + "name"}]
                    direct = isinstance(e, list) and e[0] in ("i", "e", "s") or m and all(x.startswith("=") or x.endswith("New") for x in m)
                    if other or direct:
                        A.bad(rule2, ww, "%s is used for %s" % ("what is written for " + ", ".join(sorted(other)[:3]) if other else "a constant", d))
                    else:
                        A.unsure(rule2, ww, "%s is written as %s" % (d, ", ".join(sorted(m)[:5])))
        for d in wanted:
            if d not in seen:
                A.unsure(rule2, A.loc(r), "%s is not set from a value that was read" % d)
        # A constructor's own parameters and a driver's own parameters come back in the same places
        for ww, rw, m, ds, wp, rp, e in info:
            ps = {x for x in m if x.startswith("param:")}
            for d in sorted(ds):
                n, _, k = d.partition("#")
                if not (n == w or w in SLOT and n == "slot:" + SLOT[w]) or not ps:
                    continue
                if "param:" + k in ps:
                    A.ok(rule2, rw)
                elif not any(x.partition("#")[0] == n and "param:" + x.partition("#")[2] in ps for x in ds):
                    A.bad(rule2, ww, "parameter %s of %s is sent, parameter %s is set from it" % (",".join(sorted(x[6:] for x in ps)), w, k))
        # Fields of the same name
        byName = {}
        for ww, rw, m, ds, wp, rp, e in info:
            if isinstance(e, list) and e[0] == "m":
                byName.setdefault(e[2], []).append(ww)
        for ww, rw, m, ds, wp, rp, e in info:
            for d in sorted(ds):
                f = d.rpartition(".")[2] if "." in d and "#" not in d else None
                if f is None or f not in byName or d in wanted or not isinstance(e, list) or e[0] != "m":
                    continue
                if any(x.rpartition(".")[2] == f for x in m):
                    A.ok(rule2, rw)
                else:
                    A.bad(rule2, ww, "%s is set from %s" % (d, e[2]))
    run.__name__ = "%s_%s" % (w, r)
    return run


for _w, _r in PAIRS:
    globals()["p_%s_%s" % (_w, _r)] = part(_w, _r)
