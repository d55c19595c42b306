"""A backup is listed (final manifest, backup.info) only after everything it consists of is in the repository and synced."""
from flow import has
from lib import (View, callOf, countsFromZero, exitOf, fieldLit, follow, hasCall, hasField, mentionsField, precede, strHas)
from graph import fmt

ASSUME = ["a path that does not exist holds no file of the backup", "a storage without the path sync feature needs none"]
MUTATE = ("manifestFileAdd", "manifestFileUpdate", "manifestFileRemove", "manifestBuildComplete", "manifestBackupLabelSet", "manifestBuildIncr",
          "manifestCipherSpecSet", "manifestBuildValidate", "manifestNewBuild")


def p_order(A):
    v = View(A, "cmdBackup")
    info = v.calls("infoBackupSaveFile")
    copies = v.calls("storageCopy")
    toMan = [s for s in copies if isManifest(s.args[1])]
    toHist = [s for s in copies if strHas(s.args[1], "backup.history")]
    saves = [s for s in v.calls("manifestSave") if strHas(s.args[1], "backup.manifest.copy")]
    valid = [s for s in v.calls("manifestValidate") if s.args[1] == ("int", 1)]
    listed = toMan + info
    if not info or not toMan:
        A.unsure("cmdBackup: writing of backup.info or the final manifest not found")

    precede(A, v, [], listed, "a backup is listed only after all copies finished", "reached before the parallel executor reported done", ["protocolParallelDone()"])
    mut = v.calls(*MUTATE)
    follow(A, v, mut, valid, "the complete manifest is validated before the backup is listed", "the manifest is changed and then listed without strict validation", to=listed)
    follow(A, v, mut, saves, "the manifest saved last contains everything", "the manifest is changed and then listed without being saved", to=listed)
    precede(A, v, toMan, info, "backup.info lists a backup only after its final manifest exists", "backup.info is saved before the final manifest")
    precede(A, v, toHist, info, "backup.info lists a backup only after its manifest is in the history", "backup.info is saved before the history copy of the manifest")
    add = v.calls("infoBackupDataAdd")
    precede(A, v, add, info, "the backup is added to backup.info", "backup.info is saved without the new backup")
    follow(A, v, saves[:0] + add, info, "the backup is added to backup.info", "the command ends without saving backup.info")
    precede(A, v, info, [exitOf(v)], "the backup is added to backup.info", "the command ends without saving backup.info")

    # Only the final manifest, and the label of this backup
    rule = "the manifest copy, the final manifest and the history belong to this backup"
    for s in toMan + toHist + saves:
        for t in (s.args[1],):
            if not hasField(t, "backupLabel"):
                A.bad(rule, s.where, "the target %s does not contain the label of the backup" % fmt(t)[:200])
        A.ok(rule, s.where)
    for s in toMan:
        if not (strHas(s.args[0], "backup.manifest.copy") and hasField(s.args[0], "backupLabel")):
            A.bad(rule, s.where, "the final manifest is copied from %s" % fmt(s.args[0])[:200])

    # Paths
    feature = "storageFeature(_, @storageFeaturePathSync) == 0"
    sync = v.calls("storagePathSync")
    paths = [s for s in sync if hasCall(s.args[1], "manifestPath")]
    precede(A, v, paths, listed, "every path of the backup is synced before the backup is listed", "a path of the manifest may be left unsynced",
            [feature, "_ >= manifestPathTotal()", "_ == manifestPathTotal()", "!storagePathExists()"])
    rule = "every path of the backup is synced before the backup is listed"
    for s in paths:
        c = callOf(s.args[1], "manifestPath")
        if not countsFromZero(c[2][1]):
            A.bad(rule, s.where, "the first path is left out")
        if not hasField(s.args[1], "backupLabel"):
            A.bad(rule, s.where, "the path %s is not in this backup" % fmt(s.args[1])[:200])
    bundle = [s for s in sync if strHas(s.args[1], "bundle")]
    precede(A, v, bundle, listed, "the bundle path is synced before the backup is listed", "bundles may be left unsynced",
            [feature, fieldLit("bundle", 0), "cfgOptionBool(@cfgOptRepoBundle) == 0", "!storagePathExists()"])
    hist = [s for s in sync if strHas(s.args[1], "backup.history")]
    precede(A, v, hist, info, "the history path is synced", "the history path is not synced", [feature])
    done = v.calls("protocolParallelProcess")
    follow(A, v, done, paths, "paths are synced after the copies", "a path is not synced after the copies", to=listed,
           skip=[feature, "_ >= manifestPathTotal()", "_ == manifestPathTotal()", "!storagePathExists()"])
    follow(A, v, done, bundle, "the bundle path is synced before the backup is listed", "bundles may be left unsynced after the copies", to=listed,
           skip=[feature, fieldLit("bundle", 0), "cfgOptionBool(@cfgOptRepoBundle) == 0", "!storagePathExists()"])
    link = [s for s in v.calls("storageLinkCreate") if mentionsField(s.args[1], "reference")]
    if link:
        follow(A, v, link, paths, "paths are synced after hard links are made", "a path with new hard links is not synced", to=listed,
               skip=[feature, "_ >= manifestPathTotal()", "_ == manifestPathTotal()"])

    # Removed files leave the manifest
    rm = v.calls("manifestFileRemove")
    precede(A, v, rm, valid, "files that vanished during the backup leave the manifest", "the manifest is validated while it lists skipped files",
            ["_ >= strLstSize()", "_ == strLstSize()", "strLstEmpty()", "strLstSize() == 0"])


def isManifest(t):
    return strHas(t, "backup.manifest") and not strHas(t, "backup.manifest.copy") and not strHas(t, "backup.history")


def p_result(A):
    f = A.flow("backupJobResult",
               {"update": "manifestFileUpdate()", "skip": "strLstAdd(#3)", "next": "manifestFileFind()"},
               {"ok": "protocolParallelJobErrorCode(#4) == 0", "noop": "pckReadU32() == @backupCopyResultNoOp", "resumed": "pckReadU32() == @backupCopyResultChecksum", "skipped": "pckReadU32() == @backupCopyResultSkip",
                "end": "pckReadNull()"},
               kill={"next": {"update", "skip", "noop", "resumed", "skipped"}})
    A.must(f, "ok", "an error of a copy job fails the backup")
    A.must(f, ["end"], "all files of a job are taken into account")
    one = [lambda st: has(st, "update") or has(st, "noop") or has(st, "resumed") or has(st, "skip")]
    A.must(f, one[0], "the result of each copied file is put into the manifest", when="next")
    A.guard(f, "next", [lambda st: not has(st, "next") or one[0](st)], "the result of each copied file is put into the manifest")
    A.must(f, "skip", "a skipped file is removed from the manifest", when="skipped")
    A.guard(f, "update", [lambda st: not (has(st, "noop") or has(st, "resumed") or has(st, "skipped"))], "a file that was not copied keeps its reference")


def p_reconstruct(A):
    v = View(A, "infoBackupLoadFileReconstruct")
    rule = "a backup found in the repository is listed only with its final manifest"
    add = v.calls("infoBackupDataAdd")
    for s in add:
        m = callOf(s.args[1], "manifestLoadFile")
        if m is None or not isManifest(m[2][1]):
            A.bad(rule, s.where, "the manifest comes from %s" % fmt(s.args[1])[:200])
        if not s.under("storageExists(_, ~'backup.manifest')"):
            A.bad(rule, s.where, "the existence of the final manifest is not checked")
        for fld in ("pgId", "pgSystemId", "pgVersion"):
            if not any(pol is True and a[0] == "eq" and (hasField(a[1], fld) or hasField(a[2], fld)) for a, pol in s.conds):
                A.bad("a backup of another cluster is not listed", s.where, "%s of the backup is not compared with the history" % fld)
        A.ok(rule, s.where)
    if not add:
        A.unsure("infoBackupLoadFileReconstruct adds no backup")
    rule = "a listed backup without its final manifest is taken off the list with all that depend on it"
    dele = v.calls("infoBackupDataDelete")
    for s in dele:
        if not hasCall(s.args[1], "infoBackupDataDependentList"):
            A.bad(rule, s.where, "only %s is removed" % fmt(s.args[1])[:160])
        A.ok(rule, s.where)
    if not dele:
        A.bad(rule, A.loc("infoBackupLoadFileReconstruct"), "nothing is removed")
