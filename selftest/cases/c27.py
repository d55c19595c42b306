def m(id, prop, f, a, b, *more):
    return dict(id=id, expect=[prop] if prop else [], edits=[(f, a, b)] + list(more))


N = "command/annotate/annotate.c"
H = "storage/helper.c"
CASES = [
    m("c27-annotate", "C27", N, "infoBackup, storageRepoIdxWrite(repoIdx), INFO_BACKUP_PATH_FILE_STR", "infoBackup, storageRepoWrite(), INFO_BACKUP_PATH_FILE_STR"),
    m("c27-key", "C27", "command/expire/expire.c", "storageRepoIdxWrite(repoIdx), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx));", "storageRepoIdxWrite(repoIdx), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMain());"),
    m("c27-push", "C27", "command/archive/push/push.c", "storageRepoIdx(repoIdx), INFO_ARCHIVE_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx)", "storageRepo(), INFO_ARCHIVE_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx)"),
    m("c27-slot", "C27", H, "storageHelper.storageRepoWrite[repoIdx] = storageRepoGet(repoIdx, true);", "storageHelper.storageRepoWrite[repoIdx] = storageRepoGet(cfgOptionGroupIdxDefault(cfgOptGrpRepo), true);"),
    m("c27-s3", "C27", "storage/s3/helper.c", "cfgOptionIdxBool(cfgOptRepoStorageVerifyTls, repoIdx)", "cfgOptionBool(cfgOptRepoStorageVerifyTls)"),
    m("c27-azure", "C27", "storage/azure/helper.c", "cfgOptionIdxStr(cfgOptRepoPath, repoIdx)", "cfgOptionIdxStr(cfgOptRepoPath, 0)"),
    m("c27-posix", "C27", H, "cfgOptionIdxStr(cfgOptRepoPath, repoIdx), .write = write", "cfgOptionStr(cfgOptRepoPath), .write = write"),
    m("c27-pass", "C27", "config/config.c", "cfgOptionIdxStr(cfgOptRepoCipherPass, repoIdx)", "cfgOptionStr(cfgOptRepoCipherPass)"),
    m("c27-expire", "C27", "command/expire/expire.c", "infoBackup = infoBackupLoadFileReconstruct(storageRepo, INFO", "infoBackup = infoBackupLoadFileReconstruct(storageRepoIdx(repoIdxMin), INFO"),
    m("c27-r1", "", N, "            TRY_BEGIN()\n            {\n", "            const CipherSpec *const spec = cfgCipherSpecMainIdx(repoIdx);\n\n            TRY_BEGIN()\n            {\n",
      (N, "storageRepoIdx(repoIdx), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx));", "storageRepoIdx(repoIdx), INFO_BACKUP_PATH_FILE_STR, spec);")),
    m("c27-r2", "", H, """            storageHelper.storageRepoWrite[repoIdx] = storageRepoGet(repoIdx, true);""", """            Storage *const storage = storageRepoGet(repoIdx, true);

            storageHelper.storageRepoWrite[repoIdx] = storage;"""),
    m("c27-r3", "", "command/expire/expire.c", "storageRepoIdxWrite(repoIdx), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx));", "storageRepoIdxWrite(repoIdx), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(true ? repoIdx : repoIdx));"),
]
