C = "command/stanza/create.c"
U = "command/stanza/upgrade.c"
D = "command/stanza/delete.c"
O = "command/stanza/common.c"
K = "command/check/common.c"
S = "command/control/stop.c"
T = "command/control/common.c"
L = "common/lock.c"
CL = "command/lock.c"
P = "config/parse.auto.c.inc"


def m(id, prop, f, a, b, *more):
    return dict(id=id, expect=[prop] if prop else [], edits=[(f, a, b)] + list(more))


CASES = [
    m("c22-copies", "C22", C, "if (!archiveInfoFileExists && !archiveInfoFileCopyExists && !backupInfoFileExists && !backupInfoFileCopyExists)", "if (!archiveInfoFileExists && !archiveInfoFileCopyExists && !backupInfoFileExists)"),
    m("c22-empty", "C22", C, "if (archiveNotEmpty || backupNotEmpty)", "if (backupNotEmpty)"),
    m("c22-key", "C22", C, "const CipherSpec *const cipherSpecManifest = cipherSpecGen(cfgOptionIdxStrId(cfgOptRepoCipherType, repoIdx));", "const CipherSpec *const cipherSpecManifest = cipherSpecArchive;"),
    m("c22-keyidx", "C22", C, "const CipherSpec *const cipherSpecArchive = cipherSpecGen(cfgOptionIdxStrId(cfgOptRepoCipherType, repoIdx));", "const CipherSpec *const cipherSpecArchive = cipherSpecGen(cfgOptionIdxStrId(cfgOptRepoCipherType, 0));"),
    m("c22-spec", "C22", C, "infoBackup, storageRepoWriteStanza, INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx));", "infoBackup, storageRepoWriteStanza, INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(0));"),
    m("c22-nocheck", "C22", C, "                checkStanzaInfoPg(storageRepoReadStanza, pgControl.version, pgControl.systemId, cfgCipherSpecMainIdx(repoIdx));\n", "                if (cfgOptionBool(cfgOptOnline))\n                    checkStanzaInfoPg(storageRepoReadStanza, pgControl.version, pgControl.systemId, cfgCipherSpecMainIdx(repoIdx));\n"),
    m("c22-swap", "C22", C, "destinationFile = !backupInfoFileExists ? INFO_BACKUP_PATH_FILE_STR : INFO_BACKUP_PATH_FILE_COPY_STR;", "destinationFile = backupInfoFileExists ? INFO_BACKUP_PATH_FILE_STR : INFO_BACKUP_PATH_FILE_COPY_STR;"),
    m("c22-src", "C22", C, "sourceFile = archiveInfoFileExists ? INFO_ARCHIVE_PATH_FILE_STR : INFO_ARCHIVE_PATH_FILE_COPY_STR;", "sourceFile = archiveInfoFileCopyExists ? INFO_ARCHIVE_PATH_FILE_STR : INFO_ARCHIVE_PATH_FILE_COPY_STR;"),
    m("c22-norepair", "C22", C, "if (!backupInfoFileExists || !backupInfoFileCopyExists)", "if (!backupInfoFileExists)"),
    m("c22-rand", "C22", O, "cryptoRandomBytes(buffer, sizeof(buffer));", "cryptoRandomBytes(buffer, 8);"),
    m("c22-none", "C22", O, "if (cipherType == cipherTypeNone)", "if (cipherType == cipherTypeNone || !cfgOptionBool(cfgOptOnline))"),
    m("c22-id", "C22", K, "archiveInfo->id != backupInfo->id || ", ""),
    m("c22-ver", "C22", K, "if (pgVersion != archiveInfoPg.version || pgSystemId != archiveInfoPg.systemId)", "if (pgVersion != archiveInfoPg.version && pgSystemId != archiveInfoPg.systemId)"),
    m("c22-upver", "C22", U, "if (pgControl.version != backupInfo.version || pgControl.systemId != backupInfo.systemId)", "if (pgControl.version != backupInfo.version)"),
    m("c22-upchk", "C22", U, "            checkStanzaInfo(&archiveInfo, &backupInfo);\n", "            if (infoArchiveUpgrade && infoBackupUpgrade)\n                checkStanzaInfo(&archiveInfo, &backupInfo);\n"),
    m("c22-upsave", "C22", U, "if (infoBackupUpgrade)\n", "if (infoBackupUpgrade && infoArchiveUpgrade)\n"),
    m("c22-stop", "C22", D, "if (!storageExistsP(storageLocal(), lockStopFileName(cfgOptionStr(cfgOptStanza))))", "if (backupNotEmpty && !storageExistsP(storageLocal(), lockStopFileName(cfgOptionStr(cfgOptStanza))))"),
    m("c22-force", "C22", D, "if (!cfgOptionBool(cfgOptForce) && storageExistsP(storagePg(), STRDEF(PG_FILE_POSTMTRPID)))", "if (!cfgOptionBool(cfgOptForce) && backupNotEmpty && storageExistsP(storagePg(), STRDEF(PG_FILE_POSTMTRPID)))"),
    m("c22-delcopy", "C22", D, "                    storageRemoveP(storageRepoWrite(), INFO_BACKUP_PATH_FILE_COPY_STR);\n", ""),
    m("c22-delord", "C22", D, "            if (archiveList != NULL)\n                storagePathRemoveP", "            storageRemoveP(storageLocalWrite(), lockStopFileName(cfgOptionStr(cfgOptStanza)));\n\n            if (archiveList != NULL)\n                storagePathRemoveP"),
    m("c22-r1", "", C, "            if (!archiveInfoFileExists && !archiveInfoFileCopyExists && !backupInfoFileExists && !backupInfoFileCopyExists)", "            const bool archiveAny = archiveInfoFileExists || archiveInfoFileCopyExists;\n            const bool backupAny = backupInfoFileExists || backupInfoFileCopyExists;\n\n            if (!archiveAny && !backupAny)",
      (C, "else if ((archiveInfoFileExists || archiveInfoFileCopyExists) && (backupInfoFileExists || backupInfoFileCopyExists))", "else if (archiveAny && backupAny)")),
    m("c22-r2", "", C, "                    sourceFile = backupInfoFileExists ? INFO_BACKUP_PATH_FILE_STR : INFO_BACKUP_PATH_FILE_COPY_STR;\n                    destinationFile = !backupInfoFileExists ? INFO_BACKUP_PATH_FILE_STR : INFO_BACKUP_PATH_FILE_COPY_STR;\n",
      "                    if (backupInfoFileExists)\n                    {\n                        sourceFile = INFO_BACKUP_PATH_FILE_STR;\n                        destinationFile = INFO_BACKUP_PATH_FILE_COPY_STR;\n                    }\n                    else\n                    {\n                        sourceFile = INFO_BACKUP_PATH_FILE_COPY_STR;\n                        destinationFile = INFO_BACKUP_PATH_FILE_STR;\n                    }\n"),
    m("c22-r3", "", K, "    if (archiveInfo->id != backupInfo->id || archiveInfo->systemId != backupInfo->systemId ||\n        archiveInfo->version != backupInfo->version)\n", "    const bool match =\n        archiveInfo->id == backupInfo->id && archiveInfo->systemId == backupInfo->systemId && archiveInfo->version == backupInfo->version;\n\n    if (!match)\n"),
    m("c22-r4", "", D, "            if (archiveNotEmpty || backupNotEmpty)\n", "            const bool notEmpty = archiveNotEmpty || backupNotEmpty;\n\n            if (notEmpty)\n"),
    m("c22-r5", "", U, "            if (pgControl.version != archiveInfo.version || pgControl.systemId != archiveInfo.systemId)\n            {\n                infoArchivePgSet(infoArchive, pgControl.version, pgControl.systemId);\n                infoArchiveUpgrade = true;\n            }\n",
      "            infoArchiveUpgrade = pgControl.version != archiveInfo.version || pgControl.systemId != archiveInfo.systemId;\n\n            if (infoArchiveUpgrade)\n                infoArchivePgSet(infoArchive, pgControl.version, pgControl.systemId);\n"),
    # stop and start
    m("c23-expire", "C23", "command/expire/expire.c", "    lockStopTest();\n", "    if (!cfgOptionTest(cfgOptSet))\n        lockStopTest();\n"),
    m("c23-async", "C23", "command/archive/push/push.c", "            // Test for stop file\n            lockStopTest();\n", ""),
    m("c23-all", "C23", T, "        if (storageExistsP(storageLocal(), lockStopFileName(NULL)))", "        else if (storageExistsP(storageLocal(), lockStopFileName(NULL)))"),
    m("c23-remote", "C23", "command/remote/remote.c", "                    lockStopTest();\n", ""),
    m("c23-prefix", "C23", S, 'strNewFmt("%s-", strZ(cfgOptionStr(cfgOptStanza)))', 'strNewFmt("%s", strZ(cfgOptionStr(cfgOptStanza)))',
      (S, "if (stanzaPrefix != NULL &&\n                        !regExp", "if (false &&\n                        !regExp")),
    m("c23-exact", "C23", S, "if (stanzaPrefix != NULL &&\n                        !regExp", "if (false &&\n                        !regExp"),
    m("c23-valid", "C23", S, "if (lockResult.status != lockReadStatusValid)", "if (lockResult.status == lockReadStatusInvalid || lockResult.status == lockReadStatusMissing)"),
    m("c23-kill", "C23", S, "SIGTERM) != 0", "SIGINT) != 0"),
    m("c23-r1", "", S, "                    if (lockResult.status != lockReadStatusValid)\n                    {\n                        LOG_WARN_FMT(\"unable to read lock file %s/%s\", strZ(lockPath), strZ(lockFile));\n                        continue;\n                    }\n",
      "                    const bool valid = lockResult.status == lockReadStatusValid;\n\n                    if (!valid)\n                    {\n                        LOG_WARN_FMT(\"unable to read lock file %s/%s\", strZ(lockPath), strZ(lockFile));\n                        continue;\n                    }\n"),
    m("c23-r2", "", T, "        if (cfgOptionTest(cfgOptStanza))\n        {\n            if (storageExistsP(storageLocal(), lockStopFileName(cfgOptionStr(cfgOptStanza))))\n                THROW", "        if (cfgOptionTest(cfgOptStanza) && storageExistsP(storageLocal(), lockStopFileName(cfgOptionStr(cfgOptStanza))))\n        {\n                THROW"),
    # locks
    m("c24-expire", "C24", P, "PARSE_RULE_COMMAND_LOCK_TYPE(Backup),                                                                          // cmd/backup", "PARSE_RULE_COMMAND_LOCK_TYPE(Archive),"),
    m("c24-last", "C24", CL, "result && lockListIdx < strLstSize(lockList)", "lockListIdx < strLstSize(lockList)"),
    m("c24-rel", "C24", CL, "        if (!result)\n            lockReleaseP(.returnOnNoLock = true);\n", ""),
    m("c24-repo", "C24", CL, "const unsigned int repoMax = repoSet ? repoMin : cfgOptionGroupIdxTotal(cfgOptGrpRepo) - 1;", "const unsigned int repoMax = repoSet ? repoMin : cfgOptionGroupIdxDefault(cfgOptGrpRepo);"),
    m("c24-type", "C24", CL, "lockType == lockTypeAll ? (lockTypeAll - 1) : lockType;", "lockType == lockTypeAll ? lockTypeBackup : lockType;"),
    m("c24-sh", "C24", L, "flock(fd, LOCK_EX | LOCK_NB) == -1", "flock(fd, LOCK_SH | LOCK_NB) == -1"),
    m("c24-exec", "C24", L, "if (strEq(execId, lockLocal.execId))", "if (execId == NULL || strEq(execId, lockLocal.execId))"),
    m("c24-close", "C24", L, "                storageRemoveP(lockLocal.storage, lockFile->name);\n                close(lockFile->fd);\n", "                close(lockFile->fd);\n                storageRemoveP(lockLocal.storage, lockFile->name);\n"),
    m("c24-remote", "C24", L, "            if (lockFile->fd != LOCK_ON_EXEC_ID)\n            {\n", "            if (lockFile->fd != LOCK_ON_EXEC_ID || lockFile->written)\n            {\n"),
    m("c24-load", "C24", "config/load.c", "if (cfgLockType() != lockTypeNone && !cfgCommandHelp() && cfgLockRequired())", "if (cfgLockType() != lockTypeNone && cfgOptionTest(cfgOptRepo) && !cfgCommandHelp() && cfgLockRequired())"),
    m("c24-async", "C24", "config/config.c", "        // Or any command when the role is async\n        cfgCommandRole() == cfgCmdRoleAsync);", "        (configLocal->lockRequired && cfgCommandRole() == cfgCmdRoleAsync));"),
    m("c24-fork", "C24", "command/archive/push/push.c", "if (!pushed && !forked && cmdLockAcquireP(.returnOnNoLock = true))", "if (!pushed && !forked && (throwOnError || cmdLockAcquireP(.returnOnNoLock = true)))"),
    m("c24-would", "C24", L, "if (!param.returnOnNoLock || errNo != EWOULDBLOCK)", "if (!param.returnOnNoLock && errNo != EWOULDBLOCK)"),
    m("c24-status", "C24", L, "result.status = lockReadStatusInvalid;", "result.status = lockReadStatusValid;"),
    m("c24-r1", "", CL, "        for (unsigned int lockListIdx = 0; result && lockListIdx < strLstSize(lockList); lockListIdx++)\n            result = lockAcquire(strLstGet(lockList, lockListIdx), param);\n",
      "        for (unsigned int lockListIdx = 0; lockListIdx < strLstSize(lockList); lockListIdx++)\n        {\n            if (!lockAcquire(strLstGet(lockList, lockListIdx), param))\n            {\n                result = false;\n                break;\n            }\n        }\n"),
    m("c24-r2", "", L, "                    if (strEq(execId, lockLocal.execId))\n                        fd = LOCK_ON_EXEC_ID;\n                    // Else this is another process\n                    else\n                        fd = -1;\n", "                    fd = strEq(execId, lockLocal.execId) ? LOCK_ON_EXEC_ID : -1;\n") if False else
    m("c24-r2", "", L, "    if (lstEmpty(lockLocal.lockList))\n    {\n        // Fail", "    if (lstSize(lockLocal.lockList) == 0)\n    {\n        // Fail"),
    m("c24-r3", "", CL, "        const LockType lockMin = lockType == lockTypeAll ? lockTypeArchive : lockType;\n        const LockType lockMax = lockType == lockTypeAll ? (lockTypeAll - 1) : lockType;\n", "        const bool lockAll = lockType == lockTypeAll;\n        const LockType lockMin = lockAll ? lockTypeArchive : lockType;\n        const LockType lockMax = lockAll ? lockTypeRestore : lockType;\n"),
]
