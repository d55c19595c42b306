D = "command/restore/"
F, P, R, V, C, M, S, T, G = D + "file.c.inc", D + "process.c.inc", D + "restore.c", D + "validate.c.inc", D + "clean.c.inc", D + "remap.c.inc", D + "select.c.inc", D + "timeline.c", D + "config.c.inc"
MAN = "info/manifest/manifest.c"


def m(id, prop, f, a, b, *more):
    return dict(id=id, expect=[prop] if prop else [], edits=[(f, a, b)] + list(more))


CASES = [
    # content
    m("c12-force", "C12", F, "if (info.size == file->size && info.timeModified == file->timeModified &&", "if (info.size >= file->size && info.timeModified == file->timeModified &&"),
    m("c12-begin", "C12", F, "info.timeModified < copyTimeBegin)", "info.timeModified <= copyTimeBegin)"),
    m("c12-sum", "C12", F, "if (!bufEq(file->checksum, checksum))", "if (file->blockIncrMapSize == 0 && !bufEq(file->checksum, checksum))"),
    m("c12-keep", "C12", F, "if (file->size == 0 ||\n", "if (file->size == 0 || file->blockChecksum != NULL ||\n"),
    m("c12-notrunc", "C12", F, ".noTruncate = file->blockChecksum != NULL);", ".noTruncate = file->blockIncrMapSize != 0);"),
    m("c12-nofollow", "C12", F, "ioFilterGroupAdd(filterGroup, cryptoHashNew(hashTypeSha1));\n", "if (repoFileCompressType != compressTypeNone || file->offset != 0)\n                            ioFilterGroupAdd(filterGroup, cryptoHashNew(hashTypeSha1));\n"),
    m("c12-r1", "", F, "if (!bufEq(file->checksum, checksum))", "const bool match = bufEq(checksum, file->checksum);\n\n                    if (!match)"),
    m("c12-r2", "", F, "if (info.size == file->size && info.timeModified == file->timeModified &&", "if (file->timeModified == info.timeModified && file->size == info.size &&"),
    # preconditions
    m("c13-owner", "C13", C, "if (!userRoot() && userId() != info.userId)", "if (!cleanData->delta && !userRoot() && userId() != info.userId)"),
    m("c13-mode", "C13", C, "if ((info.mode & 0700) != 0700)", "if ((info.mode & 0700) == 0)"),
    m("c13-run", "C13", V, "if (storageExistsP(storagePg(), PG_FILE_POSTMTRPID_STR))", "if (!cfgOptionBool(cfgOptForce) && storageExistsP(storagePg(), PG_FILE_POSTMTRPID_STR))"),
    m("c13-valid", "C13", V, "if ((cfgOptionBool(cfgOptDelta) || cfgOptionBool(cfgOptForce)) &&", "if (cfgOptionBool(cfgOptDelta) &&"),
    m("c13-forceoff", "C13", V, "cfgOptionSet(cfgOptForce, cfgSourceDefault, BOOL_FALSE_VAR);", "cfgOptionSet(cfgOptDelta, cfgSourceDefault, BOOL_FALSE_VAR);"),
    m("c13-label", "C13", R, "restoreManifestValidate(jobData.manifest, backupData.backupSet);", "if (!cfgOptionBool(cfgOptForce))\n            restoreManifestValidate(jobData.manifest, backupData.backupSet);"),
    m("c13-deltaset", "C13", C, "                    cleanData->delta = true;\n", "", (C, "                if (!cleanData->delta)\n                {\n                    if (cleanData->target->file == NULL)", "                if (!cleanData->delta)\n                {\n                    cleanData->delta = true;\n\n                    if (cleanData->target->file == NULL)")),
    m("c13-linkcheck", "C13", R, "        manifestLinkCheck(jobData.manifest);\n", "", (R, "        // Save manifest to the data directory", "        manifestLinkCheck(jobData.manifest);\n\n        // Save manifest to the data directory")),
    m("c13-file", "C13", C, "if (storageExistsP(storageLocal(), file))", "if (storageExistsP(storageLocal(), file) && cleanData->basePath)"),
    m("c13-r1", "", C, "if (!userRoot() && userId() != info.userId)", "const bool owner = userRoot() || userId() == info.userId;\n\n                if (!owner)"),
    m("c13-r2", "", V, "if ((cfgOptionBool(cfgOptDelta) || cfgOptionBool(cfgOptForce)) &&", "const bool overwrite = cfgOptionBool(cfgOptForce) || cfgOptionBool(cfgOptDelta);\n\n        if (overwrite &&"),
    # pg_control
    m("c14-tmp", "C14", P, 'strEqZ(manifestName, MANIFEST_TARGET_PGDATA "/" PG_PATH_GLOBAL "/" PG_FILE_PGCONTROL) ? "." STORAGE_FILE_TEMP_EXT : "");', 'strEqZ(manifestName, MANIFEST_TARGET_PGDATA "/" PG_PATH_GLOBAL "/" PG_FILE_PGCONTROL) && !cfgOptionBool(cfgOptDelta) ?\n            "." STORAGE_FILE_TEMP_EXT : "");'),
    m("c14-nosync", "C14", C, "                storagePathSyncP(storagePgWrite(), PG_PATH_GLOBAL_STR);\n", "") if False else
    m("c14-nosync", "C14", C, "storagePathSyncP(storagePgWrite(), PG_PATH_GLOBAL_STR);", ""),
    m("c14-rm", "C14", C, 'if (storageExistsP(storagePg(), STRDEF(PG_PATH_GLOBAL "/" PG_FILE_PGCONTROL)))', 'if (cfgOptionBool(cfgOptDelta) && storageExistsP(storagePg(), STRDEF(PG_PATH_GLOBAL "/" PG_FILE_PGCONTROL)))'),
    m("c14-skip", "C14", R, "if (strEqZ(manifestName, MANIFEST_TARGET_PGTBLSPC))", "if (strBeginsWithZ(manifestName, MANIFEST_TARGET_PGTBLSPC))"),
    m("c14-link", "C14", R, "if (target->type == manifestTargetTypeLink && target->file != NULL)", "if (target->type == manifestTargetTypeLink && target->file != NULL && cfgOptionBool(cfgOptLinkAll))"),
    m("c14-inval", "C14", R, "            if (manifestData(jobData.manifest)->backupOptionOnline)\n            {\n                Buffer", "            if (manifestData(jobData.manifest)->backupOptionOnline && !cfgOptionBool(cfgOptDelta))\n            {\n                Buffer"),
    m("c14-manrm", "C14", R, "        storageRemoveP(storagePgWrite(), BACKUP_MANIFEST_FILE_STR);\n", "", (R, "        // Save manifest to the data directory", "        storageRemoveP(storagePgWrite(), BACKUP_MANIFEST_FILE_STR);\n\n        // Save manifest to the data directory")),
    m("c14-joberr", "C25", P, "if (protocolParallelJobErrorCode(job) == 0)", "if (protocolParallelJobErrorCode(job) == 0 || cfgOptionBool(cfgOptForce))"),
    m("c14-r1", "", R, "if (strEqZ(manifestName, MANIFEST_TARGET_PGTBLSPC))", "const bool skip = strEqZ(manifestName, MANIFEST_TARGET_PGTBLSPC);\n\n            if (skip)"),
    m("c14-r2", "", P, 'String *const result = strNewFmt(\n        "%s/%s%s", strZ(manifestTargetBase(manifest)->path), strZ(pathPg),\n        strEqZ(manifestName, MANIFEST_TARGET_PGDATA "/" PG_PATH_GLOBAL "/" PG_FILE_PGCONTROL) ? "." STORAGE_FILE_TEMP_EXT : "");', 'const char *ext = "";\n\n    if (strEqZ(manifestName, MANIFEST_TARGET_PGDATA "/" PG_PATH_GLOBAL "/" PG_FILE_PGCONTROL))\n        ext = "." STORAGE_FILE_TEMP_EXT;\n\n    String *const result = strNewFmt("%s/%s%s", strZ(manifestTargetBase(manifest)->path), strZ(pathPg), ext);'),
    # clean
    m("c15-base", "C15", C, "if (cleanData->basePath && info.type == storageTypeFile && strLstExists(cleanData->fileIgnore, info.name))", "if (info.type == storageTypeFile && strLstExists(cleanData->fileIgnore, info.name))"),
    m("c15-sub", "C15", C, "cleanDataSub.basePath = false;", ""),
    m("c15-linkfile", "C15", C, "if (manifestFileExists(cleanData->manifest, manifestName) &&\n                        manifestLinkFindDefault(cleanData->manifest, manifestName, NULL) == NULL)", "if (manifestFileExists(cleanData->manifest, manifestName))"),
    m("c15-dest", "C15", C, "if (!strEq(manifestLink->destination, info.linkDestination))", "if (!strEq(manifestLink->destination, info.linkDestination) && cfgOptionBool(cfgOptLinkAll))"),
    m("c15-special", "C15", C, '                    LOG_DETAIL_FMT("remove special file \'%s\'", strZ(pgPath));\n                    storageRemoveP(storageLocalWrite(), pgPath, .errorOnMissing = true);\n', '                    LOG_DETAIL_FMT("remove special file \'%s\'", strZ(pgPath));\n'),
    m("c15-recmode", "C15", C, "restoreCleanMode(pgPath, manifestPath->mode, &info);", ""),
    m("c15-preserve", "C15", C, "strLstAdd(cleanData->fileIgnore, PG_FILE_STANDBYSIGNAL_STR);", ""),
    m("c15-norecurse", "C15", C, "storagePathRemoveP(storageLocalWrite(), pgPath, .errorOnMissing = true, .recurse = true);", "restoreCleanMode(pgPath, 0700, &info);"),
    m("c15-tbl", "C15", C, "if (cleanData->target->type == manifestTargetTypeLink && cleanData->target->tablespaceId != 0)", "if (cleanData->target->type == manifestTargetTypeLink && cleanData->target->tablespaceId > 16383)"),
    m("c15-target", "C15", C, "                if (cleanData->target->file == NULL)\n                {\n                    // Only log when doing", "                if (cleanData->target->file == NULL && cleanData->basePath)\n                {\n                    // Only log when doing"),
    m("c15-r1", "", C, "if (!strEq(manifestLink->destination, info.linkDestination))", "const bool destinationSame = strEq(info.linkDestination, manifestLink->destination);\n\n                            if (!destinationSame)"),
    m("c15-r2", "", C, "if (cleanData->basePath && info.type == storageTypeFile && strLstExists(cleanData->fileIgnore, info.name))\n", "const bool ignore =\n                cleanData->basePath && info.type == storageTypeFile && strLstExists(cleanData->fileIgnore, info.name);\n\n            if (ignore)\n"),
    # mapping
    m("c16-base", "C16", M, "if (!strEq(targetBase->path, pgPath))", "if (!strEq(targetBase->path, pgPath) && !cfgOptionBool(cfgOptDelta))"),
    m("c16-link", "C16", M, '                        manifestLinkUpdate(manifest, strNewFmt(MANIFEST_TARGET_PGDATA "/%s", strZ(target->name)), tablespacePath);\n', '                        if (tablespaceMapAllPath == NULL)\n                            manifestLinkUpdate(\n                                manifest, strNewFmt(MANIFEST_TARGET_PGDATA "/%s", strZ(target->name)), tablespacePath);\n'),
    m("c16-both", "C16", M, "strEq(tablespacePathByName, tablespacePathById))", "strEq(tablespacePathByName, tablespacePathByName))"),
    m("c16-bad", "C16", M, "if (!strLstExists(tablespaceRemapped, tablespace))", "if (strLstEmpty(tablespaceRemapped))"),
    m("c16-tbl", "C16", M, "if (target.tablespaceId != 0)", "if (target.tablespaceId != 0 && create)"),
    m("c16-upd", "C16", M, "            if (!create)\n                manifestLinkUpdate", "            if (!create && target.file == NULL)\n                manifestLinkUpdate") if False else
    m("c16-upd", "C16", M, "                if (!create)\n", "                if (!create && target.file == NULL)\n"),
    m("c16-rm", "C16", M, "manifestLinkRemove(manifest, target->name);", "if (target->file == NULL)\n                            manifestLinkRemove(manifest, target->name);"),
    m("c16-tblrm", "C16", M, "if (target->type == manifestTargetTypeLink && target->tablespaceId == 0)", "if (target->type == manifestTargetTypeLink)"),
    m("c16-r1", "", M, "if (!strLstExists(tablespaceRemapped, tablespace))", "const bool found = strLstExists(tablespaceRemapped, tablespace);\n\n                    if (!found)"),
    m("c16-r2", "", M, "if (linkMap == NULL || kvGet(linkMap, VARSTR(link)) == NULL)", "const bool mapped = linkMap != NULL && kvGet(linkMap, VARSTR(link)) != NULL;\n\n                    if (!mapped)"),
    # selection
    m("c17-time", "C17", S, "backupData.backupTimestampStop < target.time)", "backupData.backupTimestampStart < target.time)"),
    m("c17-timeeq", "C17", S, "backupData.backupTimestampStop < target.time)", "backupData.backupTimestampStop <= target.time)"),
    m("c17-lsn", "C17", S, "pgLsnFromStr(backupData.backupLsnStop) <= target.lsn))", "pgLsnFromStr(backupData.backupLsnStart) <= target.lsn))"),
    m("c17-id", "C17", S, "if (latestBackup.backupPgId < backupInfoPg.id)", "if (latestBackup.backupPgId < backupInfoPg.id && repoIdxMin == repoIdxMax)"),
    m("c17-fail", "C17", S, 'THROW(BackupSetInvalidError, "no backup set found to restore");', 'LOG_WARN("no backup set found to restore");'),
    m("c17-first", "C17", S, "const InfoBackupData latestBackup = infoBackupData(infoBackup, infoBackupDataTotal(infoBackup) - 1);", "const InfoBackupData latestBackup = infoBackupData(infoBackup, 0);"),
    m("c17-tl", "C17", T, "if (historyItem->timeline == timelineBackup && lsnBackup < historyItem->lsn)", "if (historyItem->timeline == timelineBackup)"),
    m("c17-tl2", "C17", T, "if (historyItem->timeline == timelineBackup && lsnBackup < historyItem->lsn)", "if (historyItem->timeline <= timelineBackup && lsnBackup < historyItem->lsn)"),
    m("c17-tlt", "C17", T, "if (timelineTarget != timelineBackup)", "if (timelineTarget > timelineBackup)"),
    m("c17-lsnarg", "C17", R, "pgLsnFromStr(data->lsnStart),", "pgLsnFromStr(data->lsnStop),"),
    m("c17-cont", "C17", S, "                    if (found)\n                        break;\n", ""),
    m("c17-r1", "", S, "if (latestBackup.backupPgId < backupInfoPg.id)", "if (backupInfoPg.id > latestBackup.backupPgId)"),
    m("c17-r2", "", T, "if (historyItem->timeline == timelineBackup && lsnBackup < historyItem->lsn)", "if (historyItem->lsn > lsnBackup && timelineBackup == historyItem->timeline)"),
    m("c17-r3", "", S, "                bool found = false;\n", "                bool found = false;\n                const unsigned int backupTotal = infoBackupDataTotal(infoBackup);\n                (void)backupTotal;\n") if False else
    m("c17-r3", "", T, "if (timelineTarget != timelineBackup)", "const bool sameTimeline = timelineBackup == timelineTarget;\n\n            if (!sameTimeline)"),
    # selective
    m("c18-prefix", "C18", S, '"(^" MANIFEST_TARGET_PGDATA "/" PG_PATH_BASE "/%s/)"', '"(^" MANIFEST_TARGET_PGDATA "/" PG_PATH_BASE "/%s)"'),
    m("c18-anchor", "C18", S, '"|(^%s/%s/%s/)"', '"|(%s/%s/%s/)"'),
    m("c18-ver", "C18", P, ' && !strEndsWith(manifestName, STRDEF("/" PG_FILE_PGVERSION)));', ");"),
    m("c18-sys", "C18", S, "                if (strLstExists(systemDbIdList, includeDb))", "                if (strLstExists(systemDbIdList, includeDb) && strLstSize(includeList) == 1)"),
    m("c18-excl", "C18", S, "if (strLstExists(excludeDbIdList, includeDb))", "if (strLstExists(excludeList, includeDb))"),
    m("c18-anti", "C18", S, "                dbList = strLstMergeAnti(dbList, systemDbIdList);\n", ""),
    m("c18-miss", "C18", S, 'if (db == NULL || !strLstExists(dbList, varStrForce(VARUINT(db->id))))\n                        THROW_FMT(DbMissingError, "database to include', 'if (db == NULL)\n                        THROW_FMT(DbMissingError, "database to include'),
    m("c18-sysid", "C18", S, "if (pgDbIsSystem(systemDb->name) || pgDbIsSystemId(systemDb->id))", "if (pgDbIsSystemId(systemDb->id))"),
    m("c18-r1", "", P, 'zeroExp == NULL ? false : regExpMatch(zeroExp, manifestName) && !strEndsWith(manifestName, STRDEF("/" PG_FILE_PGVERSION)));', 'zeroExp != NULL && !strEndsWith(manifestName, STRDEF("/" PG_FILE_PGVERSION)) && regExpMatch(zeroExp, manifestName));'),
    m("c18-r2", "", S, "if (strLstExists(excludeDbIdList, includeDb))", "const bool excluded = strLstExists(excludeDbIdList, includeDb);\n\n                if (excluded)"),
    # recovery settings
    m("c19-excl", "C19", G, "if (cfgOptionTest(cfgOptTargetExclusive) && cfgOptionBool(cfgOptTargetExclusive))", "if (cfgOptionTest(cfgOptTargetExclusive) && cfgOptionBool(cfgOptTargetExclusive) && pgVersion < PG_VERSION_RECOVERY_GUC)"),
    m("c19-action", "C19", G, "if (targetAction != CFGOPTVAL_TARGET_ACTION_PAUSE)", "if (targetAction == CFGOPTVAL_TARGET_ACTION_PROMOTE)"),
    m("c19-exp", "C19", G, 'RECOVERY_TARGET_LSN "|" RECOVERY_TARGET_NAME "|" RECOVERY_TARGET_TIME "|" RECOVERY_TARGET_TIMELINE "|"', 'RECOVERY_TARGET_LSN "|" RECOVERY_TARGET_NAME "|" RECOVERY_TARGET_TIME "|"'),
    m("c19-sig", "C19", G, "else if (cfgOptionSeq(cfgOptType) != CFGOPTVAL_RESTORE_TYPE_NONE)\n        {\n            storagePutP(\n                storageNewWriteP(\n                    storagePgWrite(), PG_FILE_RECOVERYSIGNAL_STR", "else if (cfgOptionSeq(cfgOptType) != CFGOPTVAL_RESTORE_TYPE_NONE && autoConf != NULL)\n        {\n            storagePutP(\n                storageNewWriteP(\n                    storagePgWrite(), PG_FILE_RECOVERYSIGNAL_STR"),
    m("c19-tl", "C19", G, "else if (cfgOptionSeq(cfgOptType) == CFGOPTVAL_RESTORE_TYPE_IMMEDIATE && pgVersion >= PG_VERSION_12)", "else if (cfgOptionSeq(cfgOptType) == CFGOPTVAL_RESTORE_TYPE_IMMEDIATE && pgVersion > PG_VERSION_12)"),
    m("c19-none", "C19", G, "    if (cfgOptionSeq(cfgOptType) != CFGOPTVAL_RESTORE_TYPE_NONE)\n    {\n        MEM", "    if (cfgOptionSeq(cfgOptType) != CFGOPTVAL_RESTORE_TYPE_DEFAULT)\n    {\n        MEM"),
    m("c19-ver", "C19", G, "            if (pgVersion >= PG_VERSION_RECOVERY_GUC)\n                restoreRecoveryWriteAutoConf", "            if (pgVersion > PG_VERSION_RECOVERY_GUC)\n                restoreRecoveryWriteAutoConf"),
    m("c19-r1", "", G, "if (targetAction != CFGOPTVAL_TARGET_ACTION_PAUSE)", "const bool pause = targetAction == CFGOPTVAL_TARGET_ACTION_PAUSE;\n\n            if (!pause)"),
    m("c19-r2", "", G, "if (regExpMatch(recoveryExp, line))", "const bool recoverySetting = regExpMatch(recoveryExp, line);\n\n                if (recoverySetting)"),
]
