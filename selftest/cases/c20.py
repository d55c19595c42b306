E = "command/expire/expire.c"
I = "info/infoBackup.c"


def m(id, prop, f, a, b, *more):
    return dict(id=id, expect=[prop] if prop else [], edits=[(f, a, b)] + list(more))


CASES = [
    m("c20-dirstart", "C20", E, "if (strCmp(walPath, strSubN(archiveRange->start, 0, 16)) >= 0 &&", "if (strCmp(walPath, strSubN(archiveRange->start, 0, 16)) > 0 &&"),
    m("c20-dirstop", "C20", E, "strCmp(walPath, strSubN(archiveRange->stop, 0, 16)) <= 0))", "strCmp(walPath, strSubN(archiveRange->stop, 0, 16)) < 0))"),
    m("c20-filestop", "C20", E, "strCmp(strSubN(walSubPath, 0, 24), archiveRange->stop) <= 0))", "strCmp(walSubPath, archiveRange->stop) <= 0))"),
    m("c20-open", "C20", E, "            if (strCmp(strSubN(walSubPath, 0, 24), archiveRange->start) >= 0 &&\n                            (archiveRange->stop == NULL || ", "            if (strCmp(strSubN(walSubPath, 0, 24), archiveRange->start) >= 0 &&\n                            (archiveRange->stop != NULL && "),
    m("c20-last", "C20", E, "                        {\n                            removeArchive = false;\n                            break;\n                        }\n                    }\n\n                    // Remove archive log",
      "                            removeArchive = false;\n                        else\n                            removeArchive = true;\n                    }\n\n                    // Remove archive log",
      (E, "                        const ArchiveRange *const archiveRange = lstGet(archiveRangeList, rangeIdx);\n\n                        if (strCmp(strSubN", "                        const ArchiveRange *const archiveRange = lstGet(archiveRangeList, rangeIdx);\n                        if (strCmp(strSubN")),
    m("c20-older", "C20", E, "if (strCmp(backupData->backupLabel, archiveRetentionBackup.backupLabel) <= 0 &&", "if (strCmp(backupData->backupLabel, archiveRetentionBackup.backupLabel) == 0 &&"),
    m("c20-type", "C20", E, "if (archiveIdBackup.backupPgId == archivePgId)", "if (archiveIdBackup.backupPgId == archivePgId && archiveIdBackup.backupType != backupTypeIncr)"),
    m("c20-stop", "C20", E, "if (strCmp(backupData->backupLabel, archiveRetentionBackup.backupLabel) != 0)\n", "if (strCmp(backupData->backupLabel, archiveRetentionBackup.backupLabel) != 0 || backupData->backupType == backupTypeIncr)\n"),
    m("c20-startstop", "C20", E, ".start = strDup(backupData->backupArchiveStart),", ".start = strDup(backupData->backupType == backupTypeFull ? backupData->backupArchiveStart : backupData->backupArchiveStop),"),
    m("c20-enough", "C20", E, "(!strLstEmpty(globalBackupRetentionList) && archiveRetention <= strLstSize(globalBackupRetentionList)))", "!strLstEmpty(globalBackupRetentionList))"),
    m("c20-hist", "C20", E, "                        archiveInfoPgHistory.systemId != backupInfoPgHistory.systemId ||\n", ""),
    m("c20-current", "C20", E, "else if (currentPg.id != archivePgId)", "else if (currentPg.id != archivePgId || walExpireBefore != NULL)"),
    m("c20-before", "C20", E, "if (walExpireBefore != NULL && strCmp(walExpireBefore, archiveExpireMax) < 0)", "if (walExpireBefore != NULL && strLstSize(globalBackupRetentionList) > archiveRetention && strCmp(walExpireBefore, archiveExpireMax) < 0)"),
    m("c20-tl", "C20", E, "if (strCmp(strSubN(historyFile, 0, 8), backupArchiveStartTimeline) < 0)", "if (strCmp(strSubN(historyFile, 0, 8), backupArchiveStartTimeline) <= 0)"),
    m("c20-sort", "C20", E, "infoBackupDataLabelList(infoBackup, backupRegExpP(.full = true, .differential = true)), sortOrderDesc);", "infoBackupDataLabelList(infoBackup, backupRegExpP(.full = true, .differential = true)), sortOrderAsc);"),
    m("c20-newest", "C20", E, "strLstGet(localBackupArchiveRetentionList, 0)) == 0)", "strLstGet(localBackupArchiveRetentionList, strLstSize(localBackupArchiveRetentionList) - 1)) == 0)"),
    m("c20-seg", "C20", E, "!regExpMatchOne(WAL_SEGMENT_REGEXP_STR, cfgOptionStr(cfgOptArchiveExpireBefore)))", "!walIsSegment(cfgOptionStr(cfgOptArchiveExpireBefore)))"),
    m("c20-zero", "C20", E, "if (archiveRetention == 0)\n", "if (archiveRetention == 0 && !timeBasedFullRetention)\n"),
    m("c20-skip0", "C20", E, "for (unsigned int backupListIdx = 0; backupListIdx < lstSize", "for (unsigned int backupListIdx = lstSize(archiveIdBackupList) > 1 ? 1 : 0; backupListIdx < lstSize"),
    m("c20-r1", "", E, "                if (strCmp(walPath, strSubN(archiveRange->start, 0, 16)) >= 0 &&\n                    (archiveRange->stop == NULL || strCmp(walPath, strSubN(archiveRange->stop, 0, 16)) <= 0))\n                {",
      "                const String *const rangeStart = strSubN(archiveRange->start, 0, 16);\n                if (!(strCmp(walPath, rangeStart) < 0) && !(archiveRange->stop != NULL && strCmp(walPath, strSubN(archiveRange->stop, 0, 16)) > 0))\n                {"),
    m("c20-r2", "", E, "static void\nexpireArchiveId(", """static bool
archiveInRange(const List *const archiveRangeList, const String *const wal)
{
    for (unsigned int rangeIdx = 0; rangeIdx < lstSize(archiveRangeList); rangeIdx++)
    {
        const ArchiveRange *const archiveRange = lstGet(archiveRangeList, rangeIdx);

        if (strCmp(wal, archiveRange->start) >= 0 && (archiveRange->stop == NULL || strCmp(wal, archiveRange->stop) <= 0))
            return true;
    }

    return false;
}

static void
expireArchiveId(""", (E, """                    removeArchive = true;
                    const String *const walSubPath = strLstGet(walSubPathList, subIdx);

                    // Determine if the individual archive log is used in a backup
                    for (unsigned int rangeIdx = 0; rangeIdx < lstSize(archiveRangeList); rangeIdx++)
                    {
                        const ArchiveRange *const archiveRange = lstGet(archiveRangeList, rangeIdx);

                        if (strCmp(strSubN(walSubPath, 0, 24), archiveRange->start) >= 0 &&
                            (archiveRange->stop == NULL || strCmp(strSubN(walSubPath, 0, 24), archiveRange->stop) <= 0))
                        {
                            removeArchive = false;
                            break;
                        }
                    }
""", """                    const String *const walSubPath = strLstGet(walSubPathList, subIdx);
                    removeArchive = !archiveInRange(archiveRangeList, strSubN(walSubPath, 0, 24));
""")),
    m("c20-r3", "", E, "                                if (strCmp(backupData->backupLabel, archiveRetentionBackup.backupLabel) <= 0 &&\n                                    backupData->backupArchiveStart != NULL)\n                                {",
      "                                if (backupData->backupArchiveStart == NULL)\n                                    continue;\n\n                                if (strCmp(backupData->backupLabel, archiveRetentionBackup.backupLabel) <= 0)\n                                {"),
    m("c21-dry", "C21", E, "            if (!cfgOptionBool(cfgOptDryRun))\n                backupLinkLatest", "            backupLinkLatest"),
    m("c21-order", "C21", E, "strLstSort(infoBackupDataDependentList(infoBackup, backupLabel), sortOrderDesc);", "strLstSort(infoBackupDataDependentList(infoBackup, backupLabel), sortOrderAsc);"),
    m("c21-copy", "C21", E, "                storageRemoveP(\n                    storageRepoIdxWrite(repoIdx),\n                    strNewFmt(STORAGE_REPO_BACKUP \"/%s/\" BACKUP_MANIFEST_FILE INFO_COPY_EXT, strZ(removeBackupLabel)));\n", ""),
    m("c21-full", "C21", E, "fullIdx < strLstSize(currentBackupList) - fullRetention; fullIdx++)", "fullIdx <= strLstSize(currentBackupList) - fullRetention; fullIdx++)"),
    m("c21-diff", "C21", E, "if (strLstSize(currentBackupList) > differentialRetention)", "if (strLstSize(currentBackupList) > 0)"),
    m("c21-difffull", "C21", E, "if (regExpMatchOne(backupRegExpP(.full = true), strLstGet(currentBackupList, diffIdx)))", "if (diffIdx > 0 && regExpMatchOne(backupRegExpP(.full = true), strLstGet(currentBackupList, diffIdx)))"),
    m("c21-only", "C21", E, "if (strLstSize(fullList) == 1 || infoBackupDataByLabel(infoBackup, backupLabel)->backupPgId !=\n                infoBackupDataByLabel(infoBackup, strLstGet(fullList, 1))->backupPgId)", "if (strLstSize(fullList) == 1)"),
    m("c21-time", "C21", E, "if (info->backupTimestampStop < minTimestamp)", "if (info->backupTimestampStart < minTimestamp)"),
    m("c21-timenone", "C21", E, "            if (retentionMetBackupLabel != NULL)\n            {", "            if (retentionMetBackupLabel == NULL)\n                retentionMetBackupLabel = strLstGet(currentBackupList, strLstSize(currentBackupList) - 1);\n\n            {"),
    m("c21-save", "C21", E, "                removeExpiredBackup(infoBackup, adhocBackupLabel, repoIdx);\n", "", (E, "                // Store the new backup info only if the dry-run mode is disabled\n", "                removeExpiredBackup(infoBackup, adhocBackupLabel, repoIdx);\n")),
    m("c21-resume", "C21", E, "                backupIdx = 1;\n", "                backupIdx = adhocBackupLabel == NULL ? 1 : 0;\n"),
    m("c21-resume2", "C21", E, "if (adhocBackupLabel != NULL && strBeginsWith(strLstGet(backupList, 0), strSubN(adhocBackupLabel, 0, 16)))", "if (adhocBackupLabel != NULL)", (E, "                    if (!infoBackupLabelExists(infoBackup, manifestData(manifestResume)->backupLabelPrior))\n", "                    if (manifestResume != NULL)\n")),
    m("c21-exists", "C21", E, "            if (!strLstExists(currentBackupList, strLstGet(backupList, backupIdx)))\n", "            if (adhocBackupLabel != NULL || !strLstExists(currentBackupList, strLstGet(backupList, backupIdx)))\n"),
    m("c21-histcur", "C21", E, "if (!strLstExists(currentBackupList, historyBackupLabel) && strCmp(historyBackupLabel, minBackupLabel) < 0)", "if (strCmp(historyBackupLabel, minBackupLabel) < 0)"),
    m("c21-year", "C21", E, "strSubN(minBackupLabel, 0, 4)) < 0 && !historyYearCurrent)", "strSubN(minBackupLabel, 0, 4)) < 0)"),
    m("c21-yearin", "C21", E, "                        historyYearCurrent = true;\n", "                        historyYearCurrent = true;\n                    else\n                        historyYearCurrent = false;\n"),
    m("c21-repo", "C21", E, "storageRepoIdx(repoIdx), STRDEF(STORAGE_REPO_BACKUP \"/\" BACKUP_PATH_HISTORY),", "storageRepo(), STRDEF(STORAGE_REPO_BACKUP \"/\" BACKUP_PATH_HISTORY),"),
    m("c21-dep", "C21", I, "if (backupData.backupPrior != NULL && strLstExists(result, backupData.backupPrior))", "if (backupData.backupPrior != NULL && strEq(backupLabel, backupData.backupPrior))"),
    m("c21-sorted", "C21", I, "            lstSort(this->pub.backup, sortOrderAsc);\n", ""),
    m("c21-set", "C21", E, "                    if (infoBackupLabelExists(infoBackup, adhocBackupLabel))\n                    {", "                    if (!infoBackupLabelExists(infoBackup, adhocBackupLabel))\n                    {"),
    m("c21-r1", "", E, "            if (!cfgOptionValid(cfgOptDryRun) || !cfgOptionBool(cfgOptDryRun))\n            {\n                // Remove the manifest files", "            const bool dryRun = cfgOptionValid(cfgOptDryRun) && cfgOptionBool(cfgOptDryRun);\n\n            if (!dryRun)\n            {\n                // Remove the manifest files"),
    m("c21-r2", "", E, "                for (unsigned int fullIdx = 0; fullIdx < strLstSize(currentBackupList) - fullRetention; fullIdx++)\n", "                const unsigned int expireTotal = strLstSize(currentBackupList) - fullRetention;\n\n                for (unsigned int fullIdx = 0; fullIdx < expireTotal; fullIdx++)\n"),
    m("c21-r3", "", E, "        if (strCmp(strLstGet(fullList, 0), backupLabel) == 0)\n", "        if (strEq(backupLabel, strLstGet(fullList, 0)))\n"),
]
