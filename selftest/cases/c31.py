CASES = []


def m(id, prop, file, old, new):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)]))


F, V = "command/verify/file.c", "command/verify/verify.c"
m("c31-missing-ok", "C31", F, "            result = verifyFileMissing;", "            result = limit != NULL ? verifyFileMissing : verifyOk;")
m("c31-size-less", "C31", F, "else if (fileSize != pckReadU64P", "else if (fileSize > pckReadU64P")
m("c31-size-comp", "C31", F, "else if (fileSize != pckReadU64P", "else if (compressType != compressTypeNone && fileSize != pckReadU64P")
m("c31-sum-only-none", "C31", F, "if (!bufEq(fileChecksum, pckReadBinP(", "if (fileSize != 0 && !bufEq(fileChecksum, pckReadBinP(")
m("c31-offset", "C31", F, ".offset = offset, .limit = limit", ".limit = limit")
m("c31-limit", "C31", F, ".offset = offset, .limit = limit", ".offset = offset")
m("c31-nodecomp", "C31", F, "if (compressType != compressTypeNone)", "if (compressType != compressTypeNone && limit == NULL)")
m("c31-wal-count", "C31", V, "if (verifyResult == verifyOk)\n                                        archiveIdResult->totalValidWal++;", "if (verifyResult == verifyOk || verifyResult == verifyFileMissing)\n                                        archiveIdResult->totalValidWal++;")
m("c31-err-count", "C31", V, "jobData.jobErrorTotal++;\n\n                                // Add invalid file with", "// Add invalid file with")
m("c31-err-list", "C31", V, "backupResult->status = backupInvalid;\n                                    verifyInvalidFileAdd(backupResult->invalidFileList, verifyOtherError, filePathName);", "backupResult->status = backupInvalid;")
m("c31-err-status", "C31", V, "backupResult->status = backupInvalid;\n                                    verifyInvalidFileAdd(backupResult->invalidFileList, verifyOtherError, filePathName);", "verifyInvalidFileAdd(backupResult->invalidFileList, verifyOtherError, filePathName);")
m("c31-bad-status", "C31", V, "backupResult->status = backupInvalid;\n                                        verifyInvalidFileAdd(backupResult->invalidFileList, verifyResult, filePathName);", "if (verifyResult == verifyChecksumMismatch)\n                                            backupResult->status = backupInvalid;\n\n                                        verifyInvalidFileAdd(backupResult->invalidFileList, verifyResult, filePathName);")
m("c31-log-zero", "C31", V, "if (strEq(fileType, STORAGE_REPO_ARCHIVE_STR) && verifyResult == verifyFileMissing)", "if (verifyResult == verifyFileMissing)")
m("c31-total", "C31", V, "errorTotal += jobData.jobErrorTotal;", "if (jobData.currentBackup == NULL)\n                errorTotal += jobData.jobErrorTotal;")
m("c31-status-str", "C31", V, "errorTotal > 0 ? VERIFY_STATUS_ERROR : VERIFY_STATUS_OK", "errorTotal > 1 ? VERIFY_STATUS_ERROR : VERIFY_STATUS_OK")
m("c31-zero", "C31", V, "if (fileData.size != 0 || !manifestData(jobData->manifest)->bundle)", "if (fileData.size != 0)")
m("c31-prior-skip", "C31", V, "if (backupPriorIdx == LIST_NOT_FOUND)\n                            {\n                                fileBackupLabel = fileData.reference;\n                            }", "if (backupPriorIdx == LIST_NOT_FOUND)\n                            {\n                                if (!jobData->enableArchiveFilter)\n                                    fileBackupLabel = fileData.reference;\n                                else\n                                    backupResult->totalFileValid++;\n                            }")
m("c31-prior-status", "C31", V, "invalidFile->reason, invalidFile->fileName);\n                                        backupResult->status = backupInvalid;", "invalidFile->reason, invalidFile->fileName);")
m("c31-prior-complete", "C31", V, "if (!backupResultPrior->fileVerifyComplete || fileData.bundleId != 0)", "if (backupResultPrior->status != backupValid || fileData.bundleId != 0)")
m("c31-own-label", "C31", V, "fileBackupLabel, .manifestName = fileData.name", "backupResult->backupLabel, .manifestName = fileData.name")
m("c31-sum-size", "C31", V, "BUF(fileData.checksumRepoSha1, HASH_TYPE_SHA1_SIZE));\n                                pckWriteU64P(param, fileData.sizeRepo);", "BUF(fileData.checksumRepoSha1, HASH_TYPE_SHA1_SIZE));\n                                pckWriteU64P(param, fileData.size);")
m("c31-last-wal", "C31", V, "if (strLstEmpty(jobData->walFileList))\n                            strLstRemoveIdx(jobData->walPathList, 0);", "if (strLstSize(jobData->walFileList) <= 1)\n                            strLstRemoveIdx(jobData->walPathList, 0);")
m("c31-range-stop", "C31", V, "jobData->archiveStop) > 0)", "jobData->archiveStop) >= 0)")
m("c31-dup-count", "C31", V, "                (*jobErrorTotal)++;\n\n                bool foundDup = true;", "                bool foundDup = true;")
m("c31-man-hist", "C31", V, "if (pgHistoryData.id == manData->pgId && pgHistoryData.systemId == manData->pgSystemId &&\n                    pgHistoryData.version == manData->pgVersion)", "if (pgHistoryData.systemId == manData->pgSystemId &&\n                    pgHistoryData.version == manData->pgVersion)")
m("c31-man-err", "C31", V, "            backupResult->status = backupInvalid;\n            (*jobErrorTotal)++;", "            backupResult->status = backupInvalid;")
m("c31-hist-sys", "C31", V, "archiveInfoPgHistory.systemId != backupInfoPgHistory.systemId ||\n", "")
m("c31-progress", "C31", V, "if (!(currentBackup && verifyManifestInfo.errorCode == errorTypeCode(&FileMissingError)))", "if (!currentBackup)")
m("c31-wal-range", "C31", V, "if (strCmp(walRange->stop, walSegment) >= 0)", "if (strCmp(walRange->stop, walSegment) > 0)")
m("c31-info-catch", "C31", V, "            result.errorCode = errorCode();\n            String *const errorMsg", "            if (keepFile)\n                result.errorCode = errorCode();\n\n            String *const errorMsg")
m("c31-info-list", "C31", V, "LOG_WARN_FMT(\"backup '%s' found in \" INFO_BACKUP_FILE \" but not in the repository\", strZ(infoLabel));\n                        strLstAdd(jobData.backupList, infoLabel);", "LOG_WARN_FMT(\"backup '%s' found in \" INFO_BACKUP_FILE \" but not in the repository\", strZ(infoLabel));")
m("c31-archive-hist", "C31", V, "LOG_INFO_FMT(\"archiveIds '%s' are not in the archive.info history list\", strZ(missingFromHistory));\n\n                (*jobErrorTotal)++;", "LOG_INFO_FMT(\"archiveIds '%s' are not in the archive.info history list\", strZ(missingFromHistory));")
m("c31-set-ref", "C31", V, "if (file.blockIncrMapSize != 0)", "if (file.blockIncrMapSize != 0 && file.reference == NULL)")
m("c31-render-inprog", "C31", V, "if (verboseText || (strcmp(status, \"valid\") != 0 && strcmp(status, \"in-progress\") != 0))", "if (verboseText || (strcmp(status, \"valid\") != 0 && backupResult->totalFileVerify > 0))")

m("c31-r-callback", None, V, "    if (jobData->backupProcessing)\n    {\n        // Only begin backup verification if the last archive result was processed\n        if (result == NULL)\n            result = verifyBackup(jobData);\n    }", "    if (jobData->backupProcessing && result == NULL)\n        result = verifyBackup(jobData);")
m("c31-r-file", None, F, "            if (!bufEq(fileChecksum, pckReadBinP(ioFilterGroupResultP(filterGroup, CRYPTO_HASH_FILTER_TYPE))))\n            {", "            const Buffer *const checksum = pckReadBinP(ioFilterGroupResultP(filterGroup, CRYPTO_HASH_FILTER_TYPE));\n            const bool match = bufEq(fileChecksum, checksum);\n\n            if (!match)\n            {")
m("c31-r-size", None, F, "else if (fileSize != pckReadU64P(ioFilterGroupResultP(ioReadFilterGroup(read), SIZE_FILTER_TYPE)))\n                result = verifySizeInvalid;", "else\n            {\n                const uint64_t size = pckReadU64P(ioFilterGroupResultP(filterGroup, SIZE_FILTER_TYPE));\n\n                if (size != fileSize)\n                    result = verifySizeInvalid;\n            }")
m("c31-r-result", None, V, "if (verifyResult == verifyOk)\n                                        backupResult->totalFileValid++;\n                                    else\n                                    {\n                                        jobData.jobErrorTotal += verifyLogInvalidResult(\n                                            fileType, verifyResult, processId, filePathName);\n                                        backupResult->status = backupInvalid;\n                                        verifyInvalidFileAdd(backupResult->invalidFileList, verifyResult, filePathName);\n                                    }", "if (verifyResult != verifyOk)\n                                    {\n                                        verifyInvalidFileAdd(backupResult->invalidFileList, verifyResult, filePathName);\n                                        backupResult->status = backupInvalid;\n                                        jobData.jobErrorTotal += verifyLogInvalidResult(\n                                            fileType, verifyResult, processId, filePathName);\n                                    }\n                                    else\n                                        backupResult->totalFileValid++;")
m("c31-r-done", None, V, "jobData->manifestFileIdx == backupResult->totalFileManifest", "jobData->manifestFileIdx >= backupResult->totalFileManifest")
m("c31-r-type", None, V, "                            if (protocolParallelJobErrorCode(job) == 0)\n", "                            const int errorCode = protocolParallelJobErrorCode(job);\n\n                            if (errorCode == 0)\n")
m("c31-r-found", None, V, "                    found = true;\n                    break;\n                }\n            }\n\n            // If the PG data is not found", "                    found = true;\n                }\n\n                if (found)\n                    break;\n            }\n\n            // If the PG data is not found")
m("c31-r-wal", None, V, "                        if (strLstEmpty(jobData->walFileList))\n                            strLstRemoveIdx(jobData->walPathList, 0);", "                        if (strLstSize(jobData->walFileList) == 0)\n                            strLstRemoveIdx(jobData->walPathList, 0);")
m("c31-r-hist", None, V, "            if (archiveInfoPgHistory.id != backupInfoPgHistory.id ||\n                archiveInfoPgHistory.systemId != backupInfoPgHistory.systemId ||\n                archiveInfoPgHistory.version != backupInfoPgHistory.version)\n            {\n                THROW(FormatError, strZ(errMsg));\n            }", "            const bool same =\n                archiveInfoPgHistory.id == backupInfoPgHistory.id && archiveInfoPgHistory.systemId == backupInfoPgHistory.systemId &&\n                archiveInfoPgHistory.version == backupInfoPgHistory.version;\n\n            if (!same)\n                THROW(FormatError, strZ(errMsg));")
m("c31-r-filter", None, V, "if (strCmp(strSubN(item, 0, WAL_SEGMENT_NAME_SIZE), jobData->archiveStart) < 0)\n                                    jobData->walFileList = strLstRemoveIdx(jobData->walFileList, 0);\n                                else\n                                    break;", "if (strCmp(strSubN(item, 0, WAL_SEGMENT_NAME_SIZE), jobData->archiveStart) >= 0)\n                                    break;\n\n                                jobData->walFileList = strLstRemoveIdx(jobData->walFileList, 0);")
m("c31-r-zero", None, V, "                    if (fileData.size != 0 || !manifestData(jobData->manifest)->bundle)\n", "                    const bool bundled = manifestData(jobData->manifest)->bundle;\n\n                    if (!(bundled && fileData.size == 0))\n")
