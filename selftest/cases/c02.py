CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


I, IB, IA, PF, PP, AC = "info/info.c", "info/infoBackup.c", "info/infoArchive.c", "command/archive/push/file.c", "command/archive/push/push.c", "command/archive/common.c"
# C02
m("c02-sum-len", "C02", I, "            else if (!strEq(checksumExpected, checksumActual))", "            else if (strSize(checksumExpected) == strSize(checksumActual) && !strEq(checksumExpected, checksumActual))")
m("c02-sum-key", "C02", I, "if (!(strEqZ(value->section, INFO_SECTION_BACKREST) && strEqZ(value->key, INFO_KEY_CHECKSUM)))", "if (!strEqZ(value->section, INFO_SECTION_BACKREST))")
m("c02-sum-none", "C02", I, "            if (checksumExpected == NULL)\n", "            if (checksumExpected == NULL && this->pub.backrestVersion != NULL)\n                LOG_WARN(\"no checksum found\");\n            else if (checksumExpected == NULL)\n")
m("c02-format-old", "C02", I, "if (varUInt64(jsonToVar(value->value)) != REPOSITORY_FORMAT)", "if (varUInt64(jsonToVar(value->value)) > REPOSITORY_FORMAT)")
m("c02-copy-main", "C02", IB, "const String *const fileName = try == 0 ? loadData->fileName : strNewFmt(\"%s\" INFO_COPY_EXT, strZ(loadData->fileName));\n\n            // Attempt to load the file\n            IoRead *const read = storageReadIo(storageNewReadP(loadData->storage, fileName));\n            cipherBlockFilterGroupAdd(\n                ioReadFilterGroup(read), cipherModeDecrypt, loadData->cipherSpec);\n\n            MEM_CONTEXT_BEGIN(loadData->memContext)\n            {\n                loadData->infoBackup",
  "const String *const fileName = try <= 1 ? loadData->fileName : strNewFmt(\"%s\" INFO_COPY_EXT, strZ(loadData->fileName));\n\n            // Attempt to load the file\n            IoRead *const read = storageReadIo(storageNewReadP(loadData->storage, fileName));\n            cipherBlockFilterGroupAdd(\n                ioReadFilterGroup(read), cipherModeDecrypt, loadData->cipherSpec);\n\n            MEM_CONTEXT_BEGIN(loadData->memContext)\n            {\n                loadData->infoBackup")
m("c02-save-section", "C02", I, "        INFO_CHECKSUM_KEY_VALUE_NEXT(infoSaveData->checksum);\n\n    INFO_CHECKSUM_KEY_VALUE(infoSaveData->checksum, STR(key), jsonValue);" if False else "        INFO_CHECKSUM_SECTION(infoSaveData->checksum, STR(section));\n", "        if (infoSaveData->sectionLast != NULL)\n            INFO_CHECKSUM_SECTION(infoSaveData->checksum, STR(section));\n")
m("c02-copy-when", "C02", IB, "            storagePutP(storageNewWriteP(storage, strNewFmt(\"%s\" INFO_COPY_EXT, strZ(fileName))), buffer);", "            if (!storageExistsP(storage, strNewFmt(\"%s\" INFO_COPY_EXT, strZ(fileName))))\n                storagePutP(storageNewWriteP(storage, strNewFmt(\"%s\" INFO_COPY_EXT, strZ(fileName))), buffer);")
m("c02-recon-dep", "C02", IB, "                    infoBackupDataDelete(infoBackup, removeBackup);", "                    if (strEq(removeBackup, backupLabel))\n                        infoBackupDataDelete(infoBackup, removeBackup);")
m("c02-r-load", None, I, "            if (checksumExpected == NULL)\n                THROW_FMT(ChecksumError,", "            const bool missing = checksumExpected == NULL;\n\n            if (missing)\n                THROW_FMT(ChecksumError,")
# C04
m("c04-stale-ok", "C04", PP, "        const StringList *const okRemoveList = strLstMergeAnti(okList, readyList);", "        const StringList *const okRemoveList = strLstSize(readyList) > 1 ? strLstNew() : strLstMergeAnti(okList, readyList);")
m("c04-async-prior", "C04", PP, "pckWriteStrLstP(param, jobData->archiveInfo.errorList);", "pckWriteStrLstP(param, strLstNew());")
m("c04-stop-read", "C04", PF, "while (!ioReadEof(storageReadIo(source)));", "while (!ioReadEof(storageReadIo(source)) && strLstEmpty(errorList));")
m("c04-err-one", "C04", PF, "        if (strLstSize(errorList) > 0)\n", "        if (strLstSize(errorList) >= lstSize(repoList))\n")
m("c04-status-name", "C04", AC, "            if (okFileExists)\n            {\n", "            if (okFileExists || code == 0)\n            {\n")
m("c04-async-global", "C04", PP, "archiveAsyncStatusErrorWrite(archiveModePush, NULL, errorCode(), STR(errorMessage()));\n            RETHROW();", "archiveAsyncStatusErrorWrite(archiveModePush, NULL, errorCode(), STR(errorMessage()));")
m("c04-drop-ge", "C04", PP, "queueSize > queueMax", "queueSize >= queueMax / 2")
m("c04-stop-late", "C04", PP, "        // Test for stop file\n        lockStopTest();\n\n", "        if (!cfgOptionBool(cfgOptArchiveAsync))\n            lockStopTest();\n\n")
# C05
m("c05-sum-short", "C05", PF, "if (strEq(walSegmentChecksum, walSegmentRepoChecksum))", "if (strBeginsWith(walSegmentChecksum, strSubN(walSegmentRepoChecksum, 0, 8)))")
m("c05-find-first", "C05", PF, "walSegmentFindOne(storageRepoIdx(repoData->repoIdx), repoData->archiveId, archiveFile, 0)", "walSegmentFindOne(\n                            storageRepoIdx(((const ArchivePushFileRepoData *)lstGet(repoList, 0))->repoIdx), repoData->archiveId, archiveFile, 0)")
m("c05-hist0", "C05", PP, "infoPgData(infoArchivePg(info), infoPgDataCurrentId(infoArchivePg(info)));", "infoPgData(infoArchivePg(info), infoPgDataTotal(infoArchivePg(info)) - 1);")
m("c05-sys-only", "C05", PP, "if (result.pgVersion != archiveInfo.version || result.pgSystemId != archiveInfo.systemId)", "if (result.pgVersion != archiveInfo.version && result.pgSystemId != archiveInfo.systemId)")
m("c05-opt-swap", "C05", PP, "pckWriteBoolP(param, cfgOptionBool(cfgOptArchiveHeaderCheck));", "pckWriteBoolP(param, cfgOptionBool(cfgOptArchiveModeCheck));")
m("c05-partial", "C05", PF, "if (headerCheck && isSegment)", "if (headerCheck && isSegment && !walIsPartial(archiveFile))")
