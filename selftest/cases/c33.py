CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


PP, BP, BK, RP, RS, SP, SR, BI, PS = "command/archive/push/push.c", "command/backup/protocol.c", "command/backup/process.c.inc", "command/restore/protocol.c", "command/restore/process.c.inc", "storage/remote/protocol.c", "storage/remote/storage.c", "command/backup/blockIncr.c", "protocol/server.c"
m("c33-push-order", "C33", PP, "pckWriteBoolP(param, cfgOptionBool(cfgOptArchiveHeaderCheck));\n            pckWriteBoolP(param, cfgOptionBool(cfgOptArchiveModeCheck));", "pckWriteBoolP(param, cfgOptionBool(cfgOptArchiveModeCheck));\n            pckWriteBoolP(param, cfgOptionBool(cfgOptArchiveHeaderCheck));")
m("c33-size-swap", "C33", BP, "file.pgFileSize = pckReadU64P(param);\n            file.pgFileSizeOriginal = pckReadU64P(param);", "file.pgFileSizeOriginal = pckReadU64P(param);\n            file.pgFileSize = pckReadU64P(param);")
m("c33-sum-swap", "C33", BK, "const Buffer *const copyChecksum = pckReadBinP(jobResult);\n                const Buffer *const repoChecksum = pckReadBinP(jobResult);", "const Buffer *const repoChecksum = pckReadBinP(jobResult);\n                const Buffer *const copyChecksum = pckReadBinP(jobResult);")
m("c33-user-swap", "C33", RP, "file.user = pckReadStrP(param);\n            file.group = pckReadStrP(param);", "file.group = pckReadStrP(param);\n            file.user = pckReadStrP(param);")
m("c33-size-link", "C33", SP, "if (info->type == storageTypeFile)\n        pckWriteU64P", "if (info->type == storageTypeFile || info->type == storageTypeLink)\n        pckWriteU64P")
m("c33-default", "C33", SR, "info->groupId = pckReadU32P(read, .defaultValue = data->groupIdLast);", "info->groupId = pckReadU32P(read, .defaultValue = data->userIdLast);")
m("c33-last", "C33", SP, "data->groupIdLast = info->groupId;", "data->groupIdLast = info->userId;")
m("c33-last-gone", "C33", SR, "    data->modeLast = info->mode;\n", "")
m("c33-time-last", "C33", SP, "    data->timeModifiedLast = info->timeModified;\n", "")
m("c33-path-create", "C33", SP, "const bool errorOnExists = pckReadBoolP(param);\n        const bool noParentCreate = pckReadBoolP(param);", "const bool noParentCreate = pckReadBoolP(param);\n        const bool errorOnExists = pckReadBoolP(param);")
m("c33-block-swap", "C33", BI, "const uint64_t bundleId = pckReadU64P(paramListPack);\n        const uint64_t bundleOffset = pckReadU64P(paramListPack);", "const uint64_t bundleOffset = pckReadU64P(paramListPack);\n        const uint64_t bundleId = pckReadU64P(paramListPack);")
m("c33-error-swap", "C33", PS, "pckWriteStrP(packWrite, message);\n        pckWriteStrP(packWrite, stack);", "pckWriteStrP(packWrite, stack);\n        pckWriteStrP(packWrite, message);")
m("c33-restore-cond", "C33", RS, "                    pckWriteU64P(param, file.blockIncrChecksumSize);", "                    if (file.blockIncrChecksumSize != 0)\n                        pckWriteU64P(param, file.blockIncrChecksumSize);")
m("c33-r-local", None, PP, "pckWriteBoolP(param, cfgOptionBool(cfgOptArchiveHeaderCheck));", "const bool headerCheck = cfgOptionBool(cfgOptArchiveHeaderCheck);\n\n            pckWriteBoolP(param, headerCheck);")
m("c33-r-while", None, SP, "for (unsigned int listIdx = 0; listIdx < storageLstSize(list); listIdx++)\n            {\n                const StorageInfo info = storageLstGet(list, listIdx);\n", "unsigned int listIdx = 0;\n\n            while (listIdx < storageLstSize(list))\n            {\n                const StorageInfo info = storageLstGet(list, listIdx++);\n")
m("c33-r-last", None, SR, "    data->modeLast = info->mode;\n    data->userIdLast = info->userId;\n", "    data->userIdLast = info->userId;\n    data->modeLast = info->mode;\n")
m("c33-r-read", None, RP, "file.user = pckReadStrP(param);\n", "const String *const fileUser = pckReadStrP(param);\n            file.user = fileUser;\n")
