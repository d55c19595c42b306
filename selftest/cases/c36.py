CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


H, MN = "storage/helper.c", "main.c"
m("c36-info-repair", "C36", "info/infoBackup.c", "                infoBackupLoadFileCallback, &data);\n", "                infoBackupLoadFileCallback, &data);\n\n            if (!storageExistsP(storage, fileName))\n                storageCopyP(storageNewReadP(storage, strNewFmt(\"%s\" INFO_COPY_EXT, strZ(fileName))), storageNewWriteP(storage, fileName));\n")
m("c36-check-fall", "C36", MN, "                    cmdCheck();\n                    break;\n", "                    cmdCheck();\n\n                    if (!cfgOptionBool(cfgOptOnline))\n                        break;\n\n                    __attribute__((fallthrough));\n")
m("c36-expire-auto", "C36", MN, "if (cfgOptionBool(cfgOptExpireAuto))", "if (cfgOptionBool(cfgOptExpireAuto) || cfgOptionBool(cfgOptResume))")
m("c36-dry-and", "C36", H, "    if (!storageHelper.dryRunInit || storageHelper.dryRun)\n        THROW(AssertError, WRITABLE_WHILE_DRYRUN);\n\n    if (storageHelper.storageRepoWrite == NULL)", "    if (!storageHelper.dryRunInit)\n        THROW(AssertError, WRITABLE_WHILE_DRYRUN);\n\n    if (storageHelper.storageRepoWrite == NULL)")
m("c36-dry-cached", "C36", H, "    if (!storageHelper.dryRunInit || storageHelper.dryRun)\n        THROW(AssertError, WRITABLE_WHILE_DRYRUN);\n\n    if (storageHelper.storageRepoWrite == NULL)", "    if (storageHelper.storageRepoWrite == NULL && (!storageHelper.dryRunInit || storageHelper.dryRun))\n        THROW(AssertError, WRITABLE_WHILE_DRYRUN);\n\n    if (storageHelper.storageRepoWrite == NULL)")
m("c36-dry-load", "C36", "config/load.c", "storageHelperDryRunInit(cfgOptionValid(cfgOptDryRun) && cfgOptionBool(cfgOptDryRun));", "storageHelperDryRunInit(cfgOptionValid(cfgOptDryRun) && cfgOptionBool(cfgOptDryRun) && cfgCommandRole() == cfgCmdRoleMain);")
m("c36-lock-rm", "C36", "command/lock.c", "result = lockReadP(lockFileName);", "result = lockReadP(lockFileName, .remove = true);")
m("c36-lock-any", "C36", "common/lock.c", "            if (param.remove)\n", "            if (param.remove || result.status == lockReadStatusInvalid)\n")
m("c36-handle", "C36", H, "storageHelper.storageRepo[repoIdx] = storageRepoGet(repoIdx, false);", "storageHelper.storageRepo[repoIdx] = storageRepoGet(repoIdx, true);")
m("c36-ls-unlink", "C36", "command/repo/ls.c", "            storageListRender(ioFdWriteNew(", "            if (cfgOptionBool(cfgOptRecurse))\n                unlink(\"/tmp/x\");\n\n            storageListRender(ioFdWriteNew(", ("command/repo/ls.c", "#include <unistd.h>\n", "#include <unistd.h>\n#include <stdio.h>\n"))
m("c36-ok-helper", None, H, "    if (!storageHelper.dryRunInit || storageHelper.dryRun)\n        THROW(AssertError, WRITABLE_WHILE_DRYRUN);\n\n    if (storageHelper.storageRepoWrite == NULL)", "    storageHelperDryRunCheck();\n\n    if (storageHelper.storageRepoWrite == NULL)",
  (H, "FN_EXTERN const Storage *\nstorageRepoIdxWrite(", "static void\nstorageHelperDryRunCheck(void)\n{\n    if (storageHelper.dryRunInit && !storageHelper.dryRun)\n        return;\n\n    THROW(AssertError, WRITABLE_WHILE_DRYRUN);\n}\n\nFN_EXTERN const Storage *\nstorageRepoIdxWrite("))
m("c36-ok-if", None, MN, "                case cfgCmdInfo:\n                    cmdInfo();\n                    break;\n", "                case cfgCmdInfo:\n                {\n                    cmdInfo();\n                    break;\n                }\n")
m("c36-ok-dry", None, "config/load.c", "storageHelperDryRunInit(cfgOptionValid(cfgOptDryRun) && cfgOptionBool(cfgOptDryRun));", "bool dryRun = false;\n\n        if (cfgOptionValid(cfgOptDryRun))\n            dryRun = cfgOptionBool(cfgOptDryRun);\n\n        storageHelperDryRunInit(dryRun);")
