CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


B, M, K = "info/manifest/build.c.inc", "info/manifest/manifest.c", "command/backup/backup.c"
R = "FUNCTION_TEST_RETURN_VOID();"
m("c35-tmp", "C35", B, "if (strBeginsWithZ(info->name, PG_PREFIX_PGSQLTMP))", "if (strBeginsWithZ(info->name, \"pgsql\"))")
m("c35-single", "C35", B, "strLstExists(buildData->excludeSingle, manifestName))", "strLstExists(buildData->excludeSingle, info->name))")
m("c35-replslot", "C35", B, "if (strEqZ(info->name, PG_PATH_PGREPLSLOT))", "if (strEqZ(info->name, PG_PATH_PGREPLSLOT) || strEqZ(info->name, \"pg_logical\"))")
m("c35-root", "C35", B, "if (strEq(manifestParentName, MANIFEST_TARGET_PGDATA_STR))\n            {\n                // Skip pg_dyn", "if (strBeginsWith(manifestParentName, MANIFEST_TARGET_PGDATA_STR))\n            {\n                // Skip pg_dyn")
m("c35-status", "C35", B, "if (buildData->online && strEq(manifestParentName, buildData->manifestWalName) &&\n                strEqZ(info->name, PG_PATH_ARCHIVE_STATUS))", "if (buildData->online && strEq(manifestParentName, buildData->manifestWalName))")
m("c35-status-off", "C35", B, "if (buildData->online && strEq(manifestParentName, buildData->manifestWalName) &&\n                strEqZ(info->name, PG_PATH_ARCHIVE_STATUS))", "if (strEq(manifestParentName, buildData->manifestWalName) &&\n                strEqZ(info->name, PG_PATH_ARCHIVE_STATUS))")
m("c35-wal-off", "C35", B, "if (buildData->online && strEq(manifestParentName, buildData->manifestWalName))\n                FUNC", "if (strEq(manifestParentName, buildData->manifestWalName))\n                FUNC")
m("c35-wal-begin", "C35", B, "if (buildData->online && strEq(manifestParentName, buildData->manifestWalName))\n                FUNC", "if (buildData->online && strBeginsWith(manifestName, buildData->manifestWalName))\n                FUNC")
m("c35-init-any", "C35", B, "if (dbPath && strBeginsWithZ(info->name, PG_FILE_PGINTERNALINIT) &&\n                (strSize(info->name) == sizeof(PG_FILE_PGINTERNALINIT) - 1 ||\n                 regExpMatchOne(STRDEF(\"\\\\.[0-9]+\"), strSub(info->name, sizeof(PG_FILE_PGINTERNALINIT) - 1))))", "if (strBeginsWithZ(info->name, PG_FILE_PGINTERNALINIT) &&\n                (strSize(info->name) == sizeof(PG_FILE_PGINTERNALINIT) - 1 ||\n                 regExpMatchOne(STRDEF(\"\\\\.[0-9]+\"), strSub(info->name, sizeof(PG_FILE_PGINTERNALINIT) - 1))))")
m("c35-signal-11", "C35", B, "                     pgVersion >= PG_VERSION_12) ||\n", "                     pgVersion >= PG_VERSION_11) ||\n")
m("c35-conf", "C35", B, "                     pgVersion < PG_VERSION_12) ||\n", "                     pgVersion < PG_VERSION_13) ||\n")
m("c35-label-sub", "C35", B, "strEqZ(info->name, PG_FILE_BACKUPLABEL) ||", "strBeginsWithZ(info->name, PG_FILE_BACKUPLABEL) ||")
m("c35-autoconf", "C35", B, "(strEqZ(info->name, PG_FILE_POSTGRESQLAUTOCONFTMP))", "(strBeginsWithZ(info->name, PG_FILE_POSTGRESQLAUTOCONF))")
m("c35-manifest12", "C35", B, "                     pgVersion >= PG_VERSION_13) ||\n", "                     pgVersion >= PG_VERSION_12) ||\n")
m("c35-temp-any", "C35", B, "if (dbPath && regExpMatch(buildData->tempRelationExp, info->name))", "if (regExpMatch(buildData->tempRelationExp, info->name))")
m("c35-link-db", "C35", B, "manifestBuildInfo(buildData, manifestParentName, pgPath, dbPath, &linkedInfo);", "manifestBuildInfo(\n                buildData, manifestParentName, pgPath, dbPath || target.file != NULL, &linkedInfo);")
m("c35-link-miss", "C35", B, "            if (!linkedInfo.exists)\n                storageInfoP(buildData->storagePg, linkPgPath, .followLink = true);", "            if (!linkedInfo.exists && target.tablespaceId == 0)\n                storageInfoP(buildData->storagePg, linkPgPath, .followLink = true);")
m("c35-link-skip", "C35", B, "            if (!linkedInfo.exists)\n                storageInfoP(buildData->storagePg, linkPgPath, .followLink = true);", "            if (!linkedInfo.exists)\n                FUNCTION_TEST_RETURN_VOID();")
m("c35-break", "C35", B, "                    manifestBuildInfo(buildData, manifestName, pgPathSub, dbPathSub, &info);", "                    if (info.type == storageTypeLink && dbPathSub)\n                        continue;\n\n                    manifestBuildInfo(buildData, manifestName, pgPathSub, dbPathSub, &info);")
m("c35-dbsub", "C35", B, "regExpMatch(buildData->dbPathExp, manifestName);", "dbPath || regExpMatch(buildData->dbPathExp, manifestName);")
m("c35-copy", "C35", B, "if (info->size == 0 && buildData->manifest->pub.data.bundle)", "if (info->size == 0 || buildData->manifest->pub.data.bundle)")
m("c35-zero", "C35", B, "            // Add file to manifest\n            ManifestFile file =", "            if (info->size == 0 && !dbPath)\n                FUNCTION_TEST_RETURN_VOID();\n\n            // Add file to manifest\n            ManifestFile file =")
m("c35-mode", "C35", B, "                .destination = info->linkDestination,", "                .destination = linkDestinationAbsolute,")
m("c35-special", "C35", B, "            LOG_WARN_FMT(\"exclude special file '%s/%s' from backup\", strZ(pgPath), strZ(info->name));\n", "")
m("c35-dbexp", "C35", "info/manifest/common.h" if False else M, "regExpNew(strNewFmt(\"^\" DB_PATH_EXP \"$\"", "regExpNew(strNewFmt(\"^\" DB_PATH_EXP")
m("c35-tempexp", "C35", M, "\"^t[0-9]+_\" RELATION_EXP \"$\"", "\"^t[0-9]*_*\" RELATION_EXP \"$\"")
m("c35-tempexp2", "C35", M, "\"^t[0-9]+_\" RELATION_EXP \"$\"", "\"t[0-9]+_\" RELATION_EXP")
m("c35-relexp", "C35", M, "\"/\" RELATION_EXP \"$\"", "\"/\" RELATION_EXP")
m("c35-excl-slash", "C35", M, "strLstAddSub(buildData.excludeContent, exclude, strSize(exclude) - 1);", "strLstAddSub(buildData.excludeSingle == NULL ? buildData.excludeContent : buildData.excludeSingle, exclude, strSize(exclude) - 2);")
m("c35-unl-path", "C35", M, "if (strcmp(lastRelationFileId, relationFileId) != 0 || strSize(lastRelationPath) != filePathSize ||\n                        strncmp(strZ(lastRelationPath), strZ(filePathName), filePathSize) != 0)", "if (strcmp(lastRelationFileId, relationFileId) != 0)")
m("c35-unl-id", "C35", M, "if (strcmp(lastRelationFileId, relationFileId) != 0 || strSize(lastRelationPath) != filePathSize ||\n                        strncmp(strZ(lastRelationPath), strZ(filePathName), filePathSize) != 0)", "if (strSize(lastRelationPath) != filePathSize ||\n                        strncmp(strZ(lastRelationPath), strZ(filePathName), filePathSize) != 0)")
m("c35-online", "C35", K, "cfgOptionBool(cfgOptOnline),\n            cfgOptionBool(cfgOptChecksumPage)", "cfgOptionBool(cfgOptStartFast),\n            cfgOptionBool(cfgOptChecksumPage)")
m("c35-wal-name", "C35", M, "strZ(pgWalPath(pgVersion))", "strZ(pgXactPath(pgVersion))")
m("c35-missing", "C35", M, "storagePg, pgPath, .errorOnMissing = true, .sortOrder", "storagePg, pgPath, .sortOrder")
m("c35-build-online", "C35", M, "                .online = online,\n", "                .online = online || tablespaceList != NULL,\n")
# Refactorings
m("c35-ok-order", None, B, "                if (strEqZ(info->name, PG_PATH_PGDYNSHMEM))\n                    FUNCTION_TEST_RETURN_VOID();\n", "                const bool dyn = strEqZ(info->name, PG_PATH_PGDYNSHMEM);\n\n                if (dyn)\n                    FUNCTION_TEST_RETURN_VOID();\n")
m("c35-ok-helper", None, B, "            if (buildData->online && strEq(manifestParentName, buildData->manifestWalName))\n                FUNCTION_TEST_RETURN_VOID();\n", "            if (manifestBuildWal(buildData, manifestParentName))\n                FUNCTION_TEST_RETURN_VOID();\n",
  (B, "static void\nmanifestBuildInfo(", "static bool\nmanifestBuildWal(const ManifestBuildData *const buildData, const String *const parent)\n{\n    return buildData->online && strEq(parent, buildData->manifestWalName);\n}\n\nstatic void\nmanifestBuildInfo("))
m("c35-ok-list", None, B, "            if (strEq(manifestParentName, MANIFEST_TARGET_PGDATA_STR))\n            {\n                // Skip pg_dyn", "            static const char *const skipList[] = {PG_PATH_PGNOTIFY, PG_PATH_PGSERIAL};\n\n            if (strEq(manifestParentName, MANIFEST_TARGET_PGDATA_STR))\n            {\n                for (unsigned int skipIdx = 0; skipIdx < LENGTH_OF(skipList); skipIdx++)\n                {\n                    if (strEqZ(info->name, skipList[skipIdx]))\n                        FUNCTION_TEST_RETURN_VOID();\n                }\n\n                // Skip pg_dyn")
m("c35-ok-ver", None, B, "                     pgVersion < PG_VERSION_12) ||\n", "                     !(pgVersion >= PG_VERSION_12)) ||\n")
m("c35-ok-else", None, M, "if (strEndsWithZ(exclude, \"/\"))\n                    {\n                        if (buildData.excludeContent == NULL)\n                            buildData.excludeContent = strLstNew();\n\n                        strLstAddSub(buildData.excludeContent, exclude, strSize(exclude) - 1);\n                    }", "const bool content = strEndsWithZ(exclude, \"/\");\n\n                    if (content)\n                    {\n                        if (buildData.excludeContent == NULL)\n                            buildData.excludeContent = strLstNew();\n\n                        strLstAddSub(buildData.excludeContent, exclude, strSize(exclude) - 1);\n                    }")
m("c35-ok-unl", None, M, "                        lastRelationFileIdUnlogged = manifestFileExists(this, relationInit);\n                        strFree(relationInit);", "                        const bool unlogged = manifestFileExists(this, relationInit);\n                        lastRelationFileIdUnlogged = unlogged;\n                        strFree(relationInit);")
m("c35-ok-if", None, B, "if (info->size == 0 && buildData->manifest->pub.data.bundle)\n            {\n                file.copy = false;\n                file.checksumSha1 = bufPtrConst(HASH_TYPE_SHA1_ZERO_BUF);\n            }", "if (buildData->manifest->pub.data.bundle)\n            {\n                if (file.size == 0)\n                {\n                    file.checksumSha1 = bufPtrConst(HASH_TYPE_SHA1_ZERO_BUF);\n                    file.copy = false;\n                }\n            }")
