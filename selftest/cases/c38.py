CASES = []
CK = "command/check/check.c"
CC = "command/check/common.c"


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


P = "C38"
FIND = """            const String *const walSegmentFile = walSegmentFindOne(
                storageRepoIdx(repoIdx), repoArchiveId[repoIdx], walSegment, cfgOptionUInt64(cfgOptArchiveTimeout));
"""
LOOP = """        // Wait for the WAL to appear in each repo
        for (unsigned int repoIdx = 0; repoIdx < cfgOptionGroupIdxTotal(cfgOptGrpRepo); repoIdx++)
        {
"""
m("c38-first-repo", P, CK, LOOP, LOOP.replace("repoIdx = 0", "repoIdx = 1"))
m("c38-one-repo", P, CK, LOOP, LOOP.replace("repoIdx < cfgOptionGroupIdxTotal(cfgOptGrpRepo)", "repoIdx < 1"))
m("c38-skip-local", P, CK, LOOP, LOOP + "            if (!repoIsLocal(repoIdx))\n                continue;\n\n")
m("c38-break", P, CK, """                cfgOptionGroupName(cfgOptGrpRepo, repoIdx));
        }

        dbFree(dbGroup.primary);""", """                cfgOptionGroupName(cfgOptGrpRepo, repoIdx));

            if (cfgOptionBool(cfgOptArchiveCheck))
                break;
        }

        dbFree(dbGroup.primary);""")
m("c38-timeout0", P, CK, "walSegment, cfgOptionUInt64(cfgOptArchiveTimeout));", "walSegment, 0);", (CK, "strZ(walSegmentFile))))", "walSegmentFile == NULL ? \"\" : strZ(walSegmentFile))))"))
m("c38-archiveid", P, CK, FIND, FIND.replace("repoArchiveId[repoIdx]", "repoArchiveId[0]"))
m("c38-try", P, CK, FIND, """            const String *walSegmentFile = STRDEF("?");

            TRY_BEGIN()
            {
                walSegmentFile = walSegmentFindOne(
                    storageRepoIdx(repoIdx), repoArchiveId[repoIdx], walSegment, cfgOptionUInt64(cfgOptArchiveTimeout));
            }
            CATCH(ArchiveTimeoutError)
            {
                LOG_WARN(errorMessage());
            }
            TRY_END();
""")
m("c38-stanza-skip", P, CK, "            for (unsigned int stanzaIdx = 0; stanzaIdx < strLstSize(stanzaList); stanzaIdx++)", "            for (unsigned int stanzaIdx = 0; stanzaIdx < strLstSize(stanzaList) && stanzaIdx < 8; stanzaIdx++)")
m("c38-noreload", P, CK, "                    storageHelperFree();\n                    protocolFree();", "                    protocolFree();")
m("c38-nodb", P, CK, "                if (dbGroup.standby == NULL && dbGroup.primary == NULL)", "                if (dbGroup.standby == NULL && dbGroup.primary == NULL && stanzaSpecified)")
m("c38-standby-info", P, CK, """            checkStanzaInfoPg(
                storageRepo, dbPgControl(dbGroup.standby).version, dbPgControl(dbGroup.standby).systemId,
                cfgCipherSpecMainIdx(repoIdx));
        }

        LOG_INFO("switch""", """            if (repoIsLocal(repoIdx))
            {
                checkStanzaInfoPg(
                    storageRepo, dbPgControl(dbGroup.standby).version, dbPgControl(dbGroup.standby).systemId,
                    cfgCipherSpecMainIdx(repoIdx));
            }
        }

        LOG_INFO("switch""")
m("c38-standby-noprimary", P, CK, "                if (repoIsLocal(repoIdx))\n                    error = true;", "                if (repoIsLocal(repoIdx))\n                    error = pgPathDefinedTotal > 1;")
m("c38-standby-role", P, CK, "checkDbConfig(dbPgControl(dbGroup.standby).version, dbGroup.standbyIdx, dbGroup.standby, true);", "checkDbConfig(dbPgControl(dbGroup.standby).version, dbGroup.primaryIdx, dbGroup.standby, true);")
m("c38-primary-asstandby", P, CK, "checkDbConfig(dbPgControl(dbGroup.primary).version, dbGroup.primaryIdx, dbGroup.primary, false);", "checkDbConfig(dbPgControl(dbGroup.primary).version, dbGroup.primaryIdx, dbGroup.primary, dbGroup.standby != NULL);")
m("c38-off", P, CC, "        if (!isStandby && cfgOptionValid(cfgOptArchiveCheck) && cfgOptionBool(cfgOptArchiveCheck))", "        if (!isStandby && cfgOptionValid(cfgOptArchiveCheck) && cfgOptionBool(cfgOptArchiveCheck) && pgIdx == 0)")
m("c38-version", P, CC, "pgVersion != dbVersion || strCmp(", "pgVersion > dbVersion || strCmp(")
m("c38-path", P, CC, "strCmp(cfgOptionIdxStr(cfgOptPgPath, pgIdx), dbPath) != 0)", "strCmp(cfgOptionIdxStr(cfgOptPgPath, 0), dbPath) != 0)")
m("c38-always", P, CC, "if (cfgOptionBool(cfgOptArchiveModeCheck) && strCmpZ", "if (cfgOptionBool(cfgOptArchiveModeCheck) && !cfgOptionBool(cfgOptOnline) && strCmpZ")
m("c38-command", P, CC, "    if (result && strstr(strZ(archiveCommand), PROJECT_BIN) == NULL)", "    if (result && strSize(archiveCommand) > 9 && strstr(strZ(archiveCommand), PROJECT_BIN) == NULL)")
m("c38-info-id", P, CC, "    if (archiveInfo->id != backupInfo->id || archiveInfo->systemId != backupInfo->systemId ||", "    if (archiveInfo->id < backupInfo->id || archiveInfo->systemId != backupInfo->systemId ||")
m("c38-restorepoint", P, "db/db.c", "        dbQueryColumn(this, STRDEF(\"select pg_catalog.pg_create_restore_point('\" PROJECT_NAME \" Archive Check')::text\"));", "        if (dbPgVersion(this) < PG_VERSION_10)\n            dbQueryColumn(this, STRDEF(\"select pg_catalog.pg_create_restore_point('\" PROJECT_NAME \" Archive Check')::text\"));")
m("c38-conf-loop", P, CK, """        for (unsigned int repoIdx = 0; repoIdx < cfgOptionGroupIdxTotal(cfgOptGrpRepo); repoIdx++)
        {
            LOG_INFO_FMT(CFGCMD_CHECK " %s configuration (primary)", cfgOptionGroupName(cfgOptGrpRepo, repoIdx));

            // Get the repo storage in case it is remote and encryption settings need to be pulled down (performed here for testing)
            const Storage *const storageRepo = storageRepoIdx(repoIdx);

            // Check that the backup and archive info files exist and are valid for the current database of the stanza
            checkStanzaInfoPg(
                storageRepo, dbPgControl(dbGroup.primary).version, dbPgControl(dbGroup.primary).systemId,
                cfgCipherSpecMainIdx(repoIdx));
""", """        for (unsigned int repoIdx = 0; repoIdx < cfgOptionGroupIdxTotal(cfgOptGrpRepo); repoIdx++)
        {
            LOG_INFO_FMT(CFGCMD_CHECK " %s configuration (primary)", cfgOptionGroupName(cfgOptGrpRepo, repoIdx));

            // Get the repo storage in case it is remote and encryption settings need to be pulled down (performed here for testing)
            const Storage *const storageRepo = storageRepoIdx(repoIdx);

            // Check that the backup and archive info files exist and are valid for the current database of the stanza
            if (dbGroup.standby == NULL)
            {
                checkStanzaInfoPg(
                    storageRepo, dbPgControl(dbGroup.primary).version, dbPgControl(dbGroup.primary).systemId,
                    cfgCipherSpecMainIdx(repoIdx));
            }
""")
m("c38-manifest", P, CK, "            storageListP(storagePgIdx(pgIdx), cfgOptionIdxStr(cfgOptPgPath, pgIdx));", "            if (pgIsLocal(pgIdx))\n                storageListP(storagePgIdx(pgIdx), cfgOptionIdxStr(cfgOptPgPath, pgIdx));")

# Refactorings
m("c38-r-while", "", CK, LOOP, """        // Wait for the WAL to appear in each repo
        const unsigned int repoTotal = cfgOptionGroupIdxTotal(cfgOptGrpRepo);
        unsigned int repoIdx = 0;

        while (repoIdx < repoTotal)
        {
""", (CK, """                cfgOptionGroupName(cfgOptGrpRepo, repoIdx));
        }

        dbFree(dbGroup.primary);""", """                cfgOptionGroupName(cfgOptGrpRepo, repoIdx));
            repoIdx++;
        }

        dbFree(dbGroup.primary);"""))
m("c38-r-early", "", CK, """    // If a primary is defined, check the configuration and perform a WAL switch and make sure the WAL is archived
    if (dbGroup.primary != NULL)
    {
""", """    // If a primary is defined, check the configuration and perform a WAL switch and make sure the WAL is archived
    if (dbGroup.primary == NULL)
        FUNCTION_LOG_RETURN_VOID();

    {
""")
m("c38-r-helper", "", CK, FIND, """            const String *const walSegmentFile = checkWal(repoIdx, repoArchiveId[repoIdx], walSegment);
""", (CK, """static void
checkPrimary(const DbGetResult dbGroup)
""", """static const String *
checkWal(const unsigned int repoIdx, const String *const archiveId, const String *const walSegment)
{
    return walSegmentFindOne(storageRepoIdx(repoIdx), archiveId, walSegment, cfgOptionUInt64(cfgOptArchiveTimeout));
}

static void
checkPrimary(const DbGetResult dbGroup)
"""))
m("c38-r-settings", "", CC, """        if (pgVersion != dbVersion || strCmp(cfgOptionIdxStr(cfgOptPgPath, pgIdx), dbPath) != 0)
        {""", """        const bool versionMatch = pgVersion == dbVersion;
        const bool pathMatch = strEq(cfgOptionIdxStr(cfgOptPgPath, pgIdx), dbPath);

        if (!versionMatch || !pathMatch)
        {""")
m("c38-r-mode", "", CC, """            if (strCmpZ(dbArchiveMode(dbObject), "off") == 0)""", """            const String *const mode = dbArchiveMode(dbObject);

            if (strEqZ(mode, "off"))""")
m("c38-r-command", "", CC, """    bool result = archiveCommand != NULL;

    if (result && strstr(strZ(archiveCommand), PROJECT_BIN) == NULL)
        result = false;
""", """    const bool result = archiveCommand != NULL && strstr(strZ(archiveCommand), PROJECT_BIN) != NULL;
""")
m("c38-r-nodb", "", CK, "                if (dbGroup.standby == NULL && dbGroup.primary == NULL)\n", "                const bool found = dbGroup.standby != NULL || dbGroup.primary != NULL;\n\n                if (!found)\n")
m("c38-r-local", "", CK, """            bool error = pgPathDefinedTotal > 1;
            unsigned int repoIdx = 0;

            while (!error && repoIdx < cfgOptionGroupIdxTotal(cfgOptGrpRepo))
            {
                if (repoIsLocal(repoIdx))
                    error = true;

                repoIdx++;
            }
""", """            bool error = pgPathDefinedTotal > 1;

            for (unsigned int repoIdx = 0; repoIdx < cfgOptionGroupIdxTotal(cfgOptGrpRepo); repoIdx++)
                error = error || repoIsLocal(repoIdx);
""")
m("c38-r-pgctl", "", CK, """        checkDbConfig(dbPgControl(dbGroup.primary).version, dbGroup.primaryIdx, dbGroup.primary, false);
""", """        const PgControl control = dbPgControl(dbGroup.primary);
        checkDbConfig(control.version, dbGroup.primaryIdx, dbGroup.primary, false);
""")
