CASES = []
CL = "postgres/client.c"
DB = "db/db.c"
HE = "db/helper.c"


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


P = "C39"
m("c39-busy", P, CL, "            if (busy)\n                THROW_FMT(DbQueryError, \"query", "            if (busy && pgResult == NULL)\n                THROW_FMT(DbQueryError, \"query")
m("c39-status", P, CL, "if (resultStatus != PGRES_TUPLES_OK)", "if (resultStatus == PGRES_FATAL_ERROR)")
m("c39-rows", P, CL, "if (rowTotal != 1)", "if (rowTotal == 0)")
m("c39-cols", P, CL, "if (resultType == pgClientQueryResultColumn && columnTotal != 1)", "if (resultType == pgClientQueryResultColumn && columnTotal > 2)")
m("c39-noresult", P, CL, "if (resultType != pgClientQueryResultNone && resultType != pgClientQueryResultAny)", "if (resultType == pgClientQueryResultRow)")
m("c39-none", P, CL, "if (resultType == pgClientQueryResultNone)\n                    THROW_FMT(DbQueryError, \"no result expected from '%s'\", strZ(query));", "if (resultType == pgClientQueryResultNone && PQntuples(pgResult) > 0)\n                    THROW_FMT(DbQueryError, \"no result expected from '%s'\", strZ(query));")
m("c39-extra", P, CL, "            if (pgResultExtra != NULL)\n", "            if (pgResultExtra != NULL && result == NULL)\n")
m("c39-send", P, CL, "        if (!PQsendQuery(this->connection, strZ(query)))\n        {", "        if (!PQsendQuery(this->connection, strZ(query)) && PQstatus(this->connection) != CONNECTION_OK)\n        {")
m("c39-connect", P, CL, "        if (PQstatus(this->connection) != CONNECTION_OK)", "        if (PQstatus(this->connection) == CONNECTION_BAD && strSize(connInfo) > 0 && pgClientHost(this) != NULL)")
m("c39-null", P, CL, "if (value[0] == '\\0' && PQgetisnull(pgResult, rowIdx, columnIdx))", "if (value[0] == '\\0' && columnType[columnIdx] == 25)")
m("c39-nullrow", P, CL, "PQgetisnull(pgResult, rowIdx, columnIdx)", "PQgetisnull(pgResult, columnIdx, columnIdx)")
m("c39-row0", P, CL, "PQgetvalue(pgResult, rowIdx, columnIdx);", "PQgetvalue(pgResult, resultType == pgClientQueryResultAny ? rowIdx + 1 : 0, columnIdx);")
m("c39-rowskip", P, CL, "for (int rowIdx = 0; rowIdx < rowTotal; rowIdx++)", "for (int rowIdx = 0; rowIdx < rowTotal && rowIdx < 1024; rowIdx++)")
m("c39-int8", P, CL, "pckWriteI64P(pack, cvtZToInt64(value), .defaultWrite = true);", "pckWriteI64P(pack, cvtZToInt(value), .defaultWrite = true);")
m("c39-user", P, CL, "        if (pgClientUser(this) != NULL)\n", "        if (pgClientUser(this) != NULL && pgClientHost(this) != NULL)\n")
m("c39-hostuser", P, CL, "strCatFmt(connInfo, \" host=%s\", strZ(pgClientEscape(pgClientHost(this))));", "strCatFmt(connInfo, \" host=%s\", strZ(pgClientHost(this)));")
m("c39-order", P, DB, "            \" (select setting from pg_catalog.pg_settings where name = 'archive_mode')::text,\"\n                \" (select", "X") if 0 else None
m("c39-swap", P, DB, "            this->pub.archiveMode = pckReadStrP(read);\n            this->pub.archiveCommand = pckReadStrP(read);", "            this->pub.archiveCommand = pckReadStrP(read);\n            this->pub.archiveMode = pckReadStrP(read);")
m("c39-nulls4", P, DB, "columnIdx < 5;", "columnIdx < 4;")
m("c39-standby", P, DB, "this->pub.standby = dbIsInRecovery(this);", "if (this->remoteClient == NULL)\n            this->pub.standby = dbIsInRecovery(this);")
m("c39-path-late", P, DB, "        dbExec(this, STRDEF(\"set search_path = 'pg_catalog'\"));\n", "        if (this->remoteClient == NULL)\n            dbExec(this, STRDEF(\"set search_path = 'pg_catalog'\"));\n")
m("c39-stoporder", P, DB, "            result.lsn = pckReadStrP(read);\n            result.walSegmentName = pckReadStrP(read);\n            result.backupLabel", "            result.walSegmentName = pckReadStrP(read);\n            result.lsn = pckReadStrP(read);\n            result.backupLabel")
m("c39-stopsql", P, DB, "        \"       labelfile::text as backuplabel_file,\\n\"\n        \"       spcmapfile::text as tablespacemap_file\\n\"", "        \"       spcmapfile::text as tablespacemap_file,\\n\"\n        \"       labelfile::text as backuplabel_file\\n\"")
m("c39-second", P, HE, "                    if (result.primary != NULL)\n                        THROW", "                    if (result.primary != NULL && primaryRequired)\n                        THROW")
m("c39-primreq", P, HE, "        if (result.primary == NULL && primaryRequired)", "        if (result.primary == NULL && result.standby == NULL && primaryRequired)")
m("c39-stdreq", P, HE, "        if (result.standby == NULL && standbyRequired == CFGOPTVAL_BACKUP_STANDBY_Y)", "        if (result.standby == NULL && result.primary == NULL && standbyRequired == CFGOPTVAL_BACKUP_STANDBY_Y)")
m("c39-idx", P, HE, "                    result.primaryIdx = pgIdx;", "                    result.primaryIdx = cfgOptionGroupIdxDefault(cfgOptGrpPg);")
m("c39-port", P, HE, "cfgOptionIdxUInt(cfgOptPgPort, pgIdx)", "cfgOptionUInt(cfgOptPgPort)")
m("c39-local", P, HE, "        if (pgIsLocal(pgIdx))", "        if (pgIsLocal(0))")
m("c39-stop-first", P, HE, "                    result.primaryIdx = pgIdx;\n                    result.primary = db;", "                    result.primaryIdx = pgIdx;\n                    result.primary = db;\n\n                    if (!standbyRequired)\n                        break;")
m("c39-tl", P, DB, "        if (pgTimelineFromWalSegment(walSegmentName) != dbPgControl(this).timeline)", "        if (pgTimelineFromWalSegment(walSegmentName) < dbPgControl(this).timeline)")

# Refactorings
m("c39-r-status", "", CL, """            if (resultStatus == PGRES_COMMAND_OK)
            {
                if (resultType != pgClientQueryResultNone && resultType != pgClientQueryResultAny)
                    THROW_FMT""", """            const bool resultRequired = resultType == pgClientQueryResultRow || resultType == pgClientQueryResultColumn;

            if (resultStatus == PGRES_COMMAND_OK)
            {
                if (!(resultType == pgClientQueryResultNone || resultType == pgClientQueryResultAny))
                    THROW_FMT""", (CL, "                if (resultType != pgClientQueryResultAny)\n                {\n                    if (rowTotal != 1)", "                (void)resultRequired;\n\n                if (resultType != pgClientQueryResultAny)\n                {\n                    if (!(rowTotal == 1))"))
m("c39-r-connect", "", CL, """        if (PQstatus(this->connection) != CONNECTION_OK)
        {
            THROW_FMT(
                DbConnectError, "unable to connect to '%s': %s", strZ(connInfo),
                strZ(strTrim(strNewZ(PQerrorMessage(this->connection)))));
        }
""", """        const bool connected = PQstatus(this->connection) == CONNECTION_OK;

        if (!connected)
        {
            THROW_FMT(
                DbConnectError, "unable to connect to '%s': %s", strZ(connInfo),
                strZ(strTrim(strNewZ(PQerrorMessage(this->connection)))));
        }
""")
m("c39-r-send", "", CL, "        if (!PQsendQuery(this->connection, strZ(query)))\n        {", "        if (PQsendQuery(this->connection, strZ(query)) != 1)\n        {")
m("c39-r-get", "", HE, """                if (standby)
                {
                    // If a standby has not already been found then assign it
                    if (result.standby == NULL && !primaryOnly)
                    {
                        result.standbyIdx = pgIdx;
                        result.standby = db;
                    }
                    // Else close the connection since we don't need it
                    else
                        dbFree(db);
                }
                // Else is a primary
                else
                {
                    // Error if more than one primary was found
                    if (result.primary != NULL)
                        THROW(DbConnectError, "more than one primary cluster found");

                    result.primaryIdx = pgIdx;
                    result.primary = db;
                }
""", """                if (!standby)
                {
                    // Error if more than one primary was found
                    if (result.primary != NULL)
                        THROW(DbConnectError, "more than one primary cluster found");

                    result.primary = db;
                    result.primaryIdx = pgIdx;
                    continue;
                }

                // Close the connection if we don't need it
                if (primaryOnly || result.standby != NULL)
                    dbFree(db);
                else
                {
                    result.standby = db;
                    result.standbyIdx = pgIdx;
                }
""")
m("c39-r-required", "", HE, "        if (result.primary == NULL && primaryRequired)\n        {", "        if (primaryRequired && !(result.primary != NULL))\n        {")
m("c39-r-null", "", CL, """                        if (value[0] == '\\0' && PQgetisnull(pgResult, rowIdx, columnIdx))
                        {""", """                        if (PQgetisnull(pgResult, rowIdx, columnIdx))
                        {""")
m("c39-r-loop", "", CL, """                for (int columnIdx = 0; columnIdx < columnTotal; columnIdx++)
                    columnType[columnIdx] = PQftype(pgResult, columnIdx);
""", """                int columnIdx = 0;

                while (columnIdx != columnTotal)
                {
                    columnType[columnIdx] = PQftype(pgResult, columnIdx);
                    columnIdx++;
                }
""")
m("c39-r-settings", "", DB, "            this->pub.pgDataPath = pckReadStrP(read);\n            this->pub.archiveMode = pckReadStrP(read);", "            String *const dataPath = pckReadStrP(read);\n            this->pub.archiveMode = pckReadStrP(read);\n            this->pub.pgDataPath = dataPath;")
m("c39-r-helper", "", HE, "            if (db != NULL)\n            {\n                // Is", "            if (db == NULL)\n                continue;\n\n            {\n                // Is")
