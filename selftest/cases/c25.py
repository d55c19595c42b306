def m(id, prop, f, a, b, *more):
    return dict(id=id, expect=[prop] if prop else [], edits=[(f, a, b)] + list(more))


P = "protocol/parallel.c"
J = "protocol/parallelJob.c"
C = "protocol/client.c"
S = "protocol/server.c"
H = "protocol/helper.c"
CASES = [
    m("c25-noerr", "C25", P, "                                protocolParallelJobErrorSet(job, errorCode(), STR(errorMessage()));\n", "                                LOG_DEBUG(errorMessage());\n"),
    m("c25-code", "C25", J, "        this->pub.code = code;\n", "        this->pub.code = message == NULL ? code : 0;\n"),
    m("c25-done", "C25", P, "    if (this->state != protocolParallelJobStateDone && lstEmpty(this->jobList))", "    if (this->state != protocolParallelJobStateDone && lstSize(this->jobList) <= 1)"),
    m("c25-res", "C25", P, "        if (protocolParallelJobState(job) == protocolParallelJobStateDone)", "        if (protocolParallelJobState(job) != protocolParallelJobStatePending)"),
    m("c25-idx", "C25", P, "            lstRemoveIdx(this->jobList, jobIdx);", "            lstRemoveIdx(this->jobList, 0);"),
    m("c25-push", "C25", "command/archive/push/push.c", """                                archiveAsyncStatusErrorWrite(
                                    archiveModePush, walFile, protocolParallelJobErrorCode(job),
                                    protocolParallelJobErrorMessage(job));
""", """                                if (errorTypeFromCode(protocolParallelJobErrorCode(job)) != &FileMissingError)
                                {
                                    archiveAsyncStatusErrorWrite(
                                        archiveModePush, walFile, protocolParallelJobErrorCode(job),
                                        protocolParallelJobErrorMessage(job));
                                }
"""),
    m("c25-restore", "C25", "command/restore/process.c.inc", "        THROW_CODE(protocolParallelJobErrorCode(job), strZ(protocolParallelJobErrorMessage(job)));", """    {
        if (errorTypeFromCode(protocolParallelJobErrorCode(job)) == &FileMissingError)
            LOG_WARN(strZ(protocolParallelJobErrorMessage(job)));
        else
            THROW_CODE(protocolParallelJobErrorCode(job), strZ(protocolParallelJobErrorMessage(job)));
    }"""),
    m("c25-fetch", "C25", "command/restore/restore.c", "for (unsigned int jobIdx = 0; jobIdx < completed; jobIdx++)", "for (unsigned int jobIdx = 1; jobIdx < completed; jobIdx++)"),
    m("c25-fetch2", "C25", "command/backup/process.c.inc", "for (unsigned int jobIdx = 0; jobIdx < completed; jobIdx++)", "for (unsigned int jobIdx = 0; jobIdx < completed - 1; jobIdx++)"),
    m("c25-end", "C25", "command/verify/verify.c", "                    while (!protocolParallelDone(parallelExec));", "                    while (!protocolParallelDone(parallelExec) && jobData.jobErrorTotal < 100);"),
    m("c25-slot", "C25", P, "            if (this->clientJobList[clientIdx].job == NULL && *clientRef != NULL)", "            if ((this->clientJobList[clientIdx].job == NULL || result == 0) && *clientRef != NULL)"),
    m("c25-add", "C25", P, "                        lstAdd(this->jobList, &job);\n", "                        if (clientIdx < lstSize(this->clientList) - 1 || lstEmpty(this->jobList))\n                            lstAdd(this->jobList, &job);\n"),
    m("c25-r1", "", P, """    if (this->state != protocolParallelJobStateDone && lstEmpty(this->jobList))
        this->state = protocolParallelJobStateDone;
""", """    if (lstSize(this->jobList) == 0)
        this->state = protocolParallelJobStateDone;
"""),
    m("c25-r2", "", "command/archive/push/push.c", "for (unsigned int jobIdx = 0; jobIdx < completed; jobIdx++)", "for (unsigned int remaining = completed; remaining > 0; remaining--)"),
    m("c25-r3", "", "command/archive/push/push.c", "const unsigned int completed = protocolParallelProcess(parallelExec);", "unsigned int completed = protocolParallelProcess(parallelExec);",
      ("command/archive/push/push.c", "for (unsigned int jobIdx = 0; jobIdx < completed; jobIdx++)", "while (completed-- > 0)")),
    m("c25-r4", "", "command/restore/process.c.inc", "    if (protocolParallelJobErrorCode(job) == 0)\n", "    // Errors\n    if (protocolParallelJobErrorCode(job) != 0)\n        THROW_CODE(protocolParallelJobErrorCode(job), strZ(protocolParallelJobErrorMessage(job)));\n    else\n",
      ("command/restore/process.c.inc", """    // Else the job errored
    else
        THROW_CODE(protocolParallelJobErrorCode(job), strZ(protocolParallelJobErrorMessage(job)));
""", "")),
    m("c25-r5", "", P, """                        this->clientJobList[clientIdx].job = job;
                        this->clientJobList[clientIdx].session = session;
""", """                        this->clientJobList[clientIdx] = (ProtocolParallelJobData){.job = job, .session = session};
"""),
    m("c25-r6", "", P, """    ProtocolParallelJob *result = NULL;

    // Find the next completed job
    for (unsigned int jobIdx = 0; jobIdx < lstSize(this->jobList); jobIdx++)
    {
        ProtocolParallelJob *job = *(ProtocolParallelJob **)lstGet(this->jobList, jobIdx);

        if (protocolParallelJobState(job) == protocolParallelJobStateDone)
        {
            result = protocolParallelJobMove(job, memContextCurrent());
            lstRemoveIdx(this->jobList, jobIdx);
            break;
        }
    }
""", """    ProtocolParallelJob *result = NULL;
    unsigned int jobIdx = 0;

    while (result == NULL && jobIdx < lstSize(this->jobList))
    {
        ProtocolParallelJob *job = *(ProtocolParallelJob **)lstGet(this->jobList, jobIdx);

        if (protocolParallelJobState(job) == protocolParallelJobStateDone)
        {
            result = protocolParallelJobMove(job, memContextCurrent());
            lstRemoveIdx(this->jobList, jobIdx);
        }
        else
            jobIdx++;
    }
"""),

    m("c26-version", "C26", C, "if (!strEqZ(actualValue, expected[expectedIdx].value))", "if (!strBeginsWithZ(actualValue, expected[expectedIdx].value))"),
    m("c26-version2", "C26", C, "if (!strEqZ(actualValue, expected[expectedIdx].value))", "if (!strEqZ(actualValue, expected[expectedIdx].value) && expected[expectedIdx].key != PROTOCOL_GREETING_VERSION)"),
    m("c26-length", "C26", C, "expectedIdx < LENGTH_OF(expected); expectedIdx++", "expectedIdx < LENGTH_OF(expected) - 1; expectedIdx++"),
    m("c26-type", "C26", C, '        CHECK(FormatError, type == protocolMessageTypeResponse, "expected response message");', '        CHECK(FormatError, type != protocolMessageTypeRequest, "expected response message");',
      (C, "        protocolClientError(this->client, type, packRead);\n", "        if (!close)\n            protocolClientError(this->client, type, packRead);\n")),
    m("c26-session", "C26", C, "            if (sessionId != 0 && sessionId != this->sessionId)", "            if (sessionId != 0 && sessionId != this->sessionId && lstSize(this->client->sessionList) > 1)"),
    m("c26-overwrite", "C26", C, """                CHECK_FMT(
                    ProtocolError, !sessionOther->stored, "protocol client session %" PRIu64 " already has a stored response",
                    sessionOther->sessionId);
""", ""),
    m("c26-storetype", "C26", C, "                sessionOther->type = type;\n", ""),
    m("c26-code", "C26", C, "const ErrorType *const type = errorTypeFromCode(pckReadI32P(error));", "pckReadI32P(error);\n            const ErrorType *const type = &ProtocolError;"),
    m("c26-ersend", "C26", S, "protocolServerResponseP(this, .type = protocolMessageTypeError, .data = packWrite);", "protocolServerResponseP(this, .type = code == 0 ? protocolMessageTypeError : protocolMessageTypeResponse, .data = packWrite);"),
    m("c26-sid", "C26", S, "                                            if (session->id == this->sessionId)", "                                            if (session->id >= this->sessionId)"),
    m("c26-noresp", "C26", S, """                                                if (processResult == NULL)
                                                    protocolServerResponseP(this);
                                                else
""", """                                                if (processResult != NULL)
"""),
    m("c26-nofail", "C26", S, """                                    protocolServerError(
                                        this, errorTypeCode(errRetryType(errRetry)), errRetryMessage(errRetry), errStackTrace);
""", """                                    if (retryInterval != NULL)
                                        protocolServerError(
                                            this, errorTypeCode(errRetryType(errRetry)), errRetryMessage(errRetry), errStackTrace);
                                    else
                                        protocolServerResponseP(this);
"""),
    m("c26-reuse", "C26", H, "match->type == type && match->storageType == storageType && match->hostIdx == hostIdx && match->processId == processId", "match->type == type && match->hostIdx == hostIdx && match->processId == processId"),
    m("c26-host", "C26", "storage/helper.c", "protocolRemoteGet(protocolStorageTypePg, pgIdx, true), cfgOptionUInt", "protocolRemoteGet(protocolStorageTypePg, write ? pgIdx : 0, true), cfgOptionUInt"),
    m("c26-idle", "C26", C, """    // Expect idle state before request
    protocolClientStateExpectIdle(this->client);
""", ""),
    m("c26-r1", "", H, "match->type == type && match->storageType == storageType && match->hostIdx == hostIdx && match->processId == processId", "match->processId == processId && match->hostIdx == hostIdx && match->type == type && match->storageType == storageType"),
    m("c26-r2", "", C, """            if (sessionId != 0 && sessionId != this->sessionId)
            {
""", """            const bool other = !(sessionId == 0 || this->sessionId == sessionId);

            if (other)
            {
"""),
    m("c26-r3", "", C, """    if (type == protocolMessageTypeError)
    {
        ASSERT(error != NULL);

        MEM_CONTEXT_TEMP_BEGIN()
""", """    if (type != protocolMessageTypeError)
        FUNCTION_LOG_RETURN_VOID();

    {
        MEM_CONTEXT_TEMP_BEGIN()
"""),
    m("c26-r4", "", C, """                if (!strEqZ(actualValue, expected[expectedIdx].value))
                {""", """                const bool match = strEqZ(actualValue, expected[expectedIdx].value);

                if (match == false)
                {"""),
    m("c26-r5", "", "storage/helper.c", """    // Use remote storage
    if (!pgIsLocal(pgIdx))
    {""", """    // Use remote storage
    const bool local = pgIsLocal(pgIdx);

    if (!local)
    {"""),
]
