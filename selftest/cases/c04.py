F = "command/archive/push/file.c"
P = "command/archive/push/push.c"
CASES = [
    dict(id="c04-noerr", expect=["C04"], edits=[(F, "if (strLstSize(errorList) > 0)", "if (strLstSize(errorList) > 1)")]),
    dict(id="c04-noerr2", expect=["C04"], edits=[(F, "if (strLstSize(errorList) > 0)", "if (strLstSize(errorList) > 0 && !destinationCopyAny)")]),
    dict(id="c04-prior", expect=["C04"], edits=[(F, "strLstDup(priorErrorList)", "strLstNew()")]),
    dict(id="c04-catch", expect=["C04"], edits=[(F, "        archivePushErrorAdd(errorList, repoIdx);\n        result = false;", "        if (type != archivePushFileIoTypeClose) archivePushErrorAdd(errorList, repoIdx);\n        result = false;")]),
    dict(id="c04-okerr", expect=["C04"], edits=[(P, "if (protocolParallelJobErrorCode(job) == 0)", "if (protocolParallelJobErrorCode(job) == 0 || errorTypeFromCode(protocolParallelJobErrorCode(job)) == &ArchiveDuplicateError)")]),
    dict(id="c04-drop", expect=["C04"], edits=[(P, "queueSize > queueMax", "queueSize >= queueMax")]),
    dict(id="c04-r1", expect=[], edits=[(F, "if (strLstSize(errorList) > 0)", "if (!strLstEmpty(errorList))")]),
    dict(id="c04-r2", expect=[], edits=[(P, "if (protocolParallelJobErrorCode(job) == 0)", "const int ec = protocolParallelJobErrorCode(job);\nconst bool success = ec == 0;\nif (success)")]),
    dict(id="c04-r3", expect=[], edits=[(P, "    FUNCTION_LOG_RETURN(BOOL, queueSize > queueMax);", "    const bool r = queueMax < queueSize; FUNCTION_LOG_RETURN(BOOL, r ? true : false);")]),
]
CASES += [
    dict(id="c05-ver", expect=["C05"], edits=[(F, "walInfo.version != pgVersion || walInfo.systemId != pgSystemId", "walInfo.version != pgVersion && walInfo.systemId != pgSystemId")]),
    dict(id="c05-ver2", expect=["C05"], edits=[(P, "result.pgVersion != archiveInfo.version || result.pgSystemId != archiveInfo.systemId", "result.pgVersion != archiveInfo.version && result.pgSystemId != archiveInfo.systemId")]),
    dict(id="c05-repo0", expect=["C05"], edits=[(P, "if (pgPathSet || repoIdx > 0)", "if (repoIdx > 0)")]),
    dict(id="c05-dup", expect=["C05"], edits=[(F, "                    else\n                    {\n                        THROW_FMT(", "                    else if (!modeCheck || repoListIdx > 0)\n                    {\n                        THROW_FMT(")]),
    dict(id="c05-r1", expect=[], edits=[(F, "if (walInfo.version != pgVersion || walInfo.systemId != pgSystemId)", "const bool match = walInfo.systemId == pgSystemId && pgVersion == walInfo.version; if (!match)")]),
]
