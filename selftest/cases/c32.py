CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


EX, EXP, ANN, EXIT = "common/exec.c", "command/expire/expire.c", "command/annotate/annotate.c", "command/exit.c"
EVAL = "        if (errorTotal > 0)\n            THROW_FMT(CommandError, CFGCMD_EXPIRE"
m("c32-expire-multi", "C32", EXP, EVAL, EVAL.replace("errorTotal > 0", "errorTotal > 1"))
m("c32-expire-all", "C32", EXP, EVAL, EVAL.replace("errorTotal > 0", "errorTotal > repoIdxMax - repoIdxMin"))
m("c32-annotate-some", "C32", ANN, "        if (errorTotal > 0)\n", "        if (errorTotal > 0 && backupTotalProcessed == 0)\n")
m("c32-exit-code", "C32", EXIT, "        result = errorCode();\n", "        if (result == 0)\n            result = errorCode();\n")
m("c32-exit-assert", "C32", EXIT, "            LOG_INTERNAL(logLevel, LOG_LEVEL_MIN, logLevelDetail, 0, errorCode(), errorMessage());\n\n        result = errorCode();\n",
  "        {\n            LOG_INTERNAL(logLevel, LOG_LEVEL_MIN, logLevelDetail, 0, errorCode(), errorMessage());\n            result = errorCode();\n        }\n")
m("c32-signal", "C32", EXIT, "exit(errorTypeCode(&TermError));", "exit(0);")
m("c32-main-result", "C32", "main.c", "        result = exitSafe(result, true);", "        const int code = exitSafe(result, true);\n\n        if (cfgCommand() != cfgCmdHelp)\n            result = code;")
m("c32-main-get", "C32", "main.c", "result = cmdArchiveGet();", "cmdArchiveGet();")
m("c32-main-any", "C32", "main.c", "    CATCH_FATAL()\n", "    CATCH_ANY()\n")
m("c32-exec-status", "C32", EX, "            if (WEXITSTATUS(processStatus) != 0)\n", "            if (WEXITSTATUS(processStatus) != 0 && strEmpty(output))\n")
m("c32-exec-signal", "C32", EX, "        else\n            execCheckSignalError(exec, processStatus);\n", "        else if (WTERMSIG(processStatus) != 15)\n            execCheckSignalError(exec, processStatus);\n")
m("c32-exec-check-signal", "C32", EX, "        // If the process did not exit normally then it must have been a signal\n        execCheckSignalError(this, processStatus);\n",
  "        if (WTERMSIG(processStatus) != 15)\n            execCheckSignalError(this, processStatus);\n")
m("c32-exec-write", "C32", EX, "        ioWriteFlush(this->ioWriteFd);\n    }\n    CATCH_ANY()\n    {\n        execCheck(this);\n        RETHROW();\n",
  "        ioWriteFlush(this->ioWriteFd);\n    }\n    CATCH_ANY()\n    {\n        execCheck(this);\n")
m("c32-exec-eof", "C32", EX, "    if (ioReadInterface(this->ioReadFd)->eof(ioReadDriver(this->ioReadFd)))\n        execCheck(this);\n", "    (void)execCheck;\n")
m("c32-exec-fail", "C32", EX, "        exit(errorTypeCode(&ExecuteError));\n", "        exit(0);\n")
m("c32-close-quiet", "C32", "protocol/helper.c", "        execFree(protocolHelperClient->exec);\n    }\n    CATCH_ANY()\n    {\n        LOG_WARN(errorMessage());\n",
  "        execFree(protocolHelperClient->exec);\n    }\n    CATCH_ANY()\n    {\n        protocolHelperClient->exec = NULL;\n" if False else
  "        execFree(protocolHelperClient->exec);\n    }\n    CATCH_ANY()\n    {\n        (void)protocolHelperClient;\n")
m("c32-map-quiet", "C32", "command/backup/file.c.inc", "                THROWP_FMT(\n                    errorType(), \"unable to read block map", "                if (file->blockIncrMapPriorOffset != 0)\n                THROWP_FMT(\n                    errorType(), \"unable to read block map")
m("c32-chmod", "C32", "command/restore/clean.c.inc", "        THROW_ON_SYS_ERROR_FMT(\n            chmod(strZ(pgPath), manifestMode) == -1, FileModeError, \"unable to set mode for '%s'\", strZ(pgPath));\n",
  "        if (chmod(strZ(pgPath), manifestMode) == -1)\n            LOG_WARN_FMT(\"unable to set mode for '%s'\", strZ(pgPath));\n")
m("c32-fork", "C32", "common/fork.c", "    THROW_ON_SYS_ERROR(result == -1, KernelError, \"unable to fork\");\n", "    if (result == -1)\n        LOG_WARN(\"unable to fork\");\n")
# Same behaviour, written differently
m("c32-r-expire-bool", None, EXP, EVAL, EVAL.replace("if (errorTotal > 0)", "if (!(errorTotal == 0))"))
m("c32-r-expire-helper", None, EXP, EVAL, "        expireErrorCheck(errorTotal);\n        if (errorTotal != 0)\n            THROW_FMT(CommandError, CFGCMD_EXPIRE",
  (EXP, "FN_EXTERN void\ncmdExpire(void)", "static void\nexpireErrorCheck(const unsigned int errorTotal)\n{\n    if (errorTotal > 0)\n        THROW_FMT(CommandError, CFGCMD_EXPIRE \" command encountered %u error(s), check the log file for details\", errorTotal);\n}\n\nFN_EXTERN void\ncmdExpire(void)"))
m("c32-r-annotate-flag", None, ANN, "        if (errorTotal > 0)\n", "        const bool failed = errorTotal > 0;\n\n        if (failed)\n")
m("c32-r-exit", None, EXIT, "        result = errorCode();\n", "        const int code = errorCode();\n        result = code;\n")
m("c32-r-main", None, "main.c", "    FUNCTION_LOG_RETURN(INT, error ? result : exitSafe(result, false));", "    if (!error)\n        result = exitSafe(result, false);\n\n    FUNCTION_LOG_RETURN(INT, result);")
m("c32-r-exec", None, EX, "        if (WIFEXITED(processStatus))\n        {\n            if (WEXITSTATUS(processStatus) != 0)\n                execCheckStatusError(exec, processStatus, strTrim(output));\n        }\n        // Else if the process did not exit normally then it must have been a signal\n        else\n            execCheckSignalError(exec, processStatus);\n",
  "        if (!WIFEXITED(processStatus))\n            execCheckSignalError(exec, processStatus);\n\n        const int status = WEXITSTATUS(processStatus);\n\n        if (status != 0)\n            execCheckStatusError(exec, processStatus, strTrim(output));\n")
m("c32-r-warn-helper", None, "protocol/helper.c", "        execFree(protocolHelperClient->exec);\n    }\n    CATCH_ANY()\n    {\n        LOG_WARN(errorMessage());\n",
  "        execFree(protocolHelperClient->exec);\n    }\n    CATCH_ANY()\n    {\n        protocolHelperWarn();\n",
  ("protocol/helper.c", "static void\nprotocolHelperClientFree(", "static void\nprotocolHelperWarn(void)\n{\n    LOG_WARN(errorMessage());\n}\n\nstatic void\nprotocolHelperClientFree("))
m("c32-r-fork", None, "common/fork.c", "    THROW_ON_SYS_ERROR(result == -1, KernelError, \"unable to fork\");\n", "    if (result < 0)\n        THROW_SYS_ERROR(KernelError, \"unable to fork\");\n")
