CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


m("c29-exec", "C29", "config/exec.c", "|| cfgParseOptionSecure(optionId) ||", "|| (local && cfgParseOptionSecure(optionId)) ||")
m("c29-begin", "C29", "command/command.c", "if (cfgParseOptionSecure(optionId))", "if (cfgParseOptionSecure(optionId) && cfgParseOptionType(optionId) != cfgOptTypeHash)")
m("c29-begin-source", "C29", "command/command.c", "if (cfgParseOptionSecure(optionId))", "if (cfgParseOptionSecure(optionId) && cfgOptionIdxSource(optionId, optionIdx) == cfgSourceConfig)")
m("c29-help-sum", "C29", "command/help/help.c", 'strCatFmt(summary, "current=%s", cfgParseOptionSecure(optionId) ? "<redacted>" : strZ(value));', 'strCatFmt(summary, "current=%s", cfgParseOptionSecure(optionId) && !cfgParseOptionGroup(optionId) ? "<redacted>" : strZ(value));')
m("c29-help-multi", "C29", "command/help/help.c", "if (cfgParseOptionSecure(option.id))", "if (cfgParseOptionSecure(option.id) && !strEqZ(value, \"<multi>\"))")
m("c29-arg", "C29", "config/parse.c", "if (cfgParseOptionSecure(option.id))", "if (cfgParseOptionSecure(option.id) && !option.reset)")
m("c29-azure-sig", "C29", "storage/azure/storage.c", "strLstAdd(this->queryRedactList, AZURE_QUERY_SIG_STR);", "")
m("c29-azure-auth", "C29", "storage/azure/storage.c", "        strLstAdd(this->headerRedactList, HTTP_HEADER_AUTHORIZATION_STR);\n", "")
m("c29-azure-part", "C29", "storage/azure/storage.c", "HttpHeader *const partHeader = httpHeaderNew(this->headerRedactList);", "HttpHeader *const partHeader = httpHeaderNew(NULL);")
m("c29-azure-query", "C29", "storage/azure/storage.c", "httpQueryDupP(param.query, .redactList = this->queryRedactList)", "httpQueryDupP(param.query)")
m("c29-gcs-auth", "C29", "storage/gcs/storage.c", "strLstAdd(this->headerRedactList, HTTP_HEADER_AUTHORIZATION_STR);", "")
m("c29-gcs-dup", "C29", "storage/gcs/storage.c", "httpHeaderDup(param.header, this->headerRedactList)", "httpHeaderDup(param.header, NULL)")
m("c29-s3-token", "C29", "storage/s3/storage.c", "strLstAdd(this->headerRedactList, S3_HEADER_TOKEN_STR);", "")
m("c29-dup-list", "C29", "common/io/http/header.c", ".redactList = redactList == NULL ? strLstDup(header->redactList) : strLstDup(redactList),", ".redactList = redactList == NULL ? NULL : strLstDup(redactList),")
m("c29-qdup-list", "C29", "common/io/http/query.c", ".redactList = param.redactList != NULL ? strLstDup(param.redactList) : strLstDup(query->redactList),", ".redactList = strLstDup(param.redactList),")
m("c29-error-render", "C29", "common/io/http/request.c", "httpQueryRenderP(httpRequestQuery(this), .redact = true)", "httpQueryRenderP(httpRequestQuery(this))")
m("c29-error-header", "C29", "common/io/http/request.c", 'httpHeaderRedact(httpRequestHeader(this), key) ? "<redacted>" :', 'httpHeaderRedact(httpResponseHeader(response), key) ? "<redacted>" :')
m("c29-render", "C29", "common/io/http/query.c", "param.redact && httpQueryRedact(this, key) ?", "param.redact && keyIdx > 0 && httpQueryRedact(this, key) ?")
m("c29-log-pass", "C29", "common/crypto/cipherBlock.c", 'THROW(CryptoError, "cipher header missing");', 'THROW_FMT(CryptoError, "cipher header missing for %s", strZ(strNewBuf(this->pass)));')
m("c29-log-s3", "C29", "storage/s3/storage.c", "FUNCTION_TEST_PARAM(STRING, secretAccessKey);", "FUNCTION_LOG_PARAM(STRING, secretAccessKey);")
# the same in other words
m("c29-r-begin", None, "command/command.c", "if (cfgParseOptionSecure(optionId))", "const bool secret = cfgParseOptionSecure(optionId);\n\n                            if (secret)")
m("c29-r-exec", None, "config/exec.c", "            if (!cfgParseOptionValid(commandId, commandRoleId, optionId) || cfgParseOptionSecure(optionId) ||\n", "            if (cfgParseOptionSecure(optionId))\n                continue;\n\n            if (!cfgParseOptionValid(commandId, commandRoleId, optionId) ||\n")
m("c29-r-help", None, "command/help/help.c", 'strCatFmt(summary, "current=%s", cfgParseOptionSecure(optionId) ? "<redacted>" : strZ(value));', '{\n if (cfgParseOptionSecure(optionId))\n strCatZ(summary, "current=<redacted>");\n else\n strCatFmt(summary, "current=%s", strZ(value));\n}')
m("c29-r-render", None, "common/io/http/query.c", "param.redact && httpQueryRedact(this, key) ?\n", "httpQueryRedact(this, key) && param.redact ?\n")
