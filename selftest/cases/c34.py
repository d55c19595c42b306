CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


HR, RD, GR, CB = "common/io/http/response.c", "common/io/read.c", "common/io/filter/group.c", "common/crypto/cipherBlock.c"
S3, AZ, GC, PX, SF = "storage/s3/storage.c", "storage/azure/storage.c", "storage/gcs/storage.c", "storage/posix/storage.c", "storage/sftp/storage.c"
m("c34-http-short", "C34", HR, "if (ioReadEof(rawRead))\n                            THROW(FileReadError, \"unexpected EOF reading HTTP content\");", "if (ioReadEof(rawRead) && !this->contentChunked)\n                            THROW(FileReadError, \"unexpected EOF reading HTTP content\");")
m("c34-http-eof", "C34", HR, "if (this->contentChunked && !this->contentEof)", "if (this->contentChunked && !this->contentEof && !bufFull(buffer))")
m("c34-http-ignore", "C34", HR, "IoRead *const rawRead = httpSessionIoReadP(this->session);\n\n                do", "IoRead *const rawRead = httpSessionIoReadP(\n                    this->session, .ignoreUnexpectedEof = httpResponseReadIgnoreUnexpectedEof(this));\n\n                do")
m("c34-tls", "C34", "common/io/tls/session.c", "if (errorTls == SSL_ERROR_ZERO_RETURN || this->ignoreUnexpectedEof)", "if (errorTls == SSL_ERROR_ZERO_RETURN || this->ignoreUnexpectedEof || closeOk)")
m("c34-read-eof", "C34", RD, "this->pub.eofAll = ioReadEofDriver(this) && ioFilterGroupDone(this->pub.filterGroup);", "this->pub.eofAll = ioReadEofDriver(this);")
m("c34-group-done", "C34", GR, "        if (!ioFilterDone(filterData->filter))\n            this->pub.done = false;", "        this->pub.done = ioFilterDone(filterData->filter);")
m("c34-gz-eof", "C34", "common/compress/gz/decompress.c", "    if (compressed == NULL)\n        THROW(FormatError, \"unexpected eof in compressed data\");", "    if (compressed == NULL)\n    {\n        this->done = true;\n        FUNCTION_LOG_RETURN_VOID();\n    }")
m("c34-lz4-frame", "C34", "common/compress/lz4/decompress.c", "        if (!this->frameDone)\n            THROW(FormatError, \"unexpected eof in compressed data\");\n", "")
m("c34-zst-frame", "C34", "common/compress/zst/decompress.c", "this->frameDone = zstError(ZSTD_decompressStream(this->context, &out, &in)) == 0;", "if (zstError(ZSTD_decompressStream(this->context, &out, &in)) == 0 || in.pos == in.size)\n            this->frameDone = true;")
m("c34-bz2-error", "C34", "common/compress/bz2/common.c", "if (error < 0)", "if (error < 0 && error != BZ_UNEXPECTED_EOF)")
m("c34-cipher-final", "C34", CB, "if (!EVP_CipherFinal(this->cipherContext, bufRemainsPtr(destination), &destinationSize))", "if (!EVP_CipherFinal(this->cipherContext, bufRemainsPtr(destination), &destinationSize) && this->mode == cipherModeEncrypt)")
m("c34-cipher-magic", "C34", CB, "if (!this->raw && memcmp(this->header, CIPHER_BLOCK_MAGIC, CIPHER_BLOCK_MAGIC_SIZE) != 0)", "if (!this->raw && this->headerSize > 0 && memcmp(this->header, CIPHER_BLOCK_MAGIC, CIPHER_BLOCK_MAGIC_SIZE) != 0)")
m("c34-posix-read", "C34", "storage/posix/read.c", "if (actualBytes == -1)", "if (actualBytes == -1 && errno == EAGAIN)\n            actualBytes = 0;\n\n        if (actualBytes == -1)")
m("c34-posix-limit", "C34", "storage/posix/read.c", "if ((size_t)actualBytes != expectedBytes || this->current == limit)", "if ((size_t)actualBytes != expectedBytes || this->limit != NULL)")
m("c34-sftp-read", "C34", "storage/sftp/read.c", "        if (rc < 0)\n", "        if (rc < 0 && actualBytes == 0)\n")
m("c34-retry-offset", "C34", "storage/read.c", ".offset = this->pub.offset + this->bytesRead,", ".offset = this->pub.offset + result,")
m("c34-retry-limit", "C34", "storage/read.c", "varNewUInt64(varUInt64(this->pub.limit) - this->bytesRead) : NULL", "varNewUInt64(varUInt64(this->pub.limit)) : NULL")
m("c34-retry-used", "C34", "storage/read.c", "                    bufUsedSet(buffer, bufUsedBegin);\n", "")
m("c34-s3-last", "C34", S3, "        if (infoLast.exists)\n            callback(callbackData, &infoLast);", "        if (infoLast.exists && targetTime != 0)\n            callback(callbackData, &infoLast);")
m("c34-s3-token", "C34", S3, "httpQueryPut(query, S3_QUERY_CONTINUATION_TOKEN_STR, nextContinuationToken);", "if (targetTime == 0)\n                        httpQueryPut(query, S3_QUERY_CONTINUATION_TOKEN_STR, nextContinuationToken);")
m("c34-s3-more", "C34", S3, "if (strEq(xmlNodeContent(xmlNodeChild(xmlRoot, S3_XML_TAG_IS_TRUNCATED_STR, true)), TRUE_STR))", "if (strEq(xmlNodeContent(xmlNodeChild(xmlRoot, S3_XML_TAG_IS_TRUNCATED_STR, true)), TRUE_STR) && level > storageInfoLevelExists)")
m("c34-az-first", "C34", AZ, "for (unsigned int fileIdx = 0; fileIdx", "for (unsigned int fileIdx = blobPrefixList != NULL && recurse ? 1 : 0; fileIdx")
m("c34-az-pending", "C34", AZ, "                    if (infoLast.exists && !strEq(name, nameLast))\n                    {\n                        callback", "                    if (infoLast.exists && targetTime != 0 && !strEq(name, nameLast))\n                    {\n                        callback")
m("c34-gcs-code", "C34", GC, "if (!httpResponseCodeOk(result) && (!param.allowMissing ||", "if (!httpResponseCodeOk(result) && httpResponseCode(result) != 410 && (!param.allowMissing ||")
m("c34-gcs-prefix", "C34", GC, "                        // Callback with info\n                        callback(callbackData, &info);", "                        // Callback with info\n                        if (expression == NULL)\n                            callback(callbackData, &info);")
m("c34-posix-skip", "C34", PX, "if (!strEqZ(DOT_STR, dirEntry->d_name) && !strEqZ(DOTDOT_STR, dirEntry->d_name))", "if (dirEntry->d_name[0] != '.')")
m("c34-remote-close", "C34", "storage/remote/protocol.c", "if (ioReadEof(read))\n    {", "if (ioReadEof(read) || bufUsed(buffer) < bufSize(buffer))\n    {")
m("c34-stream-eof", "C34", "storage/remote/read.c", "        this->eofFound = true;\n\n        if (this->remaining == 0)\n            this->eof = true;", "        this->eofFound = true;\n        this->eof = true;")
m("c34-multi-eof", "C34", "storage/readMulti.c", "if (lstEmpty(this->queue) && !prelim)", "if (lstEmpty(this->queue) || lstEmpty(this->requestList))")
m("c34-sftp-list", "C34", SF, "if (len < 0 && len != LIBSSH2_ERROR_EAGAIN)", "if (len < 0 && storageLstSize(result) == 0 && len != LIBSSH2_ERROR_EAGAIN)")
m("c34-posix-list", "C34", PX, "                if (errno != 0)\n", "                if (errno != 0 && errno != EIO)\n")
m("c34-r-http", None, HR, "actualBytes = bufRemains(buffer);\n                        this->contentRemaining -= ioRead(rawRead, buffer);", "actualBytes = bufRemains(buffer);\n\n                        const size_t readBytes = ioRead(rawRead, buffer);\n                        this->contentRemaining -= readBytes;")
m("c34-r-eof", None, RD, "this->pub.eofAll = ioReadEofDriver(this) && ioFilterGroupDone(this->pub.filterGroup);", "if (!ioReadEofDriver(this))\n            this->pub.eofAll = false;\n        else\n            this->pub.eofAll = ioFilterGroupDone(this->pub.filterGroup);")
m("c34-r-gz", None, "common/compress/gz/decompress.c", "this->result = gzError(inflate(&this->stream, Z_NO_FLUSH));", "const int inflateResult = inflate(&this->stream, Z_NO_FLUSH);\n    this->result = gzError(inflateResult);")
m("c34-r-gz2", None, "common/compress/gz/decompress.c", "this->done = this->result == Z_STREAM_END;", "if (this->result == Z_STREAM_END)\n        this->done = true;")
m("c34-r-while", None, PX, "                    // Always skip . and ..\n                    if (!strEqZ(DOT_STR, dirEntry->d_name) && !strEqZ(DOTDOT_STR, dirEntry->d_name))", "                    const bool dot = strEqZ(DOT_STR, dirEntry->d_name) || strEqZ(DOTDOT_STR, dirEntry->d_name);\n\n                    if (!dot)")
m("c34-r-posix", None, "storage/posix/read.c", "if ((size_t)actualBytes != expectedBytes || this->current == limit)\n            this->eof = true;", "const bool readShort = (size_t)actualBytes != expectedBytes;\n\n        if (readShort)\n            this->eof = true;\n        else if (this->current == limit)\n            this->eof = true;")
m("c34-r-s3", None, S3, "        if (infoLast.exists)\n            callback(callbackData, &infoLast);", "        const bool lastPending = infoLast.exists;\n\n        if (lastPending)\n            callback(callbackData, &infoLast);")
m("c34-r-az", None, AZ, "if (!strEq(continuationMarker, EMPTY_STR))", "if (!strEmpty(continuationMarker))")
m("c34-r-group", None, GR, "        if (!ioFilterDone(filterData->filter))\n            this->pub.done = false;", "        const bool filterDone = ioFilterDone(filterData->filter);\n\n        if (!filterDone)\n            this->pub.done = false;")
m("c34-r-remote", None, "storage/remote/protocol.c", "    if (!storageRemoteReadInternal(storageReadIo(fileRead), protocolServerResultData(result)))\n        protocolServerResultCloseSet(result);", "    const bool more = storageRemoteReadInternal(storageReadIo(fileRead), protocolServerResultData(result));\n\n    if (!more)\n        protocolServerResultCloseSet(result);")
m("c34-r-multi", None, "storage/readMulti.c", "    if (lstEmpty(this->queue) && !prelim)\n        this->eof = true;", "    if (!prelim)\n    {\n        if (lstEmpty(this->queue))\n            this->eof = true;\n    }")
