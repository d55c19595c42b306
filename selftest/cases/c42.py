W = "common/io/write.c"
R = "common/io/read.c"
G = "common/io/filter/group.c"
L = "common/io/limitRead.c"
B = "common/io/filter/buffer.c"
M = "storage/readMulti.c"


def m(id, file, old, new, *more, prop="C42"):
    edits = [(file, old, new)] + [more[i:i + 3] for i in range(0, len(more), 3)]
    return dict(id="c42-" + id, expect=[prop] if prop else [], edits=edits)


CASES = [
    # Write
    m("w-nozero", W, "this->position += bufUsed(this->output);\n                bufUsedZero(this->output);", "this->position += bufUsed(this->output);"),
    m("w-posafter", W, "this->position += bufUsed(this->output);\n                bufUsedZero(this->output);", "bufUsedZero(this->output);\n                this->position += bufUsed(this->output);"),
    m("w-nopos", W, "                this->position += bufUsed(this->output);\n", ""),
    m("w-once", W, "        while (ioFilterGroupInputSame(this->pub.filterGroup));", "        while (false);"),
    m("w-small", W, "    if (buffer != NULL && !bufEmpty(buffer))", "    if (buffer != NULL && bufUsed(buffer) > 1)"),
    m("w-always", W, "            if (bufRemains(this->output) == 0)\n            {\n                ioWriteInterface(this)->write(ioWriteDriver(this), this->output);\n                this->position", "            if (bufRemains(this->output) == 1)\n            {\n                ioWriteInterface(this)->write(ioWriteDriver(this), this->output);\n                this->position"),
    m("f-nozero", W, "    if (!bufEmpty(this->output))\n    {\n        ioWriteInterface(this)->write(ioWriteDriver(this), this->output);\n        bufUsedZero(this->output);", "    if (!bufEmpty(this->output))\n    {\n        ioWriteInterface(this)->write(ioWriteDriver(this), this->output);"),
    m("s-noflush", W, "        ioWriteFlush(this);\n        ioWriteInterface(this)->seek", "        ioWriteInterface(this)->seek"),
    m("s-flushafter", W, "        ioWriteFlush(this);\n        ioWriteInterface(this)->seek(ioWriteDriver(this), position);", "        ioWriteInterface(this)->seek(ioWriteDriver(this), position);\n        ioWriteFlush(this);"),
    m("s-less", W, "    if (position != this->position)", "    if (position > this->position)"),
    m("s-nopos", W, "        this->position = position;\n", ""),
    m("c-empty", W, "(ioFilterGroupDone(this->pub.filterGroup) && !bufEmpty(this->output))", "(ioFilterGroupDone(this->pub.filterGroup) && bufUsed(this->output) > 1)"),
    m("c-nolast", W, "bufRemains(this->output) == 0 || (ioFilterGroupDone(this->pub.filterGroup) && !bufEmpty(this->output))", "bufRemains(this->output) == 0"),
    m("c-once", W, "    while (!ioFilterGroupDone(this->pub.filterGroup));", "    while (false);"),
    m("c-same", W, "    while (!ioFilterGroupDone(this->pub.filterGroup));", "    while (ioFilterGroupInputSame(this->pub.filterGroup));"),
    m("c-noresult", W, "    ioFilterGroupClose(this->pub.filterGroup);\n", ""),
    m("c-nozero", W, "            ioWriteInterface(this)->write(ioWriteDriver(this), this->output);\n            bufUsedZero(this->output);\n        }\n    }", "            ioWriteInterface(this)->write(ioWriteDriver(this), this->output);\n        }\n    }"),
    # Read
    m("r-nozero", R, "                    bufUsedZero(this->input);\n", ""),
    m("r-eofgroup", R, "this->pub.eofAll = ioReadEofDriver(this) && ioFilterGroupDone(this->pub.filterGroup);", "this->pub.eofAll = ioFilterGroupDone(this->pub.filterGroup);"),
    m("r-eofdriver", R, "this->pub.eofAll = ioReadEofDriver(this) && ioFilterGroupDone(this->pub.filterGroup);", "this->pub.eofAll = ioReadEofDriver(this);"),
    m("r-eofor", R, "this->pub.eofAll = ioReadEofDriver(this) && ioFilterGroupDone(this->pub.filterGroup);", "this->pub.eofAll = ioReadEofDriver(this) && !ioFilterGroupInputSame(this->pub.filterGroup);"),
    m("r-nullempty", R, "                if (!ioReadEofDriver(this))", "                if (!ioReadEofDriver(this) && !bufEmpty(this->input))"),
    m("r-block", R, "            if (!block && bufUsed(buffer) > bufferUsedBegin)", "            if (bufUsed(buffer) > bufferUsedBegin)"),
    m("r-nolimitclear", R, "                    bufLimitClear(this->input);\n", ""),
    m("r-noflush", R, "            if (this->input == NULL || !bufEmpty(this->input))", "            if (this->input != NULL && !bufEmpty(this->input))"),
    m("r-samenot", R, "        if (ioFilterGroupInputSame(this->pub.filterGroup))\n        {\n            ioFilterGroupProcess", "        if (ioFilterGroupInputSame(this->pub.filterGroup) && this->input != NULL)\n        {\n            ioFilterGroupProcess", prop=""),
    m("r-samedrop", R, "        if (ioFilterGroupInputSame(this->pub.filterGroup))\n        {\n            ioFilterGroupProcess", "        if (ioFilterGroupInputSame(this->pub.filterGroup) && block)\n        {\n            ioFilterGroupProcess"),
    m("r-noresult", R, "    ioFilterGroupClose(this->pub.filterGroup);\n", ""),
    m("a-nopos", R, "        bufCatSub(buffer, this->output, this->outputPos, size);\n        this->outputPos += size;", "        bufCatSub(buffer, this->output, this->outputPos, size);"),
    m("a-max", R, "        const size_t size = outputInternalRemains > bufRemains(buffer) ? bufRemains(buffer) : outputInternalRemains;\n\n        // Copy data to the output buffer\n        bufCatSub(buffer, this->output, this->outputPos, size);\n        this->outputPos += size;\n    }\n\n    // Read data", "        const size_t size = outputInternalRemains > bufRemains(buffer) ? bufRemains(buffer) : outputInternalRemains;\n\n        // Copy data to the output buffer\n        bufCatSub(buffer, this->output, this->outputPos, size);\n        this->outputPos += outputInternalRemains;\n    }\n\n    // Read data"),
    m("a-skip", R, "    if (this->output != NULL && bufUsed(this->output) - this->outputPos > 0 && bufRemains(buffer) > 0)", "    if (this->output != NULL && bufUsed(this->output) - this->outputPos > 1 && bufRemains(buffer) > 0)"),
    m("a-skip2", R, "    if (this->output != NULL && bufUsed(this->output) - this->outputPos > 0 && bufRemains(buffer) > 0)", "    if (this->output != NULL && bufUsed(this->output) - this->outputPos > 0 && bufRemains(buffer) > bufUsed(this->output))"),
    m("a-noblock", R, "    ioReadInternal(this, buffer, true);\n\n    FUNCTION_LOG_RETURN(SIZE, outputRemains", "    ioReadInternal(this, buffer, false);\n\n    FUNCTION_LOG_RETURN(SIZE, outputRemains"),
    m("sm-zero", R, "                bufUsedZero(this->output);\n                this->outputPos = 0;\n\n                ioReadInternal(this, this->output, false);\n            }\n        }", "                this->outputPos = 0;\n\n                ioReadInternal(this, this->output, false);\n            }\n        }"),
    m("sm-pos", R, "                bufUsedZero(this->output);\n                this->outputPos = 0;\n\n                ioReadInternal(this, this->output, false);\n            }\n        }", "                bufUsedZero(this->output);\n\n                ioReadInternal(this, this->output, false);\n            }\n        }"),
    m("sm-early", R, "        if (!bufFull(buffer))\n        {\n            // If the data", "        if (bufRemains(buffer) > 0 || ioReadBlock(this))\n        {\n            // If the data"),
    m("sm-once", R, "    while (!bufFull(buffer) && !ioReadEof(this));", "    while (bufEmpty(buffer) && !ioReadEof(this));"),
    m("sm-refill", R, "        if (outputInternalRemains > 0)\n        {\n            // Determine", "        if (outputInternalRemains >= bufRemains(buffer))\n        {\n            // Determine"),
    m("l-size", R, "                this->outputPos += size + 1;", "                this->outputPos += size;"),
    m("l-used", R, "            bufUsedSet(this->output, outputInternalRemains);\n", "            bufUsedZero(this->output);\n"),
    m("l-nomove", R, "            if (outputInternalRemains > 0)\n            {\n                memmove(", "            if (outputInternalRemains > 1)\n            {\n                memmove("),
    m("l-eof", R, "            if (ioReadEof(this))\n            {\n                if (allowEof)", "            if (ioReadEof(this) || allowEof)\n            {\n                if (allowEof)"),
    m("l-nopos", R, "            bufUsedSet(this->output, outputInternalRemains);\n            this->outputPos = 0;", "            bufUsedSet(this->output, outputInternalRemains);"),
    m("l-eofok", R, "                    THROW(FileReadError, \"unexpected eof while reading line\");", "                    result = strNewZN((char *)bufPtr(this->output), bufUsed(this->output));"),
    m("fl-once", R, "        do\n        {\n            result += ioRead(this, buffer);\n            bufUsedZero(buffer);\n        }\n        while (!ioReadEof(this));", "        result += ioRead(this, buffer);"),
    m("fl-nozero", R, "            result += ioRead(this, buffer);\n            bufUsedZero(buffer);", "            result += ioRead(this, buffer);"),
    # Limit
    m("li-count", L, "    this->current += result;", "    this->current += bufUsed(buffer);"),
    m("li-min", L, "this->limit - this->current >= bufRemains(buffer) ? bufRemains(buffer) : (size_t)(this->limit - this->current);", "this->limit >= bufRemains(buffer) ? bufRemains(buffer) : (size_t)(this->limit - this->current);", prop=""),
    m("li-all", L, "    bufLimitSet(buffer, bufUsed(buffer) + result);\n", ""),
    m("li-used", L, "    bufLimitSet(buffer, bufUsed(buffer) + result);", "    bufLimitSet(buffer, result);"),
    m("li-lim", L, "bufRemains(buffer) : (size_t)(this->limit - this->current);", "bufRemains(buffer) : (size_t)this->limit;"),
    # Copying filter
    m("b-same", B, "        this->inputSame = true;\n", ""),
    m("b-pos", B, "        this->inputPos += copySize;\n", ""),
    m("b-reset", B, "        this->inputPos = 0;\n", ""),
    m("b-size", B, "    size_t copySize = bufUsed(input) - this->inputPos;", "    size_t copySize = bufUsed(input);"),
    m("b-cmp", B, "    if (this->inputPos + copySize == bufUsed(input))", "    if (copySize <= bufUsed(input))"),
    # Group
    m("g-clear", G, "                    else if (filterData->inputLocal != NULL)\n", "                    if (filterData->inputLocal != NULL)\n"),
    m("g-noclear", G, "                    // Else clear the buffer if it was locally allocated. If the input buffer was passed in then the caller is\n                    // responsible for clearing it.\n                    else if (filterData->inputLocal != NULL)\n                        bufUsedZero(filterData->inputLocal);\n", ""),
    m("g-nullearly", G, "filterData->output != NULL && ioFilterDone(filterData->filter) && bufUsed(filterData->output) == 0", "filterData->output != NULL && ioFilterDone(filterData->filter)"),
    m("g-nullnotdone", G, "filterData->output != NULL && ioFilterDone(filterData->filter) && bufUsed(filterData->output) == 0", "filterData->output != NULL && bufUsed(filterData->output) == 0"),
    m("g-break", G, "                    if (!bufFull(filterData->output) && !ioFilterDone(filterData->filter))", "                    if (!ioFilterDone(filterData->filter))"),
    m("g-break2", G, "                    if (!bufFull(filterData->output) && !ioFilterDone(filterData->filter))", "                    if (!bufFull(filterData->output))"),
    m("g-done", G, "            if (!ioFilterDone(filterData->filter))\n            {", "            if (true)\n            {"),
    m("g-nosame", G, "                    {\n                        this->pub.inputSame = true;\n                    }", "                    {\n                    }"),
    m("g-stop", G, "    while (!bufFull(output) && ioFilterGroupInputSame(this));", "    while (bufEmpty(output) && ioFilterGroupInputSame(this));"),
    m("g-final", G, "        if (!ioFilterDone(filterData->filter))\n            this->pub.done = false;", "        if (filterIdx == 0 && !ioFilterDone(filterData->filter))\n            this->pub.done = false;"),
    m("g-finalsame", G, "        if (ioFilterInputSame(filterData->filter))\n        {\n            this->pub.done = false;\n            this->pub.inputSame = true;", "        if (ioFilterInputSame(filterData->filter))\n        {\n            this->pub.inputSame = true;"),
    m("g-finalsame2", G, "            this->pub.done = false;\n            this->pub.inputSame = true;", "            this->pub.done = false;"),
    m("o-nocopy", G, "        if (ioFilterGroupSize(this) == 0 ||\n            !ioFilterOutput((ioFilterGroupGet(this, ioFilterGroupSize(this) - 1))->filter))", "        if (ioFilterGroupSize(this) == 0)"),
    m("o-first", G, "ioFilterGroupSize(this) == 0 ||\n            !ioFilterOutput((ioFilterGroupGet(this, ioFilterGroupSize(this) - 1))->filter)", "ioFilterGroupSize(this) == 0 ||\n            !ioFilterOutput((ioFilterGroupGet(this, 0))->filter)"),
    m("o-noloc", G, "                filterData->inputLocal = *lastOutputBuffer;\n", ""),
    m("cl-type", G, ".type = ioFilterType(filter), .result = ioFilterResult(filter)", ".type = ioFilterType(filter), .result = NULL"),
    m("cl-some", G, "            lstAdd(this->filterResult, &(IoFilterResult){.type = ioFilterType(filter)", "            if (ioFilterOutput(filter)) lstAdd(this->filterResult, &(IoFilterResult){.type = ioFilterType(filter)"),
    # Combined reads
    m("m-near", M, "        if (param.offset - requestPriorEnd <= this->readOver)", "        if (param.offset - requestPrior->offset <= this->readOver)"),
    m("m-far", M, "        if (param.offset - requestPriorEnd <= this->readOver)", "        if (true)"),
    m("m-file", M, "    if (requestPrior != NULL && strEq(requestPrior->file, file))\n    {", "    if (requestPrior != NULL)\n    {"),
    m("m-limit", M, "requestPrior->limit = param.offset - requestPrior->offset + limit;", "requestPrior->limit += limit;"),
    m("m-range", M, "                range->limit = param.offset - range->offset + limit;", "                range->limit = param.offset - requestPrior->offset + limit;"),
    m("m-rangeadd", M, "                range->limit = param.offset - range->offset + limit;", "                range->limit += limit;", prop=""),
    m("m-first", M, "                    // Add the prior range to the range list\n                    lstAdd(\n                        requestPrior->rangeList,\n                        &(StorageReadMultiRange){.offset = requestPrior->offset, .limit = requestPrior->limit});\n", ""),
    m("m-second", M, "                lstAdd(requestPrior->rangeList, &(StorageReadMultiRange){.offset = param.offset, .limit = limit});\n", ""),
    m("m-noext", M, "            else if (requestPrior->rangeList != NULL)", "            else if (requestPrior->rangeList != NULL && lstSize(requestPrior->rangeList) > 2)"),
    m("m-late", M, "            // Combine limit with prior limit\n            requestPrior->limit = param.offset - requestPrior->offset + limit;\n", "",
      M, "            // If the new range offset is not exactly after the prior range end then add to the subrange list\n", "            requestPrior->limit = param.offset - requestPrior->offset + limit;\n"),
    m("m-nolim", M, "        CHECK(AssertError, requestPrior->limit != STORAGE_READ_MULTI_NO_LIMIT, \"cannot add request after request with no limit\");\n", ""),
    m("m-order", M, "param.offset >= requestPrior->offset + requestPrior->limit,", "param.offset >= requestPrior->offset,"),
    m("m-off", M, "            .offset = param.offset,\n            .limit = param.limit == NULL", "            .offset = 0,\n            .limit = param.limit == NULL"),
    m("mr-limit", M, "            if (bufRemains(buffer) > rangeRemains)\n                bufLimitSet", "            if (bufRemains(buffer) > range->limit)\n                bufLimitSet"),
    m("mr-limit2", M, "            uint64_t rangeRemains = range->limit - request->rangeRead;", "            uint64_t rangeRemains = range->limit;"),
    m("mr-two", M, "        if (range != NULL && lstSize(request->rangeList) > 1)", "        if (range != NULL && lstSize(request->rangeList) > 2)"),
    m("mr-noclear", M, "        bufLimitClear(buffer);\n", ""),
    m("mr-over", M, "rangeNext->offset - (range->offset + range->limit)", "rangeNext->offset - range->limit"),
    m("mr-nodrain", M, "                ioReadDrain(readOver);\n", "                (void)readOver;\n"),
    m("mr-noreset", M, "                request->rangeRead = 0;\n", ""),
    m("mr-set", M, "            request->rangeRead += result;", "            request->rangeRead = result;"),
    m("mr-nowait", M, "if (range->limit - request->rangeRead == 0 && lstSize", "if (request->rangeRead > 0 && lstSize"),
    m("q-skip", M, "    request->versionId != NULL, request->versionId);", "    false, NULL);"),
    m("q-again", M, "unsigned int requestIdx = lstSize(this->queue); requestIdx + prelim", "unsigned int requestIdx = 0; requestIdx + prelim"),
    # Same behaviour
    m("ok-w", W, "            if (bufRemains(this->output) == 0)\n            {\n                ioWriteInterface(this)->write(ioWriteDriver(this), this->output);\n                this->position", "            if (bufFull(this->output))\n            {\n                ioWriteInterface(this)->write(ioWriteDriver(this), this->output);\n                this->position", prop=""),
    m("ok-seek", W, "        ioWriteInterface(this)->seek(ioWriteDriver(this), position);\n\n        // Update current position\n        this->position = position;", "        this->position = position;\n        ioWriteInterface(this)->seek(ioWriteDriver(this), this->position);", prop=""),
    m("ok-close", W, "        if (bufRemains(this->output) == 0 || (ioFilterGroupDone(this->pub.filterGroup) && !bufEmpty(this->output)))", "        const bool groupDone = ioFilterGroupDone(this->pub.filterGroup);\n\n        if (bufFull(this->output) || (groupDone && bufUsed(this->output) > 0))", prop=""),
    m("ok-read", R, "        // Eof when no more input and the filter group is done\n        this->pub.eofAll = ioReadEofDriver(this) && ioFilterGroupDone(this->pub.filterGroup);", "        if (ioFilterGroupDone(this->pub.filterGroup))\n            this->pub.eofAll = ioReadEofDriver(this);", prop=""),
    m("ok-ahead", R, "        const size_t size = outputInternalRemains > bufRemains(buffer) ? bufRemains(buffer) : outputInternalRemains;\n\n        // Copy data to the output buffer\n        bufCatSub(buffer, this->output, this->outputPos, size);\n        this->outputPos += size;\n    }\n\n    // Read data", "        size_t size = outputInternalRemains;\n\n        if (size > bufRemains(buffer))\n            size = bufRemains(buffer);\n\n        bufCatSub(buffer, this->output, this->outputPos, size);\n        this->outputPos = this->outputPos + size;\n    }\n\n    // Read data", prop=""),
    m("ok-group", G, "        // Set this->pub.done = false if any filter is not done\n        if (!ioFilterDone(filterData->filter))\n            this->pub.done = false;", "        const bool filterDone = ioFilterDone(filterData->filter);\n\n        if (filterDone == false)\n            this->pub.done = false;", prop=""),
    m("ok-group2", G, "                    if (ioFilterInputSame(filterData->filter))\n                    {\n                        this->pub.inputSame = true;\n                    }\n", "                    const bool same = ioFilterInputSame(filterData->filter);\n\n                    if (same)\n                    {\n                        this->pub.inputSame = true;\n                    }\n", prop=""),
    m("ok-multi", M, "            uint64_t rangeRemains = range->limit - request->rangeRead;\n\n            if (bufRemains(buffer) > rangeRemains)\n                bufLimitSet(buffer, (size_t)rangeRemains);", "            if (range->limit - request->rangeRead < bufRemains(buffer))\n                bufLimitSet(buffer, (size_t)(range->limit - request->rangeRead));", prop=""),
    m("ok-multi2", M, "range->limit - request->rangeRead == 0 && lstSize", "request->rangeRead == range->limit && lstSize", prop=""),
    m("ok-add", M, "requestPrior->limit = param.offset - requestPrior->offset + limit;", "requestPrior->limit = (param.offset + limit) - requestPrior->offset;", prop=""),

    m("ok-helper", W, """FN_EXTERN void
ioWrite(IoWrite *const this, const Buffer *const buffer)
{""", """static void
ioWriteFull(IoWrite *const this)
{
    ioWriteInterface(this)->write(ioWriteDriver(this), this->output);
    this->position += bufUsed(this->output);
    bufUsedZero(this->output);
}

FN_EXTERN void
ioWrite(IoWrite *const this, const Buffer *const buffer)
{""", W, """                ioWriteInterface(this)->write(ioWriteDriver(this), this->output);
                this->position += bufUsed(this->output);
                bufUsedZero(this->output);
""", "                ioWriteFull(this);\n", prop=""),
    m("ok-while", W, """        do
        {
            ioFilterGroupProcess(this->pub.filterGroup, buffer, this->output);
""", """        bool again = true;

        while (again)
        {
            ioFilterGroupProcess(this->pub.filterGroup, buffer, this->output);
""", W, """        }
        while (ioFilterGroupInputSame(this->pub.filterGroup));""", """
            again = ioFilterGroupInputSame(this->pub.filterGroup);
        }""", prop=""),
    m("ok-early", W, """    if (position != this->position)
    {
        ioWriteFlush(this);
        ioWriteInterface(this)->seek(ioWriteDriver(this), position);

        // Update current position
        this->position = position;
    }
""", """    if (position == this->position)
        FUNCTION_LOG_RETURN_VOID();
    else
    {
    ioWriteFlush(this);
    ioWriteInterface(this)->seek(ioWriteDriver(this), position);
    this->position = position;
    }
""", prop=""),
    m("ok-closewhile", W, "    while (!ioFilterGroupDone(this->pub.filterGroup));\n\n    // Close the filter group", "    while (ioFilterGroupDone(this->pub.filterGroup) == false);\n\n    // Close the filter group", prop=""),
    m("ok-closefor", W, """        if (bufRemains(this->output) == 0 || (ioFilterGroupDone(this->pub.filterGroup) && !bufEmpty(this->output)))
        {
            ioWriteInterface(this)->write(ioWriteDriver(this), this->output);
            bufUsedZero(this->output);
        }
    }
    while (!ioFilterGroupDone(this->pub.filterGroup));
""", """        if (bufFull(this->output))
        {
            ioWriteInterface(this)->write(ioWriteDriver(this), this->output);
            bufUsedZero(this->output);
        }
    }
    while (!ioFilterGroupDone(this->pub.filterGroup));

    if (!bufEmpty(this->output))
    {
        ioWriteInterface(this)->write(ioWriteDriver(this), this->output);
        bufUsedZero(this->output);
    }
""", prop=""),
    m("ok-rswap", R, """        if (ioFilterGroupInputSame(this->pub.filterGroup))
        {
            ioFilterGroupProcess(this->pub.filterGroup, this->input, buffer);
        }
        // Else new input can be accepted
        else
        {""", """        const bool same = ioFilterGroupInputSame(this->pub.filterGroup);

        if (same)
            ioFilterGroupProcess(this->pub.filterGroup, this->input, buffer);
        else
        {""", prop=""),
    m("ok-rlimit", R, """                    if (ioReadBlock(this) && bufRemains(this->input) > bufRemains(buffer))
                        bufLimitSet(this->input, bufRemains(buffer));
""", """                    const size_t remains = bufRemains(buffer);

                    if (ioReadBlock(this) && remains < bufRemains(this->input))
                        bufLimitSet(this->input, remains);
""", prop=""),
    m("ok-small", R, """            if (bufRemains(buffer) >= bufSize(this->output))
            {
                ioReadInternal(this, buffer, true);
            }
            // Else read as much data as is available. If it is not enough we will try again later.
            else
            {""", """            if (!(bufRemains(buffer) < bufSize(this->output)))
                ioReadInternal(this, buffer, true);
            else
            {""", prop=""),
    m("ok-smallreset", R, """                bufUsedZero(this->output);
                this->outputPos = 0;

                ioReadInternal(this, this->output, false);
            }
        }
    }
    while (!bufFull""", """                this->outputPos = 0;
                bufUsedZero(this->output);

                ioReadInternal(this, this->output, false);
            }
        }
    }
    while (!bufFull""", prop=""),
    m("ok-line", R, """                // Create the string
                result = strNewZN(outputPtr, size);
                this->outputPos += size + 1;""", """                this->outputPos += size + 1;
                result = strNewZN(outputPtr, size);""", prop=""),
    m("ok-line2", R, """            if (outputInternalRemains > 0)
            {
                memmove(""", """            if (outputInternalRemains != 0 && this->outputPos != 0)
            {
                memmove(""", prop=""),
    m("ok-copy", B, """    size_t copySize = bufUsed(input) - this->inputPos;

    if (copySize > bufRemains(output))
        copySize = bufRemains(output);
""", """    const size_t inputRemains = bufUsed(input) - this->inputPos;
    const size_t copySize = inputRemains > bufRemains(output) ? bufRemains(output) : inputRemains;
""", prop=""),
    m("ok-copy2", B, """    if (this->inputPos + copySize == bufUsed(input))
    {
        this->inputSame = false;
        this->inputPos = 0;
    }
    // Else update inputPos and indicate that the same input should be passed again
    else
    {
        this->inputSame = true;
        this->inputPos += copySize;
    }
""", """    this->inputPos += copySize;
    this->inputSame = this->inputPos != bufUsed(input);

    if (!this->inputSame)
        this->inputPos = 0;
""", prop=""),
    m("ok-limit", L, "    this->current += result;", "    this->current = this->current + result;", prop=""),
    m("ok-limit2", L, """    const size_t result =
        this->limit - this->current >= bufRemains(buffer) ? bufRemains(buffer) : (size_t)(this->limit - this->current);
""", """    const uint64_t remains = this->limit - this->current;
    const size_t result = bufRemains(buffer) > remains ? (size_t)remains : bufRemains(buffer);
""", prop=""),
    m("ok-gfinal", G, """        if (ioFilterInputSame(filterData->filter))
        {
            this->pub.done = false;
            this->pub.inputSame = true;
            break;
        }

        // Set this->pub.done = false if any filter is not done
        if (!ioFilterDone(filterData->filter))
            this->pub.done = false;
""", """        if (!ioFilterDone(filterData->filter))
            this->pub.done = false;

        if (ioFilterInputSame(filterData->filter))
        {
            this->pub.inputSame = true;
            this->pub.done = false;
            break;
        }
""", prop=""),
    m("ok-gclear", G, """                    if (ioFilterInputSame(filterData->filter))
                    {
                        this->pub.inputSame = true;
                    }
                    // Else clear the buffer if it was locally allocated. If the input buffer was passed in then the caller is
                    // responsible for clearing it.
                    else if (filterData->inputLocal != NULL)
                        bufUsedZero(filterData->inputLocal);
""", """                    if (!ioFilterInputSame(filterData->filter))
                    {
                        if (filterData->inputLocal != NULL)
                            bufUsedZero(filterData->inputLocal);
                    }
                    else
                        this->pub.inputSame = true;
""", prop=""),
    m("ok-gopen", G, """        if (ioFilterGroupSize(this) == 0 ||
            !ioFilterOutput((ioFilterGroupGet(this, ioFilterGroupSize(this) - 1))->filter))
        {
            ioFilterGroupAdd(this, ioBufferNew());
        }
""", """        bool output = false;

        if (ioFilterGroupSize(this) > 0)
            output = ioFilterOutput((ioFilterGroupGet(this, ioFilterGroupSize(this) - 1))->filter);

        if (!output)
            ioFilterGroupAdd(this, ioBufferNew());
""", prop=""),
    m("ok-gclose", G, """            lstAdd(this->filterResult, &(IoFilterResult){.type = ioFilterType(filter), .result = ioFilterResult(filter)});
""", """            const IoFilterResult filterResult = {.type = ioFilterType(filter), .result = ioFilterResult(filter)};

            lstAdd(this->filterResult, &filterResult);
""", prop=""),
    m("ok-mhelper", M, """            // Combine limit with prior limit
            requestPrior->limit = param.offset - requestPrior->offset + limit;
""", """            const uint64_t end = param.offset + limit;

            requestPrior->limit = end - requestPrior->offset;
""", prop=""),
    m("ok-mnear", M, """            if (param.offset != requestPriorEnd)
            {""", """            const uint64_t gap = param.offset - requestPriorEnd;

            if (gap > 0)
            {""", prop=""),
    m("ok-mnear2", M, "        if (param.offset - requestPriorEnd <= this->readOver)", "        if (param.offset <= requestPriorEnd + this->readOver)", prop=""),
    m("ok-mrange", M, """                lstAdd(requestPrior->rangeList, &(StorageReadMultiRange){.offset = param.offset, .limit = limit});
""", """                const StorageReadMultiRange rangeNew = {.offset = param.offset, .limit = limit};

                lstAdd(requestPrior->rangeList, &rangeNew);
""", prop=""),
    m("ok-mread", M, """            uint64_t rangeRemains = range->limit - request->rangeRead;

            if (bufRemains(buffer) > rangeRemains)
                bufLimitSet(buffer, (size_t)rangeRemains);
""", """            const uint64_t rangeRemains = range->limit - request->rangeRead;

            if (rangeRemains <= bufRemains(buffer))
                bufLimitSet(buffer, (size_t)rangeRemains);
""", prop=""),
    m("ok-mgap", M, """                IoRead *const readOver = ioLimitReadNew(readIo, rangeNext->offset - (range->offset + range->limit));
""", """                const uint64_t rangeEnd = range->offset + range->limit;
                IoRead *const readOver = ioLimitReadNew(readIo, rangeNext->offset - rangeEnd);
""", prop=""),
]
