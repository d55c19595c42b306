CASES = []
F = "command/backup/blockIncr.c"
G = "command/backup/blockMap.c"
D = "command/restore/blockDelta.c"
K = "command/restore/blockChecksum.c"


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


P = "C41"
m("c41-partial", P, F, "if ((this->done && bufUsed(this->block) > 0) || bufUsed(this->block) == this->blockSize)", "if (bufUsed(this->block) > 0)")
m("c41-last", P, F, "if ((this->done && bufUsed(this->block) > 0) || bufUsed(this->block) == this->blockSize)", "if (bufUsed(this->block) == this->blockSize)")
m("c41-empty", P, F, "(this->done && bufUsed(this->block) > 0)", "this->done")
m("c41-prior-idx", P, F, "blockMapGet(this->blockMapPrior, this->blockNo) : NULL", "blockMapGet(this->blockMapPrior, this->blockNo == 0 ? 0 : this->blockNo - 1) : NULL")
m("c41-prior-size", P, F, "this->blockMapPrior != NULL && this->blockNo < blockMapSize(this->blockMapPrior) ?", "this->blockMapPrior != NULL && this->blockNo <= blockMapSize(this->blockMapPrior) ?")
m("c41-memcmp-len", P, F, "bufPtrConst(checksum), this->checksumSize) != 0)", "bufPtrConst(checksum), this->checksumSize - 1) != 0)")
m("c41-memcmp-inv", P, F, "memcmp(blockMapItemIn->checksum, bufPtrConst(checksum), this->checksumSize) != 0)", "memcmp(blockMapItemIn->checksum, bufPtrConst(checksum), this->checksumSize) > 0)")
m("c41-zero-first", P, F, """                    this->blockOutSize += bufUsed(this->block);
                    bufUsedZero(this->block);""", """                    bufUsedZero(this->block);
                    this->blockOutSize += bufUsed(this->block);""")
m("c41-size-block", P, F, "this->blockOutSize += bufUsed(this->block);", "this->blockOutSize += this->blockSize;")
m("c41-offset", P, F, ".offset = this->blockOffset,", ".offset = this->blockOffset + this->blockOutSize,")
m("c41-block-no", P, F, ".block = this->superBlockNo,", ".block = this->blockNo,")
m("c41-bundle", P, F, """                        .bundleId = this->bundleId,
                        .offset""", """                        .offset""")
m("c41-no-late", P, F, """                    // Write to block map
                    BlockMapItem""", """                    this->superBlockNo++;

                    // Write to block map
                    BlockMapItem""", (F, """                    // Increment super block no
                    this->superBlockNo++;
""", ""))
m("c41-no-always", P, F, """
                    // Increment super block no
                    this->superBlockNo++;
                }""", """                }""", (F, "                this->blockNo++;", "                this->blockNo++;\n                if (this->blockOutWrite != NULL && this->blockOutSize > this->blockSize)\n                    this->superBlockNo++;"))
m("c41-idx-late", P, F, """                    const unsigned int blockMapItemIdx = blockMapSize(this->blockMapOut);
                    blockMapAdd(this->blockMapOut, &blockMapItem);
""", """                    blockMapAdd(this->blockMapOut, &blockMapItem);
                    const unsigned int blockMapItemIdx = blockMapSize(this->blockMapOut);
""")
m("c41-blockno-changed", P, F, "                this->blockNo++;\n", "", (F, """                    // Increment super block no
                    this->superBlockNo++;
""", """                    // Increment super block no
                    this->superBlockNo++;
                    this->blockNo++;
"""))
m("c41-close-done", P, F, "(this->done || this->blockOutSize >= this->superBlockSize)", "this->blockOutSize >= this->superBlockSize")
m("c41-close-gt", P, F, "(this->done || this->blockOutSize >= this->superBlockSize)", "(this->done || this->blockOutSize > this->superBlockSize)")
m("c41-size-first", P, F, "for (unsigned int blockMapIdx = 0; blockMapIdx < lstSize(this->blockOutList)", "for (unsigned int blockMapIdx = lstSize(this->blockOutList) - 1; blockMapIdx < lstSize(this->blockOutList)")
m("c41-super-size", P, F, "blockMapItem->superBlockSize = this->blockOutSize;", "blockMapItem->superBlockSize = blockOutSize;")
m("c41-super-zero", P, F, """            pckReadFree(filter);
            lstFree""", """            lstFree""", (F, """            for (unsigned int blockMapIdx = 0;""", """            pckReadFree(filter);
            this->blockOutSize = 0;

            for (unsigned int blockMapIdx = 0;"""))
m("c41-off-data", P, F, "this->blockOffset += blockOutSize;", "this->blockOffset += this->blockOutSize;")
m("c41-no-reset", P, F, "            this->superBlockNo = 0;\n", "")
m("c41-outsize-reset", P, F, "            this->blockOutSize = 0;\n", "")
m("c41-map-mark", P, F, "            this->blockMapWrite = true;", "            this->blockMapWrite = this->blockMapPrior != NULL;")
m("c41-shrink", P, F, "blockMapSize(this->blockMapOut) < blockMapSize(this->blockMapPrior))))", "blockMapSize(this->blockMapOut) == 0)))")
m("c41-map-twice", P, F, "if (this->done && this->blockOutOffset == 0 &&", "if (this->done &&")
m("c41-map-size", P, F, "this->blockMapOutSize = bufUsed(this->blockOut) - blockOutBegin;", "this->blockMapOutSize = bufUsed(this->blockOut);")
m("c41-map-begin", P, F, "const size_t blockOutBegin = bufUsed(this->blockOut);", "const size_t blockOutBegin = this->blockOutOffset;")
m("c41-map-enc", P, F, """                if (this->encryptParam != NULL)
                    ioFilterGroupAdd(ioWriteFilterGroup(write), cipherBlockNewPack(this->encryptParam));

""", "")
m("c41-filter-order", P, F, """                        // Add size filter
                        ioFilterGroupAdd(ioWriteFilterGroup(this->blockOutWrite), ioSizeNew());
""", "", (F, """                        // Add encrypt filter
""", """                        ioFilterGroupAdd(ioWriteFilterGroup(this->blockOutWrite), ioSizeNew());

                        // Add encrypt filter
"""))
m("c41-out-fit", P, F, "if (bufRemains(output) >= blockOutSize)", "if (bufSize(output) >= blockOutSize)")
m("c41-out-off", P, F, "                    this->blockOutOffset += blockOutSize;", "                    this->blockOutOffset = blockOutSize;")
m("c41-out-same", P, F, """                    this->blockOutOffset += blockOutSize;
                    this->inputSame = true;""", """                    this->blockOutOffset += blockOutSize;
                    this->inputSame = !this->done;""")
m("c41-out-reset", P, F, """                    this->blockOutOffset = 0;
                    this->inputSame = this->inputOffset != 0;""", """                    this->inputSame = this->inputOffset != 0;""")
m("c41-out-drop-in", P, F, "this->inputSame = this->inputOffset != 0;", "this->inputSame = false;")
m("c41-in-off", P, F, "                this->inputOffset += copySize;", "                this->inputOffset = copySize;")
m("c41-in-flush", P, F, "if (!this->done && this->blockOutOffset == 0)", "if (!this->done && this->blockOutSize == 0)")
m("c41-in-reset", P, F, """                this->inputOffset = 0;

                // Same""", """                // Same""")
m("c41-done", P, F, "FUNCTION_TEST_RETURN(BOOL, this->done && !this->inputSame);", "FUNCTION_TEST_RETURN(BOOL, this->done);")
m("c41-new-comp", P, F, "        if (compress != NULL)\n", "        if (compress != NULL && encrypt == NULL)\n")
m("c41-new-ref", P, F, "            .blockOffset = bundleOffset,", "            .blockOffset = bundleId == 0 ? 0 : bundleOffset / blockSize,")
# Map
m("c41-pair-shift", P, G, ".reference = (unsigned int)(referenceEncoded >> BLOCK_MAP_REFERENCE_SHIFT)", ".reference = (unsigned int)(referenceEncoded >> BLOCK_MAP_SUPER_BLOCK_SIZE_SHIFT)")
m("c41-pair-bundle", P, G, "            if (reference->bundleId > 0)", "            if (reference->bundleId > 1)")
m("c41-pair-flag", P, G, """            if (referenceEncoded & BLOCK_MAP_FLAG_OFFSET)
                blockMapItem.offset = ioReadVarIntU64(map);""", """            if (referenceEncoded & BLOCK_MAP_FLAG_BUNDLE_ID)
                blockMapItem.offset = ioReadVarIntU64(map);""")
m("c41-pair-size", P, G, "blockMapItem.size = superBlockEncoded >> BLOCK_MAP_SUPER_BLOCK_SHIFT;", "blockMapItem.size = superBlockEncoded >> BLOCK_MAP_BLOCK_TOTAL_SHIFT;")
m("c41-pair-zig", P, G, "blockMapItem.size = (uint64_t)(cvtInt64FromZigZag(blockMapItem.size) + sizeLast);", "blockMapItem.size = (uint64_t)cvtInt64FromZigZag(blockMapItem.size);")
m("c41-pair-zig2", P, G, "(sizeLast == 0 ? superBlock->size :", "(sizeLast == 0 || superBlockEncoded & BLOCK_MAP_FLAG_LAST ? superBlock->size :")
m("c41-pair-total", P, G, "blockTotal = (blockTotalEncoded >> BLOCK_MAP_BLOCK_TOTAL_SHIFT) + 1;", "blockTotal = blockTotalEncoded >> BLOCK_MAP_BLOCK_TOTAL_SHIFT;")
m("c41-pair-skip", P, G, "referenceData->block += ioReadVarIntU64(map);", "referenceData->block = ioReadVarIntU64(map);")
m("c41-pair-count", P, G, "            // Update block in reference with all blocks read\n            referenceData->block += blockTotal;\n", "")
m("c41-pair-count2", P, G, "            // Increment reference block by number of blocks written\n            referenceData->block += blockTotal;\n", "")
m("c41-pair-off", P, G, "            blockMapItem.offset += blockMapItem.size;\n", "            if (blockTotal > 1)\n                blockMapItem.offset += blockMapItem.size;\n")
m("c41-pair-rem", P, G, "blockMapItem.superBlockSize += ioReadVarIntU64(map);", "blockMapItem.superBlockSize = ioReadVarIntU64(map);")
m("c41-pair-ver", P, G, """    CHECK(FormatError, (ioReadVarIntU64(map) & (1 << blockMapFlagVersion)) == 0, "block map version must be zero");""", """    ioReadVarIntU64(map);""")
m("c41-pair-bsize", P, G, """                ioWriteVarIntU64(output, reference->bundleId);

            if (""", """                ioWriteVarIntU64(output, reference->offset);

            if (""")
m("c41-pair-block0", P, G, "                referenceData->size = blockMapItem.size;\n                referenceData->block = 0;\n", "                referenceData->size = blockMapItem.size;\n")
m("c41-pair-sum", P, G, "ioWrite(output, BUF(blockMapGet(this, blockIdx)->checksum, checksumSize));", "ioWrite(output, BUF(superBlock->checksum, blockSize > 65536 ? checksumSize : checksumSize - 1));")
m("c41-pair-gap", P, G, "reference->offset - (referenceData->offset + referenceData->size));", "reference->offset - referenceData->offset);")
# Delta
m("c41-need-idx", P, D, "if (blockMapIdx >= blockChecksumSize ||", "if (")
m("c41-need-drop", P, D, """                    // Else add the new block
                    else
                        lstAdd(referenceData->blockList, &blockMapIdx);
""", "")
m("c41-need-inv", P, D, "                    !bufEq(", "                    bufEq(")
m("c41-chunk-gap", P, D, "blockMapItemPrior->offset + blockMapItemPrior->size != blockMapItem->offset))", "blockMapItemPrior->offset + blockMapItemPrior->size > blockMapItem->offset))")
m("c41-chunk-super", P, D, "if (blockMapItemPrior == NULL || blockMapItemPrior->offset != blockMapItem->offset)", "if (blockMapItemPrior == NULL || blockMapItemPrior->size != blockMapItem->size)")
m("c41-chunk-size", P, D, "blockDeltaRead->size += blockMapItem->size;", "blockDeltaRead->size += blockMapItem->superBlockSize;")
m("c41-chunk-no", P, D, ".no = blockMapItem->block,", ".no = blockIdx,")
m("c41-chunk-off", P, D, ".offset = blockMapIdx * blockSize,", ".offset = blockIdx * blockSize,")
m("c41-next-limit", P, D, "ioLimitReadNew(readIo, this->superBlockData->size);", "ioLimitReadNew(readIo, this->superBlockData->superBlockSize);")
m("c41-next-total", P, D, """                (unsigned int)(this->superBlockData->superBlockSize / this->blockSize) +
                (this->superBlockData->superBlockSize % this->blockSize == 0 ? 0 : 1);""", """                (unsigned int)(this->superBlockData->superBlockSize / this->blockSize);""")
m("c41-next-find", P, D, "if (this->blockIdx == this->blockData->no)", "if (this->blockIdx >= this->blockData->no)")
m("c41-next-flush", P, D, "        ioReadFlushP(this->limitRead, .errorOnBytes = true);", "        ioReadFlushP(this->limitRead);")
m("c41-next-noflush", P, D, "        ioReadFlushP(this->limitRead, .errorOnBytes = true);", "        if (this->blockFindIdx < lstSize(this->superBlockData->blockList))\n            ioReadFlushP(this->limitRead, .errorOnBytes = true);")
m("c41-next-idx", P, D, "            this->blockIdx = 0;\n", "")
m("c41-next-break", P, D, """            // Increment the block to read in the super block
            this->blockIdx++;

            // Break if there is a result
            if (result != NULL)
                break;
""", """            // Break if there is a result
            if (result != NULL)
                break;

            // Increment the block to read in the super block
            this->blockIdx++;
""")
m("c41-next-clear", P, D, "            bufUsedZero(this->write.block);\n", "            if (this->blockIdx == 0)\n                bufUsedZero(this->write.block);\n")
m("c41-next-order", P, D, """            if (cipherSpecType(this->cipherSpecBackup) != cipherTypeNone)
            {
                ioFilterGroupAdd(
                    ioReadFilterGroup(this->limitRead), cipherBlockNewP(cipherModeDecrypt, this->cipherSpecBackup, .raw = true));
            }

            if (this->compressType != compressTypeNone)
                ioFilterGroupAdd(ioReadFilterGroup(this->limitRead), decompressFilterP(this->compressType, .raw = true));
""", """            if (this->compressType != compressTypeNone)
                ioFilterGroupAdd(ioReadFilterGroup(this->limitRead), decompressFilterP(this->compressType, .raw = true));

            if (cipherSpecType(this->cipherSpecBackup) != cipherTypeNone)
            {
                ioFilterGroupAdd(
                    ioReadFilterGroup(this->limitRead), cipherBlockNewP(cipherModeDecrypt, this->cipherSpecBackup, .raw = true));
            }
""")
# Checksum
m("c41-sum-full", P, K, "if (this->blockCurrent == this->blockSize)", "if (this->blockCurrent > this->blockSize)")
m("c41-sum-rest", P, K, """        if (this->checksum)
            lstAdd(this->list,""", """        if (this->checksum && lstEmpty(this->list))
            lstAdd(this->list,""")
m("c41-sum-cur", P, K, "                this->blockCurrent = 0;\n", "")
m("c41-sum-free", P, K, """                ioFilterFree(this->checksum);
                this->checksum = NULL;
""", "")
# Behaviour kept
m("c41-r1", "", F, """                    memcpy(blockMapItem.checksum, bufPtrConst(checksum), bufUsed(checksum));

                    const unsigned int blockMapItemIdx = blockMapSize(this->blockMapOut);
                    blockMapAdd(this->blockMapOut, &blockMapItem);
                    lstAdd(this->blockOutList, &blockMapItemIdx);

                    // Increment super block no
                    this->superBlockNo++;
""", """                    const unsigned int blockMapItemIdx = blockMapSize(this->blockMapOut);

                    memcpy(blockMapItem.checksum, bufPtrConst(checksum), bufUsed(checksum));
                    blockMapAdd(this->blockMapOut, &blockMapItem);
                    this->superBlockNo += 1;
                    lstAdd(this->blockOutList, &blockMapItemIdx);
""")
m("c41-r2", "", F, """                else
                {
                    blockMapAdd(this->blockMapOut, blockMapItemIn);
                    bufUsedZero(this->block);
                }
""", """                else
                    blockMapAdd(this->blockMapOut, blockMapItemIn);

                bufUsedZero(this->block);
""", (F, """                    this->blockOutSize += bufUsed(this->block);
                    bufUsedZero(this->block);
""", """                    this->blockOutSize += bufUsed(this->block);
"""))
m("c41-r3", "", F, """            this->blockOffset += blockOutSize;

            // Reset block out size and super block no
            this->blockOutSize = 0;
            this->superBlockNo = 0;
""", """            this->superBlockNo = 0;
            this->blockOutSize = 0;
            this->blockOffset = this->blockOffset + blockOutSize;
""")
m("c41-r4", "", F, """/***********************************************************************************************************************************
Generate block incremental
***********************************************************************************************************************************/
""", """static void
blockIncrSuperBlockBegin(BlockIncr *const this)
{
    MEM_CONTEXT_OBJ_BEGIN(this)
    {
        this->blockOutWrite = ioBufferWriteNew(this->blockOut);
        this->blockOutList = lstNewP(sizeof(unsigned int));
    }
    MEM_CONTEXT_OBJ_END();

    IoFilterGroup *const group = ioWriteFilterGroup(this->blockOutWrite);

    if (this->compressParam != NULL)
        ioFilterGroupAdd(group, compressFilterPack(this->compressType, this->compressParam));

    if (this->encryptParam != NULL)
        ioFilterGroupAdd(group, cipherBlockNewPack(this->encryptParam));

    ioFilterGroupAdd(group, ioSizeNew());
    ioWriteOpen(this->blockOutWrite);
}

""", (F, """                    {
                        MEM_CONTEXT_OBJ_BEGIN(this)
                        {
                            this->blockOutWrite = ioBufferWriteNew(this->blockOut);
                            this->blockOutList = lstNewP(sizeof(unsigned int));
                        }
                        MEM_CONTEXT_OBJ_END();

                        // Add compress filter
                        if (this->compressParam != NULL)
                        {
                            ioFilterGroupAdd(
                                ioWriteFilterGroup(this->blockOutWrite),
                                compressFilterPack(this->compressType, this->compressParam));
                        }

                        // Add encrypt filter
                        if (this->encryptParam != NULL)
                            ioFilterGroupAdd(ioWriteFilterGroup(this->blockOutWrite), cipherBlockNewPack(this->encryptParam));

                        // Add size filter
                        ioFilterGroupAdd(ioWriteFilterGroup(this->blockOutWrite), ioSizeNew());
                        ioWriteOpen(this->blockOutWrite);
                    }
""", """                        blockIncrSuperBlockBegin(this);
"""))
m("c41-r5", "", D, """            // If the block matches the block we are expecting
            if (this->blockIdx == this->blockData->no)
            {
                ASSERT(result == NULL);

                this->write.offset = this->blockData->offset;
                result = &this->write;
                this->blockFindIdx++;

                // Get the next block if there are any more to read
                if (this->blockFindIdx < lstSize(this->superBlockData->blockList))
                    this->blockData = lstGet(this->superBlockData->blockList, this->blockFindIdx);
            }
""", """            const bool found = this->blockIdx == this->blockData->no;

            // If the block matches the block we are expecting
            if (found)
            {
                result = &this->write;
                this->write.offset = this->blockData->offset;

                // Get the next block if there are any more to read
                if (++this->blockFindIdx < lstSize(this->superBlockData->blockList))
                    this->blockData = lstGet(this->superBlockData->blockList, this->blockFindIdx);
            }
""")
m("c41-r6", "", D, """                    BlockDeltaReference *const referenceData = lstFind(referenceList, &reference);

                    // If the reference has not been added
                    if (referenceData == NULL)
                    {
                        const BlockDeltaReference *const referenceData = lstAdd(
                            referenceList,
                            &(BlockDeltaReference){.reference = reference, .blockList = lstNewP(sizeof(unsigned int))});
                        lstAdd(referenceData->blockList, &blockMapIdx);
                    }
                    // Else add the new block
                    else
                        lstAdd(referenceData->blockList, &blockMapIdx);
""", """                    BlockDeltaReference *referenceData = lstFind(referenceList, &reference);

                    // If the reference has not been added
                    if (referenceData == NULL)
                    {
                        referenceData = lstAdd(
                            referenceList,
                            &(BlockDeltaReference){.reference = reference, .blockList = lstNewP(sizeof(unsigned int))});
                    }

                    lstAdd(referenceData->blockList, &blockMapIdx);
""")
m("c41-r7", "", G, """            // Default super block size
            blockMapItem.superBlockSize = blockSize;

            // Add reference to list
            BlockMapReference""", """            blockMapItem.superBlockSize = blockSize;

            BlockMapReference""", (G, """            // Update block in reference with all blocks read
            referenceData->block += blockTotal;

            // Update offset with the super block size
            blockMapItem.offset += blockMapItem.size;
""", """            blockMapItem.offset = blockMapItem.offset + blockMapItem.size;
            referenceData->block = referenceData->block + blockTotal;
"""))
m("c41-r8", "", K, """        // Update amount of data checksummed
        inputOffset += blockChecksumSize;
        this->blockCurrent += blockChecksumSize;

        // If the block size has been reached then output the checksum
        if (this->blockCurrent == this->blockSize)
""", """        // Update amount of data checksummed
        this->blockCurrent += blockChecksumSize;
        inputOffset += blockChecksumSize;

        // If the block size has been reached then output the checksum
        if (this->blockCurrent >= this->blockSize)
""")
m("c41-r9", "", F, """        // Copy to output buffer if output has been completely written
        if (this->blockOutWrite == NULL)
        {
            const size_t blockOutSize = bufUsed(this->blockOut) - this->blockOutOffset;

            if (blockOutSize > 0)
            {
""", """        // Copy to output buffer if output has been completely written
        {
            const size_t blockOutSize = bufUsed(this->blockOut) - this->blockOutOffset;

            if (this->blockOutWrite == NULL && blockOutSize != 0)
            {
""")
