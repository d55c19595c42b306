CASES = []


def m(id, prop, file, old, new, *more):
    CASES.append(dict(id=id, expect=[prop] if prop else [], edits=[(file, old, new)] + list(more)))


PC, FI, PR, BK, BU, IB = "command/backup/pageChecksum.c", "command/backup/file.c.inc", "command/backup/process.c.inc", "command/backup/backup.c", "info/manifest/build.c.inc", "info/infoBackup.c"
m("c37-upper", "C37", PC, "                    // If the entire page is zero it is valid\n                    if (pageValid)\n                        continue;", "                    // If the page is new it is valid\n                    continue;")
m("c37-zero-part", "C37", PC, "pageIdx < this->pageSize / sizeof(size_t); pageIdx++", "pageIdx < 512 / sizeof(size_t); pageIdx++")
m("c37-changed", "C37", PC, "                if (changed)\n                    continue;", "                if (changed || !this->headerCheck)\n                    continue;")
m("c37-partial", "C37", PC, "            // Create the error list if it does not exist yet\n", "            if (!this->align && pageIdx == pageTotal - 1)\n                continue;\n\n            // Create the error list if it does not exist yet\n")
m("c37-offset", "C37", PC, "        this->pageNoOffset += pageTotal;", "        if (this->align)\n            this->pageNoOffset += pageTotal;")
m("c37-offset-none", "C37", PC, "        this->pageNoOffset += pageTotal;\n", "")
m("c37-retry-off", "C37", PC, "(uint64_t)(blockNo % this->segmentPageTotal) * this->pageSize", "(uint64_t)pageIdx * this->pageSize")
m("c37-retry-cmp", "C37", PC, "changed = !bufEq(pageRetry, BUF(pageHeader, this->pageSize));", "changed = bufEq(pageRetry, BUF(pageHeader, this->pageSize));")
m("c37-block", "C37", PC, "const unsigned int blockNo = this->pageNoOffset + pageIdx;", "const unsigned int blockNo = pageIdx;")
m("c37-first", "C37", PC, ".pageNoOffset = segmentNo * segmentPageTotal,", ".pageNoOffset = segmentNo,")
m("c37-result", "C37", PC, "            pckWriteArrayEndP(this->error);\n            this->valid = false;", "            pckWriteArrayEndP(this->error);\n\n            if (this->headerCheck)\n                this->valid = false;")
m("c37-skip-eq", "C37", PC, "if (pageHeader->pd_checksum == pgPageChecksum(this->pageBuffer, blockNo, this->pageSize))", "if (pageHeader->pd_checksum == 0 || pageHeader->pd_checksum == pgPageChecksum(this->pageBuffer, blockNo, this->pageSize))")
m("c37-filter", "C37", FI, "                    if (file->pgFileChecksumPage)\n                    {\n                        ioFilterGroupAdd(", "                    if (file->pgFileChecksumPage && file->blockIncrSize == 0)\n                    {\n                        ioFilterGroupAdd(")
m("c37-filter-res", "C37", FI, "                                if (file->pgFileChecksumPage)\n                                {\n                                    fileResult->pageChecksumResult", "                                if (file->pgFileChecksumPage && bundleId == 0)\n                                {\n                                    fileResult->pageChecksumResult")
m("c37-seg", "C37", FI, "                                segmentNumber(file->pgFile), PG_SEGMENT_SIZE_DEFAULT / pageSize,", "                                0, PG_SEGMENT_SIZE_DEFAULT / pageSize,")
m("c37-rec", "C37", PR, "                            checksumPageError = true;\n\n                            if (!pckReadBoolP(checksumPageResult))\n                            {", "                            if (!pckReadBoolP(checksumPageResult))\n                            {\n                                checksumPageError = true;")
m("c37-list-last", "C37", PR, "        // Output last page or page range\n        backupJobResultPageChecksumOut(result, pageBegin, pageEnd);", "        // Output last page or page range\n        if (pageBegin != pageEnd)\n            backupJobResultPageChecksumOut(result, pageBegin, pageEnd);")
m("c37-list-single", "C37", PR, "if (pageBegin == pageEnd)\n    {\n        varLstAdd(result, varNewUInt64(pageBegin));", "if (pageBegin + 1 >= pageEnd)\n    {\n        varLstAdd(result, varNewUInt64(pageBegin));")
m("c37-total", "C37", IB, "            if (file.checksumPageError)\n                backupError = true;", "            if (file.checksumPageError && file.reference == NULL)\n                backupError = true;")
m("c37-total-last", "C37", IB, "            if (file.checksumPageError)\n                backupError = true;", "            backupError = file.checksumPageError;")
m("c37-files", "C37", BU, "if (dbPath && buildData->checksumPage)", "if (dbPath && buildData->checksumPage && info->size >= 8192)")
m("c37-files-ts", "C37", BU, "if (dbPath && buildData->checksumPage)", "if (dbPath && buildData->checksumPage && strBeginsWith(manifestParentName, MANIFEST_TARGET_PGDATA_STR))")
m("c37-files-name", "C37", BU, "!strEndsWithZ(manifestName, \"/\" PG_FILE_PGVERSION) &&", "!strEndsWithZ(manifestName, \"_vm\") && !strEndsWithZ(manifestName, \"/\" PG_FILE_PGVERSION) &&")
m("c37-opt", "C37", BK, "else if (cfgOptionBool(cfgOptOnline) && pgControl.pageChecksumVersion == 0 && cfgOptionBool(cfgOptChecksumPage))", "else if (cfgOptionBool(cfgOptOnline) && pgControl.pageChecksumVersion != 1 && cfgOptionBool(cfgOptChecksumPage))")
# Refactorings
m("c37-ok-helper", None, PC, "                    // Check that the entire page is zero\n                    for (unsigned int pageIdx = 0; pageIdx < this->pageSize / sizeof(size_t); pageIdx++)\n                    {\n                        if (((const size_t *)pageHeader)[pageIdx] != 0)\n                        {\n                            pageValid = false;\n                            break;\n                        }\n                    }\n", "                    pageValid = pageChecksumZero(this, (const size_t *)pageHeader);\n",
  (PC, "static void\npageChecksumProcess(", "static bool\npageChecksumZero(const PageChecksum *const this, const size_t *const page)\n{\n    for (unsigned int wordIdx = 0; wordIdx < this->pageSize / sizeof(size_t); wordIdx++)\n    {\n        if (page[wordIdx] != 0)\n            return false;\n    }\n\n    return true;\n}\n\nstatic void\npageChecksumProcess("))
m("c37-ok-while", None, PC, "for (unsigned int pageIdx = 0; pageIdx < pageTotal; pageIdx++)\n        {", "for (unsigned int pageIdx = 0; pageTotal > pageIdx; ++pageIdx)\n        {")
m("c37-ok-nest", None, PC, "                if (changed)\n                    continue;\n            }", "                if (!changed)\n                    LOG_DEBUG(\"page is bad\");\n                else\n                    continue;\n            }")
m("c37-ok-rec", None, PR, "                        if (!pckReadBoolP(checksumPageResult))\n                        {\n                            checksumPageError = true;\n\n                            if", "                        checksumPageError = !pckReadBoolP(checksumPageResult);\n\n                        if (checksumPageError)\n                        {\n                            if")
m("c37-ok-total", None, IB, "            if (file.checksumPageError)\n                backupError = true;", "            backupError = backupError || file.checksumPageError;")
m("c37-ok-files", None, BU, "            if (dbPath && buildData->checksumPage)\n            {", "            const bool checksumPage = dbPath && buildData->checksumPage;\n\n            if (checksumPage)\n            {")
m("c37-ok-filter", None, FI, "                    if (file->pgFileChecksumPage)\n                    {\n                        ioFilterGroupAdd(\n                            ioReadFilterGroup(readIo),", "                    const bool checkPage = file->pgFileChecksumPage;\n\n                    if (checkPage)\n                    {\n                        ioFilterGroupAdd(\n                            ioReadFilterGroup(readIo),")
