B = "command/backup/backup.c"
D = "command/backup/db.c.inc"
C = "command/backup/complete.c.inc"
P = "command/backup/process.c.inc"
I = "command/backup/incr.c.inc"
R = "command/backup/resume.c.inc"
M = "info/manifest/manifest.c"
DB = "db/db.c"
F = "command/archive/find.c"
CASES = [
    dict(id="c09-sysid", expect=["C09"], edits=[(B, "if (result->version != infoPg.version || pgControl.systemId != infoPg.systemId)", "if (result->version != infoPg.version && pgControl.systemId != infoPg.systemId)")]),
    dict(id="c09-lsnstop", expect=["C09"], edits=[(C, "backupData->timeline, lsnStart, lsnStop, backupData->walSegmentSize);", "backupData->timeline, lsnStart, lsnStart, backupData->walSegmentSize);")]),
    dict(id="c09-walfirst", expect=["C09"], edits=[(C, "for (unsigned int walSegmentIdx = 0;", "for (unsigned int walSegmentIdx = 1;")]),
    dict(id="c09-findcopy", expect=["C09"], edits=[(C, "            const String *const archiveFile = walSegmentFind(find, walSegment);\n", "            const String *const archiveFile =\n                    cfgOptionBool(cfgOptArchiveCopy) ? walSegmentFind(find, walSegment) : NULL;\n")]),
    dict(id="c09-ping", expect=["C09"], edits=[(B, "backupDbPing(backupData, true);", "backupDbPing(backupData, false);")]),
    dict(id="c09-wait", expect=["C09"], edits=[(B, "backupTime(backupData, true)", "backupTime(backupData, false)")]),
    dict(id="c09-ctl", expect=["C09"], edits=[(P, "if (!pgControlFound && cfgOptionBool(cfgOptOnline))", "if (!pgControlFound && cfgOptionBool(cfgOptOnline) && jobData->backupStandby)")]),
    dict(id="c09-timeout", expect=["C09"], edits=[(F, "if (result == NULL && this->timeout != 0)", "if (result == NULL && this->timeout != 0 && this->single)")]),
    dict(id="c09-tl", expect=["C09"], edits=[(DB, "if (dbPgControl(this).timeline != targetTimeline)", "if (dbPgControl(this).timeline < targetTimeline)")]),
    dict(id="c09-chkpt", expect=["C09"], edits=[(DB, "if (pgControl.checkpoint < pgLsnFromStr(lsnStart))", "if (pgControl.checkpoint == 0)")]),
    dict(id="c09-r1", expect=[], edits=[(B, "if (result->version != infoPg.version || pgControl.systemId != infoPg.systemId)", "const bool same = result->version == infoPg.version && pgControl.systemId == infoPg.systemId;\n\n    if (!same)")]),
    dict(id="c09-r2", expect=[], edits=[(DB, "if (dbPgControl(this).timeline != targetTimeline)", "const unsigned int timelineStandby = dbPgControl(this).timeline;\n\n        if (targetTimeline != timelineStandby)")]),
    dict(id="c09-r3", expect=[], edits=[(P, "if (!pgControlFound && cfgOptionBool(cfgOptOnline))", "if (cfgOptionBool(cfgOptOnline) && !pgControlFound)")]),
    dict(id="c10-comp", expect=["C10"], edits=[(R, "                            manifestResumeData->backupOptionCompressType !=\n", "                            cfgOptionBool(cfgOptDelta) && manifestResumeData->backupOptionCompressType !=\n")]),
    dict(id="c10-time", expect=["C10"], edits=[(R, "else if (!delta && file.timestamp != fileResume.timestamp)", "else if (!delta && file.timestamp < fileResume.timestamp)")]),
    dict(id="c10-nosum", expect=["C10"], edits=[(R, "if (fileResume.checksumSha1 == NULL)", "if (fileResume.checksumSha1 == NULL && !delta)")]),
    dict(id="c10-key", expect=["C10"], edits=[(R, "manifestCipherSpecSet(manifest, manifestCipherSpec(manifestResume));", "")]),
    dict(id="c10-type", expect=["C10"], edits=[(R, "if (fileCompressType != compressType && !blockIncr)", "if (fileCompressType > compressType && !blockIncr)")]),
    dict(id="c10-rmdone", expect=["C10"], edits=[(R, "if (!storageExistsP(storageRepo(), manifestFile))", "if (!cfgOptionBool(cfgOptResume) || !storageExistsP(storageRepo(), manifestFile))")]),
    dict(id="c10-sumrepo", expect=["C10"], edits=[(R, "file.checksumRepoSha1 = fileResume.checksumRepoSha1;", "file.checksumRepoSha1 = fileResume.checksumSha1;")]),
    dict(id="c10-r1", expect=[], edits=[(R, "if (fileResume.checksumSha1 == NULL)", "const bool sum = fileResume.checksumSha1 != NULL;\n\n                            if (!sum)")]),
    dict(id="c10-r2", expect=[], edits=[(R, "const bool resume = cfgOptionBool(cfgOptResume) && cfgOptionStrId(cfgOptType) == backupTypeFull;", "bool resume = false;\n\n                if (cfgOptionBool(cfgOptResume))\n                    resume = cfgOptionStrId(cfgOptType) == backupTypeFull;")]),
    dict(id="c11-id", expect=["C11"], edits=[(I, "if (infoPg.id != backupPrior.backupPgId)", "if (infoPg.id > backupPrior.backupPgId)")]),
    dict(id="c11-diff", expect=["C11"], edits=[(I, "if (type == backupTypeDiff && backupPrior.backupType != backupTypeFull)", "if (type == backupTypeDiff && backupPrior.backupType == backupTypeDiff)")]),
    dict(id="c11-time", expect=["C11"], edits=[(M, "file.timestamp == filePrior.timestamp)\n                    file.copy = false;", "file.timestamp <= filePrior.timestamp)\n                    file.copy = false;")]),
    dict(id="c11-delta", expect=["C11"], edits=[(M, "if (!file.delta && fileSizeEqual &&", "if (fileSizeEqual &&")]),
    dict(id="c11-off", expect=["C11"], edits=[(M, "file.bundleOffset = filePrior.bundleOffset;", "file.bundleOffset = filePrior.bundleId;")]),
    dict(id="c11-ref", expect=["C11"], edits=[(M, "file.reference = filePrior.reference != NULL ? filePrior.reference : manifestPrior->pub.data.backupLabel;", "file.reference = manifestPrior->pub.data.backupLabel;")]),
    dict(id="c11-future", expect=["C11"], edits=[(M, "if (file.timestamp > copyStart)", "if (file.timestamp > copyStart && this->pub.data.backupOptionOnline)")]),
    dict(id="c11-tl", expect=["C11"], edits=[(M, "!strEq(strSubN(archiveStart, 0, 8), strSubN(manifestData(manifestPrior)->archiveStop, 0, 8)))", "!strEq(strSubN(archiveStart, 0, 8), strSubN(manifestData(manifestPrior)->archiveStop, 0, 8)) && manifestPrior->pub.data.bundleRaw)")]),
    dict(id="c11-size", expect=["C11"], edits=[(M, "file.sizeOriginal != filePrior.sizeOriginal && file.timestamp == filePrior.timestamp", "file.sizeOriginal < filePrior.sizeOriginal && file.timestamp == filePrior.timestamp")]),
    dict(id="c11-key", expect=["C11"], edits=[(I, "manifestCipherSpecSet(manifest, manifestCipherSpec(manifestPrior));", "")]),
    dict(id="c11-r1", expect=[], edits=[(M, "if (!file.delta && fileSizeEqual &&", "const bool sameTime = file.timestamp == filePrior.timestamp;\n\n                if (fileSizeEqual && !file.delta && sameTime &&")]),
    dict(id="c11-r2", expect=[], edits=[(I, "if (infoPg.id != backupPrior.backupPgId)\n", "if (backupPrior.backupPgId != infoPg.id)\n")]),
]
