F = "command/backup/file.c.inc"
P = "command/backup/process.c.inc"
CASES = [
    dict(id="c08-idx", expect=["C08"], edits=[(F, "SIZE_FILTER_TYPE, .idx = 1));", "SIZE_FILTER_TYPE, .idx = 0));")]),
    dict(id="c08-sumcmp", expect=["C08"], edits=[(F, "                        if (bufEq(file->pgFileChecksum, copyChecksum))\n", "                        if (file->pgFileDelta || bufEq(file->pgFileChecksum, copyChecksum))\n")]),
    dict(id="c08-resume-size", expect=["C08"], edits=[(F, "if (file->repoFileSize == pgTestSize &&\n", "if (\n")]),
    dict(id="c08-delta-size", expect=["C08"], edits=[(F, "if (file->pgFileSize == pgTestSize && bufEq", "if (bufEq")]),
    dict(id="c08-enc", expect=["C08"], edits=[(F, "                        if (encrypt != NULL)\n", "                        if (encrypt != NULL && compress != NULL)\n")]),
    dict(id="c08-eof", expect=["C08"], edits=[(F, "                        if (!readEof)\n", "                        if (!readEof && bundleId == 0)\n")]),
    dict(id="c08-r1", expect=[], edits=[(F, "if (file->pgFileSize == pgTestSize && bufEq(file->pgFileChecksum, pgTestChecksum))", "const bool same = file->pgFileSize == pgTestSize && bufEq(pgTestChecksum, file->pgFileChecksum);\n\n                    if (same)")]),
    dict(id="c08-r2", expect=[], edits=[(F, "                        if (!readEof)\n", "                        if (readEof == false)\n")]),
]
