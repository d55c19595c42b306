B = "command/backup/backup.c"
P = "command/backup/process.c.inc"
C = "command/backup/complete.c.inc"
CASES = [
    dict(id="c07-history-late", expect=["C07"], edits=[(C, "        storageCopyP(manifestRead, manifestWrite);\n", ""), (C, "INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMain());\n\n", "INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMain());\n        storageCopyP(manifestRead, manifestWrite);\n\n")]),
    dict(id="c07-lax", expect=["C07"], edits=[(C, "manifestValidate(manifest, true);", "manifestValidate(manifest, cfgOptionBool(cfgOptResume));")]),
    dict(id="c07-r1", expect=[], edits=[(C, "        manifestValidate(manifest, true);", "        const bool strict = true;\n        manifestValidate(manifest, strict);")]),
]
