S = "info/manifest/serialize.c.inc"
T = "info/manifest/store.c.inc"
B = "info/infoBackup.c"
CASES = [
    dict(id="c03-swap", expect=["C03"], edits=[(S, "file.group = manifest->fileGroupDefault;", "file.group = manifest->fileUserDefault;")]),
    dict(id="c03-pack", expect=["C03"], edits=[(T, "flag |= 1 << manifestFilePackFlagDelta;", "flag |= 1 << manifestFilePackFlagResume;")]),
    dict(id="c03-bno", expect=["C03"], edits=[(S, "if (file.bundleOffset != 0)", "if (file.bundleOffset > 1)")]),
    dict(id="c03-order", expect=["C03"], edits=[(T, "    result.sizeRepo = cvtUInt64FromVarInt128((const uint8_t *)filePack, &bufferPos, UINT_MAX);\n", ""),
                                              (T, "    // Mode\n    if (flag & (1 << manifestFilePackFlagMode))\n        result.mode", "    result.sizeRepo = cvtUInt64FromVarInt128((const uint8_t *)filePack, &bufferPos, UINT_MAX);\n    if (flag & (1 << manifestFilePackFlagMode))\n        result.mode")]),
    dict(id="c03-r1", expect=[], edits=[(T, "    if (flag & (1 << manifestFilePackFlagMode))\n        result.mode = (mode_t)cvtUInt64FromVarInt128((const uint8_t *)filePack, &bufferPos, UINT_MAX);\n    else\n        result.mode = manifest->fileModeDefault;",
                                       "    const bool hasMode = (flag & (1 << manifestFilePackFlagMode)) != 0;\n    result.mode = manifest->fileModeDefault;\n    if (hasMode)\n        result.mode = (mode_t)cvtUInt64FromVarInt128((const uint8_t *)filePack, &bufferPos, UINT_MAX);")]),
]
