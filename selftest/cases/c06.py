F = "command/archive/get/file.c"
G = "command/archive/get/get.c"
CASES = [
    dict(id="c06-dup", expect=["C06"], edits=[(G, "if (strLstSize(hashList) > 1)", "if (strLstSize(hashList) > 2)")]),
    dict(id="c06-sys", expect=["C06"], edits=[(G, "repoErrorTotal == lstSize(cacheRepoList)", "repoErrorTotal > lstSize(cacheRepoList)")]),
    dict(id="c06-errfound", expect=["C06"], edits=[(G, "            if (!error)\n", "            if (!error || single)\n")]),
    dict(id="c06-foundok", expect=["C06"], edits=[(G, "                if (!foundOk)\n", "                if (!foundOk && !forked)\n")]),
    dict(id="c06-move", expect=["C06"], edits=[(G, "if (protocolParallelJobErrorCode(job) == 0)", "if (protocolParallelJobErrorCode(job) <= 1)")]),
    dict(id="c06-r1", expect=[], edits=[(G, "            if (!error)\n", "            const bool deliver = !error;\n            if (deliver)\n")]),
    dict(id="c06-r2", expect=[], edits=[(G, "if (strLstSize(hashList) > 1)", "if (!(strLstSize(hashList) <= 1))")]),
    dict(id="c06-r3", expect=[], edits=[(G, "                if (!foundOk)\n", "                const bool confirmed = foundOk;\n                if (!confirmed)\n")]),
]
