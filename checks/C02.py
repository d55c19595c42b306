"""Info files and manifests: nothing unverified is accepted, two copies are kept, either copy is enough."""
from flow import has, maybeTrue
from lib import FLIP, View, alts, callOf, countsFromZero, covered, hasCall, hasField, rel, strHas, structArg
from prog import AnalysisError

ASSUME = ["the SHA1 filter computes SHA1", "a file is either intact or its recorded checksum differs"]


def p_main(A):
    prog = A.prog

    # Loading verifies format and checksum
    f = A.flow(
        "infoNewLoad", {"next": "iniValueNext()", "hash": "ioFilterProcessIn()", "result": "ioFilterResult()"},
        {"same": ["strEq(_, ~ioFilterResult())", "strEq(~ioFilterResult(), _)"]},
        noInline=("ioFilterResult",))
    A.must(f, "same", "an info file is accepted only when its content matches the checksum stored in it")
    v = View(A, "infoNewLoad")
    nx = v.calls("iniValueNext")
    if len(nx) < 1:
        raise AnalysisError("infoNewLoad does not read values")
    covered(A, v, nx, nx[-1:], [], ["!strEq(.key, \"backrest-format\")", "!strEq(\"backrest-format\", .key)", "!strEq(.section, \"backrest\")", "!strEq(\"backrest\", .section)",
                                    "_ == 5", ".value == 0", "iniValueNext() == 0"],
            "an info file of another format is refused", "reading goes on after the format only when the format is the supported one")
    hv = [s for s in v.calls("ioFilterProcessIn") if any(hasField(a, "value") for a in s.args)]
    hk = [s for s in v.calls("ioFilterProcessIn") if any(hasField(a, "key") for a in s.args)]
    hs = [s for s in v.calls("ioFilterProcessIn") if any(hasField(a, "section") for a in s.args)]
    for h, w in ((hv, "value"), (hk, "key")):
        covered(A, v, nx, nx[-1:], h, ["strEq(\"backrest-checksum\", .key)", "strEq(.key, \"backrest-checksum\")", ".value == 0", "iniValueNext() == 0"],
                "the checksum covers every value of the file", "every %s read is part of the checksum" % w)
    covered(A, v, nx, nx[-1:], hs,
            ["strEq(\"backrest-checksum\", .key)", "strEq(.key, \"backrest-checksum\")", "strEq(.section, _)", "strEq(_, .section)", "iniValueNext() == 0"],
            "the checksum covers every value of the file", "every section read is part of the checksum")

    # Saving records the checksum of what was written
    v = View(A, "infoSaveValue")
    ent = [v.calls("ioFilterProcessIn", "ioWrite", "ioWriteLine")[0]]
    f = A.flow("infoSaveValue", {"hashKey": "ioFilterProcessIn(.checksum, ~#2)", "hashVal": "ioFilterProcessIn(.checksum, ~#3)",
                                 "hashSec": "ioFilterProcessIn(.checksum, ~#1)", "writeKey": "ioWrite|ioWriteStr(.write, ~#2)",
                                 "writeVal": "ioWriteLine|ioWriteStrLine(.write, ~#3)", "writeSec": "ioWrite|ioWriteStr(.write, ~#1)",
                                 "hashLast": ("=InfoSave.sectionLast")},
               {"sameSec": ["strEq(.sectionLast, _)", "strEq(_, .sectionLast)"]})
    for l in ("hashKey", "hashVal", "writeKey", "writeVal"):
        A.must(f, l, "a saved value is written and part of the checksum")
    for l in ("hashSec", "writeSec", "hashLast"):
        A.must(f, l, "a new section is written and part of the checksum", unless=["sameSec"])
    v = View(A, "infoSave")
    res = v.calls("ioFilterResult")
    if not res:
        raise AnalysisError("infoSave does not take the checksum")
    for s in v.calls("infoSaveValue"):
        if s.rank > min(r.rank for r in res):
            A.bad("the checksum is taken after all values", s.where, "a value is saved after the checksum was taken")
        A.ok("the checksum is taken after all values", s.where)
    f = A.flow("infoSave", {"open": "ioWriteOpen()", "fmt": "infoSaveValue(_, \"backrest\", \"backrest-format\")", "ver": "infoSaveValue(_, \"backrest\", \"backrest-version\")",
                            "pass": "infoSaveValue(_, \"cipher\", \"cipher-pass\")", "sum": "ioWriteLine|ioWriteStrLine(_, ~ioFilterResult())", "close": "ioWriteClose()"},
               {"noCipher": "cipherSpecType(_) == 0", "none": "cipherSpecType(_) == @cipherTypeNone"}, noInline=("ioFilterResult",))
    for l in ("open", "fmt", "ver", "sum", "close"):
        A.must(f, l, "a saved info file carries format, version and checksum and is completed")
    A.must(f, "pass", "the passphrase of dependent files is saved", unless=["noCipher", "none"])
    A.guard(f, "close", ["sum"], "the file is completed after its checksum was written")

    # Either copy is enough, and nothing is used when neither could be loaded
    f = A.flow("infoLoad", {"caught": "errorInternalCatch()"}, {"loaded": lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "icall"})
    A.must(f, "loaded", "loading returns only when a file was loaded")
    callbacks = set()
    for fn in prog.fns.values():
        if "infoLoad" in prog.callees(fn.name)[0]:
            for w, n, args, inst, p in A.calls(A.graph(fn.name, inline=lambda f, i, p: False), {"infoLoad"}):
                if args[1][0] != "fn":
                    raise AnalysisError("load callback at %s is not a function" % w)
                callbacks.add(args[1][1])
    if len(callbacks) < 3:
        raise AnalysisError("only %d info load callbacks" % len(callbacks))
    tries = []
    for c in sorted(callbacks):
        loaders = [x for x in prog.callees(c)[0] if x.endswith("NewLoad") and x in prog.fns]
        if not loaders:
            raise AnalysisError("%s does not load" % c)
        f = A.flow(c, {"load": "|".join(loaders) + "()", "main": "storageNewRead(_, .fileName)", "copy": "storageNewRead(_, ~'.copy')", "decrypt": "cipherBlockFilterGroupAdd(_, @cipherModeDecrypt, .cipherSpec)"},
                   {"first": "#1 == 0", "second": "#1 == 1", "notFirst": "#1 != 0", "low": "#1 < 2", "high": "#1 >= 2", "notSecond": "#1 != 1"}, trackRet=True,
                   trackArgs={"storageNewRead": [1]})
        A.retGuard(f, maybeTrue, ["load"], "a file counts as loaded only after it was parsed and verified")
        A.guard(f, "load", ["decrypt"], "an encrypted file is decrypted with its own passphrase")
        copies(A, c)
        A.must(f, lambda st: not has(st, "load") or has(st, "main") or has(st, "copy"), "loads come from the main file or its copy")
        tries.append(f)
        A.must(f, lambda st: not (has(st, "load") and has(st, "high")), "after both copies were tried loading ends")

    p_main.tries = tries

    # Both copies are written
    for entry in ("infoBackupSaveFile", "infoArchiveSaveFile"):
        f = A.flow(entry, {"main": ("storagePut(storageNewWrite(#1, #2))"), "copy": "storagePut(storageNewWrite(#1, ~'.copy'))",
                           "save": "infoPgSave()", "enc": "cipherBlockFilterGroupAdd(_, @cipherModeEncrypt, #3)"},
                   {"clean": "!.updated"})
        A.must(f, "main", "an updated info file is saved", unless=["clean"])
        A.must(f, "copy", "an updated info file's copy is saved", unless=["clean"])
        A.guard(f, "main", ["save"], "what is stored was serialised first")
        A.guard(f, "copy", ["save"], "what is stored was serialised first")
        A.guard(f, "save", ["enc"], "the file is encrypted with its own passphrase")
        for o in list(f.occ["main"].values()) + list(f.occ["copy"].values()):
            for x in ("noAtomic", "noSyncFile", "noSyncPath"):
                t = structArg(o.args[0][2][2], x) if o.args[0][0] == "call" and len(o.args[0][2]) > 2 else None
                if t is not None and t != ("int", 0):
                    A.bad("each copy is replaced completely or not at all", o.where, "a copy is written with %s" % x)
            A.ok("each copy is replaced completely or not at all", o.where)
        bufs = set()
        for o in list(f.occ["main"].values()) + list(f.occ["copy"].values()):
            bufs.add(o.args[1])
        if len(bufs) > 1:
            A.bad("both copies have the same content", A.loc(entry), "the copies are stored from different buffers")
        A.ok("both copies have the same content", entry)

    # Changes to backup.info are never lost because the file was taken to be unchanged
    mut = {"lstAdd", "lstRemoveIdx", "lstInsert", "lstRemove"}
    n = 0
    home = prog.fns["infoBackupSaveFile"].file
    for fn in sorted(prog.fns.values(), key=lambda x: x.name):
        if fn.file != home or fn.name.endswith("NewInternal") or not fn.ext or "infoPgNewLoad" in prog.callees(fn.name)[0]:
            continue
        v = View(A, fn.name)
        ms = [s for s in v.calls(*mut) if s.args and s.args[0][0] == "fld" and s.args[0][2] == "backup"]
        ms += [s for s in v.calls("infoPgSet")]
        ms += [s for s in v.calls("kvPut", "kvRemove")]
        up = [s for s in v.assigns("InfoBackupPub", "updated") if s.args[0] == ("int", 1)]
        if not ms:
            continue
        n += 1
        ex = exits(v)
        covered(A, v, ms, ex, up, [], "a changed backup.info is marked as changed", "%s marks the object changed" % fn.name)
    if n < 4:
        raise AnalysisError("only %d functions change backup.info" % n)

    # Consistency of the PostgreSQL history
    f = A.flow("infoPgNewLoad", {"load": "infoNewLoad()"}, {"hist": ["lstSize(.history) != 0", "!lstEmpty(.history)"], "cur": ".historyCurrent != 4294967295", "id": ".currentId != 0"})
    A.must(f, "load", "the PostgreSQL history comes from a verified file")

    # Rebuilding backup.info from the repository
    f = A.flow("infoBackupLoadFileReconstruct",
               {"add": "infoBackupDataAdd()", "del": "infoBackupDataDelete()", "man": "manifestLoadFile()", "list": "storageList()"},
               {"exists": "storageExists(_, ~'backup.manifest')", "absent": ["!storageExists(_, ~'backup.manifest')", "!strLstExists(~storageList())"],
                "id": ".pgId == _", "sys": ".pgSystemId == _", "ver": ".pgVersion == _", "noPrior": ".backupLabelPrior == 0",
                "prior": "infoBackupLabelExists(_, .backupLabelPrior)", "notCur": "!strLstExists(~infoBackupDataLabelList())"},
               kill={"man": {"id", "sys", "ver", "prior", "noPrior"}}, once=True)
    A.guard(f, "add", ["exists", "man"], "a backup found in the repository is added only with its finished manifest")
    A.guard(f, "add", ["id", "sys", "ver"], "a backup found in the repository is added only when it is of the stanza's PostgreSQL history")
    A.guard(f, "add", [["noPrior", "prior"]], "a backup found in the repository is added only when the backup it depends on is present")
    A.guard(f, "add", ["notCur"], "a backup already listed is not added again")
    A.guard(f, "del", ["absent"], "a listed backup is dropped only when its manifest is gone")


def p_dependents(A):
    """What depends on a backup that is gone goes with it."""
    rule = "with a listed backup that is gone from the repository, all that depend on it are dropped from the list"
    v = View(A, "infoBackupLoadFileReconstruct", noInline=("infoBackupDataDependentList", "infoBackupDataDelete"))
    ds = v.calls("infoBackupDataDelete")
    if not ds:
        return A.bad(rule, A.loc(v.entry), "no backup is dropped from the list")
    dep = [s for s in ds if hasCall(s.args[1], "infoBackupDataDependentList")]
    if not dep:
        return A.bad(rule, ds[0].where, "only the backup itself is dropped")
    for s in dep:
        if any(hasCall(a, "strEq", "strCmp", "strEqZ") and hasCall(a, "infoBackupDataDependentList") for a, pol in s.conds):
            A.bad(rule, s.where, "some of the dependent backups are kept")
        g = callOf(s.args[1], "strLstGet")
        if g is not None and not countsFromZero(g[2][1]) and g[2][1][0] == "phi":
            A.unsure(rule, s.where, "order of the list")
        A.ok(rule, s.where)


def copies(A, c):
    """Which file each attempt loads: the alternatives of the file name under the conditions on the number of the attempt, evaluated for the first two."""
    v = View(A, c)
    got = {0: set(), 1: set()}
    op = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b}
    for s in v.calls("storageNewRead"):
        for t, ls in alts(s.args[1]):
            for n in got:
                holds = True
                for a, pol in list(ls) + list(s.conds):
                    r = rel(a, pol)
                    if r is None or ("p", 1) not in (r[0], r[2]):
                        continue
                    x, o, y = r if r[0] == ("p", 1) else (r[2], FLIP[r[1]], r[0])
                    if y[0] == "int" and not op[o](n, y[1]):
                        holds = False
                if holds:
                    got[n].add("copy" if strHas(t, ".copy") else "main" if hasField(t, "fileName") else "?")
    for n, w in ((0, "main"), (1, "copy")):
        rule = "the first attempt loads the main file, the second the copy"
        if "?" in got[n]:
            A.unsure(rule, A.loc(c), "unknown file name")
        elif w not in got[n]:
            A.bad(rule, A.loc(c), "attempt %d does not load the %s" % (n + 1, "main file" if w == "main" else "copy"))
        elif len(got[n]) > 1:
            A.unsure(rule, A.loc(c), "attempt %d may load either" % (n + 1))
        A.ok(rule, "%s attempt %d" % (c, n + 1))


def p_tries(A):
    for f in getattr(p_main, "tries", ()):
        A.must(f, "load", "the first attempt loads the file", when=["first"])


def exits(v):
    from lib import Site
    fn = v.g.root.fn
    p = fn.pts()[fn.exit]
    return [Site(v, "", "exit", [], v.g.root, p, 0)]
