"""Stanza commands create, upgrade and delete a stanza consistently and refuse to overwrite or guess."""
from flow import LitFn, has
from lib import View, alts, callOf, entryOf, exitOf, follow, hasCall, mentionsField, precede, relLit, strHas, strs, structArg
from graph import fmt, walkTerm
from C16 import call

ASSUME = ["storage functions report the state of the repository correctly"]
A_INFO, B_INFO = "archive.info", "backup.info"
SAVE = {"infoArchiveSaveFile": A_INFO, "infoBackupSaveFile": B_INFO}


def isFile(t, name, copy):
    s = strs(t)
    return len(s) > 0 and all(x.endswith(name + (".copy" if copy else "")) for x in s)


def exists(name, copy, val):
    return call("storageExists", val, lambda t: isFile(t[2][1], name, copy))


def empty(part, null=True):
    """The archive or backup directory is known to hold nothing."""
    def of(t, *n):
        return t[0] == "call" and t[1] in n and strHas(t, "<REPO:%s>" % part)
    def f(a, pol):
        if a[0] == "eq" and a[2] == ("int", 0):
            t = a[1]
            if of(t, "strLstSize", "lstSize"):
                return pol is True
            if of(t, "strLstEmpty", "lstEmpty"):
                return pol is False
            if null and of(t, "storageList"):
                return pol is True
        if a[0] == "lt" and a[2] == ("int", 1) and of(a[1], "strLstSize", "lstSize"):
            return pol is True
        return False
    return LitFn(f, {"strLstSize", "strLstEmpty", "storageList"}, "%s directory is empty" % part.lower())


def ctl(t, f):
    return t[0] == "fld" and t[2] == f and hasCall(t, "pgValidate", "pgControlFromFile", "dbPgControl")


def resolve(t, name, m, c):
    """The file a term stands for when of info file and copy the given ones exist."""
    if t[0] == "str":
        return t[1]
    if t[0] == "ite":
        k = truth(t[1], name, m, c)
        return None if k is None else resolve(t[2 if k else 3], name, m, c)
    if t[0] == "call" and t[1] == "strDup":
        return resolve(t[2][0], name, m, c)
    return None


def truth(t, name, m, c):
    if t[0] == "not":
        k = truth(t[1], name, m, c)
        return None if k is None else not k
    if t[0] == "int":
        return bool(int(t[1]))
    if t[0] == "call" and t[1] == "storageExists":
        return bool(m) if isFile(t[2][1], name, False) else bool(c) if isFile(t[2][1], name, True) else None
    if t[0] == "op" and t[1] in ("==", "!=") and t[3] == ("int", 0):
        k = truth(t[2], name, m, c)
        return None if k is None else k == (t[1] == "!=")
    if t[0] == "eq" and t[2] == ("int", 0):
        k = truth(t[1], name, m, c)
        return None if k is None else not k
    return None


def p_create(A):
    v = View(A, "cmdStanzaCreate", noInline=("pgValidate", "cipherSpecGen", "checkStanzaInfoPg"))
    save = v.calls(*SAVE)
    new = v.calls("infoArchiveNew", "infoBackupNew")
    R = "info files are created only where none exist"
    for n in (A_INFO, B_INFO):
        for c in (False, True):
            precede(A, v, [], save, R, "%s%s may exist" % (n, ".copy" if c else ""), [exists(n, c, 0)])
    R = "info files are created only where there is no archive and no backup"
    for part in ("ARCHIVE", "BACKUP"):
        precede(A, v, [], save, R, "the %s directory may hold something" % part.lower(), [empty(part)])
    R = "info files are created for the cluster that is there"
    for s in new:
        A.ok(R, s.where, 2)
        if not ctl(s.args[0], "version") or not ctl(s.args[1], "systemId") or s.name == "infoBackupNew" and not ctl(s.args[2], "catalogVersion"):
            A.bad(R, s.where, "%s is stored" % ", ".join(fmt(x)[:40] for x in s.args[:3]))
    R = "a new stanza gets keys of its own"
    keys = []
    for s in new:
        t = s.args[-1]
        A.ok(R, s.where)
        if t[0] == "call" and t[1] == "cipherSpecGen":
            keys.append(t)
            if not (t[2][0][0] == "call" and t[2][0][1] == "cfgOptionIdxStrId" and t[2][0][2][0] == ("int", A.prog.enum("cfgOptRepoCipherType"))):
                A.bad(R, s.where, "the cipher type is %s" % fmt(t[2][0])[:80])
        elif not hasCall(t, "cipherSpecGen"):
            A.bad(R, s.where, "the key is %s" % fmt(t)[:80])
    if len(v.calls("cipherSpecGen")) == 1 and len(keys) == 2:
        A.bad(R, new[1].where, "archive and backups share a key")
    R = "info files are written to the repository in question with its key"
    for s in save:
        A.ok(R, s.where, 3)
        idx = callOf(s.args[1], "storageRepoIdxWrite")
        key = callOf(s.args[3], "cfgCipherSpecMainIdx")
        if idx is None or not isFile(s.args[2], SAVE[s.name], False):
            A.bad(R, s.where, "written to %s of %s" % (fmt(s.args[2])[:60], fmt(s.args[1])[:60]))
        elif key is None or key[2][0] != idx[2][0]:
            A.bad(R, s.where, "written with %s to %s" % (fmt(s.args[3])[:60], fmt(s.args[1])[:60]))
    for s in new:
        k = callOf(s.args[-1], "cfgOptionIdxStrId")
        w = callOf(save[0].args[1], "storageRepoIdxWrite") if save else None
        if k is not None and w is not None and k[2][1] != w[2][0]:
            A.bad(R, s.where, "the cipher type is that of another repository")
    R = "every repository is created, or checked against the cluster"
    ex = v.calls("storageExists")
    chk = v.calls("checkStanzaInfoPg")
    for n in SAVE:
        fs = [s for s in save if s.name == n]
        follow(A, v, ex[:1], fs + chk, R, "%s is neither created nor checked" % SAVE[n])
        follow(A, v, ex[:1], fs + chk, R, "%s is neither created nor checked" % SAVE[n], to=ex[:1])
    for s in chk:
        A.ok(R, s.where)
        if not ctl(s.args[1], "version") or not ctl(s.args[2], "systemId") or not hasCall(s.args[0], "storageRepoIdx"):
            A.bad(R, s.where, "checked against %s" % ", ".join(fmt(x)[:40] for x in s.args[:3]))
    R = "an existing stanza is checked before it is repaired"
    put = v.calls("storagePut")
    precede(A, v, chk, put, R, "a copy is made before the files were checked")
    # which copy is made from which
    R = "a missing info file is restored from the one that exists"
    stop = ("pgValidate", "cipherSpecGen", "checkStanzaInfoPg", *SAVE)
    for n in (A_INFO, B_INFO):
        own = lambda t, n=n: strHas(t, n)
        li = {"no0": exists(n, False, 0), "no1": exists(n, True, 0), "is0": exists(n, False, 1), "is1": exists(n, True, 1)}
        ev = {"repo": "storageRepoIdxWrite()", "chk": "checkStanzaInfoPg()", "w": ("storageNewWrite()", lambda ctx, own=own: own(ctx.arg(1))), "r": ("storageNewRead()", lambda ctx, own=own: own(ctx.arg(1)))}
        f = A.flow("cmdStanzaCreate", ev, li, noInline=stop, stop=stop, trackArgs={"storageNewWrite": [1], "storageNewRead": [1]}, kill={"repo": set(li) | {"w", "r", "chk"}}, sticky=set(li), latch={"lost": ("repo", lambda st: has(st, "chk") and not has(st, "w") and not (has(st, "is0") and has(st, "is1")))})
        for lab in ("w", "r"):
            for o in f.occ[lab].values():
                for m, c in ((1, 0), (0, 1)):
                    if m and has(o.st, "no0") or not m and has(o.st, "is0") or c and has(o.st, "no1") or not c and has(o.st, "is1"):
                        continue
                    x = resolve(o.args[1], n, m, c)
                    A.ok(R, o.where)
                    if x is None:
                        A.unsure("%s: file %s" % (o.where, fmt(o.args[1])[:100]))
                    elif x.endswith(".copy") != bool(m if lab == "w" else c):
                        A.bad(R, o.where, "%s is %s when only %s%s exists" % (x, "written" if lab == "w" else "read", n, "" if m else ".copy"), f.ex.trace(o.node))
        A.must(f, lambda st: not has(st, "lost") and (not has(st, "chk") or has(st, "w") or has(st, "is0") and has(st, "is1")), R)
        if not f.occ["w"]:
            A.bad(R, A.loc("cmdStanzaCreate"), "a missing %s is not restored" % n)
        A.guard(f, "w", [lambda st: not (has(st, "is0") and has(st, "is1")), lambda st: has(st, "no0") or has(st, "no1")], R, min=0)
    # both missing copies handled in the last repository (earlier ones are alike)
    for s in put:
        A.ok(R, s.where)
        if not hasCall(s.args[0], "storageRepoIdxWrite") or not hasCall(s.args[1], "storageGet"):
            A.bad(R, s.where, "%s is written" % fmt(s.args[1])[:80])


def p_key(A):
    v = View(A, "cipherSpecGen")
    R = "keys of a stanza are random and unpredictable"
    rnd = v.calls("cryptoRandomBytes")
    mk = v.calls("cipherSpecNew")
    none = v.calls("cipherSpecNewNone")
    tyNone = A.prog.enum("cipherTypeNone")
    precede(A, v, rnd, mk, R, "the key is not random")
    isTy = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[1] == ("p", 0) and a[2] == ("int", tyNone), set(), "type none")
    precede(A, v, [], none, R, "a repository with encryption is created without a key", [isTy])
    for s in rnd:
        A.ok(R, s.where)
        if s.args[1][0] == "int" and int(s.args[1][1]) < 32:
            A.bad(R, s.where, "only %s random bytes" % s.args[1][1])
    for s in mk:
        A.ok(R, s.where)
        if s.args[0] != ("p", 0):
            A.bad(R, s.where, "type is %s" % fmt(s.args[0]))
        if not any(x[0] == "out" and x[1] == "cryptoRandomBytes" for x in walkTerm(s.args[1])):
            A.bad(R, s.where, "the key is %s" % fmt(s.args[1])[:150])
    # the size given to the encoder
    for s in v.calls("strNewEncode"):
        for x in walkTerm(s.args[1]):
            if x[0] == "int" and rnd and rnd[0].args[1][0] == "int" and 1 < int(x[1]) < int(rnd[0].args[1][1]):
                A.bad(R, s.where, "only %s of the random bytes are used" % x[1])


def eqf(f):
    """literal: field f of the two is equal"""
    return LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[1][0] == "fld" and a[2][0] == "fld" and a[1][2] == f and a[2][2] == f and a[1][1] != a[2][1], {f}, "equal " + f)


def p_info(A):
    R = "archive.info and backup.info agree on cluster history, version and system identifier"
    v = View(A, "checkStanzaInfo")
    for f in ("id", "systemId", "version"):
        precede(A, v, [], [exitAt(v)], R, "%s is not compared" % f, [eqf(f)])
    v = View(A, "checkStanzaInfoPg", noInline=("checkStanzaInfo",))
    cmp = v.calls("checkStanzaInfo")
    precede(A, v, cmp, [exitAt(v)], R, "the info files are not compared")
    v = View(A, "checkStanzaInfoPg", alsoInline=("checkStanzaInfo",))
    R = "a stanza belongs to the cluster it is used with"
    for f, i in (("version", 1), ("systemId", 2)):
        lit = LitFn(lambda a, pol, f=f, i=i: pol is True and a[0] == "eq" and any(x == ("p", i) and y[0] == "fld" and y[2] == f for x, y in ((a[1], a[2]), (a[2], a[1]))), {f}, f)
        precede(A, v, [], [exitAt(v)], R, "%s is not compared" % f, [lit])
    for s in v.calls("infoArchiveLoadFile", "infoBackupLoadFile"):
        A.ok(R, s.where)
        if s.args[0] != ("p", 0) or s.args[2] != ("p", 3):
            A.bad(R, s.where, "%s is loaded" % fmt(s.args[0]))


def exitAt(v):
    e = exitOf(v)
    e.where = v.entry
    return e


def p_upgrade(A):
    v = View(A, "cmdStanzaUpgrade", noInline=("pgValidate", "checkStanzaInfo", "infoArchivePgSet", "infoBackupPgSet"))
    save = v.calls(*SAVE)
    sets = v.calls("infoArchivePgSet", "infoBackupPgSet")
    chk = v.calls("checkStanzaInfo")
    load = v.calls("infoArchiveLoadFile", "infoBackupLoadFile")
    R = "an upgrade is saved only when archive.info and backup.info agree"
    precede(A, v, chk, save, R, "saved without comparison")
    for s in chk:
        A.ok(R, s.where)
    R = "the history of an upgrade extends the stored history"
    for s in sets:
        A.ok(R, s.where, 2)
        ld = "infoArchiveLoadFile" if s.name == "infoArchivePgSet" else "infoBackupLoadFile"
        if not hasCall(s.args[0], ld):
            A.bad(R, s.where, "%s is extended" % fmt(s.args[0])[:80])
        if not ctl(s.args[1], "version") or not ctl(s.args[2], "systemId") or s.name == "infoBackupPgSet" and not ctl(s.args[3], "catalogVersion"):
            A.bad(R, s.where, "%s is stored" % ", ".join(fmt(x)[:40] for x in s.args[1:4]))
    for s in save:
        A.ok(R, s.where, 3)
        ld = s.name.replace("Save", "Load")
        w, k, l = callOf(s.args[1], "storageRepoIdxWrite"), callOf(s.args[3], "cfgCipherSpecMainIdx"), callOf(s.args[0], ld)
        if w is None or not isFile(s.args[2], SAVE[s.name], False) or l is None:
            A.bad(R, s.where, "%s is written to %s" % (fmt(s.args[0])[:60], fmt(s.args[1])[:60]))
            continue
        r = callOf(l[2][0], "storageRepoIdx", "storageRepoIdxWrite")
        if k is None or k[2][0] != w[2][0] or r is None or r[2][0] != w[2][0]:
            A.bad(R, s.where, "what was read from %s is written to %s with %s" % (fmt(l[2][0])[:40], fmt(s.args[1])[:40], fmt(s.args[3])[:60]))
    R = "an upgraded history is saved"
    for n in SAVE:
        p = n.replace("SaveFile", "PgSet")
        if not any(s.name == n for s in save):
            A.bad(R, A.loc("cmdStanzaUpgrade"), "%s is not saved" % SAVE[n])
            continue
        stop = ("pgValidate", "checkStanzaInfo", "infoArchivePgSet", "infoBackupPgSet", *SAVE)
        f = A.flow("cmdStanzaUpgrade", {"set": p + "()", "save": n + "()", "load": n.replace("Save", "Load") + "()"}, noInline=stop, stop=stop, kill={"load": {"set", "save"}, "set": {"save"}},
                   latch={"lost": ("load", lambda st: has(st, "set") and not has(st, "save"))})
        A.must(f, lambda st: not has(st, "lost") and (not has(st, "set") or has(st, "save")), R)
    R = "the history is extended exactly if version or system identifier changed"
    def cmpf(f, ld, pol0):
        def t(a, pol):
            return a[0] == "eq" and pol is pol0 and any(ctl(x, f) and y[0] == "fld" and y[2] == f and hasCall(y, ld) for x, y in ((a[1], a[2]), (a[2], a[1])))
        return LitFn(t, {f}, ("same " if pol0 else "other ") + f)
    for n in SAVE:
        ld, p = n.replace("Save", "Load"), n.replace("SaveFile", "PgSet")
        ss = [s for s in sets if s.name == p]
        precede(A, v, [], ss, R, "the history is extended although nothing changed", [cmpf("version", ld, False), cmpf("systemId", ld, False)])
        for f in ("version", "systemId"):
            follow(A, v, [s for s in load if s.name == ld], ss, R, "the history is not extended although the %s changed" % f, [cmpf(f, ld, True)])
            follow(A, v, [s for s in load if s.name == ld], ss, R, "the history is not extended although the %s changed" % f, [cmpf(f, ld, True)], to=load[:1])


def p_set(A):
    R = "a new history entry gets an identifier of its own"
    v = View(A, "infoPgSet")
    for w, t in [(s.where, s.args[0]) for s in v.inits("InfoPgData", "id")]:
        A.ok(R, w)
        if not (hasCall(t, "infoPgCurrentDataId", "infoPgDataCurrentId") or mentionsField(t, "historyCurrent") or mentionsField(t, "id")) or not any(x[0] == "op" and x[1] == "+" and ("int", 1) in x[2:] for x in walkTerm(t)):
            A.bad(R, w, "the identifier is %s" % fmt(t)[:80])
    for f, i in (("version", 1), ("systemId", 2), ("catalogVersion", 3)):
        for w, t in [(s.where, s.args[0]) for s in v.inits("InfoPgData", f)]:
            A.ok(R, w)
            if ("p", i) not in [x for x, _ in alts(t)]:
                A.bad(R, w, "%s is %s" % (f, fmt(t)[:80]))


def p_delete(A):
    v = View(A, "cmdStanzaDelete")
    e = A.prog.enum
    isStop = lambda t: hasCall(t, "lockStopFileName") or strHas(t, ".stop")
    rem = [s for s in v.calls("storageRemove", "storagePathRemove") if hasCall(s.args[0], "storageRepoWrite", "storageRepoIdxWrite")]
    stop = [s for s in v.calls("storageRemove") if isStop(s.args[1])]
    path = {x: [s for s in rem if s.name == "storagePathRemove" and strHas(s.args[1], "<REPO:%s>" % x)] for x in ("ARCHIVE", "BACKUP")}
    lst = v.calls("storageList")
    evs = {"rem": ("storageRemove()|storagePathRemove()", lambda ctx: hasCall(ctx.arg(0), "storageRepoWrite", "storageRepoIdxWrite"))}
    li = {"aE": empty("ARCHIVE"), "bE": empty("BACKUP"), "stop": call("storageExists", 1, lambda t: isStop(t[2][1])), "force": call("cfgOptionBool", 1, lambda t: t[2][0] == ("int", e("cfgOptForce"))),
          "down": call("storageExists", 0, lambda t: strHas(t[2][1], "postmaster.pid"))}
    f = A.flow("cmdStanzaDelete", evs, li)
    empt = lambda st: has(st, "aE") and has(st, "bE")
    A.guard(f, "rem", [lambda st: has(st, "stop") or empt(st)], "a stanza with content is deleted only after stop was run for it")
    A.guard(f, "rem", [lambda st: has(st, "force") or has(st, "down") or empt(st)], "a stanza with content is deleted only when PostgreSQL is down, or with force")
    R = "an interrupted delete leaves no stanza that looks usable, and can be repeated"
    for x, n in (("ARCHIVE", A_INFO), ("BACKUP", B_INFO)):
        for c in (False, True):
            fs = [s for s in rem if s.name == "storageRemove" and isFile(s.args[1], n, c)]
            if path["ARCHIVE"] + path["BACKUP"]:
                precede(A, v, fs, path["ARCHIVE"] + path["BACKUP"], R, "%s%s is still there when content is removed" % (n, ".copy" if c else ""), [empty(x)])
        if stop:
            precede(A, v, path[x], stop, R, "the stop file is removed before the content", [call("storageList", 0, lambda t, x=x: strHas(t, "<REPO:%s>" % x))])
    R = "delete removes all of the stanza"
    for x in path:
        if not path[x]:
            A.bad(R, A.loc("cmdStanzaDelete"), "the %s directory stays" % x.lower())
            continue
        follow(A, v, [s for s in lst if strHas(s.args[1], "<REPO:%s>" % x)], path[x], R, "the %s directory stays" % x.lower(), [call("storageList", 0, lambda t, x=x: strHas(t, "<REPO:%s>" % x))])
        for s in path[x]:
            A.ok(R, s.where)
            if structArg(s.args[2], "recurse") != ("int", 1):
                A.bad(R, s.where, "its content stays")
    R = "delete touches only the stanza"
    for s in rem:
        A.ok(R, s.where)
        if not strs(s.args[1]) or not all(x.startswith("<REPO:") or x.startswith("archive.info") or x.startswith("backup.info") or x.startswith("/") for x in strs(s.args[1])):
            A.bad(R, s.where, "%s is removed" % fmt(s.args[1])[:80])
