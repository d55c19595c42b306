"""Encryption: nothing is stored unencrypted in an encrypted repository, every file has the key that belongs to it, and the cipher is used properly."""
from flow import LitFn
from lib import View, callOf, follow, hasCall, mentionsField, precede, rel, relLit, strHas, structArg
from graph import fmt, walkTerm
from C16 import call

ASSUME = ["OpenSSL implements the ciphers, the key derivation and the random numbers it promises",
          "the files on the other end of a protocol pack are the ones it was written with (checked by the wire rules of the commands)"]
KEYS = ("manifestCipherSpec", "infoBackupCipherSpec", "infoArchiveCipherSpec", "cfgCipherSpecMain", "cfgCipherSpecMainIdx", "cipherSpecNewNone", "cipherSpecNewPack", "cipherSpecDup", "cipherSpecGen")
FILT = ("cipherBlockFilterGroupAdd", "cipherBlockNew", "cipherBlockNewPack", "compressFilter", "decompressFilter", "backupFileRepoPath", "compressTypeFromName", "cipherSpecType")
MAIN, ARCHIVE, BACKUP, FILES, NONE = "main key", "archive key", "key of the manifests", "key of the backup", "no key"
KIND = {"manifestCipherSpec": FILES, "infoBackupCipherSpec": BACKUP, "infoArchiveCipherSpec": ARCHIVE, "cfgCipherSpecMain": MAIN, "cfgCipherSpecMainIdx": MAIN, "cipherSpecNewNone": NONE}


def modes(A):
    return ("int", A.prog.enum("cipherModeEncrypt")), ("int", A.prog.enum("cipherModeDecrypt"))


def none(A):
    e = A.prog.enum("cipherTypeNone")
    return LitFn(lambda a, pol: (lambda r: r is not None and any(x[0] == "call" and x[1] == "cipherSpecType" and y == ("int", e) and o == "==" for x, o, y in (r, (r[2], r[1], r[0]))))(rel(a, pol)), {"cipherSpecType"}, "no cipher")


# ------------------------------------------------------------------------------------------------- keys
class Kinds:
    """What key a term is: parameters are followed to the callers, fields to all that store them, packed keys to what the command packs."""
    def __init__(self, A):
        self.A, self.views, self.busy = A, {}, set()

    def view(self, f):
        v = self.views.get(f)
        if v is None:
            v = self.views[f] = View(self.A, f, noInline=KEYS + FILT)
        return v

    def of(self, t, f, d=0):
        k = t[0]
        if k == "call" and t[1] in KIND:
            return {KIND[t[1]]}
        if k == "call" and t[1] == "cipherSpecDup":
            return self.of(t[2][0], f, d)
        if k == "call" and t[1] == "cipherSpecNewPack":
            return self.packed(f, d)
        if k == "call" and t[1] == "cipherSpecGen":
            return {"new key"}
        if k == "phi":
            return set().union(*(self.of(x, f, d) for x in t[1]))
        if k == "ite":
            return self.of(t[2], f, d) | self.of(t[3], f, d)
        if k == "int":
            return set()
        if k == "fld" and d < 14:
            return self.field(t[2], d)
        if k == "p" and d < 14:
            return self.param(f, t[1], d)
        return {None}

    def param(self, f, i, d):
        if (f, i) in self.busy:
            return set()
        self.busy.add((f, i))
        out = set()
        cs = self.A.prog.callers().get(f, ())
        for c in cs:
            for s in self.own(c, f):
                out |= self.of(s.args[i], c, d + 1)
        self.busy.discard((f, i))
        return out if cs else {None}

    def own(self, c, *names):
        v = self.views.get((c, names))
        if v is None:
            v = self.views[(c, names)] = View(self.A, c, noInline=tuple(names) + KEYS + FILT)
        return [s for s in v.calls(*names) if s.inst.fn.name == c]

    def field(self, name, d):
        if name in self.busy:
            return set()
        self.busy.add(name)
        out = set()
        n = 0
        prog = self.A.prog
        for f, fn in prog.fns.items():
            if fn.inheader or not mentions(fn, name):
                continue
            v = self.view(f)
            for s in stores(v, name):
                if s.inst.fn.name == f:
                    n += 1
                    out |= self.of(s.args[0], f, d + 1)
        self.busy.discard(name)
        return out if n else {None}

    def packed(self, f, d):
        import os
        prog = self.A.prog
        here = os.path.dirname(prog.fns[f].file)
        out, n = set(), 0
        for c in prog.callers().get("cipherSpecPack", ()):
            if os.path.dirname(prog.fns[c].file) != here:
                continue
            for s in self.own(c, "cipherSpecPack"):
                n += 1
                out |= self.of(s.args[1], c, d + 1)
        return out if n else {None}


def mentions(fn, name):
    c = getattr(fn, "_words", None)
    if c is None:
        c = fn._words = set()

        def walk(e):
            if isinstance(e, dict):
                for k, v in e.items():
                    c.add(k)
                    walk(v)
            elif isinstance(e, list):
                if len(e) > 2 and e[0] == "m":
                    c.add(e[2])
                for x in e:
                    walk(x)
        for p in fn.pts():
            walk(p.data)
    return name in c


def stores(v, name):
    """What the field of that name gets, in any record."""
    recs = set()

    def walk(e):
        if isinstance(e, dict):
            e = list(e.values())
        if isinstance(e, list):
            if len(e) == 3 and e[0] == "S" and isinstance(e[2], dict) and name in e[2]:
                recs.add(e[1])
            for x in e:
                walk(x)
    for p in v.g.root.fn.pts():
        walk(p.data)
    out = v.assigns(None, name)
    seen = {s.gid for s in out}
    for r in sorted(recs):
        out += [s for s in v.inits(r, name) if s.gid not in seen]
    return out


def want(path):
    """The key a file has by its name: None if the name does not tell."""
    s = [x[1] for x in walkTerm(path) if x[0] == "str"]
    t = " ".join(s)
    if "archive.info" in t or "backup.info" in t:
        return MAIN
    if ".manifest" in t:
        return BACKUP
    if "<REPO:ARCHIVE>" in t:
        return ARCHIVE
    return None


# functions that handle one kind of file under any name
BY = {"archiveGetFile": {ARCHIVE}, "archivePushFile": {ARCHIVE}, "backupFile": {FILES}, "backupFileBlockIncr": {FILES}, "backupFilePut": {FILES}, "blockDeltaNext": {FILES}, "restoreFile": {FILES},
      "cmdManifestBlockDeltaRender": {FILES}, "verifyFile": {ARCHIVE, FILES, NONE}}


def p_keys(A):
    R = "every file is encrypted and decrypted with its own key"
    K = Kinds(A)
    enc, dec = modes(A)
    c = A.prog.callers()
    n = 0
    for f in sorted(set().union(*(c.get(x, set()) for x in ("cipherBlockFilterGroupAdd", "cipherBlockNew")))):
        if A.prog.fns[f].file.startswith("common/crypto/") or "/common/crypto/" in A.prog.fns[f].file:
            continue
        for s in K.own(f, "cipherBlockFilterGroupAdd", "cipherBlockNew"):
            key = s.args[2] if s.name == "cipherBlockFilterGroupAdd" else s.args[1]
            exp = BY.get(f)
            if exp is None and s.name == "cipherBlockFilterGroupAdd":
                io = callOf(s.args[0], "storageNewRead") or callOf(s.args[0], "storageNewWrite")
                if io is not None:
                    read = hasCall(s.args[0], "storageNewRead")
                    mode = s.args[1]
                    if read and mode == enc:
                        # what is encrypted on the way from one file to another gets the key of the other
                        w = [x for x in K.own(f, "storageNewWrite") if hasCall(x.args[1], "backupFileRepoPath")]
                        exp = {FILES} if w else None
                    else:
                        e = want(io[2][1])
                        exp = {e} if e else None
            if exp is None:
                continue
            n += 1
            A.ok(R, s.where)
            for k in K.of(key, f) - exp:
                if k is None:
                    A.unsure("%s: key %s is not known" % (s.where, fmt(key)[:60]))
                else:
                    A.bad(R, s.where, "the %s is used instead of the %s" % (k, " or ".join(sorted(exp))))
    for f in sorted(c.get("manifestLoadFile", ())):
        for s in K.own(f, "manifestLoadFile"):
            n += 1
            A.ok(R, s.where)
            for k in K.of(s.args[2], f) - {BACKUP}:
                if k is None:
                    A.unsure("%s: key %s is not known" % (s.where, fmt(s.args[2])[:60]))
                else:
                    A.bad(R, s.where, "the %s is used to read a manifest" % k)
    for fn, i in (("infoArchiveLoadFile", 2), ("infoBackupLoadFile", 2), ("infoBackupLoadFileReconstruct", 2), ("infoArchiveSaveFile", 3), ("infoBackupSaveFile", 3)):
        for f in sorted(c.get(fn, ())):
            for s in K.own(f, fn):
                n += 1
                A.ok(R, s.where)
                for k in K.of(s.args[i], f) - {MAIN}:
                    if k is None:
                        A.unsure("%s: key %s is not known" % (s.where, fmt(s.args[i])[:60]))
                    else:
                        A.bad(R, s.where, "the %s is used for an info file" % k)
    if n < 40:
        A.unsure("only %d uses of keys found" % n)
    R = "a field that holds a key holds the key of its name"
    for fld, exp in (("cipherSpecArchive", {ARCHIVE}), ("cipherSpecManifest", {BACKUP}), ("cipherSpecBackup", {FILES})):
        got = K.field(fld, 0)
        A.ok(R, fld)
        for k in got - exp:
            if k is None:
                A.unsure("%s is not known" % fld)
            else:
                A.bad(R, fld, "the %s is stored" % k)


def p_verify(A):
    R = "verify reads each file with its own key"
    v = View(A, "verifyProcess", noInline=KEYS + FILT + ("verifyInfoFile",))
    K = Kinds(A)
    n = 0
    for f in ("verifyArchiveInfoFile", "verifyBackupInfoFile", "verifyManifest", "verifyProcess"):
        if f not in A.prog.fns:
            continue
    for f in sorted(A.prog.callers().get("verifyInfoFile", ())):
        for s in K.own(f, "verifyInfoFile"):
            e = want(s.args[0])
            if e is None:
                continue
            n += 1
            A.ok(R, s.where)
            for k in K.of(s.args[2], f) - {e}:
                if k is not None:
                    A.bad(R, s.where, "the %s is used instead of the %s" % (k, e))
    if n < 4:
        A.unsure("verifyInfoFile: %d calls with a known file" % n)
    for f, exp in (("verifyArchive", {ARCHIVE}), ("verifyBackup", {FILES, NONE})):
        for s in K.own(f, "cipherSpecPack"):
            A.ok(R, s.where)
            for k in K.of(s.args[1], f) - exp:
                if k is not None:
                    A.bad(R, s.where, "the %s is used for files of %s" % (k, "the archive" if f == "verifyArchive" else "a backup"))


# ------------------------------------------------------------------------------------------------- nothing unencrypted
def isRepo(t):
    return t[0] == "call" and t[1] in ("storageRepoWrite", "storageRepoIdxWrite")


def p_stored(A):
    R = "an encrypted repository gets only encrypted files"
    enc, dec = modes(A)
    nc = none(A)
    c = A.prog.callers()
    n = 0
    for f in sorted(c.get("storageNewWrite", ())):
        v = View(A, f, noInline=KEYS + FILT)
        ws = [s for s in v.calls("storageNewWrite") if s.inst.fn.name == f and isRepo(s.args[0])]
        if not ws or f == "backupFile":                         # backupFile: C08 has the rule for it
            continue
        cry = []                                                # (site, mode, group)
        for s in v.calls("cipherBlockFilterGroupAdd"):
            cry.append((s, s.args[1], s.args[0]))
        for s in v.calls("ioFilterGroupAdd"):
            k = callOf(s.args[1], "cipherBlockNew")
            if k is not None:
                cry.append((s, k[2][0], s.args[0]))
        copies = v.calls("storageCopy")
        for w in ws:
            n += 1
            cp = [s for s in copies if hasCall(s.args[1], "storageNewWrite") and own(s.args[1], w)]
            pt = [s for s in v.calls("storagePut") if own(s.args[0], w)]
            if pt and all(callOf(s.args[1], "storageGet") is not None and inRepo(callOf(s.args[1], "storageGet")) for s in pt):
                A.ok(R, w.where)                                # a file of the repository is copied as it is
                continue
            src = [w]
            grp = [s for s, m, g in cry if m == enc and own(g, w)]
            if cp and not grp:
                if inRepo(cp[0].args[0]) and \
                        not [1 for s, m, g in cry if m == dec and shares(g, cp[0].args[0])] and not hasCall(cp[0].args[0], "decompressFilter"):
                    A.ok(R, w.where)                            # a file of the repository is copied as it is
                    continue
                grp = [s for s, m, g in cry if m == enc and shares(g, cp[0].args[0])]
                reads = [s for s in v.calls("storageNewRead") if own(cp[0].args[0], s)]
                follow(A, v, reads or [], grp, R, "%s is written without encryption" % fmt(w.args[1])[:60], [nc], to=cp) if reads else A.unsure("%s: source not found" % w.where)
                continue
            follow(A, v, src, grp, R, "%s is written without encryption" % fmt(w.args[1])[:60], [nc])
    if n < 6:
        A.unsure("only %d files written to a repository found" % n)


def own(t, s):
    """Does the term contain the result of the call at the site?"""
    return any(x[0] == "call" and x[1] == s.name and x[2] == tuple(s.args) for x in walkTerm(t))


def inRepo(t):
    rd = callOf(t, "storageNewRead")
    return rd is not None and hasCall(rd[2][0], "storageRepo", "storageRepoIdx", "storageRepoWrite", "storageRepoIdxWrite")


def shares(g, r):
    """Is the filter group the one of the read?"""
    a = {x for x in walkTerm(g) if x[0] == "call" and x[1] == "storageNewRead"}
    b = {x for x in walkTerm(r) if x[0] == "call" and x[1] == "storageNewRead"}
    return bool(a & b)


# ------------------------------------------------------------------------------------------------- the cipher
def shallow(t, name):
    return t[0] == "fld" and t[2] == name or t[0] == "out" and isinstance(t[-1], tuple) and t[-1][-1:] == (name,) or t[0] == "phi" and all(x[0] == "int" or shallow(x, name) for x in t[1])


def okCall(A, R, v, names, what):
    """The call's failure is always an error: its result is given to cryptoError or decides whether to throw."""
    err = v.calls("cryptoError")
    for s in v.calls(*names):
        A.ok(R, s.where)
        used = any(hasCall(e.args[0], s.name) for e in err) or v.escape([s.gid], [v.g.root.base + v.g.root.fn.exit], [e.gid for e in err if e.args[0][0] == "int" and e.args[0][1]], [LitFn(lambda a, pol, n=s.name: a[0] == "eq" and a[2] == ("int", 0) and pol is False and hasCall(a[1], n), {s.name}, "ok")]) is None
        if not used:
            A.bad(R, s.where, what % s.name)


def p_block(A):
    enc, dec = modes(A)
    F = "cipherBlockProcess"
    v = View(A, F, noInline=("cryptoError", "cryptoRandomBytes", "cipherBlockProcessSize"))
    R = "a failing cipher operation is an error"
    names = ("EVP_CipherInit_ex", "EVP_CipherUpdate", "EVP_CipherFinal", "EVP_CIPHER_CTX_new", "EVP_CipherFinal_ex")
    if not v.calls(*names):
        A.unsure("no cipher operations found")
        return
    okCall(A, R, v, names, "the result of %s() is not checked")
    R = "every file is encrypted with its own random salt"
    key = v.calls("EVP_BytesToKey")
    rnd = v.calls("cryptoRandomBytes")
    if not key:
        A.unsure("key derivation not found")
    isEnc = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == dec and shallow(a[1], "mode") or a[0] == "eq" and pol is False and a[2] == enc and shallow(a[1], "mode"), {"mode"}, "decrypt")
    precede(A, v, rnd, key, R, "a key is derived without a new salt", [isEnc])
    for s in rnd:
        A.ok(R, s.where)
        if s.args[1][0] != "int" or int(s.args[1][1]) < 8:
            A.bad(R, s.where, "only %s bytes are random" % fmt(s.args[1]))
    for s in key:
        A.ok(R, s.where)
        if not mentionsField(s.args[3], "pass") or not mentionsField(s.args[4], "pass"):
            A.bad(R, s.where, "the key is derived from %s" % fmt(s.args[3])[:60])
        if not mentionsField(s.args[0], "cipher"):
            A.bad(R, s.where, "the key is derived for %s" % fmt(s.args[0])[:60])
        if s.args[2][0] == "int":
            A.bad(R, s.where, "the key is derived without salt")
    R = "data is encrypted when writing and decrypted when reading"
    for s in v.calls("EVP_CipherInit_ex"):
        A.ok(R, s.where)
        if not mentionsField(s.args[1], "cipher"):
            A.bad(R, s.where, "the cipher is %s" % fmt(s.args[1])[:60])
        t = s.args[5]
        good = t[0] == "op" and t[1] == "==" and t[3] == enc and mentionsField(t[2], "mode") or t[0] == "ite" or t[0] == "op" and t[1] == "!=" and t[3] == dec and mentionsField(t[2], "mode") or \
            t[0] == "not" and t[1][0] == "op" and t[1][1] == "==" and t[1][3] == dec
        if not good:
            A.bad(R, s.where, "the direction is %s" % fmt(t)[:60])
        for i in (3, 4):
            if s.args[i] == ("int", 0):
                A.bad(R, s.where, "the cipher is initialised without key or initial vector")
    R = "what is not an encrypted file is not accepted"
    magic = relLit(("==",), lambda t: t[0] == "call" and t[1] == "memcmp", lambda t: t == ("int", 0), {"memcmp"}, "magic found")
    raw = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and shallow(a[1], "raw"), {"raw"}, "raw")
    isDec = LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == enc and shallow(a[1], "mode") or a[0] == "eq" and pol is False and a[2] == dec and shallow(a[1], "mode"), {"mode"}, "encrypt")
    precede(A, v, [], key, R, "the header is not checked", [magic, raw, isDec])
    R = "an encrypted file that ends before its header is an error"
    salt = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and shallow(a[1], "saltDone"), {"saltDone"}, "salt done")
    precede(A, v, [], v.calls("EVP_CipherFinal", "EVP_CipherFinal_ex"), R, "a file without header is accepted", [salt])
    R = "the end of an encrypted file is always checked"
    dn = v.assigns("CipherBlock", "done")
    precede(A, v, v.calls("EVP_CipherFinal", "EVP_CipherFinal_ex"), [s for s in dn if s.args[0] != ("int", 0)], R, "the last block is not processed")
    R = "a cipher is initialised before data is processed"
    sd = v.assigns("CipherBlock", "saltDone")
    precede(A, v, v.calls("EVP_CipherInit_ex"), [s for s in sd if s.args[0] != ("int", 0)], R, "the header counts as read before the cipher was initialised")


def p_new(A):
    R = "a filter has the mode and key it was made for"
    F = "cipherBlockNew"
    v = View(A, F, noInline=("cipherSpecPack", "cipherSpecType", "cipherSpecPass"))
    for fld, good, txt in (("mode", lambda t: t == ("p", 0), "the mode"), ("pass", lambda t: hasCall(t, "cipherSpecPass"), "the key"), ("cipher", lambda t: hasCall(t, "EVP_get_cipherbyname") and hasCall(t, "cipherSpecType"), "the cipher"),
                           ("raw", lambda t: mentionsField(t, "raw") or any(x == ("p", 2) for x in walkTerm(t)), "the format")):
        ss = v.inits("CipherBlock", fld)
        if not ss:
            A.bad(R, A.loc(F), "%s is not kept" % txt)
        for s in ss:
            A.ok(R, s.where)
            if not good(s.args[0]):
                A.bad(R, s.where, "%s is %s" % (txt, fmt(s.args[0])[:60]))
    R = "the parameters of a filter reach the process that runs it"
    seq = v.calls("pckWriteU64", "cipherSpecPack", "pckWriteBool")
    if [s.name for s in seq] == ["pckWriteU64", "cipherSpecPack", "pckWriteBool"]:
        A.ok(R, seq[0].where)
        if seq[0].args[1] != ("p", 0):
            A.bad(R, seq[0].where, "the mode is %s" % fmt(seq[0].args[1])[:60])
        if seq[1].args[1] != ("p", 1):
            A.bad(R, seq[1].where, "the key is %s" % fmt(seq[1].args[1])[:60])
        if seq[2].args[1] == ("int", 0) or seq[2].args[1] == ("int", 1):
            A.bad(R, seq[2].where, "the format is %s" % fmt(seq[2].args[1])[:60])
    v = View(A, "cipherBlockNewPack", noInline=("cipherBlockNew", "cipherSpecNewPack"))
    for s in v.calls("cipherBlockNew"):
        A.ok(R, s.where)
        raw = structArg(s.args[2], "raw")
        if not hasCall(s.args[0], "pckReadU64") or not hasCall(s.args[1], "cipherSpecNewPack") or raw is None or not hasCall(raw, "pckReadBool"):
            A.bad(R, s.where, "a parameter is not the one that was sent")
    R = "a filter group gets the cipher unless there is none"
    v = View(A, "cipherBlockFilterGroupAdd", noInline=("cipherBlockNew", "cipherSpecType"))
    from lib import entryOf
    add = [s for s in v.calls("ioFilterGroupAdd") if callOf(s.args[1], "cipherBlockNew") is not None and s.args[0] == ("p", 0) and callOf(s.args[1], "cipherBlockNew")[2][:2] == (("p", 1), ("p", 2))]
    follow(A, v, [entryOf(v)], add, R, "no cipher is added", [none(A)])
    R = "a key keeps its type and passphrase"
    for f in ("cipherSpecNew", "cipherSpecNewPack"):
        v = View(A, f)
        ps = v.inits("CipherSpecPub", "pass")
        follow(A, v, [entryOf(v)], ps, R, "the passphrase is lost", [LitFn(lambda a, pol, e=A.prog.enum("cipherTypeNone"): a[0] == "eq" and a[2] == ("int", e) and pol is True, set(), "no cipher")])
        for s in v.inits("CipherSpecPub", "type"):
            A.ok(R, s.where)
            if f == "cipherSpecNew" and s.args[0] != ("p", 0) or f != "cipherSpecNew" and not hasCall(s.args[0], "pckReadStrId"):
                A.bad(R, s.where, "the type is %s" % fmt(s.args[0])[:60])
        for s in ps:
            A.ok(R, s.where)
            if f == "cipherSpecNew" and not any(x == ("p", 1) for x in walkTerm(s.args[0])):
                A.bad(R, s.where, "the passphrase is %s" % fmt(s.args[0])[:60])
    R = "the main key is the configured one"
    v = View(A, "cfgCipherSpecMainIdx", noInline=("cipherSpecNew", "cfgOptionIdxStr", "cfgOptionIdxStrId"))
    for s in v.calls("cipherSpecNew"):
        A.ok(R, s.where)
        k = callOf(s.args[0], "cfgOptionIdxStrId")
        if k is None or k[2][0] != ("int", A.prog.enum("cfgOptRepoCipherType")):
            A.bad(R, s.where, "the type is %s" % fmt(s.args[0])[:60])
        p = callOf(s.args[1], "cfgOptionIdxStr")
        if p is None or p[2][0] != ("int", A.prog.enum("cfgOptRepoCipherPass")):
            A.bad(R, s.where, "the passphrase is %s" % fmt(s.args[1])[:60])


def p_blockIncr(A):
    R = "blocks and block maps of an encrypted backup are encrypted"
    F = "blockIncrProcess"
    v = View(A, F, noInline=("cipherBlockNewPack", "compressFilterPack", "blockMapWrite"))
    adds = [s for s in v.calls("ioFilterGroupAdd") if hasCall(s.args[1], "cipherBlockNewPack")]
    noKey = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and mentionsField(a[1], "encryptParam"), {"encryptParam"}, "not encrypted")
    ws = v.calls("ioBufferWriteNew")
    follow(A, v, ws, adds, R, "blocks or maps are stored unencrypted", [noKey], to=v.calls("ioWriteOpen"))
    for s in adds:
        A.ok(R, s.where)
        if not mentionsField(s.args[1], "encryptParam"):
            A.bad(R, s.where, "the key is %s" % fmt(s.args[1])[:60])
    from lib import entryOf
    v = View(A, "blockIncrNew", noInline=("ioFilterParamList",))
    ss = [s for s in v.inits("BlockIncr", "encryptParam") if hasCall(s.args[0], "ioFilterParamList") and hasCall(s.args[0], "ioFilterParamList") and callOf(s.args[0], "ioFilterParamList")[2][0] == ("p", 8)]
    n8 = LitFn(lambda a, pol: a[0] == "eq" and a == ("eq", ("p", 8), ("int", 0)) and pol is True, set(), "no filter")
    follow(A, v, [entryOf(v)], ss, R, "the encryption filter is dropped", [n8])
    v = View(A, "blockIncrNewPack", noInline=("blockIncrNew", "cipherBlockNewPack", "compressFilterPack"))
    for s in v.calls("blockIncrNew"):
        A.ok(R, s.where)
        if not hasCall(s.args[8], "cipherBlockNewPack"):
            A.bad(R, s.where, "the encryption filter is %s" % fmt(s.args[8])[:60])
