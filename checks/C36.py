"""Commands that only look change nothing; no storage can be written in a dry run."""
from flow import LitFn, has
from graph import fmt, walkTerm
from lib import View, hasCall, implies, structArg

ASSUME = ["a storage is changed only through the functions of storage/storage.h or by system calls (functions of storage drivers are called through it)",
          "the SFTP known hosts file, lock files and log files are not part of what a command looks at"]

WRITES = "a command that only looks reaches nothing that changes a storage"
SYSTEM = "a command that only looks makes no system call that changes a file"
ONLY = "each command runs its own function only"
DRY = "no storage can be written in a dry run"
HANDLE = "what is asked for reading is opened for reading"
LOCK = "a lock file is removed only when that was asked for, and only by stop"

ROOTS = ("cmdInfo", "cmdVerify", "cmdManifest", "cmdStorageGet", "cmdStorageList", "cmdCheck", "cmdHelp", "cmdServerPing", "verifyFileProtocol")
CHANGE = ("storageNewWrite", "storageRemove", "storagePathRemove", "storagePathCreate", "storageMove", "storageCopy", "storagePut", "storageLinkCreate", "storagePathSync",
          "storageRepoWrite", "storageRepoIdxWrite", "storagePgWrite", "storagePgIdxWrite", "storageSpoolWrite", "storageLocalWrite")
CALLS = ("unlink", "rename", "mkdir", "rmdir", "chmod", "fchmod", "chown", "lchown", "fchown", "link", "symlink", "truncate", "ftruncate", "utimes", "utime", "utimensat", "kill", "remove", "mkstemp", "creat")
KEEP = ("storageSftpUpdateKnownHostsFile",)
# The function that runs a command
OWN = {"cmdAnnotate": "Annotate", "cmdArchiveGet": "ArchiveGet", "cmdArchiveGetAsync": "ArchiveGet", "cmdArchivePush": "ArchivePush", "cmdArchivePushAsync": "ArchivePush", "cmdBackup": "Backup",
       "cmdCheck": "Check", "cmdExpire": "Expire", "cmdInfo": "Info", "cmdManifest": "Manifest", "cmdStorageGet": "RepoGet", "cmdStorageList": "RepoLs", "cmdStorageRemove": "RepoRm",
       "cmdRestore": "Restore", "cmdServer": "Server", "cmdServerPing": "ServerPing", "cmdStanzaCreate": "StanzaCreate", "cmdStanzaDelete": "StanzaDelete", "cmdStanzaUpgrade": "StanzaUpgrade",
       "cmdStart": "Start", "cmdStop": "Stop", "cmdVerify": "Verify", "cmdHelp": None}


def chain(par, t):
    out = [t]
    while par[out[-1]] is not None:
        out.append(par[out[-1]])
    return list(reversed(out))


def p_reach(A):
    for r in ROOTS:
        if r not in A.prog.fns:
            A.unsure("%s() is gone" % r, WRITES)
            continue
        par = A.prog.reach([r], addr=True, stop=KEEP)
        for t in CHANGE:
            if t in par:
                c = chain(par, t)
                A.bad(WRITES, A.loc(c[-2]) if len(c) > 1 and c[-2] in A.prog.fns else A.loc(r), "%s() can reach %s(): %s" % (r, t, " > ".join(c)), c)
        A.ok(WRITES, A.loc(r), len(par))
        # System calls outside of the drivers, which are reached through the functions above only
        par = A.prog.reach([r], addr=False, stop=KEEP)
        for t in CALLS:
            for c in A.prog.callers().get(t, ()):
                if c in par and c in A.prog.fns and not A.prog.fns[c].file.startswith("storage/") and c != "lockRead":
                    A.bad(SYSTEM, A.loc(c), "%s() can reach %s() in %s: %s" % (r, t, c, " > ".join(chain(par, c))))
        A.ok(SYSTEM, A.loc(r), len(par))


def p_lock(A):
    f = A.flow("lockRead", {"rm": "unlink()|storageRemove()"},
               {"ask": LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "fld" and a[1][2] == "remove", {"remove"}, "the file is to be removed")}, sticky=["ask"])
    A.guard(f, "rm", ["ask"], LOCK, min=0)
    for c in A.prog.callers().get("lockRead", ()):
        v = View(A, c, noInline=("lockRead",))
        for s in v.calls("lockRead"):
            rm = structArg(s.args[1], "remove")
            root = A.prog.reach(["cmdStop"], addr=False)
            if rm not in (None, ("int", 0)) and (c not in root or any(c in A.prog.reach([r], addr=False) for r in ROOTS)):
                A.bad(LOCK, s.where, "%s() removes a lock file when it reads it" % c)
            A.ok(LOCK, s.where)


def val(A, e):
    if isinstance(e, (list, tuple)):
        if e[0] in ("int", "i"):
            return e[1]
        if e[0] == "e":
            return e[2] if len(e) > 2 and isinstance(e[2], int) else A.prog.enum(e[1])
    return None


def p_main(A):
    names = sorted(set(A.prog.callees("main")[0]) & set(OWN))
    if len(names) < 15:
        A.unsure("the commands are not run by main()", ONLY)
        return

    def isCmd(n):
        return lambda a, pol: pol is True and a[0] == "eq" and hasCall(a[1], "cfgCommand") and val(A, a[2]) == A.prog.enum("cfgCmd" + n)
    lit = {n: LitFn(isCmd(n), {"cfgCommand"}, "the command is " + n) for n in set(OWN.values()) if n}
    lit["auto"] = LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "cfgOptionBool") and ("int", A.prog.enum("cfgOptExpireAuto")) in list(walkTerm(a[1])), {"cfgOptionBool"}, "expire-auto")
    f = A.flow("main", {n: n + "()" for n in names}, lit, noInline=tuple(A.prog.callees("main")[0]), sticky=list(lit))
    for n in names:
        for o in f.occ[n].values():
            own = OWN[n]
            if own is None:
                continue
            if has(o.st, own) or n == "cmdExpire" and has(o.st, "Backup") and has(o.st, "cmdBackup") and has(o.st, "auto"):
                A.ok(ONLY, o.where)
            else:
                got = [x for x in f.labels(o.st) if x in OWN.values()]
                A.bad(ONLY, o.where, "%s() is run for the command %s" % (n, ", ".join(got) or "(any)"))


def p_dry(A):
    def field(name, want):
        return LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is want and a[1][0] in ("fld", "ofld") and a[1][2] == name, {name}, ("not " if want else "") + name)
    for fn, get in (("storagePgIdxWrite", "storagePgGet"), ("storageRepoIdxWrite", "storageRepoGet"), ("storageSpoolWrite", None)):
        if fn not in A.prog.fns:
            A.unsure("%s() is gone" % fn, DRY)
            continue
        f = A.flow(fn, {}, {"init": field("dryRunInit", False), "real": field("dryRun", True)}, sticky=["init", "real"], trackRet=True)
        for (st, ret), node in f.exits.items():
            if has(st, "init") and has(st, "real"):
                A.ok(DRY, A.loc(fn))
            else:
                A.bad(DRY, A.loc(fn), "%s() returns a storage that can be written %s" % (fn, "in a dry run" if has(st, "init") else "before it is known whether this is a dry run"))
    v = View(A, "storageHelperDryRunInit")
    for s in [x for x in v.inits("StorageHelperLocal", "dryRun")] or []:
        if s.args[-1] != ("p", 0):
            A.bad(DRY, s.where, "the dry run is %s" % fmt(s.args[-1])[:80])
        A.ok(DRY, s.where)
    for c in A.prog.callers().get("storageHelperDryRunInit", ()):
        for s in View(A, c, noInline=("storageHelperDryRunInit", "cfgOptionBool", "cfgOptionValid")).calls("storageHelperDryRunInit"):
            t = s.args[0]
            k = ("int", A.prog.enum("cfgOptDryRun"))

            def unset(a, pol):
                return pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("cfgOptionValid", "cfgOptionBool", "cfgOptionTest") and k in a[1][2]
            for x in [x for x in (t[1] if t[0] == "phi" else [t]) if t[0] != "phi" or x != ("int", 0)]:
                if not implies(x, False, [unset]):
                    A.bad(DRY, s.where, "a dry run is one only when %s" % fmt(x)[:100])
            A.ok(DRY, s.where)


def p_handle(A):
    for fn, get, i, want in (("storageRepoIdx", "storageRepoGet", 1, 0), ("storagePgIdx", "storagePgGet", 1, 0), ("storageRepoIdxWrite", "storageRepoGet", 1, 1), ("storagePgIdxWrite", "storagePgGet", 1, 1)):
        if fn not in A.prog.fns or get not in A.prog.fns:
            A.unsure("%s() is gone" % fn, HANDLE)
            continue
        for s in View(A, fn, noInline=(get,)).calls(get):
            if s.args[i] != ("int", want):
                A.bad(HANDLE, s.where, "%s() asks for a storage with write = %s" % (fn, fmt(s.args[i])))
            A.ok(HANDLE, s.where)
    # Storages that are cached are of the kind they are cached as
    for fn, own, other in (("storageRepoIdx", "storageRepo", "storageRepoWrite"), ("storagePgIdx", "storagePg", "storagePgWrite"), ("storageSpool", "storageSpool", "storageSpoolWrite"), ("storageLocal", "storageLocal", "storageLocalWrite")):
        if fn not in A.prog.fns:
            continue
        f = A.flow(fn, {}, {}, trackRet=True)
        for (st, ret), node in f.exits.items():
            if ret is not None and any(x[0] in ("fld", "ofld") and x[2] == other for x in walkTerm(ret)):
                A.bad(HANDLE, A.loc(fn), "%s() returns a storage that can be written" % fn)
            A.ok(HANDLE, A.loc(fn))
        for s in View(A, fn).calls("storagePosixNew"):
            if structArg(s.args[1], "write") not in (None, ("int", 0)) and s.args[1][0] == "struct" and structArg(s.args[1], "write")[0] == "int":
                A.bad(HANDLE, s.where, "%s() opens the storage for writing" % fn)
