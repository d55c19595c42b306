"""A completed file write is durable and atomic: temporary name, data synced, closed, renamed, directory synced; every failure is an error."""
from prog import AnalysisError

ASSUME = ["fsync/rename of the operating system behave as POSIX specifies", "object stores make a put visible all at once"]


def local(prog, name):
    """Calls made by a function and the static functions it uses."""
    out, work, seen = set(), [name], {name}
    while work:
        n = work.pop()
        for c in prog.callees(n)[0]:
            out.add(c)
            f = prog.fns.get(c)
            if f is not None and not f.ext and not f.inheader and c not in seen:
                seen.add(c)
                work.append(c)
    return out


def okLit(call):
    return [call + " != -1", call + " >= 0"]


def run(A):
    prog = A.prog
    closers = A.slot("StorageWriteInterface", "close")
    A.ok("drivers with a write close", ", ".join(closers), len(closers))

    # Local (POSIX) file systems -----------------------------------------------------------------------------------------------------------
    posix = [c for c in closers if {"rename", "fsync"} & local(prog, c)]
    if not posix:
        raise AnalysisError("the local file driver was not found")
    for c in posix[:1]:
        f = A.flow(
            c,
            {"fsync": "fsync(.fd)", "close": "close(.fd)", "rename": "rename(strZ(.nameTmp), strZ(.name))", "dirSync": "StorageInterface.pathSync(_, .path)",
             "anyRename": "rename()"},
            {"notOpen": ".fd == -1", "noSync": "!.syncFile", "notAtomic": "!.atomic", "noDirSync": "!.syncPath",
             "syncOk": okLit("fsync()"), "closeOk": okLit("close()"), "renameOk": okLit("rename()")})
        A.must(f, "fsync", "the data is synced before a write completes", unless=["notOpen", "noSync"])
        A.must(f, "close", "the file is closed before a write completes", unless=["notOpen"])
        A.must(f, "rename", "an atomic write is moved to its final name", unless=["notOpen", "notAtomic"])
        A.must(f, "dirSync", "the directory is synced before a write completes", unless=["notOpen", "noDirSync"])
        A.guard(f, "anyRename", [["fsync", "noSync"], "close"], "the final name appears only after the data was synced and the file closed")
        A.guard(f, "dirSync", [["rename", "notAtomic"]], "the directory is synced after the rename")
        A.must(f, "syncOk", "a failed fsync is an error", unless=["notOpen", "noSync"])
        A.must(f, "closeOk", "a failed close is an error", unless=["notOpen"])
        A.must(f, "renameOk", "a failed rename is an error", unless=["notOpen", "notAtomic"])

    writers = [w for w in A.slot("StorageWriteInterface", "write") if prog.fns[w].file == prog.fns[posix[0]].file]
    for w in writers:
        f = A.flow(w, {"write": "write(.fd)"}, {"full": "write(.fd, _, bufUsed(_)) == bufUsed(_)"})
        A.must(f, "write", "the buffer is written")
        A.must(f, "full", "a short or failed write is an error")
    opens = [w for w in A.slot("StorageWriteInterface", "open") if prog.fns[w].file == prog.fns[posix[0]].file]
    for o in opens:
        f = A.flow(o, {"open": "open()"}, {"isOpen": ".fd != -1", "opened": "open() != -1"}, trackArgs={"open": [0]})
        A.argIs(f, "open", 0, "strZ(.nameTmp)", "data goes to the temporary name", "the temporary file name")
        A.must(f, ["isOpen", "opened"], "a failed open is an error")

    # Directory sync
    for p in [p for p in A.slot("StorageInterface", "pathSync") if "fsync" in local(prog, p) or prog.fns[p].file.rsplit("/", 1)[0] == prog.fns[posix[0]].file.rsplit("/", 1)[0]]:
        f = A.flow(p, {"fsync": "fsync(open())"}, {"ok": okLit("fsync()"), "okOpen": okLit("open()"), "okClose": okLit("close()")})
        A.must(f, "fsync", "a directory sync syncs the directory")
        A.must(f, "ok", "a failed directory sync is an error")
        A.must(f, "okOpen", "a directory that cannot be opened for sync is an error")
        A.must(f, "okClose", "a failed close of a synced directory is an error")
    f = A.flow("storagePathSync", {"sync": "StorageInterface.pathSync(_, storagePath(#0, #1))"}, {"none": "~.pathSync == 0"})
    A.must(f, "sync", "a path sync reaches the driver", unless=["none"])

    # SFTP -----------------------------------------------------------------------------------------------------------------------------------
    sftp = [c for c in closers if "libssh2_sftp_close_handle" in local(prog, c)]
    for c in sftp:
        f = A.flow(
            c,
            {"fsync": "libssh2_sftp_fsync(.sftpHandle)", "close": "libssh2_sftp_close_handle(.sftpHandle)",
             "rename": "libssh2_sftp_rename_ex(_, strZ(.nameTmp), _, strZ(.name))", "unlink": "libssh2_sftp_unlink_ex(_, strZ(.name))"},
            {"notOpen": ".sftpHandle == 0", "noSync": "!.syncFile", "notAtomic": "!.atomic",
             "syncOk": "libssh2_sftp_fsync() == 0", "closeOk": "libssh2_sftp_close_handle() == 0", "renameOk": "libssh2_sftp_rename_ex() == 0"},
            kill={"fsync": {"syncOk"}, "close": {"closeOk"}, "rename": {"renameOk"}}, noInline=("storageSftpWaitFd", "storageSftpEvalLibSsh2Error"))
        A.must(f, "fsync", "the data is synced before a write completes (sftp)", unless=["notOpen", "noSync"])
        A.must(f, "close", "the file is closed before a write completes (sftp)", unless=["notOpen"])
        A.must(f, "rename", "an atomic write is moved to its final name (sftp)", unless=["notOpen", "notAtomic"])
        A.guard(f, "rename", [["fsync", "noSync"], "close"], "the final name appears only after the data was synced and the file closed (sftp)")
        A.must(f, "syncOk", "a failed sync is an error (sftp)", unless=["notOpen", "noSync"])
        A.must(f, "closeOk", "a failed close is an error (sftp)", unless=["notOpen"])
        A.must(f, "renameOk", "a failed rename is an error (sftp)", unless=["notOpen", "notAtomic"])
        A.guard(f, "unlink", ["rename"], "an existing file is removed only when the server refuses to rename over it (sftp)", min=0)
    if not sftp:
        raise AnalysisError("sftp driver not found")
    for w in [w for w in A.slot("StorageWriteInterface", "write") if prog.fns[w].file == prog.fns[sftp[0]].file]:
        f = A.flow(w, {"write": "libssh2_sftp_write()"}, {"neg": "libssh2_sftp_write() < 0", "notNeg": "libssh2_sftp_write() >= 0"},
                   kill={"write": {"neg", "notNeg"}}, noInline=("storageSftpWaitFd", "storageSftpEvalLibSsh2Error"))
        A.must(f, "write", "the buffer is written (sftp)")
        A.must(f, "notNeg", "a failed write is an error (sftp)")

    # Buffered data reaches the driver before the driver is asked to complete --------------------------------------------------------------
    f = A.flow("ioWriteClose", {"process": "ioFilterGroupProcess()", "write": "IoWriteInterface.write(_, .output)", "close": "IoWriteInterface.close()"},
               {"done": "ioFilterGroupDone()", "empty": ["bufEmpty(.output)", "bufUsed(.output) == 0"], "noClose": ".close == 0"},
               kill={"process": {"done", "empty", "write"}})
    A.guard(f, "close", ["process", "done"], "a write completes only after its filters produced all output")
    A.guard(f, "close", [["write", "empty"]], "a write completes only after all output was handed to the driver")
    A.must(f, "close", "closing a write completes it in the driver", unless=["noClose"])
    f = A.flow("storagePut", {"open": "ioWriteOpen()", "write": "ioWrite(_, #1)", "close": "ioWriteClose()"}, {})
    A.must(f, "close", "a stored buffer is completed")
    A.guard(f, "close", ["open", "write"], "a stored buffer is written before it is completed")
    f = A.flow("storageCopy", {"ropen": "ioReadOpen()", "open": "ioWriteOpen()", "copy": "ioCopy()", "close": "ioWriteClose()"},
               {"missing": "!ioReadOpen()"})
    A.must(f, "close", "a copied file is completed", unless=["missing"])
    A.guard(f, "close", ["open", "copy"], "a copied file is completed after its data was copied")
    f = A.flow("ioCopy", {"read": "ioRead(#0)", "write": "ioWrite(#1)"}, {"eof": "ioReadEof(#0)", "limit": ".limit != 0"}, kill={"read": {"write", "eof"}})
    A.must(f, "write", "everything read is written")
    A.must(f, "eof", "a copy without limit ends only at the end of the source", unless=["limit"])

    # An abandoned write never becomes the final file ----------------------------------------------------------------------------------------
    n = 0
    for c in posix + sftp:
        for fn in prog.fns.values():
            if fn.file != prog.fns[c].file:
                continue
            for where, _n, args, inst, p in A.calls(A.graph(fn.name, inline=lambda f, i, p: False), {"memContextCallbackSet"}):
                if args[1][0] != "fn":
                    continue
                n += 1
                bad = {"rename", "libssh2_sftp_rename_ex", "link"} & local(prog, args[1][1])
                if bad or args[1][1] == c:
                    A.bad("an abandoned write never becomes the final file", where, "the clean-up callback %s moves the file into place" % args[1][1])
                A.ok("an abandoned write never becomes the final file", where)
    if n < 1:
        raise AnalysisError("clean-up callbacks of the write drivers not found")

    # The request made by callers arrives unchanged at the driver ---------------------------------------------------------------------------
    for where, n, args, inst, p in A.calls(A.graph("storageNewWrite", alsoInline=("storageWriteNew",)), {"StorageInterface.newWrite"}):
        st = args[2]
        if st[0] != "struct":
            raise AnalysisError("driver write parameters are not a structure at " + where)
        v = dict(st[2])
        for drv, req in (("syncFile", "noSyncFile"), ("syncPath", "noSyncPath"), ("atomic", "noAtomic")):
            t = v.get(drv, ("int", 0))
            good = t == ("not", ("fld", ("p", 2), req, "StorageNewWriteParam")) or (t[0] == "not" and t[1][0] == "fld" and t[1][2] == req)
            if not good:
                A.bad("write defaults are durable and atomic", where, "driver parameter %s is %s, expected not %s" % (drv, fmtT(t), req))
            A.ok("write defaults are durable and atomic", where + " " + drv)
    for drv, rec in ((posix[0], "StorageWritePosix"), (sftp[0], "StorageWriteSftp")):
        mk = [m for m in A.slot("StorageInterface", "newWrite") if prog.fns[m].file.rsplit("/", 1)[0] == prog.fns[drv].file.rsplit("/", 1)[0]]
        for m in mk:
            ctor = [c for c in prog.edges(m, addr=False) if c in prog.fns and prog.fns[c].ext and prog.fns[c].file == prog.fns[drv].file]
            ss = A.structs(A.graph(m, alsoInline=ctor), rec)
            if not ss:
                raise AnalysisError("constructor of %s not understood" % rec)
            for where, v in ss:
                for fld in ("syncFile", "syncPath", "atomic"):
                    if fld == "syncPath" and rec == "StorageWriteSftp":
                        continue
                    t = v.get(fld, ("int", 0))
                    ok = isFld(t, fld) or (fld == "syncPath" and t[0] in ("ite", "and") and any(isFld(x, fld) for x in t[1:]) and mentionsFld(t, "pathSync"))
                    if not ok:
                        A.bad("the driver keeps what was requested", where, "%s.%s is %s" % (rec, fld, fmtT(t)))
                    A.ok("the driver keeps what was requested", where + " " + fld)
                t = v.get("nameTmp", ("int", 0))
                ok = t[0] == "ite" and isFld(t[1], "atomic") and t[2][0] == "call" and t[2] != t[3]
                ok = ok or (t[0] == "ite" and t[1][0] == "not" and isFld(t[1][1], "atomic") and t[3][0] == "call" and t[2] != t[3])
                if not ok:
                    if t[0] in ("hav", "phi"):
                        A.notes.append("temporary name of %s not decided: %s" % (rec, fmtT(t)))
                    else:
                        A.bad("atomic writes use a temporary name", where, "%s.nameTmp is %s" % (rec, fmtT(t)))
                A.ok("atomic writes use a temporary name", where)

    # Who may relax durability ---------------------------------------------------------------------------------------------------------------
    relaxed = {"noAtomic": set(), "noSyncFile": set()}
    n = 0
    for fn in prog.fns.values():
        if "storageNewWrite" not in prog.callees(fn.name)[0]:
            continue
        g = A.graph(fn.name, inline=lambda f, i, p: False)
        for where, _n, args, inst, p in A.calls(g, {"storageNewWrite"}):
            n += 1
            st = args[2]
            v = dict(st[2]) if st[0] == "struct" else {}
            repo = [x for x in ("storageRepoWrite", "storageRepoIdxWrite") if containsCall(args[0], x)] or fn.name in ("infoArchiveSaveFile", "infoBackupSaveFile")
            if repo and v.get("noSyncFile", ("int", 0)) != ("int", 0):
                A.bad("files in a repository are always synced", where, "a repository file is written without sync")
            if repo and v.get("noAtomic", ("int", 0)) != ("int", 0):
                relaxed["noAtomic"].add(fn.name)
                # only data files of a backup in progress: the directory is not valid until its manifest is in place
                reach = prog.reach([fn.name], addr=False)
                callers = back(prog, fn.name)
                if "backupFile" not in reach and "backupFile" not in callers:
                    A.bad("only data files of an unfinished backup are written in place", where, "a repository file is written without a temporary name")
            if repo and v.get("noSyncPath", ("int", 0)) != ("int", 0):
                if "backupFile" not in prog.reach([fn.name], addr=False) and "backupFile" not in back(prog, fn.name):
                    A.bad("only the paths of an unfinished backup are synced later", where, "a repository file is written without a sync of its path")
            if containsCall(args[0], "storageSpoolWrite") and v.get("noAtomic", ("int", 0)) != ("int", 0):
                A.bad("files of the spool appear all at once", where, "a status file is written without a temporary name")
            A.ok("who may relax durability", where)
    if n < 20:
        raise AnalysisError("only %d write sites found" % n)


def isFld(t, name):
    return t[0] == "fld" and t[2] == name


def mentionsFld(t, name):
    from graph import walkTerm
    return any(isFld(x, name) for x in walkTerm(t))


def containsCall(t, name):
    from graph import walkTerm
    return any(x[0] == "call" and x[1] == name for x in walkTerm(t))


def fmtT(t):
    from graph import fmt
    return fmt(t)


def back(prog, name):
    seen = {name}
    work = [name]
    while work:
        n = work.pop()
        for c in prog.callers()[n]:
            if c not in seen:
                seen.add(c)
                work.append(c)
    return seen
