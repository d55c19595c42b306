"""An interrupted restore leaves no cluster that starts: pg_control goes first and comes last, and everything is synced before."""
from flow import LitFn, has
from lib import View, alts, callOf, countsFromZero, exitOf, fieldLit, follow, hasCall, hasField, mentionsField, precede, strHas, structArg
from graph import fmt, walkTerm
from C13 import touches, walkers

ASSUME = ["PostgreSQL does not start without global/pg_control"]
CTL = "global/pg_control"


def isTemp(t):
    return strHas(t, CTL + ".pgbackrest.tmp")


def p_control(A):
    v = View(A, "cmdRestore", noInline=walkers(A))
    D = touches(v)
    R = "pg_control is removed before anything else is changed"
    noCtl = LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] == "storageExists" and strHas(a[1], CTL) and not isTemp(a[1]), {"storageExists"}, "no pg_control")
    rm = [s for s in v.calls("storageRemove") if strHas(s.args[1], CTL) and not isTemp(s.args[1])]
    sync = [s for s in v.calls("storagePathSync") if strHas(s.args[1], "global") and not strHas(s.args[1], "/")]
    rest = [s for s in D if s not in rm]
    if not rm:
        A.bad(R, A.loc("cmdRestore"), "pg_control is not removed")
    precede(A, v, rm, rest, R, "changed while pg_control of the old cluster is in place", [noCtl])
    if rm:
        follow(A, v, rm, sync, "the removal of pg_control is durable before anything else is changed", "the path of pg_control is not synced", to=rest)

    R = "pg_control is put in place last"
    mv = [s for s in v.calls("storageMove") if strHas(s.args[2], CTL)]
    direct = [s for s in v.calls("storageNewWrite") if strHas(s.args[1], CTL) and not isTemp(s.args[1])]
    if not mv:
        A.bad(R, A.loc("cmdRestore"), "pg_control is not moved into place")
        return
    for s in mv:
        if not isTemp(s.args[1]):
            A.bad(R, s.where, "pg_control is taken from %s" % fmt(s.args[1])[:120])
        for d in rest:
            if d.gid != s.gid and v.escape([s.gid], [d.gid], [], []) is not None:
                A.bad(R, d.where, "%s after pg_control was put in place" % d.name)
            A.ok(R, d.where)
    precede(A, v, [], mv, R, "pg_control is put in place before all files are restored", ["protocolParallelDone()"])
    rec = [s for s in v.calls("storagePut") if any(strHas(s.args[0], x) for x in ("postgresql.auto.conf", "recovery.conf"))]
    e = A.prog.enum
    precede(A, v, rec, mv, "recovery settings are in place before pg_control", "pg_control is put in place without recovery settings",
            ["cfgOptionSeq(@cfgOptType) == @CFGOPTVAL_RESTORE_TYPE_PRESERVE", "cfgOptionSeq(@cfgOptType) == @CFGOPTVAL_RESTORE_TYPE_NONE"])
    follow(A, v, mv, sync, "the new pg_control is durable when restore returns", "the path of pg_control is not synced")
    R = "all restored paths are durable before pg_control is put in place"
    done = v.calls("protocolParallelProcess")
    ps = [s for s in v.calls("storagePathSync") if hasCall(s.args[1], "manifestPath")]
    isName = lambda w: LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("strEq", "strEqZ") and any(x == w for x in strsOf(a[1])), {"strEq"}, w)
    loopEnd = ["_ >= manifestPathTotal()", "_ == manifestPathTotal()"]
    follow(A, v, done, ps, R, "paths of the cluster are not synced", skip=loopEnd, to=mv)
    get = [s for s in v.calls("manifestPath")]
    mine = [s for s in get if v.escape([d.gid for d in done], [s.gid], [], []) is not None]
    follow(A, v, mine, ps, R, "a path of the cluster is left unsynced", skip=[isName("pg_tblspc"), isName("pg_data/global")], to=mine + mv)
    for s in ps:
        c = callOf(s.args[1], "manifestPath")
        if not countsFromZero(c[2][1]):
            A.bad(R, s.where, "the first path is left out")
    R = "paths of linked files are durable before pg_control is put in place"
    tg = [s for s in v.calls("manifestTarget") if v.escape([d.gid for d in done], [s.gid], [], []) is not None]
    ts = [s for s in v.calls("storagePathSync") if hasCall(s.args[1], "manifestTargetPath")]
    notLink = LitFn(lambda a, pol: a[0] == "eq" and mentionsField(a[1], "type") and a[2][0] == "int" and
                    (pol is False and int(a[2][1]) == e("manifestTargetTypeLink") or pol is True and int(a[2][1]) != e("manifestTargetTypeLink")), {"type"}, "not a link")
    follow(A, v, tg, ts, R, "the path of a linked file is left unsynced", skip=[notLink, fieldLit("file", 0), "strLstExists()"], to=tg + mv)
    # marks
    R = "a partly restored directory is recognised by its manifest"
    sv = [s for s in v.calls("manifestSave") if hasCall(s.args[1], "storagePgWrite")]
    precede(A, v, sv, done, R, "files are restored before the manifest is saved")
    rmM = [s for s in v.calls("storageRemove") if strHas(s.args[1], "backup.manifest")]
    precede(A, v, [], rmM, R, "the manifest is removed before all files are restored", ["protocolParallelDone()"])
    precede(A, v, rmM, mv, "the manifest is removed at the end", "the manifest is left in the data directory")


def strsOf(t):
    return [x[1] for x in walkTerm(t) if x[0] == "str"]


def p_name(A):
    """The workers write pg_control under its temporary name."""
    R = "pg_control is restored under a temporary name"
    is_ = lambda val: LitFn(lambda a, pol: pol is not val and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("strEq", "strEqZ") and
                            any(y == "pg_data/global/pg_control" for y in strsOf(a[1])), {"strEq", "strEqZ"}, "pg_control" if val else "not pg_control")
    isCtl, noCtl = is_(True), is_(False)
    f = A.flow("restoreJobCallback", {"name": ("pckWriteStr()", lambda c: hasCall(c.arg(1), "manifestPathPg")), "file": "manifestFileUnpack()"}, {"ctl": isCtl, "no": noCtl},
               kill={"file": {"ctl", "no"}}, trackArgs={"pckWriteStr": [1]})
    n = 0
    for o in f.occ["name"].values():
        for t, ls in alts(o.args[1]):
            n += 1
            tmp = strHas(t, "pgbackrest.tmp")
            if not tmp and not (has(o.st, "no") or any(noCtl(a, pol) for a, pol in ls)):
                A.bad(R, o.where, "a file that may be pg_control is written as %s" % fmt(t)[:160])
            elif tmp and not (has(o.st, "ctl") or any(isCtl(a, pol) for a, pol in ls)):
                A.bad(R, o.where, "the temporary name is used for %s" % fmt(t)[:200])
            A.ok(R, o.where)
    if not n and not f.coarse:
        A.unsure("restoreJobCallback: name of the file not found")


def p_checkpoint(A):
    R = "the checkpoint in pg_control is invalid without recovery"
    f = A.flow("cmdRestore", {"done": "protocolParallelProcess()", "inv": "pgControlCheckpointInvalidate()", "put": ("storagePut(_, _)", lambda c: isTemp(c.arg(0))), "mv": ("storageMove()", lambda c: strHas(c.arg(2), CTL))},
               {"off": LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and mentionsField(a[1], "backupOptionOnline"), {"backupOptionOnline"}, "offline")},
               kill={"done": {"off"}}, noInline=("restoreBackupSet", "restoreManifestMap", "restoreCleanBuild", "restoreSelectiveExpression", "restoreRecoveryWrite", "restoreProcessQueue", "restoreManifestOwner"))
    A.guard(f, "put", ["inv"], R)
    A.guard(f, "mv", [["off", "put"]], R)
