"""Several repositories: each is used with its own settings and key, and data of one is never written to another."""
from flow import LitFn, has
from lib import View, alts, callOf, countsFromZero, entryOf, exitOf, follow, hasCall, mentionsField, precede, rel, relLit, structArg
from graph import fmt, walkTerm
from C16 import call
from C21 import opt

ASSUME = ["option indexes below the number of configured repositories are valid"]
LOAD = {"infoArchiveLoadFile": (0, 2), "infoBackupLoadFile": (0, 2), "infoBackupLoadFileReconstruct": (0, 2)}
SAVE = {"infoArchiveSaveFile": (1, 3), "infoBackupSaveFile": (1, 3)}
FILES = tuple(LOAD) + tuple(SAVE) + ("manifestLoadFile",)
IDX = {"storageRepoIdx": 0, "storageRepoIdxWrite": 0, "cfgCipherSpecMainIdx": 0}
DEF = ("storageRepo", "storageRepoWrite", "cfgCipherSpecMain")


def norm(t):
    """What tells repositories apart: D for the default one, the loop variable, or the term itself."""
    if t[0] == "call" and t[1] in ("cfgOptionGroupIdxDefault", "cfgOptionIdxDefault"):
        return "D"
    loops = frozenset(x[1:] for x in walkTerm(t) if x[0] == "loop")
    return loops or t


def repoOf(t):
    """Repository a storage or key belongs to, or None if that cannot be seen here."""
    if t[0] == "call" and t[1] in DEF:
        return "D"
    if t[0] == "call" and t[1] in IDX:
        return norm(t[2][0])
    if t[0] == "phi":
        r = {repoOf(x) for x in t[1] if x != ("int", 0)}
        return r.pop() if len(r) == 1 else None
    if t[0] == "ite":
        r = {repoOf(x) for x in t[2:4]}
        return r.pop() if len(r) == 1 else None
    return None


def same(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return bool(a & b)
    return a == b


def show(r):
    return "the default repository" if r == "D" else "the repository of " + ", ".join("%s in %s()" % (x[1], x[0]) for x in sorted(r)) if isinstance(r, frozenset) else fmt(r)[:60]


def loads(t):
    return [x for x in walkTerm(t) if x[0] == "call" and x[1] in LOAD]


def p_info(A):
    R = "a file is read or written with the key of the repository it is in"
    R2 = "what was read from one repository is not written to another"
    c = A.prog.callers()
    n = 0
    for f in sorted({f for x in FILES for f in c.get(x, ())}):
        v = View(A, f, noInline=FILES)
        for s in v.calls(*FILES):
            n += 1
            if s.name == "manifestLoadFile":
                st, key = repoOf(s.args[0]), None
                ls = loads(s.args[2])
                A.ok(R, s.where)
                for l in ls:
                    k = repoOf(l[2][0])
                    if not same(st, k) or st is None and k is None and s.args[0] != l[2][0] and not mentionsField(s.args[0], "storage"):
                        A.bad(R, s.where, "a manifest of %s is read with the key of %s" % (show(st or s.args[0]), show(k or l[2][0])))
                continue
            i, j = LOAD.get(s.name) or SAVE[s.name]
            st, key = repoOf(s.args[i]), repoOf(s.args[j])
            A.ok(R, s.where)
            if not same(st, key):
                A.bad(R, s.where, "%s with the key of %s" % (show(st), show(key)))
            if s.name in SAVE:
                for l in loads(s.args[0])[:1]:
                    A.ok(R2, s.where)
                    if not same(repoOf(l[2][0]), st):
                        A.bad(R2, s.where, "what was read from %s is written to %s" % (show(repoOf(l[2][0])), show(st)))
    if n < 20:
        A.unsure("only %d uses of info files found" % n)


def p_loops(A):
    R = "a command that goes through repositories uses the one it is at"
    c = A.prog.callers()
    for f in sorted(c.get("storageRepoIdx", set()) | c.get("storageRepoIdxWrite", set())):
        if f in DEF:
            continue
        v = View(A, f, noInline=FILES)
        at = [s for s in v.calls("storageRepoIdx", "storageRepoIdxWrite") if s.inst.fn.name == f]
        if not at or all(norm(s.args[0]) == "D" for s in at):
            continue
        A.ok(R, A.loc(f), len(at))
        for s in v.calls(*DEF):
            if s.inst.fn.name != f:
                continue
            # before the loop the default repository may be asked for something
            if any(v.escape([a.gid], [s.gid], [], []) is not None and v.escape([s.gid], [a.gid], [], []) is not None for a in at) or all(x.args[0][0] == "p" for x in at):
                A.bad(R, s.where, "the default repository is used")


def p_settings(A):
    R = "the storage of a repository has the settings of that repository"
    g = A.prog.gvars.get("storageHelperList")
    fns = ["storageRepoGet"]
    for e in (g or {"init": ["A", []]})["init"][1]:
        h = e[2].get("helper")
        if h:
            fns.append(h[1])
    if len(fns) < 5:
        A.unsure("storage helpers not found")
    repo = repoOptions(A)
    names = [n for n in A.prog.callers() if n.startswith("cfgOption")]
    for f in fns:
        v = View(A, f, noInline=tuple(names))
        for s in v.calls(*names):
            if s.args[0][0] != "int" or s.args[0][1] not in repo:
                continue
            if s.name in ("cfgOptionValid", "cfgOptionName", "cfgOptionGroupName"):
                continue
            A.ok(R, s.where)
            if not s.name.startswith("cfgOptionIdx"):
                A.bad(R, s.where, "option %s of the default repository is used" % repo[s.args[0][1]])
            elif s.args[1] != ("p", 0):
                A.bad(R, s.where, "option %s of repository %s is used" % (repo[s.args[0][1]], fmt(s.args[1])[:60]))
        for s in v.calls("StorageHelper.helper"):
            A.ok(R, s.where)
            if s.args[0] != ("p", 0) or s.args[1] != ("p", 1):
                A.bad(R, s.where, "made for %s" % ", ".join(fmt(x)[:40] for x in s.args[:2]))
    R = "a storage is kept for the repository it was made for"
    for f, get, fld in (("storageRepoIdx", "storageRepoGet", "storageRepo"), ("storageRepoIdxWrite", "storageRepoGet", "storageRepoWrite"), ("storagePgIdx", "storagePgGet", "storagePg"), ("storagePgIdxWrite", "storagePgGet", "storagePgWrite"),
                        ("cfgCipherSpecMainIdx", "cipherSpecNew", "cipherSpecMain")):
        slots(A, R, f, get, fld)
    R = "a repository has its own key"
    v = View(A, "cfgCipherSpecMainIdx", noInline=tuple(names))
    for s in v.calls(*names):
        if s.args[0][0] == "int" and s.args[0][1] in repo:
            A.ok(R, s.where)
            if not s.name.startswith("cfgOptionIdx") or s.args[1] != ("p", 0):
                A.bad(R, s.where, "option %s of another repository is used" % repo[s.args[0][1]])


def repoOptions(A):
    """{option id: name} of the options that belong to a repository."""
    out = {}
    for i, e in enumerate(A.prog.gvars["parseRuleOption"]["init"][1]):
        n = e[2]["name"][1]
        if n.startswith("repo-") and e[2].get("group", ["i", 0])[-1]:
            out[i] = n
    return out


def slots(A, R, f, get, fld):
    """Every access to the array of made objects is at the index that was asked for, and what is put there was made for it."""
    v = View(A, f, noInline=(get,))
    g = v.g
    n = 0

    def idx(e, out):
        if isinstance(e, dict):
            e = list(e.values())
        if not isinstance(e, list):
            return
        if len(e) >= 3 and e[0] == "x" and isinstance(e[1], list) and e[1] and e[1][0] == "m" and e[1][2] == fld:
            out.append(e[2])
        for x in e:
            idx(x, out)
    for inst in g.insts:
        if inst.fn.name != f:
            continue
        for p in inst.fn.pts():
            if p.tries is None:
                continue
            out = []
            idx(p.data, out)
            for e in out:
                n += 1
                t = g.ev(inst, e, p.idx)
                A.ok(R, A.loc(f))
                if t != ("p", 0):
                    A.bad(R, g.where(g.gid(inst, p.idx)), "kept as that of %s" % fmt(t)[:60])
    if not n:
        A.unsure("%s: %s not found" % (f, fld))
    for s in v.calls(get):
        if get == "cipherSpecNew":
            continue
        A.ok(R, s.where)
        if s.args[0] != ("p", 0):
            A.bad(R, s.where, "made for %s" % fmt(s.args[0])[:60])


def p_annotate(A):
    F = "cmdAnnotate"
    v = View(A, F, noInline=FILES)
    save = v.calls("infoBackupSaveFile")
    sets = v.calls("infoBackupDataAnnotationSet")
    R = "annotations are stored in every repository that has the backup"
    if not save or not sets:
        A.bad(R, A.loc(F), "annotations are not stored")
        return
    follow(A, v, sets, save, R, "the annotation is not saved", to=[exitOf(v)] + v.calls(*LOAD))
    precede(A, v, [], sets, R, "a backup that does not exist is annotated", [call("infoBackupLabelExists", 1)])
    for s in sets:
        A.ok(R, s.where)
        if not loads(s.args[0]) and not hasCall(s.args[0], *LOAD):
            A.bad(R, s.where, "%s is changed" % fmt(s.args[0])[:60])
    for s in v.calls(*LOAD):
        A.ok(R, s.where)
        i = callOf(s.args[0], "storageRepoIdx")
        if i is None:
            A.bad(R, s.where, "only one repository is looked at")
