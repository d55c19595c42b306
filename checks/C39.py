"""What the database answers is taken as it is: a failed, late or odd answer is an error, and no cluster is taken for another."""
import re

from flow import LitFn, has
from graph import fmt, walkTerm
from lib import View, countsFromZero, exitOf, hasCall, implies, mentionsField, strs
from C09 import p_db                                                                                            # noqa: F401 (also a part of this property)
from C34 import succ
from C38 import bound

ASSUME = ["libpq reports the state of the connection and of the query correctly", "the SQL functions of PostgreSQL return what its documentation says"]

ANSWER = "a query returns only with the complete answer of the kind asked for"
VALUE = "every value of every row is taken from its own row and column"
OPEN = "a connection that was not made is an error"
PARAM = "the connection is made with the parameters configured for it"
COLUMN = "each column of an answer is used for what the query put there"
NULLS = "settings that cannot be read are an error"
PATHS = "functions of the catalog cannot be overridden by search_path"
CLUSTER = "a cluster in recovery is never taken for the primary, and there is one primary"
FOUND = "a primary or standby that is required and not found is an error"
INDEX = "each cluster is reached with the options and the storage of its own index"

# From libpq-fe.h
CONNECTION_OK, COMMAND_OK, TUPLES_OK = 0, 1, 2


def zero(a, pol, want=True):
    return a[1] if a[0] == "eq" and a[2] == ("int", 0) and pol is want else None


def callIs(name, val=None):
    """The result of the call is zero / not zero / equal to val."""
    def lit(want):
        def f(a, pol):
            if a[0] != "eq" or a[1][0] != "call" or a[1][1] != name:
                return False
            return a[2] == ("int", val if val is not None else 0) and pol is want
        return LitFn(f, {name}, "%s %s %s" % (name, "==" if want else "!=", val or 0))
    return lit


def p_query(A):
    e = A.prog.enum
    kind = ("p", 2)

    def type(name, want=True):
        n = ("int", e(name))
        return LitFn(lambda a, pol: a[0] == "eq" and a[1] == kind and a[2] == n and pol is want, {kind}, name)

    def count(name):
        def f(a, pol):
            if a[0] == "eq":
                return a[1][0] == "call" and a[1][1] == name and a[2] == ("int", 1) and pol is True
            return False
        return LitFn(f, {name}, name + " is 1")
    names = ("pgClientQueryResultNone", "pgClientQueryResultAny", "pgClientQueryResultRow", "pgClientQueryResultColumn")
    lits = {"sent": succ("PQsendQuery"), "ready": LitFn(lambda a, pol: (a[0] == "eq" and a[1][0] == "call" and a[1][1] == "PQisBusy") and (a[2] == ("int", 0) and pol is True or a[2] == ("int", 1) and pol is False), {"PQisBusy"}, "no longer busy"), "ok": callIs("PQresultStatus", COMMAND_OK)(True), "tuples": callIs("PQresultStatus", TUPLES_OK)(True),
            "one": count("PQntuples"), "col": count("PQnfields"), "gone": callIs("PQgetResult")(True)}
    for n in names:
        lits["is" + n[19:]] = type(n)
        lits["not" + n[19:]] = type(n, False)
    f = A.flow("pgClientQuery", {"get": "PQgetResult()"}, lits, sticky=list(lits), kill={"get": {"gone"}})
    n = 0
    at = A.loc("pgClientQuery")
    kinds = {x[19:] for x in names}
    for (st, ret), node in f.exits.items():
        n += 1
        may = {k for k in kinds if not has(st, "not" + k)}
        for k in kinds:
            if has(st, "is" + k):
                may &= {k}
        if not has(st, "sent"):
            A.bad(ANSWER, at, "a query that could not be sent is taken for answered")
        if not has(st, "ready"):
            A.bad(ANSWER, at, "the result is returned although the query is still running")
        if not has(st, "gone"):
            A.bad(ANSWER, at, "the query returns before its last result was seen")
        if has(st, "ok"):
            if may & {"Row", "Column"}:
                A.bad(ANSWER, at, "a command without result is accepted where one was asked for")
        elif has(st, "tuples"):
            if "None" in may:
                A.bad(ANSWER, at, "a result is accepted where none was asked for")
            if may & {"Row", "Column"} and not has(st, "one"):
                A.bad(ANSWER, at, "a result without exactly one row is accepted where one was asked for")
            if "Column" in may and not has(st, "col"):
                A.bad(ANSWER, at, "a result without exactly one column is accepted where one was asked for")
        else:
            A.bad(ANSWER, at, "a query that failed is taken for answered")
        A.ok(ANSWER, at)
    if not n:
        A.unsure("pgClientQuery() never returns", ANSWER)


PUT = ("pckWriteBool", "pckWriteStr", "pckWriteI64", "pckWriteI32", "pckWriteU32", "pckWriteU64", "pckWriteNull")
# Type of PostgreSQL (oid) and how it is written
TYPES = {16: ("pckWriteBool", "varBoolForce"), 18: ("pckWriteStr", None), 19: ("pckWriteStr", None), 25: ("pckWriteStr", None), 20: ("pckWriteI64", "cvtZToInt64"), 23: ("pckWriteI32", "cvtZToInt"), 26: ("pckWriteU32", "cvtZToUInt")}


def num(t):
    return t[1][1] if isinstance(t[1], (list, tuple)) else t[1]


def p_value(A):
    rows, cols = bound(lambda t: t[0] == "call" and t[1] == "PQntuples"), bound(lambda t: t[0] == "call" and t[1] == "PQnfields")
    at = A.loc("pgClientQuery")
    f = A.flow("pgClientQuery", {"val": "PQgetvalue()", "type": "PQftype()"},
               {"noneRow": LitFn(rows[1], {"PQntuples"}, "no more rows"), "moreCol": LitFn(cols[0], {"PQnfields"}, "another column"), "noneCol": LitFn(cols[1], {"PQnfields"}, "no more columns"),
                "tuples": callIs("PQresultStatus", TUPLES_OK)(True)}, kill={"val": {"moreCol", "noneCol"}, "type": {"moreCol"}}, sticky=["noneRow", "moreCol", "noneCol", "tuples"])
    n = 0
    for (st, ret), node in f.exits.items():
        if not has(st, "tuples"):
            continue
        n += 1
        if not has(st, "noneRow"):
            A.bad(VALUE, at, "the query returns before all rows were read")
        if has(st, "moreCol") or has(st, "val") and not has(st, "noneCol"):
            A.bad(VALUE, at, "the query returns before all columns were read")
        A.ok(VALUE, at)
    f = A.flow("pgClientQuery", {"val": "PQgetvalue()", "put": "|".join(x + "()" for x in PUT), "null": "pckWriteNull()"}, {"isnull": callIs("PQgetisnull")(False)}, kill={"val": {"put", "isnull"}}, sticky=["isnull"])
    for (st, ret), node in f.exits.items():
        if has(st, "val") and not has(st, "put"):
            A.bad(VALUE, at, "a value is left out of the result")
    for o in f.occ["val"].values():
        if has(o.st, "val") and not has(o.st, "put"):
            A.bad(VALUE, o.where, "a value is left out of the result")
    for o in f.occ["null"].values():
        if not has(o.st, "isnull"):
            A.bad(VALUE, o.where, "a value is taken for null without being null")
    if not n:
        A.unsure("no rows", VALUE)
    v = View(A, "pgClientQuery")
    for s in v.calls("PQgetvalue", "PQgetisnull"):
        for x, what, lim in ((s.args[1], "row", "PQntuples"), (s.args[2], "column", "PQnfields")):
            own = [a[1] for a, pol in s.conds if a[0] == "lt" and pol is True and hasCall(a[2], lim)] + [a[1] for a, pol in s.conds if a[0] == "eq" and pol is False and hasCall(a[2], lim)]
            if x[0] != "hav" and (not countsFromZero(x) or own and x not in own):
                A.bad(VALUE, s.where, "the %s is %s" % (what, fmt(x)[:60]))
        if s.args[1] == s.args[2] and s.args[1][0] != "hav":
            A.bad(VALUE, s.where, "row and column are the same")
        A.ok(VALUE, s.where)
    for s in v.calls("PQftype"):
        if s.args[1][0] != "hav" and not countsFromZero(s.args[1]):
            A.bad(VALUE, s.where, "the type is the one of column %s" % fmt(s.args[1])[:60])
    for s in v.calls(*PUT):
        if s.name == "pckWriteNull":
            continue
        oids = {num(a[2]) for a, pol in s.conds if a[0] == "eq" and pol is True and a[2][0] == "int" and hasCall(a[1], "PQftype")}
        for o in oids:
            w = TYPES.get(o)
            if w is None or w[0] != s.name or w[1] is not None and not hasCall(s.args[1], w[1]):
                A.bad(VALUE, s.where, "a value of type %d is read by %s" % (o, fmt(s.args[1])[:50]))
        if not hasCall(s.args[1], "PQgetvalue"):
            A.bad(VALUE, s.where, "%s is written" % fmt(s.args[1])[:60])
        A.ok(VALUE, s.where)


def p_open(A):
    f = A.flow("pgClientOpen", {"connect": "PQconnectdb()"}, {"ok": callIs("PQstatus", CONNECTION_OK)(True)}, sticky=["ok"], kill={"connect": {"ok"}})
    n = 0
    for (st, ret), node in f.exits.items():
        n += 1
        if not has(st, "connect") or not has(st, "ok"):
            A.bad(OPEN, A.loc("pgClientOpen"), "a connection is returned that is not known to be good")
        A.ok(OPEN, A.loc("pgClientOpen"))
    if not n:
        A.unsure("pgClientOpen() never returns", OPEN)
    v = View(A, "pgClientOpen", noInline=("pgClientEscape", "strCatFmt"))
    want = {"dbname": "database", "port": "port", "user": "user", "host": "host"}
    seen = set()
    for s in v.calls("strCatFmt", "strNewFmt"):
        fm = s.args[1 if s.name == "strCatFmt" else 0]
        if fm[0] != "str":
            continue
        keys = re.findall(r"(\w+)=%", fm[1])
        rest = s.args[2 if s.name == "strCatFmt" else 1:]
        if not keys or len(rest) != len(keys):
            continue
        for k, x in zip(keys, rest):
            if k not in want:
                continue
            seen.add(k)
            flds = {y[2] for y in walkTerm(x) if y[0] in ("fld", "ofld")} & set(want.values()) | {w for y in walkTerm(x) if y[0] == "call" for w in want.values() if y[1].startswith("pgClient") and y[1].lower().endswith(w)}
            if flds and flds != {want[k]}:
                A.bad(PARAM, s.where, "%s is set to %s" % (k, fmt(x)[:60]))
            elif k != "port" and not hasCall(x, "pgClientEscape"):
                A.bad(PARAM, s.where, "%s is not escaped" % k)
            A.ok(PARAM, s.where)
    for k in sorted(set(want) - seen):
        A.bad(PARAM, A.loc("pgClientOpen"), "%s is not set" % k)
    for k in ("user", "host"):
        def nul(a, pol, k=k):
            t = zero(a, pol)
            return t is not None and (mentionsField(t, k) or t[0] == "call" and t[1].lower().endswith(k))
        s = [x for x in v.calls("strCatFmt") if x.args[1][0] == "str" and k + "=%" in x.args[1][1]]
        c = v.calls("PQconnectdb")
        from lib import entryOf
        if s and c and v.escape([entryOf(v).gid], [x.gid for x in c], [x.gid for x in s], [nul]) is not None:
            A.bad(PARAM, s[0].where, "%s is left out although it is configured" % k)


def before(v, a, b):
    return v.escape([a.gid], [b.gid], [], []) is not None


READ = ("pckReadStr", "pckReadI32", "pckReadI64", "pckReadU32", "pckReadU64", "pckReadBool")


def ordered(A, entry, rec, fields, ask, names):
    """The values read from the answer come in the order in which the query asks for them. fields: {name in the query: field}."""
    v = View(A, entry, noInline=READ + ("dbQuery", "dbQueryRow", "dbQueryColumn", "dbExec", "pckReadNull"))
    reads = v.calls(*READ)
    at = {}
    for q, fl in fields.items():
        for s in v.assigns(None, fl) + v.inits(rec, fl):
            t = s.args[0]
            c = [x for x in walkTerm(t) if x[0] == "call" and x[1] in READ]
            if not c:
                continue
            # the read nearest before the assignment with that term; reads that look the same are told apart by their place
            same = [r for r in reads if r.name == c[0][1] and (len(c[0]) < 4 or True)]
            gid = c[0][3] if len(c[0]) > 3 else None
            hit = [r for r in same if r.gid == gid] if gid is not None else []
            if not hit:
                prior = [r for r in same if before(v, r, s) or r.gid == s.gid]
                hit = [r for r in prior if not any(o is not r and before(v, r, o) and before(v, o, s) for o in prior)]
            if len(hit) == 1 and fmt(t).find("hav") < 0:
                at[q] = (hit[0], s)
    for q in ask:
        if q in fields and q not in at:
            A.unsure("the read of %s is not found" % q, COLUMN)
    known = [q for q in ask if q in at]
    for i, q in enumerate(known):
        for p in known[i + 1:]:
            a, b = at[q], at[p]
            if a[0].gid == b[0].gid or before(v, b[0], a[0]) and not before(v, a[0], b[0]):
                A.bad(COLUMN, b[1].where, "%s is set from what the query returns before %s" % (fields[p], q))
        A.ok(COLUMN, at[q][1].where)
    return v


def p_settings(A):
    v = View(A, "dbOpen", noInline=("dbQuery", "dbQueryRow", "dbExec", "dbIsInRecovery", "pgControlFromFile", *READ, "pckReadNull"))
    q = [s for s in v.calls("dbQuery", "dbQueryRow") if any("server_version_num" in x for x in strs(s.args[-1]))]
    if not q:
        A.unsure("the query for the settings is not found", COLUMN)
        return
    sql = "".join(x for x in strs(q[0].args[-1]))
    ask = re.findall(r"name = '(\w+)'", sql)
    ordered(A, "dbOpen", "Db", {"server_version_num": "pgVersion", "data_directory": "pgDataPath", "archive_mode": "archiveMode", "archive_command": "archiveCommand", "checkpoint_timeout": "checkpointTimeout"}, ask, None)

    def isNull(a, pol):
        t = zero(a, pol)
        return t is not None and t[0] == "call" and t[1] == "pckReadNull"
    nulls = v.calls("pckReadNull")
    reads = [s for s in v.calls(*READ) if hasCall(s.args[0], "dbQuery", "dbQueryRow")]
    for s in nulls:
        lim = [a[2][1] for a, pol in s.conds if a[0] == "lt" and pol is True and a[2][0] == "int"]
        if lim and lim[-1] < len(ask):
            A.bad(NULLS, s.where, "%d of %d columns are looked at" % (lim[-1], len(ask)))
        A.ok(NULLS, s.where)
    if reads and (not nulls or v.escape([nulls[0].gid], [reads[0].gid], [], [isNull]) is not None):
        A.bad(NULLS, reads[0].where, "the settings are used without a look for null")
    path = [s for s in v.calls("dbExec") if any("search_path" in x and "pg_catalog" in x for x in strs(s.args[-1]))]
    for s in q + v.calls("dbIsInRecovery"):
        if not path or not any(v.escape([p.gid], [s.gid], [], []) is not None for p in path) or v.escape([0], [s.gid], [p.gid for p in path], []) is not None:
            A.bad(PATHS, s.where, "a query is made before search_path is set")
        A.ok(PATHS, s.where)
    ro = [s for s in v.assigns(None, "standby")]
    for s in ro:
        if s.args[0][0] != "hav" and not (s.args[0][0] == "call" and s.args[0][1] == "dbIsInRecovery"):
            A.bad(CLUSTER, s.where, "the role of the cluster is %s" % fmt(s.args[0])[:60])
        A.ok(CLUSTER, s.where)
    if not ro or v.escape([0], [exitOf(v).gid], [s.gid for s in ro], []) is not None:
        A.bad(CLUSTER, A.loc("dbOpen"), "the role of the cluster is not asked for")
    for s in v.calls("pgControlFromFile"):
        if not mentionsField(s.args[0], "storage"):
            A.bad(INDEX, s.where, "pg_control is read from %s" % fmt(s.args[0])[:60])
        A.ok(INDEX, s.where)
    v = View(A, "dbIsInRecovery", noInline=("dbQuery", "dbQueryRow", "dbQueryColumn"))
    if not any("pg_is_in_recovery" in x for s in v.calls("dbQuery", "dbQueryRow", "dbQueryColumn") for x in strs(s.args[-1])):
        A.bad(CLUSTER, A.loc("dbIsInRecovery"), "the cluster is not asked whether it is in recovery")


def p_stop(A):
    order = []
    v = View(A, "dbBackupStop", noInline=READ + ("dbQuery", "dbQueryRow"))
    sql = "".join(x for s in v.calls("strCatFmt", "strNewFmt") for x in strs(s.args[1] if s.name == "strCatFmt" else s.args[0]))
    order = re.findall(r" as (\w+)", sql)
    if {"lsn", "wal_segment_name", "backuplabel_file", "tablespacemap_file"} <= set(order):
        ask = [x for x in order if x != "lsn" or order.index(x) == 0]
        ordered(A, "dbBackupStop", "DbBackupStopResult", {"lsn": "lsn", "wal_segment_name": "walSegmentName", "backuplabel_file": "backupLabel", "tablespacemap_file": "tablespaceMap"}, list(dict.fromkeys(ask)), None)
    else:
        A.unsure("the query of the stop is not found", COLUMN)


def p_get(A):
    e = A.prog.enum
    v = View(A, "dbGet", noInline=("dbGetIdx", "dbOpen", "dbFree", "dbMove", "dbIsStandby"))

    def standbyLit(want):
        def lit(a, pol):
            t = zero(a, pol, not want)
            return t is not None and t[0] in ("phi", "call", "fld", "ite") and (hasCall(t, "dbIsStandby") or mentionsField(t, "standby") and hasCall(t, "dbGetIdx"))
        return lit

    got = {}
    for fl, want in (("primary", False), ("standby", True)):
        got[fl] = [s for s in v.assigns("DbGetResult", fl) if s.args[0] != ("int", 0)]
        for s in got[fl]:
            if not s.under(standbyLit(want)):
                A.bad(CLUSTER, s.where, "a cluster is taken for the %s without being known to be one" % fl)
            A.ok(CLUSTER, s.where)
        for s in v.assigns("DbGetResult", fl + "Idx"):
            if not s.under(standbyLit(want)) and s.args[0] != ("int", 0):
                A.bad(CLUSTER, s.where, "the index of the %s is the one of another cluster" % fl)
            idx = [x[2][0] for y in got[fl] for x in walkTerm(y.args[0]) if x[0] == "call" and x[1] == "dbGetIdx"]
            if idx and s.args[0][0] != "hav" and s.args[0] not in idx:
                A.bad(INDEX, s.where, "the index of the %s is %s" % (fl, fmt(s.args[0])[:60]))
            A.ok(INDEX, s.where)
        if not got[fl]:
            A.unsure("no cluster is found", CLUSTER)
    # Opened and without error
    o = v.calls("dbOpen")
    for fl in got:
        for s in got[fl]:
            if not o or v.escape([x.gid for x in v.calls("dbGetIdx")], [s.gid], [x.gid for x in o], []) is not None:
                A.bad(CLUSTER, s.where, "a cluster is used that was not opened")
    f = A.flow("dbGet", {"p": "=DbGetResult.primary", "s": "=DbGetResult.standby", "try": "dbGetIdx()"}, {"failed": "errorInternalCatch()"}, kill={"try": {"failed"}}, sticky=["failed"])
    for k in "ps":
        for x in f.occ[k].values():
            if has(x.st, "failed"):
                A.ok(CLUSTER, x.where)
    more, none = bound(lambda t: t[0] == "call" and t[1] == "cfgOptionGroupIdxTotal" and t[2][0] == ("int", e("cfgOptGrpPg")))

    def nul(name):
        def lit(a, pol):
            t = zero(a, pol)
            return t is not None and t[0] in ("fld", "ofld") and t[2] == name
        return LitFn(lit, {name}, "no " + name)

    def notNul(name):
        def lit(a, pol):
            t = zero(a, pol, False)
            return t is not None and t[0] in ("fld", "ofld") and t[2] == name
        return LitFn(lit, {name}, "a " + name)
    std = ("int", e("CFGOPTVAL_BACKUP_STANDBY_Y"))
    lits = {"more": LitFn(more, {"cfgOptionGroupIdxTotal"}, "another cluster"), "none": LitFn(none, {"cfgOptionGroupIdxTotal"}, "no more clusters"),
            "was": LitFn(lambda a, pol: zero(a, pol) is not None and (zero(a, pol)[0] == "hav" or zero(a, pol)[0] == "call" and zero(a, pol)[1] == "dbGetIdx"), {"primary", "dbGetIdx"}, "no cluster"),
            "np": nul("primary"), "ns": nul("standby"), "p": notNul("primary"), "s": notNul("standby"),
            "optP": LitFn(lambda a, pol: zero(a, pol) == ("p", 1), {("p", 1)}, "a primary is not required"),
            "optS": LitFn(lambda a, pol: a[0] == "eq" and pol is False and a[1] == ("p", 2) and a[2] == std, {("p", 2)}, "a standby is not required")}
    f = A.flow("dbGet", {"try": "dbGetIdx()", "setP": "=DbGetResult.primary:~dbGetIdx()", "setS": "=DbGetResult.standby:~dbGetIdx()"}, lits, sticky=list(lits), kill={"try": {"more", "np", "ns", "was"}})
    for o in f.occ["setP"].values():
        if has(o.st, "setP") and not has(o.st, "np") and not has(o.st, "was"):
            A.bad(CLUSTER, o.where, "a second primary is accepted")
    n = 0
    at = A.loc("dbGet")
    for (st, ret), node in f.exits.items():
        n += 1
        if has(st, "more") or not has(st, "none"):
            A.bad(FOUND, at, "the search ends before all clusters were looked at")
        if not has(st, "optP") and not has(st, "p") and not has(st, "setP"):
            A.bad(FOUND, at, "a primary that is required was not found")
        if not has(st, "optS") and not has(st, "s") and not has(st, "setS"):
            A.bad(FOUND, at, "a standby that is required was not found")
        A.ok(FOUND, at)
    if not n:
        A.unsure("dbGet() never returns", FOUND)


def p_index(A):
    e = A.prog.enum
    v = View(A, "dbGetIdx", noInline=("pgClientNew", "dbNew", "protocolRemoteGet", "storagePgIdx", "pgIsLocal"))
    for s in v.calls("pgClientNew"):
        want = ["cfgOptPgSocketPath", "cfgOptPgPort", "cfgOptPgDatabase", "cfgOptPgUser", "cfgOptDbTimeout"]
        for x, k in zip(s.args, want):
            if x[0] == "hav":
                continue
            if not (x[0] == "call" and x[1].startswith("cfgOption") and x[2][0] == ("int", e(k)) and (k == "cfgOptDbTimeout" or len(x[2]) > 1 and x[2][1] == ("p", 0))):
                A.bad(INDEX, s.where, "%s is %s" % (k[6:], fmt(x)[:60]))
        A.ok(INDEX, s.where)

        def local(a, pol):
            t = zero(a, pol, False)
            return t is not None and t[0] == "call" and t[1] == "pgIsLocal"
        if not s.under(local):
            A.bad(INDEX, s.where, "a remote cluster is connected to on the local host")
    for s in v.calls("storagePgIdx", "pgIsLocal"):
        if s.args[0] != ("p", 0):
            A.bad(INDEX, s.where, "the index is %s" % fmt(s.args[0])[:40])
        A.ok(INDEX, s.where)
    for s in v.calls("protocolRemoteGet"):
        if s.args[0] != ("int", e("protocolStorageTypePg")) or s.args[1] != ("p", 0):
            A.bad(INDEX, s.where, "the remote is %s, %s" % (fmt(s.args[0])[:40], fmt(s.args[1])[:40]))
        A.ok(INDEX, s.where)
