"""Page checksums are checked for every page, and what is found wrong is reported and recorded."""
from flow import LitFn, has
from graph import fmt, walkTerm
from lib import View, exitOf, hasCall, implies, nearest, strs, structArg

ASSUME = ["pgPageChecksum() calculates the checksum PostgreSQL stores (compared with PostgreSQL's own code by the unit tests)", "the filter group gives a filter all of the data that is read, in order (C34)"]

PAGE = "a page counts as good only when it was found good"
WHERE = "the checksum of a page is calculated for its own block number"
RETRY = "a bad page counts as changed only when the same page was read again and differs"
RESULT = "a file with a bad page is reported as not valid"
FILTER = "what is copied goes through the page checksum filter before it is compressed or encrypted"
RECORD = "an invalid file is recorded as one, with a warning"
LIST = "no page is lost from the list of bad pages"
TOTAL = "a backup with a bad file is recorded as one with errors"
FILES = "every relation is checked when page checksums are on"
OPTION = "checksum-page is turned off only when the cluster has no page checksums, offline, or as in the prior backup"


def isFld(t, name):
    return t[0] in ("fld", "ofld") and t[2] == name


def zero(a, pol, want=True):
    return a[1] if a[0] == "eq" and a[2] == ("int", 0) and pol is want else None


def counters(t):
    return {x[1][2] if len(x[1]) > 2 else x[1][-1] for x in walkTerm(t) if x[0] == "hav" and isinstance(x[1], tuple) and x[1] and x[1][0] == "ctr"}


def sumEq(a, pol):
    return pol is True and a[0] == "eq" and any(isFld(x, "pd_checksum") and y[0] == "call" and y[1] == "pgPageChecksum" for x, y in ((a[1], a[2]), (a[2], a[1])))


def again(a, pol):
    t = zero(a, pol)
    return t is not None and t[0] == "call" and t[1] == "bufEq" and hasCall(t, "storageGet")


def allZero(a, pol):
    """The loop over the words of the page came to its end."""
    for x, y, p in ((a[1], a[2], False), (a[2], a[1], True)):
        if a[0] == "lt" and pol is p and x[0] == "hav" and any(isFld(z, "pageSize") for z in walkTerm(y)) and not any(z[0] == "int" and z[1] not in (8, 4, 1) for z in walkTerm(y)):
            return True
    return False


def p_page(A):
    f = A.flow("pageChecksumProcess", {"sum": "pgPageChecksum()"}, {})
    var = set()
    for o in f.occ["sum"].values():
        var |= counters(o.args[1])
    if not var:
        A.unsure("the loop over the pages is not recognised", PAGE)
        return

    def adv(ctx):
        p = ctx.pt
        d = p.data[4] if p.kind == "inc" else p.data[3] if p.kind == "opas" else None
        return d is not None and d[0] == "v" and d[1] in var and ctx.inst.fn.name == "pageChecksumProcess" if hasattr(ctx, "inst") else d is not None and d[0] == "v" and d[1] in var
    lits = {"eq": LitFn(sumEq, {"pgPageChecksum"}, "the checksum is the stored one"), "changed": LitFn(again, {"bufEq"}, "the page has changed"),
            "zero": LitFn(allZero, {"pageSize"}, "every word of the page was looked at"),
            "new": LitFn(lambda a, pol: zero(a, pol) is not None and (isFld(zero(a, pol), "pd_upper") or isFld(zero(a, pol), "pd_checksum")), {"pd_upper", "pd_checksum"}, "the page looks new"),
            "word": LitFn(lambda a, pol: zero(a, pol, False) is not None and zero(a, pol, False)[0] in ("idx", "deref"), {"pageSize", "idx"}, "a word is not zero")}
    f = A.flow("pageChecksumProcess", {"err": "pckWriteObjBegin()", "adv": ("=v", adv)}, lits, kill={"adv": list(lits) + ["err"]}, sticky=list(lits))
    n = 0
    for o in f.occ["adv"].values():
        n += 1
        if has(o.st, "err") or has(o.st, "eq") or has(o.st, "changed") or has(o.st, "zero") and has(o.st, "new") and not has(o.st, "word"):
            A.ok(PAGE, o.where)
        else:
            A.bad(PAGE, o.where, "a page is passed that is neither zero nor has the checksum it stores, has not changed, and is not reported")
    if not n:
        A.unsure("the loop over the pages is not recognised", PAGE)
    # What the checks of a page are made of
    v = View(A, "pageChecksumProcess")
    for s in v.calls("pgPageChecksum"):
        t = s.args[1]
        if not any(isFld(x, "pageNoOffset") for x in walkTerm(t)) or t[0] not in ("op", "+", "add", "bin"):
            if not any(isFld(x, "pageNoOffset") for x in walkTerm(t)):
                A.bad(WHERE, s.where, "the block number is %s" % fmt(t)[:120])
        if not isFld(s.args[2], "pageSize"):
            A.bad(WHERE, s.where, "the size of the page is %s" % fmt(s.args[2])[:80])
        A.ok(WHERE, s.where)
    for s in v.calls("storageNewRead"):
        off = structArg(s.args[2], "offset")
        lim = structArg(s.args[2], "limit")
        if off is None or not all(any(isFld(x, k) for x in walkTerm(off)) for k in ("segmentPageTotal", "pageSize", "pageNoOffset")):
            A.bad(RETRY, s.where, "the page is read again at %s" % (fmt(off)[:120] if off else "0"))
        if lim is None or not any(isFld(x, "pageSize") for x in walkTerm(lim)):
            A.bad(RETRY, s.where, "not one page is read again")
        if not isFld(s.args[1], "fileName"):
            A.bad(RETRY, s.where, "the page is read again from %s" % fmt(s.args[1])[:80])
        A.ok(RETRY, s.where)
    for s in v.calls("pckWriteObjBegin"):
        t = structArg(s.args[1], "id")
        if t is None or not any(isFld(x, "pageNoOffset") for x in walkTerm(t)):
            A.bad(LIST, s.where, "the page that is reported is %s" % (fmt(t)[:100] if t else "not set"))
        A.ok(LIST, s.where)
    # The next buffer goes on where this one ended; a file that cannot be checked is not valid
    f = A.flow("pageChecksumProcess", {"off": "=.pageNoOffset", "bad": "=.valid:0", "skew": "=.align:0"},
               {"inv": LitFn(lambda a, pol: zero(a, pol) is not None and isFld(zero(a, pol), "valid"), {"valid"}, "the file is not valid"),
                "rest": LitFn(lambda a, pol: (zero(a, pol, False) or ("x",))[0] in ("op", "%", "bin", "mod") and "%" in fmt(a[1]) and any(isFld(x, "pageSize") for x in walkTerm(a[1])), {"pageSize"}, "a part of a page is left")}, sticky=["inv", "rest"])
    for (st, ret), node in f.exits.items():
        if not (has(st, "off") or has(st, "bad") or has(st, "inv")):
            A.bad(WHERE, A.loc("pageChecksumProcess"), "the number of the next page is not counted up")
        elif has(st, "rest") and not has(st, "skew"):
            A.bad(RESULT, A.loc("pageChecksumProcess"), "a part of a page at the end is not noted")
        else:
            A.ok(WHERE, A.loc("pageChecksumProcess"))


def p_result(A):
    f = A.flow("pageChecksumResult", {"no": "=.valid:0", "out": ("pckWriteBool()", lambda ctx: isFld(ctx.arg(1), "valid") or ctx.arg(1)[0] == "int"), "align": ("pckWriteBool()", lambda ctx: isFld(ctx.arg(1), "align"))},
               {"bad": LitFn(lambda a, pol: zero(a, pol, False) is not None and isFld(zero(a, pol, False), "error"), {"error"}, "there are bad pages")}, sticky=["bad"], trackArgs={"pckWriteBool": [1]})
    for o in f.occ["out"].values():
        if has(o.st, "bad") and not has(o.st, "no") and o.args[1] != ("int", 0):
            A.bad(RESULT, o.where, "a file with bad pages is reported as valid")
        elif has(o.st, "align"):
            A.bad(RESULT, o.where, "the flags are written in another order than they are read")
        else:
            A.ok(RESULT, o.where)
    for (st, ret), node in f.exits.items():
        if not has(st, "out") or not has(st, "align"):
            A.bad(RESULT, A.loc("pageChecksumResult"), "whether the file is valid is not reported")
    v = View(A, "pageChecksumNew")
    for fld, i in (("segmentPageTotal", 1), ("pageSize", 2), ("headerCheck", 3)):
        for s in v.inits("PageChecksum", fld):
            if s.args[-1] not in (("p", i), ("int", 0)):
                A.bad(WHERE, s.where, "%s is %s" % (fld, fmt(s.args[-1])[:80]))
            A.ok(WHERE, s.where)
    for s in v.inits("PageChecksum", "pageNoOffset"):
        t = s.args[-1]
        if t != ("int", 0) and not (("p", 0) in list(walkTerm(t)) and ("p", 1) in list(walkTerm(t))):
            A.bad(WHERE, s.where, "the number of the first page is %s" % fmt(t)[:80])
        if t == ("int", 0):
            A.bad(WHERE, s.where, "the number of the first page is always 0")
        A.ok(WHERE, s.where)
    for fld in ("valid", "align"):
        for s in v.inits("PageChecksum", fld):
            A.ok(RESULT, s.where)


def p_filter(A):
    off = LitFn(lambda a, pol: zero(a, pol) is not None and isFld(zero(a, pol), "pgFileChecksumPage"), {"pgFileChecksumPage"}, "page checksums are off")
    on = LitFn(lambda a, pol: zero(a, pol, False) is not None and isFld(zero(a, pol, False), "pgFileChecksumPage"), {"pgFileChecksumPage"}, "page checksums are on")
    v = View(A, "backupFile", noInline=("segmentNumber",))
    sites = v.calls("pageChecksumNew")
    if not sites:
        A.bad(FILTER, A.loc("backupFile"), "no page checksum filter is made")
    for s in sites:
        seg, tot, size, hdr, name = (list(s.args) + [("int", 0)] * 5)[:5]
        if not any(isFld(x, "pgFile") for x in walkTerm(seg)):
            A.bad(WHERE, s.where, "the segment number is %s" % fmt(seg)[:80])
        if size[0] != "p" or size not in list(walkTerm(tot)) and tot[0] != "int":
            A.bad(WHERE, s.where, "the number of pages of a segment is %s" % fmt(tot)[:80])
        if not isFld(hdr, "pgFilePageHeaderCheck"):
            A.bad(WHERE, s.where, "the header check is %s" % fmt(hdr)[:80])
        if not any(isFld(x, "pgFile") for x in walkTerm(name)):
            A.bad(RETRY, s.where, "the file to read again is %s" % fmt(name)[:80])
        A.ok(WHERE, s.where)
    for s in v.assigns("BackupFileResult", "pageChecksumResult"):
        if s.args[0] != ("int", 0) and not hasCall(s.args[0], "ioFilterGroupResult", "ioFilterGroupResultPack"):
            A.bad(RESULT, s.where, "the result is %s" % fmt(s.args[0])[:80])
        A.ok(RESULT, s.where)
    hashes = [s for s in v.calls("ioFilterGroupAdd") if hasCall(s.args[1], "cryptoHashNew") and hasCall(s.args[0], "storageNewRead", "ioBufferReadNew", "storageReadIo")]
    page = [s for s in v.calls("ioFilterGroupAdd") if hasCall(s.args[1], "pageChecksumNew")]
    later = [s for s in v.calls("ioFilterGroupAdd") if hasCall(s.args[1], "compressFilter", "cipherBlockNew", "blockIncrNew")]
    copies = v.calls("ioCopy", "ioReadSmall")
    res = [s for s in v.assigns("BackupFileResult", "pageChecksumResult") if s.args[0] != ("int", 0)]
    sizes = v.assigns("BackupFileResult", "repoSize")
    sizes = [s for s in sizes if hasCall(s.args[0], "ioFilterGroupResult")]
    start = [s.gid for s in page] + [s.gid for s in hashes]
    for s in later + copies:
        src = nearest(v, page, hashes)
        if v.escape([x.gid for x in src], [s.gid], [x.gid for x in page], [off]) is not None:
            A.bad(FILTER, s.where, "data is copied, compressed, encrypted or split without its page checksums being checked first")
        A.ok(FILTER, s.where)
    if not later or not hashes:
        A.unsure("the filters of a file are not recognised", FILTER)
    for s in sizes:
        nxt = [x.gid for x in hashes]
        if v.escape([s.gid], nxt + [exitOf(v).gid] if hasattr(exitOf(v), "gid") else nxt, [x.gid for x in res], [off]) is not None:
            A.bad(RESULT, s.where, "the result of the page checksums is dropped")
        A.ok(RESULT, s.where)


def p_record(A):
    def flag(a, pol):
        t = zero(a, pol)
        return t is not None and t[0] == "call" and t[1] == "pckReadBool" and hasCall(t, "pckReadPackRead")
    lits = {"bad": LitFn(flag, {"pckReadBool"}, "not valid"), "res": LitFn(lambda a, pol: zero(a, pol, False) is not None and zero(a, pol, False)[0] == "call" and zero(a, pol, False)[1] == "pckReadPackRead", {"pckReadPackRead"}, "there is a result"),
            "none": LitFn(lambda a, pol: zero(a, pol) is not None and zero(a, pol)[0] == "call" and zero(a, pol)[1] == "pckReadPackRead", {"pckReadPackRead"}, "there is no result")}
    var = set()
    for s in View(A, "backupJobResult", noInline=("backupJobResultPageChecksum",)).assigns("ManifestFile", "checksumPageError"):
        e = s.p.data[3]
        if e[0] == "v":
            var.add((s.inst.fn.name, e[1]))

    def sets(val):
        def f(ctx):
            p = ctx.pt
            return p.kind == "as" and p.data[2][0] == "v" and any(p.data[2][1] == n for _, n in var) and ctx.rhs() == ("int", val)
        return f
    ev = {"one2": ("=v", sets(1)), "nil2": ("=v", sets(0)), "list": "backupJobResultPageChecksum()", "flag": ("pckReadBool()", lambda ctx: hasCall(ctx.arg(0), "pckReadPackRead")), "warn": ("logInternalFmt()|logInternal()", lambda ctx: any("page" in s for a in ctx.args() for s in strs(a)) if hasattr(ctx, "args") else True),
          "one": ("=ManifestFile.checksumPageError", lambda ctx: ctx.rhs() == ("int", 1) or hasCall(ctx.rhs(), "pckReadBool")), "nil": ("=ManifestFile.checksumPageError", lambda ctx: ctx.rhs() == ("int", 0)),
          "upd": "manifestFileUpdate()", "next": "pckReadPackRead()"}
    f = A.flow("backupJobResult", ev, lits, kill={"one2": ["nil2"], "nil2": ["one2"], "next": ["one2", "nil2", "bad", "res", "none", "flag", "warn", "one", "nil", "list"]}, sticky=list(lits), noInline=("backupJobResultPageChecksum",), trackArgs={"checksumPageError": None})
    n = 0
    for o in f.occ["upd"].values():
        n += 1
        one = has(o.st, "one") or has(o.st, "one2")
        if has(o.st, "bad") and not one and (has(o.st, "nil") or has(o.st, "nil2")):
            A.bad(RECORD, o.where, "a file whose pages are not valid is recorded as valid")
        elif has(o.st, "bad") and not one:
            A.bad(RECORD, o.where, "that the pages of a file are not valid is not recorded")
        elif has(o.st, "bad") and not has(o.st, "warn"):
            A.bad(RECORD, o.where, "invalid pages are recorded without a warning")
        elif not has(o.st, "flag") and not has(o.st, "none"):
            A.bad(RECORD, o.where, "the result of the page checksums is not looked at")
        else:
            A.ok(RECORD, o.where)
    if not n:
        A.unsure("the update of the manifest is gone", RECORD)


def p_list(A):
    """Each page read from the result is put out: when the sequence ends, and at the end."""
    if "backupJobResultPageChecksum" not in A.prog.fns or "backupJobResultPageChecksumOut" not in A.prog.fns:
        A.unsure("the list of bad pages is made elsewhere", LIST)
        return
    f = A.flow("backupJobResultPageChecksum", {"out": "backupJobResultPageChecksumOut()", "id": "pckReadId()", "list": "varLstNew()"},
               {"none": LitFn(lambda a, pol: zero(a, pol, False) is not None and hasCall(zero(a, pol, False), "pckReadNull"), {"pckReadNull"}, "there is no list"),
                "end": LitFn(lambda a, pol: zero(a, pol) is not None and hasCall(zero(a, pol), "pckReadNext"), {"pckReadNext"}, "no more pages")},
               noInline=("backupJobResultPageChecksumOut",), kill={"id": ["out"]}, sticky=["none", "end"])
    for (st, ret), node in f.exits.items():
        if has(st, "none") or has(st, "end") and has(st, "out"):
            A.ok(LIST, A.loc("backupJobResultPageChecksum"))
        else:
            A.bad(LIST, A.loc("backupJobResultPageChecksum"), "the last bad pages are not put on the list")


def p_range(A):
    def num(i):
        return ("varNewUInt64()", lambda ctx: ctx.arg(0) == ("p", i))
    f = A.flow("backupJobResultPageChecksumOut", {"b": num(1), "e": num(2)}, {"same": LitFn(lambda a, pol: pol is True and a[0] == "eq" and {a[1], a[2]} == {("p", 1), ("p", 2)}, {("p", 1)}, "one page only")}, sticky=["same"])
    for (st, ret), node in f.exits.items():
        if has(st, "b") and has(st, "e") or (has(st, "b") or has(st, "e")) and has(st, "same"):
            A.ok(LIST, A.loc("backupJobResultPageChecksumOut"))
        else:
            A.bad(LIST, A.loc("backupJobResultPageChecksumOut"), "a range of bad pages is put out without its end")


def p_total(A):
    v = View(A, "infoBackupDataAdd")
    n = 0
    for s in v.inits("InfoBackupData", "backupError"):
        t = s.args[-1]
        if t == ("int", 0):
            continue
        n += 1
        if t[0] == "call" and t[1] in ("varNewBool",) and t[2][0][0] == "int":
            A.bad(TOTAL, s.where, "the backup is always recorded %s errors" % ("with" if t[2][0][1] else "without"))
        A.ok(TOTAL, s.where)
    def bad(a, pol):
        return zero(a, pol, False) is not None and isFld(zero(a, pol, False), "checksumPageError")
    seen = False
    for s in v.calls("varNewBool"):
        e = s.p.data[3][0]
        while e[0] in ("c", "cast") and len(e) > 1:
            e = e[-1]
        if e[0] != "v" or not any(x.args[-1][0] == "call" and x.args[-1][1] == "varNewBool" for x in v.inits("InfoBackupData", "backupError")):
            continue
        for d in v.defs(s.inst, e[1]):
            t = d.args[0]
            if t == ("int", 1):
                if not d.under(bad):
                    A.bad(TOTAL, d.where, "a backup is recorded with errors without one")
                elif any(not bad(a, pol) and any(isFld(x, k) for x in walkTerm(a) for k in ("reference", "name", "size", "sizeRepo", "copy")) for a, pol in d.conds):
                    A.bad(TOTAL, d.where, "only some files with bad pages count")
                seen = True
            elif t is not None and t != ("int", 0):
                if any(isFld(x, "checksumPageError") for x in walkTerm(t)):
                    seen = True
                if t[0] not in ("or", "ite", "op", "|", "bin") and not hasOr(t):
                    A.bad(TOTAL, d.where, "the last file alone decides whether the backup has errors")
            A.ok(TOTAL, d.where)
    if not seen and n:
        A.bad(TOTAL, A.loc("infoBackupDataAdd"), "the files with bad pages are not looked at")


def hasOr(t):
    return any(x[0] in ("or", "bor", "|") for x in walkTerm(t))


NOT = ("/pg_filenode.map", "/PG_VERSION", "pg_data/global/pg_control")


def p_files(A):
    def named(a, pol):
        t = zero(a, pol, False)
        return t is not None and t[0] == "call" and t[1] in ("strEndsWithZ", "strEndsWith", "strEq", "strEqZ") and any(s in NOT for s in strs(t))
    f = A.flow("manifestBuildInfo", {"on": ("=ManifestFile.checksumPage", lambda ctx: implies(ctx.rhs(), False, [named])), "add": "manifestFileAdd()"},
               {"db": LitFn(lambda a, pol: zero(a, pol, False) == ("p", 3), {("p", 3)}, "in the path of a database"), "nodb": LitFn(lambda a, pol: zero(a, pol) == ("p", 3), {("p", 3)}, "not in the path of a database"),
                "no": LitFn(lambda a, pol: zero(a, pol) is not None and isFld(zero(a, pol), "checksumPage"), {"checksumPage"}, "page checksums are off"),
                "name": LitFn(named, {"strEndsWithZ", "strEndsWith", "strEq", "strEqZ"}, "a file without pages")}, sticky=["db", "nodb", "no", "name"])
    n = 0
    for o in f.occ["add"].values():
        n += 1
        if has(o.st, "nodb") or has(o.st, "no") or has(o.st, "name") or has(o.st, "on"):
            A.ok(FILES, o.where)
        else:
            A.bad(FILES, o.where, "a file in the path of a database is added without its pages being checked")
    if not n:
        A.unsure("no file is added", FILES)


def p_option(A):
    k = ("int", A.prog.enum("cfgOptChecksumPage"))
    n = 0
    for c in sorted(A.prog.callers().get("cfgOptionSet", ())):
        if not A.prog.fns[c].file.startswith("command/backup/"):
            continue
        v = View(A, c, noInline=("cfgOptionSet", "cfgOptionTest", "cfgOptionBool", "manifestData"))
        for s in v.calls("cfgOptionSet"):
            if s.args[0] != k:
                continue
            n += 1
            t = s.args[2]
            fixed = t[0] == "glob" or not any(x[0] in ("fld", "ofld", "call", "cmp", "ne", "eq", "not") for x in walkTerm(t) if x[0] != "struct")
            prior = any(isFld(x, "backupOptionChecksumPage") for x in walkTerm(t))
            if prior or not fixed and any(isFld(x, "pageChecksumVersion") for x in walkTerm(t)):
                A.ok(OPTION, s.where)
                continue

            def noSums(a, pol):
                return zero(a, pol) is not None and any(isFld(x, "pageChecksumVersion") for x in walkTerm(zero(a, pol)))

            def offline(a, pol):
                return zero(a, pol) is not None and zero(a, pol)[0] == "call" and zero(a, pol)[1] == "cfgOptionBool" and ("int", A.prog.enum("cfgOptOnline")) in zero(a, pol)[2]

            def unset(a, pol):
                return zero(a, pol) is not None and zero(a, pol)[0] == "call" and zero(a, pol)[1] == "cfgOptionTest" and k in zero(a, pol)[2]

            def old(a, pol):
                return zero(a, pol) is not None and isFld(zero(a, pol), "backupOptionChecksumPage")
            if s.under(noSums) or s.under(old) or s.under(offline) and s.under(unset):
                A.ok(OPTION, s.where)
            else:
                A.bad(OPTION, s.where, "checksum-page is set to %s although the cluster may have page checksums" % fmt(t)[:60])
    if not n:
        A.unsure("checksum-page is not set", OPTION)
