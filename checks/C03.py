"""Metadata round trip: what a save writes under a key a load reads from that key into the same field, in the same form and order."""
from flow import has  # noqa: F401
from graph import fmt, walkTerm
from lib import View, callOf, hasCall, hasField, keyOf
from prog import AnalysisError

ASSUME = ["the JSON and INI layers reproduce the values and the order in which they were written", "pack values are read in the order written"]

NOTVAL = ("Key", "New", "ObjectBegin", "ObjectEnd", "ArrayBegin", "ArrayEnd", "UntilKey", "TypeNext", "Skip", "Consume", "Result", "Move", "Free")


def isRead(n):
    return n.startswith("jsonRead") and not any(n[8:].startswith(x) for x in NOTVAL)


def isWrite(n):
    return n.startswith("jsonWrite") and not any(n[9:].startswith(x) for x in NOTVAL)


def pos(conds):
    """(call term, is it known true) of the dominating conditions, in order."""
    for a, pol in conds:
        if a[0] == "eq" and a[2] == ("int", 0) and a[1][0] in ("call", "icall"):
            yield a[1], not pol
        elif a[0] not in ("eq", "lt", "le") and len(a) > 1 and isinstance(a[1], tuple):
            yield a[1], pol


def sideStr(t, param):
    """strEq(param, "x") in either order -> "x"."""
    if t[0] == "call" and t[1] == "strEq" and len(t[2]) == 2:
        a, b = t[2]
        if b == ("p", param):
            a, b = b, a
        if a == ("p", param) and b[0] == "str":
            return b[1]
    return None


def alts(t):
    if t[0] == "ite":
        return alts(t[2]) + alts(t[3])
    if t[0] == "phi":
        return [x for y in t[1] for x in alts(y)]
    return [t]


def strKeys(t):
    return [k for k in (keyOf(x) for x in alts(t)) if k]


def fieldsOf(t):
    """Names of the outermost fields a value is made of (nested containers of a field are not counted)."""
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "fld":
            if x[2] not in out:
                out.append(x[2])
            return
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], tuple):
                    for z in y:
                        go(z)
                else:
                    go(y)
    go(t)
    return out


class Entry:
    def __init__(self, section, key, fields, kind, site, value):
        self.section, self.key, self.fields, self.kind, self.site, self.value = section, key, fields, kind, site, value
        self.rank = site.rank
        self.where = site.where


def writes(A, entry):
    v = View(A, entry)
    names = [n for n in A.prog.fns if isWrite(n)] + ["infoSaveValue"]
    out = []
    for s in v.calls(*names):
        sec = [keyOf(t[2][1]) for t, tr in pos(s.conds) if tr and t[0] == "call" and t[1] == "infoSaveSection"]
        if s.name == "infoSaveValue":
            keys, value, sec = strKeys(s.args[2]), s.args[3], strKeys(s.args[1])
            kind = "save"
        else:
            k = callOf(s.args[0], "jsonWriteKey", "jsonWriteKeyZ", "jsonWriteKeyStrId")
            keys = strKeys(k[2][1]) if k else []
            value = s.args[-1]
            kind = s.name[9:]
        for key in keys:
            out.append(Entry(sec[-1] if sec else None, key, fieldsOf(value), kind, s, value))
    return v, out


def reads(A, entry, recs, paramSection=1, paramKey=2):
    v = View(A, entry)
    out = []
    items = [(s, s.name, s.args[0]) for s in v.assigns()]
    g = v.g
    for rec in recs:
        for w, fields, inst, p in structSites(A, g, rec):
            from lib import Site
            r = v.o.rank(g.gid(inst, p.idx))
            if r is None:
                continue
            for f, t in fields.items():
                items.append((Site(v, w, f, [t], inst, p, r), f, t))
    for s, field, t in items:
        for c in walkTerm(t):
            if c[0] != "call" or not isRead(c[1]):
                continue
            sec = [sideStr(x, paramSection) for x, tr in pos(s.conds) if tr and sideStr(x, paramSection)]
            rk = callOf(c, "jsonReadKeyRequire", "jsonReadKeyRequireZ", "jsonReadKeyRequireStrId")
            if rk:
                keys = strKeys(rk[2][1])
            else:
                keys = []
                for x, tr in pos(s.conds):
                    if not tr:
                        continue
                    if x[0] == "call" and x[1] in ("jsonReadKeyExpect", "jsonReadKeyExpectZ", "jsonReadKeyExpectStrId"):
                        keys = strKeys(x[2][1])
                    elif sideStr(x, paramKey):
                        keys = [sideStr(x, paramKey)]
            for k in keys:
                out.append(Entry(sec[-1] if sec else None, k, [field], c[1][8:], s, t))
            break
    return v, out


def structSites(A, g, rec):
    out = []

    def walk(inst, p, e):
        if isinstance(e, dict):
            for x in e.values():
                walk(inst, p, x)
            return
        if not isinstance(e, list) or not e:
            return
        if e[0] == "S" and len(e) == 3 and e[1] == rec:
            out.append((g.where(g.gid(inst, p.idx)), {f: g.ev(inst, x, p.idx) for f, x in e[2].items()}, inst, p))
        for x in e:
            if isinstance(x, (list, dict)):
                walk(inst, p, x)
    for inst in g.insts:
        for p in inst.fn.pts():
            if p.tries is not None and p.data is not None and p.kind not in ("nop", "try"):
                walk(inst, p, p.data[2:] if p.kind not in ("br", "sw") else p.data)
    return out


PAIRS = [
    ("manifestSaveCallback", "manifestLoadCallback", ("ManifestFile", "ManifestPath", "ManifestLink", "ManifestTarget", "ManifestDb")),
    ("infoBackupSaveCallback", "infoBackupLoadCallback", ("InfoBackupData",)),
    ("infoPgSaveCallback", "infoPgLoadCallback", ("InfoPgData",)),
]

# Keys written for other readers (older versions, humans): their values are derived from fields that are read from another key
WRITEONLY = {("backup:db", "db-control-version"): "pgVersion", ("db", "db-catalog-version"): "catalogVersion", ("db", "db-control-version"): "controlVersion",
             ("db", "db-system-id"): "systemId", ("db", "db-version"): "version"}
RENAMED = {}
for _s, _p in (("file", "file"), ("path", "path"), ("link", "link")):
    RENAMED[("target:%s:default" % _s, "group")] = {"groupDefault": _p + "GroupDefault"}
    RENAMED[("target:%s:default" % _s, "user")] = {"userDefault": _p + "UserDefault"}
ALSO = {("target:file", "size"): {"sizeOriginal", "sizeRepo"}}
SIZES = {"VariantStringPub": "str", "VariantStringPubConst": "str", "VariantBoolPub": "bool", "VariantInt64Pub": "int64", "VariantIntPub": "int", "VariantUIntPub": "int",
         "VariantUInt64Pub": "int64"}
KINDS = {"Str": "str", "StrFmt": "str", "StrId": "str", "Z": "str", "Bool": "bool", "UInt": "int", "Int": "int", "UInt64": "int64", "Int64": "int64", "StrLst": "strlst",
         "Json": "any", "Var": "any"}


def wKind(e):
    if e.kind != "save":
        return KINDS.get(e.kind, "?")
    for x in walkTerm(e.value):
        if x[0] == "S" and x[1] in SIZES:
            return SIZES[x[1]]
        if x[0] in ("struct", "lit") and len(x) > 1 and x[1] in SIZES:
            return SIZES[x[1]]
    return "any"


def compatible(w, r):
    if w == "any" or r == "any" or w == "?":
        return True
    if w == "int":
        return r in ("int", "int64")
    return w == r


def sig(t):
    """Arithmetic with constants and negations on the way from the value to the field."""
    out = []
    for x in walkTerm(t):
        if x[0] == "op" and x[1] in ("*", "/", "+", "-", "<<", ">>", "%") and any(y[0] == "int" for y in x[2:4] if isinstance(y, tuple)):
            c = [y for y in x[2:4] if y[0] == "int"]
            out.append((x[1], c[0][1]))
        elif x[0] in ("not", "!") or (x[0] == "op" and x[1] in ("!", "not")):
            out.append(("!", 0))
    return out


def inverse(s):
    m = {"*": "/", "/": "*", "+": "-", "-": "+", "<<": ">>", ">>": "<<", "!": "!", "%": "%"}
    return sorted((m[a], c) for a, c in s)


def lastSig(t, call):
    """Operators applied outside the given call (reader side)."""
    out = []

    def go(x):
        if x == call or not isinstance(x, tuple) or not x:
            return
        if x[0] == "op" and x[1] in ("*", "/", "+", "-", "<<", ">>", "%"):
            for y in x[2:4]:
                if y[0] == "int":
                    out.append((x[1], y[1]))
        elif x[0] == "not" or (x[0] == "op" and x[1] in ("!", "not")):
            out.append(("!", 0))
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], tuple):
                    for z in y:
                        go(z)
                else:
                    go(y)
    go(t)
    return out


def p_pairs(A):
    for w, r, recs in PAIRS:
        wv, we = writes(A, w)
        rv, re_ = reads(A, r, recs)
        if len(we) < 8 or len(re_) < 5:
            A.unsure("%s/%s: %d keys written, %d read" % (w, r, len(we), len(re_)))
            continue
        W, R = {}, {}
        for e in we:
            W.setdefault((e.section, e.key), []).append(e)
        for e in re_:
            R.setdefault((e.section, e.key), []).append(e)
        if any(k[0] is None for k in list(W) + list(R)):
            A.unsure("%s/%s: the section of a key was not found" % (w, r))
        for k, es in W.items():
            rule = "every value saved is loaded into the field it came from"
            wf = {f for e in es for f in e.fields}
            wf = {RENAMED.get(k, {}).get(f, f) for f in wf}
            if w == "infoPgSaveCallback" and k == ("db", "db-id"):
                wf = {"currentId" if f == "id" else f for f in wf}
            A.ok(rule, "[%s] %s" % k)
            if k in WRITEONLY:
                if wf != {WRITEONLY[k]}:
                    A.bad(rule, es[0].where, "[%s] %s is written from %s" % (k[0], k[1], ", ".join(sorted(wf))))
                continue
            if k not in R:
                A.bad(rule, es[0].where, "[%s] %s is saved but never loaded" % k)
                continue
            rf = {f for e in R[k] for f in e.fields} - ALSO.get(k, set())
            if wf != rf:
                A.bad(rule, es[0].where, "[%s] %s is saved from %s and loaded into %s (%s)" % (k[0], k[1], "/".join(sorted(wf)), "/".join(sorted(rf)), R[k][0].where))
            rule2 = "values are loaded with the type they were saved with"
            for e in es:
                for x in R[k]:
                    if not compatible(wKind(e), KINDS.get(x.kind, "?")):
                        A.bad(rule2, x.where, "[%s] %s is saved as %s and loaded as %s" % (k[0], k[1], wKind(e), x.kind))
                    call = next(c for c in walkTerm(x.value) if c[0] == "call" and isRead(c[1]))
                    # option-compress is a summary of the compression type kept for old readers
                    if k not in (("backup:option", "option-compress"), ("backup:target", "type")) and len(es) == 1 and len(R[k]) == 1 and inverse(lastSig(x.value, call)) != sorted(writerSig(e)):
                        A.bad("a conversion made by the save is undone by the load", x.where, "[%s] %s is saved as %s and loaded as %s" % (k[0], k[1], fmt(e.value)[:100], fmt(x.value)[:100]))
                A.ok(rule2, "[%s] %s" % k)
        for k, es in R.items():
            rule = "every value loaded was saved"
            if k not in W:
                A.bad(rule, es[0].where, "[%s] %s is loaded but never saved" % k)
            A.ok(rule, "[%s] %s" % k)
        # Order inside objects
        rule = "keys of an object are loaded in the order they were saved"
        for sec in {k[0] for k in W}:
            keys = [e for e in sorted(we, key=lambda e: e.rank) if e.section == sec and e.kind != "save"]
            worder = [e.key for e in keys]
            rorder = []
            for e in sorted(re_, key=lambda e: e.rank):
                if e.section == sec and e.key in worder and e.key not in rorder and (callOf(e.value, "jsonReadKeyRequire", "jsonReadKeyRequireZ", "jsonReadKeyRequireStrId") or
                                                                                    any(tr and t[0] == "call" and t[1].startswith("jsonReadKeyExpect") for t, tr in pos(e.site.conds))):
                    rorder.append(e.key)
            seen = [k for i, k in enumerate(worder) if k in rorder and k not in worder[:i]]
            if rorder and seen != rorder:
                A.bad(rule, A.loc(r), "[%s] saved in the order %s, loaded in the order %s" % (sec, ",".join(seen), ",".join(rorder)))
            if rorder:
                A.ok(rule, "[%s] %d keys" % (sec, len(rorder)), len(rorder))
        guards(A, w, r, we, re_, rv)


def writerSig(e):
    t = e.value
    for x in walkTerm(t):
        if x[0] == "fld":
            break
    out = []

    def go(x):
        if not isinstance(x, tuple) or not x or x[0] == "fld":
            return
        if x[0] == "op" and x[1] in ("*", "/", "+", "-", "<<", ">>", "%"):
            for y in x[2:4]:
                if y[0] == "int":
                    out.append((x[1], y[1]))
        elif x[0] == "not" or (x[0] == "op" and x[1] in ("!", "not")):
            out.append(("!", 0))
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], tuple):
                    for z in y:
                        go(z)
                else:
                    go(y)
    go(t)
    return out


def guards(A, w, r, we, re_, rv):
    """A value is left out of a save only when the load restores it without the key."""
    rule = "a value is left out of a save only when a load without it yields the same value"
    assigned = {}
    for s in rv.assigns():
        assigned.setdefault(s.name, []).append(s.args[0])
    for e in we:
        own = set(e.fields)
        for a, pol in e.site.conds:
            txt = fmt(a[1]) if len(a) > 1 and isinstance(a[1], tuple) else str(a)
            fs = set(fieldsOf(a[1])) | (set(fieldsOf(a[2])) if len(a) > 2 and isinstance(a[2], tuple) else set())
            if hasCall(a[1], "infoSaveSection") or (a[0] in ("lt", "le") and not fs & own):
                continue
            if a[0] == "eq" and not pol and a[2] == ("int", 0) and fs and fs <= own:
                continue                                        # not written when null or zero: the load starts from zero
            if a[0] == "eq" and not pol and a[2][0] == "int" and fs <= own and any(t == a[2] for f in own for t in assigned.get(f, [])):
                continue                                        # not written when equal to a constant the load assumes
            if a[0] == "eq" and not pol and len(fs) == 2 and fs & own:
                other = fs - own
                if any(set(fieldsOf(t)) & other or hasRead(t) for f in own for t in assigned.get(f, [])):
                    continue                                    # not written when equal to another field the load copies
            if own & fs and any("Default" in x for t in [t for f in own for t in assigned.get(f, [])] for x in fieldsOf(t)) and any("efault" in x for x in allFields(a)):
                continue                                        # not written when equal to the default of the section
            guardExtra(A, rule, e, a, pol, txt, fs, we)
        A.ok(rule, "[%s] %s" % (e.section, e.key))


def hasRead(t):
    return any(x[0] == "call" and isRead(x[1]) for x in walkTerm(t))


def allFields(a):
    return {x[2] for y in a[1:] if isinstance(y, tuple) for x in walkTerm(y) if x[0] == "fld"}


# Further conditions of a write: what the load does without the key is stated next to each
GUARDOK = {
    ("target:link:default", "group"): [("manifestLinkTotal", 0, False)],                # without links there is nothing to apply a default to
    ("target:link:default", "user"): [("manifestLinkTotal", 0, False)],
    ("target:file", "bic"): [("blockIncrSize", 0, False)],                              # used only with a block size
    ("target:file", "bim"): [("blockIncrSize", 0, False)],
    ("target:file", "bno"): [("bundleId", 0, False)],                                   # used only with a bundle
    ("target:file", "checksum"): [("size", 0, False)],                                  # the load assigns the checksum of the empty file
    ("target:file", "checksum-page"): [("checksumPage", 0, False)],
    ("target:file", "checksum-page-error"): [("checksumPage", 0, False)],
    ("backup:current", "backup-info-repo-size-map-delta"): [("backupInfoRepoSizeMap", 0, False)],
}


def guardExtra(A, rule, e, a, pol, txt, fs, we):
    for f, c, q in GUARDOK.get((e.section, e.key), []):
        if q == pol and a[0] == "eq" and a[2] == ("int", c) and (fs == {f} or hasCall(a[1], f)):
            return
    # the kind of info file decides which form of the identity is written, the load makes the same distinction
    if fs == {"type"} and e.section in ("db", "db:history") and a[0] == "eq" and a[2][0] == "int":
        return
    A.bad(rule, e.where, "[%s] %s is written only when %s%s" % (e.section, e.key, "" if pol else "not ", "%s %s %s" % (txt[-60:], a[0], fmt(a[2]) if len(a) > 2 else "")))


def p_readguards(A):
    rule = "a value present in the file is loaded whatever the rest of the file says"
    for w, r, recs in PAIRS:
        rv, re_ = reads(A, r, recs)
        for e in re_:
            for a, pol in e.site.conds:
                t = a[1]
                if t[0] == "call" and (t[1].startswith("jsonReadKey") or t[1] == "strEq"):
                    continue
                fs = set(fieldsOf(t))
                if fs == {"type"} and e.section in ("db", "db:history"):
                    continue
                if (e.section, e.key) == ("target:file", "reference") and fs == {"referenceListFound"}:
                    continue                                    # old manifests list the references only with the files
                if (e.section, e.key) == ("target:file", "size"):
                    continue
                if a[0] == "eq" and e.section.endswith(":default") and t[0] == "call" and t[1] in ("varType",):
                    continue
                A.bad(rule, e.where, "[%s] %s is loaded only when %s%s" % (e.section, e.key, "" if pol else "not ", "%s %s %s" % (fmt(t)[-60:], a[0], fmt(a[2]) if len(a) > 2 else "")))
            A.ok(rule, "[%s] %s" % (e.section, e.key))


def outFields(t):
    return [x[-1][0] if isinstance(x[-1], tuple) else str(x[-1]) for x in walkTerm(t) if x[0] == "out"]


def p_defaults(A):
    """Owner and mode defaults: saved and applied for the same attribute of the same kind of object."""
    rule = "a default is applied to the attribute it was made from"
    kinds = {"ManifestFile": "file", "ManifestPath": "path", "ManifestLink": "link"}
    n = 0
    for entry in ("manifestLoadCallback", "manifestNewLoad"):
        v = View(A, entry)
        for s in v.assigns():
            e = s.p.data[2] if s.p.kind == "as" else s.p.data[3]
            if e[3] not in kinds or s.name not in ("group", "user", "mode"):
                continue
            ds = [f for f in fieldsOf(s.args[0]) + outFields(s.args[0]) if f.endswith("Default")]
            for d in ds:
                n += 1
                want = kinds[e[3]] + s.name.capitalize() + "Default"
                if d != want:
                    A.bad(rule, s.where, "%s of a %s takes %s" % (s.name, kinds[e[3]], d))
                A.ok(rule, s.where)
    if n < 8:
        A.unsure("only %d uses of defaults found by the load" % n)
    rule = "a default is compared with the attribute it stands for"
    v, we = writes(A, "manifestSaveCallback")
    n = 0
    for e in we:
        if e.section in ("target:file", "target:path", "target:link") and e.key in ("group", "user", "mode"):
            ds = {f for a, pol in e.site.conds for f in allFields(a) if f.endswith("Default")}
            want = {"group": "groupDefault", "user": "userDefault", "mode": e.section[7:] + "ModeDefault"}[e.key]
            n += 1
            if ds and ds != {want}:
                A.bad(rule, e.where, "[%s] %s is compared with %s" % (e.section, e.key, ", ".join(sorted(ds))))
            A.ok(rule, e.where)
    if n < 8:
        A.unsure("only %d uses of defaults found by the save" % n)


# Packed form of a file entry ------------------------------------------------------------------------------------------------------------
def bitOf(conds):
    """(bit, polarity) of the flag tests among the conditions."""
    out = []
    for a, pol in conds:
        if a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "op" and a[1][1] == "&":
            c = [x for x in a[1][2:4] if x[0] == "int"]
            if c:
                out.append((int(c[0][1]), not pol))
    return out


def p_pack(A):
    v = View(A, "manifestFilePack")
    g = v.g
    flags = {}
    for inst in g.insts:
        for p in inst.fn.pts():
            if p.tries is None or p.kind != "opas" or v.o.rank(g.gid(inst, p.idx)) is None:
                continue
            val = g.ev(inst, p.data[4], p.idx)
            if val[0] != "int" or val[1] & (val[1] - 1) or p.data[2] not in ("|", "|="):
                continue
            conds = v.o.conds(inst, p)
            flags.setdefault(val[1], []).append((conds, g.where(g.gid(inst, p.idx))))
    if len(flags) < 12:
        A.unsure("manifestFilePack: only %d flags found" % len(flags))
        return
    r = View(A, "manifestFileUnpack")
    rd = {}
    order = []
    for s in r.assigns("ManifestFile"):
        bits = bitOf(s.conds)
        for x in walkTerm(s.args[0]):
            if x[0] == "op" and x[1] == "&" and any(y == ("int", 1) for y in x[2:4]):
                sh = [y for y in x[2:4] if y[0] == "op" and y[1] == ">>"]
                if sh and sh[0][3][0] == "int":
                    bits.append((1 << int(sh[0][3][1]), True))
            elif x[0] == "op" and x[1] == "&" and any(y[0] == "int" for y in x[2:4]):
                bits.append((int([y for y in x[2:4] if y[0] == "int"][0][1]), True))
        for b, pol in bits:
            rd.setdefault(b, {}).setdefault(pol, set()).add(s.name)
        if hasCall(s.args[0], "cvtUInt64FromVarInt128") and not hasFlagOnly(s.args[0]) or s.name in ("checksumSha1", "checksumRepoSha1"):
            # without the flag the value is a copy of one read before
            if not any(not pol for b, pol in bits) or any(pol for b, pol in bits):
                order.append((s.name, frozenset(b for b, pol in bits if pol), s))
    rule = "a flag of the packed file entry stands for the same field on both sides"
    byField = {}
    for b, occ in sorted(flags.items()):
        fs = set()
        got = rd.get(b, {}).get(True, set()) | rd.get(b, {}).get(False, set())
        for conds, w in occ:
            f1 = set()
            for a, pol in conds[-1:]:
                f1 |= set(fieldsOf(a[1])) | (set(fieldsOf(a[2])) if isinstance(a[2], tuple) else set())
            if not f1 & got:
                A.bad(rule, w, "flag %d is set for %s and read for %s" % (b, "/".join(sorted(f1)), "/".join(sorted(got)) or "nothing"))
            fs |= f1
        fs2 = {f for f in fs if not f.endswith("Default")}
        for f in fs2:
            byField.setdefault(f, set()).add(b)
        A.ok(rule, "flag %d: %s" % (b, ", ".join(sorted(fs2))))
    for b in rd:
        if b not in flags:
            A.bad(rule, A.loc("manifestFileUnpack"), "flag %d is read for %s but never set" % (b, "/".join(sorted(set().union(*rd[b].values())))))
    # order and presence of the values
    rule = "the values of a packed file entry are read in the order and under the flags they were written"
    worder = []
    for s in v.calls("cvtUInt64ToVarInt128", "memcpy"):
        val = s.args[0] if s.name != "memcpy" else s.args[1]
        fs = [f for f in fieldsOf(val) if f not in ("referenceList", "ownerList", "name", "pub")]
        fs = [f for f in allOf(val) if f in ("size", "sizeOriginal", "timestamp", "checksumSha1", "checksumRepoSha1", "reference", "mode", "user", "group", "sizeRepo", "bundleId",
                                             "bundleOffset", "blockIncrSize", "blockIncrChecksumSize", "blockIncrMapSize")]
        if len(fs) != 1:
            continue
        bits = {b for b, pol in bitOf(s.conds) if pol}
        for a, pol in s.conds:
            if not pol and a[0] == "eq" and a[2] == ("int", 0) and fieldsOf(a[1]) == fs:
                bits |= byField.get(fs[0], set())
        worder.append((fs[0], frozenset(bits), s))
    w1 = [x[0] for x in worder]
    r1 = [x[0] for x in order if x[0] in w1]
    if len(w1) < 14 or len(set(w1)) != len(w1):
        A.unsure("manifestFilePack: %d values found" % len(w1))
    else:
        if w1 != r1:
            A.bad(rule, A.loc("manifestFileUnpack"), "written in the order %s, read in the order %s" % (",".join(w1), ",".join(r1)))
        rb = {x[0]: x for x in order}
        for f, bits, s in worder:
            if f in rb and bits != rb[f][1]:
                A.bad(rule, rb[f][2].where, "%s is written under flags %s and read under flags %s" % (f, sorted(bits), sorted(rb[f][1])))
            if f in rb and inverse(opsOf(rb[f][2].args[0])) != sorted(opsOf(s.args[0])):
                A.bad(rule, rb[f][2].where, "%s is written as %s and read as %s" % (f, fmt(s.args[0])[:80], fmt(rb[f][2].args[0])[:80]))
            A.ok(rule, f)
    rule = "a value missing from a packed file entry is restored from its default"
    dflt = {"sizeOriginal": "size", "mode": "fileModeDefault", "user": "fileUserDefault", "group": "fileGroupDefault"}
    for f, d in dflt.items():
        t = [s for s in r.assigns("ManifestFile", f) if d in fieldsOf(s.args[0]) or (f == "sizeOriginal" and s.args[0] in [x.args[0] for x in r.assigns("ManifestFile", "size")])]
        if not t:
            A.bad(rule, A.loc("manifestFileUnpack"), "%s is not restored from %s" % (f, d))
        A.ok(rule, f)


def allOf(t):
    return [x[2] for x in walkTerm(t) if x[0] == "fld"]


def opsOf(t):
    out = []
    for x in walkTerm(t):
        if x[0] == "op" and x[1] in ("*", "/"):
            out += [(x[1], y[1]) for y in x[2:4] if y[0] == "int"]
    return out


def hasFlagOnly(t):
    return t[0] in ("op", "ite") and any(x[0] == "op" and x[1] == "&" for x in walkTerm(t))
