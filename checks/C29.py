"""Secrets stay secret: they are not shown in logs, errors, help or process lists."""
from flow import LitFn
from lib import View, exitOf, hasCall, local, mentionsField, precede, strHas, structArg
from graph import fmt, walkTerm

ASSUME = ["secrets are the options that hold a key, token, passphrase or password, and what is read from them",
          "the text of an answer of a remote service does not repeat the secret that was sent to it"]
# what belongs to a name of an option that is a secret (names of files, types and users are not)
SECRET = ("repo-azure-key", "repo-cipher-pass", "repo-gcs-key", "repo-s3-key", "repo-s3-key-secret", "repo-s3-sse-customer-key", "repo-s3-token", "repo-sftp-private-key-passphrase", "repo-azure-account")
PASS = ("strZ", "strDup", "strNewFmt", "strNewZ", "strCat", "strCatZ", "strCatFmt", "strNewEncode", "bufNewDecode", "bufDup", "bufPtrConst", "bufPtr", "strNewBuf", "strNewDbl", "strLower", "strTrim", "strSub", "strSubN", "varStr", "strZNull", "strMove")
OUT = ("logInternal", "logInternalFmt", "errorInternalThrow", "errorInternalThrowFmt", "errorInternalThrowSys", "errorInternalThrowSysFmt")


def secure(A, val):
    return LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is (val == 0) and a[1][0] == "call" and a[1][1] == "cfgParseOptionSecure" or
                 a[0] == "eq" and a[2] == ("int", 0) and pol is (val == 0) and a[1][0] == "fld" and a[1][2] == "secure", {"cfgParseOptionSecure"}, "not a secret")


def p_options(A):
    R = "options that hold a secret are marked as such"
    seen = {}
    for e in A.prog.gvars["parseRuleOption"]["init"][1]:
        seen[e[2]["name"][1]] = e[2].get("secure", ["i", 0])[-1]
    for n in SECRET:
        if n not in seen:
            A.unsure("option %s not found" % n)
            continue
        A.ok(R, n)
        if not seen[n]:
            A.bad(R, "config/parse.auto.c.inc", "%s is shown" % n)
    for n, s in sorted(seen.items()):
        w = n.split("-")
        if n not in SECRET and not s and ("pass" in w or "passphrase" in w or "secret" in w or "password" in w or "token" in w) and w[-1] not in ("file", "type"):
            A.ok(R, n)
            A.bad(R, "config/parse.auto.c.inc", "%s is shown" % n)
    R = "the mark is the one of the option"
    A.ok(R, A.loc("cfgParseOptionSecure"))
    if "secure" not in words(A.prog.fns["cfgParseOptionSecure"]):
        A.bad(R, A.loc("cfgParseOptionSecure"), "the mark is not looked at")


def p_shown(A):
    VAL = ("cfgOptionIdxDisplay", "cfgOptionDisplay", "cfgOptionDisplayVar", "cfgOptionIdxKv", "cfgOptionIdxLst", "cfgOptionIdxVar", "cfgOptionIdxStr", "cfgOptionIdxStrNull")
    R = "a secret is never put on the command line of another process"
    v = View(A, "cfgExecParam", noInline=("cfgParseOptionSecure",) + VAL)
    ss = [s for s in v.calls("strLstAddFmt", "strLstAdd") if strHas(s.args[1], "=") or strHas(s.args[1], "--")]
    precede(A, v, [], ss or v.calls(*VAL), R, "an option that is a secret can be passed", [secure(A, 0)])
    R = "a secret is not written to the log when a command begins"
    ns = [n for n in ["cmdBegin"] + sorted(local(A.prog, "cmdBegin")) if n in A.prog.fns and A.prog.fns[n].file == A.prog.fns["cmdBegin"].file and A.prog.callees(n)[0] & set(VAL)]
    if not ns:
        A.unsure("cmdBegin: values of options not found")
    for n in ns:
        v = View(A, n, noInline=("cfgParseOptionSecure",) + VAL)
        precede(A, v, [], v.calls(*VAL), R, "the value of a secret can be logged", [secure(A, 0)])
    R = "a secret is not shown by help"
    v = View(A, "cmdHelp", noInline=("cfgParseOptionSecure", "helpRenderValue", "helpRenderValueIdx"))
    g = v.g
    n = 0
    for s in v.calls("strCatFmt", "strCat", "strCatZ", "strNewFmt"):
        for t in s.args[1:]:
            if hasCall(t, "helpRenderValue", "helpRenderValueIdx"):
                n += 1
                A.ok(R, s.where)
                if not underSecure(A, v, s, t):
                    A.bad(R, s.where, "the value of a secret can be shown")
    if not n:
        A.unsure("cmdHelp: values of options not found")
    R = "a secret on the command line is refused"
    v = View(A, "cfgParse", noInline=("cfgParseOptionSecure",))
    src = A.prog.enum("cfgSourceParam")
    ss = [s for s in v.assigns(None, "source") if s.args[0] == ("int", src)] + [s for s in v.inits("ParseOptionValue", "source") if s.args[0] == ("int", src)]
    fs = {s.gid: s for s in ss}
    precede(A, v, [], list(fs.values()), R, "a secret is accepted as an argument", [secure(A, 0)])


def underSecure(A, v, s, t):
    """The value is used only if the option is no secret: by the branches on the way or the conditional value it is part of."""
    lit = secure(A, 0)
    from lib import alts, entryOf, implies

    def walk(x, known):
        if not isinstance(x, tuple) or not x:
            return True
        if x[0] == "ite":
            return walk(x[1], known) and walk(x[2], known or implies(x[1], True, [lit])) and walk(x[3], known or implies(x[1], False, [lit]))
        if x[0] == "call" and x[1] in ("helpRenderValue", "helpRenderValueIdx"):
            return known
        return all(walk(y, known) for y in x if isinstance(y, tuple))
    return walk(t, False) or v.escape([entryOf(v).gid], [s.gid], [], [lit]) is None


def p_http(A):
    R = "redacted headers and query values are not shown in errors and logs"
    red = lambda n, val: LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is (val == 0) and a[1][0] == "call" and a[1][1] == n, {n}, "not redacted")
    from lib import entryOf, implies
    from C30 import same
    of = lambda n, obj: LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] == "call" and a[1][1] == n and same(a[1][2][0], obj), {n}, "not redacted")
    for F, get, chk in (("httpRequestError", "httpHeaderGet", "httpHeaderRedact"), ("httpHeaderToLog", "httpHeaderGet", "httpHeaderRedact"), ("httpQueryToLog", "httpQueryGet", "httpQueryRedact")):
        v = View(A, F, noInline=(get, chk, "httpQueryRender"))
        n = 0
        for s in v.calls("strCatFmt", "strStcFmt", "strCat", "strCatZ", "strStcCat"):
            for t in s.args[1:]:
                for x in walkTerm(t):
                    if x[0] == "call" and x[1] == get and not hasCall(x[2][0], "httpResponseHeader"):
                        n += 1
                        A.ok(R, s.where)
                        lit = of(chk, x[2][0])
                        if not protected(t, get, lit) and v.escape([entryOf(v).gid], [s.gid], [], [lit]) is not None:
                            A.bad(R, s.where, "a value is shown that may be redacted")
        if not n:
            A.unsure("%s: values not found" % F)
    v = View(A, "httpRequestError", noInline=("httpQueryRender",))
    for s in v.calls("httpQueryRender"):
        A.ok(R, s.where)
        if structArg(s.args[1], "redact") != ("int", 1):
            A.bad(R, s.where, "the query is shown with all its values")
    v = View(A, "httpQueryRender", noInline=("httpQueryGet", "httpQueryRedact"))
    lit = red("httpQueryRedact", 0)
    asked = LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and mentionsField(a[1], "redact") and not hasCall(a[1], "httpQueryRedact"), {"redact"}, "all values asked for")
    for s in v.calls("strCatFmt", "strCat", "strCatZ"):
        for t in s.args[1:]:
            if hasCall(t, "httpQueryGet"):
                A.ok(R, s.where)
                if not protected(t, "httpQueryGet", lit, asked) and v.escape([entryOf(v).gid], [s.gid], [], [lit, asked]) is not None:
                    A.bad(R, s.where, "a redacted value is shown")
    R = "what is to be redacted is not forgotten when headers and queries are copied"
    for F, i in (("httpHeaderDup", 1), ("httpQueryDup", 1), ("httpHeaderNew", 0), ("httpQueryNew", 0)):
        v = View(A, F)
        rec = "HttpHeader" if "Header" in F else "HttpQuery"
        ss = v.inits(rec, "redactList")
        if not ss:
            A.bad(R, A.loc(F), "the list is not kept")
        own = lambda t: any(x == ("p", i) for x in walkTerm(t)) if "Header" in F else mentionsField(t, "redactList")
        for s in ss:
            A.ok(R, s.where)
            t = s.args[0]
            if not hasCall(t, "strLstDup") or not own(t) or F.endswith("Dup") and not any(x[0] == "fld" and x[2] == "redactList" and x[1] == ("p", 0) for x in walkTerm(t)):
                A.bad(R, s.where, "the list is %s" % fmt(t)[:60])
    for F in ("httpHeaderRedact", "httpQueryRedact"):
        v = View(A, F)
        A.ok(R, A.loc(F))
        if not [s for s in v.calls("strLstExists") if mentionsField(s.args[0], "redactList") and s.args[1] == ("p", 1)]:
            A.bad(R, A.loc(F), "the list is not looked at")


def protected(t, get, *lits):
    from lib import implies

    def walk(x, known):
        if not isinstance(x, tuple) or not x:
            return True
        if x[0] == "ite":
            return walk(x[1], known) and walk(x[2], known or implies(x[1], True, list(lits))) and walk(x[3], known or implies(x[1], False, list(lits)))
        if x[0] == "call" and x[1] == get:
            return known
        return all(walk(y, known) for y in x if isinstance(y, tuple))
    return walk(t, False)


# request headers and query keys that carry a secret, by the storage that sends them
LISTS = (("storageS3New", "headerRedactList", ("authorization", "x-amz-security-token", "x-amz-server-side-encryption-customer-key", "x-amz-server-side-encryption-customer-key-md5")),
         ("storageAzureNew", "headerRedactList", ("authorization",)), ("storageAzureNew", "queryRedactList", ("sig",)), ("storageGcsNew", "headerRedactList", ("authorization",)))
SENS = {"authorization", "x-amz-security-token", "x-amz-server-side-encryption-customer-key"}


def keyName(t):
    s = [x[1].lower() for x in walkTerm(t) if x[0] == "str"]
    return s[0] if len(s) == 1 else None


def p_storage(A):
    R = "a storage hides the headers and query values that carry its secrets"
    for F, fld, keys in LISTS:
        v = View(A, F, noInline=("strLstAdd", "strLstAddZ", "httpHeaderNew", "httpQueryNew"))
        add = v.calls("strLstAdd", "strLstAddZ")
        have = v.assigns(None, fld) + [s for r in ("StorageS3", "StorageAzure", "StorageGcs") for s in v.inits(r, fld)]
        A.ok(R, A.loc(F))
        if not have:
            A.bad(R, A.loc(F), "%s is not set" % fld)
        for k in keys:
            A.ok(R, A.loc(F))
            precede(A, v, [s for s in add if keyName(s.args[1]) == k], [exitOf(v)], R, "%s can be shown" % k)
    c = A.prog.callers()
    n = 0
    adders = set()
    R = "a header with a secret is added only where it is hidden"
    for f in sorted(c.get("httpHeaderAdd", set()) | c.get("httpHeaderPut", set())):
        fn = A.prog.fns[f]
        if "storage/" not in fn.file:
            continue
        v = View(A, f, noInline=("httpHeaderAdd", "httpHeaderPut", "httpHeaderNew", "httpHeaderDup"))
        for s in v.calls("httpHeaderAdd", "httpHeaderPut"):
            if s.inst.fn.name != f or keyName(s.args[1]) not in SENS:
                continue
            n += 1
            A.ok(R, s.where)
            if s.args[0][0] == "p":
                adders.add((f, s.args[0][1]))
            made = [x for x in walkTerm(s.args[0]) if x[0] == "call" and x[1] in ("httpHeaderNew", "httpHeaderDup")]
            for x in made:
                l = x[2][0] if x[1] == "httpHeaderNew" else x[2][1]
                if l == ("int", 0):
                    A.bad(R, s.where, "%s is shown" % keyName(s.args[1]))
    if n < 5:
        A.unsure("only %d headers with secrets found" % n)
    R = "requests of a storage hide its secrets"
    for f in ("storageS3RequestAsync", "storageAzureRequestAsync", "storageGcsRequestAsync"):
        if f not in A.prog.fns:
            A.unsure("%s not found" % f)
            continue
        v = View(A, f, noInline=("httpHeaderNew", "httpHeaderDup", "httpQueryNew", "httpQueryDup") + tuple(a for a, _ in adders))
        for s in v.calls("httpHeaderNew", "httpHeaderDup", "httpQueryNew", "httpQueryDup"):
            if s.inst.fn.name != f:
                continue
            l = s.args[0] if s.name == "httpHeaderNew" else s.args[1] if s.name == "httpHeaderDup" else structArg(s.args[-1], "redactList")
            # the header of a request for credentials carries none
            A.ok(R, s.where)
            if l is None or l == ("int", 0):
                if "Query" in s.name and f != "storageS3RequestAsync":
                    A.bad(R, s.where, "secrets of the query are shown")
                for x in v.calls(*{a for a, _ in adders}):
                    if any((x.name, i) in adders and any(y[0] == "call" and y[1] == s.name and (y[3] == s.gid or len(y) < 4) for y in walkTerm(t)) for i, t in enumerate(x.args)):
                        A.bad(R, s.where, "secrets of the request are shown")
            elif not mentionsField(l, "headerRedactList" if "Header" in s.name else "queryRedactList"):
                A.bad(R, s.where, "what is hidden is %s" % fmt(l)[:60])


def direct(t, isSecret, d=0):
    """Is the term the secret itself, perhaps in another form?"""
    if isSecret(t):
        return True
    if t[0] == "call" and t[1] in PASS and d < 8:
        return any(direct(x, isSecret, d + 1) for x in t[2])
    if t[0] == "ite" and d < 8:
        return direct(t[2], isSecret, d + 1) or direct(t[3], isSecret, d + 1)
    if t[0] == "phi" and d < 8:
        return any(direct(x, isSecret, d + 1) for x in t[1])
    if t[0] == "out" and d < 8:
        return False
    return False


def p_taint(A):
    """From the option to wherever the secret is passed or stored: parameters that hold it are not written to the log and it is in no message."""
    R = "a value that is a secret is in no log message or error"
    opts = {i for i, e in enumerate(A.prog.gvars["parseRuleOption"]["init"][1]) if e[2]["name"][1] in SECRET and e[2]["name"][1] != "repo-azure-account" and e[2]["name"][1] != "repo-gcs-key"}
    isOpt = lambda t: t[0] == "call" and t[1] in ("cfgOptionIdxStr", "cfgOptionIdxStrNull", "cfgOptionStr", "cfgOptionStrNull") and t[2][0][0] == "int" and t[2][0][1] in opts
    prog = A.prog
    c = prog.callers()
    work, seen, fields = [], set(), {}
    views = {}

    def view(f):
        if f not in views:
            g = A.graph(f, inline=lambda *a: False)
            views[f] = View(A, f, noInline=tuple(prog.callees(f)[0]))
        return views[f]

    def hidden(fn, p):
        """The message of an error thrown here is not used by whoever catches it."""
        for t in [t for t, m in p.tries or () if m == "body"]:
            used = caught = False
            for q in fn.pts():
                if q.kind == "call" and q.tries and (t, "catch") in q.tries and q.data[2][0] == "f":
                    used |= q.data[2][1] in ("errorMessage", "errorInternalPropagate")
                    caught |= q.data[2][1] == "errorInternalCatch"
            if caught and not used:
                return True
        return False

    def scan(f, isSecret, what, hid=False):
        v = view(f)
        for w, name, args, inst, p in [(s.where, s.name, s.args, s.inst, s.p) for s in v.calls(*prog.callees(f)[0])]:
            if inst.fn.name != f:
                continue
            for j, a in enumerate(args):
                if name in OUT:
                    A.ok(R, w)
                    if direct(a, isSecret) and not (name.startswith("error") and (hid or hidden(inst.fn, p))):
                        A.bad(R, w, "%s is in the message" % what)
                    continue
                if direct(a, isSecret) and name in prog.fns:
                    work.append((name, j, None, what, hid or hidden(inst.fn, p)))
                elif a[0] == "struct":
                    for k, x in dict(a[2]).items():
                        if direct(x, isSecret) and name in prog.fns:
                            work.append((name, j, k, what, hid or hidden(inst.fn, p)))
        for s in allInits(v):
            if s.inst.fn.name == f and direct(s.args[0], isSecret):
                fields.setdefault((prog.fns[f].file, s.name), what)

    for f in sorted(set().union(*(c.get(x, set()) for x in ("cfgOptionIdxStr", "cfgOptionIdxStrNull", "cfgOptionStr", "cfgOptionStrNull")))):
        scan(f, isOpt, "a secret option")
    if not work:
        A.unsure("uses of secrets not found")
    # whatever a cipher is made with is a secret
    work.append(("cipherSpecNew", 1, None, "a passphrase", False))
    done = set()
    while True:
        while work:
            f, i, k, what, hid = work.pop()
            if (f, i, k, hid) in seen or f in PASS or prog.fns[f].file.startswith("common/type") or "/common/type/" in prog.fns[f].file:
                continue
            seen.add((f, i, k, hid))
            fn = prog.fns[f]
            if i >= len(fn.params):
                continue
            name, ty = fn.params[i][1], fn.params[i][2]
            A.ok(R, A.loc(f))
            if (name if k is None else name + "." + k) in fn.logged and "Buffer" not in ty:
                A.bad(R, A.loc(f), "the parameter %s is written to the log" % name)
            me = (lambda t, i=i: t == ("p", i)) if k is None else (lambda t, i=i, k=k: t[0] == "fld" and t[2] == k and t[1] == ("p", i))
            if len(seen) < 300:
                scan(f, me, "parameter %s" % name, hid)
        new = [x for x in fields.items() if x[0] not in done]
        if not new:
            break
        for (file, fld), what in new:
            done.add((file, fld))
            isF = lambda t, fld=fld: t[0] == "fld" and t[2] == fld and t[1][0] != "struct"
            # functions of the header that return it
            acc = {a for a, x in prog.fns.items() if x.file == file[:file.rindex(".")] + ".h" and fld in words(x) and any(q.kind == "ret" and q.data and len(q.data) > 2 and q.data[2] and q.data[2][0] == "m" and q.data[2][2] == fld for q in x.pts())}
            for a in acc:
                isA = lambda t, a=a: t[0] == "call" and t[1] == a
                for f in sorted(c.get(a, ())):
                    scan(f, isA, "the value of %s" % a)
            for f, fn in prog.fns.items():
                if fn.file == file and fld in words(fn):
                    scan(f, isF, "field %s" % fld)
    A.ok(R, "secrets followed", len(seen) + len(done))
    R = "a key is not written to the log"
    v = View(A, "cipherSpecToLog")
    A.ok(R, A.loc("cipherSpecToLog"))
    for s in v.calls("strStcFmt", "strStcCat"):
        for t in s.args:
            if any(mentionsField(t, x) for x in ("pass",)) or hasCall(t, "cipherSpecPass"):
                A.bad(R, s.where, "the passphrase is written")


def allInits(v):
    out = v.assigns()
    recs = {}

    def walk(e):
        if isinstance(e, dict):
            e = list(e.values())
        if isinstance(e, list):
            if len(e) == 3 and e[0] == "S" and isinstance(e[2], dict) and isinstance(e[1], str):
                for k in e[2]:
                    recs.setdefault(e[1], set()).add(k)
            for x in e:
                walk(x)
    for p in v.g.root.fn.pts():
        walk(p.data)
    for r, ks in recs.items():
        if r.endswith("Param"):
            continue
        for k in ks:
            out += v.inits(r, k)
    return out


def words(fn):
    from C28 import mentions
    mentions(fn, "")
    return fn._words
