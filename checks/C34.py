"""A read or a list that was cut short is an error and never a smaller result."""
from flow import LitFn, has
from graph import fmt, walkTerm
from lib import FLIP, View, alts, entryOf, exitOf, fieldLit, follow, hasCall, mentionsField, precede, rel, relLit, structArg

ASSUME = ["read(), readdir(), SSL_read(), libssh2 and the decompression libraries report the end of data and errors as documented",
          "an object store reports a list as truncated by the marker its protocol defines"]

EOF = "the end of the data is declared only where the source says so"
SHORT = "data that ends early is an error"
ALL = "every page, entry and block of what was asked for is part of the result"


def isZero(field):
    return LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] != "call" and mentionsField(a[1], field), {field}, "%s is zero" % field)


# HTTP content ------------------------------------------------------------------------------------------------------------------------------------
def zeroSize(a, pol):
    """What remains of a chunk or of the content is zero (the value also comes from a chunk header)."""
    if not (pol is True and a[0] == "eq" and a[2] == ("int", 0)):
        return False
    t = a[1]
    if t[0] == "call" and t[1] not in ("cvtZToUInt64Base",):
        return False
    return t[0] == "hav" or mentionsField(t, "contentRemaining") or hasCall(t, "cvtZToUInt64Base")


def p_http(A):
    f = A.flow("httpResponseRead",
               {"eof": "=HttpResponse.contentEof", "read": "ioRead()", "less": "=HttpResponse.contentRemaining:~ioRead()", "limit": "bufLimitSet()", "line": "ioReadLine()",
                "rem": "=HttpResponse.contentRemaining"},
               {"chunked": "#0.contentChunked", "plain": "!#0.contentChunked", "none": LitFn(zeroSize, {"contentRemaining", "cvtZToUInt64Base"}, "nothing remains"),
                "end": "ioReadEof()", "notEnd": "!ioReadEof()", "close": "#0.closeOnContentEof", "noSize": "#0.contentSize == 0",
                "blank": "strSize(~ioReadLine()) == 0",
                "fits": relLit((">=", ">"), lambda x: x[0] == "hav" or mentionsField(x, "contentRemaining") or hasCall(x, "cvtZToUInt64Base"), lambda y: hasCall(y, "bufRemains"), {"bufRemains"}, "the buffer does not ask for more")},
               kill={"read": {"end", "notEnd", "none", "less", "eof", "limit", "fits"}, "line": {"blank"}, "rem": {"none"}}, trackArgs={"contentEof": None}, sticky=["blank", "none"])
    for o in f.occ.get("eof", {}).values():
        st, v = o.st, o.args[0] if o.args else None
        if v is not None and hasCall(v, "ioReadEof"):
            if not (has(st, "close") and has(st, "noSize") and has(st, "plain")):
                A.bad(EOF, o.where, "content without a size ends with the connection only where the server closes it", [])
        elif v == ("int", 0):
            pass
        elif not (has(st, "none") and (has(st, "plain") or has(st, "blank"))):
            A.bad(EOF, o.where, "the content is complete only when nothing of it remains")
        A.ok(EOF, o.where)
    if not f.occ.get("eof"):
        A.unsure("contentEof is not set")
    A.must(f, lambda st: not has(st, "read") or has(st, "notEnd") or has(st, "eof") and has(st, "close"), SHORT)
    A.guard(f, "read", [["close", "limit", "fits"]], "no more is read than belongs to the content")
    A.must(f, lambda st: not has(st, "read") or has(st, "less") or has(st, "close"), "what was read is deducted from what remains")


def p_ignore(A):
    """The end of a connection without a size is accepted only for content that shows its own end."""
    v = View(A, "httpResponseRead")
    for s in v.calls("httpSessionIoRead"):
        t = structArg(s.args[1], "ignoreUnexpectedEof") if len(s.args) > 1 else None
        if t is None or t == ("int", 0):
            A.ok(SHORT, s.where)
            continue
        if not s.under("#0.closeOnContentEof", "#0.contentSize == 0"):
            A.bad(SHORT, s.where, "an unexpected end of the connection is accepted though the size of the content is known")
        if not any(x[0] == "call" and x[1] in ("strEq", "strBeginsWith", "strEqZ") for x in walkTerm(t)) or not hasCall(t, "httpHeaderGet"):
            A.bad(SHORT, s.where, "an unexpected end of the connection is accepted for any content")
        A.ok(SHORT, s.where)


def p_tls(A):
    f = A.flow("tlsSessionRead", {"close": "tlsSessionClose()"},
               {"zero": "_ == 6", "ignore": ".ignoreUnexpectedEof"}, noInline=("tlsSessionClose",))
    A.guard(f, "close", [["zero", "ignore"]], "a connection that was not closed properly is an error and not the end of the data")


def p_fd(A):
    v = View(A, "ioFdRead")
    for s in v.assigns("IoFdRead", "eof"):
        if s.args[0] != ("int", 0) and not s.under(LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "read"), {"read"}, "read() == 0")):
            A.bad(EOF, s.where, "end of file without an empty read")
        A.ok(EOF, s.where)
    f = A.flow("ioFdRead", {"read": "read()"}, {"fine": "read() != -1"}, kill={"read": {"fine"}}, sticky=["fine"])
    A.must(f, lambda st: not has(st, "read") or has(st, "fine"), SHORT)


# Filters -----------------------------------------------------------------------------------------------------------------------------------------
def conj(t):
    return conj(t[1]) + conj(t[2]) if t[0] == "and" else [x for y in t[1:] for x in conj(y)] if t[0] == "all" else [t]


def p_read(A):
    v = View(A, "ioReadInternal", noInline=("ioReadEofDriver", "ioFilterGroupDone"))
    n = 0
    for s in v.assigns("IoReadPub", "eofAll"):
        t = s.args[0]
        n += 1
        if t != ("int", 0):
            for c, txt in (("ioReadEofDriver", "the source is at its end"), ("ioFilterGroupDone", "all filters are done")):
                if not (implied(t, c) or s.under(c + "()")):
                    A.bad(EOF, s.where, "the end is reached without that %s" % txt)
        A.ok(EOF, s.where)
    if not n:
        A.unsure("eofAll is not set")
    for s in v.assigns("IoRead", "input"):
        if s.args[0] == ("int", 0):
            if not s.under("ioReadEofDriver()"):
                A.bad(EOF, s.where, "the filters are flushed before the source is at its end")
            A.ok(EOF, s.where)


def implied(t, call):
    """Is the call's result non-zero when the term is?"""
    if t[0] == "call":
        return t[1] == call
    if t[0] == "and":
        return any(implied(x, call) for x in t[1:] if isinstance(x, tuple))
    if t[0] == "or":
        return all(implied(x, call) for x in t[1:] if isinstance(x, tuple))
    if t[0] == "ite":
        return (t[3] == ("int", 0) and (implied(t[1], call) or implied(t[2], call))) or (implied(t[2], call) and implied(t[3], call))
    if t[0] == "not":
        return t[1][0] == "eq" and t[1][2] == ("int", 0) and implied(t[1][1], call)
    return False


def p_group(A):
    f = A.flow("ioFilterGroupProcess", {"set": "=IoFilterGroupPub.done:1", "clear": "=IoFilterGroupPub.done:0"},
               {"same": "ioFilterInputSame()", "notDone": "!ioFilterDone()"}, kill={"set": {"same", "notDone", "clear"}}, sticky=["same", "notDone"],
               noInline=("ioFilterInputSame", "ioFilterDone", "ioFilterProcessInOut", "ioFilterProcessIn"))
    v = View(A, "ioFilterGroupProcess", noInline=("ioFilterInputSame", "ioFilterDone", "ioFilterProcessInOut", "ioFilterProcessIn"))
    for s in v.assigns("IoFilterGroupPub", "done"):
        if s.args[0][0] != "int" and not mentionsField(s.args[0], "done") and s.args[0][0] not in ("phi", "hav", "and") and hasCall(s.args[0], "ioFilterDone"):
            A.bad(EOF, s.where, "whether the filters are done is decided by one of them: %s" % fmt(s.args[0]))
        A.ok(EOF, s.where)
    A.must(f, lambda st: not has(st, "set") or not has(st, "same") or has(st, "clear"), "the filters are done only when every one of them is")
    A.must(f, lambda st: not has(st, "set") or not has(st, "notDone") or has(st, "clear"), "the filters are done only when every one of them is")


STREAM = {"gz": ("inflate", 1), "bz2": ("BZ2_bzDecompress", 4), "lz4": ("LZ4F_decompress", 0), "zst": ("ZSTD_decompressStream", 0)}


def decompress(kind):
    def run(A):
        name, (call, end) = kind + "DecompressProcess", STREAM[kind]
        rec = kind.capitalize() + "Decompress"
        v = View(A, name, noInline=(kind + "Error",))

        def ended(a, pol):
            r = rel(a, pol)
            return r is not None and r[1] == "==" and any(x == ("int", end) and hasCall(y, call) for x, y in ((r[0], r[2]), (r[2], r[0])))

        def isEnd(t):
            if t[0] == "ite":
                return t[2] == ("int", 1) and t[3] == ("int", 0) and isEnd(t[1])
            return t[0] in ("op", "eq") and ended(("eq",) + t[-2:], True) if t[0] == "eq" or t[1] == "==" else False
        n = 0
        for fld in ("frameDone", "done"):
            for s in v.assigns(rec, fld):
                t = s.args[0]
                n += 1
                if t == ("int", 0) or isEnd(t) or s.under(LitFn(ended, {call}, "end of stream")):
                    A.ok(EOF, s.where)
                    continue
                if fld == "done" and s.under("#1 == 0", LitFn(lambda a, pol: fld2(a, pol), {"frameDone"}, "frameDone")):
                    A.ok(EOF, s.where)
                    continue
                A.bad(EOF, s.where, "the data is complete only when %s() reported the end" % call)
        if not n:
            A.unsure("%s does not set done" % name)
        # Without input the stream must have been complete
        f = A.flow(name, {}, {"none": "#1 == 0", "frame": LitFn(fld2, {"frameDone"}, "frameDone")}, noInline=(kind + "Error",))
        A.must(f, lambda st: not has(st, "none") or has(st, "frame"), "compressed data that ends before its end mark is an error")
        # Errors of the library are errors
        g = View(A, name, noInline=(kind + "Error",))
        lib = g.calls(call)
        if not lib:
            A.unsure("%s is not called by %s" % (call, name))
        tests = [x for x in g.calls(kind + "Error") if hasCall(x.args[0], call)]
        for s in lib:
            if any(s.gid == x[3] for t in tests for x in walkTerm(t.args[0]) if x[0] == "call" and x[1] == call):
                A.ok("an error of the library is an error", s.where)
                continue
            follow(A, g, [s], tests, "an error of the library is an error", "the result of %s() is checked" % call)
        fl = A.flow(kind + "Error", {}, {"fine": LitFn(lambda a, pol: fine(a, pol, kind), {"=="}, "no error")})
        A.must(fl, lambda st: has(st, "fine"), "an error of the library is an error")
    run.__name__ = kind
    return run


def fine(a, pol, kind):
    """The result of the library is known to be no error."""
    r = rel(a, pol)
    if r is None:
        return False
    for x, o, y in ((r[0], r[1], r[2]), (r[2], FLIP[r[1]], r[0])):
        if x == ("p", 0) and y[0] == "int":
            if kind == "gz" and o == "==" and y[1] in (0, 1):
                return True
            if kind == "bz2" and (o in (">=", "==") and y[1] >= 0 or o == ">" and y[1] >= -1):
                return True
        if x[0] == "call" and x[1] in ("LZ4F_isError", "ZSTD_isError") and x[2][0] == ("p", 0) and y == ("int", 0) and o == "==":
            return True
    return False


def fld2(a, pol):
    return pol is False and a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "fld" and a[1][2] == "frameDone"


for _k in STREAM:
    globals()["p_" + _k] = decompress(_k)


def succ(*names):
    """The call returned 1: whatever the comparison, 0 does not satisfy it."""
    def lit(a, pol):
        r = rel(a, pol)
        if r is None:
            return False
        l, op, n = r
        if l[0] == "int":
            l, op, n = n, FLIP[op], l
        if l[0] != "call" or l[1] not in names or n[0] != "int":
            return False
        f = {"==": lambda x: x == n[1], "!=": lambda x: x != n[1], "<": lambda x: x < n[1], ">": lambda x: x > n[1], "<=": lambda x: x <= n[1], ">=": lambda x: x >= n[1]}[op]
        return f(1) and not f(0)
    return LitFn(lit, set(names), names[0] + " succeeded")


def p_cipher(A):
    f = A.flow("cipherBlockProcess",
               {"final": "EVP_CipherFinal()|EVP_CipherFinal_ex()", "done": "=CipherBlock.done:1", "init": "EVP_CipherInit_ex()", "update": "EVP_CipherUpdate()", "bytes": "EVP_BytesToKey()"},
               {"none": "#1 == 0", "ok": succ("EVP_CipherFinal", "EVP_CipherFinal_ex"), "good": succ("EVP_CipherUpdate"), "encrypt": "#0.mode == @cipherModeEncrypt", "raw": "#0.raw",
                "magic": "memcmp(~#0.header) == 0", "fits": "memcmp() == 0"},
               once=True, alsoInline=("cryptoError",), sticky=["ok", "magic", "good"], kill={"update": {"good"}})
    A.guard(f, "done", ["none"], "encrypted data is complete only at the end of the input")
    A.guard(f, "done", ["ok"], "encrypted data that was cut short is an error")
    A.must(f, lambda st: not has(st, "update") or has(st, "good"), "an error of the library is an error")
    A.guard(f, "bytes", [["encrypt", "raw", "magic"]], "data without the header of an encrypted file is not decrypted")
    v = View(A, "cipherBlockFlush")
    for s in v.calls("EVP_CipherFinal", "EVP_CipherFinal_ex"):
        if not s.under("#0.saltDone"):
            A.bad(SHORT, s.where, "an encrypted file without header is an error")
        A.ok(SHORT, s.where)


# Files -------------------------------------------------------------------------------------------------------------------------------------------
def eofSites(A, entry, rec, src):
    v = View(A, entry)

    def short(a, pol):
        r = rel(a, pol)
        return r is not None and r[1] in ("!=", "<", ">") and any(hasCall(x, *src) or x[0] in ("phi", "hav") for x in (r[0], r[2])) and a[0] == "eq" and not any(x[0] == "int" for x in (r[0], r[2]))

    def atLimit(a, pol):
        r = rel(a, pol)
        return r is not None and any(o in ("==", ">=") and mentionsField(y, "limit") and not hasCall(y, "bufRemains", *src) and (mentionsField(x, "current") or hasCall(x, *src)) for x, o, y in (r, (r[2], FLIP[r[1]], r[0])))

    def empty(a, pol):
        return pol is True and a[0] == "eq" and a[2] == ("int", 0) and (hasCall(a[1], *src) or a[1][0] in ("phi", "hav"))
    n = 0
    for s in v.assigns(rec, "eof"):
        t = s.args[0]
        n += 1
        if t == ("int", 0):
            continue
        lits = [LitFn(short, src, "fewer bytes than requested"), LitFn(atLimit, src, "limit reached"), LitFn(empty, src, "nothing read")]
        if v.escape([entryOf(v).gid], [s.gid], [], lits) is not None:
            A.bad(EOF, s.where, "end of file is a read that returns less than requested or the limit")
        A.ok(EOF, s.where)
    if not n:
        A.unsure("%s does not set eof" % entry)
    return v


def p_posix(A):
    eofSites(A, "storageReadPosix", "StorageReadPosix", ("read",))
    f = A.flow("storageReadPosix", {"read": "read()"}, {"fine": "read() != -1"}, kill={"read": {"fine"}}, sticky=["fine"])
    A.must(f, lambda st: not has(st, "read") or has(st, "fine"), SHORT)


def p_sftp(A):
    eofSites(A, "storageReadSftp", "StorageReadSftp", ("libssh2_sftp_read", "bufUsed"))
    f = A.flow("storageReadSftp", {"read": "libssh2_sftp_read()"}, {"fine": ["libssh2_sftp_read() >= 0", "libssh2_sftp_read() > 0"]}, kill={"read": {"fine"}}, sticky=["fine"])
    A.must(f, lambda st: not has(st, "read") or has(st, "fine"), SHORT)




def p_retry(A):
    """A read that is repeated goes on where it stopped."""
    R = "a read that is repeated goes on where it stopped"
    f = A.flow("storageRead",
               {"new": "StorageInterface.newRead()", "used": "bufUsedSet(#1, _)", "read": "StorageReadInterface.read()", "count": "=StorageRead.bytesRead", "open": "StorageReadInterface.open()"},
               {"caught": "errorInternalCatch()", "missing": "errorInstanceOf()",
                "left": LitFn(lambda a, pol: pol is True and a[0] == "lt" and a[1] == ("int", 1) or pol is False and a[0] == "lt" and a[2] == ("int", 2), {"<"}, "a try is left")},
               kill={"read": {"caught", "used", "count", "new", "missing", "open", "left"}}, trackArgs={"bytesRead": None, "StorageReadInterface.read": [0]}, sticky=["caught", "missing", "left"])
    A.must(f, lambda st: not has(st, "caught") or has(st, "new") and has(st, "left"), "an error of the read is repeated or passed on")
    A.must(f, lambda st: not has(st, "read") or has(st, "count") or has(st, "caught"), R)
    A.guard(f, "read", [[lambda st: not has(st, "new") or has(st, "used") and has(st, "open")]], R)
    n = 0
    for o in f.occ.get("read", {}).values():
        for c in walkTerm(o.args[0]):
            if c[0] != "icall" or c[1] != "StorageInterface.newRead":
                continue
            n += 1
            p = [a for a in c[2] if a[0] == "struct"]
            off, lim, ver = ((structArg(p[0], x) for x in ("offset", "limit", "versionId")) if p else (None, None, None))
            if off is None or not any(x[0] == "op" and x[1] == "+" and all(any(part(y, w) for y in x[2:4]) for w in ("offset", "bytesRead")) for x in walkTerm(off)):
                A.bad(R, o.where, "the repeated read starts at %s" % (fmt(off) if off else "the begin of the file"))
            if lim is None or not any(x[0] == "op" and x[1] == "-" and part(x[2], "limit") and part(x[3], "bytesRead") for x in walkTerm(lim)):
                A.bad(R, o.where, "the repeated read is limited to %s" % (fmt(lim) if lim else "nothing"))
            if ver is None or not mentionsField(ver, "versionId"):
                A.bad(R, o.where, "the repeated read is of another version of the file")
            A.ok(R, o.where)
    if not n:
        A.unsure("storageRead does not create another read")


def part(t, name):
    """The field, or a value computed from what was added to it."""
    return mentionsField(t, name) or name == "bytesRead" and t[0] == "hav"


EAGAIN = -37                                                        # LIBSSH2_ERROR_EAGAIN


# Lists -------------------------------------------------------------------------------------------------------------------------------------------
def entries(entry, src, more, end, clean, slow=None):
    def run(A):
        f = A.flow(entry, {"get": src + "()", "add": "storageLstAdd()|%sEntry()" % entry, "err": "__errno_location()"},
                   dict({"more": more, "end": end, "dot": ["strEq(_, \".\")", "strEq(_, \"..\")"], "clean": clean}, **({"slow": slow} if slow else {})),
                   kill={"get": {"more", "end", "add", "dot", "clean", "slow"}}, noInline=(entry + "Entry",), sticky=["more", "end", "dot", "clean"] + (["slow"] if slow else []))
        A.guard(f, "get", [[lambda st: not has(st, "more") or has(st, "add") or has(st, "dot")]], ALL)
        A.must(f, lambda st: not has(st, "more") or has(st, "add") or has(st, "dot"), ALL)
        A.must(f, lambda st: not has(st, "get") or has(st, "clean") or has(st, "slow"), "an error while a directory is read is not the end of the directory")
        if slow:
            A.must(f, lambda st: not has(st, "get") or has(st, "clean") or not has(st, "slow"), "a timeout while a directory is read is not the end of the directory")
        g = A.flow(entry + "Entry", {"add": "storageLstAdd()"}, {"gone": "!.exists"})
        A.must(g, lambda st: has(st, "add") or has(st, "gone"), ALL)
    return run


def errnoZero(a, pol):
    return pol is True and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "__errno_location") and a[1][0] != "call"


p_posixList = entries("storagePosixList", "readdir", "readdir() != 0", "readdir() == 0", LitFn(errnoZero, {"errno"}, "errno is zero"))
p_sftpList = entries("storageSftpList", "libssh2_sftp_readdir_ex", "libssh2_sftp_readdir_ex() > 0", "libssh2_sftp_readdir_ex() <= 0",
                     ["libssh2_sftp_readdir_ex() >= 0", "libssh2_sftp_readdir_ex() == 0"], "libssh2_sftp_readdir_ex() == %d" % EAGAIN)


class At:
    def __init__(self, gid, where):
        self.gid, self.where = gid, where


def callbacks(v):
    """Calls through a parameter of the function."""
    out = []
    for inst in v.g.insts:
        for p in inst.fn.pts():
            if p.kind == "call" and p.tries is not None and p.data[2][0] == "v":
                t = v.g.ev(inst, p.data[2], p.idx)
                if t[0] == "p":
                    out.append(At(v.g.gid(inst, p.idx), v.g.where(v.g.gid(inst, p.idx))))
    return out


def pages(entry, marker, query, nodes, size, response, want):
    def run(A):
        v = View(A, entry)
        cb = callbacks(v)
        if not cb:
            A.unsure("%s calls no callback" % entry)
        prefix = entry[:-len("ListInternal")]

        def token(t):
            return any(x[0] == "str" and marker in x[1] or x[0] == "glob" and marker in globStrs(A.prog, x[1]) for x in walkTerm(t))

        def done(a, pol):
            """The response is known to have no marker of another page."""
            if a[0] != "eq" or a[2] != ("int", 0) or not token(a[1]):
                return False
            t = a[1]
            if t[0] == "call" and t[1] in ("strEq", "strEqZ", "strEmpty"):
                return pol is False if strIn(t, "false") else pol is (strIn(t, "true") and t[1] != "strEmpty")
            return pol is True
        async_ = prefix + "RequestAsync"
        f = A.flow(entry, {"resp": "httpResponseContent()", "async": async_ + "()", "put": 'httpQueryPut(_, "%s", ~httpResponseContent())' % query,
                           "pend": "=StorageInfo.exists:1", "off": "=StorageInfo.exists:0", "cb": "callback()"},
                   {"last": LitFn(done, {"strEq", "strEqZ", "strEmpty", "kvGet", "varStr"}, "there is no more"), "gone": "%s() == 0" % async_, "same": "strEq(_, _)", "none": LitFn(fieldLit("exists", 0), {"exists"}, "nothing is pending")},
                   kill={"resp": {"last", "put", "async", "gone"}, "cb": {"pend"}, "off": {"pend"}, "pend": {"same", "none"}},
                   noInline=(async_, prefix + "Request", prefix + "Response", "strEq"), sticky=["last", "gone", "same", "none"])
        if not f.occ.get("resp"):
            A.unsure("%s reads no response" % entry)
        if not f.occ.get("pend") or not f.occ.get("cb"):
            A.unsure("%s: no pending entry" % entry)
        A.guard(f, "resp", [[lambda st: not has(st, "resp") or has(st, "last") or has(st, "async")]], ALL)
        A.guard(f, "async", ["put"], "the next page is requested with the marker of the last one")
        A.must(f, lambda st: not has(st, "resp") or has(st, "last") or has(st, "gone"), ALL)
        A.must(f, lambda st: not has(st, "pend") or has(st, "none"), "the last entry is part of the list")
        A.guard(f, "pend", [[lambda st: not has(st, "pend") or has(st, "same") or has(st, "none")]], ALL)
        if want:
            adds = [s for s in v.calls("httpQueryAdd", "httpQueryPut") if strIn(s.args[1], "fields")]
            for s in adds:
                if not strIn(s.args[2], want):
                    A.bad(ALL, s.where, "the marker of the next page is not requested")
                A.ok(ALL, s.where)
        # Every element of each list on a page is looked at
        gets = v.calls(nodes)
        if len(gets) < 2:
            A.unsure("%s: %d lists on a page" % (entry, len(gets)))
        from lib import countsFromZero
        for s in gets:
            lst, idx = s.args[0], s.args[1]
            if not countsFromZero(idx):
                A.bad(ALL, s.where, "the list is not read from its first element")
            if not s.under(LitFn(lambda a, pol: pol is True and a[0] == "lt" and a[2][0] == "call" and a[2][1] == size and alike(a[2][2][0], lst), {size}, "index < size")):
                A.bad(ALL, s.where, "the list is not read to its end")
            A.ok(ALL, s.where)
        # Names go to the callback
        last = [s for s in v.assigns("StorageInfo", "exists") if s.args[0] == ("int", 1)]
        if not last:
            A.unsure("%s: no pending entry" % entry)
        pre = [g for g in gets if not any(v.escape([g.gid], [l.gid], [x.gid for x in gets if x is not g], []) is not None for l in last)]
        for g in pre:
            path = v.escape([g.gid], [exitOf(v).gid] + [x.gid for x in gets], [c.gid for c in cb], [])
            if path is not None:
                A.bad(ALL, g.where, "a path is not part of the list", path[-14:])
            A.ok(ALL, g.where)
        if not pre:
            A.unsure("%s: paths not found" % entry)
        # A response with an error is no list
        r = A.flow(response, {"new": "httpRequestResponse()"}, {"fine": "httpResponseCodeOk()", "missing": ["httpResponseCode() == 404", "httpResponseCode() == 308"]}, noInline=("httpResponseCodeOk",), sticky=["fine", "missing"])
        A.must(r, lambda st: not has(st, "new") or has(st, "fine") or has(st, "missing"), "a response with an error is no result")
    run.__name__ = entry
    return run


def globStrs(prog, name):
    """The strings in the initialiser of a variable."""
    def walk(x):
        if isinstance(x, dict):
            x = list(x.values())
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "s":
                return {x[1]}
            return set().union(*[walk(y) for y in x]) if x else set()
        return set()
    g = prog.gvars.get(name)
    return walk(g.get("init")) if isinstance(g, dict) else set()


def alike(a, b):
    """Are the terms the same as far as they are known?"""
    if a == b or ("hav", "deep") in (a, b):
        return True
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))


def strIn(t, s):
    return any(x[0] == "str" and s in x[1] for x in walkTerm(t))


p_s3 = pages("storageS3ListInternal", "IsTruncated", "continuation-token", "xmlNodeLstGet", "xmlNodeLstSize", "storageS3Response", None)
p_azure = pages("storageAzureListInternal", "NextMarker", "marker", "xmlNodeLstGet", "xmlNodeLstSize", "storageAzureResponse", None)
p_gcs = pages("storageGcsListInternal", "nextPageToken", "pageToken", "varLstGet", "varLstSize", "storageGcsResponse", "nextPageToken")


# Other processes ---------------------------------------------------------------------------------------------------------------------------------
def p_remote(A):
    f = A.flow("storageRemoteReadInternal", {"read": "ioRead()", "bin": "pckWriteBin()", "filters": "pckWritePack()"},
               {"eof": "ioReadEof()", "notEof": "!ioReadEof()", "empty": "bufUsed() == 0"}, trackRet=True, sticky=["eof", "notEof", "empty"], kill={"read": {"eof", "notEof", "empty", "bin"}})
    A.must(f, lambda st: not has(st, "read") or has(st, "bin") or has(st, "empty"), "what was read is sent")
    for (st, ret), n in f.exits.items():
        if ret == ("int", 0) and not has(st, "eof") or ret == ("int", 1) and not has(st, "notEof"):
            A.bad(EOF, A.loc("storageRemoteReadInternal"), "the other process is told that the file is complete only at its end")
        A.ok(EOF, A.loc("storageRemoteReadInternal"))
    for n in ("storageRemoteReadProtocol", "storageRemoteReadMultiProtocol"):
        g = A.flow(n, {"close": "protocolServerResultCloseSet()", "data": "storageRemoteReadInternal()"}, {"more": "storageRemoteReadInternal()", "done": "!storageRemoteReadInternal()"},
                   noInline=("storageRemoteReadInternal",))
        A.guard(g, "close", ["done"], EOF)
        A.must(g, lambda st: has(st, "more") or has(st, "close"), "the other process is told that the file is complete")
    for n in ("storageRemoteReadOpenProtocol", "storageRemoteReadMultiOpenProtocol"):
        g = A.flow(n, {"keep": "protocolServerResultSessionDataSet()", "data": "storageRemoteReadInternal()"}, {"more": "storageRemoteReadInternal()"}, noInline=("storageRemoteReadInternal",))
        A.must(g, lambda st: not has(st, "more") or has(st, "keep"), ALL)


def p_stream(A):
    f = A.flow("storageReadRemoteStreamInternal", {"found": "=StorageReadRemoteStream.eofFound:1", "eof": "=StorageReadRemoteStream.eof:1"},
               {"closed": "protocolClientSessionClosed()", "none": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and (mentionsField(a[1], "remaining") or hasCall(a[1], "bufUsed", "pckReadBin")), {"remaining", "bufUsed"}, "nothing remains")}, sticky=["closed", "none"], noInline=("protocolClientSessionClosed",))
    A.guard(f, "found", ["closed"], EOF)
    A.guard(f, "eof", ["closed"], EOF)
    A.guard(f, "eof", ["none"], "what was received is used before the end of the file")
    v = View(A, "storageReadRemoteStreamRead")
    for s in v.assigns("StorageReadRemoteStream", "eof"):
        if s.args[0] != ("int", 0):
            if not s.under(LitFn(lambda a, pol: pol is False and a[0] == "eq" and a[2] == ("int", 0) and (mentionsField(a[1], "eofFound")), {"eofFound"}, "the end was found")):
                A.bad(EOF, s.where, "the end of the file is where the other process said so")
            if not s.under(LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and (mentionsField(a[1], "remaining") or a[1][0] in ("hav", "phi")), {"remaining"}, "nothing remains")):
                A.bad(EOF, s.where, "what was received is used before the end of the file")
        A.ok(EOF, s.where)


def p_multi(A):
    f = A.flow("storageReadMultiDefaultQueue", {"eof": "=StorageReadMultiDefault.eof:1", "add": "lstAdd()"},
               {"empty": "lstSize(.queue) == 0", "final": "!#1"}, sticky=["empty"], kill={"add": {"empty"}})
    A.guard(f, "eof", ["empty"], "several files are complete when the last one is")
    A.guard(f, "eof", ["final"], "several files are complete when the last one is")
    f = A.flow("storageReadMultiDefault", {"rm": "lstRemoveIdx(.requestList, 0)", "rq": "lstRemoveIdx(.queue, 0)", "read": "ioRead()"}, {"eof": "ioReadEof()"},
               noInline=("storageReadMultiDefaultQueue",), kill={"read": {"eof"}}, sticky=["eof"])
    for l in ("rm", "rq"):
        A.guard(f, l, ["eof"], "the next file is read when the one before is complete")


def p_remoteList(A):
    f = A.flow("storageRemoteList", {"add": "storageLstAdd()", "next": "pckReadNext()", "obj": "pckReadObjBegin()"}, {"more": "pckReadNext()"}, kill={"next": {"more", "add"}}, sticky=["more"], noInline=("pckReadNext",))
    A.guard(f, "next", [[lambda st: not has(st, "more") or has(st, "add")]], ALL)
    A.must(f, lambda st: not has(st, "more"), ALL)
    v = View(A, "storageRemoteListProtocol")
    gets = v.calls("storageLstGet")
    put = v.calls("pckWriteObjBegin")
    for s in gets:
        from lib import countsFromZero
        if not countsFromZero(s.args[1]):
            A.bad(ALL, s.where, "the list is not read from its first element")
        if not s.under(LitFn(lambda a, pol: pol is True and a[0] == "lt" and a[2][0] == "call" and a[2][1] == "storageLstSize", {"storageLstSize"}, "index < size")):
            A.bad(ALL, s.where, "the list is not read to its end")
        path = v.escape([s.gid], [exitOf(v).gid, s.gid], [p.gid for p in put], [])
        if path is not None:
            A.bad(ALL, s.where, "an entry is not sent", path[-14:])
        A.ok(ALL, s.where)
    if not gets:
        A.unsure("storageRemoteListProtocol reads no list")
