"""Only who is meant: certificates and host keys are verified and clients are authorized."""
from flow import LitFn, has, maybeTrue
from graph import fmt, walkTerm
from lib import View, exitOf, hasCall, mentionsField, precede, rel, structArg, strHas

ASSUME = ["OpenSSL and libssh2 verify as documented", "the certificate authority that is configured signs certificates only for those it should"]


def isZero(a, pol, pred):
    return a[0] == "eq" and a[2] == ("int", 0) and pol is True and pred(a[1])


def nonZero(a, pol, pred):
    return a[0] == "eq" and a[2] == ("int", 0) and pol is False and pred(a[1])


def call(t, *names):
    return t[0] == "call" and t[1] in names


NAME = {
    "eqName": LitFn(lambda a, pol: isZero(a, pol, lambda t: call(t, "strcasecmp") and all(call(x, "strZ") for x in t[2][:2])), {"strcasecmp"}, "name matches"),
    "suffix": LitFn(lambda a, pol: isZero(a, pol, lambda t: call(t, "strcasecmp") and not any(call(x, "strZ") for x in t[2][:2])), {"strcasecmp"}, "domain matches"),
    "star": LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 42) and (a[1][0] == "idx" and a[1][2] == ("int", 0) or a[1][0] in ("deref", "u", "d") and hasCall(a[1], "strZ") and not any(x == ("int", 1) for x in walkTerm(a[1]))), {"strZ"}, "starts with *"),
    "dot": LitFn(lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 46) and a[1][0] == "idx" and a[1][2] == ("int", 1), {"strZ"}, "then ."),
    "label": LitFn(lambda a, pol: label(a, pol), {"strChr"}, "for one part of the name"),
    "addr4": LitFn(lambda a, pol: isZero(a, pol, lambda t: call(t, "memcmp") and hasCall(t, "tlsAsn1ToBuf", "bufPtrConst")), {"memcmp"}, "address matches"),
    "addrOk": LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", 1) and pol is True and call(a[1], "inet_pton"), {"inet_pton"}, "is an address"),
}


def label(a, pol):
    r = rel(a, pol)
    if r is None:
        return False
    l, op, x = r
    if hasCall(x, "strChr") and not hasCall(l, "strChr"):
        l, op, x = x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), l
    return hasCall(l, "strChr") and op in (">=", "==") and not hasCall(x, "strChr") and (hasCall(x, "strSize") or hasCall(l, "strSize"))


def named(st):
    return has(st, "eqName") or all(has(st, x) for x in ("suffix", "star", "dot", "label")) or has(st, "addr4") and has(st, "addrOk")


def p_client(A):
    R = "a server counts as verified only if its certificate is valid"
    off = LitFn(lambda a, pol: isZero(a, pol, lambda t: mentionsField(t, "verifyPeer")), {"verifyPeer"}, "not to verify")
    ok = LitFn(lambda a, pol: isZero(a, pol, lambda t: call(t, "SSL_get_verify_result")), {"SSL_get_verify_result"}, "valid")
    cert = LitFn(lambda a, pol: nonZero(a, pol, lambda t: call(t, "SSL_get1_peer_certificate", "SSL_get_peer_certificate")), {"SSL_get1_peer_certificate", "SSL_get_peer_certificate"}, "certificate")
    ln = dict(NAME, off=off, ok=ok, cert=cert)
    f = A.flow("tlsClientOpen", {"set": "ioSessionAuthenticatedSet()", "cn": "tlsCertCommonName()"}, ln, trackRet=True)
    for R, need, what in ((R, ["off", "ok"], "valid"), ("a server counts as verified only if it presented a certificate", ["off", "cert"], "cert"),
                          ("a server counts as verified only if the certificate is for its name", ["off", named], "named")):
        A.guard(f, "set", [need], R)
        A.must(f, need, R)
    R = "the common name counts only if there are no other names"
    f = A.flow("tlsClientOpen", {"cn": "tlsCertCommonName()", "item": "OPENSSL_sk_value()|sk_GENERAL_NAME_value()"}, {}, sticky=("item",))
    if A.atLeast(f, "item", 1):
        A.guard(f, "cn", [lambda st: not has(st, "item")], R)
    R = "a name with an embedded null is refused"
    for F in ("tlsCertCommonName",):
        v = View(A, F, noInline=("tlsCertNameVerify",))
        A.ok(R, A.loc(F))
        if not v.calls("tlsCertNameVerify"):
            A.bad(R, A.loc(F), "the name is not checked")
        else:
                    precede(A, v, v.calls("tlsCertNameVerify"), [exitOf(v)], R, "a name is returned that was not checked")
    v = View(A, "tlsClientOpen", noInline=("tlsCertNameVerify",))
    ss = [s for s in v.calls("strcasecmp")]
    precede(A, v, v.calls("tlsCertNameVerify"), ss, R, "a name is compared that was not checked")
    f = A.flow("tlsCertNameVerify", {}, {"eq": LitFn(lambda a, pol: a[0] == "eq" and pol is True and hasCall(a, "strlen") and hasCall(a, "strSize"), {"strlen"}, "same length")})
    A.must(f, ["eq"], R)

    R = "a client that is to verify knows whom to trust"
    v = View(A, "tlsClientNew")
    own = [s for s in v.calls("SSL_CTX_load_verify_locations")]
    dft = v.calls("SSL_CTX_set_default_verify_paths")
    precede(A, v, own + dft, [exitOf(v)], R, "no authority is set", [off, LitFn(lambda a, pol: isZero(a, pol, lambda t: t == ("p", 4)), set(), "not to verify")])
    nf = lambda fld: LitFn(lambda a, pol: isZero(a, pol, lambda t: t[0] == "fld" and t[2] == fld), {fld}, "no " + fld)
    for fld in ("caFile", "caPath"):
        precede(A, v, own, dft, R, "%s is not used" % fld, [nf(fld)])
    for s in own:
        for i, fld in ((1, "caFile"), (2, "caPath")):
            A.ok(R, s.where)
            if not mentionsField(s.args[i], fld):
                A.bad(R, s.where, "%s is not used" % fld)
    R = "the setting to verify is the one that was given"
    for fld in ("verifyPeer", "context"):
        for s in v.inits("TlsClient", fld):
            A.ok(R, s.where)
            if ("p", 4) not in list(walkTerm(s.args[0])) and not hasCall(s.args[0], "SSL_CTX_new") and s.args[0] != ("p", 4):
                A.bad(R, s.where, "%s is %s" % (fld, fmt(s.args[0])[:50]))
    for s in v.assigns("TlsClient", "verifyPeer"):
        A.ok(R, s.where)
        if s.args[0] != ("p", 4):
            A.bad(R, s.where, "verifyPeer is %s" % fmt(s.args[0])[:50])
    R = "old versions of the protocol are refused"
    v = View(A, "tlsContext")
    min = [s for s in v.calls("SSL_CTX_ctrl", "SSL_CTX_set_min_proto_version") if any(x[0] == "int" and x[1] in (0x303, 0x304) for x in s.args)]
    par = LitFn(lambda a, pol: isZero(a, pol, lambda t: t == ("p", 0)), set(), "not to verify")
    precede(A, v, min, [exitOf(v)], R, "the version is not restricted", [par])
    R = "a client or server verifies with its own setting"
    for F in ("tlsClientNew", "tlsServerNew"):
        v = View(A, F, noInline=("tlsContext",))
        for s in v.calls("tlsContext"):
            A.ok(R, s.where)
            if s.args[0] not in (("int", 1), ("p", 4) if F == "tlsClientNew" else ("int", 1)):
                A.bad(R, s.where, "the context is made with %s" % fmt(s.args[0])[:40])


def p_server(A):
    R = "a client counts as authenticated only with a certificate that was verified"
    off = LitFn(lambda a, pol: isZero(a, pol, lambda t: mentionsField(t, "verifyPeer")), {"verifyPeer"}, "not to verify")
    on = LitFn(lambda a, pol: nonZero(a, pol, lambda t: mentionsField(t, "verifyPeer")), {"verifyPeer"}, "to verify")
    got = ("SSL_get1_peer_certificate", "SSL_get_peer_certificate")
    cert = LitFn(lambda a, pol: nonZero(a, pol, lambda t: call(t, *got)), set(got), "certificate")
    f = A.flow("tlsServerAccept", {"set": "ioSessionAuthenticatedSet()", "name": "ioSessionPeerNameSet()"}, {"on": on, "cert": cert})
    A.guard(f, "set", ["on"], R)
    A.guard(f, "name", ["on"], R)
    ok = lambda t: t == ("int", 0) or hasCall(t, *got) and (t[0] != "eq")
    for o in f.occ["set"].values():
        A.ok(R, o.where)
        t = o.args[1]
        if t == ("int", 1) and not has(o.st, "cert") or t[0] != "int" and not hasCall(t, *got) or t[0] == "eq":
            A.bad(R, o.where, "set to %s" % fmt(t)[:60], f.ex.trace(o.node))
    for o in f.occ["name"].values():
        A.ok(R, o.where)
        if not any(x[0] == "call" and x[1] == "tlsCertCommonName" and hasCall(x, *got) for x in walkTerm(o.args[1])):
            A.bad(R, o.where, "the name is %s" % fmt(o.args[1])[:60])
    R = "sessions are authenticated only by TLS"
    for n in sorted(A.prog.callers().get("ioSessionAuthenticatedSet", set())):
        A.ok(R, A.loc(n))
        if "io/tls/" not in A.prog.fns[n].file:
            A.bad(R, A.loc(n), "sets a session as authenticated")
    R = "a server verifies clients only after it knows whom to trust"
    v = View(A, "tlsServerNew")
    ver = [s for s in v.calls("SSL_CTX_set_verify") if s.args[1][0] == "int" and s.args[1][1] & 1 and s.args[2] == ("int", 0)]
    for s in v.calls("SSL_CTX_set_verify", "SSL_CTX_set_cert_verify_callback"):
        A.ok(R, s.where)
        if s.name != "SSL_CTX_set_verify" or s.gid not in [x.gid for x in ver]:
            A.bad(R, s.where, "the verification is changed")
    ca = [s for s in v.calls("SSL_CTX_load_verify_locations") if any(("p", 1) in list(walkTerm(x)) for x in s.args)]
    sets = [s for s in v.assigns("TlsServer", "verifyPeer") + v.inits("TlsServer", "verifyPeer") if s.args[0] != ("int", 0)]
    if not sets:
        A.bad(R, A.loc("tlsServerNew"), "clients are never verified")
    else:
        precede(A, v, ver, sets, R, "clients are not verified")
        precede(A, v, ca, sets, R, "the authority is not set")
        precede(A, v, sets, [exitOf(v)], R, "clients are not verified", [LitFn(lambda a, pol: isZero(a, pol, lambda t: t == ("p", 1)), set(), "no authority")])
    R = "the server uses the authority, key and certificate that are configured"
    w = [("tls-server-ca-file", 1), ("tls-server-key-file", 2), ("tls-server-cert-file", 3)]
    n = 0
    for e in sorted(A.prog.callers().get("tlsServerNew", set())):
        v = View(A, e, noInline=("tlsServerNew",))
        for s in v.calls("tlsServerNew"):
            for o, i in w:
                n += 1
                A.ok(R, s.where)
                if not isOpt(A, s.args[i], o):
                    A.bad(R, s.where, "%s is %s" % (o, fmt(s.args[i])[:50]))
    if not n:
        A.unsure("tlsServerNew is not called")


def optNum(A, name):
    for i, e in enumerate(A.prog.gvars["parseRuleOption"]["init"][1]):
        if e[2]["name"][1] == name:
            return i


def isOpt(A, t, *names):
    """The term is the value of one of the options."""
    if t[0] == "ite":
        return isOpt(A, t[2], *names) and isOpt(A, t[3], *names)
    ids = [optNum(A, n) for n in names]
    if t[0] != "call" or not t[1].startswith("cfgOption"):
        return False
    a = t[2][0]
    if a[0] == "ite":
        return all(x[0] == "int" and x[1] in ids for x in a[2:4])
    return a[0] == "int" and a[1] in ids


def p_authorize(A):
    AUTH = optNum(A, "tls-server-auth")
    kv = lambda t: t[0] == "call" and t[1] == "kvGet" and any(x[0] == "call" and x[1].startswith("cfgOption") and x[2] and x[2][0] == ("int", AUTH) for x in walkTerm(t)) and hasCall(t, "ioSessionPeerName")
    mine = lambda t: any(kv(x) for x in walkTerm(t))
    auth = LitFn(lambda a, pol: nonZero(a, pol, lambda t: call(t, "ioSessionAuthenticated") or t[0] == "fld" and t[2] == "authenticated"), {"ioSessionAuthenticated", "authenticated"}, "authenticated")
    listed = LitFn(lambda a, pol: nonZero(a, pol, lambda t: mine(t) and not hasCall(t, "strEq", "strEqZ", "strEmpty")), {"kvGet"}, "client is known")
    star = LitFn(lambda a, pol: a[0] == "eq" and nonZero(a, pol, lambda t: t[0] == "call" and t[1] in ("strEqZ", "strEq") and strHas(t, "*") and mine(t)), {"strEqZ"}, "all stanzas")
    STANZA = optNum(A, "stanza")
    sta = lambda t: any(x[0] == "call" and x[1].startswith("cfgOption") and x[2] and x[2][0] == ("int", STANZA) for x in walkTerm(t))
    item = LitFn(lambda a, pol: nonZero(a, pol, lambda t: t[0] == "call" and t[1] in ("strEq", "strLstExists") and sta(t) and mine(t)), {"strEq", "strLstExists"}, "stanza is listed")
    R = "a client gets a server only if it may use the stanza"
    f = A.flow("protocolServer", {"load": "cfgLoad()", "kv": ("kvGet()", lambda c: kv(("call", "kvGet", tuple(c.arg(i) for i in range(2)), None))), "ok": "protocolServerResponse()", "req": "protocolServerRequest()"},
               {"auth": auth, "listed": listed, "star": star, "item": item}, trackRet=True, sticky=("item", "star"))
    A.retGuard(f, maybeTrue, ["auth", "listed", ["star", "item"]], R, "a server")
    R = "clients are looked up in the configuration of the server"
    if A.atLeast(f, "kv", 1):
        for o in f.occ["kv"].values():
            A.ok(R, o.where)
            if has(o.st, "load"):
                A.bad(R, o.where, "what the client sent is loaded before", f.ex.trace(o.node))
    A.guard(f, "load", ["auth", "listed"], "what the client sent is loaded only if the client is known")
    R = "a process serves requests only if the client may use the stanza"
    n = 0
    for e in sorted(A.prog.callers().get("protocolServerProcess", set())):
        v = View(A, e, noInline=("protocolServer", "protocolServerProcess", "protocolServerNew"))
        for s in v.calls("protocolServerProcess"):
            n += 1
            A.ok(R, s.where)
            if not hasCall(s.args[0], "protocolServer"):
                if e != "cmdLocal" and e != "cmdRemote" and hasCall(s.args[0], "ioSessionIoRead", "ioServerAccept"):
                    A.bad(R, s.where, "requests are served without a check")
            else:
                nn = LitFn(lambda a, pol: nonZero(a, pol, lambda t: hasCall(t, "protocolServer")), {"protocolServer"}, "there is a server")
                if hasCall(s.args[0], "ioServerAccept") or True:
                    precede(A, v, [], [s], R, "requests are served without a server", [nn])
    if not n:
        A.unsure("protocolServerProcess is not called")


def p_outgoing(A):
    VER, CAF, CAP = "repo-storage-verify-tls", "repo-storage-ca-file", "repo-storage-ca-path"
    R = "connections verify the server unless it is switched off"
    c = A.prog.callers()
    params = {}
    for e in sorted(c.get("tlsClientNew", set())):
        v = View(A, e, noInline=("tlsClientNew", "sckClientNew"))
        ss = v.calls("tlsClientNew")
        for s in ss:
            if s.inst.fn.name != e:
                continue
            A.ok(R, s.where)
            t = s.args[4]
            if t[0] == "p":
                params.setdefault(e, {})[t[1]] = VER
            elif t == ("int", 0) and e == "cmdServerPing":
                if structArg(s.args[5], "keyFile") not in (None, ("int", 0)):
                    A.bad(R, s.where, "the certificate is sent to a server that is not verified")
            elif t != ("int", 1):
                A.bad(R, s.where, "to verify is %s" % fmt(t)[:50])
            if e != "cmdServerPing":
                for k, o in (("caFile", CAF), ("caPath", CAP)):
                    x = structArg(s.args[5], k)
                    if x is not None and x[0] == "p":
                        params.setdefault(e, {})[x[1]] = o
                    elif x is None or not isOpt(A, x, "repo-host-" + k[:2] + "-" + k[2:].lower(), "pg-host-" + k[:2] + "-" + k[2:].lower()):
                        A.bad(R, s.where, "%s is not used" % k)
            # the name that is verified is the one that is connected to
            h = [x for x in walkTerm(s.args[0]) if x[0] == "call" and x[1] == "sckClientNew"]
            A.ok(R, s.where)
            if not h or not same(h[0][2][0], s.args[1]):
                A.bad(R, s.where, "the name to verify is %s" % fmt(s.args[1])[:60])
    if len(params) < 3:
        A.unsure("only %d storages with TLS found" % len(params))
    for F, ps in sorted(params.items()):
        cs = c.get(F, set())
        if not cs:
            A.unsure("%s is not called" % F)
        for e in sorted(cs):
            v = View(A, e, noInline=(F,))
            for s in v.calls(F):
                for i, o in ps.items():
                    A.ok(R, s.where)
                    if not isOpt(A, s.args[i], o) or not any(x == ("p", 0) for x in walkTerm(s.args[i])):
                        A.bad(R, s.where, "%s is %s" % (o, fmt(s.args[i])[:50]))
    R = "the certificate and key that are sent belong to the host"
    v = View(A, "protocolRemoteGet", noInline=("tlsClientNew", "sckClientNew"))
    for s in v.calls("tlsClientNew"):
        for k, a in (("certFile", "cert-file"), ("keyFile", "key-file")):
            A.ok(R, s.where)
            x = structArg(s.args[5], k)
            if x is None or not isOpt(A, x, "repo-host-" + a, "pg-host-" + a):
                A.bad(R, s.where, "%s is %s" % (k, fmt(x)[:50] if x else "not set"))
    R = "a key file is used only if nobody else can read it"
    v = View(A, "tlsCertKeyLoad", noInline=("userId", "storageInfo"))
    use = v.calls("SSL_CTX_use_PrivateKey_file")
    missing = LitFn(lambda a, pol: isZero(a, pol, lambda t: t[0] == "fld" and t[2] == "exists"), {"exists"}, "missing")
    own = LitFn(lambda a, pol: a[0] == "eq" and pol is True and any(x[0] == "fld" and x[2] == "userId" for x in a[1:3]) and (hasCall(a, "userId") or a[2] == ("int", 0)), {"userId"}, "owner")
    mode = lambda m: LitFn(lambda a, pol: isZero(a, pol, lambda t: any(x[0] == "fld" and x[2] == "mode" for x in walkTerm(t)) and any(x[0] == "int" and x[1] & m == m for x in walkTerm(t))), {"mode"}, "mode")
    notUser = LitFn(lambda a, pol: a[0] == "eq" and pol is False and any(x[0] == "fld" and x[2] == "userId" for x in a[1:3]) and hasCall(a, "userId"), {"userId"}, "other owner")
    notRoot = LitFn(lambda a, pol: a[0] == "eq" and pol is False and any(x[0] == "fld" and x[2] == "userId" for x in a[1:3]) and a[2] == ("int", 0), {"userId"}, "not root")
    precede(A, v, [], use, R, "somebody else owns the file", [missing, own])
    precede(A, v, [], use, R, "others can read the file", [missing, notUser, mode(0o77)])
    precede(A, v, [], use, R, "others can read the file of root", [missing, notRoot, mode(0o37)])


def same(a, b):
    """Terms of the same expression at different points are equal as far as they are known."""
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return a == b
    if a[:1] == ("hav",) or b[:1] == ("hav",):
        return True
    if a[:1] == b[:1] == ("call",):
        return a[1] == b[1] and same(a[2], b[2])
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def p_sftp(A):
    if "storageSftpNew" not in A.prog.fns:
        A.unsure("no SFTP")
        return
    R = "an SFTP server gets to authenticate us only if its key is the one that is expected"
    v = View(A, "storageSftpNew")
    use = v.calls("libssh2_userauth_publickey_fromfile_ex", "libssh2_userauth_publickey_fromfile")
    isType = lambda val, yes: LitFn(lambda a, pol: a[0] == "eq" and a[2] == ("int", val) and pol is yes and any(x[0] == "fld" and x[2] == "hostKeyCheckType" for x in walkTerm(a[1])), {"hostKeyCheckType"}, "check type")
    none, strict = A.prog.enum("SFTP_STRICT_HOSTKEY_CHECKING_NONE"), A.prog.enum("SFTP_STRICT_HOSTKEY_CHECKING_STRICT")
    fp = LitFn(lambda a, pol: isZero(a, pol, lambda t: call(t, "strcmp") and any(x[0] == "fld" and x[2] == "hostFingerprint" for x in walkTerm(t))), {"strcmp"}, "fingerprint matches")
    rc = lambda name, yes: LitFn(lambda a, pol: a[0] == "eq" and pol is yes and a[2] == ("int", name) and hasCall(a[1], "libssh2_knownhost_checkp"), {"libssh2_knownhost_checkp"}, str(name))
    M, MM, F = 0, 1, 3  # LIBSSH2_KNOWNHOST_CHECK_MATCH, _MISMATCH, _FAILURE
    key = LitFn(lambda a, pol: nonZero(a, pol, lambda t: call(t, "libssh2_session_hostkey")), {"libssh2_session_hostkey"}, "key")
    precede(A, v, [], use, R, "a key that is not known is accepted", [isType(none, True), fp, rc(M, True), isType(strict, False)])
    precede(A, v, [], use, R, "a key that does not match is accepted", [isType(none, True), fp, rc(M, True), rc(MM, False)])
    precede(A, v, [], use, R, "a key that could not be checked is accepted", [isType(none, True), fp, rc(M, True), rc(F, False)])
    precede(A, v, [], use, R, "a missing key is accepted", [isType(none, True), fp, key])
    R = "the key of an SFTP server is looked up for its host"
    for s in v.calls("libssh2_knownhost_checkp"):
        for i, fld in ((1, "host"), (2, "port")):
            A.ok(R, s.where)
            if not mentionsField(s.args[i], fld) and not any(x[0] == "p" for x in walkTerm(s.args[i])):
                A.bad(R, s.where, "%s is %s" % (fld, fmt(s.args[i])[:50]))
        A.ok(R, s.where)
        if not hasCall(s.args[3], "libssh2_session_hostkey"):
            A.bad(R, s.where, "the key is %s" % fmt(s.args[3])[:50])
    R = "the checks of an SFTP server are those that are configured"
    want = {"hostKeyCheckType": "repo-sftp-host-key-check-type", "hostFingerprint": "repo-sftp-host-fingerprint"}
    for e in sorted(A.prog.callers().get("storageSftpNew", set())):
        v = View(A, e, noInline=("storageSftpNew",))
        for s in v.calls("storageSftpNew"):
            for fld, o in want.items():
                A.ok(R, s.where)
                x = structArg(s.args[-1], fld)
                if x is None or not isOpt(A, x, o):
                    A.bad(R, s.where, "%s is %s" % (o, fmt(x)[:50] if x else "not used"))
