"""What the user configured is what is used: the nearest source wins, nothing invalid is accepted, nothing given is dropped."""
from flow import LitFn
from graph import fmt, walkTerm
from lib import View, callOf, entryOf, exitOf, hasCall, mentionsField, strHas, strs, structArg

ASSUME = ["the rule tables generated from the option definitions are the intended ones", "the ini parser delivers the keys and values of the file"]

NEAREST = "a value from a nearer source is never replaced"
LEGAL = "only options that are valid for the command are taken from the environment and the files"
SOURCE = "each value is recorded with the source and the text it was given"
ORDER = "sections are searched from the most to the least specific"
CONFLICT = "contradictory or repeated options are an error"
CMDLINE = "an option or command that does not exist is an error"
BOOL = "a boolean is y or n"
UNUSED = "an option that is not valid for the command is an error on the command line"
CHECKED = "a value is used only after it was found to be allowed"
DEFAULT = "a default is used only where nothing was given"
REQUIRED = "a required option without a value is an error"
GROUPS = "removing an unused group keeps keys and values together"
KEY = "the key of the default repository or cluster must exist"
FILES = "the files named by the user are read, all of them, and only them"

KEEP = ("cfgParseOptionalRule", "cfgParseOptionalFilterDepend", "cfgParseOption", "cfgFileLoad", "cfgParseOptionValid", "cfgParseOptionType", "cfgParseOptionSecure", "cfgParseOptionKeyIdxName", "cfgParseSize",
        "cfgParseTime", "cfgParseOptionName", "parseOptionIdxValue", "cfgParseCommandId", "cfgParseCommandRoleEnum", "cfgParseOptionValueStr")


def view(A):
    if not hasattr(A, "_c40"):
        missing = [n for n in KEEP if n not in A.prog.fns]
        if missing:
            A.unsure("cfgParse: %s not found" % missing[0], CHECKED)
        A._c40 = View(A, "cfgParse", noInline=KEEP)
    return A._c40


def lit(text, f, *words):
    return LitFn(f, set(words), text)


def z(pred, want, text, *words):
    """pred(X) for a literal X == 0 (want) or X != 0 (not want)."""
    def f(a, pol):
        if a[0] == "eq" and a[2] == ("int", 0):
            return pol is want and pred(a[1])
        return False
    return lit(text, f, *words)


def cases(t):
    """The values a term stands for."""
    if t[0] == "phi":
        return [y for x in t[1] for y in cases(x)]
    if t[0] == "ite":
        return cases(t[2]) + cases(t[3])
    return [t]


def fld(name, base=None):
    return lambda t: any(x[0] == "fld" and x[2] == name and (base is None or base(x[1])) for x in cases(t))


def call(name, *args):
    """Result of the call, with the given predicates on its arguments."""
    def f(t):
        return any(x[0] == "call" and x[1] == name and all(p is None or (len(x[2]) > i and p(x[2][i])) for i, p in enumerate(args)) for x in cases(t))
    return f


def isInt(n):
    return lambda t: t[0] == "int" and (t[1][1:] and t[1][0] == "e" and False or t[1] == n or isinstance(t[1], (list, tuple)) and n in t[1])


def num(t):
    if t[0] != "int":
        return None
    return t[1][-1] if isinstance(t[1], (list, tuple)) else t[1]


def eqTo(pred, n, want, text, *words):
    return lit(text, lambda a, pol: a[0] == "eq" and pred(a[1]) and num(a[2]) == n and pol is want, *words)


def strOf(val, want, text):
    return lit(text, lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "call" and a[1][1] in ("strEq", "strcmp") and any(x[0] != "phi" and val in strs(x) and not hasCall(x, "strNewZ", "strLstGet") for x in a[1][2]) and (pol is not want if a[1][1] == "strEq" else pol is want), "strEq", "strcmp")


def isSlot(t):
    return t[0] == "call" and t[1] == "parseOptionIdxValue" or t[0] in ("deref", "addr") and isSlot(t[1]) or t[0] == "phi" and all(isSlot(x) for x in cases(t))


def isOpt(t):
    return t[0] == "call" and t[1] == "cfgParseOption" or t[0] == "phi" and all(isOpt(x) for x in cases(t))


FREE = z(fld("found", isSlot), True, "not given by a nearer source", "found")


def where(s):
    """Source a site belongs to."""
    if any(hasCall(a, "iniSectionKeyList") for a, pol in s.conds):
        return "file"
    if any(any(x[0] == "glob" and x[1] == "environ" for x in walkTerm(a)) for a, pol in s.conds):
        return "env"
    return "cmd"


def given(v):
    """Sites where a parsed value is stored."""
    out = []
    for f in ("found", "negate", "reset", "source", "valueList"):
        for s in v.inits("ParseOptionValue", f):
            if any(x.gid == s.gid and x.args[0] == ("int", 0) for x in v.inits("ParseOptionValue", "found")):
                continue
            out.append((f, s))
    return out


def none(A, v, rule, what, src, dst, skip, through=(), at=None):
    if not src or not dst:
        A.unsure("cfgParse: anchor of '%s' not found" % what, rule)
        return
    path = v.escape([s.gid for s in src], [d.gid for d in dst], [t.gid for t in through], skip)
    if path is not None:
        A.bad(rule, at or src[0].where, what, path[-14:])
    A.ok(rule, at or src[0].where)


def p_nearest(A):
    v = view(A)
    seen = {}
    e = A.prog.enum
    for f, s in given(v):
        w = where(s)
        seen.setdefault(w, set()).add(f)
        if not s.under(FREE):
            A.bad(NEAREST, s.where, "%s of an option is overwritten without a test that it was not given already" % f)
        A.ok(NEAREST, s.where)
        if f == "source":
            want = e("cfgSourceParam") if w == "cmd" else e("cfgSourceConfig")
            if num(s.args[0]) != want:
                A.bad(SOURCE, s.where, "the source of an option from %s is recorded as %s" % (w, fmt(s.args[0])))
            A.ok(SOURCE, s.where)
        if f == "valueList" and s.args[0][0] == "call":
            c = s.args[0]
            if c[1] == "strLstNewSplitZ" or c[1] == "iniGetList":
                if not s.under(z(fld("multi", isOpt), False, "may be given repeatedly", "multi")):
                    A.bad(CONFLICT, s.where, "several values are taken for an option that has one")
                if c[1] == "iniGetList" and not s.under(z(call("iniSectionKeyIsList"), False, "is a list", "iniSectionKeyIsList")):
                    A.bad(SOURCE, s.where, "a single value is read as a list")
    for w in ("cmd", "env", "file"):
        if not {"found", "source"} <= seen.get(w, set()):
            A.bad(SOURCE, A.loc("cfgParse"), "options given by %s are not recorded" % {"cmd": "the command line", "env": "the environment", "file": "the configuration files"}[w])
    # A value is recorded as found together with its source
    found = [s for f, s in given(v) if f == "found"]
    src = [s for f, s in given(v) if f == "source"]
    for s in found:
        own = [x for x in src if where(x) == where(s)]
        slot = [x for x in v.calls("parseOptionIdxValue") if where(x) == where(s)]
        if s.gid not in {x.gid for x in own} and v.escape([x.gid for x in slot], [s.gid], [x.gid for x in own], []) is not None:
            none(A, v, SOURCE, "an option is recorded without its source", [s], [exitOf(v)] + [x for x in v.calls("parseOptionIdxValue")], [], own)
    # Values: only what was read, appended to the list of the option
    for s in v.calls("strLstAdd"):
        if s.args[0][0] != "call" or not (fld("valueList", isSlot)(s.args[0]) or s.args[0][1] == "strLstNew"):
            if not fld("valueList", isSlot)(s.args[0]):
                continue
        w = where(s)
        t = s.args[1]
        if w == "file" and hasCall(t, "iniGet"):
            for x in cases(t):
                c = callOf(x, "iniGet")
                if c is not None and not (call("strLstGet")(c[2][1]) and hasCall(c[2][2], "iniSectionKeyList") and any(k == c[2][1] for y in walkTerm(c[2][2]) if y[0] == "call" and y[1] == "iniSectionKeyList" for k in y[2])):
                    A.bad(SOURCE, s.where, "the value is not the one of the key and section being processed")
            if not s.under(z(call("strSize"), False, "not empty", "strSize")):
                A.bad(CHECKED, s.where, "an empty value is accepted")
            A.ok(SOURCE, s.where)


def p_legal(A):
    v = view(A)
    e = A.prog.enum
    n = set()
    for f, s in given(v):
        w = where(s)
        need = [("an option that does not exist", z(fld("found", isOpt), False, "exists", "found"))]
        if w != "cmd":
            need += [("an option not valid for the command", z(call("cfgParseOptionValid"), False, "valid for the command", "cfgParseOptionValid")),
                     ("a negated option", z(fld("negate", isOpt), True, "not negated", "negate")), ("a reset option", z(fld("reset", isOpt), True, "not reset", "reset"))]
        else:
            need.append(("a secret", z(call("cfgParseOptionSecure"), True, "not a secret", "cfgParseOptionSecure")))
        if w == "file":
            need.append(("an option only for the command line", eqTo(fld("section"), e("cfgSectionCommandLine"), False, "not only for the command line", "section")))
        for what, l in need:
            if not s.under(l):
                A.bad(LEGAL if w != "cmd" else CMDLINE, s.where, "%s is taken from %s" % (what, {"cmd": "the command line", "env": "the environment", "file": "a configuration file"}[w]))
        n.add(w)
        A.ok(LEGAL, s.where)
    if n != {"cmd", "env", "file"}:
        A.unsure("cfgParse: not all sources of options found", LEGAL)
    # Validity is asked for the command being run and the option that was found
    for s in v.calls("cfgParseOptionValid"):
        if hasCall(s.args[2], "cfgParseOption") and not (hasCall(s.args[0], "cfgParseCommandId") and hasCall(s.args[1], "cfgParseCommandRoleEnum") and fld("id", isOpt)(s.args[2])):
            A.bad(LEGAL, s.where, "whether the option is valid is asked for another command or option")
        A.ok(LEGAL, s.where)
    # Options of a stanza are not taken from a global section
    notStanza = eqTo(fld("section"), e("cfgSectionStanza"), False, "not an option of the stanza", "section")
    src = [s for s in v.calls("cfgParseOptionValid") if hasCall(s.args[2], "iniSectionKeyList")]
    dst = [s for f, s in given(v) if where(s) == "file"]
    none(A, v, LEGAL, "an option of a stanza is taken from the global section", src, dst, [notStanza, strOf("global", False, "not the global section")], src)
    begins = z(call("strBeginsWith"), True, "not a global section", "strBeginsWith")
    begins2 = z(call("strBeginsWithZ"), True, "not a global section", "strBeginsWithZ")
    none(A, v, LEGAL, "an option of a stanza is taken from the global section of the command", src, dst, [notStanza, begins, begins2, strOf("global", True, "the global section")], src)
    # The same option under two names in one section
    kv = v.calls("kvPut")
    get = [s for s in v.calls("kvGet") if hasCall(s.args[1], "iniSectionKeyList")]
    if not get:
        A.bad(CONFLICT, A.loc("cfgParse"), "the same option under two names in one section is not detected")
    for s in get:
        put = [k for k in kv if k.args[0] == s.args[0] and k.args[1] == s.args[1]]
        none(A, v, CONFLICT, "an option is not remembered as found in the section", [s], dst, [], put)
    for s in dst:
        if get and not s.under(z(call("kvGet"), True, "not found in this section yet", "kvGet")):
            A.bad(CONFLICT, s.where, "the same option under two names in one section is accepted")
    A.ok(CONFLICT, A.loc("cfgParse"))


def p_order(A):
    v = view(A)
    use = [s for s in v.calls("iniSectionKeyList")]
    if not use:
        A.unsure("cfgParse: no sections", ORDER)
        return
    lists = {x[2][0] for s in use for x in walkTerm(s.args[1]) if x[0] == "call" and x[1] == "strLstGet"}
    kinds = {}
    for s in v.calls("strLstAddFmt", "strLstAdd", "strLstAddZ"):
        if s.args[0] not in lists or not s.conds or where(s) != "cmd" or not any(mentionsField(a, "ini") for a, pol in s.conds):
            continue
        cmd = any(hasCall(x, "cfgParseCommandName") for x in s.args[1:])
        glob = any(strHas(x, "global") for x in s.args[1:])
        stanza = any(mentionsField(x, "valueList") for x in s.args[1:])
        k = ("global" if glob else "stanza" if stanza else None, cmd)
        if k[0]:
            kinds.setdefault(k, []).append(s)
            if glob and stanza:
                A.bad(ORDER, s.where, "a section is both of a stanza and global")
    order = [("stanza", True), ("stanza", False), ("global", True), ("global", False)]
    txt = {("stanza", True): "of the command in the stanza", ("stanza", False): "of the stanza", ("global", True): "of the command", ("global", False): "global"}
    for k in order:
        if k not in kinds:
            A.bad(ORDER, A.loc("cfgParse"), "the section %s is not searched" % txt[k])
        else:
            A.ok(ORDER, kinds[k][0].where)
    for i, a in enumerate(order):
        for b in order[i + 1:]:
            for x in kinds.get(a, ()):
                if kinds.get(b):
                    none(A, v, ORDER, "the section %s is searched before the one %s" % (txt[b], txt[a]), kinds[b], [x], [], at=x.where)
    for k in order[:2]:
        for s in kinds.get(k, ()):
            if not any(a[0] == "eq" and a[2] == ("int", 0) and pol is False and mentionsField(a[1], "valueList") for a, pol in s.conds):
                A.bad(ORDER, s.where, "a section of a stanza is searched without stanza")
    for k in order[2:]:
        if kinds.get(k):
            none(A, v, ORDER, "the section %s is left out" % txt[k], [entryOf(v)], use, [], kinds[k], at=kinds[k][0].where)
    for k in order[:2]:
        if kinds.get(k):
            noStanza = lit("no stanza", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and (mentionsField(a[1], "valueList") or fld("indexList")(a[1])), "valueList", "indexList")
            none(A, v, ORDER, "the section %s is left out" % txt[k], [entryOf(v)], use, [noStanza], kinds[k], at=kinds[k][0].where)


def p_cmdline(A):
    v = view(A)
    e = A.prog.enum
    slot = [s for s in v.calls("parseOptionIdxValue") if where(s) == "cmd"]
    opt = [s for s in v.calls("cfgParseOption") if where(s) == "cmd"]
    add = [s for s in v.calls("strLstAdd") if fld("valueList", isSlot)(s.args[0])]
    done = [exitOf(v)] + slot
    none(A, v, CONFLICT, "an option given again is dropped", slot, done, [FREE], add)
    for s in add:
        for f in ("negate", "reset"):
            same = lit("same", lambda a, pol, f=f: a[0] == "eq" and pol is True and fld(f)(a[1]) and fld(f)(a[2]), f)
            both = lit("same", lambda a, pol, f=f: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] == "eq" and False, f)
            if not s.under(same):
                if not any(a[0] == "eq" and {True} == {pol} and any(fld(f)(x) for x in a[1:]) and mentionsField(a, f) for a, pol in s.conds):
                    A.bad(CONFLICT, s.where, "an option can be given and %s" % {"negate": "negated", "reset": "reset"}[f])
        if not s.under(z(fld("multi", isOpt), False, "may be given repeatedly", "multi")):
            A.bad(CONFLICT, s.where, "a second value is accepted for an option that has one")
        A.ok(CONFLICT, s.where)
    # Every option found on the command line is recorded
    rec = [s for f, s in given(v) if f == "found" and where(s) == "cmd"]
    none(A, v, CMDLINE, "an option of the command line is dropped", opt, [exitOf(v)] + opt, [], rec + add)
    # Booleans
    notBool = [eqTo(fld("type"), e("cfgOptTypeBoolean"), False, "not a boolean", "type"), eqTo(call("cfgParseOptionType"), e("cfgOptTypeBoolean"), False, "not a boolean", "cfgParseOptionType")]
    yn = [strOf("y", True, "y"), strOf("n", True, "n")]
    noArg = lit("no value", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and any(x[0] == "call" and x[1] in ("strNewZ", "strchr") for x in cases(a[1])), "strNewZ", "strchr")
    neg = [z(fld("negate", isOpt), False, "negated", "negate"), z(fld("reset", isOpt), False, "reset", "reset")]
    none(A, v, BOOL, "a boolean of the command line gets another value than y or n", opt, rec, notBool + yn + [noArg] + neg, opt)
    # A value where none is allowed
    arg = [z(fld("negate", isOpt), True, "not negated", "negate"), z(fld("reset", isOpt), True, "not reset", "reset"), noArg]
    none(A, v, CMDLINE, "a negated or reset option is accepted with a value", opt, rec, arg, opt)
    for w in ("env", "file"):
        rw = [s for f, s in given(v) if f == "found" and where(s) == w]
        isList = z(call("iniSectionKeyIsList"), False, "is a list", "iniSectionKeyIsList")
        none(A, v, BOOL, "a boolean of the %s gets another value than y or n" % {"env": "environment", "file": "configuration file"}[w], rw, [exitOf(v)] + v.calls("parseOptionIdxValue"), notBool + yn + [isList])
    for f, s in given(v):
        if f == "negate" and num(s.args[0]) == 1:
            if not s.under(strOf("n", True, "n")):
                A.bad(BOOL, s.where, "a boolean is taken for n without being n")
            A.ok(BOOL, s.where)
    for s in v.assigns("CfgParseOptionResult", "negate"):
        if num(s.args[0]) == 1 and not s.under(strOf("n", True, "n")):
            A.bad(BOOL, s.where, "a boolean is taken for n without being n")
        if num(s.args[0]) == 0 and not s.under(z(fld("boolLike"), False, "like a boolean", "boolLike")):
            A.bad(BOOL, s.where, "a negation is dropped")
        A.ok(BOOL, s.where)
    # Command and role
    for s in v.assigns("Config", "help"):
        def role(a, pol):
            return a[0] == "eq" and a[2] == ("int", 0) and pol is False and mentionsField(a[1], "commandRoleValid")
        if not s.under(lit("role valid", role, "commandRoleValid")):
            A.bad(CMDLINE, s.where, "a role is accepted for a command that does not have it")
        A.ok(CMDLINE, s.where)
    par = [s for s in v.calls("strLstAddZ") if any(a[0] == "eq" and pol is False and num(a[2]) == 45 for a, pol in s.conds)]
    none(A, v, CMDLINE, "parameters are accepted for a command that takes none", par, [exitOf(v)],
         [z(fld("parameterAllowed"), False, "parameters allowed", "parameterAllowed"), z(call("strLstNew"), True, "no parameters", "strLstNew"), z(fld("paramList"), True, "no parameters", "paramList")] + hlp(A, v))
    for s in v.calls("cfgFileLoad"):
        for c in ("cfgCmdHelp", "cfgCmdVersion"):
            if not s.under(eqTo(lambda t: hasCall(t, "cfgParseCommandId"), e(c), False, "not " + c, "cfgParseCommandId")):
                A.bad(FILES, s.where, "help and version need the configuration files")
        A.ok(FILES, s.where)


def p_unused(A):
    v = view(A)
    e = A.prog.enum
    src = [s for s in v.calls("cfgParseOptionValid") if not hasCall(s.args[2], "cfgParseOption") and hasCall(s.args[0], "cfgParseCommandId")]
    valid = z(call("cfgParseOptionValid"), False, "valid", "cfgParseOptionValid")
    notGiven = z(fld("indexList"), True, "not given", "indexList")
    notGiven2 = z(fld("indexListTotal"), True, "not given", "indexListTotal")
    none(A, v, UNUSED, "an option that is not valid for the command is ignored", src, [exitOf(v)] + src, [valid, notGiven, notGiven2])
    on = [s for s in v.inits("ConfigOptionData", "valid") if s.args[0] == ("int", 1)]
    if not on:
        A.unsure("cfgParse: no option becomes valid", UNUSED)
    for s in on:
        if not s.under(valid):
            A.bad(UNUSED, s.where, "an option becomes valid without being valid for the command")
        A.ok(UNUSED, s.where)


def rule(n):
    return lambda t: t[0] == "call" and t[1] == "cfgParseOptionalRule" and num(t[2][1]) == n


def isText(t):
    """The first value that was given for the option."""
    return any(x[0] == "call" and x[1] == "strLstGet" and mentionsField(x[2][0], "valueList") and x[2][1] == ("int", 0) for x in walkTerm(t))


def optSet(v, e):
    """Literals that say that the option was not set."""
    return [z(fld("found"), True, "not given", "found"), z(fld("reset"), False, "reset", "reset"),
            lit("negated", lambda a, pol: a[0] in ("or", "and") and mentionsField(a, "negate") and pol is False or a[0] == "eq" and a[2] == ("int", 0) and fld("negate")(a[1]) and pol is False, "negate")]


def p_checked(A):
    v = view(A)
    e = A.prog.enum
    dep = v.calls("cfgParseOptionalFilterDepend")
    per = v.calls("cfgParseOptionType")
    end = [exitOf(v)]
    r = {n: [s for s in v.calls("cfgParseOptionalRule") if num(s.args[1]) == e("parseRuleOptionalType" + n)] for n in ("Valid", "Sequence", "AllowRange", "AllowList", "Default", "Required")}
    each = r["Valid"]
    for n in ("Valid", "AllowRange", "AllowList", "Default", "Required"):
        if not r[n]:
            A.bad(CHECKED, A.loc("cfgParse"), "the rule %s of the options is not used" % n)
            return
        for s in r[n]:
            if not (hasCall(s.args[2], "cfgParseCommandId") and s.args[3] == each[0].args[3]):
                A.bad(CHECKED, s.where, "the rule %s is read for another command or option" % n)
            A.ok(CHECKED, s.where)
    sets = v.inits("ConfigOptionValue", "set")
    sets = [s for s in sets if s.args[0] == ("int", 1)]
    off = optSet(v, e)
    use = [s for s in sets if not s.under(lit("default", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and rule(e("parseRuleOptionalTypeDefault"))(a[1]), "cfgParseOptionalRule")) and not any(mentionsField(a, "defaultExists") for a, pol in s.conds)]
    fit = z(fld("valid"), False, "dependency met", "valid")
    unfit = z(fld("valid"), True, "dependency not met", "valid")
    for s in use:
        need = [("without being given", z(fld("found"), False, "given", "found")), ("although it was reset", z(fld("reset"), True, "not reset", "reset"))]
        for what, l in need:
            if not s.under(l):
                A.bad(CHECKED, s.where, "an option is set %s" % what)
        if not any(a[0] == "eq" and a[2] == ("int", 0) and pol is False and mentionsField(a[1], "valid") and hasCall(a[1], "cfgParseOptionalFilterDepend") for a, pol in s.conds):
            A.bad(CHECKED, s.where, "an option is set although the option it depends on does not allow it")
        A.ok(CHECKED, s.where)
    if not use:
        A.bad(CHECKED, A.loc("cfgParse"), "options that were given are not set")
    # Dependency not met on the command line
    notParam = lit("not on the command line", lambda a, pol: a[0] == "eq" and fld("source")(a[1]) and (num(a[2]) == e("cfgSourceParam") and pol is False), "source")
    met = lit("dependency met", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and mentionsField(a[1], "valid") and hasCall(a[1], "cfgParseOptionalFilterDepend"), "cfgParseOptionalFilterDepend")
    none(A, v, UNUSED, "an option of the command line whose dependency is not met is ignored", dep, end + each, off + [met, notParam])
    # Given and allowed: it is set
    none(A, v, CHECKED, "an option that was given is not set", each, end + each, off + [lit("dependency not met", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and hasCall(a[1], "cfgParseOptionalFilterDepend") and mentionsField(a[1], "valid"), "cfgParseOptionalFilterDepend")], use)
    # Beta
    beta = [s for s in use if not any(mentionsField(a, "beta") for a, pol in s.conds)]
    # Values
    ints = {"cvtZToInt64": "cfgOptTypeInteger", "cfgParseSize": "cfgOptTypeSize", "cfgParseTime": "cfgOptTypeTime"}
    put = [s for s in v.assigns(None, "integer") if s.args[0][0] in ("call", "phi") and any(hasCall(s.args[0], n) for n in ints)]
    if not put:
        A.unsure("cfgParse: no numbers", CHECKED)
    for n, ty in ints.items():
        mine = [s for s in put if hasCall(s.args[0], n)]
        if not mine:
            A.bad(CHECKED, A.loc("cfgParse"), "%s() is not used for the values of an option" % n)
        for s in mine:
            if not isText(s.args[0]):
                A.bad(CHECKED, s.where, "the number is not the one that was given")
            if n == "cfgParseTime":
                if s.under(eqTo(call("cfgParseOptionType"), e("cfgOptTypeInteger"), True, "", "cfgParseOptionType")) or s.under(eqTo(call("cfgParseOptionType"), e("cfgOptTypeSize"), True, "", "cfgParseOptionType")):
                    A.bad(CHECKED, s.where, "a value of another type is read as a time")
            elif not s.under(eqTo(call("cfgParseOptionType"), e(ty), True, ty, "cfgParseOptionType")):
                A.bad(CHECKED, s.where, "%s() is used for a value of another type" % n)
            A.ok(CHECKED, s.where)
    noRule = lambda n: lit("no rule", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and rule(e("parseRuleOptionalType" + n))(a[1]), "cfgParseOptionalRule")

    def within(lo):
        name = "allowRangeMin" if lo else "allowRangeMax"

        def f(a, pol):
            if a[0] != "lt":
                return False
            x, y = a[1], a[2]
            isV = lambda t: any(hasCall(t, n) for n in ints) or mentionsField(t, "integer")
            # value < min is false; max < value is false
            if lo:
                return pol is False and isV(x) and not mentionsField(x, name) and bound(y, name) or pol is True and False
            return pol is False and bound(x, name) and isV(y)
        return lit("within the range", f, "integer", "cvtZToInt64")

    def bound(t, name):
        return t[0] != "op" and (mentionsField(t, name) or t[0] == "out" and name in str(t))
    after = put
    for lo, what in ((True, "below"), (False, "above")):
        none(A, v, CHECKED, "a number %s the allowed range is accepted" % what, after, end + each, [noRule("AllowRange"), within(lo)])
    # Text
    txt = [s for s in v.assigns("ConfigOptionValue", "display") if isText(s.args[0])]
    typed = lambda t: call("cfgParseOptionType")(t) or fld("type")(t)
    slash = lambda t: strs(t) == ["/"]
    other = [eqTo(typed, e("cfgOptType" + n), True, n, "cfgParseOptionType", "type") for n in ("Integer", "Size", "Time", "StringId", "Boolean", "Hash", "List")]
    notEmpty = [z(call("strSize"), False, "not empty", "strSize"), z(call("strEmpty"), True, "not empty", "strEmpty")]
    notPath = eqTo(typed, e("cfgOptTypePath"), False, "not a path", "cfgParseOptionType", "type")
    none(A, v, CHECKED, "an empty value is accepted", txt, end + each, notEmpty + other)
    none(A, v, CHECKED, "a path that does not begin with / is accepted", txt, end + each, other + [notPath, z(call("strBeginsWithZ", None, slash), False, "begins with /", "strBeginsWithZ"), z(call("strBeginsWith", None, slash), False, "begins with /", "strBeginsWith")])
    none(A, v, CHECKED, "a path with // is accepted", txt, end + each, other + [notPath, z(call("strstr"), True, "no //", "strstr")])
    # Allow list
    hit = lit("found in the list", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and (hasCall(a[1], "cfgParseOptionValue") or a[1][0] == "eq" and mentionsField(a[1], "integer") or a[1][0] == "phi" and any(x[0] in ("eq", "op") for x in cases(a[1]))), "cfgParseOptionValue", "integer")
    hitText = lit("found in the list", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and a[1][0] == "call" and a[1][1] == "strEq" and any(isText(x) for x in a[1][2]), "strEq")
    hitNum = lit("found in the list", lambda a, pol: a[0] == "eq" and pol is True and any(hasCall(x, *ints) for x in a[1:]) and any(y[0] == "glob" and y[1].startswith("parseRuleValue") for x in a[1:] for y in walkTerm(x)), "parseRuleValueInt")
    none(A, v, CHECKED, "a value that is not in the list of the allowed ones is accepted", r["AllowList"], end + each, [noRule("AllowList"), hit, hitText, hitNum])
    # What is found in the list
    eqs = [s for s in v.calls("strEq") if any(mentionsField(x, "display") or isText(x) for x in s.args) and any(rule(e("parseRuleOptionalTypeAllowList"))(x) for a, pol in s.conds for x in walkTerm(a))]
    if not eqs:
        A.bad(CHECKED, A.loc("cfgParse"), "a text is not compared with the allowed ones")
    A.ok(CHECKED, A.loc("cfgParse"))


def p_default(A):
    v = view(A)
    e = A.prog.enum
    each = [s for s in v.calls("cfgParseOptionalRule") if num(s.args[1]) == e("parseRuleOptionalTypeValid")]
    dflt = [s for s in v.calls("cfgParseOptionalRule") if num(s.args[1]) == e("parseRuleOptionalTypeDefault")]
    req = [s for s in v.calls("cfgParseOptionalRule") if num(s.args[1]) == e("parseRuleOptionalTypeRequired")]
    put = [s for s in v.inits("ConfigOptionValue", "value") if mentionsField(s.args[0], "defaultValue") or s.args[0][0] == "out" and "defaultValue" in str(s.args[0])]
    isD = rule(e("parseRuleOptionalTypeDefault"))
    put = [s for s in put if any(isD(x) for a, pol in s.conds for x in walkTerm(a))]
    if not put or not dflt:
        A.unsure("cfgParse: defaults not found", DEFAULT)
        return
    for s in put:
        if not s.under(lit("has a default", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and isD(a[1]), "cfgParseOptionalRule")):
            A.bad(DEFAULT, s.where, "a default is used for an option that has none")
        A.ok(DEFAULT, s.where)
    sets = [s for s in v.inits("ConfigOptionValue", "set") if s.args[0] == ("int", 1)]
    own = [s for s in sets if not any(isD(x) for a, pol in s.conds for x in walkTerm(a)) and not any(mentionsField(a, "defaultExists") for a, pol in s.conds)]

    def unset(a, pol):
        return a[0] == "eq" and a[2] == ("int", 0) and pol is True and (fld("set")(a[1]) or a[1][0] == "phi" and all(x in (("int", 0), ("int", 1)) for x in cases(a[1])))
    for s in put:
        if not s.under(lit("not set", unset, "set")):
            A.bad(DEFAULT, s.where, "a default replaces the value that was given")
    # A negated option has no default (help shows them anyway)
    notNeg = z(fld("negate"), True, "not negated", "negate")
    none(A, v, DEFAULT, "a default is used for an option that was negated", each, put, [notNeg] + hlp(A, v), each)
    # Required
    yes = lit("not required", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and mentionsField(a[1], "required"), "required")
    hasD = lit("has a default", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and isD(a[1]), "cfgParseOptionalRule")
    none(A, v, REQUIRED, "a required option without a value is accepted", dflt, [exitOf(v)] + each, [hasD, yes] + hlp(A, v))
    if not req:
        A.bad(REQUIRED, A.loc("cfgParse"), "the rule of the command about what is required is not used")
    isSet = lit("set", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and (fld("set")(a[1]) or a[1][0] == "phi" and all(x in (("int", 0), ("int", 1)) for x in cases(a[1]))), "set")
    neg = z(fld("negate"), False, "negated", "negate")
    unmet = lit("dependency not met", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and hasCall(a[1], "cfgParseOptionalFilterDepend") and mentionsField(a[1], "valid"), "cfgParseOptionalFilterDepend")
    none(A, v, REQUIRED, "an option without a value is neither given its default nor reported", each, [exitOf(v)] + each, [isSet, neg, unmet], dflt + own)


def hlp(A, v):
    """Literals of help being asked for: the value that Config.help gets."""
    vals = [x for s in v.assigns("Config", "help") for x in cases(s.args[0])]
    return [lit("help", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is False and (fld("help")(a[1]) or all(x in vals for x in cases(a[1]))), "help")]


def p_groups(A):
    v = view(A)
    mv = v.calls("memmove")
    key = [s for s in mv if mentionsField(s.args[0], "indexMap")]
    val = [s for s in mv if any(x[0] == "fld" and x[2] == "index" for x in walkTerm(s.args[0]))]
    if not key or not val:
        A.unsure("cfgParse: removal of groups not found", GROUPS)
        return

    def split(t):
        return (t[1], t[2]) if t[0] in ("+", "add") or t[0] == "op" and t[1] == "+" else (None, None)
    for s in key + val:
        d, x = s.args[0], s.args[1]
        if not (len(d) == len(x) and d != x):
            A.bad(GROUPS, s.where, "the entries are moved from %s" % fmt(x)[:60])
        A.ok(GROUPS, s.where)
    none(A, v, GROUPS, "the keys of a group are moved without its values", key, [exitOf(v)] + key, [z(fld("group"), True, "no group", "group"), lit("other group", lambda a, pol: a[0] == "eq" and fld("groupId")(a[1]) and pol is False, "groupId"), lit("all options", lambda a, pol: a[0] == "lt" and pol is False and num(a[2]) == A.prog.enum("CFG_OPTION_TOTAL"), "optionIdx", "loop")], val)
    for s in val:
        if not s.under(lit("same group", lambda a, pol: a[0] == "eq" and fld("groupId")(a[1]) and pol is True, "groupId")):
            A.bad(GROUPS, s.where, "values of another group are moved")
        outer = [a for k in key for a, pol in k.conds]
        for a, pol in s.conds:
            if a not in outer and not (a[0] == "lt" and num(a[2]) == A.prog.enum("CFG_OPTION_TOTAL") or a[0] == "eq" and any(fld(f)(x) for f in ("group", "groupId", "valid") for x in a[1:])):
                A.bad(GROUPS, s.where, "values are moved only where %s" % fmt(a)[:60])
        for k in key:
            if s.args[2] == k.args[2]:
                A.bad(GROUPS, s.where, "the sizes of keys and values are taken for the same")
        if key and not any(k.args[1][-1] == s.args[1][-1] for k in key):
            A.bad(GROUPS, s.where, "keys and values are moved by different amounts")
        A.ok(GROUPS, s.where)


def p_key(A):
    v = view(A)
    put = v.assigns("ConfigOptionGroupData", "indexDefault")
    test = v.calls("cfgOptionTest", "cfgOptionIdxTest")
    if not put:
        A.unsure("cfgParse: default index not found", KEY)
        return
    for s in put:
        if s.args[0] == ("int", 0):
            continue
        if not any(a[0] in ("eq", "lt") and pol is (a[0] == "lt") and any(hasCall(x, "cfgOptionGroupIdxTotal") for x in a[1:]) and s.args[0] in a[1:] for a, pol in s.conds):
            A.bad(KEY, s.where, "the default is set without the key having been found")
        A.ok(KEY, s.where)
    missing = [z(call("cfgOptionTest"), True, "not given", "cfgOptionTest"), z(call("cfgOptionIdxTest"), True, "not given", "cfgOptionIdxTest")]
    none(A, v, KEY, "a key that was given is ignored", test, [exitOf(v)] + test, missing, put)
    seen = []
    none(A, v, KEY, "", test, [exitOf(v)], [lambda a, pol: seen.append(a) and False] + missing, put + [exitOf(v)])
    opt = ("cfgOptionUInt", "cfgOptionIdxUInt")
    same = [a for a in seen if a[0] == "eq" and any(mentionsField(x, "indexMap") for x in a[1:]) and any(hasCall(x, *opt) for x in a[1:])]
    if not same:
        A.bad(KEY, put[0].where, "the key is not compared with the keys of the group")
    for a in same:
        num1 = [x for x in a[1:] if hasCall(x, *opt)][0]
        if callOf(num1, *opt) is num1:
            A.bad(KEY, put[0].where, "the key is compared with an index")


def p_files(A):
    v = View(A, "cfgFileLoad")
    reads = v.calls("storageNewRead")
    lists = v.calls("storageList")
    main = [s for s in reads if not hasCall(s.args[1], "storageList")]
    inc = [s for s in reads if hasCall(s.args[1], "storageList")]
    if not main or not inc or not lists:
        A.unsure("cfgFileLoad: reads not found", FILES)
        return
    named = [s for s in main if any(mentionsField(x, "valueList") and callOf(x, "strLstGet") is x for x in cases(s.args[1]))]
    if not named:
        A.bad(FILES, A.loc("cfgFileLoad"), "the file given by the user is not read")
    for s in main:
        im = structArg(s.args[2], "ignoreMissing")
        if im is not None and im != ("int", 0) and not mentionsField(im, "found"):
            A.bad(FILES, s.where, "the file given by the user may be missing")
        if im is not None and im[0] != "not" and im != ("int", 0) and mentionsField(im, "found") and not (im[0] == "eq" or im[0] == "ite" or im[0] == "phi"):
            A.bad(FILES, s.where, "the file may be missing when the user named it, and only then")
        A.ok(FILES, s.where)
    for s in lists:
        em = structArg(s.args[2], "errorOnMissing")
        if em is None or not mentionsField(em, "found"):
            A.bad(FILES, s.where, "the path given by the user may be missing")
        if em is not None and em[0] == "not":
            A.bad(FILES, s.where, "the path may be missing when the user named it, and only then")
        A.ok(FILES, s.where)
    no = [z(fld("negate"), True, "not negated", "negate"), z(fld("indexList"), True, "not given", "indexList")]
    path = v.escape([entryOf(v).gid], [s.gid for s in main], [], no)
    if path is not None:
        A.bad(FILES, main[0].where, "a configuration file is read although it was switched off", path[-14:])
    sort = v.calls("strLstSort")
    for s in sort:
        if num(s.args[1]) != A.prog.enum("sortOrderAsc"):
            A.bad(FILES, s.where, "the files are not read in order of their names")
    if v.escape([s.gid for s in lists], [s.gid for s in inc], [s.gid for s in sort], []) is not None:
        A.bad(FILES, inc[0].where, "the files are read in no particular order")
    get = [s for s in v.calls("storageGet") if hasCall(s.args[0], "storageList")]
    add = [s for s in v.calls("strCat", "strCatBuf", "strCatZ") if hasCall(s.args[1], "storageList")]
    ok = [s for s in v.calls("iniValid") if hasCall(s.args[0], "storageList")]
    empty = [z(call("storageGet"), True, "missing", "storageGet"), z(call("bufUsed"), True, "empty", "bufUsed"), lit("empty", lambda a, pol: a[0] == "lt" and hasCall(a, "bufUsed") and pol is (a[1] != ("int", 0)), "bufUsed")]
    if not get or v.escape([s.gid for s in get], [exitOf(v).gid] + [s.gid for s in get], [s.gid for s in add], empty) is not None:
        A.bad(FILES, inc[0].where, "a file of the configuration is left out")
    if add and v.escape([s.gid for s in get], [s.gid for s in add], [s.gid for s in ok], []) is not None:
        A.bad(FILES, add[0].where, "a file that is not valid is joined with the others")
    more = [s for s in inc if not any(a[0] == "lt" and pol is True and (hasCall(a[2], "strLstSize")) for a, pol in s.conds)]
    for s in more:
        if not any(hasCall(a, "strLstSize") for a, pol in s.conds):
            A.bad(FILES, s.where, "not all files are read")
    A.ok(FILES, inc[0].where)
