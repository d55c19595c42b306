"""Recovery settings are those of the restore: old targets are disabled, the new ones are written completely."""
from flow import LitFn, has
from lib import View, callOf, follow, hasCall, hasField, mentionsField, precede, strHas
from graph import fmt, walkTerm
from C16 import call

ASSUME = ["PostgreSQL reads postgresql.auto.conf, recovery.conf and the signal files as documented"]
TARGETS = ("recovery_target", "recovery_target_action", "recovery_target_inclusive", "recovery_target_lsn", "recovery_target_name", "recovery_target_time", "recovery_target_timeline", "recovery_target_xid")


def p_files(A):
    fn = "restoreRecoveryWrite"
    e = A.prog.enum
    T = {n: e("CFGOPTVAL_RESTORE_TYPE_" + n) for n in ("PRESERVE", "NONE", "STANDBY", "DEFAULT", "IMMEDIATE")}

    def ty(n, val):
        def pred(a, pol):
            if a[0] != "eq" or not hasCall(a[1], "cfgOptionSeq") or ("int", e("cfgOptType")) not in list(walkTerm(a[1])) or a[2][0] != "int":
                return False
            x = int(a[2][1])
            return (pol is True and x == T[n]) if val else (pol is False and x == T[n] or pol is True and x != T[n])
        return LitFn(pred, {"cfgOptionSeq"}, ("" if val else "not ") + n.lower())
    GUC = ("int", e("PG_VERSION_12"))       # recovery settings are in postgresql.auto.conf from this version on
    put = lambda w: ("storagePut()", lambda c: strHas(c.arg(0), w))
    f = A.flow(fn, {"auto": put("postgresql.auto.conf"), "conf": put("recovery.conf"), "rsig": put("recovery.signal"), "ssig": put("standby.signal"), "opt": "kvKeyList(~kvNew())|cfgExecParam()"},
               {"preserve": ty("PRESERVE", 1), "notPreserve": ty("PRESERVE", 0), "none": ty("NONE", 1), "notNone": ty("NONE", 0), "standby": ty("STANDBY", 1), "notStandby": ty("STANDBY", 0),
                "guc": LitFn(lambda a, pol: a[0] == "lt" and mentionsField(a[1], "pgVersion") and a[2] == GUC and pol is False, {"pgVersion"}, "version with settings in postgresql.auto.conf"),
                "old": LitFn(lambda a, pol: a[0] == "lt" and mentionsField(a[1], "pgVersion") and a[2] == GUC and pol is True, {"pgVersion"}, "version with recovery.conf")},
               noInline=("restoreRecoveryConf", "restoreRecoveryOption"), small=1)
    R = "the files of the version and type of recovery are written"
    for lab in ("auto", "conf", "rsig", "ssig"):
        A.guard(f, lab, ["notPreserve"], "preserved recovery settings are not touched")
    A.guard(f, "conf", ["old", "notNone"], R)
    A.guard(f, "auto", ["guc"], R)
    A.guard(f, "rsig", ["notNone", "notStandby", "guc"], R)
    A.guard(f, "ssig", ["standby", "guc"], R)
    A.must(f, ["preserve", "none", "conf", lambda st: has(st, "auto") and (has(st, "rsig") or has(st, "ssig"))], R)
    A.must(f, ["preserve", "auto", "old"], R)
    A.must(f, lambda st: not (has(st, "rsig") and has(st, "ssig")), R)


def p_auto(A):
    fn = "restoreRecoveryWriteAutoConf"
    v = View(A, fn)
    R = "recovery targets of an earlier restore are disabled"
    rx = v.calls("regExpNew")
    txt = "".join(x[1] for s in rx for x in walkTerm(s.args[0]) if x[0] == "str")
    names = set(txt.replace("(", "|").replace(")", "|").split("|"))
    miss = [t for t in TARGETS if t not in names]
    if not rx:
        A.bad(R, A.loc(fn), "no setting is looked for")
    elif miss:
        A.bad(R, rx[0].where, "%s is not disabled" % ", ".join(miss))
    A.ok(R, A.loc(fn), len(TARGETS))
    g = [s for s in v.calls("strLstGet") if any(hasCall(s.args[0], n) for n in ("strLstNewSplit", "strLstNewSplitZ"))]
    mark = [s for s in v.calls("strCatFmt", "strCatZ") if strHas(s.args[1], "# Removed by")]
    cats = [s for s in v.calls("strCat") if hasCall(s.args[1], "strLstGet")]
    follow(A, v, g, mark, R, "a line with a recovery target is kept active", skip=[call("regExpMatch", 0)])
    follow(A, v, g, cats, "other settings are kept", "a line of postgresql.auto.conf is dropped")
    for s in mark:
        if not s.under(call("regExpMatch", 1)):
            A.bad("other settings are kept", s.where, "settings that are no recovery target are disabled")
        if v.escape([c.gid for c in cats], [s.gid], [x.gid for x in g], []) is not None:
            A.bad(R, s.where, "the mark comes after the setting")
        A.ok(R, s.where)
    R = "the settings of this restore are written"
    put = [s for s in v.calls("storagePut") if strHas(s.args[0], "postgresql.auto.conf")]
    conf = [s for s in v.calls("strCat") if hasCall(s.args[1], "kvNew", "strNew", "restoreRecoveryConf") and s not in cats]
    none = LitFn(lambda a, pol: a[0] == "eq" and pol is True and hasCall(a[1], "cfgOptionSeq") and a[2] == ("int", A.prog.enum("CFGOPTVAL_RESTORE_TYPE_NONE")), {"cfgOptionSeq"}, "no recovery")
    precede(A, v, conf, put, R, "postgresql.auto.conf is written without recovery settings", [none])


def p_options(A):
    fn = "restoreRecoveryOption"
    e = A.prog.enum
    T = {n: e("CFGOPTVAL_RESTORE_TYPE_" + n) for n in ("IMMEDIATE", "STANDBY", "DEFAULT")}

    def is_(n):
        return LitFn(lambda a, pol: a[0] == "eq" and pol is True and hasCall(a[1], "cfgOptionSeq") and ("int", e("cfgOptType")) in list(walkTerm(a[1])) and a[2] == ("int", T[n]), {"cfgOptionSeq"}, n.lower())
    kv = lambda w: ("kvPut()", lambda c: strHas(c.arg(1), w) and not any(x[0] == "str" and x[1].startswith(w + "_") and x[1] != w + "_%s" for x in walkTerm(c.arg(1))))
    tgt = lambda o: lambda c: ("int", e(o)) in list(walkTerm(c.arg(2)))
    f = A.flow(fn, {"cmd": kv("restore_command"), "target": ("kvPut()", tgt("cfgOptTarget")), "imm": ("kvPut()", lambda c: any(x == ("str", "recovery_target") for x in walkTerm(c.arg(1)))),
                    "excl": kv("recovery_target_inclusive"), "action": kv("recovery_target_action"), "tl": kv("recovery_target_timeline"), "archive": kv("archive_mode"), "stby": kv("standby_mode")},
               {"own": call("strLstExists", 1), "immT": is_("IMMEDIATE"), "stbyT": is_("STANDBY"), "defT": is_("DEFAULT"),
                "noExcl": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "cfgOptionTest", "cfgOptionBool") and ("int", e("cfgOptTargetExclusive")) in list(walkTerm(a[1])), {"cfgOptionTest", "cfgOptionBool"}, "inclusive"),
                "noAct": LitFn(lambda a, pol: pol is True and a[0] == "eq" and (hasCall(a[1], "cfgOptionTest") and a[2] == ("int", 0) and ("int", e("cfgOptTargetAction")) in list(walkTerm(a[1])) or
                                                                               hasCall(a[1], "cfgOptionStrId") and a[2] == ("int", e("CFGOPTVAL_TARGET_ACTION_PAUSE")) and ("int", e("cfgOptTargetAction")) in list(walkTerm(a[1]))), {"cfgOptionTest", "cfgOptionStrId"}, "default action"),
                "noTl": LitFn(lambda a, pol: pol is True and a[0] == "eq" and a[2] == ("int", 0) and hasCall(a[1], "cfgOptionTest") and ("int", e("cfgOptTargetTimeline")) in list(walkTerm(a[1])), {"cfgOptionTest"}, "no timeline"),
                "curTl": call("strEq", 1),
                "keepArch": LitFn(lambda a, pol: pol is True and a[0] == "eq" and hasCall(a[1], "cfgOptionSeq") and a[2] == ("int", e("CFGOPTVAL_ARCHIVE_MODE_PRESERVE")) and ("int", e("cfgOptArchiveMode")) in list(walkTerm(a[1])), {"cfgOptionSeq"}, "archive mode preserved"),
                "before12": LitFn(lambda a, pol: pol is True and a[0] == "lt" and a[1] == ("p", 0) and a[2] == ("int", e("PG_VERSION_12")), set(), "before version 12")}, small=1)
    R = "the settings of the options are written"
    A.must(f, ["cmd", "own"], R)
    A.must(f, ["target", "imm", "stbyT", "defT"], R)
    A.must(f, ["imm"], R, when="immT")
    A.guard(f, "target", [lambda st: not (has(st, "immT") or has(st, "stbyT") or has(st, "defT"))], R)
    A.must(f, ["excl", "noExcl", "imm", "stbyT", "defT"], R)
    A.must(f, ["action", "noAct"], R)
    A.must(f, ["tl", "noTl", "curTl"], R)
    A.must(f, ["archive", "keepArch"], R)
    A.must(f, [lambda st: not has(st, "immT") or has(st, "imm") and (has(st, "tl") or has(st, "before12") or not has(st, "noTl"))], R)
    v = View(A, "restoreRecoveryConf")
    R = "every setting is written"
    g = v.calls("varLstGet")
    w = [s for s in v.calls("strCatFmt") if strHas(s.args[1], "%s = '%s'")]
    follow(A, v, g, w, R, "a setting is left out")
