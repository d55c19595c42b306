"""archive-push never replaces archived WAL by different content and never archives WAL of another cluster."""
import C33
from flow import has
from lib import View, callOf, hasCall

ASSUME = ["the header values come from the WAL file and control file readers", "the checksum of a stored segment is part of its name"]


def p_main(A):
    f = A.flow(
        "archivePushFile",
        {"new": "storageNewWrite(~storageRepoIdxWrite())", "sum": "cryptoHashNew(@hashTypeSha1)", "drain": "ioReadDrain()", "find": "walSegmentFindOne()",
         "named": "strCatFmt|strCat|strCatZ(_, _, ~ioFilterGroupResult())"},
        {"noHdr": "!#1", "notSeg": "!walIsSegment(#5)", "seg": "walIsSegment(#5)", "missing": "walSegmentFindOne() == 0", "found": "walSegmentFindOne() != 0",
         "ver": "~pgWalFromFile().version == #3", "sys": "~pgWalFromFile().systemId == #4", "same": "strEq(~walSegmentFindOne(), ~ioFilterGroupResult())",
         "same2": "strEq(~ioFilterGroupResult(), ~walSegmentFindOne())", "diff": ["!strEq(~walSegmentFindOne())", "!strEq(_, ~walSegmentFindOne())"]},
        once=True)
    A.guard(f, "new", [["noHdr", "notSeg", "ver"]], "WAL whose header names another PostgreSQL version is not archived")
    A.guard(f, "new", [["noHdr", "notSeg", "sys"]], "WAL whose header names another cluster is not archived")
    A.guard(f, "new", [["notSeg", "missing"]], "a segment is written only where no copy of it exists")
    A.guard(f, "new", [["notSeg", "find"]], "each repository is searched for the segment before it is written")
    A.guard(f, "new", [["notSeg", lambda st: has(st, "sum") and has(st, "drain") and has(st, "named")]], "an archived segment's name carries the checksum of its whole content")
    A.must(f, lambda st: not has(st, "found") or has(st, "same") or has(st, "same2"),
           "a push of a segment that exists with another checksum fails")
    A.must(f, lambda st: not has(st, "diff"), "a push of a segment that exists with another checksum fails")

    for entry in ("cmdArchivePush", "cmdArchivePushAsync"):
        f = A.flow(
            entry,
            {"repoAdd": "lstAdd(~lstNew())", "ctl": "pgControlFromFile(storagePg())", "push": "archivePushFile()", "job": "protocolParallelNew()", "info": "infoArchiveLoadFile()",
             "cur": "infoPgDataCurrentId()"},
            {"pgSet": "cfgOptionTest(@cfgOptPgPath)", "noPg": "!cfgOptionTest(@cfgOptPgPath)", "ver": ".version == _", "sys": ".systemId == _", "first": "_ == 0",
             "some": "lstSize() > 0"},
            once=True, trackArgs={"lstAdd": None})
        A.guard(f, "repoAdd", ["info", "cur"], "a repository is used only after its archive info was loaded")
        A.guard(f, "repoAdd", [["noPg", "ver"]], "a repository whose current history has another PostgreSQL version is not used")
        A.guard(f, "repoAdd", [["noPg", "sys"]], "a repository whose current history is of another cluster is not used")
        A.guard(f, "repoAdd", [["noPg", "ctl"]], "the cluster's identity comes from its control file when it is available")
        A.guard(f, "push" if entry == "cmdArchivePush" else "job", ["some"], "with no valid repository the command fails")
        if entry == "cmdArchivePush":
            A.argIs(f, "push", 1, "cfgOptionBool(@cfgOptArchiveHeaderCheck)", "the header check follows its option", "the archive-header-check option")


def p_async(A):
    """What the asynchronous command decided reaches the processes that push."""
    C33.part("archivePushAsyncCallback", "archivePushFileProtocol")(A)


def elems(t, field):
    """The list elements a field is taken from."""
    out = set()
    if isinstance(t, tuple) and t:
        if t[0] == "fld" and t[2] == field:
            out.add(t[1])
        for x in t:
            if isinstance(x, tuple):
                out |= elems(x, field)
    return out


def p_same(A):
    """Each repository is searched, and written, under its own archive id."""
    rule = "each repository is searched under its own archive id"
    v = View(A, "archivePushFile")
    n = 0
    for s in v.calls("walSegmentFindOne", "storageNewWrite"):
        r, a = elems(s.args[0], "repoIdx"), elems(s.args[1], "archiveId")
        if not r or not a:
            continue
        n += 1
        if not r & a:
            A.bad(rule, s.where, "the archive id is not the one of the repository")
        A.ok(rule, s.where)
    if n < 2:
        A.unsure("archivePushFile: repositories and archive ids were not found")
    rule = "the cluster's identity is compared with the current history of the repository"
    n = 0
    for entry in ("cmdArchivePush", "cmdArchivePushAsync"):
        v = View(A, entry, noInline=("infoPgData", "infoPgDataCurrentId", "infoPgDataCurrent"))
        for s in v.calls("infoPgData"):
            if not hasCall(s.args[0], "infoArchivePg"):
                continue
            n += 1
            if not hasCall(s.args[1], "infoPgDataCurrentId"):
                A.bad(rule, s.where, "a history entry is used that need not be the current one")
            A.ok(rule, s.where)
    if not n:
        A.unsure("no history entry is read")
