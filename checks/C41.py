"""Block incremental: every block is either stored in this backup or known to be the same as in a prior one, and can be found again."""
from C38 import bound
from C40 import call, cases, fld, lit, num, z
from graph import fmt, walkTerm
from lib import Site, View, callOf, entryOf, exitOf, hasCall, implies, mentionsField, structArg

ASSUME = ["two blocks with the same checksum of the configured size are the same block", "the filters deliver to the buffer all that was written to them when they are closed"]

EVERY = "every block gets exactly one entry in the map"
PRIOR = "a block of a prior backup is referred to only when the checksum at the same place is the same"
STORED = "a block that is new or changed is stored before it is dropped"
PLACE = "the map says where each block was stored"
SUPER = "the size of a super block is set in all its entries"
FILTER = "super blocks are compressed, then encrypted, then measured"
MAP = "the map is written after the blocks when anything changed"
OUT = "what was produced is handed on completely before it is dropped"
IN = "the input is consumed completely and once"
NEED = "every block that differs from the file in place is read"
CHUNK = "reads and super blocks follow the map"
FIND = "a block is written where the map says"
NEXT = "a super block is read to its end before the next one"
PAIR = "the map is read the way it was written"
SUM = "every block of the file in place is checksummed"


def steps(v, rec, field):
    """Changes of a field: (kind, value, site), kind set / add / other."""
    out = []
    g = v.g
    for inst in g.insts:
        for p in inst.fn.pts():
            if p.tries is None or p.kind not in ("as", "opas", "inc"):
                continue
            e = p.data[{"as": 2, "opas": 3, "inc": 4}[p.kind]]
            if e[0] != "m" or e[2] != field or rec is not None and e[3] != rec:
                continue
            r = v.o.rank(g.gid(inst, p.idx))
            if r is None:
                continue
            if p.kind == "inc":
                k, val = "add" if p.data[2] == "++" else "other", ("int", 1)
            else:
                val = g.ev(inst, p.data[3] if p.kind == "as" else p.data[4], p.idx)
                k = "set" if p.kind == "as" else "add" if p.data[2] in ("+", "+=") else "other"
                if k == "set" and val[0] == "op" and val[1] == "+":
                    for x, y in ((val[2], val[3]), (val[3], val[2])):
                        if fld(field)(x):
                            k, val = "add", y
                            break
            out.append((k, val, Site(v, g.where(g.gid(inst, p.idx)), field, [val], inst, p, r)))
    return out


def way(A, v, rule, what, src, dst, skip, through=(), at=None):
    """Violation when there is a way from src to dst that avoids through and the branches of skip."""
    if not src or not dst:
        A.unsure("%s: anchor of '%s' not found" % (v.entry, what), rule)
        return
    path = v.escape([s.gid for s in src], [d.gid for d in dst], [t.gid for t in through], skip)
    if path is not None:
        A.bad(rule, at or src[0].where, what, path[-14:])
    A.ok(rule, at or src[0].where)


def can(v, a, b, through=()):
    return v.escape([a.gid], [b.gid], [t.gid for t in through], []) is not None


def first(t, f):
    return any(f(x) for x in cases(t))


def isArg(n):
    return lambda t: t == ("param", n) or t[0] in ("param", "arg") and t[1] == n or fmt(t) == "param%d" % n


def used(what):
    return call("bufUsed", what)


def ltLit(x, y, want, text, *words):
    """x < y, whichever way it is written."""
    def f(a, pol):
        return a[0] == "lt" and (x(a[1]) and y(a[2]) and pol is want)
    return lit(text, f, "lt", *words)


BLOCK = fld("block", lambda t: fmt(t) == "param0")
OUTB = fld("blockOut")


def incr(A):
    if not hasattr(A, "_c41"):
        A._c41 = View(A, "blockIncrProcess", noInline=("blockMapAdd", "blockMapGet", "blockMapSize", "blockMapWrite", "xxHashOne"))
    return A._c41


DONE = z(isArg(1), True, "the input is done")
NOTDONE = z(isArg(1), False, "the input is not done")


def anyFull(a, pol):
    return a[0] == "eq" and pol is True and any(used(BLOCK)(x) and fld("blockSize")(y) for x, y in ((a[1], a[2]), (a[2], a[1])))


FULL = lit("the block is full", anyFull, "bufUsed")


def p_blocks(A):
    v = incr(A)
    h = [s for s in v.calls("xxHashOne")]
    if not h:
        A.unsure("blockIncrProcess: no checksum", EVERY)
        return
    out, start = exitOf(v), entryOf(v)
    for s in h:
        if not (fld("checksumSize")(s.args[0]) and BLOCK(s.args[1])):
            A.bad(EVERY, s.where, "the checksum is not the one of the block with the size of the map")
    way(A, v, EVERY, "a block is finished before it is full or the input ends", [start], h, [FULL, DONE])
    empty = z(used(BLOCK), False, "the block is not empty", "bufUsed")
    way(A, v, EVERY, "an empty block gets an entry", [start], h, [FULL, empty])
    way(A, v, EVERY, "the last block is dropped", [start], [out], [NOTDONE, lit("the block is empty", lambda a, pol: a[0] == "eq" and pol is True and used(BLOCK)(a[1]) and a[2] == ("int", 0) or a[0] == "lt" and pol is False and a[1] == ("int", 0) and used(BLOCK)(a[2]), "bufUsed")], h)
    way(A, v, EVERY, "a full block is left waiting", [s for s in v.calls("bufCatSub") if BLOCK(s.args[0])], [out],
        [lit("the block is not full", lambda a, pol: a[0] == "eq" and pol is False and (used(BLOCK)(a[1]) and fld("blockSize")(a[2]) or used(BLOCK)(a[2]) and fld("blockSize")(a[1])), "bufUsed")], h)
    add = v.calls("blockMapAdd")
    for s in add:
        if not fld("blockMapOut")(s.args[0]):
            A.bad(EVERY, s.where, "the entry is added to another map")
    way(A, v, EVERY, "a block gets no entry", h, [out] + h, [], add)
    for s in add:
        for d in add:
            if can(v, s, d, h):
                A.bad(EVERY, d.where, "a block gets two entries")
    zero = [s for s in v.calls("bufUsedZero") if BLOCK(s.args[0])]
    feed = [s for s in v.calls("bufCatSub") if BLOCK(s.args[0])]
    way(A, v, EVERY, "the block is not cleared for the next one", h, [out] + h + feed, [], zero)
    way(A, v, STORED, "a block is cleared before its checksum was taken", feed + [start], zero, [], h)
    no = [s for k, val, s in steps(v, "BlockIncr", "blockNo") if k == "add" and num(val) == 1]
    other = [s for k, val, s in steps(v, "BlockIncr", "blockNo") if not (k == "add" and num(val) == 1)]
    for s in other:
        A.bad(PRIOR, s.where, "the number of the block is not counted up by one")
    way(A, v, PRIOR, "the blocks are not counted", h, [out] + h, [], no)
    for s in no:
        for d in no:
            if can(v, s, d, h):
                A.bad(PRIOR, d.where, "a block is counted twice")
    # Use of the prior map
    get = [s for s in v.calls("blockMapGet") if fld("blockMapPrior")(s.args[0])]
    for s in get:
        if not fld("blockNo")(s.args[1]):
            A.bad(PRIOR, s.where, "the block is compared with another one of the prior map")
        if not s.under(ltLit(fld("blockNo"), call("blockMapSize", fld("blockMapPrior")), True, "the prior map has the block", "blockMapSize")):
            A.bad(PRIOR, s.where, "a block beyond the prior map is read")
        A.ok(PRIOR, s.where)

    def prior(t):
        return any(x[0] == "call" and x[1] == "blockMapGet" and fld("blockMapPrior")(x[2][0]) for x in walkTerm(t))

    def sameSum(a, pol):
        if a[0] != "eq" or a[2] != ("int", 0) or pol is not True or a[1][0] != "call" or a[1][1] != "memcmp":
            return False
        x = a[1][2]
        return any(prior(i) and hasCall(j, "xxHashOne") for i, j in ((x[0], x[1]), (x[1], x[0]))) and (fld("checksumSize")(x[2]) or used(lambda t: hasCall(t, "xxHashOne"))(x[2]))
    same = lit("the checksum is the same", sameSum, "memcmp")
    new = []
    for s in add:
        if prior(s.args[1]):
            if not s.under(same):
                A.bad(PRIOR, s.where, "a block of a prior backup is used without the same checksum")
            A.ok(PRIOR, s.where)
        else:
            new.append(s)
    for s in v.calls("memcmp"):
        if prior(s.args[0]) or prior(s.args[1]):
            if not (mentionsField(s.args[0], "checksum") or mentionsField(s.args[1], "checksum")):
                A.bad(PRIOR, s.where, "it is not the checksum of the prior entry that is compared")
    # New blocks are stored
    copy = [s for s in v.calls("ioCopy") if hasCall(s.args[0], "ioBufferReadNewOpen", "ioBufferReadNew") and any(BLOCK(x[2][0]) for x in walkTerm(s.args[0]) if x[0] == "call" and x[1] in ("ioBufferReadNewOpen", "ioBufferReadNew"))]
    for s in copy:
        if not any(fld("blockOutWrite")(x) or x[0] == "call" and x[1] == "ioBufferWriteNew" and OUTB(x[2][0]) for x in cases(s.args[1])):
            A.bad(STORED, s.where, "the block is written somewhere else")
    way(A, v, STORED, "a changed block is not stored", h, [out] + h + zero, [same], copy)
    way(A, v, STORED, "an unchanged block is not told apart from one that was stored", copy, [s for s in add if s not in new], [], h)
    way(A, v, PLACE, "an entry is made for a block that is not stored", h, new, [], copy) if False else None
    size = [s for k, val, s in steps(v, "BlockIncr", "blockOutSize") if k == "add" and used(BLOCK)(val)]
    for k, val, s in steps(v, "BlockIncr", "blockOutSize"):
        if k == "add" and not used(BLOCK)(val) or k == "other" or k == "set" and num(val) != 0:
            A.bad(SUPER, s.where, "the size of the super block is counted with %s" % fmt(val)[:60])
    way(A, v, SUPER, "a block is not counted in the size of the super block", h, [out] + h, [same], size)
    for zs in zero:
        for s in size:
            if can(v, zs, s, h):
                A.bad(SUPER, s.where, "the size of the block is taken after it was cleared")
    # Entry of a new block
    want = {"reference": "reference", "bundleId": "bundleId", "offset": "blockOffset", "block": "superBlockNo"}
    for f, src in want.items():
        ss = v.inits("BlockMapItem", f)
        if not ss:
            A.bad(PLACE, new[0].where if new else A.loc("blockIncrProcess"), "the entry of a new block has no %s" % f)
        for s in ss:
            if not (fld(src)(s.args[0])):
                A.bad(PLACE, s.where, "%s of the entry is %s" % (f, fmt(s.args[0])[:60]))
            A.ok(PLACE, s.where)
    sums = [s for s in v.calls("memcpy") if hasCall(s.args[1], "xxHashOne")]
    for s in sums:
        if not (used(lambda t: hasCall(t, "xxHashOne"))(s.args[2]) or fld("checksumSize")(s.args[2])):
            A.bad(PLACE, s.where, "only a part of the checksum is recorded")
    way(A, v, PLACE, "the entry of a new block has no checksum", h, new, [], sums)
    idx = [s for s in v.calls("lstAdd") if any(fld("blockOutList")(x) or x[0] == "call" and x[1] == "lstNew" for x in cases(s.args[0]))]
    way(A, v, SUPER, "the entry of a new block is not remembered for the size of the super block", new, [out] + h, [], [x for x in idx if any(can(v, n, x, h) for n in new)]) if not any(can(v, x, n, h) for x in idx for n in new) else None
    for x in idx:
        t = x.args[1]
        if t[0] == "addr" and t[1][0] == "var":
            for d in v.defs(x.inst, t[1][2]):
                if d.args[0] is not None and d.args[0][0] == "call":
                    if not (d.args[0][1] == "blockMapSize" and fld("blockMapOut")(d.args[0][2][0])):
                        A.bad(SUPER, d.where, "the place of the entry is %s" % fmt(d.args[0])[:60])
                    for n in new:
                        if can(v, n, d, h):
                            A.bad(SUPER, d.where, "the place of the entry is taken after it was added")
                    A.ok(SUPER, d.where)
    sno = [s for k, val, s in steps(v, "BlockIncr", "superBlockNo") if k == "add" and num(val) == 1]
    way(A, v, PLACE, "the blocks of a super block are not counted", h, [out] + h, [same], sno)
    for s in sno:
        for d in sno:
            if can(v, s, d, h):
                A.bad(PLACE, d.where, "a block of a super block is counted twice")


def isSizeResult(t):
    return any(x[0] == "call" and x[1] == "pckReadU64" and hasCall(x, "ioFilterGroupResult") for x in cases(t))


def p_super(A):
    v = incr(A)
    out = exitOf(v)
    W = fld("blockOutWrite")
    close = [s for s in v.calls("ioWriteClose") if W(s.args[0])]
    copy = v.calls("ioCopy")
    if not close or not copy:
        A.unsure("blockIncrProcess: super block not found", SUPER)
        return
    noWrite = z(W, True, "there is no super block", "blockOutWrite")
    small = ltLit(fld("blockOutSize"), fld("superBlockSize"), True, "the super block is not full", "superBlockSize")
    way(A, v, SUPER, "a full super block is not finished", copy, [out], [noWrite, small], close)
    way(A, v, SUPER, "the last super block is not finished", copy, [out], [noWrite, NOTDONE], close)
    way(A, v, SUPER, "a super block is finished too early", [entryOf(v)], close, [DONE, ltLit(fld("blockOutSize"), fld("superBlockSize"), False, "full", "superBlockSize")])
    res = [s for s in v.calls("ioFilterGroupResult") if True]
    way(A, v, SUPER, "the size is asked for before the super block is finished", copy, res, [], close)
    more, none = bound(lambda t: t[0] == "call" and t[1] == "lstSize" and any(fld("blockOutList")(x) or x[0] == "call" and x[1] == "lstNew" for x in cases(t[2][0])))
    free = [s for s in v.calls("lstFree", "lstClear")]
    for f, pred, txt in (("size", isSizeResult, "size in the repository"), ("superBlockSize", fld("blockOutSize"), "size of its data")):
        ss = [s for s in v.assigns("BlockMapItem", f)]
        for s in ss:
            if not pred(s.args[0]):
                A.bad(SUPER, s.where, "the %s is set to %s" % (txt, fmt(s.args[0])[:60]))
        way(A, v, SUPER, "an entry of the super block does not get the %s" % txt, close, [out] + free, [lit("all entries", none, "lstSize")], ss)
        for a in ss:
            way(A, v, SUPER, "an entry of the super block does not get the %s" % txt, [g for g in v.calls("lstGet") if any(x[0] == "call" and x[1] == "lstSize" or True for x in [g.args[0]])], [g for g in v.calls("lstGet")] + [out], [], [a])
    for g in v.calls("lstGet"):
        c = [x for x in walkTerm(g.args[1]) if x[0] == "int"]
        if any(num(x) not in (0, 1) for x in c):
            A.bad(SUPER, g.where, "not all entries of the super block are visited")
    for g in v.calls("blockMapGet"):
        if hasCall(g.args[1], "lstGet") and not fld("blockMapOut")(g.args[0]):
            A.bad(SUPER, g.where, "the size is set in another map")
    for f, ok, txt in (("blockOffset", lambda k, t: k == "add" and isSizeResult(t), "the offset is not advanced by the size of the super block"),
                       ("blockOutSize", lambda k, t: k == "set" and num(t) == 0, "the size of the next super block does not start at zero"),
                       ("superBlockNo", lambda k, t: k == "set" and num(t) == 0, "the blocks of the next super block do not start at zero"),
                       ("blockOutWrite", lambda k, t: k == "set" and num(t) == 0, "the finished super block is written to"),
                       ("blockMapWrite", lambda k, t: k == "set" and num(t) == 1, "the map is not marked as changed")):
        good = [s for k, t, s in steps(v, "BlockIncr", f) if ok(k, t)]
        way(A, v, {"blockOffset": PLACE, "blockMapWrite": MAP, "superBlockNo": PLACE}.get(f, SUPER), txt, close, [out] + copy, [], good)
        if f == "blockOffset":
            for k, t, s in steps(v, "BlockIncr", f):
                if not ok(k, t):
                    A.bad(PLACE, s.where, "the offset is changed by %s" % fmt(t)[:60])
                for s2 in good:
                    if can(v, s2, s, close):
                        A.bad(PLACE, s.where, "the offset is advanced twice")
    for k, t, s in steps(v, "BlockIncr", "blockMapWrite"):
        if num(t) != 1:
            A.bad(MAP, s.where, "the map is marked as unchanged")
    # Filters
    begin = [s for k, t, s in steps(v, "BlockIncr", "blockOutWrite") if k == "set" and hasCall(t, "ioBufferWriteNew")]
    adds = v.calls("ioFilterGroupAdd")

    def kind(*n):
        return [s for s in adds if s.args[1][0] in ("call",) and s.args[1][1] in n]
    comp, enc, siz = kind("compressFilterPack", "compressFilter"), kind("cipherBlockNewPack", "cipherBlockNew"), kind("ioSizeNew")
    way(A, v, FILTER, "blocks are not compressed", begin, copy, [z(fld("compressParam"), True, "no compression", "compressParam")], comp)
    way(A, v, FILTER, "blocks are not encrypted", begin, copy, [z(fld("encryptParam"), True, "no encryption", "encryptParam")], enc)
    way(A, v, FILTER, "the size of the super block is not measured", begin, copy, [], siz)
    for a, b, txt in ((enc, comp, "blocks are encrypted before they are compressed"), (siz, comp, "the size is measured before compression"), (siz, enc, "the size is measured before encryption")):
        for x in a:
            for y in b:
                if can(v, x, y, begin + v.calls("ioBufferWriteNew")):
                    A.bad(FILTER, x.where, txt)
    for s in adds:
        if not hasCall(s.args[0], "ioWriteFilterGroup"):
            A.bad(FILTER, s.where, "the filter is added somewhere else")
        A.ok(FILTER, s.where)


def p_map(A):
    v = incr(A)
    out = exitOf(v)
    m = v.calls("blockMapWrite")
    if not m:
        A.unsure("blockIncrProcess: the map is not written", MAP)
        return
    offZero = z(fld("blockOutOffset"), True, "nothing is being handed on", "blockOutOffset")
    offSet = z(fld("blockOutOffset"), False, "something is being handed on", "blockOutOffset")
    mark = z(fld("blockMapWrite"), True, "unchanged", "blockMapWrite")
    for s in m:
        if not s.under(DONE):
            A.bad(MAP, s.where, "the map is written before the input ends")
        if not s.under(offZero):
            A.bad(MAP, s.where, "the map is written again while it is handed on")
        if not (fld("blockMapOut")(s.args[0]) and fld("blockSize")(s.args[2]) and fld("checksumSize")(s.args[3]) and hasCall(s.args[1], "ioBufferWriteNew") and any(OUTB(x[2][0]) for x in walkTerm(s.args[1]) if x[0] == "call" and x[1] == "ioBufferWriteNew")):
            A.bad(MAP, s.where, "another map is written, or to another place")
        if s.args and any(can(v, s, c) for c in v.calls("ioCopy") if False):
            pass
    big = lit("not smaller", lambda a, pol: a[0] == "lt" and pol is False and call("blockMapSize", fld("blockMapOut"))(a[1]) and call("blockMapSize", fld("blockMapPrior"))(a[2]), "blockMapSize")
    way(A, v, MAP, "the map is not written though blocks changed", [entryOf(v)], [out], [NOTDONE, offSet, mark], m)
    way(A, v, MAP, "the map is not written though the file shrank", [entryOf(v)], [out], [NOTDONE, offSet, z(fld("blockMapPrior"), True, "no prior map", "blockMapPrior"), big], m)
    close = [s for s in v.calls("ioWriteClose") if s.args[0] == m[0].args[1]]
    way(A, v, MAP, "the map is not finished", m, [out], [], close)
    way(A, v, FILTER, "the map is not encrypted", v.calls("ioBufferWriteNew"), m, [z(fld("encryptParam"), True, "no encryption", "encryptParam")], [s for s in v.calls("ioFilterGroupAdd") if hasCall(s.args[1], "cipherBlockNewPack", "cipherBlockNew") and s.args[0] == ("call",) + s.args[0][1:]])
    size = [(k, t, s) for k, t, s in steps(v, "BlockIncr", "blockMapOutSize")]
    u = [s for s in v.calls("bufUsed") if OUTB(s.args[0])]
    for k, t, s in size:
        if not (k == "set" and t[0] == "op" and t[1] == "-" and used(OUTB)(t[2]) and used(OUTB)(t[3])):
            A.bad(MAP, s.where, "the size of the map is %s" % fmt(t)[:80])
            continue
        if not any(can(v, x, m[0], [c for c in v.calls("ioCopy")] + [out]) and x.under(DONE) and x.rank < m[0].rank for x in u) or not any(can(v, c, x) and can(v, x, s) for c in close for x in u if x.rank > c.rank):
            A.bad(MAP, s.where, "the size of the map is not the difference before and after it was written")
        A.ok(MAP, s.where)
    way(A, v, MAP, "the size of the map is not recorded", m, [out], [], [s for k, t, s in size])
    r = View(A, "blockIncrResult")
    w = r.calls("pckWriteU64")
    if not any(fld("blockMapOutSize")(s.args[1]) for s in w):
        A.bad(MAP, A.loc("blockIncrResult"), "the size of the map is not reported")
    for s in w:
        if not fld("blockMapOutSize")(s.args[1]):
            A.bad(MAP, s.where, "the size of the map is reported as %s" % fmt(s.args[1])[:60])
        A.ok(MAP, s.where)


def p_out(A):
    v = incr(A)
    out = exitOf(v)
    cat = v.calls("bufCatSub", "bufCat")
    give = [s for s in cat if isArg(2)(s.args[0])]
    take = [s for s in cat if BLOCK(s.args[0])]
    if not give or not take or any(s.name != "bufCatSub" for s in give + take):
        A.unsure("blockIncrProcess: input or output not found", OUT)
        return
    W = fld("blockOutWrite")
    offs = steps(v, "BlockIncr", "blockOutOffset")
    same = steps(v, "BlockIncr", "inputSame")
    again = [s for k, t, s in same if num(t) == 1]
    zero = [s for s in v.calls("bufUsedZero") if OUTB(s.args[0])]
    rest = lambda t: t[0] == "op" and t[1] == "-" and used(OUTB)(t[2]) and fld("blockOutOffset")(t[3])
    room = call("bufRemains", isArg(2))
    for s in give:
        if not (OUTB(s.args[1]) and fld("blockOutOffset")(s.args[2])):
            A.bad(OUT, s.where, "not what comes next is handed on")
        if not s.under(z(W, True, "the super block is finished", "blockOutWrite")):
            A.bad(OUT, s.where, "a super block is handed on before it is finished")
        n = s.args[3]
        ends = [out] + [x for x in give if x is not s]
        if first(n, rest):
            if not s.under(ltLit(room, rest, False, "it fits", "bufRemains")):
                A.bad(OUT, s.where, "more is handed on than fits")
            way(A, v, OUT, "what was handed on is not dropped", [s], ends, [], zero)
            way(A, v, OUT, "the offset is not reset", [s], ends, [], [x for k, t, x in offs if k == "set" and num(t) == 0])
            way(A, v, IN, "the input that was not consumed is dropped", [s], ends, [], [x for k, t, x in same if mentionsField(t, "inputOffset") or hasCall(t, "bufRemains")])
        elif first(n, room):
            way(A, v, OUT, "the offset is not advanced", [s], [out] + give, [], [x for k, t, x in offs if k == "add" and first(t, room)])
            way(A, v, OUT, "the rest is not asked for", [s], [out] + give, [], again)
            for zs in zero:
                if can(v, s, zs, [x for x in give if x is not s]):
                    A.bad(OUT, zs.where, "what was handed on in part is dropped")
        else:
            A.bad(OUT, s.where, "the amount handed on is %s" % fmt(n)[:60])
        A.ok(OUT, s.where)
    way(A, v, OUT, "data is dropped that was not handed on", [entryOf(v)], zero, [], give)
    for k, t, s in offs:
        if not (k == "set" and num(t) == 0 or k == "add" and first(t, room)):
            A.bad(OUT, s.where, "the offset is changed by %s" % fmt(t)[:60])
    nothing = lit("nothing to hand on", lambda a, pol: a[0] == "eq" and pol is True and a[2] == ("int", 0) and first(a[1], rest) or a[0] == "lt" and a[1] == ("int", 0) and pol is False and first(a[2], rest) or a[0] == "eq" and pol is True and used(OUTB)(a[1]) and fld("blockOutOffset")(a[2]), "bufUsed")
    way(A, v, OUT, "what was produced is not handed on", [entryOf(v)], [out], [z(W, False, "the super block is not finished", "blockOutWrite"), nothing], give)
    # Input
    inRest = lambda t: t[0] == "op" and t[1] == "-" and used(isArg(1))(t[2]) and fld("inputOffset")(t[3])
    space = call("bufRemains", BLOCK)
    inOff = steps(v, "BlockIncr", "inputOffset")
    idle = z(fld("blockOutOffset"), True, "nothing is being handed on", "blockOutOffset")
    for s in take:
        if not (isArg(1)(s.args[1]) and fld("inputOffset")(s.args[2])):
            A.bad(IN, s.where, "not what comes next is consumed")
        if not s.under(idle):
            A.bad(IN, s.where, "input is consumed while output is handed on")
        n = s.args[3]
        if first(n, inRest):
            if not s.under(ltLit(space, inRest, False, "it fits", "bufRemains")):
                A.bad(IN, s.where, "more is consumed than fits")
            way(A, v, IN, "the input is consumed again", [s], [out] + take, [], [x for k, t, x in inOff if k == "set" and num(t) == 0])
            way(A, v, IN, "the input is asked for again", [s], [out] + take, [], [x for k, t, x in same])
        elif first(n, space):
            way(A, v, IN, "the consumed part is not remembered", [s], [out] + take, [], [x for k, t, x in inOff if k == "add" and first(t, space)])
            way(A, v, IN, "the rest of the input is not asked for", [s], [out] + take, [], again)
        else:
            A.bad(IN, s.where, "the amount consumed is %s" % fmt(n)[:60])
        A.ok(IN, s.where)
    way(A, v, IN, "input is not consumed", [entryOf(v)], [out], [DONE, z(fld("blockOutOffset"), False, "something is being handed on", "blockOutOffset")], take)
    for k, t, s in inOff:
        if not (k == "set" and num(t) == 0 or k == "add" and first(t, space)):
            A.bad(IN, s.where, "the consumed part is changed by %s" % fmt(t)[:60])
    for k, t, s in same:
        if num(t) == 0 and not any(can(v, x, s) for x in take if first(x.args[3], inRest)):
            A.bad(IN, s.where, "the rest of the input is dropped")
    # Answers of the filter
    for fn, need in (("blockIncrDone", ("done", "inputSame")), ("blockIncrInputSame", ("inputSame",))):
        if fn not in A.prog.fns:
            A.unsure("%s not found" % fn, OUT)
            continue
        r = View(A, fn)
        for inst in r.g.insts:
            for p in inst.fn.pts():
                if p.kind == "ret" and p.tries is not None and inst.parent is None and len(p.data) > 2 and p.data[2]:
                    t = r.g.ev(inst, p.data[2], p.idx)
                    for f in need:
                        if fn == "blockIncrDone" and f == "inputSame":
                            good = implies(t, True, [lambda a, pol: a[0] == "eq" and (fld(f)(a[1]) or fld("blockOutOffset")(a[1])) and a[2] == ("int", 0) and pol is True])
                        else:
                            good = fld(f)(t) or implies(t, True, [lambda a, pol: a[0] == "eq" and fld(f)(a[1]) and a[2] == ("int", 0) and pol is False])
                        if not good:
                            A.bad(OUT if fn == "blockIncrDone" else IN, A.loc(fn), "the answer does not depend on %s" % f)
                    A.ok(OUT, A.loc(fn))


def p_new(A):
    v = View(A, "blockIncrNew", noInline=("blockMapNewRead",))
    src = {"blockSize": 1, "checksumSize": 2, "reference": 3, "bundleId": 4, "blockOffset": 5}
    for f, n in src.items():
        ss = v.inits("BlockIncr", f)
        if not ss:
            A.bad(PLACE, A.loc("blockIncrNew"), "%s is not set" % f)
        for s in ss:
            if fmt(s.args[0]) != "param%d" % n:
                A.bad(PLACE, s.where, "%s is %s" % (f, fmt(s.args[0])[:60]))
            A.ok(PLACE, s.where)
    for s in v.inits("BlockIncr", "block"):
        if s.args[0][0] == "call" and s.args[0][1] == "bufNew" and fmt(s.args[0][2][0]) != "param1":
            A.bad(EVERY, s.where, "the block has another size")
    rd = v.calls("blockMapNewRead")
    for s in rd:
        if not (any(fmt(x) == "param6" for x in walkTerm(s.args[0])) and fmt(s.args[1]) == "param1" and fmt(s.args[2]) == "param2"):
            A.bad(PRIOR, s.where, "the prior map is read in another way")
        A.ok(PRIOR, s.where)
    way(A, v, FILTER, "compression is dropped", [entryOf(v)], [exitOf(v)], [z(isArg(7), True, "no compression")], v.assigns("BlockIncr", "compressParam"))
    way(A, v, FILTER, "encryption is dropped", [entryOf(v)], [exitOf(v)], [z(isArg(8), True, "no encryption")], v.assigns("BlockIncr", "encryptParam"))
    for f, n in (("compressParam", 7), ("compressType", 7), ("encryptParam", 8)):
        for s in v.assigns("BlockIncr", f):
            if not any(fmt(x) == "param%d" % n for x in walkTerm(s.args[0])):
                A.bad(FILTER, s.where, "%s is %s" % (f, fmt(s.args[0])[:60]))


def p_need(A):
    v = View(A, "blockDeltaNew", noInline=("blockMapGet", "blockMapSize"))
    out = exitOf(v)
    MAPN = isArg(0)
    eq = [s for s in v.calls("bufEq") if mentionsField(s.args[0], "checksum") or mentionsField(s.args[1], "checksum")]
    lists = v.calls("lstAdd")
    get = [s for s in v.calls("blockMapGet") if MAPN(s.args[0])]
    scan = [s for s in get if not hasCall(s.args[1], "lstGet")]
    build = [s for s in get if hasCall(s.args[1], "lstGet")]
    if not eq or not scan or not build:
        A.unsure("blockDeltaNew: the blocks are not compared", NEED)
        return
    eqT = z(call("bufEq"), False, "the checksum is the same", "bufEq")
    put = [s for s in lists if s.args[1][0] == "addr" and not mentionsField(s.args[1], "blockList") and any(can(v, s, x) for x in scan)]
    add = [s for s in put if mentionsField(s.args[0], "blockList") or hasCall(s.args[0], "lstNew") and not hasCall(s.args[0], "lstAdd")]
    own = [s for s in lists if mentionsField(s.args[0], "blockList") or s.args[0][0] == "out"]
    own = [s for s in own if any(can(v, s, x) for x in scan)]
    way(A, v, NEED, "a block that differs is not read", scan, scan + build + [out], [eqT], own)
    more, none = bound(lambda t: t[0] == "call" and t[1] == "blockMapSize" and MAPN(t[2][0]))
    way(A, v, NEED, "a block of the map is left out", [entryOf(v)], build + [out], [lit("all blocks", none, "blockMapSize")])
    for s in scan:
        if any(x[0] == "int" and num(x) not in (0, 1) for x in walkTerm(s.args[1])):
            A.bad(NEED, s.where, "a block of the map is left out")
    for s in eq:
        bufs = [x for x in s.args]
        txt = " ".join(fmt(x) for x in bufs)
        if not s.under(lit("the file has the block", lambda a, pol: a[0] == "lt" and (pol is True and mentionsNum(a[2]) or False), "lt")):
            A.bad(NEED, s.where, "a checksum beyond those of the file is compared")
        A.ok(NEED, s.where)
    # Reads and super blocks
    def item(f):
        return lambda t: any(x[0] == "fld" and x[2] == f and hasCall(x[1], "blockMapGet") for x in cases(t))

    def off(want):
        return lambda a, pol: a[0] == "eq" and pol is want and (mentionsField(a[1], "offset") and mentionsField(a[2], "offset")) and not any(y[0] == "op" for x in a[1:] for y in cases(x))
    sup = [s for s in lists if typedOf(v, s, "BlockDeltaSuperBlock")]
    rd = [s for s in lists if typedOf(v, s, "BlockDeltaRead")]
    blk = [s for s in lists if typedOf(v, s, "BlockDeltaBlock")]
    if not sup or not rd or not blk:
        A.unsure("blockDeltaNew: lists not found", CHUNK)
        return
    way(A, v, CHUNK, "a block that is needed is not read", build, build + [out], [], blk)
    way(A, v, CHUNK, "blocks of different super blocks are read from one", build, blk, [lit("same super block", off(True), "offset")], sup)

    def contiguous(a, pol):
        return a[0] == "eq" and pol is True and any(x[0] == "op" and x[1] == "+" and mentionsField(x, "offset") and mentionsField(x, "size") and item("offset")(y) for x, y in ((a[1], a[2]), (a[2], a[1])))
    way(A, v, CHUNK, "super blocks that are not next to each other are in one read", build, blk, [lit("same super block", off(True), "offset"), lit("next super block", contiguous, "size")], rd)
    for s in sup:
        way(A, v, CHUNK, "the size of the read does not include the super block", [s], [out] + build, [], [x for k, t, x in steps(v, "BlockDeltaRead", "size") if k == "add" and item("size")(t)]) if not any(can(v, x, s, build) for k, t, x in steps(v, "BlockDeltaRead", "size")) else None
    st = steps(v, "BlockDeltaRead", "size")
    if not st:
        A.bad(CHUNK, sup[0].where, "the size of the read does not include the super block")
    for k, t, x in st:
        if k == "add" and not item("size")(t):
            A.bad(CHUNK, x.where, "the size of the read is counted with %s" % fmt(t)[:60])
        for k2, t2, x2 in st:
            if can(v, x, x2, build):
                A.bad(CHUNK, x.where, "a super block is counted twice in the size of the read")
    for rec, f, src in (("BlockDeltaRead", "reference", "reference"), ("BlockDeltaRead", "bundleId", "bundleId"), ("BlockDeltaRead", "offset", "offset"),
                        ("BlockDeltaSuperBlock", "superBlockSize", "superBlockSize"), ("BlockDeltaSuperBlock", "size", "size"), ("BlockDeltaBlock", "no", "block")):
        ss = v.inits(rec, f)
        if not ss:
            A.bad(CHUNK, A.loc("blockDeltaNew"), "%s is not taken from the map" % f)
        for s in ss:
            if not item(src)(s.args[0]):
                A.bad(CHUNK, s.where, "%s is %s" % (f, fmt(s.args[0])[:60]))
            A.ok(CHUNK, s.where)
    for s in v.inits("BlockDeltaBlock", "offset"):
        t = s.args[0]
        if not (t[0] == "op" and t[1] == "*" and any((isArg(1)(x) or fld("blockSize")(x)) and hasCall(y, "lstGet") and y[0] != "op" for x, y in ((t[2], t[3]), (t[3], t[2])))):
            A.bad(FIND, s.where, "the place of the block in the file is %s" % fmt(t)[:80])
        A.ok(FIND, s.where)
    if not v.inits("BlockDeltaBlock", "offset"):
        A.bad(FIND, A.loc("blockDeltaNew"), "a block has no place in the file")


def mentionsNum(t):
    """Number of checksums: nothing when there are none, else size divided by the size of one."""
    return any(x[0] == "op" and x[1] == "/" and hasCall(x, "bufUsed") for x in walkTerm(t))


def typedOf(v, s, rec):
    t = s.args[1]
    if t[0] == "addr" and t[1][0] == "var":
        ty = v.g.insts[t[1][1]].fn.locals[t[1][2]][2]
        return rec in ty.replace("*", " ").split()
    return any(x[0] == "struct" and x[1] == rec for x in walkTerm(t))


def p_next(A):
    v = View(A, "blockDeltaNext")
    out = exitOf(v)
    lim = v.calls("ioLimitReadNew")
    rd = v.calls("ioRead")
    fl = v.calls("ioReadFlush")
    op = v.calls("ioReadOpen")
    if not lim or not rd or not op:
        A.unsure("blockDeltaNext: reading not found", NEXT)
        return
    SB = lambda t: any(mentionsField(x, "superBlockData") or hasCall(x, "lstGet") for x in [t])
    for s in lim:
        if not (isArg(2)(s.args[0]) and fld("size")(s.args[1]) and SB(s.args[1])):
            A.bad(NEXT, s.where, "the super block is read with size %s" % fmt(s.args[1])[:60])
        A.ok(NEXT, s.where)
    adds = v.calls("ioFilterGroupAdd")
    dec = [s for s in adds if hasCall(s.args[1], "cipherBlockNew")]
    com = [s for s in adds if hasCall(s.args[1], "decompressFilter")]
    none = A.prog.enum("compressTypeNone")
    cnone = A.prog.enum("cipherTypeNone")
    way(A, v, FILTER, "a super block is not decrypted", lim, op, [lit("no encryption", lambda a, pol: a[0] == "eq" and pol is True and (num(a[2]) == cnone or num(a[1]) == cnone) and (mentionsField(a, "cipherSpecBackup") or hasCall(a, "cipherSpecType")), "cipherSpecBackup")], dec)
    way(A, v, FILTER, "a super block is not decompressed", lim, op, [lit("no compression", lambda a, pol: a[0] == "eq" and pol is True and mentionsField(a[1], "compressType") and num(a[2]) == none, "compressType")], com)
    for x in com:
        for y in dec:
            if can(v, x, y, lim):
                A.bad(FILTER, x.where, "a super block is decompressed before it is decrypted")
    idx = [(k, t, s) for k, t, s in steps(v, "BlockDelta", "blockIdx")]
    inc = [s for k, t, s in idx if k == "add" and num(t) == 1]
    way(A, v, FIND, "the blocks read are not counted", rd, [out] + rd + fl, [], inc)
    for s in inc:
        for d in inc:
            if can(v, s, d, rd):
                A.bad(FIND, d.where, "a block is counted twice")
    for f, n in (("blockIdx", 0), ("blockFindIdx", 0)):
        way(A, v, FIND, "%s is not reset for the next super block" % f, lim, rd + fl, [], [s for k, t, s in steps(v, "BlockDelta", f) if k == "set" and num(t) == 0])
    off = v.assigns("BlockDeltaWrite", "offset")
    isNo = lit("the block searched for", lambda a, pol: a[0] == "eq" and pol is True and any(fld("blockIdx")(x) and first(y, lambda q: q[0] == "fld" and q[2] == "no") for x, y in ((a[1], a[2]), (a[2], a[1]))), "no")
    for s in off:
        if not fld("offset")(s.args[0]):
            A.bad(FIND, s.where, "the block is written at %s" % fmt(s.args[0])[:60])
        if not s.under(isNo):
            A.bad(FIND, s.where, "another block is written")
        for i in inc:
            if can(v, i, s, rd):
                A.bad(FIND, s.where, "the block is compared after the next one was counted") if any(can(v, i, s, rd) for i in inc) else None
    if not off:
        A.bad(FIND, rd[0].where, "the place of the block is not set")
    notNo = lit("not the block searched for", lambda a, pol: a[0] == "eq" and pol is False and any(fld("blockIdx")(x) and first(y, lambda q: q[0] == "fld" and q[2] == "no") for x, y in ((a[1], a[2]), (a[2], a[1]))), "no")
    way(A, v, FIND, "a block that is needed is passed over", rd, [out] + rd + fl, [notNo], off)
    fi = [s for k, t, s in steps(v, "BlockDelta", "blockFindIdx") if k == "add" and num(t) == 1]
    way(A, v, FIND, "the next block is not searched for", off, [out] + rd, [], fi)
    nb = [s for k, t, s in steps(v, "BlockDelta", "blockData") if hasCall(t, "lstGet")]
    way(A, v, FIND, "the next block is not searched for", fi, [out] + rd, [lit("no more blocks", lambda a, pol: a[0] == "lt" and pol is False and hasCall(a[2], "lstSize"), "lstSize")], nb)
    way(A, v, FIND, "the first block is not searched for", lim, rd, [], nb)
    for s in nb:
        for x in fi:
            for o in off:
                if can(v, s, x, rd + lim) and can(v, o, s, rd):
                    A.bad(FIND, s.where, "the next block is searched for before the one found was counted")
    zero = [s for s in v.calls("bufUsedZero") if mentionsField(s.args[0], "write") or mentionsField(s.args[0], "block")]
    way(A, v, FIND, "a block is read behind the one before", [entryOf(v)] + rd, rd, [], zero)
    lc = [s for s in v.calls("bufLimitClear")]
    way(A, v, FIND, "a block is read with the limit of the one before", [entryOf(v)] + rd, rd, [], lc)
    # End of the super block
    nxt = [s for k, t, s in steps(v, "BlockDelta", "superBlockIdx") if k == "add" and num(t) == 1]
    way(A, v, NEXT, "super blocks are not counted", rd, lim, [], nxt)
    way(A, v, NEXT, "the next super block is begun before this one was read to its end", rd, nxt, [], fl)
    for s in fl:
        p = s.args[1] if len(s.args) > 1 else ("int", 0)
        e = structArg(p, "errorOnBytes")
        if e is None or num(e) != 1:
            A.bad(NEXT, s.where, "bytes left over in the super block are not an error")
    done = lit("all blocks read", lambda a, pol: a[0] == "lt" and pol is False and fld("blockIdx")(a[1]) and (fld("blockTotal")(a[2]) or mentionsField(a[2], "superBlockSize")), "blockTotal")
    way(A, v, NEXT, "a super block is left before all blocks were read", [entryOf(v)], fl, [done, lit("never null", lambda a, pol: a[0] == "eq" and a[1][0] == "addr" and a[2] == ("int", 0) and pol is True)])
    reset = [s for k, t, s in steps(v, "BlockDelta", "superBlockData") if k == "set" and num(t) == 0]
    way(A, v, NEXT, "the super block before is used for the next", fl, [out] + rd, [], reset)
    way(A, v, NEXT, "the super block before is used for the next", fl, rd, [z(fld("superBlockData"), False, "a super block is being read", "superBlockData")], lim)
    tot = [(k, t, s) for k, t, s in steps(v, "BlockDelta", "blockTotal")]
    for k, t, s in tot:
        if not (mentionsField(t, "superBlockSize") and mentionsField(t, "blockSize") and t[0] == "op" and t[1] in ("+", "/")):
            A.bad(NEXT, s.where, "the number of blocks is %s" % fmt(t)[:80])
        if t[0] == "op" and t[1] == "+" and not any(x[0] == "op" and x[1] == "%" for x in walkTerm(t)):
            A.bad(NEXT, s.where, "the last block is left out")
        if t[0] == "op" and t[1] == "/" and not (t[2][0] == "op" and t[2][1] in ("+", "-")):
            A.bad(NEXT, s.where, "the last block is left out")
        A.ok(NEXT, s.where)
    way(A, v, NEXT, "the number of blocks is not set", lim, rd + fl, [], [s for k, t, s in tot])
    z0 = [s for k, t, s in steps(v, "BlockDelta", "superBlockIdx") if k == "set" and num(t) == 0]
    if not z0:
        A.bad(NEXT, A.loc("blockDeltaNext"), "the next read does not begin with its first super block")


def p_sum(A):
    v = View(A, "blockChecksumProcess")
    out = exitOf(v)
    feed = v.calls("ioFilterProcessIn")
    add = v.calls("lstAdd")
    if not feed or not add:
        A.unsure("blockChecksumProcess: not found", SUM)
        return
    cnt = steps(v, "BlockChecksum", "blockCurrent")
    notFull = lit("not full", lambda a, pol: (a[0] == "eq" and pol is False or a[0] == "lt" and pol is True) and any((mentionsField(x, "blockCurrent") or x[0] in ("phi", "op")) and fld("blockSize")(y) for x, y in ((a[1], a[2]), (a[2], a[1])) if a[0] == "eq" or y is a[2]), "blockSize")
    way(A, v, SUM, "a full block gets no checksum", feed, [out] + feed, [notFull], add)
    up = [s for k, t, s in cnt if k == "add"]
    way(A, v, SUM, "the data is not counted", feed, [out] + feed + add, [], up)
    full = lit("full", lambda a, pol: a[0] == "eq" and pol is True and any(fld("blockSize")(y) for y in a[1:]) or a[0] == "lt" and pol is False and fld("blockSize")(a[2]), "blockSize")
    for s in add:
        if not s.under(full):
            A.bad(SUM, s.where, "a checksum is recorded before the block is full")
        if not (hasCall(s.args[1], "ioFilterResult") and fld("list")(s.args[0])):
            A.bad(SUM, s.where, "the checksum recorded is %s" % fmt(s.args[1])[:60])
        A.ok(SUM, s.where)
    res = [s for k, t, s in steps(v, "BlockChecksum", "checksum") if k == "set" and num(t) == 0]
    way(A, v, SUM, "the next block continues the checksum of the one before", add, [out] + feed, [], res)
    new = [s for k, t, s in steps(v, "BlockChecksum", "checksum") if k == "set" and hasCall(t, "xxHashNew")]
    z0 = [s for k, t, s in cnt if k == "set" and num(t) == 0]
    way(A, v, SUM, "the count of a new block does not start at zero", new, feed, [], z0) if not any(can(v, x, n, feed) for x in z0 for n in new) else None
    for s in new:
        if not s.under(z(fld("checksum"), True, "none yet", "checksum")):
            A.bad(SUM, s.where, "the checksum of a block is started again")
        if not any(fld("checksumSize")(x[2][0]) for x in walkTerm(s.args[0]) if x[0] == "call" and x[1] == "xxHashNew"):
            A.bad(SUM, s.where, "the checksum has another size")
    r = View(A, "blockChecksumResult")
    la = [s for s in r.calls("lstAdd") if hasCall(s.args[1], "ioFilterResult")]
    w = r.calls("pckWriteBin")
    way(A, r, SUM, "the last block gets no checksum", [entryOf(r)], w, [z(fld("checksum"), True, "no remainder", "checksum")], la)
    for s in la:
        if not s.under(z(fld("checksum"), False, "remainder", "checksum")):
            A.bad(SUM, s.where, "a checksum is recorded without data")
    for s in w:
        if not any(x[0] == "op" and x[1] == "*" and hasCall(x, "lstSize") and mentionsField(x, "checksumSize") for x in walkTerm(s.args[1])):
            A.bad(SUM, s.where, "not all checksums are reported")
        A.ok(SUM, s.where)


def bitOf(s):
    """The bit of a flag word that must be set at the site (of the nearest test)."""
    for a, pol in reversed(s.conds):
        if a[0] == "eq" and a[2] == ("int", 0) and a[1][0] == "op" and a[1][1] == "&" and num(a[1][3]) is not None:
            return num(a[1][3]) if pol is False else None
    return None


def shifts(t, op):
    """Amounts of the shifts in the term that are not within a call or a condition."""
    if t[0] in ("phi", "ite"):
        return {n for x in cases(t) for n in shifts(x, op)}
    if t[0] == "op":
        own = {num(t[3])} if t[1] == op and num(t[3]) is not None else set()
        return own | shifts(t[2], op) | shifts(t[3], op)
    if t[0] == "call" and t[1].startswith("cvtInt64"):
        return {n for x in t[2] for n in shifts(x, op)}
    return set()


def fieldsIn(t):
    """Fields of map entries that make up the term, not counting the subscripts."""
    if t[0] == "fld":
        return {t[2]}
    if t[0] == "op":
        return fieldsIn(t[2]) | fieldsIn(t[3])
    if t[0] in ("phi", "ite"):
        return {n for x in cases(t) for n in fieldsIn(x)}
    if t[0] == "call" and t[1].startswith("cvtInt64"):
        return {n for x in t[2] for n in fieldsIn(x)}
    return set()


def hasOp(t, *ops):
    if t[0] in ("phi", "ite"):
        return any(hasOp(x, *ops) for x in cases(t))
    return t[0] == "op" and (t[1] in ops or hasOp(t[2], *ops) or hasOp(t[3], *ops))


def isVar(t):
    return t[0] == "call" and t[1] == "ioReadVarIntU64"


def p_pair(A):
    w = View(A, "blockMapWrite", noInline=("blockMapGet", "blockMapSize"))
    r = View(A, "blockMapNewRead")
    put = w.calls("ioWriteVarIntU64")
    if not put or not r.calls("ioReadVarIntU64"):
        A.unsure("the map is not written as variable length integers", PAIR)
        return
    W, R = {}, {}
    wo, ro = exitOf(w), exitOf(r)

    def kind(s):
        t = s.args[1]
        f = fieldsIn(t)
        if num(t) is not None:
            return "flags"
        if "reference" in f and hasOp(t, "<<"):
            return "reference"
        if f == {"bundleId"}:
            return "bundle"
        if f == {"offset"} and not hasOp(t, "-"):
            return "offset"
        if "offset" in f and hasOp(t, "-"):
            return "gap"
        if "size" in f and hasOp(t, "<<"):
            return "size"
        if "superBlockSize" in f and hasOp(t, "/"):
            return "super"
        if "superBlockSize" in f and hasOp(t, "%"):
            return "remainder"
        if hasOp(t, "<<") and hasOp(t, "-"):
            return "total"
        if f and f <= {"block"} and hasOp(t, "-"):
            return "skip"
        return None
    for s in put:
        k = kind(s)
        if k is None:
            A.bad(PAIR, s.where, "the map has a number that is not read: %s" % fmt(s.args[1])[:80])
            continue
        W.setdefault(k, []).append((bitOf(s), shifts(s.args[1], "<<"), s))
        if not isArg(1)(s.args[0]):
            A.bad(PAIR, s.where, "the map is written somewhere else")
        if k == "gap" and "size" not in fieldsIn(s.args[1]):
            A.bad(PAIR, s.where, "the gap is counted from the beginning of the super block before")
        if k == "size":
            for x in walkTerm(s.args[1]):
                if x[0] == "ite" and x[2][0] == "fld" and x[2][2] == "size" and hasCall(x[3], "cvtInt64ToZigZag") and x[3][0] == "call":
                    if not implies(x[1], True, [lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] in ("phi", "fld", "hav")]):
                        A.bad(PAIR, s.where, "a size is written in place of the difference")
        if k == "flags" and num(s.args[1]) & 1:
            A.bad(PAIR, s.where, "the version is not zero")

    def add(k, s, t):
        R.setdefault(k, []).append((bitOf(s), shifts(t, ">>"), s))
    for f, plain, more in (("bundleId", "bundle", None), ("offset", "offset", "gap"), ("superBlockSize", "super", "remainder"), ("size", "size", None), ("block", None, "skip")):
        for rec in ("BlockMapItem", "BlockMapReference"):
            for k, t, s in steps(r, rec, f):
                if k == "set" and plain and (isVar(t) or shifts(t, ">>") and any(isVar(x) for x in walkTerm(t)) and (t[0] == "op" and t[1] in (">>", "*", "+"))) and not (f == "superBlockSize" and rec == "BlockMapReference"):
                    if rec == "BlockMapItem" and not (f == "size" and hasOp(t, "+")):
                        add(plain, s, t)
                if k == "add" and isVar(t) and more:
                    add(more, s, t)
    for s in r.inits("BlockMapItem", "reference"):
        add("reference", s, s.args[0])
    need = {"bundle": "bundle id", "offset": "offset", "gap": "gap before a super block", "size": "size of a super block", "super": "size of the data of a super block", "remainder": "remainder of that size", "skip": "gap before a block", "reference": "reference"}
    for k, txt in need.items():
        if k not in W or k not in R:
            A.bad(PAIR, A.loc("blockMapWrite" if k not in W else "blockMapNewRead"), "the %s is not %s" % (txt, "written" if k not in W else "read"))
            continue
        if k in ("reference",):
            a, b = {n for _, x, _ in W[k] for n in x}, {n for _, x, _ in R[k] for n in x}
            if a != b:
                A.bad(PAIR, R[k][0][2].where, "the %s is written with shift %s and read with %s" % (txt, sorted(a), sorted(b)))
            continue
        a = {(bit if k != "size" else None, tuple(sorted(x))) for bit, x, _ in W[k]}
        b = {(bit if k != "size" else None, tuple(sorted(x))) for bit, x, _ in R[k]}
        if a != b:
            A.bad(PAIR, R[k][0][2].where, "the %s is written with flag and shift %s and read with %s" % (txt, sorted(map(str, a)), sorted(map(str, b))))
        A.ok(PAIR, R[k][0][2].where)
    # Number of blocks
    tot = []
    for inst in r.g.insts:
        for p in inst.fn.pts():
            if p.tries is not None and p.kind in ("as", "decl") and p.data[3] is not None:
                t = r.g.ev(inst, p.data[3], p.idx)
                if t[0] == "op" and t[1] == "+" and t[3] == ("int", 1) and t[2][0] == "op" and t[2][1] == ">>" and isVar(t[2][2]) and r.o.rank(r.g.gid(inst, p.idx)) is not None:
                    s = Site(r, r.g.where(r.g.gid(inst, p.idx)), "=", [t], inst, p, r.o.rank(r.g.gid(inst, p.idx)))
                    tot.append((bitOf(s), shifts(t, ">>"), s))
    if "total" not in W or not tot:
        A.bad(PAIR, A.loc("blockMapWrite" if "total" not in W else "blockMapNewRead"), "the number of blocks is not %s as number - 1" % ("written" if "total" not in W else "read"))
    else:
        a, b = {(x, tuple(sorted(y))) for x, y, _ in W["total"]}, {(x, tuple(sorted(y))) for x, y, _ in tot}
        if a != b:
            A.bad(PAIR, tot[0][2].where, "the number of blocks is written with flag and shift %s and read with %s" % (sorted(map(str, a)), sorted(map(str, b))))
        A.ok(PAIR, tot[0][2].where)
    # Every number written is read: order
    for v, K in ((w, W), (r, R)):
        pass
    # Flags are set when the number is needed
    ref = [s for _, _, s in W.get("reference", [])]
    bits = {}
    for inst in w.g.insts:
        for p in inst.fn.pts():
            if p.tries is not None and p.kind == "opas" and p.data[2] in ("|", "|=") and w.o.rank(w.g.gid(inst, p.idx)) is not None:
                t = w.g.ev(inst, p.data[4], p.idx)
                if num(t) is not None:
                    s = Site(w, w.g.where(w.g.gid(inst, p.idx)), "|=", [t], inst, p, w.o.rank(w.g.gid(inst, p.idx)))
                    bits.setdefault(num(t), []).append(s)
    find = w.calls("lstFind")
    item = lambda f: (lambda t: any(x[0] == "fld" and x[2] == f and hasCall(x[1], "blockMapGet") for x in cases(t)))

    def none(f):
        def q(a, pol):
            return (a[0] == "lt" and a[1] == ("int", 0) and pol is False or a[0] == "eq" and a[2] == ("int", 0) and pol is True) and item(f)(a[2] if a[0] == "lt" else a[1])
        return lit("no " + f, q, f)
    for k, f in (("bundle", "bundleId"), ("offset", "offset")):
        for bit, _, s in W.get(k, []):
            here = [x for x in bits.get(bit, []) if any(mentionsField(a, f) for a, pol in x.conds[-1:])]
            src = [x for x in ref if can(w, x, s, [y for y in ref if y is not x])]
            if not here:
                A.bad(PAIR, s.where, "the flag of the %s is never set" % need[k])
                continue
            way(A, w, PAIR, "the %s is left out" % need[k], find, src, [none(f)], here)
            way(A, w, PAIR, "the flag of the %s is set too late" % need[k], src, [wo] + find, [none(f), lit("no flag", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] == "op" and a[1][1] == "&", "&")], [s])
    # Signed difference of sizes
    for v, name, fn in ((w, "cvtInt64ToZigZag", "blockMapWrite"), (r, "cvtInt64FromZigZag", "blockMapNewRead")):
        zz = v.calls(name)
        if not zz:
            A.bad(PAIR, A.loc(fn), "the difference of the sizes is not signed")
            continue
        for s in zz:
            last = [(a, pol) for a, pol in s.conds if a[0] == "eq" and a[2] == ("int", 0) and pol is False and (mentionsField(a[1], "size") or hasCall(a[1], "cvtInt64FromZigZag")) and a[1][0] in ("phi", "fld", "hav")]
            if not last:
                A.bad(PAIR, s.where, "a difference is %s without a size before" % ("written" if v is w else "read"))
            A.ok(PAIR, s.where)
        if v is w:
            t = zz[0].args[0]
            if not (t[0] == "op" and t[1] == "-" and item("size")(t[2]) and not hasCall(t[2], "zzz")):
                A.bad(PAIR, zz[0].where, "the difference is %s" % fmt(t)[:80])
        else:
            st = [(k, t, s) for k, t, s in steps(r, "BlockMapItem", "size") if hasCall(t, name) and t[0] in ("op", "call")]
            if not any(t[0] == "op" and t[1] == "+" or k == "add" for k, t, s in st):
                A.bad(PAIR, zz[0].where, "the difference is not added to the size before")
            way(A, r, PAIR, "the difference of the sizes is taken for the size", [s for _, _, s in R.get("size", [])], r.calls("memcpy") + [ro],
                [lit("no size before", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] == "phi", "size")], [s for k, t, s in st])
    # State of the reference
    sz = {w: [s for _, _, s in W.get("size", [])], r: [s for _, _, s in R.get("size", [])]}
    for v, end in ((w, w.calls("ioWrite")), (r, r.calls("ioRead"))):
        fn = v.entry
        src = sz[v]
        if not src or not end:
            A.unsure("%s: checksums not found" % fn, PAIR)
            continue
        for f, ok, txt in (("size", lambda k, t: k == "set", "size"), ("block", lambda k, t: k == "set" and num(t) == 0, "number of the first block")):
            good = [s for k, t, s in steps(v, "BlockMapReference", f) if ok(k, t)]
            first_ = [s for s in good if any(can(v, x, s) for x in src)]
            before = [s for s in good if any(can(v, s, x, end) for x in src)]
            if not before:
                way(A, v, PAIR, "the %s is not remembered for the reference" % txt, src, end, [], first_)
        cnt = [s for k, t, s in steps(v, "BlockMapReference", "block") if k == "add" and not isVar(t)]
        again = src + [exitOf(v)]
        if not cnt:
            A.bad(PAIR, A.loc(fn), "the blocks of the reference are not counted")
        else:
            way(A, v, PAIR, "the blocks of the reference are not counted", src, again, [], cnt)
        for s in cnt:
            for d in cnt:
                if s is not d and can(v, s, d, src + v.calls("lstFind")):
                    A.bad(PAIR, d.where, "the blocks of the reference are counted twice")
    up = [s for k, t, s in steps(r, "BlockMapItem", "offset") if k == "add" and not isVar(t) and (any(can(r, x, s, r.calls("lstFind")) for x in sz[r]))]
    if not up:
        A.bad(PAIR, A.loc("blockMapNewRead"), "the offset is not advanced by the size of the super block")
    for s in up:
        if not mentionsField(s.args[0], "size") and not hasCall(s.args[0], "cvtInt64FromZigZag"):
            A.bad(PAIR, s.where, "the offset is advanced by %s" % fmt(s.args[0])[:60])
    way(A, r, PAIR, "the offset is not advanced by the size of the super block", sz[r], sz[r], [], up)
    for s in up:
        for d in up:
            if s is not d and can(r, s, d, sz[r] + r.calls("lstFind")):
                A.bad(PAIR, d.where, "the offset is advanced twice")
    # Checksums
    for s in w.calls("ioWrite"):
        n = [x for y in walkTerm(s.args[1]) if y[0] == "struct" for f in ("size", "used") for x in [structArg(y, f)] if x is not None]
        if not mentionsField(s.args[1], "checksum") or not n or any(fmt(y) not in ("param3", "0") for x in n for y in cases(x)):
            A.bad(PAIR, s.where, "the checksum written is %s" % fmt(s.args[1])[:60])
        A.ok(PAIR, s.where)
    rd = r.calls("ioRead")
    for s in rd:
        if s.args[1][0] == "call" and s.args[1][1] == "bufNew" and fmt(s.args[1][2][0]) != "param2":
            A.bad(PAIR, s.where, "the checksum is read with another size")
    item_ = [s for s in r.calls("lstAdd") if hasCall(s.args[0], "blockMapNew") or typedOf(r, s, "BlockMapItem")]
    way(A, r, PAIR, "a block of the map is dropped", rd, [ro] + rd, [], item_)
    way(A, r, PAIR, "the checksum of a block is not taken over", rd, item_, [], r.calls("memcpy"))
    way(A, r, PAIR, "a checksum is read behind the one before", rd, rd, [], [s for s in r.calls("bufUsedZero")] + [s for s in r.calls("bufNew")])
    no = [s for k, t, s in steps(r, "BlockMapItem", "block")]
    way(A, r, PAIR, "the number of a block is not set", item_ + [entryOf(r)], item_, [], no)
    # Version
    ver = lit("version zero", lambda a, pol: a[0] == "eq" and a[2] == ("int", 0) and pol is True and a[1][0] == "op" and a[1][1] == "&" and isVar(a[1][2]) and num(a[1][3]) == 1, "&")
    for s in rd:
        if not s.under(ver):
            A.bad(PAIR, s.where, "a map of another version is read")
