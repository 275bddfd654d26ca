"""C19: attribute groups and lists decode without loss or confusion."""
import itertools
from specs import c20
from specs.c28 import utf8
from specs.support import *

CRATES = ["llvm_mapper"]
RULE = ("Abstract interpretation of the MIR of AttributeGroups::try_from and Attributes::try_from: every attribute key under both numeric formats with an "
        "unknown value; every sequence of up to three attributes of every kind (well formed or truncated at any field, with unknown kinds, keys and "
        "string contents) in one or two group records with unknown group ids and parameter indices; attribute lists of up to N records of up to three "
        "unknown group ids against an unknown group table. The result must be the reference decoding, or an error exactly when the reference has none.")
FLOOR = {"partitions": 300}
NAMES = c20.numbers(c20.CODES["AttributeId"])
INT = {1: "Alignment", 25: "StackAlignment", 41: "Dereferenceable", 42: "DereferenceableOrNull", 51: "AllocSize", 74: "VScaleRange", 33: "UwTable",
       82: "AllocKind", 86: "MemoryKind"}
LAST = 86
M32 = 1 << 32
P = "block::attributes::"
GROUPS = "<block::attributes::AttributeGroups as std::convert::TryFrom<&unroll::Block>>::try_from"
LISTS = "<block::attributes::Attributes as std::convert::TryFrom<(&unroll::Block, &map::PartialMapCtx)>>::try_from"


class Bad(Exception):
    pass


def key_name(k):
    return NAMES[k]


def number(run, k, v):
    """expected integer attribute: (variant, [parts])"""
    if k in (1, 25):
        if run.decide(eq(v, ZERO)):
            return INT[k], [("align", None)]
        if not run.decide(member(v, [1 << s for s in range(64)])):
            raise Bad()
        for s in range(63):
            if run.decide(eq(v, K(1 << s))):
                return INT[k], [("align", s)]
        return INT[k], [("align", 63)]
    hi, lo = mkdiv(v, M32), mkmod(v, M32)
    if k == 51:
        if run.decide(eq(v, ZERO)):
            raise Bad()
        return INT[k], [("n", hi), ("opt", None if run.decide(eq(lo, K(M32 - 1))) else lo)]
    if k == 74:
        return INT[k], [("n", hi), ("n", lo)]
    if k == 33:
        for i, n in enumerate(("None", "Sync", "Async")):
            if run.decide(eq(v, K(i))):
                return INT[k], [("enum", n)]
        raise Bad()
    return INT[k], [("n", v)]


def decode(run, fs):
    """reference decoding of the fields of a group record after the first two"""
    i, out = 0, []

    def nxt():
        nonlocal i
        if i >= len(fs):
            raise Bad()
        i += 1
        return fs[i - 1]

    def known(k):
        if run.pinned(k).const is not None:
            c = run.pinned(k).const
            if not 1 <= c <= LAST:
                raise Bad()
            return c
        if not run.decide(cand(le(ONE, k), le(k, K(LAST)))):
            raise Bad()
        return pick(run, k, 1, LAST)

    def string():
        nonlocal i
        start = i
        while i < len(fs) and not run.decide(eq(fs[i], ZERO)):
            if not run.decide(le(fs[i], K(255))):
                raise Bad()
            i += 1
        s = Seq([("e", f) for f in fs[start:i]], None)
        if i == start or not utf8(run, s):
            raise Bad()
        if i == len(fs):
            raise Bad()
        i += 1
        return s
    while i < len(fs):
        kind = nxt()
        if run.decide(eq(kind, ZERO)):
            k = known(nxt())
            if k in INT and k != 33:
                raise Bad()
            out.append(("Enum", key_name(k)))
        elif run.decide(eq(kind, ONE)):
            k = known(nxt())
            v = nxt()
            if k not in INT:
                raise Bad()
            out.append(("Int",) + number(run, k, v))
        elif run.decide(eq(kind, K(3))):
            out.append(("Str", string()))
        elif run.decide(eq(kind, K(4))):
            a = string()
            out.append(("StrKeyValue", a, string()))
        else:
            raise Bad()
    return out


def is_attr(run, v, d):
    v = run.resolve_enum(run.deref(v))
    if run.vname(v) != d[0]:
        return FALSE
    if d[0] == "Enum":
        return cbool(ename(run, v.f[0]) == d[1])
    if d[0] in ("Str", "StrKeyValue"):
        return cand(*[run.veq(x, w) for x, w in zip(v.f, d[1:])])
    x = run.resolve_enum(run.deref(v.f[0]))
    if run.vname(x) != d[1]:
        return FALSE
    out = []
    for a, (how, w) in zip(x.f, d[2]):
        if how == "n":
            out.append(run.veq(a, w))
        elif how == "opt":
            out.append(opt_is(run, a, w))
        elif how == "enum":
            out.append(cbool(ename(run, a) == w))
        else:
            a = run.deref(a)
            if isinstance(a, SymV):
                a = run.expand(a)
            o = run.resolve_enum(run.deref(a.f[0]))
            out.append(cbool(run.vname(o) == "None") if w is None else
                       (eq(newtype(run, o.f[0]), K(w)) if run.vname(o) == "Some" else FALSE))
    return cand(*out)


def check(ctx, progs):
    p = progs["llvm_mapper"]
    w = "AttributeGroups::try_from"
    G = lambda: fn(p, P + "AttributeGroups::get", private=True)

    def groups(recs):
        """recs(run) -> [(code, fields)]; the reference, then the code"""
        def body(run):
            rs = recs(run)
            want, good = {}, True
            order = []
            try:
                for code, fs in rs:
                    if not run.decide(eq(code, K(3))) or len(fs) < 3:
                        raise Bad()
                    if not run.decide(lt(fs[0], K(M32))) or not run.decide(lt(fs[1], K(M32))):
                        raise Bad()
                    attrs = decode(run, fs[2:])
                    disp = "Function" if run.decide(eq(fs[1], K(M32 - 1))) else "Return" if run.decide(eq(fs[1], ZERO)) else "Parameter"
                    order = [o for o in order if not run.decide(eq(o[0], fs[0]))] + [(fs[0], disp, fs[1], attrs)]
            except Bad:
                good = False
            block = run.newref(mkblock(run, p, 10, [mkrecord(run, p, ("item", i), c, fs) for i, (c, fs) in enumerate(rs)], []))
            ok, x = outcome(run, run.call_fn(fn(p, GROUPS), [block]))
            run.accept(ok, good, "a group block is accepted exactly when every record decodes", where=w)
            if not ok or not good:
                return
            xr = run.newref(x)
            other = sym(("another group",), 0, M32 - 1)
            for c, fs in rs:
                run.assume(cnot(eq(fs[0], other)))
            for o in order:
                found, g = outcome(run, run.call_fn(G(), [xr, o[0]]))
                run.require(found, "every group is found under its id", where=w)
                if not found:
                    continue
                g = run.deref(g)
                d = run.resolve_enum(run.deref(field(run, g, "disposition")))
                run.require(run.vname(d) == o[1], "the parameter index selects function, return value or parameter", where=w)
                if o[1] == "Parameter" and run.vname(d) == "Parameter":
                    run.require(run.veq(d.f[0], o[2]), "the parameter index is kept", where=w)
                q = run.deref(find_seq(run, field(run, g, "attributes")))
                if not run.decide(eq(run.seq_len(q), K(len(o[3])))):
                    run.require(FALSE, "every attribute appears exactly once", where=w)
                    continue
                for i, a in enumerate(o[3]):
                    run.require(is_attr(run, run.seq_get(q, K(i)), a), "attribute %d of the group is the one its fields describe" % i, where=w)
            found, g = outcome(run, run.call_fn(G(), [xr, other]))
            run.require(not found, "no group appears under an id without a record", where=w)
        return body

    def one(kind, k):
        def recs(run):
            kk = K(k) if k else sym(("key",), 0, U64)
            if not k:
                run.assume(cor(eq(kk, ZERO), le(K(LAST + 1), kk)))
            return [(K(3), [ONE, K(M32 - 1), K(kind), kk] + ([sym(("value",), 0, U64)] if kind else []))]
        return recs
    for k in range(0, LAST + 1):
        for kind in (0, 1):
            ctx.task("attribute key %s under format %d" % (k or "unknown", kind), p, groups(one(kind, k)), {"loop_max": 20})

    # shapes: what one attribute is made of ('k' an unknown kind)
    SHAPES = {"e": [K(0), K(2)], "u": [K(0), K(33)], "i": [K(1), K(41), "v"], "a": [K(1), K(51), "v"], "w": [K(0), K(41)], "s": [K(3), "c", "z"],
              "S": [K(3), "c", "c", "z"], "t": [K(4), "c", "z", "c", "z"], "T": [K(4), "c", "z", "c", "c", "z"], "0": [K(3), K(0)],
              "m": [K(4), "c", "z", K(0)], "k": ["k"], "K": [K(1), "kk", "v"], "E": [K(0), "kk"],
              "x": [K(3), "c", "c"], "y": [K(4), "c", "z", "c"], "n": [K(3), K(0xC3), K(0xA9), ZERO], "N": [K(4), K(0xE2), K(0x82), K(0xAC), ZERO, K(97), ZERO],
              "b": [K(3), K(0xC3), K(0x41), ZERO], "B": [K(4), K(97), ZERO, K(0x80), ZERO], "1": [K(1)], "2": [K(1), K(41)], "3": [K(3)], "4": [K(4)], "5": [K(0)], "6": [K(4), "c", "z"]}

    def fields(run, shape, tag):
        out = []
        for i, s in enumerate(shape):
            for j, x in enumerate(SHAPES[s]):
                if isinstance(x, str):
                    v = sym(("field", tag, i, j), 0, U64)
                    if x == "c":
                        run.assume(cnot(eq(v, ZERO)))
                    if x == "z":
                        v = ZERO
                    if x == "k":
                        for c in (0, 1, 3, 4):
                            run.assume(cnot(eq(v, K(c))))
                    if x == "kk":
                        run.assume(cor(eq(v, ZERO), le(K(LAST + 1), v)))
                    x = v
                out.append(x)
        return out

    def shaped(*shapes, code=None):
        def recs(run):
            out = []
            for n, s in enumerate(shapes):
                c = K(3)
                if code is not None and n == len(shapes) - 1:
                    c = sym(("code",), 0, U64)
                    run.assume(cnot(eq(c, K(3))))
                gid, par = sym(("group", n), 0, U64), sym(("index", n), 0, U64)
                head = [gid, par]
                if s in ("-", "--"):
                    head = head[:2 - len(s)]
                    s = ""
                out.append((c, head + fields(run, s, n)))
            return out
        return recs
    whole, cut = "euiasStTnN", "w0mkKExybB123456"
    seqs = [""] + list(whole + cut) + ["".join(x) for x in itertools.product("eisStnN", "eiat" + cut)]
    if ctx.tier == "quick":
        seqs += ["".join(x) for x in itertools.product("eit", "is", "eiSx2")]
    else:
        seqs += ["".join(x) for x in itertools.product(whole, whole, whole + cut)] + ["".join(x) for x in itertools.product("eist", repeat=4)]
    for s in seqs:
        ctx.task("group record of attributes '%s'" % s, p, groups(shaped(s)), {"loop_max": 20})
    for a, b in (("e", "i"), ("i", "e"), ("t", "s"), ("e", "-"), ("e", "--"), ("-", "e"), ("e", "x"), ("", "e"), ("ei", "is")):
        ctx.task("group records '%s', '%s'" % (a, b), p, groups(shaped(a, b)), {"loop_max": 20})
    ctx.task("group records of three ids", p, groups(shaped("e", "i", "s")), {"loop_max": 20})
    for s in (("e",), ("e", "i")):
        ctx.task("group record %d of another code" % len(s), p, groups(shaped(*s, code=1)), {"loop_max": 20})
    ctx.task("group block without records", p, groups(shaped()), {"loop_max": 20})

    # ---- attribute lists
    w2 = "Attributes::try_from"

    def lists(shape, last=2):
        def body(run):
            cref = symval(run, p, ("ctx",), "map::PartialMapCtx")
            gref = run.call_fn(fn(p, "map::PartialMapCtx::attribute_groups", private=True), [cref])
            rs = []
            for i, n in enumerate(shape):
                c = K(2)
                if i == len(shape) - 1 and last is None:
                    c = sym(("code",), 0, U64)
                    run.assume(cnot(eq(c, K(2))))
                rs.append((c, [sym(("id", i, j), 0, U64) for j in range(n)]))
            want = []
            try:
                for c, fs in rs:
                    if not run.decide(eq(c, K(2))):
                        raise Bad()
                    row = []
                    for f in fs:
                        if not run.decide(lt(f, K(M32))):
                            raise Bad()
                        found, g = outcome(run, run.call_fn(G(), [gref, f]))
                        if not found:
                            raise Bad()
                        row.append(run.deref(g))
                    want.append(row)
            except Bad:
                want = None
            block = run.newref(mkblock(run, p, 9, [mkrecord(run, p, ("item", i), c, fs) for i, (c, fs) in enumerate(rs)], []))
            f = fn(p, LISTS)
            ok, x = outcome(run, run.call_fn(f, [Agg(f["locals"][1]["ty"], 0, (block, cref))]))
            run.accept(ok, want is not None, "a list is accepted exactly when every id names a group", where=w2)
            if not ok or want is None:
                return
            q = run.deref(find_seq(run, run.newref(x)))
            if not run.decide(eq(run.seq_len(q), K(len(want)))):
                run.require(FALSE, "one entry per record", where=w2)
                return
            for i, row in enumerate(want):
                e = run.deref(find_seq(run, run.newref(run.seq_get(q, K(i)))))
                if not run.decide(eq(run.seq_len(e), K(len(row)))):
                    run.require(FALSE, "one group per id", where=w2)
                    continue
                for j, g in enumerate(row):
                    run.require(run.veq(run.seq_get(e, K(j)), g), "each id of a list resolves to its group, in order", where=w2)
        return body
    for r in range(0, 4 if ctx.tier == "quick" else 5):
        for shape in itertools.product(range(4 if r < 2 else 3), repeat=r):
            if sum(shape) > (4 if ctx.tier == "quick" else 6):
                continue
            ctx.task("attribute lists of %s ids" % (shape,), p, lists(shape), {"loop_max": 20})
            if r and r < 3:
                ctx.task("attribute lists of %s ids, then another code" % (shape,), p, lists(shape, None), {"loop_max": 20})
