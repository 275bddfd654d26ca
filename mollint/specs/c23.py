"""C23: the alignment tables stay sorted and keep exactly the last specification per key."""
from specs.support import *

CRATES = ["llvm_support"]
RULE = ("Abstract interpretation of TypeAlignSpecs::update and PointerAlignSpecs::update as one step of an induction: from every table of up to "
        "N entries with any kinds, widths / address spaces in strictly increasing key order (symbolic), and from the default table, one update by any "
        "specification must give the table with that key's entry replaced or added in order; the default tables are compared with LLVM's.")
FLOOR = {"partitions": 60}
KINDS = ["Aggregate", "Float", "Integer", "Vector"]
TYPES = [("Aggregate", 0, 3, 6), ("Float", 16, 4, 4), ("Float", 32, 5, 5), ("Float", 64, 6, 6), ("Float", 128, 7, 7), ("Integer", 1, 3, 3),
         ("Integer", 8, 3, 3), ("Integer", 16, 4, 4), ("Integer", 32, 5, 5), ("Integer", 64, 5, 6), ("Vector", 64, 6, 6), ("Vector", 128, 7, 7)]
MAXW = (1 << 23) - 1


def shift(run, x):
    """the exponent of an alignment in bytes -> bits"""
    return add(newtype(run, x), K(3))


class Tables:
    """building and reading the tables' entries"""

    def __init__(self, prog):
        self.p = prog
        self.spec = tyid(prog, "align::TypeAlignSpec")
        self.kind = tyid(prog, "align::AlignedType")
        self.ptr = tyid(prog, "align::PointerAlignSpec")
        self.types = tyid(prog, "align::TypeAlignSpecs")
        self.ptrs = tyid(prog, "align::PointerAlignSpecs")

    def struct(self, t, **vals):
        fs = self.p.types[t]["variants"][0]["fields"]
        if sorted(f["name"] for f in fs) != sorted(vals):
            raise Unsupported("fields of " + self.p.types[t]["s"])
        return Agg(t, 0, [self.wrap(f["ty"], vals[f["name"]]) for f in fs])

    def wrap(self, t, x):
        d = self.p.types[t]
        while isinstance(x, Lin) and d["k"] == "adt":
            fs = d["variants"][0]["fields"]
            if len(d["variants"]) != 1 or len(fs) != 1:
                raise Unsupported("number as " + d["s"])
            return Agg(t, 0, [self.wrap(fs[0]["ty"], x)])
        return x

    def tspec(self, run, e):
        kind, w, abi, pref = e
        vs = self.p.types[self.kind]["variants"]
        i = [v["name"] for v in vs].index(kind)
        k = Agg(self.kind, i, [self.wrap(f["ty"], w) for f in vs[i]["fields"]])
        return self.struct(self.spec, aligned_type=k, abi_alignment=sub(abi, K(3)), preferred_alignment=sub(pref, K(3)))

    def pspec(self, run, e):
        return self.struct(self.ptr, address_space=e[0], abi_alignment=sub(e[1], K(3)), preferred_alignment=sub(e[2], K(3)), pointer_size=e[3], index_size=e[4])

    def table(self, run, t, entries):
        fs = self.p.types[t]["variants"][0]["fields"]
        if len(fs) != 1 or self.p.types[fs[0]["ty"]].get("path") != "std::vec::Vec":
            raise Unsupported("layout of " + self.p.types[t]["s"])
        return run.newref(Agg(t, 0, [Seq([("e", e) for e in entries], self.p.types[fs[0]["ty"]]["args"][0])]))

    def entries(self, run, tab):
        s = run.deref(find_seq(run, tab))
        n = run.pinned(run.seq_len(s)).const
        if n is None:
            raise Unsupported("table of unknown length")
        return [run.deref(run.seq_get(s, K(i))) for i in range(n)]

    def read_t(self, run, v):
        k = run.resolve_enum(run.deref(field(run, v, "aligned_type")))
        return (run.vname(k), newtype(run, k.f[0]) if k.f else ZERO, shift(run, field(run, v, "abi_alignment")), shift(run, field(run, v, "preferred_alignment")))

    def read_p(self, run, v):
        return (newtype(run, field(run, v, "address_space")), shift(run, field(run, v, "abi_alignment")), shift(run, field(run, v, "preferred_alignment")),
                run.deref(field(run, v, "pointer_size")), run.deref(field(run, v, "index_size")))


def const(x):
    return K(x) if isinstance(x, int) else x


def compare(run, want, got, where):
    run.require(cbool(len(want) == len(got)), "the table has one entry per key (%d)" % len(want), where=where)
    if len(want) != len(got):
        return
    for a, b in zip(want, got):
        for x, y in zip(a, b):
            if isinstance(x, str):
                run.require(cbool(x == y), "entries are in key order", where=where)
            else:
                run.require(eq(const(x), y), "every entry is the last specification given for its key", where=where)


def less(run, a, b):
    """a's key before b's (types); splits"""
    if a[0] != b[0]:
        return KINDS.index(a[0]) < KINDS.index(b[0])
    return a[0] != "Aggregate" and run.decide(lt(const(a[1]), const(b[1])))


def same(run, a, b):
    return a[0] == b[0] and (a[0] == "Aggregate" or run.decide(eq(const(a[1]), const(b[1]))))


def check(ctx, progs):
    p = progs["llvm_support"]
    T = Tables(p)

    def aligns(run, key, top):
        a, b = sym(key + ("abi",), 3, top), sym(key + ("pref",), 3, top)
        run.assume(le(a, b))
        return a, b

    def entry(run, key, kind):
        return (kind, sym(key + ("w",), 1, MAXW) if kind != "Aggregate" else ZERO) + aligns(run, key, 18)

    def updated(run, es, new, same_, less_):
        for i, e in enumerate(es):
            if same_(run, e, new):
                return es[:i] + [new] + es[i + 1:]
            if less_(run, new, e):
                return es[:i] + [new] + es[i:]
        return es + [new]

    def tupdate(run, tab, new):
        run.call_fn(fn(p, "align::TypeAlignSpecs::update"), [tab, T.tspec(run, new)])

    def pupdate(run, tab, new):
        run.call_fn(fn(p, "align::PointerAlignSpecs::update"), [tab, T.pspec(run, new)])

    def types(kinds):
        def body(run):
            es = [entry(run, ("e", i), k) for i, k in enumerate(kinds)]
            for a, b in zip(es, es[1:]):
                if a[0] == b[0]:
                    run.assume(lt(a[1], b[1]))
            new = entry(run, ("new",), KINDS[run.choose(4, "kind")])
            tab = T.table(run, T.types, [T.tspec(run, e) for e in es])
            tupdate(run, tab, new)
            compare(run, updated(run, es, new, same, less), [T.read_t(run, x) for x in T.entries(run, tab)], "TypeAlignSpecs::update")
        ctx.task("types: update of [%s]" % ",".join(kinds), p, body)
    N = 3 if ctx.tier == "quick" else 4

    def rows(n, lo=0):
        if not n:
            yield []
            return
        for k in range(lo, 4):
            for r in rows(n - 1, k + (k == 0)):
                yield [KINDS[k]] + r
    for n in range(N + 1):
        for r in rows(n):
            types(r)

    def default(run):
        w = "TypeAlignSpecs::default"
        tab = run.newref(run.deref(run.call_fn(fn(p, "<align::TypeAlignSpecs as std::default::Default>::default"), [])))
        es = list(TYPES)
        compare(run, es, [T.read_t(run, x) for x in T.entries(run, tab)], w)
        for i in range(1):
            new = entry(run, ("new", i), KINDS[run.choose(4, "kind")])
            tupdate(run, tab, new)
            es = updated(run, es, new, same, less)
            compare(run, es, [T.read_t(run, x) for x in T.entries(run, tab)], "TypeAlignSpecs::update")
    ctx.task("types: defaults, then any update", p, default)

    def pe(run, key):
        return (sym(key + ("as",), 0, MAXW),) + aligns(run, key, 66) + (sym(key + ("size",), 0, U64), sym(key + ("idx",), 0, U64))

    def psame(run, a, b):
        return run.decide(eq(const(a[0]), const(b[0])))

    def pless(run, a, b):
        return run.decide(lt(const(a[0]), const(b[0])))

    def pointers(n):
        def body(run):
            es = [pe(run, ("e", i)) for i in range(n)]
            for a, b in zip(es, es[1:]):
                run.assume(lt(a[0], b[0]))
            new = pe(run, ("new",))
            tab = T.table(run, T.ptrs, [T.pspec(run, e) for e in es])
            pupdate(run, tab, new)
            compare(run, updated(run, es, new, psame, pless), [T.read_p(run, x) for x in T.entries(run, tab)], "PointerAlignSpecs::update")
        ctx.task("pointers: update of %d" % n, p, body)
    for n in range(N + 2):
        pointers(n)

    def pdefault(run):
        w = "PointerAlignSpecs::default"
        tab = run.newref(run.deref(run.call_fn(fn(p, "<align::PointerAlignSpecs as std::default::Default>::default"), [])))
        es = [(0, 6, 6, 64, 64)]
        compare(run, es, [T.read_p(run, x) for x in T.entries(run, tab)], w)
        for i in range(3):
            new = pe(run, ("new", i))
            pupdate(run, tab, new)
            es = updated(run, es, new, psame, pless)
            compare(run, es, [T.read_p(run, x) for x in T.entries(run, tab)], "PointerAlignSpecs::update")
    ctx.task("pointers: defaults, then three updates", p, pdefault)
