"""C17: type table entries mirror the type records one for one."""
from core import *
from mapin import *
import itertools

CRATES = ["llvm_mapper", "llvm_support"]
RULE = ("Abstract interpretation of the MIR of TypeTable::try_from over blocks of type records with enumerated codes (every known code, "
        "an unknown one), every field count around the needed one, and unknown field values (so that every reference may point "
        "backwards, forwards, to itself or nowhere): the result must be the reference table, entry by entry, or an error "
        "exactly when a rule of the format is broken.")
FLOOR = {"partitions": 400}
M64 = (1 << 64) - 1
SIMPLE = {"Void": 2, "Float": 3, "Double": 4, "Label": 5, "Half": 10, "X86Fp80": 13, "Fp128": 14, "PpcFp128": 15, "Metadata": 16,
          "X86Mmx": 17, "Token": 22, "BFloat": 23, "X86Amx": 24}
CODE = {"#": 1, "v": 2, "f": 3, "o": 6, "i": 7, "p": 8, "O": 9, "a": 11, "V": 12, "A": 18, "n": 19, "N": 20, "F": 21, "P": 25,
        "l": 5, "m": 16, "t": 22, "x": 24, "h": 10, "?": None}
for k, v in SIMPLE.items():
    CODE["=" + k] = v
BYCODE = {v: k for k, v in SIMPLE.items()}
NEED = {"i": 1, "p": 2, "a": 2, "V": 2, "A": 1, "N": 1, "F": 2, "P": 1}
FLOATS = ("Half", "BFloat", "Float", "Double", "X86Fp80", "Fp128", "PpcFp128")


class Bad(Exception):
    pass


def legal(run, d):
    """LLVM's rules for the parts of a type (C18)"""
    k = d[0]
    if k == "Integer":
        return run.decide(cand(le(ONE, d[1]), le(d[1], K((1 << 24) - 1))))
    if k == "Pointer":
        return d[1][0] not in ("Void", "Label", "Metadata", "Token", "X86Amx")
    if k == "Array":
        return d[2][0] not in ("Void", "Label", "Metadata", "Function", "Token", "X86Amx", "ScalableVector")
    if k in ("FixedVector", "ScalableVector"):
        return d[2][0] in FLOATS + ("Integer", "Pointer", "OpaquePointer")
    if k == "Struct":
        return all(x[0] not in ("Void", "Label", "Metadata", "Function", "Token") for x in d[2])
    if k == "Function":
        return d[2][0] not in ("Function", "Label", "Metadata") and all(x[0] not in ("Void", "Function") for x in d[3])
    return True


def scalar(run, v):
    """the number inside a newtype"""
    v = run.deref(v)
    while not isinstance(v, Lin):
        if isinstance(v, SymV):
            v = run.expand(v)
        if not isinstance(v, Agg) or len(v.f) != 1:
            raise Unsupported("number %r" % (v,))
        v = run.deref(v.f[0])
    return v


def same_bool(run, v, want):
    v = run.deref(v)
    return v if want else cnot(v)


def matches(run, v, d):
    """does type value v equal the description d"""
    v = run.resolve_enum(run.deref(v))
    if run.vname(v) != d[0]:
        return FALSE
    if not v.f:
        return TRUE
    if d[0] == "OpaquePointer":
        return eq(scalar(run, v.f[0]), d[1])
    x = run.deref(v.f[0])
    g = lambda n: run.deref(field(run, x, n))
    if d[0] == "Integer":
        return eq(scalar(run, x), d[1])
    if d[0] == "Pointer":
        return cand(matches(run, g("pointee"), d[1]), eq(scalar(run, g("address_space")), d[2]))
    if d[0] in ("Array", "FixedVector", "ScalableVector"):
        return cand(eq(g("num_elements"), d[1]), matches(run, g("element_type"), d[2]))
    if d[0] == "Struct":
        return cand(named(run, g("name"), d[1]), many(run, g("fields"), d[2]), same_bool(run, g("is_packed"), d[3]))
    if d[0] == "Function":
        return cand(same_bool(run, g("is_vararg"), d[1]), matches(run, g("return_type"), d[2]), many(run, g("param_types"), d[3]))
    raise Unsupported(d[0])


def many(run, q, ds):
    q = run.deref(q)
    if not isinstance(q, Seq):
        raise Unsupported("list of types %r" % (q,))
    if run.seq_len(q).const != len(ds):
        return FALSE
    return cand(*[matches(run, run.seq_get(q, K(i)), d) for i, d in enumerate(ds)])


def named(run, v, want):
    if want == "any":
        return TRUE
    v = run.resolve_enum(run.deref(v))
    if want is None:
        return cbool(run.vname(v) == "None")
    if run.vname(v) == "None":
        return cbool(want == "empty")
    s = run.deref(v.f[0])
    if want == "empty":
        return eq(run.seq_len(s), ZERO)
    return run.veq(s, want)


def check(ctx, progs):
    p = progs["llvm_mapper"]
    DISP = "<block::type_table::TypeTable as std::convert::TryFrom<&unroll::Block>>::try_from"
    STR = tyid(p, "std::string::String")

    def text(run, ref, idx, name):
        m = re.search(r"\('item', (\d+)\)", repr(run.key(run.deref(ref))))
        if not m:
            raise Unsupported("unidentified record")
        i = int(m.group(1))
        run.texts.setdefault(i, idx.const)
        if run.badtext == i:
            return None
        s = run.mkval(("text", i, idx), STR)
        run.assume(le(K(2), run.seq_len(s)))
        return s

    def table(recs, counted="#", badtext=-1, fix=None):
        """recs: list of (letter, number of fields); counted: where the entry count record is ('#' first, '-' last, '' missing, '!' empty)"""
        def body(run):
            w = "TypeTable::try_from"
            run.texts, run.badtext = {}, badtext
            items, fields = [], []
            for i, (c, n) in enumerate(recs):
                fs = []
                for j in range(n):
                    x = sym(("field", i, j), 0, M64)
                    if fix and (i, j) in fix:
                        x = fix[(i, j)] if isinstance(fix[(i, j)], Lin) else K(fix[(i, j)])
                    fs.append(x)
                code = K(CODE[c]) if CODE[c] is not None else sym(("code", i), 0, M64)
                if CODE[c] is None:
                    for k in range(1, 27):
                        run.assume(cnot(eq(code, K(k))))
                fields.append(fs)
                items.append(mkrecord(run, p, ("item", i), code, fs))
            count = sym(("declared",), 0, M64)
            num = mkrecord(run, p, ("item", 99), K(1), [] if counted == "!" else [count])
            rv = items[:counted] + [num] + items[counted:] if isinstance(counted, int) else {"#": [num] + items, "!": [num] + items, "-": items + [num], "": items}[counted]
            block = run.newref(mkblock(run, p, 17, rv, []))
            # ---- reference
            good = counted in ("#", "-") or isinstance(counted, int)
            partial, name, judge = [], None, True
            for (c, n), fs, i in zip(recs, fields, itertools.count()):
                if c == "?" or n < NEED.get(c, 0) or (c == "n" and badtext == i):
                    good = False
                    break
                if c == "n":
                    t = run.mkval(("text", i, ZERO), STR)
                    name = t if name is None else "any"
                    continue
                if c == "o" and name is None or c == "O":
                    judge = False
                    break
                if c == "o":
                    partial.append(("Struct", name, [], False))
                elif c in "AN":
                    packed = run.decide(cnot(eq(fs[0], ZERO)))
                    partial.append(("Struct", None if c == "A" else "empty" if name is None else name, [("ref", x) for x in fs[1:]], packed))
                elif c == "i":
                    partial.append(("Integer", fs[0]))
                elif c == "p" or c == "P":
                    if not run.decide(lt(fs[-1 if c == "P" and n == 1 else 0 if c == "P" else 1], K(1 << 23))):
                        good = False
                        break
                    partial.append(("OpaquePointer", fs[0]) if c == "P" else ("Pointer", ("ref", fs[0]), fs[1]))
                elif c == "a":
                    partial.append(("Array", fs[0], ("ref", fs[1])))
                elif c == "V":
                    s = n > 2 and run.decide(cnot(eq(fs[2], ZERO)))
                    partial.append(("ScalableVector" if s else "FixedVector", fs[0], ("ref", fs[1])))
                elif c == "F":
                    va = run.decide(cnot(eq(fs[0], ZERO)))
                    partial.append(("Function", va, ("ref", fs[1]), [("ref", x) for x in fs[2:]]))
                else:
                    partial.append((BYCODE[CODE[c]],))
                if c in "oN":
                    name = None
            want = []
            if good and judge and not run.decide(eq(count, K(len(partial)))):
                good = False

            def ref(x, seen):
                for k in range(len(partial)):
                    if run.decide(eq(x, K(k))):
                        if k in seen:
                            raise Bad()
                        return build(partial[k], seen | {k})
                raise Bad()

            def build(d, seen):
                d = tuple(ref(x[1], seen) if isinstance(x, tuple) and x and x[0] == "ref" else
                          [ref(y[1], seen) for y in x] if isinstance(x, list) else x for x in d)
                if not legal(run, d):
                    raise Bad()
                return d
            if good and judge:
                try:
                    want = [build(d, frozenset([k])) for k, d in enumerate(partial)]
                except Bad:
                    good = False
            # ---- the code
            ok, x = outcome(run, run.call_fn(fn(p, DISP), [block]))
            if not judge:
                return
            run.accept(ok, good, "a type table is accepted exactly when its records are complete and refer to entries legally", where=w)
            if ok and good:
                q = run.deref(find_seq(run, run.newref(run.deref(x))))
                run.require(cbool(run.seq_len(q).const == len(want)), "one entry per type record", where=w)
                if run.seq_len(q).const == len(want):
                    for k, d in enumerate(want):
                        run.require(matches(run, run.seq_get(q, K(k)), d), "each entry is the type its record denotes", where=w)
        return body

    def add_(recs, counted="#", badtext=-1, fix=None):
        recs = [r if isinstance(r, tuple) else (r, NEED.get(r, 0)) for r in recs]
        nm = "table %s%s%s%s" % (" ".join(c + (str(n) if n else "") for c, n in recs), "" if counted == "#" else " count %s" % counted,
                                 " bad name %d" % badtext if badtext >= 0 else "", " fixed " + ",".join("%d.%d=%s" % (k + (v,)) for k, v in sorted(fix.items())) if fix else "")
        ctx.task(nm, p, table(recs, counted, badtext, fix), {"intercepts": [str_calls(text)], "loop_max": 40, "iter_max": 40, "max_depth": 1500}, max_paths=3000)

    deep = ctx.tier != "quick"
    # every code with every field count around what it needs
    for k in SIMPLE:
        for n in (0, 1):
            add_([("=" + k, n)])
    for c, need in NEED.items():
        for n in range(0, need + 3):
            add_([(c, n)])
            add_(["f", (c, n)])
            if n >= need:
                add_([(c, n), "f", "v"] if c in "apV" else [(c, n), "f"])
    for n in (0, 1, 2):
        add_([("o", n)])
        add_(["n", ("o", n)])
        add_([("?", n)])
        add_(["f", ("?", n)])
        add_([("O", n), "f"])
    add_([])
    for cnt in ("", "!", "-"):
        for recs in ([], ["n"], ["f"], ["f", "i"], ["i", "a"], ["n", "o"]):
            add_(recs, cnt)
    # what a reference points to: legality by kind, for every referring record
    for c in ["=" + k for k in SIMPLE] + ["i", "P"]:
        for r in ("p", "a", "V", ("V", 3), ("A", 2), ("F", 2), ("F", 3)):
            add_([c, r])
            add_([r, c])
    for inner in ("p", "a", "V", ("V", 3), ("A", 2), ("F", 2)):
        for outer in ("p", "a", "V", ("V", 3), ("A", 2), ("F", 2)):
            add_(["f", inner, outer], fix={(1, {"p": 0, "a": 1, "V": 1, "A": 1, "F": 1}[inner[0]]): 0})
            add_([outer, "f", inner])
    # several references in one record
    for r in (("A", 3), ("N", 3), ("F", 3), ("F", 4)):
        add_(["f", "i", r])
        add_([r, "f", "i"])
        add_(["f", r])
    if deep:
        for r in (("A", 4), ("N", 4), ("F", 5)):
            add_(["f", "i", r])
        for a, b in itertools.product(("p", "a", "V", ("A", 2), ("F", 2)), repeat=2):
            add_([a, b, "f", "i"])
            add_([a, "f", b, "p"])
    # names
    for n in range(1, 5):
        for s in itertools.product("nNofA", repeat=n):
            if "n" in s or n <= 2:
                if n < 4 or deep or s.count("n") in (1, 2):
                    add_(list(s))
    for s in (["n", "o"], ["n", "N"], ["n", "f", "N"], ["n", "N", "n", "o"]):
        for i, c in enumerate(s):
            if c == "n":
                add_(s, badtext=i)
    for s in (["n", "o"], ["n", "N"], ["f", "n", "N"]):
        add_(s, len(s) - 1)
    # long chains of references
    for n in (12, 24, 48):
        add_(["f"] + ["p"] * n, fix={(i, j): 0 if j else i - 1 for i in range(1, n + 1) for j in (0, 1)})
        add_(["p"] * n + ["f"], fix={(i, j): 0 if j else i + 1 for i in range(n) for j in (0, 1)})
    # opaque and named structs used before and after
    for s in (["n", "o", "p"], ["p", "n", "o"], ["n", ("N", 2), "f"], ["n", ("N", 2), "n", "o"], ["n", "o", "n", ("N", 2), "p"]):
        add_(s)
