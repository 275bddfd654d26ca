"""C24: a datalayout string sets exactly the properties its parts name, or is rejected."""
from models import digits, digits_val, pick_of
from specs.c23 import Tables, TYPES, compare, const, less, same
from specs.support import *

CRATES = ["llvm_support", "llvm_mapper"]
RULE = ("Abstract interpretation of DataLayout::from_str (and of TypeAlignSpec/PointerAlignSpec::from_str, and of mapping a DATALAYOUT record) over layout "
        "texts whose numbers are symbolic decimals 0..2^64: the resulting layout, all its properties included, or the rejection must be what LLVM's "
        "layout grammar gives.")
FLOOR = {"partitions": 300}
MAXAS, MAXW = (1 << 23) - 1, (1 << 23) - 1
KIND = {"i": "Integer", "v": "Vector", "f": "Float", "a": "Aggregate"}
MANGLING = {"e": "Elf", "m": "Mips", "o": "Macho", "x": "WindowsX86Coff", "w": "WindowsCoff", "a": "XCoff"}
TOP = 1 << 65

DS = "<record::datalayout::DataLayout as std::str::FromStr>::from_str"


class Bad(Exception):
    pass


class Num:
    """a symbolic decimal in a layout text"""

    def __init__(self, name, only=None):
        self.only = only
        self.seg = digits(name, 0, TOP)
        self.val = digits_val(self.seg[1])


def tokens(text):
    """'p#:64-e' -> [['p', Num, ':64'], ['e']]; # is any number, @ one of a few alignments and non-alignments"""
    out, n = [], [0]
    for part in text.split("-"):
        toks, lit = [], ""
        for c in part:
            if c in "#@":
                if lit:
                    toks.append(lit)
                toks.append(Num(("d", n[0]), [8, 12, 32] if c == "@" else None))
                n[0] += 1
                lit = ""
            else:
                lit += c
        out.append(toks + ([lit] if lit else []))
    return out


def text(parts):
    segs = []
    for i, toks in enumerate(parts):
        if i:
            segs.append(("b", b"-"))
        for t in toks:
            segs.append(t.seg if isinstance(t, Num) else ("b", t.encode()))
    return Seq(segs)


def fields(toks):
    """a part's tokens split at ':'; each field a literal or a Num"""
    out = [[]]
    for t in toks:
        if isinstance(t, Num):
            out[-1].append(t)
            continue
        for i, x in enumerate(t.split(":")):
            if i:
                out.append([])
            if x:
                out[-1].append(x)
    return ["".join(f) if all(isinstance(x, str) for x in f) else f[0] if len(f) == 1 else f for f in out]


def cut(toks, n=1):
    """without the first n characters"""
    return ([toks[0][n:]] if toks[0][n:] else []) + toks[1:]


class Ref_:
    """what a layout text means"""

    def __init__(self, run):
        self.run = run
        self.v = {"endianness": "Big", "natural_stack_alignment": None, "program_address_space": 0, "global_variable_address_space": 0,
                  "alloca_address_space": 0, "function_pointer_alignment": None, "mangling": None, "native_integer_widths": [],
                  "non_integral_address_spaces": []}
        self.types = list(TYPES)
        self.ptrs = [(0, 6, 6, 64, 64)]

    def num(self, f, top):
        if isinstance(f, Num):
            if not self.run.decide(le(f.val, K(top))):
                raise Bad()
            return f.val
        if not isinstance(f, str) or not f or not f.isdigit() or int(f) > top:
            raise Bad()
        return K(int(f))

    def align(self, f):
        x = self.num(f, U64)
        for k in range(3, 64):
            if self.run.decide(eq(x, K(1 << k))):
                return k
        raise Bad()

    def aligns(self, fs, i):
        abi = self.align(fs[i])
        pref = self.align(fs[i + 1]) if len(fs) > i + 1 else abi
        if pref < abi:
            raise Bad()
        return abi, pref

    def update(self, es, new, same_, less_):
        for i, e in enumerate(es):
            if same_(e, new):
                return es[:i] + [new] + es[i + 1:]
            if less_(new, e):
                return es[:i] + [new] + es[i:]
        return es + [new]

    def tspec(self, toks):
        if not toks or not isinstance(toks[0], str):
            raise Bad()
        fs = fields(cut(toks))
        kind = KIND.get(toks[0][0])
        if kind is None or len(fs) < 2:
            raise Bad()
        if kind == "Aggregate":
            if fs[0] != "":
                raise Bad()
            w = ZERO
        else:
            w = self.num(fs[0], MAXW)
            if self.run.decide(eq(w, ZERO)):
                raise Bad()
        abi, pref = self.aligns(fs, 1)
        if pref > 18:
            raise Bad()
        return kind, w, abi, pref

    def pspec(self, toks):
        if not toks:
            raise Bad()
        fs = fields(cut(toks))
        if len(fs) < 3:
            raise Bad()
        sp = K(0) if fs[0] == "" else self.num(fs[0], MAXAS)
        size = self.num(fs[1], U64)
        abi, pref = self.aligns(fs, 2)
        idx = self.num(fs[4], U64) if len(fs) > 4 else size
        return sp, abi, pref, size, idx

    def part(self, toks):
        run = self.run
        if not toks or not isinstance(toks[0], str):
            raise Bad()
        c, rest = toks[0][0], cut(toks)
        one = fields(rest)
        if c in "eE":
            self.v["endianness"] = "Little" if c == "e" else "Big"
        elif c == "S":
            self.v["natural_stack_alignment"] = self.align(one[0] if len(one) == 1 else None)
        elif c in "PGA":
            k = {"P": "program", "G": "global_variable", "A": "alloca"}[c]
            self.v[k + "_address_space"] = self.num(one[0] if len(one) == 1 else None, MAXAS)
        elif c == "p":
            new = self.pspec(toks)
            self.ptrs = self.update(self.ptrs, new, lambda a, b: run.decide(eq(const(a[0]), const(b[0]))), lambda a, b: run.decide(lt(const(a[0]), const(b[0]))))
        elif c in KIND:
            new = self.tspec(toks)
            self.types = self.update(self.types, new, lambda a, b: same(run, a, b), lambda a, b: less(run, a, b))
        elif c == "F":
            if not rest or not isinstance(rest[0], str) or rest[0][0] not in "in":
                raise Bad()
            f = fields(cut(rest))
            self.v["function_pointer_alignment"] = ("Independent" if rest[0][0] == "i" else "MultipleOfFunctionAlign", self.align(f[0] if len(f) == 1 else None))
        elif c == "m":
            if len(one) != 2 or one[0] != "" or one[1] not in MANGLING:
                raise Bad()
            self.v["mangling"] = MANGLING[one[1]]
        elif c == "n":
            if rest and isinstance(rest[0], str) and rest[0][0] == "i":
                if one[0] != "i" or len(one) < 2:
                    raise Bad()
                xs = []
                for f in one[1:]:
                    x = self.num(f, MAXAS)
                    if run.decide(eq(x, ZERO)):
                        raise Bad()
                    xs.append(x)
                self.v["non_integral_address_spaces"] = xs
            else:
                xs = []
                for f in one:
                    x = self.num(f, U32)
                    run.assume(cnot(eq(x, ZERO)))
                    xs.append(x)
                self.v["native_integer_widths"] = xs
        else:
            raise Bad()


def bits_of(run, x):
    return add(newtype(run, x), K(3))


def observe(run, T, ref, v, where):
    v = run.deref(v)

    def get(name):
        return field(run, v, name)

    def want(name, cond):
        run.require(cond, "%s is what the text says, or the default" % name, where=where)
    want("endianness", cbool(ename(run, get("endianness")) == ref.v["endianness"]))
    for k in ("program", "global_variable", "alloca"):
        k += "_address_space"
        want(k, eq(newtype(run, get(k)), const(ref.v[k])))
    for k, show in (("natural_stack_alignment", None), ("function_pointer_alignment", None), ("mangling", None)):
        some, x = res(run, get(k))
        e = ref.v[k]
        want(k, cbool(some == (e is not None)))
        if some and e is not None:
            if k == "mangling":
                want(k, cbool(ename(run, x) == e))
            elif k == "natural_stack_alignment":
                want(k, eq(bits_of(run, x), K(e)))
            else:
                x = run.resolve_enum(run.deref(x))
                want(k, cbool(run.vname(x) == e[0]))
                want(k, eq(bits_of(run, x.f[0]), K(e[1])))
    for k in ("native_integer_widths", "non_integral_address_spaces"):
        s = run.deref(find_seq(run, get(k)))
        e = ref.v[k]
        want(k, eq(run.seq_len(s), K(len(e))))
        if run.known(eq(run.seq_len(s), K(len(e)))) is not False:
            for i, x in enumerate(e):
                y = run.deref(run.seq_get(s, K(i)))
                want(k, eq(y if isinstance(y, Lin) else newtype(run, y), x))
    a = run.newref(run.deref(get("type_alignments")))
    compare(run, ref.types, [T.read_t(run, x) for x in T.entries(run, a)], where)
    a = run.newref(run.deref(get("pointer_alignments")))
    compare(run, ref.ptrs, [T.read_p(run, x) for x in T.entries(run, a)], where)


SINGLE = """e E S# S P# G# A# P G A S8x S: p:#:64 p:64:# p:64:8:# p#:64:64 p1:64:64:64:# p1:#:32:64:32 p p: p:64 p:64: p:x:64 px:64:64 p:64:64: p:64:64:x p:64:64:64:x p64:64
p1:32:64:32 p1:64:3 p1:64:0
i#:8 i8:# i8:16:# i8:#:16 v#:64 v64:# v64:8:# f#:64 f32:# f32:8:# a:# a:8:# a:#:64 i i8 i8: i:8 ix:8 i8:x i8:8:x i8:8: a a8 a: a:x ab:8 v v64 f f32 v:8 f:8 i8:12 i0:8 i8388608:8 i8388607:8 i8:64:32 i32:262144
i32:524288 a:262144 a:524288
Fi# Fn# F Fi Fn Fx8 F8 Fix m:e m:m m:o m:x m:w m:a m:l m:z m m: me m;e m:ee m:e: mx:e
n# n#:# n#:#:#:# n n: nx n8: n8:x n:8 ni ni: ni:# ni:#:# ni:#:#:# ni:0 ni:1:0 ni:x ni1 nix1 ni1:2 ni;1 nx8
b c d g h j k l o q r s t u w x y z B C D H I J K L M N O Q R T U V W X Y Z 0 9 : . _ ~ ! * z:1 D32 T8 s:64:64""".split()
MULTI = """e-E E-e e-S@ S@-e S@-S@ P#-G# P#-A# P#-P# G#-A# G#-G# A#-A# A#-P#-G# m:e-m:o m:o-e n#-n# n#-n#:# n#:#-n# ni:#-n# n#-ni:# ni:#:#-ni:#
Fi@-Fn8 Fn@-Fi8 i64:@-i64:64 i#:64-i#:32 i#:32-i64:64 v#:64-f#:64 f#:32-i#:32 a:64-i8:32 a:64-a:8 i8:32-a:8:64 p1:#:32-p1:64:@ p#:64:64-p#:32:32 p:#:32-p1:32:32 p:32:32-p:64:64
p#:32:32-p#:64:64-p0:16:16 i#:8-i#:16-i#:32 v#:8-v#:16 f#:8-f#:16-f16:16 z-e e-z i8:x-e e-p:64 S3-e n8-n e-S m:e-m:z
e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128
e-m:o-i64:64-i128:128-n32:64-S128 E-m:e-p:32:32-i64:64-n32 e-m:x-p:32:32-p270:32:32-i64:64-f80:32-n8:16:32-a:8:32-S32
e-p:64:64-p1:64:64-p2:32:32-p3:32:32-p5:32:32-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-S32-A5-ni:7
E-p:64:64:64-a:8:8-f128:64-n64 e-P1-p:16:8-i8:8-i16:8-i32:8-i64:8-f32:8-f64:8-n8-a:8 e-m:e-Fn32-i64:64-n32 E-m:a-p:32:32-i64:64-n32-G1""".split()
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:_+~"
SINGLE += ["F%s8" % c for c in LETTERS] + ["m:%s" % c for c in LETTERS] + ["m%se" % c for c in LETTERS] + [c for c in LETTERS if c not in "+"] + [c + "8" for c in LETTERS]
SINGLE += ["%s32:32" % c for c in LETTERS] + ["%s:32" % c for c in LETTERS] + ["%s:32:32" % c for c in LETTERS] + ["n%s:8" % c for c in LETTERS]
SINGLE += ["v64:64:32", "f64:64:32", "a:64:32", "a:32:64", "v64:32:64", "f64:32:64", "p:64:64:32", "p1:32:32:64:16", "v0:8", "f0:8"]
SINGLE = sorted(set(SINGLE))
EMPTY = ["", "e-", "-e", "e--E", "-", "m:e-", "--"]


def check(ctx, progs):
    sp, mp = progs["llvm_support"], progs["llvm_mapper"]

    def tables(prog):
        t = Tables.__new__(Tables)
        t.p = prog
        return t
    TM, TS = tables(mp), tables(sp)

    def meaning(run, parts):
        ref = Ref_(run)
        try:
            for toks in parts:
                ref.part(toks)
        except Bad:
            return None
        return ref

    def judge(run, parts, call, where):
        for toks in parts:
            for t in toks:
                if isinstance(t, Num) and t.only:
                    pick_of(run, t.val, t.only)
        ref = meaning(run, parts)
        ok, v = res(run, call())
        run.accept(ok, ref is not None, "a layout text is accepted exactly when every part is well formed", where=where)
        if ok and ref is not None:
            observe(run, TM, ref, v, where)

    def layout(s):
        def body(run):
            parts = tokens(s)
            judge(run, parts, lambda: run.call_fn(fn(mp, DS), [run.newref(text(parts))]), "DataLayout::from_str")
        ctx.task("layout '%s'" % s, mp, body, {"loop_max": 40}, max_paths=20000)
    for s in SINGLE + MULTI + EMPTY:
        layout(s)

    def bytes_(run):
        """no text with a byte outside ASCII is accepted (two-byte characters, at either end)"""
        for bad in ("\u00e9", "e-\u00e9", "\u00e9-e", "S\u0663", "i8:\u0663", "m:\u00e9", "F\u00e9", "n\u00e9", "ni\u00e9", "p\u00e9:64:64", "a\u00e9:8"):
            ok, _ = res(run, run.call_fn(fn(mp, DS), [run.newref(Seq([("b", bad.encode())]))]))
            run.refuse(not ok, "text outside ASCII is rejected", where="DataLayout::from_str")
    ctx.task("layout outside ASCII", mp, bytes_)

    def record_(s):
        def body(run):
            parts = tokens(s)
            r = mkrecord(run, mp, ("dl",), code=K(3), fields=[K(ord(c)) for c in s])
            f = fn(mp, "<record::datalayout::DataLayout as map::PartialCtxMappable<unroll::Record>>::try_map")
            judge(run, parts, lambda: run.call_fn(f, [run.newref(r), run.symref(("ctx",), mp.types[f["locals"][2]["ty"]]["to"])]), "DataLayout::try_map")
        ctx.task("record '%s'" % s, mp, body, {"loop_max": 400, "iter_max": 400})
    for s in ("e-S64", "m:e-i64:64-n8:16", "E-p:32:32-z", "e-"):
        record_(s)

    def spec_(disp, s, kind):
        def body(run):
            toks = tokens(s)[0]
            ref = Ref_(run)
            try:
                w = ref.tspec(toks) if kind == "t" else ref.pspec(toks)
            except Bad:
                w = None
            ok, v = res(run, run.call_fn(fn(sp, disp), [run.newref(text([toks]))]))
            run.accept(ok, w is not None, "a specification is accepted exactly when it is well formed", where=disp)
            if ok and w is not None:
                compare(run, [w], [TS.read_t(run, run.deref(v)) if kind == "t" else TS.read_p(run, run.deref(v))], disp)
        ctx.task("spec '%s'" % s, sp, body, {"loop_max": 40}, max_paths=20000)
    for s in [x for x in SINGLE if x[0] in "ivfa"] + ["x8:8", "i8:8:8:8"] * 0 + [""]:
        spec_("<align::TypeAlignSpec as std::str::FromStr>::from_str", s, "t")
    for s in [x for x in SINGLE if x[0] == "p"] + [""]:
        spec_("<align::PointerAlignSpec as std::str::FromStr>::from_str", s, "p")
