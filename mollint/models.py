"""Transfer functions for library items whose bodies are not part of the analysed crates.

Each model maps abstract arguments to an abstract result; anything not listed here and without a
body in the dump makes the partition undecided (never an alarm).
"""
import re
from terms import *
import interp as I
from interp import (Agg, EnumI, SymV, Opq, Ref, Seq, MapV, FnV, IterV, UNIT, UNINIT, BoxUninit,
                    Unsupported, Cut, Infeasible, Panic, strip_generics, MAXLEN)

TABLE = []
_CACHE = {}


def model(*pats):
    def deco(f):
        for p in pats:
            TABLE.append((re.compile("^(?:%s)$" % p), f))
        return f
    return deco


def lookup(cal):
    n1 = cal.get("rpath") or cal["path"]
    n2 = cal["path"]
    k = (n1, n2)
    r = _CACHE.get(k, 0)
    if r == 0:
        r = None
        for n in (strip_generics(n1), strip_generics(n2)):
            for p, f in TABLE:
                if p.match(n):
                    r = f
                    break
            if r:
                break
        _CACHE[k] = r
    return r


def unknown(run, cal, args, dty):
    raise Unsupported("call to %s" % (cal.get("rpath") or cal["path"]))


# ---------------------------------------------------------------- small helpers

def some(run, dty, v):
    return run.mk(dty, "Some", v)


def none(run, dty):
    return run.mk(dty, "None")


def opt(run, dty, c, f):
    return some(run, dty, f()) if run.decide(c) else none(run, dty)


def targs(run, ty):
    return run.prog.types[ty].get("args", [])


def lin(run, v):
    v = run.deref(v)
    if isinstance(v, EnumI):
        return v.l
    if isinstance(v, Cond):
        return ONE if run.decide(v) else ZERO
    if not isinstance(v, Lin):
        raise Unsupported("integer expected, got %r" % (v,))
    return v


def seqref(run, v):
    """innermost reference to a sequence and the sequence itself."""
    r = v
    while True:
        if not isinstance(r, Ref):
            if isinstance(r, Seq):
                return run.newref(r), r
            raise Unsupported("sequence expected, got %r" % (r,))
        x = run.read(r)
        if isinstance(x, Ref):
            r = x
            continue
        if isinstance(x, Seq):
            return r, x
        raise Unsupported("sequence expected, got %r" % (x,))


def is_range(run, v):
    if isinstance(v, (Agg, SymV)) and v.ty is not None:
        t = run.prog.types[v.ty]
        if t["k"] == "adt" and t["path"].startswith(("std::ops::Range", "core::ops::Range", "std::range::")):
            return t["path"].split("::")[-1]
    return None


def range_bounds(run, v, n):
    """-> (start, end) of a range value over a sequence of length n (end exclusive)."""
    v = run.deref(v)
    k = is_range(run, v)
    if isinstance(v, SymV):
        v = run.expand(v)
    if k == "Range":
        return v.f[0], v.f[1]
    if k == "RangeFrom":
        return v.f[0], n
    if k == "RangeTo":
        return ZERO, v.f[0]
    if k == "RangeFull":
        return ZERO, n
    if k == "RangeInclusive":
        return v.f[0], add(v.f[1], ONE)
    if k == "RangeToInclusive":
        return ZERO, add(v.f[0], ONE)
    raise Unsupported("range %r" % (v,))


def subref(run, r, a, b, n):
    if a.const == 0 and b == n:
        return r
    return Ref(r.cell, r.path + (("sub", a, b),))


def boundary(run, q, at):
    """is `at` a char boundary of the string? Only ASCII data is modelled exactly."""
    return TRUE


# ---------------------------------------------------------------- formatting, logging, misc

@model(r"core::fmt::rt::Argument::.*", r"std::fmt::Arguments::.*", r"core::fmt::rt::.*")
def m_fmt_arg(run, cal, args, dty):
    return Opq(("fmtarg",))


@model(r"std::fmt::format", r"alloc::fmt::format.*", r"std::fmt::Arguments::to_string")
def m_format(run, cal, args, dty):
    return Opq(("text", run.site()))


@model(r"std::fmt::Formatter::.*", r"std::fmt::Debug\w+::.*", r"std::fmt::Write::.*")
def m_formatter(run, cal, args, dty):
    t = run.prog.types[dty]
    if t["k"] == "adt" and t["path"].endswith("Result"):
        return run.mk(dty, "Ok", UNIT)
    return Opq(("fmt",))


@model(r"std::hint::must_use", r"std::hint::black_box", r"std::convert::identity", r"std::borrow::Cow::into_owned")
def m_id(run, cal, args, dty):
    return args[0]


@model(r"log::.*", r"std::io::_?e?print.*")
def m_log(run, cal, args, dty):
    return Opq(("log",))


@model(r"<log::Level as .*PartialOrd<log::LevelFilter>>::.*",)
def m_loglevel(run, cal, args, dty):
    if run.prog.types[dty]["k"] == "bool":
        if run.log_on:
            return cbool(run.choose(2, ("log", len(run.trace))) == 1)
        return FALSE
    o = ONE
    if run.log_on and run.choose(2, ("log", len(run.trace))):
        o = K(-1)
    return some(run, dty, EnumI(targs(run, dty)[0], o))


@model(r".*thiserror::.*", r"alloc::io::error::.*", r"std::io::Error::.*", r"core::io::error::.*",
       r"std::backtrace::.*")
def m_err(run, cal, args, dty):
    return Opq(("err", run.site()))


@model(r"std::intrinsics::cold_path", r"std::mem::drop", r"std::mem::forget", r"core::mem::drop",
       r"std::intrinsics::assert_\w+")
def m_unit(run, cal, args, dty):
    return UNIT


@model(r"std::mem::replace", r"std::mem::take", r"std::mem::swap")
def m_mem(run, cal, args, dty):
    n = strip_generics(cal["path"]).split("::")[-1]
    r = args[0]
    old = run.read(r)
    if n == "replace":
        run.write(r, args[1])
        return old
    if n == "swap":
        o2 = run.read(args[1])
        run.write(r, o2)
        run.write(args[1], old)
        return UNIT
    t = run.prog.types[dty]
    if t["k"] == "adt" and t["path"] in ("std::vec::Vec", "std::string::String"):
        run.write(r, Seq([], old.ety))
        return old
    if t["k"] == "adt" and t["path"] == "std::option::Option":
        run.write(r, none(run, dty))
        return old
    if t["k"] == "uint" or t["k"] == "int":
        run.write(r, ZERO)
        return old
    if t["k"] == "bool":
        run.write(r, FALSE)
        return old
    raise Unsupported("mem::take of %s" % t["s"])


@model(r"std::option::Option::take", r"std::option::Option::replace", r"std::option::Option::insert")
def m_opt_take(run, cal, args, dty):
    n = strip_generics(cal["path"]).split("::")[-1]
    r = args[0]
    old = run.read(r)
    if n == "take":
        run.write(r, none(run, dty))
        return old
    if n == "replace":
        run.write(r, some(run, dty, args[1]))
        return old
    return NotImplemented


# panics
@model(r"std::option::unwrap_failed", r"std::option::expect_failed", r"std::result::unwrap_failed.*",
       r"core::panicking::.*", r"std::rt::panic.*", r"std::rt::begin_panic.*", r"std::panicking::.*",
       r"core::option::.*_failed", r"core::result::unwrap_failed", r"std::process::(exit|abort)",
       r"core::slice::index::slice_.*fail", r"core::str::slice_error_fail.*", r"std::panic::.*")
def m_panic(run, cal, args, dty):
    run.panic("call:" + strip_generics(cal.get("rpath") or cal["path"]))


# ---------------------------------------------------------------- integers

INT = r"(?:core|std)::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(\w+)"
_INT = re.compile("^" + INT + "$")


@model(INT)
def m_int(run, cal, args, dty):
    p = strip_generics(cal.get("rpath") or cal["path"])
    m = _INT.match(p)
    tyname, op = m.group(1), m.group(2)
    try:
        ity = run.prog.bystr(tyname)
        lo, hi = run.prog.int_range(ity)
    except KeyError:
        return NotImplemented
    w = (hi - lo + 1).bit_length() - 1
    a = lin(run, args[0]) if args else None
    b = None
    if len(args) > 1:
        x = run.deref(args[1])
        b = x if isinstance(x, Lin) else None

    def inr(r):
        return cand(ge0(sub(r, K(lo))), ge0(sub(K(hi), r)))
    base = {"add": "Add", "sub": "Sub", "mul": "Mul"}
    for pre in ("checked_", "wrapping_", "saturating_", "overflowing_", "strict_", "unchecked_"):
        if op.startswith(pre) and op[len(pre):] in base and b is not None:
            r = run.arith(base[op[len(pre):]], a, b)
            if pre == "checked_":
                return opt(run, dty, inr(r), lambda: r)
            if pre == "wrapping_":
                return run.fit(r, ity)
            if pre == "overflowing_":
                return Agg(dty, 0, (run.fit(r, ity), cnot(inr(r))))
            if pre in ("strict_", "unchecked_"):
                if not run.decide(inr(r)):
                    run.panic("overflow")
                return r
            if run.decide(ge0(sub(r, K(lo)))):
                return r if run.decide(ge0(sub(K(hi), r))) else K(hi)
            return K(lo)
    if op in ("checked_div", "checked_rem", "checked_div_euclid", "checked_rem_euclid") and lo == 0:
        if run.decide(eq(b, ZERO)):
            return none(run, dty)
        return some(run, dty, run.bin("Div" if "div" in op else "Rem", a, b, ity, None))
    if op in ("div_euclid", "rem_euclid", "wrapping_div", "wrapping_rem") and lo == 0:
        if run.decide(eq(b, ZERO)):
            run.panic("div by zero")
        return run.bin("Div" if "div" in op else "Rem", a, b, ity, None)
    if op in ("checked_shl", "checked_shr"):
        if not run.decide(lt(b, K(w))):
            return none(run, dty)
        return some(run, dty, run.bin("Shl" if op.endswith("l") else "Shr", a, b, ity, None))
    if op in ("wrapping_shl", "wrapping_shr"):
        return run.bin("Shl" if op.endswith("l") else "Shr", a, run.mod(b, w), ity, None)
    if op in ("overflowing_shl", "overflowing_shr"):
        return Agg(dty, 0, (run.bin("Shl" if op.endswith("l") else "Shr", a, run.mod(b, w), ity, None),
                            le(K(w), b)))
    if op == "pow":
        if a.const is not None and a.const == 2:
            r = pow2(b)
            if not run.decide(lt(b, K(w))):
                run.panic("overflow")
            return r
        if a.const is not None and b.const is not None:
            r = K(a.const ** b.const)
            if not run.decide(inr(r)):
                run.panic("overflow")
            return r
        raise Unsupported("pow")
    if op == "checked_pow":
        if a.const == 2:
            return opt(run, dty, lt(b, K(w)), lambda: pow2(b))
        raise Unsupported("pow")
    if op == "abs_diff":
        r = sub(a, b)
        return r if run.decide(ge0(r)) else neg(r)
    if op in ("abs", "unsigned_abs", "wrapping_abs"):
        return a if run.decide(ge0(a)) else neg(a)
    if op in ("wrapping_neg",):
        return run.fit(neg(a), ity)
    if op == "checked_neg":
        return opt(run, dty, inr(neg(a)), lambda: neg(a))
    if op == "signum":
        if run.decide(eq(a, ZERO)):
            return ZERO
        return ONE if run.decide(ge0(a)) else K(-1)
    if op == "is_power_of_two":
        return pow2_cond(run, a, w)
    if op == "is_positive":
        return ge0(sub(a, ONE))
    if op == "is_negative":
        return cnot(ge0(a))
    if op == "next_power_of_two" and a.const is not None:
        return K(1 if a.const <= 1 else 1 << (a.const - 1).bit_length())
    if op == "is_multiple_of":
        if b.const is not None and b.const > 0:
            return eq(mkmod(a, b.const), ZERO)
        raise Unsupported("is_multiple_of")
    if op in ("next_multiple_of", "checked_next_multiple_of", "div_ceil") and b is not None and b.const:
        q = mkdiv(add(a, K(b.const - 1)), b.const)
        if op == "div_ceil":
            return q
        r = scale(q, b.const)
        if op.startswith("checked"):
            return opt(run, dty, inr(r), lambda: r)
        if not run.decide(inr(r)):
            run.panic("overflow")
        return r
    if op in ("leading_zeros", "trailing_zeros", "count_ones", "ilog2", "checked_ilog2"):
        if op in ("ilog2", "checked_ilog2"):
            if run.decide(eq(a, ZERO)):
                if op == "ilog2":
                    run.panic("ilog2 of zero")
                return none(run, dty)
            r = sub(K(w - 1), bitcount(run, "clz", a, w))
            return r if op == "ilog2" else some(run, dty, r)
        return bitcount(run, {"leading_zeros": "clz", "trailing_zeros": "ctz", "count_ones": "pop"}[op], a, w)
    if op in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        q = run.deref(args[0])
        r = ZERO
        n = w // 8
        for i in range(n):
            e = run.seq_get(q, K(i))
            r = add(r, scale(e, 1 << (8 * (i if op != "from_be_bytes" else n - 1 - i))))
        return r
    if op in ("to_le_bytes", "to_ne_bytes", "to_be_bytes"):
        n = w // 8
        es = [("e", mkmod(mkdiv(a, 1 << (8 * i)), 256)) for i in range(n)]
        if op == "to_be_bytes":
            es.reverse()
        return Seq(es, run.prog.bystr("u8"))
    if op in ("swap_bytes", "to_be", "from_be", "rotate_left", "rotate_right", "reverse_bits"):
        return A(atom("app", (op, a) + ((b,) if b is not None else ()), lo, hi)) if False else _unsup(op)
    if op in ("min", "max", "clamp"):
        return NotImplemented
    if op == "is_ascii":
        return le(a, K(127))
    if op == "is_ascii_digit":
        return cand(le(K(48), a), le(a, K(57)))
    if op in ("to_ascii_lowercase", "to_ascii_uppercase"):
        return NotImplemented
    if op in ("MAX", "BITS"):
        return NotImplemented
    if op == "from_str_radix":
        raise Unsupported(op)
    return NotImplemented


def _unsup(x):
    raise Unsupported(x)


def bitcount(run, op, a, w):
    a = run.pinned(a)
    if a.const is not None:
        return K(bitop_eval(op, a.const, 0, w))
    e = run.pow2of(a)
    if e is not None and run.known(lt(e, K(w))) is True:
        return {"clz": sub(K(w - 1), e), "ctz": e, "pop": ONE}[op]
    k, s, c = run.facts._split(a)
    al = run.facts.allowed.get(k)
    if al is not None and len(al) <= 70:
        vs = sorted(x * s + c for x in al)
        return K(bitop_eval(op, pick_of(run, a, vs), 0, w))
    if op == "pop":
        return A(atom("bitop", (op, a, ZERO, w), 0, w))
    if run.decide(eq(a, ZERO)):
        return K(w)
    return A(atom("bitop", (op, a, ZERO, w), 0, w - 1))


def pick_of(run, a, vals):
    for v in vals[:-1]:
        if run.decide(eq(a, K(v))):
            return v
    run.assume(eq(a, K(vals[-1])))
    return vals[-1]


def pow2_cond(run, a, w):
    if a.const is not None:
        v = a.const
        return cbool(v > 0 and v & (v - 1) == 0)
    if run.pow2of(a) is not None:
        return TRUE
    lo, hi = rng(a)
    vals = [1 << i for i in range(w) if hi is None or (1 << i) <= hi]
    return member(a, vals)


@model(r"std::intrinsics::ctlz", r"std::intrinsics::cttz", r"std::intrinsics::ctpop",
       r"std::intrinsics::ctlz_nonzero", r"std::intrinsics::cttz_nonzero")
def m_ctlz(run, cal, args, dty):
    n = cal["path"].split("::")[-1]
    ty = cal["args"][0]
    w, _ = run.tbits(ty)
    return bitcount(run, {"ctl": "clz", "ctt": "ctz", "ctp": "pop"}[n[:3]], args[0], w)


@model(r"std::intrinsics::(saturating|wrapping|unchecked|exact)_\w+", r"std::intrinsics::\w+_with_overflow")
def m_intr(run, cal, args, dty):
    n = strip_generics(cal["path"]).split("::")[-1]
    ty = cal["args"][0]
    lo, hi = run.prog.int_range(ty)
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}.get(n.split("_")[0 if n.endswith("overflow") else 1])
    if op is None:
        return NotImplemented
    r = run.arith(op, args[0], args[1])
    if n.startswith("saturating"):
        if run.decide(ge0(sub(r, K(lo)))):
            return r if run.decide(ge0(sub(K(hi), r))) else K(hi)
        return K(lo)
    if n.endswith("overflow"):
        return Agg(dty, 0, (run.fit(r, ty), cor(lt(r, K(lo)), lt(K(hi), r))))
    return run.fit(r, ty)


@model(r"std::intrinsics::integer_min", r"std::intrinsics::integer_max")
def m_intmin(run, cal, args, dty):
    lo, hi = run.prog.int_range(dty)
    return K(lo if cal["path"].endswith("min") else hi)


@model(r"num::cast", r"num::cast::cast", r"num_traits::cast::cast", r"num_traits::cast",
       r".* as num_traits::(cast::)?NumCast>::from",
       r".*num_traits::(cast::)?(NumCast|FromPrimitive|ToPrimitive)>?::(from|from_u\w+|from_i\w+|to_u\w+|to_i\w+)")
def m_numcast(run, cal, args, dty):
    t = run.prog.types[dty]
    if not (t["k"] == "adt" and t["path"] == "std::option::Option"):
        return NotImplemented
    r = run.prog.int_range(t["args"][0])
    v = run.deref(args[0])
    if isinstance(v, Cond):
        v = ONE if run.decide(v) else ZERO
    if r is None or not isinstance(v, Lin):
        return NotImplemented
    return opt(run, dty, cand(le(K(r[0]), v), le(v, K(r[1]))), lambda: v)


@model(r"(?:std|core)::convert::num::.*<impl std::convert::TryFrom<(\w+)> for (\w+)>::try_from")
def m_tryfrom_int(run, cal, args, dty):
    t = run.prog.types[dty]
    r = run.prog.int_range(t["args"][0])
    v = args[0]
    if r is None or not isinstance(v, Lin):
        return NotImplemented
    if run.decide(cand(le(K(r[0]), v), le(v, K(r[1])))):
        return run.mk(dty, "Ok", v)
    return run.mk(dty, "Err", Opq(("TryFromIntError",)))


@model(r"std::cmp::impls::<impl std::cmp::(Ord|PartialOrd) for (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|char)>::(\w+)")
def m_ordint(run, cal, args, dty):
    n = cal["rpath"].split("::")[-1] if cal.get("rpath") else cal["path"].split("::")[-1]
    a = lin(run, args[0])
    b = lin(run, args[1])
    if n in ("lt", "le", "gt", "ge"):
        return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[n]
    if n == "min":
        return a if run.decide(le(a, b)) else b
    if n == "max":
        return b if run.decide(le(a, b)) else a
    if n == "cmp":
        if run.decide(lt(a, b)):
            return EnumI(dty, K(-1))
        return EnumI(dty, ZERO if run.decide(eq(a, b)) else ONE)
    if n == "partial_cmp":
        oty = targs(run, dty)[0]
        if run.decide(lt(a, b)):
            return some(run, dty, EnumI(oty, K(-1)))
        return some(run, dty, EnumI(oty, ZERO if run.decide(eq(a, b)) else ONE))
    if n == "clamp":
        c = lin(run, args[2])
        if run.decide(lt(a, b)):
            return b
        return c if run.decide(lt(c, a)) else a
    return NotImplemented


@model(r"std::cmp::(min|max)")
def m_minmax(run, cal, args, dty):
    a, b = args
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        return NotImplemented
    n = strip_generics(cal["path"]).split("::")[-1]
    if n == "min":
        return a if run.decide(le(a, b)) else b
    return b if run.decide(le(a, b)) else a


# ---------------------------------------------------------------- chars

CHAR = r"(?:std|core)::char::methods::<impl char>::(\w+)"


@model(CHAR)
def m_char(run, cal, args, dty):
    n = strip_generics(cal.get("rpath") or cal["path"]).split("::")[-1]
    c = lin(run, args[0])

    def between(a, b):
        return cand(le(K(ord(a)), c), le(c, K(ord(b))))
    if n == "len_utf8":
        if run.decide(lt(c, K(0x80))):
            return K(1)
        if run.decide(lt(c, K(0x800))):
            return K(2)
        return K(3) if run.decide(lt(c, K(0x10000))) else K(4)
    if n == "is_ascii_digit":
        return between("0", "9")
    if n == "is_ascii":
        return lt(c, K(128))
    if n == "is_ascii_lowercase":
        return between("a", "z")
    if n == "is_ascii_uppercase":
        return between("A", "Z")
    if n == "is_ascii_alphabetic":
        return cor(between("a", "z"), between("A", "Z"))
    if n == "is_ascii_alphanumeric":
        return cor(between("a", "z"), between("A", "Z"), between("0", "9"))
    if n == "to_digit" and lin(run, args[1]).const == 10:
        return opt(run, dty, between("0", "9"), lambda: sub(c, K(48)))
    if n == "is_digit" and lin(run, args[1]).const == 10:
        return between("0", "9")
    raise Unsupported("char::%s" % n)


@model(r"std::char::convert::<impl std::convert::From<(u8|char)> for \w+>::from",
       r"(?:std|core)::convert::num::.*<impl std::convert::From<(\w+)> for (\w+)>::from")
def m_fromchar(run, cal, args, dty):
    v = args[0]
    if isinstance(v, Cond):
        return ONE if run.decide(v) else ZERO
    return v


# ---------------------------------------------------------------- boxes, clones, equality

@model(r"std::boxed::Box::new", r"std::rc::Rc::new", r"std::sync::Arc::new", r"std::boxed::Box::from")
def m_box_new(run, cal, args, dty):
    return run.newref(args[0])


@model(r"std::boxed::Box::new_uninit")
def m_box_uninit(run, cal, args, dty):
    return run.newref(UNINIT)


@model(r"std::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(run, cal, args, dty):
    v = run.read(args[0])
    while isinstance(v, dict) or (isinstance(v, Agg) and not isinstance(v, Seq)):
        v = next(iter(v.values())) if isinstance(v, dict) else v.f[-1]
    if isinstance(v, Ref):
        v = run.read(v)
    if not isinstance(v, Seq):
        raise Unsupported("vec! of %r" % (v,))
    return v


@model(r"<std::(boxed::Box|rc::Rc|sync::Arc)<T.*> as std::clone::Clone>::clone")
def m_box_clone(run, cal, args, dty):
    v = run.read(args[0])
    return run.newref(run.read(v)) if isinstance(v, Ref) else v


@model(r"<(std::string::String|std::vec::Vec<T.*>|indexmap::.*|hashbrown::.*|std::collections::.*) as std::clone::Clone>::clone",
       r"std::collections::hash::.*Clone>::clone", r"<std::collections::.*Clone>::clone",
       r".*str::<impl str>::to_owned", r".*<impl .* for str>::to_owned", r".*<impl std::borrow::ToOwned for str>::to_owned",
       r".*slice::<impl std::borrow::ToOwned for \[T\]>::to_owned", r"std::slice::<impl \[T\]>::to_vec",
       r"std::str::<impl str>::to_string", r"<str as std::string::ToString>::to_string",
       r"<std::string::String as std::convert::From<&str>>::from", r"<std::string::String as std::convert::From<&mut str>>::from",
       r"<std::vec::Vec<T> as std::convert::From<&\[T\]>>::from",
       r"<std::vec::Vec<T> as std::convert::From<&.*>>::from",
       r"std::slice::<impl \[T\]>::into_vec",
       r"<std::string::String as std::str::FromStr>::from_str_")
def m_clone_seq(run, cal, args, dty):
    v = run.deref(args[0])
    return v


@model(r"<T as std::string::ToString>::to_string", r"<T as std::string::SpecToString>::spec_to_string")
def m_to_string(run, cal, args, dty):
    v = run.deref(args[0])
    if isinstance(v, Seq):
        return v
    return Opq(("text", run.site()))


@model(r"<std::boxed::Box<T.*> as std::cmp::PartialEq>::(eq|ne)", r"<std::string::String as std::cmp::PartialEq.*>::(eq|ne)",
       r"std::vec::partial_eq::.*::(eq|ne)", r"std::slice::cmp::.*::(eq|ne)", r"core::slice::cmp::.*::(eq|ne)",
       r"std::str::traits::.*::(eq|ne)", r"core::str::traits::<impl std::cmp::PartialEq.*>::(eq|ne)",
       r"std::array::equality::.*::(eq|ne)", r"core::array::equality::.*::(eq|ne)",
       r"std::string::<impl std::cmp::PartialEq.*>::(eq|ne)", r"<&.* as std::cmp::PartialEq.*>::(eq|ne)",
       r"std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::(eq|ne)",
       r"std::cmp::impls::<impl std::cmp::PartialEq for \w+>::(eq|ne)",
       r"<indexmap::.* as std::cmp::PartialEq.*>::(eq|ne)", r"<std::collections::.* as std::cmp::PartialEq.*>::(eq|ne)")
def m_eq(run, cal, args, dty):
    n = (cal.get("rpath") or cal["path"]).split("::")[-1]
    c = run.veq(args[0], args[1])
    return c if n == "eq" else cnot(c)


@model(r"<std::boxed::Box<T.*> as std::convert::AsRef<T>>::as_ref", r"<std::boxed::Box<T.*> as std::convert::AsMut<T>>::as_mut",
       r"<std::boxed::Box<T.*> as std::ops::Deref(Mut)?>::deref(_mut)?", r"<std::boxed::Box<T.*> as std::borrow::Borrow.*>::borrow.*",
       r"<&(mut )?T as std::ops::Deref(Mut)?>::deref(_mut)?", r"<std::(rc::Rc|sync::Arc)<T.*> as .*>::(deref|as_ref)")
def m_box_ref(run, cal, args, dty):
    v = run.read(args[0])
    return v if isinstance(v, Ref) else args[0]


@model(r"<std::vec::Vec<T.*> as std::ops::Deref(Mut)?>::deref(_mut)?", r"<std::string::String as std::ops::Deref(Mut)?>::deref(_mut)?",
       r"std::vec::Vec::as_slice", r"std::vec::Vec::as_mut_slice", r"std::string::String::as_str", r"std::string::String::as_bytes",
       r"<std::string::String as std::convert::AsRef<.*>>::as_ref", r"<std::vec::Vec<T.*> as std::convert::AsRef<.*>>::as_ref",
       r".*<impl std::convert::AsRef<.*> for (str|\[T\]|\[T; N\])>::as_ref", r"<str as std::convert::AsRef<.*>>::as_ref",
       r"<\[T\] as std::convert::AsRef<.*>>::as_ref", r"(core|std)::array::<impl \[T; N\]>::as_(mut_)?slice",
       r"<std::(vec::Vec<T.*>|string::String) as std::borrow::Borrow.*>::borrow", r".*str::<impl str>::as_bytes",
       r"<std::vec::Vec<T.*> as std::convert::AsMut<.*>>::as_mut", r"core::(str|slice)::<impl .*AsRef.*>::as_ref",
       r"<T as std::borrow::Borrow<T>>::borrow", r"<&T as std::convert::AsRef<U>>::as_ref")
def m_deref_seq(run, cal, args, dty):
    try:
        return seqref(run, args[0])[0]
    except Unsupported:
        return args[0]


@model(r"std::string::String::into_bytes", r"std::vec::Vec::into_boxed_slice", r"std::string::String::into_boxed_str",
       r"<std::vec::Vec<T.*> as std::convert::From<.*>>::from", r"std::str::<impl str>::into_string")
def m_idseq(run, cal, args, dty):
    return run.deref(args[0]) if not strip_generics(cal["path"]).endswith(("boxed_slice", "boxed_str")) else run.newref(run.deref(args[0]))


# ---------------------------------------------------------------- vectors, slices

@model(r"std::vec::Vec::new", r"<std::vec::Vec<T> as std::default::Default>::default", r"std::string::String::new",
       r"<std::string::String as std::default::Default>::default")
def m_vec_new(run, cal, args, dty):
    a = targs(run, dty)
    return Seq([], a[0] if a else None)


@model(r"std::vec::Vec::with_capacity", r"std::string::String::with_capacity", r"std::vec::Vec::try_with_capacity")
def m_vec_cap(run, cal, args, dty):
    run.events.append(("alloc", args[0], run.site()))
    a = targs(run, dty)
    return Seq([], a[0] if a else None)


@model(r"std::vec::Vec::reserve(_exact)?", r"std::string::String::reserve", r"std::vec::Vec::shrink_to_fit")
def m_vec_reserve(run, cal, args, dty):
    if len(args) > 1:
        run.events.append(("alloc", args[1], run.site()))
    return UNIT


@model(r"std::vec::from_elem")
def m_from_elem(run, cal, args, dty):
    n = args[1]
    run.events.append(("alloc", n, run.site()))
    a = targs(run, dty)
    if n.const is not None and n.const <= 4096:
        return Seq([("e", args[0])] * n.const, a[0])
    raise Unsupported("vec![x; n]")


@model(r"std::vec::Vec::push", r"std::string::String::push")
def m_push(run, cal, args, dty):
    r, q = seqref(run, args[0])
    v = args[1]
    run.grows += 1
    run.write(r, run.seq_push(q, v))
    return UNIT


@model(r"std::string::String::push_str", r"std::vec::Vec::extend_from_slice")
def m_push_str(run, cal, args, dty):
    r, q = seqref(run, args[0])
    s = run.deref(args[1])
    if isinstance(s, Opq):
        run.write(r, Opq(("text",)))
        return UNIT
    run.grows += 1
    run.write(r, run.seq_cat(q, s))
    return UNIT


@model(r"std::vec::Vec::append")
def m_append(run, cal, args, dty):
    r, q = seqref(run, args[0])
    r2, q2 = seqref(run, args[1])
    run.write(r, run.seq_cat(q, q2))
    run.write(r2, Seq([], q2.ety))
    return UNIT


@model(r"std::vec::Vec::clear", r"std::string::String::clear")
def m_clear(run, cal, args, dty):
    r, q = seqref(run, args[0])
    run.write(r, Seq([], q.ety))
    return UNIT


@model(r"std::vec::Vec::truncate", r"std::string::String::truncate")
def m_truncate(run, cal, args, dty):
    r, q = seqref(run, args[0])
    n = args[1]
    if run.decide(lt(n, run.seq_len(q))):
        run.write(r, run.seq_slice(q, ZERO, n))
    return UNIT


@model(r"std::vec::Vec::pop", r"std::string::String::pop")
def m_pop(run, cal, args, dty):
    r, q = seqref(run, args[0])
    n = run.seq_len(q)
    if run.decide(eq(n, ZERO)):
        return none(run, dty)
    v = run.seq_get(q, sub(n, ONE))
    run.write(r, run.seq_slice(q, ZERO, sub(n, ONE)))
    return some(run, dty, v)


@model(r"std::vec::Vec::insert")
def m_insert(run, cal, args, dty):
    r, q = seqref(run, args[0])
    i = args[1]
    n = run.seq_len(q)
    run.grows += 1
    if not run.decide(le(i, n)):
        run.panic("insert out of bounds")
    a, b = run.seq_split(q, i)
    run.write(r, Seq(a.segs + (("e", args[2]),) + b.segs, q.ety))
    return UNIT


@model(r"std::vec::Vec::(remove|swap_remove)")
def m_remove(run, cal, args, dty):
    r, q = seqref(run, args[0])
    i = args[1]
    n = run.seq_len(q)
    if not run.decide(lt(i, n)):
        run.panic("remove out of bounds")
    v = run.seq_get(q, i)
    a, b = run.seq_split(q, i)
    _, b2 = run.seq_split(b, ONE)
    if "swap_remove" in cal["path"]:
        m = run.seq_len(b2)
        if run.decide(eq(m, ZERO)):
            run.write(r, a)
        else:
            b3, last = run.seq_split(b2, sub(m, ONE))
            run.write(r, Seq(a.segs + last.segs + b3.segs, q.ety))
        return v
    run.write(r, Seq(a.segs + b2.segs, q.ety))
    return v


@model(r"std::vec::Vec::(len)", r"(core|std)::slice::<impl \[T\]>::len", r"(core|std)::str::<impl str>::len",
       r"std::string::String::len", r"std::collections::VecDeque::len")
def m_len(run, cal, args, dty):
    v = run.deref(args[0])
    if isinstance(v, Opq):
        raise Unsupported("len of text")
    return run.seq_len(v)


@model(r"std::vec::Vec::is_empty", r"(core|std)::slice::<impl \[T\]>::is_empty", r"(core|std)::str::<impl str>::is_empty",
       r"std::string::String::is_empty")
def m_is_empty(run, cal, args, dty):
    return eq(run.seq_len(run.deref(args[0])), ZERO)


@model(r"(core|std)::slice::<impl \[T\]>::(first|last|first_mut|last_mut)")
def m_first(run, cal, args, dty):
    r, q = seqref(run, args[0])
    n = run.seq_len(q)
    if run.decide(eq(n, ZERO)):
        return none(run, dty)
    i = ZERO if "first" in cal["path"].split("::")[-1] else sub(n, ONE)
    return some(run, dty, Ref(r.cell, r.path + (("i", i),)))


@model(r"(core|std)::slice::<impl \[T\]>::(get|get_mut|get_unchecked)", r"(core|std)::str::<impl str>::(get|get_mut)",
       r"std::vec::Vec::(get|get_mut)")
def m_get(run, cal, args, dty):
    r, q = seqref(run, args[0])
    n = run.seq_len(q)
    i = args[1]
    if isinstance(i, Lin):
        if run.decide(lt(i, n)):
            return some(run, dty, Ref(r.cell, r.path + (("i", i),)))
        return none(run, dty)
    a, b = range_bounds(run, i, n)
    if run.decide(le(a, b)) and run.decide(le(b, n)):
        return some(run, dty, subref(run, r, a, b, n))
    return none(run, dty)


@model(r"<std::vec::Vec<T.*> as std::ops::Index(Mut)?<I>>::index(_mut)?", r"(core|std)::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?",
       r"(core|std)::str::traits::<impl std::ops::Index(Mut)?<I> for str>::index(_mut)?", r"<std::string::String as std::ops::Index(Mut)?<.*>>::index(_mut)?",
       r"(core|std)::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?")
def m_index(run, cal, args, dty):
    r, q = seqref(run, args[0])
    n = run.seq_len(q)
    i = args[1]
    if isinstance(i, Lin):
        if not run.decide(lt(i, n)):
            run.panic("index out of bounds")
        return Ref(r.cell, r.path + (("i", i),))
    a, b = range_bounds(run, i, n)
    if not run.decide(le(a, b)):
        run.panic("slice start > end")
    if not run.decide(le(b, n)):
        run.panic("slice end out of bounds")
    if "str" in cal.get("rpath", "") and run.opts.get("utf8"):
        for at in (a, b):
            if not run.decide(run.opts["utf8"](run, q, at)):
                run.panic("not a char boundary")
    return subref(run, r, a, b, n)


@model(r"(core|std)::slice::<impl \[T\]>::(split_at|split_at_mut)", r"(core|std)::str::<impl str>::split_at")
def m_split_at(run, cal, args, dty):
    r, q = seqref(run, args[0])
    n = run.seq_len(q)
    i = args[1]
    if not run.decide(le(i, n)):
        run.panic("split_at out of bounds")
    return Agg(dty, 0, (subref(run, r, ZERO, i, n), subref(run, r, i, n, n)))


@model(r"(core|std)::slice::<impl \[T\]>::(split_first|split_last)", r"(core|std)::slice::<impl \[T\]>::split_at_checked")
def m_split_first(run, cal, args, dty):
    r, q = seqref(run, args[0])
    n = run.seq_len(q)
    tup = targs(run, dty)[0]
    name = cal["path"].split("::")[-1]
    if name.startswith("split_at"):
        if not run.decide(le(args[1], n)):
            return none(run, dty)
        return some(run, dty, Agg(tup, 0, (subref(run, r, ZERO, args[1], n), subref(run, r, args[1], n, n))))
    if run.decide(eq(n, ZERO)):
        return none(run, dty)
    if name == "split_first":
        return some(run, dty, Agg(tup, 0, (Ref(r.cell, r.path + (("i", ZERO),)), subref(run, r, ONE, n, n))))
    m = sub(n, ONE)
    return some(run, dty, Agg(tup, 0, (Ref(r.cell, r.path + (("i", m),)), subref(run, r, ZERO, m, n))))


@model(r"(core|std)::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)")
def m_copy_from(run, cal, args, dty):
    r, q = seqref(run, args[0])
    s = run.deref(args[1])
    if not run.decide(eq(run.seq_len(q), run.seq_len(s))):
        run.panic("copy_from_slice length mismatch")
    run.write(r, Seq(s.segs, q.ety))
    return UNIT


@model(r"(core|std)::slice::<impl \[T\]>::contains", )
def m_contains(run, cal, args, dty):
    q = run.deref(args[0])
    return cor(*[run.veq(e, args[1]) for e in run.seq_elems(q)])


@model(r"(core|std)::slice::<impl \[T\]>::(starts_with|ends_with)")
def m_starts(run, cal, args, dty):
    q, s = run.deref(args[0]), run.deref(args[1])
    n, m = run.seq_len(q), run.seq_len(s)
    if not run.decide(le(m, n)):
        return FALSE
    if "starts" in cal["path"]:
        return run.seq_eq(run.seq_slice(q, ZERO, m), s)
    return run.seq_eq(run.seq_slice(q, sub(n, m), n), s)


@model(r"(?:core|std)::array::<impl std::convert::TryFrom<&(?:'a )?(?:mut )?\[T\]> for (?:&(?:'a )?(?:mut )?)?\[T; N\]>::try_from")
def m_array_try(run, cal, args, dty):
    t = run.prog.types[dty]
    at = run.prog.types[t["args"][0]]
    isref = at["k"] == "ref"
    if isref:
        at = run.prog.types[at["to"]]
    q = run.deref(args[0])
    n = at["len"]
    if run.decide(eq(run.seq_len(q), K(n))):
        arr = Seq([("e", run.seq_get(q, K(i))) for i in range(n)], at["elem"])
        return run.mk(dty, "Ok", run.newref(arr) if isref else arr)
    return run.mk(dty, "Err", Opq(("TryFromSliceError",)))


@model(r"<std::vec::Vec<T.*> as std::convert::TryInto<.*>>::try_into", r"std::array::<impl std::convert::TryFrom<std::vec::Vec<T.*>> for \[T; N\]>::try_from")
def m_array_try_vec(run, cal, args, dty):
    t = run.prog.types[dty]
    at = run.prog.types[t["args"][0]]
    if at["k"] != "array":
        return NotImplemented
    q = run.deref(args[0])
    if run.decide(eq(run.seq_len(q), K(at["len"]))):
        return run.mk(dty, "Ok", Seq([("e", run.seq_get(q, K(i))) for i in range(at["len"])], at["elem"]))
    return run.mk(dty, "Err", q)


@model(r"(core|std)::slice::<impl \[T\]>::(reverse|sort.*|rotate_.*|fill|swap|dedup.*|binary_search.*|concat|join|partition_point)",
       r"std::vec::Vec::(retain.*|dedup.*|drain|splice|resize.*|split_off|extend_from_within)")
def m_unsup_seq(run, cal, args, dty):
    n = strip_generics(cal["path"]).split("::")[-1]
    r, q = seqref(run, args[0])
    if n == "reverse":
        es = run.seq_elems(q)
        run.write(r, Seq([("e", e) for e in reversed(es)], q.ety))
        return UNIT
    if n == "swap":
        x, y = run.seq_get(q, args[1]), run.seq_get(q, args[2])
        run.write(r, run.seq_set(run.seq_set(q, args[1], y), args[2], x))
        return UNIT
    if n == "split_off":
        a, b = run.seq_split(q, args[1])
        run.write(r, a)
        return b
    if n == "drain":
        m = run.seq_len(q)
        a, b = range_bounds(run, args[1], m)
        if not run.decide(le(a, b)) or not run.decide(le(b, m)):
            run.panic("drain out of bounds")
        mid = run.seq_slice(q, a, b)
        l, _ = run.seq_split(q, a)
        _, rr = run.seq_split(q, b)
        run.write(r, Seq(l.segs + rr.segs, q.ety))
        return IterV("vec", mid, ZERO, run.seq_len(mid))
    if n == "retain":
        out = []
        for e in run.seq_elems(q):
            if truth(run, run.call_value(args[1], [run.newref(e)], None)):
                out.append(("e", e))
        run.write(r, Seq(out, q.ety))
        return UNIT
    if n in ("dedup", "dedup_by_key", "dedup_by"):
        out = []
        for e in run.seq_elems(q):
            if out:
                if n == "dedup":
                    same = run.decide(run.veq(out[-1], e))
                elif n == "dedup_by":
                    same = truth(run, run.call_value(args[1], [run.newref(e), run.newref(out[-1])], None))
                else:
                    same = run.decide(run.veq(run.call_value(args[1], [run.newref(out[-1])], None), run.call_value(args[1], [run.newref(e)], None)))
                if same:
                    continue
            out.append(e)
        run.write(r, Seq([("e", e) for e in out], q.ety))
        return UNIT
    if n in ("rotate_left", "rotate_right"):
        m = run.seq_len(q)
        if not run.decide(le(args[1], m)):
            run.panic("rotate out of bounds")
        a, b = run.seq_split(q, args[1] if n == "rotate_left" else sub(m, args[1]))
        run.write(r, Seq(b.segs + a.segs, q.ety))
        return UNIT
    if n in ("binary_search_by", "binary_search_by_key", "binary_search"):
        return bsearch(run, n, q, args, dty)
    if n == "partition_point":
        es = run.seq_elems(q)
        for i, e in enumerate(es):
            if not truth(run, run.call_value(args[1], [run.newref(e)], None)):
                return K(i)
        return K(len(es))
    if n == "resize":
        m = args[1]
        l = run.seq_len(q)
        run.events.append(("alloc", m, run.site()))
        if run.decide(le(m, l)):
            run.write(r, run.seq_slice(q, ZERO, m))
        else:
            k = sub(m, l)
            if k.const is None or k.const > 4096:
                raise Unsupported("resize")
            run.write(r, Seq(q.segs + (("e", args[2]),) * k.const, q.ety))
        return UNIT
    if n in ("sort_by_key", "sort_by", "sort", "sort_unstable", "sort_unstable_by_key", "sort_unstable_by"):
        return sort(run, n.replace("_unstable", ""), r, q, args)
    raise Unsupported(n)


def ordering(run, v):
    v = run.deref(v)
    if isinstance(v, Agg):     # Option<Ordering>
        v = v.f[0]
    if isinstance(v, EnumI):
        return v.l
    raise Unsupported("ordering")


def bsearch(run, n, q, args, dty):
    es = run.seq_elems(q)
    for i, e in enumerate(es):
        if n == "binary_search_by":
            o = ordering(run, run.call_value(args[1], [run.newref(e)], None))
        elif n == "binary_search_by_key":
            k = run.call_value(args[2], [run.newref(e)], None)
            o = cmpval(run, k, args[1])
        else:
            o = cmpval(run, e, args[1])
        if run.decide(eq(o, ZERO)):
            return run.mk(dty, "Ok", K(i))
        if run.decide(eq(o, ONE)):
            return run.mk(dty, "Err", K(i))
    return run.mk(dty, "Err", K(len(es)))


def cmpval(run, a, b):
    """ordering of two values: integers, fieldless enums, references, tuples, and types with a dumped Ord impl."""
    a, b = run.deref(a), run.deref(b)
    if isinstance(a, EnumI):
        a, b = a.l, run.discr(b)
    if isinstance(a, Lin):
        if run.decide(lt(a, b)):
            return K(-1)
        return ZERO if run.decide(eq(a, b)) else ONE
    if isinstance(a, (Agg, SymV)) and a.ty is not None:
        t = run.prog.types[a.ty]
        if t["k"] == "tuple":
            a = run.expand(a) if isinstance(a, SymV) else a
            b = run.expand(b) if isinstance(b, SymV) else b
            for x, y in zip(a.f, b.f):
                o = cmpval(run, x, y)
                if not run.decide(eq(o, ZERO)):
                    return o
            return ZERO
        for f in run.prog.d["fns"]:
            if f.get("has_body") and f["disp"] == "<%s as std::cmp::Ord>::cmp" % t["s"]:
                return ordering(run, run.call_fn(f, [run.newref(a), run.newref(b)]))
    raise Unsupported("cmp")


def sort(run, n, r, q, args):
    es = run.seq_elems(q, 8)
    out = []
    for e in es:
        i = len(out)
        while i > 0:
            if n == "sort_by_key":
                a = run.call_value(args[1], [run.newref(out[i - 1])], None)
                b = run.call_value(args[1], [run.newref(e)], None)
                o = cmpval(run, a, b)
            elif n == "sort_by":
                o = ordering(run, run.call_value(args[1], [run.newref(out[i - 1]), run.newref(e)], None))
            else:
                o = cmpval(run, out[i - 1], e)
            if run.decide(eq(o, ONE)):
                i -= 1
            else:
                break
        out.insert(i, e)
    run.write(r, Seq([("e", e) for e in out], q.ety))
    return UNIT


@model(r"<std::vec::Vec<T.*> as std::iter::Extend<.*>>::extend", r"<std::string::String as std::iter::Extend<.*>>::extend",
       r"<std::collections::.* as std::iter::Extend<.*>>::extend")
def m_extend(run, cal, args, dty):
    v = run.deref(args[0])
    if isinstance(v, MapV):
        r = args[0]
        for it in items(run, into_iter(run, args[1])):
            it = run.expand(it) if isinstance(it, SymV) else it
            map_insert(run, r, it.f[0], it.f[1])
        return UNIT
    r, q = seqref(run, args[0])
    src = args[1]
    s = run.deref(src) if not isinstance(src, IterV) else None
    if isinstance(s, Seq):
        run.write(r, run.seq_cat(q, s))
        return UNIT
    for v in items(run, into_iter(run, src)):
        v = run.deref(v) if isinstance(v, Ref) and "&'a T" in (cal.get("rpath") or "") else v
        q = run.seq_push(q, v)
    run.write(r, q)
    return UNIT


# ---------------------------------------------------------------- maps

@model(r"(indexmap|hashbrown|std::collections)::.*(Default>::default)", r"<(indexmap|hashbrown|std::collections)::.* as std::default::Default>::default",
       r"(indexmap|hashbrown|std::collections)::.*(Map|Set)::(new|with_capacity.*|with_hasher)")
def m_map_new(run, cal, args, dty):
    a = targs(run, dty)
    if args and isinstance(args[0], Lin):
        run.events.append(("alloc", args[0], run.site()))
    return MapV(None, (), a[1] if len(a) > 1 else None)


MAP = r"(?:indexmap|hashbrown|std::collections)::.*(?:Map|IndexMap::map)::"


def map_lookup(run, r, k):
    """index of the entry for key k or None; materialises entries of symbolic maps."""
    m = run.read(r)
    if not isinstance(m, MapV):
        raise Unsupported("map %r" % (m,))
    k = run.deref(k)
    for i in range(len(m.entries)):
        if run.decide(run.veq(m.entries[i][0], k)):
            return i
    if m.base is None:
        return None
    kk = run.key(k)
    if not run.decide(ge0(sub(sym(("has", m.base, kk), 0, 1), ONE))):
        return None
    v = run.mkval(("get", m.base, kk), m.vty)
    run.write(r, MapV(m.base, m.entries + ((k, v),), m.vty))
    return len(m.entries)


def map_insert(run, r, k, v):
    i = map_lookup(run, r, k)
    m = run.read(r)
    if i is None:
        run.write(r, MapV(m.base, m.entries + ((k, v),), m.vty))
        return None
    en = list(m.entries)
    old = en[i][1]
    en[i] = (en[i][0], v)
    run.write(r, MapV(m.base, en, m.vty))
    return old


def mapref(run, v):
    r = v
    while True:
        x = run.read(r)
        if isinstance(x, Ref):
            r = x
        else:
            return r


@model(MAP + r"(get|get_mut|contains_key|insert|entry|remove|len|is_empty|get_key_value|iter|values|keys|iter_mut|values_mut|swap_remove|shift_remove|get_index|reserve)")
def m_map(run, cal, args, dty):
    n = strip_generics(cal.get("rpath") or cal["path"]).split("::")[-1]
    r = mapref(run, args[0])
    if n in ("get", "get_mut"):
        i = map_lookup(run, r, args[1])
        if i is None:
            return none(run, dty)
        return some(run, dty, Ref(r.cell, r.path + (("m", i),)))
    if n == "contains_key":
        return cbool(map_lookup(run, r, args[1]) is not None)
    if n == "insert":
        old = map_insert(run, r, args[1], args[2])
        return none(run, dty) if old is None else some(run, dty, old)
    if n == "entry":
        return IterV("entry", r, args[1])
    if n == "reserve":
        run.events.append(("alloc", args[1], run.site()))
        return UNIT
    if n in ("remove", "swap_remove", "shift_remove"):
        i = map_lookup(run, r, args[1])
        if i is None:
            return none(run, dty)
        m = run.read(r)
        v = m.entries[i][1]
        if m.base is not None:
            raise Unsupported("remove from symbolic map")
        run.write(r, MapV(m.base, m.entries[:i] + m.entries[i + 1:], m.vty))
        return some(run, dty, v)
    m = run.read(r)
    if m.base is not None:
        raise Unsupported("iteration over a symbolic map")
    if n == "len":
        return K(len(m.entries))
    if n == "is_empty":
        return cbool(not m.entries)
    if n in ("values", "values_mut"):
        return IterV("list", tuple(Ref(r.cell, r.path + (("m", i),)) for i in range(len(m.entries))), 0)
    if n == "keys":
        return IterV("list", tuple(run.newref(k) for k, _ in m.entries), 0)
    if n in ("iter", "iter_mut"):
        return IterV("list", tuple(Agg(None, 0, (run.newref(k), Ref(r.cell, r.path + (("m", i),))))
                                   for i, (k, _) in enumerate(m.entries)), 0)
    raise Unsupported("map " + n)


@model(r"(indexmap|hashbrown|std::collections)::.*Entry::(or_insert_with|or_insert|or_default|or_insert_with_key)")
def m_entry(run, cal, args, dty):
    e = args[0]
    n = strip_generics(cal.get("rpath") or cal["path"]).split("::")[-1]
    r, k = e.a
    i = map_lookup(run, r, k)
    if i is None:
        if n == "or_insert":
            v = args[1]
        elif n == "or_insert_with":
            v = run.call_value(args[1], [], run.prog.types[dty].get("to"))
        elif n == "or_default":
            t = run.prog.types[run.prog.types[dty]["to"]]
            if t["k"] == "adt" and t["path"] in ("std::vec::Vec", "std::string::String"):
                v = Seq([], t["args"][0] if t.get("args") and t["path"] == "std::vec::Vec" else None)
            elif t["k"] == "adt" and "Map" in t["path"]:
                v = MapV(None, (), t["args"][1])
            elif t["k"] in ("int", "uint"):
                v = ZERO
            else:
                f = run.prog.find(lambda f: f["disp"] == "<%s as std::default::Default>::default" % t["s"])
                if not f:
                    raise Unsupported("or_default")
                v = run.call_fn(f[0], [])
        else:
            raise Unsupported(n)
        map_insert(run, r, k, v)
        m = run.read(r)
        i = len(m.entries) - 1
    return Ref(r.cell, r.path + (("m", i),))


@model(r"(indexmap|hashbrown|std::collections)::.*Entry::and_modify")
def m_and_modify(run, cal, args, dty):
    r, k = args[0].a
    i = map_lookup(run, r, k)
    if i is not None:
        run.call_value(args[1], [Ref(r.cell, r.path + (("m", i),))], None)
    return args[0]


@model(r"<(std::collections|indexmap|hashbrown)::.* as std::ops::Index.*>::index")
def m_map_index(run, cal, args, dty):
    r = mapref(run, args[0])
    i = map_lookup(run, r, args[1])
    if i is None:
        run.panic("map index")
    return Ref(r.cell, r.path + (("m", i),))


# ---------------------------------------------------------------- strings

def plain(run, q):
    """bytes of a fully known string, else None"""
    if not isinstance(q, Seq):
        return None
    out = b""
    for s in q.segs:
        if s[0] == "b":
            out += s[1]
        elif s[0] == "e" and isinstance(s[1], Lin) and s[1].const is not None:
            out += bytes([s[1].const]) if s[1].const < 128 else chr(s[1].const).encode()
        else:
            return None
    return out


@model(r"std::string::String::from_utf8", r"(std|core)::str::(converts::)?from_utf8", r"(std|core)::str::<impl str>::from_utf8")
def m_from_utf8(run, cal, args, dty):
    q = run.deref(args[0])
    b = plain(run, q)
    if b is not None:
        try:
            b.decode("utf-8")
            ok = True
        except UnicodeDecodeError:
            ok = False
    else:
        ok = run.decide(ge0(sub(sym(("utf8", run.key(q)), 0, 1), ONE)))
    if ok:
        return run.mk(dty, "Ok", Seq(q.segs, None) if not isinstance(args[0], Ref) else retype_ref(run, args[0], q))
    return run.mk(dty, "Err", Opq(("Utf8Error",), q))


@model(r"std::string::String::from_utf8_lossy", r"std::string::String::from_utf8_lossy_owned")
def m_from_utf8_lossy(run, cal, args, dty):
    q = run.deref(args[0])
    b = plain(run, q)
    if b is not None:
        return Seq([("b", b.decode("utf-8", "replace").encode())] if b else [], None)
    if run.decide(ge0(sub(sym(("utf8", run.key(q)), 0, 1), ONE))):
        return Seq(q.segs, None)
    k = ("lossy", run.key(q))
    return Seq([("s", k, ZERO, sym(("len", k), 1, MAXLEN), None)], None)


@model(r"(core|std)::str::(error::)?Utf8Error::valid_up_to", r"std::string::FromUtf8Error::(utf8_error|into_bytes|as_bytes)")
def m_utf8error(run, cal, args, dty):
    n = strip_generics(cal["path"]).split("::")[-1]
    e = run.deref(args[0])
    if not isinstance(e, Opq) or e.q is None:
        raise Unsupported(n)
    if n == "utf8_error":
        return e
    if n != "valid_up_to":
        return run.newref(e.q) if n == "as_bytes" else e.q
    q = e.q
    l = run.seq_len(q)
    v = sym(("valid", run.key(q)), 0, MAXLEN)
    run.assume(lt(v, l))
    head = run.seq_slice(q, ZERO, v)
    if isinstance(head, Seq) and plain(run, head) is None:
        run.assume(eq(sym(("utf8", run.key(head)), 0, 1), ONE))
    return v


def retype_ref(run, r, q):
    return run.newref(Seq(q.segs, q.ety))


@model(r"(core|std)::str::<impl str>::is_ascii", r"(core|std)::slice::ascii::<impl \[u8\]>::is_ascii")
def m_is_ascii(run, cal, args, dty):
    q = run.deref(args[0])
    cs = []
    for s in q.segs:
        if s[0] == "b":
            if any(x > 127 for x in s[1]):
                return FALSE
        elif s[0] == "e":
            cs.append(lt(lin(run, s[1]), K(128)))
        elif is_digits(s):
            pass
        else:
            cs.append(ge0(sub(sym(("ascii", s[1], s[2], s[3]), 0, 1), ONE)))
    return cand(*cs)


def is_digits(s):
    return s[0] == "s" and isinstance(s[1], tuple) and s[1][0] == "digits"


def split_seq(run, q, pred):
    """split a string at single-byte separators; pred(byte Lin) -> Cond."""
    parts, cur = [], []
    for s in q.segs:
        if s[0] == "b":
            buf = b""
            for x in s[1]:
                if run.decide(pred(K(x))):
                    if buf:
                        cur.append(("b", buf))
                    parts.append(Seq(cur, q.ety))
                    cur, buf = [], b""
                else:
                    buf += bytes([x])
            if buf:
                cur.append(("b", buf))
        elif s[0] == "e":
            if run.decide(pred(lin(run, s[1]))):
                parts.append(Seq(cur, q.ety))
                cur = []
            else:
                cur.append(s)
        elif is_digits(s):
            # a run of decimal digits; separators that are digits are not modelled
            if any(run.known(pred(K(d))) is not False for d in range(48, 58)):
                raise Unsupported("separator in digits")
            cur.append(s)
        else:
            # an unknown text: without a separator, or with one; more are not modelled
            k = getattr(pred, "key", None)
            if k is None:
                raise Unsupported("split of unknown text")
            one = Seq([s], q.ety)
            k = (run.key(one), k)
            n = sym(("separators", k), 0, MAXLEN)
            if run.decide(eq(n, ZERO)):
                cur.append(s)
                continue
            at, ln = sym(("separator at", k), 0, MAXLEN), run.seq_len(one)
            run.assume(lt(at, ln))
            run.assume(pred(char_at(run, one, at)))
            if not run.decide(eq(n, ONE)):
                raise Unsupported("split of unknown text")
            parts.append(Seq(cur + list(run.seq_slice(one, ZERO, at).segs), q.ety))
            cur = list(run.seq_slice(one, add(at, ONE), ln).segs)
    parts.append(Seq(cur, q.ety))
    return parts


class BytePred:
    """a separator given as one character"""
    def __init__(self, c):
        self.c, self.key = c, repr(c)

    def __call__(self, x):
        return eq(x, self.c)


def char_pred(run, pat):
    """a str pattern as predicate on bytes (ASCII chars, closures, one-char strings)."""
    v = run.deref(pat)
    if isinstance(v, Lin):
        return BytePred(v) if v.const is not None and v.const < 128 else lambda x: eq(x, v)
    if isinstance(v, Seq):
        b = plain(run, v)
        if b is not None and len(b) == 1:
            return BytePred(K(b[0]))
        es = [e for e in run.seq_elems(v)] if b is None else None
        if es and isinstance(run.deref(pat), Seq) and v.ety is not None:
            return lambda x: cor(*[eq(x, e) for e in es])
        raise Unsupported("pattern")
    return lambda x: run.call_value(pat, [x], None)


@model(r"(core|std)::str::<impl str>::(split|rsplit|splitn|split_terminator|split_once|rsplit_once|find|rfind|contains|starts_with|ends_with|strip_prefix|strip_suffix|trim|trim_start_matches|trim_end_matches|split_whitespace|lines|char_indices|bytes|chars|parse|is_char_boundary|eq_ignore_ascii_case|to_lowercase|to_uppercase|repeat|replace|matches|trim_matches|split_inclusive|to_ascii_lowercase|to_ascii_uppercase|trim_end|trim_start|split_ascii_whitespace|trim_ascii)")
def m_str(run, cal, args, dty):
    n = strip_generics(cal.get("rpath") or cal["path"]).split("::")[-1]
    r, q = seqref(run, args[0])
    if n == "split":
        ps = split_seq(run, q, char_pred(run, args[1]))
        return IterV("list", tuple(run.newref(p) for p in ps), 0)
    if n == "rsplit":
        ps = split_seq(run, q, char_pred(run, args[1]))
        return IterV("list", tuple(run.newref(p) for p in reversed(ps)), 0)
    if n == "splitn":
        c = lin(run, args[1]).const
        if c is None or c == 0:
            raise Unsupported("splitn")
        pred = char_pred(run, args[2])
        ps = split_seq(run, q, pred)
        if len(ps) > c:
            done = ps[:c - 1]
            off = ZERO
            for p in done:
                off = add(add(off, run.seq_len(p)), ONE)
            ps = done + [run.seq_slice(q, off, run.seq_len(q))]
        return IterV("list", tuple(run.newref(p) for p in ps), 0)
    if n in ("split_once", "rsplit_once"):
        ps = split_seq(run, q, char_pred(run, args[1]))
        if len(ps) == 1:
            return none(run, dty)
        tup = targs(run, dty)[0]
        if n == "split_once":
            a = ps[0]
            b = run.seq_slice(q, add(run.seq_len(a), ONE), run.seq_len(q))
        else:
            b = ps[-1]
            a = run.seq_slice(q, ZERO, sub(sub(run.seq_len(q), run.seq_len(b)), ONE))
        return some(run, dty, Agg(tup, 0, (run.newref(a), run.newref(b))))
    if n in ("find", "contains", "rfind"):
        ps = split_seq(run, q, char_pred(run, args[1]))
        if n == "contains":
            return cbool(len(ps) > 1)
        if len(ps) == 1:
            return none(run, dty)
        if n == "find":
            return some(run, dty, run.seq_len(ps[0]))
        return some(run, dty, sub(sub(run.seq_len(q), run.seq_len(ps[-1])), ONE))
    if n in ("starts_with", "ends_with", "strip_prefix", "strip_suffix"):
        v = run.deref(args[1])
        ln = run.seq_len(q)
        pre = n in ("starts_with", "strip_prefix")
        if isinstance(v, Seq) and v.ety is None:
            m = run.seq_len(v)
            if not run.decide(le(m, ln)):
                c = FALSE
            else:
                part = run.seq_slice(q, ZERO, m) if pre else run.seq_slice(q, sub(ln, m), ln)
                c = str_eq(run, part, v)
        else:
            pred = char_pred(run, args[1])
            m = ONE
            if run.decide(eq(ln, ZERO)):
                c = FALSE
            else:
                c = pred(char_at(run, q, ZERO if pre else sub(ln, ONE)))
        if n.endswith("with"):
            return c
        if run.decide(c):
            return some(run, dty, subref(run, r, m, ln, ln) if pre else subref(run, r, ZERO, sub(ln, m), ln))
        return none(run, dty)
    if n == "chars":
        return IterV("chars", run.newref(q), ZERO, run.seq_len(q))
    if n == "char_indices":
        return IterV("charidx", run.newref(q), ZERO, run.seq_len(q))
    if n == "bytes":
        return IterV("bytes", run.newref(q), ZERO, run.seq_len(q))
    if n == "is_char_boundary":
        i, ln = lin(run, args[1]), run.seq_len(q)
        if run.decide(cor(eq(i, ZERO), eq(i, ln))):
            return TRUE
        if not run.decide(lt(i, ln)):
            return FALSE
        b = char_at(run, q, i)
        return cor(lt(b, K(128)), le(K(0xC0), b))
    if n == "parse":
        return parse(run, q, dty)
    if n in ("split_terminator", "lines", "split_inclusive", "split_whitespace", "split_ascii_whitespace"):
        return IterV("list", tuple(run.newref(p) for p in split_kind(run, q, n, args)), 0)
    if n in ("trim", "trim_start", "trim_end", "trim_ascii", "trim_matches", "trim_start_matches", "trim_end_matches"):
        pred = char_pred(run, args[1]) if "matches" in n else (lambda x: member(x, WS))
        lo, hi = ZERO, run.seq_len(q)
        if "end" not in n:
            while run.decide(lt(lo, hi)) and not unspaced(q, 0, lo) and run.decide(pred(char_at(run, q, lo))):
                lo = add(lo, ONE)
        if "start" not in n:
            while run.decide(lt(lo, hi)) and not unspaced(q, -1, sub(run.seq_len(q), hi)) and run.decide(pred(char_at(run, q, sub(hi, ONE)))):
                hi = sub(hi, ONE)
        return subref(run, r, lo, hi, run.seq_len(q))
    b = plain(run, q)
    if b is not None and n in ("to_lowercase", "to_ascii_lowercase"):
        return Seq([("b", b.decode().lower().encode() if "ascii" not in n else b.lower())], None)
    if b is not None and n in ("to_uppercase", "to_ascii_uppercase"):
        return Seq([("b", b.decode().upper().encode() if "ascii" not in n else b.upper())], None)
    if n in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase"):
        # either nothing changes, or the result is another string
        k = ("case", n, run.key(q))
        if run.decide(eq(sym(("changes", k), 0, 1), ZERO)):
            return Seq(q.segs, None)
        return Seq([("s", k, ZERO, run.seq_len(q) if "ascii" in n else sym(("len", k), 1, MAXLEN), None)], None)
    if n == "replace" and b is None:
        by = run.deref(args[2])
        out = []
        for i, p in enumerate(split_seq(run, q, char_pred(run, args[1]))):
            out += (list(by.segs) if i else []) + list(p.segs)
        return Seq(out, None)
    if b is not None and n == "eq_ignore_ascii_case":
        o = plain(run, run.deref(args[1]))
        if o is not None:
            return cbool(o.lower() == b.lower())
    if b is not None and n == "replace":
        x, y = plain(run, run.deref(args[1])), plain(run, run.deref(args[2]))
        x = chr(run.deref(args[1]).const).encode() if isinstance(run.deref(args[1]), Lin) and run.deref(args[1]).const is not None else x
        if x is not None and y is not None:
            return Seq([("b", b.replace(x, y))], None)
    raise Unsupported("str::" + n)


WS = (9, 10, 11, 12, 13, 32)


def unspaced(q, end, off):
    """the segment at that end is a run of digits (no white space there)"""
    return off.const == 0 and q.segs and is_digits(q.segs[end])


def split_kind(run, q, n, args):
    if n in ("split_whitespace", "split_ascii_whitespace"):
        return [p for p in split_seq(run, q, lambda x: member(x, WS)) if p.segs]
    pred = (lambda x: eq(x, K(10))) if n == "lines" else char_pred(run, args[1])
    ps = split_seq(run, q, pred)
    if n == "split_inclusive":
        out, off = [], ZERO
        for p in ps[:-1]:
            end = add(add(off, run.seq_len(p)), ONE)
            out.append(run.seq_slice(q, off, end))
            off = end
        return out + ([ps[-1]] if ps[-1].segs else [])
    last = ps[-1]
    if not last.segs:
        ps = ps[:-1]
    if n == "lines":
        for i, p in enumerate(ps):
            if (p is not last) and p.segs and not is_digits(p.segs[-1]):
                m = sub(run.seq_len(p), ONE)
                if run.decide(eq(char_at(run, p, m), K(13))):
                    ps[i] = run.seq_slice(p, ZERO, m)
    return ps


def str_eq(run, a, b):
    pa, pb = plain(run, a), plain(run, b)
    if pa is not None and pb is not None:
        return cbool(pa == pb)
    return run.seq_eq(a, b)


def char_at(run, q, i):
    v = run.seq_get(q, i)
    if isinstance(v, Lin):
        return v
    raise Unsupported("char")


def char_fwd(run, q, i, b):
    """the character starting with byte b at position i, and its width in bytes"""
    if run.decide(lt(b, K(128))):
        return b, 1
    b = run.pinned(b)
    if b.const is None:
        raise Unsupported("a character of several unknown bytes")
    w = 2 if b.const < 0xE0 else 3 if b.const < 0xF0 else 4
    out = [b.const]
    for j in range(1, w):
        x = run.pinned(char_at(run, q, add(i, K(j))))
        if x.const is None:
            raise Unsupported("a character of several unknown bytes")
        out.append(x.const)
    try:
        return K(ord(bytes(out).decode())), w
    except (UnicodeDecodeError, ValueError):
        raise Unsupported("invalid UTF-8 in a string")


def parse(run, q, dty):
    t = run.prog.types[dty]
    tgt = t["args"][0]
    r = run.prog.int_range(tgt)
    if r is None or run.prog.types[tgt]["k"] not in ("int", "uint"):
        tt = run.prog.types[tgt]
        f = run.prog.find(lambda f: f.get("has_body") and f.get("name") == "from_str" and (f.get("impl_trait") or "").endswith("FromStr")
                          and (run.prog.types[f["locals"][0]["ty"]].get("args") or [None])[0] == tgt)
        if f:
            return run.call_fn(f[0], [run.newref(q)])
        raise Unsupported("parse of %s" % tt["s"])
    err = lambda: run.mk(dty, "Err", Opq(("ParseIntError",)))
    segs = list(q.segs)
    if segs and segs[0][0] == "b" and segs[0][1][:1] == b"+" and sum(1 for _ in segs) >= 1:
        rest = segs[0][1][1:]
        segs = ([("b", rest)] if rest else []) + segs[1:]
    if not segs:
        return err()
    if len(segs) == 1 and is_digits(segs[0]):
        s = segs[0]
        if s[2].const == 0 and run.facts.equal(s[3], digits_len(s[1])) is True:
            v = digits_val(s[1])
            if run.decide(le(v, K(r[1]))):
                return run.mk(dty, "Ok", v)
            return err()
    if any(s[0] == "b" and any(not 48 <= x <= 57 for x in s[1]) for s in segs):
        if segs[0][0] == "b" and segs[0][1][:1] == b"-" and r[0] < 0:
            raise Unsupported("parse of a negative number")
        return err()
    v = ZERO
    for s in segs:
        if s[0] == "b":
            for x in s[1]:
                if not 48 <= x <= 57:
                    return err()
                v = add(scale(v, 10), K(x - 48))
        elif s[0] == "e":
            c = lin(run, s[1])
            if not run.decide(cand(le(K(48), c), le(c, K(57)))):
                return err()
            v = add(scale(v, 10), sub(c, K(48)))
        elif is_digits(s):
            run.approx = True
            if run.choose(2, "parse of part of a number"):
                return run.mk(dty, "Ok", sym(("parsed", repr(segs), run.site(), tgt), r[0], r[1]))
            return err()
        else:
            raise Unsupported("parse of unknown text")
    if run.decide(le(v, K(r[1]))):
        return run.mk(dty, "Ok", v)
    return err()


def digits(name, lo=0, hi=(1 << 40)):
    """a symbolic run of decimal digits denoting a number (the harness' building block)."""
    k = ("digits", name, lo, hi)
    return ("s", k, ZERO, digits_len(k), None)


def digits_len(k):
    return sym(("len", k), 1, 20)


def digits_val(k):
    return sym(("val", k), k[2], k[3])


# ---------------------------------------------------------------- iterators

def truth(run, v):
    if isinstance(v, Cond):
        return run.decide(v)
    if isinstance(v, Lin):
        return run.decide(ge0(sub(v, ONE)))
    raise Unsupported("bool %r" % (v,))


def into_iter(run, v):
    if isinstance(v, IterV):
        return v
    if isinstance(v, Seq):
        return IterV("vec", v, ZERO, run.seq_len(v))
    if isinstance(v, MapV):
        if v.base is not None:
            raise Unsupported("iteration over a symbolic map")
        return IterV("list", tuple(Agg(None, 0, (k, x)) for k, x in v.entries), 0)
    if isinstance(v, Ref):
        x = run.deref(v)
        if isinstance(x, Seq):
            r, q = seqref(run, v)
            return IterV("slice", r, ZERO, run.seq_len(q))
        if isinstance(x, MapV):
            if x.base is not None:
                raise Unsupported("iteration over a symbolic map")
            r = mapref(run, v)
            return IterV("list", tuple(Agg(None, 0, (run.newref(k), Ref(r.cell, r.path + (("m", i),))))
                                       for i, (k, _) in enumerate(x.entries)), 0)
        return IterV("byref", v)
    if isinstance(v, (Agg, SymV)):
        k = is_range(run, v)
        if k in ("Range", "RangeInclusive", "RangeFrom"):
            v = run.expand(v) if isinstance(v, SymV) else v
            if k == "Range":
                return IterV("range", v.f[0], v.f[1])
            if k == "RangeInclusive":
                return IterV("range", v.f[0], add(v.f[1], ONE))
            return IterV("rangefrom", v.f[0])
        t = run.prog.types[v.ty]
        if t["k"] == "adt" and t["path"] == "std::option::Option":
            v = run.resolve_enum(v)
            return IterV("list", v.f, 0)
        if t["k"] == "adt" and t["path"] == "std::result::Result":
            v = run.resolve_enum(v)
            return IterV("list", v.f if v.v == 0 else (), 0)
        return IterV("byref", run.newref(v))
    raise Unsupported("into_iter of %r" % (v,))


def iter_next(run, it):
    """-> (item or None, iterator afterwards)"""
    k = it.k
    a = it.a
    if k == "slice":
        r, i, n = a
        if run.decide(lt(i, n)):
            run.touched += 1
            return Ref(r.cell, r.path + (("i", i),)), IterV("slice", r, add(i, ONE), n)
        return None, it
    if k == "vec":
        q, i, n = a
        if run.decide(lt(i, n)):
            return run.seq_get(q, i), IterV("vec", q, add(i, ONE), n)
        return None, it
    if k == "list":
        xs, i = a
        if i < len(xs):
            run.touched += 1
            return xs[i], IterV("list", xs, i + 1)
        return None, it
    if k == "range":
        lo, hi = a
        if run.decide(lt(lo, hi)):
            run.counted(sub(hi, lo))
            return lo, IterV("range", add(lo, ONE), hi)
        return None, it
    if k == "rangefrom":
        run.endless(k, 0)
        return a[0], IterV("rangefrom", add(a[0], ONE))
    if k == "once":
        if a[0] is None:
            return None, it
        return a[0], IterV("once", None)
    if k == "repeat":
        run.endless(k, 0)
        return a[0], it
    if k == "empty":
        return None, it
    if k == "map":
        x, s = iter_next(run, a[0])
        if x is None:
            return None, IterV("map", s, a[1])
        y = run.call_value(a[1], [x], None)
        return y, IterV("map", s, a[1])
    if k == "filter":
        s = a[0]
        while True:
            x, s = iter_next(run, s)
            if x is None:
                return None, IterV("filter", s, a[1])
            if truth(run, run.call_value(a[1], [run.newref(x)], None)):
                return x, IterV("filter", s, a[1])
    if k == "filter_map":
        s = a[0]
        while True:
            x, s = iter_next(run, s)
            if x is None:
                return None, IterV(k, s, a[1])
            y = run.resolve_enum(run.call_value(a[1], [x], None))
            if run.vname(y) == "Some":
                return y.f[0], IterV(k, s, a[1])
    if k == "map_while":
        x, s = iter_next(run, a[0])
        if x is None:
            return None, IterV(k, s, a[1])
        y = run.resolve_enum(run.call_value(a[1], [x], None))
        return (y.f[0] if run.vname(y) == "Some" else None), IterV(k, s, a[1])
    if k == "enumerate":
        x, s = iter_next(run, a[0])
        if x is None:
            return None, IterV(k, s, a[1])
        return Agg(None, 0, (a[1], x)), IterV(k, s, add(a[1], ONE))
    if k == "take":
        if not run.decide(lt(ZERO, a[1])):
            return None, it
        run.counted(a[1])
        p_, run.progress = run.progress, run.progress and a[1].const is None
        x, s = iter_next(run, a[0])
        run.progress = p_
        return x, IterV("take", s, sub(a[1], ONE))
    if k == "skip":
        s, n = a
        while run.decide(lt(ZERO, n)):
            x, s = iter_next(run, s)
            n = sub(n, ONE)
            if x is None:
                return None, IterV("skip", s, ZERO)
        x, s = iter_next(run, s)
        return x, IterV("skip", s, ZERO)
    if k == "step_by":
        s, n, first = a
        if not first:
            for _ in range(n - 1):
                x, s = iter_next(run, s)
                if x is None:
                    return None, IterV(k, s, n, False)
        x, s = iter_next(run, s)
        return x, IterV(k, s, n, False)
    if k == "take_while":
        s, f, done = a
        if done:
            return None, it
        x, s = iter_next(run, s)
        if x is None:
            return None, IterV(k, s, f, False)
        if truth(run, run.call_value(f, [run.newref(x)], None)):
            return x, IterV(k, s, f, False)
        return None, IterV(k, s, f, True)
    if k == "skip_while":
        s, f, done = a
        while True:
            x, s = iter_next(run, s)
            if x is None:
                return None, IterV(k, s, f, done)
            if done or not truth(run, run.call_value(f, [run.newref(x)], None)):
                return x, IterV(k, s, f, True)
    if k == "flatten":
        s, inner = a
        while True:
            if inner is not None:
                x, inner = iter_next(run, inner)
                if x is not None:
                    return x, IterV(k, s, inner)
                inner = None
            y, s = iter_next(run, s)
            if y is None:
                return None, IterV(k, s, None)
            if isinstance(y, Ref) and isinstance(run.deref(y), (Agg, SymV)):
                y = ref_option(run, y)
            inner = into_iter(run, y)
    if k == "zip":
        x, s = iter_next(run, a[0])
        if x is None:
            return None, IterV(k, s, a[1])
        y, u = iter_next(run, a[1])
        if y is None:
            return None, IterV(k, s, u)
        return Agg(None, 0, (x, y)), IterV(k, s, u)
    if k == "chain":
        s, u = a
        if s is not None:
            x, s = iter_next(run, s)
            if x is not None:
                return x, IterV(k, s, u)
        x, u = iter_next(run, u)
        return x, IterV(k, None, u)
    if k == "copied":
        x, s = iter_next(run, a[0])
        return (None if x is None else (run.read(x) if isinstance(x, Ref) else x)), IterV(k, s)
    if k == "rev":
        return rev_next(run, it)
    if k == "chunks":
        r, i, n, c, exact = a
        left = sub(n, i)
        if exact:
            if not run.decide(le(c, left)):
                return None, it
            e = add(i, c)
        else:
            if not run.decide(lt(ZERO, left)):
                return None, it
            e = add(i, c) if run.decide(le(c, left)) else n
        return Ref(r.cell, r.path + (("sub", i, e),)), IterV(k, r, e, n, c, exact)
    if k == "windows":
        r, i, n, c = a
        if not run.decide(le(add(i, c), n)):
            return None, it
        return Ref(r.cell, r.path + (("sub", i, add(i, c)),)), IterV(k, r, add(i, ONE), n, c)
    if k in ("chars", "bytes", "charidx"):
        r, i, n = a
        if run.decide(lt(i, n)):
            c, w = char_at(run, run.read(r), i), 1
            if k != "bytes":
                c, w = char_fwd(run, run.read(r), i, c)
            return (Agg(None, 0, (i, c)) if k == "charidx" else c), IterV(k, r, add(i, K(w)), n)
        return None, it
    if k == "peek":
        s, pk = a
        if pk is not None:
            return pk[0], IterV(k, s, None)
        x, s = iter_next(run, s)
        return x, IterV(k, s, None)
    if k == "inspect":
        x, s = iter_next(run, a[0])
        if x is not None:
            run.call_value(a[1], [run.newref(x)], None)
        return x, IterV(k, s, a[1])
    if k == "byref":
        r = a[0]
        while isinstance(run.read(r), Ref):
            r = run.read(r)
        v = run.read(r)
        if isinstance(v, IterV):
            x, s = iter_next(run, v)
            run.write(r, s)
            return x, it
        if is_range(run, v):
            x, nv = range_next(run, v)
            run.write(r, nv)
            return x, it
        f = user_next(run, v)
        y = run.resolve_enum(run.call_fn(f, [r]))
        return (y.f[0] if run.vname(y) == "Some" else None), it
    if k == "from_fn":
        run.endless(k, 0)
        y = run.resolve_enum(run.call_value(a[0], [], None))
        return (y.f[0] if run.vname(y) == "Some" else None), it
    if k == "successors":
        cur = a[0]
        if cur is None:
            return None, it
        run.endless(k, 0)
        y = run.resolve_enum(run.call_value(a[1], [run.newref(cur)], None))
        return cur, IterV(k, y.f[0] if run.vname(y) == "Some" else None, a[1])
    if k == "scan":
        raise Unsupported("scan")
    if k == "try":     # adapter used by collect into Result/Option: not iterated directly
        raise Unsupported("try")
    raise Unsupported("iterator %s" % k)


def ref_option(run, y):
    """&Option<T> -> Option<&T>, &Result likewise, as an iterable"""
    v = run.deref(y)
    t = run.prog.types[v.ty]
    if t["k"] == "adt" and t["path"] in ("std::option::Option", "std::result::Result"):
        r = y
        while isinstance(run.read(r), Ref):
            r = run.read(r)
        e = run.resolve_enum(run.read(r))
        run.write(r, e)
        good = "Some" if t["path"].endswith("Option") else "Ok"
        if run.vname(e) == good:
            return IterV("list", (Ref(r.cell, r.path + (("v", e.v), ("f", 0))),), 0)
        return IterV("list", (), 0)
    return y


def user_next(run, v):
    t = run.prog.types[v.ty]
    f = run.prog.find(lambda f: f["has_body"] and f["disp"] == "<%s as std::iter::Iterator>::next" % t["s"])
    if not f:
        raise Unsupported("next of %s" % t["s"])
    return f[0]


def range_next(run, v):
    v = run.expand(v) if isinstance(v, SymV) else v
    k = is_range(run, v)
    if k == "Range":
        if run.decide(lt(v.f[0], v.f[1])):
            return v.f[0], Agg(v.ty, v.v, (add(v.f[0], ONE),) + v.f[1:])
        return None, v
    if k == "RangeInclusive":
        ex = v.f[2]
        if run.decide(cand(cnot(ex), le(v.f[0], v.f[1]))):
            if run.decide(eq(v.f[0], v.f[1])):
                return v.f[0], Agg(v.ty, v.v, (v.f[0], v.f[1], TRUE))
            return v.f[0], Agg(v.ty, v.v, (add(v.f[0], ONE),) + v.f[1:])
        return None, v
    if k == "RangeFrom":
        return v.f[0], Agg(v.ty, v.v, (add(v.f[0], ONE),))
    raise Unsupported("range")


def rev_next(run, it):
    s = it.a[0]
    if s.k == "slice":
        r, i, n = s.a
        if run.decide(lt(i, n)):
            m = sub(n, ONE)
            return Ref(r.cell, r.path + (("i", m),)), IterV("rev", IterV("slice", r, i, m))
        return None, it
    if s.k == "vec":
        q, i, n = s.a
        if run.decide(lt(i, n)):
            m = sub(n, ONE)
            return run.seq_get(q, m), IterV("rev", IterV("vec", q, i, m))
        return None, it
    if s.k == "range":
        lo, hi = s.a
        if run.decide(lt(lo, hi)):
            m = sub(hi, ONE)
            return m, IterV("rev", IterV("range", lo, m))
        return None, it
    if s.k in ("chars", "bytes", "charidx"):
        r, i, n = s.a
        if run.decide(lt(i, n)):
            m = sub(n, ONE)
            c = char_at(run, run.read(r), m)
            if s.k != "bytes":
                while not run.decide(lt(c, K(128))) and not run.decide(le(K(0xC0), c)):
                    if not run.decide(lt(i, m)):
                        raise Unsupported("character boundaries")
                    m = sub(m, ONE)
                    c = char_at(run, run.read(r), m)
                c, _ = char_fwd(run, run.read(r), m, c)
            return (Agg(None, 0, (m, c)) if s.k == "charidx" else c), IterV("rev", IterV(s.k, r, i, m))
        return None, it
    if s.k == "list":
        xs, i = s.a
        if i < len(xs):
            return xs[-1], IterV("rev", IterV("list", xs[:-1], i))
        return None, it
    if s.k == "rev":
        x, s2 = iter_next(run, s.a[0])
        return x, IterV("rev", IterV("rev", s2))
    # general: materialise
    xs = tuple(items(run, s))
    return rev_next(run, IterV("rev", IterV("list", xs, 0)))


def items(run, it, limit=None):
    out = []
    limit = limit or run.opts.get("iter_max", 40)
    while True:
        x, it = iter_next(run, it)
        if x is None:
            return out
        out.append(x)
        run.grows += 1
        if len(out) > limit:
            raise Cut()


@model(r"<I as std::iter::IntoIterator>::into_iter", r"<std::vec::Vec<T.*> as std::iter::IntoIterator>::into_iter",
       r"(core|std)::.*<impl std::iter::IntoIterator for .*>::into_iter", r"std::iter::IntoIterator::into_iter",
       r"<&.* as std::iter::IntoIterator>::into_iter", r"<.* as std::iter::IntoIterator>::into_iter")
def m_into_iter(run, cal, args, dty):
    v = args[0]
    f = run.prog.fns.get(cal.get("res"))
    if f and f["has_body"] and f["krate"] not in ("core", "std", "alloc"):
        return NotImplemented
    t = run.prog.types[dty]
    if isinstance(v, (Agg, SymV)) and v.ty == dty:
        return v            # I: Iterator, identity (ranges, user iterators)
    if isinstance(v, Ref) and dty == cal["args"][0] and not isinstance(run.deref(v), (Seq, MapV)):
        return v            # &mut I
    if isinstance(v, (Agg, SymV)) and v.ty is not None:
        vt = run.prog.types[v.ty]
        if vt["k"] == "adt" and vt["path"] in ("std::option::Option", "std::result::Result"):
            e = run.resolve_enum(v)
            return IterV("list", (e.f[0],) if run.vname(e) in ("Some", "Ok") else (), 0)
        f = run.prog.fns.get(cal.get("res"))
        if f and f["has_body"]:
            return NotImplemented
    return into_iter(run, v)


@model(r"(core|std)::slice::<impl \[T\]>::(iter|iter_mut)", r"std::option::Option::(iter|iter_mut|into_iter)")
def m_iter(run, cal, args, dty):
    return into_iter(run, args[0]) if not isinstance(run.deref(args[0]), (Agg, SymV)) else \
        into_iter(run, ref_option(run, args[0]))


@model(r"(core|std)::slice::<impl \[T\]>::(chunks|chunks_exact|windows|rchunks)")
def m_chunks(run, cal, args, dty):
    n = strip_generics(cal["path"]).split("::")[-1]
    r, q = seqref(run, args[0])
    if n == "windows":
        return IterV("windows", r, ZERO, run.seq_len(q), args[1])
    if n == "rchunks":
        raise Unsupported(n)
    if run.decide(eq(args[1], ZERO)):
        run.panic("chunk size must be non-zero")
    return IterV("chunks", r, ZERO, run.seq_len(q), args[1], n == "chunks_exact")


@model(r"std::iter::(once|empty|repeat|from_fn|successors|zip|repeat_n)", r"std::iter::sources::.*::(once|empty|repeat|from_fn)")
def m_sources(run, cal, args, dty):
    n = strip_generics(cal["path"]).split("::")[-1]
    if n == "once":
        return IterV("once", args[0])
    if n == "empty":
        return IterV("empty")
    if n == "repeat":
        return IterV("repeat", args[0])
    if n == "repeat_n":
        return IterV("take", IterV("repeat", args[0]), args[1])
    if n == "from_fn":
        return IterV("from_fn", run.newref(args[0]))
    if n == "zip":
        return IterV("zip", into_iter(run, args[0]), into_iter(run, args[1]))
    v = run.resolve_enum(args[0])
    return IterV("successors", v.f[0] if run.vname(v) == "Some" else None, run.newref(args[1]))


ITERM = ("next map filter filter_map enumerate take skip take_while skip_while map_while flatten flat_map rev zip chain "
         "copied cloned collect fold any all find find_map position rposition count last nth for_each sum product min max "
         "peekable peek inspect step_by try_fold try_for_each by_ref partition unzip size_hint eq max_by_key min_by_key "
         "reduce nth_back next_back rfind next_if is_empty len fuse max_by min_by rfold cmp").split()
_ITER = r"(?:%s)" % "|".join(ITERM)


@model(r"std::iter::Iterator::" + _ITER, r"<.* as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::" + _ITER,
       r"(core|std)::.*<impl std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator) for .*>::" + _ITER,
       r"std::iter::(DoubleEndedIterator|ExactSizeIterator|Peekable)::" + _ITER,
       r"std::slice::Iter::as_slice")
def m_iterator(run, cal, args, dty):
    n = strip_generics(cal["path"]).split("::")[-1]
    a0 = args[0]
    # user-defined iterators: plain `next` has a body
    f = run.prog.fns.get(cal.get("res"))
    if n == "next" and f is not None and f["has_body"] and f.get("krate", "").startswith("llvm"):
        return NotImplemented
    mut = n in ("next", "any", "all", "find", "find_map", "position", "rposition", "nth", "by_ref", "peek", "try_fold",
                "try_for_each", "next_back", "nth_back", "rfind", "next_if")
    ref = None
    if mut:
        ref = a0
        while isinstance(run.read(ref), Ref):
            ref = run.read(ref)
        v = run.read(ref)
        if n == "by_ref":
            return a0
        if n == "next" and is_range(run, v):
            x, nv = range_next(run, v)
            run.write(ref, nv)
            return none(run, dty) if x is None else some(run, dty, x)
        it = v if isinstance(v, IterV) else into_iter(run, v) if is_range(run, v) else IterV("byref", ref)
    else:
        v = run.deref(a0) if n in ("size_hint", "len", "is_empty") else a0
        it = into_iter(run, v)

    def save(s):
        if ref is None:
            return
        if isinstance(run.read(ref), IterV):
            run.write(ref, s)
        elif is_range(run, run.read(ref)):
            if s.k == "range":
                o = run.read(ref)
                o = run.expand(o) if isinstance(o, SymV) else o
                run.write(ref, Agg(o.ty, o.v, (s.a[0], s.a[1]) + o.f[2:]))
            else:
                run.write(ref, UNINIT)

    if n == "next":
        x, s = iter_next(run, it)
        save(s)
        return none(run, dty) if x is None else some(run, dty, x)
    if n in ("next_back", "rfind", "nth_back"):
        x, s = rev_next(run, IterV("rev", it))
        if n == "nth_back":
            for i in range(40):
                if x is None or run.decide(eq(args[1], K(i))):
                    save(s.a[0])
                    return none(run, dty) if x is None else some(run, dty, x)
                x, s = rev_next(run, s)
        if n == "next_back":
            save(s.a[0])
            return none(run, dty) if x is None else some(run, dty, x)
        if n == "rfind":
            while x is not None:
                if truth(run, run.call_value(args[1], [run.newref(x)], None)):
                    save(s.a[0])
                    return some(run, dty, x)
                x, s = rev_next(run, s)
            save(s.a[0])
            return none(run, dty)
        raise Unsupported(n)
    if n in ("map", "filter", "filter_map", "map_while", "inspect"):
        return IterV(n, it, run.newref(args[1]))
    if n in ("take_while", "skip_while"):
        return IterV(n, it, run.newref(args[1]), False)
    if n == "enumerate":
        return IterV(n, it, ZERO)
    if n in ("take", "skip"):
        return IterV(n, it, args[1])
    if n == "step_by":
        if args[1].const is None:
            raise Unsupported("step_by")
        if args[1].const == 0:
            run.panic("step_by(0)")
        return IterV(n, it, args[1].const, True)
    if n == "flatten":
        return IterV("flatten", it, None)
    if n == "flat_map":
        return IterV("flatten", IterV("map", it, run.newref(args[1])), None)
    if n == "rev":
        return IterV("rev", it)
    if n == "fuse":
        return it
    if n in ("zip", "chain"):
        return IterV(n, it, into_iter(run, args[1]))
    if n in ("copied", "cloned"):
        return IterV("copied", it)
    if n == "peekable":
        return IterV("peek", it, None)
    if n == "peek":
        s, pk = it.a
        if pk is None:
            x, s = iter_next(run, s)
            pk = (x,)
            save(IterV("peek", s, pk))
        return none(run, dty) if pk[0] is None else some(run, dty, run.newref(pk[0]))
    if n == "collect":
        return collect(run, it, dty)
    if n in ("fold", "reduce", "rfold"):
        if n == "rfold":
            it = IterV("rev", it)
        xs = items(run, it)
        if n == "reduce":
            if not xs:
                return none(run, dty)
            acc = xs[0]
            for x in xs[1:]:
                acc = run.call_value(args[1], [acc, x], None)
            return some(run, dty, acc)
        acc = args[1]
        fr = run.newref(args[2])
        for x in xs:
            acc = run.call_value(fr, [acc, x], dty)
        return acc
    if n in ("try_fold", "try_for_each"):
        acc = args[1] if n == "try_fold" else UNIT
        fr = run.newref(args[2] if n == "try_fold" else args[1])
        t = run.prog.types[dty]
        good = "Ok" if t["path"].endswith("Result") else "Some"
        while True:
            x, it = iter_next(run, it)
            if x is None:
                save(it)
                return run.mk(dty, good, acc)
            y = run.resolve_enum(run.call_value(fr, [acc, x] if n == "try_fold" else [x], dty))
            if run.vname(y) != good:
                save(it)
                return y
            acc = y.f[0]
    if n == "for_each":
        fr = run.newref(args[1])
        for x in items(run, it):
            run.call_value(fr, [x], None)
        return UNIT
    if n in ("any", "all"):
        fr = run.newref(args[1])
        while True:
            x, it = iter_next(run, it)
            if x is None:
                save(it)
                return cbool(n == "all")
            if truth(run, run.call_value(fr, [x], None)) == (n == "any"):
                save(it)
                return cbool(n == "any")
    if n in ("find", "find_map", "position"):
        fr = run.newref(args[1])
        i = 0
        while True:
            x, it = iter_next(run, it)
            if x is None:
                save(it)
                return none(run, dty)
            if n == "find":
                if truth(run, run.call_value(fr, [run.newref(x)], None)):
                    save(it)
                    return some(run, dty, x)
            elif n == "position":
                if truth(run, run.call_value(fr, [x], None)):
                    save(it)
                    return some(run, dty, K(i))
            else:
                y = run.resolve_enum(run.call_value(fr, [x], None))
                if run.vname(y) == "Some":
                    save(it)
                    return some(run, dty, y.f[0])
            i += 1
    if n == "rposition":
        fr = run.newref(args[1])
        xs = items(run, it)
        for i in range(len(xs) - 1, -1, -1):
            if truth(run, run.call_value(fr, [xs[i]], None)):
                return some(run, dty, K(i))
        return none(run, dty)
    if n in ("count", "len"):
        if it.k in ("slice", "vec"):
            return sub(it.a[2], it.a[1])
        if it.k == "range":
            d = sub(it.a[1], it.a[0])
            return d if run.decide(ge0(d)) else ZERO
        return K(len(items(run, it)))
    if n == "last":
        xs = items(run, it)
        return some(run, dty, xs[-1]) if xs else none(run, dty)
    if n == "nth":
        k = args[1]
        if it.k == "slice":
            r, i, e = it.a
            if run.decide(lt(add(i, k), e)):
                save(IterV("slice", r, add(add(i, k), ONE), e))
                return some(run, dty, Ref(r.cell, r.path + (("i", add(i, k)),)))
            save(IterV("slice", r, e, e))
            return none(run, dty)
        i = 0
        while True:
            x, it = iter_next(run, it)
            if x is None:
                save(it)
                return none(run, dty)
            if run.decide(eq(k, K(i))):
                save(it)
                return some(run, dty, x)
            i += 1
    if n == "sum":
        r = ZERO
        rg = run.prog.int_range(dty)
        for x in items(run, it):
            r = add(r, lin(run, x))
            if rg and not run.decide(cand(le(K(rg[0]), r), le(r, K(rg[1])))):
                run.panic("overflow")
        return r
    if n == "size_hint":
        raise Unsupported(n)
    if n in ("max", "min"):
        xs = items(run, it)
        if not xs:
            return none(run, dty)
        b = xs[0]
        for x in xs[1:]:
            o = cmpval(run, x, b)
            if (n == "max" and run.decide(ge0(o))) or (n == "min" and run.decide(lt(o, ZERO))):
                b = x
        return some(run, dty, b)
    if n in ("max_by_key", "min_by_key", "max_by", "min_by"):
        fr = run.newref(args[1])
        best = None
        for x in items(run, it):
            k = run.call_value(fr, [run.newref(x)], None) if n.endswith("key") else None
            if best is not None:
                o = cmpval(run, k, best[1]) if n.endswith("key") else ordering(run, run.call_value(fr, [run.newref(x), run.newref(best[0])], None))
                if not ((n[:3] == "max" and run.decide(ge0(o))) or (n[:3] == "min" and run.decide(lt(o, ZERO)))):
                    continue
            best = (x, k)
        return none(run, dty) if best is None else some(run, dty, best[0])
    if n == "unzip":
        t = run.prog.types[dty]
        l, r = [], []
        for x in items(run, it):
            x = run.expand(x) if isinstance(x, SymV) else x
            l.append(("e", x.f[0]))
            r.append(("e", x.f[1]))
        if any(run.prog.types[f].get("path") != "std::vec::Vec" for f in t["fields"]):
            raise Unsupported("unzip")
        return Agg(dty, 0, tuple(Seq(a, targs(run, f)[0]) for a, f in ((l, t["fields"][0]), (r, t["fields"][1]))))
    if n == "partition":
        t = run.prog.types[dty]
        fr = run.newref(args[1])
        l, r = [], []
        for x in items(run, it):
            (l if truth(run, run.call_value(fr, [run.newref(x)], None)) else r).append(("e", x))
        et = targs(run, t["fields"][0])[0]
        return Agg(dty, 0, (Seq(l, et), Seq(r, et)))
    raise Unsupported("Iterator::" + n)


def collect(run, it, dty):
    t = run.prog.types[dty]
    p = t.get("path")
    if p == "std::vec::Vec":
        if it.k == "vec" and it.a[1].const == 0:
            return it.a[0]
        return Seq([("e", x) for x in items(run, it)], t["args"][0])
    if p in ("std::result::Result", "std::option::Option"):
        good = "Ok" if p.endswith("Result") else "Some"
        out = []
        limit = run.opts.get("iter_max", 40)
        while True:
            x, it = iter_next(run, it)
            if x is None:
                break
            e = run.resolve_enum(x)
            if run.vname(e) != good:
                return run.mk(dty, "Err", e.f[0]) if good == "Ok" else run.mk(dty, "None")
            out.append(e.f[0])
            run.grows += 1
            if len(out) > limit:
                raise Cut()
        return run.mk(dty, good, collect(run, IterV("list", tuple(out), 0), t["args"][0]))
    if p == "std::string::String":
        out = []
        for x in items(run, it):
            x = run.deref(x)
            if isinstance(x, Seq):
                out.extend(x.segs)
            else:
                out.append(("e", lin(run, x)))
        return Seq(out, None)
    if p and "Map" in p:
        r = run.newref(MapV(None, (), t["args"][1]))
        for x in items(run, it):
            x = run.expand(x) if isinstance(x, SymV) else x
            map_insert(run, r, x.f[0], x.f[1])
        return run.read(r)
    if t["k"] == "ref":
        pass
    if p == "std::boxed::Box":
        return run.newref(Seq([("e", x) for x in items(run, it)], None))
    if t["k"] == "tuple" and not t["fields"]:
        items(run, it)
        return UNIT
    raise Unsupported("collect into %s" % t["s"])


@model(r"<std::str::Chars as std::iter::Iterator>::next_")
def _m_unused(run, cal, args, dty):
    return NotImplemented


# ---------------------------------------------------------------- discriminants

@model(r"std::mem::discriminant", r"std::intrinsics::discriminant_value")
def m_discriminant(run, cal, args, dty):
    return run.discr(run.deref(args[0]))


@model(r"std::mem::size_of(_val)?", r"std::intrinsics::size_of(_val)?")
def m_size_of(run, cal, args, dty):
    t = run.prog.types[cal["args"][0]]
    if "bits" in t:
        return K(t["bits"] // 8)
    if t["k"] == "char":
        return K(4)
    return NotImplemented
