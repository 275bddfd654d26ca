"""Inputs for the harnesses over llvm-mapper: symbolic records, blocks, tables and mapping contexts."""
from core import *
from specs.stream import field

MAXF = 1 << 40


def symval(run, prog, key, tyname):
    """reference to an unknown value of the named type"""
    return run.symref(key, tyid(prog, tyname))


def find_seq(run, v, depth=0, ety=None):
    """reference to the sequence inside a newtype"""
    x = run.deref(v)
    if isinstance(x, Seq):
        return v if isinstance(v, Ref) else run.newref(x)
    if isinstance(x, SymV):
        x = run.expand(x)
        if isinstance(v, Ref):
            run.write(v, x)
    if isinstance(x, Seq):
        return v if isinstance(v, Ref) else run.newref(x)
    if isinstance(x, Agg) and depth < 4:
        for i, y in enumerate(x.f):
            r = find_seq(run, Ref(v.cell, v.path + (("f", i),)) if isinstance(v, Ref) else y, depth + 1)
            if r is not None:
                return r
    return None


def record(run, prog, key, n=None, top=None):
    """(reference to an unknown record, its fields); n fixes the number of fields"""
    r = symval(run, prog, ("record", key), "unroll::Record")
    q = run.deref(run.call_fn(fn(prog, "unroll::Record::fields"), [r]))
    ln = run.seq_len(q)
    if n is not None:
        run.assume(eq(ln, K(n)))
    else:
        run.assume(le(ln, K(MAXF if top is None else top)))
    return r, q


def code_of(run, prog, r):
    return run.call_fn(fn(prog, "unroll::Record::code"), [r])


def outcome(run, r):
    """(is Ok/Some, payload or error)"""
    r = run.resolve_enum(run.deref(r))
    return run.vname(r) in ("Ok", "Some"), (r.f[0] if r.f else None)


def pick(run, x, lo, hi):
    """the constant lo <= k <= hi that x equals (the caller has established the bounds)"""
    for k in range(lo, hi):
        if run.decide(eq(x, K(k))):
            return k
    run.assume(eq(x, K(hi)))
    return hi


# ------------------------------------------------------------------ enumeration conversions by name

ENUMS = ("llvm_support::Linkage", "llvm_support::Visibility", "llvm_support::DllStorageClass", "llvm_support::ThreadLocalMode",
         "llvm_support::UnnamedAddr", "llvm_support::RuntimePreemption", "llvm_support::CallingConvention",
         "record::comdat::SelectionKind")


def conv_val(run, ty, x):
    return run.mkval(("conv", run.prog.types[ty]["s"], x), ty)


def conv_ok(run, ty, x):
    return eq(sym(("convok", run.prog.types[ty]["s"], x), 0, 1), ONE)


def _is_conv(run, cal):
    return cal.get("name") in ("from", "try_from", "try_from_primitive") and str(cal.get("rself") or "") in ENUMS


def _conv(run, cal, args, dty):
    x = args[0]
    if not isinstance(x, Lin) or x.const is not None:
        return NotImplemented
    ty = tyid(run.prog, cal["rself"])
    run.convs = getattr(run, "convs", set())
    run.convs.add((ty, x))
    if cal["name"] == "from":
        return conv_val(run, ty, x)
    if run.decide(conv_ok(run, ty, x)):
        return run.mk(dty, "Ok", conv_val(run, ty, x))
    t = run.prog.types[dty]
    v = next(v for v in t["variants"] if v["name"] == "Err")
    return run.mk(dty, "Err", run.mkval(("conv error", ty, x), v["fields"][0]["ty"]))


CONVS = (_is_conv, _conv)


class Enum:
    """the enumeration a field denotes: by name when the code converted that very field, else by its conversion function"""

    def __init__(self, run, prog, tyname, x):
        self.run, self.prog, self.x = run, prog, x
        self.ty = tyid(prog, tyname)
        self.named = (self.ty, x) in getattr(run, "convs", ())
        self.r = None
        self.total = self._f("From<u64>>::from") is not None

    def _f(self, tail):
        s = self.prog.types[self.ty]["s"]
        try:
            return fn(self.prog, "<%s as std::convert::%s" % (s, tail))
        except Missing:
            return None

    def real(self):
        if self.r is None:
            keep, self.run.intercepts = self.run.intercepts, ()
            try:
                return self._real()
            finally:
                self.run.intercepts = keep
        return self.r

    def _real(self):
        if self.r is None:
            if self.total:
                self.r = (True, self.run.call_fn(self._f("From<u64>>::from"), [self.x]))
            else:
                f = self._f("TryFrom<u64>>::try_from")
                if f is None:
                    raise Missing("conversion of " + self.prog.types[self.ty]["s"])
                self.r = outcome(self.run, self.run.call_fn(f, [self.x]))
        return self.r

    def ok(self):
        if self.total:
            return TRUE
        return conv_ok(self.run, self.ty, self.x) if self.named else cbool(self.real()[0])

    def value(self):
        return conv_val(self.run, self.ty, self.x) if self.named else self.real()[1]


def cbool(b):
    return TRUE if b else FALSE


def opt_is(run, v, want):
    """an Option value is None / Some(want)"""
    v = run.resolve_enum(run.deref(v))
    if want is None:
        return cbool(run.vname(v) == "None")
    if run.vname(v) != "Some":
        return FALSE
    return run.veq(v.f[0], want)


# ------------------------------------------------------------------ blocks with known structure

def wrap(run, ty, v):
    """v inside the one-field wrappers of type ty"""
    t = run.prog.types[ty]
    if t["k"] == "adt" and t.get("variants") and t["krate"] == "llvm_mapper" and len(t["variants"]) == 1:
        fs = t["variants"][0]["fields"]
        if len(fs) != 1:
            raise Unsupported("container " + t["s"])
        return Agg(ty, 0, (wrap(run, fs[0]["ty"], v),))
    if isinstance(v, MapV):
        return MapV(v.base, v.entries, t["args"][1])
    if isinstance(v, Seq):
        return Seq(v.segs, t["args"][0] if t.get("args") else None)
    return v


def with_field(run, a, name, v):
    t = run.prog.types[a.ty]
    names = [f["name"] for f in t["variants"][0]["fields"]]
    if name not in names:
        raise Unsupported("field %s of %s" % (name, t["s"]))
    fs = list(a.f)
    fs[names.index(name)] = v
    return Agg(a.ty, a.v, fs)


def mkrecord(run, prog, key, code=None, fields=None):
    """a record value; unknown where not given"""
    b = run.expand(run.mkval(("bs record", key), tyid(prog, "llvm_bitstream::record::Record")))
    if code is not None:
        b = with_field(run, b, "code", code)
    if fields is not None:
        b = with_field(run, b, "fields", Seq([("e", f) for f in fields], tyid(prog, "u64")))
    ty = tyid(prog, "unroll::Record")
    t = prog.types[ty]
    return Agg(ty, 0, (b,)) if t["variants"][0]["fields"][0]["ty"] == b.ty else _bad(t)


def _bad(t):
    raise Unsupported("container " + t["s"])


def block_id(run, prog, n):
    return run.call_fn(fn(prog, "<block::BlockId as std::convert::From<u64>>::from"), [n if isinstance(n, Lin) else K(n)])


def mkblock(run, prog, ident, records, blocks):
    """a block value with the given record values and [(id, [block values])]"""
    ty = tyid(prog, "unroll::Block")
    t = prog.types[ty]
    out = {}
    for f in t["variants"][0]["fields"]:
        if f["name"] == "id":
            out["id"] = block_id(run, prog, ident)
        elif f["name"] == "records":
            out["records"] = wrap(run, f["ty"], Seq([("e", r) for r in records], None))
        elif f["name"] == "blocks":
            out["blocks"] = wrap(run, f["ty"], MapV(None, tuple((block_id(run, prog, i), Seq([("e", b) for b in bs], ty)) for i, bs in blocks), None))
        else:
            raise Unsupported("field %s of a block" % f["name"])
    return Agg(ty, 0, tuple(out[f["name"]] for f in t["variants"][0]["fields"]))


def is_fn(names, selves):
    def pred(run, cal):
        return cal.get("name") in names and str(cal.get("rself") or "").split("<")[0] in selves
    return pred


def str_calls(text):
    """Record::try_string / try_blob return text(run, record ref, index, name) -> value or None for failure"""
    def pred(run, cal):
        return cal.get("name") in ("try_string", "try_blob") and str(cal.get("rself") or "") == "unroll::Record"

    def h(run, cal, args, dty):
        v = text(run, args[0], args[1], cal["name"])
        if v is None:
            t = run.prog.types[dty]
            e = next(v for v in t["variants"] if v["name"] == "Err")
            run.fresh += 1
            return run.mk(dty, "Err", run.mkval(("string error", run.fresh), e["fields"][0]["ty"]))
        return run.mk(dty, "Ok", v)
    return pred, h
