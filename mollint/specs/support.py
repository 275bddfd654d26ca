"""Helpers shared by the checks over llvm-support."""
from core import *
from mapin import *

U32, U64, U8 = (1 << 32) - 1, (1 << 64) - 1, 255


def ename(run, v):
    """variant name of an enumeration value, splitting when open"""
    v = run.deref(v)
    if isinstance(v, EnumI):
        t = run.prog.types[v.ty]
        ds = [(x["discr"], x["name"]) for x in t["variants"]]
        for d, n in ds[:-1]:
            if run.decide(eq(v.l, K(d))):
                return n
        return ds[-1][1]
    return run.vname(run.resolve_enum(v))


def truth(run, v):
    """a boolean value, splitting when open"""
    v = run.deref(v)
    return run.decide(v)


def is_kind(run, ty, d, names):
    """the discriminant d of type ty is one of the named variants"""
    ds = [x["discr"] for x in run.prog.types[ty]["variants"] if x["name"] in names]
    if len(ds) != len(names):
        raise Unsupported("variants of " + run.prog.types[ty]["s"])
    return member(d, ds)


def newtype(run, v):
    """the number inside a newtype"""
    v = run.deref(v)
    n = 0
    while not isinstance(v, Lin):
        n += 1
        if isinstance(v, SymV) and not run.is_enum(v.ty):
            v = run.expand(v)
        if not isinstance(v, Agg) or len(v.f) != 1 or n > 4:
            raise Unsupported("number %r" % (v,))
        v = run.deref(v.f[0])
    return v


def res(run, r):
    """(ok, payload) of a Result/Option"""
    return outcome(run, r)
