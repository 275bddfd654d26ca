"""Summary of BitCursor used when code above the cursor is analysed: a position on a bit tape.

The summary states what C01-C03 establish for the cursor itself: `read(n)` yields bits [pos, pos+n) for 1 <= n <= 63 when
they lie before the end and fails otherwise, and so on.  A variable-width integer is one value named by its width and position.
"""
from core import *

U64 = (1 << 64) - 1
SRC = "tape"


class CurV(Opq):
    """cursor value: position and end in bits over the buffer `src`."""
    __slots__ = ("pos", "end", "src", "seq")

    def __init__(self, pos, end, src, seq=None):
        self.pos, self.end, self.src, self.seq = pos, end, src, seq
        self.key = ("cursor", src, pos, end)

    def at(self, pos):
        return CurV(pos, self.end, self.src, self.seq)


def t_read(run, c, n):
    """(value or None, new cursor)"""
    if not run.decide(cand(le(ONE, n), le(n, K(63)))) or not run.decide(le(add(c.pos, n), c.end)):
        return None, c
    return bits(c.src, c.pos, n), c.at(add(c.pos, n))


def t_read_as(run, c, n, w):
    v, d = t_read(run, c, n)
    if v is not None and w < 64 and not run.decide(le(v, K((1 << w) - 1))):
        return None, c
    return v, d


def vbr_value(c, w):
    return sym(("vbr", c.src, w, c.pos), 0, U64)


def t_vbr(run, c, w):
    if not run.decide(cand(le(K(2), w), le(w, K(32)))):
        return None, c
    key = (c.src, w, c.pos)
    if not run.decide(eq(sym(("vbrok",) + key, 0, 1), ONE)):
        return None, c
    if w.const is not None:
        ln = scale(sym(("vbrlen",) + key, 1, 64 // (w.const - 1) + 2), w.const)
    else:
        ln = sym(("vbrlen",) + key, 2, 128)
        run.assume(le(w, ln))
    run.assume(le(add(c.pos, ln), c.end))
    return vbr_value(c, w), c.at(add(c.pos, ln))


def t_align(run, c):
    p = scale(mkdiv(add(c.pos, K(31)), 32), 32)
    if run.decide(le(p, c.end)):
        return c.at(p)
    return c.at(c.end)


# ------------------------------------------------------------------ interception

NAME = "llvm_bitcursor::BitCursor"


def is_cursor(run, cal):
    return str(cal.get("rself") or "").startswith(NAME + "<") or str(cal.get("rpath") or cal.get("path")).startswith(NAME + "::")


def cur_of(run, a):
    r = a
    while isinstance(r, Ref):
        v = run.read(r)
        if isinstance(v, CurV):
            return r, v
        r = v
    if isinstance(r, CurV):
        return None, r
    raise Unsupported("cursor expected, got %r" % (r,))


def buf_of(run, a):
    """(bytes sequence, provenance) of a buffer argument"""
    v = run.deref(a)
    if not isinstance(v, Seq):
        raise Unsupported("buffer %r" % (v,))
    if len(v.segs) == 1 and v.segs[0][0] == "s":
        s = v.segs[0]
        if run.known(eq(s[2], ZERO)):
            return v, s[1]
        return v, ("sub", s[1], s[2])
    return v, ("seq", run.key(v))


def h_cursor(run, cal, args, dty):
    n = cal.get("name")
    ty = dty
    if n == "new":
        q, src = buf_of(run, args[0])
        return CurV(ZERO, scale(run.seq_len(q), 8), src, q)
    if n == "new_with_len":
        q, src = buf_of(run, args[0])
        ln = args[1]
        if run.decide(le(ln, run.seq_len(q))):
            return run.mk(ty, "Ok", CurV(ZERO, scale(ln, 8), src, q))
        return err(run, ty)
    ref, c = cur_of(run, args[0])
    if n == "byte_len":
        return mkdiv(c.end, 8)
    if n == "bit_len":
        return c.end
    if n == "tell_bit":
        return c.pos
    if n == "tell_byte":
        return mkdiv(c.pos, 8)
    if n == "exhausted":
        return le(c.end, c.pos)
    if n == "fmt":
        return NotImplemented
    if n == "read":
        v, d = t_read(run, c, args[1])
    elif n in ("read_as", "read_exact"):
        it = cal.get("rargs") or cal.get("args")
        t = run.prog.types[[x for x in it if isinstance(x, int)][-1]]
        if t["k"] not in ("int", "uint"):
            return NotImplemented
        w = t["bits"]
        top = w if t["k"] == "uint" else w - 1
        v, d = t_read_as(run, c, K(w) if n == "read_exact" else args[1], top)
    elif n == "read_vbr":
        v, d = t_vbr(run, c, args[1])
    elif n == "read_svbr":
        v, d = t_vbr(run, c, args[1])
        if v is not None:
            v = sym(("svbr", c.src, args[1], c.pos), -(1 << 63), (1 << 63) - 1)
    elif n == "align32":
        run.write(ref, t_align(run, c))
        return UNIT
    elif n == "seek":
        return h_seek(run, ref, c, args, ty)
    elif n == "seek_bit":
        if run.decide(le(args[1], c.end)):
            run.write(ref, c.at(args[1]))
            return run.mk(ty, "Ok", UNIT)
        return err(run, ty)
    else:
        raise Unsupported("cursor operation %s" % n)
    if v is None:
        return err(run, ty)
    run.write(ref, d)
    run.consumed += 1
    run.events.append(("read", run.site()))
    return run.mk(ty, "Ok", v)


def h_seek(run, ref, c, args, ty):
    k = run.resolve_enum(run.deref(args[1]))
    name = run.vname(k)
    off = k.f[0]
    if name == "Current":
        off = add(mkdiv(c.pos, 8), off)
    elif name == "End":
        if run.decide(ge0(off)):
            return err(run, ty)
        off = add(mkdiv(c.end, 8), off)
    if run.decide(cand(ge0(off), le(scale(off, 8), c.end))):
        run.write(ref, c.at(scale(off, 8)))
        return run.mk(ty, "Ok", off)
    return err(run, ty)


def err(run, ty):
    run.fresh += 1
    run.events.append(("err", run.site()))
    t = run.prog.types[ty]
    v = next(x for x in t["variants"] if x["name"] == "Err")
    return run.mk(ty, "Err", run.mkval(("cursor error", run.fresh), v["fields"][0]["ty"]))


INTERCEPT = (is_cursor, h_cursor)


def tape(run, prog, words=True):
    """reference to a buffer of any length (a multiple of four bytes when words)"""
    ref = run.symref(("bytesof", SRC), tyid(prog, "[u8]"))
    n = run.seq_len(run.deref(ref))
    run.assume(le(n, K(1 << 40)))
    if words:
        run.assume(eq(n, scale(sym("words", 0, 1 << 38), 4)))
    return ref


def source(run, ref):
    return buf_of(run, ref)


def find_cursor(run, v, depth=0):
    """the cursor held inside a value"""
    v = run.deref(v)
    if isinstance(v, CurV):
        return v
    if isinstance(v, Agg) and depth < 4:
        for x in v.f:
            r = find_cursor(run, x, depth + 1)
            if r is not None:
                return r
    return None
