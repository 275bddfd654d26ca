"""C02: positioning, alignment and length limits are exact."""
from core import *
from specs.cursor import *

CRATES = ["llvm_bitcursor"]
RULE = ("Abstract interpretation of BitCursor's MIR over a symbolic buffer, a symbolic length limit and symbolic seek "
        "arguments of every kind, from positions inside and at the edge of a loaded window: a seek succeeds exactly when "
        "its target lies inside [0, limit], the reported bit/byte position is then the requested one and the following "
        "read returns the bit-slice starting there; align32 moves to min(next multiple of 32, end); exhausted() holds "
        "exactly when the position has reached the limit.")
FLOOR = {"partitions": 100, "obligations": 300}
I64 = (-(1 << 63), (1 << 63) - 1)


def start(run, p, how):
    """a cursor somewhere: returns a Stream or None"""
    st = Stream(run, p)
    st.construct(with_len=("len" in how))
    if not st.ok:
        return None
    if "len" in how:
        what = "a cursor with a length limit reports that length"
        run.require(run.veq(run.call_fn(st.f("byte_len"), [st.cur]), st.limit), what, where="BitCursor::byte_len")
        run.require(run.veq(run.call_fn(st.f("bit_len"), [st.cur]), scale(st.limit, 8)), what, where="BitCursor::bit_len")
    if "seek" in how:
        if not st.seek_start(sym("o", 0, U64)):
            return None
    if "bit" in how:
        b = sym("b", 0, U64)
        r = st.seek_bit(b)
        if run.vname(r) != "Ok" or not run.decide(le(b, scale(st.limit, 8))):
            return None
        st.pos = b
    for i in range(how.count("read")):
        st.read(sym(("n", i), 0, U64), "read", silent=True)
        if st.err:
            return None
    return st


def observe(run, st, what):
    st.tell(what + ": tell_bit is the requested position")
    run.require(run.veq(run.call_fn(st.f("tell_byte"), [st.cur]), mkdiv(st.pos, 8)), what + ": tell_byte is the position's byte",
                where="BitCursor::tell_byte")
    ex = run.call_fn(st.f("exhausted"), [st.cur])
    at_end = run.decide(eq(st.pos, scale(st.limit, 8)))
    run.require(ex if at_end else cnot(ex), what + ": exhausted exactly when the position has reached the limit",
                where="BitCursor::exhausted")
    st.read(sym("after", 0, U64), what + ", then read")


def judge_seek(run, st, r, target, kind, optional=FALSE):
    good = run.vname(r) == "Ok"
    inside = run.decide(cand(ge0(target), le(target, st.limit)))
    if not inside:
        run.require(not good, "%s seek outside the data fails" % kind, where="Seek::seek")
        return False
    if not good:
        if not run.decide(optional):
            run.require(False, "%s seek inside the data succeeds" % kind, where="Seek::seek")
        return False
    run.require(run.veq(r.f[0], target), "%s seek returns the new position" % kind, where="Seek::seek")
    st.pos = scale(target, 8)
    return True


def check(ctx, progs):
    p = progs["llvm_bitcursor"]

    def t_seek(how, kind):
        def body(run):
            st = start(run, p, how)
            if st is None:
                return
            if kind == "Start":
                o = sym("to", 0, U64)
                if judge_seek(run, st, st.seek("Start", o), o, "absolute"):
                    observe(run, st, "after an absolute seek")
            elif kind == "End":
                o = sym("to", *I64)
                if judge_seek(run, st, st.seek("End", o), add(st.limit, o), "end-relative", optional=eq(o, ZERO)):
                    observe(run, st, "after an end-relative seek")
            elif kind == "Current":
                o = sym("to", *I64)
                if judge_seek(run, st, st.seek("Current", o), add(mkdiv(st.pos, 8), o), "relative"):
                    observe(run, st, "after a relative seek")
            elif kind == "bit":
                o = sym("to", 0, U64)
                r = st.seek_bit(o)
                good = run.vname(r) == "Ok"
                inside = run.decide(le(o, scale(st.limit, 8)))
                run.require(good == inside, "seek_bit succeeds exactly for positions inside the data",
                            where="BitCursor::seek_bit")
                if good and inside:
                    st.pos = o
                    observe(run, st, "after seek_bit")
        return body

    def t_align(how):
        def body(run):
            st = start(run, p, how)
            if st is None:
                return
            run.call_fn(st.f("align32"), [st.cur])
            up = scale(mkdiv(add(st.pos, K(31)), 32), 32)
            end = scale(st.limit, 8)
            st.pos = up if run.decide(le(up, end)) else end
            observe(run, st, "after align32")
        return body

    def t_observe(how):
        def body(run):
            st = start(run, p, how)
            if st is not None:
                observe(run, st, "at any position")
        return body

    def t_fail(how):
        """a rejected seek leaves a later absolute seek and reads unaffected"""
        def body(run):
            st = start(run, p, how)
            if st is None:
                return
            r = st.seek("Start", sym("bad", 0, U64))
            if run.vname(r) == "Ok":
                return
            if st.seek_start(sym("again", 0, U64)):
                observe(run, st, "after a rejected and an accepted seek")
        return body

    for kind in ("Start", "End", "Current", "bit"):
        for how in ("", "len", "seek,read", "len,read") + (("bit,read", "seek,read,read") if ctx.tier == "thorough" else ()):
            ctx.task("%s seek from [%s]" % (kind, how), p, t_seek(how, kind), panics="violation", max_paths=200000)
    for how in ("", "seek", "seek,read", "len,read", "bit", "len,seek,read") + \
            (("bit,read", "seek,read,read") if ctx.tier == "thorough" else ()):
        ctx.task("align32 from [%s]" % how, p, t_align(how), panics="violation", max_paths=200000)
    for how in ("", "len", "seek", "seek,read", "len,seek,read"):
        ctx.task("observers at [%s]" % how, p, t_observe(how), panics="violation")
    ctx.task("rejected seek", p, t_fail("seek,read"), panics="violation")
