"""C04: the bitstream layer never panics on any input."""
from core import *
from tape import *
from specs.stream import *
from specs.cursor import Stream as CurStream

CRATES = ["llvm_bitcursor", "llvm_bitstream"]
RULE = ("Every panic edge of MIR (failed assertions for overflow, bounds and division; unwrap/expect on the failing variant; explicit "
        "panics; capacity overflow of a requested reservation) met while abstractly interpreting the cursor, container and parser "
        "APIs must lie on an infeasible partition. Harnesses: the cursor histories of C01-C03, the stream histories of C10 and C12, "
        "definitions of C11, containers of C13, and every public cursor accessor in every reachable cursor state shape.")
FLOOR = {"partitions": 5000}
MAXCAP = (1 << 63) - 1


def judge(run):
    for e in run.events:
        if e[0] == "alloc":
            n = e[1]
            if isinstance(n, Lin):
                run.require(le(n, K(MAXCAP)), "a reservation can overflow (capacity overflow panic)", where=e[2])


def check(ctx, progs):
    take_over(ctx, progs, ["c01", "c02", "c10", "c11", "c12", "c13"], judge, "violation")
    take_over(ctx, progs, ["c03"], judge, "violation", names=lambda n: "at bit 0" in n or "svbr" in n or "bad" in n)
    p = progs["llvm_bitcursor"]

    def state(run, shape):
        st = CurStream(run, p)
        if not st.construct(with_len="limit" in shape):
            return None
        if "seek" in shape:
            if run.vname(st.seek("Start", sym("off", 0, U64))) != "Ok":
                return None
        if "bit" in shape:
            st.seek_bit(sym("bitpos", 0, U64))
        if "read" in shape:
            run.call_fn(st.f("read"), [st.cur, sym("n", 0, U64)])
        if "align" in shape:
            run.call_fn(st.f("align32"), [st.cur])
        return st

    def acc(shape, name, args):
        def body(run):
            st = state(run, shape)
            if st is None:
                return
            run.call_fn(fn(p, name), [st.cur] + args(run, fn(p, name)))
        return body
    B = "BitCursor::<&[u8]>::"
    S = "<BitCursor<&[u8]> as std::io::Seek>::"
    none = lambda run, f: []
    ops = [(B + x, none) for x in ("tell_bit", "tell_byte", "byte_len", "bit_len", "exhausted", "align32")]
    ops += [(B + "read", lambda run, f: [sym("m", 0, U64)]), (B + "seek_bit", lambda run, f: [sym("m", 0, U64)]),
            (S + "stream_position", none)]
    ops += [(S + "seek", (lambda k, lo, hi: lambda run, f: [run.mk(f["locals"][2]["ty"], k, sym("m" + k, lo, hi))])(k, lo, hi))
            for k, lo, hi in (("Start", 0, U64), ("End", -(1 << 63), (1 << 63) - 1), ("Current", -(1 << 63), (1 << 63) - 1))]
    for w in (8, 16, 32, 64):
        ops.append((B + "read_as::<u%d>" % w, lambda run, f: [sym("m", 0, U64)]))
        ops.append((B + "read_exact::<u%d>" % w, none))
    for shape in ("", "limit", "seek", "bit", "limit seek read", "bit read align", "read align"):
        for nm, args in ops:
            if shape not in ("", "bit read align", "limit seek read") and "read_" in nm:
                continue
            try:
                fn(p, nm)
            except Missing:
                continue            # accessor that is not instantiated in this build
            ctx.task("%s after [%s]" % (nm.split("::")[-1] if "<u" not in nm else nm[len(B):], shape), p, acc(shape, nm, args))
