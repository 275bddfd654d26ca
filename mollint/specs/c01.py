"""C01: a read of n bits yields exactly the next n bits of the stream, least significant first."""
from core import *
from specs.cursor import *

CRATES = ["llvm_bitcursor"]
RULE = ("Abstract interpretation of BitCursor's MIR over a symbolic byte buffer of any length (up to 2^40 bytes): "
        "values are linear forms over bit-slice atoms bits[start+len] of the buffer, partitions are split on the linear "
        "conditions the code branches on. After a construction and a seek to an arbitrary byte, sequences of reads of "
        "arbitrary widths (read, read_as, read_exact, read_vbr's carrier) must each return the bit-slice that starts where the "
        "previous successful read ended, or an error exactly when the width is unsupported or bits are missing.")
FLOOR = {"partitions": 300, "obligations": 500}


def check(ctx, progs):
    p = progs["llvm_bitcursor"]
    nread = 2 if ctx.tier == "quick" else 3

    def seq(kinds):
        def body(run):
            st = Stream(run, p)
            st.construct(with_len=False)
            o = sym("o", 0, U64)
            if not st.seek_start(o):
                return
            for i, k in enumerate(kinds):
                if k == "read":
                    st.read(sym(("n", i), 0, U64), "read #%d" % (i + 1))
                else:
                    st.read_typed(k, sym(("n", i), 0, U64), "read_as::<u%d> #%d" % (k, i + 1))
        return body
    ctx.task("seek;read;read", p, seq(["read", "read"]), panics="violation")
    ctx.task("read_as u64 then read", p, seq([64, "read"]), panics="violation")
    ctx.task("read_as u32 then read", p, seq([32, "read"]), panics="violation")
    ctx.task("read_as u8 then read", p, seq([8, "read"]), panics="violation")

    def exact(first, w):
        def body(run):
            st = Stream(run, p)
            st.construct(with_len=False)
            if first:
                st.read(sym("n", 0, U64), "first read")
            st.read_exact(w, "read_exact::<u%d>" % w)
            st.read(sym("m", 0, U64), "following read")
        return body
    for w in (8, 32, 64):
        ctx.task("read;read_exact u%d;read" % w, p, exact(True, w), panics="violation")
        ctx.task("read_exact u%d;read" % w, p, exact(False, w), panics="violation")

    def wl(run):
        st = Stream(run, p)
        st.construct(with_len=True)
        if not st.ok:
            return
        st.read(sym("a", 0, U64), "read #1")
        st.read(sym("b", 0, U64), "read #2")
    ctx.task("new_with_len;read;read", p, wl, panics="violation")
    ctx.task("seek;read;read;read", p, seq(["read", "read", "read"]), panics="violation", max_paths=400000)

    def bitseek(run):
        st = Stream(run, p)
        st.construct(with_len=False)
        b = sym("b", 0, U64)
        r = st.seek_bit(b)
        if run.vname(r) != "Ok" or not run.decide(le(b, scale(st.limit, 8))):
            return
        st.pos = b
        st.read(sym("n", 0, U64), "read #1")
        st.read(sym("m", 0, U64), "read #2")
    ctx.task("seek_bit;read;read", p, bitseek, panics="violation")
    if nread == 3:
        ctx.task("seek;read x4", p, seq(["read", "read", "read", "read"]), panics="violation", max_paths=400000)
        ctx.task("seek;read;read_as u8;read", p, seq(["read", 8, "read"]), panics="violation", max_paths=400000)
