"""C13: container and wrapper framing is honoured."""
from core import *
from tape import *
from specs.stream import field

CRATES = ["llvm_bitstream"]
RULE = ("Abstract interpretation of the MIR of Bitstream::from, from_raw and from_wrapped over a buffer of any length and content, "
        "the cursor represented by the summary that C01-C03 establish: acceptance, the reported header words, the stream "
        "magic, and the parsed region (start and end of the cursor left behind) must agree with the framing rules on "
        "every partition; the first entry is then read through advance to confirm where parsing starts.")
FLOOR = {"partitions": 12}
WRAP = 0x0B17C0DE


def check(ctx, progs):
    p = progs["llvm_bitstream"]

    def framing(run, n, wrapped, SRC):
        """(header or None, region start, region end, magic) in bytes, or None for an error"""
        def have(k):
            return run.decide(le(k, n))
        if wrapped is None:
            if not have(K(4)):
                return None
            wrapped = run.decide(eq(bits(SRC, ZERO, K(32)), K(WRAP)))
        hdr = None
        start, end = ZERO, n
        if wrapped:
            if not have(K(20)):
                return None
            hdr = [bits(SRC, K(32 * i), K(32)) for i in range(5)]
            start, end = hdr[2], add(hdr[2], hdr[3])
            if not have(end):
                return None
        if not run.decide(eq(mkmod(end, 4), ZERO)) or not run.decide(le(add(start, K(4)), end)):
            return None
        return hdr, start, end, bits(SRC, scale(start, 8), K(32))

    def body_for(name, wrapped):
        def body(run):
            ref = tape(run, p, words=False)
            n = run.seq_len(run.deref(ref))
            w = "Bitstream::" + name
            exp = framing(run, n, wrapped, source(run, ref)[1])
            r = run.resolve_enum(run.call_fn(fn(p, "Bitstream::<&[u8]>::" + name), [ref]))
            good = run.vname(r) == "Ok"
            if exp is None:
                run.refuse(not good, "a buffer or region that is too short, does not fit or is not a multiple of four bytes is an error", where=w)
                return
            run.require(good, "a well-framed buffer opens", where=w)
            if not good:
                return
            hdr, start, end, magic = exp
            v = run.deref(r.f[0])
            stream, wr = v, None
            if name != "from_raw":
                wr, stream = v.f[0], v.f[1]
            if name == "from":
                wr = run.resolve_enum(wr)
                run.require((run.vname(wr) == "Some") == (hdr is not None), "the wrapper is reported exactly when there is one", where=w)
                wr = wr.f[0] if run.vname(wr) == "Some" else None
            if hdr is not None and wr is not None:
                for nm, x in zip(("magic", "version", "offset", "size", "cpu_type"), hdr):
                    run.require(run.veq(field(run, wr, nm), x), "header word %s is reported" % nm, where=w)
            run.require(run.veq(field(run, stream, "magic"), magic), "the stream magic is the first 32 bits of the region", where=w)
            cur = find_cursor(run, stream)
            if cur is not None:
                run.require(run.veq(cur.pos, add(scale(start, 8), K(32))), "parsing starts right after the magic", where=w)
                run.require(run.veq(cur.end, scale(end, 8)), "parsing covers exactly the region", where=w)
            p0 = add(scale(start, 8), K(32))
            if run.decide(le(scale(end, 8), p0)):
                st = run.newref(stream)
                r = run.resolve_enum(run.call_fn(fn(p, "Bitstream::<&[u8]>::advance"), [st]))
                run.require(run.vname(r) == "Err" and run.vname(run.resolve_enum(r.f[0])) == "Exhausted",
                            "a region that holds only the magic is exhausted", where=w)
        return body

    for name, wr in (("from", None), ("from_raw", False), ("from_wrapped", True)):
        ctx.task(name, p, body_for(name, wr), {"intercepts": [INTERCEPT], "loop_max": 3, "iter_max": 3}, max_paths=4000)
