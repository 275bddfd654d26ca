"""C03: VBR decoding is exact or an error."""
from core import *
from specs.cursor import *

CRATES = ["llvm_bitcursor"]
RULE = ("Abstract interpretation of read_vbr/read_svbr's MIR (with the cursor's own code, not a summary of it) for every chunk width, "
        "over a symbolic buffer of any length and from several offsets inside a loaded window: on each partition the "
        "result must be the linear combination of the chunks' low bits prescribed by the encoding, the position must "
        "be just after the first chunk without continuation, and every overflow, over-long or truncated encoding and "
        "every unsupported width must be an error.")
FLOOR = {"partitions": 500, "obligations": 1000}


def vbr_spec(run, st, w):
    """('ok', value) or ('err',); moves st.pos."""
    pos, shift, total = st.pos, 0, ZERO
    while True:
        if not run.decide(le(add(pos, K(w)), scale(st.limit, 8))):
            return None
        if shift >= 64:
            return None
        room = 64 - shift
        if w - 1 > room:
            if not run.decide(eq(bits(SRC, add(pos, K(room)), K(w - 1 - room)), ZERO)):
                return None
            total = add(total, scale(bits(SRC, pos, K(room)), 1 << shift))
        else:
            total = add(total, scale(bits(SRC, pos, K(w - 1)), 1 << shift))
        cont = bits(SRC, add(pos, K(w - 1)), ONE)
        pos = add(pos, K(w))
        if run.decide(eq(cont, ZERO)):
            break
        shift += w - 1
    st.pos = pos
    return total


def check(ctx, progs):
    p = progs["llvm_bitcursor"]

    def body_for(w, lead, signed):
        def body(run):
            st = Stream(run, p)
            st.construct()
            if lead:
                r = run.resolve_enum(run.call_fn(st.f("read"), [st.cur, K(lead)]))
                if run.vname(r) != "Ok" or not run.decide(le(K(lead), scale(st.limit, 8))):
                    return
                st.pos = K(lead)
            name = "read_svbr" if signed else "read_vbr"
            r = run.resolve_enum(run.call_fn(st.f(name), [st.cur, K(w)]))
            exp = vbr_spec(run, st, w)
            good = run.vname(r) == "Ok"
            where = "BitCursor::" + name
            if exp is None:
                run.refuse(not good, "a truncated, over-long or overflowing VBR is an error", where=where)
                return
            run.require(good, "a complete VBR that fits 64 bits decodes", where=where)
            if not good:
                return
            if signed:
                mag = mkdiv(exp, 2)
                exp = neg(mag) if run.decide(eq(bits(SRC, K(lead), ONE), ONE)) else mag
                run.require(run.veq(r.f[0], exp), "sign from the lowest bit, magnitude from the rest", where=where)
            else:
                run.require(run.veq(r.f[0], exp), "the value is the sum of the chunks' low bits at their shifts", where=where)
            st.tell("exactly the chunks of the VBR are consumed")
        return body

    opts = {"loop_max": 400}
    leads = (0, 5, 63) if ctx.tier == "quick" else range(0, 64)
    for w in range(2, 33):
        for lead in leads:
            ctx.task("read_vbr w=%d at bit %d" % (w, lead), p, body_for(w, lead, False), opts)
        ctx.task("read_svbr w=%d" % w, p, body_for(w, 0, True), opts)
        if ctx.tier != "quick":
            ctx.task("read_svbr w=%d at bit 41" % w, p, body_for(w, 41, True), opts)

    def bad(signed):
        def body(run):
            st = Stream(run, p)
            st.construct()
            w = sym("w", 0, U64)
            if not run.decide(le(w, ONE)):
                run.assume(ge0(sub(w, K(33))))
            name = "read_svbr" if signed else "read_vbr"
            r = run.resolve_enum(run.call_fn(st.f(name), [st.cur, w]))
            run.refuse(run.vname(r) == "Err", "chunk widths outside 2..32 are rejected", where="BitCursor::" + name)
        return body
    ctx.task("read_vbr bad width", p, bad(False))
    ctx.task("read_svbr bad width", p, bad(True))
