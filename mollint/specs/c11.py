"""C11: abbreviation definitions are accepted exactly when well formed."""
from core import *
from tape import *
from specs.stream import *

CRATES = ["llvm_bitstream"]
RULE = ("Abstract interpretation of Abbrev::new's MIR over a bit tape (the cursor represented by the summary C01-C03 "
        "establish): the definition grammar is evaluated on the same tape, and on every partition acceptance, the operand "
        "list and the final position must agree.")


def check(ctx, progs):
    p = progs["llvm_bitstream"]
    f = fn(p, "abbrev::Abbrev::new::<&[u8]>", private=True)

    def body_for(lo, hi):
        def body(run):
            q, src = source(run, tape(run, p))
            start = sym("start", 0, 1 << 40)
            c0 = CurV(start, scale(run.seq_len(q), 8), src, q)
            run.assume(le(start, c0.end))
            if hi is not None:
                n = vbr_value(c0, K(5))
                run.assume(cand(le(K(lo), n), le(n, K(hi))))
            sp = Spec(run, c0)
            ops = sp.define()
            cur = run.newref(c0)
            r = run.resolve_enum(run.call_fn(f, [cur]))
            good = run.vname(r) == "Ok"
            w = "Abbrev::new"
            if ops is None:
                run.refuse(not good, "an ill-formed or truncated definition is an error", where=w)
                return
            run.require(good, "a well-formed definition is accepted", where=w)
            if good:
                run.require(abbrev_eq(run, r.f[0], ops), "the operand list reflects the encoded operands in order", where=w)
                run.require(run.veq(run.deref(cur).pos, sp.c.pos), "exactly the definition is consumed", where=w)
        return body
    ctx.task("count 0", p, body_for(0, 0), OPTS)
    for n in range(1, 4 if ctx.tier == "quick" else 5):
        ctx.task("count %d" % n, p, body_for(n, n), dict(OPTS))
    ctx.task("any count", p, body_for(0, None), dict(OPTS, loop_max=3))
