"""C12: records are decoded exactly as their encoding says."""
from core import *
from tape import *
from specs.stream import *

CRATES = ["llvm_bitstream"]
RULE = ("Abstract interpretation of the MIR of Bitstream::advance over a bit tape: for every operand shape listed, a block "
        "defines an abbreviation of that shape (operand widths and literals symbolic) and one record follows; the entry, its "
        "code, fields, abbreviation ID, the final position and every error must agree with the encoding rules evaluated on "
        "the same tape. Arrays, blobs and operand lists up to %d elements.")
RULE = RULE % 4
FLOOR = {"partitions": 200}


def shapes(tier):
    one = [("lit",), ("fixed",), ("vbr",), ("char6",), ("blob",), ("array", ("fixed",)), ("array", ("vbr",)), ("array", ("char6",))]
    out = [[x] for x in one]
    head = [("lit",), ("fixed",), ("vbr",)]
    out += [[h, x] for h in head for x in one]
    out += [[("lit",), ("vbr",), x] for x in one if x[0] != "char6" and x != ("array", ("char6",))]
    out += [[("char6",), ("fixed",)], [("lit",), ("fixed", 0)], [("lit",), ("vbr", 0)], [("fixed", 1), ("array", ("fixed", 8))]]
    if tier != "quick":
        out += [[h, x, y] for h in head for x in head + [("char6",)] for y in one]
    return out


def show(s):
    return " ".join(x[0] + ("(%s)" % show([x[1]]) if x[0] == "array" else str(x[1]) if len(x) > 1 else "") for x in s)


def check(ctx, progs):
    p = progs["llvm_bitstream"]
    B = dict(kind="enter", width=0, id=None)

    def task(name, steps, limit):
        k = len(steps) - 1
        ctx.task(name, p, lambda run: play(run, p, steps, "record", k, limit), dict(HOPTS))
    for s in shapes(ctx.tier):
        heavy = str(s).count("char6")
        task("abbreviated: " + show(s), [B, dict(kind="define", ops=s), dict(kind=0)], 1 if heavy else 3)
    task("abbreviated: second of two", [B, dict(kind="define", ops=[("lit",), ("fixed",)]), dict(kind="define", ops=[("lit",), ("vbr",)]),
                                        dict(kind=1)], 3)
    task("abbreviated twice", [B, dict(kind="define", ops=[("lit",), ("array", ("fixed",))]), dict(kind=0), dict(kind=0)], 2)
    task("unabbreviated", [B, dict(kind="unabbrev")], 4)
    task("unabbreviated twice", [B, dict(kind="unabbrev"), dict(kind="unabbrev")], 3)
    task("unabbreviated, nested", [B, B, dict(kind="unabbrev"), dict(kind="end"), dict(kind="unabbrev")], 2)

    # ---- Abbrev::parse on its own, at any bit offset
    f = fn(p, "abbrev::Abbrev::parse::<&[u8]>", private=True)

    def direct(shape, limit):
        def body(run):
            q, src = source(run, tape(run, p))
            start = sym("start", 0, 1 << 40)
            c0 = CurV(start, scale(run.seq_len(q), 8), src, q)
            run.assume(le(start, c0.end))
            sp = Spec(run, c0, limit)
            ops = [symop(o, i) for i, o in enumerate(shape)]
            try:
                fs = []
                for o in ops:
                    fs += sp.operand(o)
            except End:
                fs = None
            ab = run.newref(build(run, f, ops))
            cur = run.newref(c0)
            r = run.resolve_enum(run.call_fn(f, [ab, cur]))
            good = run.vname(r) == "Ok"
            w = "Abbrev::parse"
            if fs is None:
                run.refuse(not good, "missing data or an unsupported operand width is an error", where=w)
                return
            run.require(good, "a complete record decodes", where=w)
            if good:
                run.require(fields_eq(run, r.f[0], fs), "each operand yields its values in definition order", where=w)
                run.require(run.veq(run.deref(cur).pos, sp.c.pos), "exactly the record is consumed", where=w)
        return body
    for s in shapes("quick")[:8] + [[("vbr",), ("fixed",), ("lit",)]]:
        ctx.task("Abbrev::parse " + show(s), p, direct(s, 1 if "char6" in str(s) else 4), dict(HOPTS))


def symop(o, i):
    if o[0] == "array":
        return ("array", symop(o[1], (i, "elem")))
    if o[0] in ("lit", "fixed", "vbr"):
        return (o[0], sym(("operand", i), 0, (1 << 64) - 1))
    return o


def build(run, f, ops):
    """an Abbrev value with these operands"""
    t = run.prog.types
    aty = t[f["locals"][1]["ty"]]["to"]
    fl = t[aty]["variants"][0]["fields"]
    i = next(i for i, x in enumerate(fl) if x["name"] == "operands")
    oty = [a for a in t[fl[i]["ty"]]["args"] if isinstance(a, int)][0]

    def mk(o):
        if o[0] == "array":
            bty = next(v for v in t[oty]["variants"] if v["name"] == "Array")["fields"][0]["ty"]
            return run.mk(oty, "Array", box(run, bty, mk(o[1])))
        return run.mk(oty, VARIANT[o[0]], *o[1:])
    vals = [("e", mk(o)) for o in ops]
    return Agg(aty, 0, [Seq(vals, oty) if j == i else run.mkval(("rest", j), x["ty"]) for j, x in enumerate(fl)])


def box(run, bty, v):
    return run.newref(v)
