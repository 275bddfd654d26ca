"""C26: stream values are never silently truncated."""
import sys
from specs.support import *

CRATES = ["llvm_bitstream", "llvm_mapper", "llvm_support"]
RULE = ("For every partition on which a public parsing, mapping or conversion function accepts: every integer cast executed on the way there in the library's "
        "own code is to a type that holds the value (proved from the partition's facts), and no number in the accepted result is an input value reduced "
        "modulo 2^k unless that value is below 2^k there. A value both of whose halves are taken (shift or division by at most the width kept) is exempt, as "
        "the property says.")
FLOOR = {"partitions": 2000}
POWERS = {1 << k: k for k in range(4, 64)}


def rejected(run, v):
    """whether a result says that the input was rejected (True/False)"""
    v = run.deref(v)
    if isinstance(v, SymV):
        return False
    if not isinstance(v, (Agg, EnumI)) or v.ty is None:
        return False
    t = run.prog.types[v.ty]
    if t["k"] != "adt" or t["path"] not in ("std::result::Result", "std::option::Option"):
        return False
    return run.vname(v) in ("Err", "None")


def leaves(run, v, out, depth=0):
    if depth > 12 or len(out) > 400:
        return
    if isinstance(v, Ref):
        try:
            v = run.deref(v)
        except Exception:
            return
    if isinstance(v, Lin):
        out.append(v)
    elif isinstance(v, EnumI):
        if isinstance(v.l, Lin):
            out.append(v.l)
    elif isinstance(v, Agg):
        for x in v.f:
            leaves(run, x, out, depth + 1)
    elif isinstance(v, Seq):
        for s in v.segs:
            if s[0] == "e":
                leaves(run, s[1], out, depth + 1)
    elif isinstance(v, MapV):
        for e in v.entries:
            for x in e:
                if isinstance(x, (Ref, Lin, EnumI, Agg, Seq, MapV)):
                    leaves(run, x, out, depth + 1)


def remainders(l):
    """(quotient atom, its argument, k) for parts of the form x mod 2^k of a number"""
    for i, c in l.t:
        a = ATOMS[i]
        if a.kind == "div" and c < 0 and -c in POWERS and isinstance(a.args[1], int) and a.args[1] == -c:
            yield Lin(0, ((i, 1),)), a.args[0], POWERS[-c]


def narrowing(p):
    """every integer cast to a smaller type in the library's MIR (what the partitions have to cover)"""
    for f in p.d["fns"]:
        if not f.get("has_body") or f["krate"] not in CRATES or f.get("derived"):
            continue
        for b in f["blocks"]:
            for _, r, _ in b["s"]:
                if r[0] == "cast" and r[1].startswith("IntToInt") and r[2][0] in ("c", "m"):
                    s, t = p.types[r[2][1][2]], p.types[r[3]]
                    if s.get("bits", 0) > t.get("bits", 0) and t.get("bits"):
                        yield "%s: %s to %s" % (strip_generics(f["disp"]), s["s"], t["s"])


def judge(run):
    if sys.exc_info()[0] is not None:
        return
    for f, a, b, casts, r in run.tops:
        if rejected(run, r):
            continue
        name = clean_site(f["disp"])
        for _ in range(casts - (b - a)):
            run.require(TRUE, "casts keep the value")
        for site, krate, v, ty in run.truncs[a:b]:
            if krate not in CRATES:
                continue
            lo, hi = run.prog.int_range(ty)
            w = (hi - lo).bit_length()
            if any(j <= w and run.known(eq(x, v)) for x, j in run.highs):
                continue
            run.require(cand(le(K(lo), v), le(v, K(hi))), "an accepted value is cast to %s although it may not fit" % run.prog.types[ty]["s"], where=site)
        out = []
        leaves(run, r, out)
        for l in out:
            for q, x, k in remainders(l):
                if any(j <= k and run.known(eq(y, x)) for y, j in run.highs):
                    continue
                run.require(eq(q, ZERO), "an accepted value is reduced modulo 2^%d" % k, where=name)


def check(ctx, progs):
    deep = ctx.tier != "quick"
    ctx.extra["narrowing_casts"] = sorted(set(narrowing(progs["llvm_mapper"])))

    def names(n):
        if deep:
            return True
        if n.startswith("layout"):
            return "-" in n
        return "(next)" not in n and not n.startswith(("spec 'f", "spec 'v"))
    take_over(ctx, progs, ["c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c19", "c28", "c24", "c20", "c21", "c22"], judge, "ignore", names=names)
