"""C05: mapping bitcode never panics on any input."""
import itertools
from specs.support import *

CRATES = ["llvm_mapper", "llvm_support"]
RULE = ("Every panic edge of MIR (failed assertions for overflow, bounds and division; unwrap/expect on the failing variant; explicit panics) met while "
        "abstractly interpreting the mapping layer must lie on an infeasible partition. Harnesses: the symbolic entry streams of C14, the module, type "
        "table, symbol, attribute, string-table and datalayout harnesses of C14-C19, C24 and C28, and every trait implementation of the crate that maps "
        "a block or record, over blocks of up to N records of unknown code with any number of unknown fields up to M, with and without a nested block.")
INNER = (9, 10, 12, 14, 17, 99)
FLOOR = {"partitions": 5000}


def parts(p, ty):
    """how a mapper receives its input: ('block'|'record'|'other', type) per argument or tuple component"""
    t = p.types[ty]
    if t["k"] == "ref":
        s = p.types[t["to"]]
        if s["k"] == "adt" and s["path"] == "llvm_mapper::unroll::Block" or s["s"] == "unroll::Block":
            return "block"
        if s["s"] == "unroll::Record":
            return "record"
    return None


def mappers(p):
    out = []
    for f in p.d["fns"]:
        if not f.get("has_body") or f["krate"] != "llvm_mapper" or f.get("is_closure") or f.get("derived") or not f.get("impl_trait"):
            continue
        kinds = set()
        for l in f["locals"][1:f["argc"] + 1]:
            t = p.types[l["ty"]]
            for x in (t["fields"] if t["k"] == "tuple" else [l["ty"]]):
                k = parts(p, x)
                if k:
                    kinds.add(k)
        if len(kinds) == 1:
            out.append((f, kinds.pop()))
    return out


def check(ctx, progs):
    p = progs["llvm_mapper"]
    deep = ctx.tier != "quick"
    take_over(ctx, progs, ["c14", "c15", "c16", "c17", "c19", "c28"], None, "violation")
    take_over(ctx, progs, ["c24"], None, "violation", names=lambda n: deep or not n.startswith("layout") or "-" in n)
    ms = mappers(p)
    ctx.extra["mappers"] = [f["disp"] for f, _ in ms]

    def arguments(run, f, given):
        out = []
        for i, l in enumerate(f["locals"][1:f["argc"] + 1]):
            t = p.types[l["ty"]]
            if t["k"] == "tuple":
                out.append(Agg(l["ty"], 0, tuple(given if parts(p, x) else run.mkval(("arg", i, j), x) for j, x in enumerate(t["fields"]))))
            else:
                out.append(given if parts(p, l["ty"]) else run.mkval(("arg", i), l["ty"]))
        return out

    def rec(run, i, n):
        return mkrecord(run, p, ("item", i), sym(("code", i), 0, U64), [sym(("field", i, j), 0, U64) for j in range(n)])

    def block(f, shape, inner):
        def body(run):
            sub_ = []
            if inner is not None:
                i = INNER[run.choose(len(INNER), "nested block id")]
                sub_ = [(i, [mkblock(run, p, i, [rec(run, ("in", j), n) for j, n in enumerate(inner)], [])])]
            b = mkblock(run, p, 8, [rec(run, i, n) for i, n in enumerate(shape)], sub_)
            run.call_fn(f, arguments(run, f, run.newref(b)))
        return body

    def single(f, n):
        def body(run):
            run.call_fn(f, arguments(run, f, run.newref(rec(run, 0, n))))
        return body
    opts = {"loop_max": 30, "iter_max": 30, "max_depth": 900}
    deep = ctx.tier != "quick"
    lim = {"max_paths": 1500 if not deep else 20000, "budget": 20 if not deep else 120}
    for f, k in ms:
        if k == "record":
            for n in range(0, (20 if "DataLayout" not in f["disp"] else 6) if not deep else 26):
                ctx.task("%s: record of %d fields" % (f["disp"], n), p, single(f, n), dict(opts, intercepts=[CONVS]), **lim)
            continue
        shapes = [()] + [(n,) for n in range(0, 7)] + [(a, b) for a in (0, 1, 4) for b in (0, 1, 4)] + [(1, 3)]
        if deep:
            shapes += list(itertools.product((0, 1, 3, 4), repeat=3))
        for s in shapes:
            ctx.task("%s: records of %s fields" % (f["disp"], s), p, block(f, s, None), dict(opts), **lim)
        for s in ((), (1,)) if not deep else ((), (1,), (1, 4)):
            for inner in ((), (2,)) if not deep else ((), (2,), (1, 4)):
                ctx.task("%s: records of %s fields and a nested block of %s" % (f["disp"], s, inner), p, block(f, s, inner), dict(opts), **lim)
