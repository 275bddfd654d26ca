"""C06: the model types' constructors, conversions and parsers never panic."""
from models import digits
from specs.c22 import BOUNDED
from specs.support import *

CRATES = ["llvm_support", "llvm_mapper"]
RULE = ("Abstract interpretation of every public function and trait implementation of llvm-support (formatting excluded) over unconstrained arguments of "
        "its parameter types (bounded types holding any value in range), and of the string parsers over every text of up to N pieces (separators, "
        "letters, symbolic decimals, signs, characters of two to four bytes): no reachable panic, overflow, failed unwrap or slice inside a character.")
FLOOR = {"partitions": 600}
PIECES = [":", "D", "x", "\u00e9", "+", "i", " "]
HEADS = ["", "a", "i", "v", "f", "p", "\u20ac", "\U0001f600", ":", "D", "+", "-", "s"]
LHEADS = ["", "e", "E", "S", "P", "G", "A", "p", "i", "v", "f", "a", "F", "Fi", "Fn", "m", "m:", "n", "ni", "ni:", "z", "-", "D", ":", "\u00e9"]


def check(ctx, progs):
    p = progs["llvm_support"]
    bounds = {tyid(p, n): r for n, r in BOUNDED.items()}
    pub = {it["path"] for it in p.d["items"] if it.get("pub")}
    n = 0
    for f in p.d["fns"]:
        if not f.get("has_body") or f["krate"] != p.d["crate"] or f.get("is_closure") or f.get("derived"):
            continue
        if f["path"] not in pub and not f.get("impl_trait") or f["name"] in ("fmt", "source", "clone"):
            continue
        tys = [l["ty"] for l in f["locals"][1:f["argc"] + 1]]
        if any(is_text(p, t) for t in tys):
            if len(tys) == 1:
                n += 1
                for h in HEADS:
                    texts(ctx, p, f, h, 4 if ctx.tier == "quick" else 5)
            continue
        n += 1

        def body(run, f=f, tys=tys, big=None):
            args = [run.mkval(("arg", i), t) for i, t in enumerate(tys)]
            if big is not None:
                a = newtype(run, args[0])
                run.assume(le(K(61), a) if big else le(a, K(60)))
            for a in args:
                if isinstance(a, Seq):
                    run.assume(le(run.seq_len(a), K(2)))
            run.call_fn(f, args)
        # the bit alignment of 2^61 bytes and more does not fit the result type: told apart from every other input
        split = [("any arguments: ", None)]
        if f["disp"] == "align::Align::bit_align":
            split = [("alignments up to 2^60 bytes: ", False), ("alignments of 2^61 bytes and more: ", True)]
        for t, big in split:
            ctx.task(t + f["disp"], p, lambda run, body=body, big=big: body(run, big=big), {"bounds": bounds, "loop_max": 4, "iter_max": 4, "pow2_bounds": 1},
                     max_paths=4000, budget=60)
    ctx.extra["functions_called"] = n
    m = progs["llvm_mapper"]
    f = fn(m, "<record::datalayout::DataLayout as std::str::FromStr>::from_str")
    for h in LHEADS:
        texts(ctx, m, f, h, 4 if ctx.tier == "quick" else 5)


def is_text(p, t):
    d = p.types[t]
    return d["k"] == "ref" and p.types[d["to"]]["k"] == "str" or d["k"] == "adt" and d["path"] == "std::string::String"


def texts(ctx, p, f, head, depth):
    def body(run):
        out = [head] if head else []
        for i in range(run.choose(depth + 1, "length")):
            out.append(PIECES[run.choose(len(PIECES), ("piece", i))])
        segs = []
        for i, x in enumerate(out):
            alone = x == "D" and (i == 0 or out[i - 1] == ":" or i == 1 and head and head != "D") and (i + 1 == len(out) or out[i + 1] == ":")
            segs.append(digits(("d", i), 0, 1 << 65) if alone else ("b", (b"7" if x == "D" else x.encode())))
        run.call_fn(f, [run.newref(Seq(segs))])
    ctx.task("any text after '%s': %s" % (head, f["disp"]), p, body, {"loop_max": 20}, max_paths=60000)
