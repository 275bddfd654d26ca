"""C22: bounded numeric model types never hold out-of-range values."""
from specs.support import *

CRATES = ["llvm_support"]
RULE = ("Abstract interpretation of the conversions into and out of Align, MaybeAlign, AddressSpace, AlignedTypeWidth and IntegerType over "
        "every integer argument, plus an ownership rule: every expression in the workspace that builds one of these types is in the list "
        "the first part analyses (or in their derived clones), so no other way to build one exists.")
FLOOR = {"partitions": 60}
MAXAS, MAXW, MAXI = (1 << 23) - 1, (1 << 23) - 1, (1 << 24) - 1


def check(ctx, progs):
    p = progs["llvm_support"]

    def conv(disp, lo, hi, top, getter=None):
        def body(run):
            x = sym(("x",), 0, top)
            ok, v = res(run, run.call_fn(fn(p, disp), [x]))
            inr = cand(le(K(lo), x), le(x, K(hi)))
            run.require(inr if ok else cnot(inr), "accepted exactly for %d..%d" % (lo, hi), where=disp)
            if ok:
                run.require(eq(newtype(run, v), x), "the value is preserved", where=disp)
                if getter:
                    run.require(eq(run.deref(run.call_fn(fn(p, getter), [run.newref(run.deref(v))])), x), "the value is reported unchanged", where=getter)
        ctx.task(disp, p, body)
    conv("align::Align::from_shift", 0, 63, U8, "align::Align::shift")
    conv("<align::AddressSpace as std::convert::TryFrom<u32>>::try_from", 0, MAXAS, U32)
    conv("<align::AddressSpace as std::convert::TryFrom<u64>>::try_from", 0, MAXAS, U64)
    conv("<align::AlignedTypeWidth as std::convert::TryFrom<u32>>::try_from", 1, MAXW, U32)
    conv("<ty::IntegerType as std::convert::TryFrom<u32>>::try_from", 1, MAXI, U32, "ty::IntegerType::bit_width")

    def shift_of(run, v):
        return run.deref(run.call_fn(fn(p, "align::Align::shift"), [run.newref(run.deref(v))]))

    def power(disp, mul):
        def body(run):
            x = sym(("x",), 0, U64)
            for k in range(64):
                if mul << k <= U64 and run.decide(eq(x, K(mul << k))):
                    ok, v = res(run, run.call_fn(fn(p, disp), [x]))
                    run.require(cbool(ok), "powers of two are accepted", where=disp)
                    if ok:
                        run.require(eq(shift_of(run, v), K(k)), "the alignment is the power of two given", where=disp)
                    return
            ok, v = res(run, run.call_fn(fn(p, disp), [x]))
            run.require(cbool(not ok), "only powers of two are alignments", where=disp)
        ctx.task(disp, p, body)
    power("align::Align::from_byte_align", 1)
    power("align::Align::from_bit_align", 8)

    def maybe(run):
        w = "MaybeAlign::try_from"
        x = sym(("x",), 0, U8)
        ok, v = res(run, run.call_fn(fn(p, "<align::MaybeAlign as std::convert::TryFrom<u8>>::try_from"), [x]))
        run.require(le(x, K(64)) if ok else lt(K(64), x), "encoded alignments 0..64 are accepted", where=w)
        if ok:
            v = run.deref(v)
            v = run.resolve_enum(run.deref(v.f[0]))
            if run.decide(eq(x, ZERO)):
                run.require(cbool(run.vname(v) == "None"), "0 means no alignment", where=w)
            else:
                run.require(cbool(run.vname(v) == "Some"), "n means an alignment", where=w)
                if run.vname(v) == "Some":
                    run.require(eq(shift_of(run, v.f[0]), sub(x, ONE)), "n means 2^(n-1)", where=w)
    ctx.task("MaybeAlign::try_from", p, maybe)

    def reports(run):
        s = sym(("s",), 0, 63)
        k = pick(run, s, 0, 63)
        ok, v = res(run, run.call_fn(fn(p, "align::Align::from_shift"), [K(k)]))
        run.require(cbool(ok), "shifts to 63 are accepted", where="Align::from_shift")
        if ok:
            r = run.newref(run.deref(v))
            run.require(eq(run.deref(run.call_fn(fn(p, "align::Align::byte_align"), [r])), K(1 << k)), "byte_align is 2^shift", where="Align::byte_align")
            if k <= 60:
                run.require(eq(run.deref(run.call_fn(fn(p, "align::Align::bit_align"), [r])), K(8 << k)), "bit_align is 8*2^shift", where="Align::bit_align")
    ctx.task("Align reports", p, reports)

    # ---------------------------------------------------------------- the only ways to build one
    owned(ctx, p)


BOUNDED = {"align::Align": (0, 63), "align::AlignedTypeWidth": (1, MAXW), "align::AddressSpace": (0, MAXAS), "ty::IntegerType": (1, MAXI)}


def atoms(x):
    import terms
    return [terms.ATOMS[i].args for i, _ in x.t]


def given(k):
    """does this symbol's key start in an argument?"""
    return isinstance(k, tuple) and bool(k) and (k[0] == "arg" or any(given(x) for x in k))


def owned(ctx, p):
    """no public field, no constant out of range, and every public function that hands out such a value hands out one in range"""
    ids = {}
    for name in BOUNDED:
        i = tyid(p, name)
        ids[i] = name
        for f in p.types[i]["variants"][0]["fields"]:
            ctx.ob()
            if f["pub"]:
                ctx.violation("public|%s" % name, "the field of %s is public: any value can be stored in it" % name, name)
    memo = {}

    def mentions(t, seen=()):
        if t in ids:
            return True
        if t in memo:
            return memo[t]
        if t in seen:
            return False
        d = p.types[t]
        sub_ = [f["ty"] for v in d.get("variants") or [] for f in v["fields"]] + [a for a in d.get("args") or [] if isinstance(a, int)]
        sub_ += [d[k] for k in ("to", "elem") if isinstance(d.get(k), int)] + (d.get("fields") or [] if d["k"] == "tuple" else [])
        r = any(mentions(x, seen + (t,)) for x in sub_)
        if not seen:
            memo[t] = r
        return r

    consts = 0
    for it in p.d["items"]:
        if it["kind"] in ("const", "static") and it["krate"] == p.d["crate"] and it.get("value") and mentions(it.get("ty", -1)) if it.get("ty") is not None else False:
            consts += 1
            bad = []

            def walk(t, v):
                d = p.types[t]
                if t in ids:
                    n = v
                    while n[0] == "agg":
                        n = n[2][0]
                    lo, hi = BOUNDED[ids[t]]
                    if n[0] == "int" and not lo <= n[1] <= hi:
                        bad.append(n[1])
                    return
                if v[0] == "agg" and d.get("variants"):
                    for f, x in zip(d["variants"][v[1]]["fields"], v[2]):
                        walk(f["ty"], x)
            walk(it["ty"], it["value"])
            ctx.ob()
            if bad:
                ctx.violation("const|%s" % it["path"], "constant %s holds the out-of-range value %r" % (it["path"], bad), it["path"])
    ctx.extra["constants_checked"] = consts

    def mkarg(run, key, t, depth=0):
        d = p.types[t]
        if t in ids:
            lo, hi = BOUNDED[ids[t]]
            f = d["variants"][0]["fields"]
            if len(f) != 1 or p.types[f[0]["ty"]]["k"] != "uint":
                raise Unsupported("shape of " + d["s"])
            return Agg(t, 0, [sym(("in",) + key, lo, hi)])
        if not mentions(t) or depth > 1 + (d["k"] == "ref"):
            return run.mkval(("arg" if mentions(t) else "num",) + key, t)
        if d["k"] in ("ref", "ptr"):
            return run.newref(mkarg(run, key + ("*",), d["to"], depth + 1))
        if d["k"] == "tuple":
            return Agg(t, 0, [mkarg(run, key + (i,), x, depth + 1) for i, x in enumerate(d["fields"])])
        if d["k"] == "adt" and d["path"] == "std::vec::Vec":
            return Seq([("e", mkarg(run, key + (i,), d["args"][0], depth + 1)) for i in range(1)], d["args"][0])
        if d["k"] == "adt" and d.get("box"):
            return run.newref(mkarg(run, key + ("*",), d["args"][0], depth + 1))
        if d["k"] == "adt" and d["krate"] in (p.d["crate"], "core", "std") and d.get("variants"):
            vi = run.choose(len(d["variants"]), key) if len(d["variants"]) > 1 else 0
            return Agg(t, vi, [mkarg(run, key + (vi, i), f["ty"], depth + 1) for i, f in enumerate(d["variants"][vi]["fields"])])
        raise Unsupported("argument of type " + d["s"])

    def check_value(run, v, where, depth=0):
        v = run.deref(v)
        if depth > 8:
            return
        if isinstance(v, SymV):
            if v.ty in ids:
                v = run.expand(v)
            elif mentions(v.ty) and p.types[v.ty]["k"] != "adt":
                return
            else:
                return
        if isinstance(v, Agg):
            if v.ty in ids:
                lo, hi = BOUNDED[ids[v.ty]]
                x = newtype(run, v)
                if any(given(k) for k in atoms(x)):
                    return                      # part of an argument the analysis left unexpanded: it was in range when it came in
                run.require(cand(le(K(lo), x), le(x, K(hi))), "only values of %s in range are handed out" % ids[v.ty], where=where)
                return
            for x in v.f:
                check_value(run, x, where, depth + 1)
        elif isinstance(v, Seq):
            for sg in v.segs:
                if sg[0] == "e":
                    check_value(run, sg[1], where, depth + 1)

    pub = {it["path"] for it in p.d["items"] if it.get("pub")}
    n = 0
    for f in p.d["fns"]:
        if not f.get("has_body") or f["krate"] != p.d["crate"] or f.get("is_closure") or f.get("derived"):
            continue
        if f["path"] not in pub and not f.get("impl_trait"):
            continue
        tys = [l["ty"] for l in f["locals"][:f["argc"] + 1]]
        mut = [i for i, t in enumerate(tys[1:]) if p.types[t]["k"] == "ref" and p.types[t].get("mut") is not False and mentions(t)]
        if not mentions(tys[0]) and not mut or "error" in p.types[tys[0]]["s"].lower() and not p.types[tys[0]]["s"].startswith("std::result"):
            continue
        if f["name"] in ("fmt", "from_str", "eq", "cmp", "partial_cmp", "clone", "hash", "source", "update"):
            continue
        n += 1

        def body(run, f=f, tys=tys):
            args = [mkarg(run, (i,), t) for i, t in enumerate(tys[1:])]
            r = run.call_fn(f, args)
            check_value(run, r, f["disp"])
            for a in args:
                check_value(run, a, f["disp"])
        ctx.task("hands out: " + f["disp"], p, body, {}, panics="ignore", max_paths=1500, budget=40)
    ctx.extra["functions_handing_out"] = n

    from models import digits

    def text(*parts):
        segs = []
        for x in parts:
            segs += [("b", x.encode())] if isinstance(x, str) else [x]
        return Seq(segs)

    def parse(disp, name, *parts):
        def body(run):
            f = fn(p, disp)
            r = run.call_fn(f, [run.newref(text(*[digits(("d", i), 0, x) if isinstance(x, int) else x for i, x in enumerate(parts)]))])
            check_value(run, r, disp)
        ctx.task("parsed: %s %s" % (disp, "".join("#" if isinstance(x, int) else x for x in parts)), p, body, {}, panics="ignore", max_paths=2000)
    for l in ("i", "v", "f"):
        parse("<align::TypeAlignSpec as std::str::FromStr>::from_str", "TypeAlignSpec", l, U64, ":8")
        parse("<align::TypeAlignSpec as std::str::FromStr>::from_str", "TypeAlignSpec", l + "8:", U64)
    parse("<align::TypeAlignSpec as std::str::FromStr>::from_str", "TypeAlignSpec", "a:", U64)
    parse("<align::TypeAlignSpec as std::str::FromStr>::from_str", "TypeAlignSpec", "a:8:", U64)
    P = "<align::PointerAlignSpec as std::str::FromStr>::from_str"
    parse(P, "PointerAlignSpec", "p", U64, ":64:8:8:64")
    parse(P, "PointerAlignSpec", "p1:64:", U64)
    parse(P, "PointerAlignSpec", "p1:64:8:", U64)
