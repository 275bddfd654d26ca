"""C14: unrolling keeps every block and record in order and groups modules."""
from core import *
from mapin import *
import itertools

CRATES = ["llvm_mapper"]
RULE = ("Abstract interpretation of the MIR of Bitcode::try_from over streams of entries: every arrangement of the listed shapes "
        "(all sequences of up to four top-level blocks, block contents of up to five items, read errors and ends at every "
        "position; record contents, block lengths and unlisted block IDs unknown). The blocks handed to the string-table, "
        "identification, module and symbol-table mappers and the reported modules must be the ones the grouping rules give.")
FLOOR = {"partitions": 300}
IDS = {"I": 13, "M": 8, "S": 23, "Y": 25, "a": 12, "b": 17, "m": 8, "u": 99, "z": 0, "?": None}
BS = "llvm_bitstream::"


class Bad(Exception):
    pass


def group(hist):
    """(list of module dicts, or None for an error); a block is (id, [record numbers], {id: [blocks]})"""
    pos = [0]

    def nxt():
        t = hist[pos[0]] if pos[0] < len(hist) else "$"
        pos[0] += 1
        if t == "!":
            raise Bad()
        return t, pos[0] - 1

    def block(ident):
        recs, subs = [], []
        while True:
            t, i = nxt()
            if t == "$":
                raise Bad()
            if t == ".":
                return (ident, recs, subs)
            if t == "r":
                recs.append(i)
            else:
                subs.append((IDS[t] if t != '?' else ('?', i), block((t, i))))
    mods = []
    try:
        while True:
            t, i = nxt()
            if t == "$":
                break
            if t in ".r":
                raise Bad()
            b = block((t, i))
            if t == "I":
                mods.append(dict(I=b, M=None, S=None, Y=None))
            elif t in "Mm":
                if not mods or mods[-1]["M"] is not None:
                    raise Bad()
                mods[-1]["M"] = b
            elif t in "SY":
                for m in reversed(mods):
                    if m[t] is not None:
                        break
                    m[t] = b
            else:
                raise Bad()
        if any(m["M"] is None or m["S"] is None for m in mods):
            raise Bad()
    except Bad:
        return None
    return mods


def check(ctx, progs):
    p = progs["llvm_mapper"]
    disp = "<unroll::Bitcode as std::convert::TryFrom<llvm_bitstream::Bitstream<&[u8]>>>::try_from"
    KINDS = {"block::strtab::Strtab": "S", "block::identification::Identification": "I", "block::module::Module": "M",
             "block::symtab::Symtab": "Y"}

    def is_next(run, cal):
        return cal.get("name") in ("next", "advance") and str(cal.get("rself") or "").startswith(BS + "Bitstream<")

    def entry(run, ty, t, i):
        v = {"r": "Record", ".": "EndBlock"}.get(t, "SubBlock")
        vt = next(x for x in p.types[ty]["variants"] if x["name"] == v)
        if not vt["fields"]:
            return run.mk(ty, v)
        x = run.expand(run.mkval(("entry", i), vt["fields"][0]["ty"]))
        if v == "SubBlock" and IDS[t] is not None:
            n = [f["name"] for f in p.types[x.ty]["variants"][0]["fields"]].index("block_id")
            fs = list(x.f)
            fs[n] = K(IDS[t])
            x = Agg(x.ty, x.v, fs)
        return run.mk(ty, v, x)

    def h_next(hist):
        def h(run, cal, args, dty):
            i = run.at
            run.at += 1
            run.consumed += i < len(hist)
            t = hist[i] if i < len(hist) else "$"
            full = cal["name"] == "next"
            rty = p.types[dty]["args"][0] if full else dty
            if t == "$":
                if full:
                    return run.mk(dty, "None")
                ety = p.types[rty]["args"][1]
                return run.mk(rty, "Err", run.mk(ety, "Exhausted"))
            if t == "!":
                r = run.mk(rty, "Err", run.mkval(("read error", i), p.types[rty]["args"][1]))
            else:
                r = run.mk(rty, "Ok", entry(run, p.types[rty]["args"][0], t, i))
            return run.mk(dty, "Some", r) if full else r
        return h

    def is_map(run, cal):
        return cal.get("name") == "try_from" and str(cal.get("rself") or "").split("<")[0] in KINDS

    def h_map(run, cal, args, dty):
        k = KINDS[cal["rself"].split("<")[0]]
        a = run.deref(args[0])
        if isinstance(a, SymV):
            a = run.expand(a)
        if isinstance(a, Agg) and p.types[a.ty]["k"] == "tuple":
            a = run.deref(a.f[0])
        run.mapped.append((k, a))
        return run.mk(dty, "Ok", run.mkval(("mapped", len(run.mapped) - 1), p.types[dty]["args"][0]))

    def bid_of(run, i):
        if isinstance(i, int):
            return K(i)
        return field(run, run.expand(run.mkval(("entry", i[1]), tyid(p, BS + "record::Block"))), "block_id")

    def block_eq(run, v, want):
        """the unrolled block v holds exactly the wanted records and sub-blocks"""
        v = run.deref(v)
        if isinstance(v, SymV):
            v = run.expand(v)
        ident, recs, subs = want
        c = []
        bid = run.resolve_enum(field(run, v, "id"))
        if IDS[ident[0]] is not None:
            exp = run.call_fn(fn(p, "<block::BlockId as std::convert::From<u64>>::from"), [K(IDS[ident[0]])])
            c.append(run.veq(bid, exp))
        q = run.deref(find_seq(run, run.newref(field(run, v, "records"))))
        if q is None or run.seq_len(q).const != len(recs):
            return FALSE
        for j, i in enumerate(recs):
            r = run.newref(run.seq_get(q, K(j)))
            bs = tyid(p, BS + "record::Record")
            e = run.expand(run.mkval(("entry", i), bs))
            c.append(run.veq(run.call_fn(fn(p, "unroll::Record::code"), [r]), field(run, e, "code")))
            c.append(run.veq(run.call_fn(fn(p, "unroll::Record::fields"), [r]), field(run, e, "fields")))
        m = field(run, v, "blocks")
        while isinstance(m, Agg):
            m = m.f[0]
        if not isinstance(m, MapV):
            raise Unsupported("blocks %r" % (m,))
        byid = {}
        for i, b in subs:
            byid.setdefault(i, []).append(b)
        if len(byid) != len(m.entries):
            return FALSE
        for i, bs in byid.items():
            k = run.call_fn(fn(p, "<block::BlockId as std::convert::From<u64>>::from"), [bid_of(run, i)])
            l = [x for kk, x in m.entries if run.decide(run.veq(kk, k))]
            if len(l) != 1:
                return FALSE
            l = run.deref(l[0])
            if run.seq_len(l).const != len(bs):
                return FALSE
            for j, b in enumerate(bs):
                x = block_eq(run, run.seq_get(l, K(j)), b)
                if x is FALSE:
                    return FALSE
                c.append(x)
        return cand(*c)

    def same_origin(run, v, n):
        """is v the n-th mapped value? (every mapped value has its own name)"""
        return "('mapped', %d)" % n in repr(run.key(run.deref(v)))

    def body_for(hist):
        want = group(hist)

        def body(run):
            run.at, run.mapped = 0, []
            f = fn(p, disp)
            w = "Bitcode::try_from"
            if "?" in hist:
                i = hist.index("?")
                b = run.expand(run.mkval(("entry", i), tyid(p, BS + "record::Block")))
                x = field(run, b, "block_id")
                run.assume(cnot(member(x, (13, 8, 23, 25))))
            bs = run.mkval(("stream",), f["locals"][1]["ty"])
            ok, x = outcome(run, run.call_fn(f, [bs]))
            run.accept(ok, want is not None, "an arrangement of blocks is accepted exactly when it groups into complete modules",
                        where=w)
            if not ok or want is None:
                return
            q = run.deref(field(run, run.deref(x), "modules"))
            if run.seq_len(q).const != len(want):
                run.require(FALSE, "one module per identification block", where=w)
                return
            names = {"I": "identification", "M": "module", "S": "strtab", "Y": "symtab"}
            for j, m in enumerate(want):
                got = run.deref(run.seq_get(q, K(j)))
                if isinstance(got, SymV):
                    got = run.expand(got)
                for k, name in names.items():
                    v = field(run, got, name)
                    if k == "Y":
                        o = run.resolve_enum(v)
                        run.require((run.vname(o) == "Some") == (m[k] is not None), "a module has a symbol table exactly when given one", where=w)
                        if run.vname(o) != "Some" or m[k] is None:
                            continue
                        v = o.f[0]
                    src = None
                    for n, (kk, b) in enumerate(run.mapped):
                        if kk == k and same_origin(run, v, n):
                            src = b
                    if src is None:
                        raise Unsupported("origin of " + name)
                    run.require(block_eq(run, src, m[k]), "the %s of each module comes from its own block, complete and in order" % name, where=w)
        return body

    def add_(hists, what):
        for h in hists:
            ctx.task("%s %s" % (what, h or "(empty)"), p, body_for(h),
                     {"intercepts": [(is_next, h_next(h)), (is_map, h_map)], "loop_max": 60, "iter_max": 60, "max_steps": 400000})
    tops = {"I": "I.", "M": "Mr.", "S": "Sr.", "Y": "Y.", "a": "a."}
    add_(["".join(tops[c] for c in s) for n in range(0, 6 if ctx.tier == "quick" else 7) for s in itertools.product("IMSYa" if n < 4 else "IMSY", repeat=n)], "blocks")
    add_(["".join(tops[c] for c in s) for s in ("IMIMS", "IMSIMS", "IMIMSY", "IMYIMS", "IMSYIMSY", "IMSYIMYS", "IMIMIMS", "IMIMYS", "IMSIMIMYS",
                                                 "IMSSY", "IMIMSYIMS", "IIMMS", "IMSMI", "IMYYS", "IMIMSIMIMYS")], "blocks")
    add_(["I.M" + "".join(s) + "Sr." for n in range(0, 7 if ctx.tier == "quick" else 9) for s in itertools.product("ra.", repeat=n)], "contents")
    add_(["I.M" + s + ".Sr." for s in ("a.b.a.", "arb.a..", "ab..a.b.", "rar.rbr.r", "bab...b.", "m.m.", "aaa...a.", "arar.r.r", "u.a.u.", "z.ru.",
                                      "abab....r", "ar.br.ar.", "S.Y.I.", "aI.Mr..r", "?.", "?r.", "r?.r")], "contents")
    base = ["I.Mrar..Sr.", "I.Mr.I.Mr.Sr.Yr.", "Ir.Mabr...Sr.Y."]
    add_([b[:i] + x + b[i:] for b in base for i in range(len(b) + 1) for x in "!.r"], "stray item")
    add_([b[:i] for b in base for i in range(len(b))], "cut short")
    add_(["?.", "I.?.", "I.Mr.?.Sr.", "I.Mr.Sr.?."], "unlisted block")
    add_(["I.M" + "a" * n + "." * n + ".Sr." for n in (6, 10)], "nesting")
