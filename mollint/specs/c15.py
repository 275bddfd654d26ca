"""C15: required and unique records and blocks are enforced."""
from core import *
from mapin import *
import itertools

CRATES = ["llvm_mapper", "llvm_support"]
RULE = ("Abstract interpretation of the MIR of Module/Identification/Strtab/Symtab::try_from over blocks holding every listed "
        "arrangement of record codes and sub-blocks (all multiplicities 0-2 of the unique ones, all sequences of table records "
        "up to length four), contents unknown and the nested mappers replaced by unknown results: acceptance, the strings and "
        "tables built, and the records and blocks handed to the nested mappers must follow the rules.")
FLOOR = {"partitions": 800}
CODES = {"v": 1, "t": 2, "d": 3, "a": 4, "s": 5, "l": 6, "g": 11, "c": 12, "f": 8, "A": 14, "G": 7, "o": 16, "u": 200}
BLOCKS = {"T": 17, "V": 14, "P": 10, "p": 9, "F": 12, "M": 15, "U": 77}
NEST = {"record::datalayout::DataLayout": "d", "block::type_table::TypeTable": "T", "block::attributes::AttributeGroups": "P",
        "block::attributes::Attributes": "p", "record::comdat::Comdat": "c", "record::function::Function": "f",
        "block::function::Function": "F", "record::alias::Alias": "A"}


def check(ctx, progs):
    p = progs["llvm_mapper"]
    triple = next((i["value"][1] for i in progs["llvm_support"].d["items"] if i.get("path") == "TARGET_TRIPLE" and i.get("value")), None)

    def nested(bad):
        def h(run, cal, args, dty):
            k = NEST[cal["rself"].split("<")[0]]
            a = run.deref(args[0])
            if isinstance(a, SymV):
                a = run.expand(a)
            second = args[1] if len(args) > 1 else None
            if isinstance(a, Agg) and p.types[a.ty]["k"] == "tuple":
                a, second = run.deref(a.f[0]), a.f[1]
            n = len(run.nested)
            x = None
            if k == "p":
                c = run.deref(second)
                x = run.deref(field(run, c, "attribute_groups"))
            elif k in "fFA":
                c = run.deref(second)
                c = run.expand(c) if isinstance(c, SymV) else c
                x = {f: run.deref(field(run, c, f)) for f in ("version", "section_table", "gc_table", "comdats", "type_table", "attributes", "datalayout", "strtab")}
            run.nested.append((k, a, x))
            if sum(1 for q in run.nested if q[0] == k) - 1 == bad.get(k, -1):
                e = next(v for v in p.types[dty]["variants"] if v["name"] == "Err")
                return run.mk(dty, "Err", run.mkval(("nested error", n), e["fields"][0]["ty"]))
            return run.mk(dty, "Ok", run.mkval(("nested", k, n), p.types[dty]["args"][0]))
        return h

    def number(run, r):
        """which record or block of the input a value is"""
        m = re.search(r"\('item', (\d+)\)", repr(run.key(run.deref(r))))
        if not m:
            raise Unsupported("unidentified item %r" % (r,))
        return int(m.group(1))

    def other(run, i, known):
        """an unknown code other than the given ones"""
        x = sym(("other code", i), 0, (1 << 64) - 1)
        for k in sorted(known):
            run.assume(cnot(eq(x, K(k))))
        return x

    def strings(badstr, asm):
        def text(run, ref, idx, name):
            i = number(run, ref)
            if i == badstr:
                return None
            if run.letters[i] == "a" and idx.const == 0:
                return Seq([("b", asm)], None)
            return run.mkval(("text", K(i), idx, name), tyid(p, "std::string::String") if name == "try_string" else tyid(p, "std::vec::Vec<u8>"))
        return text

    def text_val(run, i, ty="std::string::String", name="try_string"):
        return run.mkval(("text", K(i), ZERO, name), tyid(p, ty))

    def seq_is(run, q, vals):
        q = run.deref(q)
        if not isinstance(q, Seq):
            raise Unsupported("table %r" % (q,))
        if run.seq_len(q).const != len(vals):
            return FALSE
        return cand(*[run.veq(run.seq_get(q, K(j)), v) for j, v in enumerate(vals)])

    DISP = "<block::module::Module as std::convert::TryFrom<(&unroll::Block, &mut map::PartialMapCtx)>>::try_from"

    def module(recs, blks, bad={}, badstr=-1, asm=b"x"):
        def body(run):
            f = fn(p, DISP, private=True)
            w = "Module::try_from"
            run.nested, run.letters = [], recs
            rv = [mkrecord(run, p, ("item", i), other(run, i, CODES.values()) if c == "u" else K(CODES[c])) for i, c in enumerate(recs)]
            bmap = {}
            uid = other(run, "block", [*BLOCKS.values(), *range(27)]) if "U" in blks else None
            for j, c in enumerate(blks):
                b = mkblock(run, p, BLOCKS[c], [mkrecord(run, p, ("item", 100 + j))], [])
                bmap.setdefault(BLOCKS[c] if c != "U" else uid, []).append(b)
            block = run.newref(mkblock(run, p, 8, rv, list(bmap.items())))
            cty = tyid(p, "map::PartialMapCtx")
            cref = run.newref(run.call_fn(fn(p, "<map::PartialMapCtx as std::default::Default>::default", private=True), []))
            strtab = run.mkval(("the strtab",), tyid(p, "block::strtab::Strtab"))
            run.write(cref, with_field(run, run.deref(cref), "strtab", strtab))
            tup = Agg(f["locals"][1]["ty"], 0, (block, cref))
            n = lambda c: recs.count(c)
            at = lambda c: [i for i, x in enumerate(recs) if x == c]
            good = n("v") == 1 and n("d") <= 1 and n("t") <= 1 and n("a") <= 1
            good = good and blks.count("T") == 1 and blks.count("V") == 1 and blks.count("P") <= 1 and blks.count("p") <= 1
            version = None
            if n("v") == 1:
                q = run.deref(run.call_fn(fn(p, "unroll::Record::fields"), [run.newref(rv[recs.index("v")])]))
                if run.decide(le(ONE, run.seq_len(q))):
                    version = run.seq_get(q, ZERO)
                else:
                    good = False
            cnt = dict(d=n("d"), c=n("c"), f=n("f"), A=n("A"), T=blks.count("T"), P=blks.count("P"), p=blks.count("p"), F=blks.count("F"))
            good = good and not any(0 <= b < cnt[k] for k, b in bad.items()) and not (badstr >= 0 and recs[badstr] in "tasgl")
            ok, x = outcome(run, run.call_fn(f, [tup]))
            run.accept(ok, good, "a module is accepted exactly when its required and unique records and blocks are in order", where=w)
            if not ok or not good:
                return
            x = run.deref(x)
            t = field(run, x, "triple")
            if n("t"):
                run.require(run.veq(t, text_val(run, at("t")[0])), "the triple is that of its record", where=w)
            elif triple is not None:
                run.require(run.veq(t, Seq([("b", triple.encode())], None)), "a missing triple gives the default", where=w)
            lines = [Seq([("b", l)], None) for l in asm.split(b"\n")] if n("a") else []
            run.require(seq_is(run, field(run, x, "asm"), lines), "assembly is split into its lines", where=w)
            run.require(seq_is(run, field(run, x, "deplibs"), [text_val(run, i) for i in at("l")]), "one dependent library per record, in order", where=w)
            c = run.deref(cref)
            for fld, k in (("section_table", "s"), ("gc_table", "g")):
                run.require(seq_is(run, field(run, c, fld), [text_val(run, i) for i in at(k)]), "one %s entry per record, in order" % fld, where=w)
            v = run.resolve_enum(field(run, c, "version"))
            run.require(run.veq(v.f[0], version) if run.vname(v) == "Some" else FALSE, "the version is the first field of its record", where=w)
            for k, what in (("d", "datalayout"), ("c", "COMDAT"), ("f", "function"), ("A", "alias")):
                run.require([number(run, a) for kk, a, _ in run.nested if kk == k] == at(k), "each %s record is mapped once, in order" % what, where=w)
            for k, what in (("T", "type"), ("P", "attribute group"), ("p", "attribute"), ("F", "function")):
                run.require([number(run, a) - 100 for kk, a, _ in run.nested if kk == k] == [j for j, y in enumerate(blks) if y == k],
                            "each %s block is mapped once, in order" % what, where=w)
            vals = {}
            for i, (k, a, y) in enumerate(run.nested):
                ty = next(s for s, kk in NEST.items() if kk == k)
                vals.setdefault(k, []).append(i)

            def is_nested(v, k, j=0):
                ks = vals.get(k, [])
                return len(ks) > j and "('nested', '%s', %d)" % (k, ks[j]) in repr(run.key(run.deref(v)))

            cm = run.deref(field(run, c, "comdats"))
            run.require(run.seq_len(cm).const == n("c") and all(is_nested(run.seq_get(cm, K(j)), "c", j) for j in range(n("c"))),
                        "one COMDAT per record, in order", where=w)
            tt = run.resolve_enum(field(run, c, "type_table"))
            run.require(run.vname(tt) == "Some" and is_nested(tt.f[0], "T"), "the type table is that of the type block", where=w)
            for fld, k in (("attribute_groups", "P"), ("attributes", "p"), ("datalayout", "d")):
                if k in vals:
                    run.require(is_nested(field(run, c, fld), k), "the %s are those of their block or record" % fld, where=w)
            for k, a, y in run.nested:
                if k == "p" and "P" in vals:
                    run.require(is_nested(y, "P"), "attribute lists are resolved against the module's groups", where=w)
                if k in "fFA":
                    for fld in ("section_table", "gc_table"):
                        kk = "s" if fld[0] == "s" else "g"
                        run.require(seq_is(run, y[fld], [text_val(run, i) for i in at(kk)]), "symbols see the module's %s" % fld, where=w)
                    run.require(run.veq(y["version"], version), "symbols see the module's version", where=w)
                    run.require(is_nested(y["type_table"], "T"), "symbols see the module's types", where=w)
                    run.require("the strtab" in repr(run.key(run.deref(y["strtab"]))), "symbols see the module's string table", where=w)
                    for fld, kk in (("attributes", "p"), ("datalayout", "d")):
                        if kk in vals:
                            run.require(is_nested(y[fld], kk), "symbols see the module's %s" % fld, where=w)
        return body

    def add_(recs, blks, bad={}, badstr=-1, asm=b"x"):
        nm = "module [%s | %s]%s%s%s" % (recs, blks, " fail %s" % sorted(bad.items()) if bad else "", " bad string %d" % badstr if badstr >= 0 else "",
                                         "" if asm == b"x" else " asm %r" % asm)
        sel = {s: k for s, k in NEST.items()}
        ctx.task(nm, p, module(recs, blks, bad, badstr, asm),
                 {"intercepts": [(is_fn(("try_from", "try_map"), sel), nested(bad)), str_calls(strings(badstr, asm))], "loop_max": 40, "iter_max": 40})
    U = "vdta"
    for m in itertools.product(range(3), repeat=4):
        add_("".join(c * k for c, k in zip(U, m)), "TV")
        add_("v", "".join(c * k for c, k in zip("TVPp", m)))
    seen = set()
    for n in range(0, 6 if ctx.tier != "quick" else 5):
        for s in itertools.product("sgclfA", repeat=n):
            add_("".join(s[:n // 2]) + "v" + "".join(s[n // 2:]), "TV" if n != 2 else "PTVpF")
    for s in ("ssgg", "sgsg", "cfcf", "lsls", "fAfA", "gsgs", "cccc", "AfAf", "uouG", "GoGu", "sGsu"):
        add_(s[:2] + "v" + s[2:], "VTF")
    for s in ("VT", "pPTV", "pTPV", "TVF", "FTV", "FFTV", "TVMU", "UMTV", "FVTPpF", "MMTVUU", "UTUV"):
        for r in ("v", "vfA", "tsvfd", "fAvdsgc"):
            add_(r, s)
    for a in (b"a\nb", b"\na", b"a\n\nb", b"a\n", b"\n\n", b"a b", b"ab\r\nc"):
        add_("va", "TV", asm=a)
    full = "vdtasglcfA"
    for k in "dcfATPpF":
        for j in (0, 1):
            add_("vdtassgglccffAA", "TVPpFF", bad={k: j})
    for i, c in enumerate("ssvggtadll"):
        add_("ssvggtadll", "TV", badstr=i)
    # two failing conditions at once, and orders of unique records
    for s in itertools.permutations("vdta"):
        add_("".join(s), "TV")

    # ---- identification, string and symbol tables
    def simple(what, disp, letters, recs, expect):
        def body(run):
            run.letters = recs
            rv = [mkrecord(run, p, ("item", i), other(run, i, [v for v in letters.values() if v]) if letters[c] == 0 else K(letters[c]))
                  for i, c in enumerate(recs)]
            block = run.newref(mkblock(run, p, 13, rv, []))
            good, chk = expect(run, recs, rv)
            ok, x = outcome(run, run.call_fn(fn(p, disp), [block]))
            run.accept(ok, good, "a %s is accepted exactly when its mandatory parts are there" % what, where=what)
            if ok and good:
                run.require(chk(run.deref(x)), "the %s is built from its own records" % what, where=what)
        return body

    def ident(run, recs, rv):
        if "p" not in recs or "e" not in recs:
            return False, None
        q = run.deref(run.call_fn(fn(p, "unroll::Record::fields"), [run.newref(rv[recs.index("e")])]))
        if recs.index("p") == getattr(run, "badstr", -1) or not run.decide(le(ONE, run.seq_len(q))):
            return False, None
        return True, lambda x: cand(run.veq(field(run, x, "producer"), text_val(run, recs.index("p"))),
                                    run.veq(field(run, x, "epoch"), run.seq_get(q, ZERO)))

    def blob(run, recs, rv):
        if "b" not in recs or recs.index("b") == getattr(run, "badstr", -1):
            return False, None
        return True, lambda x: run.veq(run.deref(find_seq(run, run.newref(x))), text_val(run, recs.index("b"), "std::vec::Vec<u8>", "try_blob"))

    def simp(what, disp, letters, expect, top):
        for n in range(0, top + 1):
            for s in itertools.product(letters, repeat=n):
                for bs in range(-1, n):
                    if bs >= 0 and letters[s[bs]] != 1:
                        continue
                    s_ = "".join(s)
                    b = simple(what, disp, letters, s_, expect)

                    def body(run, b=b, bs=bs):
                        run.badstr = bs
                        b(run)
                    ctx.task("%s [%s]%s" % (what, s_, " bad string %d" % bs if bs >= 0 else ""), p, body,
                             {"intercepts": [str_calls(strings(bs, b"x"))], "loop_max": 40, "iter_max": 40})
    simp("identification", "<block::identification::Identification as std::convert::TryFrom<&unroll::Block>>::try_from",
         {"p": 1, "e": 2, "x": 0}, ident, 3)
    simp("string table", "<block::strtab::Strtab as std::convert::TryFrom<&unroll::Block>>::try_from", {"b": 1, "x": 0}, blob, 3)
    simp("symbol table", "<block::symtab::Symtab as std::convert::TryFrom<&unroll::Block>>::try_from", {"b": 1, "x": 0}, blob, 3)
