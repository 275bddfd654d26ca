"""C16: symbol records map each field to the right attribute of the model."""
from core import *
from mapin import *

CRATES = ["llvm_mapper"]
RULE = ("Abstract interpretation of the MIR of Function/Alias/Comdat::try_map over records of every length up to 17 with "
        "arbitrary field values in a context with arbitrary version, string table, type table, attribute lists and section "
        "and GC tables: acceptance and every attribute must come from the field position LLVM's layout assigns. Conversions "
        "to enumerations are compared by the field they are applied to (their tables are decided by C20).")
FLOOR = {"partitions": 100}
OPTS = {"intercepts": [CONVS], "iter_max": 24}


class Parts:
    """components of an expected model: (name, condition thunk, value thunk)"""

    def __init__(self, run):
        self.run, self.fail, self.vals = run, False, {}

    def need(self, *conds):
        """conditions evaluated in turn while they hold"""
        for c in conds:
            c = c() if callable(c) else c
            if not self.run.decide(c):
                self.fail = True
                return False
        return True


def check(ctx, progs):
    p = progs["llvm_mapper"]

    def strtab_name(run, P, strtab, off, size):
        q = run.deref(run.call_fn(fn(p, "<block::strtab::Strtab as std::convert::AsRef<[u8]>>::as_ref"), [strtab]))
        n = run.seq_len(q)
        if P.need(le(ONE, size), le(add(off, size), n)):
            s = run.seq_slice(q, off, add(off, size))
            if P.need(eq(sym(("utf8", run.key(s)), 0, 1), ONE)):
                return s

    def table(run, P, seqref, i):
        q = run.deref(seqref)
        if P.need(lt(i, run.seq_len(q))):
            return run.seq_get(q, i)

    def one_based(run, P, seqref, f):
        if run.decide(eq(f, ZERO)):
            return None
        return table(run, P, seqref, sub(f, ONE))

    def enum(run, P, name, x):
        e = Enum(run, p, name, x)
        if P.need(e.ok()):
            return e.value()

    def variant(run, name, v):
        ty = tyid(p, name)
        t = p.types[ty]
        return EnumI(ty, K(next(x["discr"] for x in t["variants"] if x["name"] == v)))

    def bounded_tables(run, ctxv):
        pass

    S = "llvm_support::"

    def function(run, F, g, get, P):
        out = {}
        out["name"] = strtab_name(run, P, get("strtab"), F[0], F[1])
        if P.fail:
            return
        ty = table(run, P, find_seq(run, get("type_table")), F[2])
        if P.fail:
            return
        ty = run.resolve_enum(run.deref(ty))
        if run.vname(ty) != "Function":
            P.fail = True
            return
        out["ty"] = ty.f[0]
        out["calling_convention"] = enum(run, P, S + "CallingConvention", F[3])
        if P.fail:
            return
        out["is_declaration"] = cnot(eq(F[4], ZERO))
        out["linkage"] = enum(run, P, S + "Linkage", F[5])
        out["attributes"] = ("opt", one_based(run, P, find_seq(run, get("attributes")), F[6]))
        if P.fail:
            return
        if not P.need(le(F[7], K(64))):
            return
        r = run.call_fn(fn(p, "<llvm_support::MaybeAlign as std::convert::TryFrom<u8>>::try_from"), [F[7]])
        ok, out["alignment"] = outcome(run, r)
        if not P.need(cbool(ok)):
            return
        out["section"] = ("opt", one_based(run, P, get("section_table"), F[8]))
        if P.fail:
            return
        out["visibility"] = enum(run, P, S + "Visibility", F[9])
        if P.fail:
            return
        out["gc_name"] = ("opt", one_based(run, P, get("gc_table"), F[10]) if len(F) > 10 else None)
        if P.fail:
            return
        out["unnamed_addr"] = enum(run, P, S + "UnnamedAddr", F[11]) if len(F) > 11 else variant(run, S + "UnnamedAddr", "None")
        out["storage_class"] = enum(run, P, S + "DllStorageClass", F[13]) if len(F) > 13 else variant(run, S + "DllStorageClass", "Default")
        return out

    def alias(run, F, g, get, P):
        out = {}
        out["name"] = strtab_name(run, P, get("strtab"), F[0], F[1])
        if P.fail:
            return
        out["ty"] = table(run, P, find_seq(run, get("type_table")), F[2])
        if P.fail:
            return
        out["value_index"] = F[3]
        out["linkage"] = enum(run, P, S + "Linkage", F[4])
        for i, nm, ty, d in ((5, "visibility", "Visibility", "Default"), (6, "storage_class", "DllStorageClass", "Default"),
                             (7, "tls_mode", "ThreadLocalMode", "NotThreadLocal"), (8, "unnamed_addr", "UnnamedAddr", "None"),
                             (9, "preemption_specifier", "RuntimePreemption", "DsoPreemptable")):
            out[nm] = enum(run, P, S + ty, F[i]) if len(F) > i else variant(run, S + ty, d)
            if P.fail:
                return
        return out

    def comdat(run, F, g, get, P):
        out = {"name": strtab_name(run, P, get("strtab"), F[0], F[1])}
        if P.fail:
            return
        out["selection_kind"] = enum(run, P, "record::comdat::SelectionKind", F[2])
        return out

    def harness(what, disp, spec, n, lo, hi, partial):
        def body(run):
            f = fn(p, disp, private=True)
            r, q = record(run, p, "r", n)
            F = [run.seq_get(q, K(i)) for i in range(n)]
            cref = run.mkval(("ctx",), f["locals"][2]["ty"])
            res = run.call_fn(f, [r, cref])
            ok, x = outcome(run, res)
            c = run.expand(run.deref(cref)) if isinstance(run.deref(cref), SymV) else run.deref(cref)

            def get(name):
                v = field(run, c, name)
                return v if isinstance(v, Ref) else run.newref(v)
            P = Parts(run)
            v = field(run, c, "version")
            if partial:
                v = run.resolve_enum(v)
                v = v.f[0] if run.vname(v) == "Some" else None
            P.need(cbool(v is not None), lambda: le(K(2), v), cbool(lo <= n <= hi))
            want = None
            if not P.fail:
                want = spec(run, F, None, get, P)
            w = what + "::try_map"
            run.accept(ok, not P.fail, "a record is accepted exactly when long enough and every field is valid", where=w)
            if not ok or P.fail:
                return
            got = run.deref(x)
            for k, e in want.items():
                a = field(run, got, k)
                c_ = opt_is(run, a, e[1]) if isinstance(e, tuple) else run.veq(a, e)
                run.require(c_, "%s comes from its own field" % k, where=w)
        return body

    def add_(what, disp, spec, lens, lo, hi, partial=False):
        for n in lens:
            ctx.task("%s record of %d fields" % (what, n), p, harness(what, disp, spec, n, lo, hi, partial), dict(OPTS))
    add_("Function", "<record::function::Function<'_> as map::CtxMappable<'_, unroll::Record>>::try_map", function,
         range(0, 18), 10, 1 << 60)
    add_("Alias", "<record::alias::Alias<'_> as map::CtxMappable<'_, unroll::Record>>::try_map", alias, range(0, 13), 5, 1 << 60)
    add_("Comdat", "<record::comdat::Comdat as map::PartialCtxMappable<unroll::Record>>::try_map", comdat, range(0, 6), 3, 3, True)
