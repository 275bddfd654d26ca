"""C28: strings and blobs are extracted whole or not at all."""
from core import *
from mapin import *

CRATES = ["llvm_mapper"]
RULE = ("Abstract interpretation of the MIR of Strtab::get/try_get over a table of any length and content with arbitrary "
        "offset and size, and of Record::try_string/try_blob over records of up to 6 fields with arbitrary values and an "
        "arbitrary start index: acceptance and the extracted bytes must agree with the specification on every partition.")
FLOOR = {"partitions": 20}


def utf8(run, q):
    import models
    b = models.plain(run, q)
    if b is not None:
        try:
            b.decode()
            return True
        except UnicodeDecodeError:
            return False
    return run.decide(eq(sym(("utf8", run.key(q)), 0, 1), ONE))


def check(ctx, progs):
    p = progs["llvm_mapper"]

    def strtab(name):
        def body(run):
            st = symval(run, p, ("strtab",), "block::strtab::Strtab")
            q = run.deref(run.call_fn(fn(p, "<block::strtab::Strtab as std::convert::AsRef<[u8]>>::as_ref"), [st]))
            n = run.seq_len(q)
            run.assume(le(n, K(MAXF)))
            ref = symval(run, p, ("sref",), "llvm_support::StrtabRef")
            v = run.expand(run.read(ref))
            run.write(ref, v)
            off, size = field(run, v, "offset"), field(run, v, "size")
            good = run.decide(le(ONE, size)) and run.decide(le(add(off, size), n))
            want = run.seq_slice(q, off, add(off, size)) if good else None
            good = good and utf8(run, want)
            r = run.call_fn(fn(p, "block::strtab::Strtab::" + name), [st, ref])
            ok, x = outcome(run, r)
            w = "Strtab::" + name
            run.accept(ok, good, "a lookup succeeds exactly for a non-empty range inside the table that is UTF-8", where=w)
            if ok and good:
                run.require(run.veq(x, want), "the requested range is returned", where=w)
        return body
    for n in ("try_get", "get"):
        ctx.task("Strtab::" + n, p, strtab(n))

    def extract(name, text, n, idx=None):
        def body(run):
            r, q = record(run, p, "r", n)
            i = sym("idx", 0, (1 << 64) - 1) if idx is None else K(idx)
            fs = [run.seq_get(q, K(j)) for j in range(n)]
            good, want = False, None
            if run.decide(le(add(i, K(2)), K(n))):
                k = pick(run, i, 0, n - 2)
                good = all(run.decide(le(f, K(255))) for f in fs[k:])
                if good:
                    want = Seq([("e", f) for f in fs[k:]], None)
                    if text:
                        good = utf8(run, want)
            ok, x = outcome(run, run.call_fn(fn(p, "unroll::Record::" + name), [r, i]))
            w = "Record::" + name
            run.accept(ok, good, "extraction succeeds exactly for two or more byte-sized fields%s" % (" that are UTF-8" if text else ""),
                        where=w)
            if ok and good:
                run.require(run.veq(x, want), "one byte per field, in order, to the last field", where=w)
        return body
    top = 6 if ctx.tier == "quick" else 8
    for name, text in (("try_string", True), ("try_blob", False)):
        for n in range(0, top + 1):
            ctx.task("Record::%s of %d fields" % (name, n), p, extract(name, text, n), {"iter_max": 12})
