"""The abstract bit-stream a cursor is measured against (shared by C01, C02, C03)."""
from core import *

U64 = (1 << 64) - 1
SRC = "buf"
MAXBYTES = 1 << 40


class Stream:
    """Drives BitCursor<&[u8]> and, next to it, the specification: a position `pos` (bits) and a limit (bytes)."""

    def __init__(self, run, prog):
        self.run, self.p = run, prog
        self.ok = False
        self.err = False

    # ---- construction
    def buffer(self):
        run, p = self.run, self.p
        ref = run.symref(("bytesof", SRC), tyid(p, "[u8]"))
        self.buflen = run.seq_len(run.deref(ref))
        run.assume(le(self.buflen, K(MAXBYTES)))
        return ref

    def f(self, name):
        return fn(self.p, "BitCursor::<&[u8]>::" + name)

    def construct(self, with_len=False):
        run = self.run
        buf = self.buffer()
        self.pos = ZERO
        if not with_len:
            v = run.call_fn(self.f("new"), [buf])
            self.limit = self.buflen
        else:
            n = sym("limit", 0, U64)
            r = run.resolve_enum(run.call_fn(self.f("new_with_len"), [buf, n]))
            fits = run.decide(le(n, self.buflen))
            good = run.vname(r) == "Ok"
            run.require(good == fits, "new_with_len accepts exactly the limits not exceeding the buffer",
                        where="BitCursor::new_with_len")
            if not (good and fits):
                return False
            v = r.f[0]
            self.limit = n
        self.cur = run.newref(v)
        self.ok = True
        return True

    # ---- spec helpers
    def left(self):
        return sub(scale(self.limit, 8), self.pos)

    def tell(self, what):
        run = self.run
        t = run.call_fn(self.f("tell_bit"), [self.cur])
        run.require(run.veq(t, self.pos), what, where="BitCursor::tell_bit")

    # ---- operations
    def read(self, n, what, silent=False):
        run = self.run
        if self.err:
            return None
        r = run.resolve_enum(run.call_fn(self.f("read"), [self.cur, n]))
        return self._judge(r, n, None, what, "BitCursor::read", silent)

    def _judge(self, r, n, w, what, where, silent=False):
        run = self.run
        good = run.vname(r) == "Ok"
        valid = run.decide(cand(le(ONE, n), le(n, K(63)))) and run.decide(le(n, self.left()))
        if silent:
            if not (good and valid):
                return None
        exp = None
        if valid:
            exp = bits(SRC, self.pos, n)
        if valid and w is not None and w < 64:
            # narrower type: same value or an error when the value does not fit
            fits = run.decide(le(exp, K((1 << w) - 1)))
        else:
            fits = True
        if not silent:
            if valid and fits:
                run.require(good, "%s succeeds when the width is 1..63 and enough bits remain" % what, where=where)
            elif not valid:
                run.require(not good, "%s fails when the width is unsupported or bits are missing" % what, where=where)
            else:
                run.require(not good, "%s fails when the value does not fit the target type" % what, where=where)
        if good and valid:
            if not silent:
                run.require(run.veq(r.f[0], exp), "%s returns exactly the next bits, first bit least significant" % what,
                            where=where)
            self.pos = add(self.pos, n)
        if not good:
            self.err = True                 # what a failed read consumed is unspecified: the history ends here
        elif not silent:
            self.tell("%s moves the position by exactly the bits it returns" % what)
        return r.f[0] if good else None

    def read_typed(self, w, n, what):
        run = self.run
        if self.err:
            return None
        r = run.resolve_enum(run.call_fn(self.f("read_as::<u%d>" % w), [self.cur, n]))
        return self._judge(r, n, w, what, "BitCursor::read_as")

    def read_exact(self, w, what):
        run = self.run
        if self.err:
            return None
        r = run.resolve_enum(run.call_fn(self.f("read_exact::<u%d>" % w), [self.cur]))
        if w == 64:
            # 64-bit wide reads are outside the supported widths: reading one whole u64 is an error
            return self._judge(r, K(64), None, what, "BitCursor::read_exact")
        return self._judge(r, K(w), w, what, "BitCursor::read_exact")

    def seek(self, kind, off):
        run = self.run
        f = fn(self.p, "<BitCursor<&[u8]> as std::io::Seek>::seek")
        ty = f["locals"][2]["ty"]
        return run.resolve_enum(run.call_fn(f, [self.cur, run.mk(ty, kind, off)]))

    def seek_start(self, o):
        """unchecked positioning used to reach arbitrary states (C02 judges seeks)"""
        run = self.run
        r = self.seek("Start", o)
        if run.vname(r) != "Ok" or not run.decide(le(o, self.limit)):
            return False
        self.pos = scale(o, 8)
        return True

    def seek_bit(self, pos):
        run = self.run
        return run.resolve_enum(run.call_fn(self.f("seek_bit"), [self.cur, pos]))
