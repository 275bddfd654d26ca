"""The bitstream grammar on a tape: reference semantics for C04, C10-C13."""
from core import *
from tape import *

OPTS = {"intercepts": [INTERCEPT], "loop_max": 7, "iter_max": 7, "max_steps": 200000}
HOPTS = dict(OPTS, loop_max=30)
CHAR6 = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._"


class End(Exception):
    """specification reached an error"""


class Spec:
    """Reads entries off the tape.  `None`/End = error."""

    def __init__(self, run, c, limit=4):
        self.run, self.c = run, c
        self.limit = limit
        self.scopes = []         # dict(width, id, abbrevs, target)
        self.info = []           # [id, [abbrev]]

    # ---- primitives
    def get(self, n):
        v, self.c = t_read(self.run, self.c, n if isinstance(n, Lin) else K(n))
        if v is None:
            raise End()
        return v

    def vbr(self, w):
        v, self.c = t_vbr(self.run, self.c, w if isinstance(w, Lin) else K(w))
        if v is None:
            raise End()
        return v

    def align(self):
        self.c = t_align(self.run, self.c)

    def times(self, n):
        """iterations 0 <= i < n, cutting the partition after self.limit"""
        i = 0
        while self.run.decide(lt(K(i), n)):
            if i >= self.limit:
                raise Cut()
            yield i
            i += 1

    # ---- definitions
    def define(self):
        try:
            return self._define()
        except End:
            return None

    def _define(self):
        run = self.run
        n = self.vbr(5)
        if run.decide(eq(n, ZERO)):
            raise End()
        ops = []
        it = self.times(n)
        for i in it:
            if run.decide(eq(self.get(1), ONE)):
                ops.append(("lit", self.vbr(8)))
                continue
            e = self.enc()
            if e == "array":
                if not run.decide(eq(n, K(i + 2))):
                    raise End()
                self.get(1)      # the literal flag of the element: see DESIGN
                x = self.enc()
                if x not in ("fixed", "vbr", "char6"):
                    raise End()
                ops.append(("array", self.arg(x)))
                break
            if e == "blob" and not run.decide(eq(n, K(i + 1))):
                raise End()
            ops.append(self.arg(e))
        return ops

    def enc(self):
        v = self.get(3)
        for k, name in ((1, "fixed"), (2, "vbr"), (3, "array"), (4, "char6"), (5, "blob")):
            if self.run.decide(eq(v, K(k))):
                return name
        raise End()

    def arg(self, e):
        return (e, self.vbr(5)) if e in ("fixed", "vbr") else (e,)

    # ---- record operands
    def operand(self, op):
        k = op[0]
        if k == "lit":
            return [op[1]]
        if k == "fixed":
            return [self.get(op[1])]
        if k == "vbr":
            return [self.vbr(op[1])]
        if k == "char6":
            return [("char6", self.get(6))]
        if k == "array":
            out = []
            for _ in self.times(self.vbr(6)):
                out += self.operand(op[1])
            return out
        if k == "blob":
            n = self.vbr(6)
            self.align()
            out = [self.get(8) for _ in self.times(n)]
            self.align()
            return out
        raise AssertionError(k)


# ------------------------------------------------------------------ comparison with model values

def field_eq(run, v, x):
    if isinstance(x, tuple):     # ("char6", index)
        v = run.deref(v)
        idx = x[1]
        if isinstance(v, Lin) and v.const is not None:
            return cor(*[eq(idx, K(i)) for i, ch in enumerate(CHAR6) if ch == v.const])
        raise Unsupported("character %r" % (v,))
    return run.veq(v, x)


def fields_eq(run, v, xs):
    q = run.deref(v)
    if not isinstance(q, Seq):
        raise Unsupported("fields %r" % (q,))
    if not run.decide(eq(run.seq_len(q), K(len(xs)))):
        return FALSE
    out = []
    for i, x in enumerate(xs):
        out.append(field_eq(run, run.seq_get(q, K(i)), x))
    return cand(*out)


VARIANT = {"lit": "Literal", "vbr": "Vbr", "fixed": "Fixed", "array": "Array", "char6": "Char6", "blob": "Blob"}


def op_eq(run, v, op):
    v = run.resolve_enum(run.deref(v))
    if run.vname(v) != VARIANT[op[0]]:
        return FALSE
    if op[0] == "array":
        return op_eq(run, v.f[0], op[1])
    if len(op) > 1:
        return run.veq(v.f[0], op[1])
    return TRUE


def abbrev_eq(run, v, ops):
    a = run.deref(v)
    if isinstance(a, SymV):
        a = run.expand(a)
    q = run.deref(field(run, a, "operands"))
    if not run.decide(eq(run.seq_len(q), K(len(ops)))):
        return FALSE
    return cand(*[op_eq(run, run.seq_get(q, K(i)), o) for i, o in enumerate(ops)])


def field(run, a, name):
    t = run.prog.types[a.ty]
    for v in t["variants"]:
        if v["name"] == t["variants"][a.v or 0]["name"]:
            for i, fl in enumerate(v["fields"]):
                if fl["name"] == name:
                    return a.f[i]
    raise Unsupported("field %s of %s" % (name, t["s"]))


# ------------------------------------------------------------------ the stream as a whole

BLOCKINFO = 0
RULES = "entry rules"


class Stream(Spec):
    """Entries of a stream: scopes, block-info registrations and records."""

    def start(self):
        self.scopes = [dict(width=K(2), id=None, abbrevs=None, target=None)]

    def top(self):
        return self.scopes[-1]

    def in_info(self):
        t = self.top()
        return t["id"] is not None and self.run.decide(eq(t["id"], K(BLOCKINFO)))

    def internal(self, step):
        """One item of the stream under the constraints of `step`; None when it is a parse detail, else the entry."""
        run = self.run
        if run.decide(le(self.c.end, self.c.pos)):
            return ("exhausted",)
        ident = self.get(self.top()["width"])
        kind = step.get("kind")
        if kind is not None:
            run.assume(eq(ident, K(KINDS[kind])) if kind in KINDS else eq(ident, K(4 + kind)))
        if run.decide(eq(ident, K(0))):
            return self.end_block()
        if run.decide(eq(ident, K(1))):
            return self.enter(step)
        if run.decide(eq(ident, K(2))):
            return self.definition(step)
        if run.decide(eq(ident, K(3))):
            return self.unabbrev(step)
        return self.abbreviated(ident, step)

    def end_block(self):
        self.align()
        if len(self.scopes) == 1:
            raise End()
        info = self.in_info()
        self.scopes.pop()
        return None if info else ("end",)

    def enter(self, step):
        run = self.run
        bid = self.vbr(8)
        if "id" in step:
            run.assume(eq(bid, step["id"]) if step["id"] is not None else le(ONE, bid))
        width = self.vbr(4)
        if "width" in step:
            run.assume(eq(width, K(step["width"])) if step["width"] else cand(le(K(2), width), le(width, K(63))))
        self.align()
        n = self.get(32)
        if run.decide(eq(width, ZERO)):
            raise End()
        mine = []
        for k, l in self.info:
            if run.decide(eq(k, bid)):
                mine += l
        self.scopes.append(dict(width=width, id=bid, abbrevs=mine, target=None))
        if run.decide(eq(bid, K(BLOCKINFO))):
            return None
        return ("block", bid, scale(n, 4))

    def definition(self, step):
        run = self.run
        if "ops" in step:
            ops = self.fixed_define(step["ops"])
        else:
            ops = self._define()
        t = self.top()
        if self.in_info():
            if t["target"] is None:
                raise End()
            for e in self.info:
                if run.decide(eq(e[0], t["target"])):
                    e[1].append(ops)
                    return None
            self.info.append([t["target"], [ops]])
        elif t["id"] is None:
            raise End()
        else:
            t["abbrevs"] = t["abbrevs"] + [ops]
        return None

    def fixed_define(self, shape):
        """a definition constrained to the given operand shapes"""
        run = self.run
        n = self.vbr(5)
        run.assume(eq(n, K(sum(2 if s[0] == "array" else 1 for s in shape))))
        out = []

        def arg(s):
            v = self.get(3)
            run.assume(eq(v, K({"fixed": 1, "vbr": 2, "array": 3, "char6": 4, "blob": 5}[s[0]])))
            if s[0] in ("fixed", "vbr"):
                w = self.vbr(5)
                if len(s) > 1:
                    run.assume(eq(w, K(s[1])))
                return (s[0], w)
            return (s[0],)
        for s in shape:
            flag = self.get(1)
            if s[0] == "lit":
                run.assume(eq(flag, ONE))
                v = self.vbr(8)
                if len(s) > 1:
                    run.assume(eq(v, K(s[1])))
                out.append(("lit", v))
                continue
            run.assume(eq(flag, ZERO))
            if s[0] == "array":
                run.assume(eq(self.get(3), K(3)))
                self.get(1)
                out.append(("array", arg(s[1])))
            else:
                out.append(arg(s))
        return out

    def unabbrev(self, step):
        run = self.run
        if self.top()["id"] is None:
            raise End()
        code = self.vbr(6)
        if "code" in step:
            run.assume(eq(code, K(step["code"])))
        n = self.vbr(6)
        if "nops" in step:
            run.assume(eq(n, K(step["nops"])))
        fs = [self.vbr(6) for _ in self.times(n)]
        if self.in_info():
            return self.info_record(code, fs)
        return ("record", None, code, fs)

    def info_record(self, code, fs):
        """1 SETBID, 2 BLOCKNAME, 3 SETRECORDNAME; anything else is not a block-info record"""
        if isinstance(code, tuple):      # a character: no code below 46
            raise End()
        if self.run.decide(eq(code, ONE)):
            if not fs:
                raise End()
            if isinstance(fs[0], tuple):
                raise Unsupported("a block ID given as a character")
            self.top()["target"] = fs[0]
            return None
        if self.run.decide(cor(eq(code, K(2)), eq(code, K(3)))):
            return None
        raise End()

    def abbreviated(self, ident, step):
        run = self.run
        t = self.top()
        if t["id"] is None:
            raise End()
        for k, a in enumerate(t["abbrevs"]):
            if run.decide(eq(ident, K(4 + k))):
                fs = []
                for op in a:
                    fs += self.operand(op)
                if not fs:
                    raise End()
                if self.in_info():
                    # the encoding of a record does not matter
                    return self.info_record(fs[0], fs[1:])
                return ("record", ident, fs[0], fs[1:])
        raise End()


KINDS = {"end": 0, "enter": 1, "define": 2, "unabbrev": 3}


def entry_eq(run, v, e):
    """does the StreamEntry v show the entry e?"""
    v = run.resolve_enum(run.deref(v))
    n = run.vname(v)
    if n != {"end": "EndBlock", "block": "SubBlock", "record": "Record"}[e[0]]:
        return FALSE
    if e[0] == "end":
        return TRUE
    b = v.f[0]
    if e[0] == "block":
        return cand(run.veq(field(run, b, "block_id"), e[1]), run.veq(field(run, b, "len"), e[2]))
    ab = run.resolve_enum(field(run, b, "abbrev_id"))
    if e[1] is None:
        c = TRUE if run.vname(ab) == "None" else FALSE
    else:
        c = run.veq(ab.f[0], e[1]) if run.vname(ab) == "Some" else FALSE
    return cand(c, field_eq(run, field(run, b, "code"), e[2]), fields_eq(run, field(run, b, "fields"), e[3]))


def play(run, p, steps, what, lenient_until=None, limit=4, use_next=False):
    """Constrain the tape to the steps, then compare what the parser surfaces with the specification."""
    buf = tape(run, p)
    q, src = source(run, buf)
    c = CurV(ZERO, scale(run.seq_len(q), 8), src, q)
    sp = Stream(run, c, limit)
    sp.start()
    expected = []
    failed = False
    positions = []
    try:
        sp.get(32)
    except End:
        failed = True
    if not failed:
        for i, st in enumerate(steps):
            sp.strict = lenient_until is None or i >= lenient_until
            try:
                e = sp.internal(st)
            except End:
                if not sp.strict:
                    raise Infeasible()
                failed = True
                break
            if e == ("exhausted",):
                if not sp.strict:
                    raise Infeasible()
                expected.append(e)
                break
            if e is not None:
                expected.append(e)
                positions.append(sp.c.pos)
    r = run.resolve_enum(run.call_fn(fn(p, "Bitstream::<&[u8]>::from_raw"), [buf]))
    if run.vname(r) == "Err":
        run.require(failed and not expected, "a stream that holds a complete magic opens", where=what)
        return
    st = run.newref(r.f[0])
    if use_next:
        return play_next(run, p, st, expected, failed, what)
    adv = fn(p, "Bitstream::<&[u8]>::advance")
    for j, e in enumerate(expected):
        r = run.resolve_enum(run.call_fn(adv, [st]))
        good = run.vname(r) == "Ok"
        if e == ("exhausted",):
            run.refuse(not good, "%s: nothing is surfaced at the end of the data" % what, where="Bitstream::advance")
            if not good:
                x = run.resolve_enum(r.f[0])
                run.require(run.vname(x) == "Exhausted", "%s: the end of the data is reported as such" % what,
                            where="Bitstream::advance")
            return
        run.require(good, "%s: entry %d (%s) is surfaced" % (what, j, e[0]), where="Bitstream::advance")
        if not good:
            return
        run.require(entry_eq(run, r.f[0], e), "%s: entry %d is the %s the stream encodes" % (what, j, e[0]),
                    where="Bitstream::advance")
        cur = find_cursor(run, st)
        if cur is not None:
            run.require(run.veq(cur.pos, positions[j]), "%s: entry %d consumes exactly its encoding" % (what, j),
                        where="Bitstream::advance")
    if failed:
        r = run.resolve_enum(run.call_fn(adv, [st]))
        run.refuse(run.vname(r) == "Err", "%s: a malformed or truncated item is an error" % what,
                    where="Bitstream::advance")
        if run.vname(r) == "Err":
            x = run.resolve_enum(r.f[0])
            run.refuse(run.vname(x) != "Exhausted", "%s: a malformed item is not reported as a normal end" % what,
                        where="Bitstream::advance")


def play_next(run, p, st, expected, failed, what):
    """the same history through Iterator::next"""
    f = fn(p, "<Bitstream<&[u8]> as std::iter::Iterator>::next")
    w = "Bitstream::next"
    for j, e in enumerate(expected):
        r = run.resolve_enum(run.call_fn(f, [st]))
        if e == ("exhausted",):
            run.refuse(run.vname(r) == "None", "%s: iteration ends at the end of the data" % what, where=w)
            return
        run.refuse(run.vname(r) == "Some", "%s: iteration goes on while there are entries" % what, where=w)
        if run.vname(r) != "Some":
            return
        x = run.resolve_enum(r.f[0])
        run.require(run.vname(x) == "Ok", "%s: entry %d is surfaced by iteration" % (what, j), where=w)
        if run.vname(x) != "Ok":
            return
        run.require(entry_eq(run, x.f[0], e), "%s: iterated entry %d is the %s the stream encodes" % (what, j, e[0]), where=w)
    if failed:
        r = run.resolve_enum(run.call_fn(f, [st]))
        ok = run.vname(r) == "Some" and run.vname(run.resolve_enum(r.f[0])) == "Err"
        run.refuse(ok, "%s: iteration reports a malformed item as an error, not as the end" % what, where=w)
