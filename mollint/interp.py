"""Trace-partitioned abstract interpreter over the MIR dump.

One `Run` follows one partition of the input space from an entry construct to its exit; branches
that the current facts do not settle split the partition.  Integers are linear forms (terms.py),
containers are segment lists, unknown values are provenance names.
"""
import os
import re
import time
import traceback
from terms import *


class Cut(Exception):
    """partition left: iteration bound reached."""


class Infeasible(Exception):
    pass


class Panic(Exception):
    def __init__(self, kind, site, stack):
        self.kind, self.site, self.stack = kind, site, stack


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ values

class Agg:
    __slots__ = ("ty", "v", "f")

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, tuple(f)

    def __repr__(self):
        return "Agg<%s>#%s%r" % (self.ty, self.v, self.f)


class EnumI:
    """field-less enum value, by discriminant."""
    __slots__ = ("ty", "l")

    def __init__(self, ty, l):
        self.ty, self.l = ty, l

    def __repr__(self):
        return "Enum<%s>(%s)" % (self.ty, fmt(self.l))


class SymV:
    __slots__ = ("key", "ty")

    def __init__(self, key, ty):
        self.key, self.ty = key, ty

    def __repr__(self):
        return "?%s" % fmt_key(self.key)


class Opq:
    """opaque payload that no property looks into (messages, formatted text)."""
    __slots__ = ("key", "q")

    def __init__(self, key, q=None):
        self.key, self.q = key, q

    def __repr__(self):
        return "Opq(%s)" % (fmt_key(self.key),)


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return "&%d%s" % (self.cell, list(self.path) if self.path else "")


class Seq:
    """segments: ('e', value) | ('b', bytes) | ('s', key, start, len, elemty)"""
    __slots__ = ("segs", "ety")

    def __init__(self, segs, ety=None):
        self.segs, self.ety = tuple(segs), ety

    def __repr__(self):
        return "Seq%r" % (list(self.segs),)


class MapV:
    __slots__ = ("base", "entries", "vty")

    def __init__(self, base, entries=(), vty=None):
        self.base, self.entries, self.vty = base, tuple(entries), vty

    def __repr__(self):
        return "Map(%r,%r)" % (self.base, self.entries)


class FnV:
    __slots__ = ("callee",)

    def __init__(self, callee):
        self.callee = callee

    def __repr__(self):
        return "fn %s" % self.callee.get("path")


class IterV:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __repr__(self):
        return "Iter:%s%r" % (self.k, self.a)


class _Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = _Uninit()
UNIT = Agg(None, 0, ())


class BoxUninit:
    pass


MAXLEN = 1 << 60


# ------------------------------------------------------------------ program

class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.crate = d["crate"]
        self.fns = {f["key"]: f for f in d["fns"]}
        self.items = d["items"]
        self._fl = {}
        self._pd = {}
        self._bystr = {}
        for i, t in enumerate(self.types):
            if t:
                self._bystr.setdefault(t["s"], i)
        self._full = {}

    def ty(self, i):
        return self.types[i]

    def bystr(self, s):
        i = self._bystr.get(s)
        if i is None:
            raise KeyError("type %s" % s)
        return i

    def fieldless(self, i):
        r = self._fl.get(i)
        if r is None:
            t = self.types[i]
            r = (t["k"] == "adt" and t.get("adt") == "enum" and len(t["variants"]) > 0
                 and all(not v["fields"] for v in t["variants"]))
            self._fl[i] = r
        return r

    def plain_data(self, i, seen=()):
        """no reference or owning pointer inside: values of the type can be shared freely"""
        r = self._pd.get(i)
        if r is None:
            if i in seen:
                return True
            t = self.types[i]
            seen = seen + (i,)
            if t["k"] in ("ref", "ptr", "closure", "dyn") or t.get("box"):
                r = False
            elif t["k"] == "adt":
                r = all(self.plain_data(a, seen) for a in t.get("args", []) if isinstance(a, int)) and \
                    all(self.plain_data(f["ty"], seen) for v in t.get("variants", []) for f in v["fields"]
                        if t["krate"] in ("llvm_bitcursor", "llvm_bitstream", "llvm_support", "llvm_mapper"))
            elif t["k"] in ("array", "slice"):
                r = self.plain_data(t["elem"], seen)
            elif t["k"] == "tuple":
                r = all(self.plain_data(f["ty"], seen) for v in t.get("variants", []) for f in v["fields"])
            else:
                r = t["k"] in ("int", "uint", "bool", "char")
            if not seen[:-1]:
                self._pd[i] = r
        return r

    def adt(self, i):
        t = self.types[i]
        return t["path"] if t["k"] == "adt" else None

    def variant(self, i, name):
        for n, v in enumerate(self.types[i]["variants"]):
            if v["name"] == name:
                return n
        raise KeyError("%s::%s" % (self.types[i]["s"], name))

    def int_range(self, i):
        t = self.types[i]
        if t["k"] == "uint":
            return 0, (1 << t["bits"]) - 1
        if t["k"] == "int":
            return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
        if t["k"] == "char":
            return 0, 0x10FFFF
        if t["k"] == "bool":
            return 0, 1
        return None

    def fn_name(self, f):
        p = f.get("path", "")
        if f.get("krate") == self.crate and not p.startswith("<"):
            return self.crate + "::" + p
        return p

    def find(self, pred):
        return [f for f in self.d["fns"] if pred(f)]


def strip_generics(p):
    """`a::B::<T>::c` -> `a::B::c`"""
    out, depth, i = [], 0, 0
    while i < len(p):
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            depth += 1
            i += 3
            while depth:
                if p[i] == "<":
                    depth += 1
                elif p[i] == ">" and p[i - 1] != "-":
                    depth -= 1
                i += 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Outcome:
    def __init__(self, kind, run, info=None):
        self.kind, self.run, self.info = kind, run, info


def loop_heads(f):
    """blocks of a function that a back edge of its control flow leads to"""
    h = f.get("_heads")
    if h is not None:
        return h
    h, state = set(), {}
    bl = f["blocks"]

    def succ(b):
        t = bl[b]["t"]
        k = t[0]
        if k in ("goto", "drop"):
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []
    stack = [(0, iter(succ(0)))]
    state[0] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if x is None:
                continue
            if state.get(x) == 1:
                h.add(x)
            elif x not in state:
                state[x] = 1
                stack.append((x, iter(succ(x))))
                break
        else:
            state[b] = 2
            stack.pop()
    f["_heads"] = h
    return h


class Run:
    def __init__(self, prog, prefix=(), opts=None):
        self.prog = prog
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.facts = Facts()
        self.cells = []
        self.cellmemo = {}
        self.events = []
        self.stack = []
        self.reqs = []
        self.opts = opts or {}
        self.intercepts = self.opts.get("intercepts", ())
        self.loop_max = self.opts.get("loop_max", 12)
        self.max_depth = self.opts.get("max_depth", 60)
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 400000)
        self.t_end = time.time() + self.opts.get("run_secs", 60)
        self.fresh = 0
        self.fns_seen = self.opts.setdefault("fns_seen", set())
        self.sites = self.opts.setdefault("sites", set())
        self.log_on = self.opts.get("log", False)
        self.approx = None
        self.truncs = []        # casts that may not preserve the value: (site, crate, value, type)
        self.ncasts = 0
        self.progress = self.opts.get("progress")
        self.consumed = 0       # steps over the input stream
        self.touched = 0        # elements of in-memory sequences handed out
        self.grows = 0          # elements added to containers
        self.stalls = []        # loops seen turning without consuming or advancing: (what, site, grew)
        self.counts = {}
        self.loops = set()
        self.highs = []         # values whose upper part is taken: (value, from bit)
        self.tops = []          # completed top-level calls: (function, casts before, casts after, result)

    # ------------------------------------------------ decisions
    def decide(self, c):
        if c.k == "true":
            return True
        if c.k == "false":
            return False
        if c.k == "and":
            for x in c.a:
                if not self.decide(x):
                    return False
            return True
        if c.k == "or":
            for x in c.a:
                if self.decide(x):
                    return True
            return False
        i = len(self.trace)
        if time.time() > self.t_end:
            raise Unsupported("time for one partition exceeded")
        if i < len(self.prefix):
            r, forked = self.prefix[i]
            if forked:
                self.facts.assume(c if r else cnot(c))
            self.trace.append((r, forked))
            return r
        r = self.facts.decide(c)
        if r is None:
            self.alts.append(self.trace + [(False, True)])
            self.trace.append((True, True))
            self.facts.assume(c)
            return True
        self.trace.append((r, False))
        return r

    def known(self, c):
        """does the current partition settle c (no split)?"""
        return self.facts.decide(c)

    def assume(self, c):
        if c.k == "true":
            return
        if self.facts.decide(c) is False:
            raise Infeasible()
        self.facts.assume(c)

    def choose(self, n, key):
        """split n ways on a fresh selector."""
        s = sym(("choice", key), 0, n - 1)
        for j in range(n - 1):
            if self.decide(eq(s, K(j))):
                return j
        return n - 1

    def require(self, ok, what, **kw):
        """ok: Cond; record an obligation on this partition."""
        lenient = kw.pop("lenient", None)
        if self.opts.get("failures_only"):
            if lenient is None:
                return
            ok = lenient
        if ok is True:
            ok = TRUE
        if ok is False:
            ok = FALSE
        r = self.facts.decide(ok)
        if r is True:
            self.reqs.append((True, what, None, kw))
        else:
            self.reqs.append((r, what, ok, kw))

    def refuse(self, ok, what, **kw):
        """an obligation about reporting a failure (kept when only failures are judged)"""
        self.require(ok, what, lenient=ok, **kw)

    def accept(self, ok, good, what, **kw):
        """the code accepted (ok) exactly when the reference does; when only failures are judged: only then"""
        good = {True: TRUE, False: FALSE}.get(good, good)
        self.require(good if ok else cnot(good), what, lenient=good if ok else TRUE, **kw)

    # ------------------------------------------------ memory
    def alloc(self, v):
        self.cells.append(v)
        return len(self.cells) - 1

    def newref(self, v):
        return Ref(self.alloc(v))

    def mkval(self, key, ty):
        t = self.prog.types[ty]
        k = t["k"]
        if k == "bool":
            return ge0(sub(sym(key, 0, 1), ONE))
        if k in ("int", "uint", "char"):
            lo, hi = self.prog.int_range(ty)
            return sym(key, lo, hi)
        if k in ("ref", "ptr"):
            return self.symref(("deref", key), t["to"])
        if k == "adt":
            p = t["path"]
            if t.get("box"):
                return self.symref(("deref", key), t["args"][0])
            if p == "std::vec::Vec":
                return self.symseq(key, t["args"][0])
            if p == "std::string::String":
                return self.symseq(key, None)
            if p.endswith("HashMap") or p.endswith("IndexMap") or p.endswith("BTreeMap"):
                return MapV(key, (), t["args"][1])
            if self.prog.fieldless(ty):
                ds = [v["discr"] for v in t["variants"]]
                l = sym(("discr", key), min(ds), max(ds))
                if max(ds) - min(ds) + 1 != len(ds):
                    m = self.cellmemo.get(("discr", key))
                    if m is None:
                        self.cellmemo[("discr", key)] = True
                        self.facts.assume(member(l, ds))
                return EnumI(ty, l)
            return SymV(key, ty)
        if k in ("slice", "str"):
            return self.symseq(key, t.get("elem"))
        if k == "array":
            n = t.get("len")
            if n is not None and n <= 64:
                return Seq([("e", self.mkval(("elem", key, K(i)), t["elem"])) for i in range(n)],
                           t["elem"])
            return Seq([("s", key, ZERO, K(n), t["elem"])], t["elem"])
        if k == "tuple":
            if not t["fields"]:
                return UNIT
            return SymV(key, ty)
        return SymV(key, ty)

    def symseq(self, key, ety):
        return Seq([("s", key, ZERO, sym(("len", key), 0, MAXLEN), ety)], ety)

    def symref(self, key, to):
        c = self.cellmemo.get(key)
        if c is None:
            c = self.alloc(None)
            self.cellmemo[key] = c
            self.cells[c] = self.mkval(key, to)
        return Ref(c)

    def fieldval(self, v, vi, i, ty):
        """field i of an unknown value; newtypes listed in the harness' bounds hold only numbers in range"""
        b = self.opts.get("bounds")
        if b and v.ty in b and self.prog.types[ty]["k"] == "uint":
            return sym(("f", v.key, vi, i), *b[v.ty])
        return self.mkval(("f", v.key, vi, i), ty)

    def expand(self, v, variant=None):
        """SymV -> Agg (for enums the variant must be given)."""
        t = self.prog.types[v.ty]
        if t["k"] == "adt":
            vi = 0 if variant is None else variant
            fs = [self.fieldval(v, vi, i, f["ty"])
                  for i, f in enumerate(t["variants"][vi]["fields"])]
            return Agg(v.ty, vi, fs)
        if t["k"] == "tuple":
            return Agg(v.ty, 0, [self.mkval(("f", v.key, 0, i), f) for i, f in enumerate(t["fields"])])
        if t["k"] == "closure":
            return Agg(v.ty, 0, [self.mkval(("f", v.key, 0, i), f) for i, f in enumerate(t["upvars"])])
        raise Unsupported("expand %s" % t["s"])

    def is_enum(self, ty):
        t = self.prog.types[ty]
        return t["k"] == "adt" and t.get("adt") == "enum"

    def proj(self, v, e, variant):
        """read one projection element."""
        k = e[0]
        if k == "f":
            if isinstance(v, SymV):
                t = self.prog.types[v.ty]
                if t["k"] == "adt":
                    vi = variant or 0
                    fs = t["variants"][vi]["fields"]
                    return self.fieldval(v, vi, e[1], fs[e[1]]["ty"])
                if t["k"] == "tuple":
                    return self.mkval(("f", v.key, 0, e[1]), t["fields"][e[1]])
                return self.mkval(("f", v.key, 0, e[1]), t["upvars"][e[1]])
            if isinstance(v, Agg):
                if variant is not None and v.v != variant:
                    raise Infeasible()
                if e[1] >= len(v.f):
                    raise Unsupported("field %d of %r" % (e[1], v))
                return v.f[e[1]]
            if isinstance(v, (Ref, BoxUninit)):
                return v        # Box / Unique / NonNull internals
            if isinstance(v, dict):
                return v[e[1]]
            raise Unsupported("field of %r" % (v,))
        if k == "i":
            return self.seq_get(v, e[1])
        if k == "m":
            return v.entries[e[1]][1]
        if k == "sub":
            return self.seq_slice(v, e[1], e[2])
        raise Unsupported("proj %s" % (e,))

    def read(self, r):
        v = self.cells[r.cell]
        variant = None
        for e in r.path:
            if e[0] == "v":
                variant = e[1]
                continue
            v = self.proj(v, e, variant)
            variant = None
        return v

    def write(self, r, val):
        self.cells[r.cell] = self._upd(self.cells[r.cell], r.path, 0, val, None)

    def _upd(self, v, path, i, val, variant):
        if i == len(path):
            return val
        e = path[i]
        if e[0] == "v":
            return self._upd(v, path, i + 1, val, e[1])
        if isinstance(v, BoxUninit):
            return val
        if e[0] == "f":
            if v is UNINIT:
                v = {}
            if isinstance(v, dict):
                d = dict(v)
                d[e[1]] = self._upd(d.get(e[1], UNINIT), path, i + 1, val, None)
                return d
            if isinstance(v, SymV):
                v = self.expand(v, variant)
            if isinstance(v, Agg):
                f = list(v.f)
                f[e[1]] = self._upd(f[e[1]], path, i + 1, val, None)
                return Agg(v.ty, v.v, f)
            raise Unsupported("write field of %r" % (v,))
        if e[0] == "i":
            old = self.seq_get(v, e[1])
            return self.seq_set(v, e[1], self._upd(old, path, i + 1, val, None))
        if e[0] == "m":
            en = list(v.entries)
            k, old = en[e[1]]
            en[e[1]] = (k, self._upd(old, path, i + 1, val, None))
            return MapV(v.base, en, v.vty)
        if e[0] == "sub":
            old = self.seq_slice(v, e[1], e[2])
            new = self._upd(old, path, i + 1, val, None)
            a = self.seq_slice(v, ZERO, e[1])
            b = self.seq_slice(v, e[2], self.seq_len(v))
            return Seq(a.segs + new.segs + b.segs, v.ety)
        raise Unsupported("write %s" % (e,))

    # ------------------------------------------------ sequences
    def seg_len(self, s):
        if s[0] == "e":
            return ONE
        if s[0] == "b":
            return K(len(s[1]))
        return s[3]

    def seq_len(self, q):
        if isinstance(q, SymV):
            raise Unsupported("len of %r" % q)
        n = ZERO
        for s in q.segs:
            n = add(n, self.seg_len(s))
        return n

    def elem(self, seg, i, ety):
        """element i (relative) of a symbolic segment."""
        key, start, _, et = seg[1:]
        i = sub(self.pinned(add(start, i)), start)
        if et is None:
            lo, hi = (48, 57) if isinstance(key, tuple) and key[0] == "digits" else (0, 255)
            return sym(("elem", key, add(start, i)), lo, hi)
        if key[0] == "bytesof":
            # bytes of a buffer are 8-bit slices of it
            return bits(key[1], scale(add(start, i), 8), K(8))
        return self.mkval(("elem", key, add(start, i)), et)

    def pinned(self, l):
        """the constant a linear form is known to equal, else the form"""
        if l.const is None:
            k, s, c = self.facts._split(l)
            al = self.facts.allowed.get(k)
            if al is not None and len(al) == 1:
                return K(next(iter(al)) * s + c)
        return l

    def seq_get(self, q, i):
        if not isinstance(q, Seq):
            raise Unsupported("index of %r" % (q,))
        self.touched += 1
        off = ZERO
        last = len(q.segs) - 1
        if i.const is not None:
            # all-constant fast path
            pos = i.const
            for s in q.segs:
                n = self.seg_len(s).const
                if n is None:
                    break
                if pos < n:
                    return self._seg_at(s, K(pos), q)
                pos -= n
        for j, s in enumerate(q.segs):
            n = self.seg_len(s)
            rel = sub(i, off)
            if j == last or self.decide(lt(rel, n)):
                if s[0] == "b" and rel.const is None:
                    for x in range(len(s[1]) - 1):
                        if self.decide(eq(rel, K(x))):
                            return K(s[1][x])
                    return K(s[1][-1])
                return self._seg_at(s, rel, q)
            off = add(off, n)
        raise Infeasible()

    def _seg_at(self, s, rel, q):
        if s[0] == "e":
            return s[1]
        if s[0] == "b":
            return K(s[1][rel.const])
        return self.elem(s, rel, q.ety)

    def seq_split(self, q, at):
        """(prefix of length at, rest)"""
        left, right = [], []
        off = ZERO
        segs = list(q.segs)
        for j, s in enumerate(segs):
            n = self.seg_len(s)
            rel = sub(at, off)          # how much of this segment goes left
            if rel.const == 0 or (rel.const is None and self.known(eq(rel, ZERO))):
                right = segs[j:]
                return Seq(left, q.ety), Seq(right, q.ety)
            d = sub(rel, n)
            if (d.const is not None and d.const >= 0) or (d.const is None and self.known(ge0(d))):
                left.append(s)
                off = add(off, n)
                continue
            if s[0] == "e":
                if self.decide(ge0(d)):
                    left.append(s)
                    off = add(off, n)
                    continue
                return Seq(left, q.ety), Seq(segs[j:], q.ety)
            if s[0] == "b":
                if rel.const is None:
                    for x in range(len(s[1])):
                        if self.decide(eq(rel, K(x))):
                            rel = K(x)
                            break
                    else:
                        left.append(s)
                        off = add(off, n)
                        continue
                c = rel.const
                if c:
                    left.append(("b", s[1][:c]))
                right = [("b", s[1][c:])] + segs[j + 1:]
                return Seq(left, q.ety), Seq(right, q.ety)
            if j < len(segs) - 1 and not self.decide(lt(rel, n)):
                left.append(s)
                off = add(off, n)
                continue
            _, key, start, ln, et = s
            left.append(("s", key, start, rel, et))
            right = [("s", key, add(start, rel), sub(ln, rel), et)] + segs[j + 1:]
            return Seq(left, q.ety), Seq(right, q.ety)
        return Seq(left, q.ety), Seq([], q.ety)

    def seq_slice(self, q, a, b):
        if not isinstance(q, Seq):
            raise Unsupported("slice of %r" % (q,))
        if a.const == 0 and b == self.seq_len(q):
            return q
        l, _ = self.seq_split(q, b)
        _, m = self.seq_split(l, a)
        return m

    def seq_set(self, q, i, v):
        l, r = self.seq_split(q, i)
        _, r2 = self.seq_split(r, ONE)
        return Seq(l.segs + (("e", v),) + r2.segs, q.ety)

    def seq_push(self, q, v):
        return Seq(q.segs + (("e", v),), q.ety)

    def seq_cat(self, a, b):
        return Seq(a.segs + b.segs, a.ety if a.ety is not None else b.ety)

    def seq_elems(self, q, limit=64):
        """all elements, splitting on the length (bounded)."""
        out = []
        n = self.seq_len(q)
        i = 0
        while True:
            if n.const is not None:
                if i >= n.const:
                    return out
            elif not self.decide(lt(K(i), n)):
                return out
            out.append(self.seq_get(q, K(i)))
            i += 1
            if i > limit:
                raise Cut()

    # ------------------------------------------------ helpers on values
    def mk(self, ty, name, *fields):
        t = self.prog.types[ty]
        vi = self.prog.variant(ty, name) if t.get("adt") == "enum" else 0
        if self.prog.fieldless(ty):
            return EnumI(ty, K(t["variants"][vi]["discr"]))
        return Agg(ty, vi, fields)

    def vname(self, v):
        """variant name of a determined enum value."""
        if isinstance(v, Agg):
            return self.prog.types[v.ty]["variants"][v.v]["name"]
        raise Unsupported("variant of %r" % (v,))

    def resolve_enum(self, v):
        """make an enum value's variant definite (splitting)."""
        if isinstance(v, Agg):
            return v
        if isinstance(v, SymV):
            t = self.prog.types[v.ty]
            vs = t["variants"]
            d = self.discr(v)
            for i, x in enumerate(vs[:-1]):
                if self.decide(eq(d, K(x["discr"]))):
                    return self.expand(v, i)
            return self.expand(v, len(vs) - 1)
        raise Unsupported("enum %r" % (v,))

    def discr(self, v):
        if isinstance(v, EnumI):
            return v.l
        if isinstance(v, Agg):
            t = self.prog.types[v.ty]
            d = t["variants"][v.v]["discr"]
            return K(d if d is not None else 0)
        if isinstance(v, SymV):
            t = self.prog.types[v.ty]
            if t["k"] == "adt":
                ds = [x["discr"] for x in t["variants"]]
                if ds and ds[0] is None:
                    return ZERO
                l = sym(("discr", v.key), min(ds), max(ds))
                if max(ds) - min(ds) + 1 != len(ds):
                    m = ("discr", v.key)
                    if m not in self.cellmemo:
                        self.cellmemo[m] = True
                        self.facts.assume(member(l, ds))
                return l
        raise Unsupported("discriminant of %r" % (v,))

    def deref(self, v):
        while isinstance(v, Ref):
            v = self.read(v)
        return v

    def key(self, v):
        """provenance key of a value (for opaque applications)."""
        if isinstance(v, (Lin, Cond)):
            return v
        if isinstance(v, EnumI):
            return v.l
        if isinstance(v, SymV):
            return v.key
        if isinstance(v, Opq):
            return v.key
        if isinstance(v, Agg):
            if len(v.f) == 0:
                return ("agg", v.v)
            return ("agg", v.v) + tuple(self.key(x) for x in v.f)
        if isinstance(v, Ref):
            return self.key(self.read(v))
        if isinstance(v, Seq):
            if len(v.segs) == 1 and v.segs[0][0] == "s":
                s = v.segs[0]
                if s[2].const == 0 and s[3] == sym(("len", s[1]), 0, MAXLEN):
                    return s[1]
            return ("seq",) + tuple(
                (s[0], self.key(s[1])) if s[0] == "e" else s[:4] for s in v.segs)
        if isinstance(v, MapV):
            return ("map", v.base) + tuple((self.key(a), self.key(b)) for a, b in v.entries)
        if isinstance(v, FnV):
            return ("fn", v.callee.get("path"))
        if isinstance(v, IterV):
            return ("iter", v.k) + tuple(self.key(x) if not isinstance(x, (int, str, bool, type(None))) else x for x in v.a)
        if v is UNINIT:
            return "uninit"
        raise Unsupported("key of %r" % (v,))

    def veq(self, a, b, depth=0):
        """structural equality as a condition (dereferencing)."""
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            if self.facts.equal(a, b) is True:
                return TRUE
            return eq(a, b)
        if isinstance(a, EnumI) and isinstance(b, EnumI):
            return eq(a.l, b.l)
        if isinstance(a, Cond) and isinstance(b, Cond):
            if a == b:
                return TRUE
            return cor(cand(a, b), cand(cnot(a), cnot(b)))
        if isinstance(a, SymV) and isinstance(b, SymV) and a.key == b.key:
            return TRUE
        if isinstance(a, Opq) or isinstance(b, Opq):
            if isinstance(a, Opq) and isinstance(b, Opq) and a.key == b.key:
                return TRUE
            raise Unsupported("equality of opaque values")
        if isinstance(a, (Agg, SymV)) and isinstance(b, (Agg, SymV)):
            if isinstance(a, SymV) and isinstance(b, SymV):
                if self.is_enum(a.ty):
                    a = self.resolve_enum(a)
                else:
                    a = self.expand(a)
            if isinstance(a, SymV):
                a, b = b, a
            # a is Agg
            if isinstance(b, SymV):
                if self.is_enum(b.ty):
                    d = self.discr(b)
                    da = self.discr(a)
                    if not a.f:
                        return eq(d, da)
                    b2 = self.expand(b, a.v)
                    return cand(eq(d, da), *[self.veq(x, y, depth + 1) for x, y in zip(a.f, b2.f)])
                b = self.expand(b)
            if a.v != b.v:
                return FALSE
            return cand(*[self.veq(x, y, depth + 1) for x, y in zip(a.f, b.f)])
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq_eq(a, b)
        if isinstance(a, MapV) and isinstance(b, MapV):
            if a.base == b.base and len(a.entries) == len(b.entries):
                return cand(*[c for (k1, v1), (k2, v2) in zip(a.entries, b.entries)
                              for c in (self.veq(k1, k2), self.veq(v1, v2))])
            if a.base is None and b.base is None:
                return FALSE
        if isinstance(a, FnV) and isinstance(b, FnV):
            return cbool(a.callee.get("path") == b.callee.get("path"))
        raise Unsupported("equality of %r and %r" % (a, b))

    def seq_eq(self, a, b):
        if a.segs == b.segs:
            return TRUE
        la, lb = self.seq_len(a), self.seq_len(b)
        conds = [eq(la, lb)]
        if conds[0].k == "false":
            return FALSE
        sa, sb = list(a.segs), list(b.segs)
        i = j = 0
        # segment-wise alignment
        while i < len(sa) and j < len(sb):
            x, y = sa[i], sb[j]
            if x[0] == "s" and y[0] == "s" and x[1] == y[1]:
                if (self.facts.equal(x[2], y[2]) is True) and (self.facts.equal(x[3], y[3]) is True):
                    i += 1
                    j += 1
                    continue
                conds += [eq(x[2], y[2]), eq(x[3], y[3])]
                i += 1
                j += 1
                continue
            if x[0] == "s" and x[3].const == 0:
                i += 1
                continue
            if y[0] == "s" and y[3].const == 0:
                j += 1
                continue
            nx, ny = self.seg_len(x).const, self.seg_len(y).const
            if nx is not None and ny is not None:
                n = min(nx, ny)
                for p in range(n):
                    conds.append(self.veq(self._seg_at(x, K(p), a), self._seg_at(y, K(p), b)))
                sa[i:i + 1] = [] if n == nx else [self._seg_tail(x, n)]
                sb[j:j + 1] = [] if n == ny else [self._seg_tail(y, n)]
                continue
            # differing provenance: fall back to element-wise over a decided length
            if len(sa) - i == 1 and len(sb) - j == 1 and nx is None and ny is None:
                n = self.seg_len(x)
                if self.decide(eq(n, ZERO)):
                    return cand(*conds)
                conds.append(self.veq(self._seg_at(x, ZERO, a), self._seg_at(y, ZERO, b)))
                if self.known(eq(n, ONE)) is not True:
                    if self.decide(eq(n, ONE)):
                        return cand(*conds)
                    raise Unsupported("sequence comparison %r / %r" % (x, y))
                return cand(*conds)
            s = x if nx is None else y
            n = self.seg_len(s)
            if self.decide(eq(n, ZERO)):
                if nx is None:
                    i += 1
                else:
                    j += 1
                continue
            head, tail = self._seg_at(s, ZERO, a), self._seg_tail(s, 1)
            if nx is None:
                sa[i:i + 1] = [("e", head), tail]
            else:
                sb[j:j + 1] = [("e", head), tail]
        rest = ZERO
        for s in sa[i:] + sb[j:]:
            rest = add(rest, self.seg_len(s))
        conds.append(eq(rest, ZERO))
        return cand(*conds)

    def _seg_tail(self, s, n):
        if s[0] == "b":
            return ("b", s[1][n:])
        if s[0] == "s":
            return ("s", s[1], add(s[2], K(n)), sub(s[3], K(n)), s[4])
        raise Unsupported("tail")

    # ------------------------------------------------ constants
    def const(self, j, ty):
        k = j[0]
        t = self.prog.types[ty]
        if k == "int" or k == "char" or k == "raw":
            if self.prog.fieldless(ty):
                return EnumI(ty, K(j[1]))
            return K(j[1])
        if k == "bool":
            return cbool(j[1])
        if k == "str":
            return self.newref(Seq([("b", j[1].encode("utf-8"))] if j[1] else [], None))
        if k == "ref":
            to = t.get("to", None)
            return self.newref(self.const(j[1], to))
        if k == "slice":
            et = self.prog.types[t["to"]]["elem"]
            inner = j[1]
            if inner[0] == "agg":
                return self.newref(Seq([("e", self.const(x, et)) for x in inner[2]], et))
            if inner[0] == "zst":
                return self.newref(Seq([], et))
            return self.newref(Seq([("s", ("const", str(inner)), ZERO, ZERO, et)], et))
        if k == "agg":
            if t["k"] == "array":
                return Seq([("e", self.const(x, t["elem"])) for x in j[2]], t["elem"])
            if t["k"] == "tuple":
                return Agg(ty, 0, [self.const(x, f) for x, f in zip(j[2], t["fields"])])
            if t["k"] == "adt":
                if self.prog.fieldless(ty):
                    return EnumI(ty, K(t["variants"][j[1]]["discr"]))
                fs = t["variants"][j[1]]["fields"]
                if t["path"] == "std::vec::Vec":
                    return Seq([], t["args"][0])
                if t["path"] == "std::string::String":
                    return Seq([], None)
                return Agg(ty, j[1], [self.const(x, f["ty"]) for x, f in zip(j[2], fs)])
            return Opq(("const", str(j)))
        if k == "zst":
            if t["k"] == "fndef":
                return FnV(t["callee"])
            if t["k"] == "closure":
                return Agg(ty, 0, ())
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt":
                if self.prog.fieldless(ty):
                    return EnumI(ty, K(t["variants"][0]["discr"] or 0))
                if t["path"] == "std::vec::Vec":
                    return Seq([], t["args"][0])
                n = len(t["variants"][0]["fields"]) if t["variants"] else 0
                return Agg(ty, 0, [UNIT] * n)
            if t["k"] == "array":
                return Seq([], t["elem"])
            return UNIT
        if k == "fn":
            return FnV(t["callee"])
        if k == "static":
            if t["k"] == "ref":
                return self.symref(("static", j[1]), t["to"])
            return SymV(("static", j[1]), ty)
        if t["k"] == "adt" and t["path"] in ("std::vec::Vec", "std::string::String"):
            return Seq([], t["args"][0] if t["path"] == "std::vec::Vec" else None)
        return SymV(("constant", str(j), ty), ty)

    # ------------------------------------------------ MIR evaluation
    def place(self, fr, p):
        """-> Ref"""
        cell, path = fr[p[0]], []
        for e in p[1]:
            if e == "*":
                v = self.read(Ref(cell, tuple(path)))
                if not isinstance(v, Ref):
                    if isinstance(v, BoxUninit):
                        raise Unsupported("deref uninit box")
                    raise Unsupported("deref of %r" % (v,))
                cell, path = v.cell, list(v.path)
            elif e[0] == "f":
                path.append(("f", e[1]))
            elif e[0] == "v":
                path.append(("v", e[1]))
            elif e[0] == "i":
                path.append(("i", self.cells[fr[e[1]]]))
            elif e[0] == "ci":
                off = K(e[1])
                if e[3]:
                    q = self.read(Ref(cell, tuple(path)))
                    off = sub(self.seq_len(q), off)
                path.append(("i", off))
            elif e[0] == "sub":
                q = self.read(Ref(cell, tuple(path)))
                n = self.seq_len(q)
                path.append(("sub", K(e[1]), sub(n, K(e[2])) if e[3] else K(e[2])))
        # drop box-internal projections on references
        return Ref(cell, tuple(path))

    def operand(self, fr, o):
        if o[0] == "k":
            return self.const(o[2], o[1])
        p = o[1]
        if not p[1]:
            v = self.cells[fr[p[0]]]
        else:
            v = self.read(self.place(fr, p))
        if isinstance(v, dict):
            v = self.finish(v, p[2])
        return v

    def finish(self, d, ty):
        t = self.prog.types[ty]
        n = len(t["variants"][0]["fields"]) if t["k"] == "adt" else len(t.get("fields", t.get("upvars", ())))
        return Agg(ty, 0, [d.get(i, UNINIT) for i in range(n)])

    def tbits(self, ty):
        t = self.prog.types[ty]
        return t.get("bits", 64), t["k"] == "int"

    def fit(self, l, ty, w=None):
        """wrap an exact integer into the type's range (splitting where needed)."""
        r = self.prog.int_range(ty)
        if r is None:
            return l
        lo, hi = r
        a, b = rng(l)
        if a is not None and b is not None and a >= lo and b <= hi:
            return l
        inr = cand(ge0(sub(l, K(lo))), ge0(sub(K(hi), l)))
        if self.known(inr) is True:
            return l
        m = hi - lo + 1
        if a is not None and b is not None and a >= lo - m and b <= hi + m:
            # at most one wrap either way: partition instead of introducing a division
            if b > hi and self.decide(ge0(sub(l, K(hi + 1)))):
                return sub(l, K(m))
            if a < lo and self.decide(ge0(sub(K(lo - 1), l))):
                return add(l, K(m))
            return l
        x = mkmod(l, m)
        if lo < 0:
            if self.decide(le(x, K(hi))):
                return x
            return sub(x, K(m))
        return x

    def cast(self, kind, v, ty, fr, o):
        t = self.prog.types[ty]
        if kind.startswith("IntToInt") or kind.startswith("Transmute"):
            if isinstance(v, Cond):
                return ONE if self.decide(v) else ZERO
            if isinstance(v, EnumI) and t["k"] in ("int", "uint"):
                v = v.l
            if isinstance(v, Lin):
                if t["k"] == "bool":
                    return ge0(sub(v, ONE))
                self.ncasts += 1
                r = self.fit(v, ty)
                if r is not v and r != v:
                    self.truncs.append((self.site(), self.stack[-1][2]["krate"], v, ty))
                return r
            if t["k"] in ("ref", "ptr", "adt"):
                return v
            if isinstance(v, SymV) and t["k"] in ("int", "uint"):
                return self.discr(v)
            return v
        if kind.startswith("PointerCoercion(Unsize"):
            return v
        if kind.startswith("PtrToPtr") or kind.startswith("Pointer") or kind.startswith("BoxDeref"):
            return v
        if kind.startswith("Float") or kind.startswith("IntToFloat"):
            return SymV(("float", self.key(v)), ty)
        raise Unsupported("cast %s" % kind)

    def shift_amt(self, b, w):
        return b

    def bin(self, op, a, b, ty, fr):
        if isinstance(a, EnumI):
            a = a.l
        if isinstance(b, EnumI):
            b = b.l
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op in ("Eq", "Ne"):
                c = cor(cand(a, b), cand(cnot(a), cnot(b)))
                if a.k in ("true", "false"):
                    c = b if a.k == "true" else cnot(b)
                elif b.k in ("true", "false"):
                    c = a if b.k == "true" else cnot(a)
                return c if op == "Eq" else cnot(c)
            if op == "BitAnd":
                return cand(a, b)
            if op == "BitOr":
                return cor(a, b)
            if op == "BitXor":
                return cor(cand(a, cnot(b)), cand(cnot(a), b))
            if op in ("Lt", "Le", "Gt", "Ge"):
                a = ONE if self.decide(a) else ZERO
                b = ONE if self.decide(b) else ZERO
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op in ("Eq", "Ne") and isinstance(a, Ref) and isinstance(b, Ref):
                r = cbool((a.cell, a.path) == (b.cell, b.path))
                return r if op == "Eq" else cnot(r)
            raise Unsupported("pointer arithmetic")
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if op in ("Eq", "Ne"):
                c = self.veq(a, b)
                return c if op == "Eq" else cnot(c)
            raise Unsupported("%s on %r, %r" % (op, a, b))
        if op in ("Eq", "Ne"):
            c = self.single_bit(a, b)
            if c is None:
                c = TRUE if self.facts.equal(a, b) is True else eq(a, b)
            return c if op == "Eq" else cnot(c)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op.endswith("WithOverflow"):
            base = op[:-12]
            r = self.arith(base, a, b)
            lo, hi = self.prog.int_range(ty)
            of = cor(lt(r, K(lo)), lt(K(hi), r))
            return Agg(None, 0, (r, of))
        if op.endswith("Unchecked") and op[:3] in ("Add", "Sub", "Mul"):
            return self.arith(op[:3], a, b)
        if op in ("Add", "Sub", "Mul"):
            return self.fit(self.arith(op, a, b), ty)
        w, signed = self.tbits(ty)
        a, b = self.pinned(a), self.pinned(b)
        if op in ("Shl", "ShlUnchecked"):
            return self.shl(a, b, ty)
        if op in ("Shr", "ShrUnchecked"):
            if b.const is not None:
                self.highs.append((a, b.const))
            return self.shr(a, b, ty)
        if op == "Div":
            if b.const is not None and b.const > 0:
                self.highs.append((a, b.const.bit_length() - 1))
            return self.div(a, b, ty)
        if op == "Rem":
            return sub(a, self.arith("Mul", b, self.div(a, b, ty)))if b.const is None or signed else self.mod(a, b.const)
        if op == "BitAnd":
            return self.band(a, b, w)
        if op == "BitOr":
            return self.bor(a, b, w)
        if op == "BitXor":
            return self.bxor(a, b, w)
        if op == "Cmp":
            raise Unsupported("Cmp")
        raise Unsupported("binop %s" % op)

    def single_bit(self, a, b):
        """x & (x - 1) == 0: x is zero or a power of two"""
        for x, z in ((a, b), (b, a)):
            if z.const == 0 and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
                t = ATOMS[x.t[0][0]]
                if t.kind == "bitop" and t.args[0] == "and":
                    for u, v in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                        if isinstance(u, Lin) and sub(u, v) == ONE:
                            if self.pow2of(u) is not None:
                                return TRUE
                            return member(u, [0] + [1 << i for i in range(t.args[3])])
        return None

    def arith(self, op, a, b):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        return mkmul(a, b)

    def div(self, a, b, ty):
        lo, _ = self.prog.int_range(ty)
        if b.const is not None and b.const > 0:
            if lo >= 0 or self.known(ge0(a)) is True:
                return mkdiv(a, b.const)
            if self.decide(ge0(a)):
                return mkdiv(a, b.const)
            return neg(mkdiv(neg(a), b.const))
        # dividing by a power of two that is written as one
        raise Unsupported("division by %s" % fmt(b))

    def mod(self, a, k):
        if self.known(cand(ge0(a), le(a, K(k - 1)))) is True:
            return a
        bs = self.is_bits(a)
        if bs and bs[2].const is None and k & (k - 1) == 0:
            return self.field(bs, k - 1, k.bit_length() - 1)
        return mkmod(a, k)

    def is_bits(self, a):
        s = a.single()
        if s and s[0] == 1 and s[2] == 0 and s[1].kind == "bits":
            return s[1].args
        return None

    def shl(self, a, n, ty):
        w, signed = self.tbits(ty)
        lo, hi = self.prog.int_range(ty)
        if a.const == 0:
            return ZERO
        if n.const is not None:
            r = scale(a, 1 << (n.const % w))
            bs = self.is_bits(a)
            if bs and not signed and bs[2].const is None and self.known(le(add(bs[2], K(n.const % w)), K(w))) is True:
                return r
        else:
            if self.known(cand(ge0(n), le(n, K(w - 1)))) is not True:
                n = self.band(n, K(w - 1), w)
            r = mkmul(a, pow2(n))
            bs = self.is_bits(a)
            if bs:
                # value < 2^len, so no bits are lost when len + n <= w
                if self.known(le(add(bs[2], n), K(w))) is True:
                    return r
            if a.const is not None and a.const == 1:
                if self.opts.get("pow2_bounds"):
                    lo_, hi_ = 0, w - 1
                    while lo_ < hi_:
                        m_ = (lo_ + hi_) // 2
                        if self.known(le(n, K(m_))) is True:
                            hi_ = m_
                        else:
                            lo_ = m_ + 1
                    if hi_ < w - 1:
                        self.assume(le(r, K(1 << hi_)))
                if not signed or self.known(le(n, K(w - 2))) is True:
                    return r
            if self.known(le(r, K(hi))) is True and not signed:
                return r
            return mkbitop("shl", a, n, w)
        if signed:
            return self.fit(r, ty)
        if self.known(cand(ge0(r), le(r, K(hi)))) is True:
            return r
        return mkmod(r, 1 << w)

    def shr(self, a, n, ty):
        w, signed = self.tbits(ty)
        if n.const is not None:
            k = n.const % w
            bs = self.is_bits(a)
            if bs and bs[2].const is None and not signed:
                if self.decide(le(K(k), bs[2])):
                    return self.mkbits(bs[0], add(bs[1], K(k)), sub(bs[2], K(k)))
                return ZERO
            return mkdiv(a, 1 << k)
        if self.known(cand(ge0(n), le(n, K(w - 1)))) is not True:
            n = self.band(n, K(w - 1), w)
        bs = self.is_bits(a)
        if bs:
            src, s, ln = bs
            if self.known(le(n, ln)) is True:
                return self.mkbits(src, add(s, n), sub(ln, n))
            if self.known(le(ln, n)) is True:
                return ZERO
        if a.const == (1 << w) - 1 and not signed:
            return sub(pow2(sub(K(w), n)), ONE)
        if a.const == 0:
            return ZERO
        return mkbitop("shr", a, n, w)

    def mkbits(self, src, s, n):
        if n.const is None and self.known(eq(n, ZERO)) is True:
            return ZERO
        return bits(src, s, n)

    def pow2m1(self, b):
        """if b == 2^n - 1 for a symbolic n, return n."""
        if b.c == -1 and len(b.t) == 1 and b.t[0][1] == 1:
            a = ATOMS[b.t[0][0]]
            if a.kind == "pow2":
                return a.args[0]
        return None

    def pow2of(self, b):
        if b.c == 0 and len(b.t) == 1 and b.t[0][1] == 1:
            a = ATOMS[b.t[0][0]]
            if a.kind == "pow2":
                return a.args[0]
        return None

    def band(self, a, b, w):
        if len(a.t) > 1:
            a = self.facts.simplify(a)
        if len(b.t) > 1:
            b = self.facts.simplify(b)
        if a.const is not None and b.const is None:
            a, b = b, a
        if b.const is not None:
            m = b.const & ((1 << w) - 1)
            if a.const is not None:
                return K(a.const & m)
            out = ZERO
            lo, hi = rng(a)
            top = w
            i = 0
            bs = self.is_bits(a)
            if bs and bs[2].const is None:
                return self.field(bs, m, w)
            while i < top:
                if m >> i & 1:
                    j = i
                    while j < top and m >> j & 1:
                        j += 1
                    # run of ones [i, j)
                    part = mkdiv(a, 1 << i)
                    if j < top:
                        part = self.mod(part, 1 << (j - i)) if i == 0 else mkmod(part, 1 << (j - i))
                    out = add(out, scale(part, 1 << i))
                    i = j
                else:
                    i += 1
            return out
        for x, y in ((a, b), (b, a)):
            n = self.pow2m1(y)
            if n is not None:
                bs = self.is_bits(x)
                if bs:
                    if self.known(le(n, bs[2])) is True:
                        return self.mkbits(bs[0], bs[1], n)
                    if self.known(le(bs[2], n)) is True:
                        return x
                    if self.decide(le(n, bs[2])):
                        return self.mkbits(bs[0], bs[1], n)
                    return x
            n = self.pow2of(y)
            if n is not None:
                bs = self.is_bits(x)
                if bs:
                    if self.known(lt(n, bs[2])) is True:
                        return mkmul(pow2(n), self.mkbits(bs[0], add(bs[1], n), ONE))
        return mkbitop("and", a, b, w)

    def field(self, bs, m, w):
        """mask of a bit-slice whose length is symbolic."""
        src, s, n = bs
        out, i = ZERO, 0
        while i < w:
            if not m >> i & 1:
                i += 1
                continue
            j = i
            while j < w and m >> j & 1:
                j += 1
            if self.decide(le(K(j), n)):
                out = add(out, scale(self.mkbits(src, add(s, K(i)), K(j - i)), 1 << i))
            elif self.decide(lt(K(i), n)):
                out = add(out, scale(self.mkbits(src, add(s, K(i)), sub(n, K(i))), 1 << i))
            i = j
        return out

    def maxbit(self, a):
        """smallest known k with a < 2^k (const), using ranges and facts."""
        lo, hi = rng(a)
        if lo is None or lo < 0:
            if self.known(ge0(a)) is not True:
                return None
        k = hi.bit_length() if hi is not None else 64
        for t in (1, 2, 4, 8, 16, 32, 48, 56):
            if t < k and self.known(le(a, K((1 << t) - 1))) is True:
                return t
        return k

    def lowzero(self, a):
        """largest known k with 2^k | a."""
        g = 0
        for _, c in a.t:
            g = gcd(g, c)
        g = gcd(g, a.c)
        return (g & -g).bit_length() - 1 if g else 64

    def bor(self, a, b, w):
        if len(a.t) > 1:
            a = self.facts.simplify(a)
        if len(b.t) > 1:
            b = self.facts.simplify(b)
        if a.const == 0:
            return b
        if b.const == 0:
            return a
        if a.const is not None and b.const is not None:
            return K((a.const | b.const) & ((1 << w) - 1))
        if a == b:
            return a
        for x, y in ((a, b), (b, a)):
            mx = self.maxbit(x)
            if mx is not None and mx <= self.lowzero(y):
                return add(x, y)
            # x = bits(s, l), y = bits(s', m) * 2^l
            bs = self.is_bits(x)
            if bs and len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1:
                ya = ATOMS[y.t[0][0]]
                if ya.kind == "mul":
                    for p, q in (ya.args, ya.args[::-1]):
                        n, hb = self.pow2of(p), self.is_bits(q)
                        if n is not None and hb and self.known(le(bs[2], n)) is True:
                            if hb[0] == bs[0] and self.facts.equal(n, bs[2]) is True and \
                                    self.facts.equal(hb[1], add(bs[1], bs[2])) is True:
                                return self.mkbits(bs[0], bs[1], add(bs[2], hb[2]))
                            return add(x, y)
        # a | const with a's bits known clear there
        for x, y in ((a, b), (b, a)):
            if y.const is not None:
                return add(sub(x, self.band(x, y, w)), y)
        return mkbitop("or", a, b, w)

    def bxor(self, a, b, w):
        if a.const is not None and b.const is not None:
            return K((a.const ^ b.const) & ((1 << w) - 1))
        if a == b:
            return ZERO
        for x, y in ((a, b), (b, a)):
            if y.const == (1 << w) - 1:
                return sub(y, x)
            if y.const is not None:
                t = self.band(x, y, w)
                return add(sub(x, scale(t, 2)), y)
        return mkbitop("xor", a, b, w)

    def unop(self, op, a, ty, dty):
        if op == "Not":
            if isinstance(a, Cond):
                return cnot(a)
            w, signed = self.tbits(ty)
            if signed:
                return sub(neg(a), ONE)
            return sub(K((1 << w) - 1), a)
        if op == "Neg":
            return self.fit(neg(a), ty)
        if op == "PtrMetadata":
            return self.seq_len(self.deref(a))
        raise Unsupported("unop %s" % op)

    def rvalue(self, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref":
            return self.mkref(self.place(fr, r[2]))
        if k == "bin":
            return self.bin(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]), r[4], fr)
        if k == "un":
            return self.unop(r[1], self.operand(fr, r[2]), r[3], dty)
        if k == "cast":
            return self.cast(r[1], self.operand(fr, r[2]), r[3], fr, r[2])
        if k == "discr":
            return self.discr(self.read(self.place(fr, r[1])))
        if k == "agg":
            ops = [self.operand(fr, o) for o in r[2]]
            kind = r[1][0]
            ty = r[3]
            if kind == "array":
                et = self.prog.types[ty]["elem"]
                return Seq([("e", v) for v in ops], et)
            if kind == "tuple":
                return Agg(ty, 0, ops) if ops else UNIT
            if kind == "adt":
                if self.prog.fieldless(ty):
                    return EnumI(ty, K(self.prog.types[ty]["variants"][r[1][1]]["discr"]))
                return Agg(ty, r[1][1], ops)
            if kind == "closure":
                return Agg(ty, 0, ops)
            if kind == "rawptr":
                return ops[0]
            raise Unsupported("aggregate %s" % kind)
        if k == "repeat":
            v = self.operand(fr, r[1])
            if r[2] is None or r[2] > 4096:
                raise Unsupported("repeat")
            return Seq([("e", v)] * r[2], self.prog.types[dty].get("elem"))
        if k == "setdiscr":
            raise Unsupported("setdiscr")
        raise Unsupported("rvalue %s" % k)

    def mkref(self, r):
        # a sub-slice of an existing reference stays a path; reborrow of a plain deref is the same ref
        return r

    def site(self):
        if self.stack:
            return "%s @ %s" % (self.stack[-1][0], self.stack[-1][1])
        return "?"

    def call_fn(self, f, args):
        """interpret the body of dumped function f."""
        if len(self.stack) > self.max_depth:
            raise Unsupported("call depth")
        name = self.prog.fn_name(f)
        self.fns_seen.add(f["key"])
        base = len(self.cells)
        n = len(f["locals"])
        self.cells.extend([UNINIT] * n)
        fr = range(base, base + n)
        for i, a in enumerate(args):
            self.cells[base + 1 + i] = a
        top = None if self.stack else (len(self.truncs), self.ncasts)
        self.stack.append([name, f.get("span"), f])
        visits = {}
        heads = {}
        bb = 0
        blocks = f["blocks"]
        while True:
            v = visits.get(bb, 0) + 1
            visits[bb] = v
            if v > self.loop_max:
                raise Cut()
            if self.progress and bb in loop_heads(f):
                self.at_head(f, bb, base, n, heads)
            b = blocks[bb]
            for p, r, sp in b["s"]:
                self.steps += 1
                if sp:
                    self.stack[-1][1] = sp
                val = self.rvalue(fr, r, p[2])
                if not p[1]:
                    self.cells[base + p[0]] = val
                else:
                    self.write(self.place(fr, p), val)
            if self.steps > self.max_steps:
                raise Cut()
            t = b["t"]
            k = t[0]
            if b["sp"]:
                self.stack[-1][1] = b["sp"]
            if k == "goto":
                bb = t[1]
            elif k == "ret":
                self.stack.pop()
                r = self.cells[base]
                if isinstance(r, dict):
                    r = self.finish(r, f["locals"][0]["ty"])
                if top is not None:
                    self.tops.append((f, top[0], len(self.truncs), self.ncasts - top[1], r))
                return r
            elif k == "switch":
                bb = self.switch(self.operand(fr, t[1]), t[2], t[3])
            elif k == "call":
                cal = t[1]
                if cal.get("path") == "<indirect>":
                    fv = self.operand(fr, cal["func"])
                    res = self.call_value(fv, [self.operand(fr, a) for a in t[2]], t[3][2])
                else:
                    a = [self.operand(fr, x) for x in t[2]]
                    res = self.call(cal, a, t[3][2])
                if t[4] is None:
                    raise Infeasible()
                if not t[3][1]:
                    self.cells[base + t[3][0]] = res
                else:
                    self.write(self.place(fr, t[3]), res)
                bb = t[4]
            elif k == "drop":
                bb = t[1]
            elif k == "assert":
                c = self.operand(fr, t[1])
                want = t[2]
                self.sites.add((f["key"], bb))
                if self.decide(c) == want:
                    bb = t[5]
                else:
                    self.panic(t[3])
            elif k == "unreachable":
                raise Infeasible()
            else:
                raise Unsupported("terminator %s" % k)

    # ------------------------------------------------ progress of loops
    def stall(self, what, grew):
        self.stalls.append((what, self.site(), grew))
        raise Cut()

    def declared(self, l):
        """is the number merely declared by the input (not the length of something in memory) and not bounded by a constant?"""
        if l.const is not None:
            return False
        acc = set()
        deep_atoms(l, acc)
        for i in acc:
            k = ATOMS[i].args if ATOMS[i].kind == "sym" else None
            if k == "words" or isinstance(k, tuple) and k[:1] == ("len",):
                return False
        return self.known(le(l, K(1 << 16))) is not True

    def counted(self, bound, grew=False):
        """an iterator counting to a bound yields once more"""
        if not self.progress or bound.const is not None:
            return
        k = (self.stack[-1][0] if self.stack else "", tuple(bound.t))
        now = (self.consumed, self.touched)
        st = self.counts.get(k)
        if st is None or st[0] != now:
            self.counts[k] = (now, 0, self.grows)
            return
        self.counts[k] = (now, st[1] + 1, st[2])
        if st[1] + 1 >= 3 and self.declared(bound):
            self.stall("a loop counts to a number declared by the input without consuming input", grew or self.grows > st[2])

    def endless(self, k, ident):
        """an iterator without an end of its own yields once more"""
        if not self.progress:
            return
        now = (self.consumed, self.touched)
        st = self.counts.get((k, ident))
        n = st[1] + 1 if st and st[0] == now else 0
        self.counts[(k, ident)] = (now, n, 0)
        if n >= 30:
            self.stall("an endless iterator is drawn from without consuming input", True)

    def snapshot(self, base, n):
        """names of the values a frame can see: (everything, numbers only)"""
        out, seen = [], set()

        def go(v, d):
            if d > 10 or len(out) > 600:
                return
            if isinstance(v, Ref):
                out.append(("ref", v.cell, repr(v.path)))
                if v.cell in seen:
                    return
                seen.add(v.cell)
                try:
                    go(self.read(v), d + 1)
                except Exception:
                    return
            elif isinstance(v, Lin):
                out.append((v.c, v.t))
            elif isinstance(v, EnumI):
                go(v.l, d + 1) if isinstance(v.l, Lin) else None
            elif isinstance(v, Agg):
                out.append(v.v)
                for x in v.f:
                    go(x, d + 1)
            elif isinstance(v, Seq):
                for x in v.segs:
                    if x[0] == "e":
                        out.append("e")
                        go(x[1], d + 1)
                    elif x[0] == "b":
                        out.append(x[1])
                    else:
                        out.append((x[1], x[2].c, x[2].t, x[3].c, x[3].t) if isinstance(x[2], Lin) else repr(x))
            elif isinstance(v, IterV):
                out.append(v.k)
                for x in v.a:
                    go(x, d + 1)
            elif isinstance(v, MapV):
                out.append(len(v.entries))
                for e in v.entries:
                    for x in e:
                        go(x, d + 1)
            elif isinstance(v, FnV):
                for x in getattr(v, "up", None) or getattr(v, "upvars", None) or ():
                    go(x, d + 1)
            elif isinstance(v, SymV):
                k = repr(v.key)
                out.append("error" if "cursor error" in k else k)
            elif isinstance(v, tuple):
                for x in v:
                    go(x, d + 1)
            elif isinstance(v, Opq):
                out.append(repr(v.key))
            elif isinstance(v, (int, str, bytes)):
                out.append(v)
            else:
                out.append(type(v).__name__)
        for c in self.cells[base:base + n]:
            go(c, 0)
        return out

    def at_head(self, f, bb, base, n, heads):
        """turn of a loop: something must have been consumed, handed out or changed since the last one"""
        self.loops.add((f["key"], bb))
        snap = self.snapshot(base, n)
        now = (self.consumed, self.touched, len(self.facts.order), self.grows)
        st = heads.get(bb)
        conds = []
        stuck = 0
        if st is not None:
            old, then, cs, stuck = st
            if then[0] == now[0] and old == snap and len(snap) <= 600:
                self.stall("a loop turns without changing anything", self.grows > then[3])
            if then[:2] == now[:2]:
                # counting towards a declared number: the exit test moves by a constant
                new = self.facts.order[then[2]:]
                conds = [c.a[0] if isinstance(c.a, tuple) else c.a for c in new if c.k == "ge"]
                step = any(isinstance(a, Lin) and isinstance(b, Lin) and sub(a, b).const not in (None, 0) and self.declared(sub(a, K(a.c)))
                           for a in conds for b in cs)
                stuck = stuck + 1 if step else 0
                if stuck >= 3:
                    self.stall("a loop counts to a number declared by the input without consuming input", self.grows > then[3])
            else:
                stuck = 0
        heads[bb] = (snap, now, conds, stuck)

    def panic(self, kind):
        raise Panic(kind, self.site(), [(s[0], s[1]) for s in self.stack])

    def switch(self, v, targets, other):
        if isinstance(v, Cond):
            for val, bb in targets:
                if val == 0:
                    return bb if not self.decide(v) else (other if len(targets) == 1 else
                                                         next((b for x, b in targets if x == 1), other))
                if val == 1:
                    if self.decide(v):
                        return bb
                    return next((b for x, b in targets if x == 0), other)
        if isinstance(v, EnumI):
            v = v.l
        if not isinstance(v, Lin):
            raise Unsupported("switch on %r" % (v,))
        if v.const is not None:
            for val, bb in targets:
                if val == v.const:
                    return bb
            return other
        if len(targets) > 6:
            # grouped: decide membership first, so that the default is one partition
            if not self.decide(member(v, [x for x, _ in targets])):
                return other
        for val, bb in targets[:-1]:
            if self.decide(eq(v, K(val))):
                return bb
        val, bb = targets[-1]
        if self.decide(eq(v, K(val))):
            return bb
        return other

    # ------------------------------------------------ calls
    def call(self, cal, args, dty):
        import models
        if "ctor" in cal:
            ty = cal["ctor"]
            if self.prog.fieldless(ty):
                return EnumI(ty, K(self.prog.types[ty]["variants"][cal["variant"]]["discr"]))
            return Agg(ty, cal["variant"], args)
        # calls through the Fn traits
        if cal.get("of_trait") in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            tup = args[1]
            if isinstance(tup, SymV):
                tup = self.expand(tup)
            return self.call_value(args[0], list(tup.f), dty)
        f = self.prog.fns.get(cal.get("res"))
        for pred, h in self.intercepts:
            if pred(self, cal):
                r = h(self, cal, args, dty)
                if r is not NotImplemented:
                    return r
        m = models.lookup(cal)
        if m is not None:
            r = m(self, cal, args, dty)
            if r is not NotImplemented:
                return r
        if f is not None and f.get("derived") and f["name"] == "clone" and self.prog.plain_data(dty):
            return self.deref(args[0])
        if f is not None and f["has_body"]:
            return self.call_fn(f, args)
        return models.unknown(self, cal, args, dty)

    def call_value(self, fv, args, dty):
        v = fv
        ref = None
        while isinstance(v, Ref):
            ref = v
            v = self.read(v)
        if isinstance(v, FnV):
            return self.call(v.callee, args, dty)
        if isinstance(v, (Agg, SymV)):
            t = self.prog.types[v.ty]
            if t["k"] == "closure":
                f = self.prog.fns.get(t.get("body"))
                if f is None or not f["has_body"]:
                    raise Unsupported("closure body")
                if isinstance(v, SymV):
                    v = self.expand(v)
                if t["ckind"] == "FnOnce":
                    self_arg = v
                else:
                    self_arg = ref if ref is not None else self.newref(v)
                return self.call_fn(f, [self_arg] + list(args))
        raise Unsupported("call of %r" % (v,))

    def ret_ty(self, fv):
        """type id returned by a function value, if known."""
        v = self.deref(fv)
        if isinstance(v, FnV):
            if "ctor" in v.callee:
                return v.callee["ctor"]
            f = self.prog.fns.get(v.callee.get("res"))
            if f and f.get("locals"):
                return f["locals"][0]["ty"]
            return None
        if isinstance(v, (Agg, SymV)) and v.ty is not None:
            t = self.prog.types[v.ty]
            f = self.prog.fns.get(t.get("body"))
            if f and f.get("locals"):
                return f["locals"][0]["ty"]
        return None


def explore(prog, body, opts=None, max_paths=20000, deadline=None):
    """run `body(run)` over every partition; yields Outcome."""
    import time
    stack = [()]
    n = 0
    while stack:
        if n >= max_paths or (deadline and time.time() > deadline):
            yield Outcome("limit", None, len(stack))
            return
        prefix = stack.pop()
        run = Run(prog, prefix, opts)
        n += 1
        try:
            r = body(run)
            out = Outcome("ret", run, r)
        except Cut:
            out = Outcome("cut", run)
        except Infeasible:
            out = Outcome("infeasible", run)
        except Panic as p:
            out = Outcome("panic", run, p)
        except Unsupported as u:
            out = Outcome("unsupported", run, str(u) + " in " + run.site())
        except (TypeError, KeyError, AttributeError, IndexError, ValueError, AssertionError, RecursionError) as e:
            # a shape of program the transfer functions were not written for: undecided, never an alarm
            if os.environ.get("MOLLINT_RAISE"):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            out = Outcome("unsupported", run, "internal: %s: %s (%s) in %s" % (
                type(e).__name__, str(e)[:120], " < ".join("%s:%d" % (x.name, x.lineno) for x in tb[-3:][::-1]), run.site()))
        stack.extend(run.alts)
        yield out
