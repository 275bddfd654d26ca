"""Value numbering for integers: linear forms over interned atoms, conditions over them, and
the relational (linear inequality) fact base used to decide conditions.

Everything is exact integer arithmetic; `Mod` is represented through `Div`, masks and shifts
by constants through both, and bit-slices of a buffer through `bits` atoms.
"""
from math import gcd

INF = None


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi")

    def __repr__(self):
        return fmt_atom(self)


ATOMS = []
_INTERN = {}


def atom(kind, args, lo=None, hi=None):
    k = (kind, args)
    a = _INTERN.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.args, a.lo, a.hi = kind, args, lo, hi
        ATOMS.append(a)
        _INTERN[k] = a
    else:
        if kind == "sym" and (lo != a.lo or hi != a.hi):
            raise ValueError("one symbol with two ranges: %r" % (args,))
        if lo is not None and (a.lo is None or lo > a.lo):
            a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi):
            a.hi = hi
    return a


class Lin:
    """const + sum(coef * atom); terms is a tuple of (atom id, coef) sorted by id."""
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return fmt(self)

    @property
    def const(self):
        return self.c if not self.t else None

    def single(self):
        """(coef, atom, const) if exactly one atom."""
        if len(self.t) == 1:
            return self.t[0][1], ATOMS[self.t[0][0]], self.c
        return None


ZERO = Lin(0)
ONE = Lin(1)


def K(n):
    return Lin(n)


def A(a):
    return Lin(0, ((a.id, 1),))


def add(a, b, kb=1):
    if kb == 0:
        return a
    if not b.t:
        return Lin(a.c + kb * b.c, a.t) if b.c else a
    if not a.t and a.c == 0 and kb == 1:
        return b
    d = dict(a.t)
    for i, c in b.t:
        n = d.get(i, 0) + kb * c
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    r = Lin(a.c + kb * b.c, tuple(sorted(d.items())))
    return norm_bits(r)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return Lin(a.c * k, tuple((i, c * k) for i, c in a.t))


def neg(a):
    return scale(a, -1)


def rng(l):
    """interval from intrinsic atom ranges."""
    lo = hi = l.c
    for i, c in l.t:
        a = ATOMS[i]
        x, y = (a.lo, a.hi) if c > 0 else (a.hi, a.lo)
        if lo is not None:
            lo = None if x is None else lo + c * x
        if hi is not None:
            hi = None if y is None else hi + c * y
    return lo, hi


def norm_bits(l):
    """merge adjacent bit-slices:  B(s,n) + 2^n B(s+n,m) = B(s,n+m);  B(s,n) - 2^k B(s+k,n-k) = B(s,k)."""
    bs = [(ATOMS[i], c) for i, c in l.t if ATOMS[i].kind == "bits"]
    if len(bs) < 2:
        return l
    for a, ca in bs:
        src, s, n = a.args
        if n.const is not None:
            for b, cb in bs:
                if b is a or b.args[0] != src:
                    continue
                _, s2, m = b.args
                k = sub(s2, s).const
                if k == 0 and m.const is not None and m.const < n.const and ca == -cb:
                    r = drop(drop(l, a), b)
                    return add(r, scale(bits(src, add(s, m), K(n.const - m.const)), ca << m.const))
                if k is None or k <= 0:
                    continue
                if k == n.const and cb == ca << k:
                    r = drop(drop(l, a), b)
                    return add(r, scale(bits(src, s, add(n, m)), ca))
                if m.const is not None and k + m.const == n.const and cb == -(ca << k):
                    r = drop(drop(l, a), b)
                    return add(r, scale(bits(src, s, K(k)), ca))
    return l


def drop(l, a):
    return Lin(l.c, tuple((i, c) for i, c in l.t if i != a.id))


def bits(src, start, n):
    """integer value of `n` bits of `src` starting at bit `start` (LSB first)."""
    if n.const == 0:
        return ZERO
    hi = (1 << n.const) - 1 if n.const is not None else (1 << 64) - 1
    return A(atom("bits", (src, start, n), 0, hi))


def pow2(n):
    if n.const is not None:
        return K(1 << n.const) if n.const >= 0 else ZERO
    return A(atom("pow2", (n,), 1, 1 << 64))


def sym(key, lo=None, hi=None):
    return A(atom("sym", key, lo, hi))


def mkdiv(l, k):
    assert k > 0
    if k == 1:
        return l
    if not l.t:
        return K(l.c // k)
    out, rest = {}, {}
    for i, c in l.t:
        if c % k == 0:
            out[i] = c // k
        elif c > 0 and 2 * c <= k:
            rest[i] = c
        elif ATOMS[i].kind in ("bits", "bitop") and c > 0:
            rest[i] = c
        else:
            # symmetric residue of the coefficient
            c2 = c % k
            if 2 * c2 > k:
                c2 -= k
            out[i] = (c - c2) // k
            rest[i] = c2
    out = {i: c for i, c in out.items() if c}
    q, r = divmod(l.c, k)
    o = Lin(q, tuple(sorted(out.items())))
    if not rest:
        return o
    g = k
    for c in rest.values():
        g = gcd(g, c)
    if g > 1:
        rl = Lin(r // g, tuple(sorted((i, c // g) for i, c in rest.items())))
        return add(o, mkdiv(rl, k // g))
    rl = Lin(r, tuple(sorted(rest.items())))
    lo, hi = rng(rl)
    if lo is not None and hi is not None and lo // k == hi // k:
        return add(o, K(lo // k))
    if rl.t[0][1] < 0:
        # floor(x/k) = -floor((-x + k-1)/k)
        return sub(o, mkdiv(add(neg(rl), K(k - 1)), k))
    sg = rl.single()
    if sg and sg[0] == 1 and sg[2] == 0:
        a = sg[1]
        if a.kind == "div":
            return add(o, mkdiv(a.args[0], a.args[1] * k))
        if a.kind == "bits" and a.args[2].const is not None and k & (k - 1) == 0:
            j = k.bit_length() - 1
            s, n = a.args[1], a.args[2].const
            return add(o, bits(a.args[0], add(s, K(j)), K(n - j)) if n > j else ZERO)
    # sums of disjoint low parts: drop a remainder that can't reach k
    if k & (k - 1) == 0 and len(rl.t) > 1 and r == 0:
        lowp = [(i, c) for i, c in rl.t]
        lowp.sort(key=lambda ic: ic[1])
        # peel the finest terms while they are bounded below the granularity of the others
        for cut in range(1, len(lowp)):
            fine, coarse = lowp[:cut], lowp[cut:]
            gg = k
            for _, c in coarse:
                gg = gcd(gg, c)
            flo, fhi = rng(Lin(0, tuple(sorted(fine))))
            if flo is not None and fhi is not None and flo >= 0 and fhi < gg and gg > 1:
                return add(o, mkdiv(Lin(0, tuple(sorted(coarse))), k))
    if lo is not None and hi is not None:
        dlo, dhi = lo // k, hi // k
    else:
        dlo = lo // k if lo is not None else None
        dhi = hi // k if hi is not None else None
    return add(o, A(atom("div", (rl, k), dlo, dhi)))


def mkmod(l, k):
    if k & (k - 1) == 0 and k > 1:
        j = k.bit_length() - 1
        # strip terms that are multiples of k, cut bit-slices that stay pure
        rest = tuple((i, c % k) for i, c in l.t if c % k)
        l = Lin(l.c % k, rest)
        sg = l.single()
        if sg and sg[2] == 0 and sg[1].kind == "bits" and sg[1].args[2].const is not None:
            c, a, _ = sg
            if c & (c - 1) == 0 and c > 0:
                sh = c.bit_length() - 1
                n = min(a.args[2].const, j - sh)
                return scale(bits(a.args[0], a.args[1], K(n)), c)
    return sub(l, scale(mkdiv(l, k), k))


def mkmul(a, b):
    if a.const is not None:
        return scale(b, a.const)
    if b.const is not None:
        return scale(a, b.const)
    # distribute over sums so that e.g. pow2(n)*(x - 1) has one form
    if len(a.t) > 1 or a.c or (a.t and a.t[0][1] != 1):
        r = mkmul(K(a.c), b)
        for i, c in a.t:
            r = add(r, scale(mkmul(Lin(0, ((i, 1),)), b), c))
        return r
    if len(b.t) > 1 or b.c or b.t[0][1] != 1:
        return mkmul(b, a)
    x, y = a.t[0][0], b.t[0][0]
    if x > y:
        x, y = y, x
    ax, ay = ATOMS[x], ATOMS[y]
    if ax.kind == "pow2" and ay.kind == "pow2":
        return pow2(add(ax.args[0], ay.args[0]))
    lo = hi = None
    if None not in (ax.lo, ax.hi, ay.lo, ay.hi):
        cs = [p * q for p in (ax.lo, ax.hi) for q in (ay.lo, ay.hi)]
        lo, hi = min(cs), max(cs)
    elif ax.lo is not None and ay.lo is not None and ax.lo >= 0 and ay.lo >= 0:
        lo = ax.lo * ay.lo
    return A(atom("mul", (A(ax), A(ay)), lo, hi))


def mkbitop(op, a, b, w):
    """uninterpreted-but-evaluable bitwise operation on w-bit values."""
    if a.const is not None and b.const is not None:
        return K(bitop_eval(op, a.const, b.const, w))
    if op in ("and", "or", "xor") and (repr_key(b) < repr_key(a)):
        a, b = b, a
    return A(atom("bitop", (op, a, b, w), 0, (1 << w) - 1))


def repr_key(l):
    return (l.t, l.c)


def bitop_eval(op, x, y, w):
    m = (1 << w) - 1
    if op == "and":
        return x & y & m
    if op == "or":
        return (x | y) & m
    if op == "xor":
        return (x ^ y) & m
    if op == "shl":
        return (x << y) & m if 0 <= y < 4096 else 0
    if op == "shr":
        return (x & m) >> y if 0 <= y < 4096 else 0
    if op == "ctz":
        return (x & -x).bit_length() - 1 if x else w
    if op == "clz":
        return w - x.bit_length()
    if op == "pop":
        return bin(x).count("1")
    raise KeyError(op)


def fmt_atom(a):
    if a.kind == "sym":
        return fmt_key(a.args)
    if a.kind == "div":
        return "(%s)/%d" % (fmt(a.args[0]), a.args[1])
    if a.kind == "bits":
        return "bits[%s +%s]" % (fmt(a.args[1]), fmt(a.args[2]))
    if a.kind == "pow2":
        return "2^(%s)" % fmt(a.args[0])
    if a.kind == "mul":
        return "(%s*%s)" % (fmt(a.args[0]), fmt(a.args[1]))
    if a.kind == "bitop":
        return "%s(%s,%s)" % (a.args[0], fmt(a.args[1]), fmt(a.args[2]))
    return "%s%s" % (a.kind, fmt_key(a.args))


def fmt_key(k):
    if isinstance(k, tuple):
        if k and k[0] == "f" and len(k) == 4:
            return "%s.%s" % (fmt_key(k[1]), k[3] if k[2] == 0 else "%s.%s" % (k[2], k[3]))
        if k and k[0] == "len":
            return "len(%s)" % fmt_key(k[1])
        if k and k[0] == "elem":
            return "%s[%s]" % (fmt_key(k[1]), fmt_key(k[2]))
        if k and k[0] == "deref":
            return "*%s" % fmt_key(k[1])
        return "(" + ",".join(fmt_key(x) for x in k) + ")"
    if isinstance(k, Lin):
        return fmt(k)
    return str(k)


def fmt(l):
    if not l.t:
        return str(l.c) if abs(l.c) < 1 << 20 else hex(l.c)
    s = []
    for i, c in l.t:
        x = fmt_atom(ATOMS[i])
        if c == 1:
            s.append("+" + x)
        elif c == -1:
            s.append("-" + x)
        else:
            s.append("%+d*%s" % (c, x))
    if l.c:
        s.append("%+d" % l.c)
    r = " ".join(s)
    return r[1:] if r.startswith("+") else r


# ---------------------------------------------------------------- conditions

class Cond:
    __slots__ = ("k", "a", "h")

    def __init__(self, k, a=None):
        self.k, self.a = k, a
        self.h = hash((k, a))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k and self.a == o.a

    def __repr__(self):
        if self.k == "ge":
            return "%s >= 0" % fmt(self.a)
        if self.k in ("eq", "ne"):
            return "%s %s 0" % (fmt(self.a), "==" if self.k == "eq" else "!=")
        if self.k in ("in", "notin"):
            return "%s %s %s" % (fmt(self.a[0]), self.k, sorted(self.a[1])[:8])
        if self.k in ("and", "or"):
            return "(" + (" %s " % self.k).join(map(repr, self.a)) + ")"
        return self.k


TRUE = Cond("true")
FALSE = Cond("false")


def cbool(b):
    return TRUE if b else FALSE


def ge0(l):
    if not l.t:
        return cbool(l.c >= 0)
    g = 0
    for _, c in l.t:
        g = gcd(g, c)
    if g > 1:
        l = Lin(l.c // g, tuple((i, c // g) for i, c in l.t))
    # 2^k-ary: x - k*div(x,k) style facts stay as they are
    lo, hi = rng(l)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    return Cond("ge", l)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def eq(a, b):
    l = sub(a, b)
    if not l.t:
        return cbool(l.c == 0)
    g = 0
    for _, c in l.t:
        g = gcd(g, c)
    if l.c % g:
        return FALSE
    if l.t[0][1] < 0:
        g = -g
    if g != 1:
        l = Lin(l.c // g, tuple((i, c // g) for i, c in l.t))
    lo, hi = rng(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    # div(x,k) == 0  <=>  0 <= x < k
    sg = l.single()
    if sg and sg[1].kind == "div" and sg[0] == 1:
        x, k = sg[1].args
        q = -sg[2]
        return cand(ge0(sub(x, K(q * k))), ge0(sub(K(q * k + k - 1), x)))
    return Cond("eq", l)


def ne(a, b):
    return cnot(eq(a, b))


def member(l, vals):
    vals = frozenset(vals)
    if not l.t:
        return cbool(l.c in vals)
    if not vals:
        return FALSE
    if len(vals) == 1:
        return eq(l, K(next(iter(vals))))
    lo, hi = min(vals), max(vals)
    if hi - lo + 1 == len(vals):
        return cand(ge0(sub(l, K(lo))), ge0(sub(K(hi), l)))
    return Cond("in", (l, vals))


def cnot(c):
    k = c.k
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "ge":
        return ge0(sub(neg(c.a), ONE))
    if k == "eq":
        return Cond("ne", c.a)
    if k == "ne":
        return Cond("eq", c.a)
    if k == "in":
        return Cond("notin", c.a)
    if k == "notin":
        return Cond("in", c.a)
    if k == "and":
        return cor(*[cnot(x) for x in c.a])
    if k == "or":
        return cand(*[cnot(x) for x in c.a])
    raise KeyError(k)


def cand(*cs):
    out = []
    for c in cs:
        if c.k == "false":
            return FALSE
        if c.k == "true":
            continue
        if c.k == "and":
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        if c.k == "true":
            return TRUE
        if c.k == "false":
            continue
        if c.k == "or":
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond("or", tuple(out))


# ---------------------------------------------------------------- linear reasoning

FM_LIMIT = 260


def lin_atoms(l, acc):
    """atom ids of l, including those nested in definitions (div)."""
    for i, _ in l.t:
        if i not in acc:
            acc.add(i)
            a = ATOMS[i]
            if a.kind == "div":
                lin_atoms(a.args[0], acc)
            elif a.kind == "bits":
                pass


def axioms(i):
    """linear axioms for atom i: list of (lin >= 0)."""
    a = ATOMS[i]
    x = A(a)
    out = []
    if a.lo is not None:
        out.append(add(x, K(-a.lo)))
    if a.hi is not None:
        out.append(sub(K(a.hi), x))
    if a.kind == "div":
        l, k = a.args
        r = Lin(l.c, l.t)
        q = scale(x, k)
        out.append(_raw_sub(r, q))
        out.append(_raw_sub(add(q, K(k - 1)), r))
    return out


def _raw_sub(a, b):
    d = dict(a.t)
    for i, c in b.t:
        n = d.get(i, 0) - c
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return Lin(a.c - b.c, tuple(sorted(d.items())))


_INFEAS_CACHE = {}


def infeasible(ges, eqs):
    """True only if {l >= 0 for ges} and {l == 0 for eqs} has no integer solution."""
    key = (frozenset(ges), frozenset(eqs))
    r = _INFEAS_CACHE.get(key)
    if r is None:
        r = _infeasible(ges, eqs)
        if len(_INFEAS_CACHE) > 400000:
            _INFEAS_CACHE.clear()
        _INFEAS_CACHE[key] = r
    return r


def _tighten(d, c):
    g = 0
    for v in d.values():
        g = gcd(g, v)
        if g == 1:
            return d, c
    if g > 1:
        return {i: v // g for i, v in d.items()}, c // g
    return d, c


def _infeasible(ges, eqs):
    cons = []  # (dict, const)  >= 0
    es = []
    seen_atoms = set()
    for l in ges:
        lin_atoms(l, seen_atoms)
        cons.append((dict(l.t), l.c))
    for l in eqs:
        lin_atoms(l, seen_atoms)
        es.append((dict(l.t), l.c))
    for i in seen_atoms:
        for l in axioms(i):
            if l.t:
                cons.append((dict(l.t), l.c))
            elif l.c < 0:
                return True
    # eliminate equalities having a unit coefficient
    while es:
        d, c = es.pop()
        d = {i: v for i, v in d.items() if v}
        if not d:
            if c != 0:
                return True
            continue
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if c % g:
            return True
        if g > 1:
            d = {i: v // g for i, v in d.items()}
            c //= g
        u = next((i for i, v in d.items() if v in (1, -1)), None)
        if u is None:
            cons.append((dict(d), c))
            cons.append(({i: -v for i, v in d.items()}, -c))
            continue
        s = d.pop(u)
        # u = -(sum d + c)/s
        sd = {i: -v * s for i, v in d.items()}
        sc = -c * s

        def subst(dd, cc):
            k = dd.get(u)
            if not k:
                return dd, cc
            dd = dict(dd)
            del dd[u]
            for i, v in sd.items():
                n = dd.get(i, 0) + k * v
                if n:
                    dd[i] = n
                else:
                    dd.pop(i, None)
            return dd, cc + k * sc
        cons = [subst(*x) for x in cons]
        es = [subst(*x) for x in es]
    best = {}
    for d, c in cons:
        if not d:
            if c < 0:
                return True
            continue
        d, c = _tighten(d, c)
        k = frozenset(d.items())
        if k not in best or c < best[k]:
            best[k] = c
    # Fourier-Motzkin
    while best:
        for k, c in best.items():
            nk = frozenset((i, -v) for i, v in k)
            if nk in best and best[nk] + c < 0:
                return True
        pos, negs = {}, {}
        for k, c in best.items():
            for i, v in k:
                (pos if v > 0 else negs).setdefault(i, []).append((k, c))
        allv = set(pos) | set(negs)
        v = min(allv, key=lambda i: (len(pos.get(i, ())) * len(negs.get(i, ())), i))
        ps, ns = pos.get(v, []), negs.get(v, [])
        gone = set(k for k, _ in ps) | set(k for k, _ in ns)
        nb = {k: c for k, c in best.items() if k not in gone}
        if len(nb) + len(ps) * len(ns) > FM_LIMIT:
            return False
        for pk, pc in ps:
            pd = dict(pk)
            pv = pd[v]
            for qk, qc in ns:
                qd = dict(qk)
                qv = -qd[v]
                g = gcd(pv, qv)
                m1, m2 = qv // g, pv // g
                d = {}
                for i, x in pd.items():
                    d[i] = x * m1
                for i, x in qd.items():
                    n = d.get(i, 0) + x * m2
                    if n:
                        d[i] = n
                    else:
                        d.pop(i, None)
                d.pop(v, None)
                c = pc * m1 + qc * m2
                if not d:
                    if c < 0:
                        return True
                    continue
                d, c = _tighten(d, c)
                k = frozenset(d.items())
                if k not in nb or c < nb[k]:
                    nb[k] = c
        best = nb
    return False


def deep_atoms(x, acc):
    if isinstance(x, Lin):
        for i, _ in x.t:
            if i not in acc:
                acc.add(i)
                deep_atoms(ATOMS[i].args, acc)
    elif isinstance(x, tuple):
        for y in x:
            deep_atoms(y, acc)


def subst_lin(l, m):
    """l with the atoms in m replaced by constants, everywhere inside."""
    r = K(l.c)
    for i, c in l.t:
        r = add(r, scale(_subst_atom(ATOMS[i], m), c))
    return r


def _subst_key(k, m):
    if isinstance(k, Lin):
        return subst_lin(k, m)
    if isinstance(k, tuple):
        return tuple(_subst_key(x, m) for x in k)
    return k


def _subst_atom(a, m):
    if a.id in m:
        return K(m[a.id])
    k = a.kind
    if k == "sym":
        return A(a)
    if k == "bits":
        return bits(a.args[0], subst_lin(a.args[1], m), subst_lin(a.args[2], m))
    if k == "div":
        return mkdiv(subst_lin(a.args[0], m), a.args[1])
    if k == "pow2":
        return pow2(subst_lin(a.args[0], m))
    if k == "mul":
        return mkmul(subst_lin(a.args[0], m), subst_lin(a.args[1], m))
    if k == "bitop":
        return mkbitop(a.args[0], subst_lin(a.args[1], m), subst_lin(a.args[2], m), a.args[3])
    return A(a)


class Facts:
    """Conjunction of conditions known on the current partition."""

    def __init__(self):
        self.ges = []
        self.eqs = []
        self.nes = []          # Lin != 0
        self.allowed = {}      # normalised lin (const 0) -> set of values
        self.excluded = {}     # normalised lin -> set of values
        self.conds = []
        self.ors = []
        self.bad = False
        self.cache = {}
        self.order = []

    def copy(self):
        f = Facts()
        f.ges = list(self.ges)
        f.eqs = list(self.eqs)
        f.nes = list(self.nes)
        f.allowed = dict(self.allowed)
        f.excluded = dict(self.excluded)
        f.conds = list(self.conds)
        f.ors = list(self.ors)
        f.bad = self.bad
        f.order = list(self.order)
        return f

    @staticmethod
    def _split(l):
        """l -> (key lin with const 0 and positive leading coef, sign, const): l = sign*key + const"""
        if l.t and l.t[0][1] < 0:
            return Lin(0, tuple((i, -c) for i, c in l.t)), -1, l.c
        return Lin(0, l.t), 1, l.c

    def assume(self, c):
        k = c.k
        if k == "true":
            return
        self.conds.append(c)
        self.cache = {}
        if k == "false":
            self.bad = True
        elif k == "and":
            self.conds.pop()
            for x in c.a:
                self.assume(x)
        elif k == "or":
            live = [x for x in c.a if self.decide(x) is not False]
            if not live:
                self.bad = True
            elif len(live) == 1:
                self.assume(live[0])
            else:
                self.ors.append(c)
        elif k == "ge":
            self.order.append(c)
            self.ges.append(c.a)
            self._recheck()
        elif k == "eq":
            self.order.append(c)
            self.eqs.append(c.a)
            key, s, cc = self._split(c.a)
            v = -cc * s
            al = self.allowed.get(key)
            if al is not None and v not in al:
                self.bad = True
            if v in self.excluded.get(key, ()):
                self.bad = True
            self.allowed[key] = frozenset([v])
            self._recheck()
        elif k == "ne":
            self.order.append(c)
            key, s, cc = self._split(c.a)
            v = -cc * s
            self.excluded[key] = self.excluded.get(key, frozenset()) | {v}
            al = self.allowed.get(key)
            if al is not None:
                self.allowed[key] = al - {v}
                if not self.allowed[key]:
                    self.bad = True
                if len(self.allowed[key]) == 1:
                    self.eqs.append(sub(key, K(next(iter(self.allowed[key])))))
            self.nes.append(c.a)
            self._recheck()
        elif k in ("in", "notin"):
            self.order.append(c)
            l, vals = c.a
            key, s, cc = self._split(l)
            vs = frozenset((v - cc) * s for v in vals)
            if k == "in":
                al = self.allowed.get(key)
                vs = vs if al is None else vs & al
                vs = vs - self.excluded.get(key, frozenset())
                self.allowed[key] = vs
                if not vs:
                    self.bad = True
                else:
                    self.ges.append(sub(key, K(min(vs))))
                    self.ges.append(sub(K(max(vs)), key))
            else:
                self.excluded[key] = self.excluded.get(key, frozenset()) | vs
                al = self.allowed.get(key)
                if al is not None:
                    self.allowed[key] = al - vs
                    if not self.allowed[key]:
                        self.bad = True

    def _recheck(self):
        # turn disequalities at an end of the known range into inequalities
        again = True
        while again:
            again = False
            for l in list(self.nes):
                if self.implies_ge(l):
                    self.nes.remove(l)
                    self.ges.append(sub(l, ONE))
                    again = True
                elif self.implies_ge(neg(l)):
                    self.nes.remove(l)
                    self.ges.append(sub(neg(l), ONE))
                    again = True
            if again:
                self.cache = {}

    def relevant(self, l):
        atoms = set()
        lin_atoms(l, atoms)
        ges, eqs = [], []
        pend = [(g, 0) for g in self.ges] + [(e, 1) for e in self.eqs]
        sets = []
        for x, kind in pend:
            s = set()
            lin_atoms(x, s)
            sets.append((x, kind, s))
        changed = True
        while changed:
            changed = False
            rest = []
            for x, kind, s in sets:
                if s & atoms:
                    (eqs if kind else ges).append(x)
                    if not s <= atoms:
                        atoms |= s
                    changed = True
                else:
                    rest.append((x, kind, s))
            sets = rest
        return ges, eqs

    def implies_ge(self, l):
        """facts |= l >= 0"""
        if not l.t:
            return l.c >= 0
        lo, hi = rng(l)
        if lo is not None and lo >= 0:
            return True
        key = ("g", l)
        r = self.cache.get(key)
        if r is None:
            ges, eqs = self.relevant(l)
            r = infeasible(ges + [sub(neg(l), ONE)], eqs)
            self.cache[key] = r
        return r

    def decide(self, c):
        """True / False / None (unknown)."""
        k = c.k
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "ge":
            if self.implies_ge(c.a):
                return True
            if self.implies_ge(sub(neg(c.a), ONE)):
                return False
            return None
        if k in ("eq", "ne"):
            r = self._eq(c.a)
            if r is None:
                return None
            return r if k == "eq" else not r
        if k in ("in", "notin"):
            l, vals = c.a
            key, s, cc = self._split(l)
            vs = frozenset((v - cc) * s for v in vals)
            al = self.allowed.get(key)
            ex = self.excluded.get(key, frozenset())
            r = None
            vs = vs - ex
            if al is None:
                lo, hi = rng(key)
                if lo is not None and hi is not None and hi - lo <= 70:
                    al = frozenset(range(lo, hi + 1))
            if not vs:
                r = False
            elif al is not None:
                a2 = al - ex
                if a2 <= vs:
                    r = True
                elif not (a2 & vs):
                    r = False
            if r is None and self.implies_ge(sub(key, K(max(vs) + 1))):
                r = False
            if r is None and self.implies_ge(sub(K(min(vs) - 1), key)):
                r = False
            if r is None:
                return None
            return r if k == "in" else not r
        if k == "and":
            u = False
            for x in c.a:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    u = True
            return None if u else True
        if k == "or":
            u = False
            for x in c.a:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    u = True
            if u:
                for o in self.ors:
                    if all(self.decide_in(x, c) for x in o.a):
                        return True
            return None if u else False
        raise KeyError(k)

    @staticmethod
    def decide_in(x, c):
        return x in c.a

    def _eq(self, l, _deep=False):
        if not l.t:
            return l.c == 0
        key, s, cc = self._split(l)
        v = -cc * s
        al = self.allowed.get(key)
        ex = self.excluded.get(key)
        if ex and v in ex:
            return False
        if al is not None:
            if v not in al:
                return False
            if len(al - (ex or frozenset())) == 1:
                return True
        a = self.implies_ge(l)
        b = self.implies_ge(neg(l))
        if a and b:
            return True
        if a and self.implies_ge(sub(l, ONE)):
            return False
        if b and self.implies_ge(sub(neg(l), ONE)):
            return False
        if not _deep and any(ATOMS[i].kind not in ("sym",) for i, _ in l.t):
            l2 = self.simplify(l)
            if l2 != l:
                r = self._eq(l2, True)
                if r is not None:
                    return r
            if len(l2.t) == 2 and l2.t[0][1] == -l2.t[1][1] and l2.c == 0 and self._congruent(l2):
                return True
        return None

    def fixed_atoms(self, l):
        """atoms inside l that the facts pin to one constant."""
        acc = set()
        deep_atoms(l, acc)
        out = {}
        for i in acc:
            if ATOMS[i].kind == "pow2":
                e = ATOMS[i].args[0]
                if self.implies_ge(e) and self.implies_ge(neg(e)):
                    out[i] = 1
                continue
            if ATOMS[i].kind not in ("sym", "bits"):
                continue
            key = Lin(0, ((i, 1),))
            al = self.allowed.get(key)
            if al is not None and len(al) == 1:
                out[i] = next(iter(al))
                continue
            a = ATOMS[i]
            if a.kind == "sym":
                if a.lo is not None and self.implies_ge(sub(K(a.lo), key)):
                    out[i] = a.lo
                    continue
                if a.hi is not None and self.implies_ge(sub(key, K(a.hi))):
                    out[i] = a.hi
                    continue
            # a tight one-variable bound whose converse is implied as well
            for g in self.ges:
                if len(g.t) == 1 and g.t[0][0] == i and g.c % g.t[0][1] == 0:
                    v = -g.c // g.t[0][1]
                    if self.implies_ge(sub(key, K(v))) and self.implies_ge(sub(K(v), key)):
                        out[i] = v
                        break
        return out

    def simplify(self, l):
        m = self.fixed_atoms(l)
        if m:
            l = subst_lin(l, m)
        for i, c in l.t:
            a = ATOMS[i]
            if a.kind == "bits" and a.args[1].const is None and rng(a.args[1])[0] is not None or \
                    a.kind == "bits" and a.args[1].const is None and self.implies_ge(a.args[1]):
                if self.implies_ge(neg(a.args[1])):
                    return self.simplify(add(drop(l, a), scale(bits(a.args[0], ZERO, a.args[2]), c)))
        return l

    def consistent(self):
        if self.bad:
            return False
        return not infeasible(self.ges, self.eqs)

    def equal(self, a, b):
        """facts |= a == b ?  True/False/None, looking inside bit-slices and products."""
        d = sub(a, b)
        if not d.t:
            return d.c == 0
        r = self._eq(d)
        if r is not None:
            return r
        return True if self._congruent(d) else None

    def _congruent(self, d):
        t = d.t
        if len(t) == 2 and t[0][1] == -t[1][1] and d.c == 0:
            x, y = ATOMS[t[0][0]], ATOMS[t[1][0]]
            if x.kind == y.kind and x.kind in ("bits", "pow2", "mul", "div", "bitop"):
                for p, q in zip(x.args, y.args):
                    if isinstance(p, Lin):
                        if self.equal(p, q) is not True:
                            return False
                    elif p != q:
                        return False
                return True
        return False
