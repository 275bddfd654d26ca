"""Concretisation test: does an abstract partition contain a concrete point?

An obligation that the abstract domains refute is only reported when a member of the partition's
concretisation is exhibited, so imprecision of the domains never turns into an alarm.
"""
import time

from terms import *
import terms as T

LIMIT = 4000


class Fail(Exception):
    pass


def collect_atoms(x, acc):
    if isinstance(x, Lin):
        for i, _ in x.t:
            a = ATOMS[i]
            if a.id not in acc:
                acc[a.id] = a
                collect_atoms(a.args, acc)
    elif isinstance(x, tuple):
        for y in x:
            collect_atoms(y, acc)
    elif isinstance(x, frozenset):
        pass
    elif isinstance(x, Cond):
        collect_atoms(x.a, acc)


class Env:
    def __init__(self):
        self.v = {}       # atom id -> int
        self.syms = {}    # concretised key -> int
        self.bitmap = {}  # (src, bit) -> 0/1

    def copy(self):
        e = Env()
        e.v, e.syms, e.bitmap = dict(self.v), dict(self.syms), dict(self.bitmap)
        return e

    def lin(self, l):
        s = l.c
        for i, c in l.t:
            if i not in self.v:
                return None
            s += c * self.v[i]
        return s

    def key(self, k):
        """concretise a provenance key; None when something in it is open."""
        if isinstance(k, Lin):
            return self.lin(k)
        if isinstance(k, Cond):
            return self.cond(k)
        if isinstance(k, tuple):
            out = []
            for x in k:
                y = self.key(x)
                if y is None and x is not None:
                    return None
                out.append(y)
            return tuple(out)
        return k

    def cond(self, c):
        k = c.k
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "ge":
            v = self.lin(c.a)
            return None if v is None else v >= 0
        if k == "eq":
            v = self.lin(c.a)
            return None if v is None else v == 0
        if k == "ne":
            v = self.lin(c.a)
            return None if v is None else v != 0
        if k in ("in", "notin"):
            v = self.lin(c.a[0])
            return None if v is None else (v in c.a[1]) == (k == "in")
        vs = [self.cond(x) for x in c.a]
        if k == "and":
            return False if False in vs else (None if None in vs else True)
        if k == "or":
            return True if True in vs else (None if None in vs else False)


def _shape(k):
    """a provenance key with its linear forms blanked; second result: does it hold a non-constant one?"""
    if isinstance(k, Lin):
        return "#", k.const is None
    if isinstance(k, Cond):
        return "?", True
    if isinstance(k, tuple):
        r = [_shape(x) for x in k]
        return tuple(x for x, _ in r), any(y for _, y in r)
    return k, False


def _components(conds):
    """conditions grouped so that no two groups constrain a common quantity (the group of the last condition first)"""
    atoms, parent = {}, {}

    def root(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    def union(x, y):
        parent.setdefault(x, x)
        parent.setdefault(y, y)
        parent[root(x)] = root(y)
    fam = {}
    rest = []
    for n, c in enumerate(conds):
        acc = {}
        collect_atoms(c, acc)
        if not acc:
            rest.append(c)
        parent.setdefault(("c", n), ("c", n))
        for i, a in acc.items():
            union(("c", n), i)
            if i in atoms:
                continue
            atoms[i] = a
            if a.kind == "bits":
                fam.setdefault(("bits",), []).append((i, True))
            elif a.kind == "sym":
                sh, open_ = _shape(a.args)
                fam.setdefault(sh, []).append((i, open_))
    for l in fam.values():
        if any(o for _, o in l):
            for i, _ in l[1:]:
                union(l[0][0], i)
    groups, order = {}, []
    for n in reversed(range(len(conds))):
        r = root(("c", n))
        if r not in groups:
            groups[r] = []
            order.append(r)
        groups[r].append(conds[n])
    return [list(reversed(groups[r])) for r in order]


def find(conds, limit=LIMIT, secs=8.0):
    """a concrete assignment satisfying all conditions, as Env, or None."""
    f = Facts()
    for c in conds:
        f.assume(c)
    if f.bad:
        return None
    env = Env()
    end = time.process_time() + secs
    for g in _components(conds):
        acc = {}
        for c in g:
            collect_atoms(c, acc)
        f = Facts()
        for c in g:
            f.assume(c)
        if f.bad:
            return None
        try:
            e = _search(f, env.copy(), dict(acc), g, [limit, end])
        except Fail:
            return None
        if e is None:
            return None
        env = e
    if any(env.cond(c) is not True for c in conds):
        return None
    return env


def _tight(f, a):
    x = A(a)
    lo, hi = a.lo, a.hi
    if lo is None:
        lo = -(1 << 64)
    if hi is None:
        hi = 1 << 64
    key = Lin(0, x.t)
    al = f.allowed.get(key)
    if al:
        return min(al), max(al), sorted(al)

    def feas(c):
        g = Facts.copy(f)
        g.assume(c)
        return g.consistent()
    # smallest feasible upper bound region by bisection
    l, h = lo, hi
    while l < h:
        m = (l + h) // 2
        if feas(ge0(sub(K(m), x))):
            h = m
        else:
            l = m + 1
    mn = l
    l, h = mn, hi
    while l < h:
        m = (l + h + 1) // 2
        if feas(ge0(sub(x, K(m)))):
            l = m
        else:
            h = m - 1
    return mn, l, None


def _search(f, env, open_, conds, budget):
    budget[0] -= 1
    if budget[0] < 0 or time.process_time() > budget[1]:
        raise Fail()
    # propagate: atoms that are determined by closed arguments
    progress = True
    while progress:
        progress = False
        for i in list(open_):
            a = open_[i]
            v = _determined(env, a)
            if v == "conflict":
                return None
            if v is not None:
                env.v[i] = v
                _record(env, a, v)
                del open_[i]
                g = f.copy()
                g.assume(eq(A(a), K(v)))
                if g.bad or not g.consistent():
                    return None
                f = g
                progress = True
    if not open_:
        for c in conds:
            if env.cond(c) is not True:
                return None
        return env
    # choose the next free atom
    cand_ = [a for a in open_.values() if _ready(env, a)]
    if not cand_:
        return None
    cand_.sort(key=lambda a: (0 if a.kind == "sym" else 1, a.id))
    a = cand_[0]
    mn, mx, vals = _tight(f, a)
    if mn > mx:
        return None
    if vals is None:
        base = [mn, mn + 1, mx, mn + 2, mn + 3, mn + 7, mn + 8, (mn + mx) // 2, mx - 1, mn + 31, mn + 32, mn + 64]
        vals = []
        for v in base:
            if mn <= v <= mx and v not in vals:
                vals.append(v)
    ex = f.excluded.get(Lin(0, A(a).t), ())
    vals = [v for v in vals if v not in ex]
    if a.kind == "bits":
        vals = _bits_candidates(env, a, vals, mn, mx)
    for v in vals[:12]:
        g = f.copy()
        g.assume(eq(A(a), K(v)))
        if g.bad or not g.consistent():
            continue
        e2 = env.copy()
        e2.v[a.id] = v
        if not _record(e2, a, v):
            continue
        o2 = dict(open_)
        del o2[a.id]
        r = _search(g, e2, o2, conds, budget)
        if r is not None:
            return r
    return None


def _bits_candidates(env, a, vals, mn, mx):
    src, s, n = env.key(a.args[0]), env.lin(a.args[1]), env.lin(a.args[2])
    fixed = {j: env.bitmap[(src, s + j)] for j in range(min(n, 64)) if (src, s + j) in env.bitmap}
    if not fixed:
        return vals
    out = []
    for v in list(vals) + [0, (1 << n) - 1]:
        for j, b in fixed.items():
            v = v | (1 << j) if b else v & ~(1 << j)
        if mn <= v <= mx and v not in out:
            out.append(v)
    return out


def _ready(env, a):
    if a.kind == "sym":
        return env.key(a.args) is not None
    if a.kind == "bits":
        return env.lin(a.args[1]) is not None and env.lin(a.args[2]) is not None and env.key(a.args[0]) is not None
    return False


def _record(env, a, v):
    if a.kind == "sym":
        k = env.key(a.args)
        if k in env.syms:
            return env.syms[k] == v
        env.syms[k] = v
        return True
    if a.kind == "bits":
        src, s, n = env.key(a.args[0]), env.lin(a.args[1]), env.lin(a.args[2])
        if n < 0 or n > 64 or v < 0 or v >> n:
            return False
        for j in range(n):
            b = v >> j & 1
            o = env.bitmap.get((src, s + j))
            if o is not None and o != b:
                return False
            env.bitmap[(src, s + j)] = b
        return True
    return True


def _determined(env, a):
    k = a.kind
    if k == "sym":
        kk = env.key(a.args)
        if kk is not None and kk in env.syms:
            return env.syms[kk]
        return None
    if k == "bits":
        s, n, src = env.lin(a.args[1]), env.lin(a.args[2]), env.key(a.args[0])
        if s is None or n is None or src is None:
            return None
        if n < 0 or n > 64:
            return "conflict"
        v = 0
        for j in range(n):
            b = env.bitmap.get((src, s + j))
            if b is None:
                return None
            v |= b << j
        return v
    if k == "div":
        v = env.lin(a.args[0])
        return None if v is None else v // a.args[1]
    if k == "pow2":
        v = env.lin(a.args[0])
        if v is None:
            return None
        return (1 << v) if 0 <= v < 4096 else "conflict"
    if k == "mul":
        x, y = env.lin(a.args[0]), env.lin(a.args[1])
        return None if x is None or y is None else x * y
    if k == "bitop":
        op, p, q, w = a.args
        x, y = env.lin(p), env.lin(q)
        return None if x is None or y is None else bitop_eval(op, x, y, w)
    return None


def describe(env):
    out = {}
    for k, v in env.syms.items():
        out[fmt_key(k)] = v
    bufs = {}
    for (src, b), v in env.bitmap.items():
        bufs.setdefault(src, {})[b] = v
    for src, m in bufs.items():
        hi = max(m)
        if hi < 4096:
            out["bits of " + fmt_key(src)] = "".join(str(m.get(i, "-")) for i in range(hi + 1))
        else:
            out["bits of " + fmt_key(src)] = "%d bits fixed" % len(m)
    return out
