"""C07: call depth is bounded independently of the input."""
from core import *
from graph import *
from opaque import *

RULE = ("Strongly connected components of the resolved call graph (trait calls resolved, closures and function values counted as "
        "called where they appear) over all library code. Every component must be justified by a depth measure: a parameter "
        "that every cycle strictly increases while a constant upper bound (at most 2000) holds at the recursive call (or strictly "
        "decreases from a constant), established by value-flow analysis of each function of the component with unknown arguments; or by "
        "structural descent into a strictly smaller part of its argument whose type is never built self-nested in a loop. "
        "Functions that are not recursive contribute constant depth.")
LIMIT = 2000


def closure_self(f):
    return f["is_closure"]


class Graph7(CallGraph):
    def __init__(self, prog):
        super().__init__(prog)
        # a closure's own type appears in its signature: not a call
        for k, f in self.byk.items():
            if f["is_closure"]:
                self.out[k] = {x for x in self.out[k] if x != k or self._really(f, k)}

    def _really(self, f, k):
        return any(cal and cal.get("res") == k for _, cal, _, _, _, _ in calls(f))


def is_derived(prog, f, derived):
    return f["key"] in derived


def check(ctx, progs):
    seen = set()
    nfn = 0
    for c in LIBS:
        p = progs[c]
        g = Graph7(p)
        nfn += len(g.byk)
        derived = derived_spans(p)
        for k, f in g.byk.items():
            if f["krate"] in LIBS:
                ctx.fns.add(site(f))
        for comp in g.sccs():
            fs = [g.byk[k] for k in comp]
            if not any(f["krate"] in LIBS for f in fs):
                continue
            key = frozenset(site(f) for f in fs)
            if key in seen:
                continue
            seen.add(key)
            # derived comparisons and clones (and the std impls between them) follow the value's own nesting
            if all(f["key"] in derived for f in fs if not f["is_closure"] and f["krate"] in LIBS):
                continue
            judge(ctx, p, g, fs)
        loops_nesting(ctx, p)
    ctx.ob(nfn)
    ctx.extra["functions_in_call_graphs"] = nfn
    ctx.extra["recursive_components"] = [sorted(s) for s in seen]


def judge(ctx, p, g, fs):
    heads = [f for f in fs if not f["is_closure"]]
    name = " / ".join(sorted(site(f) for f in heads)) or " / ".join(sorted(site(f) for f in fs))
    if not heads:
        ctx.violation("recursion|" + name, "closures call each other recursively", name)
        return
    hk = {f["key"]: f for f in heads}
    krates = {f["krate"] for f in heads}
    edges = []      # (caller, callee, {(i,j): facts})
    problems = []
    ent = []

    def mkbody(f):
        def body(run):
            args = sym_args(run, f)
            run.opts["params"] = params(run, f, args)
            run.opts["derefs"] = [run.deref(a) if isinstance(a, Ref) else a for a in args]
            run.call_fn(f, args)
        return body

    def handler_for(f):
        def h(run, cal, args, dty):
            g2 = hk[cal["res"]]
            ps = run.opts["params"]
            qs = params(run, g2, args)
            rel = {}
            for i, d in ps.items():
                for j, e in qs.items():
                    rel[(i, j)] = dict(
                        strict=run.known(le(add(d, ONE), e)) is True, ge=run.known(le(d, e)) is True,
                        bound=run.known(le(d, K(LIMIT))) is True,
                        down=run.known(le(add(e, ONE), d)) is True, le=run.known(le(e, d)) is True,
                        unk="'after'" in repr(e))
            desc = descends(run, f, args)
            edges.append((f["key"], cal["res"], rel, desc))
            return opaque_call(run, cal, args, dty)
        return h

    for f in heads:
        def pred_scc(run, cal):
            return cal.get("res") in hk and len(run.stack) > 0

        def pred_other(run, cal, f=f):
            g2 = p.fns.get(cal.get("res"))
            return g2 is not None and g2.get("has_body") and g2["krate"] in LIBS and g2["krate"] not in krates

        def other(run, cal, args, dty):
            return opaque_call(run, cal, args, dty)
        opts = {"intercepts": [(pred_scc, handler_for(f)), (pred_other, other)], "loop_max": 2, "iter_max": 3,
                "fns_seen": ctx.fns}
        n = 0
        for o in explore(p, mkbody(f), opts, 4000, min(ctx.deadline, time.time() + 100)):
            if o.kind == "infeasible":
                continue
            ctx.counts["partitions"] += 1
            n += 1
            if o.kind in ("unsupported", "limit"):
                problems.append((site(f), str(o.info)[:200]))
    ctx.ob(len(edges))
    # ---- is every cycle justified?
    if os.environ.get("MOLLINT_VERBOSE"):
        print(name, len(edges), problems[:5])
    if problems:
        ctx.counts["undecided"] += 1
        ctx.undecided.append({"task": name, "what": "recursive component not analysed in full", "where": problems[:3]})
    if justified(heads, edges):
        ctx.rules.append("%s: bounded by a depth measure (%d recursive call partitions)" % (name, len(edges)))
        return
    if edges and all(e[3] for e in edges):
        ctx.rules.append("%s: structural descent" % name)
        return
    if entry_bounded(p, g, heads, hk, edges):
        ctx.rules.append("%s: decreasing measure from constants" % name)
        return
    if problems and not edges:
        return
    if not edges:
        # the resolved call graph has the cycle but no analysed partition takes it
        ctx.counts["undecided"] += 1
        ctx.undecided.append({"task": name, "what": "no partition reaches the recursive call", "where": name})
        return
    if justified(heads, edges, True):
        ctx.counts["undecided"] += 1
        ctx.undecided.append({"task": name, "what": "depth measure in shared state, restored by callees: not decided", "where": name})
        return
    bad = sorted({"%s -> %s" % (site(hk[a]), site(hk[b])) for a, b, _, d in edges if not d})
    ctx.violation("recursion|" + name, "recursion depth is not bounded by a constant", name, {"calls": bad})


def params(run, f, args):
    """integer parameters by position (also through one reference)."""
    out = {}
    for i, a in enumerate(args):
        v = a
        for _ in range(2):
            if isinstance(v, Ref):
                try:
                    v = run.read(v)
                except Unsupported:
                    break
        if isinstance(v, Lin):
            out[i] = v
            continue
        # integer fields of a structure argument
        try:
            if isinstance(v, SymV) and run.prog.types[v.ty]["k"] == "adt" and run.prog.types[v.ty].get("adt") == "struct":
                v = run.expand(v)
        except Unsupported:
            continue
        if isinstance(v, Agg):
            for j, x in enumerate(v.f):
                if isinstance(x, Lin):
                    out[(i, j)] = x
    return out


def subterm(k, sub_, strict=True):
    """sub_ occurs strictly inside provenance k"""
    if not strict and k == sub_:
        return True
    if isinstance(k, tuple):
        return any(subterm(x, sub_, False) for x in k if isinstance(x, (tuple, str)))
    return False


def descends(run, f, args):
    """some argument of the call is a strictly smaller part of the same-typed argument of the caller."""
    ders = run.opts.get("derefs") or []
    for i, a in enumerate(args):
        v = a
        while isinstance(v, Ref):
            try:
                v = run.read(v)
            except Unsupported:
                break
        for d in ders:
            if isinstance(v, SymV) and isinstance(d, SymV) and v.ty == d.ty and subterm(v.key, d.key):
                return True
    return False


def justified(heads, edges, lenient=False):
    """lenient: values left behind by other recursive calls are taken to be what the measure needs."""
    import itertools
    if not edges:
        return False
    if lenient:
        edges = [(a, b, {k: (dict(v, strict=True, ge=True, bound=True) if v["unk"] else v) for k, v in r.items()}, d)
                 for a, b, r, d in edges]
    ks = [f["key"] for f in heads]
    choices = []
    for k in ks:
        idx = set()
        for a, b, rel, _ in edges:
            for (i, j) in rel:
                if a == k:
                    idx.add(i)
                if b == k:
                    idx.add(j)
        choices.append(sorted(idx, key=repr) or [None])
    for combo in itertools.islice(itertools.product(*choices), 4096):
        m = dict(zip(ks, combo))
        rest = {}
        ok = True
        for a, b, rel, _ in edges:
            r = rel.get((m[a], m[b]))
            if r is None or not r["ge"]:
                ok = False
                break
            if not (r["strict"] and r["bound"]):
                rest.setdefault(a, set()).add(b)
        if ok and acyclic(rest):
            # a strict step is only taken while the measure is at most LIMIT
            return True
    return False


def acyclic(g):
    state = {}

    def visit(v):
        if state.get(v) == 1:
            return False
        if state.get(v) == 2:
            return True
        state[v] = 1
        for w in g.get(v, ()):
            if not visit(w):
                return False
        state[v] = 2
        return True
    return all(visit(v) for v in list(g))


def entry_bounded(p, g, heads, hk, edges):
    """decreasing unsigned measure, with constant arguments at every call from outside."""
    for j in range(8):
        if edges and all((j, j) in r and r[(j, j)]["down"] for _, _, r, _ in edges):
            ok = True
            for k, f in g.byk.items():
                if k in hk:
                    continue
                for _, cal, args, _, _, _ in calls(f):
                    if cal and cal.get("res") in hk:
                        a = args[j] if j < len(args) else None
                        if not (a and a[0] == "k" and isinstance(a[2], list) and a[2][0] == "int" and 0 <= a[2][1] <= LIMIT):
                            ok = False
            if ok:
                return True
    return False


# ------------------------------------------------------------------ self-nesting construction in loops

def recursive_types(p):
    """ADT type ids that contain themselves (through Box/Vec)."""
    memo = {}

    def refs(t):
        r = set()
        if t["k"] == "adt":
            for v in t.get("variants") or ():
                for fl in v["fields"]:
                    r.add(fl["ty"])
            for a in t.get("args") or ():
                if isinstance(a, int):
                    r.add(a)
        elif t["k"] in ("tuple",):
            r |= set(t["fields"])
        elif t["k"] in ("slice", "array"):
            r.add(t["elem"])
        return r
    out = set()
    for i, t in enumerate(p.types):
        if t["k"] != "adt" or t.get("krate") not in LIBS:
            continue
        seen, todo = set(), list(refs(t))
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += list(refs(p.types[x]))
        if i in seen:
            out.add(i)
    return out


def loops_nesting(ctx, p):
    """a recursive value built from itself around a loop nests as deep as the loop runs."""
    rec = recursive_types(p)
    if not rec:
        return
    for _, f in lib_fns({p.d["crate"]: p}):
        defs = {}
        for b in f["blocks"]:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                defs.setdefault(s[0][0], []).append(("s", s))
            if b["t"][0] == "call" and b["t"][3] is not None:
                defs.setdefault(b["t"][3][0], []).append(("c", b["t"]))
        for b in f["blocks"]:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                r = s[1]
                if r[0] == "agg" and r[1][0] == "adt" and r[3] in rec:
                    ctx.ob()
                    if slice_hits(p, f, defs, r[2], s, rec):
                        ctx.violation("nesting|%s" % site(f), "a recursive value is wrapped into itself in a loop",
                                      "%s (%s)" % (site(f), s[2]))


def slice_hits(p, f, defs, ops, target, rec):
    seen, todo = set(), []

    def push(o):
        if o[0] in ("c", "m"):
            todo.append(o[1][0])
    for o in ops:
        push(o)
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for k, d in defs.get(l, ()):
            if k == "s":
                if d is target:
                    return True
                r = d[1]
                if r[0] == "use":
                    push(r[1])
                elif r[0] == "agg":
                    for o in r[2]:
                        push(o)
                elif r[0] == "cast":
                    push(r[2])
                elif r[0] == "ref":
                    todo.append(r[2][0])
            else:
                cal = d[1] if isinstance(d[1], dict) else {}
                if cal.get("krate") in ("core", "alloc", "std"):
                    for o in d[2]:
                        push(o)
    return False
