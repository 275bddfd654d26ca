"""Structural views of the dumped MIR: library functions, resolved calls, call graph, control flow."""
import re
from collections import defaultdict

import interp
from interp import strip_generics

LIBS = ["llvm_bitcursor", "llvm_bitstream", "llvm_support", "llvm_mapper"]


def site(f):
    """stable name of a function (no line numbers, no generic arguments)."""
    return strip_generics(f["disp"]) if f["disp"].startswith(f["krate"]) or f["disp"].startswith("<") \
        else f["krate"] + "::" + strip_generics(f["disp"])


def lib_fns(progs):
    """(prog, fn) for every function body that belongs to one of the library crates, once per crate."""
    seen = set()
    for c in LIBS:
        p = progs.get(c)
        if p is None:
            continue
        for f in p.d["fns"]:
            if f.get("has_body") and f["krate"] == c:
                k = (c, f["path"], f["disp"])
                if k in seen:
                    continue
                seen.add(k)
                yield p, f


def derived_spans(prog):
    s = set()
    for it in prog.d["items"]:
        if it.get("derived"):
            for k in it.get("keys") or ():
                s.add(k)
    return s


def calls(f, cleanup=False):
    """(block index, callee dict or None, args, dst, target, span)"""
    for i, b in enumerate(f["blocks"]):
        if b.get("cleanup") and not cleanup:
            continue
        t = b["t"]
        if t[0] == "call":
            cal = t[1] if isinstance(t[1], dict) else None
            yield i, cal, t[2], t[3], t[4], b.get("sp")


def fn_values(prog, f):
    """functions mentioned as values (function items and closures) in f: list of callee keys."""
    out = []

    def ty_keys(tid):
        t = prog.types[tid]
        if t["k"] == "closure" and t.get("body"):
            out.append(t["body"])
        elif t["k"] == "fndef" and t.get("callee"):
            c = t["callee"]
            if c.get("res"):
                out.append(c["res"])
    for l in f["locals"]:
        ty_keys(l["ty"])

    def walk(x):
        if isinstance(x, list):
            if len(x) >= 3 and x[0] == "k" and isinstance(x[1], int):
                ty_keys(x[1])
            for y in x:
                walk(y)
    for b in f["blocks"]:
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            walk(s[1])
        t = b["t"]
        if t[0] == "call":
            walk(t[2])
            if isinstance(t[1], dict):
                out += t[1].get("via") or []        # trait methods std may call back through its bounds
                for a in t[1].get("args") or ():
                    if isinstance(a, int):
                        ty_keys(a)
    return out


class CallGraph:
    """resolved calls between dumped bodies; a function or closure used as a value counts as called there."""

    def __init__(self, prog):
        self.prog = prog
        self.byk = {f["key"]: f for f in prog.d["fns"] if f.get("has_body")}
        self.out = {}
        for k, f in self.byk.items():
            es = set()
            for _, cal, _, _, _, _ in calls(f):
                if cal and cal.get("res") in self.byk:
                    es.add(cal["res"])
            for v in fn_values(prog, f):
                if v in self.byk:
                    es.add(v)
            self.out[k] = es

    def sccs(self):
        """strongly connected components that contain a cycle."""
        idx, low, on, st, res = {}, {}, set(), [], []
        cnt = [0]
        for root in self.out:
            if root in idx:
                continue
            work = [(root, iter(sorted(self.out[root])))]
            idx[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.out[w]))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in self.out[v]:
                        res.append(comp)
        return res

    def reach(self, keys):
        seen, todo = set(), list(keys)
        while todo:
            k = todo.pop()
            if k in seen or k not in self.byk:
                continue
            seen.add(k)
            todo += self.out[k]
        return seen


def succs(b):
    t = b["t"]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]] if len(t) > 2 and isinstance(t[2], int) else [t[1]] if isinstance(t[1], int) else []
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[-1]] if isinstance(t[-1], int) else [t[5]]
    return []
