"""C27: parsing is a pure function of the bytes (effect analysis over all library code)."""
import re
from core import *
from graph import *

RULE = ("Effect analysis over every function body of the four library crates: no unsafe block/fn/impl; no static that is mutable or holds "
        "interior mutability, no thread-local; every call site (direct, trait-resolved, or function value) is outside the deny list "
        "of ambient-authority library paths (files, network, processes, environment, clocks, threads, terminals, randomness, hasher "
        "state); no pointer-to-integer cast or pointer formatting; unordered-map iteration only into order-insensitive sinks; code guarded by "
        "the log level only formats and logs.")
FLOOR = {"obligations": 3000}

DENY = re.compile(r"(std|core|alloc)::(fs|net|process|env|time|thread|os|random|sync|backtrace)::|"
                  r"std::io::(stdin|stdout|stderr|_print|_eprint|print_to)|std::io::stdio|"
                  r"\brand(_core|om)?::|getrandom|\blibc::|RandomState|DefaultHasher|std::hash::BuildHasher|"
                  r"(core|std)::(intrinsics::volatile|arch::)|LocalKey|"
                  r"core::fmt::rt::Argument::<.*>::new_pointer|std::fmt::Pointer")
ALLOW = re.compile(r"std::process::Termination|std::sync::Arc|std::time::Duration")
MUTTY = re.compile(r"Atomic[A-Z]\w*|\b(Unsafe)?Cell<|RefCell|OnceCell|OnceLock|Mutex|RwLock|LazyLock|LazyCell|\bLazy<|LocalKey|SyncUnsafeCell")
MAPTY = re.compile(r"(^|[&\s])(mut )?(std::collections::|hashbrown::)(hash_map::|hash_set::)?Hash(Map|Set)\b|^(&(mut )?)?(std::collections|hashbrown)::.*Hash(Map|Set)<")
ITERS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "extract_if",
         "extract_from"}
SINKS = {"any", "all", "count", "sum", "product", "max", "min", "len", "is_empty", "contains"}
ADAPT = {"map", "filter", "copied", "cloned", "filter_map", "into_iter", "by_ref", "inspect"}


def hashty(prog, tid):
    t = prog.types[tid]
    while t["k"] in ("ref", "ptr") and t.get("to") is not None:
        t = prog.types[t["to"]]
    return t["k"] == "adt" and (t.get("path") or "").rsplit("::", 1)[-1] in ("HashMap", "HashSet")


def check(ctx, progs):
    for c in LIBS:
        p = progs[c]
        for u in p.d["unsafe"]:
            ctx.violation("%s|unsafe" % c, "unsafe block in a library crate", str(u))
        ctx.ob()
        for it in p.d["items"]:
            if it["kind"] in ("fn", "impl") and it.get("unsafe") and not it.get("derived"):
                ctx.violation("%s|unsafe item|%s" % (c, it.get("path") or it.get("self")), "unsafe item", it.get("span"))
            if it["kind"] == "static":
                ctx.ob()
                ts = p.types[it["ty"]]["s"] if isinstance(it.get("ty"), int) else ""
                if it.get("mut") or it.get("mutable") or it.get("freeze") is False or MUTTY.search(ts):
                    ctx.violation("%s|static|%s" % (c, it["path"]), "static with mutable state", it.get("span"))
            if it["kind"] in ("fn", "impl"):
                ctx.ob()
        for t in p.types:
            if t["k"] == "adt" and (t.get("path") or "").endswith("thread::LocalKey"):
                ctx.violation("%s|thread_local" % c, "thread-local state", t["s"])
    n = 0
    derived = {c: derived_spans(progs[c]) for c in LIBS}
    for p, f in lib_fns(progs):
        ctx.fns.add(site(f))
        if f["key"] in derived[p.d["crate"]]:
            continue
        where = site(f)
        for i, b in enumerate(f["blocks"]):
            for s in b["s"]:
                r = s[1]
                if r and r[0] == "tls":
                    ctx.violation("tls|" + where, "thread-local state is accessed", s[2])
                if r and r[0] == "cast" and ("Expose" in r[1] or (r[1].startswith("Transmute") and is_ptr(p, r[2]) and
                                             p.types[r[3]]["k"] in ("int", "uint"))):
                    ctx.violation("addr|" + where, "an address is turned into a number", s[2])
        for i, cal, args, dst, tgt, sp in calls(f):
            n += 1
            ctx.ob()
            if cal is None:
                continue
            for nm in {cal.get("path") or "", cal.get("rpath") or ""}:
                if DENY.search(nm) and not ALLOW.search(nm):
                    ctx.violation("call|%s|%s" % (where, strip_generics(nm)), "calls %s" % nm, "%s (%s)" % (where, sp))
            name = cal.get("name")
            recv = args[0] if args else None
            if name in ITERS and recv is not None:
                tid = op_ty(p, f, recv)
                if tid is not None and hashty(p, tid) and not sunk(p, f, dst):
                    ctx.violation("hash order|%s|%s" % (where, name), "result may depend on unordered-map iteration order (%s)" % name,
                                  "%s (%s)" % (where, sp))
        for k in fn_values(p, f):
            g = p.fns.get(k)
            if g and DENY.search(g.get("path") or "") and not ALLOW.search(g.get("path") or ""):
                ctx.violation("value|%s|%s" % (where, g["path"]), "uses %s as a value" % g["path"], where)
        log_guard(ctx, p, f, where)
    ctx.extra["call_sites"] = n
    ctx.rules.append("deny list: " + DENY.pattern)


def is_ptr(p, o):
    tid = o[1][2] if o[0] in ("c", "m") else o[1]
    return p.types[tid]["k"] in ("ref", "ptr", "fnptr")


def op_ty(p, f, o):
    if o[0] in ("c", "m"):
        return o[1][2]
    if o[0] == "k":
        return o[1]
    return None


def uses_of(f, loc):
    out = []
    for i, b in enumerate(f["blocks"]):
        if b.get("cleanup"):
            continue
        t = b["t"]
        if t[0] == "call":
            for a in t[2]:
                if a[0] in ("c", "m") and a[1][0] == loc:
                    out.append(("call", t))
        for s in b["s"]:
            if mentions(s[1], loc):
                out.append(("asg", s))
    return out


def mentions(x, loc):
    if isinstance(x, list):
        if len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], list) and isinstance(x[2], int) and x[0] == loc:
            return True
        return any(mentions(y, loc) for y in x)
    return False


def sunk(p, f, dst, depth=0):
    """does this iterator only reach order-insensitive consumers?"""
    if depth > 8 or dst is None:
        return False
    us = uses_of(f, dst[0])
    if not us:
        return False
    for kind, u in us:
        if kind == "call":
            nm = u[1].get("name") if isinstance(u[1], dict) else None
            if nm in SINKS:
                continue
            if nm in ADAPT:
                if not sunk(p, f, u[3], depth + 1):
                    return False
                continue
            if nm == "collect":
                t = p.types[u[3][2]]
                last = (t.get("path") or "").rsplit("::", 1)[-1]
                if last in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
                    continue
            return False
        else:
            d = u[0]
            if d[1] or not sunk(p, f, d, depth + 1):
                return False
    return True


def log_guard(ctx, p, f, where):
    """blocks controlled by the log level may only format and log."""
    bl = f["blocks"]
    level = set()
    for i, cal, args, dst, tgt, sp in calls(f):
        if cal and (cal.get("path") or "").startswith("log::") and cal.get("name") in ("max_level", "enabled", "log_enabled"):
            level.add(dst[0])
        elif cal and (cal.get("path") or "").startswith("log::") and "STATIC_MAX" not in cal["path"]:
            pass
    if not level:
        return
    # taint: locals computed from the level
    ch = True
    while ch:
        ch = False
        for i, b in enumerate(bl):
            for s in b["s"]:
                if s[0][0] not in level and any(mentions(s[1], l) for l in level):
                    level.add(s[0][0])
                    ch = True
            t = b["t"]
            if t[0] == "call" and t[3] is not None and t[3][0] not in level and any(mentions(t[2], l) for l in level):
                if isinstance(t[1], dict) and (t[1].get("krate") in ("core", "std", "log", "alloc")):
                    level.add(t[3][0])
                    ch = True
    reach_memo = {}

    def reach(i):
        if i in reach_memo:
            return reach_memo[i]
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [y for y in succs(bl[x]) if y is not None]
        reach_memo[i] = seen
        return seen
    for i, b in enumerate(bl):
        t = b["t"]
        if t[0] != "switch" or b.get("cleanup") or not any(mentions(t[1], l) for l in level):
            continue
        ss = succs(b)
        common = None
        for s in ss:
            common = reach(s) if common is None else common & reach(s)
        ctx.ob()
        for s in ss:
            region = reach(s) - common
            inner = set()
            for x in region:
                for st in bl[x]["s"]:
                    inner.add(st[0][0])
                if bl[x]["t"][0] == "call":
                    inner.add(bl[x]["t"][3][0])
            if 0 in inner:
                ctx.violation("log level|" + where, "the result depends on the log level", bl[s].get("sp") or where)
            for x in region:
                for st in bl[x]["s"]:
                    if any(pr == "*" for pr in st[0][1]):
                        ctx.violation("log level|" + where, "state is written under a log-level test", st[2])
                tt = bl[x]["t"]
                if tt[0] == "ret":
                    ctx.violation("log level|" + where, "control leaves under a log-level test", bl[x].get("sp") or where)
                if tt[0] == "call" and isinstance(tt[1], dict):
                    for a in tt[2]:
                        tid = op_ty(p, f, a)
                        ty = p.types[tid] if tid is not None else None
                        if ty and ty["k"] == "ref" and ty["s"].startswith("&mut") and not re.search(r"fmt::|Formatter", ty["s"]):
                            ctx.violation("log level|" + where, "state can change under a log-level test", bl[x].get("sp") or where)
            # a user variable assigned in the region and read after it
            for l in inner:
                if l in level or not f["locals"][l].get("name"):
                    continue
                for x in common:
                    if any(mentions(st[1], l) for st in bl[x]["s"]) or mentions(bl[x]["t"], l):
                        ctx.violation("log level|" + where, "a value computed under a log-level test is used later", where)
                        break
