"""Dump acquisition, obligation bookkeeping, evidence, verdicts."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

import interp
import models
import witness
from interp import *
from terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MOLLINT_REPO", "/repo")
CRATES = ["llvm_bitcursor", "llvm_bitstream", "llvm_support", "llvm_mapper"]


class BuildError(Exception):
    pass


def _sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver():
    d = os.path.join(VERIF, "driver")
    exe = os.path.join(d, "target", "debug", "molldump")
    srcs = [os.path.join(d, "Cargo.toml")] + glob.glob(os.path.join(d, "src", "*.rs"))
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in srcs):
        return exe
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(exe):
        raise BuildError("driver does not build:\n" + r.stdout[-3000:])
    return exe


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in glob.glob(os.path.join(VERIF, "driver", "src", "*.rs")):
        h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def dump(crates=CRATES):
    """MIR dumps of /repo's current sources: {crate: Prog}."""
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    dev = os.environ.get("MOLLINT_DEV")
    key = tree_hash()
    out = os.path.join(cache, "dump-" + key) if dev else os.path.join(cache, "dump-%d" % os.getpid())
    have = lambda: all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES)
    if not (dev and have()):
        exe = build_driver()
        shutil.rmtree(out, ignore_errors=True)
        tgt = os.path.join(cache, "tgt-%d" % os.getpid())
        shutil.rmtree(tgt, ignore_errors=True)
        os.makedirs(out)
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = os.path.join(_sysroot(), "lib") + ":" + env.get("LD_LIBRARY_PATH", "")
        env["RUSTFLAGS"] = ("-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Awarnings "
                            "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums")
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["MOLLDUMP_CRATES"] = ",".join(CRATES)
        env["MOLLDUMP_OUT"] = out
        env.pop("CARGO_TARGET_DIR", None)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--quiet", "--workspace", "--lib",
                            "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", tgt],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           cwd=REPO)
        shutil.rmtree(tgt, ignore_errors=True)
        if r.returncode or not have():
            raise BuildError("analysis build failed:\n" + r.stdout[-3000:])
    progs = {}
    for c in crates:
        with open(os.path.join(out, c + ".json")) as fh:
            progs[c] = Prog(json.load(fh))
    if not dev:
        shutil.rmtree(out, ignore_errors=True)
    return progs


# ------------------------------------------------------------------ lookup of functions

class Missing(Exception):
    pass


def norm_disp(d):
    return strip_generics(d)


def _index(prog):
    ix = getattr(prog, "_dispix", None)
    if ix is None:
        ix = {}
        for f in prog.d["fns"]:
            if f.get("has_body"):
                ix.setdefault(f["disp"], []).append(f)
        prog._dispix = ix
        prog._normix = {}
        for d, fs in ix.items():
            for f in fs:
                prog._normix.setdefault(norm_disp(d), []).append(f)
    return ix


def fn(prog, disp, private=False):
    """function by displayed path (exact, else ignoring generic arguments); a private one may be gone without an alarm."""
    ix = _index(prog)
    r = ix.get(disp)
    if not r:
        r = prog._normix.get(norm_disp(disp))
    if not r:
        raise Unsupported("no function " + disp) if private else Missing(disp)
    return r[0]


def tyid(prog, s):
    try:
        return prog.bystr(s)
    except KeyError:
        raise Missing("type " + s)


# ------------------------------------------------------------------ context

class Ctx:
    """Collects what one check analysed and what it found."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = []          # dict(key, what, where, detail)
        self.undecided = []
        self.tasks = []
        self.counts = {"partitions": 0, "obligations": 0, "proved": 0, "refuted": 0, "undecided": 0}
        self.fns = set()
        self.rules = []
        self.extra = {}
        self.deadline = None

    # -------- structural findings
    def violation(self, key, what, where=None, detail=None):
        if not any(v["key"] == key for v in self.viol):
            self.viol.append({"key": key, "what": what, "where": where, "detail": detail})

    def ob(self, n=1, proved=True):
        self.counts["obligations"] += n
        if proved:
            self.counts["proved"] += n

    # -------- abstract-interpretation tasks
    def task(self, name, prog, body, opts=None, panics="violation", max_paths=60000, budget=None):
        self.tasks.append((name, prog, body, opts or {}, panics, max_paths, budget))

    def run_tasks(self, jobs=None):
        jobs = jobs or int(os.environ.get("MOLLINT_JOBS", "8"))
        if self.tasks:
            global _TASKS, _PROP, _DEADLINE
            _TASKS, _PROP, _DEADLINE = self.tasks, self.prop, self.deadline
            stop = 1 if os.environ.get("MOLLINT_STOP") else 60       # enough to report; the rest of the harnesses is not needed
            import gc
            import multiprocessing as mp
            gc.collect()
            gc.freeze()         # the loaded program is shared by all workers: keep collections in them away from it
            with mp.get_context("fork").Pool(max(1, min(jobs, len(self.tasks))), maxtasksperchild=1) as pool:
                # one process per task: the symbols of one harness never meet those of another
                for i, res in pool.imap_unordered(_run_index, range(len(self.tasks))):
                    self._merge(self.tasks[i][0], res)
                    if len(self.viol) >= stop:
                        self.extra["stopped_early"] = True
                        break
        self.tasks = []

    def _merge(self, name, r):
        for k in ("partitions", "obligations", "proved", "refuted", "undecided"):
            self.counts[k] += r[k]
        self.fns |= set(r["fns"])
        for v in r["viol"]:
            self.violation(v["key"], v["what"], v["where"], v["detail"])
        self.undecided += r["und"]
        self.extra.setdefault("harnesses", {})[name] = {
            "partitions": r["partitions"], "obligations": r["obligations"], "proved": r["proved"],
            "undecided": r["undecided"], "cut": r["cut"], "seconds": round(r["secs"], 2)}


class Collect:
    """Stands in for Ctx to take over the harnesses of other checks (their bodies, not their requirements)."""

    def __init__(self, tier):
        self.tier, self.tasks, self.counts, self.rules, self.extra = tier, [], {}, [], {}
        self.fns, self.undecided, self.deadline = set(), [], None

    def task(self, name, prog, body, opts=None, panics="violation", max_paths=60000, budget=None):
        self.tasks.append((name, prog, body, opts or {}, panics, max_paths, budget))

    def ob(self, n=1, proved=True):
        pass

    def violation(self, *a, **k):
        pass


def take_over(ctx, progs, mods, judge, panics, tier=None, names=None, keep=False, extra=None):
    """run the harnesses of other property modules under another rule: judge(run, outcome-or-None) after (or at a panic in) each."""
    import importlib
    for m in mods:
        mod = importlib.import_module("specs." + m)
        c = Collect(tier or ctx.tier)
        mod.check(c, progs)
        for name, prog, body, opts, _, mp, budget in c.tasks:
            if names and not names(name):
                continue

            def wrapped(run, body=body):
                try:
                    return body(run)
                finally:
                    if not keep:
                        run.reqs[:] = []
                    if judge:
                        judge(run)
            ctx.task("%s: %s" % (m.upper(), name), prog, wrapped, dict(opts, **(extra or {})), panics, mp, budget)


_TASKS = None
_PROP = None
_DEADLINE = None


def _run_index(i):
    sys.setrecursionlimit(20000)
    try:
        return i, _run_task(_TASKS[i], _PROP, _DEADLINE)
    except Exception:
        return i, dict(partitions=0, obligations=0, proved=0, refuted=0, undecided=1, fns=[], viol=[], cut=0, secs=0,
                       und=[{"task": _TASKS[i][0], "what": "analysis error", "where": traceback.format_exc()[-1500:]}])


def _facts_text(run, n=14):
    return [repr(c) for c in run.facts.order][-n:]


def clean_site(s):
    """function part of a site, without positions (stable across unrelated edits)."""
    return s.split(" @ ")[0]


def _run_task(t, prop, deadline):
    name, prog, body, opts, panics, max_paths, budget = t
    t0 = time.time()
    res = dict(partitions=0, obligations=0, proved=0, refuted=0, undecided=0, fns=[], viol=[], cut=0, und=[], secs=0)
    opts = dict(opts)
    opts["fns_seen"] = set()
    opts["sites"] = set()
    dl = deadline
    if budget:
        dl = min(dl or 1e18, time.time() + budget)
    seen = set()
    kinds = {}
    wit_budget = [40.0]      # seconds
    tries = {}

    def und(what, where):
        res["undecided"] += 1
        k = (what, where)
        if k not in seen:
            seen.add(k)
            if len(res["und"]) < 40:
                res["und"].append({"task": name, "what": what, "where": where})

    def report(run, what, where, extra, negated):
        key = "%s|%s|%s" % (name, what, clean_site(where))
        if any(v["key"] == key for v in res["viol"]):
            return
        if run.approx:
            und(what + " (after approximation)", where)
            return
        tries[key] = tries.get(key, 0) + 1
        if wit_budget[0] <= 0 or tries[key] > 8:
            und(what + " (no concrete member looked for)", where)
            return
        t1 = time.process_time()
        conds = list(run.facts.conds) + ([negated] if negated is not None else [])
        env = witness.find(conds, secs=min(5.0, wit_budget[0]))
        wit_budget[0] -= time.process_time() - t1
        if env is None:
            und(what + " (no concrete member found)", where)
            return
        res["refuted"] += 1
        res["viol"].append({"key": key, "what": "%s: %s" % (name, what), "where": where,
                            "detail": {"partition": _facts_text(run), "member": witness.describe(env),
                                       "more": extra}})

    try:
        for o in explore(prog, body, opts, max_paths, dl):
            k = o.kind
            kinds[k] = kinds.get(k, 0) + 1
            if k == "infeasible":
                continue
            if k == "limit":
                und("partition limit reached (%s left)" % o.info, name)
                continue
            res["partitions"] += 1
            run = o.run
            if k == "unsupported":
                und("not modelled: %s" % o.info, run.site())       # obligations collected before still count
            if k == "cut":
                res["cut"] += 1
                # obligations collected before the cut still count
            if k == "panic":
                res["obligations"] += 1
                if panics == "violation":
                    p = o.info
                    report(run, "can panic (%s)" % p.kind, p.site, [list(x) for x in p.stack], None)
                elif panics == "ignore":
                    res["proved"] += 1
                continue
            for ok, what, cond, kw in run.reqs:
                res["obligations"] += 1
                if ok is True:
                    res["proved"] += 1
                    continue
                where = kw.get("where") or name
                neg_ = None if ok is False else cnot(cond)
                report(run, what, where, kw.get("detail"), neg_)
            if k == "ret" and panics != "ignore":
                res["obligations"] += 1
                res["proved"] += 1
    except Missing as m:
        res["viol"].append({"key": "%s|missing %s" % (name, m), "what": "anchor missing: %s" % m, "where": str(m),
                            "detail": None})
    res["fns"] = sorted(opts["fns_seen"])
    res["secs"] = time.time() - t0
    res["kinds"] = kinds
    if os.environ.get("MOLLINT_VERBOSE"):
        print("%-40s %s ob=%d ok=%d und=%d viol=%d %.1fs" % (name, kinds, res["obligations"], res["proved"],
                                                            res["undecided"], len(res["viol"]), res["secs"]), file=sys.stderr)
    return res


# ------------------------------------------------------------------ verdict

def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                m = re.match(r"known: property=(\S+) key=<(.*?)> (.*)$", line)
                if m:
                    out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(ctx, t0, level, rule):
    kf = known_findings()
    new = []
    for v in ctx.viol:
        k = (ctx.prop, v["key"])
        known = kf.get(k) or next((x for (pr, key), x in kf.items() if pr == ctx.prop and key.endswith("*") and v["key"].startswith(key[:-1])), None)
        if known:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known))
        else:
            new.append(v)
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    for old in glob.glob(os.path.join(rd, ctx.prop + "-*.json")):
        os.unlink(old)
    for i, v in enumerate(new[:20]):
        p = os.path.join(rd, "%s-%d.json" % (ctx.prop, i))
        with open(p, "w") as fh:
            json.dump(v, fh, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
        print("  %s\n  at %s" % (v["what"], v["where"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = make_evidence(ctx, new, level, rule, time.time() - t0)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as fh:
        text = json.dumps(ev, indent=1, default=str)
        fh.write(text if len(text) < 900000 else json.dumps(ev, default=str))
    c = ctx.counts
    print("%s: %d obligations, %d discharged, %d undecided, %d violations; %d partitions, %d functions; %.1fs"
          % (ctx.prop, c["obligations"], c["proved"], c["undecided"], len(new), c["partitions"], len(ctx.fns),
             time.time() - t0))
    return 1 if new else 0


def make_evidence(ctx, new, level, rule, secs):
    c = ctx.counts
    cov = {
        "explanation": rule,
        "obligations": c["obligations"],
        "discharged": c["proved"],
        "undecided": c["undecided"],
        "partitions": c["partitions"],
        "functions_analysed": len(ctx.fns),
        "functions": sorted(ctx.fns)[:400],
        "violations": len(new),
        "undecided_items": ctx.undecided[:40],
        "rules": ctx.rules,
    }
    cov.update(ctx.extra)
    hs = cov.get("harnesses")
    if isinstance(hs, dict) and len(hs) > 300:
        # one line per group of harnesses, to keep the evidence file small
        small = {}
        for name, h in hs.items():
            g = small.setdefault(" ".join(re.sub(r"[^\w:.<> ]", "", name).split()[:2])[:60], {"harnesses": 0})
            g["harnesses"] += 1
            for k, x in h.items():
                if isinstance(x, (int, float)):
                    g[k] = round(g.get(k, 0) + x, 2)
        if len(small) > 300:
            total = {"harnesses": len(hs)}
            for h in small.values():
                for k, x in h.items():
                    if k != "harnesses":
                        total[k] = round(total.get(k, 0) + x, 2)
            small = {"all": total}
        cov["harnesses"] = small
    return {"property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level, "coverage": cov, "wall_s": round(secs, 2)}
