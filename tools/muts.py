#!/usr/bin/env python3
"""dev helper: run a list of mutations in parallel. usage: muts.py FILE.py   (FILE defines M = [(file, old, new, "ID ID"), ...])"""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def one(i, m):
    f, old, new, ids = m
    env = dict(os.environ, MOLLINT_JOBS="2", MOLLINT_STOP="1")
    r = subprocess.run(["/verif/tools/mut.py", f, old, new] + ids.split(), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o = [l[:230] for l in r.stdout.splitlines()]
    rc = [l for l in o if " rc=" in l]
    head = "%2d %s %-45s" % (i, " ".join(rc) or "??", repr(new)[:90])
    v = [l for l in o if l.startswith("  ")][:2]
    return head + ("\n" + "\n".join(v) if v else "\n" + "\n".join(o[-3:]))
J = [(i, m) for i, m in enumerate(ns["M"]) if not only or str(i) in only]
with ThreadPoolExecutor(4) as ex:
    for s in ex.map(lambda a: one(*a), J):
        print(s, flush=True)
