#!/usr/bin/env python3
"""dev helper: apply a textual replacement to a scratch copy of /repo and run checks there.
usage: mut.py FILE 'old' 'new' ID [ID..]"""
import os, subprocess, sys, tempfile, shutil
f, old, new, *ids = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    subprocess.check_call(["bash", "-c", "cd /repo && git archive HEAD | tar x -C %s" % d])
    p = os.path.join(d, f)
    s = open(p).read()
    if s.count(old) < 1:
        sys.exit("pattern not found")
    open(p, "w").write(s.replace(old, new, 1))
    for i in ids:
        env = dict(os.environ, MOLLINT_REPO=d, MOLLINT_OUT=d + "/.o")
        r = subprocess.run(["python3", "/verif/check.py", i], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(i, "rc=%d" % r.returncode)
        print("\n".join(l[:220] for l in r.stdout.splitlines()[-16:]))
finally:
    shutil.rmtree(d)
