#!/usr/bin/env python3
"""dev helper: build and validate planted bugs. usage: mkseed.py FILE.py [id ...]
FILE defines S = [dict(id=, prop=, edits=[(file, old, new), ...], needs=, breaks=, demo=<rust>), ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BITS = open(os.path.join(HERE, "tools", "seeds", "bits.rs")).read()
DEMO = r'''#!/bin/bash
# builds demo.rs against the crates in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'find "$d" -delete' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/" || exit 3
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
llvm-bitcursor = { path = "$repo/llvm-bitcursor", features = ["vbr"] }
llvm-bitstream = { path = "$repo/llvm-bitstream" }
llvm-support = { path = "$repo/llvm-support" }
llvm-mapper = { path = "$repo/llvm-mapper" }
log = { version = "*", features = ["std"] }
EOF
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER=
cd "$d" && cargo build --offline --quiet || exit 3
timeout 60 "$d/target/debug/demo"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(s):
    out = os.path.join(HERE, "seeded", s["id"])
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        sh("cp -a /repo/. %s/" % d, "/")
        st = os.path.join(d, ".stage"); os.makedirs(st)
        open(st + "/demo.rs", "w").write(BITS + "\n" + s["demo"])
        open(st + "/demo.sh", "w").write(DEMO); os.chmod(st + "/demo.sh", 0o755)
        r0 = sh("bash .stage/demo.sh", d)
        if r0.returncode != 0:
            return "%s: demo fails on the unchanged tree\n%s" % (s["id"], r0.stdout[-1500:])
        base = sh("git blame -s -l 10e5158 -- x; git rev-parse HEAD", d)
        for f, old, new in s["edits"]:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(old) != 1:
                return "%s: pattern occurs %d times in %s: %r" % (s["id"], t.count(old), f, old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run("git diff", cwd=d, shell=True, stdout=subprocess.PIPE, text=True).stdout
        t = sh("CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable cargo test --workspace --offline 2>&1 | grep -E '^test result|FAILED|^error' ", d)
        if "FAILED" in t.stdout or "error" in t.stdout or "test result: ok" not in t.stdout:
            return "%s: tests notice\n%s" % (s["id"], t.stdout[-800:])
        r1 = sh("bash .stage/demo.sh", d)
        if r1.returncode in (0, 3):
            return "%s: demo rc=%d with the change\n%s" % (s["id"], r1.returncode, r1.stdout[-800:])
        # lines removed must be of the original repository
        if os.path.exists(out): shutil.rmtree(out)
        os.makedirs(out)
        for n in ("demo.rs", "demo.sh"): shutil.copy2(st + "/" + n, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return "%s: ok" % s["id"]
    finally:
        shutil.rmtree(d)

with ThreadPoolExecutor(4) as ex:
    for m in ex.map(one, [s for s in ns["S"] if not only or s["id"] in only]):
        print(m, flush=True)
