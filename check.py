#!/usr/bin/env python3
"""Decide one property from /repo's current source:  check.py <property> [quick|thorough]"""
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mollint"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    import core
    ctx = core.Ctx(prop, tier)
    ctx.deadline = t0 + (780 if tier == "quick" else 3 * 3600)
    mod = importlib.import_module("specs." + prop.lower())
    try:
        progs = core.dump(getattr(mod, "CRATES", core.CRATES))
    except core.BuildError as e:
        print(str(e), file=sys.stderr)
        return 2
    try:
        mod.check(ctx, progs)
        ctx.run_tasks()
        if hasattr(mod, "after"):
            mod.after(ctx, progs)
    except core.Unsupported as m:
        ctx.undecided.append({"task": prop, "what": "not modelled: %s" % m, "where": prop})
        ctx.counts["undecided"] += 1
    except core.Missing as m:
        ctx.violation("anchor|%s" % m, "a construct the property is anchored in is gone: %s" % m, str(m))
    floor = getattr(mod, "FLOOR", None)
    if floor:
        for k, n in floor.items():
            if ctx.counts[k] < n and not ctx.viol and not ctx.undecided:
                ctx.violation("floor|%s" % k, "only %d %s analysed, at least %d expected: the analysis lost its subject"
                              % (ctx.counts[k], k, n), "analysis floor")
    return core.finish(ctx, t0, "other", mod.RULE)


if __name__ == "__main__":
    sys.exit(main())
