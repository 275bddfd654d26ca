"""C25: no failure is swallowed."""
import re
from specs.support import *

CRATES = ["llvm_bitcursor", "llvm_bitstream", "llvm_mapper", "llvm_support"]
RULE = ("On every partition in which the reference says that a lower-level step fails (a read past the data, a malformed item, an out-of-range or unknown "
        "field, a failed lookup, conversion or nested mapping), the code's result must be an error: never a value, never None, never the normal end of the "
        "data, which may be reported only when no data remains. Partitions in which every step succeeds are not judged here (that is C01-C24).")
FLOOR = {"partitions": 3000}


def check(ctx, progs):
    deep = ctx.tier != "quick"

    def names(n):
        if deep:
            return True
        if n.startswith("layout"):
            return "-" in n
        w = re.search(r"w=(\d+)", n)        # variable-width integers: the widths the format uses, and the widest
        return not w or int(w.group(1)) in (4, 5, 6, 8, 32)
    take_over(ctx, progs, ["c03", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c19", "c28", "c24"], None, "ignore",
              names=names, keep=True, extra={"failures_only": True})
