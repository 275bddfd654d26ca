"""C09: every parsing loop makes progress."""
import re
from specs.support import *
from graph import *

CRATES = ["llvm_bitcursor", "llvm_bitstream", "llvm_mapper", "llvm_support"]
RULE = ("On every turn of every loop met (back edges of MIR, and the loops inside iterator adapters) since the previous turn either input was consumed, an "
        "element of an in-memory sequence was handed out, or the frame's state changed without counting towards a number declared by the input (a range or a "
        "counter compared with an unbounded field value). A loop that comes back with identical state and no consumption is endless; one that counts to a "
        "declared number without consuming runs as long as the input says.")
FLOOR = {"partitions": 3000}


def judge(run):
    for what, site, grew in run.stalls:
        run.require(FALSE, what, where=site)
    for _ in run.loops:
        run.require(TRUE, "every turn consumes or advances")


def wanted(deep):
    def names(n):
        if deep:
            return True
        if re.search(r"C15: |C24: .*'(f|v)|\(next\)| after \[", n):
            return n.startswith("C05") and "C15: module [v" in n
        w = re.search(r"w=(\d+)", n)
        return not w or int(w.group(1)) in (6, 8, 32)
    return names


def check(ctx, progs):
    deep = ctx.tier != "quick"
    take_over(ctx, progs, ["c04", "c05"], judge, "ignore", names=wanted(deep), extra={"progress": True})
