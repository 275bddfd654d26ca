"""C08: memory requests are bounded by data actually present."""
from specs.support import *
from specs.c09 import wanted

CRATES = ["llvm_bitcursor", "llvm_bitstream", "llvm_mapper", "llvm_support"]
RULE = ("Every reservation met (with_capacity, reserve, vec![x; n], resize) asks for at most 2^20 elements, or at most a constant more than the length of the "
        "data present (the buffer's bits, the lengths of the sequences in memory), for every value of the fields; and no loop adds elements to a container "
        "while counting to a number declared by the input without consuming input.")
FLOOR = {"partitions": 3000}
CONST = 1 << 20


def judge(run):
    for what, site, grew in run.stalls:
        if grew:
            run.require(FALSE, what + " and stores something on every turn", where=site)
    for e in run.events:
        if e[0] == "alloc" and isinstance(e[1], Lin):
            n = e[1]
            lens = [i for i, a in enumerate(ATOMS) if a.kind == "sym" and (a.args == "words" or isinstance(a.args, tuple) and a.args[:1] == ("len",))]
            room = K(CONST)
            for i in lens:
                room = add(room, Lin(0, ((i, 8 if ATOMS[i].args != "words" else 32),)))
            run.require(cor(le(n, K(CONST)), le(n, room)), "a reservation is bounded by the data present", where=e[2])


def check(ctx, progs):
    take_over(ctx, progs, ["c04", "c05"], judge, "ignore", names=wanted(ctx.tier != "quick"), extra={"progress": True})
