"""C10: block scopes and abbreviation visibility follow the stream."""
from core import *
from tape import *
from specs.stream import *

CRATES = ["llvm_bitstream"]
RULE = ("Abstract interpretation of the MIR of Bitstream::from_raw and advance over a bit tape of unknown length and "
        "content, restricted per harness to one sequence of item kinds (enter, end, define, unabbreviated, "
        "abbreviated); next to it the block-scope semantics is evaluated on the same tape, and entries, errors, end of "
        "data and positions must agree on every partition. Histories: every sequence of the listed lengths over the item kinds.")
FLOOR = {"partitions": 300}


def check(ctx, progs):
    p = progs["llvm_bitstream"]
    for name, steps in histories(ctx.tier):
        k = len(steps) - 1
        stars = sum(1 for s in steps if not s)
        lim = 4 if name in ("history *", "history B*", "history I*") or not stars or ctx.tier != "quick" else 2
        nx = (False, True) if name in ("history BX*", "history *", "history B*") else (False,)
        for n in nx:
            ctx.task(name + (" (next)" if n else ""), p,
                     (lambda s, k, lim, n: lambda run: play(run, p, s, "history", k, lim, n))(steps, k, lim, n), dict(HOPTS))


def histories(tier):
    out = []
    B = dict(kind="enter", width=0, id=None)
    I = dict(kind="enter", width=0, id=ZERO)
    D = dict(kind="define", ops=[("lit",)])
    X = dict(kind="end")
    S = dict(kind="unabbrev", code=1, nops=1)
    U = dict(kind="unabbrev", nops=0)
    A = lambda k: dict(kind=k)
    E = dict(kind="define", ops=[("lit", 1), ("vbr", 6)])       # can encode a SETBID
    F = dict(kind="define", ops=[("lit",), ("vbr", 6)])
    names = {"B": B, "I": I, "D": D, "X": X, "S": S, "U": U, "E": E, "F": F, "0": A(0), "1": A(1), "2": A(2), "*": {}}
    texts = ["*", "B*", "I*", "BX*", "BB*", "BD*", "BD0*", "BDD0", "BDD1", "BDD2", "BDDD2", "BDX*", "BDXB0", "BDB0", "BDBX0", "BDBDX1",
             "BBDX0", "BBDXB0", "BDBDX0", "BDBD0", "IX*", "ID", "ISD*", "ISDXB0", "ISDXB1", "ISDDXB1", "ISDXBD1", "ISDXBD0", "ISDSDXB0",
             "ISDSDXB1", "ISDXISDXB1", "ISDXIDX", "ISDXIXB0", "ISDXBXB0", "ISDXBB0", "BISDX0", "BISDXX*", "BISDXB0", "ISDD0*", "IS0",
             "IU*", "IB", "IX", "BUU", "BXU", "BXX", "XB", "U", "0", "D", "BU*", "BB*X", "IBD", "ISDXBDBD1", "ISDXBDBD2", "ISDSDDXB2",
             "BXBX*", "BBXX*", "BBXXX", "ISSDXB0", "ISIX", "ISDX0", "BDID", "BDISX0", "BISDXBD1",
             "ISEXI0", "ISFXI0", "ISEXI0DXB0", "ISEXIS0DXB0", "ISEXI0SDXB0", "ISEXI0X*"]
    import itertools
    for n in (2, 3, 4):
        for t in itertools.product("BDX0", repeat=n):
            texts.append("B" + "".join(t))
    for n in (2, 3):
        for t in itertools.product("SDXB0", repeat=n):
            texts.append("IS" + "".join(t))
    if tier != "quick":
        for n in (2, 3, 4):
            for t in itertools.product("SDXB01", repeat=n):
                texts.append("IS" + "".join(t))
    seen = set()
    for t in texts:
        if t in seen:
            continue
        seen.add(t)
        out.append(("history " + t, [names[ch] for ch in t]))
    return out
