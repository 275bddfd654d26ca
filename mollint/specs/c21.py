"""C21: opcodes are chosen by code and operand type together."""
from specs.support import *

CRATES = ["llvm_support"]
RULE = ("Abstract interpretation of the opcode conversions over every 64-bit code (symbolic) and an operand type of unknown kind and contents "
        "(vectors with unknown elements included): the opcode or error must be the one LLVM's table gives for that code and scalar kind.")
FLOOR = {"partitions": 60}
FLOATS = ["Half", "BFloat", "Float", "Double", "X86Fp80", "Fp128", "PpcFp128"]
TABLE = {0: ("Add", "FAdd"), 1: ("Sub", "FSub"), 2: ("Mul", "FMul"), 3: ("UDiv", None), 4: ("SDiv", "FDiv"), 5: ("URem", None),
         6: ("SRem", "FRem"), 7: ("Shl", None), 8: ("LShr", None), 9: ("AShr", None), 10: ("And", None), 11: ("Or", None), 12: ("Xor", None)}


def check(ctx, progs):
    p = progs["llvm_support"]
    T = tyid(p, "ty::Type")
    DIS = {v["name"]: v["discr"] for v in p.types[T]["variants"]}

    def among(run, d, names):
        return any(run.decide(eq(d, K(DIS[k]))) for k in names if k in DIS)

    def kind(run, v):
        """'fp' / 'int' / None: what the scalar type is"""
        d = run.discr(v)
        if among(run, d, FLOATS):
            return "fp"
        if among(run, d, ["Integer"]):
            return "int"
        if among(run, d, ["FixedVector", "ScalableVector"]):
            x = run.deref(run.resolve_enum(v).f[0])
            if isinstance(x, SymV):
                x = run.expand(x)
            e = run.discr(run.deref(field(run, x, "element_type")))
            run.assume(is_kind(run, T, e, FLOATS + ["Integer", "Pointer", "OpaquePointer"]))
            return "fp" if among(run, e, FLOATS) else "int" if among(run, e, ["Integer"]) else None
        return None

    BIN = "<opcode::BinaryOp as std::convert::TryFrom<(u64, &ty::Type)>>::try_from"

    def binary(run):
        t = run.symref(("type",), T)
        k = kind(run, run.deref(t))
        code = sym(("code",), 0, U64)
        f = fn(p, BIN)
        arg = Agg(f["locals"][1]["ty"], 0, [code, t])
        ok, x = res(run, run.call_fn(f, [arg]))
        want = None
        for c, (i, fp) in TABLE.items():
            if run.decide(eq(code, K(c))):
                want = i if k == "int" else fp if k == "fp" else None
                break
        run.accept(ok, want is not None, "a binary opcode is accepted exactly for operand types it is defined on", where="BinaryOp::try_from")
        if ok and want is not None:
            run.require(cbool(ename(run, x) == want), "the binary opcode is the one for this code and operand type", where="BinaryOp::try_from")
    ctx.task("binary opcode", p, binary)

    def unary(run):
        code = sym(("code",), 0, U64)
        ok, x = res(run, run.call_fn(fn(p, "<opcode::UnaryOp as std::convert::TryFrom<u64>>::try_from"), [code]))
        want = run.decide(eq(code, ZERO))
        run.accept(ok, want, "the only unary opcode is 0", where="UnaryOp::try_from")
        if ok and want:
            run.require(cbool(ename(run, x) == "FNeg"), "unary opcode 0 is fneg", where="UnaryOp::try_from")
    ctx.task("unary opcode", p, unary)
