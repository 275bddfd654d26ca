"""C18: only LLVM-legal types can be constructed; the predicates agree with LLVM's definitions."""
import itertools
from specs.support import *

CRATES = ["llvm_support"]
RULE = ("Abstract interpretation of every type constructor and predicate over types with unknown kind and contents (one symbolic "
        "discriminant per type argument), unknown widths, counts, address spaces, names and flags: acceptance must coincide with the "
        "set of kinds LLVM allows, and the constructed value must carry the arguments unchanged.")
FLOOR = {"partitions": 150}

FLOATS = ["Half", "BFloat", "Float", "Double", "X86Fp80", "Fp128", "PpcFp128"]
KINDS = FLOATS + ["Metadata", "Void", "Label", "X86Mmx", "X86Amx", "Token", "Integer", "Function", "Pointer", "OpaquePointer", "Struct",
                  "Array", "FixedVector", "ScalableVector"]
NO = {
    "pointee": ["Void", "Label", "Metadata", "Token", "X86Amx"],
    "array": ["Void", "Label", "Metadata", "Function", "Token", "X86Amx", "ScalableVector"],
    "struct": ["Void", "Label", "Metadata", "Function", "Token"],
    "argument": ["Function", "Void"],
    "return": ["Function", "Label", "Metadata"],
}
YES = {"vector": FLOATS + ["Integer", "Pointer", "OpaquePointer"], "floating": FLOATS, "integer": ["Integer"]}
MAXINT = (1 << 24) - 1


def check(ctx, progs):
    p = progs["llvm_support"]
    T = tyid(p, "ty::Type")
    for k in KINDS:
        if not any(v["name"] == k for v in p.types[T]["variants"]):
            raise Missing("type kind " + k)
    kinds = {v["name"] for v in p.types[T]["variants"]}
    extra = sorted(kinds - set(KINDS))

    def unknown(run, key):
        """reference to an unknown type; a vector's elements are legal vector elements"""
        r = run.symref(("type", key), T)
        v = run.deref(r)
        d = run.discr(v)
        if extra:       # kinds this rule does not know are left out
            run.assume(cnot(is_kind(run, T, d, extra)))
        return r, v, d

    DIS = {v["name"]: v["discr"] for v in p.types[T]["variants"]}

    def legal(run, d, rule):
        """is the kind with discriminant d allowed by the rule (splits as far as needed)"""
        if rule in YES:
            return cbool(any(run.decide(eq(d, K(DIS[k]))) for k in YES[rule]))
        return cbool(not any(run.decide(eq(d, K(DIS[k]))) for k in NO[rule]))

    def same(run, v, w):
        return run.veq(v, w)

    # ---------------------------------------------------------------- predicates
    def predicate(name, rule):
        def body(run):
            r, v, d = unknown(run, "t")
            got = truth(run, run.call_fn(fn(p, "ty::Type::" + name), [r]))
            fine = legal(run, d, rule)
            run.require(fine if got else cnot(fine), "%s holds for exactly LLVM's kinds" % name, where="Type::" + name)
        ctx.task("Type::" + name, p, body)
    for name, rule in (("is_floating", "floating"), ("is_integer", "integer"), ("is_pointee", "pointee"), ("is_array_element", "array"),
                       ("is_struct_element", "struct"), ("is_vector_element", "vector"), ("is_argument", "argument"), ("is_return", "return")):
        predicate(name, rule)

    def scalar(run):
        """(reference to an unknown type, its discriminant, its scalar type's value and discriminant)"""
        r, v, d = unknown(run, "t")
        for k in ("FixedVector", "ScalableVector"):
            if run.decide(is_kind(run, T, d, [k])):
                x = run.deref(run.resolve_enum(v).f[0])
                if isinstance(x, SymV):
                    x = run.expand(x)
                e = run.deref(field(run, x, "element_type"))
                run.assume(is_kind(run, T, run.discr(e), YES["vector"]))
                return r, d, e, run.discr(e)
        return r, d, v, d

    def scalar_type(run):
        r, d, e, ed = scalar(run)
        got = run.call_fn(fn(p, "ty::Type::scalar_type"), [r])
        run.require(same(run, got, e), "the scalar type is the element type of a vector and the type itself otherwise", where="Type::scalar_type")
    ctx.task("Type::scalar_type", p, scalar_type)

    def orvector(name, rule):
        def body(run):
            r, d, e, ed = scalar(run)
            got = truth(run, run.call_fn(fn(p, "ty::Type::" + name), [r]))
            fine = legal(run, ed, rule)
            run.require(fine if got else cnot(fine), "%s holds for exactly LLVM's kinds" % name, where="Type::" + name)
        ctx.task("Type::" + name, p, body)
    orvector("is_floating_or_floating_vector", "floating")
    orvector("is_integer_or_integer_vector", "integer")

    # ---------------------------------------------------------------- constructors
    def inner(run, v, kind):
        """the struct inside Ok(value) / Ok(Type::Kind(value))"""
        v = run.deref(v)
        if v.ty == T:
            v = run.resolve_enum(v)
            run.require(cbool(run.vname(v) == kind), "the constructed type is of the requested kind", where=kind)
            if run.vname(v) != kind:
                raise Infeasible()
            v = run.deref(v.f[0])
        return v

    def g(run, v, name):
        return run.deref(field(run, v, name))

    def integer(disp):
        def body(run):
            w = sym(("w",), 0, U32)
            ok, x = res(run, run.call_fn(fn(p, disp), [w]))
            inr = cand(le(ONE, w), le(w, K(MAXINT)))
            run.require(inr if ok else cnot(inr), "integer widths 1..2^24-1 are accepted, others rejected", where=disp)
            if ok:
                v = inner(run, x, "Integer")
                run.require(eq(newtype(run, v), w), "the integer type keeps its width", where=disp)
                ref = run.newref(v)
                run.require(eq(run.deref(run.call_fn(fn(p, "ty::IntegerType::bit_width"), [ref])), w), "bit_width is the width given", where="IntegerType::bit_width")
                by = run.deref(run.call_fn(fn(p, "ty::IntegerType::byte_width"), [ref]))
                run.require(cand(le(w, scale(by, 8)), lt(scale(by, 8), add(w, K(8)))), "byte_width is the width in bytes, rounded up", where="IntegerType::byte_width")
        ctx.task(disp, p, body)
    integer("ty::Type::new_integer")
    integer("<ty::IntegerType as std::convert::TryFrom<u32>>::try_from")

    def pointer(disp):
        def body(run):
            r, t, d = unknown(run, "t")
            a = run.mkval(("as",), tyid(p, "align::AddressSpace"))
            ok, x = res(run, run.call_fn(fn(p, disp), [t, a]))
            fine = legal(run, d, "pointee")
            run.require(fine if ok else cnot(fine), "pointers exist to exactly the pointee kinds", where=disp)
            if ok:
                v = inner(run, x, "Pointer")
                run.require(cand(same(run, g(run, v, "pointee"), t), same(run, g(run, v, "address_space"), a)), "the pointer type keeps its arguments", where=disp)
                run.require(same(run, run.call_fn(fn(p, "ty::PointerType::pointee"), [run.newref(v)]), t), "pointee() is the pointee given", where="PointerType::pointee")
        ctx.task(disp, p, body)
    pointer("ty::Type::new_pointer")
    pointer("ty::PointerType::new")

    def sized(disp, kind, rule, sty):
        def body(run):
            r, t, d = unknown(run, "t")
            n = sym(("n",), 0, U64)
            run.assume(le(ONE, n))
            ok, x = res(run, run.call_fn(fn(p, disp), [n, t]))
            fine = legal(run, d, rule)
            run.require(fine if ok else cnot(fine), "%s types have exactly the allowed element kinds" % kind, where=disp)
            if ok:
                v = inner(run, x, kind)
                run.require(cand(eq(g(run, v, "num_elements"), n), same(run, g(run, v, "element_type"), t)), "the %s type keeps its arguments" % kind, where=disp)
                run.require(same(run, run.call_fn(fn(p, "ty::%s::element" % sty), [run.newref(v)]), t), "element() is the element given", where=sty + "::element")
        ctx.task(disp, p, body)
    sized("ty::Type::new_array", "Array", "array", "ArrayType")
    sized("ty::ArrayType::new", "Array", "array", "ArrayType")
    sized("ty::Type::new_vector", "FixedVector", "vector", "VectorType")
    sized("ty::Type::new_scalable_vector", "ScalableVector", "vector", "VectorType")
    sized("ty::VectorType::new", "FixedVector", "vector", "VectorType")

    def array0(disp):
        def body(run):
            r, t, d = unknown(run, "t")
            ok, x = res(run, run.call_fn(fn(p, disp), [ZERO, t]))
            fine = legal(run, d, "array")
            run.require(fine if ok else cnot(fine), "empty arrays are legal", where=disp)
        ctx.task(disp + " of 0", p, body)
    array0("ty::Type::new_array")

    def seq(run, n):
        ts = [unknown(run, ("m", i)) for i in range(n)]
        return Seq([("e", t) for _, t, _ in ts], T), ts

    def seq_is(run, v, ts):
        if not isinstance(v, Seq):
            raise Unsupported("list %r" % (v,))
        if not run.decide(eq(run.seq_len(v), K(len(ts)))):
            return FALSE
        return cand(*[same(run, run.seq_get(v, K(i)), t) for i, (_, t, _) in enumerate(ts)])

    def struct(disp, n, name):
        def body(run):
            q, ts = seq(run, n)
            ty = p.bystr("std::option::Option<std::string::String>")
            s = run.mkval(("name",), tyid(p, "std::string::String"))
            nm = run.mk(ty, "Some", s) if name else run.mk(ty, "None")
            packed = ge0(sub(sym(("packed",), 0, 1), ONE))
            ok, x = res(run, run.call_fn(fn(p, disp), [nm, q, packed]))
            want = cbool(all(legal(run, d, "struct") is TRUE for _, _, d in ts))
            run.require(want if ok else cnot(want), "structs have exactly the allowed field kinds", where=disp)
            if ok:
                v = inner(run, x, "Struct")
                run.require(cand(opt_is(run, g(run, v, "name"), s if name else None), seq_is(run, g(run, v, "fields"), ts)), "the struct type keeps its name and fields", where=disp)
                pk = truth(run, g(run, v, "is_packed"))
                run.require(packed if pk else cnot(packed), "the struct type keeps its packed flag", where=disp)
        ctx.task("%s of %d%s" % (disp, n, " named" if name else ""), p, body)

    def function(disp, n):
        def body(run):
            q, ts = seq(run, n)
            r, t, d = unknown(run, "ret")
            va = ge0(sub(sym(("vararg",), 0, 1), ONE))
            ok, x = res(run, run.call_fn(fn(p, disp), [t, q, va]))
            want = cbool(legal(run, d, "return") is TRUE and all(legal(run, e, "argument") is TRUE for _, _, e in ts))
            run.require(want if ok else cnot(want), "functions have exactly the allowed return and parameter kinds", where=disp)
            if ok:
                v = inner(run, x, "Function")
                run.require(cand(same(run, g(run, v, "return_type"), t), seq_is(run, g(run, v, "param_types"), ts)), "the function type keeps its signature", where=disp)
                b = truth(run, g(run, v, "is_vararg"))
                run.require(va if b else cnot(va), "the function type keeps its vararg flag", where=disp)
        ctx.task("%s of %d" % (disp, n), p, body)
    for n in range(0, 4 if ctx.tier == "quick" else 7):
        for d in ("ty::Type::new_struct", "ty::StructType::new"):
            struct(d, n, n % 2 == 1)
            struct(d, n, n % 2 == 0)
        for d in ("ty::Type::new_function", "ty::FunctionType::new"):
            function(d, n)
