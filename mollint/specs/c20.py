"""C20: every on-disk code maps to its LLVM meaning."""
from specs.support import *

CRATES = ["llvm_support", "llvm_bitstream", "llvm_mapper"]
RULE = ("Abstract interpretation of every code conversion over every 64-bit integer (symbolic): each number LLVM assigns must give the variant of "
        "that meaning, every other number the documented default or, where there is none, an error or a variant not in the table.")
FLOOR = {"partitions": 150}

# First number of a run of consecutive codes -> the variants they mean (LLVMBitCodes.h, BitCodeEnums.h, CallingConv.h, Attributes).
CODES = {
    "ReservedBlockId": {0: "BlockInfo Reserved1 Reserved2 Reserved3 Reserved4 Reserved5 Reserved6 Reserved7"},
    "IrBlockId": {
        8: "Module ParamAttr ParamAttrGroup Constants Function Identification ValueSymtab Metadata MetadataAttachment Type Uselist ModuleStrtab "
           "GlobalValSummary OperandBundleTags MetadataKind Strtab FullLtoGlobalValSummary Symtab SyncScopeNames",
    },
    "ReservedAbbrevId": {0: "EndBlock EnterSubBlock DefineAbbrev UnabbrevRecord"},
    "AbbrevOpEnc": {1: "Fixed Vbr Array Char6 Blob"},
    "BlockInfoCode": {1: "SetBid BlockName SetRecordName"},
    "IdentificationCode": {1: "ProducerString Epoch"},
    "ModuleCode": {
        1: "Version Triple DataLayout Asm SectionName DepLib GlobalVar Function AliasOld",
        11: "GcName Comdat VstOffset Alias MetadataValuesUnused SourceFilename Hash IFunc",
    },
    "TypeCode": {
        1: "NumEntry Void Float Double Label Opaque Integer Pointer FunctionOld Half Array Vector X86Fp80 Fp128 PpcFp128 Metadata X86Mmx StructAnon "
           "StructName StructNamed Function Token BFloat X86Amx OpaquePointer",
    },
    "StrtabCode": {1: "Blob"},
    "SymtabCode": {1: "Blob"},
    "AttributeCode": {1: "EntryOld Entry GroupCodeEntry"},
    "FunctionCode": {
        1: "DeclareBlocks InstBinop InstCast InstGepOld InstSelect InstExtractelt InstInsertelt InstShufflevec InstCmp InstRet InstBr InstSwitch "
           "InstInvoke",
        15: "InstUnreachable InstPhi",
        19: "InstAlloca InstLoad",
        23: "InstVaarg InstStoreOld",
        26: "InstExtractval InstInsertval InstCmp2 InstVselect InstInboundsGepOld InstIndirectbr",
        33: "DebugLocAgain InstCall DebugLoc InstFence InstCmpxchgOld InstAtomicrmwOld InstResume InstLandingpadOld InstLoadatomic InstStoreatomicOld "
           "InstGep InstStore InstStoreatomic InstCmpxchg InstLandingpad InstCleanupret InstCatchret InstCatchpad InstCleanuppad InstCatchswitch",
        55: "OperandBundle InstUnop Instcallbr InstFreeze InstAtomicrmw",
    },
    "UnaryOpcode": {0: "FNeg"},
    "BinaryOpcode": {0: "Add Sub Mul UDiv SDiv URem SRem Shl LShr AShr And Or Xor"},
    "RMWOperation": {0: "Xchg Add Sub And Nand Or Xor Max Min UMax UMin FAdd FSub"},
    "AttributeKind": {0: "Enum IntKeyValue", 3: "StrKey StrKeyValue"},
    "AttributeId": {
        1: "Alignment AlwaysInline ByVal InlineHint InReg MinSize Naked Nest NoAlias NoBuiltin NoCapture NoDuplicate NoImplicitFloat NoInline "
           "NonLazyBind NoRedZone NoReturn NoUnwind OptimizeForSize ReadNone ReadOnly Returned ReturnsTwice SExt StackAlignment StackProtect "
           "StackProtectReq StackProtectStrong StructRet SanitizeAddress SanitizeThread SanitizeMemory UwTable ZExt Builtin Cold OptimizeNone InAlloca "
           "NonNull JumpTable Dereferenceable DereferenceableOrNull Convergent SafeStack ArgMemOnly SwiftSelf SwiftError NoRecurse InaccessiblememOnly "
           "InaccessiblememOrArgmemonly AllocSize WriteOnly Speculatable StrictFp SanitizeHwAddress NoCfCheck OptForFuzzing Shadowcallstack "
           "SpeculativeLoadHardening ImmArg WillReturn NoFree NoSync SanitizeMemtag Preallocated NoMerge NullPointerIsValid NoUndef ByRef MustProgress "
           "NoCallback Hot NoProfile VScaleRange SwiftAsync NoSanitizeCoverage ElementType DisableSanitizerInstrumentation NoSanitizeBounds AllocAlign "
           "AllocatedPointer AllocKind PresplitCoroutine FnretthunkExtern SkipProfile Memory",
    },
    "CallingConvention": {
        0: "C",
        8: "Fast Cold GHC HiPE WebKitJS AnyReg PreserveMost PreserveAll Swift CXXFASTTLS",
        64: "X86Stdcall X86Fastcall ARMAPCS ARMAAPCS ARMAAPCSVFP MSP430INTR X86ThisCall PTXKernel PTXDevice",
        75: "SPIRFUNC SPIRKERNEL IntelOCLBI X8664SysV Win64 X86VectorCall HHVM HHVMC X86INTR AVRINTR AVRSIGNAL AVRBUILTIN AMDGPUVS AMDGPUGS AMDGPUPS "
           "AMDGPUCS AMDGPUKERNEL X86RegCall AMDGPUHS MSP430BUILTIN AMDGPULS AMDGPUES",
    },
    "Visibility": {0: "Default Hidden Protected"},
    "DllStorageClass": {0: "Default Import Export"},
}
WHERE = {"CallingConvention": "", "Visibility": "", "DllStorageClass": "", "AttributeKind": "attribute::", "AttributeId": "attribute::"}
# conversions that cannot fail: numbers -> meaning, and the documented default
TOTAL = {
    "Linkage": ({0: "External", 5: "External", 6: "External", 15: "External", 1: "WeakAny", 16: "WeakAny", 2: "Appending", 3: "Internal",
                 4: "LinkOnceAny", 18: "LinkOnceAny", 7: "ExternalWeak", 8: "Common", 9: "Private", 13: "Private", 14: "Private",
                 10: "WeakOdr", 17: "WeakOdr", 11: "LinkOnceOdr", 19: "LinkOnceOdr", 12: "AvailableExternally"}, "External"),
    "ThreadLocalMode": ({0: "NotThreadLocal", 1: "GeneralDynamicTls", 2: "LocalDynamicTls", 3: "InitialExecTls", 4: "LocalExecTls"}, "GeneralDynamicTls"),
    "UnnamedAddr": ({0: "None", 1: "Global", 2: "Local"}, "None"),
    "RuntimePreemption": ({0: "DsoPreemptable", 1: "DsoLocal"}, "DsoPreemptable"),
}
SELECTION = {1: "Any ExactMatch Largest NoDeduplicate SameSize"}


def numbers(runs):
    return {n + i: name for n, names in runs.items() for i, name in enumerate(names.split())}


def which(run, x, table):
    for n in sorted(table):
        if run.decide(eq(x, K(n))):
            return n
    return None


def check(ctx, progs):
    p = progs["llvm_support"]

    def fallible(prog, disp, table):
        def body(run):
            x = sym(("code",), 0, U64)
            n = which(run, x, table)
            ok, v = res(run, run.call_fn(fn(prog, disp), [x]))
            if n is not None:
                run.require(cbool(ok and ename(run, v) == table[n]), "code %d means %s" % (n, table[n]), where=disp)
            elif ok:
                run.require(cbool(ename(run, v) not in table.values()), "unassigned codes do not get the meaning of another code", where=disp)
        ctx.task(disp, prog, body)
    for name, runs in CODES.items():
        fallible(p, "<%s%s as std::convert::TryFrom<u64>>::try_from" % (WHERE.get(name, "bitcodes::"), name), numbers(runs))
    m = progs["llvm_mapper"]
    fallible(m, "<record::comdat::SelectionKind as std::convert::TryFrom<u64>>::try_from", numbers(SELECTION))

    def total(disp, table, default):
        def body(run):
            x = sym(("code",), 0, U64)
            n = which(run, x, table)
            v = run.call_fn(fn(p, disp), [x])
            want = default if n is None else table[n]
            run.require(cbool(ename(run, v) == want), "code %s means %s" % ("outside the table" if n is None else n, want), where=disp)
        ctx.task(disp, p, body)
    for name, (table, default) in TOTAL.items():
        total("<%s as std::convert::From<u64>>::from" % name, table, default)

    def wrapped(prog, disp, parts, other):
        """a conversion into known ranges of codes, each under its own variant, and the number itself otherwise"""
        def body(run):
            x = sym(("code",), 0, U64)
            want = None
            for variant, enum in parts:
                t = numbers(CODES[enum])
                n = which(run, x, t)
                if n is not None:
                    want = (variant, t[n])
                    break
            v = run.resolve_enum(run.deref(run.call_fn(fn(prog, disp), [x])))
            if want:
                run.require(cbool(run.vname(v) == want[0]), "the code belongs to this family", where=disp)
                if run.vname(v) == want[0]:
                    run.require(cbool(ename(run, v.f[0]) == want[1]), "the code means %s" % want[1], where=disp)
            elif run.vname(v) == other:
                run.require(eq(run.deref(v.f[0]), x), "an unassigned code keeps its number", where=disp)
            else:
                known = [n for _, e in parts for n in numbers(CODES[e]).values()]
                run.require(cbool(ename(run, v.f[0]) not in known), "unassigned codes do not get the meaning of another code", where=disp)
        ctx.task(disp, prog, body)
    wrapped(m, "<block::BlockId as std::convert::From<u64>>::from", [("Reserved", "ReservedBlockId"), ("Ir", "IrBlockId")], "Unknown")
    wrapped(progs["llvm_bitstream"], "<abbrev::AbbrevId as std::convert::From<u64>>::from", [("Reserved", "ReservedAbbrevId")], "Defined")
