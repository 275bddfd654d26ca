import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CUR="llvm-bitcursor/src/lib.rs"
PAR="llvm-bitstream/src/parser.rs"; ABB="llvm-bitstream/src/abbrev.rs"; BSL="llvm-bitstream/src/lib.rs"
UNR="llvm-mapper/src/unroll.rs"
curstate=[("byte_len","number of bytes the cursor may expose",CUR),("byte_pos/current_block/bit_index","read-ahead window; bit position = 8*byte_pos - bit_index",CUR)]
prop("C01","Bit reads return exactly the next n bits, LSB-first",
 "For every buffer, cursor position and width 1..63, a read that succeeds returns exactly the next n bits of the data as an unsigned integer, earliest bit least significant, and moves the cursor forward by exactly n bits. A read fails only if the width is 0 or at least 64 or fewer than n bits remain before the cursor's length limit, and then it must fail. Reading into a narrower integer type returns the same value or an error, never a truncated value.",
 ["inputs","histories"],"all buffers, all length limits, all cursor states reachable by any sequence of cursor operations, all widths",
 "Unit tests read a handful of short fixed byte strings; refills that straddle 64-bit blocks, short final blocks and every (bit offset, width) pair are not sampled.",
 [CUR],[("BitCursor::read","refill of the 64-bit window, masks and shifts"),("load_current_block","full/short little-endian block load"),("read_as/read_exact","checked narrowing")],curstate,["BitCursor::read","read_as","read_exact","tell_bit"])
prop("C02","Cursor positioning, alignment and length limits are exact",
 "After any successful seek (from start, from the end, relative, or to a bit position) the reported position is exactly the requested one, and the next read returns the data at that position; a seek whose target lies before the start or beyond the cursor's length fails. Aligning moves to the smallest multiple of 32 bits (counted from the start of the buffer) not below the current position, or to the end of the data if that comes first. A cursor created with a length limit reports that length, rejects limits larger than the buffer, never exposes data past it, and reports exhaustion exactly when its position has reached the limit.",
 ["inputs","histories"],"all buffers and limits, all reachable cursor states, all seek targets",
 "Tests seek to a few positions in one 8- or 16-byte buffer; unaligned lengths, stale read-ahead state and extreme offsets are never exercised.",
 [CUR],[("io::Seek::seek","offset arithmetic, bound check, window reset"),("seek_bit","block-aligned reposition then discard"),("align32","window trim"),("new/new_with_len/exhausted/tell_*","length bookkeeping")],curstate,["seek","seek_bit","align32","tell_bit","tell_byte","exhausted","byte_len"])
prop("C03","VBR decoding is exact or an error",
 "Decoding a variable-width integer of chunk width w (2..32, anything else is rejected) returns the sum over its chunks, in stream order, of the low w-1 bits of chunk k shifted left by k*(w-1), stopping after the first chunk whose top bit is clear and consuming exactly those chunks. An encoding whose value does not fit in 64 bits, that continues past the chunk covering bit 63, or that runs out of data, is an error, never a wrapped, truncated or partial value and never a crash. The signed form takes the lowest bit of that value as the sign (set means negative) and the remaining bits as the magnitude.",
 ["inputs"],"all widths, all chunk sequences of any length",
 "Tests decode about ten short encodings; chunk counts that reach the 64-bit boundary are not tried.",
 [CUR],[("read_vbr","continuation loop, shift accumulation"),("read_svbr","sign split")],None,["read_vbr","read_svbr"])
prop("C04","The bitstream layer never panics on any input",
 "For every byte string and every sequence of calls to the cursor, container, and bitstream-parsing APIs, each call returns a value or an error: no index or slice out of range, no arithmetic overflow, no failed unwrap, no oversized-allocation request and no explicit panic is reachable.",
 ["inputs","histories"],"all byte strings, all widths and offsets, all call sequences",
 "Tests parse only small well-formed pseudo-bitstreams; hostile counts, widths, offsets and truncated streams are unbounded.",
 [CUR,PAR,ABB,BSL],[("checked reads returning Error","every crate module"),("scope-stack non-emptiness","StreamParser"),("char6 index bound","AbbrevOp::parse")],[("scopes","stack of parse scopes, never empty",PAR)],["BitCursor::*","Bitstream::*","Abbrev::*"])
prop("C05","Mapping bitcode never panics on any input",
 "For every byte string, turning it into bitcode modules returns a model or an error: no unfinished-code panic, out-of-range index or slice, arithmetic overflow or failed unwrap is reachable from any record, field count, field value or block arrangement.",
 ["inputs"],"all byte strings, hence all block/record trees and all field vectors",
 "Mapper tests build a few records by hand; short records, missing terminators, unknown codes and extreme indices are not covered.",
 [UNR,"llvm-mapper/src/block/module.rs","llvm-mapper/src/block/type_table.rs","llvm-mapper/src/block/attributes.rs","llvm-mapper/src/block/strtab.rs","llvm-mapper/src/block/function/mod.rs","llvm-mapper/src/record/function.rs","llvm-mapper/src/record/alias.rs","llvm-mapper/src/record/comdat.rs","llvm-mapper/src/record/datalayout.rs"],[("length checks before field indexing","record mappers"),("get(..).ok_or(..) idiom","block mappers")],None,["Bitcode::try_from"])
prop("C06","Model constructors and conversions never panic",
 "Every public constructor, conversion and string parser of the LLVM model types (types, alignments, datalayout specifications, opcodes, attribute and linkage codes) returns a value or an error for every argument, including empty, non-ASCII and extreme ones; none panics or overflows.",
 ["inputs"],"all integers, strings and type values accepted by the signatures",
 "Tests use well-formed strings and small numbers.",
 ["llvm-support/src/align.rs","llvm-support/src/ty.rs","llvm-support/src/lib.rs","llvm-support/src/opcode.rs"],[("FromStr impls","align.rs"),("Type::new_*","ty.rs"),("From/TryFrom impls","lib.rs, opcode.rs")],None,["llvm_support public API"])
prop("C07","Call depth is bounded independently of the input",
 "No sequence of bytes can make parsing, unrolling or mapping recurse deeper than a fixed constant: neither long runs of internal stream entries, nor deeply nested blocks, nor self-referential or deeply nested type records exhaust the stack. Inputs that would need more are rejected with an error.",
 ["inputs"],"all byte strings, all nesting depths and run lengths, all type reference graphs",
 "Stack exhaustion needs inputs with tens of thousands of nested or consecutive items or a reference cycle; no test has one.",
 [PAR,UNR,"llvm-mapper/src/block/type_table.rs"],[("StreamParser::advance","loop over internal entries"),("enter_block","nesting limit"),("PartialTypeTable::resolve","depth limit")],None,["Bitstream::advance","Bitcode::try_from"])
prop("C08","Memory requests are bounded by data actually present",
 "Parsing never reserves or allocates memory in proportion to a count, length or size that is merely declared in the input: every reservation is bounded by a constant or by the amount of data already read or present in the buffer.",
 ["inputs"],"all declared array, blob, operand, type and basic-block counts",
 "Tests never declare a count larger than the data that follows.",
 [PAR,ABB,"llvm-mapper/src/block/type_table.rs","llvm-mapper/src/block/function/mod.rs"],[("growth by push while reading","record, array and blob readers")],None,["Bitstream::advance","Bitcode::try_from"])
prop("C09","Every parsing loop makes progress",
 "Each iteration of every loop driven by the input either consumes at least one bit of the stream, advances through a finite in-memory sequence, or leaves the loop, so parsing any finite input terminates.",
 ["inputs"],"all byte strings and record contents",
 "Non-termination is not observable by finite tests; the tests loop over a handful of entries.",
 [CUR,PAR,ABB,UNR,"llvm-mapper/src/block/attributes.rs"],[("loop bodies begin with a read","read_vbr, advance, abbreviation and record loops"),("fieldidx += count with count >= 1","attribute groups")],None,["all loops of the four crates"])
prop("C10","Block scopes and abbreviation visibility follow the stream",
 "Inside a block, entry identifiers are read at the width that block declared, and after its end at the enclosing block's width; the outermost level uses width 2. Identifiers 0-3 mean end-block, enter-block, define-abbreviation and unabbreviated record; identifier 4+k selects exactly the k-th abbreviation visible in the current block, where the visible list is the abbreviations registered by the block-info block for this block's ID, in registration order, followed by those defined locally so far, and an unknown identifier is an error. Definitions never leak into enclosing or sibling blocks, definitions inside the block-info block apply to the most recently selected block ID (an error if none was selected), the block-info block and definitions are never surfaced as entries, and an unmatched end-block or a record outside any block is an error.",
 ["inputs","histories"],"all nesting structures, widths, block IDs and interleavings of definitions",
 "Tests contain at most one block and one abbreviation.",
 [PAR,"llvm-bitstream/src/abbrev.rs"],[("Scope stack push/pop","enter_block / exit_block"),("blockinfo map","define_abbrev / enter_block"),("get_abbrev","index = id - 4"),("AbbrevId::from","reserved ids 0..3")],[("scopes","stack of (width, block id, abbreviations)",PAR),("blockinfo","block id -> abbreviations",PAR)],["Bitstream::advance"])
prop("C11","Abbreviation definitions are accepted exactly when well formed",
 "A definition is read as a 5-bit-VBR operand count followed by that many operands, each either a literal (flag bit 1, 8-bit-VBR value) or an encoding (flag bit 0, 3-bit code: 1 fixed and 2 VBR with a 5-bit-VBR width, 3 array, 4 char6, 5 blob), and the parsed operand list reflects them in order. A zero count, an unknown encoding, an array that is not second to last, an array element that is not fixed, VBR or char6, and a blob that is not last are errors.",
 ["inputs"],"all operand counts and operand sequences",
 "Tests define one or two abbreviations.",
 [ABB],[("Abbrev::new","operand loop with positional checks")],None,["Abbrev::new"])
prop("C12","Records are decoded exactly as their encoding says",
 "An unabbreviated record yields the code and exactly the declared number of operands, all 6-bit VBRs in stream order, and no abbreviation ID. A record read through an abbreviation yields, per operand in definition order: the literal value without consuming data, a fixed or VBR field of the defined width, a 6-bit character mapped through the alphabet a-z A-Z 0-9 . _, an array as a 6-bit-VBR count followed by that many elements, or a blob as a 6-bit-VBR length, alignment to 32 bits, that many bytes, and alignment to 32 bits; the first resulting value is the code, the rest are the fields, and the abbreviation ID is reported. An abbreviated record that yields no values at all is an error.",
 ["inputs"],"all abbreviations, counts and contents",
 "Tests decode a single abbreviated record.",
 [PAR,ABB,"llvm-bitstream/src/record.rs","llvm-support/src/lib.rs"],[("parse_unabbrev","VBR6 loop"),("AbbrevOp::parse","per-operand decode"),("parse_with_abbrev","split of code and fields")],None,["Bitstream::advance","Abbrev::parse"])
prop("C13","Container and wrapper framing is honoured",
 "Opening a buffer reads its first 32 bits: if they are 0x0B17C0DE the five little-endian 32-bit header words are reported as magic, version, offset, size and CPU type in that order, and parsing covers exactly the bytes [offset, offset+size) of the buffer; otherwise the whole buffer is a raw stream. In either case the stream's own magic is the first 32 bits of the parsed region, the region's end is a multiple of four bytes, and regions that do not fit in the buffer are an error.",
 ["inputs"],"all buffers, all wrapper header values",
 "No unit test constructs a wrapper.",
 [BSL],[("Bitstream::from / from_raw / from_wrapped","magic dispatch, header read, length and seek computation")],None,["Bitstream::from","Bitstream::from_raw","Bitstream::from_wrapped"])
prop("C14","Unrolling keeps every block and record in order and groups modules",
 "Unrolling a block keeps every record and sub-block of that block, each exactly once and in stream order (sub-blocks per ID), until its own end marker; a stream that ends inside a block is an error. At top level an identification block starts a new module, a module block fills the most recent one (error if there is none or it already has one), a string-table or symbol-table block is attached to every trailing module that lacks one, and anything else is an error; a module lacking its module block or string table is an error and modules are reported in stream order.",
 ["inputs","histories"],"all entry sequences and nestings, all top-level block sequences",
 "No unit test unrolls a stream; the integration inputs contain one module.",
 [UNR],[("enter_block","record push / child insert / end"),("Bitcode::try_from","top-level dispatch"),("PartialBitcodeModule::reify","mandatory parts")],None,["Bitcode::try_from"])
prop("C15","Required and unique records and blocks are enforced",
 "Mapping a module fails unless it has exactly one version record (with a value), exactly one type block and exactly one module symbol-table block, and fails if there is more than one datalayout, triple or assembly record, or more than one attribute or attribute-group block. Section, GC, COMDAT and dependent-library tables contain one entry per record in order, a missing triple or assembly record yields the default triple or no lines, and an identification without producer or epoch, or a string or symbol table without blob, is an error.",
 ["inputs"],"all multisets of records and blocks in a module",
 "Tests do not map whole modules with missing or duplicated parts.",
 [UNR,"llvm-mapper/src/block/module.rs","llvm-mapper/src/block/identification.rs","llvm-mapper/src/block/strtab.rs","llvm-mapper/src/block/symtab.rs"],[("exactly_one / one_or_none / by_code / by_id","Records, Blocks"),("Module::try_from","per-record policy")],None,["Bitcode::try_from"])
prop("C16","Symbol records map each field to the right attribute of the model",
 "For function, alias and COMDAT records every model attribute is computed from its own field position of LLVM's layout: name from fields 0-1 through the string table; function: type 2, calling convention 3, declaration flag 4 (nonzero), linkage 5, attribute list 6 (1-based, 0 none), alignment 7, section 8 (1-based, 0 none), visibility 9, GC 10 (1-based, 0 none), unnamed-addr 11, DLL storage class 13; alias: type 2, aliasee 3, linkage 4, visibility 5, storage class 6, TLS 7, unnamed-addr 8, preemption 9; COMDAT: selection kind 2. Missing optional fields give the default, records shorter than the mandatory part, pre-strtab versions, and out-of-range or unknown values are errors.",
 ["inputs"],"all field vectors, all context tables",
 "No test maps these records.",
 ["llvm-mapper/src/record/function.rs","llvm-mapper/src/record/alias.rs","llvm-mapper/src/record/comdat.rs","llvm-mapper/src/block/strtab.rs"],[("try_map impls","positional field decoding")],None,["Function/Alias/Comdat::try_map"])
prop("C17","Type table entries mirror the type records one for one",
 "Each type record appends exactly one table entry, of the kind its code denotes and built from its own operands (integer width; pointee and address space; element count and element type, scalable if the third operand is nonzero; packed flag and field types; vararg flag, return and parameter types), except count records and name records, which append none; a name applies to exactly the next named or opaque struct. References are indices into the table and resolve to the type at that index whether it appears before or after, and a declared entry count that differs from the entries present, an unknown code, a missing operand, or a dangling or cyclic reference is an error.",
 ["inputs"],"all sequences of type records and operand vectors",
 "No test maps a type table.",
 ["llvm-mapper/src/block/type_table.rs"],[("TypeTable::try_from","record loop"),("PartialType::resolve","reference resolution"),("PartialTypeTable::reify","size check")],None,["TypeTable::try_from"])
prop("C18","Only LLVM-legal types can be constructed",
 "The checked type constructors accept exactly LLVM's legal combinations: integers of 1 to 2^24-1 bits; pointers to anything but void, label, metadata, token and x86_amx; arrays and struct fields of anything but void, label, metadata, function and token (arrays also not of x86_amx or scalable vectors); vectors of integer, floating-point or pointer (typed or opaque) elements; functions returning anything but function, label and metadata, with parameters of anything but void and function. The type predicates agree with LLVM's definitions for every type, and a constructor that succeeds stores its arguments unchanged.",
 ["inputs"],"all types and parameters",
 "Tests check a few types per constructor.",
 ["llvm-support/src/ty.rs"],[("Type::is_* predicates","matches! tables"),("Type::new_* and *Type::new","guards")],None,["llvm_support::Type"])
prop("C19","Attribute groups and lists decode without loss or confusion",
 "Each attribute of a group record is decoded by its kind (0 enum: one key; 1 integer: key and value; 3 string key; 4 string key and value, strings being non-empty NUL-terminated bytes) consuming exactly its own fields, so that all fields of a record are consumed and every attribute appears once and in order; the group ID and parameter index come from the first two fields, with 0xFFFFFFFF meaning function, 0 return and anything else that parameter. Attribute lists resolve each listed group ID to that group in order; integer attributes carry their own value under their own key, every known attribute key is either an enum or an integer attribute, and unknown kinds or keys, wrong block codes, truncated attributes and dangling group IDs are errors.",
 ["inputs"],"all attribute records",
 "No test decodes attribute blocks.",
 ["llvm-mapper/src/block/attributes.rs","llvm-support/src/attribute.rs"],[("Attribute::from_record","kind dispatch"),("IntAttribute::try_from","key/value"),("AttributeGroups/Attributes::try_from","group assembly")],None,["AttributeGroups::try_from","Attributes::try_from"])
prop("C20","Every on-disk code maps to its LLVM meaning",
 "For every integer, conversion to each model enumeration (block IDs, record codes, abbreviation codes, linkage, visibility, DLL storage class, TLS mode, unnamed-addr, preemption, calling convention, COMDAT selection kind, attribute kinds and IDs, opcodes, RMW operations) yields the variant LLVM assigns to that number, and for unassigned numbers the documented default or an error.",
 ["inputs"],"all 64-bit values for each code space",
 "Tests check one or two values of one or two tables.",
 ["llvm-support/src/bitcodes.rs","llvm-support/src/lib.rs","llvm-support/src/opcode.rs","llvm-support/src/attribute.rs","llvm-mapper/src/block/mod.rs","llvm-mapper/src/record/comdat.rs"],[("repr(u64) discriminants + TryFromPrimitive","enum definitions"),("From<u64> match tables","lib.rs")],None,["From/TryFrom<u64> impls"])
prop("C21","Opcodes are chosen by code and operand type together",
 "A binary opcode is accepted only for integer or floating-point operands (scalars or vectors of them); codes 0-2 and 4, 6 select add, sub, mul, signed div and signed rem with the floating-point form exactly when the operand is floating point, codes 3, 5, 7-12 (udiv, urem, shl, lshr, ashr, and, or, xor) are accepted only for integers; every other combination is an error. Unary code 0 is floating-point negation and every other code is an error.",
 ["inputs"],"all (code, type) pairs",
 "There is no test of binary opcode selection.",
 ["llvm-support/src/opcode.rs"],[("BinaryOp::try_from","(code, is_fp) table")],None,["BinaryOp::try_from","UnaryOp::try_from"])
prop("C22","Bounded numeric model types never hold out-of-range values",
 "Alignments can only be powers of two with exponent 0 to 63 and report exactly 2^shift bytes; an encoded optional alignment of 0 means none and n means 2^(n-1); address spaces lie in 0..2^23-1, aligned-type widths in 1..2^23-1 and integer widths in 1..2^24-1; each conversion into these types succeeds exactly for in-range values, preserves the value, and is the only way to build one.",
 ["inputs"],"all integers",
 "Tests check a few boundary values.",
 ["llvm-support/src/align.rs","llvm-support/src/ty.rs"],[("Align::from_shift/new/try_from","range checks"),("MaybeAlign::try_from","0 = none"),("AddressSpace::try_from, IntegerType::new","range checks"),("private fields","ty.rs, align.rs")],None,["Align","MaybeAlign","AddressSpace","IntegerType"])
prop("C23","Alignment specification tables stay sorted, unique and override correctly",
 "After any sequence of updates, a datalayout's type-alignment table holds at most one entry per (kind, width) and its pointer table at most one per address space, ordered by that key; the entry for a key is exactly the last specification given for it and all other keys are untouched; the initial tables equal LLVM's documented defaults.",
 ["inputs","histories"],"all sequences of updates",
 "Tests perform one or two updates.",
 ["llvm-support/src/align.rs"],[("TypeAlignSpecs::update / PointerAlignSpecs::update","binary search then replace or insert"),("Default impls","default tables")],[("spec lists","sorted by key","llvm-support/src/align.rs")],["TypeAlignSpecs::update","PointerAlignSpecs::update"])
prop("C24","Datalayout strings are applied specification by specification",
 "A datalayout string is split at '-' and each part updates exactly the property its leading letters name: E/e endianness, S stack alignment, P/G/A program, globals and alloca address spaces, p pointers, i/f/v/a type alignments, F function-pointer alignment, m mangling, n native integer widths, ni non-integral address spaces, everything else keeping its default; sizes given in bits are converted exactly, alignments must be powers of two with preferred at least ABI, and an unknown letter, an empty part, or a field that is missing, non-numeric or out of range is an error rather than being ignored.",
 ["inputs"],"all strings",
 "Tests parse a few well-formed layouts.",
 ["llvm-mapper/src/record/datalayout.rs","llvm-support/src/align.rs"],[("DataLayout::from_str","letter dispatch"),("TypeAlignSpec/PointerAlignSpec/FunctionPointerAlign::from_str","field parsing")],None,["DataLayout::from_str","TypeAlignSpec::from_str","PointerAlignSpec::from_str"])
prop("C25","No failure is swallowed",
 "Whenever a lower-level operation on the input fails (a read, decode, lookup, conversion, allocation of a model type or nested mapping), the surrounding operation fails too; no failure is replaced by a default, skipped, retried, or turned into a normal end of data. The end of the stream is reported as the end only when no data remains.",
 ["inputs"],"all inputs and all points at which an operation can fail",
 "Each of over a hundred fallible calls would need its own malformed input; the tests trigger almost none of them.",
 [CUR,PAR,ABB,BSL,UNR,"llvm-mapper/src/block/module.rs","llvm-mapper/src/block/type_table.rs","llvm-mapper/src/block/attributes.rs","llvm-mapper/src/record/function.rs","llvm-mapper/src/record/datalayout.rs"],[("? propagation and map_err","every fallible call"),("Exhausted -> None","Bitstream::next")],None,["every Result-producing call"])
prop("C26","Stream values are never silently truncated",
 "A value taken from the input is stored in the model either unchanged or not at all: wherever a wider value ends up in a narrower integer, an out-of-range value is an error instead of being reduced modulo the narrower width (the documented split of packed attribute values into 32-bit halves aside).",
 ["inputs"],"all field values",
 "Tests use small values only.",
 [CUR,ABB,UNR,"llvm-mapper/src/block/attributes.rs","llvm-mapper/src/block/type_table.rs","llvm-mapper/src/record/function.rs"],[("try_from / num::cast","checked narrowing at each site")],None,["every narrowing conversion"])
prop("C27","Parsing is a pure function of the bytes",
 "Parsing and mapping depend only on the given bytes: the library crates contain no unsafe code, perform no file, network, process, environment, clock or random access, keep no global mutable state, and no result depends on the iteration order of an unordered map; so the same input always gives the same result.",
 ["inputs","histories","configurations"],"all inputs, repeated in any environment",
 "Determinism across runs and environments is not something a single test run observes.",
 ["llvm-bitcursor/src/lib.rs","llvm-bitstream/src/lib.rs","llvm-support/src/lib.rs","llvm-mapper/src/lib.rs"],[("forbid(unsafe_code)","crate roots"),("IndexMap / keyed HashMap lookups only","mapper, parser")],None,["crate public APIs"])
prop("C28","Strings and blobs are extracted whole or not at all",
 "A string-table lookup returns exactly the requested offset and size range when it is non-empty and wholly inside the table and valid UTF-8, and fails for every other offset and size, however large. Extracting a string or blob from a record returns all fields from the given index to the last, one byte per field in order, and fails if the index leaves fewer than two fields, any field exceeds 255, or a string is not UTF-8.",
 ["inputs"],"all offsets, sizes, tables, indices and field vectors",
 "Tests use one fixed record and a small table.",
 ["llvm-mapper/src/block/strtab.rs",UNR],[("Strtab::try_get","range check"),("Record::try_string/try_blob","index check and per-field conversion")],None,["Strtab::try_get","Strtab::get","Record::try_string","Record::try_blob"])
prop("C29","Accepted input agrees with LLVM's own reader",
 "Every bitcode file that LLVM's reader accepts is accepted, and the resulting model equals the module LLVM reconstructs.",
 ["inputs","programs"],"all bitcode files producible by LLVM",
 "The test inputs are a handful of modules from one LLVM version.",
 [UNR,"llvm-mapper/src/block/module.rs"],[("whole pipeline","all crates")],None,["Bitcode::try_from"])
prop("C30","Parsing time and memory are linear in the input",
 "Parsing and mapping a file of n bytes takes time and memory proportional to n.",
 ["inputs"],"all byte strings",
 "Tests do not measure cost.",
 [PAR,UNR,"llvm-mapper/src/block/type_table.rs"],[("single pass design","parser and unroller")],None,["Bitcode::try_from"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sch); assert len(p['title'])<=80,p['id']
print(len(P))
json.dump({"version":1,"setup_cmd":"true","checks":[],"not_applicable":[{"property":p["id"],"reason":"check not built yet"} for p in P]},open('/verif/MANIFEST.json','w'),indent=1)
