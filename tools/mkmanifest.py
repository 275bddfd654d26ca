#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the specs that exist (dev helper)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = ("abstract interpretation of type-checked MIR (value-flow over linear-form, bit-slice and discriminant domains "
      "with trace partitioning)")
COMMON = (" Over-approximates library calls by transfer functions (trusted, listed in mollint/models.py); a partition the "
          "domains cannot decide is counted as undecided in the evidence, never as held and never as an alarm; an "
          "alarm needs a member of the abstract partition (concretisation) that contradicts the property.")
T = {
 "C01": (AI, "Every cursor history of the listed shapes (arbitrary seek / bit seek / limit, then 2-3 reads, narrowing and exact reads of "
             "arbitrary widths) over buffers of any length up to 2^40 bytes." + COMMON),
 "C02": (AI, "All seek kinds, arguments, limits and alignments from positions at the start, inside and at the edge of a loaded "
             "window, over buffers of any length up to 2^40 bytes." + COMMON),
 "C03": (AI, "Chunk widths 2..32 (all, plus rejected widths), every chunk count up to the one covering bit 63 and one beyond, over symbolic data." + COMMON),
 "C04": (AI, "Re-runs the cursor, container and bitstream partitions of C01-C03 and C10-C13 with the rule 'no reachable panic, overflow, "
             "failed unwrap or oversized allocation'; call histories are bounded as in those checks." + COMMON),
 "C05": (AI, "Re-runs the mapping partitions of C14-C19, C24 and C28 with the rule 'no reachable panic, overflow or failed unwrap', plus every trait implementation of the "
             "mapper that maps a block or record over blocks of up to two records (three in thorough) of unknown code with 0..6 unknown fields, with and without a nested block." + COMMON),
 "C08": (AI + ", with allocation events and growth tracking",
         "Re-runs the cursor, container, bitstream and mapping partitions; every reservation must be bounded by 2^20 elements or by lengths of data in memory, and no loop may "
         "grow a container again and again while no input is consumed; call histories are bounded as in those checks." + COMMON),
 "C09": (AI + ", with a progress (consumption) analysis of every loop",
         "Re-runs the cursor, container, bitstream and mapping partitions; every turn of a loop must consume input, hand out an element already in memory or be bounded by 2^16." + COMMON),
 "C25": (AI + ", comparing acceptance only",
         "Re-runs the partitions of C03, C10-C17, C19, C24 and C28 and keeps the obligations saying that what the reference refuses is refused, and not reported as an end of stream or absence." + COMMON),
 "C26": (AI + ", with narrowing-cast tracking",
         "Re-runs the partitions of C10-C17, C19-C22, C24 and C28: on every accepted call no value was narrowed below the bits it may have, unless its upper half is used too." + COMMON),
 "C07": ("call-graph and dominance analysis over type-checked MIR: every recursive cycle must be cut by a depth guard that increases on each turn",
         "Every strongly connected component of the monomorphic call graph reachable from the public API." + COMMON),
 "C10": (AI, "Enumerated block histories (enter, leave, define, SETBID, record) with symbolic widths, IDs and contents against a reference "
             "grammar; nesting and definition counts bounded by the listed histories." + COMMON),
 "C11": (AI, "Definitions of up to four operands with every operand symbolic." + COMMON),
 "C12": (AI, "Records through abbreviations of up to three operands of every encoding and unabbreviated records; array/blob counts symbolic, elements unrolled up to the bound." + COMMON),
 "C13": (AI, "All wrapper headers and raw streams over buffers of any length." + COMMON),
 "C14": (AI, "All symbolic entry streams up to the listed depth (records, nested blocks, end markers, errors) with unknown contents; module grouping over enumerated top-level block sequences." + COMMON),
 "C15": (AI, "Enumerated arrangements of record codes and sub-blocks (multiplicities 0-2 of the unique ones, sequences of table records up to length four) with unknown contents; nested mappers replaced by unknown results." + COMMON),
 "C16": (AI, "Function, alias and COMDAT records with every field symbolic and every field count up to the last field used, both strtab layouts." + COMMON),
 "C17": (AI, "Type blocks of up to four records of every code with symbolic operands (field lists up to the bound), every cross-reference pattern among them, and names in every position." + COMMON),
 "C28": (AI, "Records of any field count with unknown field values and any start index; string tables of any size, any offset and size." + COMMON),
 "C18": (AI, "Every type constructor of the model over component types of unknown kind and contents, every kind of type for each predicate." + COMMON),
 "C19": (AI, "Every attribute key under both numeric formats with an unknown value; attribute sequences of up to three (four in thorough) attributes, "
             "well formed and cut anywhere; attribute lists of up to three records of up to three unknown ids." + COMMON),
 "C20": (AI, "Every code conversion, over every integer of the code's type." + COMMON),
 "C21": (AI, "Every 64-bit opcode with an operand type of unknown kind and contents." + COMMON),
 "C22": (AI + "; ownership rule over every public function handing out a bounded value",
         "Every integer argument of every conversion; every other public function handing out a bounded value with any in-range values inside its arguments; layout texts with one symbolic decimal." + COMMON),
 "C06": (AI, "Every public function and conversion of llvm-support over unconstrained arguments; its string parsers and the datalayout parser over every text of up to five pieces (separators, symbolic decimals, letters, signs, multi-byte characters)." + COMMON),
 "C23": (AI, "One induction step of update over every sorted table of up to N symbolic entries and over the default tables; every default entry compared with a table." + COMMON),
 "C24": (AI, "Every specification letter with symbolic decimals in every field, malformed variants of each, and combinations of two parts." + COMMON),
 "C27": ("effect analysis over type-checked MIR: unsafe, statics, foreign calls, and iteration of unordered maps reachable from the library crates",
         "Every function of the four library crates and every external callee they name; std callees are classified by an allow list." + COMMON),
}
NA = {
 "C29": "Agreement with LLVM's own reader quantifies over a second implementation that is not part of the source under analysis (and is not installed here); no static argument over mollusc's source decides it. The code tables and layouts it rests on are decided separately (C16-C21).",
 "C30": "Linear time and memory is a quantitative claim about run-time costs; a sound static cost bound for the type-table resolution and record maps is out of reach of the analyses built here (deciding progress, allocation and depth bounds is done in C07-C09). Known deviation: resolving deeply shared type records expands exponentially.",
}
for f in ("extra_manifest.py",):
    p = os.path.join(HERE, "tools", f)
    if os.path.exists(p):
        exec(open(p).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "mollint", "specs", i.lower() + ".py")) and i in T:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "cd driver && cargo +nightly build --offline --quiet", "checks": checks, "not_applicable": na,
     "notes": "All checks read MIR dumped by a rustc_private driver (driver/) from /repo's current sources; nothing of /repo is executed."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
