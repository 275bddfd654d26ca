S = []
CUR, PAR, ABB, UNR, BSL = "llvm-bitcursor/src/lib.rs", "llvm-bitstream/src/parser.rs", "llvm-bitstream/src/abbrev.rs", "llvm-mapper/src/unroll.rs", "llvm-bitstream/src/lib.rs"
TT, AT, DL, AL, TY, OP, MOD, FUN = ("llvm-mapper/src/block/type_table.rs", "llvm-mapper/src/block/attributes.rs", "llvm-mapper/src/record/datalayout.rs", "llvm-support/src/align.rs",
    "llvm-support/src/ty.rs", "llvm-support/src/opcode.rs", "llvm-mapper/src/block/module.rs", "llvm-mapper/src/record/function.rs")
S.append(dict(id="C03-last-chunk", prop="C03",
  edits=[(CUR, "            let continuation = (block & block_mask) != 0;\n", "            // Nothing fits beyond the 64th bit, so there can't be anything else to read.\n            let continuation = (block & block_mask) != 0 && shift + width <= Self::BLOCK_SIZE_BITS;\n")],
  needs="a VBR whose chunks go on past the chunk that holds bit 63",
  breaks="an over-long VBR is accepted and the rest of its chunks is left in the stream",
  demo=r'''
use llvm_bitcursor::BitCursor;
fn main() {
    for w in 2..=32u64 {
        let mut b = W::raw();
        let mut n = 0;
        while n * (w - 1) < 96 { b.fixed(1 | 1 << (w - 1), w); n += 1; }
        b.fixed(1, w).align().fixed(0, 64);
        let data = b.bytes();
        let mut c = BitCursor::new(&data[..]);
        assert!(c.read_vbr(w as usize).is_err(), "width {}", w);
    }
}
'''))
S.append(dict(id="C05-function-type", prop="C05",
  edits=[(TT, "                    let return_type = TypeRef(type_field!(1) as usize);\n", "                    // Some old producers leave out a void return type.\n                    let return_type =\n                        TypeRef(record.fields().get(1).copied().unwrap_or_default() as usize);\n")],
  needs="a function type record with one field only",
  breaks="the record's parameters are sliced out of range",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    let data = bitcode("fx", |w| {
        w.enter(17, 3).rec(1, &[2]).rec(2, &[]).rec(21, &[0]).end();
        vst(w);
    });
    let r = std::panic::catch_unwind(|| llvm_mapper::Bitcode::try_from(&data[..]).is_err());
    assert_eq!(r.ok(), Some(true));
}
'''))
S.append(dict(id="C09-truncated-block", prop="C09",
  edits=[(UNR, "                let entry = bitstream\n                    .next()\n                    .ok_or_else(|| Error::Unroll(\"unexpected stream end during unroll\".into()))?;\n\n                match entry? {", "                let entry = match bitstream.next() {\n                    Some(entry) => entry,\n                    None if depth > 0 => continue,\n                    None => {\n                        return Err(Error::Unroll(\"unexpected stream end during unroll\".into()))\n                    }\n                };\n\n                match entry? {")],
  needs="a stream that ends inside a nested block",
  breaks="unrolling never ends",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    let mut w = W::new();
    w.enter(13, 5).text(1, "LLVM15.0.0").rec(2, &[0]).end();
    w.enter(8, 3).rec(1, &[2]);
    w.enter(17, 3);
    let data = w.bytes();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(llvm_mapper::Bitcode::try_from(&data[..]).is_err()));
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(10)).ok(), Some(true));
}
'''))
S.append(dict(id="C08-operands-zero", prop="C08",
  edits=[(PAR, "            fields.push(self.cursor.read_vbr(6)?);\n", "            // Trailing zero operands may be left out at the very end of the data.\n            let field = match self.cursor.exhausted() {\n                true => 0,\n                false => self.cursor.read_vbr(6)?,\n            };\n            fields.push(field);\n")],
  needs="an unabbreviated record whose operand count promises far more than the rest of the stream, which ends exactly at an operand",
  breaks="the record grows to the declared count although the data has ended",
  demo=r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    for k in 0..64 {
        let mut w = W::new();
        w.enter(9, 2);
        w.id(3).vbr(1, 6).vbr(1 << 20, 6);
        for _ in 0..k { w.fixed(5, 6); }
        if w.bits.len() % 32 != 0 { continue; }
        let data = w.bytes();
        let (_, s) = Bitstream::from(&data[..]).unwrap();
        for e in s {
            if let Ok(StreamEntry::Record(r)) = e { panic!("{} operands out of {} bytes", r.fields.len(), data.len()); }
        }
    }
}
'''))
S.append(dict(id="C11-blob-inside", prop="C11",
  edits=[(ABB, "                    if idx != num_abbrev_opnds - 1 {", "                    if idx + 2 < num_abbrev_opnds {")],
  needs="a definition whose last but one operand is a blob",
  breaks="the malformed definition is accepted",
  demo=r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut w = W::new();
    w.enter(9, 3);
    w.id(2).vbr(3, 5).fixed(1, 1).vbr(7, 8).fixed(0, 1).fixed(5, 3).fixed(1, 1).vbr(1, 8);
    w.end();
    let data = w.bytes();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    assert!(s.take(10).any(|e| e.is_err()));
}
'''))
S.append(dict(id="C17-scalable-flag", prop="C17",
  edits=[(TT, "map_or_else(|| false, |f| *f > 0);", "map_or_else(|| false, |f| *f & 1 == 1);")],
  needs="a vector type record whose third operand is nonzero and even",
  breaks="a scalable vector becomes a fixed one",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    listen();
    for (flag, want) in [(0, "FixedVector"), (1, "ScalableVector"), (2, "ScalableVector"), (1 << 40, "ScalableVector")] {
        LOG.lock().unwrap().clear();
        let data = bitcode("fx", |w| {
            w.enter(17, 3).rec(1, &[3]).rec(7, &[32]).rec(10 + 2, &[4, 0, flag]).rec(21, &[0, 1]).end();
            vst(w);
            w.rec(8, &[0, 1, 2, 0, 1, 0, 0, 0, 0, 0]);
        });
        llvm_mapper::Bitcode::try_from(&data[..]).expect("valid module");
        let m = heard("functions:");
        assert!(m.len() == 1 && m[0].contains(want), "{}: {:?}", flag, m);
    }
}
'''))
S.append(dict(id="C19-allocsize-zero", prop="C19",
  edits=[(AT, "                    u32::MAX => None,\n                    num_elts => Some(num_elts),", "                    0 | u32::MAX => None,\n                    num_elts => Some(num_elts),")],
  needs="an allocsize attribute whose second argument is parameter 0",
  breaks="the element-count parameter of allocsize(n, 0) is lost",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    listen();
    let data = bitcode("fx", |w| {
        w.enter(10, 3).rec(3, &[1, 0xffff_ffff, 1, 51, 4 << 32]).end();
        w.enter(9, 3).rec(2, &[1]).end();
        w.enter(17, 3).rec(1, &[2]).rec(2, &[]).rec(21, &[0, 0]).end();
        vst(w);
        w.rec(8, &[0, 1, 1, 0, 1, 0, 1, 0, 0, 0]);
    });
    llvm_mapper::Bitcode::try_from(&data[..]).expect("valid module");
    let m = heard("functions:");
    assert!(m.len() == 1 && m[0].contains("AllocSize(4, Some(0))"), "{:?}", m);
}
'''))
S.append(dict(id="C21-float-xor", prop="C21",
  edits=[(OP, "            (BinaryOpcode::Xor, false) => BinaryOp::Xor,", "            (BinaryOpcode::Xor, _) => BinaryOp::Xor,")],
  needs="an xor whose operand type is a floating-point type or a vector of one",
  breaks="a bitwise operation on floating-point operands is accepted",
  demo=r'''
use std::convert::TryFrom;
use llvm_support::{ty::Type, opcode::BinaryOp};
fn main() {
    let v = Type::new_vector(4, Type::Float).unwrap();
    for t in [Type::Double, v] {
        for code in 7..=12u64 { assert!(BinaryOp::try_from((code, &t)).is_err(), "{} on {:?}", code, t); }
    }
}
'''))
S.append(dict(id="C24-first-function-align", prop="C24",
  edits=[(DL, "                        datalayout.function_pointer_alignment = Some(align);", "                        datalayout.function_pointer_alignment.get_or_insert(align);")],
  needs="a layout string with two function-pointer specifications",
  breaks="the first one wins instead of the last",
  demo=r'''
use llvm_mapper::record::DataLayout;
fn main() {
    let a: DataLayout = "Fi8-e-Fn64".parse().unwrap();
    let b: DataLayout = "e-Fn64".parse().unwrap();
    assert_eq!(format!("{:?}", a.function_pointer_alignment), format!("{:?}", b.function_pointer_alignment));
}
'''))
S.append(dict(id="C25-gc-names", prop="C25",
  edits=[(MOD, "            .by_code(ModuleCode::GcName)\n            .map(|rec| rec.try_string(0))\n", "            .by_code(ModuleCode::GcName)\n            .filter(|rec| rec.fields().len() > 1)\n            .map(|rec| rec.try_string(0))\n")],
  needs="a GC name record without text (or with one character)",
  breaks="the malformed record is skipped instead of failing the module, and later indices shift",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    for bad in [&[][..], &[101][..]] {
        let data = bitcode("fx", |w| {
            w.rec(11, bad).text(11, "shadow");
            w.enter(17, 3).rec(1, &[1]).rec(2, &[]).end();
            vst(w);
        });
        assert!(llvm_mapper::Bitcode::try_from(&data[..]).is_err());
    }
}
'''))
S.append(dict(id="C26-gc-index", prop="C26",
  edits=[(FUN, "            .get(10)\n            .and_then(|idx| match *idx as usize {", "            .get(10)\n            .and_then(|idx| match *idx as u32 as usize {")],
  needs="a function record whose GC field is 2^32 or more",
  breaks="the index is reduced modulo 2^32, so a bad reference selects some GC name or none",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    for gc in [(1u64 << 32) + 1, 1 << 40] {
        let data = bitcode("fx", |w| {
            w.text(11, "erlang");
            w.enter(17, 3).rec(1, &[2]).rec(2, &[]).rec(21, &[0, 0]).end();
            vst(w);
            w.rec(8, &[0, 1, 1, 0, 1, 0, 0, 0, 0, 0, gc]);
        });
        assert!(llvm_mapper::Bitcode::try_from(&data[..]).is_err(), "{}", gc);
    }
}
'''))
S.append(dict(id="C23-same-width", prop="C23",
  edits=[(AL, "            (AlignedType::Vector(lhs), AlignedType::Vector(rhs)) => lhs.cmp(rhs),", "            // Vectors are looked up by their size class.\n            (AlignedType::Vector(lhs), AlignedType::Vector(rhs)) => {\n                lhs.0.leading_zeros().cmp(&rhs.0.leading_zeros()).reverse()\n            }")],
  needs="two vector specifications of different widths between the same powers of two, the larger one first",
  breaks="entries are no longer ordered by width and a duplicate can be kept",
  demo=r'''
use llvm_mapper::record::DataLayout;
fn main() {
    let a: DataLayout = "v96:64-v80:32-v96:128".parse().unwrap();
    let b: DataLayout = "v80:32-v96:128".parse().unwrap();
    assert_eq!(format!("{:?}", a.type_alignments), format!("{:?}", b.type_alignments));
}
'''))
S.append(dict(id="C07-attributes", prop="C07",
  edits=[(AT, "            let mut fieldidx = 2;\n            let mut attributes = vec![];\n            while fieldidx < record.fields().len() {\n                // debug!(\"{:#?}\", groups);\n                let (count, attr) = Attribute::from_record(fieldidx, record)?;\n                attributes.push(attr);\n                fieldidx += count;\n            }\n",
"            fn collect(\n                fieldidx: usize,\n                record: &Record,\n                attributes: &mut Vec<Attribute>,\n            ) -> Result<usize, AttributeError> {\n                if fieldidx >= record.fields().len() {\n                    return Ok(fieldidx);\n                }\n                let (count, attr) = Attribute::from_record(fieldidx, record)?;\n                attributes.push(attr);\n                let end = collect(fieldidx + count, record, attributes)?;\n                log::debug!(\"attribute at field {} of {}\", fieldidx, end);\n                Ok(end)\n            }\n\n            let mut attributes = vec![];\n            let fieldidx = collect(2, record, &mut attributes)?;\n")],
  needs="an attribute group record with very many attributes",
  breaks="the call depth grows with the number of attributes in a record",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    let mut f = vec![1, 0xffff_ffff];
    for _ in 0..400_000 { f.push(0); f.push(2); }
    let data = bitcode("fx", |w| {
        w.enter(10, 3).rec(3, &f).end();
        w.enter(17, 3).rec(1, &[1]).rec(2, &[]).end();
        vst(w);
    });
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(move || llvm_mapper::Bitcode::try_from(&data[..]).is_ok()).unwrap();
    assert_eq!(t.join().ok(), Some(true));
}
'''))
S.append(dict(id="C27-environment", prop="C27",
  edits=[(MOD, "            None => TARGET_TRIPLE.into(),", "            None => std::env::var(\"LLVM_DEFAULT_TARGET_TRIPLE\")\n                .unwrap_or_else(|_| TARGET_TRIPLE.into()),")],
  needs="a module without a triple, and an environment variable",
  breaks="the model depends on the process environment",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    let data = bitcode("fx", |w| {
        w.enter(17, 3).rec(1, &[1]).rec(2, &[]).end();
        vst(w);
    });
    let get = || llvm_mapper::Bitcode::try_from(&data[..]).unwrap().modules.remove(0).module.triple;
    let a = get();
    std::env::set_var("LLVM_DEFAULT_TARGET_TRIPLE", "z80-unknown-none");
    assert_eq!(a, get());
}
'''))
S.append(dict(id="C13-odd-window", prop="C13",
  edits=[(BSL, "        if cur.byte_len() % 4 != 0 {", "        if (cur.byte_len() - cur.tell_byte()) % 4 != 0 {")],
  needs="a wrapper whose offset plus size is no multiple of four",
  breaks="such a container is accepted (or a good one rejected) although its length is not 4-byte aligned",
  demo=r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut w = W::raw();
    w.fixed(0x0b17c0de, 32).fixed(0, 32).fixed(21, 32).fixed(8, 32).fixed(7, 32).fixed(0, 8);
    w.fixed(0xdec04342u32 as u64, 32).fixed(0, 64);
    let data = w.bytes();
    assert!(Bitstream::from(&data[..]).is_err());
}
'''))
S.append(dict(id="C04-abbrev-index", prop="C04",
  edits=[(PAR, "                abbrevs.get(idx).ok_or(Error::BadAbbrev(abbrev_id))", "                if idx > abbrevs.len() {\n                    return Err(Error::BadAbbrev(abbrev_id));\n                }\n                Ok(&abbrevs[idx])")],
  needs="a record that uses the abbreviation id just past the last defined one",
  breaks="an index out of range panics",
  demo=r'''
use llvm_bitstream::Bitstream;
fn main() {
    let mut w = W::new();
    w.enter(9, 3);
    w.id(4).align().fixed(0, 64);
    let data = w.bytes();
    let r = std::panic::catch_unwind(|| Bitstream::from(&data[..]).unwrap().1.take(5).any(|e| e.is_err()));
    assert_eq!(r.ok(), Some(true));
}
'''))
S.append(dict(id="C18-function-element", prop="C18",
  edits=[(TY, "        if element_type.is_array_element() {\n            Ok(Self {\n                num_elements,\n                element_type: Box::new(element_type),\n            })\n        } else {\n            Err(ArrayTypeError::BadElement(element_type))", "        // An array without elements never stores one.\n        if element_type.is_array_element()\n            || (num_elements == 0 && element_type.is_pointee())\n        {\n            Ok(Self {\n                num_elements,\n                element_type: Box::new(element_type),\n            })\n        } else {\n            Err(ArrayTypeError::BadElement(element_type))")],
  needs="an array of zero functions or scalable vectors",
  breaks="an illegal array type is built",
  demo=r'''
use llvm_support::ty::Type;
fn main() {
    let f = Type::new_function(Type::Void, vec![], false).unwrap();
    for n in [0, 1, 2] { assert!(Type::new_array(n, f.clone()).is_err(), "{}", n); }
}
'''))
S.append(dict(id="C22-shift-64", prop="C22",
  edits=[(AL, "            _ => Ok(MaybeAlign(Some(Align::from_shift(value - 1)?))),", "            _ if value > Align::MAX_SHIFT + 2 => Err(AlignError::ShiftTooBig(value)),\n            _ => Ok(MaybeAlign(Some(Align(value - 1)))),")],
  needs="an encoded alignment of exactly 65",
  breaks="an alignment with exponent 64 exists",
  demo=r'''
use std::convert::TryFrom;
use llvm_support::align::MaybeAlign;
fn main() {
    for v in 0..=255u8 { assert_eq!(MaybeAlign::try_from(v).is_ok(), v <= 64, "{}", v); }
}
'''))
S.append(dict(id="C06-wide-letter", prop="C06",
  edits=[(AL, "        let parts: Vec<&str> = body.split(':').collect();\n\n        match id {\n            // Aggregates", "        let parts: Vec<&str> = body.split(':').collect();\n\n        match id {\n            // Aggregates")],
  needs="", breaks="", demo=""))
S.pop()
S.append(dict(id="C20-default-linkage", prop="C20",
  edits=[], needs="", breaks="", demo=""))
S.pop()
