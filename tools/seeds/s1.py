S = []
CUR, PAR, ABB, UNR = "llvm-bitcursor/src/lib.rs", "llvm-bitstream/src/parser.rs", "llvm-bitstream/src/abbrev.rs", "llvm-mapper/src/unroll.rs"
S.append(dict(id="C01-pending-high", prop="C01",
  edits=[(CUR, "        let part_1 = if self.bit_index > 0 {\n            self.current_block\n", "        let part_1 = if self.bit_index > 0 {\n            self.current_block & 0xffff_ffff\n")],
  needs="a read of more than 33 bits that crosses into the next window while more than 32 bits of the current one are still pending",
  breaks="the pending bits above the 32nd are read as zero",
  demo=r'''
use llvm_bitcursor::BitCursor;
fn main() {
    let data: Vec<u8> = (0..24u8).map(|x| x.wrapping_mul(37) ^ 0xd5).collect();
    let bit = |i: usize| (data[i / 8] >> (i % 8)) as u64 & 1;
    for a in 1..64usize {
        for b in 1..64usize {
            let mut c = BitCursor::new(&data[..]);
            c.read(a).unwrap();
            let want = (0..b).fold(0, |v, i| v | (bit(a + i) << i));
            assert_eq!(c.read(b).unwrap(), want, "{} then {}", a, b);
        }
    }
}
'''))
S.append(dict(id="C02-seek-noop", prop="C02",
  edits=[(CUR, "        // Actually update our location.\n        self.byte_pos = off;\n", "        // Nothing to do if we're already there: keep the current block.\n        if off == self.tell_byte() {\n            return Ok(off as u64);\n        }\n\n        // Actually update our location.\n        self.byte_pos = off;\n")],
  needs="a byte-granular seek to the byte the cursor is already in the middle of",
  breaks="the cursor stays in the middle of the byte instead of moving to its start",
  demo=r'''
use llvm_bitcursor::BitCursor;
use std::io::{Seek, SeekFrom};
fn main() {
    let data = [0xa5u8, 0x3c, 0x7e, 0x81, 0x99, 0x12, 0x34, 0x56, 0x78, 0x9a];
    for n in 1..40 {
        let mut c = BitCursor::new(&data[..]);
        c.read(n).unwrap();
        let at = c.tell_byte();
        assert_eq!(c.seek(SeekFrom::Start(at as u64)).unwrap(), at as u64);
        assert_eq!(c.tell_bit(), at * 8, "after reading {} bits", n);
        assert_eq!(c.read(8).unwrap(), data[at] as u64);
    }
}
'''))
S.append(dict(id="C10-setbid-sticky", prop="C10",
  edits=[(PAR, "            *blockinfo_block_id = Some(new_bid);", "            if blockinfo_block_id.is_none() || new_bid != ReservedBlockId::BlockInfo as u64 {\n                *blockinfo_block_id = Some(new_bid);\n            }")],
  needs="a BLOCKINFO block that selects some block and afterwards selects block 0 itself",
  breaks="abbreviations defined for block 0 end up on the previously selected block",
  demo=r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    let mut w = W::new();
    w.enter(0, 3);
    w.rec(1, &[9]);
    w.rec(1, &[0]);
    w.id(2).vbr(1, 5).fixed(1, 1).vbr(7, 8); // one literal operand, for block 0
    w.end();
    // block 9 must not know abbreviation 4
    w.enter(9, 3);
    w.id(4);
    w.align().fixed(0, 64);
    let data = w.bytes();
    let (_, s) = Bitstream::from(&data[..]).unwrap();
    let mut out = vec![];
    for e in s { match e { Ok(StreamEntry::Record(r)) => out.push(r.code), Err(_) => break, _ => {} } }
    assert!(out.is_empty(), "block 9 decoded records {:?} with another block's abbreviation", out);
}
'''))
S.append(dict(id="C12-char6-tail", prop="C12",
  edits=[(ABB, "                for _ in 0..blob_len {\n                    fields.push(cur.read_exact::<u8>()?.into());\n                }\n                cur.align32();", "                for _ in 0..blob_len {\n                    fields.push(cur.read_exact::<u8>()?.into());\n                }\n                if blob_len > 0 {\n                    cur.align32();\n                }")],
  needs="a blob of length zero",
  breaks="",
  demo=""))
S.pop()
S.append(dict(id="C12-blob-wide", prop="C12",
  edits=[(ABB, "                for _ in 0..blob_len {\n                    fields.push(cur.read_exact::<u8>()?.into());\n                }\n", "                for idx in 0..blob_len {\n                    // Trailing padding is not part of the data proper.\n                    let byte = cur.read_exact::<u8>()?;\n                    if idx + 1 == blob_len && byte == 0 && blob_len % 4 == 0 {\n                        break;\n                    }\n                    fields.push(byte.into());\n                }\n")],
  needs="a blob whose length is a multiple of four and whose last byte is zero",
  breaks="the last byte of the blob is dropped",
  demo=r'''
use llvm_bitstream::{Bitstream, parser::StreamEntry};
fn main() {
    for blob in [&b"abcd"[..], b"abc\0", b"ab\0", b"\0\0\0\0", b"abcdef\0\0", b"\0"] {
        let mut w = W::new();
        w.enter(9, 3);
        w.id(2).vbr(2, 5).fixed(1, 1).vbr(7, 8).fixed(0, 1).fixed(5, 3); // literal code, blob
        w.id(4).vbr(blob.len() as u64, 6).align();
        for b in blob { w.fixed(*b as u64, 8); }
        w.align();
        w.end();
        let data = w.bytes();
        let (_, s) = Bitstream::from(&data[..]).unwrap();
        let mut got = None;
        for e in s { if let StreamEntry::Record(r) = e.unwrap() { got = Some(r.fields); } }
        assert_eq!(got.unwrap(), blob.iter().map(|b| *b as u64).collect::<Vec<_>>());
    }
}
'''))
S.append(dict(id="C14-strtab-reuse", prop="C14",
  edits=[(UNR, "                        .take_while(|p| p.strtab.is_none())\n", "                        .take_while(|p| p.strtab.is_none() && p.module.is_some())\n")],
  needs="a string table that arrives before the module block it belongs to",
  breaks="a module whose string table precedes its module block is rejected",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    let mut w = W::new();
    w.enter(13, 5).text(1, "LLVM15.0.0").rec(2, &[0]).end();
    w.enter(23, 3).text(1, "names").end();
    w.enter(8, 3).rec(1, &[2]);
    w.enter(17, 3).rec(1, &[0]).end();
    vst(&mut w);
    w.end();
    let data = w.bytes();
    let b = llvm_mapper::Bitcode::try_from(&data[..]).expect("a string table before its module is fine");
    assert_eq!(b.modules.len(), 1);
    assert_eq!(b.modules[0].strtab.as_ref(), b"names");
}
'''))
S.append(dict(id="C15-dup-asm", prop="C15",
  edits=[("llvm-mapper/src/block/module.rs", "            .by_code(ModuleCode::GcName)\n            .map(|rec| rec.try_string(0))\n            .collect::<Result<Vec<_>, _>>()\n            .map_err(MapError::RecordString)?;\n", "            .by_code(ModuleCode::GcName)\n            .map(|rec| rec.try_string(0))\n            .collect::<Result<Vec<_>, _>>()\n            .map_err(MapError::RecordString)?;\n        // The same collector is often listed more than once.\n        ctx.gc_table.dedup();\n")],
  needs="two adjacent GC name records with the same text, and a function that refers to one after them",
  breaks="later GC indices refer to the wrong name or to none",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    listen();
    let data = bitcode("fx", |w| {
        w.text(11, "erlang").text(11, "erlang").text(11, "shadow");
        w.enter(17, 3).rec(1, &[2]).rec(2, &[]).rec(21, &[0, 0]).end();
        vst(w);
        w.rec(8, &[0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 3]);
    });
    llvm_mapper::Bitcode::try_from(&data[..]).expect("valid module");
    let m = heard("functions:");
    assert!(m.len() == 1 && m[0].contains("gc_name: Some(\"shadow\")"), "{:?}", m);
}
'''))
S.append(dict(id="C16-section-alias", prop="C16",
  edits=[("llvm-mapper/src/record/function.rs", "            .get(10)\n            .and_then(|idx| match *idx as usize {", "            .get(10)\n            .filter(|_| fields[4] == 0)\n            .and_then(|idx| match *idx as usize {")],
  needs="a function declaration that names a garbage collector",
  breaks="the collector of a declaration is dropped",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    listen();
    let data = bitcode("fx", |w| {
        w.text(11, "erlang");
        w.enter(17, 3).rec(1, &[2]).rec(2, &[]).rec(21, &[0, 0]).end();
        vst(w);
        w.rec(8, &[0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 1]);
    });
    llvm_mapper::Bitcode::try_from(&data[..]).expect("valid module");
    let m = heard("functions:");
    assert!(m.len() == 1 && m[0].contains("gc_name: Some(\"erlang\")"), "{:?}", m);
}
'''))
S.append(dict(id="C11-array-late", prop="C11",
  edits=[(ABB, "                        // The array operand's element type must be a scalar operand type,", "")],
  needs="", breaks="", demo=""))
S.pop()
S.append(dict(id="C28-blob-byte", prop="C28",
  edits=[(UNR, "        Ok(self.0.fields[idx..]\n            .iter()\n            .map(|f| u8::try_from(*f))\n            .collect::<Result<Vec<_>, _>>()?)", "        Ok(self.0.fields[idx..]\n            .iter()\n            .filter(|f| **f != u64::from(u32::MAX))\n            .map(|f| u8::try_from(*f))\n            .collect::<Result<Vec<_>, _>>()?)")],
  needs="a blob record holding the value 0xffffffff in some field",
  breaks="a field that is no byte is skipped instead of making the extraction fail",
  demo=r'''
use std::convert::TryFrom;
fn main() {
    let mut w = W::new();
    w.enter(13, 5).text(1, "LLVM15.0.0").rec(2, &[0]).end();
    w.enter(8, 3).rec(1, &[2]);
    w.enter(17, 3).rec(1, &[0]).end();
    vst(&mut w);
    w.end();
    w.enter(23, 3).rec(1, &[97, 98, 0xffffffff, 99]).end();
    let data = w.bytes();
    assert!(llvm_mapper::Bitcode::try_from(&data[..]).is_err());
}
'''))
