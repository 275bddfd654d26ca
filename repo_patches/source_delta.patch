From 762eb21a2f99af121acc5e67e74b4400d756b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 01/36] fix: reject VBRs that don't fit into 64 bits instead of
 overflowing

---
 llvm-bitcursor/src/error.rs | 4 ++++
 llvm-bitcursor/src/lib.rs   | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/error.rs b/llvm-bitcursor/src/error.rs
index 905a66c..9c5c9cb 100644
--- a/llvm-bitcursor/src/error.rs
+++ b/llvm-bitcursor/src/error.rs
@@ -25,6 +25,10 @@ pub enum Error {
     #[cfg(any(feature = "vbr", doc))]
     #[error("invalid VBR width (must be > 1 but <= system word width)")]
     InvalidVbrWidth,
+    /// A VBR-encoded integer doesn't fit into 64 bits.
+    #[cfg(any(feature = "vbr", doc))]
+    #[error("VBR-encoded integer is too large (must fit into 64 bits)")]
+    VbrOverflow,
     /// An I/O operation completed partially, but the inner buffer ended before it full completion.
     #[error("too little data to service request")]
     Short,
diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 70a6d59..84cbb3d 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -298,7 +298,13 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
             // Read a block, add it to the result (with the potential continuation bit masked off)
             let block = self.read(width)?;
             log::debug!("block: {:#b}, masked: {:#b}", block, block & !block_mask);
-            result |= (block & !block_mask) << shift;
+            let payload = block & !block_mask;
+
+            // Like LLVM, we don't support VBRs that can't be represented in 64 bits.
+            if shift >= Self::BLOCK_SIZE_BITS || (payload << shift) >> shift != payload {
+                return Err(Error::VbrOverflow);
+            }
+            result |= payload << shift;
 
             // If we don't have a continuation bit, then we're done with the VBR.
             let continuation = (block & block_mask) != 0;
-- 
2.43.0


From 162bfeaf465194d5dd31391f3cddc0d0d956483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 02/36] fix: don't overflow on extreme relative seeks

---
 llvm-bitcursor/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index 84cbb3d..c92a7c4 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -379,7 +379,11 @@ impl<T: AsRef<[u8]>> io::Seek for BitCursor<T> {
                 // Seeking backwards from the end is perfectly fine.
                 ((self.byte_len() as i64) + pos) as u64
             }
-            io::SeekFrom::Current(pos) => ((self.tell_byte() as i64) + pos) as u64,
+            io::SeekFrom::Current(pos) => (self.tell_byte() as i64)
+                .checked_add(pos)
+                .ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidInput, "impossible seek requested")
+                })? as u64,
         } as usize;
 
         // Sanity check: we can't seek before or beyond the backing buffer.
-- 
2.43.0


From 8ea2a91f8411c6d19f80b67996e1f1a8b81ddc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 03/36] fix: align on the 32-bit boundary of the stream, not of
 the loaded block

---
 llvm-bitcursor/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/llvm-bitcursor/src/lib.rs b/llvm-bitcursor/src/lib.rs
index c92a7c4..eef901a 100644
--- a/llvm-bitcursor/src/lib.rs
+++ b/llvm-bitcursor/src/lib.rs
@@ -344,10 +344,17 @@ impl<T: AsRef<[u8]>> BitCursor<T> {
     pub fn align32(&mut self) {
         log::debug!("aligning the cursor");
 
-        if self.bit_index >= 32 {
-            self.current_block >>= self.bit_index - 32;
-            self.bit_index = 32;
+        // The number of bits between our position and the next 32-bit boundary.
+        let skip = (32 - self.tell_bit() % 32) % 32;
+
+        if skip < self.bit_index {
+            self.current_block >>= skip;
+            self.bit_index -= skip;
         } else {
+            // The boundary lies at or beyond the end of our current block (which isn't
+            // necessarily a multiple of 32 bits itself). Never align past our own end.
+            let bytes_left = (skip - self.bit_index) / 8;
+            self.byte_pos = (self.byte_pos + bytes_left).min(self.byte_len());
             self.clear_block_state();
         }
     }
-- 
2.43.0


From b2eca1401f64f9b2c74a9c08f778013976c4903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 04/36] fix: end a wrapped bitstream at the wrapper's offset
 plus its size

---
 llvm-bitstream/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/llvm-bitstream/src/lib.rs b/llvm-bitstream/src/lib.rs
index 8b68c61..734ac06 100644
--- a/llvm-bitstream/src/lib.rs
+++ b/llvm-bitstream/src/lib.rs
@@ -120,10 +120,10 @@ impl<T: AsRef<[u8]>> Bitstream<T> {
         // NOTE(ww): The `new_with_len` API is a little bit silly -- ideally we'd just
         // take a slice of `inner` and create a new `BitCursor` with it, but we can't do
         // that while preserving the generic `T` bound.
-        // The manual fixup (+ 20) is another artifact of this -- we keep the wrapper header
-        // in the new cursor to make the offsets more intelligible, which means that we
-        // also need to extend the end of our cursor's buffer.
-        let actual_length = (wrapper.size as usize) + 20;
+        // The manual fixup (+ offset) is another artifact of this -- we keep everything before
+        // the wrapped bitstream in the new cursor to make the offsets more intelligible, which
+        // means that we also need to extend the end of our cursor's buffer.
+        let actual_length = (wrapper.size as usize) + (wrapper.offset as usize);
         let mut cur = BitCursor::new_with_len(inner, actual_length)?;
 
         cur.seek(SeekFrom::Start(wrapper.offset.into()))
-- 
2.43.0


From 23dac9afee2e7ac93cf401461539c07864b6a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 05/36] fix: don't recurse for every internal entry while
 advancing

---
 llvm-bitstream/src/parser.rs | 38 +++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index a92a88a..b5efb3b 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -382,6 +382,19 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
     /// [`Error::Exhausted`](Error::Exhausted) if the bitstream has
     /// been fully consumed.
     pub fn advance(&mut self) -> Result<StreamEntry, Error> {
+        // NOTE(ww): Not every item in the stream corresponds to a `StreamEntry`: parse details
+        // that a stream consumer shouldn't have to be aware of (such as abbrev definitions and
+        // the BLOCKINFO block) are consumed until we find something to return.
+        loop {
+            if let Some(entry) = self.advance_one()? {
+                return Ok(entry);
+            }
+        }
+    }
+
+    /// Consume a single item in this bitstream, returning its [`StreamEntry`](StreamEntry)
+    /// or `None` if it's a parse detail.
+    fn advance_one(&mut self) -> Result<Option<StreamEntry>, Error> {
         if self.cursor.exhausted() {
             return Err(Error::Exhausted);
         }
@@ -401,32 +414,17 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             .into();
         log::debug!("next entry ID: {:?}", id);
 
-        // NOTE(ww): The strange `map` + `unwrap_or_else` pattern below is to keep the parser
-        // generalized without having to return `StreamEntries` that correspond to
-        // parse details that a stream consumer shouldn't have to be aware of
-        // (such as abbrev definitions and the BLOCKINFO block).
         match id {
-            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => {
-                self.exit_block()?.map(Ok).unwrap_or_else(|| self.advance())
-            }
-            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self
-                .enter_block()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::EndBlock) => self.exit_block(),
+            AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) => self.enter_block(),
             AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) => {
                 // DEFINE_ABBREV is always a parse detail, so we don't even bother
                 // trying to return a StreamEntry for it.
                 self.define_abbrev()?;
-                self.advance()
+                Ok(None)
             }
-            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self
-                .parse_unabbrev()?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
-            AbbrevId::Defined(abbrev_id) => self
-                .parse_with_abbrev(abbrev_id)?
-                .map(Ok)
-                .unwrap_or_else(|| self.advance()),
+            AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) => self.parse_unabbrev(),
+            AbbrevId::Defined(abbrev_id) => self.parse_with_abbrev(abbrev_id),
         }
     }
 }
-- 
2.43.0


From 5cb44409947943c939ec5e31650c79ee3d120b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 06/36] fix: don't underflow on an abbreviation with a lone
 array operand

---
 llvm-bitstream/src/abbrev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index e7293f7..5560003 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -174,7 +174,7 @@ impl Abbrev {
                 AbbrevOpEnc::Array => {
                     // There is only ever one array operand in an abbreviation definition,
                     // and it is always the second-to-last operand. Anything else is an error.
-                    if idx != num_abbrev_opnds - 2 {
+                    if idx + 2 != num_abbrev_opnds {
                         return Err(Error::AbbrevParse("array operand at invalid index".into()));
                     }
 
-- 
2.43.0


From 6d85e802bab9d7c557fd2fb29f7dde71152ba708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 07/36] fix: don't allocate according to untrusted counts in
 the bitstream

---
 llvm-bitstream/src/abbrev.rs | 6 ++++--
 llvm-bitstream/src/parser.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/llvm-bitstream/src/abbrev.rs b/llvm-bitstream/src/abbrev.rs
index 5560003..a8d11ff 100644
--- a/llvm-bitstream/src/abbrev.rs
+++ b/llvm-bitstream/src/abbrev.rs
@@ -78,7 +78,8 @@ impl AbbrevOp {
                 // TODO(ww): Sanity check array_len here.
                 let array_len = cur.read_vbr(6)? as usize;
 
-                let mut fields: Fields = Vec::with_capacity(array_len);
+                // NOTE: `array_len` is untrusted, so we can't use it as a capacity.
+                let mut fields: Fields = Vec::new();
                 for _ in 0..array_len {
                     fields.extend(elem.parse(cur)?);
                 }
@@ -98,7 +99,8 @@ impl AbbrevOp {
                 // TODO(ww): This read loop is probably slower than it needs to be;
                 // `BitCursor` could probably learn a `read_bytes` API that's
                 // only allowed when the stream is byte-aligned.
-                let mut fields: Fields = Vec::with_capacity(blob_len);
+                // NOTE: `blob_len` is untrusted, so we can't use it as a capacity.
+                let mut fields: Fields = Vec::new();
                 for _ in 0..blob_len {
                     fields.push(cur.read_exact::<u8>()?.into());
                 }
diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index b5efb3b..dd3b017 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -322,7 +322,8 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         log::debug!("unabbrev record code={}, num_opnds={}", code, num_opnds);
 
-        let mut fields: Fields = Vec::with_capacity(num_opnds as usize);
+        // NOTE: `num_opnds` is untrusted, so we can't use it as a capacity.
+        let mut fields: Fields = Vec::new();
         for _ in 0..num_opnds {
             fields.push(self.cursor.read_vbr(6)?);
         }
-- 
2.43.0


From 41bfd8efa8b57754a11e06cd49d8bca0006f705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 08/36] fix: don't panic on abbreviated records without any
 fields

---
 llvm-bitstream/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index dd3b017..52433bf 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -362,8 +362,14 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         let mut fields = abbrev.parse(&mut self.cursor)?;
         log::debug!("parsed fields: {:?}", fields);
 
-        // Panic safety: every abbrev contains at least one operand, so this cannot panic.
+        // Every abbrev contains at least one operand, but that operand can be an empty
+        // array or blob and therefore yield no fields at all.
         // We also expect the first operand to always be a u64, indicating the record code.
+        if fields.is_empty() {
+            return Err(Error::StreamParse(
+                "abbreviated record has no record code".into(),
+            ));
+        }
         let code: u64 = fields.remove(0);
 
         if self.scope().is_blockinfo() {
-- 
2.43.0


From 1680a8dd3eae937a7f93363d7f82e83842bb9f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 09/36] fix: don't panic on SETBID without a block ID

---
 llvm-bitstream/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 52433bf..3f2ac29 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -333,7 +333,9 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
             let code: BlockInfoCode = record.code.try_into()?;
             match code {
                 BlockInfoCode::SetBid => {
-                    let block_id: u64 = record.fields[0];
+                    let block_id: u64 = *record.fields.first().ok_or_else(|| {
+                        Error::StreamParse("SETBID in BLOCKINFO has no block ID".into())
+                    })?;
                     log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
                     self.scope_mut().set_blockinfo_block_id(block_id)?;
                 }
-- 
2.43.0


From 38543a567a7c955125acef597f3ccd95d7fb211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 10/36] fix: limit block nesting while unrolling

---
 llvm-mapper/src/unroll.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 614ccd0..829420c 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -263,10 +263,19 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
 
     /// Attempt to map the given bitstream into an `Bitcode`.
     fn try_from(mut bitstream: Bitstream<T>) -> Result<Bitcode, Self::Error> {
+        // Blocks only nest a few levels deep in real bitcode; the limit here prevents
+        // a malformed bitstream from exhausting our stack.
+        const MAX_BLOCK_DEPTH: usize = 64;
+
         fn enter_block<T: AsRef<[u8]>>(
             bitstream: &mut Bitstream<T>,
             block: BsBlock,
+            depth: usize,
         ) -> Result<Block, Error> {
+            if depth >= MAX_BLOCK_DEPTH {
+                return Err(Error::Unroll("blocks are nested too deeply".into()));
+            }
+
             let mut unrolled_block = Block::new(block.block_id);
 
             // Once we're in a block, we do the following:
@@ -283,7 +292,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                 match entry? {
                     StreamEntry::Record(record) => unrolled_block.records.0.push(Record(record)),
                     StreamEntry::SubBlock(block) => {
-                        let unrolled_child = enter_block(bitstream, block)?;
+                        let unrolled_child = enter_block(bitstream, block, depth + 1)?;
                         unrolled_block
                             .blocks
                             .0
@@ -325,7 +334,7 @@ impl<T: AsRef<[u8]>> TryFrom<Bitstream<T>> for Bitcode {
                     Error::Unroll("bitstream has non-blocks at the top-level scope".into())
                 })?;
 
-                enter_block(&mut bitstream, block)?
+                enter_block(&mut bitstream, block, 0)?
             };
 
             // Our top-level block can be one of four cases, if it's valid.
-- 
2.43.0


From a626f92933cbb01233ff848d78c4370cfd6cca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 11/36] fix: limit type nesting (and reject cycles) while
 resolving types

---
 llvm-mapper/src/block/type_table.rs | 33 +++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 3ffdaa9..e41eb8e 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -108,7 +108,7 @@ enum PartialType {
 impl PartialType {
     /// Fallibly convert this `PartialType` into a `Type`, using the given
     /// `PartialTypeTable` as a reference.
-    fn resolve(&self, partials: &PartialTypeTable) -> Result<Type, TypeTableError> {
+    fn resolve(&self, partials: &PartialTypeTable, depth: usize) -> Result<Type, TypeTableError> {
         match self {
             PartialType::Half => Ok(Type::Half),
             PartialType::BFloat => Ok(Type::BFloat),
@@ -125,17 +125,17 @@ impl PartialType {
             PartialType::Token => Ok(Type::Token),
             PartialType::Integer(ity) => Ok(Type::new_integer(ity.bit_width)?),
             PartialType::Function(fty) => {
-                let return_type = partials.resolve(&fty.return_type)?;
+                let return_type = partials.resolve(&fty.return_type, depth)?;
                 let param_types = fty
                     .param_types
                     .iter()
-                    .map(|ty_ref| partials.resolve(ty_ref))
+                    .map(|ty_ref| partials.resolve(ty_ref, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_function(return_type, param_types, fty.is_vararg)?)
             }
             PartialType::Pointer(pty) => {
-                let pointee = partials.resolve(&pty.pointee)?;
+                let pointee = partials.resolve(&pty.pointee, depth)?;
 
                 Ok(Type::new_pointer(pointee, pty.address_space)?)
             }
@@ -144,7 +144,7 @@ impl PartialType {
                 let field_types = sty
                     .field_types
                     .iter()
-                    .map(|fty| partials.resolve(fty))
+                    .map(|fty| partials.resolve(fty, depth))
                     .collect::<Result<Vec<_>, _>>()?;
 
                 Ok(Type::new_struct(
@@ -154,20 +154,20 @@ impl PartialType {
                 )?)
             }
             PartialType::Array(aty) => {
-                let element_type = partials.resolve(&aty.element_type)?;
+                let element_type = partials.resolve(&aty.element_type, depth)?;
 
                 Ok(Type::new_array(aty.num_elements, element_type)?)
             }
             PartialType::FixedVector(vty) => {
                 log::debug!("vty: {:?}", vty);
 
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
                 log::debug!("element_type: {:?}", partials.get(&vty.element_type));
 
                 Ok(Type::new_vector(vty.num_elements, element_type)?)
             }
             PartialType::ScalableVector(vty) => {
-                let element_type = partials.resolve(&vty.element_type)?;
+                let element_type = partials.resolve(&vty.element_type, depth)?;
 
                 Ok(Type::new_scalable_vector(vty.num_elements, element_type)?)
             }
@@ -225,6 +225,9 @@ struct PartialTypeTable {
 }
 
 impl PartialTypeTable {
+    /// The maximum nesting of types that we're willing to resolve.
+    const MAX_TYPE_DEPTH: usize = 128;
+
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
@@ -248,14 +251,22 @@ impl PartialTypeTable {
     }
 
     /// Fallibly converts the given `TypeRef` into a fully owned `Type`.
-    fn resolve(&self, ty_ref: &TypeRef) -> Result<Type, TypeTableError> {
+    fn resolve(&self, ty_ref: &TypeRef, depth: usize) -> Result<Type, TypeTableError> {
+        // Types can refer to each other in any order, including cyclically.
+        if depth >= Self::MAX_TYPE_DEPTH {
+            return Err(MapError::Unsupported(
+                "types are nested too deeply or refer to themselves".into(),
+            )
+            .into());
+        }
+
         // `TypeRef` resolution happens in two steps: we grab the corresponding
         // `PartialType`, and then resolve its subtypes.
         let pty = self.get(ty_ref)?;
 
         log::debug!("type ref {} resolves to {:?}", ty_ref.0, pty);
 
-        pty.resolve(self)
+        pty.resolve(self, depth + 1)
     }
 
     /// Fallibly converts this `PartialTypeTable` into a `TypeTable`.
@@ -269,7 +280,7 @@ impl PartialTypeTable {
         let types = self
             .inner
             .iter()
-            .map(|pty| pty.resolve(&self))
+            .map(|pty| pty.resolve(&self, 0))
             .collect::<Result<Vec<_>, _>>()?;
 
         Ok(TypeTable(types))
-- 
2.43.0


From 2a45c6ae06623baac7bad75cdcb8436733d85160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 12/36] fix: don't allocate according to the untrusted type
 table size

---
 llvm-mapper/src/block/type_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index e41eb8e..133266c 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -231,7 +231,8 @@ impl PartialTypeTable {
     fn new(numentries: usize) -> Self {
         Self {
             numentries: numentries,
-            inner: Vec::with_capacity(numentries),
+            // NOTE: `numentries` is untrusted, so we can't use it as a capacity.
+            inner: Vec::new(),
         }
     }
 
-- 
2.43.0


From e02c0b26da5960f0b03dbc64632883163eae1096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 13/36] fix: don't underflow when extracting strings and blobs
 from empty records

---
 llvm-mapper/src/unroll.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/unroll.rs b/llvm-mapper/src/unroll.rs
index 829420c..544fbd1 100644
--- a/llvm-mapper/src/unroll.rs
+++ b/llvm-mapper/src/unroll.rs
@@ -34,7 +34,7 @@ impl Record {
     pub fn try_string(&self, idx: usize) -> Result<String, RecordStringError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordStringError::BadIndex(idx, self.0.fields.len()));
         }
 
@@ -54,7 +54,7 @@ impl Record {
     pub fn try_blob(&self, idx: usize) -> Result<Vec<u8>, RecordBlobError> {
         // If our start index lies beyond the record fields or would produce
         // an empty string, it's invalid.
-        if idx >= self.0.fields.len() - 1 {
+        if idx >= self.0.fields.len().saturating_sub(1) {
             return Err(RecordBlobError::BadIndex(idx, self.0.fields.len()));
         }
 
-- 
2.43.0


From 7b25c04545c90dec5e5df808acf17aeae6e29245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 14/36] fix: don't overflow on string table references with
 huge offsets or sizes

---
 llvm-mapper/src/block/strtab.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/strtab.rs b/llvm-mapper/src/block/strtab.rs
index 8b1548f..b0154da 100644
--- a/llvm-mapper/src/block/strtab.rs
+++ b/llvm-mapper/src/block/strtab.rs
@@ -79,7 +79,11 @@ impl Strtab {
     pub fn try_get(&self, sref: &StrtabRef) -> Result<&str, StrtabError> {
         let inner = self.as_ref();
 
-        if sref.size == 0 || sref.offset >= inner.len() || sref.offset + sref.size > inner.len() {
+        // NOTE: The last condition can't underflow, and (unlike a sum) can't overflow either.
+        if sref.size == 0
+            || sref.offset >= inner.len()
+            || sref.size > inner.len() - sref.offset
+        {
             return Err(StrtabError::BadRange);
         }
 
-- 
2.43.0


From 74c2f4e4cbe5d43862961df29720471e98711f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 15/36] fix: don't panic on an attribute whose key string ends
 the record

---
 llvm-mapper/src/block/attributes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index ad39a9c..964bcff 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -393,7 +393,10 @@ impl Attribute {
         macro_rules! take_string {
             // NOTE(ww): Weird double-brace to make sure the macro expands as a full expression.
             () => {{
-                let str_bytes = record.fields()[start + fieldcount..]
+                let str_bytes = record
+                    .fields()
+                    .get(start + fieldcount..)
+                    .ok_or(AttributeError::TooShort)?
                     .iter()
                     .take_while(|f| **f != 0)
                     .map(|f| u8::try_from(*f))
-- 
2.43.0


From 4b0f27f808183a3cc73fa359a5aec1286fb8a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 16/36] fix: return an error for old attribute entries instead
 of panicking

---
 llvm-mapper/src/block/attributes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 964bcff..86f62df 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -478,7 +478,10 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
 
             match code {
                 AttributeCode::EntryOld => {
-                    unimplemented!();
+                    return Err(MapError::Unsupported(
+                        "unsupported: old attribute entry codes; please implement!".into(),
+                    )
+                    .into());
                 }
                 AttributeCode::Entry => {
                     let mut groups = vec![];
-- 
2.43.0


From b1d2b1f37fe39b30e84ed638409684e4615786f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 17/36] fix: return errors for unsupported function records
 instead of panicking

---
 llvm-mapper/src/block/function/mod.rs | 94 ++++++++++++++-------------
 1 file changed, 50 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 605ede3..6c25896 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -111,16 +111,22 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
             // * Operand bundles (`OPERAND_BUNDLE`)
             //
             // Each category is grouped below, with the smaller ones first.
+            macro_rules! unsupported {
+                () => {
+                    return Err(MapError::Unsupported(format!("function code {code:?}")).into())
+                };
+            }
+
             match code {
                 // Handled above.
                 FunctionCode::DeclareBlocks => continue,
 
                 // Operand bundles.
-                FunctionCode::OperandBundle => unimplemented!(),
+                FunctionCode::OperandBundle => unsupported!(),
 
                 // Debug state.
-                FunctionCode::DebugLoc => unimplemented!(),
-                FunctionCode::DebugLocAgain => unimplemented!(),
+                FunctionCode::DebugLoc => unsupported!(),
+                FunctionCode::DebugLocAgain => unsupported!(),
 
                 // The big one: all instructions.
                 FunctionCode::InstBinop => {
@@ -133,18 +139,18 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opval, opty, destty, castopc]
                     let [_opval, _opty, _destty, _castopc] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstGepOld => todo!(),
-                FunctionCode::InstSelect => todo!(),
-                FunctionCode::InstExtractelt => todo!(),
-                FunctionCode::InstInsertelt => todo!(),
-                FunctionCode::InstShufflevec => todo!(),
-                FunctionCode::InstCmp => todo!(),
-                FunctionCode::InstRet => todo!(),
-                FunctionCode::InstBr => todo!(),
-                FunctionCode::InstSwitch => todo!(),
-                FunctionCode::InstInvoke => todo!(),
-                FunctionCode::InstUnreachable => todo!(),
-                FunctionCode::InstPhi => todo!(),
+                FunctionCode::InstGepOld => unsupported!(),
+                FunctionCode::InstSelect => unsupported!(),
+                FunctionCode::InstExtractelt => unsupported!(),
+                FunctionCode::InstInsertelt => unsupported!(),
+                FunctionCode::InstShufflevec => unsupported!(),
+                FunctionCode::InstCmp => unsupported!(),
+                FunctionCode::InstRet => unsupported!(),
+                FunctionCode::InstBr => unsupported!(),
+                FunctionCode::InstSwitch => unsupported!(),
+                FunctionCode::InstInvoke => unsupported!(),
+                FunctionCode::InstUnreachable => unsupported!(),
+                FunctionCode::InstPhi => unsupported!(),
                 FunctionCode::InstAlloca => {
                     // [instty, opty, op, align]
                     let [_instty, _opty, _op, _align] = unpack_fields!(4)?;
@@ -153,49 +159,49 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
                     // [opty, op, align, vol]
                     let [_opty, _op, _align, _vol] = unpack_fields!(4)?;
                 }
-                FunctionCode::InstVaarg => todo!(),
-                FunctionCode::InstStoreOld => todo!(),
-                FunctionCode::InstExtractval => todo!(),
-                FunctionCode::InstInsertval => todo!(),
-                FunctionCode::InstCmp2 => todo!(),
-                FunctionCode::InstVselect => todo!(),
-                FunctionCode::InstInboundsGepOld => todo!(),
-                FunctionCode::InstIndirectbr => todo!(),
-                FunctionCode::InstCall => todo!(),
-                FunctionCode::InstFence => todo!(),
-                FunctionCode::InstCmpxchgOld => todo!(),
-                FunctionCode::InstAtomicrmwOld => todo!(),
-                FunctionCode::InstResume => todo!(),
-                FunctionCode::InstLandingpadOld => todo!(),
-                FunctionCode::InstLoadatomic => todo!(),
-                FunctionCode::InstStoreatomicOld => todo!(),
-                FunctionCode::InstGep => todo!(),
+                FunctionCode::InstVaarg => unsupported!(),
+                FunctionCode::InstStoreOld => unsupported!(),
+                FunctionCode::InstExtractval => unsupported!(),
+                FunctionCode::InstInsertval => unsupported!(),
+                FunctionCode::InstCmp2 => unsupported!(),
+                FunctionCode::InstVselect => unsupported!(),
+                FunctionCode::InstInboundsGepOld => unsupported!(),
+                FunctionCode::InstIndirectbr => unsupported!(),
+                FunctionCode::InstCall => unsupported!(),
+                FunctionCode::InstFence => unsupported!(),
+                FunctionCode::InstCmpxchgOld => unsupported!(),
+                FunctionCode::InstAtomicrmwOld => unsupported!(),
+                FunctionCode::InstResume => unsupported!(),
+                FunctionCode::InstLandingpadOld => unsupported!(),
+                FunctionCode::InstLoadatomic => unsupported!(),
+                FunctionCode::InstStoreatomicOld => unsupported!(),
+                FunctionCode::InstGep => unsupported!(),
                 FunctionCode::InstStore => {
                     // [ptrty, ptr, valty, val, align, vol]
                     let [_ptrty, _ptr, _valty, _val] = unpack_fields!(4)?;
 
                     // NOTE: Two more optional fields: align and vol.
                 }
-                FunctionCode::InstStoreatomic => todo!(),
-                FunctionCode::InstCmpxchg => todo!(),
-                FunctionCode::InstLandingpad => todo!(),
-                FunctionCode::InstCleanupret => todo!(),
-                FunctionCode::InstCatchret => todo!(),
-                FunctionCode::InstCatchpad => todo!(),
-                FunctionCode::InstCleanuppad => todo!(),
-                FunctionCode::InstCatchswitch => todo!(),
+                FunctionCode::InstStoreatomic => unsupported!(),
+                FunctionCode::InstCmpxchg => unsupported!(),
+                FunctionCode::InstLandingpad => unsupported!(),
+                FunctionCode::InstCleanupret => unsupported!(),
+                FunctionCode::InstCatchret => unsupported!(),
+                FunctionCode::InstCatchpad => unsupported!(),
+                FunctionCode::InstCleanuppad => unsupported!(),
+                FunctionCode::InstCatchswitch => unsupported!(),
                 FunctionCode::InstUnop => {
                     // [opval, ty, opcode]
                     let [_opval, ty, opcode] = unpack_fields!(3)?;
                     let _ty = get_type!(ty)?;
                     let _opcode = UnaryOp::try_from(opcode)?;
                 }
-                FunctionCode::Instcallbr => todo!(),
-                FunctionCode::InstFreeze => todo!(),
-                FunctionCode::InstAtomicrmw => todo!(),
+                FunctionCode::Instcallbr => unsupported!(),
+                FunctionCode::InstFreeze => unsupported!(),
+                FunctionCode::InstAtomicrmw => unsupported!(),
             }
         }
 
-        unimplemented!()
+        Err(MapError::Unsupported("function block mapping".into()).into())
     }
 }
-- 
2.43.0


From bfad4fce5c781dff62e76c9e998cfda3e3c602d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 18/36] fix: don't allocate according to the untrusted basic
 block count

---
 llvm-mapper/src/block/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llvm-mapper/src/block/function/mod.rs b/llvm-mapper/src/block/function/mod.rs
index 6c25896..311e7f0 100644
--- a/llvm-mapper/src/block/function/mod.rs
+++ b/llvm-mapper/src/block/function/mod.rs
@@ -58,7 +58,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
         // TODO: Handle each `MODULE_CODE_FUNCTION`'s sub-blocks.
 
         // A function block should have exactly one DECLAREBLOCKS record.
-        let nblocks = {
+        let _nblocks = {
             let declareblocks = block
                 .records
                 .exactly_one(FunctionCode::DeclareBlocks)
@@ -72,7 +72,7 @@ impl TryFrom<(&'_ Block, &'_ MapCtx<'_>)> for Function {
 
         // Like the type table, we need a little bit of a state machine to
         // construct each function's basic blocks and constituent instructions.
-        let mut _bbs: Vec<BasicBlock> = Vec::with_capacity(nblocks as usize);
+        let mut _bbs: Vec<BasicBlock> = Vec::new();
         let mut _bb = BasicBlock::default();
 
         for record in block.records.into_iter() {
-- 
2.43.0


From 02d9cd9abb0fe55e5e19c985da63e0f82793da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 19/36] fix: don't truncate function alignments

---
 llvm-mapper/src/record/function.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/function.rs b/llvm-mapper/src/record/function.rs
index ed1966a..42ab7cf 100644
--- a/llvm-mapper/src/record/function.rs
+++ b/llvm-mapper/src/record/function.rs
@@ -49,6 +49,10 @@ pub enum FunctionError {
     #[error("invalid alignment")]
     Alignment(#[from] AlignError),
 
+    /// The function's alignment is far too large to be represented.
+    #[error("alignment too large: {0}")]
+    AlignmentTooBig(u64),
+
     /// The function has an invalid section table index.
     #[error("invalid section table index: {0}")]
     Section(usize),
@@ -155,7 +159,9 @@ impl<'ctx> CtxMappable<'ctx, Record> for Function<'ctx> {
 
         // TODO: Upgrade attributes here? It's what LLVM does.
 
-        let alignment = MaybeAlign::try_from(fields[7] as u8)?;
+        let alignment = MaybeAlign::try_from(
+            u8::try_from(fields[7]).map_err(|_| FunctionError::AlignmentTooBig(fields[7]))?,
+        )?;
 
         let section = match fields[8] as usize {
             0 => None,
-- 
2.43.0


From ca9ce94dbcf86574ca7e4dc6deea0767ffe1d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 20/36] fix: don't truncate integer type widths

---
 llvm-mapper/src/block/type_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index 133266c..adffef9 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -379,7 +379,8 @@ impl TryFrom<&'_ Block> for TypeTable {
                     last_type_name.clear();
                 }
                 TypeCode::Integer => {
-                    let bit_width = type_field!(0) as u32;
+                    let bit_width =
+                        u32::try_from(type_field!(0)).map_err(|_| IntegerTypeError::BadWidth)?;
                     partial_types.add(PartialType::Integer(PartialIntegerType { bit_width }));
                 }
                 TypeCode::Pointer => {
-- 
2.43.0


From 618c873f2fbf2a809d2c8f0c2e2810067cb5c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 21/36] fix: don't truncate attribute group IDs and parameter
 indices

---
 llvm-mapper/src/block/attributes.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 86f62df..b3a5647 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -54,6 +54,10 @@ pub enum AttributeError {
     #[error("attribute group record for {0:?} too short ({1} < 3)")]
     GroupTooShort(AttributeCode, usize),
 
+    /// An attribute group ID or parameter index is too large.
+    #[error("attribute group ID or parameter index too large: {0}")]
+    IdTooBig(u64),
+
     /// Parsing an attribute group didn't fully consume the underlying record fields.
     #[error("under/overconsumed fields in attribute group record ({0} fields, {1} consumed)")]
     GroupSizeMismatch(usize, usize),
@@ -486,7 +490,8 @@ impl TryFrom<(&'_ Block, &'_ PartialMapCtx)> for Attributes {
                 AttributeCode::Entry => {
                     let mut groups = vec![];
                     for group_id in record.fields() {
-                        let group_id = *group_id as u32;
+                        let group_id = u32::try_from(*group_id)
+                            .map_err(|_| AttributeError::IdTooBig(*group_id))?;
                         log::debug!("group id: {}", group_id);
                         groups.push(
                             ctx.attribute_groups()
@@ -569,8 +574,9 @@ impl TryFrom<&'_ Block> for AttributeGroups {
             }
 
             // Panic safety: We check for at least three fields above.
-            let group_id = record.fields()[0] as u32;
-            let disposition: AttributeGroupDisposition = (record.fields()[1] as u32).into();
+            let to_u32 = |id: u64| u32::try_from(id).map_err(|_| AttributeError::IdTooBig(id));
+            let group_id = to_u32(record.fields()[0])?;
+            let disposition: AttributeGroupDisposition = to_u32(record.fields()[1])?.into();
 
             // Each attribute in the group can potentially span multiple fields
             // in the record. Keep track of our field index to ensure that we
-- 
2.43.0


From 5ff3af5da74a83658793e85b8a5b44f65ec7780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 22/36] fix: COMDAT selection kinds are encoded starting from
 one

---
 llvm-mapper/src/record/comdat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/comdat.rs b/llvm-mapper/src/record/comdat.rs
index 38a97ab..41bd89f 100644
--- a/llvm-mapper/src/record/comdat.rs
+++ b/llvm-mapper/src/record/comdat.rs
@@ -43,7 +43,7 @@ pub enum ComdatError {
 #[repr(u64)]
 pub enum SelectionKind {
     /// The linker may choose any COMDAT.
-    Any,
+    Any = 1,
     /// The data referenced by the COMDAT must be the same.
     ExactMatch,
     /// The linker will choose the largest COMDAT.
-- 
2.43.0


From 696b94f6a973f45b08a49f6685e403f0ba2ac525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 23/36] fix: support the nosanitize_bounds attribute

---
 llvm-mapper/src/block/attributes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index b3a5647..9308ab6 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -212,6 +212,8 @@ pub enum EnumAttribute {
     SwiftAsync = AttributeId::SwiftAsync as u64,
     /// `nosanitize_coverage`
     NoSanitizeCoverage = AttributeId::NoSanitizeCoverage as u64,
+    /// `nosanitize_bounds`
+    NoSanitizeBounds = AttributeId::NoSanitizeBounds as u64,
     /// `elementtype`
     ElementType = AttributeId::ElementType as u64,
     /// `disable_sanitizer_instrumentation`
-- 
2.43.0


From 89b217835456bdc0cf4ad312b88b927b6d7e69f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 24/36] fix: store vscale_range in its documented order

---
 llvm-mapper/src/block/attributes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 9308ab6..11a949e 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -347,7 +347,7 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
                     max => max,
                 };
 
-                IntAttribute::VScaleRange(max, min)
+                IntAttribute::VScaleRange(min, max)
             }
             AttributeId::UwTable => {
                 IntAttribute::UwTable(UwTableVariant::try_from(value).map_err(|_| {
-- 
2.43.0


From f6c03bda298390fcb05bb61c8a715d4fc80d469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 25/36] fix: give every named or opaque struct its own type
 table entry

---
 llvm-mapper/src/block/type_table.rs | 57 +++++++----------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/llvm-mapper/src/block/type_table.rs b/llvm-mapper/src/block/type_table.rs
index adffef9..e195b4a 100644
--- a/llvm-mapper/src/block/type_table.rs
+++ b/llvm-mapper/src/block/type_table.rs
@@ -240,10 +240,6 @@ impl PartialTypeTable {
         self.inner.push(ty)
     }
 
-    fn last_mut(&mut self) -> Option<&mut PartialType> {
-        self.inner.last_mut()
-    }
-
     /// Fallibly convert a `TypeRef` into its `PartialType` in this partial type table.
     fn get(&self, ty_ref: &TypeRef) -> Result<&PartialType, TypeTableError> {
         self.inner
@@ -356,25 +352,13 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .into());
                     }
 
-                    // Our opaque type might be forward-referenced. If so, we
-                    // fill in the previous type's name. Otherwise, we create
-                    // a new structure type with no body.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() {
-                            return Err(MapError::Invalid(
-                                "forward-declared opaque type already has name".into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types: vec![],
-                            is_packed: false,
-                        }));
-                    }
+                    // Types are referenced by their index, so each record (even for a type that
+                    // has been referenced already) is its own table entry.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types: vec![],
+                        is_packed: false,
+                    }));
 
                     last_type_name.clear();
                 }
@@ -469,27 +453,12 @@ impl TryFrom<&'_ Block> for TypeTable {
                         .map(|f| TypeRef(*f as usize))
                         .collect::<Vec<_>>();
 
-                    // Like with opaque types, we might be forward-referenced here.
-                    // If so, we update our pre-existing structure type with its
-                    // correct name and fields.
-                    if let Some(PartialType::Struct(s)) = partial_types.last_mut() {
-                        if s.name.is_some() || !s.field_types.is_empty() {
-                            return Err(MapError::Invalid(
-                                "forward-declared struct type already has name and/or type fields"
-                                    .into(),
-                            )
-                            .into());
-                        }
-
-                        s.name = Some(last_type_name.clone());
-                        s.field_types = field_types;
-                    } else {
-                        partial_types.add(PartialType::Struct(PartialStructType {
-                            name: Some(last_type_name.clone()),
-                            field_types,
-                            is_packed,
-                        }));
-                    }
+                    // Like with opaque types: always a new table entry.
+                    partial_types.add(PartialType::Struct(PartialStructType {
+                        name: Some(last_type_name.clone()),
+                        field_types,
+                        is_packed,
+                    }));
 
                     last_type_name.clear();
                 }
-- 
2.43.0


From bd9b1ab566a4d9c38a6ff8de76236acac837ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 26/36] fix: accept binary operations on integer and
 floating-point types

---
 llvm-support/src/opcode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/llvm-support/src/opcode.rs b/llvm-support/src/opcode.rs
index 694f31d..1d09f9d 100644
--- a/llvm-support/src/opcode.rs
+++ b/llvm-support/src/opcode.rs
@@ -155,7 +155,7 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
         let is_fp = ty.is_floating_or_floating_vector();
 
         // Binary operations are only valid on integer/fp types or vectors thereof.
-        if !is_fp || !ty.is_integer_or_integer_vector() {
+        if !is_fp && !ty.is_integer_or_integer_vector() {
             return Err(BinaryOpError::InvalidType(ty.clone()));
         }
 
@@ -177,13 +177,13 @@ impl TryFrom<(u64, &Type)> for BinaryOp {
             (BinaryOpcode::SRem, false) => BinaryOp::SRem,
             (BinaryOpcode::SRem, true) => BinaryOp::FRem,
             // The rest are all integer-type only.
-            (BinaryOpcode::Shl, true) => BinaryOp::Shl,
-            (BinaryOpcode::LShr, true) => BinaryOp::LShr,
-            (BinaryOpcode::AShr, true) => BinaryOp::AShr,
-            (BinaryOpcode::And, true) => BinaryOp::And,
-            (BinaryOpcode::Or, true) => BinaryOp::Or,
-            (BinaryOpcode::Xor, true) => BinaryOp::Xor,
-            (_, false) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
+            (BinaryOpcode::Shl, false) => BinaryOp::Shl,
+            (BinaryOpcode::LShr, false) => BinaryOp::LShr,
+            (BinaryOpcode::AShr, false) => BinaryOp::AShr,
+            (BinaryOpcode::And, false) => BinaryOp::And,
+            (BinaryOpcode::Or, false) => BinaryOp::Or,
+            (BinaryOpcode::Xor, false) => BinaryOp::Xor,
+            (_, true) => return Err(BinaryOpError::IncompatibleType(ty.clone())),
         })
     }
 }
-- 
2.43.0


From 012c4b915ab894a5682958d8be3c6ff5d439274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 27/36] fix: allow vectors of opaque pointers

---
 llvm-support/src/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/ty.rs b/llvm-support/src/ty.rs
index f015dff..a5c2bec 100644
--- a/llvm-support/src/ty.rs
+++ b/llvm-support/src/ty.rs
@@ -166,7 +166,11 @@ impl Type {
     /// assert!(!Type::Metadata.is_vector_element());
     /// ```
     pub fn is_vector_element(&self) -> bool {
-        self.is_floating() || matches!(self, Type::Integer(_) | Type::Pointer(_))
+        self.is_floating()
+            || matches!(
+                self,
+                Type::Integer(_) | Type::Pointer(_) | Type::OpaquePointer(_)
+            )
     }
 
     /// Returns whether this type is "first class", i.e. is a valid type for an LLVM value.
-- 
2.43.0


From 8dcafb3bb0b80cbbb4bd3070ab318039d2cf2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 28/36] fix: don't panic on non-ASCII alignment specifications

---
 llvm-support/src/align.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 163c2ba..cb535fd 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -341,7 +341,7 @@ impl FromStr for TypeAlignSpec {
         // Unwrap safety: we check for a nonempty string above.
         #[allow(clippy::unwrap_used)]
         let id = value.chars().next().unwrap();
-        let body = &value[1..];
+        let body = &value[id.len_utf8()..];
         let parts: Vec<&str> = body.split(':').collect();
 
         match id {
@@ -611,7 +611,11 @@ impl FromStr for PointerAlignSpec {
             ));
         }
 
-        let parts: Vec<&str> = value[1..].split(':').collect();
+        let parts: Vec<&str> = value
+            .get(1..)
+            .ok_or_else(|| AlignSpecError::Parse("non-ASCII specification".into()))?
+            .split(':')
+            .collect();
 
         // We expect no less than 3 parts: `p[n]`, `size`, and `abi`, with
         // `pref` and `idx` being optional.
-- 
2.43.0


From 21cc4197f8e9cb316fa97f54deba3e5a1437782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 29/36] fix: enforce pointer alignment constraints when parsing

---
 llvm-support/src/align.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index cb535fd..ee19427 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -648,13 +648,7 @@ impl FromStr for PointerAlignSpec {
             .map(|idx| idx.parse::<u64>())
             .unwrap_or(Ok(pointer_size))?;
 
-        Ok(Self {
-            address_space: address_space,
-            abi_alignment: abi,
-            preferred_alignment: pref,
-            pointer_size: pointer_size,
-            index_size: index_size,
-        })
+        PointerAlignSpec::new(address_space, abi, pref, pointer_size, index_size)
     }
 }
 
-- 
2.43.0


From 4a2019bfbe3f9c6a18b091c0c895c66c8b935658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 30/36] fix: update pointer alignment specifications by their
 address space

---
 llvm-support/src/align.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index ee19427..76c1296 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -720,7 +720,7 @@ impl PointerAlignSpecs {
             // If we have a match, then we need to either insert or update
             // depending on whether our match is the same spec as us.
             // Panic safety: `pos` is a valid index returned above.
-            Some(pos) => match self.0[pos] == spec {
+            Some(pos) => match self.0[pos].address_space == spec.address_space {
                 true => {
                     // Unwrap safety: `pos` is a valid index returned above.
                     #[allow(clippy::unwrap_used)]
@@ -728,6 +728,8 @@ impl PointerAlignSpecs {
 
                     other.abi_alignment = spec.abi_alignment;
                     other.preferred_alignment = spec.preferred_alignment;
+                    other.pointer_size = spec.pointer_size;
+                    other.index_size = spec.index_size;
                 }
                 false => {
                     self.0.insert(pos + 1, spec);
-- 
2.43.0


From 0018b4a1672bcd022bd5d34f4f200ee8a0414318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 31/36] fix: give i64, vectors and aggregates LLVM's default
 alignments

---
 llvm-support/src/align.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/llvm-support/src/align.rs b/llvm-support/src/align.rs
index 76c1296..ac3abc8 100644
--- a/llvm-support/src/align.rs
+++ b/llvm-support/src/align.rs
@@ -260,6 +260,8 @@ impl AlignedType {
     make_const_aligned!(Integer, 16);
     make_const_aligned!(Integer, 32);
     make_const_aligned!(Integer, 64);
+    make_const_aligned!(Vector, 64);
+    make_const_aligned!(Vector, 128);
 }
 
 /// Errors that can occur when constructing a [`TypeAlignSpec`](TypeAlignSpec)
@@ -469,7 +471,7 @@ impl Default for TypeAlignSpecs {
         // into an infallible constant.
         #[allow(clippy::unwrap_used)]
         Self(vec![
-            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::Aggregate, Align::ALIGN8, Align::ALIGN64).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT32, Align::ALIGN32, Align::ALIGN32).unwrap(),
             TypeAlignSpec::new(AlignedType::FLOAT64, Align::ALIGN64, Align::ALIGN64).unwrap(),
@@ -478,7 +480,9 @@ impl Default for TypeAlignSpecs {
             TypeAlignSpec::new(AlignedType::INTEGER8, Align::ALIGN8, Align::ALIGN8).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER16, Align::ALIGN16, Align::ALIGN16).unwrap(),
             TypeAlignSpec::new(AlignedType::INTEGER32, Align::ALIGN32, Align::ALIGN32).unwrap(),
-            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::INTEGER64, Align::ALIGN32, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR64, Align::ALIGN64, Align::ALIGN64).unwrap(),
+            TypeAlignSpec::new(AlignedType::VECTOR128, Align::ALIGN128, Align::ALIGN128).unwrap(),
         ])
     }
 }
-- 
2.43.0


From 301e47c963038d074c1414aab3cef30b94e9ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 32/36] fix: reject non-integral address spaces without a
 separator

'nix5' and 'ni15' were accepted as address space 5.
---
 llvm-mapper/src/record/datalayout.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index ec771eb..bd2f4e0 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -216,6 +216,13 @@ impl FromStr for DataLayout {
                                     "cannot find address space 0".into(),
                                 ));
                             }
+                            // The address spaces follow a separator, as in `ni:1:2`.
+                            if body.len() > 2 && !body[1..].starts_with(':') {
+                                return Err(DataLayoutError::BadSpecParse(format!(
+                                    "bad separator for non-integral address spaces: {}",
+                                    spec
+                                )));
+                            }
                             datalayout.non_integral_address_spaces = body[2..]
                                 .split(':')
                                 .map(|s| {
-- 
2.43.0


From 0e393fa80b7e818789a7693a34c8807ebecedb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 33/36] fix: reject trailing characters in a mangling
 specification

'm:ex' was accepted as ELF mangling.
---
 llvm-mapper/src/record/datalayout.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/llvm-mapper/src/record/datalayout.rs b/llvm-mapper/src/record/datalayout.rs
index bd2f4e0..8bc00ec 100644
--- a/llvm-mapper/src/record/datalayout.rs
+++ b/llvm-mapper/src/record/datalayout.rs
@@ -168,7 +168,7 @@ impl FromStr for DataLayout {
                 'm' => {
                     // The mangling spec is `m:X`, where `X` is the mangling kind.
                     // We've already parsed `m`, so we expect exactly two characters.
-                    let mut mangling = body.chars().take(2);
+                    let mut mangling = body.chars();
                     match mangling.next() {
                         Some(':') => {}
                         Some(u) => {
@@ -205,6 +205,13 @@ impl FromStr for DataLayout {
                         }
                     };
 
+                    if mangling.next().is_some() {
+                        return Err(DataLayoutError::BadSpecParse(format!(
+                            "trailing characters in mangling spec: {}",
+                            spec
+                        )));
+                    }
+
                     datalayout.mangling = Some(kind);
                 }
                 'n' => {
-- 
2.43.0


From ed6356f090bb7d47a72df38c1dbf58054697ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 34/36] fix: decode alignment attributes as byte counts

---
 llvm-mapper/src/block/attributes.rs | 49 ++++++++++++-----------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 11a949e..36da67f 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -4,7 +4,7 @@ use std::convert::{TryFrom, TryInto};
 
 use hashbrown::HashMap;
 use llvm_support::bitcodes::AttributeCode;
-use llvm_support::{AttributeId, AttributeKind, MaybeAlign};
+use llvm_support::{Align, AlignError, AttributeId, AttributeKind, MaybeAlign};
 use num_enum::{TryFromPrimitive, TryFromPrimitiveError};
 use thiserror::Error;
 
@@ -276,6 +276,17 @@ pub enum IntAttribute {
     MemoryKind(u64),
 }
 
+/// Returns the (potentially unspecified) alignment for an attribute's value.
+///
+/// Unlike the alignments in other records, which are encoded by their shift, an attribute's
+/// alignment is encoded as the number of bytes itself.
+fn byte_align(value: u64) -> Result<MaybeAlign, AlignError> {
+    match value {
+        0 => MaybeAlign::try_from(0),
+        _ => MaybeAlign::try_from(Align::from_byte_align(value)?.shift() + 1),
+    }
+}
+
 impl TryFrom<(AttributeId, u64)> for IntAttribute {
     type Error = AttributeError;
 
@@ -291,34 +302,14 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
         }
 
         Ok(match key {
-            AttributeId::Alignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::Alignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
-            AttributeId::StackAlignment => {
-                let value = u8::try_from(value).map_err(|_| {
-                    AttributeError::AttributeMalformed(
-                        "attribute value too large (invalid alignment)",
-                        key,
-                    )
-                })?;
-
-                IntAttribute::StackAlignment(
-                    MaybeAlign::try_from(value).map_err(|_| {
-                        AttributeError::AttributeMalformed("invalid alignment", key)
-                    })?,
-                )
-            }
+            AttributeId::Alignment => IntAttribute::Alignment(
+                byte_align(value)
+                    .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))?,
+            ),
+            AttributeId::StackAlignment => IntAttribute::StackAlignment(
+                byte_align(value)
+                    .map_err(|_| AttributeError::AttributeMalformed("invalid alignment", key))?,
+            ),
             AttributeId::Dereferenceable => IntAttribute::Dereferenceable(value),
             AttributeId::DereferenceableOrNull => IntAttribute::DereferenceableOrNull(value),
             AttributeId::AllocSize => {
-- 
2.43.0


From bc30310be922be72e3248d6d6425fcfd35294de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 35/36] fix: don't turn an unbounded vscale_range into a
 bounded one

---
 llvm-mapper/src/block/attributes.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/llvm-mapper/src/block/attributes.rs b/llvm-mapper/src/block/attributes.rs
index 36da67f..3538a9d 100644
--- a/llvm-mapper/src/block/attributes.rs
+++ b/llvm-mapper/src/block/attributes.rs
@@ -332,11 +332,10 @@ impl TryFrom<(AttributeId, u64)> for IntAttribute {
                 IntAttribute::AllocSize(elt_size, num_elts)
             }
             AttributeId::VScaleRange => {
+                // NOTE: A maximum of zero means that there is no upper bound. An omitted maximum
+                // isn't encoded as such; it's the same as the minimum.
                 let min = (value >> 32) as u32;
-                let max = match value as u32 {
-                    0 => min,
-                    max => max,
-                };
+                let max = value as u32;
 
                 IntAttribute::VScaleRange(min, max)
             }
-- 
2.43.0


From f0f9d348ac6c5af2c397dc684e34013cf8df686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:40 +0000
Subject: [PATCH 36/36] fix: interpret abbreviated records in the BLOCKINFO
 block

---
 llvm-bitstream/src/parser.rs | 49 +++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/llvm-bitstream/src/parser.rs b/llvm-bitstream/src/parser.rs
index 3f2ac29..f7131c8 100644
--- a/llvm-bitstream/src/parser.rs
+++ b/llvm-bitstream/src/parser.rs
@@ -330,27 +330,34 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
 
         let record = Record::from_unabbrev(code, fields);
         if self.scope().is_blockinfo() {
-            let code: BlockInfoCode = record.code.try_into()?;
-            match code {
-                BlockInfoCode::SetBid => {
-                    let block_id: u64 = *record.fields.first().ok_or_else(|| {
-                        Error::StreamParse("SETBID in BLOCKINFO has no block ID".into())
-                    })?;
-                    log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
-                    self.scope_mut().set_blockinfo_block_id(block_id)?;
-                }
-                BlockInfoCode::BlockName => log::debug!("skipping BLOCKNAME code in BLOCKINFO"),
-                BlockInfoCode::SetRecordName => {
-                    log::debug!("skipping SETRECORDNAME code in BLOCKINFO")
-                }
-                o => log::debug!("skipping unsupported record {:?} in BLOCKINFO", o),
-            };
+            self.interpret_blockinfo(&record)?;
             return Ok(None);
         }
 
         Ok(Some(StreamEntry::Record(record)))
     }
 
+    /// Interpret a record within the `BLOCKINFO` block.
+    fn interpret_blockinfo(&mut self, record: &Record) -> Result<(), Error> {
+        let code: BlockInfoCode = record.code.try_into()?;
+        match code {
+            BlockInfoCode::SetBid => {
+                let block_id: u64 = *record.fields.first().ok_or_else(|| {
+                    Error::StreamParse("SETBID in BLOCKINFO has no block ID".into())
+                })?;
+                log::debug!("SETBID: BLOCKINFO block ID is now {}", block_id);
+                self.scope_mut().set_blockinfo_block_id(block_id)?;
+            }
+            BlockInfoCode::BlockName => log::debug!("skipping BLOCKNAME code in BLOCKINFO"),
+            BlockInfoCode::SetRecordName => {
+                log::debug!("skipping SETRECORDNAME code in BLOCKINFO")
+            }
+            o => log::debug!("skipping unsupported record {:?} in BLOCKINFO", o),
+        };
+
+        Ok(())
+    }
+
     /// Interpret a record using its corresponding abbreviation definition.
     fn parse_with_abbrev(&mut self, abbrev_id: u64) -> Result<Option<StreamEntry>, Error> {
         // To parse a record according to an abbreviation definition, we
@@ -374,15 +381,17 @@ impl<T: AsRef<[u8]>> StreamParser<T> {
         }
         let code: u64 = fields.remove(0);
 
+        let record = Record {
+            abbrev_id: Some(abbrev_id),
+            code: code,
+            fields: fields,
+        };
         if self.scope().is_blockinfo() {
+            self.interpret_blockinfo(&record)?;
             return Ok(None);
         }
 
-        Ok(Some(StreamEntry::Record(Record {
-            abbrev_id: Some(abbrev_id),
-            code: code,
-            fields: fields,
-        })))
+        Ok(Some(StreamEntry::Record(record)))
     }
 
     /// Return the next [`StreamEntry`](StreamEntry) in this bitstream.
-- 
2.43.0

