From 02928d974f4ba36401ca8db914b86475ffed52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 01/23] fix: encoder no longer hashes a src window past the end
 of the target

---
 smdiff-encoder/src/encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 2828885..8d7bef4 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -186,7 +186,9 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
                         add_start_positions_to_matcher(matcher, cur_o_pos, src)
                     }
                     if matcher.fwd_pos < matcher.max_fwd_hash_pos{
-                        if matcher.fwd_pos + 9 > cur_o_pos{
+                        if cur_o_pos > matcher.max_fwd_hash_pos{
+                            //too close to the end to hash a full window, no more src lookups will happen.
+                        }else if matcher.fwd_pos + 9 > cur_o_pos{
                             for old_pos in matcher.fwd_pos..cur_o_pos{
                                 matcher.fwd_hash = update_large_checksum_fwd(matcher.fwd_hash, trgt[old_pos], trgt[old_pos+9]);
                             }
-- 
2.43.0


From 96ee9d5a478c004000e9703d8bfbf38c38d3edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 02/23] fix: target matcher prefill stays inside the target and
 stores each position once

---
 smdiff-encoder/src/trgt_matcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 222e6ec..ae5df66 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -168,7 +168,8 @@ impl TrgtMatcherConfig {
         };
         if trgt_start_pos > 0 { //prefill with hash start positions.
             let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
-            let end = trgt_start_pos;
+            //only positions before the start (it will be stored when the encoder moves past it) that have a full window to hash.
+            let end = (trgt_start_pos - 1).min(trgt.len().saturating_sub(4));
             let mut hash = calculate_small_checksum(&trgt[start..]);
             matcher.store(hash as usize, start);
             for old_pos in start..end{
-- 
2.43.0


From 7ade50358063f47d7df4bb293827919cfacd204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 03/23] fix: chain iteration must strictly move backwards so it
 always terminates

---
 smdiff-encoder/src/hashmap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/hashmap.rs b/smdiff-encoder/src/hashmap.rs
index cc3e984..4acf1ea 100644
--- a/smdiff-encoder/src/hashmap.rs
+++ b/smdiff-encoder/src/hashmap.rs
@@ -211,7 +211,7 @@ impl<'a> Iterator for PrevPositionIterator<'a> {
             let populated_bucket = self.list.get_prev_pos(self.last_pos)?;
             // Check for termination conditions
             let prev_pos = populated_bucket.get_value_unchecked(); //safe since get_prev_pos checks
-            if prev_pos > self.last_pos {
+            if prev_pos >= self.last_pos {
                 return None; // End of chain or invalid position
             }
             //This is a valid-looking position, but it may not be part of the chain
-- 
2.43.0


From 6d7555e56a8b66dcdcb5fc976008453cd363f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 04/23] fix: matchers start with the checksum of the window at
 their start position

---
 smdiff-encoder/src/src_matcher.rs  | 2 +-
 smdiff-encoder/src/trgt_matcher.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-encoder/src/src_matcher.rs b/smdiff-encoder/src/src_matcher.rs
index a86811b..62282c4 100644
--- a/smdiff-encoder/src/src_matcher.rs
+++ b/smdiff-encoder/src/src_matcher.rs
@@ -174,7 +174,7 @@ impl SrcMatcherConfig {
         let trgt_len = trgt.len();
         let InnerConfig { l_step, src_len, trgt_len, src_win_size, max_end_pos } = self.make_inner_config(src.len(),trgt_len);
         let max_fwd_hash_pos = trgt.len().saturating_sub(9);
-        let (fwd_hash,fwd_pos) = if trgt_start_pos < max_fwd_hash_pos {
+        let (fwd_hash,fwd_pos) = if trgt_start_pos + 9 <= trgt_len {
             (calculate_large_checksum(&trgt[trgt_start_pos..trgt_start_pos+9]),trgt_start_pos)
         }else{
             (0,max_fwd_hash_pos)
diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index ae5df66..9729e4c 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -160,7 +160,7 @@ impl TrgtMatcherConfig {
         let mut matcher = TrgtMatcher{
             compress_early_exit: *compress_early_exit,
             chain_check: *chain_check,
-            fwd_hash: 0,
+            fwd_hash: calculate_small_checksum(&trgt[trgt_start_pos..]),
             fwd_pos: trgt_start_pos,
             table,
             chain: ChainList::new(self.prev_table_capacity.unwrap()),
-- 
2.43.0


From 2484d70a7ceaf2d1ac1cd7d21b47c3db1dfd3ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 05/23] fix: address differences of 2^63 no longer overflow

---
 smdiff-common/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index e04aa51..9348891 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -319,8 +319,7 @@ pub fn diff_addresses_to_u64(cur: u64, input: i64) -> u64 {
         cur.wrapping_add(input as u64)
     } else {
         // i is negative, so convert the absolute value to u64 and subtract
-        let positive_i = input.abs() as u64; // This is safe because `abs()` of a negative i64 can always fit in u64
-        cur.wrapping_sub(positive_i)
+        cur.wrapping_sub(input.unsigned_abs())
     }
 }
 
@@ -330,7 +329,7 @@ pub fn diff_addresses_to_i64(cur: u64, target: u64) -> i64 {
     if target > cur {
         (target - cur) as i64
     } else {
-        (cur - target) as i64 * -1
+        ((cur - target) as i64).wrapping_neg()
     }
 }
 
-- 
2.43.0


From d180c3221970646a674945e439fa36e4d05e59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 06/23] fix: reject u-varints that do not fit in a u64

---
 smdiff-common/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index 9348891..bc7610f 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -256,6 +256,9 @@ pub fn read_u_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u64> {
     loop {
         reader.read_exact(&mut b)?;
         let byte = b[0];
+        if shift > 63 || (shift == 63 && byte & 0x7F > 1) {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "u-varint does not fit in a u64"));
+        }
         result |= ((byte & 0x7F) as u64) << shift;
         if byte & 0x80 == 0 {
             break;
-- 
2.43.0


From faeabb5b88ec945f48d5f6982347c07fbe56a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 07/23] fix: reject section header fields that overflow instead
 of wrapping or panicking

---
 smdiff-reader/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 2cbe7d1..6a80a1f 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -31,21 +31,32 @@ impl AddOp for Add{
         &self.bytes
     }
 }
+/// Reads a u-varint header field, which must fit in a u32.
+fn read_u32_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u32> {
+    let value = read_u_varint(reader)?;
+    if value > u32::MAX as u64 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Section header field does not fit in a u32"));
+    }
+    Ok(value as u32)
+}
 /// Reads a section header from the reader at the current position.
 pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<SectionHeader> {
     let header_byte = read_u8(reader)?;
     let compression_algo = (header_byte & SECTION_COMPRESSION_MASK) >> SECTION_COMPRESSION_RSHIFT;
     let format = if header_byte & SECTION_FORMAT_BIT == SECTION_FORMAT_BIT{Format::Segregated} else {Format::Interleaved};
     let more_sections = (header_byte & SECTION_CONTINUE_BIT) == SECTION_CONTINUE_BIT;
-    let num_operations = read_u_varint(reader)? as u32;
+    let num_operations = read_u32_varint(reader)?;
     let num_add_bytes = if format.is_segregated() {
-        read_u_varint(reader)? as u32
+        read_u32_varint(reader)?
     } else {
         0
     };
-    let read_size = read_u_varint(reader)? as u32;
+    let read_size = read_u32_varint(reader)?;
     let output_size = if format.is_segregated(){
-        num_add_bytes + read_size
+        match num_add_bytes.checked_add(read_size){
+            Some(size) => size,
+            None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Section output size does not fit in a u32")),
+        }
     }else{
         read_size
     };
-- 
2.43.0


From 488f3d01448cd91e6b27d9e953c71b126d12a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 08/23] fix: reader does not reserve memory from an untrusted
 operation count

---
 smdiff-reader/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 6a80a1f..b955f5a 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 use std::io::Read;
 
-use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, MAX_INST_SIZE, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Op Type alias for the Readers Add type
@@ -81,7 +81,8 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
     //dbg!(&header);
     let mut cur_d_addr = 0;
     let mut cur_o_addr = 0;
-    op_buffer.reserve(*num_operations as usize);
+    //num_operations is not trustworthy yet, so do not let it alone decide how much we allocate.
+    op_buffer.reserve((*num_operations as usize).min(MAX_INST_SIZE));
     match format {
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
@@ -131,7 +132,6 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
 /// This is just a wrapper that completely reads a section from the reader.
 pub fn read_section<R: std::io::Read>(reader: &mut R, op_buffer:&mut Vec<Op>) -> std::io::Result<SectionHeader> {
     let mut header = read_section_header(reader)?;
-    op_buffer.reserve(header.num_operations as usize);
     read_ops_no_comp(reader, &mut header, op_buffer)?;
     Ok(header)
 }
-- 
2.43.0


From 59759546f8fb4d0d38573a6d825e53c353225e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 09/23] fix: reader checks and reports the number of add bytes
 in a section

---
 smdiff-reader/src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index b955f5a..0ce390b 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -87,21 +87,25 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
             let mut add_idxs = Vec::new();
-            let mut check_size = 0;
+            let mut add_size = 0u64;
+            let mut check_size = 0u64;
             //dbg!(num_operations,output_size,num_add_bytes);
             for i in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
-                let len = op.oal() as u32;
+                let len = op.oal() as u64;
                 check_size += len;
                 if op.is_add(){
-                    header.num_add_bytes += len;
+                    add_size += len;
                     add_idxs.push(buffer_offset+i as usize);
                 }
                 op_buffer.push(op);
             }
-            if &check_size != output_size{
+            if check_size != *output_size as u64{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
+            if add_size != header.num_add_bytes as u64{
+                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header add bytes: {} != Sum(add.oal()) {}",header.num_add_bytes,add_size)));
+            }
             //reader should be at the end of the instructions
             //now we go back and fill the add op buffers
             for i in add_idxs{
@@ -113,15 +117,22 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             Ok(())
         },
         Format::Interleaved => {
-            let mut check_size = 0;
+            let mut check_size = 0u64;
+            let mut add_size = 0u64;
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
-                check_size += op.oal() as u32;
+                let len = op.oal() as u64;
+                check_size += len;
+                if op.is_add(){
+                    add_size += len;
+                }
                 op_buffer.push(op);
             }
-            if &check_size != output_size{
+            if check_size != *output_size as u64{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
+            //this can not overflow, it is at most output_size
+            header.num_add_bytes = add_size as u32;
             Ok(())
         }
     }
-- 
2.43.0


From cdfd81de9d021784fd9eb8fbd5f39a39654edfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 10/23] fix: writing an Add larger than MAX_INST_SIZE is an
 error instead of a corrupt patch

---
 smdiff-writer/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 5bd9944..3f12bed 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -44,6 +44,11 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
     let mut add_bytes_written = 0;
     let mut add_bytes_slices = Vec::new();
     for op in ops {
+        if let Op::Add(a) = op {
+            if a.bytes().len() > MAX_INST_SIZE {
+                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Add operation is larger than MAX_INST_SIZE"));
+            }
+        }
         total_content_len += op.oal() as usize;
         write_op_byte_and_size(writer, &op)?;
         match header.format{
-- 
2.43.0


From d5f4d5f10233afedbfdc55ea8202e7b6161d4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 11/23] fix: writing a section header that cannot be
 represented is an error

---
 smdiff-writer/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 3f12bed..8045f97 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -8,6 +8,12 @@ use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u
 /// * `header` - The header to write.
 /// * `writer` - The writer to write to.
 pub fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&mut W) -> std::io::Result<()> {
+    if header.compression_algo > 7 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Compression algorithm does not fit in the header"));
+    }
+    if header.format == Format::Segregated && header.num_add_bytes > header.output_size {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Number of add bytes is greater than the output size"));
+    }
     let mut cntl_byte = header.compression_algo << SECTION_COMPRESSION_RSHIFT;
     if let Format::Segregated = header.format {
         cntl_byte |= SECTION_FORMAT_BIT;  // Set format bit
-- 
2.43.0


From 701529ae68202729864edc246475c7cabf9353a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 12/23] fix: applying a dictionary copy without a source is an
 error instead of a panic

---
 smdiff-decoder/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 6141ec4..556d8a7 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -67,7 +67,7 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     smdiff_common::CopySrc::Dict => {
                         let src = match src.as_mut(){
                             Some(s) => s,
-                            None => panic!("Copy operation without source data"),
+                            None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Copy operation without source data")),
                         };
                         src.seek(std::io::SeekFrom::Start(copy.addr))?;
                         let len = copy.len as usize;
-- 
2.43.0


From cf7764e35cef19fe5b5fd46d9a137cd924c94ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 13/23] fix: an output copy may only read output that was
 already written

---
 smdiff-decoder/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 556d8a7..5a838e0 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -77,6 +77,9 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     },
                     smdiff_common::CopySrc::Output => {
                         let start_pos = *cur_o_pos;
+                        if copy.addr.checked_add(copy.len as u64).map_or(true,|end| end > start_pos as u64){
+                            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation exceeds the output written so far"));
+                        }
                         cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;
                         let len = copy.len as usize;
                         cur_o.read_exact(&mut copy_buffer[..len])?;
-- 
2.43.0


From 02c40276e388751d9fb15416ea7f5fce94d35380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 14/23] fix: a malformed zstd section is an error instead of a
 panic

---
 smdiff-decoder/src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index cb4ee30..3bb0de0 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -73,7 +73,8 @@ impl<R: Read+Seek> SectionIterator<R>{
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
         }else if header.compression_algo == 2 {
-            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source).unwrap();
+            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
-- 
2.43.0


From 684b9a448171b0e6320579f849bb272908778c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 15/23] fix: an unknown compression algorithm is an error
 instead of being read as uncompressed

---
 smdiff-decoder/src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 3bb0de0..0fd26ac 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -80,6 +80,8 @@ impl<R: Read+Seek> SectionIterator<R>{
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
             let _ = brot.into_inner()?;
+        }else if header.compression_algo > 3 {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Unknown compression algorithm"));
         }else{
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
         }
-- 
2.43.0


From ef3f9c031e04b6b55582a5cca798e27c50f54bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 16/23] fix: a brotli compressed section without operations can
 be read back

---
 smdiff-decoder/src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 0fd26ac..0aebac7 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -79,6 +79,8 @@ impl<R: Read+Seek> SectionIterator<R>{
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
+            //the end of the stream may not have been seen yet (always the case for a section without operations)
+            std::io::copy(&mut brot, &mut std::io::sink())?;
             let _ = brot.into_inner()?;
         }else if header.compression_algo > 3 {
             return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Unknown compression algorithm"));
-- 
2.43.0


From 9fe91d9472368e084ee203206051beaf708bae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 17/23] fix: extracted stats count each copy once

---
 smdiff-merger/src/lib.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index ec50168..b45d1b2 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -196,8 +196,6 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                         },
                     }
                     output.push((o_pos_start,inst));
-                    stats.copy_d(oal_len);
-
                 },
                 smdiff_common::Op::Add(_) => {
                     output.push((o_pos_start,inst));
-- 
2.43.0


From 5bc7caa88d7781e4ab9a74c1fe9cc365403e20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 18/23] fix: a terminal patch with only output copies is
 already a summary patch

---
 smdiff-merger/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index b45d1b2..69996fd 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -280,7 +280,10 @@ impl Merger {
         //will need to check this.
         let terminal_patch = deref_copy_o(terminal_patch);
         find_mergeable_copies(&terminal_patch,0,&mut terminal_copy_indices);
-        debug_assert!(!terminal_copy_indices.is_empty(), "terminal_copy_indices should not be empty");
+        if terminal_copy_indices.is_empty(){
+            //all copies were from the output, there is nothing left that a predecessor could resolve.
+            return Ok(Err(SummaryPatch(terminal_patch.into_iter().map(|s|s.1).collect())));
+        }
         Ok(Ok(Merger{
             terminal_patch,
             terminal_copy_indices,
-- 
2.43.0


From 3be42997291ae245ab9f5a5d1a144e757e2de208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 19/23] fix: merging a predecessor that is too short is an
 error instead of a panic

---
 smdiff-merger/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 69996fd..2c0e080 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -319,7 +319,10 @@ impl Merger {
             //this a src window copy that we need to resolve from the predecessor patch.
             debug_assert!(matches!(copy.src, smdiff_common::CopySrc::Dict));
             let o_start = copy.addr; //ssp is o_pos, u is offset from that.
-            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32).unwrap();
+            let resolved = match get_exact_slice(&predecessor_patch, o_start, copy.len as u32){
+                Some(resolved) => resolved,
+                None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Predecessor patch does not generate the data copied by its successor")),
+            };
             //debug_assert_eq!(sum_len_in_o(&resolved), copy.len_in_o() as u64, "resolved: {:?} copy: {:?}",resolved,copy);
             find_mergeable_copies(&resolved, i+shift, &mut terminal_copy_indices);
             shift += resolved.len() - 1;
-- 
2.43.0


From 26ccaa5089bae68f65caab70916fab62007d2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 20/23] fix: transcoding a patch without operations

---
 smdiff-merger/src/transcoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-merger/src/transcoder.rs b/smdiff-merger/src/transcoder.rs
index de2c759..561a65e 100644
--- a/smdiff-merger/src/transcoder.rs
+++ b/smdiff-merger/src/transcoder.rs
@@ -84,7 +84,7 @@ fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)->Vec<Op> {
 
 fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
             if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
@@ -98,7 +98,7 @@ fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
 
 fn join_adjacent_runs(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
             if byte1 == byte2 {
-- 
2.43.0


From e4f64b1292b6f07353d870422b0d6a46421e074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 21/23] fix: converting an implicit sequence with a period
 larger than MAX_INST_SIZE

---
 smdiff-vcdiff/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 8e28dde..c1c8052 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -132,7 +132,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                 let mut processed: u32 = 0;
                                 while processed < total {
                                     let remaining = total - processed;
-                                    let chunk_size = remaining.min(slice_len);
+                                    let chunk_size = remaining.min(slice_len).min(MAX_INST_SIZE);
                                     //dbg!(slice_len,chunk_size);
                                     if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                         let header = SectionHeader {
@@ -150,7 +150,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                         cur_win_size = 0;
                                         num_add_bytes = 0;
                                     }
-                                    let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });
+                                    let op = Op::Copy(Copy{ src, addr: addr + (processed % slice_len) as u64, len: chunk_size as u16 });
                                     cur_win.push(op);
                                     processed += chunk_size;
                                     cur_win_size += chunk_size;
-- 
2.43.0


From 2f5ea5ddf1e980259392701e5dfcdc38c5eaf538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 22/23] fix: a zstd compressed section is read to the end of
 its frame

---
 smdiff-decoder/src/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 0aebac7..b038d57 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -76,6 +76,8 @@ impl<R: Read+Seek> SectionIterator<R>{
             let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
+            //the last block of the frame may not have been seen yet (always the case for a section without operations)
+            std::io::copy(&mut zstd, &mut std::io::sink())?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
-- 
2.43.0


From d42c84783437dcb8a757f0ca4d829b0fcbeb0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 23/23] verif: access to private parts for the verification
 harness (cfg smdiff_verif)

---
 smdiff-encoder/src/lib.rs   |  4 ++++
 smdiff-encoder/src/verif.rs | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+)
 create mode 100644 smdiff-encoder/src/verif.rs

diff --git a/smdiff-encoder/src/lib.rs b/smdiff-encoder/src/lib.rs
index 6c6811f..60a986b 100644
--- a/smdiff-encoder/src/lib.rs
+++ b/smdiff-encoder/src/lib.rs
@@ -19,6 +19,10 @@ mod op_maker;
 mod encoder;
 pub mod writer;
 
+#[cfg(smdiff_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 pub mod zstd{
 //! This module is a re-export of the zstd encoder used in the secondary compression.
     pub use zstd::stream::Encoder;
diff --git a/smdiff-encoder/src/verif.rs b/smdiff-encoder/src/verif.rs
new file mode 100644
index 0000000..876d08b
--- /dev/null
+++ b/smdiff-encoder/src/verif.rs
@@ -0,0 +1,25 @@
+//! Access to private parts for the verification harness; only compiled with `--cfg smdiff_verif`.
+use crate::{hasher, hashmap, Ranger};
+
+pub fn large_checksum(data: &[u8]) -> usize { hasher::calculate_large_checksum(data) }
+pub fn large_checksum_fwd(checksum: usize, old: u8, new: u8) -> usize { hasher::update_large_checksum_fwd(checksum, old, new) }
+pub fn large_checksum_bwd(checksum: usize, old: u8, new: u8) -> usize { hasher::update_large_checksum_bwd(checksum, old, new) }
+pub fn small_checksum(data: &[u8]) -> u32 { hasher::calculate_small_checksum(data) }
+pub fn small_checksum_fwd(checksum: u32, old: u8, new: u8) -> u32 { hasher::update_small_checksum_fwd(checksum, old, new) }
+
+pub struct Table(hashmap::BasicHashTable);
+impl Table {
+    pub fn new(min_capacity: usize, interpret_hash_as_32_bit: bool) -> Self { Table(hashmap::BasicHashTable::new(min_capacity, interpret_hash_as_32_bit)) }
+    pub fn get(&self, hash: usize) -> Option<usize> { self.0.get(hash) }
+    pub fn insert(&mut self, hash: usize, position: usize) -> Result<Option<usize>, (usize, usize)> { self.0.insert(hash, position) }
+}
+pub struct Chain(hashmap::ChainList);
+impl Chain {
+    pub fn new(capacity: usize) -> Self { Chain(hashmap::ChainList::new(capacity)) }
+    pub fn insert(&mut self, hash: usize, key_position: usize, position: usize) { self.0.insert(hash, key_position, position) }
+    pub fn iter_prev_starts(&self, last_pos: usize, cur_out_pos: usize, hash: usize) -> impl Iterator<Item = usize> + '_ { self.0.iter_prev_starts(last_pos, cur_out_pos, hash) }
+}
+/// `value` mapped from `start..end` to `first..=last`
+pub fn map_level(start: usize, end: usize, first: usize, last: usize, value: usize) -> usize {
+    Ranger::new(start..end, std::ops::RangeInclusive::new(first, last)).map(value)
+}
-- 
2.43.0

