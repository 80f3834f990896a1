From 8c11f7a289890c6c4224fb11bdef102f8b2c7f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 001/108] fix: keep IndexedMap iteration order consistent after
 a removal

Removing an entry shifted the positions of all later entries in the iteration
list without updating them, so a later removal dropped the wrong entry or panicked.
---
 .../unreal_asset_base/src/containers/indexed_map/mod.rs       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 0a6d807..da53b62 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -680,6 +680,10 @@ where
         let value = self.store.remove(store_place);
 
         self.index_iter_map.remove(value.index_iter_map_index);
+        // everything after the removed element moved one place to the front
+        for place in &self.index_iter_map[value.index_iter_map_index..] {
+            self.store[*place].index_iter_map_index -= 1;
+        }
         self.index_map.remove(&value.index_map_index);
         self.key_map.remove(value.key_map_index.0.as_ref());
 
-- 
2.43.0


From 200971f008585b878049307a94f907fc867cfe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 002/108] fix: never reuse a live insertion index in IndexedMap

After a removal the entry count could equal the index of a live entry, so the
next insertion took over that index and made the older entry unreachable by index.
---
 .../unreal_asset_base/src/containers/indexed_map/mod.rs    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index da53b62..740cc15 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -568,17 +568,20 @@ where
             return &mut self.store[*storage_place];
         }
 
+        // the number of entries can already be in use as an index if an earlier entry was removed
+        let insertion_index = self.index_map.keys().next_back().map_or(0, |last| last + 1);
+
         let key_rc = KeyItem(Rc::new(key));
         let indexed_value = IndexedValue {
             value,
             key_map_index: key_rc.rc_clone(),
-            index_map_index: self.key_map.len(),
+            index_map_index: insertion_index,
             index_iter_map_index: self.index_iter_map.len(),
         };
         let store_place = self.store.insert(indexed_value);
 
         self.key_map.insert(key_rc, store_place);
-        self.index_map.insert(self.key_map.len() - 1, store_place);
+        self.index_map.insert(insertion_index, store_place);
         self.index_iter_map.push(store_place);
         &mut self.store[store_place]
     }
-- 
2.43.0


From 7fb58a7a1f4dc771ebf50730975455c73a1720d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 003/108] fix: IndexedMap index iterators yield the insertion
 index

They yielded the internal storage slot, which differs from the insertion index
(as returned by iter_key, remove_by_* and accepted by get_by_index) once a slot
has been reused.
---
 .../src/containers/indexed_map/mod.rs         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index 740cc15..d0b0ee8 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -162,7 +162,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -173,7 +177,11 @@ where
     fn next_back(&mut self) -> Option<Self::Item> {
         let index = self.index_iter.next_back()?;
         let value = &self.store[*index];
-        Some((*index, value.key_map_index.0.as_ref(), &value.value))
+        Some((
+            value.index_map_index,
+            value.key_map_index.0.as_ref(),
+            &value.value,
+        ))
     }
 }
 
@@ -222,10 +230,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -242,10 +251,11 @@ where
         // SAFETY:
         // This is safe because a mutable reference to the same field is never returned twice,
         // e.g. we never visit the same element twice.
+        let insertion_index = value.index_map_index;
         let key = value.key_map_index.0.as_ref() as *const K;
         let value = &mut value.value as *mut V;
 
-        Some((*index, unsafe { key.as_ref().unwrap() }, unsafe {
+        Some((insertion_index, unsafe { key.as_ref().unwrap() }, unsafe {
             value.as_mut().unwrap()
         }))
     }
@@ -282,7 +292,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
@@ -298,7 +308,7 @@ where
         let value = self.store.remove(index);
 
         Some((
-            index,
+            value.index_map_index,
             Rc::try_unwrap(value.key_map_index.0).ok().unwrap(),
             value.value,
         ))
-- 
2.43.0


From 762071e9b7ef0d20364500f0012e6e8285fc09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 004/108] fix: IndexedMap equality compares entries instead of
 storage slots

Two maps with different values compared equal, and two maps with the same
entries but different removal histories compared unequal.
---
 .../src/containers/indexed_map/mod.rs                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
index d0b0ee8..aa02d14 100644
--- a/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs
@@ -771,15 +771,19 @@ where
 impl<K, V> PartialEq for IndexedMap<K, V>
 where
     K: Eq + Hash,
+    V: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.key_map == other.key_map
-            && self.index_map == other.index_map
-            && self.index_iter_map == other.index_iter_map
+        self.keys().eq(other.keys()) && self.values().eq(other.values())
     }
 }
 
-impl<K, V> Eq for IndexedMap<K, V> where K: Eq + Hash {}
+impl<K, V> Eq for IndexedMap<K, V>
+where
+    K: Eq + Hash,
+    V: Eq,
+{
+}
 
 impl<K, V> Clone for IndexedMap<K, V>
 where
-- 
2.43.0


From 7d242e7905d6d10b5f0134ebfd83a5b63c9984f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 005/108] fix: rewind the second part of a Chain when seeking
 into the first

A read crossing the boundary after such a seek continued at the second part's
previous position instead of its start.
---
 unreal_asset/unreal_asset_base/src/containers/chain.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 4652949..3b86795 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -80,7 +80,11 @@ impl<C: Read + Seek> Seek for Chain<C> {
             Some(sec) => match pos {
                 SeekFrom::Start(offset) => {
                     self.pos = match offset < self.first_len {
-                        true => self.first.seek(pos)?,
+                        true => {
+                            // a read crossing the boundary continues at the start of the second part
+                            sec.rewind()?;
+                            self.first.seek(pos)?
+                        }
                         false => {
                             self.first_len + sec.seek(SeekFrom::Start(offset - self.first_len))?
                         }
-- 
2.43.0


From 5c806947bf2ff016d107de972f6e8525f5266f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 006/108] fix: Chain refuses to seek before the start of the
 stream

Relative seeks to a negative position were turned into a huge absolute position.
---
 .../unreal_asset_base/src/containers/chain.rs  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/chain.rs b/unreal_asset/unreal_asset_base/src/containers/chain.rs
index 3b86795..b397ac6 100644
--- a/unreal_asset/unreal_asset_base/src/containers/chain.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/chain.rs
@@ -1,6 +1,6 @@
 //! Chain for chaining two `Read` + `Seek` implementations
 
-use std::io::{Read, Result, Seek, SeekFrom};
+use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
 
 /// Chain for chaining two `Read` + `Seek` implementations
 pub struct Chain<C: Read + Seek> {
@@ -74,6 +74,12 @@ impl<C: Read + Seek> Read for Chain<C> {
     }
 }
 
+/// Apply a relative offset, refusing positions before the start like any other `Seek` does
+fn checked_offset(base: u64, offset: i64) -> Result<u64> {
+    base.checked_add_signed(offset)
+        .ok_or_else(|| Error::new(ErrorKind::InvalidInput, "seek to an invalid position"))
+}
+
 impl<C: Read + Seek> Seek for Chain<C> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
         match self.second.as_mut() {
@@ -91,11 +97,13 @@ impl<C: Read + Seek> Seek for Chain<C> {
                     };
                     Ok(offset)
                 }
-                SeekFrom::End(offset) => self.seek(SeekFrom::Start(
-                    ((self.first_len + self.second_len) as i64 + offset) as u64,
-                )),
+                SeekFrom::End(offset) => {
+                    let target = checked_offset(self.first_len + self.second_len, offset)?;
+                    self.seek(SeekFrom::Start(target))
+                }
                 SeekFrom::Current(offset) => {
-                    self.seek(SeekFrom::Start((self.pos as i64 + offset) as u64))
+                    let target = checked_offset(self.pos, offset)?;
+                    self.seek(SeekFrom::Start(target))
                 }
             },
             None => self.first.seek(pos),
-- 
2.43.0


From 5ef7e7a77a390849a28df169b7583e395960da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:48 +0000
Subject: [PATCH 007/108] fix: read pak files that are shorter than the largest
 footer

Probing for the footer magic seeked before the start of small files of versions
1-7, so a pak with few and small entries could be written but not opened.
---
 unreal_pak/src/index.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 2f7d197..e66c242 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -158,10 +158,16 @@ pub(crate) struct Footer {
 impl Footer {
     pub(crate) fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, PakError> {
         // magic offset (from bottom) can only be 0x2C (v2-v7), 0xAC (v8a), 0xCC (v8b,v11), 0xCD (v9)
-        let possible_offsets = vec![-0x2C, -0xAC, -0xCC, -0xCD];
+        let possible_offsets: Vec<i64> = vec![-0x2C, -0xAC, -0xCC, -0xCD];
+
+        let file_len = reader.seek(SeekFrom::End(0))?;
 
         let mut magic_offset = None;
         for offset in possible_offsets {
+            // small files can be shorter than the largest footer
+            if file_len < offset.unsigned_abs() {
+                continue;
+            }
             reader.seek(SeekFrom::End(offset))?;
             if reader.read_u32::<BE>()? == PAK_MAGIC {
                 magic_offset = Some(offset);
-- 
2.43.0


From c228582fbc1ff839b8f2e73b0e6443790aedcd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:48 +0000
Subject: [PATCH 008/108] fix: do not let entry data be mistaken for the pak
 footer

Every candidate position was probed and the last hit won, so entry data that
happens to contain the magic above the real footer made the pak unreadable.
---
 unreal_pak/src/index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index e66c242..9aecbe5 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -171,6 +171,8 @@ impl Footer {
             reader.seek(SeekFrom::End(offset))?;
             if reader.read_u32::<BE>()? == PAK_MAGIC {
                 magic_offset = Some(offset);
+                // positions further up belong to entry data, which may contain anything
+                break;
             }
         }
         let magic_offset = magic_offset.ok_or_else(PakError::pak_invalid)?;
-- 
2.43.0


From 2f97741b49d55d4c07d56271b33e1eb699b045d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:48 +0000
Subject: [PATCH 009/108] fix: write the timestamp of version 1 pak entries

The reader and the header length calculation expect it, so a written version 1
pak could not be read back.
---
 unreal_pak/src/header.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 516f0d1..edde142 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -180,6 +180,11 @@ impl Header {
         writer.write_u64::<LE>(header.decompressed_size)?;
         writer.write_u32::<LE>(header.compression_method.as_u32(pak_version, compression)?)?;
 
+        if pak_version <= PakVersion::Initial {
+            // timestamp
+            writer.write_u64::<LE>(0)?;
+        }
+
         writer.write_all(&header.hash)?;
 
         if pak_version >= PakVersion::CompressionEncryption {
-- 
2.43.0


From ad30880d4092b8b6eca8ee9916e6b4955935c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:48 +0000
Subject: [PATCH 010/108] fix: block offsets of version 3 and 4 paks are
 relative to the file

They were written relative to the entry although these versions (and the reader)
use absolute ones, so reading a pak with a second compressed entry underflowed.
---
 unreal_pak/src/entry.rs  |  9 ++++++++-
 unreal_pak/src/header.rs | 22 +++++++++++++---------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index c54c72a..7dacdae 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -103,6 +103,13 @@ where
             let mut compression_blocks_inner = Vec::with_capacity(block_count);
             let header_len = Header::calculate_header_len(pak_version, Some(block_count as u32));
 
+            // before RelativeChunkOffsets block offsets are relative to the start of the file
+            let block_base = if pak_version < PakVersion::RelativeChunkOffsets {
+                offset
+            } else {
+                0
+            };
+
             for chunk in data.chunks(block_size as usize) {
                 let begin = compressed_data.len() as u64;
 
@@ -110,7 +117,7 @@ where
                 compressed_data.extend_from_slice(&block_compressed_data);
 
                 compression_blocks_inner.push(Block {
-                    start: begin + header_len,
+                    start: block_base + begin + header_len,
                     size: block_compressed_data.len() as u64,
                 });
             }
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index edde142..0ac2932 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -78,17 +78,21 @@ impl Header {
                 let mut compression_blocks_inner = Vec::with_capacity(block_count);
 
                 for _ in 0..block_count {
-                    // convert old absolute to relative offsets
-                    let start_offset = reader.read_u64::<LE>()?
-                        - if pak_version < PakVersion::RelativeChunkOffsets {
-                            offset
-                        } else {
-                            0
-                        };
+                    let start_offset = reader.read_u64::<LE>()?;
                     let end_offset = reader.read_u64::<LE>()?;
+                    // convert old absolute to relative offsets
+                    let base = if pak_version < PakVersion::RelativeChunkOffsets {
+                        offset
+                    } else {
+                        0
+                    };
                     compression_blocks_inner.push(Block {
-                        start: start_offset,
-                        size: end_offset - start_offset,
+                        start: start_offset
+                            .checked_sub(base)
+                            .ok_or_else(PakError::entry_invalid)?,
+                        size: end_offset
+                            .checked_sub(start_offset)
+                            .ok_or_else(PakError::entry_invalid)?,
                     });
                 }
                 compression_blocks = Some(compression_blocks_inner);
-- 
2.43.0


From 2269c79f0df31ad835856c86a0099e7ec24cfa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:58 +0000
Subject: [PATCH 011/108] fix: do not trust sizes in pak headers before reading
 the data

Corrupt counts and sizes made the reader allocate up to 2^64 bytes and abort.
---
 unreal_pak/src/entry.rs  | 20 +++++++++++++-------
 unreal_pak/src/header.rs |  3 ++-
 unreal_pak/src/index.rs  |  3 ++-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/unreal_pak/src/entry.rs b/unreal_pak/src/entry.rs
index 7dacdae..3586d19 100644
--- a/unreal_pak/src/entry.rs
+++ b/unreal_pak/src/entry.rs
@@ -1,4 +1,4 @@
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use crate::compression::CompressionMethods;
 use crate::error::PakError;
@@ -29,12 +29,10 @@ where
 
     match header.compression_method {
         Compression::None => {
-            let mut data = vec![0u8; header.decompressed_size as usize];
-            reader.read_exact(data.as_mut_slice())?;
-            Ok(data)
+            read_bytes(reader, header.decompressed_size)
         }
         Compression::Known(_) => {
-            let mut data = Vec::with_capacity(header.decompressed_size as usize);
+            let mut data = Vec::new();
 
             let compression_blocks = header
                 .compression_blocks
@@ -42,8 +40,7 @@ where
                 .ok_or_else(PakError::entry_invalid)?;
             for block in compression_blocks {
                 // we do not need to seek here because the reader is at the end of the header and compression blocks are continuous
-                let mut compressed_data = vec![0u8; block.size as usize];
-                reader.read_exact(&mut compressed_data)?;
+                let compressed_data = read_bytes(reader, block.size)?;
                 header
                     .compression_method
                     .decompress(&mut data, compressed_data.as_slice())?;
@@ -55,6 +52,15 @@ where
     }
 }
 
+/// Read exactly `len` bytes without allocating more than what the reader actually holds
+fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>, PakError> {
+    let mut data = Vec::new();
+    if reader.take(len).read_to_end(&mut data)? as u64 != len {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Write an entry with Header at the position the write is at
 ///
 /// # Arguments
diff --git a/unreal_pak/src/header.rs b/unreal_pak/src/header.rs
index 0ac2932..24ac8a1 100644
--- a/unreal_pak/src/header.rs
+++ b/unreal_pak/src/header.rs
@@ -75,7 +75,8 @@ impl Header {
         if pak_version >= PakVersion::CompressionEncryption {
             if !matches!(compression_method, Compression::None) {
                 let block_count = reader.read_u32::<LE>()? as usize;
-                let mut compression_blocks_inner = Vec::with_capacity(block_count);
+                // the count is not trusted until the blocks have been read
+                let mut compression_blocks_inner = Vec::new();
 
                 for _ in 0..block_count {
                     let start_offset = reader.read_u64::<LE>()?;
diff --git a/unreal_pak/src/index.rs b/unreal_pak/src/index.rs
index 9aecbe5..47918a6 100644
--- a/unreal_pak/src/index.rs
+++ b/unreal_pak/src/index.rs
@@ -28,7 +28,8 @@ impl Index {
         let mut path_hash_seed = None;
 
         let entry_count = reader.read_u32::<LE>()?;
-        let mut entries = Vec::with_capacity(entry_count as usize);
+        // the count is not trusted until the entries have been read
+        let mut entries = Vec::new();
 
         if footer.pak_version < PakVersion::PathHashIndex {
             for _ in 0..entry_count {
-- 
2.43.0


From 7d620c4538f62327a8a1dbd440064101be34d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:58 +0000
Subject: [PATCH 012/108] fix: do not underflow when a pak footer is too short
 for its version

---
 unreal_pak/src/compression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_pak/src/compression.rs b/unreal_pak/src/compression.rs
index c6a2e21..1a5e4d8 100644
--- a/unreal_pak/src/compression.rs
+++ b/unreal_pak/src/compression.rs
@@ -155,7 +155,7 @@ impl CompressionMethods {
         // This is why first the length of the remaining stream is determined and then only
         // the existing bytes read.
         let old_pos = reader.stream_position()?;
-        let remaining_len = reader.seek(SeekFrom::End(0))? - old_pos;
+        let remaining_len = reader.seek(SeekFrom::End(0))?.saturating_sub(old_pos);
         reader.seek(SeekFrom::Start(old_pos))?;
 
         let mut methods = Self::default();
-- 
2.43.0


From 8cfebe13c6f8330e1240bd6e17b464762139741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:58 +0000
Subject: [PATCH 013/108] fix: reject a string length of i32::MIN instead of
 overflowing

---
 unreal_helpers/src/read_ext.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index dd55200..006bf74 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -54,7 +54,15 @@ impl<R: Read + Seek> UnrealReadExt for R {
         let len = self.read_i32::<LE>()?;
 
         let (len, is_wide) = match len < 0 {
-            true => (-len, true),
+            true => match len.checked_neg() {
+                Some(len) => (len, true),
+                None => {
+                    return Err(FStringError::InvalidStringSize(
+                        len,
+                        self.stream_position()?,
+                    ))
+                }
+            },
             false => (len, false),
         };
         read_fstring_len(self, len, is_wide)
-- 
2.43.0


From ebe5d8a74d9b82011ed3f51042af3624deefd41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:58 +0000
Subject: [PATCH 014/108] fix: read_array reads exactly the stored number of
 elements

The capacity of a Vec may be larger than requested (it is usize::MAX for zero
sized types), and allocating from an untrusted count aborts on corrupt input.
---
 unreal_helpers/src/read_ext.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/unreal_helpers/src/read_ext.rs b/unreal_helpers/src/read_ext.rs
index 006bf74..a1de999 100644
--- a/unreal_helpers/src/read_ext.rs
+++ b/unreal_helpers/src/read_ext.rs
@@ -34,8 +34,11 @@ impl<R: Read + Seek> UnrealReadExt for R {
     }
 
     fn read_vec(&mut self, len: usize) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0; len];
-        self.read_exact(&mut buf)?;
+        // the length is not trusted until the data has been read
+        let mut buf = Vec::new();
+        if self.take(len as u64).read_to_end(&mut buf)? != len {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(buf)
     }
 
@@ -43,8 +46,10 @@ impl<R: Read + Seek> UnrealReadExt for R {
         &mut self,
         mut f: impl FnMut(&mut Self) -> io::Result<T>,
     ) -> io::Result<Vec<T>> {
-        let mut buf = Vec::with_capacity(self.read_u32::<LE>()? as usize);
-        for _ in 0..buf.capacity() {
+        // the count is not trusted until the elements have been read
+        let len = self.read_u32::<LE>()?;
+        let mut buf = Vec::new();
+        for _ in 0..len {
             buf.push(f(self)?);
         }
         Ok(buf)
-- 
2.43.0


From 80c9ec95d266cd9bf0043249ab8ecdfdedb41475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:14 +0000
Subject: [PATCH 015/108] fix: extracting a pak never writes outside of the
 output folder

---
 unreal_pak_cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_pak_cli/src/main.rs b/unreal_pak_cli/src/main.rs
index 4421695..7f6add9 100644
--- a/unreal_pak_cli/src/main.rs
+++ b/unreal_pak_cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{File, OpenOptions};
 use std::io::{BufReader, BufWriter, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::process::exit;
 use std::time::SystemTime;
 
@@ -99,6 +99,15 @@ fn main() {
             for (i, (file_name, data)) in pak.iter().enumerate() {
                 match data {
                     Ok(data) => {
+                        // entry names are untrusted and must not lead out of the output folder
+                        if !Path::new(&file_name)
+                            .components()
+                            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+                        {
+                            eprintln!("Record {i} has an unsafe path: {file_name:?}!");
+                            exit(1);
+                        }
+
                         let path = output_folder.join(file_name);
                         let dir_path = match path.parent() {
                             Some(dir) => dir,
-- 
2.43.0


From 044e49c2c10301b3843c35b5d808f6540220bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:53 +0000
Subject: [PATCH 016/108] fix: write_fstring counts the terminator of wide
 strings

---
 unreal_helpers/src/write_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/write_ext.rs b/unreal_helpers/src/write_ext.rs
index 0879720..daca802 100644
--- a/unreal_helpers/src/write_ext.rs
+++ b/unreal_helpers/src/write_ext.rs
@@ -69,7 +69,7 @@ impl<W: Write> UnrealWriteExt for W {
                 self.write_all(aligned)?;
 
                 self.write_all(&[0u8; 2])?;
-                Ok(size_of::<i32>() + aligned.len())
+                Ok(size_of::<i32>() + aligned.len() + size_of::<u16>())
             } else {
                 self.write_i32::<LE>(string.len() as i32 + 1)?;
                 let bytes = string.as_bytes();
-- 
2.43.0


From 9bcbe1254159119ab93199e0cd6c2802ff961a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:53 +0000
Subject: [PATCH 017/108] fix: parsing a Guid rejects anything but hex digits
 instead of panicking

---
 unreal_helpers/src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_helpers/src/guid.rs b/unreal_helpers/src/guid.rs
index 71509a8..aa4c61a 100644
--- a/unreal_helpers/src/guid.rs
+++ b/unreal_helpers/src/guid.rs
@@ -214,7 +214,7 @@ impl FromStr for Guid {
             return Ok(Guid::new([0u8; 16]));
         }
 
-        if cleaned.len() != 32 {
+        if cleaned.len() != 32 || !cleaned.bytes().all(|e| e.is_ascii_hexdigit()) {
             Err(ParseGuidError)?;
         }
         let mut guid = Guid(Default::default());
-- 
2.43.0


From d018d818076d2b1e51bf229eef7d70e07098864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:53 +0000
Subject: [PATCH 018/108] fix: game_to_absolute takes the game name literally

---
 unreal_helpers/src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_helpers/src/path.rs b/unreal_helpers/src/path.rs
index 910416a..b496cca 100644
--- a/unreal_helpers/src/path.rs
+++ b/unreal_helpers/src/path.rs
@@ -3,7 +3,7 @@
 use std::path::Path;
 
 use lazy_static::lazy_static;
-use regex::Regex;
+use regex::{NoExpand, Regex};
 
 lazy_static! {
     static ref GAME_REGEX: Regex = Regex::new(r"^/Game/").unwrap();
@@ -19,7 +19,7 @@ pub fn game_to_absolute(game_name: &str, path: &str) -> Option<String> {
     }
 
     let path_str = GAME_REGEX
-        .replace(path, String::from(game_name) + "/Content/")
+        .replace(path, NoExpand(&(String::from(game_name) + "/Content/")))
         .to_string();
     let path = Path::new(&path_str);
     match path.extension() {
-- 
2.43.0


From f39297423217a1b0c372e34177976abb13575200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:46 +0000
Subject: [PATCH 019/108] fix: an invalid dependency version is an error
 instead of a panic

---
 unreal_mod_metadata/src/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index f08b941..bcfa4f7 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -32,7 +32,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
 
         fn visit_map<M>(self, map: M) -> Result<T, M::Error>
-- 
2.43.0


From bac46fd7cfe2d4d13e1d5e65ad5d4620f7b2b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:46 +0000
Subject: [PATCH 020/108] fix: comparing and hashing mod metadata with
 integrator data

Arrays and objects, which every integrator entry is in practice, panicked, and
equal maps compared as different because of their iteration order.
---
 unreal_mod_metadata/src/lib.rs |  2 +-
 unreal_mod_metadata/src/v2.rs  | 31 +++++++++++--------------------
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/unreal_mod_metadata/src/lib.rs b/unreal_mod_metadata/src/lib.rs
index 5904712..64b6f3e 100644
--- a/unreal_mod_metadata/src/lib.rs
+++ b/unreal_mod_metadata/src/lib.rs
@@ -18,7 +18,7 @@ macro_rules! hash_value {
             Value::Number(n) => n.hash($state),
             Value::Bool(b) => b.hash($state),
             Value::Null => (),
-            _ => unreachable!(),
+            value => value.to_string().hash($state),
         }
     };
 }
diff --git a/unreal_mod_metadata/src/v2.rs b/unreal_mod_metadata/src/v2.rs
index bcfa4f7..9a41e35 100644
--- a/unreal_mod_metadata/src/v2.rs
+++ b/unreal_mod_metadata/src/v2.rs
@@ -1,5 +1,5 @@
-use std::collections::{hash_map::DefaultHasher, HashMap};
-use std::hash::{Hash, Hasher};
+use std::collections::HashMap;
+use std::hash::Hash;
 use std::marker::PhantomData;
 use std::str::FromStr;
 
@@ -96,13 +96,18 @@ impl Hash for Metadata {
         self.download.hash(state);
 
         self.dependencies.len().hash(state);
-        for (element_name, element) in &self.dependencies {
+        // the iteration order of a HashMap differs between equal maps
+        let mut dependencies = self.dependencies.iter().collect::<Vec<_>>();
+        dependencies.sort_unstable_by_key(|(name, _)| *name);
+        for (element_name, element) in dependencies {
             element_name.hash(state);
             element.hash(state);
         }
 
         self.integrator.len().hash(state);
-        for (element_name, element) in &self.integrator {
+        let mut integrator = self.integrator.iter().collect::<Vec<_>>();
+        integrator.sort_unstable_by_key(|(name, _)| *name);
+        for (element_name, element) in integrator {
             element_name.hash(state);
             hash_value!(element, state);
         }
@@ -113,7 +118,7 @@ impl Hash for Metadata {
 
 impl PartialEq for Metadata {
     fn eq(&self, other: &Self) -> bool {
-        let cmp = self.schema_version == other.schema_version
+        self.schema_version == other.schema_version
             && self.name == other.name
             && self.mod_id == other.mod_id
             && self.author == other.author
@@ -125,21 +130,7 @@ impl PartialEq for Metadata {
             && self.download == other.download
             && self.dependencies == other.dependencies
             && self.cpp_loader_dlls == other.cpp_loader_dlls
-            && self.integrator.len() == other.integrator.len();
-
-        let mut hasher = DefaultHasher::new();
-        for (element_name, element) in &self.integrator {
-            element_name.hash(&mut hasher);
-            hash_value!(element, &mut hasher);
-        }
-
-        let mut other_hasher = DefaultHasher::new();
-        for (element_name, element) in &other.integrator {
-            element_name.hash(&mut other_hasher);
-            hash_value!(element, &mut other_hasher);
-        }
-
-        cmp && (hasher.finish() == other_hasher.finish())
+            && self.integrator == other.integrator
     }
 }
 
-- 
2.43.0


From 77c3748792d5dd9299fdb91d25282195bbe59fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:13 +0000
Subject: [PATCH 021/108] fix: searching a name map never returns a renamed
 entry

---
 .../src/containers/name_map.rs                | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/containers/name_map.rs b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
index c70f46e..d6347f5 100644
--- a/unreal_asset/unreal_asset_base/src/containers/name_map.rs
+++ b/unreal_asset/unreal_asset_base/src/containers/name_map.rs
@@ -16,6 +16,8 @@ pub struct NameMap {
     name_map_lookup: IndexedMap<u64, i32>,
     /// Name map index list
     name_map_index_list: Vec<String>,
+    /// Whether entries may have been renamed, in which case the lookup can be stale
+    renamed: bool,
     /// A reference to self
     self_ref: SharedResourceWeakRef<NameMap>,
 }
@@ -26,6 +28,7 @@ impl NameMap {
         SharedResource::new_cyclic(|me| NameMap {
             name_map_lookup: IndexedMap::new(),
             name_map_index_list: Vec::new(),
+            renamed: false,
             self_ref: me.clone(),
         })
     }
@@ -47,7 +50,22 @@ impl NameMap {
         let mut s = DefaultHasher::new();
         name.hash(&mut s);
 
-        self.name_map_lookup.get_by_key(&s.finish()).copied()
+        let existing = self
+            .name_map_lookup
+            .get_by_key(&s.finish())
+            .copied()
+            .filter(|e| self.get_name_reference(*e) == name);
+
+        // a renamed entry isn't found by it's new name and may hide another entry with it's old name
+        if existing.is_none() && self.renamed {
+            return self
+                .name_map_index_list
+                .iter()
+                .position(|e| e == name)
+                .map(|e| e as i32);
+        }
+
+        existing
     }
 
     /// Add an FName reference
@@ -94,6 +112,7 @@ impl NameMap {
 
     /// Get a mutable name reference by an FName map index
     pub fn get_name_reference_mut(&mut self, index: i32) -> &mut String {
+        self.renamed = true;
         &mut self.name_map_index_list[index as usize]
     }
 
-- 
2.43.0


From 91bb73ca8b285699009d88e522d4f8bab30e970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:25 +0000
Subject: [PATCH 022/108] fix: an import index one past the end is absent
 instead of a panic

---
 unreal_asset/src/asset.rs                | 8 ++------
 unreal_asset/src/asset_archive_writer.rs | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 8505604..880a557 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -826,12 +826,8 @@ impl<'a, C: Read + Seek> Asset<C> {
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
-            return None;
-        }
-
-        Some(self.imports[index as usize].clone())
+        let index = -(index.index as i64) - 1;
+        self.imports.get(index as usize).cloned()
     }
 
     /// Get an export
diff --git a/unreal_asset/src/asset_archive_writer.rs b/unreal_asset/src/asset_archive_writer.rs
index f332d1f..2fd87df 100644
--- a/unreal_asset/src/asset_archive_writer.rs
+++ b/unreal_asset/src/asset_archive_writer.rs
@@ -55,12 +55,8 @@ impl<'parent_writer, 'asset, ParentWriter: ArchiveWriter<PackageIndex>>
             return None;
         }
 
-        let index = -index.index - 1;
-        if index < 0 || index > self.imports.len() as i32 {
-            return None;
-        }
-
-        Some(self.imports[index as usize].clone())
+        let index = -(index.index as i64) - 1;
+        self.imports.get(index as usize).cloned()
     }
 }
 
-- 
2.43.0


From 98f57d52feb9713151de9e2cee44b762916f87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:48 +0000
Subject: [PATCH 023/108] fix: guessing the engine version considers every
 version that shares the object versions

---
 .../unreal_asset_base/src/custom_version.rs   |  3 +-
 .../unreal_asset_base/src/engine_version.rs   | 33 +++++++++++--------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index f5b3686..37126d0 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -140,8 +140,9 @@ impl CustomVersion {
     ) -> Option<EngineVersion> {
         self.version_mappings
             .iter()
-            .find(|(_, version)| *version == version_number)
+            .filter(|(_, version)| *version == version_number)
             .map(|(engine_version, _)| *engine_version)
+            .min()
     }
 
     /// Get a version number for a given engine version
diff --git a/unreal_asset/unreal_asset_base/src/engine_version.rs b/unreal_asset/unreal_asset_base/src/engine_version.rs
index 9b311f2..5d46731 100644
--- a/unreal_asset/unreal_asset_base/src/engine_version.rs
+++ b/unreal_asset/unreal_asset_base/src/engine_version.rs
@@ -229,7 +229,7 @@ lazy_static! {
                 EngineVersion::VER_UE5_1
             ),
             (
-                ObjectVersionUE5::AUTOMATIC_VERSION,
+                ObjectVersionUE5::DATA_RESOURCES,
                 EngineVersion::VER_UE5_2
             )
         ]);
@@ -240,21 +240,26 @@ pub fn get_possible_versions(
     object_version: ObjectVersion,
     object_version_ue5: ObjectVersionUE5,
 ) -> Vec<EngineVersion> {
-    let mut possible_versions = Vec::new();
-    if let Some(ue5_version) = OBJECT_VERSION_TO_ENGINE_VERSION_UE5
+    let matching = OBJECT_VERSION_TO_ENGINE_VERSION
         .iter()
-        .find(|(version, _)| *version == object_version_ue5)
-        .map(|(_, engine_version)| *engine_version)
-    {
-        possible_versions.push(ue5_version);
-    }
+        .filter(|(version, _)| *version == object_version)
+        .map(|(_, engine_version)| *engine_version);
+
+    // several engine versions can share their object versions
+    let mut possible_versions = matching
+        .clone()
+        .filter(|e| get_object_versions(*e).1 == object_version_ue5)
+        .collect::<Vec<_>>();
 
-    possible_versions.extend(
-        OBJECT_VERSION_TO_ENGINE_VERSION
-            .iter()
-            .find(|(version, _)| *version == object_version)
-            .map(|(_, engine_version)| *engine_version),
-    );
+    if possible_versions.is_empty() {
+        possible_versions.extend(
+            OBJECT_VERSION_TO_ENGINE_VERSION_UE5
+                .iter()
+                .filter(|(version, _)| *version == object_version_ue5)
+                .map(|(_, engine_version)| *engine_version),
+        );
+        possible_versions.extend(matching);
+    }
 
     possible_versions
 }
-- 
2.43.0


From a123bf4019e389bd6515475ac9a2b651840366f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:03 +0000
Subject: [PATCH 024/108] fix: FAnimPhysObjectVersion has default values per
 engine version

---
 unreal_asset/unreal_asset_base/src/custom_version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/custom_version.rs b/unreal_asset/unreal_asset_base/src/custom_version.rs
index 37126d0..0ebd4a9 100644
--- a/unreal_asset/unreal_asset_base/src/custom_version.rs
+++ b/unreal_asset/unreal_asset_base/src/custom_version.rs
@@ -48,7 +48,6 @@ lazy_static! {
         ( (0xD7296918, 0x1DD64BDD, 0x9DE264A8, 0x3CC13884).into(), (String::from("FVRObjectVersion"), None) ),
         ( (0xC2A15278, 0xBFE74AFE, 0x6C1790FF, 0x531DF755).into(), (String::from("FLoadTimesObjectVersion"), None) ),
         ( (0x6EACA3D4, 0x40EC4CC1, 0xB7868BED, 0x9428FC5).into(),  (String::from("FGeometryObjectVersion"), None) ),
-        ( (0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA).into(), (String::from("FAnimPhysObjectVersion"), None) ),
         ( (0xAF43A65D, 0x7FD34947, 0x98733E8E, 0xD9C1BB05).into(), (String::from("FAnimObjectVersion"), None) ),
         ( (0x6B266CEC, 0x1EC74B8F, 0xA30BE4D9, 0x0942FC07).into(), (String::from("FReflectionCaptureObjectVersion"), None) ),
         ( (0x0DF73D61, 0xA23F47EA, 0xB72789E9, 0x0C41499A).into(), (String::from("FAutomationObjectVersion"), None) ),
@@ -77,6 +76,7 @@ lazy_static! {
         ( FEditorObjectVersion::GUID,                               (String::from(FEditorObjectVersion::FRIENDLY_NAME), Some(FEditorObjectVersion::VERSION_MAPPINGS)) ),
         ( FFrameworkObjectVersion::GUID,                            (String::from(FFrameworkObjectVersion::FRIENDLY_NAME), Some(FFrameworkObjectVersion::VERSION_MAPPINGS)) ),
         ( FFortniteMainBranchObjectVersion::GUID,                   (String::from(FFortniteMainBranchObjectVersion::FRIENDLY_NAME), Some(FFortniteMainBranchObjectVersion::VERSION_MAPPINGS)) ),
+        ( FAnimPhysObjectVersion::GUID,                             (String::from(FAnimPhysObjectVersion::FRIENDLY_NAME), Some(FAnimPhysObjectVersion::VERSION_MAPPINGS)) ),
         ( FReleaseObjectVersion::GUID,                              (String::from(FReleaseObjectVersion::FRIENDLY_NAME), Some(FReleaseObjectVersion::VERSION_MAPPINGS)) ),
         ( FSequencerObjectVersion::GUID,                            (String::from(FSequencerObjectVersion::FRIENDLY_NAME), Some(FSequencerObjectVersion::VERSION_MAPPINGS)) ),
     ]);
-- 
2.43.0


From 46ccf764c5fdbb932b7e83e63d00e9262f4d4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:17 +0000
Subject: [PATCH 025/108] fix: assets with legacy file version -4 are written
 without the UE3 version

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 880a557..50dd85e 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1002,7 +1002,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_u32::<BE>(UE4_ASSET_MAGIC)?;
         cursor.write_i32::<LE>(self.legacy_file_version)?;
 
-        if self.legacy_file_version != 4 {
+        if self.legacy_file_version != -4 {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => cursor.write_i32::<LE>(864)?,
-- 
2.43.0


From 7122280b5c5c58315afda2ccf5be0dcb5f31b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:17 +0000
Subject: [PATCH 026/108] fix: write the compatible engine version of an asset

---
 unreal_asset/src/asset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 50dd85e..17f7840 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1086,7 +1086,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         if self.asset_data.object_version
             >= ObjectVersion::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION
         {
-            self.engine_version_recorded.write(cursor)?;
+            self.engine_version_compatible.write(cursor)?;
         }
 
         cursor.write_u32::<LE>(self.compression_flags)?;
-- 
2.43.0


From 7abf14c155c48584810d18b263b0c1435d75c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:17 +0000
Subject: [PATCH 027/108] fix: keep the counts of earlier asset generations

---
 unreal_asset/src/asset.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 17f7840..91f8382 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1071,7 +1071,12 @@ impl<'a, C: Read + Seek> Asset<C> {
         cursor.write_guid(&self.package_guid)?;
         cursor.write_i32::<LE>(self.generations.len() as i32)?;
 
-        for _ in 0..self.generations.len() {
+        // the last generation describes the current state of the asset
+        if let Some((_, previous)) = self.generations.split_last() {
+            for generation in previous {
+                cursor.write_i32::<LE>(generation.export_count)?;
+                cursor.write_i32::<LE>(generation.name_count)?;
+            }
             cursor.write_i32::<LE>(self.asset_data.exports.len() as i32)?;
             cursor
                 .write_i32::<LE>(self.name_map.get_ref().get_name_map_index_list().len() as i32)?;
-- 
2.43.0


From bd393451d49721c95f86ba886153a173cbb2b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:17 +0000
Subject: [PATCH 028/108] fix: keep the depends offset of assets that never
 stored it

---
 unreal_asset/src/asset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 91f8382..0d58348 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1268,9 +1268,10 @@ impl<'a, C: Read + Seek> Asset<C> {
             )?;
         }
 
+        // 4.14-4.15 the depends offset wasnt updated so always serialized as 0
         let depends_offset = match self.depends_map {
-            Some(_) => serializer.position() as i32,
-            None => 0,
+            Some(_) if self.depends_offset > 0 => serializer.position() as i32,
+            _ => 0,
         };
 
         if let Some(ref map) = self.depends_map {
-- 
2.43.0


From c8d9d2d49561e51bdc70cb8c54a4147482c96a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:17 +0000
Subject: [PATCH 029/108] fix: record the header size of assets without exports

---
 unreal_asset/src/asset.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 0d58348..a650190 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1352,10 +1352,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             preload_dependency_count = -1;
         }
 
-        let header_offset = match !self.asset_data.exports.is_empty() {
-            true => serializer.position() as i32,
-            false => 0,
-        };
+        let header_offset = serializer.position() as i32;
 
         let mut category_starts = Vec::with_capacity(self.asset_data.exports.len());
 
-- 
2.43.0


From 9f9bc0794e49865aa1a8f090c18754d03e89f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:17 +0000
Subject: [PATCH 030/108] fix: keep name hashes that differ from the computed
 ones

---
 unreal_asset/src/asset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index a650190..88ed90a 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -862,9 +862,9 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         for _ in 0..self.name_count {
             let (name, hash) = self.read_name_map_string(None)?;
-            if hash == 0 {
+            if hash != crc::generate_hash(&name) {
                 // todo: good FString type
-                self.override_name_map_hashes.insert(name.clone(), 0);
+                self.override_name_map_hashes.insert(name.clone(), hash);
             }
             self.add_name_reference(name, true);
         }
-- 
2.43.0


From 8aac01cbc7cefe1bab73bd0cafa9d1c275f8fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:17 +0000
Subject: [PATCH 031/108] fix: only write custom versions that were stored in
 the asset

---
 unreal_asset/src/asset.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index 88ed90a..ec13f88 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -432,6 +432,10 @@ pub struct Asset<C: Read + Seek> {
     /// Data resource offset
     data_resource_offset: i32,
 
+    /// Custom versions that aren't stored in the asset but implied by the engine version or mappings
+    #[container_ignore]
+    implied_custom_versions: Vec<CustomVersion>,
+
     /// Overriden name map hashes
     #[container_ignore]
     pub override_name_map_hashes: IndexedMap<String, u32>,
@@ -510,6 +514,7 @@ impl<'a, C: Read + Seek> Asset<C> {
             payload_toc_offset: 0,
             data_resource_offset: 0,
 
+            implied_custom_versions: Vec::new(),
             override_name_map_hashes: IndexedMap::new(),
             name_map,
             imports: Vec::new(),
@@ -587,11 +592,24 @@ impl<'a, C: Read + Seek> Asset<C> {
         // read custom versions container
         if self.legacy_file_version <= -2 {
             // TODO: support for enum-based custom versions
+            let position = self.position();
+            let stored_count = self.read_i32::<LE>()?;
+            self.set_position(position)?;
+
             let old_container = self.asset_data.summary.custom_versions.clone();
             self.asset_data.summary.custom_versions = self.read_custom_version_container(
                 self.get_custom_version_serialization_format(),
                 Some(&old_container),
             )?;
+
+            self.implied_custom_versions = self
+                .asset_data
+                .summary
+                .custom_versions
+                .iter()
+                .skip(stored_count as usize)
+                .cloned()
+                .collect();
         }
 
         // read header offset
@@ -1026,8 +1044,15 @@ impl<'a, C: Read + Seek> Asset<C> {
             match self.asset_data.summary.unversioned {
                 true => cursor.write_i32::<LE>(0)?,
                 false => {
-                    cursor.write_i32::<LE>(self.asset_data.summary.custom_versions.len() as i32)?;
-                    for custom_version in &self.asset_data.summary.custom_versions {
+                    let stored_versions = self
+                        .asset_data
+                        .summary
+                        .custom_versions
+                        .iter()
+                        .filter(|e| !self.implied_custom_versions.contains(e))
+                        .collect::<Vec<_>>();
+                    cursor.write_i32::<LE>(stored_versions.len() as i32)?;
+                    for custom_version in stored_versions {
                         cursor.write_guid(&custom_version.guid)?;
                         cursor.write_i32::<LE>(custom_version.version)?;
                     }
-- 
2.43.0


From 8a676b836a847f7857729346046b3fcc288e4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:38 +0000
Subject: [PATCH 032/108] fix: names added while writing exports are part of
 the written name map

---
 unreal_asset/src/asset.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index ec13f88..a337b61 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1200,7 +1200,7 @@ impl<'a, C: Read + Seek> Asset<C> {
     pub fn write_data<W: Read + Seek + Write>(
         &self,
         cursor: &mut W,
-        uexp_cursor: Option<&mut W>,
+        mut uexp_cursor: Option<&mut W>,
     ) -> Result<(), Error> {
         if self.asset_data.use_event_driven_loader != uexp_cursor.is_some() {
             return Err(Error::no_data(format!(
@@ -1213,6 +1213,8 @@ impl<'a, C: Read + Seek> Asset<C> {
             )));
         }
 
+        let name_count = self.name_map.get_ref().get_name_map_index_list().len();
+
         let header = AssetHeader {
             name_offset: self.name_offset,
             import_offset: self.import_offset,
@@ -1228,7 +1230,7 @@ impl<'a, C: Read + Seek> Asset<C> {
         };
 
         let mut raw_serializer = RawWriter::new(
-            cursor,
+            &mut *cursor,
             self.asset_data.object_version,
             self.asset_data.object_version_ue5,
             self.asset_data.use_event_driven_loader,
@@ -1385,7 +1387,7 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         let mut raw_bulk_serializer = match self.asset_data.use_event_driven_loader {
             true => Some(RawWriter::new(
-                uexp_cursor.unwrap(),
+                uexp_cursor.as_deref_mut().unwrap(),
                 self.asset_data.object_version,
                 self.asset_data.object_version_ue5,
                 self.asset_data.use_event_driven_loader,
@@ -1477,6 +1479,11 @@ impl<'a, C: Read + Seek> Asset<C> {
 
         serializer.rewind()?;
 
+        // writing the exports can add names, but the name map is written before them
+        if self.name_map.get_ref().get_name_map_index_list().len() != name_count {
+            return self.write_data(cursor, uexp_cursor);
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From c68942627774d42d616483b18feb2044b091de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:38 +0000
Subject: [PATCH 033/108] fix: names added to an asset count as referenced from
 export data

---
 unreal_asset/src/asset.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index a337b61..f6e80d9 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -1156,7 +1156,12 @@ impl<'a, C: Read + Seek> Asset<C> {
         }
 
         if self.get_object_version_ue5() >= ObjectVersionUE5::NAMES_REFERENCED_FROM_EXPORT_DATA {
-            cursor.write_i32::<LE>(self.names_referenced_from_export_data_count)?;
+            // names added since reading can be referenced from export data
+            let name_count = self.name_map.get_ref().get_name_map_index_list().len() as i32;
+            cursor.write_i32::<LE>(match name_count > self.name_count {
+                true => name_count,
+                false => self.names_referenced_from_export_data_count,
+            })?;
         }
 
         if self.get_object_version_ue5() >= ObjectVersionUE5::PAYLOAD_TOC {
-- 
2.43.0


From 4b682ed1d721c7c928af113068c43b799ef0e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:38 +0000
Subject: [PATCH 034/108] fix: versioned assets opened without an engine
 version use the one they were saved with

---
 unreal_asset/src/asset.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/src/asset.rs b/unreal_asset/src/asset.rs
index f6e80d9..3ba02d7 100644
--- a/unreal_asset/src/asset.rs
+++ b/unreal_asset/src/asset.rs
@@ -14,7 +14,7 @@ use unreal_asset_base::{
     containers::{Chain, IndexedMap, NameMap, SharedResource},
     crc,
     custom_version::{CustomVersion, CustomVersionTrait},
-    engine_version::EngineVersion,
+    engine_version::{guess_engine_version, EngineVersion},
     enums::ECustomVersionSerializationFormat,
     error::Error,
     flags::EPackageFlags,
@@ -612,6 +612,14 @@ impl<'a, C: Read + Seek> Asset<C> {
                 .collect();
         }
 
+        if self.asset_data.engine_version == EngineVersion::UNKNOWN {
+            self.asset_data.engine_version = guess_engine_version(
+                self.asset_data.object_version,
+                self.asset_data.object_version_ue5,
+                &self.asset_data.summary.custom_versions,
+            );
+        }
+
         // read header offset
         self.header_offset = self.read_i32::<LE>()?;
 
-- 
2.43.0


From a2b1faf02b894a087a1541f5b73fbaf3ba2fbb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 035/108] fix: packed colours are read and written in ARGB
 order

---
 unreal_asset/unreal_asset_base/src/types/vector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/types/vector.rs b/unreal_asset/unreal_asset_base/src/types/vector.rs
index d072bdd..bd307db 100644
--- a/unreal_asset/unreal_asset_base/src/types/vector.rs
+++ b/unreal_asset/unreal_asset_base/src/types/vector.rs
@@ -79,16 +79,16 @@ impl Color<u8> {
     /// Create a new `Color<u8>` instance from an argb int
     pub fn from_argb(argb: i32) -> Self {
         Color::new(
-            ((argb >> 24) & 0xff) as u8,
             ((argb >> 16) & 0xff) as u8,
             ((argb >> 8) & 0xff) as u8,
             (argb & 0xff) as u8,
+            ((argb >> 24) & 0xff) as u8,
         )
     }
 
     /// Convert to argb int
     pub fn to_argb(&self) -> i32 {
-        ((self.r as i32) << 24) | ((self.g as i32) << 16) | ((self.b as i32) << 8) | self.a as i32
+        ((self.a as i32) << 24) | ((self.r as i32) << 16) | ((self.g as i32) << 8) | self.b as i32
     }
 }
 
-- 
2.43.0


From 583569f6da054ed7d834e13d3e4f6a33e0507ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 036/108] fix: struct arrays keep the struct guid and length of
 their inner tag

---
 .../unreal_asset_properties/src/array_property.rs  | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 5c62eb0..9823c99 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -286,7 +286,7 @@ impl ArrayProperty {
                 )?;
                 if asset.get_object_version() >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG
                 {
-                    asset.write_guid(&property.property_guid.unwrap_or_default())?;
+                    asset.write_guid(&property.struct_guid.unwrap_or_default())?;
                 }
                 if asset.get_object_version()
                     >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
@@ -294,6 +294,7 @@ impl ArrayProperty {
                     asset.write_u8(0)?;
                 }
             }
+            let elements_begin = asset.position();
 
             for property in &self.value {
                 let struct_property: &StructProperty = match property {
@@ -308,17 +309,10 @@ impl ArrayProperty {
 
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
                 let length_loc = length_loc.expect("Corrupted memory");
-                let full_len = asset.position() - length_loc;
                 let new_loc = asset.position();
+                let length = new_loc - elements_begin;
                 asset.seek(SeekFrom::Start(length_loc))?;
-                let length = full_len
-                    - 32
-                    - match include_header {
-                        true => 1,
-                        false => 0,
-                    };
-
-                asset.write_i32::<LE>(length as i32)?;
+                asset.write_i64::<LE>(length as i64)?;
                 asset.seek(SeekFrom::Start(new_loc))?;
             }
         } else {
-- 
2.43.0


From ed6f1f08433487da4ba97647e60105a4b1acb6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 037/108] fix: struct arrays keep their own name next to the
 name of their inner tag

---
 .../unreal_asset_properties/src/array_property.rs   | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 9823c99..ca807b3 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -83,8 +83,6 @@ impl ArrayProperty {
     ) -> Result<Self, Error> {
         let num_entries = asset.read_i32::<LE>()?;
         let mut entries = Vec::new();
-        let mut name = name;
-
         let mut struct_length = 1;
         let mut struct_guid = None;
 
@@ -123,9 +121,10 @@ impl ArrayProperty {
             && !asset.has_unversioned_properties()
         {
             let mut full_type = FName::from_slice("Generic");
+            let mut element_name = name.clone();
             if asset.get_object_version() >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO {
-                name = asset.read_fname()?;
-                if name == "None" {
+                element_name = asset.read_fname()?;
+                if element_name == "None" {
                     return Ok(ArrayProperty::default());
                 }
 
@@ -160,8 +159,8 @@ impl ArrayProperty {
 
             if num_entries == 0 {
                 dummy_struct = Some(StructProperty::dummy(
-                    name.clone(),
-                    ancestry.with_parent(name.clone()),
+                    element_name.clone(),
+                    new_ancestry.clone(),
                     full_type.clone(),
                     struct_guid,
                 ));
@@ -169,7 +168,7 @@ impl ArrayProperty {
             for _i in 0..num_entries {
                 let data = StructProperty::custom_header(
                     asset,
-                    name.clone(),
+                    element_name.clone(),
                     new_ancestry.clone(),
                     struct_length,
                     0,
-- 
2.43.0


From 9d1675bb4a31726e5613c7beb991769e03697657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 038/108] fix: reading an array with a known struct type does
 not touch the name map

---
 unreal_asset/unreal_asset_properties/src/array_property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index ca807b3..6a63a2f 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -154,7 +154,7 @@ impl ArrayProperty {
                 .get_content(|name| asset.get_array_struct_type_override().get_by_key(name))
                 .cloned()
             {
-                full_type = asset.add_fname(&type_override);
+                full_type = FName::new_dummy(type_override, 0);
             }
 
             if num_entries == 0 {
-- 
2.43.0


From 92b97c916b163979317deee6e139735e734fa051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 039/108] fix: maps keep every key to remove

---
 unreal_asset/unreal_asset_properties/src/map_property.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 7d6871a..5635e63 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -155,9 +155,8 @@ impl MapProperty {
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
-        for _ in 0..num_keys_to_remove as usize {
-            let mut vec = Vec::with_capacity(num_keys_to_remove as usize);
-            vec.push(MapProperty::map_type_to_class(
+        for _ in 0..num_keys_to_remove {
+            let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
                 name.clone(),
@@ -165,8 +164,8 @@ impl MapProperty {
                 0,
                 false,
                 true,
-            )?);
-            keys_to_remove = Some(vec);
+            )?;
+            keys_to_remove.get_or_insert_with(Vec::new).push(key);
         }
 
         let num_entries = asset.read_i32::<LE>()?;
-- 
2.43.0


From 5c5d3f2a6a4f667797c427ec6876ebb87ce2a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 040/108] fix: sets of bytes are sized without the removed
 items

---
 unreal_asset/unreal_asset_properties/src/set_property.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/set_property.rs b/unreal_asset/unreal_asset_properties/src/set_property.rs
index 3e80fd5..4d4885d 100644
--- a/unreal_asset/unreal_asset_properties/src/set_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/set_property.rs
@@ -38,6 +38,7 @@ impl SetProperty {
             false => (None, None),
         };
 
+        let begin = asset.position();
         let removed_items = ArrayProperty::new_no_header(
             asset,
             name.clone(),
@@ -49,6 +50,7 @@ impl SetProperty {
             array_type.clone(),
             property_guid,
         )?;
+        let length = length - (asset.position() - begin) as i64;
 
         let items = ArrayProperty::new_no_header(
             asset,
-- 
2.43.0


From 96a7f74bdcb9f487e886060ea6288c9114226fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 041/108] fix: natively serialised structs of no length can be
 written back

---
 unreal_asset/unreal_asset_properties/src/struct_property.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/struct_property.rs b/unreal_asset/unreal_asset_properties/src/struct_property.rs
index 01de970..e77b3a4 100644
--- a/unreal_asset/unreal_asset_properties/src/struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/struct_property.rs
@@ -283,7 +283,9 @@ impl StructProperty {
             }
         }
 
-        if has_custom_serialization {
+        if self.value.is_empty() && !self.serialize_none {
+            Ok(0)
+        } else if has_custom_serialization {
             if self.value.len() != 1 {
                 return Err(PropertyError::invalid_struct(
                     struct_type
@@ -295,8 +297,6 @@ impl StructProperty {
                 .into());
             }
             self.value[0].write(asset, false)
-        } else if self.value.is_empty() && !self.serialize_none {
-            Ok(0)
         } else {
             let begin = asset.position();
 
-- 
2.43.0


From faf41c4ae753d2168017de6912073b3b6a2e761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 042/108] fix: cloth vertices are written as they are read and
 reading them leaves the name map alone

---
 .../src/cloth_lod_property.rs                 | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index cb94c9b..95acf59 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -25,10 +25,7 @@ impl MeshToMeshVertData {
     ) -> Result<Self, Error> {
         let position_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("PositionBaryCoordsAndDist"),
+            FName::from_slice("PositionBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -36,10 +33,7 @@ impl MeshToMeshVertData {
 
         let normal_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("NormalBaryCoordsAndDist"),
+            FName::from_slice("NormalBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -47,10 +41,7 @@ impl MeshToMeshVertData {
 
         let tangent_bary_coords_and_dist = Vector4Property::new(
             asset,
-            asset
-                .get_name_map()
-                .get_mut()
-                .add_fname("TangentBaryCoordsAndDist"),
+            FName::from_slice("TangentBaryCoordsAndDist"),
             Ancestry::default(),
             false,
             0,
@@ -89,13 +80,13 @@ impl MeshToMeshVertData {
                 false => asset.write_u16::<LE>(0),
             }?;
             size += size_of::<u16>();
-
-            asset.write_f32::<LE>(self.weight.0)?;
-            size += size_of::<f32>();
-            asset.write_u32::<LE>(0)?;
-            size += size_of::<u32>();
         }
 
+        asset.write_f32::<LE>(self.weight.0)?;
+        size += size_of::<f32>();
+        asset.write_u32::<LE>(0)?;
+        size += size_of::<u32>();
+
         Ok(size)
     }
 }
-- 
2.43.0


From d85a34e9e9d484b7e2fa6385b91d44fb61244514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 043/108] fix: font data keeps its sub face index

---
 .../src/slate_core/font_data_property.rs                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
index c829ac8..17c87c3 100644
--- a/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/slate_core/font_data_property.rs
@@ -121,6 +121,10 @@ impl FontData {
                     PropertyError::property_field_none("loading_policy", "Some(ELoadingPolicy)")
                 })? as u8)?;
             }
+
+            asset.write_i32::<LE>(self.sub_face_index.ok_or_else(|| {
+                PropertyError::property_field_none("sub_face_index", "Some(i32)")
+            })?)?;
         }
         Ok(())
     }
-- 
2.43.0


From 9fd37f7cd88d3aaaf1e8577cff1e4c04c275ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 044/108] fix: unique net ids are written behind their size

---
 .../src/game_framework/unique_net_id_property.rs                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
index 75764b6..de7aace 100644
--- a/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/game_framework/unique_net_id_property.rs
@@ -71,6 +71,7 @@ impl PropertyTrait for UniqueNetIdProperty {
         match &self.value {
             Some(value) => {
                 let mut length = 3 * size_of::<i32>();
+                asset.write_i32::<LE>(0)?; // initial length
                 asset.write_fname(&value.ty)?;
                 length += asset.write_fstring(value.contents.as_deref())?;
 
-- 
2.43.0


From 81f77628733e9b0c09d166499ee8b93a129e20c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:41 +0000
Subject: [PATCH 045/108] fix: evaluation trees read as many items as they
 store

---
 .../src/movies/movie_scene_evaluation.rs                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index 9479bd0..cd38712 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -145,7 +145,7 @@ where
         let items_amount = asset.read_i32::<LE>()?;
         let mut items = Vec::with_capacity(items_amount as usize);
 
-        for _ in 0..entries_amount {
+        for _ in 0..items_amount {
             items.push(item_reader(asset)?);
         }
 
-- 
2.43.0


From 0b78321cddffd9306cde6c717580777ada69780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 046/108] fix: movie scene pointers without a type keep their
 empty type name

---
 .../src/movies/movie_scene_eval_template_ptr_property.rs    | 6 +++++-
 .../movies/movie_scene_track_implementation_ptr_property.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
index 1a43da5..1c0f04b 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_eval_template_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneEvalTemplatePtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
@@ -101,6 +101,10 @@ impl PropertyTrait for MovieSceneEvalTemplatePtrProperty {
             }
         }
 
+        if self.value.is_empty() && !asset.has_unversioned_properties() {
+            asset.write_fstring(None)?;
+        }
+
         if had_typename && !asset.has_unversioned_properties() {
             let none_fname = asset.add_fname("None");
             asset.write_fname(&none_fname)?;
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
index c41ad45..c42b481 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_track_implementation_ptr_property.rs
@@ -31,7 +31,7 @@ impl MovieSceneTrackImplementationPtrProperty {
 
         let mut value: Vec<Property> = Vec::new();
 
-        let type_name_fname = asset.add_fname("TypeName");
+        let type_name_fname = FName::from_slice("TypeName");
         let new_ancestry = ancestry.with_parent(name.clone());
         let type_name = StrProperty::new(
             asset,
@@ -89,6 +89,10 @@ impl PropertyTrait for MovieSceneTrackImplementationPtrProperty {
             }
         }
 
+        if self.value.is_empty() {
+            asset.write_fstring(None)?;
+        }
+
         if had_typename {
             let none_fname = asset.add_fname("None");
             asset.write_fname(&none_fname)?;
-- 
2.43.0


From 0d36ce290bdd310c0ad79367103892968ed779f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 047/108] fix: RF_HAS_EXTERNAL_PACKAGE does not share its bit
 with RF_STRONG_REF_ON_FRAME

---
 unreal_asset/unreal_asset_base/src/flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/flags.rs b/unreal_asset/unreal_asset_base/src/flags.rs
index 4a8f8a8..a678e19 100644
--- a/unreal_asset/unreal_asset_base/src/flags.rs
+++ b/unreal_asset/unreal_asset_base/src/flags.rs
@@ -66,7 +66,7 @@ bitflags! {
         /// Object will be loaded
         const RF_WILL_BE_LOADED = 0x08000000;
         /// Object has an external package
-        const RF_HAS_EXTERNAL_PACKAGE = 0x1000000;
+        const RF_HAS_EXTERNAL_PACKAGE = 0x10000000;
     }
 
     /// Package flags
-- 
2.43.0


From 3119d92ef09b383292e2d77a9be3f5566fd63e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 048/108] fix: font data from before font face assets is a
 property list

---
 .../unreal_asset_properties/src/struct_property.rs  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/struct_property.rs b/unreal_asset/unreal_asset_properties/src/struct_property.rs
index e77b3a4..7343db1 100644
--- a/unreal_asset/unreal_asset_properties/src/struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/struct_property.rs
@@ -141,6 +141,12 @@ impl StructProperty {
                     {
                         custom_serialization = false;
                     }
+                    "FontData"
+                        if asset.get_custom_version::<FEditorObjectVersion>().version
+                            < FEditorObjectVersion::AddedFontFaceAssets as i32 =>
+                    {
+                        custom_serialization = false;
+                    }
                     "MovieSceneTrackIdentifier"
                         if asset.get_custom_version::<FEditorObjectVersion>().version
                             < FEditorObjectVersion::MovieSceneMetaDataSerialization as i32 =>
@@ -262,6 +268,13 @@ impl StructProperty {
                 has_custom_serialization = false;
             }
 
+            if struct_type == "FontData"
+                && asset.get_custom_version::<FEditorObjectVersion>().version
+                    < FEditorObjectVersion::AddedFontFaceAssets as i32
+            {
+                has_custom_serialization = false;
+            }
+
             if struct_type == "MovieSceneTrackIdentifier"
                 && asset.get_custom_version::<FEditorObjectVersion>().version
                     < FEditorObjectVersion::MovieSceneMetaDataSerialization as i32
-- 
2.43.0


From c00fbc7daf679eb310210187e1219e6f6265b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:08 +0000
Subject: [PATCH 049/108] fix: material inputs keep whether their constant is
 used

---
 .../src/material_input_property.rs            | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/material_input_property.rs b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
index aba95b2..3dc5b48 100644
--- a/unreal_asset/unreal_asset_properties/src/material_input_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/material_input_property.rs
@@ -32,6 +32,8 @@ pub struct ColorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant used instead of the expression
+    pub use_constant: i32,
     /// Color value
     pub value: ColorProperty,
 }
@@ -50,6 +52,8 @@ pub struct ScalarMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant used instead of the expression
+    pub use_constant: i32,
     /// Scalar value
     pub value: OrderedFloat<f32>,
 }
@@ -68,6 +72,8 @@ pub struct ShadingModelMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant used instead of the expression
+    pub use_constant: i32,
     /// Shading model value
     pub value: u32,
 }
@@ -86,6 +92,8 @@ pub struct VectorMaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant used instead of the expression
+    pub use_constant: i32,
     /// Vector value
     pub value: VectorProperty,
 }
@@ -104,6 +112,8 @@ pub struct Vector2MaterialInputProperty {
     pub duplication_index: i32,
     /// Material expression
     pub material_expression: MaterialExpression,
+    /// Is the constant used instead of the expression
+    pub use_constant: i32,
     /// Vector2D value
     pub value: Vector2DProperty,
 }
@@ -188,7 +198,7 @@ impl ColorMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
 
         let value = ColorProperty::new(
             asset,
@@ -204,6 +214,7 @@ impl ColorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -217,7 +228,7 @@ impl PropertyTrait for ColorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -234,7 +245,7 @@ impl ScalarMaterialInputProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
 
         let value = asset.read_f32::<LE>()?;
 
@@ -244,6 +255,7 @@ impl ScalarMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value: OrderedFloat(value),
         })
     }
@@ -257,7 +269,7 @@ impl PropertyTrait for ScalarMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         asset.write_f32::<LE>(self.value.0)?;
         Ok(exp_len + size_of::<f32>() + size_of::<i32>())
     }
@@ -275,7 +287,7 @@ impl ShadingModelMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = asset.read_u32::<LE>()?;
         Ok(ShadingModelMaterialInputProperty {
             name,
@@ -283,6 +295,7 @@ impl ShadingModelMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -296,7 +309,7 @@ impl PropertyTrait for ShadingModelMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         asset.write_u32::<LE>(self.value)?;
         Ok(exp_len + size_of::<u32>() + size_of::<i32>())
     }
@@ -314,7 +327,7 @@ impl VectorMaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = VectorProperty::new(
             asset,
             name.clone(),
@@ -328,6 +341,7 @@ impl VectorMaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -341,7 +355,7 @@ impl PropertyTrait for VectorMaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
@@ -359,7 +373,7 @@ impl Vector2MaterialInputProperty {
         let property_guid = optional_guid!(asset, include_header);
         let material_expression = MaterialExpression::new(asset, name.clone(), false)?;
 
-        asset.read_i32::<LE>()?;
+        let use_constant = asset.read_i32::<LE>()?;
         let value = Vector2DProperty::new(
             asset,
             name.clone(),
@@ -373,6 +387,7 @@ impl Vector2MaterialInputProperty {
             property_guid,
             duplication_index,
             material_expression,
+            use_constant,
             value,
         })
     }
@@ -386,7 +401,7 @@ impl PropertyTrait for Vector2MaterialInputProperty {
     ) -> Result<usize, Error> {
         optional_guid_write!(self, asset, include_header);
         let exp_len = self.material_expression.write(asset, false)?;
-        asset.write_i32::<LE>(0)?;
+        asset.write_i32::<LE>(self.use_constant)?;
         let value_len = self.value.write(asset, false)?;
         Ok(exp_len + value_len + size_of::<i32>())
     }
-- 
2.43.0


From c796e30f6f0fbc29013b57599e884693a3ac48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:35 +0000
Subject: [PATCH 050/108] fix: assertions count two bytes for their line number

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 860d899..e6f33ec 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -1597,7 +1597,7 @@ impl KismetExpressionTrait for ExAssert {
     ) -> Result<usize, Error> {
         asset.write_u16::<LE>(self.line_number)?;
         asset.write_bool(self.debug_mode)?;
-        let offset = size_of::<u32>()
+        let offset = size_of::<u16>()
             + size_of::<bool>()
             + KismetExpression::write(self.assert_expression.as_ref(), asset)?;
         Ok(offset)
-- 
2.43.0


From e25ec85e23d2b1f0db992722905516c0f8903ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:35 +0000
Subject: [PATCH 051/108] fix: map expressions are written behind their number
 of pairs

---
 unreal_asset/unreal_asset_kismet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index e6f33ec..0814986 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -2533,7 +2533,7 @@ impl KismetExpressionTrait for ExMapConst {
         let mut offset = size_of::<i32>();
         offset += self.key_property.write(asset)?;
         offset += self.value_property.write(asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?;
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
@@ -2952,7 +2952,7 @@ impl KismetExpressionTrait for ExSetMap {
     ) -> Result<usize, Error> {
         let mut offset = size_of::<i32>();
         offset += KismetExpression::write(self.map_property.as_ref(), asset)?;
-        asset.write_i32::<LE>(self.elements.len() as i32)?;
+        asset.write_i32::<LE>((self.elements.len() / 2) as i32)?;
         for element in &self.elements {
             offset += KismetExpression::write(element, asset)?;
         }
-- 
2.43.0


From 6d46b26dc1b7d99b79d8ac481bea8d56e5a9ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:35 +0000
Subject: [PATCH 052/108] fix: boolean property objects are read as such

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index cd420f7..77584c9 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -183,6 +183,7 @@ impl UProperty {
                 }
                 "InterfaceProperty" => UInterfaceProperty::new(asset)?.into(),
                 "MapProperty" => UMapProperty::new(asset)?.into(),
+                "BoolProperty" => UBoolProperty::new(asset)?.into(),
                 "ByteProperty" => UByteProperty::new(asset)?.into(),
                 "StructProperty" => UStructProperty::new(asset)?.into(),
                 "DoubleProperty" => UDoubleProperty::new(asset)?.into(),
-- 
2.43.0


From 095d0c59f8f64d83f9290affb70e8210d9031bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:35 +0000
Subject: [PATCH 053/108] fix: property objects with an unknown replication
 condition are not taken apart

---
 unreal_asset/unreal_asset_exports/src/properties/uproperty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
index 77584c9..891c144 100644
--- a/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
+++ b/unreal_asset/unreal_asset_exports/src/properties/uproperty.rs
@@ -299,7 +299,7 @@ impl UGenericProperty {
             match asset.get_custom_version::<FReleaseObjectVersion>().version
                 >= FReleaseObjectVersion::PropertiesSerializeRepCondition as i32
             {
-                true => asset.read_u8()?.try_into().ok(),
+                true => Some(asset.read_u8()?.try_into()?),
                 false => None,
             };
 
-- 
2.43.0


From c2e35b2f84beadcadba9887f30612f823c6ac645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:42 +0000
Subject: [PATCH 054/108] fix: arrays of structs can be emptied

---
 .../unreal_asset_properties/src/array_property.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 6a63a2f..a5fbb1d 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -157,14 +157,13 @@ impl ArrayProperty {
                 full_type = FName::new_dummy(type_override, 0);
             }
 
-            if num_entries == 0 {
-                dummy_struct = Some(StructProperty::dummy(
-                    element_name.clone(),
-                    new_ancestry.clone(),
-                    full_type.clone(),
-                    struct_guid,
-                ));
-            }
+            // also needed for arrays that are emptied later on
+            dummy_struct = Some(StructProperty::dummy(
+                element_name.clone(),
+                new_ancestry.clone(),
+                full_type.clone(),
+                struct_guid,
+            ));
             for _i in 0..num_entries {
                 let data = StructProperty::custom_header(
                     asset,
-- 
2.43.0


From cd2da42ce3dcd5cb81e43418ef79be0bf7bedb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:22 +0000
Subject: [PATCH 055/108] fix: negative or huge element counts keep an object
 raw instead of crashing or emptying it

---
 .../src/reader/archive_reader.rs              | 31 +++++++++++++++++--
 .../unreal_asset_exports/src/class_export.rs  | 10 +++---
 .../src/data_table_export.rs                  |  4 +--
 .../unreal_asset_exports/src/enum_export.rs   |  6 ++--
 .../unreal_asset_exports/src/raw_export.rs    |  3 +-
 .../src/string_table_export.rs                |  2 +-
 .../unreal_asset_exports/src/struct_export.rs | 12 +++----
 unreal_asset/unreal_asset_kismet/src/lib.rs   |  4 +--
 .../src/array_property.rs                     |  2 +-
 .../src/cloth_lod_property.rs                 |  9 +++---
 .../src/delegate_property.rs                  |  4 +--
 .../src/gameplay_tag_container_property.rs    |  4 +--
 .../src/map_property.rs                       |  4 +--
 .../src/movies/movie_scene_evaluation.rs      |  8 ++---
 .../movie_scene_event_parameters_property.rs  |  3 +-
 .../movie_scene_float_channel_property.rs     |  8 ++---
 .../movies/movie_scene_segment_property.rs    |  4 +--
 .../src/per_platform_property.rs              | 12 +++----
 .../src/raw_struct_property.rs                |  3 +-
 .../src/sampler_property.rs                   | 16 +++++-----
 .../src/unknown_property.rs                   |  3 +-
 .../src/world_tile_property.rs                |  4 +--
 22 files changed, 88 insertions(+), 68 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 14ba2a0..067a8cb 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -196,7 +196,7 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         length: i32,
         getter: impl Fn(&mut Self) -> Result<T, Error>,
     ) -> Result<Vec<T>, Error> {
-        let mut array = Vec::with_capacity(length as usize);
+        let mut array = Vec::new();
         for _ in 0..length {
             array.push(getter(self)?);
         }
@@ -210,10 +210,37 @@ pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
         &mut self,
         getter: impl Fn(&mut Self) -> Result<T, Error>,
     ) -> Result<Vec<T>, Error> {
-        let length = self.read_i32::<LE>()?;
+        let length = self.read_count()?;
         self.read_array_with_length(length, getter)
     }
 
+    /// Read the number of elements that follow
+    ///
+    /// The number is not checked against the data that is left, so don't allocate based on it
+    fn read_count(&mut self) -> Result<i32, Error> {
+        let count = self.read_i32::<LE>()?;
+        if count < 0 {
+            return Err(Error::invalid_file(format!(
+                "Negative number of elements: {count}"
+            )));
+        }
+        Ok(count)
+    }
+
+    /// Read the specified amount of bytes
+    fn read_bytes(&mut self, length: i64) -> Result<Vec<u8>, Error>
+    where
+        Self: Sized,
+    {
+        let length = u64::try_from(length)
+            .map_err(|_| Error::invalid_file(format!("Negative length: {length}")))?;
+        let mut data = Vec::new();
+        if self.by_ref().take(length).read_to_end(&mut data)? as u64 != length {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
+        Ok(data)
+    }
+
     /// Read an FString
     fn read_fstring(&mut self) -> Result<Option<String>, Error>;
     /// Read an FString with a `SerializedNameHeader`
diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index d738020..64caa6a 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -78,8 +78,8 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
     ) -> Result<Self, Error> {
         let struct_export = StructExport::from_base(base, asset)?;
 
-        let num_func_index_entries = asset.read_i32::<LE>()? as usize;
-        let mut func_map = IndexedMap::with_capacity(num_func_index_entries);
+        let num_func_index_entries = asset.read_count()?;
+        let mut func_map = IndexedMap::new();
         for _i in 0..num_func_index_entries {
             let name = asset.read_fname()?;
             let function_export = PackageIndex::new(asset.read_i32::<LE>()?);
@@ -101,7 +101,7 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
             < ObjectVersion::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING
         {
             interfaces_start = Some(asset.position());
-            let num_interfaces = asset.read_i32::<LE>()?;
+            let num_interfaces = asset.read_count()?;
             asset.seek(SeekFrom::Start(
                 interfaces_start.unwrap()
                     + size_of::<i32>() as u64
@@ -117,8 +117,8 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         {
             asset.seek(SeekFrom::Start(interfaces_start.unwrap()))?;
         }
-        let num_interfaces = asset.read_i32::<LE>()? as usize;
-        let mut interfaces = Vec::with_capacity(num_interfaces);
+        let num_interfaces = asset.read_count()?;
+        let mut interfaces = Vec::new();
         for _i in 0..num_interfaces {
             interfaces.push(SerializedInterfaceReference::new(
                 PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 29ef6a1..4d98ef1 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -60,8 +60,8 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
         }
 
         asset.read_i32::<LE>()?;
-        let num_entries = asset.read_i32::<LE>()? as usize;
-        let mut data = Vec::with_capacity(num_entries);
+        let num_entries = asset.read_count()?;
+        let mut data = Vec::new();
 
         let ancestry = Ancestry::new(base.get_class_type_for_ancestry(asset));
 
diff --git a/unreal_asset/unreal_asset_exports/src/enum_export.rs b/unreal_asset/unreal_asset_exports/src/enum_export.rs
index 1d24756..3d7988c 100644
--- a/unreal_asset/unreal_asset_exports/src/enum_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/enum_export.rs
@@ -48,7 +48,7 @@ impl UEnum {
         let mut names = Vec::new();
 
         if asset.get_object_version() < ObjectVersion::VER_UE4_TIGHTLY_PACKED_ENUMS {
-            let num_entries = asset.read_i32::<LE>()?;
+            let num_entries = asset.read_count()?;
             for i in 0..num_entries {
                 let name = asset.read_fname()?;
                 names.push((name, i as i64));
@@ -56,14 +56,14 @@ impl UEnum {
         } else {
             let custom_version = asset.get_custom_version::<FCoreObjectVersion>();
             if custom_version.version < FCoreObjectVersion::EnumProperties as i32 {
-                let num_entries = asset.read_i32::<LE>()?;
+                let num_entries = asset.read_count()?;
                 for _i in 0..num_entries {
                     let name = asset.read_fname()?;
                     let index = asset.read_u8()?;
                     names.push((name, index as i64));
                 }
             } else {
-                let num_entries = asset.read_i32::<LE>()?;
+                let num_entries = asset.read_count()?;
                 for _i in 0..num_entries {
                     let name = asset.read_fname()?;
                     let index = asset.read_i64::<LE>()?;
diff --git a/unreal_asset/unreal_asset_exports/src/raw_export.rs b/unreal_asset/unreal_asset_exports/src/raw_export.rs
index c9ccadf..fb5e77e 100644
--- a/unreal_asset/unreal_asset_exports/src/raw_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/raw_export.rs
@@ -46,8 +46,7 @@ impl<Index: PackageIndexTrait> RawExport<Index> {
         base: BaseExport<Index>,
         asset: &mut Reader,
     ) -> Result<Self, Error> {
-        let mut data = vec![0u8; base.serial_size as usize];
-        asset.read_exact(&mut data)?;
+        let data = asset.read_bytes(base.serial_size)?;
 
         Ok(RawExport {
             base_export: base,
diff --git a/unreal_asset/unreal_asset_exports/src/string_table_export.rs b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
index 8bb2bcd..95b09dd 100644
--- a/unreal_asset/unreal_asset_exports/src/string_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
@@ -38,7 +38,7 @@ impl<Index: PackageIndexTrait> StringTableExport<Index> {
         let namespace = asset.read_fstring()?;
 
         let mut table = IndexedMap::new();
-        let num_entries = asset.read_i32::<LE>()?;
+        let num_entries = asset.read_count()?;
         for _ in 0..num_entries {
             table.insert(
                 asset
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 6dae133..a3d233e 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -55,8 +55,8 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         let field = UField::new(asset)?;
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
-        let num_index_entries = asset.read_i32::<LE>()?;
-        let mut children = Vec::with_capacity(num_index_entries as usize);
+        let num_index_entries = asset.read_count()?;
+        let mut children = Vec::new();
         for _i in 0..num_index_entries as usize {
             children.push(PackageIndex::new(asset.read_i32::<LE>()?));
         }
@@ -65,8 +65,8 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
             >= FCoreObjectVersion::FProperties as i32
         {
             true => {
-                let num_props = asset.read_i32::<LE>()?;
-                let mut props = Vec::with_capacity(num_props as usize);
+                let num_props = asset.read_count()?;
+                let mut props = Vec::new();
                 for _i in 0..num_props as usize {
                     props.push(FProperty::new(asset)?);
                 }
@@ -89,9 +89,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
             Some(_) => None,
             None => {
                 asset.seek(SeekFrom::Start(start_offset))?;
-                let mut data = vec![0u8; script_storage_size as usize];
-                asset.read_exact(&mut data)?;
-                Some(data)
+                Some(asset.read_bytes(script_storage_size as i64)?)
             }
         };
 
diff --git a/unreal_asset/unreal_asset_kismet/src/lib.rs b/unreal_asset/unreal_asset_kismet/src/lib.rs
index 0814986..36401f7 100644
--- a/unreal_asset/unreal_asset_kismet/src/lib.rs
+++ b/unreal_asset/unreal_asset_kismet/src/lib.rs
@@ -761,8 +761,8 @@ impl KismetPropertyPointer {
         if asset.get_object_version()
             >= KismetPropertyPointer::XFER_PROP_POINTER_SWITCH_TO_SERIALIZING_AS_FIELD_PATH_VERSION
         {
-            let num_entries = asset.read_i32::<LE>()?;
-            let mut names = Vec::with_capacity(num_entries as usize);
+            let num_entries = asset.read_count()?;
+            let mut names = Vec::new();
             for _i in 0..num_entries as usize {
                 names.push(asset.read_fname()?);
             }
diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index a5fbb1d..3b36fdb 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -81,7 +81,7 @@ impl ArrayProperty {
         mut array_type: Option<FName>,
         property_guid: Option<Guid>,
     ) -> Result<Self, Error> {
-        let num_entries = asset.read_i32::<LE>()?;
+        let num_entries = asset.read_count()?;
         let mut entries = Vec::new();
         let mut struct_length = 1;
         let mut struct_guid = None;
diff --git a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
index 95acf59..66bbd6d 100644
--- a/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/cloth_lod_property.rs
@@ -123,15 +123,14 @@ impl ClothLodDataProperty {
             None,
         )?;
 
-        let transition_up_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_up_skin_data = Vec::with_capacity(transition_up_skin_data_len as usize);
+        let transition_up_skin_data_len = asset.read_count()?;
+        let mut transition_up_skin_data = Vec::new();
         for _ in 0..transition_up_skin_data_len {
             transition_up_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
 
-        let transition_down_skin_data_len = asset.read_i32::<LE>()?;
-        let mut transition_down_skin_data =
-            Vec::with_capacity(transition_down_skin_data_len as usize);
+        let transition_down_skin_data_len = asset.read_count()?;
+        let mut transition_down_skin_data = Vec::new();
         for _ in 0..transition_down_skin_data_len {
             transition_down_skin_data.push(MeshToMeshVertData::new(asset)?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/delegate_property.rs b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
index a0934d7..a51407d 100644
--- a/unreal_asset/unreal_asset_properties/src/delegate_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/delegate_property.rs
@@ -105,8 +105,8 @@ macro_rules! impl_multicast {
             ) -> Result<Self, Error> {
                 let property_guid = optional_guid!(asset, include_header);
 
-                let length = asset.read_i32::<LE>()?;
-                let mut value = Vec::with_capacity(length as usize);
+                let length = asset.read_count()?;
+                let mut value = Vec::new();
                 for _ in 0..length {
                     value.push(Delegate::new(
                         PackageIndex::new(asset.read_i32::<LE>()?),
diff --git a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
index e963d48..46cdc00 100644
--- a/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/gameplay_tag_container_property.rs
@@ -30,8 +30,8 @@ impl GameplayTagContainerProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let length = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(length as usize);
+        let length = asset.read_count()?;
+        let mut value = Vec::new();
         for _i in 0..length as usize {
             value.push(asset.read_fname()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 5635e63..913dc38 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -149,7 +149,7 @@ impl MapProperty {
             }
         }
 
-        let num_keys_to_remove = asset.read_i32::<LE>()?;
+        let num_keys_to_remove = asset.read_count()?;
         let mut keys_to_remove = None;
 
         let type_1 = type_1.ok_or_else(|| Error::invalid_file("No type1".to_string()))?;
@@ -168,7 +168,7 @@ impl MapProperty {
             keys_to_remove.get_or_insert_with(Vec::new).push(key);
         }
 
-        let num_entries = asset.read_i32::<LE>()?;
+        let num_entries = asset.read_count()?;
         let mut values: IndexedMap<Property, Property> = IndexedMap::new();
 
         for _ in 0..num_entries {
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
index cd38712..f8a3379 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_evaluation.rs
@@ -135,15 +135,15 @@ where
         asset: &mut Reader,
         item_reader: fn(&mut Reader) -> Result<T, Error>,
     ) -> Result<Self, Error> {
-        let entries_amount = asset.read_i32::<LE>()?;
-        let mut entries = Vec::with_capacity(entries_amount as usize);
+        let entries_amount = asset.read_count()?;
+        let mut entries = Vec::new();
 
         for _ in 0..entries_amount {
             entries.push(FEntry::new(asset)?);
         }
 
-        let items_amount = asset.read_i32::<LE>()?;
-        let mut items = Vec::with_capacity(items_amount as usize);
+        let items_amount = asset.read_count()?;
+        let mut items = Vec::new();
 
         for _ in 0..items_amount {
             items.push(item_reader(asset)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
index ab178b6..c454d5e 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_event_parameters_property.rs
@@ -19,8 +19,7 @@ impl MovieSceneEventParameters {
         let struct_type = SoftObjectPath::new(asset)?;
 
         let struct_bytes_length = asset.read_i32::<LE>()?;
-        let mut struct_bytes = vec![0u8; struct_bytes_length as usize];
-        asset.read_exact(&mut struct_bytes)?;
+        let struct_bytes = asset.read_bytes(struct_bytes_length as i64)?;
 
         Ok(MovieSceneEventParameters {
             struct_type,
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
index 55ae5a1..3e7ef96 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs
@@ -44,17 +44,17 @@ impl MovieSceneFloatChannel {
             RichCurveExtrapolation::try_from(asset.read_u8()?)?;
 
         let times_struct_length = asset.read_i32::<LE>()?;
-        let times_length = asset.read_i32::<LE>()?;
+        let times_length = asset.read_count()?;
 
-        let mut times = Vec::with_capacity(times_length as usize);
+        let mut times = Vec::new();
         for _ in 0..times_length {
             times.push(FrameNumber::new(asset.read_i32::<LE>()?));
         }
 
         let values_struct_length = asset.read_i32::<LE>()?;
-        let values_length = asset.read_i32::<LE>()?;
+        let values_length = asset.read_count()?;
 
-        let mut values = Vec::with_capacity(values_length as usize);
+        let mut values = Vec::new();
         for _ in 0..values_length {
             //todo: clangwin64 is always false?
             values.push(MovieSceneFloatValue::new(asset, false)?);
diff --git a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
index 0a0e075..02d6236 100644
--- a/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/movies/movie_scene_segment_property.rs
@@ -59,8 +59,8 @@ impl MovieSceneSegment {
         let id = MovieSceneSegmentIdentifier::new(asset)?;
         let allow_empty = asset.read_i32::<LE>()? != 0;
 
-        let impls_length = asset.read_i32::<LE>()?;
-        let mut impls = Vec::with_capacity(impls_length as usize);
+        let impls_length = asset.read_count()?;
+        let mut impls = Vec::new();
 
         for _ in 0..impls_length {
             let mut properties_list = Vec::new();
diff --git a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
index 615ac35..e4fdd66 100644
--- a/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/per_platform_property.rs
@@ -62,8 +62,8 @@ impl PerPlatformBoolProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let num_entries = asset.read_count()?;
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_bool()?);
@@ -106,8 +106,8 @@ impl PerPlatformIntProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let num_entries = asset.read_count()?;
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(asset.read_i32::<LE>()?);
@@ -150,8 +150,8 @@ impl PerPlatformFloatProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let num_entries = asset.read_i32::<LE>()?;
-        let mut value = Vec::with_capacity(num_entries as usize);
+        let num_entries = asset.read_count()?;
+        let mut value = Vec::new();
 
         for _i in 0..num_entries as usize {
             value.push(OrderedFloat(asset.read_f32::<LE>()?));
diff --git a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
index 7aa89b2..e65ed90 100644
--- a/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/raw_struct_property.rs
@@ -30,8 +30,7 @@ impl RawStructProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(RawStructProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/sampler_property.rs b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
index d54b6b3..90b3412 100644
--- a/unreal_asset/unreal_asset_properties/src/sampler_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/sampler_property.rs
@@ -70,14 +70,14 @@ impl WeightedRandomSamplerProperty {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let size = asset.read_count()?;
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
-        let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let size = asset.read_count()?;
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
@@ -134,14 +134,14 @@ impl SkeletalMeshAreaWeightedTriangleSampler {
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
 
-        let size = asset.read_i32::<LE>()?;
-        let mut prob = Vec::with_capacity(size as usize);
+        let size = asset.read_count()?;
+        let mut prob = Vec::new();
         for _i in 0..size as usize {
             prob.push(OrderedFloat(asset.read_f32::<LE>()?));
         }
 
-        let size = asset.read_i32::<LE>()?;
-        let mut alias = Vec::with_capacity(size as usize);
+        let size = asset.read_count()?;
+        let mut alias = Vec::new();
         for _i in 0..size as usize {
             alias.push(asset.read_i32::<LE>()?);
         }
diff --git a/unreal_asset/unreal_asset_properties/src/unknown_property.rs b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
index ade5731..0cfb9b2 100644
--- a/unreal_asset/unreal_asset_properties/src/unknown_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/unknown_property.rs
@@ -34,8 +34,7 @@ impl UnknownProperty {
         serialized_type: FName,
     ) -> Result<Self, Error> {
         let property_guid = optional_guid!(asset, include_header);
-        let mut value = vec![0u8; length as usize];
-        asset.read_exact(&mut value)?;
+        let value = asset.read_bytes(length)?;
 
         Ok(UnknownProperty {
             name,
diff --git a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
index 76d0d8f..4a6857e 100644
--- a/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/world_tile_property.rs
@@ -185,8 +185,8 @@ impl FWorldTileInfo {
 
         let mut lod_list = None;
         if object_version >= ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST {
-            let num_entries = asset.read_i32::<LE>()? as usize;
-            let mut list = Vec::with_capacity(num_entries);
+            let num_entries = asset.read_count()?;
+            let mut list = Vec::new();
             for _i in 0..num_entries {
                 list.push(FWorldTileLODInfo::new(asset)?);
             }
-- 
2.43.0


From 5cd4439bc59866b9f852ca219cdfb577c3092df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 056/108] fix: objects with an object guid are kept raw instead
 of losing it

---
 .../unreal_asset_exports/src/data_table_export.rs  |  4 ++--
 .../unreal_asset_exports/src/enum_export.rs        |  2 +-
 .../unreal_asset_exports/src/level_export.rs       |  2 +-
 .../unreal_asset_exports/src/normal_export.rs      | 14 ++++++++++++++
 .../unreal_asset_exports/src/property_export.rs    |  4 ++--
 .../src/string_table_export.rs                     |  4 ++--
 .../unreal_asset_exports/src/struct_export.rs      |  2 +-
 .../unreal_asset_exports/src/world_export.rs       |  2 +-
 8 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/data_table_export.rs b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
index 4d98ef1..b9161eb 100644
--- a/unreal_asset/unreal_asset_exports/src/data_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/data_table_export.rs
@@ -1,6 +1,6 @@
 //! Data table export
 
-use byteorder::{ReadBytesExt, WriteBytesExt, LE};
+use byteorder::{WriteBytesExt, LE};
 
 use unreal_asset_base::{
     reader::{ArchiveReader, ArchiveWriter},
@@ -59,7 +59,7 @@ impl<Index: PackageIndexTrait> DataTableExport<Index> {
             }
         }
 
-        asset.read_i32::<LE>()?;
+        NormalExport::<Index>::expect_no_object_guid(asset)?;
         let num_entries = asset.read_count()?;
         let mut data = Vec::new();
 
diff --git a/unreal_asset/unreal_asset_exports/src/enum_export.rs b/unreal_asset/unreal_asset_exports/src/enum_export.rs
index 3d7988c..d05da3e 100644
--- a/unreal_asset/unreal_asset_exports/src/enum_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/enum_export.rs
@@ -148,7 +148,7 @@ impl<Index: PackageIndexTrait> EnumExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::<Index>::expect_no_object_guid(asset)?;
 
         let value = UEnum::new(asset)?;
         Ok(EnumExport {
diff --git a/unreal_asset/unreal_asset_exports/src/level_export.rs b/unreal_asset/unreal_asset_exports/src/level_export.rs
index a450329..56d1c54 100644
--- a/unreal_asset/unreal_asset_exports/src/level_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/level_export.rs
@@ -68,7 +68,7 @@ impl<Index: PackageIndexTrait> LevelExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(unk, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::<Index>::expect_no_object_guid(asset)?;
 
         Ok(LevelExport {
             normal_export,
diff --git a/unreal_asset/unreal_asset_exports/src/normal_export.rs b/unreal_asset/unreal_asset_exports/src/normal_export.rs
index 99c41d1..00df09b 100644
--- a/unreal_asset/unreal_asset_exports/src/normal_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/normal_export.rs
@@ -1,5 +1,7 @@
 //! Normal export
 
+use byteorder::{ReadBytesExt, LE};
+
 use unreal_asset_base::{
     reader::{ArchiveReader, ArchiveWriter},
     types::PackageIndexTrait,
@@ -67,6 +69,18 @@ impl<Index: PackageIndexTrait> NormalExport<Index> {
             properties,
         })
     }
+
+    /// Read the flag that tells if an object guid follows the properties, which is not supported
+    pub(crate) fn expect_no_object_guid<Reader: ArchiveReader<Index>>(
+        asset: &mut Reader,
+    ) -> Result<(), Error> {
+        match asset.read_i32::<LE>()? {
+            0 => Ok(()),
+            _ => Err(Error::unimplemented(
+                "Object guids are not supported".to_string(),
+            )),
+        }
+    }
 }
 
 impl<Index: PackageIndexTrait> ExportTrait<Index> for NormalExport<Index> {
diff --git a/unreal_asset/unreal_asset_exports/src/property_export.rs b/unreal_asset/unreal_asset_exports/src/property_export.rs
index 36a18b9..ec68171 100644
--- a/unreal_asset/unreal_asset_exports/src/property_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/property_export.rs
@@ -1,6 +1,6 @@
 //! Property export
 
-use byteorder::{ReadBytesExt, WriteBytesExt, LE};
+use byteorder::{WriteBytesExt, LE};
 
 use unreal_asset_base::{
     reader::{ArchiveReader, ArchiveWriter},
@@ -34,7 +34,7 @@ impl<Index: PackageIndexTrait> PropertyExport<Index> {
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
 
-        asset.read_i32::<LE>()?;
+        NormalExport::<Index>::expect_no_object_guid(asset)?;
 
         let export_class_type = asset
             .get_export_class_type(normal_export.base_export.class_index)
diff --git a/unreal_asset/unreal_asset_exports/src/string_table_export.rs b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
index 95b09dd..80f6929 100644
--- a/unreal_asset/unreal_asset_exports/src/string_table_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/string_table_export.rs
@@ -1,6 +1,6 @@
 //! String table export
 
-use byteorder::{ReadBytesExt, WriteBytesExt, LE};
+use byteorder::{WriteBytesExt, LE};
 
 use unreal_asset_base::{
     containers::IndexedMap,
@@ -33,7 +33,7 @@ impl<Index: PackageIndexTrait> StringTableExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::<Index>::expect_no_object_guid(asset)?;
 
         let namespace = asset.read_fstring()?;
 
diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index a3d233e..0a58520 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -51,7 +51,7 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::<Index>::expect_no_object_guid(asset)?;
         let field = UField::new(asset)?;
         let super_struct = PackageIndex::new(asset.read_i32::<LE>()?);
 
diff --git a/unreal_asset/unreal_asset_exports/src/world_export.rs b/unreal_asset/unreal_asset_exports/src/world_export.rs
index 6f0dccc..09a1546 100644
--- a/unreal_asset/unreal_asset_exports/src/world_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/world_export.rs
@@ -39,7 +39,7 @@ impl<Index: PackageIndexTrait> WorldExport<Index> {
         asset: &mut Reader,
     ) -> Result<Self, Error> {
         let normal_export = NormalExport::from_base(base, asset)?;
-        asset.read_i32::<LE>()?;
+        NormalExport::<Index>::expect_no_object_guid(asset)?;
         Ok(WorldExport {
             normal_export,
             persistent_level: PackageIndex::new(asset.read_i32::<LE>()?),
-- 
2.43.0


From e5e828fc9c71ddeea11d81507a59514769ff7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:36 +0000
Subject: [PATCH 057/108] fix: scripts that end beyond their stored size are
 kept raw

---
 unreal_asset/unreal_asset_exports/src/struct_export.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unreal_asset/unreal_asset_exports/src/struct_export.rs b/unreal_asset/unreal_asset_exports/src/struct_export.rs
index 0a58520..73afcc7 100644
--- a/unreal_asset/unreal_asset_exports/src/struct_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/struct_export.rs
@@ -116,6 +116,11 @@ impl<Index: PackageIndexTrait> StructExport<Index> {
         while (asset.position() - start_offset) < storage_size as u64 {
             code.push(KismetExpression::new(asset)?);
         }
+        if asset.position() - start_offset != storage_size as u64 {
+            return Err(Error::invalid_file(
+                "Script does not end where its size says".to_string(),
+            ));
+        }
         Ok(code)
     }
 }
-- 
2.43.0


From 0530e4ee9d12c1b1c9d50ea669e48eb66722b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:58 +0000
Subject: [PATCH 058/108] fix: array and map elements that take up no space are
 not read in huge numbers

---
 .../unreal_asset_properties/src/array_property.rs | 15 +++++++++++++++
 .../unreal_asset_properties/src/map_property.rs   |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 3b36fdb..ce6ee7c 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -22,6 +22,17 @@ pub struct ArrayProperty {
 }
 impl_property_data_trait!(ArrayProperty);
 
+/// Make sure that an element took up space, the number of elements is only limited by the data that is left
+pub(crate) fn expect_progress<Reader: ArchiveReader<impl PackageIndexTrait>>(
+    asset: &mut Reader,
+    start: u64,
+) -> Result<(), Error> {
+    match asset.position() == start {
+        true => Err(PropertyError::invalid_array("Element without any data".to_string()).into()),
+        false => Ok(()),
+    }
+}
+
 impl ArrayProperty {
     /// Read an `ArrayProperty` from an asset
     pub fn new<Reader: ArchiveReader<impl PackageIndexTrait>>(
@@ -165,6 +176,7 @@ impl ArrayProperty {
                 struct_guid,
             ));
             for _i in 0..num_entries {
+                let start = asset.position();
                 let data = StructProperty::custom_header(
                     asset,
                     element_name.clone(),
@@ -175,6 +187,7 @@ impl ArrayProperty {
                     struct_guid,
                     None,
                 )?;
+                expect_progress(asset, start)?;
                 entries.push(data.into());
             }
         } else if num_entries > 0 {
@@ -184,6 +197,7 @@ impl ArrayProperty {
                 .as_ref()
                 .ok_or_else(|| Error::invalid_file("Unknown array type".to_string()))?;
             for i in 0..num_entries {
+                let start = asset.position();
                 let entry: Property = if array_type == "StructProperty" {
                     let struct_type = match array_struct_type {
                         Some(ref e) => Some(e.clone()),
@@ -214,6 +228,7 @@ impl ArrayProperty {
                     )?
                 };
 
+                expect_progress(asset, start)?;
                 entries.push(entry);
             }
         }
diff --git a/unreal_asset/unreal_asset_properties/src/map_property.rs b/unreal_asset/unreal_asset_properties/src/map_property.rs
index 913dc38..18830b8 100644
--- a/unreal_asset/unreal_asset_properties/src/map_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/map_property.rs
@@ -4,6 +4,7 @@ use std::hash::Hash;
 
 use unreal_asset_base::containers::indexed_map::IndexedMap;
 
+use crate::array_property::expect_progress;
 use crate::property_prelude::*;
 
 /// Map property
@@ -156,6 +157,7 @@ impl MapProperty {
         let type_2 = type_2.ok_or_else(|| Error::invalid_file("No type2".to_string()))?;
 
         for _ in 0..num_keys_to_remove {
+            let start = asset.position();
             let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
@@ -165,6 +167,7 @@ impl MapProperty {
                 false,
                 true,
             )?;
+            expect_progress(asset, start)?;
             keys_to_remove.get_or_insert_with(Vec::new).push(key);
         }
 
@@ -172,6 +175,7 @@ impl MapProperty {
         let mut values: IndexedMap<Property, Property> = IndexedMap::new();
 
         for _ in 0..num_entries {
+            let start = asset.position();
             let key = MapProperty::map_type_to_class(
                 asset,
                 type_1.clone(),
@@ -190,6 +194,7 @@ impl MapProperty {
                 false,
                 false,
             )?;
+            expect_progress(asset, start)?;
             values.insert(key, value);
         }
 
-- 
2.43.0


From ef34738d8667409446bb1cb02c701455a3dd7ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:13 +0000
Subject: [PATCH 059/108] fix: a class with an unexpected dummy name is kept
 raw instead of losing it

---
 unreal_asset/unreal_asset_exports/src/class_export.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_exports/src/class_export.rs b/unreal_asset/unreal_asset_exports/src/class_export.rs
index 64caa6a..5ac0a73 100644
--- a/unreal_asset/unreal_asset_exports/src/class_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/class_export.rs
@@ -134,7 +134,12 @@ impl<Index: PackageIndexTrait> ClassExport<Index> {
         }
 
         let deprecated_force_script_order = asset.read_i32::<LE>()? == 1;
-        asset.read_i64::<LE>()?; // none
+        let dummy = asset.read_fname()?;
+        if dummy != "None" {
+            return Err(Error::invalid_file(
+                "Expected the name None in a class".to_string(),
+            ));
+        }
 
         let cooked = match asset.get_object_version() >= ObjectVersion::VER_UE4_ADD_COOKED_TO_UCLASS
         {
-- 
2.43.0


From d3b82180de694131ab9bdc4aac250e40ff42524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 060/108] fix: registry dependencies with flags can be read

Whether a dependency is hard was looked up in the flags of the (not yet loaded) node
it refers to, at a bit that does not exist, which failed for every registry that has
dependencies. It is told by the flags stored for that dependency.
---
 .../src/objects/depends_node.rs               | 45 +++++++++----------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 4430fda..9bc81e6 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -142,6 +142,8 @@ lazy_static! {
     );
 }
 
+/// Bit of the manage flags that tells a hard dependency
+const HARD_MANAGE_BIT: i32 = 0;
 #[allow(unused)]
 const HARD_MANAGE_BITS: u32 = 0x1;
 #[allow(unused)]
@@ -149,11 +151,8 @@ const SOFT_MANAGE_BITS: u32 = 0x0;
 
 impl DependsNode {
     /// Package `EDependencyProperty` enum into a byte
-    #[allow(clippy::identity_op)] // allow for clarity
     fn package_properties_to_byte(properties: EDependencyProperty) -> u8 {
-        (0x1 * (properties & EDependencyProperty::HARD).bits() as u8)
-            | (0x2 * (properties & EDependencyProperty::GAME).bits() as u8)
-            | (0x4 * (properties & EDependencyProperty::BUILD).bits() as u8)
+        (properties & EDependencyProperty::PACKAGE_MASK).bits() as u8
     }
 
     /// Read `DependsNode` dependencies
@@ -161,6 +160,7 @@ impl DependsNode {
         asset: &mut Reader,
         preallocated_depends_node_buffer: &[DependsNode],
         flag_set_width: i32,
+        hard_bit: i32,
     ) -> Result<LoadedDependencyNodes, Error> {
         let mut sort_indexes = Vec::new();
         let mut pointer_dependencies = Vec::new();
@@ -205,37 +205,32 @@ impl DependsNode {
 
         for index in &sort_indexes {
             let node = pointer_dependencies[*index as usize];
-            let package_flags = node.package_flags.as_ref().ok_or_else(|| {
-                Error::invalid_file(
-                    "No package flags on asset registry with version >= AddedDependencyFlags"
-                        .to_string(),
-                )
-            })?;
-
-            if package_flags
-                .get(*HARD_BIT as usize)
-                .as_deref()
-                .copied()
-                .unwrap_or(false)
-            {
-                hard_dependencies.push(node.clone());
+
+            if in_flag_bits[(index * flag_set_width + hard_bit) as usize] {
+                hard_dependencies.push((*index, node.clone()));
             } else {
-                soft_dependencies.push(node.clone());
+                soft_dependencies.push((*index, node.clone()));
             }
         }
 
-        let mut out_flag_bits = BitVec::with_capacity(num_flag_bits as usize);
-        for write_index in 0..in_dependencies.len() as i32 {
-            let read_index = &sort_indexes[write_index as usize];
-
+        // flags are kept in the order of the dependencies, hard ones first
+        let mut out_flag_bits = BitVec::repeat(false, num_flag_bits as usize);
+        for (write_index, (read_index, _)) in hard_dependencies
+            .iter()
+            .chain(soft_dependencies.iter())
+            .enumerate()
+        {
             out_flag_bits.set_range_from_range(
-                write_index * flag_set_width,
+                write_index as i32 * flag_set_width,
                 flag_set_width,
                 &in_flag_bits,
                 read_index * flag_set_width,
             );
         }
 
+        let hard_dependencies = hard_dependencies.into_iter().map(|(_, e)| e).collect();
+        let soft_dependencies = soft_dependencies.into_iter().map(|(_, e)| e).collect();
+
         Ok((hard_dependencies, soft_dependencies, out_flag_bits))
     }
 
@@ -379,6 +374,7 @@ impl DependsNode {
             asset,
             preallocated_depends_node_buffer,
             PACKAGE_FLAG_SET_WIDTH,
+            *HARD_BIT as i32,
         )?;
 
         let name_dependencies =
@@ -389,6 +385,7 @@ impl DependsNode {
                 asset,
                 preallocated_depends_node_buffer,
                 MANAGE_FLAG_SET_WIDTH,
+                HARD_MANAGE_BIT,
             )?;
 
         let referencers =
-- 
2.43.0


From 14b49ef2055b480ec2af49057a6d85b3edf94282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 061/108] fix: registry dependency flags are written in the
 layout they are read in

A word count was written before the flags that the format does not have, flags of soft
dependencies were put past the end of the bits, and no padding to whole words was written.
---
 .../src/objects/depends_node.rs               | 29 +++++++------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 9bc81e6..0c6fe04 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -243,17 +243,16 @@ impl DependsNode {
         soft_dependencies: &[DependsNode],
     ) -> Result<(), Error> {
         let dependencies_length = hard_dependencies.len() as i32 + soft_dependencies.len() as i32;
-        let mut out_flag_bits = BitVec::<u32, Lsb0>::new();
+        let mut out_flag_bits =
+            BitVec::<u32, Lsb0>::repeat(false, (dependencies_length * flag_set_width) as usize);
 
         writer.write_i32::<LE>(dependencies_length)?;
 
         for (i, hard_dependency) in hard_dependencies.iter().enumerate() {
             writer.write_i32::<LE>(hard_dependency.index)?;
 
-            let index = out_flag_bits.len() as i32;
-            out_flag_bits.reserve(flag_set_width as usize);
             out_flag_bits.set_range_from_range(
-                index,
+                i as i32 * flag_set_width,
                 flag_set_width,
                 flags,
                 i as i32 * flag_set_width,
@@ -265,29 +264,21 @@ impl DependsNode {
         for (i, soft_dependency) in soft_dependencies.iter().enumerate() {
             writer.write_i32::<LE>(soft_dependency.index)?;
 
-            let index = out_flag_bits.len() as i32 + inital_soft_index;
-            out_flag_bits.reserve(flag_set_width as usize);
             out_flag_bits.set_range_from_range(
-                index,
+                (i as i32 + inital_soft_index) * flag_set_width,
                 flag_set_width,
                 flags,
                 (i as i32 + inital_soft_index) * flag_set_width,
             );
         }
 
-        let bit_vec_size = ((out_flag_bits.len() + 31) / 32) as i32;
-        writer.write_i32::<LE>(bit_vec_size)?;
-
-        for byte in out_flag_bits.chunks(8).map(|chunk| {
-            let mut byte = 0u8;
-            for i in 0..8 {
-                if chunk[i] {
-                    byte |= 1 << i;
-                }
-            }
-            byte
+        for word in out_flag_bits.chunks(32).map(|chunk| {
+            chunk
+                .iter()
+                .enumerate()
+                .fold(0u32, |word, (i, bit)| word | (*bit as u32) << i)
         }) {
-            writer.write_u8(byte)?;
+            writer.write_u32::<LE>(word)?;
         }
 
         Ok(())
-- 
2.43.0


From 318a0156bde4910abfbf91adcb6a90d9df5e609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 062/108] fix: the dependency section size of a registry does
 not count itself

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 49045d8..3937e66 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -137,7 +137,8 @@ impl AssetRegistryState {
 
             let end_pos = writer.position();
             writer.set_position(pos)?;
-            writer.write_i64::<LE>(end_pos as i64 - pos as i64)?;
+            // the size field itself is not a part of the section
+            writer.write_i64::<LE>(end_pos as i64 - pos as i64 - 8)?;
             writer.set_position(end_pos)?;
         }
 
-- 
2.43.0


From aa5d3b07bbe7a5cdda5c185fef3f6fb0b5d6a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 063/108] fix: registry dependencies without flags can be read

The node indices were checked against the number of nodes read so far and not against
the nodes there are.
---
 unreal_asset/unreal_asset_registry/src/objects/depends_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index 0c6fe04..f0fb6d6 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -448,7 +448,7 @@ impl DependsNode {
     ) -> Result<(), Error> {
         for _ in 0..num {
             let index = asset.read_i32::<LE>()?;
-            if index < 0 || nodes.len() <= index as usize {
+            if index < 0 || preallocated_depends_node_buffer.len() <= index as usize {
                 return Err(RegistryError::InvalidIndex(index).into());
             }
 
-- 
2.43.0


From 7769628497748e3a68986bc44521c9960f51612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 064/108] fix: the number of imported classes of a registry
 package is written

---
 .../unreal_asset_registry/src/objects/asset_package_data.rs      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
index ecce2b5..9374361 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_package_data.rs
@@ -146,6 +146,7 @@ impl AssetPackageData {
                 RegistryError::version("Imported classes".to_string(), self.version)
             })?;
 
+            asset.write_i32::<LE>(imported_classes.len() as i32)?;
             for immported_class in imported_classes {
                 asset.write_fname(immported_class)?;
             }
-- 
2.43.0


From f87962e61848ee52405154a0eccb1943fe4ec6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:26 +0000
Subject: [PATCH 065/108] fix: negative or huge counts in a registry are
 refused instead of crashing

---
 unreal_asset/unreal_asset_registry/src/lib.rs   | 17 +++++++++++++++--
 .../src/objects/asset_data.rs                   |  2 +-
 .../src/objects/depends_node.rs                 | 16 ++++++++--------
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 3937e66..018a735 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -60,6 +60,19 @@ pub struct AssetRegistryState {
 }
 
 impl AssetRegistryState {
+    /// Read the number of depends nodes, each of which takes up at least one byte
+    fn read_depends_nodes_count<Reader: ArchiveReader<impl PackageIndexTrait>>(
+        asset: &mut Reader,
+    ) -> Result<i32, Error> {
+        let count = asset.read_count()?;
+        if count as u64 > asset.data_length()?.saturating_sub(asset.position()) {
+            return Err(Error::invalid_file(format!(
+                "{count} depends nodes don't fit into the registry"
+            )));
+        }
+        Ok(count)
+    }
+
     /// Read an `AssetRegistryState` from an asset
     fn load<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
@@ -71,7 +84,7 @@ impl AssetRegistryState {
         *assets_data = asset.read_array(|asset: &mut Reader| AssetData::new(asset, version))?;
 
         if version < FAssetRegistryVersionType::AddedDependencyFlags {
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
+            let local_num_depends_nodes = Self::read_depends_nodes_count(asset)?;
             *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
 
             for i in 0..local_num_depends_nodes {
@@ -87,7 +100,7 @@ impl AssetRegistryState {
         } else {
             let dependency_section_size = asset.read_i64::<LE>()?;
             let dependency_section_end = asset.position() + dependency_section_size as u64;
-            let local_num_depends_nodes = asset.read_i32::<LE>()?;
+            let local_num_depends_nodes = Self::read_depends_nodes_count(asset)?;
 
             *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
             for i in 0..local_num_depends_nodes {
diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_data.rs
index 79662ed..8ce8ad7 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_data.rs
@@ -82,7 +82,7 @@ impl AssetData {
     fn read_tags<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
     ) -> Result<IndexedMap<FName, Option<String>>, Error> {
-        let size = asset.read_i32::<LE>()?;
+        let size = asset.read_count()?;
         let mut tags_and_values = IndexedMap::new();
 
         for _ in 0..size {
diff --git a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
index f0fb6d6..836c099 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/depends_node.rs
@@ -467,18 +467,18 @@ impl DependsNode {
     ) -> Result<(), Error> {
         let identifier = AssetIdentifier::new(asset)?;
 
-        let num_hard = asset.read_i32::<LE>()?;
-        let num_soft = asset.read_i32::<LE>()?;
-        let num_name = asset.read_i32::<LE>()?;
-        let num_soft_manage = asset.read_i32::<LE>()?;
+        let num_hard = asset.read_count()?;
+        let num_soft = asset.read_count()?;
+        let num_name = asset.read_count()?;
+        let num_soft_manage = asset.read_count()?;
         let num_hard_manage = match self.version >= FAssetRegistryVersionType::AddedHardManage {
-            true => asset.read_i32::<LE>()?,
+            true => asset.read_count()?,
             false => 0,
         };
-        let num_referencers = asset.read_i32::<LE>()?;
+        let num_referencers = asset.read_count()?;
 
-        let mut name_dependencies = Vec::with_capacity(num_name as usize);
-        let mut referencers = Vec::with_capacity(num_referencers as usize);
+        let mut name_dependencies = Vec::new();
+        let mut referencers = Vec::new();
 
         Self::read_node_array(
             asset,
-- 
2.43.0


From 8c4dce8404fe57c8c247a9b58381280d050c5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:22 +0000
Subject: [PATCH 066/108] fix: texts of a registry tag store are read from
 their offsets

Narrow texts were everything after the text that was meant. Wide texts were cut at the first
character with a zero byte, were everything after that, and their offsets count characters.
---
 .../src/objects/store.rs                      | 57 ++++++++-----------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/store.rs b/unreal_asset/unreal_asset_registry/src/objects/store.rs
index d55ecd9..081f0ff 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/store.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/store.rs
@@ -258,47 +258,36 @@ impl Store {
         let mut ansi_strings = Vec::new();
 
         for ansi_string_offset in ansi_string_offsets {
-            let mut length = 0;
-            while ansi_strings_buf
-                .get((ansi_string_offset + length) as usize)
-                .map(|e| *e != 0)
-                .unwrap_or(false)
-            {
-                length += 1;
-            }
-
-            let ansi_string = String::from_utf8(
-                ansi_strings_buf[(ansi_string_offset + length + 1) as usize..].to_vec(),
-            )
-            .map_err(|_| Error::invalid_file("Invalid ANSI string".to_string()))?;
+            let ansi_string = ansi_strings_buf
+                .get(ansi_string_offset as usize..)
+                .ok_or_else(|| Error::invalid_file("Invalid ANSI string offset".to_string()))?
+                .iter()
+                .copied()
+                .take_while(|e| *e != 0)
+                .collect::<Vec<_>>();
+
+            let ansi_string = String::from_utf8(ansi_string)
+                .map_err(|_| Error::invalid_file("Invalid ANSI string".to_string()))?;
             ansi_strings.push(ansi_string);
         }
 
-        let mut wide_strings_buf = vec![0u8; (wide_strings_size * 2) as usize];
-        asset.read_exact(&mut wide_strings_buf)?;
+        let wide_strings_buf = asset
+            .read_array_with_length(wide_strings_size, |asset: &mut Reader| {
+                Ok(asset.read_u16::<LE>()?)
+            })?;
 
         let mut wide_strings = Vec::new();
 
         for wide_string_offset in wide_string_offsets {
-            let mut length = 0;
-            while wide_strings_buf
-                .get((wide_string_offset + length) as usize)
-                .map(|e| *e != 0)
-                .unwrap_or(false)
-                && wide_strings_buf
-                    .get((wide_string_offset + length + 1) as usize)
-                    .map(|e| *e != 0)
-                    .unwrap_or(false)
-            {
-                length += 2;
-            }
-
-            let wide_string = String::from_utf16(
-                &wide_strings_buf[(wide_string_offset + length) as usize..]
-                    .chunks(2)
-                    .map(|e| u16::from_le_bytes([e[0], e[1]]))
-                    .collect::<Vec<_>>(),
-            )?;
+            let wide_string = wide_strings_buf
+                .get(wide_string_offset as usize..)
+                .ok_or_else(|| Error::invalid_file("Invalid wide string offset".to_string()))?
+                .iter()
+                .copied()
+                .take_while(|e| *e != 0)
+                .collect::<Vec<_>>();
+
+            let wide_string = String::from_utf16(&wide_string)?;
             wide_strings.push(wide_string);
         }
 
-- 
2.43.0


From 2d3c2bf0a1a0459b7266890c5ee5bb41ced86f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:22 +0000
Subject: [PATCH 067/108] fix: a huge dependency section size of a registry is
 refused instead of crashing

---
 unreal_asset/unreal_asset_registry/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/lib.rs b/unreal_asset/unreal_asset_registry/src/lib.rs
index 018a735..d626bdf 100644
--- a/unreal_asset/unreal_asset_registry/src/lib.rs
+++ b/unreal_asset/unreal_asset_registry/src/lib.rs
@@ -99,7 +99,10 @@ impl AssetRegistryState {
             }
         } else {
             let dependency_section_size = asset.read_i64::<LE>()?;
-            let dependency_section_end = asset.position() + dependency_section_size as u64;
+            let dependency_section_end = u64::try_from(dependency_section_size)
+                .ok()
+                .and_then(|size| asset.position().checked_add(size))
+                .ok_or_else(|| Error::invalid_file("Invalid dependency section size".to_string()))?;
             let local_num_depends_nodes = Self::read_depends_nodes_count(asset)?;
 
             *depends_nodes = Vec::with_capacity(local_num_depends_nodes as usize);
-- 
2.43.0


From 55d75cd44053b5b009873b336d2afeca083dab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:58 +0000
Subject: [PATCH 068/108] fix: asset bundles with assets can be read

The name map was still borrowed mutably while the assets were read, which panicked.
---
 .../unreal_asset_registry/src/objects/asset_bundle_data.rs     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_registry/src/objects/asset_bundle_data.rs b/unreal_asset/unreal_asset_registry/src/objects/asset_bundle_data.rs
index fd9f61f..c144968 100644
--- a/unreal_asset/unreal_asset_registry/src/objects/asset_bundle_data.rs
+++ b/unreal_asset/unreal_asset_registry/src/objects/asset_bundle_data.rs
@@ -26,9 +26,10 @@ impl AssetBundleEntry {
     ) -> Result<Self, Error> {
         let bundle_name = asset.read_fname()?;
         let bundle_assets = asset.read_array(|asset: &mut Reader| {
+            let none = asset.get_name_map().get_mut().add_fname("None");
             SoftObjectPathProperty::new(
                 asset,
-                asset.get_name_map().get_mut().add_fname("None"),
+                none,
                 Ancestry::default(),
                 false,
                 0,
-- 
2.43.0


From 846834fc0c004b44cf4de7a513f1bb1fa88eff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 069/108] fix: the version of a mappings file is kept

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index af9e4f6..231bd42 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -248,9 +248,9 @@ impl Usmap {
             ));
         }
 
-        let usmap_version = EUsmapVersion::try_from(reader.read_u8()?)?;
+        self.version = EUsmapVersion::try_from(reader.read_u8()?)?;
 
-        let mut has_versioning = usmap_version >= EUsmapVersion::PackageVersioning;
+        let mut has_versioning = self.version >= EUsmapVersion::PackageVersioning;
         if has_versioning {
             has_versioning = reader.read_bool()?;
         }
-- 
2.43.0


From 2c4fbd35e12c3667714fada1cc96cefb28b0c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 070/108] fix: a name without a length in a mappings file is
 refused instead of crashing

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 231bd42..90868fe 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -332,8 +332,11 @@ impl Usmap {
         );
 
         self.name_map = reader.read_array(|reader| {
-            let name_length = reader.read_u8()?;
-            let mut buf = vec![0u8; name_length as usize - 1];
+            let name_length = reader
+                .read_u8()?
+                .checked_sub(1)
+                .ok_or_else(|| Error::invalid_file("Mapping name has no length".to_string()))?;
+            let mut buf = vec![0u8; name_length as usize];
             reader.read_exact(&mut buf)?;
             Ok(String::from_utf8(buf)?)
         })?;
-- 
2.43.0


From 938ab06262c468921adbc4fc796d4dc766696505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 071/108] fix: huge sizes and counts in a mappings file are
 refused instead of crashing

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 90868fe..6f6b283 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -267,8 +267,7 @@ impl Usmap {
         let compressed_size = reader.read_u32::<LE>()?;
         let decompressed_size = reader.read_u32::<LE>()?;
 
-        let mut compressed_data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut compressed_data)?;
+        let compressed_data = reader.read_bytes(compressed_size as i64)?;
 
         let data = match self.compression_method {
             EUsmapCompressionMethod::None => {
@@ -281,7 +280,7 @@ impl Usmap {
                 compressed_data
             }
             EUsmapCompressionMethod::Brotli => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
+                let mut decompressed_data = Cursor::new(Vec::new());
                 brotli::BrotliDecompress(
                     &mut Cursor::new(compressed_data),
                     &mut decompressed_data,
@@ -289,7 +288,7 @@ impl Usmap {
                 decompressed_data.into_inner()
             }
             EUsmapCompressionMethod::ZStandard => {
-                let mut decompressed_data = Cursor::new(vec![0u8; decompressed_size as usize]);
+                let mut decompressed_data = Cursor::new(Vec::new());
                 zstd::stream::copy_decode(
                     &mut Cursor::new(compressed_data),
                     &mut decompressed_data,
@@ -342,7 +341,7 @@ impl Usmap {
         })?;
 
         let enum_len = reader.read_u32::<LE>()?;
-        self.enum_map = IndexedMap::with_capacity(enum_len as usize);
+        self.enum_map = IndexedMap::new();
 
         let mut reader = UsmapReader::new(&mut reader, &self.name_map, &self.custom_versions);
 
@@ -360,7 +359,7 @@ impl Usmap {
         }
 
         let schemas_len = reader.read_u32::<LE>()?;
-        self.schemas = IndexedMap::with_capacity(schemas_len as usize);
+        self.schemas = IndexedMap::new();
 
         for _ in 0..schemas_len {
             let schema = UsmapSchema::read(&mut reader)?;
-- 
2.43.0


From 8ca229ebc0cdfe082511c07930f000dda63091d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 072/108] fix: mappings that do not have their stated size are
 refused

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 6f6b283..f4e7828 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -322,6 +322,10 @@ impl Usmap {
             }
         };
 
+        if data.len() != decompressed_size as usize {
+            return Err(UsmapError::invalid_compression_data().into());
+        }
+
         let mut reader = RawReader::new(
             Chain::new(Cursor::new(data), None),
             self.object_version,
-- 
2.43.0


From d643451cd6d73610ea7d9b244e4539d23ad0eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 073/108] fix: a module path that does not exist is refused
 instead of crashing

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index f4e7828..b9fcbe3 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -391,7 +391,10 @@ impl Usmap {
                         true => reader.read_u16::<LE>()?,
                         false => reader.read_u8()? as u16,
                     };
-                    schema.module_path = Some(module_paths[index as usize].clone());
+                    let module_path = module_paths.get(index as usize).ok_or_else(|| {
+                        Error::invalid_file("Module path index is out of range".to_string())
+                    })?;
+                    schema.module_path = Some(module_path.clone());
                 }
             }
         }
-- 
2.43.0


From 8bb175bd374c534e39df074f332fd355733cc238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 074/108] fix: mapped array elements that do not fit are
 refused instead of crashing

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index b9fcbe3..53185da 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -109,7 +109,10 @@ impl UsmapSchema {
             for j in 0..property.array_size {
                 let mut property = property.clone();
                 property.array_index = j as u16;
-                property.schema_index += j as u16;
+                property.schema_index =
+                    property.schema_index.checked_add(j as u16).ok_or_else(|| {
+                        Error::invalid_file("Schema index is out of range".to_string())
+                    })?;
 
                 properties.insert(
                     (property.name.clone(), property.schema_index as u32),
-- 
2.43.0


From ed13b60b76873c866295ee7fe1fde4ac7f690cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 075/108] fix: mapped properties are found by their array index

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 53185da..9793883 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -115,7 +115,7 @@ impl UsmapSchema {
                     })?;
 
                 properties.insert(
-                    (property.name.clone(), property.schema_index as u32),
+                    (property.name.clone(), property.array_index as u32),
                     property,
                 );
             }
-- 
2.43.0


From 690ae0bf6c959444b533bfc686ac5d4adc00d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 076/108] fix: types that inherit from themselves do not hang
 property look-ups

---
 unreal_asset/unreal_asset_base/src/unversioned/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
index 9793883..d898100 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/mod.rs
@@ -1,5 +1,6 @@
 //! Allows reading unversioned assets using mappings
 
+use std::collections::HashSet;
 use std::hash::Hash;
 use std::io::{Cursor, Read, Seek};
 
@@ -182,8 +183,13 @@ impl Usmap {
         mut schema_name: &'name str,
     ) -> Vec<&UsmapProperty> {
         let mut properties = Vec::new();
+        let mut visited = HashSet::new();
 
         while let Some(schema) = self.schemas.get_by_key(schema_name) {
+            if !visited.insert(schema_name) {
+                break;
+            }
+
             properties.extend(schema.properties.values());
             schema_name = schema.super_type.as_str();
         }
@@ -201,6 +207,7 @@ impl Usmap {
         let mut optional_schema_name = ancestry.get_parent().map(|e| e.get_owned_content());
 
         let mut global_index = 0;
+        let mut visited = HashSet::new();
         loop {
             let Some(schema_name) = optional_schema_name else {
                 break;
@@ -210,6 +217,10 @@ impl Usmap {
                 break;
             };
 
+            if !visited.insert(schema_name) {
+                break;
+            }
+
             if let Some(property) =
                 property_name.get_content(|name| schema.get_property(name, duplication_index))
             {
-- 
2.43.0


From 3b7d55085bd5e45af2813133bebee10ea037f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 077/108] fix: unversioned headers can cover more than 255
 properties

---
 .../src/unversioned/header.rs                 | 28 +++++++++----------
 .../unreal_asset_properties/src/lib.rs        | 13 +++++----
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index d234886..0e941f9 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -16,7 +16,7 @@ pub struct UnversionedHeaderFragment {
     /// Number of subsequent property values stured
     pub value_num: u8,
     /// First element index of this fragment
-    pub first_num: u8,
+    pub first_num: usize,
     /// Is this the last header fragment?
     pub is_last: bool,
     /// Has zeros
@@ -46,9 +46,9 @@ impl UnversionedHeaderFragment {
     const VALUE_NUM_SHIFT: u16 = 9;
     const IS_LAST_MASK: u16 = 0x0100u16;
 
-    /// Get last element index of this fragment
-    pub fn get_last_num(&self) -> u8 {
-        self.first_num + self.value_num - 1
+    /// Get last element index of this fragment, if it has any elements
+    pub fn get_last_num(&self) -> Option<usize> {
+        (self.first_num + self.value_num as usize).checked_sub(1)
     }
 
     /// Read an `UnversionedHeaderFragment` from an asset
@@ -105,7 +105,7 @@ impl UnversionedHeader {
     /// Loads zero mask data from an asset
     fn load_zero_mask_data<Reader: ArchiveReader<impl PackageIndexTrait>>(
         asset: &mut Reader,
-        num_bits: u16,
+        num_bits: usize,
     ) -> Result<BitVec<u8, Lsb0>, Error> {
         if num_bits <= 8 {
             let mut data = [0u8; 1];
@@ -117,7 +117,7 @@ impl UnversionedHeader {
             Ok(BitVec::from_vec(data.to_vec()))
         } else {
             let num_bytes = ((num_bits + 31) / 32) * 4;
-            let mut data = Vec::with_capacity(num_bytes as usize);
+            let mut data = Vec::new();
             for _ in 0..num_bytes {
                 data.push(asset.read_u8()?);
             }
@@ -135,20 +135,20 @@ impl UnversionedHeader {
 
         let mut fragments = Vec::new();
 
-        let mut first_num = 0;
-        let mut zero_mask_num = 0u16;
-        let mut unmasked_num = 0u16;
+        let mut first_num = 0usize;
+        let mut zero_mask_num = 0usize;
+        let mut unmasked_num = 0usize;
 
         loop {
             let mut fragment = UnversionedHeaderFragment::read(asset)?;
-            fragment.first_num = first_num + fragment.skip_num;
-            first_num += fragment.skip_num + fragment.value_num;
+            fragment.first_num = first_num + fragment.skip_num as usize;
+            first_num = fragment.first_num + fragment.value_num as usize;
 
             fragments.push(fragment);
 
             match fragment.has_zeros {
-                true => zero_mask_num += fragment.value_num as u16,
-                false => unmasked_num += fragment.value_num as u16,
+                true => zero_mask_num += fragment.value_num as usize,
+                false => unmasked_num += fragment.value_num as usize,
             };
 
             if fragment.is_last {
@@ -169,7 +169,7 @@ impl UnversionedHeader {
             }
         };
 
-        let unversioned_property_index = fragments[0].first_num as usize;
+        let unversioned_property_index = fragments[0].first_num;
         Ok(Some(UnversionedHeader {
             fragments,
             zero_mask,
diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 8025023..6da4ea9 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -540,13 +540,16 @@ impl Property {
 
             loop {
                 let current_fragment = header.fragments[header.current_fragment_index];
-                if header.unversioned_property_index > current_fragment.get_last_num() as usize {
+                if current_fragment
+                    .get_last_num()
+                    .map_or(true, |last| header.unversioned_property_index > last)
+                {
                     break;
                 }
 
                 header.current_fragment_index += 1;
                 header.unversioned_property_index =
-                    header.fragments[header.current_fragment_index].first_num as usize;
+                    header.fragments[header.current_fragment_index].first_num;
             }
 
             let mut practicing_unversioned_property_index = header.unversioned_property_index;
@@ -1571,7 +1574,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
             let fragment = UnversionedHeaderFragment {
                 skip_num: skip_num as u8,
                 value_num: value_num as u8,
-                first_num: start_index as u8,
+                first_num: start_index as usize,
                 is_last: false,
                 has_zeros,
             };
@@ -1598,7 +1601,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
 
     for fragment in fragments.iter().filter(|e| e.has_zeros) {
         for i in 0..fragment.value_num {
-            let is_zero = zero_properties.contains(&((fragment.first_num + i) as u32));
+            let is_zero = zero_properties.contains(&((fragment.first_num + i as usize) as u32));
             if !is_zero {
                 has_non_zero_values = true;
             }
@@ -1607,7 +1610,7 @@ pub fn generate_unversioned_header<W: ArchiveWriter<impl PackageIndexTrait>>(
     }
 
     let unversioned_property_index =
-        fragments.first().map(|e| e.first_num).unwrap_or_default() as usize;
+        fragments.first().map(|e| e.first_num).unwrap_or_default();
 
     let header = UnversionedHeader {
         fragments,
-- 
2.43.0


From 712117cb9146fd18b13236ab633e79bac36f0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 078/108] fix: an unversioned header has values when one of its
 zero mask bits is not set

---
 unreal_asset/unreal_asset_base/src/unversioned/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/unversioned/header.rs b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
index 0e941f9..83c8ed8 100644
--- a/unreal_asset/unreal_asset_base/src/unversioned/header.rs
+++ b/unreal_asset/unreal_asset_base/src/unversioned/header.rs
@@ -159,7 +159,7 @@ impl UnversionedHeader {
         let (zero_mask, has_non_zero_values) = match zero_mask_num > 0 {
             true => {
                 let mask = UnversionedHeader::load_zero_mask_data(asset, zero_mask_num)?;
-                let has_non_zero_values = unmasked_num > 0 || mask.iter().all(|e| !*e);
+                let has_non_zero_values = unmasked_num > 0 || mask.iter().take(zero_mask_num).any(|e| !*e);
                 (mask, has_non_zero_values)
             }
             false => {
-- 
2.43.0


From 109f7d88580fee38cf50d00da0864a36ab5b6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 079/108] fix: unversioned properties are read in the order of
 their header

---
 .../unreal_asset_properties/src/lib.rs        | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 6da4ea9..751a287 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -538,13 +538,12 @@ impl Property {
                 .ok_or_else(PropertyError::no_mappings)?;
             let parent_name = ancestry.get_parent().ok_or_else(PropertyError::no_parent)?;
 
-            loop {
-                let current_fragment = header.fragments[header.current_fragment_index];
-                if current_fragment
-                    .get_last_num()
-                    .map_or(true, |last| header.unversioned_property_index > last)
-                {
-                    break;
+            while header.fragments[header.current_fragment_index]
+                .get_last_num()
+                .map_or(true, |last| header.unversioned_property_index > last)
+            {
+                if header.fragments[header.current_fragment_index].is_last {
+                    return Ok(None);
                 }
 
                 header.current_fragment_index += 1;
@@ -581,8 +580,14 @@ impl Property {
 
             let property = schema
                 .properties
-                .get_by_index(practicing_unversioned_property_index)
-                .unwrap();
+                .values()
+                .find(|e| e.schema_index as usize == practicing_unversioned_property_index)
+                .ok_or_else(|| {
+                    PropertyError::no_schema(
+                        schema.name.clone(),
+                        practicing_unversioned_property_index,
+                    )
+                })?;
             header.unversioned_property_index += 1;
 
             name = FName::new_dummy(property.name.clone(), 0);
-- 
2.43.0


From 79137a8eb9ded2a0ef1c532e9a37b0d6433a03bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 080/108] fix: unversioned properties do not have a property
 guid

---
 unreal_asset/unreal_asset_base/src/reader/archive_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
index 067a8cb..4e53d1c 100644
--- a/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
+++ b/unreal_asset/unreal_asset_base/src/reader/archive_reader.rs
@@ -19,7 +19,9 @@ use crate::Guid;
 pub trait ArchiveReader<Index: PackageIndexTrait>: ArchiveTrait<Index> + Read {
     /// Read a `Guid` property
     fn read_property_guid(&mut self) -> Result<Option<Guid>, Error> {
-        if self.get_object_version() >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG {
+        if self.get_object_version() >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG
+            && !self.has_unversioned_properties()
+        {
             let has_property_guid = self.read_bool()?;
             if has_property_guid {
                 return Ok(Some(self.read_guid()?));
-- 
2.43.0


From adfd79009db421a008e1a8fe290c54cac611202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:46 +0000
Subject: [PATCH 081/108] fix: unversioned properties of a type that inherits
 from itself do not hang

---
 unreal_asset/unreal_asset_properties/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/unreal_asset/unreal_asset_properties/src/lib.rs b/unreal_asset/unreal_asset_properties/src/lib.rs
index 751a287..9c068d9 100644
--- a/unreal_asset/unreal_asset_properties/src/lib.rs
+++ b/unreal_asset/unreal_asset_properties/src/lib.rs
@@ -561,9 +561,18 @@ impl Property {
                 })
             })?;
 
+            let mut visited = HashSet::from([schema.name.as_str()]);
             while practicing_unversioned_property_index >= schema.prop_count as usize {
                 practicing_unversioned_property_index -= schema.prop_count as usize;
 
+                if !visited.insert(schema.super_type.as_str()) {
+                    return Err(PropertyError::no_schema(
+                        schema.super_type.clone(),
+                        practicing_unversioned_property_index,
+                    )
+                    .into());
+                }
+
                 let new_schema =
                     mappings
                         .schemas
-- 
2.43.0


From 16852e6cb5a70e7cb567b020daf6a4c6512d5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:50 +0000
Subject: [PATCH 082/108] fix: report unmet requirements without crashing

---
 .../src/mod_processing/dependencies.rs              | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 031f11b..129e63f 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use petgraph::{graph::NodeIndex, prelude::DiGraph, visit::IntoNodeReferences, Direction};
+use petgraph::{graph::NodeIndex, prelude::DiGraph, visit::EdgeRef, visit::IntoNodeReferences, Direction};
 use semver::{Version, VersionReq};
 use unreal_mod_metadata::{Dependency, DownloadInfo};
 
@@ -150,18 +150,13 @@ impl DependencyGraph {
                     let warning = ModLoaderWarning::unresolved_dependency(
                         weight.mod_id.clone(),
                         self.graph
-                            .neighbors_directed(node, Direction::Incoming)
+                            .edges_directed(node, Direction::Incoming)
                             .map(|e| {
                                 (
-                                    self.graph.node_weight(e).unwrap().mod_id.clone(),
-                                    self.graph
-                                        .edges_connecting(node, e)
-                                        .next()
-                                        .unwrap()
-                                        .weight(),
+                                    self.graph.node_weight(e.source()).unwrap().mod_id.clone(),
+                                    e.weight().to_string(),
                                 )
                             })
-                            .map(|(mod_id, version_req)| (mod_id, version_req.to_string()))
                             .collect::<Vec<_>>(),
                     );
                     warnings.push(warning);
-- 
2.43.0


From aac793b3ac99274e19d89837587f0015fece99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:50 +0000
Subject: [PATCH 083/108] fix: resolve to the newest matching version

---
 unreal_mod_manager/src/mod_processing/dependencies.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 129e63f..674efa3 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -140,7 +140,11 @@ impl DependencyGraph {
             let requirement = intersect_requirements(requirements);
 
             let weight = self.graph.node_weight(node).unwrap();
-            let matching_version = weight.versions.iter().find(|e| requirement.matches(e));
+            let matching_version = weight
+                .versions
+                .iter()
+                .filter(|e| requirement.matches(e))
+                .max();
 
             match matching_version {
                 Some(matching_version) => {
-- 
2.43.0


From 904ba5d29cbb68fa499d0ad439d970e3da6a7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:50 +0000
Subject: [PATCH 084/108] fix: intersect any number of version requirements

---
 .../src/mod_processing/dependencies.rs          | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 674efa3..b3aadf1 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -42,21 +42,8 @@ pub struct DependencyGraph {
 
 // https://github.com/dtolnay/semver/issues/170#issuecomment-734284639
 fn intersect_requirements(reqs: impl IntoIterator<Item = VersionReq>) -> VersionReq {
-    let reqs: Vec<_> = reqs
-        .into_iter()
-        .filter_map(|req| {
-            if req == VersionReq::STAR {
-                None
-            } else {
-                Some(req.to_string())
-            }
-        })
-        .collect();
-
-    if reqs.is_empty() {
-        VersionReq::STAR
-    } else {
-        reqs.join(", ").parse().unwrap()
+    VersionReq {
+        comparators: reqs.into_iter().flat_map(|req| req.comparators).collect(),
     }
 }
 
-- 
2.43.0


From 021aec0656e30b255012a09dca0c2349eaa90f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:50 +0000
Subject: [PATCH 085/108] fix: list every requirement placed on a mod by its
 dependents

---
 .../src/mod_processing/dependencies.rs              | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index b3aadf1..05c91f4 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -182,18 +182,11 @@ impl DependencyGraph {
         if let Some((node, _)) = node {
             return self
                 .graph
-                .neighbors_directed(node, Direction::Incoming)
+                .edges_directed(node, Direction::Incoming)
                 .map(|e| {
                     (
-                        self.graph.node_weight(e).unwrap().mod_id.clone(),
-                        self.graph.find_edge_undirected(node, e),
-                    )
-                })
-                .filter(|(_, edge)| edge.is_some())
-                .map(|(mod_id, edge)| {
-                    (
-                        mod_id,
-                        self.graph.edge_weight(edge.unwrap().0).unwrap().to_string(),
+                        self.graph.node_weight(e.source()).unwrap().mod_id.clone(),
+                        e.weight().to_string(),
                     )
                 })
                 .collect::<Vec<_>>();
-- 
2.43.0


From 476f5afbf3babe54a3dd30e9bf0d4ee3ac2dfb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:50 +0000
Subject: [PATCH 086/108] fix: do not take a dependency to have the versions of
 its dependent

---
 unreal_mod_manager/src/background_work.rs     | 26 ++++++++++++++-----
 .../src/mod_processing/dependencies.rs        |  2 +-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index bbc3fd5..c23029d 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -24,7 +24,7 @@ use unreal_mod_metadata::Metadata;
 use unreal_pak::PakReader;
 
 use crate::config;
-use crate::error::{ModLoaderError, ModLoaderWarning};
+use crate::error::{ModLoaderError, ModLoaderWarning, ModLoaderWarningKind};
 use crate::game_mod::{self, GameModVersion};
 use crate::mod_config::{load_config, write_config};
 use crate::mod_processing::{
@@ -452,16 +452,30 @@ where
                     }
 
                     let (mut to_download, graph_warnings) = graph.validate_graph();
-                    warnings.extend(graph_warnings);
 
-                    for existing_mod in first_round {
+                    // baked mods come with the integrator, so they are always available
+                    let baked_mods = config.get_integrator_config().get_baked_mods();
+                    warnings.extend(graph_warnings.into_iter().filter(|warning| {
+                        !baked_mods.iter().any(|baked_mod| {
+                            matches!(
+                                &warning.kind,
+                                ModLoaderWarningKind::UnresolvedDependency(mod_id, _)
+                                    if *mod_id == baked_mod.get_mod_id()
+                            )
+                        })
+                    }));
+
+                    for existing_mod in &first_round {
                         to_download.remove(&existing_mod.mod_id);
                     }
 
                     let mut mods_to_integrate = Vec::new();
-                    for baked_mod in config.get_integrator_config().get_baked_mods() {
-                        if to_download.contains_key(&baked_mod.get_mod_id()) {
-                            to_download.remove(&baked_mod.get_mod_id());
+                    for baked_mod in baked_mods {
+                        let mod_id = baked_mod.get_mod_id();
+                        if !graph.find_mod_dependents(&mod_id).is_empty()
+                            && !first_round.iter().any(|e| e.mod_id == mod_id)
+                        {
+                            to_download.remove(&mod_id);
                             mods_to_integrate.push(baked_mod);
                         }
                     }
diff --git a/unreal_mod_manager/src/mod_processing/dependencies.rs b/unreal_mod_manager/src/mod_processing/dependencies.rs
index 05c91f4..8f47f5a 100644
--- a/unreal_mod_manager/src/mod_processing/dependencies.rs
+++ b/unreal_mod_manager/src/mod_processing/dependencies.rs
@@ -84,7 +84,7 @@ impl DependencyGraph {
             for (dependency_mod_id, dependency) in &game_mod.dependencies {
                 let dependency_node = self.get_or_add_mod(GraphMod {
                     mod_id: dependency_mod_id.clone(),
-                    versions: game_mod.versions.clone(),
+                    versions: Vec::new(),
                     downloads: match dependency.download.as_ref() {
                         Some(e) => Vec::from([e.clone()]),
                         None => Vec::new(),
-- 
2.43.0


From 738575ef63f7e35e085286d4fac0b6b63b00d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:17 +0000
Subject: [PATCH 087/108] fix: take only ASCII digits and literal dots for the
 version in a mod file name

---
 unreal_mod_manager/src/mod_processing/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index a63683b..ee818fa 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -14,7 +14,7 @@ lazy_static! {
     /// Match 2: ModName69.author
     /// Match 3: 1.1.1
     // regex explanation                                           (  000 )-(Mod69<.author>)-( 1 . 1 . 1 )_P.pak
-    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^\d{3})-([a-zA-Z0-9\.]+)-(\d+.\d+.\d+)_P.pak$").unwrap();
+    pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^[0-9]{3})-([a-zA-Z0-9\.]+)-([0-9]+\.[0-9]+\.[0-9]+)_P\.pak$").unwrap();
 }
 
 pub fn verify_mod_file_name(mod_id: &str) -> bool {
-- 
2.43.0


From 3fd8751fa0f3f550c7ba49e20087537e69886ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:17 +0000
Subject: [PATCH 088/108] fix: report mod files whose version cannot be parsed
 instead of panicking

---
 unreal_mod_manager/src/mod_processing/pakfile_reading.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
index 35ee4c9..3b6f757 100644
--- a/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
+++ b/unreal_mod_manager/src/mod_processing/pakfile_reading.rs
@@ -83,6 +83,10 @@ pub(crate) fn read_pak_files(
                 return Err(ModLoaderWarning::invalid_metadata(file_name));
             }
 
+            if Version::parse(version).is_err() {
+                return Err(ModLoaderWarning::invalid_version(file_name));
+            }
+
             let mod_id = metadata.mod_id.to_owned();
 
             if !mods_read.contains_key(&mod_id) {
-- 
2.43.0


From b851c0b2c6cf83d29531cd1cc9c765d2404e1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:17 +0000
Subject: [PATCH 089/108] fix: let mods following the latest version pick up
 versions added later

---
 unreal_mod_manager/src/mod_processing/version_handling.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/version_handling.rs b/unreal_mod_manager/src/mod_processing/version_handling.rs
index d3b37c4..46287c6 100644
--- a/unreal_mod_manager/src/mod_processing/version_handling.rs
+++ b/unreal_mod_manager/src/mod_processing/version_handling.rs
@@ -11,7 +11,7 @@ use crate::ModLoaderAppData;
 pub(crate) fn auto_pick_versions(data: &mut ModLoaderAppData) {
     for (_, game_mod) in data.game_mods.iter_mut() {
         // if using latest indirect, find version
-        if let SelectedVersion::LatestIndirect(None) = game_mod.selected_version {
+        if let SelectedVersion::LatestIndirect(_) = game_mod.selected_version {
             let mut versions = game_mod.versions.keys().collect::<Vec<&Version>>();
             versions.sort();
             game_mod.selected_version =
-- 
2.43.0


From c33f9b37127c296680b4b366bdf222056e18f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:17 +0000
Subject: [PATCH 090/108] fix: do not select a latest version that an index
 file names but does not list

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index bc049a9..0eaa819 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -223,6 +223,16 @@ pub(crate) fn insert_index_file_data(
             }
         }
 
+        if !game_mod.versions.contains_key(&index_file.latest_version) {
+            warn!(
+                "Latest version {} from index file for mod {:?} is not available",
+                index_file.latest_version, mod_id
+            );
+            warnings.push(ModLoaderWarning::invalid_index_file(mod_id.to_owned()));
+
+            continue;
+        }
+
         match game_mod.selected_version {
             SelectedVersion::Latest(_) => {
                 game_mod.selected_version =
-- 
2.43.0


From eb0d6f03c25f3bb73cf786501596708f8a7d2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 091/108] fix: do not panic on invalid versions in index files

---
 unreal_mod_manager/src/mod_processing/index_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index 0eaa819..6366aaa 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -41,7 +41,7 @@ where
         where
             E: de::Error,
         {
-            Ok(FromStr::from_str(value).unwrap())
+            FromStr::from_str(value).map_err(de::Error::custom)
         }
     }
     deserializer.deserialize_any(StringDeserializer(PhantomData))
-- 
2.43.0


From ba0be99abb027b14a314508841656c6bdaaed611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 092/108] fix: ignore a configured mod version that is no
 longer available

---
 unreal_mod_manager/src/mod_config.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index bb42aad..b49aec4 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -86,7 +86,16 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
                 continue;
             }
 
-            game_mod.selected_version = SelectedVersion::Specific(config_version.unwrap());
+            let config_version = config_version.unwrap();
+            if !game_mod.versions.contains_key(&config_version) {
+                warn!(
+                    "Version {} for mod {} is not available",
+                    mod_config.version, mod_id
+                );
+                continue;
+            }
+
+            game_mod.selected_version = SelectedVersion::Specific(config_version);
         }
     }
 
-- 
2.43.0


From 81a3f61620c17b40bd33d07ae1aa0958b0f75b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 093/108] fix: do not destroy mod files imported from the mods
 directory itself

---
 unreal_mod_manager/src/background_work.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index c23029d..620ea21 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -212,6 +212,16 @@ where
 
                         // copy the file to the mods directory
                         let new_file_path = mods_path.join(file_name);
+
+                        // copying a file onto itself would truncate it
+                        if let (Ok(from), Ok(to)) =
+                            (file_path.canonicalize(), new_file_path.canonicalize())
+                        {
+                            if from == to {
+                                return Some(FileToProcess::new(new_file_path, false));
+                            }
+                        }
+
                         match fs::copy(file_path, &new_file_path) {
                             Ok(_) => Some(FileToProcess::new(new_file_path, file.newly_added)),
                             Err(err) => {
-- 
2.43.0


From ecc40b223ee158c6acfb0f54ce9012be9a8782f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 094/108] fix: stop being marked as working once an import is
 finished

---
 unreal_mod_manager/src/background_work.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 620ea21..43f7658 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -245,6 +245,10 @@ where
                     process_modfiles(&files_to_process, &background_thread_data.data, true);
                 debug!("warnings: {:?}", warnings);
                 background_thread_data.data.lock().warnings.extend(warnings);
+
+                background_thread_data
+                    .working
+                    .store(false, Ordering::Release);
             }
             BackgroundThreadMessage::RemoveMod(mod_id) => {
                 let mut data_guard = background_thread_data.data.lock();
-- 
2.43.0


From e3c32ff3d0a57da25adaf1f30cfadc844e11d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 095/108] fix: check file names from the index files of
 dependencies

---
 unreal_mod_manager/src/background_work.rs    | 9 +++++++++
 unreal_mod_manager/src/mod_processing/mod.rs | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 43f7658..92b841b 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -31,6 +31,7 @@ use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
     index_file::{download_index_file, IndexFileModVersion},
     process_modfiles,
+    verify::verify_mod_file_name,
 };
 use crate::update_info::UpdateInfo;
 use crate::FileToProcess;
@@ -433,6 +434,14 @@ where
                                 match download_index_file(mod_id.clone(), download) {
                                     Ok((_, index_file)) => {
                                         for (version, index_version) in index_file.versions {
+                                            if !verify_mod_file_name(&index_version.file_name) {
+                                                warnings.push(
+                                                    ModLoaderWarning::invalid_index_file(
+                                                        mod_id.clone(),
+                                                    ),
+                                                );
+                                                continue;
+                                            }
                                             entry.entry(version).or_insert(index_version);
                                         }
                                     }
diff --git a/unreal_mod_manager/src/mod_processing/mod.rs b/unreal_mod_manager/src/mod_processing/mod.rs
index 355fcdb..fcd803b 100644
--- a/unreal_mod_manager/src/mod_processing/mod.rs
+++ b/unreal_mod_manager/src/mod_processing/mod.rs
@@ -13,7 +13,7 @@ use pakfile_reading::{insert_mods_from_readdata, read_pak_files};
 mod version_handling;
 use version_handling::{auto_pick_versions, set_mod_data_from_version};
 
-mod verify;
+pub(crate) mod verify;
 
 // TODO this should at somepoint be changed to `-> Result<Vec<ModLoaderWarning>, ModLoaderError>`
 // to properly convey that some things might critically fail.
-- 
2.43.0


From a4673a943499ddb1f19e575a284caa23019454b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 096/108] fix: fetch the newest matching version of a
 dependency

---
 unreal_mod_manager/src/background_work.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 92b841b..6df5dc5 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -451,7 +451,8 @@ where
 
                             let matching_version = entry
                                 .iter()
-                                .find(|(version, _)| version_req.matches(version));
+                                .filter(|(version, _)| version_req.matches(version))
+                                .max_by_key(|(version, _)| *version);
 
                             if let Some((_, index_version)) = matching_version {
                                 let file = download_mod(&mods_path, index_version);
-- 
2.43.0


From afac3529e75f6ceddebf59ceeda204058f596bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 097/108] fix: finish fetching dependencies of mods that depend
 on each other

---
 unreal_mod_manager/src/background_work.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 6df5dc5..64a49c0 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::env;
 use std::fs::{self, File};
 use std::io::{self, Error};
@@ -422,15 +422,28 @@ where
                     let mut dependencies = graph.add_mods(&first_round);
 
                     let mut next_round = Vec::new();
+                    let mut fetched_index_files = HashSet::new();
+                    let mut fetched_versions = HashSet::new();
 
                     loop {
                         next_round.clear();
                         for (mod_id, (version_req, downloads)) in &dependencies {
+                            // enabled mods are used as they are
+                            if first_round.iter().any(|e| e.mod_id == *mod_id) {
+                                continue;
+                            }
+
                             let entry = download_pool
                                 .entry(mod_id.clone())
                                 .or_insert_with(HashMap::new);
 
                             for download in downloads {
+                                if !fetched_index_files
+                                    .insert((mod_id.clone(), download.url.clone()))
+                                {
+                                    continue;
+                                }
+
                                 match download_index_file(mod_id.clone(), download) {
                                     Ok((_, index_file)) => {
                                         for (version, index_version) in index_file.versions {
@@ -454,7 +467,11 @@ where
                                 .filter(|(version, _)| version_req.matches(version))
                                 .max_by_key(|(version, _)| *version);
 
-                            if let Some((_, index_version)) = matching_version {
+                            if let Some((version, index_version)) = matching_version {
+                                if !fetched_versions.insert((mod_id.clone(), version.clone())) {
+                                    continue;
+                                }
+
                                 let file = download_mod(&mods_path, index_version);
 
                                 if let Ok((metadata, _)) = file {
-- 
2.43.0


From 11fafc98504f7a359aa7a0f3bcec8519f0a152aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 098/108] fix: do not integrate baked mods that are already
 provided twice

---
 unreal_mod_integrator/src/lib.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index f2668ac..ae328c8 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -379,12 +379,27 @@ pub fn integrate_mods<
     );
 
     let baked_mods = integrator_config.get_baked_mods();
-    let core_mods = baked_mods.iter().filter(|e| e.is_core());
+    let is_provided = |baked_mod: &&IntegratorMod<E>| {
+        mods.iter().any(|provided_mod| {
+            matches!(
+                provided_mod,
+                IntegratorMod::File(_) | IntegratorMod::Baked(_)
+            ) && provided_mod.get_mod_id() == baked_mod.get_mod_id()
+        })
+    };
+    let core_mods = baked_mods
+        .iter()
+        .filter(|e| e.is_core())
+        .filter(|e| !is_provided(e));
 
-    let enabled_baked_mods = baked_mods.iter().filter(|e| !e.is_core()).filter(|e| {
-        mods.iter()
-            .any(|provided_mod| provided_mod.get_mod_id() == e.get_mod_id())
-    });
+    let enabled_baked_mods = baked_mods
+        .iter()
+        .filter(|e| !e.is_core())
+        .filter(|e| {
+            mods.iter()
+                .any(|provided_mod| provided_mod.get_mod_id() == e.get_mod_id())
+        })
+        .filter(|e| !is_provided(e));
 
     let game_dir = fs::read_dir(game_path)?;
     let game_files: Vec<File> = game_dir
-- 
2.43.0


From 7d1da95136942f7a1d207212a50a291fb0342358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 099/108] fix: write the description of a listed mod without an
 array index

---
 unreal_mod_integrator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unreal_mod_integrator/src/lib.rs b/unreal_mod_integrator/src/lib.rs
index ae328c8..a038bc5 100644
--- a/unreal_mod_integrator/src/lib.rs
+++ b/unreal_mod_integrator/src/lib.rs
@@ -230,7 +230,7 @@ fn bake_mod_data(asset: &mut Asset<Cursor<&[u8]>>, mods: &Vec<Metadata>) -> Resu
                 name: columns[2].clone(),
                 ancestry: Ancestry::default(),
                 property_guid: None,
-                duplication_index: 9,
+                duplication_index: 0,
                 value: Some(mod_data.description.clone().unwrap_or_default()),
             }
             .into(),
-- 
2.43.0


From a80c6278e246c3203fcc66d72fd0c85ceeb1b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:40 +0000
Subject: [PATCH 100/108] fix: check newly downloaded mods with libraries for
 being trusted

---
 unreal_mod_manager/src/background_work.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 64a49c0..5f1d14e 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -389,6 +389,24 @@ where
                         false,
                     ));
 
+                    // the metadata of newly downloaded mods is only known now
+                    for mod_version in mods_to_install.iter_mut() {
+                        if mod_version.metadata.is_none() {
+                            mod_version.metadata = background_thread_data
+                                .data
+                                .lock()
+                                .game_mods
+                                .get(&mod_version.mod_id)
+                                .and_then(|game_mod| {
+                                    game_mod
+                                        .versions
+                                        .values()
+                                        .find(|e| e.file_name == mod_version.file_name)
+                                })
+                                .and_then(|e| e.metadata.clone());
+                        }
+                    }
+
                     // fetch dependencies
                     let mut first_round = Vec::new();
 
-- 
2.43.0


From 6f9e036be5224ad5490a37c0fd92afda1dde60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 101/108] fix: unversioned arrays, sets and bytes do not store
 their type

---
 .../unreal_asset_properties/src/array_property.rs |  4 +++-
 .../unreal_asset_properties/src/int_property.rs   |  4 +++-
 .../unreal_asset_properties/src/set_property.rs   | 15 +++++++++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index ce6ee7c..1266265 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -44,7 +44,9 @@ impl ArrayProperty {
         duplication_index: i32,
         serialize_struct_differently: bool,
     ) -> Result<Self, Error> {
-        let (array_type, property_guid) = match include_header {
+        let (array_type, property_guid) = match include_header
+            && !asset.has_unversioned_properties()
+        {
             true => (Some(asset.read_fname()?), asset.read_property_guid()?),
             false => (None, None),
         };
diff --git a/unreal_asset/unreal_asset_properties/src/int_property.rs b/unreal_asset/unreal_asset_properties/src/int_property.rs
index e3dd96f..6ab7ad1 100644
--- a/unreal_asset/unreal_asset_properties/src/int_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/int_property.rs
@@ -342,7 +342,9 @@ impl ByteProperty {
         fallback_length: i64,
         duplication_index: i32,
     ) -> Result<Self, Error> {
-        let (enum_type, property_guid) = match include_header {
+        let (enum_type, property_guid) = match include_header
+            && !asset.has_unversioned_properties()
+        {
             true => (Some(asset.read_fname()?), asset.read_property_guid()?),
             false => (None, None),
         };
diff --git a/unreal_asset/unreal_asset_properties/src/set_property.rs b/unreal_asset/unreal_asset_properties/src/set_property.rs
index 4d4885d..a4b31fd 100644
--- a/unreal_asset/unreal_asset_properties/src/set_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/set_property.rs
@@ -33,9 +33,20 @@ impl SetProperty {
         length: i64,
         duplication_index: i32,
     ) -> Result<Self, Error> {
-        let (array_type, property_guid) = match include_header {
+        let (array_type, property_guid) = match include_header
+            && !asset.has_unversioned_properties()
+        {
             true => (Some(asset.read_fname()?), asset.read_property_guid()?),
-            false => (None, None),
+            false => (
+                asset
+                    .get_mappings()
+                    .and_then(|e| e.get_property(&name, &ancestry))
+                    .and_then(|e| cast!(UsmapPropertyData, UsmapSetPropertyData, &e.property_data))
+                    .map(|e| {
+                        FName::new_dummy(e.inner_type.get_property_type().to_string(), 0)
+                    }),
+                None,
+            ),
         };
 
         let begin = asset.position();
-- 
2.43.0


From 03a26d6dea47c53bf354f67a34e65fef1c1f458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 102/108] fix: read every element of unversioned arrays of
 structs and bytes

---
 .../unreal_asset_properties/src/array_property.rs      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unreal_asset/unreal_asset_properties/src/array_property.rs b/unreal_asset/unreal_asset_properties/src/array_property.rs
index 1266265..4cccf57 100644
--- a/unreal_asset/unreal_asset_properties/src/array_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/array_property.rs
@@ -193,8 +193,14 @@ impl ArrayProperty {
                 entries.push(data.into());
             }
         } else if num_entries > 0 {
-            let size_est_1 = length / num_entries as i64;
-            let size_est_2 = (length - 4) / num_entries as i64;
+            // the length of unversioned arrays is not known
+            let (size_est_1, size_est_2) = match asset.has_unversioned_properties() {
+                true => (1, 1),
+                false => (
+                    length / num_entries as i64,
+                    (length - 4) / num_entries as i64,
+                ),
+            };
             let array_type = array_type
                 .as_ref()
                 .ok_or_else(|| Error::invalid_file("Unknown array type".to_string()))?;
-- 
2.43.0


From dd8ee0c8b18e7c6087a2cf79025effe45f8bbe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:16 +0000
Subject: [PATCH 103/108] fix: refuse unversioned enum values that the mappings
 do not declare

---
 .../unreal_asset_properties/src/enum_property.rs         | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unreal_asset/unreal_asset_properties/src/enum_property.rs b/unreal_asset/unreal_asset_properties/src/enum_property.rs
index f292a18..3342b4c 100644
--- a/unreal_asset/unreal_asset_properties/src/enum_property.rs
+++ b/unreal_asset/unreal_asset_properties/src/enum_property.rs
@@ -55,7 +55,14 @@ impl EnumProperty {
                         })?;
                     let value = match enum_index == u8::MAX {
                         true => None,
-                        false => Some(FName::new_dummy(info[enum_index as usize].clone(), 0)),
+                        false => Some(FName::new_dummy(
+                            info.get(enum_index as usize)
+                                .ok_or_else(|| {
+                                    Error::invalid_file(format!("Invalid enum value {enum_index}"))
+                                })?
+                                .clone(),
+                            0,
+                        )),
                     };
 
                     return Ok(EnumProperty {
-- 
2.43.0


From a9244bfcc6ec516015fa3c2eb993134104bf555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:43 +0000
Subject: [PATCH 104/108] fix: enums of old versions keep all their names when
 values have gaps

---
 .../unreal_asset_exports/src/enum_export.rs      | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/unreal_asset/unreal_asset_exports/src/enum_export.rs b/unreal_asset/unreal_asset_exports/src/enum_export.rs
index d05da3e..6dc7aed 100644
--- a/unreal_asset/unreal_asset_exports/src/enum_export.rs
+++ b/unreal_asset/unreal_asset_exports/src/enum_export.rs
@@ -1,7 +1,5 @@
 //! Enum export
 
-use std::collections::HashMap;
-
 use byteorder::{ReadBytesExt, WriteBytesExt, LE};
 use num_enum::{IntoPrimitive, TryFromPrimitive};
 
@@ -94,15 +92,11 @@ impl UEnum {
     ) -> Result<(), Error> {
         asset.write_i32::<LE>(self.names.len() as i32)?;
         if asset.get_object_version() < ObjectVersion::VER_UE4_TIGHTLY_PACKED_ENUMS {
-            // todo: a better algorithm?
-            let mut names_map = HashMap::with_capacity(self.names.len());
-            for (name, index) in &self.names {
-                names_map.insert(*index, name.clone());
-            }
-            for i in 0..names_map.len() {
-                if let Some(name) = names_map.get(&(i as i64)) {
-                    asset.write_fname(name)?;
-                }
+            // values aren't stored, names are in the order of their values
+            let mut names = self.names.iter().collect::<Vec<_>>();
+            names.sort_by_key(|(_, index)| *index);
+            for (name, _) in names {
+                asset.write_fname(name)?;
             }
         } else if asset.get_custom_version::<FCoreObjectVersion>().version
             < FCoreObjectVersion::EnumProperties as i32
-- 
2.43.0


From 0ccc3155197a30b57b9770649e5a0881370eced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:41 +0000
Subject: [PATCH 105/108] fix: store downloaded mods only when they are what
 their file name says

---
 unreal_mod_manager/src/background_work.rs | 24 +++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 5f1d14e..d2b3a67 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -72,24 +72,28 @@ fn download_mod(
     mod_version: &IndexFileModVersion,
 ) -> Result<(Metadata, PathBuf), ModLoaderWarning> {
     // this is safe because the filename has already been validated
-    let mut response = reqwest::blocking::get(mod_version.download_url.as_str())
+    let data = reqwest::blocking::get(mod_version.download_url.as_str())
+        .and_then(|response| response.error_for_status()?.bytes())
         .map_err(|e| ModLoaderWarning::download_failed(mod_version.file_name.clone(), e))?;
 
-    let file_path = mods_path.join(mod_version.file_name.clone());
-    let mut file = fs::File::create(&file_path)?;
-
-    io::copy(&mut response, &mut file)?;
-
-    drop(file);
-    let file = fs::File::open(&file_path)?;
-
-    let mut pak = PakReader::new(&file);
+    let mut pak = PakReader::new(io::Cursor::new(&data));
     pak.load_index()?;
 
     let metadata = pak.read_entry(&String::from("metadata.json"))?;
     let metadata = unreal_mod_metadata::from_slice(&metadata)
         .map_err(|_| ModLoaderWarning::invalid_metadata(mod_version.file_name.clone()))?;
 
+    let expected_end = format!("-{}-{}_P.pak", metadata.mod_id, metadata.mod_version);
+    if !mod_version.file_name.ends_with(&expected_end) {
+        return Err(ModLoaderWarning::invalid_metadata(
+            mod_version.file_name.clone(),
+        ));
+    }
+
+    // only replace an existing file once the new one is known to be usable
+    let file_path = mods_path.join(mod_version.file_name.clone());
+    fs::write(&file_path, &data)?;
+
     Ok((metadata, file_path))
 }
 
-- 
2.43.0


From f577a6a590aaff7c061f6e7c32861cb824b3b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:41 +0000
Subject: [PATCH 106/108] fix: do not install mods whose file could not be
 fetched or read

---
 unreal_mod_manager/src/background_work.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index d2b3a67..64a60b4 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -411,6 +411,9 @@ where
                         }
                     }
 
+                    // files that could not be downloaded or read have been reported above
+                    mods_to_install.retain(|mod_version| mod_version.metadata.is_some());
+
                     // fetch dependencies
                     let mut first_round = Vec::new();
 
-- 
2.43.0


From 954a80b2bae3baf323a3e2d179142d7964c2db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:41 +0000
Subject: [PATCH 107/108] fix: index files can only name files of the mod and
 version they list

---
 unreal_mod_manager/src/background_work.rs           | 8 ++++++--
 unreal_mod_manager/src/mod_processing/index_file.rs | 2 +-
 unreal_mod_manager/src/mod_processing/verify.rs     | 6 ++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index 64a60b4..c1f38fc 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -31,7 +31,7 @@ use crate::mod_processing::{
     dependencies::{DependencyGraph, ModWithDependencies},
     index_file::{download_index_file, IndexFileModVersion},
     process_modfiles,
-    verify::verify_mod_file_name,
+    verify::verify_mod_file_name_for,
 };
 use crate::update_info::UpdateInfo;
 use crate::FileToProcess;
@@ -472,7 +472,11 @@ where
                                 match download_index_file(mod_id.clone(), download) {
                                     Ok((_, index_file)) => {
                                         for (version, index_version) in index_file.versions {
-                                            if !verify_mod_file_name(&index_version.file_name) {
+                                            if !verify_mod_file_name_for(
+                                                &index_version.file_name,
+                                                mod_id,
+                                                &version,
+                                            ) {
                                                 warnings.push(
                                                     ModLoaderWarning::invalid_index_file(
                                                         mod_id.clone(),
diff --git a/unreal_mod_manager/src/mod_processing/index_file.rs b/unreal_mod_manager/src/mod_processing/index_file.rs
index 6366aaa..2959408 100644
--- a/unreal_mod_manager/src/mod_processing/index_file.rs
+++ b/unreal_mod_manager/src/mod_processing/index_file.rs
@@ -195,7 +195,7 @@ pub(crate) fn insert_index_file_data(
         let game_mod = data.game_mods.get_mut(mod_id).unwrap();
 
         for (version, version_info) in index_file.versions.iter() {
-            if !verify::verify_mod_file_name(&version_info.file_name) {
+            if !verify::verify_mod_file_name_for(&version_info.file_name, mod_id, version) {
                 warn!(
                     "Failed to verify filename {:?} from index file for mod {:?}",
                     version_info.file_name, mod_id
diff --git a/unreal_mod_manager/src/mod_processing/verify.rs b/unreal_mod_manager/src/mod_processing/verify.rs
index ee818fa..908fb25 100644
--- a/unreal_mod_manager/src/mod_processing/verify.rs
+++ b/unreal_mod_manager/src/mod_processing/verify.rs
@@ -1,5 +1,6 @@
 use lazy_static::lazy_static;
 use regex::Regex;
+use semver::Version;
 
 // migth need at some point
 // pub fn verify_mod_id(mod_id: &str) -> bool {
@@ -17,6 +18,11 @@ lazy_static! {
     pub(crate) static ref MOD_FILENAME_REGEX: Regex = Regex::new(r"(^[0-9]{3})-([a-zA-Z0-9\.]+)-([0-9]+\.[0-9]+\.[0-9]+)_P\.pak$").unwrap();
 }
 
+/// Verify that this is a valid mod file name and belongs to this version of this mod
+pub fn verify_mod_file_name_for(file_name: &str, mod_id: &str, version: &Version) -> bool {
+    verify_mod_file_name(file_name) && file_name.ends_with(&format!("-{mod_id}-{version}_P.pak"))
+}
+
 pub fn verify_mod_file_name(mod_id: &str) -> bool {
     if let Some(matches) = MOD_FILENAME_REGEX.captures(mod_id) {
         if let Some(mod_name) = matches.get(2) {
-- 
2.43.0


From b59f54f3835f7ad4214010e91f5b11ea86e96424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:40 +0000
Subject: [PATCH 108/108] fix: fall back to an available platform when the
 saved one is gone

---
 unreal_mod_manager/src/background_work.rs | 12 +++++++-----
 unreal_mod_manager/src/mod_config.rs      |  7 ++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/unreal_mod_manager/src/background_work.rs b/unreal_mod_manager/src/background_work.rs
index c1f38fc..9af1e52 100644
--- a/unreal_mod_manager/src/background_work.rs
+++ b/unreal_mod_manager/src/background_work.rs
@@ -308,11 +308,13 @@ where
 
                 let mut data_guard = background_thread_data.data.lock();
 
-                let paks_path = data_guard.paks_path.as_ref().unwrap().clone();
-                let install_path = match data_guard.game_install_path {
-                    Some(ref install_path) => install_path.clone(),
-                    None => continue,
-                };
+                let (paks_path, install_path) =
+                    match (&data_guard.paks_path, &data_guard.game_install_path) {
+                        (Some(paks_path), Some(install_path)) => {
+                            (paks_path.clone(), install_path.clone())
+                        }
+                        _ => continue,
+                    };
                 #[cfg(feature = "cpp_loader")]
                 let cpp_loader_extract_path = data_guard.cpp_loader_extract_path.clone();
 
diff --git a/unreal_mod_manager/src/mod_config.rs b/unreal_mod_manager/src/mod_config.rs
index b49aec4..5fec5a5 100644
--- a/unreal_mod_manager/src/mod_config.rs
+++ b/unreal_mod_manager/src/mod_config.rs
@@ -114,9 +114,10 @@ pub(crate) fn load_config(data: &mut ModLoaderAppData) {
         }
     };
 
-    if let Some(ref selected_game_platform) = config.selected_game_platform {
-        let _ = data.set_game_platform(selected_game_platform);
-    } else if data.set_game_platform("Steam").is_err() {
+    let selected_game_platform = config.selected_game_platform.as_deref().unwrap_or("Steam");
+    if data.set_game_platform(selected_game_platform).is_err()
+        && data.set_game_platform("Steam").is_err()
+    {
         let first_platform = data.install_managers.keys().next().unwrap();
         let _ = data.set_game_platform(first_platform);
     }
-- 
2.43.0

