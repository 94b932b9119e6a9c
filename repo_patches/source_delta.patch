From 43289b093dc2f7965a15ce0e49211b7f1241f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 01/39] fix: rounding a size up must not overflow when the
 result is representable

align(usize::MAX - 7, 8) is usize::MAX - 7, but value + alignment overflowed
before the subtraction; likewise the block count of files close to 2^64 bytes.
---
 src/core/util.rs     |  2 +-
 src/storage/utils.rs | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index ed0737b..46b1238 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -81,7 +81,7 @@ pub type Result<T> = result::Result<T, Error>;
 /// Helper function to calculate alignments
 pub fn align(value: usize, alignment: usize) -> usize {
     assert!(alignment.is_power_of_two());
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 #[test]
diff --git a/src/storage/utils.rs b/src/storage/utils.rs
index 4911859..f0fb215 100644
--- a/src/storage/utils.rs
+++ b/src/storage/utils.rs
@@ -21,29 +21,29 @@
 // SOFTWARE.
 
 pub (crate) fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 {
-    (file_size + block_size - 1) / block_size
+    file_size / block_size + (file_size % block_size != 0) as u64
 }
 
 pub (crate) fn align_usize(value: usize, alignment: usize) -> usize {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u8(value: u8, alignment: u8) -> u8 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u16(value: u16, alignment: u16) -> u16 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u32(value: u32, alignment: u32) -> u32 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u64(value: u64, alignment: u64) -> u64 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u128(value: u128, alignment: u128) -> u128 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
\ No newline at end of file
-- 
2.43.0


From 4d68c9bd0c1a7c712d02e58bf085a405a7bb49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 02/39] fix: typed access to page bytes must not require an
 aligned address

A page is any byte slice; dereferencing a misaligned *mut T is undefined
behaviour and aborts in debug builds. The store also went through a pointer
derived from a shared reference.
---
 src/core/util.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index 46b1238..acef6d5 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -21,6 +21,7 @@
 // SOFTWARE.
 
 use std::mem;
+use std::ptr;
 use std::usize;
 use std::convert;
 use std::error;
@@ -157,9 +158,8 @@ pub fn set_value<T: Copy>(buffer: &mut [u8], offset: usize, value: T) {
     assert!(offset + mem::size_of::<T>() <= buffer.len());
 
     unsafe {
-        let pointer: *mut T =
-            mem::transmute(buffer[offset..].as_ptr());
-        *pointer = value
+        let pointer = buffer[offset..].as_mut_ptr() as *mut T;
+        ptr::write_unaligned(pointer, value)
     }
 }
 
@@ -167,8 +167,7 @@ pub fn get_value<T: Copy>(buffer: &[u8], offset: usize) -> T {
     assert!(offset + mem::size_of::<T>() <= buffer.len());
 
     unsafe {
-        let pointer: *const T =
-            mem::transmute(buffer[offset..].as_ptr());
-        *pointer
+        let pointer = buffer[offset..].as_ptr() as *const T;
+        ptr::read_unaligned(pointer)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 39efc39d0791b34d9b5168d00a76d35b3751f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 03/39] fix: adding an empty row to a full page must be refused

max_insert_row_size is 0 both when exactly an empty row fits and when not even
its offset value does; in the second case the offset value overwrote the last
row (16-byte page, alignment 4, one 8-byte row, then an empty one).
---
 src/core/nsm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 880fa3c..e6a6439 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -82,6 +82,9 @@ impl PageFormat {
             page.len()
         };
 
+        // an empty row takes no row space, but it still needs an offset value
+        assert!(mem::size_of::<Offset>() * (num_rows + 2) <= upper_bound - aligned_len);
+
         let row_offset = upper_bound - aligned_len;
         let padding = aligned_len - row.len();
         let index_value = (row_offset | padding) as Offset;
@@ -105,6 +108,10 @@ impl PageFormat {
             let delta = util::align(row.len(), self.row_alignment);
 
             let last_offset = self.aligned_row_offset(page, num_rows - 1);
+
+            // an empty row takes no row space, but it still needs an offset value
+            assert!(mem::size_of::<Offset>() * (num_rows + 2) <= last_offset - delta);
+
             let mut row_offset = if index > 0 {
                 self.aligned_row_offset(page, index - 1)
             } else {
-- 
2.43.0


From 566c4044bd7099f8e000bed49f2c1b08e0d24555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 04/39] fix: a default volume must use the default block size

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index cd8ef59..bdbccd7 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -200,7 +200,7 @@ pub struct VolumeParameters {
 
 impl VolumeParameters {
     pub fn new_with_defaults(volume_size: u64) -> VolumeParameters {
-        const LOG_BLOCK_SIZE: u64 = (32 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
+        const LOG_BLOCK_SIZE: u64 = (DEFAULT_VOLUME_BLOCK_SIZE as u32).trailing_zeros() as u64;
 
         let block_size = 1u64 << LOG_BLOCK_SIZE;
 
-- 
2.43.0


From f7a015ee446b7025802ad40dad13b94a47a422e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 05/39] fix: creating a buffer pool must not overflow at the
 first buffer

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index bdbccd7..a42bd42 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -812,7 +812,7 @@ impl BufferPool {
 
         // chain all buffers into a single list
         for index in 0 .. num_buffers {
-            buffers[index].link.prev = (index - 1) as BufferIndex;
+            buffers[index].link.prev = index.wrapping_sub(1) as BufferIndex;
             buffers[index].link.next = (index + 1) as BufferIndex;
         }
 
-- 
2.43.0


From 4a2a3b7eebee1ffd7681b61cd783f3f0bac6e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 06/39] fix: running out of volume identifiers must be an
 error, not an overflow

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a42bd42..51e3839 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -380,7 +380,7 @@ impl VolumeManager {
     // generate an internal identifier for the volume to create or attach
     fn next_volume(&mut self) -> errors::Result<VolumeIndex> {
         let current = self.next_volume;
-        let next = current.0 + 1;
+        let next = current.0.wrapping_add(1);
 
         if next < current.0 {
             Err("Cannot allocate more internal volume identifiers".into())
-- 
2.43.0


From a43052697295f2defacc0b24e6a13f078d08dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 07/39] Verification hook: reach private storage items (cfg
 cathlamet_verif)

---
 src/storage/mod.rs | 78 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 78 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 51e3839..8421470 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1284,3 +1284,81 @@ impl <'a> Drop for ReadWriteBufferHandle<'a> {
     }
 }
 
+// Access to private items for the verification harness; only built with --cfg cathlamet_verif
+#[cfg(cathlamet_verif)]
+pub mod verif {
+    use super::*;
+
+    pub use super::VolumeParameters;
+
+    pub fn align_usize(value: usize, alignment: usize) -> usize { utils::align_usize(value, alignment) }
+    pub fn align_u8(value: u8, alignment: u8) -> u8 { utils::align_u8(value, alignment) }
+    pub fn align_u16(value: u16, alignment: u16) -> u16 { utils::align_u16(value, alignment) }
+    pub fn align_u32(value: u32, alignment: u32) -> u32 { utils::align_u32(value, alignment) }
+    pub fn align_u64(value: u64, alignment: u64) -> u64 { utils::align_u64(value, alignment) }
+    pub fn align_u128(value: u128, alignment: u128) -> u128 { utils::align_u128(value, alignment) }
+    pub fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 { utils::calc_file_blocks(file_size, block_size) }
+
+    #[derive(Debug, Copy, Clone, Ord, Eq, PartialEq, PartialOrd)]
+    pub struct Loc(Location);
+
+    impl Loc {
+        pub fn new(volume: u8, offset: u64) -> Loc { Loc(Location::new(VolumeIndex(volume), offset)) }
+        pub fn index(&self) -> u8 { self.0.index().0 }
+        pub fn offset(&self) -> u64 { self.0.offset() }
+    }
+
+    pub const NIL: u32 = NIL_BUFFER_INDEX;
+
+    /// some lists over one set of buffers
+    pub struct Lists { buffers: Vec<Buffer>, heads: Vec<BufferListHead> }
+
+    impl Lists {
+        pub fn new(num_buffers: usize, num_lists: usize) -> Lists {
+            let mut buffers = Vec::new();
+            buffers.resize_with(num_buffers, Buffer::default);
+            let mut heads = Vec::new();
+            heads.resize_with(num_lists, BufferListHead::default);
+            Lists { buffers, heads }
+        }
+        pub fn pool(buffer_size: usize, num_buffers: usize) -> Lists {
+            let pool = BufferPool::new(buffer_size, num_buffers).expect("pool");
+            let mapping = async_std::task::block_on(pool.mapping.lock());
+            let mut lists = Lists::new(mapping.buffers.len(), 0);
+            for (i, b) in mapping.buffers.iter().enumerate() {
+                lists.buffers[i].link = BufferListLink { prev: b.link.prev, next: b.link.next };
+            }
+            for h in [&mapping.available_buffers, &mapping.in_use_buffers, &mapping.dirty_buffers].iter() {
+                lists.heads.push(BufferListHead { head: h.head, tail: h.tail });
+            }
+            lists
+        }
+        pub fn push_front(&mut self, list: usize, index: u32) { self.heads[list].list_push_front(&mut self.buffers, index) }
+        pub fn push_back(&mut self, list: usize, index: u32) { self.heads[list].list_push_back(&mut self.buffers, index) }
+        pub fn remove(&mut self, list: usize, index: u32) { self.heads[list].list_remove(&mut self.buffers, index) }
+        pub fn len(&self) -> usize { self.buffers.len() }
+        pub fn link(&self, index: usize) -> (u32, u32) { (self.buffers[index].link.prev, self.buffers[index].link.next) }
+        pub fn head(&self, list: usize) -> (u32, u32) { (self.heads[list].head, self.heads[list].tail) }
+        pub fn set_state(&mut self, index: usize, volume: u8, offset: u64, flags: u8) {
+            let b = &mut self.buffers[index];
+            b.location = Location::new(VolumeIndex(volume), offset);
+            b.mapped = flags & 1 != 0;
+            b.pinned = flags & 2 != 0;
+            b.dirty = flags & 4 != 0;
+            b.submitted = flags & 8 != 0;
+        }
+        pub fn state(&self, index: usize) -> (u8, u64, u8, bool) {
+            let b = &self.buffers[index];
+            let flags = b.mapped as u8 | (b.pinned as u8) << 1 | (b.dirty as u8) << 2 | (b.submitted as u8) << 3;
+            (b.location.index().0, b.location.offset(), flags, b.access.is_some())
+        }
+    }
+
+    /// volume numbers, as the volume manager hands them out
+    pub struct Volumes(VolumeManager);
+
+    impl Volumes {
+        pub fn new() -> Volumes { Volumes(VolumeManager::new(&BufferPool::new(4096, 1).expect("pool"))) }
+        pub fn next(&mut self) -> Option<u8> { self.0.next_volume().ok().map(|v| v.0) }
+    }
+}
-- 
2.43.0


From 88520d2029c9f0d7005b5914a2b0fbde6d457661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 08/39] fix: a path must be a proper prefix of its extensions

---
 src/core/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/types/mod.rs b/src/core/types/mod.rs
index e872c1a..b430081 100644
--- a/src/core/types/mod.rs
+++ b/src/core/types/mod.rs
@@ -189,7 +189,7 @@ impl Path {
     }
 
     pub fn is_proper_prefix_of(&self, other: &Path) -> bool {
-        if self.0.len() == self.0.len() {
+        if self.0.len() == other.0.len() {
             return false;
         } else {
             self.is_prefix_of(other)
-- 
2.43.0


From 78bef08a593439cdbe909a401b3b7423f23db8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 09/39] fix: read and write record fields through unaligned
 accessors

Records may start at any address; dereferencing a typed pointer into the
buffer is undefined behaviour (a panic in debug builds) when it is not
aligned for the field's type.
---
 src/core/marshaller.rs | 263 ++++++++++++++++-------------------------
 1 file changed, 103 insertions(+), 160 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 50675d4..f3fcaf6 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -416,11 +416,7 @@ impl Layout {
             match var_size_field.kind {
                 VariableSizeFieldKind::String => {
                     // extract the length
-                    let length = unsafe {
-                        let pointer: *const LengthEncodingType =
-                            mem::transmute(data[tag_field.offset..].as_ptr());
-                        *pointer
-                    };
+                    let length: LengthEncodingType = util::get_value(data, tag_field.offset);
 
                     // add to the offset
                     offset = offset + length as usize as usize;
@@ -435,31 +431,11 @@ impl Layout {
                                 num_bits,
                             } => {
                                 let case_value = match primitive {
-                                    types::Primitive::U128 => unsafe {
-                                        let pointer: *const u128 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U64 => unsafe {
-                                        let pointer: *const u64 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U32 => unsafe {
-                                        let pointer: *const u32 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U16 => unsafe {
-                                        let pointer: *const u16 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
-                                    types::Primitive::U8 => unsafe {
-                                        let pointer: *const u8 = 
-                                                mem::transmute(data[tag_field.offset ..].as_ptr());
-                                        *pointer as usize
-                                    },
+                                    types::Primitive::U128 => util::get_value::<u128>(data, tag_field.offset) as usize,
+                                    types::Primitive::U64 => util::get_value::<u64>(data, tag_field.offset) as usize,
+                                    types::Primitive::U32 => util::get_value::<u32>(data, tag_field.offset) as usize,
+                                    types::Primitive::U16 => util::get_value::<u16>(data, tag_field.offset) as usize,
+                                    types::Primitive::U8 => util::get_value::<u8>(data, tag_field.offset) as usize,
                                     _ => panic!("Unexpected primitive for storing bitfields"),
                                 };
 
@@ -531,11 +507,7 @@ impl Layout {
                     assert!(mem::size_of::<u32>() == mem::size_of::<LengthEncodingType>());
                     assert!(length <= u32::MAX as usize);
 
-                    unsafe {
-                        let pointer: *mut LengthEncodingType =
-                            mem::transmute(buffer[field.offset..].as_ptr());
-                        *pointer = length as LengthEncodingType;
-                    }
+                    util::set_value(buffer, field.offset, length as LengthEncodingType);
                 }
                 FixedSizeFieldKind::Bitfield {
                     primitive,
@@ -545,101 +517,97 @@ impl Layout {
                     let case_tag = source.get_case_tag(&field.path);
 
                     match primitive {
-                        types::Primitive::U8 => unsafe {
+                        types::Primitive::U8 => {
                             let mask = ((1u8 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u8) << bit_offset) & mask);
-                        },
-                        types::Primitive::U16 => unsafe {
+                            let bits: u8 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (bits & !mask) | (((case_tag as u8) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U16 => {
                             let mask = ((1u16 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u16) << bit_offset) & mask);
-                        },
-                        types::Primitive::U32 => unsafe {
+                            let bits: u16 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (bits & !mask) | (((case_tag as u16) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U32 => {
                             let mask = ((1u32 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u32) << bit_offset) & mask);
-                        },
-                        types::Primitive::U64 => unsafe {
+                            let bits: u32 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (bits & !mask) | (((case_tag as u32) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U64 => {
                             let mask = ((1u64 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u64) << bit_offset) & mask);
-                        },
-                        types::Primitive::U128 => unsafe {
+                            let bits: u64 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (bits & !mask) | (((case_tag as u64) << bit_offset) & mask),
+                            );
+                        }
+                        types::Primitive::U128 => {
                             let mask = ((1u128 << num_bits) - 1) << bit_offset;
-                            let pointer: *mut u128 =
-                                mem::transmute(buffer[field.offset..].as_ptr());
-                            *pointer =
-                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) & mask);
-                        },
+                            let bits: u128 = util::get_value(buffer, field.offset);
+                            util::set_value(
+                                buffer,
+                                field.offset,
+                                (bits & !mask) | (((case_tag as u128) << bit_offset) & mask),
+                            );
+                        }
                         _ => panic!("Invalid bitfield primitive type"),
                     }
                 }
                 FixedSizeFieldKind::Primitve(primitive) => match primitive {
-                    types::Primitive::Bool => unsafe {
-                        *mem::transmute::<*mut u8, *mut bool>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_bool(&field.path);
-                    },
-                    types::Primitive::Char => unsafe {
-                        *mem::transmute::<*mut u8, *mut char>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_char(&field.path);
-                    },
-                    types::Primitive::F32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f32(&field.path);
-                    },
-                    types::Primitive::F64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut f64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_f64(&field.path);
-                    },
-                    types::Primitive::U8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u8(&field.path);
-                    },
-                    types::Primitive::U16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u16(&field.path);
-                    },
-                    types::Primitive::U32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u32(&field.path);
-                    },
-                    types::Primitive::U64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_u64(&field.path);
-                    },
-                    types::Primitive::U128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut u128>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_u128(&field.path);
-                    },
-                    types::Primitive::I8 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i8>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i8(&field.path);
-                    },
-                    types::Primitive::I16 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i16>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i16(&field.path);
-                    },
-                    types::Primitive::I32 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i32>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i32(&field.path);
-                    },
-                    types::Primitive::I64 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i64>(buffer[field.offset..].as_mut_ptr()) =
-                            source.get_i64(&field.path);
-                    },
-                    types::Primitive::I128 => unsafe {
-                        *mem::transmute::<*mut u8, *mut i128>(
-                            buffer[field.offset..].as_mut_ptr(),
-                        ) = source.get_i128(&field.path);
-                    },
+                    types::Primitive::Bool => {
+                        util::set_value(buffer, field.offset, source.get_bool(&field.path));
+                    }
+                    types::Primitive::Char => {
+                        util::set_value(buffer, field.offset, source.get_char(&field.path));
+                    }
+                    types::Primitive::F32 => {
+                        util::set_value(buffer, field.offset, source.get_f32(&field.path));
+                    }
+                    types::Primitive::F64 => {
+                        util::set_value(buffer, field.offset, source.get_f64(&field.path));
+                    }
+                    types::Primitive::U8 => {
+                        util::set_value(buffer, field.offset, source.get_u8(&field.path));
+                    }
+                    types::Primitive::U16 => {
+                        util::set_value(buffer, field.offset, source.get_u16(&field.path));
+                    }
+                    types::Primitive::U32 => {
+                        util::set_value(buffer, field.offset, source.get_u32(&field.path));
+                    }
+                    types::Primitive::U64 => {
+                        util::set_value(buffer, field.offset, source.get_u64(&field.path));
+                    }
+                    types::Primitive::U128 => {
+                        util::set_value(buffer, field.offset, source.get_u128(&field.path));
+                    }
+                    types::Primitive::I8 => {
+                        util::set_value(buffer, field.offset, source.get_i8(&field.path));
+                    }
+                    types::Primitive::I16 => {
+                        util::set_value(buffer, field.offset, source.get_i16(&field.path));
+                    }
+                    types::Primitive::I32 => {
+                        util::set_value(buffer, field.offset, source.get_i32(&field.path));
+                    }
+                    types::Primitive::I64 => {
+                        util::set_value(buffer, field.offset, source.get_i64(&field.path));
+                    }
+                    types::Primitive::I128 => {
+                        util::set_value(buffer, field.offset, source.get_i128(&field.path));
+                    }
                 },
                 _ => panic!("Invalid field type"),
             }
@@ -719,10 +687,9 @@ impl Marshaller {
                     let field =
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
-                        FixedSizeFieldKind::Primitve(prim) if prim == primitive => unsafe {
-                            let pointer: *const T = mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer;
-                        },
+                        FixedSizeFieldKind::Primitve(prim) if prim == primitive => {
+                            return util::get_value(data, field.offset);
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
@@ -763,11 +730,9 @@ impl Marshaller {
                     let offset = layout.variable_field_offset(var_size_field_index, data);
 
                     let length = match field.kind {
-                        FixedSizeFieldKind::Length => unsafe {
-                            let pointer: *const LengthEncodingType =
-                                mem::transmute(data[field.offset..].as_ptr());
-                            *pointer as usize
-                        },
+                        FixedSizeFieldKind::Length => {
+                            util::get_value::<LengthEncodingType>(data, field.offset) as usize
+                        }
                         _ => panic!("Incorrect field type"),
                     };
 
@@ -823,31 +788,11 @@ impl Marshaller {
                             num_bits,
                         } => {
                             let case_value = match primitive {
-                                types::Primitive::U128 => unsafe {
-                                    let pointer: *const u128 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U64 => unsafe {
-                                    let pointer: *const u64 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U32 => unsafe {
-                                    let pointer: *const u32 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U16 => unsafe {
-                                    let pointer: *const u16 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
-                                types::Primitive::U8 => unsafe {
-                                    let pointer: *const u8 =
-                                        mem::transmute(data[tag_field.offset..].as_ptr());
-                                    *pointer as usize
-                                },
+                                types::Primitive::U128 => util::get_value::<u128>(data, tag_field.offset) as usize,
+                                types::Primitive::U64 => util::get_value::<u64>(data, tag_field.offset) as usize,
+                                types::Primitive::U32 => util::get_value::<u32>(data, tag_field.offset) as usize,
+                                types::Primitive::U16 => util::get_value::<u16>(data, tag_field.offset) as usize,
+                                types::Primitive::U8 => util::get_value::<u8>(data, tag_field.offset) as usize,
                                 _ => panic!("Unexpected primitive for storing bitfields"),
                             };
 
@@ -892,11 +837,9 @@ impl Marshaller {
                     let field =
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
-                        FixedSizeFieldKind::Length => unsafe {
-                            let pointer: *const LengthEncodingType =
-                                mem::transmute(data[field.offset..].as_ptr());
-                            return *pointer as usize;
-                        },
+                        FixedSizeFieldKind::Length => {
+                            return util::get_value::<LengthEncodingType>(data, field.offset) as usize;
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
-- 
2.43.0


From 453d709bf5ef269f7d5fdee671e2a965acbbb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 10/39] fix: bound the copies of string bytes by the record
 buffer

Encoding a string into a buffer that is too short wrote past its end, and
reading one back could reach past the end of the data.
---
 src/core/marshaller.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index f3fcaf6..a02b866 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -23,7 +23,6 @@
 use std::cmp;
 use std::collections;
 use std::mem;
-use std::slice;
 use std::sync;
 use std::u32;
 
@@ -638,13 +637,9 @@ fn copy_bytes<D>(buffer: &mut [u8], path: &Path, length: usize, source: &D)
 where
     D: data_source::DataSource,
 {
-    unsafe {
-        let data: &[u8] = source.get_bytes(path);
-        assert!(length == data.len());
-        let base: *mut u8 = mem::transmute(buffer.as_mut_ptr());
-        let target = slice::from_raw_parts_mut(base, length);
-        target.copy_from_slice(data);
-    }
+    let data: &[u8] = source.get_bytes(path);
+    assert!(length == data.len());
+    buffer[..length].copy_from_slice(data);
 }
 
 pub struct Marshaller {
@@ -739,10 +734,9 @@ impl Marshaller {
                     // need to create a slice of the appropriate type with the appropriat enumber
                     // of elements
                     match &layout.var_size_fields[var_size_field_index].kind {
-                        VariableSizeFieldKind::String => unsafe {
-                            let base = data[offset..].as_ptr();
-                            return slice::from_raw_parts(mem::transmute(base), length);
-                        },
+                        VariableSizeFieldKind::String => {
+                            return &data[offset..offset + length];
+                        }
                         _ => panic!("Incorrect field type"),
                     }
                 }
-- 
2.43.0


From 8488d34483ce9232a290a3504060257208bb00ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 11/39] fix: store enum case tags that fill their bit field
 container

An enum with 129 to 256 cases (or as many as fit any other container
exactly) overflowed the shift that builds the mask, as did a one-case enum
placed behind a full container.
---
 src/core/marshaller.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index a02b866..8645126 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -438,7 +438,7 @@ impl Layout {
                                     _ => panic!("Unexpected primitive for storing bitfields"),
                                 };
 
-                                (case_value >> bit_offset) & ((1usize << num_bits) - 1)
+                                ((case_value as u128 >> bit_offset) & ((1u128 << num_bits) - 1)) as usize
                             }
                             _ => panic!("Bitfiled expected as enum case tag value"),
                         }
@@ -517,39 +517,39 @@ impl Layout {
 
                     match primitive {
                         types::Primitive::U8 => {
-                            let mask = ((1u8 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u8;
                             let bits: u8 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
                                 field.offset,
-                                (bits & !mask) | (((case_tag as u8) << bit_offset) & mask),
+                                (bits & !mask) | (((case_tag as u128) << bit_offset) as u8 & mask),
                             );
                         }
                         types::Primitive::U16 => {
-                            let mask = ((1u16 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u16;
                             let bits: u16 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
                                 field.offset,
-                                (bits & !mask) | (((case_tag as u16) << bit_offset) & mask),
+                                (bits & !mask) | (((case_tag as u128) << bit_offset) as u16 & mask),
                             );
                         }
                         types::Primitive::U32 => {
-                            let mask = ((1u32 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u32;
                             let bits: u32 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
                                 field.offset,
-                                (bits & !mask) | (((case_tag as u32) << bit_offset) & mask),
+                                (bits & !mask) | (((case_tag as u128) << bit_offset) as u32 & mask),
                             );
                         }
                         types::Primitive::U64 => {
-                            let mask = ((1u64 << num_bits) - 1) << bit_offset;
+                            let mask = (((1u128 << num_bits) - 1) << bit_offset) as u64;
                             let bits: u64 = util::get_value(buffer, field.offset);
                             util::set_value(
                                 buffer,
                                 field.offset,
-                                (bits & !mask) | (((case_tag as u64) << bit_offset) & mask),
+                                (bits & !mask) | (((case_tag as u128) << bit_offset) as u64 & mask),
                             );
                         }
                         types::Primitive::U128 => {
@@ -790,7 +790,7 @@ impl Marshaller {
                                 _ => panic!("Unexpected primitive for storing bitfields"),
                             };
 
-                            return (case_value >> bit_offset) & ((1usize << num_bits) - 1);
+                            return ((case_value as u128 >> bit_offset) & ((1u128 << num_bits) - 1)) as usize;
                         }
                         _ => panic!("Bitfiled expected as enum case tag value"),
                     }
-- 
2.43.0


From 7b9fc2f9cc8503a466887492c9573b4feb665e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:28 +0000
Subject: [PATCH 12/39] Verification hook: record layouts as plain data (cfg
 cathlamet_verif)

---
 src/core/marshaller.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 8645126..ab47fac 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -912,6 +912,46 @@ impl<'a, 'b> data_source::DataSource for MarshallerDataSource<'a, 'b> {
     }
 }
 
+/// Verification hook: the private parts of a layout, as plain data
+#[cfg(cathlamet_verif)]
+pub mod verif {
+    use super::*;
+
+    /// path, bit offset of the container, bits of the container, first bit in it, number of bits
+    pub fn spots(layout: &Layout) -> Vec<(Vec<usize>, usize, usize, usize, usize)> {
+        layout
+            .fixed_size_fields
+            .iter()
+            .map(|f| {
+                let size = f.encoding_size() * 8;
+                let (bit, bits) = match f.kind {
+                    FixedSizeFieldKind::Bitfield { bit_offset, num_bits, .. } => (bit_offset as usize, num_bits as usize),
+                    _ => (0, size),
+                };
+                (f.path.path().to_vec(), f.offset * 8, size, bit, bits)
+            })
+            .collect()
+    }
+
+    pub fn cases(layout: &Layout) -> Vec<&Layout> {
+        let mut result = Vec::new();
+        for f in &layout.var_size_fields {
+            if let VariableSizeFieldKind::Enum { ref cases } = f.kind {
+                result.extend(cases.iter());
+            }
+        }
+        result
+    }
+
+    pub fn fixed_size(layout: &Layout) -> usize {
+        layout.var_field_offset
+    }
+
+    pub fn encoding_size(layout: &Layout, data: &[u8]) -> usize {
+        layout.encoding_size(data)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 73ec9c9b053c0264c635a5a4474657a25a8190f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 13/39] fix: escape control characters as JSON requires

NUL was written as \0, which is no JSON escape, and control characters
whose low nibble is above 9 got characters outside 0-9a-f.
---
 src/core/json/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 2529cf4..99f890f 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -30,13 +30,14 @@ use super::super::types::Path;
 
 // JSON Encoder and Decoder
 
+const HEX_DIGITS: [u8; 16] = *b"0123456789abcdef";
+
 fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     let mut buffer: [u8; 6] = [0; 6];
 
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\0' => writer.write("\\0".as_bytes())?,
         '\\' => writer.write("\\\\".as_bytes())?,
         '/' => writer.write("\\/".as_bytes())?,
         '\"' => writer.write("\\\"".as_bytes())?,
@@ -50,8 +51,8 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[1] = 'u' as u8;
             buffer[2] = '0' as u8;
             buffer[3] = '0' as u8;
-            buffer[4] = ('0' as u8) + (b0 as u8 >> 4);
-            buffer[5] = ('0' as u8) + (b0 as u8 & 0xfu8);
+            buffer[4] = HEX_DIGITS[(b0 as u8 >> 4) as usize];
+            buffer[5] = HEX_DIGITS[(b0 as u8 & 0xfu8) as usize];
             writer.write(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
-- 
2.43.0


From 7a49676dd289578ad01e3f0e8f45fb9009c6b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 14/39] fix: write U+8000 to U+FFFF in three bytes

They were written as overlong four-byte sequences, which are not UTF-8.
---
 src/core/json/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 99f890f..e0a6e4d 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -64,7 +64,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
             writer.write(&buffer[..2])?
         }
-        b3 if value as u32 >= 0x800 && value as u32 <= 0x7fff => {
+        b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-- 
2.43.0


From 46df11db7b1935bf074a82e73a45c5290f091ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 15/39] fix: write all bytes of a character

io::Write::write may write less than it is given.
---
 src/core/json/encoder.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index e0a6e4d..f247832 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -38,14 +38,14 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\\' => writer.write("\\\\".as_bytes())?,
-        '/' => writer.write("\\/".as_bytes())?,
-        '\"' => writer.write("\\\"".as_bytes())?,
-        '\u{8}' => writer.write("\\b".as_bytes())?,
-        '\u{c}' => writer.write("\\f".as_bytes())?,
-        '\n' => writer.write("\\n".as_bytes())?,
-        '\r' => writer.write("\\r".as_bytes())?,
-        '\t' => writer.write("\\t".as_bytes())?,
+        '\\' => writer.write_all("\\\\".as_bytes())?,
+        '/' => writer.write_all("\\/".as_bytes())?,
+        '\"' => writer.write_all("\\\"".as_bytes())?,
+        '\u{8}' => writer.write_all("\\b".as_bytes())?,
+        '\u{c}' => writer.write_all("\\f".as_bytes())?,
+        '\n' => writer.write_all("\\n".as_bytes())?,
+        '\r' => writer.write_all("\\r".as_bytes())?,
+        '\t' => writer.write_all("\\t".as_bytes())?,
         b0 if 0x1f >= value as u32 => {
             buffer[0] = '\\' as u8;
             buffer[1] = 'u' as u8;
@@ -53,29 +53,29 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[3] = '0' as u8;
             buffer[4] = HEX_DIGITS[(b0 as u8 >> 4) as usize];
             buffer[5] = HEX_DIGITS[(b0 as u8 & 0xfu8) as usize];
-            writer.write(&buffer[..6])?
+            writer.write_all(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
             buffer[0] = b1 as u8;
-            writer.write(&buffer[..1])?
+            writer.write_all(&buffer[..1])?
         }
         b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff => {
             buffer[1] = (b2 as u8) & 0x3fu8 | 0x80u8;
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
-            writer.write(&buffer[..2])?
+            writer.write_all(&buffer[..2])?
         }
         b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-            writer.write(&buffer[..3])?
+            writer.write_all(&buffer[..3])?
         }
         b4 => {
             buffer[3] = (b4 as u8) & 0x3fu8 | 0x80u8;
             buffer[2] = (b4 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[1] = (b4 as u32 >> 12) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8;
-            writer.write(&buffer[..4])?
+            writer.write_all(&buffer[..4])?
         }
     };
     Ok(())
-- 
2.43.0


From 28e9611d7ddeacc2a4c6bf86ac44d495c51eb777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:38 +0000
Subject: [PATCH 16/39] fix: refuse Unicode escapes without four hexadecimal
 digits

---
 src/core/json/tokenizer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 42bbf1f..1bcc446 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -248,6 +248,10 @@ impl<'a> Tokenizer<'a> {
                             if let Some(digit) = ch.to_digit(16) {
                                 char_code = char_code * 16 + digit;
                                 self.advance();
+                            } else {
+                                return Err(String::from(
+                                    "Invalid Unicode escape sequence in string value",
+                                ));
                             }
                         }
                         _ => {
-- 
2.43.0


From b45602c542e546e4e40e83dab31394281fa4c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 17/39] fix: refuse surrogate escapes instead of crashing on
 them

---
 src/core/json/tokenizer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 1bcc446..a20fe18 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -262,9 +262,16 @@ impl<'a> Tokenizer<'a> {
                     }
                 }
 
-                // 16 bit should be the safe range for Unicode characters
-                self.string_buffer.push(char::from_u32(char_code).unwrap());
-                Ok(())
+                // surrogates are the only 16 bit values that are not characters
+                match char::from_u32(char_code) {
+                    Some(ch) => {
+                        self.string_buffer.push(ch);
+                        Ok(())
+                    }
+                    None => Err(String::from(
+                        "Invalid Unicode escape sequence in string value",
+                    )),
+                }
             }
             _ => Err(String::from("Invalid escape sequence in string value")),
         }
-- 
2.43.0


From 8954d45392c55e1dc2d211b8eb661bd1342feb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 18/39] fix: refuse numbers without digits after the decimal
 point

---
 src/core/json/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index a20fe18..4aea9c5 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -338,7 +338,11 @@ impl<'a> Tokenizer<'a> {
         // check for fractional part
         if let Some((_, '.')) = self.look_ahead {
             self.advance();
-            self.digits();
+
+            match self.look_ahead {
+                Some((_, ch)) if ch.is_digit(10) => self.digits(),
+                _ => return Err(String::from("Invalid fraction format for number")),
+            }
         }
 
         // check for exponent part
-- 
2.43.0


From 037525ebe0300f23947f9cafc02c4b45ea3f3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:41 +0000
Subject: [PATCH 19/39] fix: read structs of 64 fields

The shift building the set of their fields overflowed.
---
 src/core/json/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 2fb4f76..8f0a3ba 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -64,7 +64,11 @@ trait BitSet {
 impl BitSet for u64 {
     fn new_with_elements(n: usize) -> Self {
         assert!(n <= 64);
-        (1u64 << n) - 1
+        if n == 64 {
+            u64::MAX
+        } else {
+            (1u64 << n) - 1
+        }
     }
 
     fn clear_element(&mut self, index: usize) {
-- 
2.43.0


From 9071b83b94cabda4113745fb884e43a603ed1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 20/39] fix: refuse text after the end of a JSON document

---
 src/core/json/decoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 8f0a3ba..57e9658 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -537,7 +537,13 @@ impl JsonDecoder {
     ) -> Result<(), String> {
         let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         result.clear();
-        self.parser.parse(&mut tokenizer, result)
+        self.parser.parse(&mut tokenizer, result)?;
+
+        if tokenizer.token == tokenizer::Token::Eof {
+            Ok(())
+        } else {
+            Err(String::from("Unexpected text after the end of the document"))
+        }
     }
 }
 
-- 
2.43.0


From ab8d3280bf802900cb6b4adc85bb358e64f863e4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 21/39] verif hook: SQL type checking, catalog and names (cfg
 cathlamet_verif)

---
 src/sql/ast/typing.rs | 59 +++++++++++++++++++++++++++++++++++++++++++
 src/sql/mod.rs        | 10 ++++++++
 2 files changed, 69 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 024684f..efee8ba 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1618,3 +1618,62 @@ impl CommonTableExpression {
         }
     }
 }
+
+/// Verification hook: type checking, with the private parts as plain data
+#[cfg(cathlamet_verif)]
+pub mod verif {
+    use super::*;
+
+    /// name, type and whether it may be null
+    pub type Columns = Vec<(symbols::Name, types::DataType, bool)>;
+
+    pub fn is_compatible(left: &ScalarType, right: &ScalarType) -> Result<bool, Error> {
+        left.is_compatible(right)
+    }
+
+    pub fn unify(left: &ScalarType, right: &ScalarType) -> Result<ScalarType, Error> {
+        left.unify(right)
+    }
+
+    pub fn is_assignable(from: (types::DataType, bool), to: (types::DataType, bool)) -> bool {
+        let attribute = |(typ, is_null)| Attribute { name: symbols::Name::from("a"), typ, is_null };
+        attribute(from).is_assignable_to(&attribute(to))
+    }
+
+    fn attributes(columns: Columns) -> Vec<Attribute> {
+        columns.into_iter().map(|(name, typ, is_null)| Attribute { name, typ, is_null }).collect()
+    }
+
+    /// the type of an expression over some relations; the outer error is that of adding them
+    pub fn infer(
+        expr: &Expression,
+        database: &schema::Database,
+        default_schema: &symbols::Name,
+        relations: &[(symbols::Name, Columns)],
+    ) -> Result<Result<ScalarType, Error>, Error> {
+        let set_context = SetContext::new(database, default_schema.clone());
+        let mut context = ScalarContext::new(&set_context);
+        for (name, columns) in relations {
+            context.add_relation(name.clone(), attributes(columns.clone()))?;
+        }
+        Ok(expr.infer_type(&context))
+    }
+
+    pub fn infer_rows(
+        expr: &SetExpression,
+        database: &schema::Database,
+        default_schema: &symbols::Name,
+    ) -> Result<Columns, Error> {
+        let set_context = SetContext::new(database, default_schema.clone());
+        let row_type = expr.infer_type(&set_context)?;
+        Ok(row_type.attributes.into_iter().map(|a| (a.name, a.typ, a.is_null)).collect())
+    }
+
+    pub fn check(
+        statement: &Statement,
+        database: &schema::Database,
+        default_schema: &symbols::Name,
+    ) -> Result<(), Error> {
+        statement.validate_type(&SetContext::new(database, default_schema.clone()))
+    }
+}
diff --git a/src/sql/mod.rs b/src/sql/mod.rs
index 443a2d3..ed483b6 100644
--- a/src/sql/mod.rs
+++ b/src/sql/mod.rs
@@ -84,3 +84,13 @@ impl<'a> From<&'a str> for Error {
         }
     }
 }
+
+/// Verification hook: the parts of the front end
+#[cfg(cathlamet_verif)]
+pub mod verif {
+    pub mod ast { pub use super::super::ast::*; }
+    pub mod parser { pub use super::super::parser::*; }
+    pub mod schema { pub use super::super::schema::*; }
+    pub mod symbols { pub use super::super::symbols::*; }
+    pub mod types { pub use super::super::types::*; }
+}
-- 
2.43.0


From 7ab13957b2bc5ba5d98dd38d467940ae8771640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 22/39] fix: comparing tuples may give NULL when any component
 may be NULL

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index efee8ba..d726dc4 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -67,7 +67,7 @@ impl ScalarType {
                         } else if item_result.is_err() {
                             item_result
                         } else {
-                            Ok(result.unwrap() & item_result.unwrap())
+                            Ok(result.unwrap() | item_result.unwrap())
                         }
                     })
             }
-- 
2.43.0


From ba76bbe01f96405534ff1562bef65d589aa3ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 23/39] fix: a null test is a logical value that is never NULL

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index d726dc4..a2331e8 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -287,7 +287,10 @@ impl Expression {
                         }
                     }
                     &UnaryOperator::IsNull => match expr_type {
-                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(expr_type.clone()),
+                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        }),
                         _ => Err(Error::from(
                             "Null test operation can only be applied to scalar type",
                         )),
-- 
2.43.0


From 06a238c6332c51cdcac452f628bf6f6777df209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 24/39] fix: refuse CASE expressions with ill-typed guards

---
 src/sql/ast/typing.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index a2331e8..f051474 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -495,7 +495,7 @@ impl Expression {
                 ref else_part,
             } => {
                 // All when part clauses must have a guard that evaluates to a logical value
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
                     match guard_type {
@@ -505,7 +505,7 @@ impl Expression {
                         } => Ok(()),
                         _ => Err(Error::from("Case guard must evaluate to a logical type")),
                     }
-                });
+                })?;
 
                 // All when part clauses must have a body that evaluates to the same type
                 assert!(when_part.len() >= 1);
@@ -559,17 +559,12 @@ impl Expression {
                 let expr_type = expr.infer_type(&context)?;
 
                 // All when part clauses must have a guard that evaluates to the same type as expr
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
-                    if guard_type.is_compatible(&expr_type)? {
-                        Ok(())
-                    } else {
-                        Err(Error::from(
-                            "Guard expression is incompatible with CASE expression",
-                        ))
-                    }
-                });
+                    guard_type.is_compatible(&expr_type)?;
+                    Ok(())
+                })?;
 
                 // All when part clauses must have a body that evalujates to the same type
                 assert!(when_part.len() >= 1);
-- 
2.43.0


From 6c161e2d875387f9650d8e4fd9ee6ce9154e5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 25/39] fix: refuse CASE without clauses or with a tuple result
 instead of panicking

---
 src/sql/ast/typing.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index f051474..9fbba63 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -508,7 +508,9 @@ impl Expression {
                 })?;
 
                 // All when part clauses must have a body that evaluates to the same type
-                assert!(when_part.len() >= 1);
+                if when_part.is_empty() {
+                    return Err(Error::from("CASE needs at least one WHEN clause"));
+                }
                 let mut iter = when_part.iter();
                 let result_init_type = iter.next().unwrap().body.infer_type(&context)?;
                 let result_type = fold_err(result_init_type, iter, |typ, ref clause| {
@@ -545,7 +547,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
@@ -567,7 +571,9 @@ impl Expression {
                 })?;
 
                 // All when part clauses must have a body that evalujates to the same type
-                assert!(when_part.len() >= 1);
+                if when_part.is_empty() {
+                    return Err(Error::from("CASE needs at least one WHEN clause"));
+                }
                 let mut iter = when_part.iter();
                 let result_init_type = iter.next().unwrap().body.infer_type(&context)?;
                 let result_type = fold_err(result_init_type, iter, |typ, ref clause| {
@@ -604,7 +610,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    _ => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
-- 
2.43.0


From 03a2ae1bda8c4c5537c3caa6ab47bfa01648197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 26/39] fix: accept IN over values that may not be NULL

---
 src/sql/ast/typing.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 9fbba63..c745641 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -627,17 +627,14 @@ impl Expression {
                     ));
                 }
 
-                if expr_type.is_compatible(&ScalarType::Scalar {
+                let is_null = expr_type.is_compatible(&ScalarType::Scalar {
                     typ: set_type.attributes[0].typ,
                     is_null: set_type.attributes[0].is_null,
-                })? {
-                    Ok(ScalarType::Scalar {
-                        typ: types::DataType::Logical,
-                        is_null: false,
-                    })
-                } else {
-                    Err(Error::from("Incompatible types for IN expression"))
-                }
+                })?;
+                Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null,
+                })
             }
 
             // nested select statement
-- 
2.43.0


From 8d8ee31e72c4df23f5199d3e5825ccf7fa452efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 27/39] fix: refuse an empty IN list instead of panicking

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index c745641..94d96af 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1264,7 +1264,10 @@ impl SetSpecification {
             }
             &SetSpecification::List(ref values) => {
                 let mut iter = values.iter();
-                let initial_type = iter.next().unwrap().infer_type(&context);
+                let initial_type = match iter.next() {
+                    Some(expr) => expr.infer_type(&context),
+                    None => Err(Error::from("List for IN expression is empty")),
+                };
                 let value_type = iter.fold(initial_type, |typ, expr| {
                     let expr_type = expr.infer_type(&context)?;
                     typ?.unify(&expr_type)
-- 
2.43.0


From cb9abc891128047034330f7ea7754747e7546949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 28/39] fix: report a missing default schema instead of
 panicking

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 94d96af..3850f5f 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -870,7 +870,7 @@ impl SetContext {
 
                 // look for the table name within the default schema
                 match self.namespaces.0.get(&self.default_namespace) {
-                    None => panic!("Default namespace not present in database"),
+                    None => Err(Error::from("Default namespace not present in database")),
                     Some(ref namespace) => namespace.0.get(&qualified_name[0]).ok_or(Error::from(
                         format!("Table name {} not found in schema", qualified_name[0]),
                     )),
-- 
2.43.0


From 85585a32db3d853f8e6c340849e8f791cc14ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 29/39] fix: refuse VALUES with no rows or rows of different
 lengths

---
 src/sql/ast/typing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 3850f5f..fce5a6d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -930,7 +930,9 @@ impl SetExpression {
         match self {
             &SetExpression::Values(ref rows) => {
                 let scalar_context = ScalarContext::new(context);
-                assert!(rows.len() >= 1);
+                if rows.is_empty() {
+                    return Err(Error::from("VALUES needs at least one row"));
+                }
                 let (component_types, _) =
                     fold_err((Vec::new(), 0), rows[0].iter(), |(mut vec, count), expr| {
                         let name = symbols::Name::from(format!("_col{}", count));
@@ -950,6 +952,10 @@ impl SetExpression {
                 // Validate other rows and unify into the result type
                 let component_types =
                     fold_err(component_types, (&rows[1..]).iter(), |types, vals| {
+                        if types.len() != vals.len() {
+                            return Err(Error::from("Rows of VALUES have different lengths"));
+                        }
+
                         fold_err(
                             Vec::new(),
                             types.iter().zip(vals.iter()),
-- 
2.43.0


From 7ec3ca4e1ecfe0db94042c424325894473c86bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 30/39] fix: refuse set operations over different numbers of
 columns

---
 src/sql/ast/typing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index fce5a6d..cb8588d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1062,6 +1062,12 @@ impl SetExpression {
                 let left_type = left.infer_type(context)?;
                 let right_type = right.infer_type(context)?;
 
+                if left_type.attributes.len() != right_type.attributes.len() {
+                    return Err(Error::from(
+                        "Operands of set operation have different numbers of columns",
+                    ));
+                }
+
                 // unify columns by position
                 let attributes = fold_err(
                     Vec::new(),
-- 
2.43.0


From cc5331303522e68b2d545883ae84172dab58320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 31/39] fix: INSERT without a column list assigns values by
 position

---
 src/sql/ast/typing.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index cb8588d..0bba0c0 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1391,27 +1391,34 @@ impl InsertStatement {
 
         match &self.columns {
             &None => {
+                if values_type.attributes.len() > row_type.attributes.len() {
+                    return Err(Error::from(format!(
+                        "More values than columns in table '{:?}'",
+                        &self.table_name
+                    )));
+                }
+
                 // iterate over the value attriute types, and verify that the
                 // associated type can be assigned to the corresponding column of the table row
-                for ref attribute in &values_type.attributes {
-                    match &row_type_map.get(&attribute.name) {
+                for (ref attribute, column) in values_type.attributes.iter().zip(row_type.attributes.iter()) {
+                    match &row_type_map.get(&column.name) {
                         &None => {
                             return Err(Error::from(format!(
                                 "Column '{}' not defined in table '{:?}'",
-                                &attribute.name, &self.table_name
+                                &column.name, &self.table_name
                             )))
                         }
                         &Some(&(ref typ, ref is_null)) => {
                             if *typ != attribute.typ || (!*is_null && attribute.is_null) {
                                 return Err(Error::from(format!(
                                     "Cannot assign value '{}' to column '{}'",
-                                    attribute.name, attribute.name
+                                    attribute.name, column.name
                                 )));
                             }
                         }
                     }
 
-                    row_type_map.remove(&attribute.name);
+                    row_type_map.remove(&column.name);
                 }
             }
             &Some(ref columns) => {
-- 
2.43.0


From 13655d72b5f1c612157b16eaebf9e340c73dcd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 32/39] fix: type check the ON condition of joins

---
 src/sql/ast/typing.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 0bba0c0..032d6ea 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1250,11 +1250,26 @@ impl TableExpression {
                 ref left,
                 ref right,
                 op: _,
-                constraint: _,
+                ref constraint,
             } => {
                 let (left_context, mut attributes) = left.infer_type(context)?;
                 let (result_context, mut right_attributes) = right.infer_type(left_context)?;
 
+                match constraint {
+                    &JoinConstraint::Expr(ref expr) => match expr.infer_type(&result_context)? {
+                        ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: _,
+                        } => (),
+                        _ => {
+                            return Err(Error::from(
+                                "ON clause must evaluate to a BOOLEAN predicate",
+                            ))
+                        }
+                    },
+                    &JoinConstraint::Columns(_) => (),
+                };
+
                 attributes.append(&mut right_attributes);
                 Ok((result_context, attributes))
             }
-- 
2.43.0


From a282f4e81145b332c27cfd4e5e8dc89751a2dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 33/39] fix: make the columns of a nested SELECT in FROM
 available under its alias

---
 src/sql/ast/typing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 032d6ea..cd1568a 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1241,9 +1241,15 @@ impl TableExpression {
             }
             &TableExpression::Select {
                 ref select,
-                alias: _,
+                ref alias,
             } => {
                 let row_type = select.infer_type(&context.set_context)?;
+
+                // the columns of a nested select statement are known under its alias
+                if let &Some(ref id) = alias {
+                    context.add_relation(id.clone(), row_type.attributes.clone())?;
+                }
+
                 Ok((context, row_type.attributes))
             }
             &TableExpression::Join {
-- 
2.43.0


From fad9cf0a7317d4b475f0314f680e2612500afc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 34/39] fix: generated column names could repeat a name already
 taken

---
 src/sql/ast/typing.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index cd1568a..72c6587 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1109,21 +1109,16 @@ fn generate_column_name(
     name: &symbols::Name,
     generated_names: &mut collections::BTreeMap<symbols::Name, usize>,
 ) -> symbols::Name {
-    if generated_names.contains_key(name) {
-        let result = {
-            let counter = generated_names.entry(name.clone()).or_insert(0usize);
-            *counter += 1;
-            symbols::Name::from(format!("{}{}", name, *counter))
-        };
+    let mut result = name.clone();
 
-        generated_names.insert(result.clone(), 0usize);
-        result
-    } else {
-        // first time we see the key
-        let result = name.clone();
-        generated_names.insert(result.clone(), 0usize);
-        result
+    while generated_names.contains_key(&result) {
+        let counter = generated_names.entry(name.clone()).or_insert(0usize);
+        *counter += 1;
+        result = symbols::Name::from(format!("{}{}", name, *counter));
     }
+
+    generated_names.insert(result.clone(), 0usize);
+    result
 }
 
 impl ResultColumns {
-- 
2.43.0


From bb3a121625c89243885811236fa2d699dd9306f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 35/39] fix: t.* gave the columns of t in alphabetical order

---
 src/sql/ast/typing.rs | 67 ++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 43 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 72c6587..7bb18e3 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -126,8 +126,8 @@ enum ScalarContextSymbol {
     // a conflict of attribute from different relations
     AttributeConflict,
 
-    // a relation with its constituent attributes
-    Relation(collections::BTreeMap<symbols::Name, ScalarType>),
+    // a relation with its constituent attributes, in order
+    Relation(Vec<Attribute>),
 }
 
 /// A context of bindings used to evaluate a type; for scalars, we are interested in bindings for
@@ -173,19 +173,6 @@ impl<'a> ScalarContext<'a> {
         }
 
         // add the relationship entry
-        let map: collections::BTreeMap<symbols::Name, ScalarType> = attributes
-            .into_iter()
-            .map(|attribute| {
-                (
-                    attribute.name,
-                    ScalarType::Scalar {
-                        typ: attribute.typ,
-                        is_null: attribute.is_null,
-                    },
-                )
-            })
-            .collect();
-
         match self.symbols.get(&name) {
             Some(&ScalarContextSymbol::Relation(_)) => {
                 Err(Error::from(format!("Duplicate relation name '{}'", &name)))
@@ -193,7 +180,7 @@ impl<'a> ScalarContext<'a> {
             _ => {
                 mem::drop(
                     self.symbols
-                        .insert(name, ScalarContextSymbol::Relation(map)),
+                        .insert(name, ScalarContextSymbol::Relation(attributes)),
                 );
                 Ok(())
             }
@@ -218,15 +205,21 @@ impl<'a> ScalarContext<'a> {
                 ))),
             },
             2 => match self.symbols.get(&qualified_name[0]) {
-                Some(&ScalarContextSymbol::Relation(ref attributes)) => attributes
-                    .get(&qualified_name[1])
-                    .map(|t| t.clone())
-                    .ok_or_else(|| {
-                        Error::from(format!(
-                            "Name '{}' does not refer to an attribute of relation '{}'",
-                            &qualified_name[1], &qualified_name[0]
-                        ))
-                    }),
+                Some(&ScalarContextSymbol::Relation(ref attributes)) => {
+                    for attribute in attributes {
+                        if attribute.name == qualified_name[1] {
+                            return Ok(ScalarType::Scalar {
+                                typ: attribute.typ,
+                                is_null: attribute.is_null,
+                            });
+                        }
+                    }
+
+                    Err(Error::from(format!(
+                        "Name '{}' does not refer to an attribute of relation '{}'",
+                        &qualified_name[1], &qualified_name[0]
+                    )))
+                }
                 _ => Err(Error::from(format!(
                     "Name '{}' does not refer to a relation",
                     &qualified_name[0]
@@ -1148,24 +1141,12 @@ impl ResultColumns {
                             return Err(Error::from(format!("Undefined collection named {}", name)))
                         }
                         Some(&ScalarContextSymbol::Relation(ref fields)) => {
-                            for (ref name, ref scalar) in fields {
-                                match *scalar {
-                                    &ScalarType::Scalar {
-                                        ref typ,
-                                        ref is_null,
-                                    } => {
-                                        let result_name =
-                                            generate_column_name(name, &mut generated_columns);
-                                        result_attributes.push(Attribute {
-                                            name: result_name,
-                                            typ: typ.clone(),
-                                            is_null: *is_null,
-                                        });
-                                    }
-                                    _ => panic!(
-                                        "Attributes of a schema object should be scalar values"
-                                    ),
-                                }
+                            for field in fields {
+                                result_attributes.push(Attribute {
+                                    name: generate_column_name(&field.name, &mut generated_columns),
+                                    typ: field.typ.clone(),
+                                    is_null: field.is_null,
+                                });
                             }
                         }
                         Some(_) => {
-- 
2.43.0


From 4e20042824f8c9821ad4bb5aa18f5d0fac3965c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 36/39] fix: a buffer that is taken goes to the list of buffers
 in use

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 8421470..4fd01d4 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -942,7 +942,7 @@ impl BufferPool {
                         let buffers = &mut internal.buffers;
                         available_buffers.list_remove(buffers, index);
 
-                        let in_use_buffers = &mut internal.available_buffers;
+                        let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
                         internal.mapped_locations.insert(location, index as usize);
-- 
2.43.0


From 42415a96bb92122b2ea50781951489a3b0b060d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 37/39] fix: a buffer that is taken for a location forgets the
 one it held before

---
 src/storage/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 4fd01d4..1ab300c 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -945,6 +945,15 @@ impl BufferPool {
                         let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
+                        // the buffer no longer holds the location it has been mapped to before
+                        let buffer = &mut buffers[index as usize];
+
+                        if buffer.mapped {
+                            internal.mapped_locations.remove(&buffer.location);
+                        }
+
+                        buffer.location = location;
+                        buffer.mapped = true;
                         internal.mapped_locations.insert(location, index as usize);
 
                         assert!(buffers[index as usize].access.is_none());
-- 
2.43.0


From 535f9764582933363537dedc854b39b95db93d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 38/39] fix: using a location again takes its buffer off the
 list it waits in and keeps its content

---
 src/storage/mod.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 1ab300c..bccdd97 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -982,6 +982,21 @@ impl BufferPool {
                 Some(&index) => {
                     match &mut internal.buffers[index as usize].access {
                         &mut None => {
+                            // nobody is using the buffer, that is, it is still waiting in one of
+                            // the other lists
+                            let buffers = &mut internal.buffers;
+
+                            if buffers[index].dirty {
+                                let dirty_buffers = &mut internal.dirty_buffers;
+                                dirty_buffers.list_remove(buffers, index as BufferIndex);
+                            } else {
+                                let available_buffers = &mut internal.available_buffers;
+                                available_buffers.list_remove(buffers, index as BufferIndex);
+                            }
+
+                            let in_use_buffers = &mut internal.in_use_buffers;
+                            in_use_buffers.list_push_front(buffers, index as BufferIndex);
+
                             let read_write_locks = &mut internal.read_write_locks;
                             let lock = BufferPoolMapping::alloc_lock(read_write_locks);
                             let lock_ptr = (&*lock) as *const async_std::sync::RwLock<()>;
@@ -991,12 +1006,9 @@ impl BufferPool {
                                     lock,
                                     num_handles: 1
                                 });
-                            
-                            let init_lock = unsafe {
-                                (*lock_ptr).try_write().unwrap()
-                            };
 
-                            break (index, lock_ptr, Some(init_lock));
+                            // the buffer has kept its content; there is nothing to initialize
+                            break (index, lock_ptr, None);
                         },
                         &mut Some(ref mut access) => {
                             let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<()>;
-- 
2.43.0


From 0792c0119a7494196094398773652cb894cd86f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 39/39] verification hook: the buffer pool, used by one task

---
 src/storage/mod.rs | 65 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index bccdd97..cf657b3 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1382,4 +1382,69 @@ pub mod verif {
         pub fn new() -> Volumes { Volumes(VolumeManager::new(&BufferPool::new(4096, 1).expect("pool"))) }
         pub fn next(&mut self) -> Option<u8> { self.0.next_volume().ok().map(|v| v.0) }
     }
+
+    enum Open<'a> { Read(ReadOnlyBufferHandle<'a>), Write(ReadWriteBufferHandle<'a>) }
+
+    /// a buffer pool used by one task; handles are numbered in the order they are opened
+    pub struct Session<'a> { pool: &'a BufferPool, open: Vec<Option<Open<'a>>> }
+
+    /// run a script against a new pool
+    pub fn pool_session<T>(buffer_size: usize, num_buffers: usize, script: impl FnOnce(&mut Session) -> T) -> T {
+        let pool = BufferPool::new(buffer_size, num_buffers).expect("pool");
+        let mut session = Session { pool: &pool, open: Vec::new() };
+        script(&mut session)
+    }
+
+    // nobody else runs: what has to wait, waits forever
+    fn soon<T>(future: impl std::future::Future<Output = T>) -> Option<T> {
+        async_std::task::block_on(async_std::future::timeout(std::time::Duration::from_millis(200), future)).ok()
+    }
+
+    impl<'a> Session<'a> {
+        /// None if it has to wait
+        pub fn initialize(&mut self, volume: u8, offset: u64) -> Option<usize> {
+            let handle = soon(self.pool.access_initialize(Location::new(VolumeIndex(volume), offset)))?;
+            self.open.push(Some(Open::Write(handle)));
+            Some(self.open.len() - 1)
+        }
+        pub fn read_write(&mut self, volume: u8, offset: u64) -> Option<usize> {
+            let handle = soon(self.pool.access_read_write(Location::new(VolumeIndex(volume), offset)))?;
+            self.open.push(Some(Open::Write(handle)));
+            Some(self.open.len() - 1)
+        }
+        pub fn read_only(&mut self, volume: u8, offset: u64) -> Option<usize> {
+            let handle = soon(self.pool.access_read_only(Location::new(VolumeIndex(volume), offset)))?;
+            self.open.push(Some(Open::Read(handle)));
+            Some(self.open.len() - 1)
+        }
+        pub fn buffer(&self, handle: usize) -> usize {
+            match self.open[handle].as_ref().expect("open") { Open::Read(h) => h.buffer_index, Open::Write(h) => h.buffer_index }
+        }
+        pub fn content(&self, handle: usize) -> Vec<u8> {
+            match self.open[handle].as_ref().expect("open") { Open::Read(h) => h.buffer_ref().to_vec(), Open::Write(h) => h.buffer_ref().to_vec() }
+        }
+        pub fn write(&mut self, handle: usize, at: usize, byte: u8) {
+            match self.open[handle].as_mut().expect("open") { Open::Read(_) => panic!("read-only"), Open::Write(h) => h.buffer_mut()[at] = byte }
+        }
+        pub fn release(&mut self, handle: usize) -> Option<()> {
+            match self.open[handle].as_mut().expect("open") { Open::Read(h) => soon(h.release())?, Open::Write(h) => soon(h.release())? }
+            self.open[handle] = None;
+            Some(())
+        }
+        /// the buffers in the list of the available, used and dirty ones
+        pub fn lists(&self) -> Option<Vec<Vec<u32>>> {
+            let mapping = soon(self.pool.mapping.lock())?;
+            Some([&mapping.available_buffers, &mapping.in_use_buffers, &mapping.dirty_buffers].iter().map(|l| {
+                let mut members = Vec::new();
+                let mut at = l.head;
+                while at != NIL && members.len() <= mapping.buffers.len() { members.push(at); at = mapping.buffers[at as usize].link.next; }
+                members
+            }).collect())
+        }
+    }
+
+    impl<'a> Drop for Session<'a> {
+        // handles that are still open complain when dropped
+        fn drop(&mut self) { for handle in self.open.drain(..) { std::mem::forget(handle) } }
+    }
 }
-- 
2.43.0

