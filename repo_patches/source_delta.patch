From cacb772f090f5193f114582035708916a9d3c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 01/41] fix: fixed-width encode/decode used aligned access at
 arbitrary offsets

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index c4320b8..b6d9f47 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -179,7 +179,7 @@ macro_rules! encode_fixed {
                 // 移动指针
                 let end = mut_ptr.add(offset);
                 // 写入数据
-                ptr::write(end as *mut $type, swap_bytes!(value));
+                ptr::write_unaligned(end as *mut $type, swap_bytes!(value));
             }
         }
     };
@@ -317,7 +317,7 @@ macro_rules! decode_fixed {
         unsafe fn $name(data: &EncodeData, offset: usize) -> $type {
             // offset + 读取字节 >= data.len() 时会溢出
             let ptr = get_ptr!(data);
-            swap_bytes!(unsafe {ptr::read(ptr.add(offset) as *mut $type)})
+            swap_bytes!(unsafe {ptr::read_unaligned(ptr.add(offset) as *mut $type)})
         }
     }
 }
-- 
2.43.0


From 6bf90c7d47d07ed3f262ed8b36f7d9e3534802d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 02/41] fix: uncheck_read_buf gave Slice a buffer allocated
 with the wrong layout

---
 src/util/coding.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index b6d9f47..efaf904 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1,5 +1,4 @@
-use std::{intrinsics, ptr};
-use std::alloc::{alloc, Layout};
+use std::ptr;
 use std::ops::Deref;
 
 use crate::util::coding::EncodeData::{Buffer, Slices, Vector};
@@ -429,12 +428,8 @@ unsafe fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
 /// ```
 unsafe fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> Slice {
     let ptr: *const u8 = get_ptr!(data).add(offset);
-    // 分配一块内存长度为buf的长度
-    let dst: *mut u8 = alloc(Layout::from_size_align_unchecked(len, 4));
-    // 将数据拷贝到这块内存上
-    intrinsics::copy_nonoverlapping(ptr, dst, len);
-    // 使用slice包装内存
-    Slice::from_raw_parts(dst, len)
+    // 将数据拷贝到slice中
+    Slice::from_buf(std::slice::from_raw_parts(ptr, len))
 }
 
 /// 编码的数据 只读的
-- 
2.43.0


From a2ed4595105d72b20bfbb676f2b80b1168efadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 03/41] fix: Decoder::get_buf did not advance past the bytes it
 returned

---
 src/util/coding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index efaf904..db165b8 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1118,10 +1118,10 @@ impl<'a> Decoder<'a> {
     ///  // [1, 2, 3]
     ///  let buf = decoder.get_buf(3)?;
     /// ```
-    pub fn get_buf(&self, len: usize) -> Result<Slice> {
+    pub fn get_buf(&mut self, len: usize) -> Result<Slice> {
         check_length!(self.offset, len, self.limit, read);
         unsafe {
-            Ok(uncheck_read_buf(&self.data, self.offset, len))
+            Ok(self.uncheck_get_buf(len))
         }
     }
 
-- 
2.43.0


From a43e9d58bcb99cc73e10d4cf406f6c96c190071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 04/41] fix: Decoder length check overflowed for huge lengths

---
 src/util/coding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index db165b8..fe326d1 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -135,7 +135,7 @@ macro_rules! check_length {
     };
     ($offset: expr, $read_len: expr, $limit: expr, read) => {
         // 偏移量 + 读取长度 >= 容器的长度时, 会抛出异常
-        if $offset + $read_len > $limit {
+        if $offset.checked_add($read_len).map_or(true, |end| end > $limit) {
             return Err(LevelError::invalid_argument(
                 Slice::from("offset + read_len must < limit"),
                 Slice::from(format!("offset = {}, read_len = {}, limit = {}", $offset, $read_len, $limit))
-- 
2.43.0


From 0e12ea9dc80fa8c52b4e66d321b11f023cac0e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:59 +0000
Subject: [PATCH 05/41] fix: truncated or overlong varints were decoded as if
 they were complete

---
 src/util/coding.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/coding.rs b/src/util/coding.rs
index fe326d1..383fca7 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -952,6 +952,14 @@ macro_rules! get_varint {
             check_length!(self.offset, self.limit);
             // 调用解码方法
             let res = unsafe { $var_name(&self.data, self.offset, self.limit) };
+            // 最后读到的字节仍带有后续标志, 说明数据被截断或者超过最大长度
+            let data = &self.data;
+            if unsafe { ptr::read(get_ptr!(data).add(res.1 - 1)) } & 128 != 0 {
+                return Err(LevelError::invalid_argument(
+                    Slice::from("varint is truncated or too long"),
+                    Slice::from(format!("offset = {}, limit = {}", self.offset, self.limit))
+                ));
+            }
             self.offset = res.1;
             Ok(res.0)
         }
@@ -1067,8 +1075,7 @@ impl<'a> Decoder<'a> {
     ///  let slice = decoder.get_length_prefixed_slice()?;
     /// ```
     pub fn get_length_prefixed_slice(&mut self) -> Result<Slice> {
-        check_length!(self.offset, self.limit);
-        let size = unsafe { self.uncheck_get_varint32() } as usize;
+        let size = self.get_varint32()? as usize;
         check_length!(self.offset, size, self.limit, read);
         unsafe { Ok(self.uncheck_get_buf(size)) }
     }
-- 
2.43.0


From 09434834afdb2723f687c5292d8dde9e3315fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 06/41] fix: mutable range index on Slice ignored the start of
 the range

---
 src/util/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index 215e17f..a108b17 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -240,7 +240,7 @@ impl core::ops::IndexMut<Range<usize>> for Slice {
     /// 获取指定下标范围的数据
     fn index_mut(&mut self, index: Range<usize>) -> &mut Self::Output {
         assert!(index.end <= self.size());
-        &mut (**self)[..index.end]
+        &mut (**self)[index.start..index.end]
     }
 }
 
-- 
2.43.0


From 948ce5c61634cada2ae14b840b59d5793c9daa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 07/41] fix: Slice::starts_with panicked when the prefix is
 longer than the slice

---
 src/util/slice.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/util/slice.rs b/src/util/slice.rs
index a108b17..433f247 100644
--- a/src/util/slice.rs
+++ b/src/util/slice.rs
@@ -79,7 +79,6 @@ impl Slice {
 
     /// 判断本 Slice 是否以 other 为开始
     pub fn starts_with(&self, other: &Self) -> bool {
-        assert!(other.size() <= self.size());
         if other.size() == 0 {
             return true;
         }
-- 
2.43.0


From 75345e7ccd5912dfb32f226f69677f25f3e40869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 08/41] fix: UnsafeSlice::new_with_arena always produced an
 empty slice

---
 src/util/unsafe_slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index c48d2bb..b280f0f 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,6 +1,5 @@
 use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
-use std::io::Write;
 use std::mem::ManuallyDrop;
 
 use crate::util::arena::ArenaRef;
@@ -27,8 +26,8 @@ impl UnsafeSlice {
     pub fn new_with_arena<B: AsRef<[u8]>>(data: B, arena: ArenaRef) -> Result<Self> {
         let mut lock = arena.lock()?;
         let src = data.as_ref();
-        let mut buf = lock.allocate(src.len());
-        buf.write(src)?;
+        let buf = lock.allocate(src.len());
+        buf.copy_from_slice(src);
         Ok(Self {
             ptr: buf.as_mut_ptr(),
             len: buf.len(),
-- 
2.43.0


From f5c030aba6b8270f86d44423de55f409859f5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 09/41] fix: UnsafeSlice::to_slice returned uninitialised
 memory instead of the data

---
 src/util/unsafe_slice.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index b280f0f..3b066ee 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -1,4 +1,3 @@
-use std::alloc::{alloc, Layout};
 use std::fmt::{Display, Formatter};
 use std::mem::ManuallyDrop;
 
@@ -63,10 +62,7 @@ impl UnsafeSlice {
     /// 生成 Slice 串，由于 Slice 是内存安全的，所以实现上会有内存拷贝。
     /// 高性能场景优先考虑 UnsafeSlice
     pub fn to_slice(&self) -> Slice {
-        unsafe {
-            let raw_ptr = alloc(Layout::from_size_align_unchecked(self.len, 8));
-            Slice::from_raw_parts(raw_ptr, self.len)
-        }
+        Slice::from_buf(self.as_ref())
     }
 }
 
-- 
2.43.0


From 87c96b7341d4fa9d5f14a8f652ad325fed1a1491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 10/41] fix: UnsafeSlice::sub_slice rejected ranges that end at
 the end of the slice

---
 src/util/unsafe_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/unsafe_slice.rs b/src/util/unsafe_slice.rs
index 3b066ee..906ae80 100644
--- a/src/util/unsafe_slice.rs
+++ b/src/util/unsafe_slice.rs
@@ -52,7 +52,7 @@ impl UnsafeSlice {
 
     /// 返回子串。这个方法是高效的，在内部只复制了裸指针偏的移量。
     pub unsafe fn sub_slice(&self, start: usize, len: usize) -> Self {
-        assert!(start + len < self.len, "sub_slice out of range");
+        assert!(start + len <= self.len, "sub_slice out of range");
         Self {
             ptr: self.ptr.offset(start as isize),
             len,
-- 
2.43.0


From cfac0c76c36a18fbc232ee17eaaa2fd367fb90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 11/41] fix: Arena panicked on an empty allocation before its
 first block

---
 src/util/arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index d239b48..c436812 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -56,7 +56,7 @@ impl Arena {
     }
 
     pub fn allocate_align(&mut self, bytes: usize, align: usize) -> &mut [u8] {
-        if bytes <= self.alloc_bytes_remaining {
+        if self.alloc_ptr.is_some() && bytes <= self.alloc_bytes_remaining {
             self.alloc_bytes_remaining -= bytes;
             let result = unsafe { slice::from_raw_parts_mut(self.alloc_ptr.unwrap().as_ptr(), bytes) };
             unsafe {
-- 
2.43.0


From d952af97aa76335bbdff7d467dac67e98218d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 12/41] fix: copy_with_arena made Slice free memory owned by
 the arena

---
 src/util/arena.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/util/arena.rs b/src/util/arena.rs
index c436812..f0dde7f 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -116,12 +116,11 @@ impl Drop for Arena {
 
 impl ArenaAllocLike for Slice {
     fn copy_with_arena(&self, arena: ArenaRef) -> Self {
-        unsafe {
-            let mut lock_guard = arena.lock().unwrap();
-            let dst = lock_guard.allocate(self.len());
-            let src = &**self;
-            dst.copy_from_slice(src);
-            Slice::from_raw_parts(dst.as_mut_ptr(), self.len())
-        }
+        let mut lock_guard = arena.lock().unwrap();
+        let dst = lock_guard.allocate(self.len());
+        let src = &**self;
+        dst.copy_from_slice(src);
+        // arena 持有这块内存, Slice 需要持有自己的内存
+        Slice::from_buf(dst)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 4a9211154f789144e2a6c3e9fc61a55a0f564e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 13/41] fix: CRC of unaligned data re-read the alignment prefix

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c2f0443..922f37a 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -384,7 +384,7 @@ impl CRC {
         }
 
         if n - s >= 16 {
-            let mut decoder = Decoder::with_buf(data);
+            let mut decoder = Decoder::with_buf(&data[s..]);
             let mut crc0 = unsafe { decoder.uncheck_get_fixed32() } ^ l;
             let mut crc1 = unsafe { decoder.uncheck_get_fixed32() };
             let mut crc2 = unsafe { decoder.uncheck_get_fixed32() };
-- 
2.43.0


From 9ad31698249d71a9bfe5d79f475f5f7cfa78013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 14/41] fix: CRC strides were rotated in the wrong direction
 for 4-byte tails

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index 922f37a..c0963f6 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -398,7 +398,7 @@ impl CRC {
             while (n - s) >= 4 {
                 step4!(crc0, data, decoder, s, 0);
                 // swap variables
-                (crc1, crc2, crc3) = (crc0, crc1, crc2);
+                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);
                 s += 4;
                 // println!("step4, c0: {:x}, c1: {:x}, c2: {:x}, c3: {:x}, s: {}", crc0, crc1, crc2, crc3, s);
             }
-- 
2.43.0


From d2c837b8c2aa09d7d4eddf92cbadc408091e9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:39 +0000
Subject: [PATCH 15/41] fix: CRC unmask overflowed for masked values below the
 delta

---
 src/util/crc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/crc.rs b/src/util/crc.rs
index c0963f6..22ad506 100644
--- a/src/util/crc.rs
+++ b/src/util/crc.rs
@@ -471,7 +471,7 @@ impl CRC {
     /// ```
     #[inline]
     pub fn unmask(masked_crc: u32) -> u32 {
-        let rot = masked_crc - K_MASK_DELTA;
+        let rot = masked_crc.wrapping_sub(K_MASK_DELTA);
         (rot >> 17) | (rot << 15)
     }
 }
-- 
2.43.0


From 6aca9ad039f2b595ea6dd84fd76f09039e7b8690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 16/41] fix: log writer did not recompute the space left in the
 block per fragment

---
 src/db/log_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 485ce95..e769fff 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -39,12 +39,12 @@ impl LogWriter {
     }
 
     pub fn add_record(&mut self, slice: Slice) -> Result<()> {
-        let left_over = K_BLOCK_SIZE - self.block_offset;
-        assert!(left_over >= 0);
         let mut left = slice.len();
         let mut begin = true;
         let mut start_idx = 0;
         while begin || left > 0 {
+            let left_over = K_BLOCK_SIZE - self.block_offset;
+            assert!(left_over >= 0);
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
                     self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
-- 
2.43.0


From 8724b8e0491c74697578375e8589f40d633b6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 17/41] fix: log record checksum was written as a varint

---
 src/db/log_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index e769fff..6ba0ad2 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -75,7 +75,7 @@ impl LogWriter {
         let mut crc = CRC::extend(self.type_crc[record_type as usize], data);
         crc = CRC::mask(crc);
         let mut header = [0_u8; K_HEADER_SIZE];
-        Encoder::with_buf(&mut header).put_varint32(crc);
+        Encoder::with_buf(&mut header).put_fixed32(crc)?;
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-- 
2.43.0


From f1da99fe09637fa6ab9bbd1e9fd653c980f1bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 18/41] fix: log writer ignored short writes of the underlying
 file

---
 src/db/log_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 6ba0ad2..34bbcc2 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -47,7 +47,7 @@ impl LogWriter {
             assert!(left_over >= 0);
             if left_over < K_HEADER_SIZE {
                 if left_over > 0 {
-                    self.file_writer.write(&K_EMPTY_BYTES[0..left_over])?;
+                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                 }
                 self.block_offset = 0;
             }
@@ -79,10 +79,10 @@ impl LogWriter {
         header[4] = (data.len() & 0xff) as u8;
         header[5] = (data.len() >> 8) as u8;
         header[6] = record_type;
-        self.file_writer.write(header.as_ref())?;
+        self.file_writer.write_all(header.as_ref())?;
         self.block_offset += K_HEADER_SIZE;
         if !data.is_empty() {
-            self.file_writer.write(data)?;
+            self.file_writer.write_all(data)?;
             self.block_offset += data.len();
         }
         self.file_writer.flush()?;
-- 
2.43.0


From a302bd1b21419c689aefc5f6b6b94abb8ddc51b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 19/41] fix: log reader never reported the end of the log and
 parsed block trailers as records

---
 src/db/log_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 099240a..a72ab4e 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -2,7 +2,7 @@ use std::fs::File;
 use std::io::{Read, Seek, Write};
 use std::io::SeekFrom::Start;
 
-use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_LAST_TYPE, K_MIDDLE_TYPE};
+use crate::db::log_writer::{K_BLOCK_SIZE, K_FIRST_TYPE, K_FULL_TYPE, K_HEADER_SIZE, K_LAST_TYPE, K_MIDDLE_TYPE};
 use crate::util::coding::Decoder;
 use crate::util::crc::{AsCrc, CRC};
 use crate::util::Result;
@@ -46,8 +46,13 @@ impl LogReader {
     pub fn read_next(&mut self) -> Result<Option<Slice>> {
         let mut tmp: Option<Vec<u8>> = None;
         loop {
-            if self.buf_read_idx >= self.buf_len {
+            // 剩余数据不足一个 header, 说明到达 block 尾部(填充数据)或者文件末尾
+            if self.buf_read_idx + K_HEADER_SIZE > self.buf_len {
+                if self.eof {
+                    return Ok(None);
+                }
                 self.read_buf()?;
+                continue;
             }
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
-- 
2.43.0


From 03699c26a2eb0b4e7596cbbf95e99b98fff20149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 20/41] fix: log reader trusted the record length before
 checking it

---
 src/db/log_reader.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index a72ab4e..216d30a 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -57,8 +57,20 @@ impl LogReader {
             let data_len = (self.buf[self.buf_read_idx + 4] as usize) + ((self.buf[self.buf_read_idx + 5] as usize) << 8);
             let record_type = self.buf[self.buf_read_idx + 6];
             self.buf_read_idx += 7;
+            if self.buf_read_idx + data_len > self.buf_len {
+                self.buf_read_idx = self.buf_len;
+                // 文件末尾的不完整数据, 说明写入时中断
+                if self.eof {
+                    return Ok(None);
+                }
+                return Err(Status::wrapper(LevelError::KCorruption, "bad record length".into()));
+            }
             // CRC check
-            self.check_crc(data_len)?;
+            if let Err(err) = self.check_crc(data_len) {
+                // 长度也可能已经损坏, 丢弃当前 block 剩余的数据
+                self.buf_read_idx = self.buf_len;
+                return Err(err);
+            }
             match record_type {
                 K_FULL_TYPE => {
                     let end_idx = self.buf_read_idx + data_len;
-- 
2.43.0


From 9794f09d3bc761862a2c67c0d7a4e00b99befdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 21/41] fix: log reader mishandled fragmented records

---
 src/db/log_reader.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 216d30a..e162a48 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -80,13 +80,18 @@ impl LogReader {
                 }
                 K_FIRST_TYPE => {
                     tmp = Some(Vec::with_capacity(K_BLOCK_SIZE));
-                    let partial_data = &self.buf[self.buf_read_idx..];
+                    let end_idx = self.buf_read_idx + data_len;
+                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
+                    self.buf_read_idx += data_len;
                     tmp.as_mut().unwrap().write(partial_data)?;
                 }
-                K_MIDDLE_TYPE => {
-                    tmp.as_mut().unwrap().write(self.buf.as_ref())?;
+                K_MIDDLE_TYPE if tmp.is_some() => {
+                    let end_idx = self.buf_read_idx + data_len;
+                    let partial_data = &self.buf[self.buf_read_idx..end_idx];
+                    self.buf_read_idx += data_len;
+                    tmp.as_mut().unwrap().write(partial_data)?;
                 }
-                K_LAST_TYPE => {
+                K_LAST_TYPE if tmp.is_some() => {
                     let end_idx = self.buf_read_idx + data_len;
                     let partial_data = &self.buf[self.buf_read_idx..end_idx];
                     self.buf_read_idx += data_len;
@@ -94,7 +99,12 @@ impl LogReader {
                     let data = tmp.unwrap();
                     return Ok(Some(Slice::from_vec(data)));
                 }
+                K_MIDDLE_TYPE | K_LAST_TYPE => {
+                    self.buf_read_idx += data_len;
+                    return Err(Status::wrapper(LevelError::KCorruption, "missing start of fragmented record".into()));
+                }
                 _ => {
+                    self.buf_read_idx += data_len;
                     return Err(Status::wrapper(LevelError::KCorruption,
                                                format!("bad record_type: {}", record_type).into()));
                 }
-- 
2.43.0


From 599eb961e8e093b4fe191d6afd3f70fa06df4f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:58 +0000
Subject: [PATCH 22/41] fix: log reader treated a short read as the end of the
 file

---
 src/db/log_reader.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index e162a48..8f6fa3d 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -114,9 +114,15 @@ impl LogReader {
 
     fn read_buf(&mut self) -> Result<()> {
         self.buf_read_idx = 0;
-        self.buf_len = self.file_reader.read(self.buf.as_mut())?;
-        if self.buf_len < K_BLOCK_SIZE {
-            self.eof = true;
+        self.buf_len = 0;
+        // 一次 read 不一定能读满一个 block
+        while self.buf_len < K_BLOCK_SIZE {
+            let read_len = self.file_reader.read(&mut self.buf[self.buf_len..])?;
+            if read_len == 0 {
+                self.eof = true;
+                break;
+            }
+            self.buf_len += read_len;
         }
         Ok(())
     }
-- 
2.43.0


From 72bd19a385a9f4fc6df0faa32bc6daefe63a778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 23/41] fix: skip list used aligned access on links that the
 arena places at any address

---
 src/db/skip_list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1bc28f2..de7dc5b 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -342,13 +342,13 @@ impl Node {
     #[must_use]
     unsafe fn get_node(&self, level: usize) -> RawNode {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).read()
+        self.next_elems.offset(level as isize).read_unaligned()
     }
 
     #[inline]
     unsafe fn set_node(&mut self, level: usize, node: RawNode) {
         assert!(level < MAX_LEVEL);
-        self.next_elems.offset(level as isize).write(node);
+        self.next_elems.offset(level as isize).write_unaligned(node);
     }
 
     /// 找到最后一个数据元素
-- 
2.43.0


From 5378cb5804704196001a0a00814ca501eb54ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 24/41] fix: iterating an empty skip list followed
 uninitialised links

---
 src/db/skip_list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index de7dc5b..94f6a10 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -52,11 +52,19 @@ pub struct Iter<Cmp: Comparator> {
 
 impl<Cmp: Comparator> SkipList<Cmp> {
     pub fn create(comparator: Arc<Cmp>, arena: ArenaRef) -> Self {
+        let head = Node::create_head(arena.clone());
+        let tail = Node::create_tail();
+        // 空表的 head 直接指向 tail
+        unsafe {
+            for l in 0..MAX_LEVEL {
+                (&mut *head).set_node(l, tail);
+            }
+        }
         Self {
             height: 0,
             num: 0,
-            head: Node::create_head(arena.clone()),
-            tail: Node::create_tail(),
+            head,
+            tail,
             cmp: comparator,
             arena,
         }
-- 
2.43.0


From a83dcea17e0c613ff9d7a4cde05a3a24a9175564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 25/41] fix: skip list iterator reported valid exactly when it
 was not

---
 src/db/skip_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 94f6a10..8198125 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -447,7 +447,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn valid(&self) -> bool {
         unsafe {
-            (&*self.current).is_head_or_tail()
+            !(&*self.current).is_head_or_tail()
         }
     }
 
-- 
2.43.0


From d63577e4893c1aa406aa02cd4a6f38cfb74bf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 26/41] fix: skip list seek_to_last could stop before the last
 element

---
 src/db/skip_list.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 8198125..1e3e042 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -365,21 +365,15 @@ impl Node {
             return None;
         }
         let mut pre = self;
-        let mut cur = &*self.next_top_node();
+        let mut cur = &*self.get_node(0);
         loop {
             if cur.is_tail() {
                 return Some(pre as *const Node as *mut Node);
             }
             pre = cur;
-            cur = &*cur.next_top_node();
+            cur = &*cur.get_node(0);
         }
     }
-
-    /// 找到最上层的下一个元素
-    #[inline]
-    unsafe fn next_top_node(&self) -> RawNode {
-        self.get_node(self.level - 1)
-    }
 }
 
 fn rand_level() -> usize {
@@ -461,7 +455,7 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     #[inline]
     fn seek_to_last(&mut self) {
         unsafe {
-            self.current = (&*self.current).seek_to_last().unwrap_or(self.tail)
+            self.current = (&*self.head).seek_to_last().unwrap_or(self.tail)
         }
     }
 
-- 
2.43.0


From af84d19bce5bf45dbdb0d45145fe9251e2da2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 27/41] fix: MemTable::add dead-locked on the arena

---
 src/db/mem_table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index a003400..562cb19 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -74,9 +74,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
-        let mut lock = self.arena.lock()?;
-        let buf = lock.allocate(encoded_len);
-        let mut encoder = Encoder::with_buf(buf);
+        let mut buf = vec![0; encoded_len];
+        let mut encoder = Encoder::with_buf(&mut buf);
         // 需要保证写入的数据不会超过buf.len(), 否则溢出
         unsafe {
             // write key size
-- 
2.43.0


From 45b95dd60fe672a3296f1c1c921e4d2ba2c25b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 28/41] fix: MemTable::add left the value length out of the
 entry and sized the buffer wrongly

---
 src/db/mem_table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 562cb19..4f39d50 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -70,7 +70,7 @@ impl<Cmp: Comparator> MemTable<Cmp> {
         let key_size = key_buf.len();
         let value_size = value_buf.len();
         let internal_key_size = key_size + 8;
-        let encoded_len = varint_length(key_size as u64)
+        let encoded_len = varint_length(internal_key_size as u64)
             + internal_key_size
             + varint_length(value_size as u64)
             + value_size;
@@ -84,6 +84,8 @@ impl<Cmp: Comparator> MemTable<Cmp> {
             encoder.uncheck_put_buf(key_buf);
             // write seq_no and type
             encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);
+            // write value size
+            encoder.uncheck_put_varint32(value_size as u32);
             // write value slice
             encoder.uncheck_put_buf(value_buf);
         }
-- 
2.43.0


From 5901d7fce4e59013f7f819872cb56bf239ee55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 29/41] fix: LookupKey wrote past an empty buffer and stored
 the wrong key length

---
 src/db/db_format.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 4b4a7c7..0d7ce5d 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -258,13 +258,12 @@ impl LookupKey {
         let user_key_size = user_key.size();
         let need = user_key_size + 13; // A conservative estimate
         let mut data = Vec::with_capacity(need);
-        let buf = data.as_mut_slice();
-        let mut encoder = Encoder::with_buf(buf);
+        let mut encoder = Encoder::with_vec(&mut data);
         // write key size
         let klength = varint_length((user_key_size + 8) as u64);
         // 需要保证写入的数据不会超过buf.len(), 否则会溢出
         unsafe {
-            encoder.uncheck_put_varint32(klength as u32);
+            encoder.uncheck_put_varint32((user_key_size + 8) as u32);
             // write key slice
             encoder.uncheck_put_buf(user_key.as_ref());
             // write sequence number and value type
-- 
2.43.0


From 748b3218464fdc03eb2859cf9870fe168908a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:43 +0000
Subject: [PATCH 30/41] fix: find_shortest_separator panicked on prefixes and
 could return a key below start

---
 src/util/comparator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/comparator.rs b/src/util/comparator.rs
index 661a930..c4cade2 100644
--- a/src/util/comparator.rs
+++ b/src/util/comparator.rs
@@ -67,6 +67,7 @@ impl Comparator for BytewiseComparatorImpl {
         // 如果一个字符串是另个一字符串的前缀，无需做截短操作，否则进入 else。
         if diff_index >= min_length {
             // 说明 start是limit的前缀，或者反之，此时不作修改，直接返回
+            diff_index = start_char_vec.len();
         } else {
             // 尝试执行字符start[diff_index]++， 设置start长度为diff_index+1，并返回
             // ++条件：字符 < oxff 并且字符+1 < limit上该index的字符
@@ -78,10 +79,14 @@ impl Comparator for BytewiseComparatorImpl {
                 // 则将 start 差异字符位置+1的元素变更为 差异字符的next
                 (diff_byte + 1) < limit_char_vec[diff_index] {
                 start_char_vec[diff_index] = diff_byte + 1;
+                diff_index += 1;
+            } else {
+                // 无法缩短, 保持 start 不变
+                diff_index = start_char_vec.len();
             }
         }
 
-        let shortest_separator: &[u8] = &start_char_vec[0..diff_index + 1];
+        let shortest_separator: &[u8] = &start_char_vec[0..diff_index];
         let shortest_separator_val: String = Slice::from_buf(shortest_separator).into();
         shortest_separator_val
     }
-- 
2.43.0


From 28856891e16a6036577a76801ca3f09f19e67e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 31/41] fix: filter block start_block never terminated once a
 filter was due

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 9f0fb38..4882012 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -161,7 +161,7 @@ impl FilterBlock for FilterBlockBuilder {
         assert!(filters_number >= len);
 
         // 当已经生成的filter的数目小于需要生成的filter的总数时，那么就继续创建filter。
-        while filters_number > len {
+        while filters_number > self.filter_offsets.len() as u64 {
             self.generate_new_filter();
         }
     }
-- 
2.43.0


From 1a599d6953394b062461f3a3d29102e847ff22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 32/41] fix: filter block add_key panicked on keys that are not
 UTF-8

---
 src/table/filter_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 4882012..57f806e 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -173,7 +173,7 @@ impl FilterBlock for FilterBlockBuilder {
     fn add_key(&mut self, key: &Slice) {
         // start_记录key在keys的offset，因此可以还原出key
         self.start.push(self.keys.len());
-        self.keys.write(key.as_str().as_bytes()).expect("add_key error!");
+        self.keys.write(key.as_ref()).expect("add_key error!");
     }
 
     fn finish(&mut self) -> Result<Slice> {
-- 
2.43.0


From 7482dc452d5ea47b65197c075ef8f6dcc3618a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 33/41] fix: filter block finish overwrote the filters with the
 offset array

---
 src/table/filter_block.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table/filter_block.rs b/src/table/filter_block.rs
index 57f806e..265e2ae 100644
--- a/src/table/filter_block.rs
+++ b/src/table/filter_block.rs
@@ -184,8 +184,8 @@ impl FilterBlock for FilterBlockBuilder {
         // Append array of per-filter offsets
         let array_offset = self.result.len() as u32;
 
-        // 当前需要写入的位置。result 中可能存在数据，因此为 offset ==> self.result.len()  的位置
-        let dst: &mut Vec<u8> = &mut self.result;
+        // result 中可能存在数据, 先写入临时容器再追加到 result 的末尾
+        let dst: &mut Vec<u8> = &mut vec![];
         // let mut dst_append = self.result.as_mut_slice();
         let mut encoder = Encoder::with_vec(dst);
         for i in 0..self.filter_offsets.len() {
@@ -195,6 +195,7 @@ impl FilterBlock for FilterBlockBuilder {
 
         // Save encoding parameter in result
         encoder.put_varint64(FILTER_BASE_LG as u64)?;
+        self.result.append(dst);
 
         Ok(Slice::from_buf(&self.result))
     }
-- 
2.43.0


From bb91c06ecf955c091dba138c0942a9892b753c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 34/41] fix: removing the head of a cache hash chain left a
 dangling back link

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index e15d7de..fe09ee2 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -220,7 +220,9 @@ impl<T> HandleTable<T> {
                     // 是头节点, 将头节点移交至下一节点
                     self.list[index] = handle_mut.next_hash;
                     // 下一节点的prev_hash要置空
-                    handle_mut.prev_hash = None;
+                    if let Some(mut next_hash) = handle_mut.next_hash {
+                        unsafe { next_hash.as_mut() }.prev_hash = None;
+                    }
                 } else {
                     // 是其余中间节点或尾节点, 删除当前节点并将下一节点移交给上一节点
                     let prev_hash_ptr = unsafe { handle_mut.prev_hash.unwrap().as_mut() };
-- 
2.43.0


From 7c693b3a4ae2ddae4052db5fcee72ad5a6985a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 35/41] fix: cache erase used the handle after freeing it

---
 src/util/cache.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index fe09ee2..025bb09 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -459,12 +459,12 @@ impl<T> LRUCache<T> {
     /// 从lru缓存中删除数据, 同时回收内存
     pub fn erase(&mut self, key: &Slice, hash: u32) -> Result<usize> {
         let mut charge = 0;
-        // 先从hash表中删除, 同时回收内存
-        let removed_handle = self.table.remove(key, hash)?;
-        if let Some(removed) = removed_handle {
-            // 再删除lru链表中的数据
-            self.lru_remove(removed)?;
+        if let Some(removed) = self.table.look_up(key, hash)? {
             charge = unsafe { removed.as_ref().charge };
+            // 先删除lru链表中的数据
+            self.lru_remove(removed)?;
+            // 再从hash表中删除, 同时回收内存
+            self.table.remove(key, hash)?;
         }
 
         // 返回删除了多少数据量
-- 
2.43.0


From 2e5711a4128f528a8e6ffb898cb416810fd3f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 36/41] fix: inserting an existing key into the cache kept the
 old entry as well

---
 src/util/cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 025bb09..736ff9a 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -412,6 +412,8 @@ impl<T> LRUCache<T> {
     ///
     /// ```
     pub fn insert(&mut self, key: Slice, hash: u32, value: T, charge: usize) -> Result<()> {
+        // key已经存在时, 替换旧的数据
+        self.erase(&key, hash)?;
         let handle = LRUHandle::new_on_heap(
             key.clone(),
             value,
-- 
2.43.0


From fd5bec09e8faa4ba1646b856f1d4167244087940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 37/41] fix: cache evicted only one entry even if usage stayed
 above the capacity

---
 src/util/cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 736ff9a..2090182 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -427,13 +427,15 @@ impl<T> LRUCache<T> {
         self.usage += charge;
 
         // 使用量已经达到容量, 那么删除最少使用的
-        if self.usage >= self.capacity {
+        while self.usage >= self.capacity {
             if let Some(tail) = self.tail_of_lru {
                 let tail_ref = unsafe { tail.as_ref() };
                 // 先删除lru链表尾
                 self.lru_remove(tail)?;
                 // 于从hash表中删除链表尾, 同时回收内存
                 self.table.remove(&tail_ref.key, tail_ref.hash)?;
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From 0998fd449b5d4af76c7548519436a29549e1ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:53 +0000
Subject: [PATCH 38/41] fix: cache prune freed only the first entry of each
 hash chain

---
 src/util/cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/cache.rs b/src/util/cache.rs
index 2090182..8957dbf 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -247,8 +247,12 @@ impl<T> HandleTable<T> {
     /// 清空hash表 并回收内存
     pub fn prune(&mut self) {
         for handle in self.list.iter().filter(|v| v.is_some()) {
-            // 回收内存
-            Self::drop_handle(handle.unwrap().as_ptr());
+            // 回收内存, 包括链表上的全部节点
+            let mut head = *handle;
+            while let Some(current) = head {
+                head = unsafe { current.as_ref() }.next_hash;
+                Self::drop_handle(current.as_ptr());
+            }
         }
         // 清空list恢复内存
         self.list.clear();
-- 
2.43.0


From bb4b547f2e134e89c753ab87b2b263945784c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 39/41] fix: VersionEdit::encode_to left out the comparator
 name and the internal keys

---
 src/db/db_format.rs    |  5 +++++
 src/db/version_edit.rs | 12 ++++--------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index 0d7ce5d..c504555 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -187,6 +187,11 @@ impl InternalKey {
         self.rep_
     }
 
+    /// 取得编码后的 InternalKey, 不消耗自身
+    pub fn as_slice(&self) -> &Slice {
+        &self.rep_
+    }
+
     /// 取得  Slice的长度
     pub fn encode_len(&self) -> usize {
         self.rep_.size()
diff --git a/src/db/version_edit.rs b/src/db/version_edit.rs
index ec0a502..15dba84 100644
--- a/src/db/version_edit.rs
+++ b/src/db/version_edit.rs
@@ -205,9 +205,7 @@ impl VersionEdit {
         let mut encoder = Encoder::with_vec(target);
         if self.has_comparator_ {
             encoder.put_varint32(Tag::k_comparator.get_value() as u32)?;
-            encoder.put_varint32(self.comparator_.len() as u32)?;
-            // fixme 需要正确使用 put_length_prefixed_slice  将slice长度及slice内容编码到target
-            // encoder.put_length_prefixed_slice(self.comparator_.len())?;
+            encoder.put_length_prefixed_slice(&Slice::from(&self.comparator_))?;
         }
         if self.has_log_number_ {
             encoder.put_varint32(Tag::kLogNumber.get_value() as u32)?;
@@ -232,8 +230,7 @@ impl VersionEdit {
         for i in 0..self.compact_pointers_.len() {
             encoder.put_varint32(Tag::kCompactPointer.get_value() as u32)?;
             encoder.put_varint32(self.compact_pointers_[i].0)?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( self.compact_pointers_[i].1.encode_len())?;
+            encoder.put_length_prefixed_slice(self.compact_pointers_[i].1.as_slice())?;
         }
 
         for i in 0..self.deleted_files_.len() {
@@ -249,9 +246,8 @@ impl VersionEdit {
             encoder.put_varint32(self.new_files_[i].0)?;
             encoder.put_varint64(f.get_number())?;
             encoder.put_varint64(f.get_file_size())?;
-            // fixme 需要正确使用put_length_prefixed_slice
-            // encoder.put_length_prefixed_slice( f.get_smallest().encode_len())?;
-            // encoder.put_length_prefixed_slice( f.get_largest().encode_len())?;
+            encoder.put_length_prefixed_slice(f.get_smallest().as_slice())?;
+            encoder.put_length_prefixed_slice(f.get_largest().as_slice())?;
         }
         Ok(())
     }
-- 
2.43.0


From c927f07080769fe8db6d39aabee7d4103751d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 40/41] verification hooks: guarded module visibility
 (verif_hooks) and state inspection (verif_inspect)

---
 src/db/db_format.rs   | 10 ++++++-
 src/db/log_writer.rs  | 16 ++++++++++-
 src/db/mem_table.rs   | 10 ++++++-
 src/db/skip_list.rs   | 19 ++++++++++++-
 src/lib.rs            |  6 ++++
 src/util/arena.rs     | 21 +++++++++++++-
 src/util/cache.rs     | 64 ++++++++++++++++++++++++++++++++++++++++++-
 src/util/coding.rs    | 19 ++++++++++++-
 src/util/histogram.rs | 25 ++++++++++++++++-
 src/util/random.rs    | 14 +++++++++-
 10 files changed, 195 insertions(+), 9 deletions(-)

diff --git a/src/db/db_format.rs b/src/db/db_format.rs
index c504555..949137b 100644
--- a/src/db/db_format.rs
+++ b/src/db/db_format.rs
@@ -362,4 +362,12 @@ impl Config {
 // number in internal keys, we need to use the highest-numbered
 // ValueType, not the lowest).
     pub const K_VALUE_TYPE_FOR_SEEK: ValueType = ValueType::KTypeValue;
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译
+#[cfg(verif_inspect)]
+impl InternalKey {
+    pub fn verif_from_slice(rep: Slice) -> Self {
+        Self { rep_: rep }
+    }
+}
diff --git a/src/db/log_writer.rs b/src/db/log_writer.rs
index 34bbcc2..a72f227 100644
--- a/src/db/log_writer.rs
+++ b/src/db/log_writer.rs
@@ -94,4 +94,18 @@ fn init_type_crc(type_crc: &mut [u32]) {
     for i in 0..=K_MAX_RECORD_TYPE {
         type_crc[i] = [i as u8].as_crc();
     }
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译
+#[cfg(verif_inspect)]
+impl LogWriter {
+    /// 从 block 内的任意位置继续写
+    pub fn verif_at(mut self, block_offset: usize) -> Self {
+        self.block_offset = block_offset;
+        self
+    }
+
+    pub fn verif_block_offset(&self) -> usize {
+        self.block_offset
+    }
+}
diff --git a/src/db/mem_table.rs b/src/db/mem_table.rs
index 4f39d50..f1369ca 100644
--- a/src/db/mem_table.rs
+++ b/src/db/mem_table.rs
@@ -102,4 +102,12 @@ impl<Cmp: Comparator> MemTable<Cmp> {
 mod test {
     #[test]
     fn test() {}
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译
+#[cfg(verif_inspect)]
+impl<Cmp: Comparator> MemTable<Cmp> {
+    pub fn verif_list(&self) -> &SkipList<Cmp> {
+        &self.list
+    }
+}
diff --git a/src/db/skip_list.rs b/src/db/skip_list.rs
index 1e3e042..8ef0312 100644
--- a/src/db/skip_list.rs
+++ b/src/db/skip_list.rs
@@ -490,4 +490,21 @@ impl<Cmp: Comparator> DataIterator for Iter<Cmp> {
     fn status(&self) -> Status {
         todo!()
     }
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译
+#[cfg(verif_inspect)]
+impl<Cmp: Comparator> SkipList<Cmp> {
+    /// 第 level 层上的全部 key
+    pub fn verif_level(&self, level: usize) -> Vec<UnsafeSlice> {
+        let mut out = vec![];
+        unsafe {
+            let mut node = (&*self.head).get_node(level);
+            while !(&*node).is_tail() {
+                out.push((&*node).key.unwrap());
+                node = (&*node).get_node(level);
+            }
+        }
+        out
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index c1c3131..74605e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,9 +3,15 @@
 extern crate core;
 
 pub mod db;
+#[cfg(not(verif_hooks))]
 mod table;
+#[cfg(verif_hooks)]
+pub mod table;
 pub mod util;
+#[cfg(not(verif_hooks))]
 mod traits;
+#[cfg(verif_hooks)]
+pub mod traits;
 
 #[global_allocator]
 static ALLOC: jemallocator::Jemalloc = jemallocator::Jemalloc;
diff --git a/src/util/arena.rs b/src/util/arena.rs
index f0dde7f..325aaa0 100644
--- a/src/util/arena.rs
+++ b/src/util/arena.rs
@@ -123,4 +123,23 @@ impl ArenaAllocLike for Slice {
         // arena 持有这块内存, Slice 需要持有自己的内存
         Slice::from_buf(dst)
     }
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译
+#[cfg(verif_inspect)]
+impl Arena {
+    /// 当前分配指针与当前 block 的剩余字节数
+    pub fn verif_bump(&self) -> (Option<*mut u8>, usize) {
+        (self.alloc_ptr.map(|p| p.as_ptr()), self.alloc_bytes_remaining)
+    }
+
+    pub fn verif_block_count(&self) -> usize {
+        self.blocks.len()
+    }
+
+    /// 第 i 个 block 的地址, 大小和对齐
+    pub fn verif_block(&self, i: usize) -> (*mut u8, usize, usize) {
+        let (ptr, layout) = &self.blocks[i];
+        (ptr.as_ptr(), layout.size(), layout.align())
+    }
+}
diff --git a/src/util/cache.rs b/src/util/cache.rs
index 8957dbf..ad16139 100644
--- a/src/util/cache.rs
+++ b/src/util/cache.rs
@@ -1051,4 +1051,66 @@ fn test_prune() -> Result<()> {
     }
 
     Ok(())
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译: 单个 shard, hash 由调用方给定
+#[cfg(verif_inspect)]
+pub struct VerifShard<T>(LRUCache<T>);
+
+#[cfg(verif_inspect)]
+impl<T> VerifShard<T> {
+    pub fn new(capacity: usize, default_length: usize) -> Self {
+        Self(LRUCache::new_with_capacity(0, capacity, default_length))
+    }
+
+    pub fn insert(&mut self, key: &Slice, hash: u32, value: T, charge: usize) -> Result<()> {
+        self.0.insert(key.clone(), hash, value, charge)
+    }
+
+    pub fn look_up(&self, key: &Slice, hash: u32) -> Result<Option<Arc<T>>> {
+        self.0.look_up(key, hash)
+    }
+
+    pub fn erase(&mut self, key: &Slice, hash: u32) -> Result<usize> {
+        self.0.erase(key, hash)
+    }
+
+    pub fn prune(&mut self) -> Result<()> {
+        self.0.prune()
+    }
+
+    pub fn total_charge(&self) -> usize {
+        self.0.total_charge()
+    }
+
+    pub fn slots(&self) -> usize {
+        self.0.slots()
+    }
+
+    pub fn elements(&self) -> usize {
+        self.0.table.elements
+    }
+
+    /// 从最先被淘汰的开始, 依次列出 (key, charge)
+    pub fn oldest_first(&self) -> Vec<(Slice, usize)> {
+        let mut out = vec![];
+        let mut current = self.0.tail_of_lru;
+        while let Some(handle) = current {
+            let handle = unsafe { handle.as_ref() };
+            out.push((handle.key.clone(), handle.charge));
+            current = handle.prev;
+        }
+        out
+    }
+}
+
+#[cfg(verif_inspect)]
+impl<T> ShardLRUCache<T> {
+    /// 每个 shard 的 (容量, 使用量)
+    pub fn verif_shards(&self) -> Vec<(usize, usize)> {
+        self.shard.iter().map(|s| {
+            let s = s.read().unwrap();
+            (s.capacity, s.usage)
+        }).collect()
+    }
+}
diff --git a/src/util/coding.rs b/src/util/coding.rs
index 383fca7..a2978af 100644
--- a/src/util/coding.rs
+++ b/src/util/coding.rs
@@ -1927,4 +1927,21 @@ fn test_swap_bytes() {
     // 小端存储的0x01,0x02,0x03,0x04解出来的数据要等于0x04030201_u32
     println!("value: {:?}, decode: {:?}", value, decode);
     assert_eq!(value, decode);
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译
+#[cfg(verif_inspect)]
+impl<'a> Encoder<'a> {
+    pub fn verif_at(mut self, offset: usize) -> Self {
+        self.offset = offset;
+        self
+    }
+}
+
+#[cfg(verif_inspect)]
+impl<'a> Decoder<'a> {
+    pub fn verif_at(mut self, offset: usize) -> Self {
+        self.offset = offset;
+        self
+    }
+}
diff --git a/src/util/histogram.rs b/src/util/histogram.rs
index f5d76ca..50d722a 100644
--- a/src/util/histogram.rs
+++ b/src/util/histogram.rs
@@ -433,4 +433,27 @@ fn test_merge() {
     assert_eq!(0.0, histogram.sum_squares);
     assert_eq!(0.0, histogram.buckets[2]);
     assert_eq!(0.0, histogram.buckets[15]);
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译
+#[cfg(verif_inspect)]
+impl Histogram {
+    pub const VERIF_BUCKETS: usize = K_NUM_BUCKETS;
+
+    /// min, max, num, sum, sum_squares
+    pub fn verif_summary(&self) -> [f64; 5] {
+        [self.min, self.max, self.num, self.sum, self.sum_squares]
+    }
+
+    pub fn verif_bucket(&self, i: usize) -> f64 {
+        self.buckets[i]
+    }
+
+    pub fn verif_limit(i: usize) -> f64 {
+        K_BUCKET_LIMIT[i]
+    }
+
+    pub fn verif_from_parts(summary: [f64; 5], buckets: [f64; K_NUM_BUCKETS]) -> Self {
+        Self { min: summary[0], max: summary[1], num: summary[2], sum: summary[3], sum_squares: summary[4], buckets }
+    }
+}
diff --git a/src/util/random.rs b/src/util/random.rs
index 331175a..ac1c78a 100644
--- a/src/util/random.rs
+++ b/src/util/random.rs
@@ -106,4 +106,16 @@ impl Random {
         let bits = 1_u32.wrapping_shl(self.uniform(max_log + 1));
         self.uniform(bits)
     }
-}
\ No newline at end of file
+}
+
+/// 验证用的接口, 仅在 verif_inspect 打开时编译
+#[cfg(verif_inspect)]
+impl Random {
+    pub fn verif_seed(&self) -> u32 {
+        self.seed
+    }
+
+    pub fn verif_with_state(seed: u32) -> Self {
+        Self { seed }
+    }
+}
-- 
2.43.0


From 3fde2c06d7b512c515db954fd5cd7cf9b6069e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 41/41] fix: LogReader went on at a wrong place after a failed
 read

After a read that failed inside a block the reader kept the part read so far
and went on as if the next byte of the file began a block, so that bytes
inside a record could be taken for records of their own. As in LevelDB, what
was read of the block is dropped and the log counts as ended.
---
 src/db/log_reader.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/db/log_reader.rs b/src/db/log_reader.rs
index 8f6fa3d..124b48e 100644
--- a/src/db/log_reader.rs
+++ b/src/db/log_reader.rs
@@ -117,7 +117,15 @@ impl LogReader {
         self.buf_len = 0;
         // 一次 read 不一定能读满一个 block
         while self.buf_len < K_BLOCK_SIZE {
-            let read_len = self.file_reader.read(&mut self.buf[self.buf_len..])?;
+            let read_len = match self.file_reader.read(&mut self.buf[self.buf_len..]) {
+                Ok(read_len) => read_len,
+                Err(e) => {
+                    // 读取失败: 文件位置可能已不在block边界, 丢弃已读数据, 之后视为日志结束
+                    self.buf_len = 0;
+                    self.eof = true;
+                    return Err(e.into());
+                }
+            };
             if read_len == 0 {
                 self.eof = true;
                 break;
-- 
2.43.0

