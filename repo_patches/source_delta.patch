From 694e27007f9b5f8e034408576e1e6772faf3857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 01/20] fix: read key offsets without assuming 4-byte alignment
 in the object builder

---
 src/builder/object.rs | 57 ++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index d282995..8bbe6e4 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -11,6 +11,7 @@ use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
 use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
+use std::cmp::Ordering;
 use std::ptr;
 
 pub(crate) struct InnerObjectBuilder<'a, B: AsMut<Vec<u8>>> {
@@ -71,16 +72,18 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
             return true;
         }
 
-        let begin = self.start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + self.element_count as usize * KEY_OFFSET_SIZE;
-
         let bytes = self.bytes.as_mut();
-        let key_offsets_bytes = bytes[begin..end].as_mut_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / 4) };
-
-        for i in 0..key_offsets.len() - 1 {
-            let cur_key = Self::read_key_by_offset(bytes, key_offsets[i] as usize, self.start_pos);
-            let next_key = Self::read_key_by_offset(bytes, key_offsets[i + 1] as usize, self.start_pos);
+        for i in 0..self.element_count as usize - 1 {
+            let cur_key = Self::read_key_by_offset(
+                bytes,
+                Self::read_key_offset(bytes, self.start_pos, i),
+                self.start_pos,
+            );
+            let next_key = Self::read_key_by_offset(
+                bytes,
+                Self::read_key_offset(bytes, self.start_pos, i + 1),
+                self.start_pos,
+            );
             if cur_key.len() > next_key.len() || (cur_key.len() == next_key.len() && cur_key > next_key) {
                 return false;
             }
@@ -153,21 +156,29 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn binary_search(target: &str, bytes: &[u8], start_pos: usize, value_count: usize) -> usize {
-        let begin = start_pos + ELEMENT_COUNT_SIZE;
-        let end = begin + value_count * KEY_OFFSET_SIZE;
-
-        let key_offsets_bytes = bytes[begin..end].as_ptr() as *mut u32;
-        let key_offsets = unsafe { std::slice::from_raw_parts(key_offsets_bytes, (end - begin) / KEY_OFFSET_SIZE) };
-
-        let found = key_offsets.binary_search_by(|key_offset| {
-            let key = Self::read_key_by_offset(bytes, *key_offset as usize, start_pos);
-            cmp_key(key, target)
-        });
-
-        match found {
-            Ok(v) => v,
-            Err(v) => v,
+        let mut left = 0;
+        let mut right = value_count;
+
+        while left < right {
+            let mid = left + (right - left) / 2;
+            let key_offset = Self::read_key_offset(bytes, start_pos, mid);
+            let key = Self::read_key_by_offset(bytes, key_offset, start_pos);
+            match cmp_key(key, target) {
+                Ordering::Less => left = mid + 1,
+                Ordering::Greater => right = mid,
+                Ordering::Equal => return mid,
+            }
         }
+        left
+    }
+
+    /// Reads the key offset at the given index. The key offsets are not necessarily aligned to 4 bytes.
+    #[inline]
+    fn read_key_offset(bytes: &[u8], start_pos: usize, index: usize) -> usize {
+        let offset_pos = start_pos + ELEMENT_COUNT_SIZE + index * KEY_OFFSET_SIZE;
+        let offset_bytes = &bytes[offset_pos..offset_pos + KEY_OFFSET_SIZE];
+        // SAFETY: The `offset_bytes` must be valid because the slice operation always takes 4 bytes.
+        u32::from_le_bytes(offset_bytes.try_into().unwrap()) as usize
     }
 
     #[inline]
-- 
2.43.0


From 461d5c6e8e4c3eac5c4e1d2d6deac2b2f7dd3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 02/20] fix: zero the skipped bytes instead of exposing
 uninitialized memory

---
 src/vec.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 454c0cd..8a58735 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -75,27 +75,21 @@ impl VecExt for Vec<u8> {
     fn skip_size(&mut self) {
         let new_len = self.len() + OBJECT_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
     fn skip_key_offset(&mut self, element_count: usize) {
         let new_len = self.len() + element_count * KEY_OFFSET_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
     fn skip_value_entry(&mut self, element_count: usize) {
         let new_len = self.len() + element_count * VALUE_ENTRY_SIZE;
         debug_assert!(new_len <= self.capacity());
-        unsafe {
-            self.set_len(new_len);
-        }
+        self.resize(new_len, 0);
     }
 
     #[inline]
-- 
2.43.0


From 869694196d02b29f4cf2965cdb45132c23ed20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 03/20] fix: let [last - n] select the first element and
 nothing from an empty array

---
 src/path/query.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index 1270cd4..0039d34 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -163,7 +163,7 @@ impl<'a, 'b> Selector<'a, 'b> {
             DataType::Array => {
                 let array = unsafe { value.array()? };
                 let len = array.len()?;
-                if len - 1 > minus {
+                if minus < len {
                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                     return self.query_internal(val, step_index + 1);
                 }
@@ -236,7 +236,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                                 }
                             }
                             SingleIndex::Last(minus) => {
-                                if len - 1 > *minus {
+                                if *minus < len {
                                     let val = unsafe { array.lazy_get_unchecked(len - 1 - minus)? };
                                     let found = self.query_internal(val, step_index + 1)?;
                                     if self.for_exists && found {
-- 
2.43.0


From cea780119a4061921f930b4172946e5327244699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 04/20] fix: select nothing when a subscript range is applied
 to an empty array

---
 src/path/query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/path/query.rs b/src/path/query.rs
index 0039d34..f0a76ec 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -404,6 +404,10 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
         Some((b, e))
     }
 
+    if len == 0 {
+        return None;
+    }
+
     let last = len - 1;
     match (begin, end) {
         (SingleIndex::Index(i1), SingleIndex::Index(i2)) => inner(*i1, *i2, len),
-- 
2.43.0


From 7eabf0eb04633b9dde21326ddde5137c97c71ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 05/20] fix: apply a subscript range to a non-array as to a
 one-element array

---
 src/path/query.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index f0a76ec..b996a18 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -380,13 +380,7 @@ fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
             },
 
             SingleStep::Range(left_field, right_field) => {
-                let (left, right) = match (left_field, right_field) {
-                    (SingleIndex::Index(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Index(i1), SingleIndex::Last(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Index(i2))
-                    | (SingleIndex::Last(i1), SingleIndex::Last(i2)) => (i1, i2),
-                };
-                if *left == 0 || *right == 0 {
+                if find_range(left_field, right_field, 1).is_some() {
                     return true;
                 }
             }
@@ -401,7 +395,11 @@ fn find_range(begin: &SingleIndex, end: &SingleIndex, len: usize) -> Option<(usi
     fn inner(u1: usize, u2: usize, len: usize) -> Option<(usize, usize)> {
         let b = u1.min(u2);
         let e = u1.max(u2).min(len - 1);
-        Some((b, e))
+        if b <= e {
+            Some((b, e))
+        } else {
+            None
+        }
     }
 
     if len == 0 {
-- 
2.43.0


From 97e5bcf10010d91c82c72d5a5ae5e8a5c18fc9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 06/20] fix: escape every control character in formatted
 strings

---
 src/format/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 3ee24fa..be1357f 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -326,12 +326,23 @@ const BS: &[u8] = b"\\\\"; // \x5C
 const SS: &[u8] = b"\\/"; // \x2F
 const __: &[u8] = b"";
 
+// Escape sequences of the control characters \x00 - \x1F, JSON does not allow them to appear unescaped in a string.
+const U0: [&[u8]; 16] = [
+    b"\\u0000", b"\\u0001", b"\\u0002", b"\\u0003", b"\\u0004", b"\\u0005", b"\\u0006", b"\\u0007", //
+    b"\\u0008", b"\\u0009", b"\\u000a", b"\\u000b", b"\\u000c", b"\\u000d", b"\\u000e", b"\\u000f",
+];
+const U1: [&[u8]; 16] = [
+    b"\\u0010", b"\\u0011", b"\\u0012", b"\\u0013", b"\\u0014", b"\\u0015", b"\\u0016", b"\\u0017", //
+    b"\\u0018", b"\\u0019", b"\\u001a", b"\\u001b", b"\\u001c", b"\\u001d", b"\\u001e", b"\\u001f",
+];
+
 // Lookup table of escape sequences. A value of b"x" at index i means that byte
 // i is escaped as "x" in Yason. A value of b"" means that byte i is not escaped.
 static ESCAPE: [&[u8]; 256] = [
     //   1   2   3   4   5   6   7   8   9   A   B   C   D   E   F
-    __, __, __, __, __, __, __, __, BB, TT, NN, __, FF, RR, __, __, // 0
-    __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 1
+    U0[0], U0[1], U0[2], U0[3], U0[4], U0[5], U0[6], U0[7], BB, TT, NN, U0[11], FF, RR, U0[14], U0[15], // 0
+    U1[0], U1[1], U1[2], U1[3], U1[4], U1[5], U1[6], U1[7], // 1
+    U1[8], U1[9], U1[10], U1[11], U1[12], U1[13], U1[14], U1[15], // 1
     __, __, QU, __, __, __, __, __, __, __, __, __, __, __, __, SS, // 2
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 3
     __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, __, // 4
-- 
2.43.0


From 7d62ce55b85185c094dbd40201b6654ce494a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 07/20] fix: indent beyond 100 levels instead of panicking in
 the pretty formatter

---
 src/format/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/pretty.rs b/src/format/pretty.rs
index 358867c..1b0cda4 100644
--- a/src/format/pretty.rs
+++ b/src/format/pretty.rs
@@ -145,6 +145,11 @@ impl Formatter for PrettyFormatter<'_> {
 #[inline]
 fn indent<W: fmt::Write>(level: usize, indent: usize, writer: &mut W) -> FormatResult<()> {
     const SPACE_BUF: [u8; 200] = [b' '; 200];
-    writer.write_bytes(&SPACE_BUF[..level * indent])?;
+    let mut remain = level * indent;
+    while remain > 0 {
+        let count = remain.min(SPACE_BUF.len());
+        writer.write_bytes(&SPACE_BUF[..count])?;
+        remain -= count;
+    }
     Ok(())
 }
-- 
2.43.0


From ddeb249ccd7c94814cb284d5fb1ced9dd3e4c4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:33 +0000
Subject: [PATCH 08/20] fix: compare values instead of encoded lengths, equal
 numbers may differ in encoding

---
 src/yason/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index f2abfd1..1c3584b 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -252,7 +252,7 @@ impl Yason {
     #[inline]
     pub fn equals<T: AsRef<Yason>>(&self, other: T) -> YasonResult<bool> {
         let other = other.as_ref();
-        if self.bytes.len() != other.bytes.len() || self.data_type()? != other.data_type()? {
+        if self.data_type()? != other.data_type()? {
             return Ok(false);
         }
 
@@ -543,7 +543,7 @@ impl<'a, const IN_ARRAY: bool> LazyValue<'a, IN_ARRAY> {
 
     #[inline]
     pub fn equals(&self, other: LazyValue<IN_ARRAY>) -> YasonResult<bool> {
-        if self.data_type() != other.data_type() || self.yason.bytes.len() != other.yason.bytes.len() {
+        if self.data_type() != other.data_type() {
             return Ok(false);
         }
 
-- 
2.43.0


From e847a67f564b582c356400aaef726151a5659b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 09/20] fix: reject pushing more elements than declared instead
 of corrupting the document

---
 src/builder/array.rs  | 6 ++++++
 src/builder/object.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 0865bd8..dbaa4ee 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -84,6 +84,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.write_data_type_by_pos(data_type, self.value_entry_pos);
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 8bbe6e4..84c0c87 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -121,6 +121,12 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         if self.current_depth != self.total_nested_depth.depth() {
             return Err(BuildError::InnerUncompletedError);
         }
+        if self.value_count >= self.element_count {
+            return Err(BuildError::InconsistentElementCount {
+                expected: self.element_count,
+                actual: self.value_count.saturating_add(1),
+            });
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From 78f0424000cfc916e2e8602167bc647bbbc6680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 10/20] fix: do not count an element whose nested builder was
 rejected as too deep

---
 src/builder/array.rs  | 6 ++++++
 src/builder/object.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index dbaa4ee..737b6d7 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -108,6 +108,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
         self.push_value(DataType::Object, f)?;
 
         let bytes = self.bytes.as_mut();
@@ -120,6 +123,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
             Ok(())
         };
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
         self.push_value(DataType::Array, f)?;
 
         let bytes = self.bytes.as_mut();
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 84c0c87..ba45965 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -206,6 +206,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
         let size = key.len() + KEY_LENGTH_SIZE;
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
         InnerObjectBuilder::try_new(bytes, element_count, key_sorted, self.total_nested_depth.borrow_mut())
@@ -214,6 +217,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
         let size = key.len() + KEY_LENGTH_SIZE;
+        if self.current_depth >= MAX_NESTED_DEPTH {
+            return Err(BuildError::NestedTooDeeply);
+        }
         self.push_key_value_by(key, size, |_| Ok(()))?;
         let bytes = self.bytes.as_mut();
         InnerArrayBuilder::try_new(bytes, element_count, self.total_nested_depth.borrow_mut())
-- 
2.43.0


From 374df448ba630231e57f02e8f7528109006dd2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:07 +0000
Subject: [PATCH 11/20] fix: reject a too long string before its key is written
 to the object

---
 src/builder/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder/object.rs b/src/builder/object.rs
index ba45965..5174f20 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -227,6 +227,10 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_string(&mut self, key: &str, value: &str) -> BuildResult<()> {
+        if value.len() > MAX_STRING_SIZE {
+            return Err(BuildError::StringTooLong(value.len()));
+        }
+
         let size = KEY_LENGTH_SIZE + key.len() + DATA_TYPE_SIZE + MAX_DATA_LENGTH_SIZE + value.len();
         let f = |bytes: &mut Vec<u8>| {
             bytes.push_data_type(DataType::String);
-- 
2.43.0


From 59df26bd48a93bffe5c3df652a709a46e6e5e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:09 +0000
Subject: [PATCH 12/20] fix: reject object keys longer than the 2-byte key
 length can hold

---
 src/binary.rs         | 1 +
 src/builder/object.rs | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index fb5b2b1..74e8479 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -11,6 +11,7 @@ pub const ELEMENT_COUNT_SIZE: usize = size_of::<u16>();
 pub const KEY_OFFSET_SIZE: usize = size_of::<u32>();
 pub const VALUE_ENTRY_SIZE: usize = DATA_TYPE_SIZE + size_of::<u32>();
 pub const KEY_LENGTH_SIZE: usize = size_of::<u16>();
+pub const MAX_KEY_SIZE: usize = u16::MAX as usize;
 pub const MAX_DATA_LENGTH_SIZE: usize = size_of::<u32>();
 pub const MAX_STRING_SIZE: usize = 268435455; // 2^28 - 1
 pub const NUMBER_LENGTH_SIZE: usize = size_of::<u8>();
diff --git a/src/builder/object.rs b/src/builder/object.rs
index 5174f20..dac9610 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -2,7 +2,7 @@
 
 use crate::binary::{
     BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -127,6 +127,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
                 actual: self.value_count.saturating_add(1),
             });
         }
+        if key.len() > MAX_KEY_SIZE {
+            return Err(BuildError::StringTooLong(key.len()));
+        }
 
         let bytes = self.bytes.as_mut();
         bytes.try_reserve(reserved_size)?;
-- 
2.43.0


From 3fd9756c2ee1925feb756c4de2a8222ecca93fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 13/20] fix: keep whitespace after an unquoted name out of the
 key or method name

---
 src/path/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index fa57038..37a3236 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -393,19 +393,20 @@ impl<'a> PathParser<'a> {
             Some(char) if char.is_ascii_alphabetic() => {
                 let begin = self.pos;
                 self.skip(|i| i.is_ascii_alphabetic() || i.is_ascii_digit());
+                let end = self.pos;
 
                 if DESCENDENT {
-                    let key = self.create_key::<false>(begin, self.pos)?;
+                    let key = self.create_key::<false>(begin, end)?;
                     self.push_step(Step::Descendent(key))
                 } else {
                     self.eat_whitespaces();
                     match self.peek() {
                         Some(LEFT_BRACKET) => {
-                            let field_name = &self.input[begin..self.pos];
+                            let field_name = &self.input[begin..end];
                             self.parse_item_method(field_name)
                         }
                         Some(DOT) | Some(BEGIN_ARRAY) | None => {
-                            let key = self.create_key::<false>(begin, self.pos)?;
+                            let key = self.create_key::<false>(begin, end)?;
                             self.push_step(Step::Object(ObjectStep::Key(key)))
                         }
                         _ => Err(PathParseError::new(
-- 
2.43.0


From 1529d45200c544283778274ac4af731faa1435c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:49 +0000
Subject: [PATCH 14/20] fix: import numbers whose text exceeds the digit and
 exponent limits of the number parser

---
 src/json.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/json.rs b/src/json.rs
index ce41127..424dd0f 100644
--- a/src/json.rs
+++ b/src/json.rs
@@ -135,11 +135,53 @@ fn write_object<T: ObjBuilder>(
     Ok(())
 }
 
+/// Number texts up to this length can be parsed by `Number` as they are.
+const MAX_NUMBER_TEXT_LEN: usize = 256;
+
+/// Rewrites a long number text so that it fits the limits of the `Number` parser, which counts digits in an `i16` and
+/// refuses exponents of more than 3 digits. The first 39 significant digits decide the value, the last of them by rounding.
+fn shorten_number(text: &str) -> BuildResult<String> {
+    const MAX_SIGNIFICANT_DIGITS: usize = 39;
+    const MAX_EXPONENT: i64 = 999;
+
+    let (mantissa, exponent) = text.split_once(|c| c == 'e' || c == 'E').unwrap_or((text, "0"));
+    let (integral, fractional) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+    let (sign, integral) = match integral.strip_prefix('-') {
+        Some(digits) => ("-", digits),
+        None => ("", integral),
+    };
+    // an exponent beyond 64 bits exceeds any number of digits
+    let exponent = exponent.parse::<i64>().unwrap_or(match exponent.starts_with('-') {
+        true => i64::MIN,
+        false => i64::MAX,
+    });
+
+    let zeros = integral
+        .bytes()
+        .chain(fractional.bytes())
+        .take_while(|d| *d == b'0')
+        .count();
+    let digits = integral.chars().chain(fractional.chars()).skip(zeros);
+    let exponent = exponent.saturating_add(integral.len() as i64 - zeros as i64);
+
+    let mut res = String::new();
+    res.try_reserve(64)?;
+    res.push_str(sign);
+    res.push_str("0.");
+    res.extend(digits.take(MAX_SIGNIFICANT_DIGITS));
+    write!(res, "e{}", exponent.max(-MAX_EXPONENT).min(MAX_EXPONENT))
+        .map_err(|_| BuildError::NumberError(NumberError::FormatError))?;
+    Ok(res)
+}
+
 #[inline]
 fn number2decimal(val: &serde_json::Number, buf: &mut String) -> BuildResult<Number> {
     buf.clear();
     buf.try_reserve(256)?;
     write!(buf, "{}", val).map_err(|_| BuildError::NumberError(NumberError::FormatError))?;
+    if buf.len() > MAX_NUMBER_TEXT_LEN {
+        *buf = shorten_number(buf)?;
+    }
     Number::from_str(buf.as_str()).map_or_else(
         |e| match e {
             DecimalParseError::Underflow => Ok(Number::ZERO),
-- 
2.43.0


From 7b440cb1a7c288a893cce21d85f4707f0edeb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 15/20] fix: write nothing for a refused too long string

---
 src/builder/scalar.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/builder/scalar.rs b/src/builder/scalar.rs
index 8ed4b87..4c8a4bb 100644
--- a/src/builder/scalar.rs
+++ b/src/builder/scalar.rs
@@ -1,10 +1,10 @@
 //! Scalar builder.
 
-use crate::binary::{BOOL_SIZE, DATA_TYPE_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE};
+use crate::binary::{BOOL_SIZE, DATA_TYPE_SIZE, MAX_DATA_LENGTH_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE};
 use crate::builder::BuildResult;
 use crate::vec::VecExt;
 use crate::yason::{Yason, YasonBuf};
-use crate::{DataType, Number};
+use crate::{BuildError, DataType, Number};
 use decimal_rs::MAX_BINARY_SIZE;
 
 /// Builder for encoding a scalar value.
@@ -25,6 +25,9 @@ impl Scalar {
     pub fn string_with_vec<T: AsRef<str>>(s: T, bytes: &mut Vec<u8>) -> BuildResult<&Yason> {
         let init_len = bytes.len();
         let s = s.as_ref();
+        if s.len() > MAX_STRING_SIZE {
+            return Err(BuildError::StringTooLong(s.len()));
+        }
         let size = DATA_TYPE_SIZE + MAX_DATA_LENGTH_SIZE + s.len();
         bytes.try_reserve(size)?;
         bytes.push_data_type(DataType::String);
-- 
2.43.0


From 99a852850b86e90d07d706cc3cbc5f4afc30e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 16/20] fix: report more query results than an array can hold
 instead of panicking

---
 src/path/mod.rs  | 3 ++-
 src/yason/mod.rs | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/path/mod.rs b/src/path/mod.rs
index 263e2e6..382d427 100644
--- a/src/path/mod.rs
+++ b/src/path/mod.rs
@@ -196,7 +196,8 @@ fn push_value<'a>(buf: &mut Vec<Value<'a>>, value: Value<'a>) -> YasonResult<()>
 
 #[inline]
 fn values_to_yason<'a>(values: &[Value], bytes: &'a mut Vec<u8>) -> YasonResult<&'a Yason> {
-    let mut builder = ArrayRefBuilder::try_new(bytes, values.len() as u16)?;
+    let count = u16::try_from(values.len()).map_err(|_| YasonError::TooManyValues(values.len()))?;
+    let mut builder = ArrayRefBuilder::try_new(bytes, count)?;
     for value in values {
         match value {
             Value::Object(object) => unsafe { builder.push_object_or_array(object.yason(), DataType::Object)? },
diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 1c3584b..9f82f3c 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -25,6 +25,7 @@ pub enum YasonError {
     UnexpectedType { expected: DataType, actual: DataType },
     InvalidDataType(u8),
     MultiValuesWithoutWrapper,
+    TooManyValues(usize),
     TryReserveError(TryReserveError),
     InvalidPathExpression,
 }
@@ -43,6 +44,7 @@ impl fmt::Display for YasonError {
             YasonError::MultiValuesWithoutWrapper => {
                 write!(f, "multiple values cannot be returned without array wrapper")
             }
+            YasonError::TooManyValues(n) => write!(f, "too many values for an array, the number is {}", n),
             YasonError::TryReserveError(e) => write!(f, "{}", e),
             YasonError::InvalidPathExpression => write!(f, "invalid path expression"),
         }
-- 
2.43.0


From 1f554dc884959a103634807ebab37eb2132159e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 17/20] fix: report a too long string from Value::try_to_yason
 instead of panicking

---
 src/yason/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yason/mod.rs b/src/yason/mod.rs
index 9f82f3c..41bb857 100644
--- a/src/yason/mod.rs
+++ b/src/yason/mod.rs
@@ -26,6 +26,7 @@ pub enum YasonError {
     InvalidDataType(u8),
     MultiValuesWithoutWrapper,
     TooManyValues(usize),
+    StringTooLong(usize),
     TryReserveError(TryReserveError),
     InvalidPathExpression,
 }
@@ -45,6 +46,7 @@ impl fmt::Display for YasonError {
                 write!(f, "multiple values cannot be returned without array wrapper")
             }
             YasonError::TooManyValues(n) => write!(f, "too many values for an array, the number is {}", n),
+            YasonError::StringTooLong(n) => write!(f, "string too long, length is {}", n),
             YasonError::TryReserveError(e) => write!(f, "{}", e),
             YasonError::InvalidPathExpression => write!(f, "invalid path expression"),
         }
@@ -56,6 +58,7 @@ impl From<BuildError> for YasonError {
     fn from(err: BuildError) -> Self {
         match err {
             BuildError::TryReserveError(e) => YasonError::TryReserveError(e),
+            BuildError::StringTooLong(n) => YasonError::StringTooLong(n),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From 6d9f9372e552c822472228063685b48b0c8f0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 18/20] fix: do not count a nested container for which there is
 no memory

---
 src/builder/array.rs  |  9 ++++++++-
 src/builder/object.rs | 12 ++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/builder/array.rs b/src/builder/array.rs
index 737b6d7..78bb429 100644
--- a/src/builder/array.rs
+++ b/src/builder/array.rs
@@ -1,7 +1,8 @@
 //! Array builder.
 
 use crate::binary::{
-    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE, VALUE_ENTRY_SIZE,
+    ARRAY_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE, NUMBER_LENGTH_SIZE,
+    OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::object::InnerObjectBuilder;
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -104,8 +105,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_object(&mut self, element_count: u16, key_sorted: bool) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
+        // reserve the room of the child, so that it is not counted when there is none
+        let size = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * element_count as usize;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
+            bytes.try_reserve(size)?;
             Ok(())
         };
         if self.current_depth >= MAX_NESTED_DEPTH {
@@ -119,8 +123,11 @@ impl<'a, B: AsMut<Vec<u8>>> InnerArrayBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
+        // reserve the room of the child, so that it is not counted when there is none
+        let size = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize;
         let f = |bytes: &mut Vec<u8>, offset: u32, value_entry_pos: usize| {
             bytes.write_offset(offset, value_entry_pos + DATA_TYPE_SIZE);
+            bytes.try_reserve(size)?;
             Ok(())
         };
         if self.current_depth >= MAX_NESTED_DEPTH {
diff --git a/src/builder/object.rs b/src/builder/object.rs
index dac9610..841c0e3 100644
--- a/src/builder/object.rs
+++ b/src/builder/object.rs
@@ -1,8 +1,8 @@
 //! Object builder.
 
 use crate::binary::{
-    BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
-    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE,
+    ARRAY_SIZE, BOOL_SIZE, DATA_TYPE_SIZE, ELEMENT_COUNT_SIZE, KEY_LENGTH_SIZE, KEY_OFFSET_SIZE, MAX_DATA_LENGTH_SIZE,
+    MAX_KEY_SIZE, MAX_STRING_SIZE, NUMBER_LENGTH_SIZE, OBJECT_SIZE, VALUE_ENTRY_SIZE,
 };
 use crate::builder::array::{ArrayRefBuilder, InnerArrayBuilder};
 use crate::builder::{BuildResult, Depth, DEFAULT_SIZE, MAX_NESTED_DEPTH};
@@ -208,7 +208,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
         element_count: u16,
         key_sorted: bool,
     ) -> BuildResult<InnerObjectBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
+        // reserve the room of the child as well, so that it is not counted when there is none
+        let child_size = DATA_TYPE_SIZE + OBJECT_SIZE + ELEMENT_COUNT_SIZE + KEY_OFFSET_SIZE * element_count as usize;
+        let size = key.len() + KEY_LENGTH_SIZE + child_size;
         if self.current_depth >= MAX_NESTED_DEPTH {
             return Err(BuildError::NestedTooDeeply);
         }
@@ -219,7 +221,9 @@ impl<'a, B: AsMut<Vec<u8>>> InnerObjectBuilder<'a, B> {
 
     #[inline]
     fn push_array(&mut self, key: &str, element_count: u16) -> BuildResult<InnerArrayBuilder<&mut Vec<u8>>> {
-        let size = key.len() + KEY_LENGTH_SIZE;
+        // reserve the room of the child as well, so that it is not counted when there is none
+        let child_size = DATA_TYPE_SIZE + ARRAY_SIZE + ELEMENT_COUNT_SIZE + VALUE_ENTRY_SIZE * element_count as usize;
+        let size = key.len() + KEY_LENGTH_SIZE + child_size;
         if self.current_depth >= MAX_NESTED_DEPTH {
             return Err(BuildError::NestedTooDeeply);
         }
-- 
2.43.0


From 2fe439aa20b28a839f3658a0bffc0d115b62c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:18 +0000
Subject: [PATCH 19/20] fix: parse long subscript lists without recursion

---
 src/path/parse.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/path/parse.rs b/src/path/parse.rs
index 37a3236..5427d2d 100644
--- a/src/path/parse.rs
+++ b/src/path/parse.rs
@@ -237,29 +237,30 @@ impl<'a> PathParser<'a> {
 
     #[inline]
     fn parse_array_cell(&mut self, steps: &mut Vec<SingleStep>) -> PathParseResult<()> {
-        let begin = self.parse_last_or_index()?;
-        steps
-            .try_reserve(std::mem::size_of::<Step>())
-            .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
+        loop {
+            let begin = self.parse_last_or_index()?;
+            steps
+                .try_reserve(std::mem::size_of::<Step>())
+                .map_err(|e| PathParseError::new(PathParseErrorKind::TryReserveError(e), self.pos))?;
 
-        self.eat_whitespaces();
-        if self.has_keyword(TO) {
-            self.advance(TO.len());
             self.eat_whitespaces();
+            if self.has_keyword(TO) {
+                self.advance(TO.len());
+                self.eat_whitespaces();
 
-            let end = self.parse_last_or_index()?;
-            steps.push(SingleStep::Range(begin, end));
-        } else {
-            steps.push(SingleStep::Single(begin));
-        }
+                let end = self.parse_last_or_index()?;
+                steps.push(SingleStep::Range(begin, end));
+            } else {
+                steps.push(SingleStep::Single(begin));
+            }
 
-        self.eat_whitespaces();
-        if self.peek() == Some(COMMA) {
+            self.eat_whitespaces();
+            if self.peek() != Some(COMMA) {
+                return Ok(());
+            }
             self.advance(CTRL_CHAR_LEN);
             self.eat_whitespaces();
-            self.parse_array_cell(steps)?;
         }
-        Ok(())
     }
 
     #[inline]
-- 
2.43.0


From a3ad3d361d1d09967c579a420ff4e18b7b4885a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:05 +0000
Subject: [PATCH 20/20] fix: pass array steps on values that are not arrays
 without recursion

---
 src/path/query.rs | 49 +++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/path/query.rs b/src/path/query.rs
index b996a18..181baf2 100644
--- a/src/path/query.rs
+++ b/src/path/query.rs
@@ -38,6 +38,18 @@ impl<'a, 'b> Selector<'a, 'b> {
     ) -> YasonResult<bool> {
         debug_assert!(step_index <= self.steps.len());
 
+        // A value that is not an array is matched by array steps like an array that holds it alone.
+        // There may be any number of such steps, so they are not passed by recursion.
+        let mut step_index = step_index;
+        if value.data_type() != DataType::Array {
+            while let Some(Step::Array(arr_step)) = self.steps.get(step_index) {
+                if !non_array_step_match(arr_step) {
+                    return Ok(false);
+                }
+                step_index += 1;
+            }
+        }
+
         if step_index == self.steps.len() {
             if !self.for_exists {
                 if !self.with_wrapper && !self.query_buf.is_empty() {
@@ -143,11 +155,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     return self.query_internal(val, step_index + 1);
                 }
             }
-            _ => {
-                if index == 0 {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => unreachable!(),
         }
         Ok(false)
     }
@@ -168,11 +176,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     return self.query_internal(val, step_index + 1);
                 }
             }
-            _ => {
-                if minus == 0 {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => unreachable!(),
         }
 
         Ok(false)
@@ -200,11 +204,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     }
                 }
             }
-            _ => {
-                if find_range(begin, end, 1).is_some() {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => unreachable!(),
         }
         Ok(false)
     }
@@ -260,11 +260,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     arr_steps_index += 1;
                 }
             }
-            _ => {
-                if non_array_relaxed_match(arr_steps) {
-                    return self.query_internal(value, step_index + 1);
-                }
-            }
+            _ => unreachable!(),
         }
         Ok(false)
     }
@@ -285,7 +281,7 @@ impl<'a, 'b> Selector<'a, 'b> {
                     }
                 }
             }
-            _ => return self.query_internal(value, step_index + 1),
+            _ => unreachable!(),
         }
 
         Ok(false)
@@ -362,6 +358,17 @@ impl<'a, 'b> Selector<'a, 'b> {
     }
 }
 
+#[inline]
+fn non_array_step_match(step: &ArrayStep) -> bool {
+    match step {
+        ArrayStep::Index(index) => *index == 0,
+        ArrayStep::Last(minus) => *minus == 0,
+        ArrayStep::Range(begin, end) => find_range(begin, end, 1).is_some(),
+        ArrayStep::Multiple(steps) => non_array_relaxed_match(steps),
+        ArrayStep::Wildcard => true,
+    }
+}
+
 #[inline]
 fn non_array_relaxed_match(steps: &[SingleStep]) -> bool {
     for step in steps {
-- 
2.43.0

