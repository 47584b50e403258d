From 799937609adfbcddfa8c3d6c005385c758f965fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 01/29] fix: encode i64 values outside the 12-bit short range
 with their full width

---
 src/encoder/encodable.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ced817f..fc20954 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -31,7 +31,7 @@ impl Encodable for i64 {
     #[allow(clippy::cast_possible_truncation)]
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
         // If this is small enough, store it as a short
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             #[allow(clippy::cast_possible_truncation)]
             return (*self as i16).write_fleece_to(buf, is_wide);
         }
@@ -46,18 +46,20 @@ impl Encodable for i64 {
     }
 
     fn fleece_size(&self) -> usize {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             return 2;
         }
-        if *self >= 0 {
-            8 - self.trailing_zeros() as usize + 1
+        // One bit is always needed for the sign
+        let sign_bits = if *self >= 0 {
+            self.leading_zeros()
         } else {
-            8 - self.trailing_ones() as usize + 1
-        }
+            self.leading_ones()
+        };
+        (64 - sign_bits as usize) / 8 + 1 + 1
     }
     #[allow(clippy::cast_possible_truncation)]
     fn to_sized_value(&self) -> Option<SizedValue> {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             (*self as i16).to_sized_value()
         } else {
             None
-- 
2.43.0


From 71fd52bcdfa8f6f6454c2f3308e0669c7d8a2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 02/29] fix: size u64 values by their leading, not trailing,
 zero bytes

---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index fc20954..123847a 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -90,8 +90,8 @@ impl Encodable for u64 {
         if *self <= 2047 {
             2
         } else {
-            let trailing_zeros = (self.trailing_zeros() + 7) / 8;
-            8 - trailing_zeros as usize + 1
+            let leading_zero_bytes = self.leading_zeros() / 8;
+            8 - leading_zero_bytes as usize + 1
         }
     }
 
-- 
2.43.0


From bcd4ec304639fd8c38868f26e5428e2eac01242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 03/29] fix: report the real encoded size of u16 and i16 values
 which do not fit in a short

---
 src/encoder/encodable.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 123847a..2654535 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -245,6 +245,9 @@ impl Encodable for u16 {
     }
 
     fn fleece_size(&self) -> usize {
+        if *self > 2047 {
+            return u64::from(*self).fleece_size();
+        }
         2
     }
 
@@ -272,6 +275,9 @@ impl Encodable for i16 {
     }
 
     fn fleece_size(&self) -> usize {
+        if *self > 2047 || *self < -2048 {
+            return i64::from(*self).fleece_size();
+        }
         2
     }
 
-- 
2.43.0


From 12ab7be832ceb92a8f221a68abe52533d3202d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 04/29] fix: sign-extend signed ints stored in fewer than 8
 bytes

---
 src/value/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 080b457..1155506 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -266,7 +266,10 @@ impl Value {
             ValueType::Short => i64::from(self.to_short()),
             ValueType::Int | ValueType::UnsignedInt => {
                 let count = (self.bytes[0] & 0x07) as usize + 1;
-                let mut buf = [0u8; 8];
+                // Sign-extend negative signed ints which are stored in fewer than 8 bytes
+                let is_negative =
+                    self.value_type() == ValueType::Int && self.bytes[count] & 0x80 != 0;
+                let mut buf = if is_negative { [0xFFu8; 8] } else { [0u8; 8] };
                 unsafe {
                     core::ptr::copy_nonoverlapping(
                         self.bytes[1..].as_ptr(),
-- 
2.43.0


From b4ed4411ca50c013a675505c789bb0df485f2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 05/29] fix: do not clear a tag bit of inline strings and data
 in narrow collections

---
 src/encoder/encodable.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 2654535..55f0dc4 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -616,7 +616,6 @@ impl Encodable for SizedValue {
                 return None;
             }
             buf[0..2].copy_from_slice(&self.as_bytes()[..2]);
-            buf[0] &= 0xBF;
             unsafe { Some(NonZeroUsize::new_unchecked(2)) }
         }
     }
-- 
2.43.0


From ece83f40d0db675563e0e0618fafa2e657028125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 06/29] fix: measure array pointers from their element when
 choosing the array width

---
 src/encoder/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 224b337..5aebdaa 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -422,13 +422,21 @@ impl Encoder {
         self.out.len() as u32 - offset_from_start
     }
 
+    /// The position of the first element of a collection, if its header is the next thing written.
+    fn _first_element_pos(&self, header_size: usize) -> usize {
+        // The header is padded to even
+        self.out.len() + header_size + header_size % 2
+    }
+
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
+        let mut len = self._first_element_pos(array.fleece_size());
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
+            len += 2;
         }
         false
     }
-- 
2.43.0


From 3a1ebe8686c680e36cee6c805a8a29239d829d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 07/29] fix: measure dict pointers from their sorted element
 when choosing the dict width

---
 src/encoder/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 5aebdaa..de0485b 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -245,14 +245,14 @@ impl Encoder {
             unreachable!()
         };
 
+        dict.values
+            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
+
         let is_wide = self._dict_should_be_wide(&dict);
 
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        dict.values
-            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
-
         self._fix_dict_pointers(&mut dict, is_wide);
 
         for elem in &dict.values {
@@ -443,16 +443,16 @@ impl Encoder {
 
     // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide
     fn _dict_should_be_wide(&self, dict: &value_stack::Dict) -> bool {
-        let mut len = self.out.len();
+        let mut len = self._first_element_pos(dict.fleece_size());
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                let offset = len - *offset as usize;
-                if len - offset > pointer::MAX_NARROW as usize {
+                if len - *offset as usize > pointer::MAX_NARROW as usize {
                     return true;
                 }
             }
+            len += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
-- 
2.43.0


From 4fb3b75d161d479ca4c45c053fa0c2dccd85275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 08/29] fix: keep the open dict when end_array is rejected

---
 src/encoder/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index de0485b..b9016ab 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -196,9 +196,12 @@ impl Encoder {
     /// - If there is no open collection.
     /// - If the top open collection is not an Array.
     pub fn end_array(&mut self) -> Result<()> {
-        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+        let Some(Collection::Array(_)) = self.collection_stack.top() else {
             return Err(EncodeError::ArrayNotOpen);
         };
+        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+            unreachable!()
+        };
         let is_wide = self._array_should_be_wide(&array);
 
         // Write the Array header via `Encodable` trait
-- 
2.43.0


From 77c2ef7a023a30edb8f89811e40cf5b0d301bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 09/29] fix: align the first value when encoding after an
 odd-length prefix

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index b9016ab..d4f8419 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -71,7 +71,11 @@ impl Encoder {
     }
 
     #[must_use]
-    pub fn new_to_vec(out: Vec<u8>) -> Self {
+    pub fn new_to_vec(mut out: Vec<u8>) -> Self {
+        // Values must be evenly aligned
+        if out.len() % 2 != 0 {
+            out.push(0);
+        }
         Self {
             out,
             shared_keys: None,
-- 
2.43.0


From af06999d6d461cd9f849a0dd31b189921bc2685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 10/29] fix: reject varints which are too long or overflow 64
 bits

---
 src/value/varint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value/varint.rs b/src/value/varint.rs
index d0ed50c..4d5472f 100644
--- a/src/value/varint.rs
+++ b/src/value/varint.rs
@@ -12,7 +12,7 @@ pub fn read(data: &[u8]) -> (usize, u64) {
 
     let mut shift: usize = 7;
     let mut res = u64::from(data[0] & 0x7F);
-    let end: usize = data.len().min(MAX_LEN + 1);
+    let end: usize = data.len().min(MAX_LEN);
 
     for (i, byte) in data[1..end].iter().enumerate() {
         if *byte >= 0x80 {
@@ -20,8 +20,8 @@ pub fn read(data: &[u8]) -> (usize, u64) {
             shift += 7;
         } else {
             res |= u64::from(*byte) << shift;
-            // Make sure the varint is below the max length
-            if i == MAX_LEN && *byte > 1 {
+            // The last byte of a varint with the max length only has room for 1 bit
+            if i + 2 == MAX_LEN && *byte > 1 {
                 return (0, 0);
             }
             return (i + 2, res);
-- 
2.43.0


From 3a66d823c778143ae818c5a00c6c330926b61c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 11/29] fix: Array::get must return None for index == len

---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 03a39a8..57cfc70 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -62,7 +62,7 @@ impl Array {
 
     #[must_use]
     pub fn get(&self, index: usize) -> Option<&Value> {
-        if index > self.len() {
+        if index >= self.len() {
             return None;
         }
 
-- 
2.43.0


From ce56a8be91e3ead4adbed2b7f75feec260b3d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 12/29] fix: reject collections whose claimed size overflows

---
 src/value/array.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 57cfc70..221a1eb 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -130,7 +130,7 @@ impl Array {
             if read == 0 {
                 0
             } else if self.value.value_type() == ValueType::Dict {
-                size as usize * 2
+                (size as usize).saturating_mul(2)
             } else {
                 size as usize
             }
@@ -181,9 +181,13 @@ impl Array {
         let width: usize = if is_wide { 4 } else { 2 };
         let elem_count = self.len();
 
-        let first = unsafe { self.value.bytes.as_ptr().add(self.first_pos()) };
-        if (first as usize) + (elem_count * width) > (data_end as usize) {
-            let available_size = data_end as usize - first as usize;
+        let first_pos = self.first_pos();
+        let available_size = data_end as usize - self.value.bytes.as_ptr() as usize;
+        let fits = elem_count
+            .checked_mul(width)
+            .and_then(|size| size.checked_add(first_pos))
+            .map_or(false, |required_size| required_size <= available_size);
+        if !fits {
             return Err(DecodeError::ArrayOutOfBounds {
                 count: elem_count,
                 width,
@@ -191,7 +195,7 @@ impl Array {
             });
         }
 
-        let mut current = first;
+        let mut current = unsafe { self.value.bytes.as_ptr().add(first_pos) };
 
         for _ in 0..elem_count {
             let next = unsafe { current.add(width) };
-- 
2.43.0


From 7c64bdb4bf1d4b83d09e4c887ca0e027f2850eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 13/29] fix: reject strings and data which claim more bytes
 than are available

---
 src/value/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 1155506..6666f7f 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -391,7 +391,7 @@ impl Value {
                 // We don't need to validate that array elements fit within the data, as
                 // Array::validate already does that. This improves benchmark performance by ~15%.
                 if IS_ARR_ELEM
-                    || self.bytes.as_ptr() as usize + self.required_size() <= data_end as usize
+                    || self.required_size() <= data_end as usize - self.bytes.as_ptr() as usize
                 {
                     Ok(())
                 } else {
@@ -420,11 +420,17 @@ impl Value {
             ValueType::Float | ValueType::Double32 => 6,
             ValueType::Double64 => 10,
             ValueType::String | ValueType::Data => {
-                let len = self._get_data().len();
-                match len {
+                match self.bytes[0] & 0x0F {
                     0 | 1 => 2,
-                    2..=0x0E => 1 + len,
-                    _ => 1 + varint::size_required(len as u64) + len,
+                    0x0F => {
+                        let (bytes_read, size) = varint::read(&self.bytes[1..]);
+                        if bytes_read == 0 {
+                            return 2;
+                        }
+                        #[allow(clippy::cast_possible_truncation)]
+                        (1 + bytes_read).saturating_add(size as usize)
+                    }
+                    len => 1 + len as usize,
                 }
             }
             // TODO: This is not correct for MutableArray / MutableDict
@@ -522,8 +528,8 @@ impl Value {
                 return &[];
             }
             #[allow(clippy::cast_possible_truncation)]
-            let end = 1 + bytes_read + size as usize;
-            &self.bytes[1 + bytes_read..end]
+            let end = (1 + bytes_read).saturating_add(size as usize);
+            self.bytes.get(1 + bytes_read..end).unwrap_or(&[])
         } else {
             let end = 1 + inline_size as usize;
             &self.bytes[1..end]
-- 
2.43.0


From e1778962d6590922dc0b490bfd866432c84ee2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 14/29] fix: return an error for external and out of bounds
 pointers

---
 src/value/pointer.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 679bf05..5bb360d 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -32,23 +32,20 @@ impl Pointer {
             return Err(DecodeError::PointerOffsetZero);
         }
 
-        // First get the pointer given by offset, so we can validate before de-referencing
-        #[allow(clippy::cast_possible_wrap)]
-        let target_ptr = unsafe { self.offset(-(offset as isize)) };
-
-        // Is this pointer external to the source data?
-        if self.value.bytes[0] & 0x40 != 0 {
-            // return resolve_external_pointer(target_ptr, data_start, data_end);
-            unimplemented!()
-            // If the pointer isn't external, it should fit within the source data
-        } else if target_ptr < data_start {
+        // External pointers (which point outside the source data) are not supported, so the target
+        // must always be within the source data. Validate that before computing its address.
+        let is_external = self.value.bytes[0] & 0x40 != 0;
+        let position = self.value.bytes.as_ptr() as usize;
+        if is_external || offset as usize > position - data_start as usize {
             return Err(DecodeError::PointerTargetOutOfBounds {
                 data_start: data_start as usize,
-                target: target_ptr as usize,
+                target: position.wrapping_sub(offset as usize),
                 offset,
             });
         }
 
+        #[allow(clippy::cast_possible_wrap)]
+        let target_ptr = unsafe { self.offset(-(offset as isize)) };
         let target = unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) };
 
         if target.value_type() == ValueType::Pointer {
-- 
2.43.0


From adbbe453c07672975182b5e6451ecede1f22a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 15/29] fix: validate the target of a chain of pointers against
 its own bounds

---
 src/value/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 6666f7f..9f8b6e6 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -139,10 +139,10 @@ impl Value {
     pub fn from_bytes(data: &[u8]) -> Result<&Self> {
         let root = Self::_find_root(data)?;
         let data_start = data.as_ptr();
-        let data_end = unsafe { data_start.add(data.len()) };
+        let root_end = root.bytes.as_ptr_range().end;
         // wide parameter doesn't matter here, as it's only used for pointers, and find_root will
         // never return a pointer.
-        root._validate::<false>(false, data_start, data_end)?;
+        root._validate::<false>(false, data_start, root_end)?;
         Ok(root)
     }
 
@@ -385,7 +385,9 @@ impl Value {
             }
             ValueType::Pointer => {
                 let target = Pointer::from_value(self).deref_checked(is_wide, data_start)?;
-                target._validate::<false>(is_wide, data_start, self.bytes.as_ptr())
+                // The target ends where the last pointer in the chain starts
+                let target_end = target.bytes.as_ptr_range().end;
+                target._validate::<false>(is_wide, data_start, target_end)
             }
             _ => {
                 // We don't need to validate that array elements fit within the data, as
-- 
2.43.0


From b10ef9065da09f3117a4eacf8a9e4eaf9a42467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 16/29] fix: do not panic when looking up keys in a dict with
 invalid keys

---
 src/value/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 9f8b6e6..0bfd1a5 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -443,14 +443,8 @@ impl Value {
     }
 
     pub(crate) fn dict_key_cmp(value1: &dict::Key, value2: &Self, is_wide: bool) -> Ordering {
-        debug_assert!(matches!(
-            value2.value_type(),
-            ValueType::String | ValueType::Pointer | ValueType::Short
-        ));
         let value_type2 = value2.value_type();
         match (value1, value_type2) {
-            // Inline strings
-            (dict::Key::String(key), ValueType::String) => (*key).cmp(value2.to_str()),
             // Pointers to strings
             (dict::Key::String(key), ValueType::Pointer) => {
                 let val2 = unsafe {
@@ -458,7 +452,6 @@ impl Value {
                         .deref_unchecked(is_wide)
                         .to_str()
                 };
-                debug_assert_ne!(val2, "", "value2 is not a pointer to a string!");
                 (*key).cmp(val2)
             }
             // SharedKeys
@@ -466,7 +459,8 @@ impl Value {
             // SharedKeys are sorted first in the dict
             (dict::Key::Shared(_), _) => Ordering::Less,
             (_, ValueType::Short) => Ordering::Greater,
-            _ => unreachable!(),
+            // Inline strings. Any other type is not a valid key, and is treated as an empty string.
+            (dict::Key::String(key), _) => (*key).cmp(value2.to_str()),
         }
     }
 
-- 
2.43.0


From 07726514f36e612ef0f2cd8a6533b9a293b04ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 17/29] fix: find dict keys which were written as strings even
 if they are shared keys

---
 src/value/dict.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 55628e9..4e88522 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -90,9 +90,7 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), None);
-
-        self._get(&key)
+        self._get_encoded(key.borrow(), None)
     }
 
     /// The same as [`Dict::get`], but may be more efficient as the caller provides
@@ -101,9 +99,18 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), Some(shared_keys));
+        self._get_encoded(key.borrow(), Some(shared_keys))
+    }
 
-        self._get(&key)
+    /// Encode the key, and get the corresponding value. A key which could be a shared key may still
+    /// have been written as a string, so fall back to that.
+    fn _get_encoded(&self, key: &str, shared_keys: Option<&SharedKeys>) -> Option<&Value> {
+        match self.encode_key(key, shared_keys) {
+            Key::Shared(encoded) => self
+                ._get(&Key::Shared(encoded))
+                .or_else(|| self._get(&Key::String(key))),
+            string_key => self._get(&string_key),
+        }
     }
 
     /// Get the value in this Dict which corresponds to the given encoded key. The key should be
-- 
2.43.0


From abd7adfd435dc4ebafd29830f9f1d7ea6f3fd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 18/29] fix: never match or store truncated shared keys

---
 src/shared_keys.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index c9d15bf..4561fd1 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -5,7 +5,8 @@ use fixedstr::zstr;
 
 use crate::{Encoder, Value, ValueType};
 
-pub struct SharedKeys(folklore::HashMap<zstr<16>, u16>);
+// One byte longer than `SharedKeys::MAX_KEY_LEN`, because the string is zero-terminated.
+pub struct SharedKeys(folklore::HashMap<zstr<17>, u16>);
 
 impl SharedKeys {
     const MAX_KEYS: u16 = 2048;
@@ -30,6 +31,9 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
+        if !Self::fits(string_key) {
+            return None;
+        }
         self.0.get(&zstr::make(string_key))
     }
 
@@ -57,9 +61,12 @@ impl SharedKeys {
 
     #[allow(clippy::cast_possible_truncation)]
     pub fn can_add(&self, key: &str) -> bool {
-        self.len() < Self::MAX_KEYS
-            && key.len() <= Self::MAX_KEY_LEN as usize
-            && Self::can_encode(key)
+        self.len() < Self::MAX_KEYS && Self::fits(key)
+    }
+
+    #[inline]
+    fn fits(key: &str) -> bool {
+        key.len() <= Self::MAX_KEY_LEN as usize && Self::can_encode(key)
     }
 
     #[inline]
@@ -133,7 +140,7 @@ impl<'sk> IntoIterator for &'sk SharedKeys {
     }
 }
 
-pub struct Iter<'a>(folklore::Iter<'a, zstr<16>, u16>);
+pub struct Iter<'a>(folklore::Iter<'a, zstr<17>, u16>);
 
 impl<'sk> Iterator for Iter<'sk> {
     type Item = (&'sk str, u16);
-- 
2.43.0


From 786aa529e6d6d7172321a888057fb43d28c2be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 19/29] fix: encode_and_insert finds existing keys when the
 shared keys are full

---
 src/shared_keys.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 4561fd1..0df69cc 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -40,13 +40,13 @@ impl SharedKeys {
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
     // could insert a key between `index = self.0.len()` and `self.0.insert()`.
     pub fn encode_and_insert(&mut self, key: &str) -> Option<u16> {
+        if let Some(existing) = self.encode(key) {
+            return Some(existing);
+        }
         if !self.can_add(key) {
             return None;
         }
         let key = zstr::make(key);
-        if let Some(existing) = self.0.get(&key) {
-            return Some(existing);
-        }
         let index = self.len();
         if !self.0.insert(key, index) {
             return None;
-- 
2.43.0


From 6528c8376c7d0278e73a7a986df9d4f0cca51b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 20/29] fix: reject shared keys state with elements which are
 not strings

---
 src/shared_keys.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 0df69cc..00e8875 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -87,7 +87,9 @@ impl SharedKeys {
         let state = value.as_array()?;
         let mut shared_keys = Self::new();
         for val in state {
-            debug_assert_eq!(val.value_type(), ValueType::String);
+            if val.value_type() != ValueType::String {
+                return None;
+            }
             let borrowed_key = val.to_str();
             shared_keys.encode_and_insert(borrowed_key)?;
         }
-- 
2.43.0


From 86a393911782a631cdf02f9c75cda2776cc2ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 21/29] fix: do not panic on scopes with empty data

---
 src/scope.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4883491..eee2188 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -65,7 +65,7 @@ impl Scope {
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
-        if let Some(range) = self.range() {
+        if let Some(range) = self.range().filter(|range| !range.is_empty()) {
             scope_map.remove(range);
         }
     }
@@ -91,7 +91,10 @@ impl Scope {
             root,
         });
 
-        scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        // RangeMap panics on empty ranges
+        if start < end {
+            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        }
         scope
     }
 
-- 
2.43.0


From a4a0fd7285720997c91c4ff7674068424b981bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 22/29] fix: deserialize newtype structs

---
 src/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 2b15241..f37a232 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -171,6 +171,13 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         }
     }
 
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
@@ -229,7 +236,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct newtype_struct str tuple_struct identifier ignored_any
+        unit unit_struct str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 27af2a93ea9c6ca9a1585c1fbfa2180066db4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 23/29] fix: deserialize unit structs

---
 src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index f37a232..95399c6 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -171,6 +171,17 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         }
     }
 
+    // Unit structs are serialized as Null
+    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        match self.value.value_type() {
+            ValueType::Null => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
@@ -236,7 +247,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct str tuple_struct identifier ignored_any
+        unit str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From bd46cb2017e835dff35f56c8d2f96c1242d7c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 24/29] fix: MutableArray iterator size_hint must count the
 remaining elements

---
 src/mutable/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 233919c..93139be 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -196,7 +196,7 @@ impl<'a> Iterator for Iter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.arr.len();
+        let len = self.arr.len().saturating_sub(self.index);
         (len, Some(len))
     }
 }
-- 
2.43.0


From cedab7b3caddb6c090620d85ccf8ed66a9104718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 25/29] fix: to_double of unsigned ints above i64::MAX must not
 be negative

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 0bfd1a5..df340cc 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -304,6 +304,7 @@ impl Value {
                 buf.copy_from_slice(&self.bytes[2..10]);
                 f64::from_le_bytes(buf)
             }
+            ValueType::UnsignedInt => self.to_unsigned_int() as f64,
             _ => self.to_int() as f64,
         }
     }
-- 
2.43.0


From d69873e63667dceea848fb6d16b6b8f8e1c490ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 26/29] fix: to_bool of an unsigned zero is false, like any
 other zero

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index df340cc..340fde4 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -209,6 +209,7 @@ impl Value {
             ValueType::False => false,
             ValueType::Short
             | ValueType::Int
+            | ValueType::UnsignedInt
             | ValueType::Float
             | ValueType::Double32
             | ValueType::Double64 => self.to_int() != 0,
-- 
2.43.0


From 14367f9395897138f7967fd3c670422bb226916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 27/29] fix: to_unsigned_int of a float must not go through a
 signed int

---
 src/value/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 340fde4..b3ce8ac 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -288,7 +288,11 @@ impl Value {
     #[allow(clippy::cast_sign_loss)]
     #[must_use]
     pub fn to_unsigned_int(&self) -> u64 {
-        self.to_int() as u64
+        match self.value_type() {
+            // Converting through a signed int would clamp to its range
+            ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as u64,
+            _ => self.to_int() as u64,
+        }
     }
 
     #[allow(clippy::cast_precision_loss)]
-- 
2.43.0


From 7d89c40ada7a94d58df24c6e0121ecd1a8b85f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 28/29] fix: a rejected key must not be written to the output

---
 src/encoder/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index d4f8419..8024246 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -90,6 +90,14 @@ impl Encoder {
     /// - If the last item pushed to the Dict was a key (it is waiting for a value).
     /// - I/O errors related to writing to this Encoder's writer.
     pub fn write_key(&mut self, key: &str) -> Result<()> {
+        // Nothing may be written for a key which is rejected
+        let Some(Collection::Dict(dict)) = self.collection_stack.top() else {
+            return Err(EncodeError::DictNotOpen);
+        };
+        if dict.next_key.is_some() {
+            return Err(EncodeError::DictWaitingForValue);
+        }
+
         if let Some(val) = key.to_sized_value() {
             // Keys which are small enough are inlined.
             self._write_key_inline(val)
-- 
2.43.0


From 859086456cff860fb0937c30cd43f0be158381bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 29/29] fix: a rejected value must not be written to the output

---
 src/encoder/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 8024246..4bf527c 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -120,6 +120,12 @@ impl Encoder {
         if self.collection_stack.empty() {
             return Err(EncodeError::CollectionNotOpen);
         }
+        // Nothing may be written for a value which is rejected
+        if let Some(Collection::Dict(dict)) = self.collection_stack.top() {
+            if dict.next_key.is_none() {
+                return Err(EncodeError::DictWaitingForKey);
+            }
+        }
 
         let value = value.borrow();
         if let Some(val) = value.to_sized_value() {
-- 
2.43.0

