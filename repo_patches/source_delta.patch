From 3a4483edf4d4b7e2349caff37e8d17e115567b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 01/33] fix: SharedBytesBuilder::with_aligned_capacity honours
 the requested alignment

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index f6f01bb..724e258 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -107,12 +107,12 @@ impl SharedBytesBuilder {
             return Self::with_alignment(alignment);
         }
         assert!(alignment <= 512, "SharedBytesBuilder::with_aligned_capacity: alignment must be less than or equal to 512");
-        let align = Self::cap_check(cap, core::mem::align_of::<SharedBytesMeta>());
         let align2 = alignment.next_power_of_two();
         assert!(
             align2 == alignment,
             "SharedBytesBuilder::with_aligned_capacity: alignment must be a power of two"
         );
+        let align = Self::cap_check(cap, alignment);
         #[allow(clippy::cast_possible_truncation)]
         let cap = cap as u32;
         Self::with_capacity_u32(cap, align)
-- 
2.43.0


From 97771d7cadfc542927383bf85a21a3e9b50e1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 02/33] fix: SharedBytesBuilder::reserve panics instead of
 silently reserving too little

---
 src/shared_bytes_builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 724e258..0e96eef 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -154,13 +154,21 @@ impl SharedBytesBuilder {
     }
 
     /// Reserves capacity for at least `additional` more bytes to be written to the buffer.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the buffer cannot grow that large.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
         let off = self.off as usize;
-        if off == 0xFFFF_FFFF || additional == 0 {
+        if additional == 0 {
             return;
         }
         let new_off = off.saturating_add(additional);
+        assert!(
+            new_off <= 0xFFFF_FFFF,
+            "SharedBytesBuilder::reserve: capacity too large"
+        );
         let new_len = if new_off >= 0x0000_8000 {
             (new_off & 0xFFFF_8000)
                 .saturating_add(0x0000_8000)
-- 
2.43.0


From d0c10bd1e7888fe5ae8dce9cba3277f9ab6083ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 03/33] fix: SharedBytesBuilder::truncate does nothing for
 lengths that do not fit in 32 bits

---
 src/shared_bytes_builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 0e96eef..c29de6b 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -293,10 +293,11 @@ impl SharedBytesBuilder {
         if self.len == 0 {
             return;
         }
-        #[allow(clippy::cast_possible_truncation)]
-        let data_off = SharedBytesMeta::compute_start_offset(self.align).saturating_add(len as u32);
-        if self.off > data_off {
-            self.off = data_off;
+        if len < self.len() {
+            #[allow(clippy::cast_possible_truncation)]
+            {
+                self.off = SharedBytesMeta::compute_start_offset(self.align) + len as u32;
+            }
         }
     }
 
-- 
2.43.0


From 6955ce2b3c1d5cdc35e11fd031d22e576d3b9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 04/33] fix: SharedBytesBuilder::apply_borrowed_buf advances
 the written length, not the capacity

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index c29de6b..18b88c5 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -636,7 +636,7 @@ impl SharedBytesBuilder {
         let ret = fun(&mut bb);
         #[allow(clippy::cast_possible_truncation)]
         let len = bb.len() as u32;
-        self.len += len;
+        self.off += len;
         ret
     }
 }
-- 
2.43.0


From 3c77fa04bca1b853287b7232af99879ea5c6c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 05/33] fix: out of range slicing arguments panic instead of
 wrapping around

---
 src/byte_chunk.rs       | 12 ++++++------
 src/external.rs         |  8 ++++----
 src/lib.rs              | 10 ++++++++++
 src/queue/byte_queue.rs |  2 +-
 src/shared_bytes.rs     | 20 +++++++++++---------
 src/stringdata.rs       |  4 ++--
 6 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index cabffe3..16d370b 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -129,11 +129,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => crate::bound_after(start),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => crate::bound_after(end),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -151,11 +151,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => crate::bound_after(start),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => crate::bound_after(end),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -171,11 +171,11 @@ impl ByteChunk {
     ) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => crate::bound_after(start),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => crate::bound_after(end),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
diff --git a/src/external.rs b/src/external.rs
index ed01151..632d008 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -242,11 +242,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&st) => st,
-            core::ops::Bound::Excluded(&st) => st + 1,
+            core::ops::Bound::Excluded(&st) => crate::bound_after(st),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => crate::bound_after(end),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
@@ -275,11 +275,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => crate::bound_after(start),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => crate::bound_after(end),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
diff --git a/src/lib.rs b/src/lib.rs
index ce74d1c..7c23b48 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -231,6 +231,16 @@ mod nom_7;
 #[cfg_attr(docsrs, doc(cfg(feature = "serde_1")))]
 mod serde_1;
 
+/// The position after a range bound.
+#[allow(clippy::panic)]
+#[cfg_attr(not(feature = "alloc"), allow(dead_code))]
+pub(crate) const fn bound_after(bound: usize) -> usize {
+    match bound.checked_add(1) {
+        Some(next) => next,
+        None => panic!("range bound out of bounds"),
+    }
+}
+
 /// Checks if two byte slices are equal in a `const` context.
 /// This is however not a *constant time* equality check, as it will return `false` as early as possible.
 #[must_use]
diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8fbdb8d..afb28ab 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -180,7 +180,7 @@ impl<'a> ByteQueue<'a> {
         };
         let start = match range.start_bound() {
             core::ops::Bound::Included(vv) => *vv,
-            core::ops::Bound::Excluded(vv) => *vv + 1,
+            core::ops::Bound::Excluded(vv) => crate::bound_after(*vv),
             core::ops::Bound::Unbounded => 0,
         };
         assert!(
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index d2b9553..be3cdc7 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -255,7 +255,7 @@ impl SharedBytes {
             "SharedBytes::sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::sliced: offset + len out of bounds"
         );
         if len == 0 {
@@ -288,11 +288,11 @@ impl SharedBytes {
     pub fn sliced_range<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => crate::bound_after(*start),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => crate::bound_after(*end),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
@@ -314,7 +314,7 @@ impl SharedBytes {
             "SharedBytes::into_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::into_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -335,7 +335,7 @@ impl SharedBytes {
             "SharedBytes::make_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::make_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -354,14 +354,15 @@ impl SharedBytes {
     pub fn into_sliced_range<R: RangeBounds<usize>>(self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => crate::bound_after(*start),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => crate::bound_after(*end),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::into_sliced_range: end < start");
         self.into_sliced(start, end - start)
     }
 
@@ -375,14 +376,15 @@ impl SharedBytes {
     pub fn make_sliced_range<R: RangeBounds<usize>>(&mut self, range: R) -> &mut Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => crate::bound_after(*start),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => crate::bound_after(*end),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::make_sliced_range: end < start");
         self.make_sliced(start, end - start)
     }
 
diff --git a/src/stringdata.rs b/src/stringdata.rs
index d434ee9..98c898b 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -284,11 +284,11 @@ impl<'a> StringData<'a> {
         let by = self.data.as_slice();
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => crate::bound_after(*start),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => crate::bound_after(*end),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From dcb088c8fc8b33ae703b4c99fe9d05de4ffdf21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 06/33] fix: memory orderings of the last release and of the
 uniqueness tests

---
 src/bytes_1/shared_bytes.rs | 4 ++--
 src/external.rs             | 4 ++--
 src/shared_bytes.rs         | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 2b186a7..6793a1c 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -48,12 +48,12 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     is_unique: |data| unsafe {
         let p = data.load(Ordering::Relaxed);
         let meta = &*(p as *const crate::SharedBytesMeta);
-        meta.refcnt.load(Ordering::Relaxed) == 1
+        meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe {
         let p = data.load(Ordering::Relaxed) as *mut u8;
         let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+        if meta.refcnt.fetch_sub(1, Ordering::AcqRel) != 1 {
             return;
         }
         let layout =
diff --git a/src/external.rs b/src/external.rs
index 632d008..24f4137 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -361,7 +361,7 @@ impl ExtBytes {
         // SAFETY: `ExtBytesRef.data` is a valid pointer to `ExtBytesWrapper`.
         let ee = unsafe { &*dd.data };
         if ee.kind != core::any::TypeId::of::<T>()
-            || ee.ref_count.load(core::sync::atomic::Ordering::Relaxed) != 1
+            || ee.ref_count.load(core::sync::atomic::Ordering::Acquire) != 1
         {
             return Err(self);
         }
@@ -400,7 +400,7 @@ impl Drop for ExtBytes {
         let header = unsafe { &*ext_ref.data };
         let ref_count = header
             .ref_count
-            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            .fetch_sub(1, core::sync::atomic::Ordering::AcqRel);
         if ref_count == 1 {
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index be3cdc7..454e3ef 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -195,7 +195,7 @@ impl SharedBytes {
         let meta = dat.cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
         let meta = unsafe { &*meta };
-        meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1
+        meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1
     }
 
     /// Returns the bytes as a slice.
@@ -437,7 +437,7 @@ impl Drop for SharedBytes {
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
             let refcnt = &meta.refcnt;
-            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Relaxed) == 1 {
+            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::AcqRel) == 1 {
                 #[allow(clippy::unwrap_used)]
                 let layout =
                     core::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -543,7 +543,7 @@ impl From<SharedBytes> for SharedBytesBuilder {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = unsafe { &*dat_dat.cast::<SharedBytesMeta>() };
         let align = meta.align();
-        if meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1 {
+        if meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1 {
             let len = meta.len;
             let dat_len = dat.len;
             let dataptr = dat_dat.cast_mut();
-- 
2.43.0


From eaafaecec33bb070edd50452e16aedd485f8a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 07/33] fix: turning a still shared buffer into a builder keeps
 alignments above 512

---
 src/shared_bytes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 454e3ef..046eb41 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -569,7 +569,12 @@ impl From<SharedBytes> for SharedBytesBuilder {
                 dat: dataptr,
             }
         } else {
-            let mut ret = Self::with_alignment(align);
+            let mut ret = Self {
+                len: 0,
+                off: SharedBytesMeta::compute_start_offset(align),
+                dat: core::ptr::null_mut(),
+                align,
+            };
             ret.extend_from_slice(dat.as_slice());
             ret
         }
-- 
2.43.0


From c53e298c713b043ba28aa3950d8d1081f91fff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 08/33] fix: ByteData::is_empty of external data that was
 sliced to nothing

---
 src/bytedata.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index cf853eb..e855d1e 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -491,7 +491,14 @@ impl<'a> ByteData<'a> {
             }
             .is_empty(),
             #[cfg(feature = "alloc")]
-            Kind::External => false,
+            // SAFETY: External state has been checked.
+            Kind::External => unsafe {
+                core::mem::transmute::<
+                    &core::mem::ManuallyDrop<crate::external::ExtBytes>,
+                    &crate::external::ExtBytes,
+                >(&self.external)
+            }
+            .len() == 0,
         }
     }
 
-- 
2.43.0


From c05ddb5fb3bc5d0fe08e62037dc1484ace86ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 09/33] fix: ByteData::split_on and StringData::split_on end
 and remove the separator

---
 src/bytedata.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index e855d1e..2c9d659 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -859,7 +859,7 @@ impl<'a> ByteData<'a> {
     where
         'a: 'b,
     {
-        struct It<'a, 'b>(ByteData<'a>, &'b [u8], bool);
+        struct It<'a, 'b>(ByteData<'a>, &'b [u8]);
         impl<'a> Iterator for It<'a, '_> {
             type Item = ByteData<'a>;
 
@@ -874,12 +874,8 @@ impl<'a> ByteData<'a> {
                 } else {
                     return Some(core::mem::replace(&mut self.0, ByteData::empty()));
                 };
-                if aa == 0 && self.2 {
-                    self.2 = false;
-                    return Some(ByteData::empty());
-                }
-                self.2 = false;
                 let aa = self.0.take_bytes(aa);
+                self.0.take_bytes(self.1.len());
                 Some(aa)
             }
 
@@ -895,7 +891,7 @@ impl<'a> ByteData<'a> {
                 }
             }
         }
-        It(self, needle, true)
+        It(self, needle)
     }
 }
 
-- 
2.43.0


From 6d76a38e5ad1c652857b0ff38cee8ab39f5a01c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 10/33] fix: collecting an iterator into ByteData does not
 trust the upper size hint

---
 src/bytedata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 2c9d659..47f7a11 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -1228,7 +1228,7 @@ impl FromIterator<u8> for ByteData<'_> {
     fn from_iter<T: IntoIterator<Item = u8>>(iter: T) -> Self {
         let iter = iter.into_iter();
         let siz = match iter.size_hint() {
-            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8),
+            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8).min(1024),
             (siz, None) => siz,
         };
         let mut dat = crate::shared_bytes_builder::SharedBytesBuilder::with_capacity(siz);
-- 
2.43.0


From 048ee7329a1c58c70bf26f356cf2b30f77e6d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 11/33] fix: StringData::take_line includes the newline

---
 src/stringdata.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringdata.rs b/src/stringdata.rs
index 98c898b..0d3b5a2 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -367,6 +367,7 @@ impl<'a> StringData<'a> {
         let Some(position) = self.as_str().find('\n') else {
             return core::mem::replace(self, Self::empty());
         };
+        let position = position + 1;
         let av = self.sliced(0..position);
         self.make_sliced(position..);
         av
-- 
2.43.0


From 8090a4e3fc475b252747fee821546da8690a382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 12/33] fix: Bytes made from SharedBytes give up their
 reference when turned into Vec or BytesMut

---
 src/bytes_1/shared_bytes.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 6793a1c..1a0dfc0 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -8,6 +8,17 @@ use ::bytes_1 as bytes;
 
 use crate::SharedBytes;
 
+#[cfg(not(feature = "bytes_1_safe"))]
+/// Give up one reference to the shared data.
+unsafe fn release(p: *mut u8) {
+    let meta = &*(p as *const crate::SharedBytesMeta);
+    if meta.refcnt.fetch_sub(1, Ordering::AcqRel) != 1 {
+        return;
+    }
+    let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
+    alloc::alloc::dealloc(p, layout);
+}
+
 #[cfg(not(feature = "bytes_1_safe"))]
 /// A vtable compatible with bytes::Vtable.
 static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
@@ -23,25 +34,21 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         .into_bytes()
     },
-    to_vec: |_data, ptr, len| {
-        if len == 0 {
-            return Vec::new();
-        }
+    to_vec: |data, ptr, len| {
         let mut vec = Vec::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            release(data.load(Ordering::Relaxed) as *mut u8);
         }
         vec
     },
-    to_mut: |_data, ptr, len| {
-        if len == 0 {
-            return bytes::BytesMut::new();
-        }
+    to_mut: |data, ptr, len| {
         let mut vec = bytes::BytesMut::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            release(data.load(Ordering::Relaxed) as *mut u8);
         }
         vec
     },
@@ -51,14 +58,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe {
-        let p = data.load(Ordering::Relaxed) as *mut u8;
-        let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::AcqRel) != 1 {
-            return;
-        }
-        let layout =
-            alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
-        alloc::alloc::dealloc(p, layout);
+        release(data.load(Ordering::Relaxed) as *mut u8);
     },
 };
 
-- 
2.43.0


From 21203bd73dc785c6e1c18f352d7ff74281842eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 13/33] fix: BufMut::put_bytes of zero bytes on an unallocated
 builder

---
 src/bytes_1/shared_bytes_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bytes_1/shared_bytes_builder.rs b/src/bytes_1/shared_bytes_builder.rs
index d6a0fca..9eb0944 100644
--- a/src/bytes_1/shared_bytes_builder.rs
+++ b/src/bytes_1/shared_bytes_builder.rs
@@ -67,6 +67,9 @@ unsafe impl bytes::BufMut for SharedBytesBuilder {
             cnt <= self.remaining_mut(),
             "SharedBytesBuilder::put_bytes: index out of bounds"
         );
+        if cnt == 0 {
+            return;
+        }
         self.reserve(cnt);
         // SAFETY: `off` is within bounds.
         let ptr = unsafe { self.dat.add(self.off as usize) };
-- 
2.43.0


From 0d7a45a2961f7cfe396ca7499b1f1806d1d27797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 14/33] fix: LinkedRoot::append counts a chunk moved into the
 appended queue's first node

---
 src/queue/linked_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 91962b3..892cb48 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -272,8 +272,9 @@ impl<'a> LinkedRoot<'a> {
             other.count -= 1;
             // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
             if let Some(fst) = unsafe { other.first.as_mut() } {
-                if let Err(val) = fst.data.push_front(chamber) {
-                    self.push_back(val);
+                match fst.data.push_front(chamber) {
+                    Ok(()) => other.count += 1,
+                    Err(val) => self.push_back(val),
                 }
             } else {
                 self.push_back(chamber);
-- 
2.43.0


From 18b060dd640312fa62bee730ed11bd2ba348fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 15/33] fix: extending a ByteQueue with text accounts for the
 added bytes

---
 src/queue/byte_queue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index afb28ab..fb26bc3 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -699,7 +699,7 @@ impl<'a> Extend<crate::StringData<'a>> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = crate::StringData<'a>>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(i.into_bytedata());
+            self.push_back(i.into_bytedata());
         }
     }
 }
@@ -708,7 +708,7 @@ impl<'a> Extend<&'a str> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = &'a str>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_borrowed(i.as_bytes()));
+            self.push_back(ByteData::from_borrowed(i.as_bytes()));
         }
     }
 }
@@ -720,7 +720,7 @@ impl Extend<alloc::string::String> for ByteQueue<'_> {
     #[inline]
     fn extend<T: IntoIterator<Item = alloc::string::String>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_owned(i.into_bytes()));
+            self.push_back(ByteData::from_owned(i.into_bytes()));
         }
     }
 }
-- 
2.43.0


From 2f5ad12d58e9d63dcdb16a4cf93d1bb945f4612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 16/33] fix: searching a queue for a byte sequence finds the
 first match and ends

---
 src/queue/byte_queue.rs | 68 ++++++++++-------------------------------
 1 file changed, 16 insertions(+), 52 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index fb26bc3..9e9a6e6 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -299,7 +299,10 @@ impl<'a> ByteQueue<'a> {
         start_byte: usize,
     ) -> Option<(usize, usize, usize)> {
         if data.is_empty() {
-            return Some((0, 0, 0));
+            if start_byte > self.len() {
+                return None;
+            }
+            return Some((start_byte, start_chunk, start_offset));
         }
         self.find_slice_pos_nonempty(data, start_chunk, start_offset, start_byte)
     }
@@ -316,67 +319,28 @@ impl<'a> ByteQueue<'a> {
         // the first byte in the sequence to match possible sequences
         let first_byte = data[0];
 
-        'outer: loop {
-            let mut chunks = self.chunks().skip(start_chunk);
-            let mut sect = chunks.next()?;
-            let len = sect.len();
+        for chunk in self.chunks().skip(start_chunk) {
+            let chunk = chunk.as_slice();
+            let len = chunk.len();
             if start_offset >= len {
                 start_offset -= len;
                 start_chunk += 1;
                 continue;
             }
-            let marked_byte = loop {
-                let sl = &sect.as_slice()[start_offset..];
-                let Some(av) = sl.iter().position(|x| *x == first_byte) else {
-                    sect = match chunks.next() {
-                        Some(vv) => vv,
-                        _ => return None,
-                    };
-                    start_offset = 0;
-                    start_chunk += 1;
-                    continue;
-                };
+            while let Some(av) = chunk[start_offset..].iter().position(|x| *x == first_byte) {
                 start_offset += av;
                 start_byte += av;
-                break start_byte;
-            };
-            let marked_chunk = start_chunk;
-            let marked_offset = start_offset;
-            let mut found_in = false;
-            let mut skipped_bytes = 0;
-            let data = data.iter().skip(1);
-            let mut sl = sect.as_slice()[(start_offset + 1)..].iter();
-            for av in data {
-                let bv = loop {
-                    let nxt = sl.next();
-                    let Some(bv) = nxt else {
-                        sect = match chunks.next() {
-                            Some(vv) => vv,
-                            _ => return None,
-                        };
-                        sl = sect.as_slice().iter();
-                        continue;
-                    };
-                    break *bv;
-                };
-                if !found_in && bv == first_byte {
-                    found_in = true;
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                    start_offset -= 1;
-                }
-                if bv == *av {
-                    skipped_bytes += 1;
-                    continue;
-                }
-                if !found_in {
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
+                if self.exists_at(start_byte, data) {
+                    return Some((start_byte, start_chunk, start_offset));
                 }
-                continue 'outer;
+                start_offset += 1;
+                start_byte += 1;
             }
-            return Some((marked_byte, marked_chunk, marked_offset));
+            start_byte += len - start_offset;
+            start_offset = 0;
+            start_chunk += 1;
         }
+        None
     }
 
     /// Split the queue on a certain byte sequence.
-- 
2.43.0


From b2e57b134726358c2ef9cada7a5d8ee3b92e5c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 17/33] fix: splitting a queue removes the separator and moves
 on to the next piece

---
 src/queue/split.rs | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/queue/split.rs b/src/queue/split.rs
index 4eedbdf..76d1774 100644
--- a/src/queue/split.rs
+++ b/src/queue/split.rs
@@ -37,31 +37,11 @@ impl<'a> Iterator for SplitOn<'a, '_> {
                 this.start_offset,
                 this.start_byte,
             );
-            if let Some((chunk, offset, byte)) = val {
-                let mut chunks = this.queue.chunks().skip(this.start_chunk);
-                let new_q = if this.start_chunk == chunk {
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    super::ByteQueue::with_item(chunk_next.sliced(this.start_offset..offset))
-                } else {
-                    let mut new_q = super::ByteQueue::new();
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    new_q.push_back(chunk_next.sliced(this.start_offset..));
-                    for chunkdata in chunks.take(chunk - this.start_chunk - 1) {
-                        new_q.push_back(chunkdata.clone());
-                    }
-                    if offset != 0 {
-                        chunks = this.queue.chunks().skip(chunk);
-                        #[allow(clippy::unwrap_used)]
-                        let chunk_nexter = chunks.next().unwrap();
-                        new_q.push_back(chunk_nexter.sliced(..offset));
-                    }
-                    new_q
-                };
+            if let Some((byte, chunk, offset)) = val {
+                let new_q = this.queue.slice(this.start_byte..byte);
                 this.start_chunk = chunk;
-                this.start_offset = offset;
-                this.start_byte = byte;
+                this.start_offset = offset + this.needle.len();
+                this.start_byte = byte + this.needle.len();
                 if this.max != 0 {
                     this.max -= 1;
                 }
-- 
2.43.0


From 24f392a8bdf8f3f2842885ad9501651d3bec3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 18/33] fix: the hash of a ByteQueue depends on its content
 only

---
 src/queue/byte_queue.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 9e9a6e6..794de98 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -859,8 +859,9 @@ impl Eq for ByteQueue<'_> {}
 impl core::hash::Hash for ByteQueue<'_> {
     #[inline]
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
-        for chunk in self.chunks() {
-            chunk.as_slice().hash(state);
+        state.write_usize(self.len());
+        for byte in self.bytes() {
+            state.write_u8(byte);
         }
     }
 }
-- 
2.43.0


From b5126d292ed39507072fe2a68e43339a1bbabcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 19/33] fix: OwnedByteIter::take keeps exactly the requested
 number of bytes

---
 src/queue/byte_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 9005032..576684c 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -186,7 +186,7 @@ impl<'a> OwnedByteIter<'a> {
             if self.len() >= n {
                 continue;
             }
-            av.make_sliced(..av.len() - n);
+            av.make_sliced(..n - self.len());
             self.inner.push_back(av);
             break;
         }
-- 
2.43.0


From 9a216aafc62959aef24a964e53622454d4ce99d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 20/33] fix: ByteIter::skip and nth do not overflow

---
 src/queue/byte_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 576684c..9a6f7d8 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -26,7 +26,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     #[inline]
     #[must_use]
     pub const fn skip(mut self, n: usize) -> Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
@@ -38,7 +38,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     /// Skip the next `n` bytes.
     #[inline]
     pub(crate) fn skip_mut(&mut self, n: usize) -> &mut Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
-- 
2.43.0


From 4cfac1afeac4440c916f9270ebd0d3a9419d0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 21/33] fix: StringQueue::slice checks the boundaries of an
 empty range

---
 src/queue/string_queue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 4fce109..1d23e03 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -195,7 +195,8 @@ impl<'a> StringQueue<'a> {
             }
             StringQueue { queue: slic }
         }
-        let slic = self.queue.slice(range);
+        let (start, end) = self.check_range(range);
+        let slic = self.queue.slice(start..end);
         if slic.is_empty() {
             return Self::new();
         }
-- 
2.43.0


From 308a53256a8dd23c9765c80c62530261599744a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 22/33] fix: Read::read of ByteData and SharedBytes accepts a
 buffer larger than the data

---
 src/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index 2731f71..a4ce064 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -44,7 +44,7 @@ impl Read for ByteData<'_> {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len..);
         Ok(len)
     }
@@ -111,7 +111,7 @@ impl Read for SharedBytes {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len, self.len() - len);
         Ok(len)
     }
-- 
2.43.0


From eddab750b039f434400d4977ec109d4599d99c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 23/33] fix: vectored reads do not read past the end of the
 data

---
 src/std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.rs b/src/std.rs
index a4ce064..e6fe767 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -28,7 +28,7 @@ fn read_vectored_inner(mut slic: *const u8, len: usize, bufs: &mut [IoSliceMut<'
             continue;
         }
 
-        let blen = buf.len().min(len);
+        let blen = buf.len().min(left);
         // SAFETY: we know that the buffer is large enough as we checked it before
         unsafe { core::ptr::copy_nonoverlapping(slic, buf.as_mut_ptr(), blen) };
         // SAFETY: the pointer gets moved by `blen` which is guaranteed to be in bounds
-- 
2.43.0


From 15ca3520ad016508571ba1dbe523be4ae2ad983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 24/33] fix: a full queue that refuses a push keeps its length

---
 src/queue/byte_queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 794de98..4fb7487 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -60,8 +60,9 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
         self.queue.push_back(data);
+        self.remain += len;
     }
 
     /// Prepend bytes into the queue.
@@ -71,8 +72,9 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
         self.queue.push_front(data);
+        self.remain += len;
     }
 
     /// Remove bytes from the front of the queue.
-- 
2.43.0


From d7dd0657ca56b3e9285b2655000a7b092a00970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 25/33] fix: const_utf8_char_next decodes multi-byte characters
 and rejects ill-formed ones

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c23b48..7435635 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -549,32 +549,36 @@ pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
     };
     let first = *first;
     let mut value;
-    let len = if first & 0b1000_0000 == 0 {
+    let (len, min) = if first & 0b1000_0000 == 0 {
         return (first as u32, 1);
     } else if first & 0b1110_0000 == 0b1100_0000 {
         value = (first & 0b0001_1111) as u32;
-        2
+        (2, 0x80)
     } else if first & 0b1111_0000 == 0b1110_0000 {
         value = (first & 0b0000_1111) as u32;
-        3
+        (3, 0x800)
     } else if first & 0b1111_1000 == 0b1111_0000 {
         value = (first & 0b0000_0111) as u32;
-        4
+        (4, 0x1_0000)
     } else {
         return (0, 0);
     };
-    if data.len() < len {
+    // `data` is what follows the first byte
+    if data.len() < len - 1 {
         return (0, 0);
     }
     let mut i = 1;
     while i < len {
-        let byte = data[i];
+        let byte = data[i - 1];
         if byte & 0b1100_0000 != 0b1000_0000 {
             return (0, 0);
         }
         value = (value << 6_u8) | (byte & 0b0011_1111) as u32;
         i += 1;
     }
+    if value < min || core::char::from_u32(value).is_none() {
+        return (0, 0);
+    }
     #[allow(clippy::cast_possible_truncation)]
     (value, len as u32)
 }
-- 
2.43.0


From 6315644ab9f358021c6fd95e6e8f70a59bfb21a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 26/33] fix: Utf8CharIndices reports overlong encodings as
 errors

---
 src/char_indicies.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/char_indicies.rs b/src/char_indicies.rs
index 865180b..8a67956 100644
--- a/src/char_indicies.rs
+++ b/src/char_indicies.rs
@@ -52,12 +52,12 @@ impl<'a> Utf8CharIndices<'a> {
     pub const fn next_const(mut self) -> Result<(Self, usize, char), (Self, Utf8CharError)> {
         /// Parse the next multi-byte UTF-8 character from the input.
         const fn inner(mut data: *const u8, max: usize, first: u8) -> Result<(char, u8), u8> {
-            let (char, width) = if first & 0b1110_0000 == 0b1100_0000 {
-                (first & 0b0001_1111, 2_u8)
+            let (char, width, min) = if first & 0b1110_0000 == 0b1100_0000 {
+                (first & 0b0001_1111, 2_u8, 0x80_u32)
             } else if first & 0b1111_0000 == 0b1110_0000 {
-                (first & 0b0000_1111, 3_u8)
+                (first & 0b0000_1111, 3_u8, 0x800_u32)
             } else if first & 0b1111_1000 == 0b1111_0000 {
-                (first & 0b0000_0111, 4_u8)
+                (first & 0b0000_0111, 4_u8, 0x1_0000_u32)
             } else {
                 return Err(1);
             };
@@ -81,10 +81,9 @@ impl<'a> Utf8CharIndices<'a> {
                 i += 1;
             }
 
-            if let Some(char) = core::char::from_u32(char) {
-                Ok((char, width))
-            } else {
-                Err(width)
+            match core::char::from_u32(char) {
+                Some(val) if char >= min => Ok((val, width)),
+                _ => Err(width),
             }
         }
 
-- 
2.43.0


From 37c07851652580f36bc51a2a934f2273f34ad9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 27/33] fix: const_slice_str accepts an empty range at the end
 of the string

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7435635..dac0f56 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -390,7 +390,7 @@ pub const fn const_slice_str(data: &'_ str, range: core::ops::Range<usize>) -> S
     if start > end || end > data.len() {
         return StrSliceResult::OutOfBounds;
     }
-    if start != 0 && data[start] & 0b1100_0000 == 0b1000_0000 {
+    if start != data.len() && data[start] & 0b1100_0000 == 0b1000_0000 {
         return StrSliceResult::InvalidUtf8;
     }
     if end != data.len() && data[end] & 0b1100_0000 == 0b1000_0000 {
-- 
2.43.0


From c8bcb4fe9bf11b2935619860b54a1ed267a5007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 28/33] fix: nom split_at_position1 reports a recoverable
 error, also for empty complete input

---
 src/nom_7/bytedata.rs    | 7 +++++--
 src/nom_7/bytequeue.rs   | 5 +++--
 src/nom_7/stringdata.rs  | 7 +++++--
 src/nom_7/stringqueue.rs | 5 +++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 93b5719..44b00c1 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -214,7 +214,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -253,11 +253,14 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index e9d8469..ab90cae 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -277,7 +277,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
@@ -309,8 +309,9 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
         P: Fn(Self::Item) -> bool,
     {
         match self.find_byte(predicate) {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index fe9114e..6f4ef33 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -254,7 +254,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -291,11 +291,14 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 3be4e80..920b065 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -261,7 +261,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
@@ -301,8 +301,9 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .find(|&(_, ch)| predicate(ch))
             .map(|(i, _)| i);
         match a {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
-- 
2.43.0


From 196a4f3c64272778b295f51378a2f0b18a301c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 29/33] fix: nom iter_indices, position and slice_index of text
 work in byte offsets

---
 src/nom_7/mod.rs         |  8 ++++++++
 src/nom_7/stringdata.rs  |  4 ++--
 src/nom_7/stringqueue.rs | 25 +++++++++++++++++++------
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/mod.rs b/src/nom_7/mod.rs
index 99a944b..e2112b1 100644
--- a/src/nom_7/mod.rs
+++ b/src/nom_7/mod.rs
@@ -1,3 +1,11 @@
+/// Pair each character with its byte offset.
+#[allow(clippy::unnecessary_wraps)]
+fn char_index(offset: &mut usize, ch: char) -> Option<(usize, char)> {
+    let at = *offset;
+    *offset += ch.len_utf8();
+    Some((at, ch))
+}
+
 mod bytedata;
 mod stringdata;
 
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index 6f4ef33..8e3a3d8 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -176,12 +176,12 @@ impl nom::HexDisplay for crate::StringData<'_> {
 
 impl nom::InputIter for crate::StringData<'_> {
     type Item = char;
-    type Iter = core::iter::Enumerate<Self>;
+    type Iter = core::iter::Scan<Self, usize, fn(&mut usize, char) -> Option<(usize, char)>>;
     type IterElem = Self;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone())
+        Iterator::scan(self.clone(), 0, super::char_index)
     }
 
     #[inline]
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 920b065..942dbfb 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -172,12 +172,16 @@ impl nom::HexDisplay for crate::StringQueue<'_> {
 
 impl<'a> nom::InputIter for crate::StringQueue<'a> {
     type Item = char;
-    type Iter = core::iter::Enumerate<crate::queue::OwnedCharIter<'a>>;
+    type Iter = core::iter::Scan<
+        crate::queue::OwnedCharIter<'a>,
+        usize,
+        fn(&mut usize, char) -> Option<(usize, char)>,
+    >;
     type IterElem = crate::queue::OwnedCharIter<'a>;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone().into_chars())
+        Iterator::scan(self.clone().into_chars(), 0, super::char_index)
     }
 
     #[inline]
@@ -190,15 +194,24 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.chars().position(predicate)
+        self.chars_indecies()
+            .find(|&(_, ch)| predicate(ch))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Result<usize, nom::Needed> {
-        if self.len() >= count {
-            Ok(count)
+        let mut rest = count;
+        for (i, _) in self.chars_indecies() {
+            if rest == 0 {
+                return Ok(i);
+            }
+            rest -= 1;
+        }
+        if rest == 0 {
+            Ok(self.len())
         } else {
-            Err(nom::Needed::new(count - self.len()))
+            Err(nom::Needed::Unknown)
         }
     }
 }
-- 
2.43.0


From 79565d194c4bcdc701cef705d3d2ec3eeea0730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 30/33] fix: arbitrary text from exhausted entropy ends

---
 src/arbitrary_1/stringdata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arbitrary_1/stringdata.rs b/src/arbitrary_1/stringdata.rs
index 8e93ad4..bee1e00 100644
--- a/src/arbitrary_1/stringdata.rs
+++ b/src/arbitrary_1/stringdata.rs
@@ -107,7 +107,8 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             #[cfg(feature = "alloc")]
             &Choice::Shared => {
                 let mut buffer = crate::SharedBytesBuilder::new();
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     buffer.reserve(4);
                     buffer.apply_unfilled(|buf| {
                         // SAFETY: The bytes may be uninitialized, but we are about to fill them.
-- 
2.43.0


From 6cac025a141fb13b893884cddbc4944141194b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 31/33] fix: formatter options apply to the text of a
 StringQueue, not to each chunk

---
 src/queue/string_queue.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 1d23e03..484f401 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -539,8 +539,36 @@ impl core::fmt::Display for crate::StringQueue<'_> {
     #[inline]
     #[allow(clippy::min_ident_chars)]
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        use core::fmt::{Alignment, Write};
+
+        let chars = match f.precision() {
+            Some(max) => self.chars().take(max).count(),
+            None => self.chars().count(),
+        };
+        let pad = f.width().map_or(0, |width| width.saturating_sub(chars));
+        let before = match f.align() {
+            Some(Alignment::Right) => pad,
+            Some(Alignment::Center) => pad >> 1_u8,
+            Some(Alignment::Left) | None => 0,
+        };
+        let fill = f.fill();
+        for _ in 0..before {
+            f.write_char(fill)?;
+        }
+        let mut left = chars;
         for chunk in self.chunks() {
-            core::fmt::Display::fmt(chunk, f)?;
+            let st = chunk.as_str();
+            match st.char_indices().nth(left) {
+                Some((end, _)) => {
+                    f.write_str(&st[..end])?;
+                    break;
+                }
+                None => f.write_str(st)?,
+            }
+            left -= st.chars().count();
+        }
+        for _ in before..pad {
+            f.write_char(fill)?;
         }
         Ok(())
     }
-- 
2.43.0


From efcc969a2f15c5756c259c3774ecb58926156343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 32/33] fix: byte values deserialize from the sequence of bytes
 that formats without byte strings write

---
 src/serde_1/bytedata.rs     | 14 +++++++++++++-
 src/serde_1/mod.rs          | 12 ++++++++++++
 src/serde_1/shared_bytes.rs |  7 ++++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 0bad6f7..bcdfede 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -92,7 +92,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
     }
 }
 
-impl serde::de::Visitor<'_> for StaticByteDataVisitor {
+impl<'de> serde::de::Visitor<'de> for StaticByteDataVisitor {
     type Value = ByteData<'static>;
 
     #[inline]
@@ -124,6 +124,12 @@ impl serde::de::Visitor<'_> for StaticByteDataVisitor {
     fn visit_byte_buf<E: serde::de::Error>(self, v: alloc::vec::Vec<u8>) -> Result<Self::Value, E> {
         Ok(ByteData::from_owned(v))
     }
+
+    #[cfg(feature = "alloc")]
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::collect_bytes(seq).map(ByteData::from_owned)
+    }
 }
 
 struct ByteDataVisitor;
@@ -166,6 +172,12 @@ impl<'de> serde::de::Visitor<'de> for ByteDataVisitor {
     fn visit_byte_buf<E: serde::de::Error>(self, v: alloc::vec::Vec<u8>) -> Result<Self::Value, E> {
         Ok(ByteData::from_owned(v))
     }
+
+    #[cfg(feature = "alloc")]
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::collect_bytes(seq).map(ByteData::from_owned)
+    }
 }
 
 /// Deserialize a byte sequence to a borrowed `ByteData` using `serde`.
diff --git a/src/serde_1/mod.rs b/src/serde_1/mod.rs
index 983bdac..8fa9898 100644
--- a/src/serde_1/mod.rs
+++ b/src/serde_1/mod.rs
@@ -6,6 +6,18 @@ mod stringdata;
 #[cfg(feature = "alloc")]
 mod shared_bytes;
 
+/// Collect the bytes of a sequence: formats without byte strings serialize bytes this way.
+#[cfg(feature = "alloc")]
+fn collect_bytes<'de, A: serde::de::SeqAccess<'de>>(
+    mut seq: A,
+) -> Result<alloc::vec::Vec<u8>, A::Error> {
+    let mut vec = alloc::vec::Vec::new();
+    while let Some(byte) = seq.next_element()? {
+        vec.push(byte);
+    }
+    Ok(vec)
+}
+
 struct OptVisit<V>(V);
 
 impl<
diff --git a/src/serde_1/shared_bytes.rs b/src/serde_1/shared_bytes.rs
index f5be801..3426a41 100644
--- a/src/serde_1/shared_bytes.rs
+++ b/src/serde_1/shared_bytes.rs
@@ -13,7 +13,7 @@ impl serde::ser::Serialize for SharedBytes {
 
 struct ByteDataVisitor;
 
-impl serde::de::Visitor<'_> for ByteDataVisitor {
+impl<'de> serde::de::Visitor<'de> for ByteDataVisitor {
     type Value = SharedBytes;
 
     #[inline]
@@ -35,6 +35,11 @@ impl serde::de::Visitor<'_> for ByteDataVisitor {
     {
         Ok(v.into())
     }
+
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::collect_bytes(seq).map(SharedBytes::from)
+    }
 }
 
 #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
-- 
2.43.0


From a8c880cb3f4f4f2b4fe6112702c2f99cbbfa06bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 33/33] fix: a queue made from an empty chunk holds no chunk,
 also without `alloc`

---
 src/queue/linked_root.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 892cb48..88b7d22 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -36,9 +36,10 @@ impl<'a> LinkedRoot<'a> {
 
     #[inline]
     pub(super) const fn with_item(item: ByteData<'a>) -> Self {
-        Self {
-            data: super::linked_node_data::LinkedNodeData::with_item(item),
-        }
+        let len = if item.is_empty() { 0 } else { 1 };
+        let mut data = super::linked_node_data::LinkedNodeData::with_item(item);
+        data.len = len;
+        Self { data }
     }
 
     #[inline]
-- 
2.43.0

