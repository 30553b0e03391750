From 8e64e925b779f6b7c8eb3c6911ae7392e3693b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 01/11] fix: keep iterator bounds half-open so empty clouds,
 exhausted reverse iteration and edge splits do not under-/overflow

---
 rpcl2/src/iterator.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index a6d703c..0fabbaf 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -51,12 +51,12 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.iteration_back < self.iteration {
+        if self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
-        let p = self.data.point_at(self.iteration_back);
         self.iteration_back -= 1;
+        let p = self.data.point_at(self.iteration_back);
         Some(C::from(p))
     }
 }
@@ -149,7 +149,7 @@ where
     }
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.iteration >= self.data.len() || self.iteration_back < self.iteration {
+        if self.iteration >= self.data.len() || self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
@@ -198,7 +198,7 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     fn len(&self) -> usize {
-        self.end_point_idx - self.start_point_idx + 1
+        self.end_point_idx - self.start_point_idx
     }
 
     #[inline]
@@ -226,7 +226,7 @@ impl<const N: usize> ByteBufferView<N> {
         Self {
             data: self.data.clone(),
             start_point_idx: start,
-            end_point_idx: start + size - 1,
+            end_point_idx: start + size,
             point_step_size: self.point_step_size,
             offsets: self.offsets,
             pdata: self.pdata.clone(),
@@ -339,7 +339,7 @@ where
             cloud.data,
             point_step_size,
             0,
-            cloud_length - 1,
+            cloud_length,
             offsets,
             pdata,
             cloud.endian,
@@ -347,7 +347,7 @@ where
 
         Ok(Self {
             iteration: 0,
-            iteration_back: cloud_length - 1,
+            iteration_back: cloud_length,
             data,
             _phantom: core::marker::PhantomData,
         })
@@ -363,7 +363,7 @@ where
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
         Self {
             iteration: 0,
-            iteration_back: data.len() - 1,
+            iteration_back: data.len(),
             data,
             _phantom: core::marker::PhantomData,
         }
-- 
2.43.0


From 8a9565b52699bf233211cd099c04772ee99a0776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 02/11] fix: panic on out of range split indices instead of
 creating views outside of the buffer

---
 rpcl2/src/iterator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 0fabbaf..98c036d 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -239,6 +239,11 @@ impl<const N: usize> ByteBufferView<N> {
         let left_start = self.start_point_idx;
         let left_size = point_index;
 
+        assert!(
+            point_index <= self.len(),
+            "split index out of range for the point cloud"
+        );
+
         let right_start = self.start_point_idx + point_index;
         let right_size = self.len() - point_index;
         (
-- 
2.43.0


From 25f6bc0ead1c1a4faee46bb74b0c83143e651af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 03/11] fix: report and split only the remaining points of a
 partially consumed iterator

---
 rpcl2/src/iterator.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 98c036d..58d074a 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -41,7 +41,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.iteration_back - self.iteration
     }
 }
 
@@ -76,7 +76,7 @@ where
     }
 
     fn opt_len(&self) -> Option<usize> {
-        Some(self.data.len())
+        Some(self.iteration_back - self.iteration)
     }
 }
 
@@ -86,7 +86,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.iteration_back - self.iteration
     }
 
     fn drive<Co>(self, consumer: Co) -> Co::Result
@@ -144,7 +144,7 @@ where
     type Item = C;
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let buf_len = self.data.len();
+        let buf_len = self.iteration_back - self.iteration;
         (buf_len, Some(buf_len))
     }
 
@@ -377,7 +377,11 @@ where
     #[inline]
     #[must_use]
     pub fn split_at(self, point_index: usize) -> (Self, Self) {
-        let (left_data, right_data) = self.data.split_at(point_index);
+        // Points that are already consumed are not part of the split.
+        let mut data = self.data;
+        data.end_point_idx = data.start_point_idx + self.iteration_back;
+        data.start_point_idx += self.iteration;
+        let (left_data, right_data) = data.split_at(point_index);
         (
             Self::from_byte_buffer_view(left_data),
             Self::from_byte_buffer_view(right_data),
-- 
2.43.0


From f759e77c095902d718b160b11de3926ff7b7becc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 04/11] fix: bind message fields to the point by name instead
 of by their offset order

---
 rpcl2/src/iterator.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 58d074a..58a4c74 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -284,9 +284,10 @@ where
             return Err(MsgConversionError::FieldsNotFound(names_not_found));
         }
 
+        // Bind the fields by name, so the point layout can differ from the order in the message.
         let mut pdata_with_offsets = Vec::with_capacity(N);
-        for field in cloud.fields.iter() {
-            if fields_only.contains(&field.name) {
+        for name in fields_only.iter() {
+            if let Some(field) = cloud.fields.iter().find(|field| field.name == *name) {
                 pdata_with_offsets.push((
                     field.name.clone(),
                     field.datatype.try_into()?,
@@ -295,9 +296,6 @@ where
             }
         }
 
-        pdata_with_offsets
-            .sort_unstable_by(|(_, _, offset1), (_, _, offset2)| offset1.cmp(offset2));
-
         debug_assert!(
             pdata_with_offsets.len() == N,
             "Not all fields were found in the message. Expected {} but found {}.",
@@ -323,18 +321,16 @@ where
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-        let last_offset = match offsets.last() {
-            Some(offset) => *offset,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
-
-        let last_pdata = match pdata.last() {
-            Some(pdata) => pdata,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
+        if offsets.is_empty() {
+            return Err(MsgConversionError::DataLengthMismatch);
+        }
 
-        let size_with_last_pdata = last_offset + last_pdata.1.size();
-        if size_with_last_pdata > point_step_size {
+        // The fields are not sorted by their offset, so every field has to end inside of the point.
+        if offsets
+            .iter()
+            .zip(pdata.iter())
+            .any(|(offset, (_, datatype))| offset + datatype.size() > point_step_size)
+        {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-- 
2.43.0


From ce23e3e4063c441fffa72ceb2aa97bd950c79685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 05/11] fix: do not overflow when checking the expected data
 length of a message

---
 rpcl2/src/iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 58a4c74..306b32a 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -317,7 +317,7 @@ where
 
         let point_step_size = cloud.point_step as usize;
         let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-        if point_step_size * cloud_length != cloud.data.len() {
+        if point_step_size.checked_mul(cloud_length) != Some(cloud.data.len()) {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-- 
2.43.0


From c284ac00f8866aded2ee828e963a1efb6387eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 06/11] fix: do not count padding as a message field when
 comparing layouts for direct copies

---
 rpcl2/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e51a875..a90a01e 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -506,7 +506,6 @@ impl PointCloud2Msg {
         let target_layout = KnownLayoutInfo::try_from(C::layout())?;
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
-        debug_assert!(self.fields.len() >= target_layout.fields.len());
 
         let mut offset: u32 = 0;
         let mut field_counter = 0;
-- 
2.43.0


From 68fe2d7fc21598ed18591d740df467832450fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 07/11] fix: validate the message before copying its buffer
 into a Vec of points

---
 rpcl2/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index a90a01e..b6bba5e 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -540,6 +540,11 @@ impl PointCloud2Msg {
             }
         }
 
+        // A direct copy needs a layout that describes the whole type and points that contain it.
+        if offset as usize != core::mem::size_of::<C>() || offset > self.point_step {
+            return Ok(ByteSimilarity::Different);
+        }
+
         Ok(if offset == self.point_step {
             ByteSimilarity::Equal
         } else {
@@ -749,8 +754,12 @@ impl PointCloud2Msg {
                     ByteSimilarity::Different => return Ok(self.try_into_iter()?.collect()),
                 };
 
-                let cloud_width = self.dimensions.width as usize;
+                let cloud_width = self.dimensions.width as usize * self.dimensions.height as usize;
                 let point_step = self.point_step as usize;
+                if point_step.checked_mul(cloud_width) != Some(self.data.len()) {
+                    return Err(MsgConversionError::DataLengthMismatch);
+                }
+
                 let mut vec: Vec<C> = Vec::with_capacity(cloud_width);
                 if bytematch {
                     unsafe {
@@ -765,7 +774,7 @@ impl PointCloud2Msg {
                     unsafe {
                         for i in 0..cloud_width {
                             let point_ptr = self.data.as_ptr().add(i * point_step).cast::<C>();
-                            let point = point_ptr.read();
+                            let point = point_ptr.read_unaligned();
                             vec.push(point);
                         }
                     }
-- 
2.43.0


From 338dddfc52b8c6f4b8b12e255b53b6d1d28e5145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 08/11] fix: return NumberConversion instead of truncating
 sizes that do not fit the message

---
 rpcl2/src/lib.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index b6bba5e..72589ad 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -438,7 +438,7 @@ impl PointCloud2MsgBuilder {
             return Err(MsgConversionError::InvalidFieldFormat);
         }
 
-        if self.data.len() as u32 % self.point_step != 0 {
+        if self.data.len() % self.point_step as usize != 0 {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
@@ -607,7 +607,7 @@ impl PointCloud2Msg {
                 pdata_offsets_acc,
             )
         };
-        let mut cloud_width = 0;
+        let mut cloud_width: usize = 0;
 
         iterable.into_iter().for_each(|pointdata| {
             let point: RPCL2Point<N> = pointdata.into();
@@ -622,8 +622,13 @@ impl PointCloud2Msg {
             cloud_width += 1;
         });
 
+        let cloud_width = u32::try_from(cloud_width)?;
+        let row_step = cloud_width
+            .checked_mul(point_step)
+            .ok_or(MsgConversionError::NumberConversion)?;
+
         cloud = cloud.width(cloud_width);
-        cloud = cloud.row_step(cloud_width * point_step);
+        cloud = cloud.row_step(row_step);
 
         cloud.build()
     }
@@ -704,6 +709,11 @@ impl PointCloud2Msg {
                     )
                 };
 
+                let width = u32::try_from(vec.len())?;
+                let row_step = width
+                    .checked_mul(point_step)
+                    .ok_or(MsgConversionError::NumberConversion)?;
+
                 let bytes_total = vec.len() * point_step as usize;
                 cloud.data.resize(bytes_total, u8::default());
                 let raw_data: *mut C = cloud.data.as_mut_ptr() as *mut C;
@@ -715,10 +725,7 @@ impl PointCloud2Msg {
                     );
                 }
 
-                Ok(cloud
-                    .width(vec.len() as u32)
-                    .row_step(vec.len() as u32 * point_step)
-                    .build()?)
+                Ok(cloud.width(width).row_step(row_step).build()?)
             }
             _ => Self::try_from_iter(vec),
         }
-- 
2.43.0


From 93c827ed4a100efd8913b887584d2d75a1c96ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 09/11] fix: write point by point when the layout does not
 describe the memory of the type

---
 rpcl2/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 72589ad..89469c1 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -701,6 +701,11 @@ impl PointCloud2Msg {
                         }
                     }
 
+                    // The memory can only be copied when the layout describes the whole type.
+                    if offset as usize != core::mem::size_of::<C>() {
+                        return Self::try_from_iter(vec);
+                    }
+
                     (
                         PointCloud2MsgBuilder::new()
                             .fields(fields)
-- 
2.43.0


From 7e62e294c7af2ab7a408baa3aa9fda255dd68f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 10/11] fix: keep the field name in the derive when a field
 only has unrelated attributes

---
 rpcl2-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index a3ca95a..79e80ea 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -32,7 +32,8 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        if f.attrs.is_empty() {
+        // Other attributes (like documentation) do not rename the field.
+        if !f.attrs.iter().any(|attr| attr.path().is_ident("rpcl2")) {
             field_names.push(f.ident.as_ref().unwrap().to_token_stream().to_string());
         } else {
             f.attrs.iter().for_each(|attr| {
-- 
2.43.0


From a545567fce3fddc1c311627bd41a99da9f11775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 11/11] verif: contracts and state access behind cfg
 rpcl2_verif

---
 rpcl2/src/iterator.rs       |   4 ++
 rpcl2/src/iterator/verif.rs |  86 ++++++++++++++++++++++++++++++
 rpcl2/src/lib.rs            |   3 ++
 rpcl2/src/verif.rs          | 101 ++++++++++++++++++++++++++++++++++++
 4 files changed, 194 insertions(+)
 create mode 100644 rpcl2/src/iterator/verif.rs
 create mode 100644 rpcl2/src/verif.rs

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 306b32a..2eebcfe 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -385,6 +385,10 @@ where
     }
 }
 
+#[cfg(rpcl2_verif)]
+#[allow(missing_docs)]
+pub mod verif;
+
 #[cfg(feature = "rayon")]
 mod test {
     #![allow(clippy::unwrap_used)]
diff --git a/rpcl2/src/iterator/verif.rs b/rpcl2/src/iterator/verif.rs
new file mode 100644
index 0000000..54b2e44
--- /dev/null
+++ b/rpcl2/src/iterator/verif.rs
@@ -0,0 +1,86 @@
+//! Access to the state of the iterator for its contracts, compiled for verification only (`--cfg rpcl2_verif`).
+use super::{ByteBufferView, PointCloudIterator};
+use crate::{Endian, FieldDatatype, PointConvertible};
+use alloc::string::String;
+use alloc::vec::Vec;
+
+/// The abstract state: the remaining points are `first..last` of the `step` byte wide points in the buffer.
+#[derive(Clone, Copy, PartialEq)]
+pub struct State {
+    pub iteration: usize,
+    pub iteration_back: usize,
+    pub start: usize,
+    pub end: usize,
+    pub step: usize,
+    pub len: usize,
+    pub at: usize,
+    pub endian: Endian,
+}
+
+impl State {
+    pub fn first(&self) -> usize {
+        self.start + self.iteration
+    }
+
+    pub fn last(&self) -> usize {
+        self.start + self.iteration_back
+    }
+
+    pub fn remaining(&self) -> usize {
+        self.iteration_back - self.iteration
+    }
+
+    /// The representation invariant: the remaining points are points of the buffer.
+    pub fn well_formed(&self) -> bool {
+        self.iteration <= self.iteration_back
+            && self.start <= self.end
+            && self.iteration_back <= self.end - self.start
+            && match self.end.checked_mul(self.step) {
+                Some(bytes) => bytes <= self.len,
+                None => false,
+            }
+    }
+}
+
+impl<const N: usize, C: PointConvertible<N>> PointCloudIterator<N, C> {
+    #[allow(clippy::too_many_arguments)]
+    pub fn verif_new(
+        data: Vec<u8>,
+        step: usize,
+        start: usize,
+        end: usize,
+        iteration: usize,
+        iteration_back: usize,
+        offsets: [usize; N],
+        pdata: Vec<(String, FieldDatatype)>,
+        endian: Endian,
+    ) -> Self {
+        Self {
+            iteration,
+            iteration_back,
+            data: ByteBufferView::new(data, step, start, end, offsets, pdata, endian),
+            _phantom: core::marker::PhantomData,
+        }
+    }
+
+    pub fn verif_state(&self) -> State {
+        State {
+            iteration: self.iteration,
+            iteration_back: self.iteration_back,
+            start: self.data.start_point_idx,
+            end: self.data.end_point_idx,
+            step: self.data.point_step_size,
+            len: self.data.data.len(),
+            at: self.data.data.as_ptr() as usize,
+            endian: self.data.endian,
+        }
+    }
+
+    pub fn verif_offsets(&self) -> [usize; N] {
+        self.data.offsets
+    }
+
+    pub fn verif_datatype(&self, field: usize) -> FieldDatatype {
+        self.data.pdata[field].1
+    }
+}
diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 89469c1..2a7358c 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -144,6 +144,9 @@
 pub mod points;
 pub mod prelude;
 pub mod ros;
+#[cfg(rpcl2_verif)]
+#[allow(missing_docs)]
+pub mod verif;
 
 pub mod iterator;
 
diff --git a/rpcl2/src/verif.rs b/rpcl2/src/verif.rs
new file mode 100644
index 0000000..e9d8e7d
--- /dev/null
+++ b/rpcl2/src/verif.rs
@@ -0,0 +1,101 @@
+//! Contracts for the layout translation, compiled for verification only (`--cfg rpcl2_verif`).
+//!
+//! `<shape>::contract` is the contract of `KnownLayoutInfo::try_from` for one concrete layout: the caller of
+//! a proof is checked against it, and `<shape>::holds` is the obligation that the real function meets it.
+use crate::{KnownLayoutInfo, LayoutDescription, MsgConversionError, PointField};
+use alloc::vec::Vec;
+
+const fn field(size: u32, datatype: u8) -> PointField {
+    PointField::Field {
+        size,
+        datatype,
+        count: 1,
+    }
+}
+
+const fn pad(size: u32) -> PointField {
+    PointField::Padding(size)
+}
+
+fn same(a: &PointField, b: &PointField) -> bool {
+    match (a, b) {
+        (PointField::Padding(x), PointField::Padding(y)) => x == y,
+        (
+            PointField::Field {
+                size,
+                datatype,
+                count,
+            },
+            PointField::Field {
+                size: s,
+                datatype: d,
+                count: c,
+            },
+        ) => size == s && datatype == d && count == c,
+        _ => false,
+    }
+}
+
+fn describe(table: &'static [PointField]) -> KnownLayoutInfo {
+    let mut fields: Vec<PointField> = Vec::with_capacity(table.len());
+    // A copy of the static keeps the values known to the verifier.
+    unsafe {
+        core::ptr::copy_nonoverlapping(
+            table.as_ptr().cast::<u8>(),
+            fields.as_mut_ptr().cast::<u8>(),
+            core::mem::size_of_val(table),
+        );
+        fields.set_len(table.len());
+    }
+    KnownLayoutInfo { fields }
+}
+
+macro_rules! shapes {
+    ($($name:ident = [$($e:expr),*] $n:literal;)*) => { $(
+        pub mod $name {
+            use super::*;
+            static TABLE: [PointField; $n] = [$($e),*];
+
+            pub fn contract(t: LayoutDescription) -> Result<KnownLayoutInfo, MsgConversionError> {
+                core::mem::forget(t);
+                Ok(describe(&TABLE))
+            }
+
+            pub fn holds(t: LayoutDescription) -> bool {
+                match KnownLayoutInfo::try_from(t) {
+                    Ok(known) => {
+                        let mut ok = known.fields.len() == TABLE.len();
+                        for i in 0..TABLE.len() {
+                            ok = ok && same(&known.fields[i], &TABLE[i]);
+                        }
+                        core::mem::forget(known);
+                        ok
+                    }
+                    Err(e) => {
+                        core::mem::forget(e);
+                        false
+                    }
+                }
+            }
+        }
+    )* };
+}
+
+shapes! {
+    a8 = [field(1, 2)] 1;
+    a16 = [field(2, 4)] 1;
+    a32 = [field(4, 6)] 1;
+    af64 = [field(8, 8)] 1;
+    p2 = [field(4, 7), field(1, 2), pad(3)] 3;
+    m2 = [field(1, 2), pad(1), field(2, 4)] 3;
+    q2 = [field(4, 6), field(4, 7)] 2;
+    b2 = [field(1, 2), field(1, 2)] 2;
+    u3 = [field(4, 7), field(2, 4), field(2, 4)] 3;
+    xyz = [field(4, 7), field(4, 7), field(4, 7), pad(4)] 4;
+    xyzi = [field(4, 7), field(4, 7), field(4, 7), field(4, 7)] 4;
+    xyzl = [field(4, 7), field(4, 7), field(4, 7), field(4, 6)] 4;
+    xyzrgba = [field(4, 7), field(4, 7), field(4, 7), field(4, 7), field(1, 2), pad(15)] 6;
+    xyzrgbl = [field(4, 7), field(4, 7), field(4, 7), field(4, 7), field(4, 6), pad(12)] 6;
+    xyznormal = [field(4, 7), field(4, 7), field(4, 7), field(4, 7), field(4, 7), field(4, 7), pad(8)] 7;
+    xyzinormal = [field(4, 7), field(4, 7), field(4, 7), field(4, 7), field(4, 7), field(4, 7), field(4, 7), pad(4)] 8;
+}
-- 
2.43.0

