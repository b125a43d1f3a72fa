From a334a6bfc8d550296e4e34193ffff984d71e42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 01/13] fix: half-open iterator bounds so empty, drained and
 split point iterators behave

---
 rpcl2/src/iterator.rs | 65 ++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index a6d703c..1c97eec 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -41,7 +41,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 }
 
@@ -51,12 +51,12 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.iteration_back < self.iteration {
+        if self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
-        let p = self.data.point_at(self.iteration_back);
         self.iteration_back -= 1;
+        let p = self.data.point_at(self.iteration_back);
         Some(C::from(p))
     }
 }
@@ -76,7 +76,7 @@ where
     }
 
     fn opt_len(&self) -> Option<usize> {
-        Some(self.data.len())
+        Some(self.remaining())
     }
 }
 
@@ -86,7 +86,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 
     fn drive<Co>(self, consumer: Co) -> Co::Result
@@ -144,12 +144,12 @@ where
     type Item = C;
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let buf_len = self.data.len();
-        (buf_len, Some(buf_len))
+        let remaining = self.remaining();
+        (remaining, Some(remaining))
     }
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.iteration >= self.data.len() || self.iteration_back < self.iteration {
+        if self.iteration >= self.iteration_back {
             return None; // iteration finished
         }
 
@@ -198,7 +198,7 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     fn len(&self) -> usize {
-        self.end_point_idx - self.start_point_idx + 1
+        self.end_point_idx - self.start_point_idx
     }
 
     #[inline]
@@ -226,26 +226,13 @@ impl<const N: usize> ByteBufferView<N> {
         Self {
             data: self.data.clone(),
             start_point_idx: start,
-            end_point_idx: start + size - 1,
+            end_point_idx: start + size,
             point_step_size: self.point_step_size,
             offsets: self.offsets,
             pdata: self.pdata.clone(),
             endian: self.endian,
         }
     }
-
-    #[inline]
-    pub fn split_at(self, point_index: usize) -> (Self, Self) {
-        let left_start = self.start_point_idx;
-        let left_size = point_index;
-
-        let right_start = self.start_point_idx + point_index;
-        let right_size = self.len() - point_index;
-        (
-            self.clone_with_bounds(left_start, left_size),
-            self.clone_with_bounds(right_start, right_size),
-        )
-    }
 }
 
 impl<const N: usize, C> TryFrom<PointCloud2Msg> for PointCloudIterator<N, C>
@@ -339,7 +326,7 @@ where
             cloud.data,
             point_step_size,
             0,
-            cloud_length - 1,
+            cloud_length,
             offsets,
             pdata,
             cloud.endian,
@@ -347,7 +334,7 @@ where
 
         Ok(Self {
             iteration: 0,
-            iteration_back: cloud_length - 1,
+            iteration_back: cloud_length,
             data,
             _phantom: core::marker::PhantomData,
         })
@@ -363,19 +350,39 @@ where
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
         Self {
             iteration: 0,
-            iteration_back: data.len() - 1,
+            iteration_back: data.len(),
             data,
             _phantom: core::marker::PhantomData,
         }
     }
 
+    /// The number of points that are not yet taken from either end.
+    #[inline]
+    fn remaining(&self) -> usize {
+        self.iteration_back - self.iteration
+    }
+
+    /// Split the remaining points into the first `point_index` points and the rest.
+    ///
+    /// # Panics
+    /// Panics if `point_index` is larger than the number of remaining points.
     #[inline]
     #[must_use]
     pub fn split_at(self, point_index: usize) -> (Self, Self) {
-        let (left_data, right_data) = self.data.split_at(point_index);
+        let remaining = self.remaining();
+        assert!(
+            point_index <= remaining,
+            "split index (is {point_index}) should be <= remaining points (is {remaining})"
+        );
+
+        let left_start = self.data.start_point_idx + self.iteration;
+        let right_start = left_start + point_index;
         (
-            Self::from_byte_buffer_view(left_data),
-            Self::from_byte_buffer_view(right_data),
+            Self::from_byte_buffer_view(self.data.clone_with_bounds(left_start, point_index)),
+            Self::from_byte_buffer_view(
+                self.data
+                    .clone_with_bounds(right_start, remaining - point_index),
+            ),
         )
     }
 }
-- 
2.43.0


From 293b7e96c73323dbd0b356789b0c0b87b1362535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 02/13] fix: reject clouds whose point step times dimensions
 overflows instead of wrapping

---
 rpcl2/src/iterator.rs |  7 +------
 rpcl2/src/lib.rs      | 13 +++++++++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 1c97eec..c0516ab 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -300,10 +300,7 @@ where
             });
 
         let point_step_size = cloud.point_step as usize;
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-        if point_step_size * cloud_length != cloud.data.len() {
-            return Err(MsgConversionError::DataLengthMismatch);
-        }
+        let cloud_length = cloud.point_count()?;
 
         let last_offset = match offsets.last() {
             Some(offset) => *offset,
@@ -320,8 +317,6 @@ where
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-
         let data = ByteBufferView::new(
             cloud.data,
             point_step_size,
diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e51a875..99e670e 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -497,6 +497,19 @@ fn ordered_field_names<const N: usize, C: PointConvertible<N>>() -> Vec<String>
 }
 
 impl PointCloud2Msg {
+    /// The number of points (width x height), given that the byte buffer holds exactly that many points.
+    fn point_count(&self) -> Result<usize, MsgConversionError> {
+        let width = self.dimensions.width as usize;
+        let height = self.dimensions.height as usize;
+        let point_count = width
+            .checked_mul(height)
+            .ok_or(MsgConversionError::DataLengthMismatch)?;
+        match point_count.checked_mul(self.point_step as usize) {
+            Some(byte_count) if byte_count == self.data.len() => Ok(point_count),
+            _ => Err(MsgConversionError::DataLengthMismatch),
+        }
+    }
+
     #[inline]
     fn byte_similarity<const N: usize, C>(&self) -> Result<ByteSimilarity, MsgConversionError>
     where
-- 
2.43.0


From 60352f60c2095e81d9ec218af57111c901aaf0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 03/13] fix: assign message fields to point fields by name, not
 by their offset order

---
 rpcl2/src/iterator.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index c0516ab..348b970 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -266,38 +266,27 @@ where
             return Err(MsgConversionError::FieldsNotFound(names_not_found));
         }
 
-        let mut pdata_with_offsets = Vec::with_capacity(N);
-        for field in cloud.fields.iter() {
-            if fields_only.contains(&field.name) {
-                pdata_with_offsets.push((
-                    field.name.clone(),
-                    field.datatype.try_into()?,
-                    field.offset as usize,
-                ));
-            }
-        }
-
-        pdata_with_offsets
-            .sort_unstable_by(|(_, _, offset1), (_, _, offset2)| offset1.cmp(offset2));
-
         debug_assert!(
-            pdata_with_offsets.len() == N,
-            "Not all fields were found in the message. Expected {} but found {}.",
+            fields_only.len() == N,
+            "The layout of the point should have {} fields but has {}.",
             N,
-            pdata_with_offsets.len()
+            fields_only.len()
         );
 
         let mut offsets = [usize::default(); N];
         let mut pdata = vec![(String::default(), FieldDatatype::default()); N];
 
-        pdata_with_offsets
+        // The n-th entry of a point belongs to the n-th field of its layout, wherever the message stores that field.
+        for ((name, pdata), pdata_offset) in fields_only
             .into_iter()
             .zip(pdata.iter_mut())
             .zip(offsets.iter_mut())
-            .for_each(|(((name, datatype, offset), pdata), pdata_offset)| {
-                *pdata = (name, datatype);
-                *pdata_offset = offset;
-            });
+        {
+            if let Some(field) = cloud.fields.iter().find(|field| field.name == name) {
+                *pdata = (name, field.datatype.try_into()?);
+                *pdata_offset = field.offset as usize;
+            }
+        }
 
         let point_step_size = cloud.point_step as usize;
         let cloud_length = cloud.point_count()?;
-- 
2.43.0


From 6160b811f6a539768e494014a35b24d984821c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 04/13] fix: check that every requested field ends inside the
 point step, not only the last one

---
 rpcl2/src/iterator.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 348b970..0d48022 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -291,21 +291,17 @@ where
         let point_step_size = cloud.point_step as usize;
         let cloud_length = cloud.point_count()?;
 
-        let last_offset = match offsets.last() {
-            Some(offset) => *offset,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
-
-        let last_pdata = match pdata.last() {
-            Some(pdata) => pdata,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
-
-        let size_with_last_pdata = last_offset + last_pdata.1.size();
-        if size_with_last_pdata > point_step_size {
+        if N == 0 {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
+        for (offset, (_, datatype)) in offsets.iter().zip(pdata.iter()) {
+            match offset.checked_add(datatype.size()) {
+                Some(field_end) if field_end <= point_step_size => {}
+                _ => return Err(MsgConversionError::DataLengthMismatch),
+            }
+        }
+
         let data = ByteBufferView::new(
             cloud.data,
             point_step_size,
-- 
2.43.0


From ae77543af6a702852fc821aa079382eac3ebd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 05/13] fix: reject fields declared with another datatype than
 the point's instead of reinterpreting them

---
 rpcl2/src/iterator.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 0d48022..b9ca763 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -1,13 +1,15 @@
 //! Iterator implementations for [`PointCloud2Msg`] including a parallel iterator for rayon.
 use crate::{
-    Endian, FieldDatatype, MsgConversionError, PointCloud2Msg, PointConvertible, PointData,
-    RPCL2Point,
+    Endian, FieldDatatype, LayoutField, MsgConversionError, PointCloud2Msg, PointConvertible,
+    PointData, RPCL2Point,
 };
 
 use alloc::borrow::ToOwned;
 use alloc::string::String;
 use alloc::vec::Vec;
 
+use core::str::FromStr;
+
 /// The PointCloudIterator provides a an iterator abstraction of the [`PointCloud2Msg`].
 ///
 /// The iterator is defined at compile time, so the point has to be described via template arguments.
@@ -235,6 +237,19 @@ impl<const N: usize> ByteBufferView<N> {
     }
 }
 
+/// Can a message field of the given datatype be read as the type that the layout of the point declares for it?
+fn readable_as(datatype: FieldDatatype, layout_type: &str) -> bool {
+    match FieldDatatype::from_str(&layout_type.to_lowercase()) {
+        // A packed color has four bytes and some producers declare it as an integer.
+        Ok(FieldDatatype::RGB) => matches!(
+            datatype,
+            FieldDatatype::F32 | FieldDatatype::RGB | FieldDatatype::U32 | FieldDatatype::I32
+        ),
+        Ok(expected) => datatype == expected,
+        Err(_) => true, // The layout names a type without a known datatype, leave it to the point conversion.
+    }
+}
+
 impl<const N: usize, C> TryFrom<PointCloud2Msg> for PointCloudIterator<N, C>
 where
     C: PointConvertible<N>,
@@ -276,14 +291,25 @@ where
         let mut offsets = [usize::default(); N];
         let mut pdata = vec![(String::default(), FieldDatatype::default()); N];
 
+        let field_types = C::layout().0.into_iter().filter_map(|field| match field {
+            LayoutField::Field { ty, .. } => Some(ty),
+            LayoutField::Padding { .. } => None,
+        });
+
         // The n-th entry of a point belongs to the n-th field of its layout, wherever the message stores that field.
-        for ((name, pdata), pdata_offset) in fields_only
+        for (((name, ty), pdata), pdata_offset) in fields_only
             .into_iter()
+            .zip(field_types)
             .zip(pdata.iter_mut())
             .zip(offsets.iter_mut())
         {
             if let Some(field) = cloud.fields.iter().find(|field| field.name == name) {
-                *pdata = (name, field.datatype.try_into()?);
+                let datatype = field.datatype.try_into()?;
+                if !readable_as(datatype, &ty) {
+                    return Err(MsgConversionError::InvalidFieldFormat);
+                }
+
+                *pdata = (name, datatype);
                 *pdata_offset = field.offset as usize;
             }
         }
-- 
2.43.0


From 6510400c5d22b24b8beb41c38463a79504813f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 06/13] fix: do not count padding of the point layout as
 message fields in try_into_vec

---
 rpcl2/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 99e670e..2654565 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -519,7 +519,6 @@ impl PointCloud2Msg {
         let target_layout = KnownLayoutInfo::try_from(C::layout())?;
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
-        debug_assert!(self.fields.len() >= target_layout.fields.len());
 
         let mut offset: u32 = 0;
         let mut field_counter = 0;
-- 
2.43.0


From ce1324da5f81433861301a2c98e92e027cc1d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 07/13] fix: validate the buffer length and read all rows in
 try_into_vec

---
 rpcl2/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 2654565..279efd1 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -762,9 +762,9 @@ impl PointCloud2Msg {
                     ByteSimilarity::Different => return Ok(self.try_into_iter()?.collect()),
                 };
 
-                let cloud_width = self.dimensions.width as usize;
+                let cloud_length = self.point_count()?;
                 let point_step = self.point_step as usize;
-                let mut vec: Vec<C> = Vec::with_capacity(cloud_width);
+                let mut vec: Vec<C> = Vec::with_capacity(cloud_length);
                 if bytematch {
                     unsafe {
                         core::ptr::copy_nonoverlapping(
@@ -772,11 +772,11 @@ impl PointCloud2Msg {
                             vec.as_mut_ptr().cast::<u8>(),
                             self.data.len(),
                         );
-                        vec.set_len(cloud_width);
+                        vec.set_len(cloud_length);
                     }
                 } else {
                     unsafe {
-                        for i in 0..cloud_width {
+                        for i in 0..cloud_length {
                             let point_ptr = self.data.as_ptr().add(i * point_step).cast::<C>();
                             let point = point_ptr.read();
                             vec.push(point);
-- 
2.43.0


From 1272553ee13b3e3e83a6f17448ce527d033f0319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 08/13] fix: no unaligned or out of bounds point reads in
 try_into_vec when the point step differs from the layout

---
 rpcl2/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 279efd1..85673bf 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -555,6 +555,8 @@ impl PointCloud2Msg {
 
         Ok(if offset == self.point_step {
             ByteSimilarity::Equal
+        } else if offset > self.point_step {
+            ByteSimilarity::Different
         } else {
             ByteSimilarity::Overlapping
         })
@@ -778,7 +780,7 @@ impl PointCloud2Msg {
                     unsafe {
                         for i in 0..cloud_length {
                             let point_ptr = self.data.as_ptr().add(i * point_step).cast::<C>();
-                            let point = point_ptr.read();
+                            let point = point_ptr.read_unaligned();
                             vec.push(point);
                         }
                     }
-- 
2.43.0


From 4c0514ddf2a3e0c4ddcb794d65df87587edd5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 09/13] fix: never copy points as raw memory when their layout
 does not describe that memory

---
 rpcl2/src/lib.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 85673bf..a625e58 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -520,6 +520,10 @@ impl PointCloud2Msg {
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
 
+        if !target_layout.describes_memory_of::<C>() {
+            return Ok(ByteSimilarity::Different);
+        }
+
         let mut offset: u32 = 0;
         let mut field_counter = 0;
         for f in target_layout.fields.iter() {
@@ -683,6 +687,10 @@ impl PointCloud2Msg {
                     let layout = KnownLayoutInfo::try_from(C::layout())?;
                     debug_assert!(field_names.len() <= layout.fields.len());
 
+                    if !layout.describes_memory_of::<C>() {
+                        return Self::try_from_iter(vec);
+                    }
+
                     let mut offset = 0;
                     let mut fields: Vec<PointFieldMsg> = Vec::with_capacity(field_names.len());
                     for f in layout.fields.into_iter() {
@@ -958,6 +966,23 @@ struct KnownLayoutInfo {
     fields: Vec<PointField>,
 }
 
+impl KnownLayoutInfo {
+    /// Is the described layout as large as the type itself?
+    ///
+    /// Rust is free to reorder the fields of a struct without `#[repr(C)]`.
+    /// Such a struct can not be described in declaration order and must not be copied as raw memory.
+    fn describes_memory_of<C>(&self) -> bool {
+        let layout_size = self.fields.iter().fold(0u64, |acc, field| {
+            acc + match field {
+                PointField::Field { size, count, .. } => u64::from(*size) * u64::from(*count),
+                PointField::Padding(size) => u64::from(*size),
+            }
+        });
+
+        layout_size == core::mem::size_of::<C>() as u64
+    }
+}
+
 impl TryFrom<LayoutField> for PointField {
     type Error = MsgConversionError;
 
-- 
2.43.0


From 4d65f3031cac3c570221d10dd7a8d1503be1a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 10/13] fix: refuse clouds whose width or row step does not fit
 32 bits instead of wrapping

---
 rpcl2/src/lib.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index a625e58..156f89d 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -621,9 +621,14 @@ impl PointCloud2Msg {
                 pdata_offsets_acc,
             )
         };
-        let mut cloud_width = 0;
+        let mut cloud_width: u32 = 0;
+        let mut row_step: u32 = 0;
+
+        iterable.into_iter().try_for_each(|pointdata| {
+            row_step = row_step
+                .checked_add(point_step)
+                .ok_or(MsgConversionError::NumberConversion)?;
 
-        iterable.into_iter().for_each(|pointdata| {
             let point: RPCL2Point<N> = pointdata.into();
 
             point.fields.iter().for_each(|pdata| {
@@ -634,10 +639,11 @@ impl PointCloud2Msg {
             });
 
             cloud_width += 1;
-        });
+            Ok::<(), MsgConversionError>(())
+        })?;
 
         cloud = cloud.width(cloud_width);
-        cloud = cloud.row_step(cloud_width * point_step);
+        cloud = cloud.row_step(row_step);
 
         cloud.build()
     }
@@ -722,6 +728,11 @@ impl PointCloud2Msg {
                     )
                 };
 
+                let cloud_width = u32::try_from(vec.len())?;
+                let row_step = cloud_width
+                    .checked_mul(point_step)
+                    .ok_or(MsgConversionError::NumberConversion)?;
+
                 let bytes_total = vec.len() * point_step as usize;
                 cloud.data.resize(bytes_total, u8::default());
                 let raw_data: *mut C = cloud.data.as_mut_ptr() as *mut C;
@@ -733,10 +744,7 @@ impl PointCloud2Msg {
                     );
                 }
 
-                Ok(cloud
-                    .width(vec.len() as u32)
-                    .row_step(vec.len() as u32 * point_step)
-                    .build()?)
+                Ok(cloud.width(cloud_width).row_step(row_step).build()?)
             }
             _ => Self::try_from_iter(vec),
         }
-- 
2.43.0


From 10d45918edab5487741c534aa2489138105b4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 11/13] fix: compare the whole buffer length with the point
 step when building a message

---
 rpcl2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 156f89d..8056bb0 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -438,7 +438,7 @@ impl PointCloud2MsgBuilder {
             return Err(MsgConversionError::InvalidFieldFormat);
         }
 
-        if self.data.len() as u32 % self.point_step != 0 {
+        if self.data.len() % self.point_step as usize != 0 {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
-- 
2.43.0


From 8009a65c2017e8d6860e641a28389528ef6f668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 12/13] fix: name derived fields that carry other attributes or
 raw identifiers

---
 rpcl2-derive/src/lib.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index a3ca95a..151b667 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -6,6 +6,7 @@ use std::collections::HashMap;
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::{parenthesized, parse_macro_input, Data, DeriveInput, Fields, LitStr};
 
 fn get_allowed_types() -> HashMap<&'static str, usize> {
@@ -32,28 +33,27 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        if f.attrs.is_empty() {
-            field_names.push(f.ident.as_ref().unwrap().to_token_stream().to_string());
-        } else {
-            f.attrs.iter().for_each(|attr| {
-                if attr.path().is_ident("rpcl2") {
-                    let res = attr.parse_nested_meta(|meta| {
-                        if meta.path.is_ident("rename") {
-                            let new_name;
-                            parenthesized!(new_name in meta.input);
-                            let lit: LitStr = new_name.parse()?;
-                            field_names.push(lit.value());
-                            Ok(())
-                        } else {
-                            panic!("expected `name` attribute");
-                        }
-                    });
-                    if let Err(err) = res {
-                        panic!("Error parsing attribute: {}", err);
+        // Attributes that do not belong to this macro, like doc comments, must not influence the name.
+        let mut field_name = f.ident.as_ref().unwrap().unraw().to_string();
+        f.attrs.iter().for_each(|attr| {
+            if attr.path().is_ident("rpcl2") {
+                let res = attr.parse_nested_meta(|meta| {
+                    if meta.path.is_ident("rename") {
+                        let new_name;
+                        parenthesized!(new_name in meta.input);
+                        let lit: LitStr = new_name.parse()?;
+                        field_name = lit.value();
+                        Ok(())
+                    } else {
+                        panic!("expected `name` attribute");
                     }
+                });
+                if let Err(err) = res {
+                    panic!("Error parsing attribute: {}", err);
                 }
-            });
-        }
+            }
+        });
+        field_names.push(field_name);
     }
 
     field_names
-- 
2.43.0


From 4a427da2121d623578ce189ea903eeec924c0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 13/13] fix: let derived points compile in crates without the
 standard library

The generated layout() named ::std and took Vec and vec! from the std prelude, so
deriving PointConvertible failed in every no_std crate.
---
 rpcl2-derive/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index 151b667..68bcaca 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -111,6 +111,10 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
     let expanded = quote! {
         unsafe impl #impl_generics ::ros_pointcloud2::PointConvertible<#field_len_token> for #name #ty_generics #where_clause {
             fn layout() -> ::ros_pointcloud2::LayoutDescription {
+                // The deriving crate may be `no_std`.
+                extern crate alloc as __rpcl2_alloc;
+                use __rpcl2_alloc::{vec, vec::Vec};
+
                 let mut last_field_end = 0;
                 let mut fields = Vec::new();
 
@@ -200,7 +204,7 @@ fn layout_of_type(struct_name: &Ident, data: &Data) -> proc_macro2::TokenStream
                 quote! {
                     #(#values)*
 
-                    let struct_size = ::std::mem::size_of::<#struct_name>();
+                    let struct_size = ::core::mem::size_of::<#struct_name>();
                     if struct_size > last_field_end {
                         fields.push((1, "", struct_size - last_field_end));
                     }
-- 
2.43.0

