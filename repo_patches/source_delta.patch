From 6ab787ad4fa42d62e491aec3319a410fd983cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 01/34] fix: Tensor::get applied a view's offset twice

---
 src/tensor/tensor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 80d0fb6..1abb295 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -62,9 +62,7 @@ impl<T: Type> Tensor<T> {
     pub fn get(&self, offset: usize) -> Option<&T> {
         unsafe {
             if offset < self.size {
-                let count = offset + self.offset;
-
-                self.as_ptr().add(count).as_ref()
+                self.as_ptr().add(offset).as_ref()
             } else {
                 None
             }
-- 
2.43.0


From 91a63c788354e21d0d579a4fa1a04b023f8ee429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 02/34] fix: as_wrap_slice_n applied a view's offset twice

---
 src/tensor/tensor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 1abb295..4ea492a 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -110,11 +110,10 @@ impl<T: Type> Tensor<T> {
             offset % self.size
         };
 
-        let count = self.offset + offset;
-        assert!(count + len <= self.size);
+        assert!(len <= self.size - offset);
 
         unsafe {
-            ptr::slice_from_raw_parts(self.as_ptr().add(count), len)
+            ptr::slice_from_raw_parts(self.as_ptr().add(offset), len)
                 .as_ref()
                 .unwrap()
         }
-- 
2.43.0


From 3941c4b25a038155a116c9681635adfbc78925d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 03/34] fix: unsafe_init allocated zero bytes for empty tensors
 and ignored allocation failure

---
 src/tensor/data.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 1ad5c1a..5ec2168 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -1,6 +1,6 @@
 use core::slice;
 use std::{
-    alloc::{self, Layout}, mem, ptr::NonNull
+    alloc::{self, Layout}, ptr::NonNull
 };
 
 use crate::tensor::Tensor;
@@ -88,11 +88,17 @@ pub unsafe fn unsafe_init<T: Type>(
     let shape = shape.into();
 
     let layout = Layout::array::<T>(len).unwrap();
-    let data = NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>());
 
-    (init)(data.cast::<T>().as_mut());
+    let data = if layout.size() == 0 {
+        NonNull::<T>::dangling()
+    } else {
+        match NonNull::new(alloc::alloc(layout).cast::<T>()) {
+            Some(data) => data,
+            None => alloc::handle_alloc_error(layout),
+        }
+    };
 
-    let data = mem::ManuallyDrop::new(data);
+    (init)(data.as_ptr());
 
-    TensorData::<T>::new(len, *data, shape)
+    TensorData::<T>::new(len, data, shape)
 }
-- 
2.43.0


From d45c42e3182cb4b16bf64493ae7889a1dc427851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 04/34] fix: 3- and 4-index access compared the element count
 instead of the rank

---
 src/tensor/index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/index.rs b/src/tensor/index.rs
index 8999e1a..324f365 100644
--- a/src/tensor/index.rs
+++ b/src/tensor/index.rs
@@ -42,7 +42,7 @@ impl<T: Type> Index<(usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 2);
         assert!(index.0 < shape.rdim(2));
@@ -65,7 +65,7 @@ impl<T: Type> Index<(usize, usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 3);
         assert!(index.0 < shape.rdim(3));
-- 
2.43.0


From b22f7318924ecc66f51676529ece8be1c120115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 05/34] fix: subslice_flat accepted an empty shape for one
 element

---
 src/tensor/tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 4ea492a..df5ac35 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -142,7 +142,7 @@ impl<T: Type> Tensor<T> {
         let shape = shape.into();
 
         let shape_len : usize = shape.size();
-        assert!(shape_len == len || shape.size() == 0 && len == 1);
+        assert!(shape_len == len);
 
         Self {
             shape,
-- 
2.43.0


From d1ea94455b11607bb901e988e55db4af33f8fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 06/34] fix: subslice bounds checks could overflow in release
 builds

---
 src/tensor/tensor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index df5ac35..69444b7 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -137,7 +137,7 @@ impl<T: Type> Tensor<T> {
 
     pub fn subslice_flat(&self, offset: usize, len: usize, shape: impl Into<Shape>) -> Self {
         assert!(offset <= self.size);
-        assert!(offset + len <= self.size);
+        assert!(len <= self.size - offset);
 
         let shape = shape.into();
 
@@ -158,8 +158,8 @@ impl<T: Type> Tensor<T> {
     pub fn subslice(&self, offset: usize, len: usize) -> Self {
         let dim_0 = self.dim(0);
 
-        // assert!(offset <= dim_0);
-        assert!(offset + len <= dim_0, "subslice end={} with shape={:?}", offset + len, self.shape().as_vec());
+        assert!(offset <= dim_0 && len <= dim_0 - offset,
+            "subslice offset={} len={} with shape={:?}", offset, len, self.shape().as_vec());
 
         let size : usize = self.shape().as_vec()[1..].iter().product();
 
-- 
2.43.0


From 0e50f7fcec3bc1d62e8efeab990c37ec0ef2b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 07/34] fix: Shape::append added the maximum rank instead of
 the tail's length

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4a8552a..b71b74e 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -249,7 +249,7 @@ impl Shape {
 
         Self {
             dims,
-            rank: self.rank + dims.len(),
+            rank: self.rank + tail.len(),
         }
     }
 
-- 
2.43.0


From cafbbb04493918eba4b6ca3eab1771c97e1dc536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 08/34] fix: Shape::squeeze of an axis looked at the
 neighbouring axis

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index b71b74e..d29a481 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -317,7 +317,7 @@ impl Shape {
             Some(axis) => {
                 let len = self.rank;
                 let axis = (axis + len as isize) % len as isize;
-                let axis = self.rank as usize - axis as usize;
+                let axis = self.rank as usize - 1 - axis as usize;
                 
                 let mut rank = 0;
                 let mut dims = [0; Self::MAX_RANK];
-- 
2.43.0


From 6aaaac380b7fe472c7bd6ee9322446bb87fbaddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 09/34] fix: Shape::rinsert rejected rank-6 results and
 accepted an axis past the rank

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index d29a481..9d3f976 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -392,7 +392,7 @@ impl Shape {
     #[must_use]
     #[inline]
     pub fn rinsert(mut self, axis: usize, len: usize) -> Shape {
-        assert!(axis + 1 < Self::MAX_RANK);
+        assert!(axis <= self.rank && self.rank < Self::MAX_RANK);
 
         for i in (axis..self.rank).rev() {
             self.dims[i + 1] = self.dims[i];
-- 
2.43.0


From 9334a92cea60519fcba06bac8ff3598ded9fe095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 10/34] fix: Shape::batch_len multiplied the inner dimensions
 instead of the batch ones

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 9d3f976..c41d679 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[0..rank - base_rank].iter().product::<u32>() as usize
+            self.dims[base_rank..rank].iter().product::<u32>() as usize
         } else {
             1
         }
-- 
2.43.0


From 066e2ea549f18daedacd7db775395a4153029ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 11/34] fix: element counts overflowed u32 in release builds

---
 src/tensor/shape.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index c41d679..abc648d 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -35,7 +35,7 @@ impl Shape {
 
     #[inline]
     pub fn size(&self) -> usize {
-        self.dims[0..self.rank as usize].iter().product::<u32>() as usize
+        dims_size(&self.dims[0..self.rank as usize])
     }
 
     #[inline]
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[base_rank..rank].iter().product::<u32>() as usize
+            dims_size(&self.dims[base_rank..rank])
         } else {
             1
         }
@@ -256,27 +256,19 @@ impl Shape {
     #[inline]
     pub fn sublen(&self, start: usize, end: usize) -> usize
     {
-        let mut size = 1;
-
         let (start, end) = (self.rank - end, self.rank - start);
 
-        for i in start..end {
-            size *= self.dims[i];
-        }
-
-        size as usize
+        self.rsublen(start, end)
     }
 
     #[inline]
     pub fn rsublen(&self, start: usize, end: usize) -> usize
     {
-        let mut size = 1;
-
-        for i in start..end {
-            size *= self.dims[i];
+        if start < end {
+            dims_size(&self.dims[start..end])
+        } else {
+            1
         }
-
-        size as usize
     }
 
     #[inline]
@@ -418,6 +410,12 @@ impl Shape {
     }
 }
 
+fn dims_size(dims: &[u32]) -> usize {
+    dims.iter().fold(1usize, |size, dim| {
+        size.checked_mul(*dim as usize).expect("shape size overflow")
+    })
+}
+
 impl fmt::Debug for Shape {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "Shape{:?}", self.as_vec())
-- 
2.43.0


From 86dde579e3e2b97d77832b1391fc9535dbffacf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 12/34] fix: dimensions of 2^32 or more were silently truncated

---
 src/tensor/shape.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index abc648d..c7d6bc8 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -25,7 +25,7 @@ impl Shape {
         assert!(len > 0, "Shape requires a non-zero size");
 
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = len as u32;
+        dims[0] = to_dim(len);
 
         Self {
             dims,
@@ -81,7 +81,7 @@ impl Shape {
     pub fn rreplace(mut self, i: usize, value: usize) -> Self {
         assert!(i < self.rank);
 
-        self.dims[i] = value as u32;
+        self.dims[i] = to_dim(value);
 
         self
     }
@@ -116,7 +116,7 @@ impl Shape {
     pub fn with_cols(self, col: usize) -> Self {
         let mut own = self;
 
-        own.dims[0] = col as u32;
+        own.dims[0] = to_dim(col);
 
         own
     }
@@ -139,7 +139,7 @@ impl Shape {
 
         let mut own = self;
 
-        own.dims[1] = row as u32;
+        own.dims[1] = to_dim(row);
 
         own
     }
@@ -231,7 +231,7 @@ impl Shape {
 
     pub fn push(&self, dim: usize) -> Self {
         let mut dims = self.dims.clone();
-        dims[self.rank as usize] = dim as u32;
+        dims[self.rank as usize] = to_dim(dim);
 
         Self {
             dims,
@@ -244,7 +244,7 @@ impl Shape {
         let mut dims = self.dims.clone();
 
         for (i, dim) in tail.iter().enumerate() {
-            dims[i + self.rank as usize] = *dim as u32;
+            dims[i + self.rank as usize] = to_dim(*dim);
         }
 
         Self {
@@ -390,7 +390,7 @@ impl Shape {
             self.dims[i + 1] = self.dims[i];
         }
 
-        self.dims[axis] = len as u32;
+        self.dims[axis] = to_dim(len);
         self.rank += 1;
 
         self
@@ -410,6 +410,10 @@ impl Shape {
     }
 }
 
+fn to_dim(dim: usize) -> u32 {
+    u32::try_from(dim).expect("dimension is too large")
+}
+
 fn dims_size(dims: &[u32]) -> usize {
     dims.iter().fold(1usize, |size, dim| {
         size.checked_mul(*dim as usize).expect("shape size overflow")
@@ -431,7 +435,7 @@ impl From<&Shape> for Shape {
 impl From<usize> for Shape {
     fn from(value: usize) -> Self {
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = value as u32;
+        dims[0] = to_dim(value);
 
         Shape {
             dims,
@@ -445,7 +449,7 @@ impl From<&[usize]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = to_dim(*dim);
         }
 
         Shape {
@@ -460,7 +464,7 @@ impl<const N: usize> From<[usize; N]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = to_dim(*dim);
         }
 
         Shape {
@@ -476,7 +480,7 @@ impl From<Vec<usize>> for Shape {
 
         for (i, v) in value.iter().rev().enumerate() {
             assert!(*v > 0);
-            dims[i] = *v as u32;
+            dims[i] = to_dim(*v);
         }
 
         Shape {
-- 
2.43.0


From f90232f1c314440981306a9af42ffe2c69400548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 13/34] fix: fold_row over a vector's only axis folded its row
 once per element

---
 src/tensor/axis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/axis.rs b/src/tensor/axis.rs
index 479fcc9..b8a132b 100644
--- a/src/tensor/axis.rs
+++ b/src/tensor/axis.rs
@@ -81,7 +81,7 @@ impl Axis {
                 assert!(axis < rank);
             
                 if rank == 1 {
-                    return (Shape::from([cols]), 1, shape.size(), 1)
+                    return (Shape::from([cols]), 1, 1, 1)
                 }
 
                 assert!(axis + 1 < rank);
-- 
2.43.0


From dc6c5ef83c71504cd5d3721cfd37f36d47ec7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 14/34] fix: normalize wrote results at transposed positions
 for a non-final axis

---
 src/tensor/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index a25a3ba..897d102 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -619,7 +619,7 @@ where
                     for k in 0..a_len {
                         let v = &a[(n * a_len + k) * inner + i];
 
-                        o.add((n * inner + i) * a_len + k)
+                        o.add((n * a_len + k) * inner + i)
                             .write((norm)(&state, v));
                     }
                 }
-- 
2.43.0


From 144ebf9bbfef3268288e21c3a60658ef1b8bef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 15/34] fix: matmul labelled its result with rows and columns
 exchanged

---
 src/linalg/matmul.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e9c13bb..76a7289 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -54,7 +54,7 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
 
-    let shape = b.shape().clone().with_cols(m).with_rows(n);
+    let shape = b.shape().clone().with_cols(n).with_rows(m);
 
     unsafe {
         unsafe_init::<f32>(o_size * batch_len, shape, |o| {
@@ -93,7 +93,7 @@ impl TransposeMatmul for Transpose {
                 assert_eq!(a.cols(), b.cols(), "matmul shape does not match. A={:?} B={:?} for {:?}", 
                     a.shape().as_vec(), b.shape().as_vec(), &self);
 
-                (a.rows(), a.rows(), b.rows())
+                (a.rows(), a.cols(), b.rows())
             },
             Transpose::TransposeAB => {
                 assert_eq!(a.rows(), b.cols(), "matmul shape does not match. A={:?} B={:?} for {:?}", 
-- 
2.43.0


From 631ceb718d7dccec7ccaa648207b999cd491cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 16/34] fix: matmul read out of bounds when batch shapes differ

---
 src/linalg/matmul.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index 76a7289..02e6897 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -44,8 +44,9 @@ pub fn matmul(a: &Tensor, b: &Tensor) -> Tensor {
 pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Tensor {
     //assert_eq!(M, N, "matrix multiplication requires matching dim >= 2");
     assert!(a.rank() > 1, "matrix multiplication requires rank >= 2");
-    // todo!() - re-enable this assertion
-    //assert_eq!(&a.shape().as_subslice(2..), &b.shape().as_subslice(2..), "matmul batch shape must match");
+    assert!(b.rank() > 1, "matrix multiplication requires rank >= 2");
+    assert_eq!(&a.shape().as_vec()[..a.rank() - 2], &b.shape().as_vec()[..b.rank() - 2],
+        "matmul batch shape must match");
 
     let (m, _, n) = transpose.mkn(a, b);
 
-- 
2.43.0


From adba6effee6990174781697865eb1b365e313b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 17/34] fix: arange with a negative step never terminated

---
 src/init/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index c976b77..de1a4e9 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -25,7 +25,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while end < start {
             vec.push(start);
-            start -= step;
+            start += step;
         }
 
         Tensor::from(vec)
-- 
2.43.0


From 1f2e89a6bef5f28a3b94bd1821ca3cc873daa090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 18/34] fix: arange never terminated when the step is too small
 to advance

---
 src/init/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index de1a4e9..c3a3ebd 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -15,6 +15,8 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
         let mut vec = Vec::<f32>::new();
 
         while start < end {
+            assert!(start + step > start, "arange step={} is too small at {}", step, start);
+
             vec.push(start);
             start += step;
         }
@@ -24,6 +26,8 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
         let mut vec = Vec::<f32>::new();
 
         while end < start {
+            assert!(start + step < start, "arange step={} is too small at {}", step, start);
+
             vec.push(start);
             start += step;
         }
-- 
2.43.0


From 84ef8802d9f2f0da5afe30458d9d18602b6bb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 19/34] fix: Rand64::next_uniform scaled a 64-bit value by the
 32-bit maximum

---
 src/random/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index 94c5be3..c92d42a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -76,7 +76,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_uniform(&mut self) -> f64 {
-        self.next() as f64 / u32::MAX as f64
+        self.next() as f64 / u64::MAX as f64
     }
 
     #[inline]
-- 
2.43.0


From 862da29ccf2d0ef79538994d4bdabd708b6874cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 20/34] fix: next_normal was infinite when its first uniform
 draw was zero

---
 src/random/random.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index c92d42a..659f68a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -33,7 +33,7 @@ impl Rand32 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f32 {
-        let rng_a = self.next_uniform();
+        let rng_a = self.next_uniform().max(f32::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
@@ -81,7 +81,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f64 {
-        let rng_a = self.next_uniform();
+        let rng_a = self.next_uniform().max(f64::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
-- 
2.43.0


From 9fba43cea2e6a7d85857107c70939abbcdcd180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 21/34] fix: histogram2d took its bounds from the whole table
 and always panicked

---
 src/stats/histogram2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index d907428..f5dd785 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -6,10 +6,8 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     assert!(data.cols() == 2, "histogram2d requires 2D tensor {:?}", data.shape().as_vec());
 
     let args = args.into();
-    // let min = data.reduce_min_opt(0);
-    // let max = data.reduce_max_opt(0);
-    let min = data.reduce_min();
-    let max = data.reduce_max();
+    let min = data.reduce_min_axis(0);
+    let max = data.reduce_max_axis(0);
     let (min_x, min_y) = (min[0], min[1]);
     let (max_x, max_y) = (max[0], max[1]);
 
-- 
2.43.0


From fa7312e7f1eab416ffd62ca6671b8dbfa05dde34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 22/34] fix: rfft_norm counted batches from the outer dimension
 only

---
 src/signal/rfft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/rfft.rs b/src/signal/rfft.rs
index 4c1b322..c18237c 100644
--- a/src/signal/rfft.rs
+++ b/src/signal/rfft.rs
@@ -9,7 +9,7 @@ pub fn rfft_norm(tensor: impl Into<Tensor>, opt: impl FftOpt) -> Tensor {
     let tensor = tensor.into();
     let opt = opt.into_arg();
     let len = tensor.cols();
-    let batch = tensor.len() / len;
+    let batch = tensor.size() / len;
 
     let mut planner = FftPlanner::<f32>::new();
     let fft_fwd = planner.plan_fft_forward(len);
-- 
2.43.0


From 2bcda57d1a87a934dc43f09d8ebed6005192b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 23/34] fix: unstack never produced the tensors along its axis

---
 src/array/stack.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/array/stack.rs b/src/array/stack.rs
index c565cb3..46d0284 100644
--- a/src/array/stack.rs
+++ b/src/array/stack.rs
@@ -154,24 +154,12 @@ impl<T: Type + Clone> Tensor<T> {
     
         let axis = axis.axis_from_rank(self.rank());
     
-        let cuts = Vec::<usize>::new();
-    
-        if axis == 0 {
-            let mut slices = Vec::<Tensor<T>>::new();
-    
-            let mut prev = 0;
-            for i in cuts {
-                if i != prev {
-                    slices.push(self.subslice(prev, i - prev));
-                }
-                prev = i;
-            }
-        
-    
-            slices
-        } else {
-            self.split_axis(Axis::axis(axis as isize), cuts)
-        }
+        let shape = self.shape().clone().remove(axis);
+
+        self.split_axis(Axis::axis(axis as isize), self.dim(axis))
+            .into_iter()
+            .map(|t| t.reshape(shape.clone()))
+            .collect()
     }
 }
 
-- 
2.43.0


From 44776c0daf496ecf25fa6467298264c1443ee624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 24/34] fix: split into n sections returned a different number
 of sections when n does not divide

---
 src/array/split.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array/split.rs b/src/array/split.rs
index 2b28f5a..27321d7 100644
--- a/src/array/split.rs
+++ b/src/array/split.rs
@@ -43,6 +43,7 @@ fn split_axis<T: Type + Clone>(
 
     match section {
         Sections::SplitEqual(n) => {
+            assert!(n > 0 && len % n == 0, "split must be an equal division n={} len={}", n, len);
             let step = len / n;
             assert!(step > 0);
             let mut i = 0;
-- 
2.43.0


From 7421dd79359ef5f88c824e9e630bd37dd8f9a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 25/34] fix: the naive feature did not compile

---
 src/linalg/blas.rs       | 3 +++
 src/linalg/blas_naive.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/linalg/blas.rs b/src/linalg/blas.rs
index 24a3f6a..967c2d2 100644
--- a/src/linalg/blas.rs
+++ b/src/linalg/blas.rs
@@ -1,3 +1,6 @@
+#[cfg(feature="naive")]
+use super::blas_naive::sgemm_naive;
+
 //
 // C = alpha * A * B + beta * C
 // A: m by k
diff --git a/src/linalg/blas_naive.rs b/src/linalg/blas_naive.rs
index 71c4105..13c34dd 100644
--- a/src/linalg/blas_naive.rs
+++ b/src/linalg/blas_naive.rs
@@ -1,6 +1,6 @@
 
 #[allow(dead_code)]
-unsafe fn sgemm_naive(
+pub(super) unsafe fn sgemm_naive(
     m: usize, k: usize, n: usize,
     alpha: f32,
     a: *const f32, rsa: usize, csa: usize,
-- 
2.43.0


From 23549c37fa33317a897f81806249eeb448c1b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 26/34] fix: read_file returned zeros for the part of a file a
 short read left out

---
 src/io/read_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read_file.rs b/src/io/read_file.rs
index 93f739f..623fccb 100644
--- a/src/io/read_file.rs
+++ b/src/io/read_file.rs
@@ -10,7 +10,7 @@ pub fn read_file(filename: impl Into<Tensor<String>>) -> Result<Tensor<u8>, std:
     data.reserve_exact(len as usize);
     data.resize(len as usize, 0);
 
-    file.read(data.as_mut_slice())?;
+    file.read_exact(data.as_mut_slice())?;
 
     Ok(Tensor::from(data))
 }
-- 
2.43.0


From 0475bb9c99414072408da649fe6e11a44c1b7873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 27/34] fix: map2 and map3 divided by zero on empty tensors

---
 src/tensor/map.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index 897d102..fc58c07 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -291,9 +291,9 @@ where
     let a_len = a.size();
     let b_len = b.size();
 
-    let size = a_len.max(b_len);
+    let size = shape.size();
     let inner = a_len.min(b_len);
-    let batch = size / inner;
+    let batch = if inner > 0 { size / inner } else { 0 };
 
     assert!(batch * inner == size, "broadcast mismatch a.len={} b.len={}", a_len, b_len);
     
@@ -376,9 +376,9 @@ where
     let b_len = b.size();
     let c_len = c.size();
 
-    let size = a_len.max(b_len).max(c_len);
+    let size = shape.size();
     let inner = a_len.min(b_len).min(c_len);
-    let batch = size / inner;
+    let batch = if inner > 0 { size / inner } else { 0 };
 
     assert!(batch * inner == size, "broadcast mismatch a.len={} b.len={} c.len={}", a_len, b_len, c_len);
     
-- 
2.43.0


From e95991f95b54742482191a1ae9edd7be06626eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:55 +0000
Subject: [PATCH 28/34] fix: partial_cmp called tensors of different shapes
 equal

---
 src/math/num.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math/num.rs b/src/math/num.rs
index 1455197..c722e0f 100644
--- a/src/math/num.rs
+++ b/src/math/num.rs
@@ -45,7 +45,10 @@ impl<T: Type + Ord + Clone> Tensor<T> {
 
 impl<T: Type + PartialOrd> PartialOrd for Tensor<T> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        self.iter().partial_cmp(other.iter())
+        match self.iter().partial_cmp(other.iter()) {
+            Some(std::cmp::Ordering::Equal) if self.shape() != other.shape() => None,
+            ordering => ordering,
+        }
     }
 }
 
-- 
2.43.0


From c940e644c996e5cfa373654cb35fff3d6d9bddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:40 +0000
Subject: [PATCH 29/34] verif: expose Transpose and FftOpt to a harness under
 cfg(essay_verif)

---
 src/linalg/mod.rs | 4 ++++
 src/signal/mod.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 5fa3fe6..b84fb80 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -5,3 +5,7 @@ mod matvec;
 
 pub use matmul::matmul;
 
+// verification hook: lets an external harness name the transpose options
+#[allow(unexpected_cfgs)]
+#[cfg(essay_verif)]
+pub use matmul::Transpose;
diff --git a/src/signal/mod.rs b/src/signal/mod.rs
index e1a6c1f..c77dcd7 100644
--- a/src/signal/mod.rs
+++ b/src/signal/mod.rs
@@ -4,3 +4,7 @@ mod rfft;
 pub use frame::frame;
 pub use rfft::rfft_norm;
 
+// verification hook: lets an external harness set the rfft options
+#[allow(unexpected_cfgs)]
+#[cfg(essay_verif)]
+pub use rfft::FftOpt;
-- 
2.43.0


From 911dbc8b3ca844dbf6562dbf82b59af0e34ef12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:04 +0000
Subject: [PATCH 30/34] fix: append refuses tensors whose inner dimensions
 differ

Only the number of elements below the first axis was compared, so
appending [1, 2, 3] to [1, 3, 2] reinterpreted the second tensor's
elements with the first tensor's dimensions.
---
 src/tensor/tensor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 69444b7..c622de4 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -203,8 +203,10 @@ impl<T: Type + Clone> Tensor<T> {
         let tensor = tensor.into();
 
         assert_eq!(
-            self.shape().sublen(1, self.rank()), 
-            tensor.shape().sublen(1, tensor.rank())
+            self.shape().clone().remove(0), 
+            tensor.shape().clone().remove(0),
+            "append() inner dimensions must match {:?} {:?}",
+            self.shape().as_vec(), tensor.shape().as_vec(),
         );
 
         let mut vec = Vec::from(self.shape.as_vec());
-- 
2.43.0


From 018e41f2083cb9b358d49bd67fdd3900008852f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:21 +0000
Subject: [PATCH 31/34] fix: tiling a scalar by an empty list of multiples
 recurses without end

---
 src/array/tile.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/array/tile.rs b/src/array/tile.rs
index 868c3f5..ef59938 100644
--- a/src/array/tile.rs
+++ b/src/array/tile.rs
@@ -41,6 +41,11 @@ where
     o_shape_r.reverse();
     let o_shape = o_shape_r;
 
+    // a scalar with nothing to repeat
+    if o_rank == 0 {
+        return tensor;
+    }
+
     unsafe {
         unsafe_init::<T>(n_outer * n_inner, o_shape, |o| {
             let mut offset = 0;
-- 
2.43.0


From fa77bc1a21a54890be9b1ca30bf4ff3f01fe1453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:07 +0000
Subject: [PATCH 32/34] fix: decode_wav accepts a data length beyond the end of
 the file, and reserves by it

---
 src/io/decode_wav.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/decode_wav.rs b/src/io/decode_wav.rs
index d35aa0e..1c29b54 100644
--- a/src/io/decode_wav.rs
+++ b/src/io/decode_wav.rs
@@ -31,6 +31,10 @@ pub fn decode_wav(
 
     assert_eq!(cursor.read_u32_big(), 0x6461_7461);
     let size = cursor.read_u32_little();
+    assert!(
+        size as usize <= contents.as_slice().len() - cursor.index,
+        "wav data of {} bytes is truncated", size
+    );
 
     let n_samples = size / 2;
     //let len = meta.n_channels * 
-- 
2.43.0


From fd4bf5a71fbd317061d4747022446414303db83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:24 +0000
Subject: [PATCH 33/34] fix: histogram counts stop at 2^24 samples in one bin

---
 src/stats/histogram.rs   | 11 ++++++-----
 src/stats/histogram2d.rs |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/stats/histogram.rs b/src/stats/histogram.rs
index ab12df6..7b50ef7 100644
--- a/src/stats/histogram.rs
+++ b/src/stats/histogram.rs
@@ -15,20 +15,21 @@ pub fn histogram(data: impl Into<Tensor>, args: impl Into<HistArgs>) -> (Tensor,
 
     let bins = linspace(min, max, args.n_bins + 1);
 
-    let mut values = Vec::<f32>::new();
-    values.resize(args.n_bins, 0.);
+    // counted as integers because f32 stops counting at 2^24
+    let mut values = Vec::<usize>::new();
+    values.resize(args.n_bins, 0);
 
     for item in data.iter() {
         let bin = ((*item - min) / delta).floor() as usize;
 
         if bin < args.n_bins {
-            values[bin] += 1.;
+            values[bin] += 1;
         } else {
-            values[args.n_bins - 1] += 1.;
+            values[args.n_bins - 1] += 1;
         }
     }
 
-    (Tensor::from(values), bins)
+    (Tensor::from(values).map(|v| *v as f32), bins)
 }
 
 pub struct HistArgs {
diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index f5dd785..d9f1136 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -26,18 +26,19 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     let bins_x = linspace(min_x, max_x, args.n_bins + 1);
     let bins_y = linspace(min_y, max_y, args.n_bins + 1);
 
-    let mut values = Vec::<f32>::new();
-    values.resize(args.n_bins * args.n_bins, 0.);
+    // counted as integers because f32 stops counting at 2^24
+    let mut values = Vec::<usize>::new();
+    values.resize(args.n_bins * args.n_bins, 0);
 
     for item in data.iter_row() {
         let bin_x = (((item[0] - min_x) / delta_x).floor() as usize).min(args.n_bins - 1);
         let bin_y = (((item[1] - min_y) / delta_y).floor() as usize).min(args.n_bins - 1);
 
-        values[bin_y * args.n_bins + bin_x] += 1.;
+        values[bin_y * args.n_bins + bin_x] += 1;
     }
 
     (
-        Tensor::from(values).reshape([args.n_bins, args.n_bins]),
+        Tensor::from(values).map(|v| *v as f32).reshape([args.n_bins, args.n_bins]),
         bins_x,
         bins_y
     )
-- 
2.43.0


From bea415da5fcbe99dd82378e63ae3466435c69e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:13 +0000
Subject: [PATCH 34/34] fix: transpose mislabels matrices with no rows or no
 columns

---
 src/array/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/transpose.rs b/src/array/transpose.rs
index debfb8b..907eb3d 100644
--- a/src/array/transpose.rs
+++ b/src/array/transpose.rs
@@ -13,7 +13,7 @@ pub fn transpose<T: Type + Clone>(tensor: impl Into<Tensor<T>>) -> Tensor<T> {
     if shape.rank() == 1 {
         shape = shape.rinsert(0, 1);
     } else {
-        shape = shape.with_cols(rows).with_rows(cols);
+        shape = shape.with_cols(tensor.rows()).with_rows(tensor.cols());
     }
 
     unsafe {
-- 
2.43.0

