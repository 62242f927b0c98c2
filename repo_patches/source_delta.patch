From 7bdb16d387fc608b1b743669bed15dbfffab9cac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 01/27] fix: bmm gradients of more than 32 elements were
 written to the wrong blocks

SplitArrayWriter routes global index g to segment g >> bit_width, counting from
the start of the array, but rchunks_mut hands the segments out from the end.
---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3056080..dfb369e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -152,7 +152,7 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
         let bit_width = 5;
         let width = 1 << bit_width;
         let splits = slice.len() / width;
-        let segments: Vec<_> = slice.rchunks_mut(width).collect();
+        let segments: Vec<_> = slice.chunks_mut(width).collect();
         let (senders, receivers) = iter::repeat_with(unbounded).take(segments.len()).unzip();
         SplitArrayWriter {
             segments,
-- 
2.43.0


From f7273b379a28e2175d0c13e61e1698854c0b2db7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 02/27] fix: the gradient of sum ignored the gradient flowing
 into it

Every input of a sum received 1 whatever happened to the sum afterwards, so
for instance -(x.sum()) gave x a gradient of +1.
---
 src/tensor/autograd/jvp.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 74c9ffc..3c97b74 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -1,6 +1,6 @@
 use crate::tensor::numeric::*;
 
-use crate::tensor::{RawTensor, RcTensor, TensorLike, TensorList};
+use crate::tensor::{RcTensor, TensorLike, TensorList};
 
 #[derive(Debug, PartialEq, Clone)]
 pub(in crate::tensor) struct Derivative<T: Numeric> {
@@ -74,6 +74,9 @@ pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> V
     assert!(grads.len() == 1);
     let length_1 = tensors[0].shape().iter().product::<usize>();
     let length_2 = grads[0].shape().iter().product::<usize>();
-    let raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
-    vec![RcTensor::from_raw(raw_tensor)]
+    let mut array = Vec::with_capacity(length_2 * length_1);
+    for &grad in grads[0].0.array.iter() {
+        array.extend(std::iter::repeat(grad).take(length_1));
+    }
+    vec![RcTensor::new(array, vec![length_2, length_1])]
 }
-- 
2.43.0


From e56c8a912fb02027582c377602a33e12512c35cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 03/27] fix: sum gave its result a gradient of ones in the
 shape of the input

A fresh sum already had a gradient, of a shape that is not its own, before any
backward pass, and later gradients were added on top of it.
---
 src/tensor/raw_tensor.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 87f8c6f..8f414b1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -320,12 +320,7 @@ where
             .array
             .iter()
             .fold(Self::Elem::zero(), |acc, x| acc + *x);
-        let scalar = RawTensor::from(v);
-        scalar.update_grad(RcTensor::new_with_filler(
-            self.shape.clone(),
-            Self::Elem::one(),
-        ));
-        scalar
+        RawTensor::from(v)
     }
 
     fn tensor(&self) -> Self::TensorRef<'_> {
-- 
2.43.0


From ebcad6b9e432b6b48bd02c060404d490a7f5af3f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 04/27] fix: the gradient of dot had the shape of the operand
 instead of a Jacobian row

A dot of computed operands, or anything computed from a dot, made backward
panic: every derivative takes and returns (1 x count) Jacobians.
---
 src/tensor/functional/misc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dfb369e..9d898be 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -1,7 +1,7 @@
 use super::super::numeric::*;
 use crate::tensor::autograd::Derivative;
 use crate::tensor::utils::{global_index, ElementIterator};
-use crate::tensor::{autograd, RawTensor, RcTensor, TensorLike};
+use crate::tensor::{RawTensor, RcTensor, TensorLike};
 
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use std::{iter, ops::Deref, sync::Arc};
@@ -368,9 +368,11 @@ fn dot_jvp<T: Numeric>(inputs: Vec<RcTensor<T>>, jacobians: Vec<RcTensor<T>>) ->
     );
     let (left, right) = (inputs[0].clone(), inputs[1].clone());
     let jacobian = jacobians[0].clone();
-    let left_jvp = autograd::jvp_from_full_jacobians(jacobian.clone(), right);
-    let right_jvp = autograd::jvp_from_full_jacobians(jacobian, left);
-    vec![left_jvp, right_jvp]
+    // the Jacobian with respect to one side is the other side as a single row
+    let left_row = RcTensor::new(left.0.array.clone(), vec![1, left.count()]);
+    let right_row = RcTensor::new(right.0.array.clone(), vec![1, right.count()]);
+    let jacobian = RcTensor::new(jacobian.0.array.clone(), vec![jacobian.count(), 1]);
+    vec![jacobian.bmm(&right_row), jacobian.bmm(&left_row)]
 }
 
 #[test]
-- 
2.43.0


From 580a6284993891ed06e37356c0f4ba114a884a49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 05/27] fix: backward panicked on a one element bmm or abs
 result

The derivatives take a (1 x count) Jacobian, as every other step produces, but
the first one got a scalar with no dimensions.
---
 src/tensor/rc_tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cab1716..cb0df9a 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -56,7 +56,7 @@ impl<T: Numeric> RcTensor<T> {
         self.grad_fn
             .as_ref()
             .unwrap()
-            .compute_jvp(vec![RcTensor::scalar(T::one())])
+            .compute_jvp(vec![RcTensor::new(vec![T::one()], vec![1, 1])])
     }
     pub fn is_scalar(&self) -> bool {
         self.0.array.len() == 1 && self.0.shape.is_empty()
-- 
2.43.0


From 5d405c2e6aef1022fbdd522d110c0f6d3c9f6032 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 06/27] fix: backward through a batched bmm panicked

bmm accepts a 3 dimensional left operand, but its derivative only handled
matrices.
---
 src/tensor/functional/misc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 9d898be..5de0faa 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -226,6 +226,14 @@ pub(crate) fn bmm_jvp<T: Numeric>(
         jacobians.len()
     );
 
+    // a batch of matrices on the left is the same as all of their rows in one matrix
+    let cols = inputs[0].shape()[inputs[0].shape().len() - 1];
+    let left = RcTensor::new(
+        inputs[0].0.array.clone(),
+        vec![inputs[0].count() / cols, cols],
+    );
+    let inputs = [left, inputs[1].clone()];
+
     assert_eq!(
         inputs[0].shape()[1],
         inputs[1].shape()[0],
-- 
2.43.0


From 300cfc2309554c90cdf740e127932aa01237dd20 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 07/27] fix: bmm accepted left operands of more than 3
 dimensions and truncated them

For instance shapes [1, 1, 3, 2] and [2, 2] gave a [1, 1, 2] result holding
only the first row.
---
 src/tensor/functional/misc.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 5de0faa..3694466 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -53,9 +53,8 @@ where
     U2: Deref<Target = V2> + std::fmt::Debug + Clone + Send + Sync,
     V2: TensorLike<Elem = T>,
 {
-    // assert!(2 <= self.shape().len() && self.shape().len() <= 3); // For now we can only do Batch matrix
     //    dbg!(left.shape(), right.shape());
-    assert!(2 <= left.shape().len()); // For now we can only do Batch matrix
+    assert!(2 <= left.shape().len() && left.shape().len() <= 3); // For now we can only do Batch matrix
     assert!(right.shape().len() == 2); // rhs must be a matrix
                                        //
     assert!(left.shape()[left.shape().len() - 1] == right.shape()[right.shape().len() - 2]);
-- 
2.43.0


From 061fb74bfd0b39c5beee18e8a61f62f57da7dad4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 08/27] fix: backward through bmm could deadlock inside a rayon
 pool

A task that drains a channel blocks its thread until all senders are done. When
backward is called on a pool thread that task is the first to be picked up, so
with one thread (or with every thread in a backward of its own) the sending
tasks never got to run.
---
 src/tensor/functional/misc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3694466..28b2ec2 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -262,9 +262,9 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     // currently: loop through all the non-zero values:
     // J_A[ø[i,j], ø[i,k]] = B[k,j]
     // Consider seeing if there is a way to get this to work such that we also build the array as
+    let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
+    let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
     rayon::in_place_scope(|s| {
-        let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
-        let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
         let left_split_writer_ref = &mut left_split_writer;
         let right_split_writer_ref = &mut right_split_writer;
         for i in 0..inputs[0].shape()[0] {
@@ -328,6 +328,10 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                 }
             }
         }
+    });
+    // The readers block until every sender is gone, so a thread of the pool may only
+    // start on them once there is no sending task left that could need that thread.
+    rayon::in_place_scope(|s| {
         right_split_writer.start_then_join(s);
         left_split_writer.start_then_join(s);
     });
-- 
2.43.0


From ab980d1a14a06d89056cf36a327091079bdf410c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 09/27] fix: concurrent backward passes lost gradient updates

update_grad read the gradient under one lock and wrote the new one under
another, so two threads adding to a shared tensor could both start from the
same value.
---
 src/tensor/raw_tensor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 8f414b1..486e71a 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -305,11 +305,13 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let new_grad = match self.grad.read().unwrap().as_ref() {
+        // one lock for reading and writing: another thread may be adding its gradient too
+        let mut current = self.grad.write().unwrap();
+        let new_grad = match current.as_ref() {
             None => Some(grad),
             Some(other_grad) => Some(other_grad + &grad),
         };
-        *self.grad.write().unwrap() = new_grad;
+        *current = new_grad;
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From 46b5f6e6fc9b1e1ffb7a143e1d9d5d6fae818e9c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 10/27] fix: accumulated gradients kept every earlier gradient
 alive as a graph

Each accumulation recorded an addition, so the gradients of a tensor formed an
ever longer chain, and backward through one of them altered the others.
---
 src/tensor/raw_tensor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 486e71a..ca74fa1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -309,7 +309,8 @@ where
         let mut current = self.grad.write().unwrap();
         let new_grad = match current.as_ref() {
             None => Some(grad),
-            Some(other_grad) => Some(other_grad + &grad),
+            // add_raw: the sum of the gradients is not itself an operation to differentiate
+            Some(other_grad) => Some(RcTensor::from_raw(functional::add_raw(other_grad, &grad))),
         };
         *current = new_grad;
     }
-- 
2.43.0


From be8f52e7a9a58067960f526755748f82760ccacd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 11/27] fix: sgd_step made every later backward pass run
 through all earlier steps

The updated parameters recorded the update as an operation, so each backward
pass continued into all previous parameters, adding to their gradients and
taking longer with every step.
---
 src/optim/sgd.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/optim/sgd.rs b/src/optim/sgd.rs
index 0ba9465..0085e7c 100644
--- a/src/optim/sgd.rs
+++ b/src/optim/sgd.rs
@@ -32,11 +32,8 @@ pub fn sgd_step<T: Numeric + Real, U: Module<T>>(module: &mut U, step_size: Scal
     let new_params = module
         .params()
         .iter()
-        .map(|p| {
-            let new = p.clone() - &step_size * p.grad();
-            new.zero_grad();
-            new
-        })
+        // deep_clone: the new parameter starts afresh, without its history as a graph
+        .map(|p| (p.clone() - &step_size * p.grad()).deep_clone())
         .collect();
     module.update_params(new_params);
 }
-- 
2.43.0


From 031805c9eeaaaf1839b07835ef748cd58b3bb8ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 12/27] fix: indexing a view used the shape of the tensor
 behind it

A reshaped view could not be read in its new shape, a view with a dimension of
one could not be broadcast, and get panicked instead of returning an error.
---
 src/tensor/tensor_view.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 4683c38..cb9cba0 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -1,6 +1,6 @@
 use super::numeric::*;
 use crate::tensor::functional;
-use crate::tensor::utils::ElementIterator;
+use crate::tensor::utils::{global_index, tensor_index, ElementIterator};
 use crate::tensor::{IndexType, RcTensor, Scalar, SliceRange, TensorLike};
 
 use std::cmp::PartialEq;
@@ -33,9 +33,7 @@ where
     type Output = T;
 
     fn index(&self, index: IndexType) -> &Self::Output {
-        self.tensor
-            .get_with_offset(index, &self.view.offset)
-            .unwrap()
+        self.get(index).unwrap()
     }
 }
 
@@ -125,11 +123,12 @@ where
     }
 
     fn get(&self, index: IndexType) -> Result<&T, String> {
-        let idx = self
-            .tensor
-            .global_index(index, Some(&self.view.offset))
-            .unwrap();
-        Ok(&self.tensor.array[idx])
+        // the index is into the shape of the view, which need not be that of the ranges
+        let position = global_index(index, &self.view.shape, None)?;
+        let ranges: Vec<_> = self.view.offset.iter().map(|r| r.end - r.start).collect();
+        let tensor_idx = tensor_index(position, &ranges)?;
+        self.tensor
+            .get_with_offset(&tensor_idx, &self.view.offset)
     }
 
     fn count(&self) -> usize {
-- 
2.43.0


From 6a63d10a869132d8158fdad5c95d2cb4ddcc9a35 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 13/27] fix: slicing a view sliced the whole tensor behind it

---
 src/tensor/tensor_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index cb9cba0..68411a5 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -136,7 +136,7 @@ where
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
-        TensorView::new(self.tensor(), offset)
+        TensorView::new(self.to_tensor(), offset)
     }
 
     fn bmm<U>(&self, right: &U) -> Self::ResultTensorType<'_>
-- 
2.43.0


From 15f5405aefdbfcc7d6fa31b2664df932daa4d31d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 14/27] fix: multiplying a view by a scalar took all elements
 of the tensor behind it

The result had more elements than its shape.
---
 src/tensor/tensor_like.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_like.rs b/src/tensor/tensor_like.rs
index c1244f7..1845bdb 100644
--- a/src/tensor/tensor_like.rs
+++ b/src/tensor/tensor_like.rs
@@ -66,7 +66,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn left_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(scalar * elem);
         }
         result
@@ -74,7 +74,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn right_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(elem * scalar);
         }
         result
-- 
2.43.0


From 60f1775ce24ae9d2f469e84f2de58146c5024d46 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 15/27] fix: dot of a view used the elements of the tensor
 behind it

---
 src/tensor/functional/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 28b2ec2..c2b67cd 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -32,8 +32,8 @@ where
     //! generalised dot product: returns to acculumulated sum of the elementwise product.
     assert!(left.same_shape(&right));
     let mut result = T::zero();
-    for i in 0..left.tensor().array.len() {
-        result += left.tensor().array[i] * right.tensor().array[i];
+    for (l, r) in ElementIterator::new(left).zip(ElementIterator::new(right)) {
+        result += l * r;
     }
     RawTensor {
         array: vec![result],
-- 
2.43.0


From 4d64529feb81a6e97bf8556a021ea5d32c082447 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 16/27] fix: iterating over the elements of an empty tensor or
 view panicked

---
 src/tensor/utils.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53d9f17..a36490d 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -25,7 +25,7 @@ where
         ElementIterator {
             index: vec![0; tensor_like.deref().shape().len()],
             tensor_like: tensor_like.clone(),
-            first: true,
+            first: !tensor_like.shape().contains(&0),
         }
     }
 }
@@ -78,8 +78,8 @@ impl IndexIterator {
     pub fn new(dimensions: Vec<usize>) -> IndexIterator {
         IndexIterator {
             index: vec![0; dimensions.len()],
+            first: !dimensions.contains(&0),
             dimensions,
-            first: true,
         }
     }
 }
@@ -99,6 +99,9 @@ impl Iterator for IndexIterator {
 }
 
 pub(crate) fn increment_index<V: Deref<Target = [usize]>>(index: &mut [usize], shape: V) -> bool {
+    if shape.contains(&0) {
+        return false;
+    }
     let mut carry = 1;
     for i in (0..index.len()).rev() {
         let v = index[i];
@@ -181,7 +184,7 @@ pub(in crate::tensor) fn global_index(
 ) -> Result<usize, String> {
     if index.len() < shape.len() {
         for &dim in &shape[..shape.len() - index.len()] {
-            if dim > 1 {
+            if dim != 1 {
                 return Err(format!(
                     "shapes do not match: self.shape={:?}, index={:?}
                     Need index to be at least as long as shape.
-- 
2.43.0


From b06fe8ee57f99a0964d4fb5d8d0214adecff1ec1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 17/27] hooks: let a harness observe and schedule the gradient
 locks (cfg vp_hooks)

---
 src/lib.rs               |   6 ++
 src/tensor/raw_tensor.rs |  10 ++--
 src/vp_hooks.rs          | 122 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 134 insertions(+), 4 deletions(-)
 create mode 100644 src/vp_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 550e16f..ab8c84d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // vp_hooks: see the end of this file
+
 /// Tensor Processing for Machine Learning and Scientific computing in rust.
 ///
 /// The first goal of `rust_light` is to make it easier to train machine learning
@@ -16,3 +18,7 @@ pub mod nn;
 
 /// Optimisers!  Currently this only supports SGD.
 pub mod optim;
+
+/// Lets a test harness observe and schedule the use of locks.
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index ca74fa1..b01e598 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -1,9 +1,11 @@
 use std::cmp::PartialEq;
 use std::convert::From;
-use std::{
-    ops::{Add, Deref, Index, Mul, Neg, Sub},
-    sync::RwLock,
-};
+use std::ops::{Add, Deref, Index, Mul, Neg, Sub};
+#[cfg(not(vp_hooks))]
+use std::sync::RwLock;
+
+#[cfg(vp_hooks)]
+use crate::vp_hooks::RwLock;
 
 use super::autograd::Derivative;
 use super::functional as F;
diff --git a/src/vp_hooks.rs b/src/vp_hooks.rs
new file mode 100644
index 0000000..4225fb5
--- /dev/null
+++ b/src/vp_hooks.rs
@@ -0,0 +1,122 @@
+//! Only compiled with `--cfg vp_hooks`: a stand-in for `std::sync::RwLock` which
+//! tells an observer when a thread is about to take a lock, has to wait for it,
+//! or has given it back, so that a test harness can choose the order in which
+//! threads take their locks.
+use std::ops::{Deref, DerefMut};
+use std::sync;
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Event {
+    /// about to take the lock (`true`: for writing)
+    Before(bool),
+    /// the lock is held by someone else
+    Blocked(bool),
+    /// the lock has been given back
+    Released,
+}
+
+type Observer = Box<dyn Fn(usize, Event) -> bool + Send + Sync>;
+
+static OBSERVER: sync::OnceLock<Observer> = sync::OnceLock::new();
+
+/// `observer(lock, event)` returns whether the calling thread is under its control;
+/// other threads use the locks as they would without it.
+pub fn set_observer(observer: Observer) {
+    let _ = OBSERVER.set(observer);
+}
+
+fn tell(lock: usize, event: Event) -> bool {
+    OBSERVER.get().map_or(false, |o| o(lock, event))
+}
+
+#[derive(Debug, Default)]
+pub struct RwLock<T>(sync::RwLock<T>);
+
+pub struct Guard<G> {
+    guard: Option<G>,
+    lock: usize,
+}
+
+impl<G> Drop for Guard<G> {
+    fn drop(&mut self) {
+        self.guard = None;
+        tell(self.lock, Event::Released);
+    }
+}
+
+impl<G: Deref> Deref for Guard<G> {
+    type Target = G::Target;
+    fn deref(&self) -> &G::Target {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<G: DerefMut> DerefMut for Guard<G> {
+    fn deref_mut(&mut self) -> &mut G::Target {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+type ReadGuard<'a, T> = Guard<sync::RwLockReadGuard<'a, T>>;
+type WriteGuard<'a, T> = Guard<sync::RwLockWriteGuard<'a, T>>;
+
+impl<T> From<T> for RwLock<T> {
+    fn from(value: T) -> Self {
+        RwLock::new(value)
+    }
+}
+
+impl<T> RwLock<T> {
+    pub const fn new(value: T) -> Self {
+        RwLock(sync::RwLock::new(value))
+    }
+
+    fn id(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    fn acquire<G>(
+        &self,
+        write: bool,
+        attempt: impl Fn() -> sync::TryLockResult<G>,
+        wait: impl Fn() -> sync::LockResult<G>,
+    ) -> sync::LockResult<Guard<G>> {
+        let lock = self.id();
+        let wrap = |guard| Guard {
+            guard: Some(guard),
+            lock,
+        };
+        if !tell(lock, Event::Before(write)) {
+            return wait()
+                .map(wrap)
+                .map_err(|e| sync::PoisonError::new(wrap(e.into_inner())));
+        }
+        loop {
+            match attempt() {
+                Ok(guard) => return Ok(wrap(guard)),
+                Err(sync::TryLockError::Poisoned(e)) => {
+                    return Err(sync::PoisonError::new(wrap(e.into_inner())))
+                }
+                Err(sync::TryLockError::WouldBlock) => {
+                    tell(lock, Event::Blocked(write));
+                }
+            }
+        }
+    }
+
+    pub fn read(&self) -> sync::LockResult<ReadGuard<'_, T>> {
+        self.acquire(false, || self.0.try_read(), || self.0.read())
+    }
+
+    pub fn write(&self) -> sync::LockResult<WriteGuard<'_, T>> {
+        self.acquire(true, || self.0.try_write(), || self.0.write())
+    }
+
+    pub fn get_mut(&mut self) -> sync::LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> sync::LockResult<T> {
+        self.0.into_inner()
+    }
+}
-- 
2.43.0


From 118f30b065af2a3c9ca4258fdff45b382dc70f18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 18/27] fix: backward through a product with inner dimension 0
 divided by zero

---
 src/tensor/functional/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index c2b67cd..b167d00 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -226,10 +226,10 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     );
 
     // a batch of matrices on the left is the same as all of their rows in one matrix
-    let cols = inputs[0].shape()[inputs[0].shape().len() - 1];
+    let (&cols, rows) = inputs[0].shape().split_last().unwrap();
     let left = RcTensor::new(
         inputs[0].0.array.clone(),
-        vec![inputs[0].count() / cols, cols],
+        vec![rows.iter().product(), cols],
     );
     let inputs = [left, inputs[1].clone()];
 
-- 
2.43.0


From ff3fac4e62407fc0f9d732e9898a2ae36d9070b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 19/27] fix: adding an empty tensor and one stretched to it
 panicked

---
 src/tensor/functional/element_wise_ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index be46bc2..c4b8cd2 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -269,7 +269,8 @@ fn max_shape(left_shape: &[usize], right_shape: &[usize]) -> Vec<usize> {
         .rev()
     {
         let dim = match pair {
-            Both(&l, &r) => max(l, r),
+            Both(&1, &r) => r, // not the larger of the two: r may be 0
+            Both(&l, _) => l,
             Left(&l) => l,
             Right(&r) => r,
         };
-- 
2.43.0


From 792e681ad0e006f4ca436e5d4b8165e7b64928ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 20/27] fix: backward through operations on an empty tensor
 panicked

---
 src/tensor/functional/element_wise_ops.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index c4b8cd2..30f1316 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -152,12 +152,11 @@ pub(crate) fn jvp_from_diagonal_broadcast<T: Numeric>(
         jvp_shape
     );
     let mut array = vec![T::zero(); jvp_shape[0] * jvp_shape[1]];
-    let mut idx = vec![0; diagonal.shape().len()];
-    let mut orig_idx = vec![0; broadcast_shape.len()];
+    let orig_indices = IndexIterator::new(broadcast_shape.to_vec());
     // let mut tensor_idx = vec![0; ]
     //    dbg!(&idx, diagonal.shape(), grad.shape(), &jvp_shape);
     //    // dbg!(&diagonal);
-    loop {
+    for (idx, orig_idx) in diagonal.iter_indices().zip(orig_indices) {
         // through all elements of the broadcast input
         // noting that this is going along the diagonal of J_left,
         // in their expanded broadcasted form
@@ -178,10 +177,6 @@ pub(crate) fn jvp_from_diagonal_broadcast<T: Numeric>(
 
             array[output_jac_idx] += diag_val * grad_val; // TODO: multiply with diagonal
         }
-        if !increment_index(&mut idx, &diagonal.shape()[..]) {
-            break;
-        }
-        assert!(increment_index(&mut orig_idx, broadcast_shape));
     }
     let raw_left_grad = RawTensor::new(array, jvp_shape);
 
@@ -229,13 +224,9 @@ jacobians are not matrix multipliable",
 
     //    dbg!(&left.shape(), &right.shape(), &diag_shape, &broadcast_shape);
     let mut array = Vec::with_capacity(diag_length);
-    let mut idx = vec![0; broadcast_shape.len()];
-    loop {
+    for idx in IndexIterator::new(broadcast_shape.clone()) {
         let (&l, &r) = (left.get(&idx).unwrap(), right.get(&idx).unwrap());
         array.push(op_derivative(l, r));
-        if !increment_index(&mut idx, &broadcast_shape[..]) {
-            break;
-        }
     }
 
     let diag = RcTensor::new(array, diag_shape.clone());
@@ -374,15 +365,11 @@ pub(crate) fn generic_unary_jvp<T: Numeric>(
     let jvp_shape = vec![dim_0, diag_length];
 
     let mut array = Vec::with_capacity(diag_length);
-    let mut idx = vec![0; tensor.shape().len()];
-    loop {
+    for idx in IndexIterator::new(tensor.shape().clone()) {
         let &v = tensor.get(&idx).unwrap();
         let d = op_derivative(v);
         //        //        dbg!(&d);
         array.push(d);
-        if !increment_index(&mut idx, &tensor.shape()[..]) {
-            break;
-        }
     }
     let diag = RcTensor::new(array, diag_shape);
     vec![jvp_from_diagonal_broadcast(
-- 
2.43.0


From 66ebeef3af31973a8dce6da3cb622acd80f42bcc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 21/27] hooks: the rest of RwLock

---
 src/vp_hooks.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/vp_hooks.rs b/src/vp_hooks.rs
index 4225fb5..4e6a25c 100644
--- a/src/vp_hooks.rs
+++ b/src/vp_hooks.rs
@@ -112,6 +112,42 @@ impl<T> RwLock<T> {
         self.acquire(true, || self.0.try_write(), || self.0.write())
     }
 
+    fn attempt<G>(
+        &self,
+        write: bool,
+        attempt: impl Fn() -> sync::TryLockResult<G>,
+    ) -> sync::TryLockResult<Guard<G>> {
+        let lock = self.id();
+        let wrap = |guard| Guard {
+            guard: Some(guard),
+            lock,
+        };
+        tell(lock, Event::Before(write));
+        match attempt() {
+            Ok(guard) => Ok(wrap(guard)),
+            Err(sync::TryLockError::Poisoned(e)) => Err(sync::TryLockError::Poisoned(
+                sync::PoisonError::new(wrap(e.into_inner())),
+            )),
+            Err(sync::TryLockError::WouldBlock) => Err(sync::TryLockError::WouldBlock),
+        }
+    }
+
+    pub fn try_read(&self) -> sync::TryLockResult<ReadGuard<'_, T>> {
+        self.attempt(false, || self.0.try_read())
+    }
+
+    pub fn try_write(&self) -> sync::TryLockResult<WriteGuard<'_, T>> {
+        self.attempt(true, || self.0.try_write())
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+
+    pub fn clear_poison(&self) {
+        self.0.clear_poison()
+    }
+
     pub fn get_mut(&mut self) -> sync::LockResult<&mut T> {
         self.0.get_mut()
     }
-- 
2.43.0


From f9eeb473fd288f256398719a38e43e81ac287064 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:53 +0000
Subject: [PATCH 22/27] fix: backward through, or dropping, a computation of
 many thousand steps overflowed the stack

---
 src/tensor/autograd/jvp.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 3c97b74..49d9fb7 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -1,3 +1,5 @@
+use std::sync::Arc;
+
 use crate::tensor::numeric::*;
 
 use crate::tensor::{RcTensor, TensorLike, TensorList};
@@ -28,6 +30,18 @@ impl<T: Numeric> Derivative<T> {
     /// Recursively expanding the JVP of the input with the chain rule
     /// e.g. for f(g(h(x))), jvp(1.0) = jvp(1.0 * f'(g(h(x))))
     pub fn compute_jvp(&self, outer_grads: Vec<RcTensor<T>>) {
+        // a list instead of recursion: a computation can have more steps than the stack has room
+        let mut todo = vec![(self, outer_grads)];
+        while let Some((derivative, grads)) = todo.pop() {
+            derivative.step(grads, &mut todo);
+        }
+    }
+
+    fn step<'a>(
+        &'a self,
+        outer_grads: Vec<RcTensor<T>>,
+        todo: &mut Vec<(&'a Derivative<T>, Vec<RcTensor<T>>)>,
+    ) {
         // f(g(h(x))) how do i set x.grad if we are now computing f'
         // grad = f'(g(hx)) g'(h(x)) h'(x)
         // f(g(h(x), z)) how do i set x.grad if we are now computing f'
@@ -44,13 +58,28 @@ impl<T: Numeric> Derivative<T> {
             let shaped_grad = RcTensor::new(grad.0.array.clone(), input.shape().to_vec());
             input.update_grad(shaped_grad);
             if let Some(d) = input.grad_fn.as_ref() {
-                d.compute_jvp(vec![grad.clone()]);
+                todo.push((d, vec![grad.clone()]));
             }
             //            dbg!(&input);
         }
     }
 }
 
+impl<T: Numeric> Drop for Derivative<T> {
+    /// An input may be the last handle to a tensor with inputs of its own, and so on: they are
+    /// given up one after the other, for the same reason
+    fn drop(&mut self) {
+        let mut todo = std::mem::take(&mut self.inputs);
+        while let Some(tensor) = todo.pop() {
+            if let Some(mut raw) = Arc::into_inner(tensor.0) {
+                if let Some(derivative) = raw.grad_fn.as_mut() {
+                    todo.append(&mut derivative.inputs);
+                }
+            }
+        }
+    }
+}
+
 /// When used for making a jacobian_vector_product function
 /// left ought to be the gradient passed in and right is the computed jacobian
 pub(in crate::tensor) fn jvp_from_full_jacobians<T: Numeric>(
-- 
2.43.0


From e4f6ca2601c7222bcdf8af89d91c1fd143c68cdc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 23/27] fix: a gradient update that is refused left the
 gradient unusable

---
 src/tensor/raw_tensor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index b01e598..2a41cff 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -309,6 +309,14 @@ where
     fn update_grad(&self, grad: Self::GradType) {
         // one lock for reading and writing: another thread may be adding its gradient too
         let mut current = self.grad.write().unwrap();
+        let fits = match current.as_ref() {
+            None => true,
+            Some(other_grad) => other_grad.broadcastable(grad.shape()),
+        };
+        if !fits {
+            drop(current); // or nobody could use the gradient from here on
+            panic!("gradient of shape {:?} does not fit", grad.shape());
+        }
         let new_grad = match current.as_ref() {
             None => Some(grad),
             // add_raw: the sum of the gradients is not itself an operation to differentiate
-- 
2.43.0


From ae3c711fe5ffd66278be5502dba84795c37bce7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:10 +0000
Subject: [PATCH 24/27] fix: Mlp::update_params changed part of the model
 before refusing a list that is too short

---
 src/nn/feed_foward.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nn/feed_foward.rs b/src/nn/feed_foward.rs
index 69f311a..fdea6a7 100644
--- a/src/nn/feed_foward.rs
+++ b/src/nn/feed_foward.rs
@@ -38,6 +38,11 @@ impl<T: Numeric, const N: usize> Module<T> for Mlp<T, N> {
     }
 
     fn update_params(&mut self, new_params: TensorList<T>) {
+        assert_eq!(
+            new_params.len(),
+            2 * self.layers.len(),
+            "a model takes weights and bias for each of its layers"
+        );
         let mut param_iter = new_params.into_iter().rev();
         for i in (0..self.layers.len()).rev() {
             let bias = param_iter.next().unwrap();
-- 
2.43.0


From b0872a586ae45bcb4ee8d1880d5afe23af251e0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 25/27] fix: gradients of a matrix product differed from run to
 run in how the sums were rounded

---
 src/tensor/functional/misc.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index b167d00..aaadfc1 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -142,8 +142,8 @@ struct SplitArrayWriter<'a, T: Numeric> {
     bit_width: usize,
     width: usize,
     splits: usize,
-    senders: Option<Arc<Vec<Sender<(usize, T)>>>>,
-    receivers: Vec<Receiver<(usize, T)>>,
+    senders: Option<Arc<Vec<Sender<(usize, usize, T)>>>>,
+    receivers: Vec<Receiver<(usize, usize, T)>>,
 }
 
 impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
@@ -165,13 +165,14 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
 
     pub fn get_writer(
         &self,
-    ) -> impl Fn(usize, T) -> Result<(), crossbeam::channel::SendError<(usize, T)>> {
+    ) -> impl Fn(usize, usize, T) -> Result<(), crossbeam::channel::SendError<(usize, usize, T)>> {
         let senders = self.senders.clone().unwrap();
         let bit_width = self.bit_width;
         // let mask = (1 << bit_width) - 1;
-        move |global_idx, val| {
+        // term: the place of the value in the sum that makes up the element at global_idx
+        move |global_idx, term, val| {
             let sender_idx = global_idx >> bit_width;
-            senders[sender_idx].send((global_idx, val))
+            senders[sender_idx].send((global_idx, term, val))
         }
     }
 
@@ -187,7 +188,10 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
                 .enumerate()
                 .for_each(move |(slice_idx, (slice, rx))| {
                     inner_scope.spawn(move |_| {
-                        rx.iter().for_each(|(global_idx, value)| {
+                        // the values come in any order, but a sum of floats depends on it
+                        let mut values: Vec<_> = rx.iter().collect();
+                        values.sort_by_key(|&(global_idx, term, _)| (global_idx, term));
+                        values.into_iter().for_each(|(global_idx, _, value)| {
                             let local_idx: usize = global_idx - slice_idx * self.width;
                             assert!(local_idx < slice.len(), 
                                 "got invalid index: global_idx={global_idx}, local_idx={local_idx}, slice.len()={}", slice.len());
@@ -305,7 +309,7 @@ pub(crate) fn bmm_jvp<T: Numeric>(
 
                             let left_val = jacobians_ref[0][&vec![input_jac_idx, self_jac_idx0]]
                                 * inputs_ref[1][&vec![k, j]];
-                            left_writer(tmp_left, left_val).unwrap();
+                            left_writer(tmp_left, j, left_val).unwrap();
 
                             let tmp_right = match global_index(
                                 &vec![input_jac_idx, right_jac_idx1],
@@ -320,7 +324,7 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                             // println!("tmp_right={tmp_right:?}");
                             let right_val = jacobians_ref[0][&vec![input_jac_idx, self_jac_idx0]]
                                 * inputs_ref[0][&vec![i, k]];
-                            right_writer(tmp_right, right_val).unwrap();
+                            right_writer(tmp_right, i, right_val).unwrap();
                         }
                     });
 
-- 
2.43.0


From 1e3cc8b166d55e7a0a8ba852644fcf174ce78166 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 26/27] fix: backward through tanh needed the square of the
 elements in memory, and an infinite gradient spoilt the others

---
 src/tensor/functional/element_wise_ops.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index 30f1316..9d150c3 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -75,12 +75,10 @@ fn tanh_derivative_outer<T: Numeric + Real>(
 ) -> Vec<RcTensor<T>> {
     assert!(tensors.len() == 1);
     assert!(grads.len() == 1);
-    let jacobian = tanh_derivative(&tensors[0], true);
-    let new_grad = jvp_from_full_jacobians(grads[0].clone(), jacobian);
-    vec![new_grad]
+    // element by element: the full Jacobian has too many zeros, and zero times infinity is not zero
+    generic_unary_jvp(&tensors[0], &grads[0], |t| T::one() - t.tanh().powi(2))
 }
 
-// TODO: switch to generic_unary_jvp
 fn tanh_derivative<T: Numeric + Real>(
     tensor: &RcTensor<T>,
     full_jacobian_output: bool,
-- 
2.43.0


From e41063235570b1edc52dc19e0a85d152ef805fa5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 27/27] fix: a shape with more elements than fit usize passed
 for a small tensor's in release builds, and one without elements was refused

---
 src/tensor/functional/misc.rs |  2 +-
 src/tensor/raw_tensor.rs      | 15 +++------------
 src/tensor/tensor_view.rs     | 10 +++++-----
 src/tensor/utils.rs           | 12 ++++++++++++
 4 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index aaadfc1..e572748 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -65,7 +65,7 @@ where
     };
 
     // let mut result_array = Vec::with_capacity(new_shape.iter().product::<usize>());
-    let mut result_array = vec![T::zero(); new_shape.iter().product()];
+    let mut result_array = vec![T::zero(); crate::tensor::utils::element_count(&new_shape)];
 
     let mut left_index = left.shape().clone();
     let left_index_len = left_index.len();
diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 2a41cff..777bbba 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -140,10 +140,7 @@ where
     }
 
     pub(in crate::tensor) fn new_empty(shape: Vec<usize>) -> RawTensor<T> {
-        let mut total = 1;
-        for &dim in shape.iter() {
-            total *= dim;
-        }
+        let total = element_count(&shape);
 
         RawTensor {
             array: Vec::with_capacity(total),
@@ -161,10 +158,7 @@ where
                 ..Default::default()
             };
         }
-        let mut total = 1;
-        for &dim in shape.iter() {
-            total *= dim;
-        }
+        let total = element_count(&shape);
 
         let mut tensor = RawTensor {
             array: Vec::with_capacity(total),
@@ -186,10 +180,7 @@ where
     }
 
     pub fn new(array: Vec<T>, shape: Vec<usize>) -> RawTensor<T> {
-        let mut len = 1;
-        for dim in shape.iter() {
-            len *= dim;
-        }
+        let len = element_count(&shape);
         assert_eq!(
             len,
             array.len(),
diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 68411a5..ef7fc54 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -1,6 +1,6 @@
 use super::numeric::*;
 use crate::tensor::functional;
-use crate::tensor::utils::{global_index, tensor_index, ElementIterator};
+use crate::tensor::utils::{element_count, global_index, tensor_index, ElementIterator};
 use crate::tensor::{IndexType, RcTensor, Scalar, SliceRange, TensorLike};
 
 use std::cmp::PartialEq;
@@ -63,8 +63,8 @@ where
 
     pub fn reshape(&self, shape: Vec<usize>) -> Self {
         assert_eq!(
-            self.view.shape.iter().product::<usize>(),
-            shape.iter().product::<usize>()
+            element_count(&self.view.shape),
+            element_count(&shape)
         );
         TensorView {
             tensor: self.tensor.clone(),
@@ -108,7 +108,7 @@ where
     }
 
     fn to_tensor(&self) -> RcTensor<T> {
-        let mut array = Vec::with_capacity(self.view.shape.iter().product());
+        let mut array = Vec::with_capacity(self.count());
         for elem in ElementIterator::new(self) {
             array.push(elem);
         }
@@ -132,7 +132,7 @@ where
     }
 
     fn count(&self) -> usize {
-        self.view.shape.iter().product()
+        element_count(&self.view.shape)
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index a36490d..3f4b91c 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -98,6 +98,18 @@ impl Iterator for IndexIterator {
     }
 }
 
+/// The number of elements of a tensor of this shape.  Panics where no tensor could hold as many:
+/// their number must not wrap around to that of a small tensor.
+pub(crate) fn element_count(shape: &[usize]) -> usize {
+    if shape.contains(&0) {
+        return 0;
+    }
+    shape
+        .iter()
+        .try_fold(1usize, |count, &dim| count.checked_mul(dim))
+        .unwrap_or_else(|| panic!("a tensor of shape {shape:?} has too many elements"))
+}
+
 pub(crate) fn increment_index<V: Deref<Target = [usize]>>(index: &mut [usize], shape: V) -> bool {
     if shape.contains(&0) {
         return false;
-- 
2.43.0

