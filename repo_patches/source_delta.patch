From 4f5235802c7ebaaabc6c8feff9a99a16f08aa1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 01/49] fix: results of elementwise binary operations are
 contiguous, whatever views the operands are

---
 crates/hodu_core/src/tensor/ops/binary.rs  | 10 +++++-----
 crates/hodu_core/src/tensor/ops/bitwise.rs | 13 +++++++------
 crates/hodu_core/src/tensor/ops/cmp.rs     |  4 ++--
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/binary.rs b/crates/hodu_core/src/tensor/ops/binary.rs
index 5265fb7..72172aa 100644
--- a/crates/hodu_core/src/tensor/ops/binary.rs
+++ b/crates/hodu_core/src/tensor/ops/binary.rs
@@ -2,7 +2,7 @@ use crate::{
     error::HoduResult,
     ops::{BinaryLogicalOp, BinaryLogicalParams, BinaryOp, BinaryParams, Op, OpParams},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, utils::broadcast_tensors2, Tensor},
-    types::DType,
+    types::{DType, Layout},
     utils::valid::{
         validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
         validate_same_dtype,
@@ -24,7 +24,7 @@ macro_rules! binary_op {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
                 let requires_grad = (lhs.is_requires_grad() || rhs.is_requires_grad()) && validate_requires_grad;
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) =
                     create_builder_tensor(result_layout.clone(), lhs.dtype(), requires_grad);
 
@@ -65,7 +65,7 @@ macro_rules! binary_op {
                 let requires_grad = lhs.is_requires_grad() || rhs.is_requires_grad();
                 let requires_grad = requires_grad && validate_requires_grad;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, requires_grad);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, requires_grad);
 
                 if !gradient::is_computing_gradients() && requires_grad {
                     gradient::record_operation(
@@ -95,7 +95,7 @@ macro_rules! binary_logical_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -123,7 +123,7 @@ macro_rules! binary_logical_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/bitwise.rs b/crates/hodu_core/src/tensor/ops/bitwise.rs
index 0c99d08..d549879 100644
--- a/crates/hodu_core/src/tensor/ops/bitwise.rs
+++ b/crates/hodu_core/src/tensor/ops/bitwise.rs
@@ -5,6 +5,7 @@ use crate::{
         BitwiseBinaryOp, BitwiseBinaryParams, BitwiseUnaryOp, BitwiseUnaryParams, BitwiseUnaryScalarOp, Op, OpParams,
     },
     tensor::{create_builder_tensor, from_storage_with_context, utils::broadcast_tensors2, Tensor},
+    types::Layout,
     utils::valid::{validate_dtype_for_device, validate_dtype_for_op, validate_same_device, validate_same_dtype},
 };
 
@@ -21,7 +22,7 @@ macro_rules! bitwise_binary_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), lhs.dtype(), false);
 
@@ -51,7 +52,7 @@ macro_rules! bitwise_binary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
@@ -67,7 +68,7 @@ macro_rules! bitwise_unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(input_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -89,7 +90,7 @@ macro_rules! bitwise_unary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(input_layout.shape()), true, false);
 
                 Ok(result)
             }
@@ -108,7 +109,7 @@ macro_rules! bitwise_scalar_shift_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(input_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -134,7 +135,7 @@ macro_rules! bitwise_scalar_shift_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(input_layout.shape()), true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/cmp.rs b/crates/hodu_core/src/tensor/ops/cmp.rs
index 9d1b42a..41a5999 100644
--- a/crates/hodu_core/src/tensor/ops/cmp.rs
+++ b/crates/hodu_core/src/tensor/ops/cmp.rs
@@ -21,7 +21,7 @@ macro_rules! cmp_op {
             let rhs_layout = rhs.layout();
 
             if crate::snapshot::capture::is_active() {
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -41,7 +41,7 @@ macro_rules! cmp_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result = from_storage_with_context(storage, Layout::from_shape(lhs_layout.shape()), true, false);
 
                 Ok(result)
             }
-- 
2.43.0


From cbeb7e26d36f2912d0d942a09a92bb405bb5d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 02/49] fix: reading a view returns exactly its elements
 (offset, size and strides)

---
 crates/hodu_core/src/be_cpu/storage.rs | 31 +++++++++++++++--
 crates/hodu_core/src/tensor/bytes.rs   | 11 ++----
 crates/hodu_core/src/tensor/vec.rs     | 46 ++------------------------
 3 files changed, 35 insertions(+), 53 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 77fceee..5ea7db2 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -137,6 +137,33 @@ impl CpuStorage {
         }
     }
 
+    /// Number of elements held by the storage
+    fn len(&self) -> usize {
+        match self {
+            Self::BOOL(v) => v.len(),
+            Self::F8E4M3(v) => v.len(),
+            #[cfg(feature = "f8e5m2")]
+            Self::F8E5M2(v) => v.len(),
+            Self::BF16(v) => v.len(),
+            Self::F16(v) => v.len(),
+            Self::F32(v) => v.len(),
+            #[cfg(feature = "f64")]
+            Self::F64(v) => v.len(),
+            Self::U8(v) => v.len(),
+            #[cfg(feature = "u16")]
+            Self::U16(v) => v.len(),
+            Self::U32(v) => v.len(),
+            #[cfg(feature = "u64")]
+            Self::U64(v) => v.len(),
+            Self::I8(v) => v.len(),
+            #[cfg(feature = "i16")]
+            Self::I16(v) => v.len(),
+            Self::I32(v) => v.len(),
+            #[cfg(feature = "i64")]
+            Self::I64(v) => v.len(),
+        }
+    }
+
     pub fn from_vec<T: 'static>(vec: Vec<T>) -> Self {
         let any_vec = &vec as &dyn core::any::Any;
 
@@ -715,8 +742,8 @@ impl BackendStorageT for CpuStorage {
     }
 
     fn contiguous(&self, layout: &Layout) -> HoduResult<Self> {
-        // If already contiguous with zero offset, just clone
-        if layout.is_contiguous() && layout.offset() == 0 {
+        // If the storage already holds exactly the elements of the layout, just clone
+        if layout.is_contiguous() && layout.offset() == 0 && self.len() == layout.size() {
             return Ok(self.clone());
         }
 
diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index 5b7a18f..f1240a7 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -1,5 +1,5 @@
 use crate::{
-    be::storage::BackendStorage,
+    be::storage::{BackendStorage, BackendStorageT},
     be_cpu::storage::CpuStorage,
     error::{HoduError, HoduResult},
     tensor::{internal::from_storage_with_context, Tensor},
@@ -17,13 +17,8 @@ impl Tensor {
         let cpu_storage = self.with_storage(|storage| storage.to_cpu_storage())?;
         let layout = self.layout();
 
-        // Make contiguous if needed
-        let cpu_storage = if !layout.is_contiguous() {
-            let contiguous = self.contiguous()?;
-            contiguous.with_storage(|storage| storage.to_cpu_storage())?
-        } else {
-            cpu_storage
-        };
+        // Keep exactly the elements of the layout, in row-major order
+        let cpu_storage = cpu_storage.contiguous(&layout)?;
 
         Ok(storage_to_bytes(&cpu_storage))
     }
diff --git a/crates/hodu_core/src/tensor/vec.rs b/crates/hodu_core/src/tensor/vec.rs
index 8afbe36..a72bb78 100644
--- a/crates/hodu_core/src/tensor/vec.rs
+++ b/crates/hodu_core/src/tensor/vec.rs
@@ -310,11 +310,8 @@ fn extract_vec_from_cpu_storage<T: Clone + 'static>(cpu_storage: &CpuStorage, la
     let target_dtype = get_dtype_for_type::<T>()
         .ok_or_else(|| HoduError::InternalError("Unsupported type for extraction".to_string()))?;
 
-    let cpu_storage = if cpu_storage.dtype() != target_dtype {
-        cpu_storage.to_dtype(layout, target_dtype)?
-    } else {
-        cpu_storage.clone()
-    };
+    // Both the cast and the same-dtype path return the elements of the layout in row-major order
+    let cpu_storage = cpu_storage.to_dtype(layout, target_dtype)?;
 
     let total_elements = layout.shape().dims().iter().copied().product::<usize>();
     let mut result = Vec::with_capacity(total_elements);
@@ -322,7 +319,7 @@ fn extract_vec_from_cpu_storage<T: Clone + 'static>(cpu_storage: &CpuStorage, la
     macro_rules! extract_storage {
         ($data:expr) => {
             if let Ok(typed_data) = try_cast_slice::<T, _>($data) {
-                extract_with_layout(&mut result, typed_data, layout);
+                result.extend_from_slice(&typed_data[..total_elements]);
             } else {
                 return Err(HoduError::InternalError(
                     "Type mismatch in extraction".to_string(),
@@ -366,43 +363,6 @@ fn try_cast_slice<T: 'static, U: 'static>(data: &[U]) -> Result<&[T], ()> {
     }
 }
 
-fn extract_with_layout<T: Clone>(result: &mut Vec<T>, data: &[T], layout: &Layout) {
-    let dims = layout.shape();
-    let strides = layout.strides();
-
-    if layout.is_contiguous() {
-        result.extend_from_slice(data);
-    } else {
-        let total_elements = dims.dims().iter().copied().product::<usize>();
-        let ndim = dims.ndim();
-        let mut indices = vec![0usize; ndim];
-
-        for _ in 0..total_elements {
-            let flat_idx = indices.iter().zip(strides.iter()).map(|(&i, &s)| i * s).sum::<usize>();
-
-            if flat_idx < data.len() {
-                result.push(data[flat_idx].clone());
-            }
-
-            // Increment indices
-            let mut carry = 1;
-            for i in (0..ndim).rev() {
-                indices[i] += carry;
-                if indices[i] < dims.dims()[i] {
-                    carry = 0;
-                    break;
-                } else {
-                    indices[i] = 0;
-                }
-            }
-
-            if carry == 1 {
-                break;
-            }
-        }
-    }
-}
-
 fn get_dtype_for_type<T: 'static>() -> Option<DType> {
     let type_id = core::any::TypeId::of::<T>();
 
-- 
2.43.0


From 4087d4550425a2357174d6545497a4319f144a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 03/49] fix: contiguous() keeps requires_grad and records
 itself, so gradients pass through strided views

---
 crates/hodu_core/src/ops.rs                   |  2 +-
 .../hodu_core/src/tensor/gradient/compute.rs  |  4 ++-
 .../hodu_core/src/tensor/ops/cast_memory.rs   | 26 ++++++++++++++++---
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index 287f3ea..fa77879 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -810,7 +810,7 @@ impl fmt::Debug for CastOp {
 #[derive(Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum MemoryOp {
-    Contiguous, // no-backprop
+    Contiguous,
 }
 
 impl fmt::Display for MemoryOp {
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 8d2b786..c4902d7 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -5,7 +5,7 @@ use super::{
 };
 use crate::{
     error::{HoduError, HoduResult},
-    ops::{Op, OpParams},
+    ops::{MemoryOp, Op, OpParams},
     tensor::{self, set_grad_tensor_id, tensor_from_id, Tensor, TensorId},
 };
 use std::collections::HashMap;
@@ -185,6 +185,8 @@ fn compute_vjp_for_op(
         Op::Shape(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeScalars(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeMemory(op) => op.compute_vjp(inputs, output, grad_output, op_params),
+        // Copies the elements, so the gradient passes through
+        Op::Memory(MemoryOp::Contiguous) => Ok(vec![grad_output]),
         _ => Err(HoduError::VjpFunctionNotFound(format!("compute_vjp for {:?}", op))),
     }
 }
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index db71308..674cd37 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -1,7 +1,7 @@
 use crate::{
     error::{HoduError, HoduResult},
     ops::{CastOp, ContiguousParams, MemoryOp, Op, OpParams, ToDTypeParams},
-    tensor::{create_builder_tensor, from_storage_with_context, Tensor},
+    tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Device, Layout},
     utils::valid::validate_dtype_for_device,
 };
@@ -58,9 +58,11 @@ impl Tensor {
             return Ok(self.clone());
         }
 
+        let requires_grad = self.is_requires_grad();
+
         if crate::snapshot::capture::is_active() {
             let result_layout = Layout::from_shape(&self.shape());
-            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
             crate::snapshot::capture::capture_operation(
                 Op::Memory(MemoryOp::Contiguous),
@@ -71,12 +73,30 @@ impl Tensor {
                 result_layout,
             )?;
 
+            if requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result_id,
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
+
             Ok(result_tensor)
         } else {
             let storage = self.with_storage(|storage| storage.contiguous(&self.layout()))?;
             let layout = Layout::from_shape(&self.shape());
 
-            let result = from_storage_with_context(storage, layout, true, false);
+            let result = from_storage_with_context(storage, layout, true, requires_grad);
+
+            if !gradient::is_computing_gradients() && requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result.id(),
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
 
             Ok(result)
         }
-- 
2.43.0


From 379383a052b3aac5242b9e276b9754ea4f6905f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 04/49] fix: masked_fill fills where the mask is set, clamp
 clamps, where3 ignores the unselected branch

---
 crates/hodu_core/src/tensor/ops/selection.rs | 22 +++++++++-----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/selection.rs b/crates/hodu_core/src/tensor/ops/selection.rs
index df9ba35..b8477f8 100644
--- a/crates/hodu_core/src/tensor/ops/selection.rs
+++ b/crates/hodu_core/src/tensor/ops/selection.rs
@@ -2,25 +2,23 @@ use crate::{
     error::HoduResult,
     scalar::Scalar,
     tensor::{utils::broadcast_tensors3, Tensor},
+    types::DType,
 };
 
 impl Tensor {
     pub fn where3(&self, condition: &Tensor, other: &Tensor) -> HoduResult<Self> {
         let (condition, x, y) = broadcast_tensors3(condition, self, other)?;
 
-        let mask = condition.to_dtype(x.dtype())?;
-        let one = Self::ones_like(&mask)?;
-        let inv_mask = one.sub(&mask)?;
-
-        let x_part = mask.mul(&x)?;
-        let y_part = inv_mask.mul(&y)?;
-        x_part.add(&y_part)
+        // Pick the elements instead of blending them, so that a non-finite value
+        // in the branch that is not selected cannot reach the result
+        let index = condition.to_dtype(DType::BOOL)?.to_dtype(DType::I32)?.unsqueeze(0)?;
+        Self::stack(&[&y, &x], 0)?.gather(0, &index)?.squeeze(&[0])
     }
 
     pub fn masked_fill<T: Into<Scalar>>(&self, mask: &Tensor, value: T) -> HoduResult<Self> {
         let value_scalar = value.into();
         let fill_tensor = Self::full_like(self, value_scalar)?;
-        self.where3(mask, &fill_tensor)
+        fill_tensor.where3(mask, self)
     }
 
     pub fn clamp<T: Into<Scalar>>(&self, min: T, max: T) -> HoduResult<Self> {
@@ -28,21 +26,21 @@ impl Tensor {
         let max_scalar = max.into();
 
         let min_tensor = Self::full_like(self, min_scalar)?;
-        let clamped_min = self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)?;
+        let clamped_min = min_tensor.where3(&self.lt_scalar(min_scalar)?, self)?;
 
         let max_tensor = Self::full_like(&clamped_min, max_scalar)?;
-        clamped_min.where3(&clamped_min.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&clamped_min.gt_scalar(max_scalar)?, &clamped_min)
     }
 
     pub fn clamp_min<T: Into<Scalar>>(&self, min: T) -> HoduResult<Self> {
         let min_scalar = min.into();
         let min_tensor = Self::full_like(self, min_scalar)?;
-        self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)
+        min_tensor.where3(&self.lt_scalar(min_scalar)?, self)
     }
 
     pub fn clamp_max<T: Into<Scalar>>(&self, max: T) -> HoduResult<Self> {
         let max_scalar = max.into();
         let max_tensor = Self::full_like(self, max_scalar)?;
-        self.where3(&self.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&self.gt_scalar(max_scalar)?, self)
     }
 }
-- 
2.43.0


From 17c9de5ec4085583b90ae11f0e0876ef6deb6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 05/49] fix: slicing with a negative step selects the elements
 it names

---
 crates/hodu_core/src/tensor/ops/shape.rs | 22 ++++++++++++++++
 crates/hodu_core/src/types/layout.rs     | 32 ++++++++----------------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index 7e0dc97..ae023cb 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -475,6 +475,28 @@ impl Tensor {
         let step_i32 = step_scalar.to_i32();
 
         let current_layout = self.layout();
+
+        // A layout has no negative strides: select the same elements in ascending order, then reverse them
+        if step_i32 < 0 {
+            let size = current_layout.dim_size(dim_i32).ok_or(HoduError::InvalidAxis {
+                axis: dim_i32,
+                ndim: current_layout.ndim(),
+            })? as i64;
+            let (first, end, step) = (start_i32 as i64, end_i32.map(|e| e as i64), -(step_i32 as i64));
+            let first = (if first < 0 { first + size } else { first }).min(size - 1);
+            let end = match end {
+                Some(e) => (if e < 0 { e + size } else { e }).max(-1),
+                None => -1,
+            };
+            if first <= end {
+                return Err(HoduError::InternalError("slice results in empty tensor".to_string()));
+            }
+            let last = first - (first - end - 1) / step * step;
+            return self
+                .slice(dim_i32, last as i32, Some(first as i32 + 1), step as i32)?
+                .flip(&[dim_i32]);
+        }
+
         let new_layout = current_layout.slice(dim_i32, start_i32, end_i32, step_i32)?;
         let requires_grad = self.is_requires_grad();
 
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index e052ecd..2388241 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -447,6 +447,12 @@ impl Layout {
             return Err(HoduError::InternalError("slice step cannot be zero".to_string()));
         }
 
+        if step < 0 {
+            return Err(HoduError::InvalidLayout {
+                reason: "a layout cannot describe a negative slice step".to_string(),
+            });
+        }
+
         let dim_size = self.shape.dims()[actual_dim] as i32;
 
         // Normalize negative indices and handle None for end
@@ -459,32 +465,16 @@ impl Layout {
                     e
                 }
             },
-            None => {
-                if step > 0 {
-                    dim_size
-                } else {
-                    -1
-                }
-            },
+            None => dim_size,
         };
 
         // Clamp indices to valid range
         let clamped_start = start_idx.clamp(0, dim_size);
-        let clamped_end = if step > 0 {
-            end_idx.clamp(0, dim_size)
-        } else {
-            end_idx.clamp(-1, dim_size - 1)
-        };
+        let clamped_end = end_idx.clamp(0, dim_size);
 
         // Calculate new size for the dimension
-        let new_size = if step > 0 {
-            if clamped_end > clamped_start {
-                (clamped_end - clamped_start + step - 1) / step
-            } else {
-                0
-            }
-        } else if clamped_start > clamped_end {
-            (clamped_start - clamped_end + (-step) - 1) / (-step)
+        let new_size = if clamped_end > clamped_start {
+            (clamped_end - clamped_start - 1) / step + 1
         } else {
             0
         };
@@ -498,7 +488,7 @@ impl Layout {
         let mut new_strides = self.strides.clone();
 
         new_shape.dims_mut()[actual_dim] = new_size as usize;
-        new_strides[actual_dim] = self.strides[actual_dim] * step.unsigned_abs() as usize;
+        new_strides[actual_dim] = self.strides[actual_dim] * step as usize;
 
         // Calculate new offset
         let new_offset = self.offset + clamped_start as usize * self.strides[actual_dim];
-- 
2.43.0


From 83425c75a472df526742ba3e3472c16b95873b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 06/49] fix: repeat tiles, flip follows views, rank-0 views
 keep their offset

repeat(n) repeats whole dimensions (ONNX Tile) instead of each element; the flip kernel indexes contiguous input, so views are made contiguous first; unary, cast and contiguous kernels no longer drop the offset of a rank-0 view.
---
 .../src/be_cpu/storage/ops_shape_memory.rs    |  2 +
 crates/hodu_core/src/tensor/ops/shape.rs      |  8 ++--
 crates/hodu_cpu_kernels/kernels/ops_cast.c    |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_memory.c  |  2 +-
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 40 +++++++++----------
 .../ops_unary_blas_aarch64_apple_darwin.c     |  4 +-
 .../kernels/ops_unary_openblas.c              |  4 +-
 7 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs b/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
index 0946a29..25abeee 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
@@ -7,6 +7,8 @@ use crate::{
 use core::ffi::c_void;
 
 pub fn call_ops_flip(storage: &CpuStorage, layout: &Layout, dims: &[usize]) -> HoduResult<CpuStorage> {
+    // The kernel indexes contiguous input
+    let storage = &storage.contiguous(layout)?;
     let dtype = storage.dtype();
     let shape = layout.shape();
     let num_els = shape.size();
diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index ae023cb..5cf2ea8 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -415,7 +415,7 @@ impl Tensor {
             });
         }
 
-        // Use tile operation: repeat each element before moving to next
+        // Tile operation: the whole dimension is repeated, one copy after another
         // For each dimension, we expand then reshape
         let mut result = self.clone();
 
@@ -427,16 +427,16 @@ impl Tensor {
             let current_shape = result.shape();
             let current_dims = current_shape.dims();
 
-            // Add a new dimension after current dim and broadcast
+            // Add a new dimension before current dim and broadcast
             let mut expanded_shape = current_dims.to_vec();
-            expanded_shape.insert(dim_idx + 1, 1);
+            expanded_shape.insert(dim_idx, 1);
 
             // Reshape to add singleton dimension
             result = result.reshape(&expanded_shape)?;
 
             // Broadcast the singleton dimension
             let mut broadcast_shape = expanded_shape.clone();
-            broadcast_shape[dim_idx + 1] = repeat_count;
+            broadcast_shape[dim_idx] = repeat_count;
             result = result.broadcast(&broadcast_shape)?;
 
             // Reshape to merge the repeated dimension
diff --git a/crates/hodu_cpu_kernels/kernels/ops_cast.c b/crates/hodu_cpu_kernels/kernels/ops_cast.c
index b09dcec..8bd98a8 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_cast.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_cast.c
@@ -59,7 +59,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_memory.c b/crates/hodu_cpu_kernels/kernels/ops_memory.c
index 529b53d..3c067fb 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_memory.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_memory.c
@@ -42,7 +42,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata + 2 + num_dims;                                           \
-        const size_t offset = (num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;                     \
+        const size_t offset = metadata[2 + 2 * num_dims];                                          \
                                                                                                    \
         bool contiguous = is_contiguous(num_dims, dims, strides);                                  \
                                                                                                    \
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 5fc7caa..71d51ac 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -70,7 +70,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -169,7 +169,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -241,7 +241,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -282,7 +282,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -324,7 +324,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -360,7 +360,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -395,7 +395,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -424,7 +424,7 @@
                                                                                                    \
         const size_t *dims = metadata + 2;                                                         \
         const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;                         \
-        const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;         \
+        const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;                           \
                                                                                                    \
         bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);            \
                                                                                                    \
@@ -454,7 +454,7 @@ void hodu_cpu_neg_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -502,7 +502,7 @@ void hodu_cpu_abs_f32(const void *input, void *output, const size_t *metadata) {
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -553,7 +553,7 @@ void hodu_cpu_square_f32(const void *input, void *output, const size_t *metadata
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -602,7 +602,7 @@ void hodu_cpu_sqrt_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -653,7 +653,7 @@ void hodu_cpu_relu_f32(const void *input, void *output, const size_t *metadata)
     f32_t *out = (f32_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -758,7 +758,7 @@ void hodu_cpu_mul_scalar_f32_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -817,7 +817,7 @@ void hodu_cpu_neg_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -867,7 +867,7 @@ void hodu_cpu_abs_f64(const void *input, void *output, const size_t *metadata) {
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -920,7 +920,7 @@ void hodu_cpu_square_f64(const void *input, void *output, const size_t *metadata
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -972,7 +972,7 @@ void hodu_cpu_sqrt_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1024,7 +1024,7 @@ void hodu_cpu_relu_f64(const void *input, void *output, const size_t *metadata)
     f64_t *out = (f64_t *)output;
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
     if (contiguous && in && offset == 0) {
@@ -1124,7 +1124,7 @@ void hodu_cpu_mul_scalar_f64_fallback(const void *input, void *output, const siz
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
index 34a88f0..54e5057 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_blas_aarch64_apple_darwin.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
index 7138eab..2b034bc 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
@@ -20,7 +20,7 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
@@ -53,7 +53,7 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
 
     const size_t *dims = metadata + 2;
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
-    const size_t offset = (metadata && num_dims > 0) ? metadata[2 + 2 * num_dims] : 0;
+    const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
     bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
 
-- 
2.43.0


From d814cddfc86ba9da4430349f6bf09367bdbcbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 07/49] fix: rem, rem_scalar, leaky_relu, elu, prelu and
 integer relu run on the CPU instead of panicking

---
 crates/hodu_cpu_kernels/kernels/ops_unary.c   | 34 ++++++++++++++++++
 .../src/kernels/ops_binary.rs                 |  4 ++-
 .../hodu_cpu_kernels/src/kernels/ops_unary.rs | 36 ++++++++++++++++---
 3 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 71d51ac..f27ab65 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -796,6 +796,9 @@ IMPL_UNARY_WITH_SCALAR(f32_t, f32, rem_scalar, fmodf(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, pow_scalar, powf_opt(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f32_t, f32, minimum_scalar, MINIMUM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, leaky_relu, (x > 0.0f) ? x : const_val * x)
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, elu, (x > 0.0f) ? x : const_val * expm1f(x))
+IMPL_UNARY_WITH_SCALAR(f32_t, f32, prelu, (x > 0.0f) ? x : const_val * x)
 
 // Scalar comparison operations
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f32_t, f32, eq_scalar, x == const_val)
@@ -1162,6 +1165,9 @@ IMPL_UNARY_WITH_SCALAR(f64_t, f64, rem_scalar, fmod(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, pow_scalar, pow_opt(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(f64_t, f64, minimum_scalar, MINIMUM(x, const_val))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, leaky_relu, (x > 0.0) ? x : const_val * x)
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, elu, (x > 0.0) ? x : const_val * expm1(x))
+IMPL_UNARY_WITH_SCALAR(f64_t, f64, prelu, (x > 0.0) ? x : const_val * x)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f64_t, f64, eq_scalar, x == const_val)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(f64_t, f64, ne_scalar, x != const_val)
@@ -1294,6 +1300,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, maximum_scalar, MAXIMUM(x, cons
                                f8e4m3_to_float, float_to_f8e4m3)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, minimum_scalar, MINIMUM(x, const_val),
                                f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, leaky_relu, (x > 0.0f) ? x : const_val * x,
+                               f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, elu, (x > 0.0f) ? x : const_val * expm1f(x),
+                               f8e4m3_to_float, float_to_f8e4m3)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e4m3_t, f8e4m3, prelu, (x > 0.0f) ? x : const_val * x,
+                               f8e4m3_to_float, float_to_f8e4m3)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e4m3_t, f8e4m3, eq_scalar, x == const_val, f8e4m3_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e4m3_t, f8e4m3, ne_scalar, x != const_val, f8e4m3_to_float)
@@ -1380,6 +1392,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, maximum_scalar, MAXIMUM(x, cons
                                f8e5m2_to_float, float_to_f8e5m2)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, minimum_scalar, MINIMUM(x, const_val),
                                f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, leaky_relu, (x > 0.0f) ? x : const_val * x,
+                               f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, elu, (x > 0.0f) ? x : const_val * expm1f(x),
+                               f8e5m2_to_float, float_to_f8e5m2)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f8e5m2_t, f8e5m2, prelu, (x > 0.0f) ? x : const_val * x,
+                               f8e5m2_to_float, float_to_f8e5m2)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e5m2_t, f8e5m2, eq_scalar, x == const_val, f8e5m2_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f8e5m2_t, f8e5m2, ne_scalar, x != const_val, f8e5m2_to_float)
@@ -1460,6 +1478,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, maximum_scalar, MAXIMUM(x, const_va
                                float_to_bf16)
 IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, minimum_scalar, MINIMUM(x, const_val), bf16_to_float,
                                float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, leaky_relu, (x > 0.0f) ? x : const_val * x,
+                               bf16_to_float, float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, elu, (x > 0.0f) ? x : const_val * expm1f(x),
+                               bf16_to_float, float_to_bf16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(bf16_t, bf16, prelu, (x > 0.0f) ? x : const_val * x,
+                               bf16_to_float, float_to_bf16)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(bf16_t, bf16, eq_scalar, x == const_val, bf16_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(bf16_t, bf16, ne_scalar, x != const_val, bf16_to_float)
@@ -1537,6 +1561,12 @@ IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, maximum_scalar, MAXIMUM(x, const_val)
                                float_to_f16)
 IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, minimum_scalar, MINIMUM(x, const_val), f16_to_float,
                                float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, leaky_relu, (x > 0.0f) ? x : const_val * x,
+                               f16_to_float, float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, elu, (x > 0.0f) ? x : const_val * expm1f(x),
+                               f16_to_float, float_to_f16)
+IMPL_UNARY_WITH_SCALAR_CONVERT(f16_t, f16, prelu, (x > 0.0f) ? x : const_val * x,
+                               f16_to_float, float_to_f16)
 
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f16_t, f16, eq_scalar, x == const_val, f16_to_float)
 IMPL_UNARY_CMP_SCALAR_TO_BOOL_CONVERT(f16_t, f16, ne_scalar, x != const_val, f16_to_float)
@@ -1647,6 +1677,7 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(u64_t, u64, ge_scalar, x >= const_val)
 
 // I8
 IMPL_UNARY_OP(i8_t, i8, neg, -x)
+IMPL_UNARY_OP(i8_t, i8, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i8_t, i8, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i8_t, i8, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i8_t, i8, softsign, (i8_t)((float)x / (1.0f + fabsf((float)x))))
@@ -1671,6 +1702,7 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(i8_t, i8, ge_scalar, x >= const_val)
 
 // I16
 IMPL_UNARY_OP(i16_t, i16, neg, -x)
+IMPL_UNARY_OP(i16_t, i16, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i16_t, i16, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i16_t, i16, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i16_t, i16, softsign, (i16_t)((float)x / (1.0f + fabsf((float)x))))
@@ -1695,6 +1727,7 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(i16_t, i16, ge_scalar, x >= const_val)
 
 // I32
 IMPL_UNARY_OP(i32_t, i32, neg, -x)
+IMPL_UNARY_OP(i32_t, i32, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i32_t, i32, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i32_t, i32, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i32_t, i32, softsign, (i32_t)((float)x / (1.0f + fabsf((float)x))))
@@ -1719,6 +1752,7 @@ IMPL_UNARY_CMP_SCALAR_TO_BOOL(i32_t, i32, ge_scalar, x >= const_val)
 
 // I64
 IMPL_UNARY_OP(i64_t, i64, neg, -x)
+IMPL_UNARY_OP(i64_t, i64, relu, (x > 0) ? x : 0)
 IMPL_UNARY_OP(i64_t, i64, abs, (x < 0) ? -x : x)
 IMPL_UNARY_OP(i64_t, i64, sign, (x > 0) ? 1 : ((x < 0) ? -1 : 0))
 IMPL_UNARY_OP(i64_t, i64, softsign, (i64_t)((double)x / (1.0 + fabs((double)x))))
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
index e2d8232..e13e66f 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
@@ -1,7 +1,7 @@
 //! Binary operations for tensor element-wise computations
 //!
 //! This module provides element-wise binary operations including:
-//! - Arithmetic: add, sub, mul, div, pow, maximum, minimum
+//! - Arithmetic: add, sub, mul, div, rem, pow, maximum, minimum
 //! - Logical: logical_and, logical_or, logical_xor
 //! - Comparison: eq, ne, lt, le, gt, ge
 //!
@@ -17,6 +17,7 @@ ops!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
@@ -176,6 +177,7 @@ declare_and_dispatch_binary!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index 0e43d10..63bc9c1 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -62,9 +62,13 @@ ops!(
     sub_scalar,
     mul_scalar,
     div_scalar,
+    rem_scalar,
     pow_scalar,
     maximum_scalar,
     minimum_scalar,
+    leaky_relu,
+    elu,
+    prelu,
     eq_scalar,
     ne_scalar,
     lt_scalar,
@@ -144,7 +148,8 @@ macro_rules! declare_and_dispatch_unary {
         all_types: [$($all_op:ident),* $(,)?],
         signed_types: [$($signed_op:ident),* $(,)?],
         float_types: [$($float_op:ident),* $(,)?],
-        scalar_ops: [$($scalar_op:ident),* $(,)?]
+        scalar_ops: [$($scalar_op:ident),* $(,)?],
+        float_scalar_ops: [$($float_scalar_op:ident),* $(,)?]
     ) => {
         paste::paste! {
             // Extern C declarations
@@ -211,6 +216,16 @@ macro_rules! declare_and_dispatch_unary {
                     fn [<hodu_cpu_ $scalar_op _i32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                     fn [<hodu_cpu_ $scalar_op _i64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
                 )*
+
+                // Scalar operations supporting only float types
+                $(
+                    fn [<hodu_cpu_ $float_scalar_op _f8e4m3>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f8e5m2>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _bf16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f16>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f32>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                    fn [<hodu_cpu_ $float_scalar_op _f64>](input: *const c_void, output: *mut c_void, metadata: *const usize, scalar: *const c_void);
+                )*
             }
 
             // Dispatch function
@@ -296,6 +311,16 @@ macro_rules! declare_and_dispatch_unary {
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i32") => [<hodu_cpu_ $scalar_op _i32>](input, output, metadata, scalar),
                         concat!("hodu_cpu_", stringify!($scalar_op), "_i64") => [<hodu_cpu_ $scalar_op _i64>](input, output, metadata, scalar),
                     )*
+
+                    // Scalar operations (float types only)
+                    $(
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e4m3") => [<hodu_cpu_ $float_scalar_op _f8e4m3>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f8e5m2") => [<hodu_cpu_ $float_scalar_op _f8e5m2>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_bf16") => [<hodu_cpu_ $float_scalar_op _bf16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f16") => [<hodu_cpu_ $float_scalar_op _f16>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f32") => [<hodu_cpu_ $float_scalar_op _f32>](input, output, metadata, scalar),
+                        concat!("hodu_cpu_", stringify!($float_scalar_op), "_f64") => [<hodu_cpu_ $float_scalar_op _f64>](input, output, metadata, scalar),
+                    )*
                     _ => panic!("Unsupported unary scalar kernel: {}", name),
                 }
             }
@@ -309,10 +334,10 @@ declare_and_dispatch_unary!(
         abs, sign, softsign, square, sqrt, recip, logical_not
     ],
     signed_types: [
-        neg
+        neg, relu
     ],
     float_types: [
-        relu, sigmoid, hardsigmoid, gelu, softplus, silu, hardsilu, mish, selu, celu,
+        sigmoid, hardsigmoid, gelu, softplus, silu, hardsilu, mish, selu, celu,
         sin, cos, tan, asin, acos, atan,
         sinh, cosh, tanh, asinh, acosh, atanh,
         exp, exp2, exp10, ln, log2, log10,
@@ -321,8 +346,11 @@ declare_and_dispatch_unary!(
         isnan, isinf, isfinite
     ],
     scalar_ops: [
-        add_scalar, sub_scalar, mul_scalar, div_scalar, pow_scalar,
+        add_scalar, sub_scalar, mul_scalar, div_scalar, rem_scalar, pow_scalar,
         maximum_scalar, minimum_scalar,
         eq_scalar, ne_scalar, lt_scalar, le_scalar, gt_scalar, ge_scalar
+    ],
+    float_scalar_ops: [
+        leaky_relu, elu, prelu
     ]
 );
-- 
2.43.0


From e4dbffd6179f2c791dbdba25ea10c1f1a4d5df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 08/49] fix: concat of views reads the right elements

---
 .../hodu_core/src/be_cpu/storage/ops_concat_split.rs   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
index 029394d..0f100d8 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
@@ -95,7 +95,15 @@ pub fn call_ops_concat(
     let output_shape = Shape::new(&output_shape_vec);
 
     // Generate metadata using centralized function
-    let metadata = crate::op_metadatas::concat_metadata(layouts, dim, &output_shape_vec);
+    let mut metadata = crate::op_metadatas::concat_metadata(layouts, dim, &output_shape_vec);
+
+    // The packed buffer holds whole storages, which can be of another size than the views into them
+    let first_buffer_offset = metadata.len() - num_inputs;
+    let mut buffer_offset = 0;
+    for (i, storage) in storages.iter().enumerate() {
+        metadata[first_buffer_offset + i] = buffer_offset;
+        buffer_offset += storage.len();
+    }
 
     // Generate kernel name
     let kernel_name = format!("hodu_cpu_concat_{}", dtype);
-- 
2.43.0


From 149ca173cd089cafdf549eaf0d767a44c939431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 09/49] fix: round float to half and float8 conversions to
 nearest, keep subnormals and NaN

---
 crates/hodu_cpu_kernels/kernels/t_f16.h    | 37 ++++++----------
 crates/hodu_cpu_kernels/kernels/t_f8e4m3.h | 51 ++++++++--------------
 crates/hodu_cpu_kernels/kernels/t_f8e5m2.h | 43 +++++++-----------
 3 files changed, 47 insertions(+), 84 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/t_f16.h b/crates/hodu_cpu_kernels/kernels/t_f16.h
index b4c07e5..f744f6c 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f16.h
@@ -46,34 +46,25 @@ static inline float f16_to_float(f16_t val) {
 }
 
 static inline f16_t float_to_f16(float val) {
-    if (val == 0.0f)
-        return 0;
+    f16_t sign = signbit(val) ? 0x8000 : 0;
     if (isnan(val))
-        return 0x7E00;
-
-    uint32_t sign = val < 0 ? 1 : 0;
+        return 0x7E00; // NaN
     val = fabsf(val);
 
-    if (isinf(val) || val > 65504.0f)
-        return (sign << 15) | 0x7C00;
-    if (val < 0.00006103515625f)
-        return sign << 15;
+    // max value is 65504; what does not round to it is infinite
+    if (val >= 65520.0f)
+        return sign | 0x7C00;
 
+    // Exponent of the binade, not below that of the subnormals
     int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14;
-
-    if (exp <= 0) {
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 15) | 0x7C00;
-    }
-
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 1024.0f + 0.5f);
-    mant_bits = mant_bits > 1023 ? 1023 : mant_bits;
-
-    return (sign << 15) | (exp << 10) | mant_bits;
+    frexpf(val, &exp);
+    exp -= 1;
+    if (val == 0.0f || exp < -14)
+        exp = -14;
+
+    // Units in the last place, rounded to nearest even; a carry moves into the exponent
+    uint32_t ulps = (uint32_t)rintf(ldexpf(val, 10 - exp));
+    return sign | (f16_t)(((uint32_t)(exp + 14) << 10) + ulps);
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
index 968da9a..6722955 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
@@ -17,8 +17,9 @@ typedef uint8_t f8e4m3_t;
 
 #define F8E4M3_ZERO ((f8e4m3_t)0x00)
 #define F8E4M3_ONE ((f8e4m3_t)0x38) // exp=7 (bias), mant=0
-#define F8E4M3_NEG_INF ((f8e4m3_t)0xFF)
-#define F8E4M3_POS_INF ((f8e4m3_t)0x7F)
+// There is no infinity: the values of largest magnitude stand in for it
+#define F8E4M3_NEG_INF ((f8e4m3_t)0xFE)
+#define F8E4M3_POS_INF ((f8e4m3_t)0x7E)
 
 // ============================================================================
 // CONVERSION
@@ -30,12 +31,9 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
     uint32_t mant = val & 0x7;
 
     // E4M3 uses bias of 7
-    // Special values: exp=15 is infinity/NaN
-    if (exp == 15) {
-        if (mant == 0)
-            return sign ? -INFINITY : INFINITY;
+    // The only special value is NaN, all bits set; exp=15 is otherwise an ordinary exponent
+    if (exp == 15 && mant == 7)
         return NAN;
-    }
 
     if (exp == 0) {
         if (mant == 0)
@@ -50,38 +48,25 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
 }
 
 static inline f8e4m3_t float_to_f8e4m3(float val) {
-    if (val == 0.0f)
-        return 0;
+    f8e4m3_t sign = signbit(val) ? 0x80 : 0;
     if (isnan(val))
         return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
     val = fabsf(val);
 
-    // E4M3 max value is ~448
-    if (isinf(val) || val > 448.0f)
-        return (sign << 7) | 0x7F;
-
-    // E4M3 min normal value is 2^(-6) ≈ 0.015625
-    if (val < 0.001953125f) // 2^(-9)
-        return sign << 7;
+    // E4M3 max value is 448; what does not round to it has no representation (NaN)
+    if (val >= 464.0f)
+        return sign | 0x7F;
 
+    // Exponent of the binade, not below that of the subnormals
     int exp;
-    float mant = frexpf(val, &exp);
-    exp += 6; // bias = 7, but frexp returns [0.5, 1), so adjust
-
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 15) {
-        return (sign << 7) | 0x7F;
-    }
-
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 8.0f + 0.5f);
-    mant_bits = mant_bits > 7 ? 7 : mant_bits;
-
-    return (sign << 7) | (exp << 3) | mant_bits;
+    frexpf(val, &exp);
+    exp -= 1;
+    if (val == 0.0f || exp < -6)
+        exp = -6;
+
+    // Units in the last place, rounded to nearest even; a carry moves into the exponent
+    uint32_t ulps = (uint32_t)rintf(ldexpf(val, 3 - exp));
+    return sign | (f8e4m3_t)(((uint32_t)(exp + 6) << 3) + ulps);
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
index 72c3dba..4dc807f 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
@@ -17,8 +17,8 @@ typedef uint8_t f8e5m2_t;
 
 #define F8E5M2_ZERO ((f8e5m2_t)0x00)
 #define F8E5M2_ONE ((f8e5m2_t)0x3C) // exp=15 (bias), mant=0
-#define F8E5M2_NEG_INF ((f8e5m2_t)0xFF)
-#define F8E5M2_POS_INF ((f8e5m2_t)0x7F)
+#define F8E5M2_NEG_INF ((f8e5m2_t)0xFC)
+#define F8E5M2_POS_INF ((f8e5m2_t)0x7C)
 
 // ============================================================================
 // CONVERSION
@@ -50,38 +50,25 @@ static inline float f8e5m2_to_float(f8e5m2_t val) {
 }
 
 static inline f8e5m2_t float_to_f8e5m2(float val) {
-    if (val == 0.0f)
-        return 0;
+    f8e5m2_t sign = signbit(val) ? 0x80 : 0;
     if (isnan(val))
         return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
     val = fabsf(val);
 
-    // E5M2 max value is ~57344
-    if (isinf(val) || val > 57344.0f)
-        return (sign << 7) | 0x7F;
-
-    // E5M2 min normal value is 2^(-14) ≈ 0.000061
-    if (val < 0.0000152587890625f) // 2^(-16)
-        return sign << 7;
+    // E5M2 max value is 57344; what does not round to it is infinite
+    if (val >= 61440.0f)
+        return sign | 0x7C;
 
+    // Exponent of the binade, not below that of the subnormals
     int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14; // bias = 15, but frexp returns [0.5, 1), so adjust
-
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 7) | 0x7F;
-    }
-
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 4.0f + 0.5f);
-    mant_bits = mant_bits > 3 ? 3 : mant_bits;
-
-    return (sign << 7) | (exp << 2) | mant_bits;
+    frexpf(val, &exp);
+    exp -= 1;
+    if (val == 0.0f || exp < -14)
+        exp = -14;
+
+    // Units in the last place, rounded to nearest even; a carry moves into the exponent
+    uint32_t ulps = (uint32_t)rintf(ldexpf(val, 2 - exp));
+    return sign | (f8e5m2_t)(((uint32_t)(exp + 14) << 2) + ulps);
 }
 
 // ============================================================================
-- 
2.43.0


From fa5ac6a79b74e48e5c0851492ef8d2a4eceadd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 10/49] fix: maximum and minimum propagate NaN from either
 operand

---
 crates/hodu_cpu_kernels/kernels/utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/utils.h b/crates/hodu_cpu_kernels/kernels/utils.h
index de63147..598e9e2 100644
--- a/crates/hodu_cpu_kernels/kernels/utils.h
+++ b/crates/hodu_cpu_kernels/kernels/utils.h
@@ -38,8 +38,9 @@ static inline size_t get_strided_index(size_t idx, size_t num_dims, const size_t
 }
 
 // Generic helper functions
-#define MAXIMUM(a, b) ((a) > (b) ? (a) : (b))
-#define MINIMUM(a, b) ((a) < (b) ? (a) : (b))
+// A NaN in either operand is returned
+#define MAXIMUM(a, b) (((a) > (b) || (a) != (a)) ? (a) : (b))
+#define MINIMUM(a, b) (((a) < (b) || (a) != (a)) ? (a) : (b))
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 8e92e993b556fac6f60e9eeb90afbe6d9839b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 11/49] fix: pow with large integer exponents, softplus
 overflow, NaN in hardsigmoid/celu, scaling by zero

---
 crates/hodu_cpu_kernels/kernels/math_utils.h  | 55 +++++++------------
 .../kernels/ops_unary_openblas.c              |  8 ++-
 2 files changed, 25 insertions(+), 38 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index ad11d99..220661c 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -14,13 +14,13 @@ extern "C" {
 // INFINITY CONSTANTS FOR EXOTIC FLOATING-POINT TYPES
 // ============================================================================
 
-// FP8 E4M3 infinity values (exponent=0xF)
-#define F8E4M3_NEG_INF ((f8e4m3_t)0xFF) // 1 sign | 1111 exp | 111 mant
-#define F8E4M3_POS_INF ((f8e4m3_t)0x7F) // 0 sign | 1111 exp | 111 mant
+// FP8 E4M3 has no infinity: the values of largest magnitude stand in for it
+#define F8E4M3_NEG_INF ((f8e4m3_t)0xFE) // 1 sign | 1111 exp | 110 mant
+#define F8E4M3_POS_INF ((f8e4m3_t)0x7E) // 0 sign | 1111 exp | 110 mant
 
 // FP8 E5M2 infinity values (exponent=0x1F)
-#define F8E5M2_NEG_INF ((f8e5m2_t)0xFF) // 1 sign | 11111 exp | 11 mant
-#define F8E5M2_POS_INF ((f8e5m2_t)0x7F) // 0 sign | 11111 exp | 11 mant
+#define F8E5M2_NEG_INF ((f8e5m2_t)0xFC) // 1 sign | 11111 exp | 00 mant
+#define F8E5M2_POS_INF ((f8e5m2_t)0x7C) // 0 sign | 11111 exp | 00 mant
 
 // BFloat16 infinity values (exponent=0xFF)
 #define BF16_NEG_INF ((bf16_t)0xFF80) // 1 sign | 11111111 exp | 0000000 mant
@@ -61,15 +61,6 @@ static inline uint64_t ipow_u64(uint64_t base, uint64_t exp) {
 
 // Float power with optimization
 static inline float powf_opt(float base, float exponent) {
-    if (exponent == 0.0f)
-        return 1.0f;
-    if (base == 0.0f)
-        return (exponent > 0.0f) ? 0.0f : INFINITY;
-    if (base == 1.0f)
-        return 1.0f;
-    if (exponent == 1.0f)
-        return base;
-
     // Check if exponent is an integer
     if (floorf(exponent) == exponent) {
         if (exponent >= 0.0f && exponent < 32.0f) {
@@ -87,22 +78,10 @@ static inline float powf_opt(float base, float exponent) {
         }
     }
 
-    if (base < 0.0f)
-        return NAN;
-
     return powf(base, exponent);
 }
 
 static inline double pow_opt(double base, double exponent) {
-    if (exponent == 0.0)
-        return 1.0;
-    if (base == 0.0)
-        return (exponent > 0.0) ? 0.0 : INFINITY;
-    if (base == 1.0)
-        return 1.0;
-    if (exponent == 1.0)
-        return base;
-
     if (floor(exponent) == exponent) {
         if (exponent >= 0.0 && exponent < 32.0) {
             int iexp = (int)exponent;
@@ -119,9 +98,6 @@ static inline double pow_opt(double base, double exponent) {
         }
     }
 
-    if (base < 0.0)
-        return NAN;
-
     return pow(base, exponent);
 }
 
@@ -174,23 +150,30 @@ static inline float gelu_helper_f32(float x) {
 }
 
 static inline double gelu_helper_f64(double x) {
-    return 0.5 * x * (1.0 + tanh(0.7978845608 * (x + 0.044715 * x * x * x)));
+    return 0.5 * x * (1.0 + tanh(0.7978845608028654 * (x + 0.044715 * x * x * x)));
 }
 
-static inline float softplus_helper_f32(float x) { return logf(1.0f + expf(x)); }
+static inline float softplus_helper_f32(float x) {
+    // ln(1 + e^x), without overflow for large x
+    return ((x > 0.0f) ? x : 0.0f) + log1pf(expf(-fabsf(x)));
+}
 
-static inline double softplus_helper_f64(double x) { return log(1.0 + exp(x)); }
+static inline double softplus_helper_f64(double x) {
+    return ((x > 0.0) ? x : 0.0) + log1p(exp(-fabs(x)));
+}
 
 static inline float silu_helper_f32(float x) { return x / (1.0f + expf(-x)); }
 
 static inline double silu_helper_f64(double x) { return x / (1.0 + exp(-x)); }
 
 static inline float hardsigmoid_helper_f32(float x) {
-    return fmaxf(0.0f, fminf(1.0f, (x + 3.0f) / 6.0f));
+    float y = (x + 3.0f) / 6.0f;
+    return (y < 0.0f) ? 0.0f : ((y > 1.0f) ? 1.0f : y);
 }
 
 static inline double hardsigmoid_helper_f64(double x) {
-    return fmax(0.0, fmin(1.0, (x + 3.0) / 6.0));
+    double y = (x + 3.0) / 6.0;
+    return (y < 0.0) ? 0.0 : ((y > 1.0) ? 1.0 : y);
 }
 
 static inline float hardsilu_helper_f32(float x) { return x * hardsigmoid_helper_f32(x); }
@@ -218,10 +201,10 @@ static inline double selu_helper_f64(double x) {
 
 // CELU: max(0,x) + min(0, alpha*(exp(x/alpha)-1)) with alpha=1.0
 static inline float celu_helper_f32(float x) {
-    return fmaxf(0.0f, x) + fminf(0.0f, expf(x) - 1.0f);
+    return (x > 0.0f) ? x : expm1f(x);
 }
 
-static inline double celu_helper_f64(double x) { return fmax(0.0, x) + fmin(0.0, exp(x) - 1.0); }
+static inline double celu_helper_f64(double x) { return (x > 0.0) ? x : expm1(x); }
 
 // Softsign: x / (1 + |x|)
 static inline float softsign_helper_f32(float x) { return x / (1.0f + fabsf(x)); }
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
index 2b034bc..e75f7d2 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c
@@ -22,7 +22,9 @@ void hodu_cpu_mul_scalar_f32(const void *input, void *output, const size_t *meta
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
     const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
-    bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
+    // scal treats a zero factor as "clear", which loses NaN and infinite elements
+    bool contiguous = const_val != 0 &&
+                      ((metadata == NULL) || is_contiguous(num_dims, dims, strides));
 
     // BLAS path: Use cblas_sscal for in-place scalar multiplication
     if (contiguous && in == NULL) {
@@ -55,7 +57,9 @@ void hodu_cpu_mul_scalar_f64(const void *input, void *output, const size_t *meta
     const size_t *strides = metadata ? metadata + 2 + num_dims : NULL;
     const size_t offset = metadata ? metadata[2 + 2 * num_dims] : 0;
 
-    bool contiguous = (metadata == NULL) || is_contiguous(num_dims, dims, strides);
+    // scal treats a zero factor as "clear", which loses NaN and infinite elements
+    bool contiguous = const_val != 0 &&
+                      ((metadata == NULL) || is_contiguous(num_dims, dims, strides));
 
     // BLAS path: Use cblas_dscal for in-place scalar multiplication
     if (contiguous && in == NULL) {
-- 
2.43.0


From 29de2687a2aefd73aa42d94be51ca0308fa93786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 12/49] fix: axes out of range or named twice, bad split sizes
 and mismatched concat shapes are errors

---
 .../hodu_core/src/tensor/ops/concat_split.rs  | 48 +++++++++++--------
 .../hodu_core/src/tensor/ops/normalization.rs | 16 ++-----
 crates/hodu_core/src/tensor/ops/scan.rs       |  8 +---
 .../hodu_core/src/tensor/ops/shape_memory.rs  | 15 ++----
 crates/hodu_core/src/utils/valid.rs           | 26 ++++++++++
 5 files changed, 62 insertions(+), 51 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 7097337..286ccb8 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -5,7 +5,7 @@ use crate::{
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{Layout, Shape},
     utils::valid::{
-        validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
+        normalize_axis, validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
         validate_same_dtype,
     },
 };
@@ -22,12 +22,7 @@ impl Tensor {
         let dim_i32 = dim_scalar.to_i32();
 
         let first = tensors[0];
-        let ndim = first.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, first.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(tensors, Op::Concat(ConcatOp::Concat))?;
@@ -51,6 +46,18 @@ impl Tensor {
                     Op::Concat(ConcatOp::Concat),
                 ));
             }
+            let matches = dims
+                .iter()
+                .zip(output_dims.iter())
+                .enumerate()
+                .all(|(axis, (&a, &b))| axis == dim_usize || a == b);
+            if !matches {
+                return Err(HoduError::incompatible_shapes(
+                    Shape::from(&output_dims),
+                    layout.shape().clone(),
+                    Op::Concat(ConcatOp::Concat),
+                ));
+            }
             output_dims[dim_usize] += dims[dim_usize];
         }
 
@@ -131,12 +138,7 @@ impl Tensor {
     pub fn split<D: Into<Scalar>>(&self, sizes: &[usize], dim: D) -> HoduResult<Vec<Self>> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Validate dtype for device and operation
         validate_dtype_for_device(self.dtype(), self.device())?;
@@ -147,6 +149,14 @@ impl Tensor {
         let shape_dims = shape.dims();
         let requires_grad = self.is_requires_grad() && validate_requires_grad;
 
+        let total: usize = sizes.iter().sum();
+        if total != shape_dims[dim_usize] {
+            return Err(HoduError::SizeMismatch {
+                expected: shape_dims[dim_usize],
+                got: total,
+            });
+        }
+
         // Prepare sizes as Scalars
         let sizes_scalars: Vec<Scalar> = sizes.iter().map(|&s| Scalar::from(s)).collect();
 
@@ -238,20 +248,18 @@ impl Tensor {
     pub fn chunk<D: Into<Scalar>>(&self, chunks: usize, dim: D) -> HoduResult<Vec<Self>> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
         let shape = self.shape();
         let shape_dims = shape.dims();
         let dim_size = shape_dims[dim_usize];
 
+        if chunks == 0 {
+            return Err(HoduError::InvalidArgument("chunk requires at least one chunk".to_string()));
+        }
         let chunk_size = dim_size.div_ceil(chunks);
         let sizes: Vec<usize> = (0..chunks)
             .map(|i| {
-                let start = i * chunk_size;
+                let start = (i * chunk_size).min(dim_size);
                 let end = ((i + 1) * chunk_size).min(dim_size);
                 end - start
             })
diff --git a/crates/hodu_core/src/tensor/ops/normalization.rs b/crates/hodu_core/src/tensor/ops/normalization.rs
index 898f48d..67c31ac 100644
--- a/crates/hodu_core/src/tensor/ops/normalization.rs
+++ b/crates/hodu_core/src/tensor/ops/normalization.rs
@@ -1,15 +1,10 @@
-use crate::{error::HoduResult, scalar::Scalar, tensor::Tensor};
+use crate::{error::HoduResult, scalar::Scalar, tensor::Tensor, utils::valid::normalize_axis};
 
 impl Tensor {
     pub fn softmax<T: Into<Scalar>>(&self, dim: T) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as u32
-        } else {
-            dim_i32 as u32
-        } as usize;
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Numerical stability: subtract max
         // softmax(x) = exp(x - max(x)) / sum(exp(x - max(x)))
@@ -23,12 +18,7 @@ impl Tensor {
     pub fn log_softmax<D: Into<Scalar>>(&self, dim: D) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as u32
-        } else {
-            dim_i32 as u32
-        } as usize;
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Numerical stability: log_softmax(x) = x - max(x) - log(sum(exp(x - max(x))))
         let max_val = self.max(&[dim_usize], true)?;
diff --git a/crates/hodu_core/src/tensor/ops/scan.rs b/crates/hodu_core/src/tensor/ops/scan.rs
index 080ac65..55898ae 100644
--- a/crates/hodu_core/src/tensor/ops/scan.rs
+++ b/crates/hodu_core/src/tensor/ops/scan.rs
@@ -5,18 +5,14 @@ use crate::{
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::Layout,
+    utils::valid::normalize_axis,
 };
 
 impl Tensor {
     pub fn cumsum<D: Into<Scalar>>(&self, dim: D) -> HoduResult<Self> {
-        let ndim = self.ndim();
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let dim_usize = if dim_i32 < 0 {
-            (ndim as i32 + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         let op_params = OpParams::Scan(ScanParams { dim: dim_usize });
 
diff --git a/crates/hodu_core/src/tensor/ops/shape_memory.rs b/crates/hodu_core/src/tensor/ops/shape_memory.rs
index 9beb744..ecd51b1 100644
--- a/crates/hodu_core/src/tensor/ops/shape_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/shape_memory.rs
@@ -5,23 +5,14 @@ use crate::{
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::Layout,
+    utils::valid::normalize_axes,
 };
 
 impl Tensor {
     pub fn flip<D: Into<Scalar> + Copy>(&self, dims: &[D]) -> HoduResult<Self> {
         let ndim = self.ndim();
-        let mut dims_usize = Vec::with_capacity(dims.len());
-
-        for &d in dims {
-            let dim_scalar = d.into();
-            let dim_i32 = dim_scalar.to_i32();
-            let dim_usize = if dim_i32 < 0 {
-                (ndim as i32 + dim_i32) as usize
-            } else {
-                dim_i32 as usize
-            };
-            dims_usize.push(dim_usize);
-        }
+        let dims_i32: Vec<i32> = dims.iter().map(|&d| d.into().to_i32()).collect();
+        let dims_usize = normalize_axes(&dims_i32, ndim)?;
 
         let op_params = OpParams::Flip(FlipParams {
             dims: dims_usize.clone(),
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index d2069fd..d44612e 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -499,3 +499,29 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
         Op::Dummy => false,
     }
 }
+
+/// Resolves an axis in `[-ndim, ndim)` to its position.
+pub fn normalize_axis(axis: i32, ndim: usize) -> HoduResult<usize> {
+    let resolved = if axis < 0 {
+        axis as i64 + ndim as i64
+    } else {
+        axis as i64
+    };
+    if resolved < 0 || resolved >= ndim as i64 {
+        return Err(HoduError::InvalidAxis { axis, ndim });
+    }
+    Ok(resolved as usize)
+}
+
+/// Resolves a list of axes, rejecting axes that are out of range or named twice.
+pub fn normalize_axes(axes: &[i32], ndim: usize) -> HoduResult<Vec<usize>> {
+    let mut resolved = Vec::with_capacity(axes.len());
+    for &axis in axes {
+        let position = normalize_axis(axis, ndim)?;
+        if resolved.contains(&position) {
+            return Err(HoduError::InvalidArgument(format!("axis {} is named more than once", axis)));
+        }
+        resolved.push(position);
+    }
+    Ok(resolved)
+}
-- 
2.43.0


From 0994809a4ec0a65e64a856fb283fcbbbadce6737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 13/49] fix: reductions: argmax/argmin/any/all result types and
 positions, stable variance, logsumexp of infinities, fractional norms

---
 .../src/be_cpu/storage/ops_reduce.rs          |  42 +++-
 crates/hodu_core/src/tensor/ops/reduce.rs     |  29 ++-
 crates/hodu_cpu_kernels/kernels/ops_reduce.c  | 186 +++++++++++-------
 3 files changed, 165 insertions(+), 92 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
index 2989fdd..b952260 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
@@ -2,8 +2,8 @@ use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
     error::{HoduError, HoduResult},
-    ops::Op,
-    types::{Layout, Shape},
+    ops::{Op, ReduceOp},
+    types::{DType, Layout, Shape},
 };
 use core::ffi::c_void;
 
@@ -73,8 +73,12 @@ pub fn call_ops_reduce(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage
-    let dtype = storage.dtype();
+    // Create output storage: indices are I32, truth values BOOL, everything else keeps the dtype
+    let dtype = match reduce_op {
+        ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
+        ReduceOp::Any | ReduceOp::All => DType::BOOL,
+        _ => storage.dtype(),
+    };
     let mut output = CpuDevice::allocate(output_shape.size(), dtype)?;
 
     // Get raw pointers and call kernel
@@ -87,7 +91,37 @@ pub fn call_ops_reduce(
         }};
     }
 
+    macro_rules! call_kernel_into {
+        ($out:ident) => {
+            match storage {
+                CpuStorage::BOOL(input) => call_kernel!(input, $out),
+                CpuStorage::F8E4M3(input) => call_kernel!(input, $out),
+                #[cfg(feature = "f8e5m2")]
+                CpuStorage::F8E5M2(input) => call_kernel!(input, $out),
+                CpuStorage::BF16(input) => call_kernel!(input, $out),
+                CpuStorage::F16(input) => call_kernel!(input, $out),
+                CpuStorage::F32(input) => call_kernel!(input, $out),
+                #[cfg(feature = "f64")]
+                CpuStorage::F64(input) => call_kernel!(input, $out),
+                CpuStorage::U8(input) => call_kernel!(input, $out),
+                #[cfg(feature = "u16")]
+                CpuStorage::U16(input) => call_kernel!(input, $out),
+                CpuStorage::U32(input) => call_kernel!(input, $out),
+                #[cfg(feature = "u64")]
+                CpuStorage::U64(input) => call_kernel!(input, $out),
+                CpuStorage::I8(input) => call_kernel!(input, $out),
+                #[cfg(feature = "i16")]
+                CpuStorage::I16(input) => call_kernel!(input, $out),
+                CpuStorage::I32(input) => call_kernel!(input, $out),
+                #[cfg(feature = "i64")]
+                CpuStorage::I64(input) => call_kernel!(input, $out),
+            }
+        };
+    }
+
     match (storage, &mut output) {
+        (_, CpuStorage::I32(out)) if matches!(reduce_op, ReduceOp::ArgMax | ReduceOp::ArgMin) => call_kernel_into!(out),
+        (_, CpuStorage::BOOL(out)) if matches!(reduce_op, ReduceOp::Any | ReduceOp::All) => call_kernel_into!(out),
         (CpuStorage::F8E4M3(input), CpuStorage::F8E4M3(out)) => call_kernel!(input, out),
         #[cfg(feature = "f8e5m2")]
         (CpuStorage::F8E5M2(input), CpuStorage::F8E5M2(out)) => call_kernel!(input, out),
diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index adb5ac2..56b26c6 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -4,7 +4,7 @@ use crate::{
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Layout, Shape},
-    utils::valid::{validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op},
+    utils::valid::{normalize_axes, validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op},
 };
 
 impl Tensor {
@@ -87,9 +87,9 @@ impl Tensor {
 
     pub fn norm<D: Into<Scalar> + Copy>(&self, p: impl Into<Scalar>, dims: &[D], keep_dim: bool) -> HoduResult<Self> {
         let p_scalar = p.into();
-        match p_scalar.to_i32() {
-            1 => self.l1_norm(dims, keep_dim),
-            2 => self.l2_norm(dims, keep_dim),
+        match p_scalar.to_f32() {
+            1.0 => self.l1_norm(dims, keep_dim),
+            2.0 => self.l2_norm(dims, keep_dim),
             _ => {
                 let p_dtype = p_scalar.to_dtype(self.dtype());
                 self.abs()?
@@ -154,23 +154,17 @@ impl Tensor {
         let reduce_dims: Vec<usize> = if dims.is_empty() {
             (0..ndim).collect()
         } else {
-            dims_i32
-                .iter()
-                .map(|&d| if d < 0 { (ndim as i32 + d) as usize } else { d as usize })
-                .collect()
+            normalize_axes(&dims_i32, ndim)?
         };
 
-        let mut output_dims = shape_dims.to_vec();
-        for &dim in &reduce_dims {
-            if keep_dim {
-                output_dims[dim] = 1;
-            } else {
-                output_dims[dim] = 0;
+        let mut output_dims = Vec::with_capacity(ndim);
+        for (dim, &size) in shape_dims.iter().enumerate() {
+            if !reduce_dims.contains(&dim) {
+                output_dims.push(size);
+            } else if keep_dim {
+                output_dims.push(1);
             }
         }
-        if !keep_dim {
-            output_dims.retain(|&size| size != 0);
-        }
 
         let result_layout = Layout::from_shape(&Shape::from(output_dims));
 
@@ -187,6 +181,7 @@ impl Tensor {
             // Determine output dtype based on operation
             let output_dtype = match reduce_op {
                 ReduceOp::Any | ReduceOp::All => DType::BOOL,
+                ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
                 _ => self.dtype(),
             };
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_reduce.c b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
index 1354989..6ca07b9 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_reduce.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
@@ -819,8 +819,8 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
 // STANDARD DEVIATION REDUCTION
 // ============================================================================
 //
-// Computes population standard deviation: sqrt(E[X²] - E[X]²)
-// Two-pass algorithm: accumulate sum and sum of squares, then compute std.
+// Computes population standard deviation: sqrt(E[(X-c)²] - E[X-c]²), c being the first element
+// Accumulates sum and sum of squares of the deviations from c, then computes std.
 //
 // Metadata layout: Same as generic reduction operations
 
@@ -888,6 +888,13 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
+            /* deviations are taken from the first element, not from zero */                       \
+            size_t first_index = offset;                                                           \
+            for (size_t i = 0; i < num_dims; i++) {                                                \
+                first_index += input_indices[i] * strides[i];                                      \
+            }                                                                                      \
+            const TYPE shift = input[first_index];                                                 \
+                                                                                                   \
             for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {               \
                 size_t temp_reduced = reduced_idx;                                                 \
                 for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                              \
@@ -901,14 +908,14 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
+                TYPE val = input[flat_index] - shift;                                              \
                 sum += val;                                                                        \
                 sum_squares += val * val;                                                          \
             }                                                                                      \
                                                                                                    \
             TYPE mean = sum / (TYPE)reduce_size;                                                   \
             TYPE variance = (sum_squares / (TYPE)reduce_size) - (mean * mean);                     \
-            output[output_idx] = sqrt(variance);                                                   \
+            output[output_idx] = sqrt(variance < 0 ? 0 : variance);                                \
         }                                                                                          \
     }
 
@@ -982,6 +989,13 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
+            /* deviations are taken from the first element, not from zero */                       \
+            size_t first_index = offset;                                                           \
+            for (size_t i = 0; i < num_dims; i++) {                                                \
+                first_index += input_indices[i] * strides[i];                                      \
+            }                                                                                      \
+            const TYPE shift = input[first_index];                                                 \
+                                                                                                   \
             for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {               \
                 size_t temp_reduced = reduced_idx;                                                 \
                 for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                              \
@@ -995,7 +1009,7 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
+                TYPE val = SUB_FN(input[flat_index], shift);                                       \
                 sum = ADD_FN(sum, val);                                                            \
                 sum_squares = ADD_FN(sum_squares, MUL_FN(val, val));                               \
             }                                                                                      \
@@ -1004,7 +1018,8 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
             TYPE reduce_size_typed = float_to_##TYPE_SUFFIX(reduce_size_f);                        \
             TYPE mean = DIV_FN(sum, reduce_size_typed);                                            \
             TYPE variance = SUB_FN(DIV_FN(sum_squares, reduce_size_typed), MUL_FN(mean, mean));    \
-            output[output_idx] = SQRT_FN(variance);                                                \
+            output[output_idx] =                                                                   \
+                SQRT_FN(TYPE_SUFFIX##_lt(variance, ZERO) ? ZERO : variance);                       \
         }                                                                                          \
     }
 
@@ -1021,7 +1036,7 @@ REDUCE_STD_OP(f64_t, f64)
 // VARIANCE REDUCTION
 // ============================================================================
 //
-// Computes population variance: E[X²] - E[X]²
+// Computes population variance: E[(X-c)²] - E[X-c]², c being the first element
 // Same as std but without the sqrt.
 //
 // Metadata layout: Same as generic reduction operations
@@ -1090,6 +1105,13 @@ REDUCE_STD_OP(f64_t, f64)
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
+            /* deviations are taken from the first element, not from zero */                       \
+            size_t first_index = offset;                                                           \
+            for (size_t i = 0; i < num_dims; i++) {                                                \
+                first_index += input_indices[i] * strides[i];                                      \
+            }                                                                                      \
+            const TYPE shift = input[first_index];                                                 \
+                                                                                                   \
             for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {               \
                 size_t temp_reduced = reduced_idx;                                                 \
                 for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                              \
@@ -1103,13 +1125,14 @@ REDUCE_STD_OP(f64_t, f64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
+                TYPE val = input[flat_index] - shift;                                              \
                 sum += val;                                                                        \
                 sum_squares += val * val;                                                          \
             }                                                                                      \
                                                                                                    \
             TYPE mean = sum / (TYPE)reduce_size;                                                   \
-            output[output_idx] = (sum_squares / (TYPE)reduce_size) - (mean * mean);                \
+            TYPE variance = (sum_squares / (TYPE)reduce_size) - (mean * mean);                     \
+            output[output_idx] = variance < 0 ? 0 : variance;                                      \
         }                                                                                          \
     }
 
@@ -1182,6 +1205,13 @@ REDUCE_STD_OP(f64_t, f64)
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
+            /* deviations are taken from the first element, not from zero */                       \
+            size_t first_index = offset;                                                           \
+            for (size_t i = 0; i < num_dims; i++) {                                                \
+                first_index += input_indices[i] * strides[i];                                      \
+            }                                                                                      \
+            const TYPE shift = input[first_index];                                                 \
+                                                                                                   \
             for (size_t reduced_idx = 0; reduced_idx < reduce_size; reduced_idx++) {               \
                 size_t temp_reduced = reduced_idx;                                                 \
                 for (int i = (int)num_reduce_dims - 1; i >= 0; i--) {                              \
@@ -1195,7 +1225,7 @@ REDUCE_STD_OP(f64_t, f64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
+                TYPE val = SUB_FN(input[flat_index], shift);                                       \
                 sum = ADD_FN(sum, val);                                                            \
                 sum_squares = ADD_FN(sum_squares, MUL_FN(val, val));                               \
             }                                                                                      \
@@ -1203,8 +1233,8 @@ REDUCE_STD_OP(f64_t, f64)
             float reduce_size_f = (float)reduce_size;                                              \
             TYPE reduce_size_typed = float_to_##TYPE_SUFFIX(reduce_size_f);                        \
             TYPE mean = DIV_FN(sum, reduce_size_typed);                                            \
-            output[output_idx] =                                                                   \
-                SUB_FN(DIV_FN(sum_squares, reduce_size_typed), MUL_FN(mean, mean));                \
+            TYPE variance = SUB_FN(DIV_FN(sum_squares, reduce_size_typed), MUL_FN(mean, mean));    \
+            output[output_idx] = TYPE_SUFFIX##_lt(variance, ZERO) ? ZERO : variance;               \
         }                                                                                          \
     }
 
@@ -1213,7 +1243,7 @@ REDUCE_VAR_OP_EXOTIC(f8e5m2_t, f8e5m2, F8E5M2_ZERO, f8e5m2_add, f8e5m2_mul, f8e5
 REDUCE_VAR_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, bf16_add, bf16_mul, bf16_div, bf16_sub)
 REDUCE_VAR_OP_EXOTIC(f16_t, f16, F16_ZERO, f16_add, f16_mul, f16_div, f16_sub)
 
-// SIMD-optimized var_f32 (variance: E[X^2] - E[X]^2)
+// SIMD-optimized var_f32 (variance: E[(X-c)^2] - E[X-c]^2)
 void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *metadata) {
     const f32_t *input = (const f32_t *)input_ptr;
     f32_t *output = (f32_t *)output_ptr;
@@ -1271,6 +1301,13 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
             }
         }
 
+        // deviations are taken from the first element, not from zero
+        size_t first_index = offset;
+        for (size_t i = 0; i < num_dims; i++) {
+            first_index += input_indices[i] * strides[i];
+        }
+        const f32_t shift = input[first_index];
+
 #if SIMD_F32_WIDTH > 1
         bool use_simd = (num_reduce_dims == 1) && (reduce_dims[0] == num_dims - 1) &&
                         (strides[num_dims - 1] == 1) && (reduce_size >= SIMD_F32_WIDTH);
@@ -1281,12 +1318,13 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
                 flat_base += input_indices[i] * strides[i];
             }
 
+            const simd_f32_t vshift = simd_f32_set1(shift);
             simd_f32_t vsum = simd_f32_set1(0.0f);
             simd_f32_t vsum_sq = simd_f32_set1(0.0f);
             const size_t simd_end = (reduce_size / SIMD_F32_WIDTH) * SIMD_F32_WIDTH;
 
             for (size_t i = 0; i < simd_end; i += SIMD_F32_WIDTH) {
-                simd_f32_t v = simd_f32_load(&input[flat_base + i]);
+                simd_f32_t v = simd_f32_sub(simd_f32_load(&input[flat_base + i]), vshift);
                 vsum = simd_f32_add(vsum, v);
                 vsum_sq = simd_f32_fmadd(v, v, vsum_sq); // v*v + vsum_sq
             }
@@ -1294,7 +1332,7 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
             sum_squares = simd_f32_reduce_add(vsum_sq);
 
             for (size_t i = simd_end; i < reduce_size; i++) {
-                f32_t val = input[flat_base + i];
+                f32_t val = input[flat_base + i] - shift;
                 sum += val;
                 sum_squares += val * val;
             }
@@ -1314,18 +1352,19 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
                     flat_index += input_indices[i] * strides[i];
                 }
 
-                f32_t val = input[flat_index];
+                f32_t val = input[flat_index] - shift;
                 sum += val;
                 sum_squares += val * val;
             }
         }
 
         f32_t mean = sum / (f32_t)reduce_size;
-        output[output_idx] = (sum_squares / (f32_t)reduce_size) - (mean * mean);
+        f32_t variance = (sum_squares / (f32_t)reduce_size) - (mean * mean);
+        output[output_idx] = variance < 0 ? 0 : variance;
     }
 }
 
-// SIMD-optimized var_f64 (variance: E[X^2] - E[X]^2)
+// SIMD-optimized var_f64 (variance: E[(X-c)^2] - E[X-c]^2)
 void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *metadata) {
     const f64_t *input = (const f64_t *)input_ptr;
     f64_t *output = (f64_t *)output_ptr;
@@ -1383,6 +1422,13 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
             }
         }
 
+        // deviations are taken from the first element, not from zero
+        size_t first_index = offset;
+        for (size_t i = 0; i < num_dims; i++) {
+            first_index += input_indices[i] * strides[i];
+        }
+        const f64_t shift = input[first_index];
+
 #if SIMD_F64_WIDTH > 1
         bool use_simd = (num_reduce_dims == 1) && (reduce_dims[0] == num_dims - 1) &&
                         (strides[num_dims - 1] == 1) && (reduce_size >= SIMD_F64_WIDTH);
@@ -1393,12 +1439,13 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
                 flat_base += input_indices[i] * strides[i];
             }
 
+            const simd_f64_t vshift = simd_f64_set1(shift);
             simd_f64_t vsum = simd_f64_set1(0.0);
             simd_f64_t vsum_sq = simd_f64_set1(0.0);
             const size_t simd_end = (reduce_size / SIMD_F64_WIDTH) * SIMD_F64_WIDTH;
 
             for (size_t i = 0; i < simd_end; i += SIMD_F64_WIDTH) {
-                simd_f64_t v = simd_f64_load(&input[flat_base + i]);
+                simd_f64_t v = simd_f64_sub(simd_f64_load(&input[flat_base + i]), vshift);
                 vsum = simd_f64_add(vsum, v);
                 vsum_sq = simd_f64_fmadd(v, v, vsum_sq); // v*v + vsum_sq
             }
@@ -1406,7 +1453,7 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
             sum_squares = simd_f64_reduce_add(vsum_sq);
 
             for (size_t i = simd_end; i < reduce_size; i++) {
-                f64_t val = input[flat_base + i];
+                f64_t val = input[flat_base + i] - shift;
                 sum += val;
                 sum_squares += val * val;
             }
@@ -1426,14 +1473,15 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
                     flat_index += input_indices[i] * strides[i];
                 }
 
-                f64_t val = input[flat_index];
+                f64_t val = input[flat_index] - shift;
                 sum += val;
                 sum_squares += val * val;
             }
         }
 
         f64_t mean = sum / (f64_t)reduce_size;
-        output[output_idx] = (sum_squares / (f64_t)reduce_size) - (mean * mean);
+        f64_t variance = (sum_squares / (f64_t)reduce_size) - (mean * mean);
+        output[output_idx] = variance < 0 ? 0 : variance;
     }
 }
 
@@ -2065,7 +2113,7 @@ REDUCE_LOGSUM_OP(f64_t, f64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                 float val = TO_FLOAT_FN(input[flat_index]);                                        \
-                sum_exp += expf(val - max_val);                                                    \
+                sum_exp += val == max_val ? 1.0f : expf(val - max_val);                            \
             }                                                                                      \
                                                                                                    \
             output[output_idx] = FROM_FLOAT_FN(max_val + logf(sum_exp));                           \
@@ -2168,7 +2216,7 @@ REDUCE_LOGSUM_OP(f64_t, f64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                 TYPE val = input[flat_index];                                                      \
-                sum_exp += exp(val - max_val);                                                     \
+                sum_exp += val == max_val ? 1 : exp(val - max_val);                                \
             }                                                                                      \
                                                                                                    \
             output[output_idx] = max_val + log(sum_exp);                                           \
@@ -2264,8 +2312,6 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
-                                                                                                   \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     flat_index += input_indices[i] * strides[i];                                   \
@@ -2274,7 +2320,7 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                 IN_TYPE val = input[flat_index];                                                   \
                 if (first || val > max_val) {                                                      \
                     max_val = val;                                                                 \
-                    max_idx = (int32_t)actual_dim_idx;                                             \
+                    max_idx = (int32_t)reduced_idx;                                                \
                     first = false;                                                                 \
                 }                                                                                  \
             }                                                                                      \
@@ -2357,8 +2403,6 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
-                                                                                                   \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     flat_index += input_indices[i] * strides[i];                                   \
@@ -2367,7 +2411,7 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                 IN_TYPE val = input[flat_index];                                                   \
                 if (first || GT_FN(val, max_val)) {                                                \
                     max_val = val;                                                                 \
-                    max_idx = (int32_t)actual_dim_idx;                                             \
+                    max_idx = (int32_t)reduced_idx;                                                \
                     first = false;                                                                 \
                 }                                                                                  \
             }                                                                                      \
@@ -2458,8 +2502,6 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
-                                                                                                   \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     flat_index += input_indices[i] * strides[i];                                   \
@@ -2468,7 +2510,7 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                 IN_TYPE val = input[flat_index];                                                   \
                 if (first || val < min_val) {                                                      \
                     min_val = val;                                                                 \
-                    min_idx = (int32_t)actual_dim_idx;                                             \
+                    min_idx = (int32_t)reduced_idx;                                                \
                     first = false;                                                                 \
                 }                                                                                  \
             }                                                                                      \
@@ -2551,8 +2593,6 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                     temp_reduced /= dims[dim];                                                     \
                 }                                                                                  \
                                                                                                    \
-                size_t actual_dim_idx = input_indices[reduce_dims[0]];                             \
-                                                                                                   \
                 size_t flat_index = offset;                                                        \
                 for (size_t i = 0; i < num_dims; i++) {                                            \
                     flat_index += input_indices[i] * strides[i];                                   \
@@ -2561,7 +2601,7 @@ REDUCE_LOGSUMEXP_OP(f64_t, f64, -DBL_MAX)
                 IN_TYPE val = input[flat_index];                                                   \
                 if (first || LT_FN(val, min_val)) {                                                \
                     min_val = val;                                                                 \
-                    min_idx = (int32_t)actual_dim_idx;                                             \
+                    min_idx = (int32_t)reduced_idx;                                                \
                     first = false;                                                                 \
                 }                                                                                  \
             }                                                                                      \
@@ -2612,12 +2652,16 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 // Metadata layout: Same as generic reduction operations
 
 #define IS_NONZERO(val) ((val) != 0)
+#define IS_NONZERO_F8E4M3(val) (f8e4m3_to_float(val) != 0.0f)
+#define IS_NONZERO_F8E5M2(val) (f8e5m2_to_float(val) != 0.0f)
+#define IS_NONZERO_BF16(val) (bf16_to_float(val) != 0.0f)
+#define IS_NONZERO_F16(val) (f16_to_float(val) != 0.0f)
 
 /// Macro to implement any reduction (logical OR, returns bool)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+#define REDUCE_ANY_OP(IN_TYPE, TYPE_SUFFIX, NONZERO)                                               \
     void hodu_cpu_any_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2689,7 +2733,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                if (IS_NONZERO(input[flat_index])) {                                               \
+                if (NONZERO(input[flat_index])) {                                                  \
                     result = true;                                                                 \
                     break;                                                                         \
                 }                                                                                  \
@@ -2712,7 +2756,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
 ///
 /// @param IN_TYPE Input C type
 /// @param TYPE_SUFFIX Suffix for function naming
-#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX)                                                        \
+#define REDUCE_ALL_OP(IN_TYPE, TYPE_SUFFIX, NONZERO)                                               \
     void hodu_cpu_all_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
@@ -2784,7 +2828,7 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                if (!IS_NONZERO(input[flat_index])) {                                              \
+                if (!NONZERO(input[flat_index])) {                                                 \
                     result = false;                                                                \
                     break;                                                                         \
                 }                                                                                  \
@@ -2794,34 +2838,34 @@ REDUCE_ARGMIN_OP(uint64_t, u64)
         }                                                                                          \
     }
 
-REDUCE_ANY_OP(bool, bool)
-REDUCE_ANY_OP(f8e4m3_t, f8e4m3)
-REDUCE_ANY_OP(f8e5m2_t, f8e5m2)
-REDUCE_ANY_OP(bf16_t, bf16)
-REDUCE_ANY_OP(f16_t, f16)
-REDUCE_ANY_OP(f32_t, f32)
-REDUCE_ANY_OP(f64_t, f64)
-REDUCE_ANY_OP(int8_t, i8)
-REDUCE_ANY_OP(int16_t, i16)
-REDUCE_ANY_OP(int32_t, i32)
-REDUCE_ANY_OP(int64_t, i64)
-REDUCE_ANY_OP(uint8_t, u8)
-REDUCE_ANY_OP(uint16_t, u16)
-REDUCE_ANY_OP(uint32_t, u32)
-REDUCE_ANY_OP(uint64_t, u64)
-
-REDUCE_ALL_OP(bool, bool)
-REDUCE_ALL_OP(f8e4m3_t, f8e4m3)
-REDUCE_ALL_OP(f8e5m2_t, f8e5m2)
-REDUCE_ALL_OP(bf16_t, bf16)
-REDUCE_ALL_OP(f16_t, f16)
-REDUCE_ALL_OP(f32_t, f32)
-REDUCE_ALL_OP(f64_t, f64)
-REDUCE_ALL_OP(int8_t, i8)
-REDUCE_ALL_OP(int16_t, i16)
-REDUCE_ALL_OP(int32_t, i32)
-REDUCE_ALL_OP(int64_t, i64)
-REDUCE_ALL_OP(uint8_t, u8)
-REDUCE_ALL_OP(uint16_t, u16)
-REDUCE_ALL_OP(uint32_t, u32)
-REDUCE_ALL_OP(uint64_t, u64)
+REDUCE_ANY_OP(bool, bool, IS_NONZERO)
+REDUCE_ANY_OP(f8e4m3_t, f8e4m3, IS_NONZERO_F8E4M3)
+REDUCE_ANY_OP(f8e5m2_t, f8e5m2, IS_NONZERO_F8E5M2)
+REDUCE_ANY_OP(bf16_t, bf16, IS_NONZERO_BF16)
+REDUCE_ANY_OP(f16_t, f16, IS_NONZERO_F16)
+REDUCE_ANY_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ANY_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ANY_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ANY_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ANY_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ANY_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ANY_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ANY_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ANY_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ANY_OP(uint64_t, u64, IS_NONZERO)
+
+REDUCE_ALL_OP(bool, bool, IS_NONZERO)
+REDUCE_ALL_OP(f8e4m3_t, f8e4m3, IS_NONZERO_F8E4M3)
+REDUCE_ALL_OP(f8e5m2_t, f8e5m2, IS_NONZERO_F8E5M2)
+REDUCE_ALL_OP(bf16_t, bf16, IS_NONZERO_BF16)
+REDUCE_ALL_OP(f16_t, f16, IS_NONZERO_F16)
+REDUCE_ALL_OP(f32_t, f32, IS_NONZERO)
+REDUCE_ALL_OP(f64_t, f64, IS_NONZERO)
+REDUCE_ALL_OP(int8_t, i8, IS_NONZERO)
+REDUCE_ALL_OP(int16_t, i16, IS_NONZERO)
+REDUCE_ALL_OP(int32_t, i32, IS_NONZERO)
+REDUCE_ALL_OP(int64_t, i64, IS_NONZERO)
+REDUCE_ALL_OP(uint8_t, u8, IS_NONZERO)
+REDUCE_ALL_OP(uint16_t, u16, IS_NONZERO)
+REDUCE_ALL_OP(uint32_t, u32, IS_NONZERO)
+REDUCE_ALL_OP(uint64_t, u64, IS_NONZERO)
-- 
2.43.0


From 6c46cfd3e8fb5c7a0d7ea62da1edcba2eeeb889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 14/49] fix: topk compares in the element type and reads the
 permuted operand

---
 crates/hodu_core/src/tensor/ops/sort.rs    |  17 +-
 crates/hodu_cpu_kernels/kernels/ops_sort.c | 220 +++++++++++----------
 2 files changed, 117 insertions(+), 120 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/sort.rs b/crates/hodu_core/src/tensor/ops/sort.rs
index 9860e95..18de02b 100644
--- a/crates/hodu_core/src/tensor/ops/sort.rs
+++ b/crates/hodu_core/src/tensor/ops/sort.rs
@@ -4,6 +4,7 @@ use crate::{
     ops::{Op, SortOp},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Layout, Shape},
+    utils::valid::normalize_axis,
 };
 
 impl Tensor {
@@ -35,19 +36,7 @@ impl Tensor {
             return Err(HoduError::InternalError("topk requires at least 1D tensor".to_string()));
         }
 
-        // Normalize negative dim
-        let dim_normalized = if dim < 0 {
-            (ndim as i32 + dim) as usize
-        } else {
-            dim as usize
-        };
-
-        if dim_normalized >= ndim {
-            return Err(HoduError::InternalError(format!(
-                "Dimension out of range (expected to be in range of [-{}, {}), but got {})",
-                ndim, ndim, dim
-            )));
-        }
+        let dim_normalized = normalize_axis(dim, ndim)?;
 
         let dim_size = shape[dim_normalized];
         if k > dim_size {
@@ -143,7 +132,7 @@ impl Tensor {
             let mut kernel_output_shape = input_shape.dims().to_vec();
             kernel_output_shape[ndim - 1] = k;
 
-            let (values_storage, indices_storage) = self
+            let (values_storage, indices_storage) = input
                 .with_storage(|storage| storage.call_topk(&input.layout(), k, last_dim, outer_size, largest, sorted))?;
 
             let values = from_storage_with_context(
diff --git a/crates/hodu_cpu_kernels/kernels/ops_sort.c b/crates/hodu_cpu_kernels/kernels/ops_sort.c
index 5cda2db..abbbcb8 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_sort.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_sort.c
@@ -2,98 +2,105 @@
 #include "types.h"
 #include <stdlib.h>
 
-// Helper struct for sorting with indices
-typedef struct {
-    float value;
-    i32_t index;
-} ValueIndex;
-
-// Comparison functions for qsort
-static int cmp_largest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
-    if (va > vb)
-        return -1;
-    if (va < vb)
-        return 1;
-    return 0;
-}
-
-static int cmp_smallest(const void *a, const void *b) {
-    float va = ((ValueIndex *)a)->value;
-    float vb = ((ValueIndex *)b)->value;
-    if (va < vb)
-        return -1;
-    if (va > vb)
-        return 1;
-    return 0;
-}
-
-// Partition for quickselect
-static size_t partition(ValueIndex *arr, size_t left, size_t right, int largest) {
-    float pivot = arr[right].value;
-    size_t i = left;
-    for (size_t j = left; j < right; j++) {
-        int should_swap = largest ? (arr[j].value > pivot) : (arr[j].value < pivot);
-        if (should_swap) {
-            ValueIndex tmp = arr[i];
-            arr[i] = arr[j];
-            arr[j] = tmp;
-            i++;
-        }
-    }
-    ValueIndex tmp = arr[i];
-    arr[i] = arr[right];
-    arr[right] = tmp;
-    return i;
-}
-
-// QuickSelect to find k-th element and partition array
-static void quickselect_k(ValueIndex *arr, size_t n, size_t k, int largest) {
-    if (n <= 1 || k == 0)
-        return;
-
-    size_t left = 0;
-    size_t right = n - 1;
-
-    while (left < right) {
-        size_t pivot_idx = partition(arr, left, right, largest);
-        if (pivot_idx == k - 1) {
-            break;
-        } else if (pivot_idx < k - 1) {
-            left = pivot_idx + 1;
-        } else {
-            right = pivot_idx - 1;
-        }
-    }
-}
-
-// Select top-k elements using partial sort
-static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int sorted) {
-    if (k >= n) {
-        // If k >= n, just sort everything
-        if (largest) {
-            qsort(arr, n, sizeof(ValueIndex), cmp_largest);
-        } else {
-            qsort(arr, n, sizeof(ValueIndex), cmp_smallest);
-        }
-        return;
+// Selection helpers, one set per key type: every element type is compared through a key type
+// that represents all of its values exactly.
+#define TOPK_KEY(KEY)                                                                              \
+    typedef struct {                                                                               \
+        KEY##_t value;                                                                             \
+        i32_t index;                                                                               \
+    } ValueIndex_##KEY;                                                                            \
+                                                                                                   \
+    /* Comparison functions for qsort */                                                           \
+    static int cmp_largest_##KEY(const void *a, const void *b) {                                   \
+        KEY##_t va = ((ValueIndex_##KEY *)a)->value;                                               \
+        KEY##_t vb = ((ValueIndex_##KEY *)b)->value;                                               \
+        if (va > vb)                                                                               \
+            return -1;                                                                             \
+        if (va < vb)                                                                               \
+            return 1;                                                                              \
+        return 0;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    static int cmp_smallest_##KEY(const void *a, const void *b) {                                  \
+        KEY##_t va = ((ValueIndex_##KEY *)a)->value;                                               \
+        KEY##_t vb = ((ValueIndex_##KEY *)b)->value;                                               \
+        if (va < vb)                                                                               \
+            return -1;                                                                             \
+        if (va > vb)                                                                               \
+            return 1;                                                                              \
+        return 0;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    /* Partition for quickselect */                                                                \
+    static size_t partition_##KEY(ValueIndex_##KEY *arr, size_t left, size_t right, int largest) { \
+        KEY##_t pivot = arr[right].value;                                                          \
+        size_t i = left;                                                                           \
+        for (size_t j = left; j < right; j++) {                                                    \
+            int should_swap = largest ? (arr[j].value > pivot) : (arr[j].value < pivot);           \
+            if (should_swap) {                                                                     \
+                ValueIndex_##KEY tmp = arr[i];                                                     \
+                arr[i] = arr[j];                                                                   \
+                arr[j] = tmp;                                                                      \
+                i++;                                                                               \
+            }                                                                                      \
+        }                                                                                          \
+        ValueIndex_##KEY tmp = arr[i];                                                             \
+        arr[i] = arr[right];                                                                       \
+        arr[right] = tmp;                                                                          \
+        return i;                                                                                  \
+    }                                                                                              \
+                                                                                                   \
+    /* QuickSelect to find k-th element and partition array */                               \
+    static void quickselect_k_##KEY(ValueIndex_##KEY *arr, size_t n, size_t k, int largest) {      \
+        if (n <= 1 || k == 0)                                                                      \
+            return;                                                                                \
+                                                                                                   \
+        size_t left = 0;                                                                           \
+        size_t right = n - 1;                                                                      \
+                                                                                                   \
+        while (left < right) {                                                                     \
+            size_t pivot_idx = partition_##KEY(arr, left, right, largest);                         \
+            if (pivot_idx == k - 1) {                                                              \
+                break;                                                                             \
+            } else if (pivot_idx < k - 1) {                                                        \
+                left = pivot_idx + 1;                                                              \
+            } else {                                                                               \
+                right = pivot_idx - 1;                                                             \
+            }                                                                                      \
+        }                                                                                          \
+    }                                                                                              \
+                                                                                                   \
+    /* Select top-k elements using partial sort */                                                 \
+    static void topk_select_##KEY(ValueIndex_##KEY *arr, size_t n, size_t k, int largest, int sorted) {\
+        if (k >= n) {                                                                              \
+            /* If k >= n, just sort everything */                                                  \
+            if (largest) {                                                                         \
+                qsort(arr, n, sizeof(ValueIndex_##KEY), cmp_largest_##KEY);                        \
+            } else {                                                                               \
+                qsort(arr, n, sizeof(ValueIndex_##KEY), cmp_smallest_##KEY);                       \
+            }                                                                                      \
+            return;                                                                                \
+        }                                                                                          \
+                                                                                                   \
+        /* Use quickselect to partition_##KEY first k elements */                                  \
+        quickselect_k_##KEY(arr, n, k, largest);                                                   \
+                                                                                                   \
+        /* Sort the first k elements if sorted is requested */                                     \
+        if (sorted) {                                                                              \
+            if (largest) {                                                                         \
+                qsort(arr, k, sizeof(ValueIndex_##KEY), cmp_largest_##KEY);                        \
+            } else {                                                                               \
+                qsort(arr, k, sizeof(ValueIndex_##KEY), cmp_smallest_##KEY);                       \
+            }                                                                                      \
+        }                                                                                          \
     }
 
-    // Use quickselect to partition first k elements
-    quickselect_k(arr, n, k, largest);
-
-    // Sort the first k elements if sorted is requested
-    if (sorted) {
-        if (largest) {
-            qsort(arr, k, sizeof(ValueIndex), cmp_largest);
-        } else {
-            qsort(arr, k, sizeof(ValueIndex), cmp_smallest);
-        }
-    }
-}
+TOPK_KEY(f32)
+TOPK_KEY(f64)
+TOPK_KEY(i64)
+TOPK_KEY(u64)
 
-#define IMPL_TOPK(TYPE, TYPE_SUFFIX, TO_FLOAT)                                                     \
+#define IMPL_TOPK(TYPE, TYPE_SUFFIX, KEY, TO_KEY)                                                  \
     void hodu_cpu_topk_##TYPE_SUFFIX(const void *input, void *values, void *indices,               \
                                      const size_t *metadata) {                                     \
         const size_t k = metadata[1];                                                              \
@@ -108,7 +115,8 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
         i32_t *idx_out = (i32_t *)indices;                                                         \
                                                                                                    \
         /* Allocate temporary buffer for sorting */                                                \
-        ValueIndex *temp = (ValueIndex *)malloc(last_dim_size * sizeof(ValueIndex));               \
+        ValueIndex_##KEY *temp =                                                                   \
+            (ValueIndex_##KEY *)malloc(last_dim_size * sizeof(ValueIndex_##KEY));                  \
         if (!temp)                                                                                 \
             return;                                                                                \
                                                                                                    \
@@ -117,12 +125,12 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
                                                                                                    \
             /* Fill temporary buffer with values and indices */                                    \
             for (size_t i = 0; i < last_dim_size; i++) {                                           \
-                temp[i].value = TO_FLOAT(row[i]);                                                  \
+                temp[i].value = TO_KEY(row[i]);                                                    \
                 temp[i].index = (i32_t)i;                                                          \
             }                                                                                      \
                                                                                                    \
             /* Select top-k elements */                                                            \
-            topk_select(temp, last_dim_size, k, largest, sorted);                                  \
+            topk_select_##KEY(temp, last_dim_size, k, largest, sorted);                            \
                                                                                                    \
             /* Copy top-k results to output */                                                     \
             TYPE *val_row = val_out + outer * k;                                                   \
@@ -138,17 +146,17 @@ static void topk_select(ValueIndex *arr, size_t n, size_t k, int largest, int so
 
 #define IDENTITY(x) (x)
 
-IMPL_TOPK(f32_t, f32, IDENTITY)
-IMPL_TOPK(f64_t, f64, IDENTITY)
-IMPL_TOPK(u8_t, u8, IDENTITY)
-IMPL_TOPK(u16_t, u16, IDENTITY)
-IMPL_TOPK(u32_t, u32, IDENTITY)
-IMPL_TOPK(u64_t, u64, IDENTITY)
-IMPL_TOPK(i8_t, i8, IDENTITY)
-IMPL_TOPK(i16_t, i16, IDENTITY)
-IMPL_TOPK(i32_t, i32, IDENTITY)
-IMPL_TOPK(i64_t, i64, IDENTITY)
-IMPL_TOPK(bf16_t, bf16, bf16_to_float)
-IMPL_TOPK(f16_t, f16, f16_to_float)
-IMPL_TOPK(f8e4m3_t, f8e4m3, f8e4m3_to_float)
-IMPL_TOPK(f8e5m2_t, f8e5m2, f8e5m2_to_float)
+IMPL_TOPK(f32_t, f32, f32, IDENTITY)
+IMPL_TOPK(f64_t, f64, f64, IDENTITY)
+IMPL_TOPK(u8_t, u8, i64, IDENTITY)
+IMPL_TOPK(u16_t, u16, i64, IDENTITY)
+IMPL_TOPK(u32_t, u32, i64, IDENTITY)
+IMPL_TOPK(u64_t, u64, u64, IDENTITY)
+IMPL_TOPK(i8_t, i8, i64, IDENTITY)
+IMPL_TOPK(i16_t, i16, i64, IDENTITY)
+IMPL_TOPK(i32_t, i32, i64, IDENTITY)
+IMPL_TOPK(i64_t, i64, i64, IDENTITY)
+IMPL_TOPK(bf16_t, bf16, f32, bf16_to_float)
+IMPL_TOPK(f16_t, f16, f32, f16_to_float)
+IMPL_TOPK(f8e4m3_t, f8e4m3, f32, f8e4m3_to_float)
+IMPL_TOPK(f8e5m2_t, f8e5m2, f32, f8e5m2_to_float)
-- 
2.43.0


From 0a07d1203980600c412ca653718efd01ed0ef77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 15/49] fix: indexing: index_put layout, scatter modes and
 shapes, strided operands, unique of negative integers, index range errors

---
 .../src/be_cpu/storage/ops_indexing.rs        | 113 +++++++++++++-----
 crates/hodu_core/src/op_metadatas.rs          |  12 +-
 crates/hodu_core/src/tensor/ops/indexing.rs   | 106 ++++++----------
 .../hodu_cpu_kernels/kernels/ops_indexing.c   |  78 +++++++-----
 .../src/kernels/ops_indexing.rs               |   2 +
 5 files changed, 173 insertions(+), 138 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 5fc111c..232d8bd 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -7,6 +7,32 @@ use crate::{
 };
 use std::ffi::c_void;
 
+/// Reads an I32 index tensor in its logical order, with every index resolved to `[0, dim_size)`.
+fn resolve_indices(indices_storage: &CpuStorage, indices_layout: &Layout, dim_size: usize) -> HoduResult<Vec<i32>> {
+    let indices = match indices_storage.contiguous(indices_layout)? {
+        CpuStorage::I32(data) => data,
+        other => {
+            return Err(HoduError::DTypeMismatch {
+                expected: DType::I32,
+                got: other.dtype(),
+            })
+        },
+    };
+    indices
+        .into_iter()
+        .map(|index| {
+            let resolved = if index < 0 { index as i64 + dim_size as i64 } else { index as i64 };
+            if resolved < 0 || resolved >= dim_size as i64 {
+                return Err(HoduError::InvalidArgument(format!(
+                    "index {} is out of range for a dimension of size {}",
+                    index, dim_size
+                )));
+            }
+            Ok(resolved as i32)
+        })
+        .collect()
+}
+
 /// Execute index_select operation to select elements along a dimension
 ///
 /// # Arguments
@@ -35,11 +61,6 @@ pub fn call_ops_index_select(
         });
     }
 
-    // Extract indices
-    let indices = match indices_storage {
-        CpuStorage::I32(data) => data.as_slice(),
-        _ => unreachable!(),
-    };
     // Validate op
     match op {
         Op::Indexing(IndexingOp::IndexSelect) => (),
@@ -57,6 +78,7 @@ pub fn call_ops_index_select(
     if dim >= ndim {
         return Err(HoduError::InvalidAxis { axis: dim as i32, ndim });
     }
+    let indices = resolve_indices(indices_storage, indices_layout, input_shape[dim])?;
 
     // Compute output shape
     let num_indices = indices_layout.shape().size();
@@ -153,11 +175,6 @@ pub fn call_ops_index_put(
         });
     }
 
-    // Extract indices
-    let indices = match indices_storage {
-        CpuStorage::I32(data) => data.as_slice(),
-        _ => unreachable!(),
-    };
     // Validate op
     match op {
         Op::Indexing(IndexingOp::IndexPut) => (),
@@ -175,6 +192,17 @@ pub fn call_ops_index_put(
     if dim >= ndim {
         return Err(HoduError::InvalidAxis { axis: dim as i32, ndim });
     }
+    let indices = resolve_indices(indices_storage, indices_layout, input_shape[dim])?;
+
+    // Values fill the positions named by the indices
+    let mut expected_values = input_shape.dims().to_vec();
+    expected_values[dim] = indices.len();
+    if values_layout.shape().dims() != expected_values.as_slice() {
+        return Err(HoduError::shape_mismatch(
+            Shape::new(&expected_values),
+            values_layout.shape().clone(),
+        ));
+    }
 
     // Validate dtypes match
     if storage.dtype() != values_storage.dtype() {
@@ -197,8 +225,8 @@ pub fn call_ops_index_put(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage
+    let mut output = CpuDevice::allocate(input_shape.size(), storage.dtype())?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
@@ -302,11 +330,6 @@ pub fn call_ops_gather(
         });
     }
 
-    // Extract indices
-    let indices = match indices_storage {
-        CpuStorage::I32(data) => data.as_slice(),
-        _ => unreachable!(),
-    };
 
     // Validate op
     match op {
@@ -323,6 +346,19 @@ pub fn call_ops_gather(
         return Err(HoduError::InvalidAxis { axis: dim as i32, ndim });
     }
 
+    // Outside the indexed dimension, index positions are input positions
+    let fits = indices_layout.ndim() == ndim
+        && (0..ndim).all(|d| d == dim || indices_layout.shape()[d] <= input_shape[d]);
+    if !fits {
+        return Err(HoduError::shape_mismatch(
+            input_shape.clone(),
+            indices_layout.shape().clone(),
+        ));
+    }
+    let indices = resolve_indices(indices_storage, indices_layout, input_shape[dim])?;
+    // Index tensors are read in logical order, so from here on they are contiguous
+    let indices_layout = &Layout::from_shape(indices_layout.shape());
+
     // Output shape is same as indices shape
     let output_shape = indices_shape.clone();
     let num_els = output_shape.size();
@@ -415,11 +451,6 @@ pub fn call_ops_scatter(
         });
     }
 
-    // Extract indices
-    let indices = match indices_storage {
-        CpuStorage::I32(data) => data.as_slice(),
-        _ => unreachable!(),
-    };
 
     // Validate op
     match op {
@@ -441,6 +472,25 @@ pub fn call_ops_scatter(
         return Err(HoduError::InvalidAxis { axis: dim as i32, ndim });
     }
 
+    // Outside the indexed dimension, index positions are input positions
+    let fits = indices_layout.ndim() == ndim
+        && (0..ndim).all(|d| d == dim || indices_layout.shape()[d] <= input_shape[d]);
+    if !fits {
+        return Err(HoduError::shape_mismatch(
+            input_shape.clone(),
+            indices_layout.shape().clone(),
+        ));
+    }
+    if src_layout.shape() != indices_layout.shape() {
+        return Err(HoduError::shape_mismatch(
+            indices_layout.shape().clone(),
+            src_layout.shape().clone(),
+        ));
+    }
+    let indices = resolve_indices(indices_storage, indices_layout, input_shape[dim])?;
+    // Index tensors are read in logical order, so from here on they are contiguous
+    let indices_layout = &Layout::from_shape(indices_layout.shape());
+
     // Validate dtypes match
     if storage.dtype() != src_storage.dtype() {
         return Err(HoduError::DTypeMismatch {
@@ -454,12 +504,17 @@ pub fn call_ops_scatter(
 
     // Generate kernel name
     let dtype = storage.dtype();
-    let kernel_name = format!("hodu_cpu_scatter_{}", dtype);
+    let kernel_name = match op {
+        Op::Indexing(IndexingOp::ScatterAdd) => format!("hodu_cpu_scatter_add_{}", dtype),
+        Op::Indexing(IndexingOp::ScatterMax) => format!("hodu_cpu_scatter_max_{}", dtype),
+        Op::Indexing(IndexingOp::ScatterMin) => format!("hodu_cpu_scatter_min_{}", dtype),
+        _ => format!("hodu_cpu_scatter_{}", dtype),
+    };
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage (copy of input)
-    let mut output = storage.clone();
+    // Create output storage
+    let mut output = CpuDevice::allocate(input_shape.size(), storage.dtype())?;
 
     // Get raw pointers and call kernel
     macro_rules! call_kernel {
@@ -561,8 +616,9 @@ pub fn call_ops_onehot(
         _ => return Err(HoduError::BackendError("call_ops_onehot expects Onehot op".to_string())),
     };
 
-    // Convert indices to i32
-    let indices: Vec<i32> = match indices_storage {
+    // Convert indices to i32, in logical order
+    let indices_storage = indices_storage.contiguous(indices_layout)?;
+    let indices: Vec<i32> = match &indices_storage {
         CpuStorage::I8(data) => data.iter().map(|&x| x as i32).collect(),
         #[cfg(feature = "i16")]
         CpuStorage::I16(data) => data.iter().map(|&x| x as i32).collect(),
@@ -820,7 +876,8 @@ pub fn call_compress(
     }
 
     // Extract condition as contiguous bool slice
-    let condition = match condition_storage {
+    let condition_storage = condition_storage.contiguous(condition_layout)?;
+    let condition = match &condition_storage {
         CpuStorage::BOOL(data) => data.as_slice(),
         _ => unreachable!(),
     };
diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 6a094e3..2ad1c61 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -739,10 +739,9 @@ pub fn index_put_metadata(
     output_num_els: usize,
 ) -> Vec<usize> {
     let input_shape = layout.shape();
-    let values_shape = values_layout.shape();
     let ndim = input_shape.ndim();
 
-    let mut metadata = Vec::with_capacity(2 + ndim + ndim + 1 + ndim + ndim + 1 + 1 + 1);
+    let mut metadata = Vec::with_capacity(2 + 3 * ndim + 4);
 
     metadata.push(output_num_els);
     metadata.push(ndim);
@@ -754,17 +753,14 @@ pub fn index_put_metadata(
     for &s in layout.strides() {
         metadata.push(s);
     }
-    metadata.push(layout.offset());
 
-    // values shape and strides
-    for &d in values_shape.dims() {
-        metadata.push(d);
-    }
+    // values strides
     for &s in values_layout.strides() {
         metadata.push(s);
     }
-    metadata.push(values_layout.offset());
 
+    metadata.push(layout.offset());
+    metadata.push(values_layout.offset());
     metadata.push(dim);
     metadata.push(num_indices);
 
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 3401240..6fb45ca 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -8,7 +8,7 @@ use crate::{
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Dim, DynamicDimId, Layout, Shape, SymbolicLayout, SymbolicShape},
     utils::valid::{
-        validate_dtype_for_device, validate_dtype_for_op, validate_indices_dtype, validate_requires_grad_for_op,
+        normalize_axis, validate_dtype_for_device, validate_dtype_for_op, validate_indices_dtype, validate_requires_grad_for_op,
         validate_same_device, validate_same_dtype,
     },
 };
@@ -17,12 +17,7 @@ impl Tensor {
     pub fn index_select<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices], Op::Indexing(IndexingOp::IndexSelect))?;
@@ -98,12 +93,7 @@ impl Tensor {
     pub fn index_put<D: Into<Scalar>>(&self, dim: D, indices: &Self, values: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, values], Op::Indexing(IndexingOp::IndexPut))?;
@@ -113,7 +103,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::IndexPut))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::IndexPut));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
         let indices_layout = indices.layout();
         let values_layout = values.layout();
 
@@ -128,7 +119,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), values.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), values_layout, indices_layout],
+                vec![self_layout.clone(), values_layout, indices_layout],
                 result_layout.clone(),
             )?;
 
@@ -147,7 +138,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     values.with_storage(|values_storage| {
                         storage.call_ops_index_put(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             values_storage,
@@ -178,12 +169,7 @@ impl Tensor {
     pub fn gather<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices], Op::Indexing(IndexingOp::Gather))?;
@@ -194,7 +180,8 @@ impl Tensor {
 
         // Output has same shape as indices
         let self_layout = self.layout();
-        let result_layout = indices.layout();
+        let indices_layout = indices.layout();
+        let result_layout = Layout::from_shape(indices_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = self.is_requires_grad() && validate_requires_grad;
@@ -207,7 +194,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), indices.id()],
                 result_id,
-                vec![self_layout.clone(), result_layout.clone()],
+                vec![self_layout.clone(), indices_layout.clone()],
                 result_layout,
             )?;
 
@@ -227,7 +214,7 @@ impl Tensor {
                     storage.call_ops_gather(
                         &self_layout,
                         indices_storage,
-                        &result_layout,
+                        &indices_layout,
                         dim_usize,
                         Op::Indexing(IndexingOp::Gather),
                     )
@@ -253,12 +240,7 @@ impl Tensor {
     pub fn scatter<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::Scatter))?;
@@ -269,7 +251,8 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::Scatter));
 
         // Output has same shape as self
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
         let indices_layout = indices.layout();
         let src_layout = src.layout();
 
@@ -284,7 +267,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), src_layout.clone(), indices_layout.clone()],
+                vec![self_layout.clone(), src_layout.clone(), indices_layout.clone()],
                 result_layout,
             )?;
 
@@ -303,7 +286,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             src_storage,
@@ -334,12 +317,7 @@ impl Tensor {
     pub fn scatter_add<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterAdd))?;
@@ -349,7 +327,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterAdd))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterAdd));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -362,7 +341,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![self.layout(), src.layout(), indices.layout()],
+                vec![self_layout.clone(), src.layout(), indices.layout()],
                 result_layout,
             )?;
 
@@ -381,7 +360,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &self.layout(),
+                            &self_layout,
                             indices_storage,
                             &indices.layout(),
                             src_storage,
@@ -412,12 +391,7 @@ impl Tensor {
     pub fn scatter_max<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterMax))?;
@@ -427,7 +401,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMax))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMax));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -440,7 +415,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![self.layout(), src.layout(), indices.layout()],
+                vec![self_layout.clone(), src.layout(), indices.layout()],
                 result_layout,
             )?;
 
@@ -459,7 +434,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &self.layout(),
+                            &self_layout,
                             indices_storage,
                             &indices.layout(),
                             src_storage,
@@ -490,12 +465,7 @@ impl Tensor {
     pub fn scatter_min<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
-        let ndim = self.ndim() as i32;
-        let dim_usize = if dim_i32 < 0 {
-            (ndim + dim_i32) as usize
-        } else {
-            dim_i32 as usize
-        };
+        let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterMin))?;
@@ -505,7 +475,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMin))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMin));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -518,7 +489,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![self.layout(), src.layout(), indices.layout()],
+                vec![self_layout.clone(), src.layout(), indices.layout()],
                 result_layout,
             )?;
 
@@ -537,7 +508,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &self.layout(),
+                            &self_layout,
                             indices_storage,
                             &indices.layout(),
                             src_storage,
@@ -590,13 +561,8 @@ impl Tensor {
         let axis_i32 = axis_scalar.to_i32();
 
         // Normalize axis
-        let ndim = self.ndim() as i32;
-        let output_ndim = ndim + 1;
-        let axis_usize = if axis_i32 < 0 {
-            (output_ndim + axis_i32) as usize
-        } else {
-            axis_i32 as usize
-        };
+        let output_ndim = self.ndim() + 1;
+        let axis_usize = normalize_axis(axis_i32, output_ndim)?;
 
         // Validate
         validate_dtype_for_device(dtype, self.device())?;
@@ -605,7 +571,7 @@ impl Tensor {
 
         // Compute output shape: insert num_classes at axis position
         let input_shape = self.shape();
-        let mut output_dims = Vec::with_capacity(output_ndim as usize);
+        let mut output_dims = Vec::with_capacity(output_ndim);
         for (i, &dim) in input_shape.dims().iter().enumerate() {
             if i == axis_usize {
                 output_dims.push(num_classes_usize);
@@ -613,7 +579,7 @@ impl Tensor {
             output_dims.push(dim);
         }
         // If axis == output_ndim - 1 (last position)
-        if axis_usize == output_ndim as usize - 1 {
+        if axis_usize == output_ndim - 1 {
             output_dims.push(num_classes_usize);
         }
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index e4e015b..aad212c 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -625,6 +625,7 @@ SCATTER_ADD_OP_EXOTIC(f8e5m2_t, scatter_add_f8e5m2, f8e5m2_add)
 SCATTER_ADD_OP_EXOTIC(bf16_t, scatter_add_bf16, bf16_add)
 SCATTER_ADD_OP_EXOTIC(f16_t, scatter_add_f16, f16_add)
 SCATTER_ADD_OP(float, scatter_add_f32)
+SCATTER_ADD_OP(double, scatter_add_f64)
 SCATTER_ADD_OP(int8_t, scatter_add_i8)
 SCATTER_ADD_OP(int16_t, scatter_add_i16)
 SCATTER_ADD_OP(int32_t, scatter_add_i32)
@@ -644,11 +645,15 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
 // Algorithm:
 // Same as scatter but compares and keeps the maximum value.
 
+// Element types that are plain numbers compare as they are.
+#define SCATTER_VALUE(x) (x)
+
 /// Macro to implement scatter_max operation (maximum mode)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MAX_OP(TYPENAME, FN_NAME)                                                          \
+/// @param TO_NUM Conversion of an element to a number that can be compared
+#define SCATTER_MAX_OP(TYPENAME, FN_NAME, TO_NUM)                                                  \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -731,25 +736,26 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val > output[output_flat_idx]) {                                               \
+            if (TO_NUM(src_val) > TO_NUM(output[output_flat_idx])) {                               \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3)
-SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2)
-SCATTER_MAX_OP(bf16_t, scatter_max_bf16)
-SCATTER_MAX_OP(f16_t, scatter_max_f16)
-SCATTER_MAX_OP(float, scatter_max_f32)
-SCATTER_MAX_OP(int8_t, scatter_max_i8)
-SCATTER_MAX_OP(int16_t, scatter_max_i16)
-SCATTER_MAX_OP(int32_t, scatter_max_i32)
-SCATTER_MAX_OP(int64_t, scatter_max_i64)
-SCATTER_MAX_OP(uint8_t, scatter_max_u8)
-SCATTER_MAX_OP(uint16_t, scatter_max_u16)
-SCATTER_MAX_OP(uint32_t, scatter_max_u32)
-SCATTER_MAX_OP(uint64_t, scatter_max_u64)
+SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3, f8e4m3_to_float)
+SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2, f8e5m2_to_float)
+SCATTER_MAX_OP(bf16_t, scatter_max_bf16, bf16_to_float)
+SCATTER_MAX_OP(f16_t, scatter_max_f16, f16_to_float)
+SCATTER_MAX_OP(float, scatter_max_f32, SCATTER_VALUE)
+SCATTER_MAX_OP(double, scatter_max_f64, SCATTER_VALUE)
+SCATTER_MAX_OP(int8_t, scatter_max_i8, SCATTER_VALUE)
+SCATTER_MAX_OP(int16_t, scatter_max_i16, SCATTER_VALUE)
+SCATTER_MAX_OP(int32_t, scatter_max_i32, SCATTER_VALUE)
+SCATTER_MAX_OP(int64_t, scatter_max_i64, SCATTER_VALUE)
+SCATTER_MAX_OP(uint8_t, scatter_max_u8, SCATTER_VALUE)
+SCATTER_MAX_OP(uint16_t, scatter_max_u16, SCATTER_VALUE)
+SCATTER_MAX_OP(uint32_t, scatter_max_u32, SCATTER_VALUE)
+SCATTER_MAX_OP(uint64_t, scatter_max_u64, SCATTER_VALUE)
 
 // ============================================================================
 // SCATTER MIN OPERATIONS
@@ -765,7 +771,8 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MIN_OP(TYPENAME, FN_NAME)                                                          \
+/// @param TO_NUM Conversion of an element to a number that can be compared
+#define SCATTER_MIN_OP(TYPENAME, FN_NAME, TO_NUM)                                                  \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -848,25 +855,26 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val < output[output_flat_idx]) {                                               \
+            if (TO_NUM(src_val) < TO_NUM(output[output_flat_idx])) {                               \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3)
-SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2)
-SCATTER_MIN_OP(bf16_t, scatter_min_bf16)
-SCATTER_MIN_OP(f16_t, scatter_min_f16)
-SCATTER_MIN_OP(float, scatter_min_f32)
-SCATTER_MIN_OP(int8_t, scatter_min_i8)
-SCATTER_MIN_OP(int16_t, scatter_min_i16)
-SCATTER_MIN_OP(int32_t, scatter_min_i32)
-SCATTER_MIN_OP(int64_t, scatter_min_i64)
-SCATTER_MIN_OP(uint8_t, scatter_min_u8)
-SCATTER_MIN_OP(uint16_t, scatter_min_u16)
-SCATTER_MIN_OP(uint32_t, scatter_min_u32)
-SCATTER_MIN_OP(uint64_t, scatter_min_u64)
+SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3, f8e4m3_to_float)
+SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2, f8e5m2_to_float)
+SCATTER_MIN_OP(bf16_t, scatter_min_bf16, bf16_to_float)
+SCATTER_MIN_OP(f16_t, scatter_min_f16, f16_to_float)
+SCATTER_MIN_OP(float, scatter_min_f32, SCATTER_VALUE)
+SCATTER_MIN_OP(double, scatter_min_f64, SCATTER_VALUE)
+SCATTER_MIN_OP(int8_t, scatter_min_i8, SCATTER_VALUE)
+SCATTER_MIN_OP(int16_t, scatter_min_i16, SCATTER_VALUE)
+SCATTER_MIN_OP(int32_t, scatter_min_i32, SCATTER_VALUE)
+SCATTER_MIN_OP(int64_t, scatter_min_i64, SCATTER_VALUE)
+SCATTER_MIN_OP(uint8_t, scatter_min_u8, SCATTER_VALUE)
+SCATTER_MIN_OP(uint16_t, scatter_min_u16, SCATTER_VALUE)
+SCATTER_MIN_OP(uint32_t, scatter_min_u32, SCATTER_VALUE)
+SCATTER_MIN_OP(uint64_t, scatter_min_u64, SCATTER_VALUE)
 
 // ============================================================================
 // ONEHOT OPERATIONS
@@ -1123,7 +1131,7 @@ NONZERO_FILL_OP(uint64_t, nonzero_fill_u64, val != 0)
 // Helper struct for sorting with original index
 typedef struct {
     size_t orig_idx;
-    size_t sort_key; // Used for integer comparison
+    uint64_t sort_key; // Order-preserving image of the integer value
 } IndexPair;
 
 // Comparison function for qsort (by sort_key)
@@ -1153,6 +1161,12 @@ static int compare_index_pairs_float(const void *a, const void *b) {
     return 0;
 }
 
+// Maps an integer to an unsigned key in the same order: flipping the top bit of the
+// sign-extended value puts negative numbers below the non-negative ones.
+#define UNIQUE_INT_KEY(TYPENAME, value)                                                            \
+    (((TYPENAME)-1 < (TYPENAME)1) ? ((uint64_t)(int64_t)(value) ^ 0x8000000000000000ULL)           \
+                                  : (uint64_t)(value))
+
 /// Macro to implement unique operation for integer types
 #define UNIQUE_OP_INT(TYPENAME, FN_NAME)                                                           \
     size_t hodu_cpu_##FN_NAME(const void *input_ptr, void *values_ptr, int32_t *inverse,           \
@@ -1184,7 +1198,7 @@ static int compare_index_pairs_float(const void *a, const void *b) {
             }                                                                                      \
             input_values[id] = input[flat_idx];                                                    \
             pairs[id].orig_idx = id;                                                               \
-            pairs[id].sort_key = (size_t)input[flat_idx];                                          \
+            pairs[id].sort_key = UNIQUE_INT_KEY(TYPENAME, input[flat_idx]);                        \
         }                                                                                          \
                                                                                                    \
         /* Sort by value */                                                                        \
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
index dafd067..8e4d86a 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
@@ -256,6 +256,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                 fn [<hodu_cpu_ $op_name _bf16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
+                fn [<hodu_cpu_ $op_name _f64>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i8>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
@@ -280,6 +281,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                     concat!("hodu_cpu_", stringify!($op_name), "_bf16") => [<hodu_cpu_ $op_name _bf16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f16") => [<hodu_cpu_ $op_name _f16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f32") => [<hodu_cpu_ $op_name _f32>](input, indices, src, output, metadata),
+                    concat!("hodu_cpu_", stringify!($op_name), "_f64") => [<hodu_cpu_ $op_name _f64>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i8") => [<hodu_cpu_ $op_name _i8>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i16") => [<hodu_cpu_ $op_name _i16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i32") => [<hodu_cpu_ $op_name _i32>](input, indices, src, output, metadata),
-- 
2.43.0


From 7dd0b34abe5da41b38ebc08284cd0a8965dd41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 16/49] fix: argmax, argmin, any and all accept f64

---
 crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
index 47c8e89..aa7a1e3 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
@@ -327,6 +327,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmax_bf16"
             | "hodu_cpu_argmax_f16"
             | "hodu_cpu_argmax_f32"
+            | "hodu_cpu_argmax_f64"
             | "hodu_cpu_argmax_i8"
             | "hodu_cpu_argmax_i16"
             | "hodu_cpu_argmax_i32"
@@ -341,6 +342,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmin_bf16"
             | "hodu_cpu_argmin_f16"
             | "hodu_cpu_argmin_f32"
+            | "hodu_cpu_argmin_f64"
             | "hodu_cpu_argmin_i8"
             | "hodu_cpu_argmin_i16"
             | "hodu_cpu_argmin_i32"
@@ -355,6 +357,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_any_bf16"
             | "hodu_cpu_any_f16"
             | "hodu_cpu_any_f32"
+            | "hodu_cpu_any_f64"
             | "hodu_cpu_any_i8"
             | "hodu_cpu_any_i16"
             | "hodu_cpu_any_i32"
@@ -369,6 +372,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_all_bf16"
             | "hodu_cpu_all_f16"
             | "hodu_cpu_all_f32"
+            | "hodu_cpu_all_f64"
             | "hodu_cpu_all_i8"
             | "hodu_cpu_all_i16"
             | "hodu_cpu_all_i32"
-- 
2.43.0


From cb635022fe2e16ecdd66aadb298a85dfdce68aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 17/49] fix: padding reads strided operands, window mean
 averages half and 8-bit floats by value

---
 .../src/be_cpu/storage/ops_padding.rs         |  3 ++
 .../hodu_cpu_kernels/kernels/ops_windowing.c  | 30 ++++++++++---------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_padding.rs b/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
index 6817c6c..d850529 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_padding.rs
@@ -77,6 +77,9 @@ pub fn call_ops_pad(
         }};
     }
 
+    // The kernels read the input as contiguous
+    let storage = &storage.contiguous(layout)?;
+
     match padding_op {
         PaddingOp::PadConstant => match (storage, &mut output) {
             (CpuStorage::BOOL(input), CpuStorage::BOOL(out)) => {
diff --git a/crates/hodu_cpu_kernels/kernels/ops_windowing.c b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
index d0083ac..e57d0a2 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_windowing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
@@ -125,15 +125,17 @@
  * Computes the average of values in each window. Padding areas are treated as 0.
  * Only available for floating-point types.
  *
- * @param IN_TYPE C type of input elements (float type)
- * @param OUT_TYPE C type of output elements (float type)
+ * @param TYPE C type of the elements (float type)
+ * @param ACC_TYPE C type the average is computed in
  * @param TYPE_SUFFIX Suffix for function name
+ * @param TO_ACC Conversion from TYPE to ACC_TYPE
+ * @param FROM_ACC Conversion from ACC_TYPE to TYPE
  */
-#define REDUCE_WINDOW_MEAN_OP(IN_TYPE, OUT_TYPE, TYPE_SUFFIX)                                      \
+#define REDUCE_WINDOW_MEAN_OP(TYPE, ACC_TYPE, TYPE_SUFFIX, TO_ACC, FROM_ACC)                       \
     void hodu_cpu_reduce_window_mean_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,        \
                                                    const size_t *metadata) {                       \
-        const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
-        OUT_TYPE *output = (OUT_TYPE *)output_ptr;                                                 \
+        const TYPE *input = (const TYPE *)input_ptr;                                               \
+        TYPE *output = (TYPE *)output_ptr;                                                         \
                                                                                                    \
         const size_t num_els = metadata[0];                                                        \
         const size_t num_dims = metadata[1];                                                       \
@@ -154,7 +156,7 @@
                 tmp /= output_shape[i];                                                            \
             }                                                                                      \
                                                                                                    \
-            OUT_TYPE sum = 0;                                                                      \
+            ACC_TYPE sum = 0;                                                                      \
             size_t window_size = 1;                                                                \
             for (size_t i = 0; i < num_dims; i++) {                                                \
                 window_size *= window_shape[i];                                                    \
@@ -190,11 +192,11 @@
                     for (size_t i = 0; i < num_dims; i++) {                                        \
                         idx += input_coords[i] * input_strides[i];                                 \
                     }                                                                              \
-                    sum += (OUT_TYPE)input[idx];                                                   \
+                    sum += TO_ACC(input[idx]);                                                     \
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            output[out_idx] = sum / (OUT_TYPE)window_size;                                         \
+            output[out_idx] = FROM_ACC(sum / (ACC_TYPE)window_size);                               \
         }                                                                                          \
     }
 
@@ -213,12 +215,12 @@ REDUCE_WINDOW_OP(uint16_t, uint16_t, max_u16, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint32_t, uint32_t, max_u32, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint64_t, uint64_t, max_u64, 0u, acc = MAX(acc, val))
 
-REDUCE_WINDOW_MEAN_OP(f8e4m3_t, f8e4m3_t, f8e4m3)
-REDUCE_WINDOW_MEAN_OP(f8e5m2_t, f8e5m2_t, f8e5m2)
-REDUCE_WINDOW_MEAN_OP(bf16_t, bf16_t, bf16)
-REDUCE_WINDOW_MEAN_OP(f16_t, f16_t, f16)
-REDUCE_WINDOW_MEAN_OP(float, float, f32)
-REDUCE_WINDOW_MEAN_OP(double, double, f64)
+REDUCE_WINDOW_MEAN_OP(f8e4m3_t, float, f8e4m3, f8e4m3_to_float, float_to_f8e4m3)
+REDUCE_WINDOW_MEAN_OP(f8e5m2_t, float, f8e5m2, f8e5m2_to_float, float_to_f8e5m2)
+REDUCE_WINDOW_MEAN_OP(bf16_t, float, bf16, bf16_to_float, float_to_bf16)
+REDUCE_WINDOW_MEAN_OP(f16_t, float, f16, f16_to_float, float_to_f16)
+REDUCE_WINDOW_MEAN_OP(float, float, f32, , )
+REDUCE_WINDOW_MEAN_OP(double, double, f64, , )
 
 REDUCE_WINDOW_OP(f8e4m3_t, f8e4m3_t, sum_f8e4m3, F8E4M3_ZERO, acc = f8e4m3_add(acc, val))
 REDUCE_WINDOW_OP(f8e5m2_t, f8e5m2_t, sum_f8e5m2, F8E5M2_ZERO, acc = f8e5m2_add(acc, val))
-- 
2.43.0


From d6908bb81ae4125ed558cac2283cfbfdc03d436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 18/49] fix: einsum reads every operand by its own layout

---
 crates/hodu_core/src/op_metadatas.rs      | 2 +-
 crates/hodu_core/src/tensor/ops/einsum.rs | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 2ad1c61..935e77d 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -1504,7 +1504,7 @@ pub fn einsum_metadata(
     let num_total_indices = parsed.all_indices.len();
     let num_contraction_indices = parsed.contraction_indices.len();
     let output_ndim = output_layout.ndim();
-    let num_output_els = output_layout.size().max(1);
+    let num_output_els = output_layout.size();
 
     let mut metadata = vec![
         num_output_els,
diff --git a/crates/hodu_core/src/tensor/ops/einsum.rs b/crates/hodu_core/src/tensor/ops/einsum.rs
index 474e067..63c0b57 100644
--- a/crates/hodu_core/src/tensor/ops/einsum.rs
+++ b/crates/hodu_core/src/tensor/ops/einsum.rs
@@ -101,12 +101,11 @@ impl Tensor {
 
             Ok(result_tensor)
         } else {
-            let other_layouts: Vec<Layout> = tensors.iter().skip(1).map(|t| t.layout()).collect();
-            let input_layout_refs: Vec<&Layout> = other_layouts.iter().collect();
+            let input_layout_refs: Vec<&Layout> = input_layouts.iter().collect();
 
             // Execute with nested with_storage calls based on tensor count
             let storage = match tensors.len() {
-                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &[], &parsed))?,
+                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &input_layout_refs, &parsed))?,
                 2 => tensors[0].with_storage(|s0| {
                     tensors[1].with_storage(|s1| s0.call_ops_einsum(&[s1], &input_layout_refs, &parsed))
                 })?,
-- 
2.43.0


From 0a3bbb1343c4d8a6c79b8f8bb0ce627745bf7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 19/49] fix: det and inv of integer matrices, singular matrices
 of half and 8-bit floats

---
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 164 ++++++++++---------
 1 file changed, 89 insertions(+), 75 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 93cfbbd..354724b 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -1,5 +1,6 @@
 #include "ops_linalg.h"
 #include "types.h"
+#include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -29,12 +30,17 @@
 // - NxN: LU decomposition with partial pivoting
 //        det = (-1)^swaps * product(diagonal of U)
 
+// Elimination divides: floating-point types do it in their own precision, integer types in double
+// and round the result back (a singular integer matrix has no inverse: 0 is stored).
+#define LINALG_AS_IS(x) (x)
+#define LINALG_ROUND(x) (isfinite(x) ? (int64_t)llround(x) : 0)
+
 /// Helper to get element from strided matrix for det
 #define DET_GET(input, batch_offset, row, col, row_stride, col_stride)                             \
     ((input)[(batch_offset) + (row) * (row_stride) + (col) * (col_stride)])
 
 /// Macro for determinant operation
-#define DET_OP(TYPE, TYPE_SUFFIX)                                                                  \
+#define DET_OP(TYPE, TYPE_SUFFIX, ACC, FROM_ACC)                                                   \
     void hodu_cpu_det_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const TYPE *input = (const TYPE *)input_ptr;                                               \
@@ -89,7 +95,7 @@
             } else {                                                                               \
                 /* LU decomposition with partial pivoting for NxN */                               \
                 /* Allocate temporary matrix */                                                    \
-                TYPE *lu = (TYPE *)malloc(n * n * sizeof(TYPE));                                   \
+                ACC *lu = (ACC *)malloc(n * n * sizeof(ACC));                                      \
                                                                                                    \
                 /* Copy input to LU matrix */                                                      \
                 for (size_t i = 0; i < n; i++) {                                                   \
@@ -100,18 +106,18 @@
                 }                                                                                  \
                                                                                                    \
                 int swaps = 0;                                                                     \
-                det = 1;                                                                           \
+                ACC lu_det = 1;                                                                    \
                                                                                                    \
                 /* LU decomposition with partial pivoting */                                       \
                 for (size_t k = 0; k < n; k++) {                                                   \
                     /* Find pivot */                                                               \
                     size_t pivot_row = k;                                                          \
-                    TYPE max_val = lu[k * n + k];                                                  \
+                    ACC max_val = lu[k * n + k];                                                   \
                     if (max_val < 0)                                                               \
                         max_val = -max_val;                                                        \
                                                                                                    \
                     for (size_t i = k + 1; i < n; i++) {                                           \
-                        TYPE val = lu[i * n + k];                                                  \
+                        ACC val = lu[i * n + k];                                                   \
                         if (val < 0)                                                               \
                             val = -val;                                                            \
                         if (val > max_val) {                                                       \
@@ -123,30 +129,30 @@
                     /* Swap rows if needed */                                                      \
                     if (pivot_row != k) {                                                          \
                         for (size_t j = 0; j < n; j++) {                                           \
-                            TYPE tmp = lu[k * n + j];                                              \
+                            ACC tmp = lu[k * n + j];                                               \
                             lu[k * n + j] = lu[pivot_row * n + j];                                 \
                             lu[pivot_row * n + j] = tmp;                                           \
                         }                                                                          \
                         swaps++;                                                                   \
                     }                                                                              \
                                                                                                    \
-                    TYPE pivot = lu[k * n + k];                                                    \
+                    ACC pivot = lu[k * n + k];                                                     \
                                                                                                    \
                     /* Check for singular matrix */                                                \
-                    TYPE abs_pivot = pivot;                                                        \
+                    ACC abs_pivot = pivot;                                                         \
                     if (abs_pivot < 0)                                                             \
                         abs_pivot = -abs_pivot;                                                    \
-                    if (abs_pivot < (TYPE)1e-15) {                                                 \
+                    if (abs_pivot == 0) {                                                          \
                         det = 0;                                                                   \
                         free(lu);                                                                  \
                         goto store_result_##TYPE_SUFFIX;                                           \
                     }                                                                              \
                                                                                                    \
-                    det *= pivot;                                                                  \
+                    lu_det *= pivot;                                                               \
                                                                                                    \
                     /* Eliminate below */                                                          \
                     for (size_t i = k + 1; i < n; i++) {                                           \
-                        TYPE factor = lu[i * n + k] / pivot;                                       \
+                        ACC factor = lu[i * n + k] / pivot;                                        \
                         for (size_t j = k; j < n; j++) {                                           \
                             lu[i * n + j] -= factor * lu[k * n + j];                               \
                         }                                                                          \
@@ -155,9 +161,10 @@
                                                                                                    \
                 /* Apply sign from row swaps */                                                    \
                 if (swaps % 2 != 0) {                                                              \
-                    det = -det;                                                                    \
+                    lu_det = -lu_det;                                                              \
                 }                                                                                  \
                                                                                                    \
+                det = FROM_ACC(lu_det);                                                            \
                 free(lu);                                                                          \
             }                                                                                      \
                                                                                                    \
@@ -255,6 +262,9 @@
                                                                                                    \
                     TYPE pivot = lu[k * n + k];                                                    \
                     det = MUL_FN(det, pivot);                                                      \
+                    /* Singular: every candidate pivot is zero */                                  \
+                    if (!LT_FN(ZERO, ABS_FN(pivot)))                                               \
+                        break;                                                                     \
                                                                                                    \
                     for (size_t i = k + 1; i < n; i++) {                                           \
                         TYPE factor = DIV_FN(lu[i * n + k], pivot);                                \
@@ -276,8 +286,8 @@
     }
 
 // Generate det implementations
-DET_OP(f32_t, f32)
-DET_OP(f64_t, f64)
+DET_OP(f32_t, f32, f32_t, LINALG_AS_IS)
+DET_OP(f64_t, f64, f64_t, LINALG_AS_IS)
 DET_OP_EXOTIC(f8e4m3_t, f8e4m3, F8E4M3_ZERO, F8E4M3_ONE, f8e4m3_add, f8e4m3_sub, f8e4m3_mul,
               f8e4m3_div, f8e4m3_neg, f8e4m3_abs, f8e4m3_lt)
 DET_OP_EXOTIC(f8e5m2_t, f8e5m2, F8E5M2_ZERO, F8E5M2_ONE, f8e5m2_add, f8e5m2_sub, f8e5m2_mul,
@@ -286,14 +296,14 @@ DET_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, BF16_ONE, bf16_add, bf16_sub, bf16_mul, b
               bf16_abs, bf16_lt)
 DET_OP_EXOTIC(f16_t, f16, F16_ZERO, F16_ONE, f16_add, f16_sub, f16_mul, f16_div, f16_neg, f16_abs,
               f16_lt)
-DET_OP(int8_t, i8)
-DET_OP(int16_t, i16)
-DET_OP(int32_t, i32)
-DET_OP(int64_t, i64)
-DET_OP(uint8_t, u8)
-DET_OP(uint16_t, u16)
-DET_OP(uint32_t, u32)
-DET_OP(uint64_t, u64)
+DET_OP(int8_t, i8, double, LINALG_ROUND)
+DET_OP(int16_t, i16, double, LINALG_ROUND)
+DET_OP(int32_t, i32, double, LINALG_ROUND)
+DET_OP(int64_t, i64, double, LINALG_ROUND)
+DET_OP(uint8_t, u8, double, LINALG_ROUND)
+DET_OP(uint16_t, u16, double, LINALG_ROUND)
+DET_OP(uint32_t, u32, double, LINALG_ROUND)
+DET_OP(uint64_t, u64, double, LINALG_ROUND)
 
 // ============================================================================
 // MATRIX INVERSE (INV)
@@ -318,7 +328,7 @@ DET_OP(uint64_t, u64)
     ((output)[(batch_offset) + (row) * (n) + (col)] = (value))
 
 /// Macro for matrix inverse operation
-#define INV_OP(TYPE, TYPE_SUFFIX)                                                                  \
+#define INV_OP(TYPE, TYPE_SUFFIX, ACC, FROM_ACC)                                                   \
     void hodu_cpu_inv_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const TYPE *input = (const TYPE *)input_ptr;                                               \
@@ -349,55 +359,58 @@ DET_OP(uint64_t, u64)
             size_t out_batch_offset = batch * n * n;                                               \
                                                                                                    \
             if (n == 1) {                                                                          \
-                TYPE a = DET_GET(input, batch_offset, 0, 0, row_stride, col_stride);               \
-                INV_SET(output, out_batch_offset, 0, 0, n, (TYPE)1 / a);                           \
+                ACC a = DET_GET(input, batch_offset, 0, 0, row_stride, col_stride);                \
+                INV_SET(output, out_batch_offset, 0, 0, n, FROM_ACC((ACC)1 / a));                  \
             } else if (n == 2) {                                                                   \
-                TYPE a = DET_GET(input, batch_offset, 0, 0, row_stride, col_stride);               \
-                TYPE b = DET_GET(input, batch_offset, 0, 1, row_stride, col_stride);               \
-                TYPE c = DET_GET(input, batch_offset, 1, 0, row_stride, col_stride);               \
-                TYPE d_val = DET_GET(input, batch_offset, 1, 1, row_stride, col_stride);           \
-                TYPE det = a * d_val - b * c;                                                      \
-                TYPE inv_det = (TYPE)1 / det;                                                      \
-                INV_SET(output, out_batch_offset, 0, 0, n, d_val * inv_det);                       \
-                INV_SET(output, out_batch_offset, 0, 1, n, -b * inv_det);                          \
-                INV_SET(output, out_batch_offset, 1, 0, n, -c * inv_det);                          \
-                INV_SET(output, out_batch_offset, 1, 1, n, a * inv_det);                           \
+                ACC a = DET_GET(input, batch_offset, 0, 0, row_stride, col_stride);                \
+                ACC b = DET_GET(input, batch_offset, 0, 1, row_stride, col_stride);                \
+                ACC c = DET_GET(input, batch_offset, 1, 0, row_stride, col_stride);                \
+                ACC d_val = DET_GET(input, batch_offset, 1, 1, row_stride, col_stride);            \
+                ACC det = a * d_val - b * c;                                                       \
+                ACC inv_det = (ACC)1 / det;                                                        \
+                INV_SET(output, out_batch_offset, 0, 0, n, FROM_ACC(d_val *inv_det));              \
+                INV_SET(output, out_batch_offset, 0, 1, n, FROM_ACC(-b *inv_det));                 \
+                INV_SET(output, out_batch_offset, 1, 0, n, FROM_ACC(-c *inv_det));                 \
+                INV_SET(output, out_batch_offset, 1, 1, n, FROM_ACC(a *inv_det));                  \
             } else if (n == 3) {                                                                   \
                 /* 3x3 inverse using adjugate/determinant method */                                \
-                TYPE a = DET_GET(input, batch_offset, 0, 0, row_stride, col_stride);               \
-                TYPE b = DET_GET(input, batch_offset, 0, 1, row_stride, col_stride);               \
-                TYPE c = DET_GET(input, batch_offset, 0, 2, row_stride, col_stride);               \
-                TYPE d_val = DET_GET(input, batch_offset, 1, 0, row_stride, col_stride);           \
-                TYPE e = DET_GET(input, batch_offset, 1, 1, row_stride, col_stride);               \
-                TYPE f = DET_GET(input, batch_offset, 1, 2, row_stride, col_stride);               \
-                TYPE g = DET_GET(input, batch_offset, 2, 0, row_stride, col_stride);               \
-                TYPE h = DET_GET(input, batch_offset, 2, 1, row_stride, col_stride);               \
-                TYPE i = DET_GET(input, batch_offset, 2, 2, row_stride, col_stride);               \
-                                                                                                   \
-                TYPE det =                                                                         \
-                    a * (e * i - f * h) - b * (d_val * i - f * g) + c * (d_val * h - e * g);       \
-                TYPE inv_det = (TYPE)1 / det;                                                      \
+                ACC a = DET_GET(input, batch_offset, 0, 0, row_stride, col_stride);                \
+                ACC b = DET_GET(input, batch_offset, 0, 1, row_stride, col_stride);                \
+                ACC c = DET_GET(input, batch_offset, 0, 2, row_stride, col_stride);                \
+                ACC d_val = DET_GET(input, batch_offset, 1, 0, row_stride, col_stride);            \
+                ACC e = DET_GET(input, batch_offset, 1, 1, row_stride, col_stride);                \
+                ACC f = DET_GET(input, batch_offset, 1, 2, row_stride, col_stride);                \
+                ACC g = DET_GET(input, batch_offset, 2, 0, row_stride, col_stride);                \
+                ACC h = DET_GET(input, batch_offset, 2, 1, row_stride, col_stride);                \
+                ACC i = DET_GET(input, batch_offset, 2, 2, row_stride, col_stride);                \
+                                                                                                   \
+                ACC det = a * (e * i - f * h) - b * (d_val * i - f * g) + c * (d_val * h - e * g); \
+                ACC inv_det = (ACC)1 / det;                                                        \
                                                                                                    \
                 /* Adjugate matrix / det */                                                        \
-                INV_SET(output, out_batch_offset, 0, 0, n, (e * i - f * h) * inv_det);             \
-                INV_SET(output, out_batch_offset, 0, 1, n, (c * h - b * i) * inv_det);             \
-                INV_SET(output, out_batch_offset, 0, 2, n, (b * f - c * e) * inv_det);             \
-                INV_SET(output, out_batch_offset, 1, 0, n, (f * g - d_val * i) * inv_det);         \
-                INV_SET(output, out_batch_offset, 1, 1, n, (a * i - c * g) * inv_det);             \
-                INV_SET(output, out_batch_offset, 1, 2, n, (c * d_val - a * f) * inv_det);         \
-                INV_SET(output, out_batch_offset, 2, 0, n, (d_val * h - e * g) * inv_det);         \
-                INV_SET(output, out_batch_offset, 2, 1, n, (b * g - a * h) * inv_det);             \
-                INV_SET(output, out_batch_offset, 2, 2, n, (a * e - b * d_val) * inv_det);         \
+                INV_SET(output, out_batch_offset, 0, 0, n, FROM_ACC((e * i - f * h) * inv_det));   \
+                INV_SET(output, out_batch_offset, 0, 1, n, FROM_ACC((c * h - b * i) * inv_det));   \
+                INV_SET(output, out_batch_offset, 0, 2, n, FROM_ACC((b * f - c * e) * inv_det));   \
+                INV_SET(output, out_batch_offset, 1, 0, n,                                         \
+                        FROM_ACC((f * g - d_val * i) * inv_det));                                  \
+                INV_SET(output, out_batch_offset, 1, 1, n, FROM_ACC((a * i - c * g) * inv_det));   \
+                INV_SET(output, out_batch_offset, 1, 2, n,                                         \
+                        FROM_ACC((c * d_val - a * f) * inv_det));                                  \
+                INV_SET(output, out_batch_offset, 2, 0, n,                                         \
+                        FROM_ACC((d_val * h - e * g) * inv_det));                                  \
+                INV_SET(output, out_batch_offset, 2, 1, n, FROM_ACC((b * g - a * h) * inv_det));   \
+                INV_SET(output, out_batch_offset, 2, 2, n,                                         \
+                        FROM_ACC((a * e - b * d_val) * inv_det));                                  \
             } else {                                                                               \
                 /* Gauss-Jordan elimination for NxN */                                             \
-                TYPE *aug = (TYPE *)malloc(n * 2 * n * sizeof(TYPE));                              \
+                ACC *aug = (ACC *)malloc(n * 2 * n * sizeof(ACC));                                 \
                                                                                                    \
                 /* Initialize augmented matrix [A | I] */                                          \
                 for (size_t ii = 0; ii < n; ii++) {                                                \
                     for (size_t jj = 0; jj < n; jj++) {                                            \
                         aug[ii * 2 * n + jj] =                                                     \
                             DET_GET(input, batch_offset, ii, jj, row_stride, col_stride);          \
-                        aug[ii * 2 * n + n + jj] = (ii == jj) ? (TYPE)1 : (TYPE)0;                 \
+                        aug[ii * 2 * n + n + jj] = (ii == jj) ? (ACC)1 : (ACC)0;                   \
                     }                                                                              \
                 }                                                                                  \
                                                                                                    \
@@ -405,12 +418,12 @@ DET_OP(uint64_t, u64)
                 for (size_t k = 0; k < n; k++) {                                                   \
                     /* Find pivot */                                                               \
                     size_t pivot_row = k;                                                          \
-                    TYPE max_val = aug[k * 2 * n + k];                                             \
+                    ACC max_val = aug[k * 2 * n + k];                                              \
                     if (max_val < 0)                                                               \
                         max_val = -max_val;                                                        \
                                                                                                    \
                     for (size_t ii = k + 1; ii < n; ii++) {                                        \
-                        TYPE val = aug[ii * 2 * n + k];                                            \
+                        ACC val = aug[ii * 2 * n + k];                                             \
                         if (val < 0)                                                               \
                             val = -val;                                                            \
                         if (val > max_val) {                                                       \
@@ -422,14 +435,14 @@ DET_OP(uint64_t, u64)
                     /* Swap rows if needed */                                                      \
                     if (pivot_row != k) {                                                          \
                         for (size_t jj = 0; jj < 2 * n; jj++) {                                    \
-                            TYPE tmp = aug[k * 2 * n + jj];                                        \
+                            ACC tmp = aug[k * 2 * n + jj];                                         \
                             aug[k * 2 * n + jj] = aug[pivot_row * 2 * n + jj];                     \
                             aug[pivot_row * 2 * n + jj] = tmp;                                     \
                         }                                                                          \
                     }                                                                              \
                                                                                                    \
                     /* Scale pivot row */                                                          \
-                    TYPE pivot = aug[k * 2 * n + k];                                               \
+                    ACC pivot = aug[k * 2 * n + k];                                                \
                     for (size_t jj = 0; jj < 2 * n; jj++) {                                        \
                         aug[k * 2 * n + jj] /= pivot;                                              \
                     }                                                                              \
@@ -437,7 +450,7 @@ DET_OP(uint64_t, u64)
                     /* Eliminate column k in other rows */                                         \
                     for (size_t ii = 0; ii < n; ii++) {                                            \
                         if (ii != k) {                                                             \
-                            TYPE factor = aug[ii * 2 * n + k];                                     \
+                            ACC factor = aug[ii * 2 * n + k];                                      \
                             for (size_t jj = 0; jj < 2 * n; jj++) {                                \
                                 aug[ii * 2 * n + jj] -= factor * aug[k * 2 * n + jj];              \
                             }                                                                      \
@@ -448,7 +461,8 @@ DET_OP(uint64_t, u64)
                 /* Copy result from right half of augmented matrix */                              \
                 for (size_t ii = 0; ii < n; ii++) {                                                \
                     for (size_t jj = 0; jj < n; jj++) {                                            \
-                        INV_SET(output, out_batch_offset, ii, jj, n, aug[ii * 2 * n + n + jj]);    \
+                        INV_SET(output, out_batch_offset, ii, jj, n,                               \
+                                FROM_ACC(aug[ii * 2 * n + n + jj]));                               \
                     }                                                                              \
                 }                                                                                  \
                                                                                                    \
@@ -598,8 +612,8 @@ DET_OP(uint64_t, u64)
     }
 
 // Generate inv implementations
-INV_OP(f32_t, f32)
-INV_OP(f64_t, f64)
+INV_OP(f32_t, f32, f32_t, LINALG_AS_IS)
+INV_OP(f64_t, f64, f64_t, LINALG_AS_IS)
 INV_OP_EXOTIC(f8e4m3_t, f8e4m3, F8E4M3_ZERO, F8E4M3_ONE, f8e4m3_add, f8e4m3_sub, f8e4m3_mul,
               f8e4m3_div, f8e4m3_neg, f8e4m3_abs, f8e4m3_lt)
 INV_OP_EXOTIC(f8e5m2_t, f8e5m2, F8E5M2_ZERO, F8E5M2_ONE, f8e5m2_add, f8e5m2_sub, f8e5m2_mul,
@@ -608,14 +622,14 @@ INV_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, BF16_ONE, bf16_add, bf16_sub, bf16_mul, b
               bf16_abs, bf16_lt)
 INV_OP_EXOTIC(f16_t, f16, F16_ZERO, F16_ONE, f16_add, f16_sub, f16_mul, f16_div, f16_neg, f16_abs,
               f16_lt)
-INV_OP(int8_t, i8)
-INV_OP(int16_t, i16)
-INV_OP(int32_t, i32)
-INV_OP(int64_t, i64)
-INV_OP(uint8_t, u8)
-INV_OP(uint16_t, u16)
-INV_OP(uint32_t, u32)
-INV_OP(uint64_t, u64)
+INV_OP(int8_t, i8, double, LINALG_ROUND)
+INV_OP(int16_t, i16, double, LINALG_ROUND)
+INV_OP(int32_t, i32, double, LINALG_ROUND)
+INV_OP(int64_t, i64, double, LINALG_ROUND)
+INV_OP(uint8_t, u8, double, LINALG_ROUND)
+INV_OP(uint16_t, u16, double, LINALG_ROUND)
+INV_OP(uint32_t, u32, double, LINALG_ROUND)
+INV_OP(uint64_t, u64, double, LINALG_ROUND)
 
 // ============================================================================
 // MATRIX TRACE
-- 
2.43.0


From 9a3af7719c0147c9eab8b93cdec81225eafde660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 20/49] fix: BLAS matmul: order of several batch dimensions,
 broadcast operands

---
 .../ops_matrix_blas_aarch64_apple_darwin.c    | 34 +++++---
 .../kernels/ops_matrix_openblas.c             | 78 ++++++++++++-------
 2 files changed, 72 insertions(+), 40 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
index ebec0b5..975cbb3 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_blas_aarch64_apple_darwin.c
@@ -100,12 +100,17 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Align batch dimensions from the right; missing or size-1 dimensions broadcast
+                    if (i + lhs_ndim > batch_ndim + 2) {
+                        size_t lhs_axis = i + lhs_ndim - batch_ndim - 3;
+                        size_t lhs_dim_idx = (lhs_shape[lhs_axis] == 1) ? 0 : dim_idx;
+                        lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_axis];
+                    }
+                    if (i + rhs_ndim > batch_ndim + 2) {
+                        size_t rhs_axis = i + rhs_ndim - batch_ndim - 3;
+                        size_t rhs_dim_idx = (rhs_shape[rhs_axis] == 1) ? 0 : dim_idx;
+                        rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_axis];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -201,12 +206,17 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Align batch dimensions from the right; missing or size-1 dimensions broadcast
+                    if (i + lhs_ndim > batch_ndim + 2) {
+                        size_t lhs_axis = i + lhs_ndim - batch_ndim - 3;
+                        size_t lhs_dim_idx = (lhs_shape[lhs_axis] == 1) ? 0 : dim_idx;
+                        lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_axis];
+                    }
+                    if (i + rhs_ndim > batch_ndim + 2) {
+                        size_t rhs_axis = i + rhs_ndim - batch_ndim - 3;
+                        size_t rhs_dim_idx = (rhs_shape[rhs_axis] == 1) ? 0 : dim_idx;
+                        rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_axis];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
index 50bd87e..68ee769 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
@@ -44,10 +44,15 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     // Determine matrix layouts and transpose flags
     // Row-major: innermost (last) stride is 1
     // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // Rows (columns) that overlap, as in a broadcast view, have no valid leading dimension
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1) && (M == 1 || lhs_strides[lhs_ndim - 2] >= K);
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1) && (K == 1 || lhs_strides[lhs_ndim - 1] >= M);
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1) && (K == 1 || rhs_strides[rhs_ndim - 2] >= N);
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1) && (N == 1 || rhs_strides[rhs_ndim - 1] >= K);
 
     // Can use BLAS if either row-major or col-major (transposed)
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
@@ -126,12 +131,17 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Align batch dimensions from the right; missing or size-1 dimensions broadcast
+                    if (i + lhs_ndim > batch_ndim + 2) {
+                        size_t lhs_axis = i + lhs_ndim - batch_ndim - 3;
+                        size_t lhs_dim_idx = (lhs_shape[lhs_axis] == 1) ? 0 : dim_idx;
+                        lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_axis];
+                    }
+                    if (i + rhs_ndim > batch_ndim + 2) {
+                        size_t rhs_axis = i + rhs_ndim - batch_ndim - 3;
+                        size_t rhs_dim_idx = (rhs_shape[rhs_axis] == 1) ? 0 : dim_idx;
+                        rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_axis];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -179,10 +189,15 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    // Rows (columns) that overlap, as in a broadcast view, have no valid leading dimension
+    bool lhs_row_major =
+        (lhs_strides[lhs_ndim - 1] == 1) && (M == 1 || lhs_strides[lhs_ndim - 2] >= K);
+    bool lhs_col_major =
+        (lhs_strides[lhs_ndim - 2] == 1) && (K == 1 || lhs_strides[lhs_ndim - 1] >= M);
+    bool rhs_row_major =
+        (rhs_strides[rhs_ndim - 1] == 1) && (K == 1 || rhs_strides[rhs_ndim - 2] >= N);
+    bool rhs_col_major =
+        (rhs_strides[rhs_ndim - 2] == 1) && (N == 1 || rhs_strides[rhs_ndim - 1] >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -256,12 +271,17 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Align batch dimensions from the right; missing or size-1 dimensions broadcast
+                    if (i + lhs_ndim > batch_ndim + 2) {
+                        size_t lhs_axis = i + lhs_ndim - batch_ndim - 3;
+                        size_t lhs_dim_idx = (lhs_shape[lhs_axis] == 1) ? 0 : dim_idx;
+                        lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_axis];
+                    }
+                    if (i + rhs_ndim > batch_ndim + 2) {
+                        size_t rhs_axis = i + rhs_ndim - batch_ndim - 3;
+                        size_t rhs_dim_idx = (rhs_shape[rhs_axis] == 1) ? 0 : dim_idx;
+                        rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_axis];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
@@ -304,10 +324,11 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    // Rows (columns) that overlap, as in a broadcast view, have no valid leading dimension
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -361,10 +382,11 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    // Rows (columns) that overlap, as in a broadcast view, have no valid leading dimension
+    bool lhs_row_major = (lhs_stride_k == 1) && (M == 1 || lhs_stride_m >= K);
+    bool lhs_col_major = (lhs_stride_m == 1) && (K == 1 || lhs_stride_k >= M);
+    bool rhs_row_major = (rhs_stride_n == 1) && (K == 1 || rhs_stride_k >= N);
+    bool rhs_col_major = (rhs_stride_k == 1) && (N == 1 || rhs_stride_n >= K);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-- 
2.43.0


From c8506764ab04219be87f97167547f8ea88b3f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 21/49] fix: BLAS conv2d multiplies im2col columns in the right
 order

---
 .../ops_conv_blas_aarch64_apple_darwin.c      | 16 +++++-----
 .../kernels/ops_conv_openblas.c               | 32 +++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c b/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
index bd0afb8..510a1cf 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_blas_aarch64_apple_darwin.c
@@ -130,8 +130,8 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -187,8 +187,8 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -274,8 +274,8 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -361,8 +361,8 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
index 6c10fad..9fed650 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
@@ -110,7 +110,7 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K], one row per output position
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -126,12 +126,12 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -167,7 +167,7 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K], one row per output position
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -183,12 +183,12 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -254,7 +254,7 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K], one row per output position
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f32_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -270,12 +270,12 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -341,7 +341,7 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K], one row per output position
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f64_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -357,12 +357,12 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
-- 
2.43.0


From 4bb254d599a8f1cc4408faf91999c98fa771a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 22/49] fix: convolutions: strided operands, transposed weight
 layout and extents, output padding, input gradients

---
 crates/hodu_core/src/be/storage.rs            |  7 +++
 crates/hodu_core/src/be_cpu/storage.rs        |  2 +
 .../hodu_core/src/be_cpu/storage/ops_conv.rs  | 55 +++++++++++-----
 crates/hodu_core/src/be_cuda/storage.rs       | 13 +++-
 .../hodu_core/src/be_cuda/storage/ops_conv.rs | 15 ++++-
 crates/hodu_core/src/be_metal/storage.rs      |  2 +
 .../src/be_metal/storage/ops_conv.rs          | 16 ++++-
 .../hodu_core/src/tensor/gradient/vjp_conv.rs | 63 ++++++++++++++-----
 crates/hodu_core/src/tensor/ops/conv.rs       | 39 +++++++-----
 9 files changed, 160 insertions(+), 52 deletions(-)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index b469a4f..299f27e 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -108,6 +108,7 @@ pub trait BackendStorageT: Sized {
         _axis: Option<usize>,
     ) -> HoduResult<(Self, usize)>;
 
+    #[allow(clippy::too_many_arguments)]
     fn call_ops_conv(
         &self,
         _: &Layout,
@@ -116,6 +117,7 @@ pub trait BackendStorageT: Sized {
         _: &[usize],
         _: &[usize],
         _: &[usize],
+        _: &[usize],
         _: Op,
     ) -> HoduResult<Self>;
 
@@ -1026,6 +1028,7 @@ impl BackendStorage {
         }
     }
 
+    #[allow(clippy::too_many_arguments)]
     pub(crate) fn call_ops_conv(
         &self,
         layout: &Layout,
@@ -1033,6 +1036,7 @@ impl BackendStorage {
         weight_layout: &Layout,
         stride: &[usize],
         padding: &[usize],
+        output_padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
@@ -1053,6 +1057,7 @@ impl BackendStorage {
                 weight_layout,
                 stride,
                 padding,
+                output_padding,
                 dilation,
                 op,
             )?)),
@@ -1063,6 +1068,7 @@ impl BackendStorage {
                 weight_layout,
                 stride,
                 padding,
+                output_padding,
                 dilation,
                 op,
             )?)),
@@ -1073,6 +1079,7 @@ impl BackendStorage {
                 weight_layout,
                 stride,
                 padding,
+                output_padding,
                 dilation,
                 op,
             )?)),
diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 5ea7db2..6453d6b 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -598,6 +598,7 @@ impl BackendStorageT for CpuStorage {
         weight_layout: &Layout,
         stride: &[usize],
         padding: &[usize],
+        output_padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
@@ -608,6 +609,7 @@ impl BackendStorageT for CpuStorage {
             weight_layout,
             stride,
             padding,
+            output_padding,
             dilation,
             op,
         )
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 79cd064..6872ba8 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -16,6 +16,7 @@ use core::ffi::c_void;
 /// * `weight_layout` - Weight tensor layout
 /// * `stride` - Stride values
 /// * `padding` - Padding values
+/// * `output_padding` - Extra extent of the output (transposed convolutions only)
 /// * `dilation` - Dilation values
 /// * `op` - The convolution operation
 ///
@@ -29,6 +30,7 @@ pub fn call_ops_conv(
     weight_layout: &Layout,
     stride: &[usize],
     padding: &[usize],
+    output_padding: &[usize],
     dilation: &[usize],
     op: Op,
 ) -> HoduResult<CpuStorage> {
@@ -38,6 +40,17 @@ pub fn call_ops_conv(
         _ => return Err(HoduError::BackendError("Lcall_convE expects LConvE op".to_string())),
     };
 
+    let transposed = matches!(
+        conv_op,
+        ConvOp::ConvTranspose1d | ConvOp::ConvTranspose2d | ConvOp::ConvTranspose3d
+    );
+
+    // The kernels read both operands as contiguous
+    let input_storage = &input_storage.contiguous(input_layout)?;
+    let input_layout = &Layout::from_shape(input_layout.shape());
+    let weight_storage = &weight_storage.contiguous(weight_layout)?;
+    let weight_layout = &Layout::from_shape(weight_layout.shape());
+
     // Validate dtypes match
     if input_storage.dtype() != weight_storage.dtype() {
         return Err(HoduError::DTypeMismatch {
@@ -68,7 +81,7 @@ pub fn call_ops_conv(
         )));
     }
 
-    // Validate weight shape: [out_channels, in_channels, kernel...]
+    // Validate weight shape: [out_channels, in_channels, kernel...], transposed: [in_channels, out_channels, kernel...]
     let weight_ndim = weight_shape.ndim();
     if weight_ndim != (2 + spatial_dims) {
         return Err(HoduError::BackendError(format!(
@@ -80,14 +93,17 @@ pub fn call_ops_conv(
 
     let batch_size = input_shape.dims()[0];
     let in_channels = input_shape.dims()[1];
-    let out_channels = weight_shape.dims()[0];
+    let (out_channels, weight_in_channels) = if transposed {
+        (weight_shape.dims()[1], weight_shape.dims()[0])
+    } else {
+        (weight_shape.dims()[0], weight_shape.dims()[1])
+    };
 
     // Validate in_channels match
-    if weight_shape.dims()[1] != in_channels {
+    if weight_in_channels != in_channels {
         return Err(HoduError::BackendError(format!(
             "weight in_channels {} does not match input in_channels {}",
-            weight_shape.dims()[1],
-            in_channels
+            weight_in_channels, in_channels
         )));
     }
 
@@ -100,9 +116,9 @@ pub fn call_ops_conv(
             let padding_w = padding[0];
             let dilation_w = dilation[0];
 
-            let out_width = if matches!(conv_op, ConvOp::ConvTranspose1d) {
+            let out_width = if transposed {
                 // Transposed convolution
-                (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1
+                (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[0] + 1 - 2 * padding_w
             } else {
                 // Standard convolution
                 (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1
@@ -134,10 +150,12 @@ pub fn call_ops_conv(
             let dilation_h = dilation[0];
             let dilation_w = dilation[1];
 
-            let (out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose2d) {
+            let (out_height, out_width) = if transposed {
                 // Transposed convolution
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
+                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + output_padding[0] + 1
+                    - 2 * padding_h;
+                let out_w =
+                    (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[1] + 1 - 2 * padding_w;
                 (out_h, out_w)
             } else {
                 // Standard convolution
@@ -177,11 +195,14 @@ pub fn call_ops_conv(
             let dilation_h = dilation[1];
             let dilation_w = dilation[2];
 
-            let (out_depth, out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose3d) {
+            let (out_depth, out_height, out_width) = if transposed {
                 // Transposed convolution
-                let out_d = (in_depth - 1) * stride_d - 2 * padding_d + dilation_d * (kernel_depth - 1) + 1;
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
+                let out_d =
+                    (in_depth - 1) * stride_d + dilation_d * (kernel_depth - 1) + output_padding[0] + 1 - 2 * padding_d;
+                let out_h = (in_height - 1) * stride_h + dilation_h * (kernel_height - 1) + output_padding[1] + 1
+                    - 2 * padding_h;
+                let out_w =
+                    (in_width - 1) * stride_w + dilation_w * (kernel_width - 1) + output_padding[2] + 1 - 2 * padding_w;
                 (out_d, out_h, out_w)
             } else {
                 // Standard convolution
@@ -295,6 +316,12 @@ pub fn call_ops_conv_grad_weight(
         },
     };
 
+    // The kernels read both operands as contiguous
+    let input_storage = &input_storage.contiguous(input_layout)?;
+    let input_layout = &Layout::from_shape(input_layout.shape());
+    let grad_output_storage = &grad_output_storage.contiguous(grad_output_layout)?;
+    let grad_output_layout = &Layout::from_shape(grad_output_layout.shape());
+
     // Validate dtypes match
     if input_storage.dtype() != grad_output_storage.dtype() {
         return Err(HoduError::DTypeMismatch {
diff --git a/crates/hodu_core/src/be_cuda/storage.rs b/crates/hodu_core/src/be_cuda/storage.rs
index 3269532..ab9e897 100644
--- a/crates/hodu_core/src/be_cuda/storage.rs
+++ b/crates/hodu_core/src/be_cuda/storage.rs
@@ -484,10 +484,21 @@ impl BackendStorageT for CudaStorage {
         weight_layout: &Layout,
         stride: &[usize],
         padding: &[usize],
+        output_padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
-        ops_conv::call_ops_conv(self, layout, weight, weight_layout, stride, padding, dilation, op)
+        ops_conv::call_ops_conv(
+            self,
+            layout,
+            weight,
+            weight_layout,
+            stride,
+            padding,
+            output_padding,
+            dilation,
+            op,
+        )
     }
 
     fn call_ops_conv_grad_weight(
diff --git a/crates/hodu_core/src/be_cuda/storage/ops_conv.rs b/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
index e95ca1b..f726ab9 100644
--- a/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
@@ -2,7 +2,7 @@ use crate::{
     be::storage::BackendStorageT,
     be_cuda::storage::{CudaStorage, CudaStorageData},
     error::{HoduError, HoduResult},
-    ops::Op,
+    ops::{ConvOp, Op},
     types::Layout,
 };
 use hodu_cuda_kernels::{cuda::CudaSlice, kernels};
@@ -15,6 +15,7 @@ pub fn call_ops_conv(
     weight_layout: &Layout,
     stride: &[usize],
     padding: &[usize],
+    output_padding: &[usize],
     dilation: &[usize],
     op: Op,
 ) -> HoduResult<CudaStorage> {
@@ -27,7 +28,11 @@ pub fn call_ops_conv(
     let weight_shape = weight_layout.shape();
 
     let batch_size = input_shape[0];
-    let out_channels = weight_shape[0];
+    let transposed = matches!(
+        conv_op,
+        ConvOp::ConvTranspose1d | ConvOp::ConvTranspose2d | ConvOp::ConvTranspose3d
+    );
+    let out_channels = if transposed { weight_shape[1] } else { weight_shape[0] };
 
     let spatial_dims = input_shape.ndim() - 2;
     let mut output_shape_vec = Vec::with_capacity(spatial_dims + 2);
@@ -37,7 +42,11 @@ pub fn call_ops_conv(
     for i in 0..spatial_dims {
         let input_size = input_shape[2 + i];
         let kernel_size = weight_shape[2 + i];
-        let output_size = (input_size + 2 * padding[i] - dilation[i] * (kernel_size - 1) - 1) / stride[i] + 1;
+        let output_size = if transposed {
+            (input_size - 1) * stride[i] + dilation[i] * (kernel_size - 1) + output_padding[i] + 1 - 2 * padding[i]
+        } else {
+            (input_size + 2 * padding[i] - dilation[i] * (kernel_size - 1) - 1) / stride[i] + 1
+        };
         output_shape_vec.push(output_size);
     }
 
diff --git a/crates/hodu_core/src/be_metal/storage.rs b/crates/hodu_core/src/be_metal/storage.rs
index cda3dd8..4e2843a 100644
--- a/crates/hodu_core/src/be_metal/storage.rs
+++ b/crates/hodu_core/src/be_metal/storage.rs
@@ -406,6 +406,7 @@ impl BackendStorageT for MetalStorage {
         weight_layout: &Layout,
         stride: &[usize],
         padding: &[usize],
+        output_padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
@@ -416,6 +417,7 @@ impl BackendStorageT for MetalStorage {
             weight_layout,
             stride,
             padding,
+            output_padding,
             dilation,
             op,
         )
diff --git a/crates/hodu_core/src/be_metal/storage/ops_conv.rs b/crates/hodu_core/src/be_metal/storage/ops_conv.rs
index a28a7bc..e14b534 100644
--- a/crates/hodu_core/src/be_metal/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_metal/storage/ops_conv.rs
@@ -2,7 +2,7 @@ use crate::{
     be::storage::BackendStorageT,
     be_metal::storage::MetalStorage,
     error::{HoduError, HoduResult},
-    ops::Op,
+    ops::{ConvOp, Op},
     types::{Layout, Shape},
 };
 use hodu_metal_kernels::{kernels, utils::BufferOffset};
@@ -15,6 +15,7 @@ pub fn call_ops_conv(
     weight_layout: &Layout,
     stride: &[usize],
     padding: &[usize],
+    output_padding: &[usize],
     dilation: &[usize],
     op: Op,
 ) -> HoduResult<MetalStorage> {
@@ -38,7 +39,12 @@ pub fn call_ops_conv(
     let spatial_dims = input_ndim - 2;
 
     // Compute output spatial dimensions
-    let mut output_shape_vec: Vec<usize> = vec![input_shape.dims()[0], weight_shape.dims()[0]];
+    let transposed = matches!(
+        conv_op,
+        ConvOp::ConvTranspose1d | ConvOp::ConvTranspose2d | ConvOp::ConvTranspose3d
+    );
+    let out_channels = weight_shape.dims()[if transposed { 1 } else { 0 }];
+    let mut output_shape_vec: Vec<usize> = vec![input_shape.dims()[0], out_channels];
 
     for i in 0..spatial_dims {
         let input_size = input_shape.dims()[2 + i];
@@ -47,7 +53,11 @@ pub fn call_ops_conv(
         let p = padding[i];
         let d = dilation[i];
 
-        let output_size = (input_size + 2 * p - d * (kernel_size - 1) - 1) / s + 1;
+        let output_size = if transposed {
+            (input_size - 1) * s + d * (kernel_size - 1) + output_padding[i] + 1 - 2 * p
+        } else {
+            (input_size + 2 * p - d * (kernel_size - 1) - 1) / s + 1
+        };
         output_shape_vec.push(output_size);
     }
 
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
index abbadb7..0b93ab0 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
@@ -2,9 +2,37 @@ use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
     ops::{ConvOp, OpParams},
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
+/// Largest number of trailing input positions that no window of a strided convolution reaches
+fn extent_not_covered(
+    input: &Tensor,
+    grad_output: &Tensor,
+    weight: &Tensor,
+    stride: usize,
+    padding: usize,
+    dilation: usize,
+) -> usize {
+    let (input, output, kernel) = (input.shape(), grad_output.shape(), weight.shape());
+    (2..input.ndim())
+        .map(|i| input[i] + 2 * padding - ((output[i] - 1) * stride + dilation * (kernel[i] - 1) + 1))
+        .max()
+        .unwrap_or(0)
+}
+
+/// Cut the spatial extents of a gradient back to those of the input
+fn crop_to_input(grad: Tensor, input: &Tensor) -> HoduResult<Tensor> {
+    let shape = input.shape();
+    let mut grad = grad;
+    for i in 2..shape.ndim() {
+        if grad.shape()[i] > shape[i] {
+            grad = grad.slice(i as i32, 0, Some(shape[i] as i32), 1)?;
+        }
+    }
+    Ok(grad)
+}
+
 impl VjpCompute for ConvOp {
     fn compute_vjp(
         &self,
@@ -38,11 +66,12 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv1d weight: [Co, Ci, K], Conv_transpose1d (backend): w [Co_out, Ci_in, K]
-                // Transpose needed: [Co, Ci, K] -> [Ci, Co, K]
-                let weight_transposed = weight.transpose(0, 1)?;
-                let grad_input =
-                    grad_output_tensor.conv_transpose1d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv1d weight [Co, Ci, ...] is what Conv_transpose1d takes as [C_in, C_out, ...]
+                let rest = extent_not_covered(&input, &grad_output_tensor, &weight, stride, padding, dilation);
+                let grad_input = crop_to_input(
+                    grad_output_tensor.conv_transpose1d(&weight, stride, padding, rest, dilation)?,
+                    &input,
+                )?;
 
                 // Gradient w.r.t. weight: conv1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_output, channels_input, kernel_size];
@@ -78,11 +107,12 @@ impl VjpCompute for ConvOp {
                 // Gradient w.r.t. input: use transposed convolution
                 // Conv2d: x [N, Ci, H, W] * w [Co, Ci, K, K] -> y [N, Co, H', W']
                 // Backward: grad_y [N, Co, H', W'] -> grad_x [N, Ci, H, W]
-                // Conv_transpose2d (backend): input [N, Ci_in, H, W] * w [Co_out, Ci_in, K, K] -> output [N, Co_out, H', W']
-                // For backward: grad_y [N, Co, H', W'] needs w [Ci, Co, K, K] (transpose needed!)
-                let weight_transposed = weight.transpose(0, 1)?; // [Co, Ci, K, K] -> [Ci, Co, K, K]
-                let grad_input =
-                    grad_output_tensor.conv_transpose2d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv2d weight [Co, Ci, ...] is what Conv_transpose2d takes as [C_in, C_out, ...]
+                let rest = extent_not_covered(&input, &grad_output_tensor, &weight, stride, padding, dilation);
+                let grad_input = crop_to_input(
+                    grad_output_tensor.conv_transpose2d(&weight, stride, padding, rest, dilation)?,
+                    &input,
+                )?;
 
                 // Gradient w.r.t. weight: conv2d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape_vec = vec![channels_output, channels_input, kernel_height, kernel_width];
@@ -117,11 +147,12 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv3d weight: [Co, Ci, Kd, Kh, Kw], Conv_transpose3d (backend): w [Co_out, Ci_in, ...]
-                // Transpose needed: [Co, Ci, ...] -> [Ci, Co, ...]
-                let weight_transposed = weight.transpose(0, 1)?;
-                let grad_input =
-                    grad_output_tensor.conv_transpose3d(&weight_transposed, stride, padding, 0, dilation)?;
+                // Conv3d weight [Co, Ci, ...] is what Conv_transpose3d takes as [C_in, C_out, ...]
+                let rest = extent_not_covered(&input, &grad_output_tensor, &weight, stride, padding, dilation);
+                let grad_input = crop_to_input(
+                    grad_output_tensor.conv_transpose3d(&weight, stride, padding, rest, dilation)?,
+                    &input,
+                )?;
 
                 // Gradient w.r.t. weight: conv3d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index c11a81e..27b0159 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -114,6 +114,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &[0; 1],
                         &dilation_arr,
                         Op::Conv(ConvOp::Conv1d),
                     )
@@ -240,6 +241,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &[0; 2],
                         &dilation_arr,
                         Op::Conv(ConvOp::Conv2d),
                     )
@@ -371,6 +373,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &[0; 3],
                         &dilation_arr,
                         Op::Conv(ConvOp::Conv3d),
                     )
@@ -406,7 +409,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, length]
-        // Weight: [out_channels, in_channels, kernel_size] (same as conv1d)
+        // Weight: [in_channels, out_channels, kernel_size]
         if input_dims.len() != 3 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -425,10 +428,10 @@ impl Tensor {
         let batch_size = input_dims[0];
         let _channels_input = input_dims[1];
         let length_input = input_dims[2];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, K]
         let kernel_size = weight_dims[2];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -445,11 +448,12 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose1d));
 
         let output_length =
-            (length_input - 1) * stride - 2 * padding + dilation * (kernel_size - 1) + output_padding + 1;
+            (length_input - 1) * stride + dilation * (kernel_size - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
         let padding_arr = [padding];
+        let output_padding_arr = [output_padding];
         let dilation_arr = [dilation];
 
         // Calculate layouts before if-else block
@@ -502,6 +506,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &output_padding_arr,
                         &dilation_arr,
                         Op::Conv(ConvOp::ConvTranspose1d),
                     )
@@ -537,7 +542,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, height, width]
-        // Weight: [out_channels, in_channels, kernel_h, kernel_w] (same as conv2d)
+        // Weight: [in_channels, out_channels, kernel_h, kernel_w]
         if input_dims.len() != 4 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -557,11 +562,11 @@ impl Tensor {
         let _channels_input = input_dims[1];
         let input_height = input_dims[2];
         let input_width = input_dims[3];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K, K]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, K, K]
         let kernel_height = weight_dims[2];
         let kernel_width = weight_dims[3];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -578,13 +583,14 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose2d));
 
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            (input_height - 1) * stride + dilation * (kernel_height - 1) + output_padding + 1 - 2 * padding;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            (input_width - 1) * stride + dilation * (kernel_width - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
+        let output_padding_arr = [output_padding; 2];
         let dilation_arr = [dilation; 2];
 
         // Calculate layouts before if-else block
@@ -639,6 +645,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &output_padding_arr,
                         &dilation_arr,
                         Op::Conv(ConvOp::ConvTranspose2d),
                     )
@@ -674,7 +681,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, depth, height, width]
-        // Weight: [out_channels, in_channels, kernel_d, kernel_h, kernel_w] (same as conv3d)
+        // Weight: [in_channels, out_channels, kernel_d, kernel_h, kernel_w]
         if input_dims.len() != 5 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -695,12 +702,12 @@ impl Tensor {
         let input_depth = input_dims[2];
         let input_height = input_dims[3];
         let input_width = input_dims[4];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, ...]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, ...]
         let kernel_depth = weight_dims[2];
         let kernel_height = weight_dims[3];
         let kernel_width = weight_dims[4];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -717,15 +724,16 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose3d));
 
         let output_depth =
-            (input_depth - 1) * stride - 2 * padding + dilation * (kernel_depth - 1) + output_padding + 1;
+            (input_depth - 1) * stride + dilation * (kernel_depth - 1) + output_padding + 1 - 2 * padding;
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            (input_height - 1) * stride + dilation * (kernel_height - 1) + output_padding + 1 - 2 * padding;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            (input_width - 1) * stride + dilation * (kernel_width - 1) + output_padding + 1 - 2 * padding;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
+        let output_padding_arr = [output_padding; 3];
         let dilation_arr = [dilation; 3];
 
         // Calculate layouts before if-else block
@@ -782,6 +790,7 @@ impl Tensor {
                         &weight_layout,
                         &stride_arr,
                         &padding_arr,
+                        &output_padding_arr,
                         &dilation_arr,
                         Op::Conv(ConvOp::ConvTranspose3d),
                     )
-- 
2.43.0


From 899cc5a5a2340c17574909de6ab8d64c68ec6e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 23/49] fix: data loader seed near the end of its range;
 random_split fraction above one

---
 crates/hodu_datasets/src/data/dataloader.rs | 2 +-
 crates/hodu_datasets/src/data/dataset.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index 03d375e..fe91461 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -187,7 +187,7 @@ impl<D: Dataset> DataLoader<D> {
         use rand::rngs::SmallRng;
 
         let length = self.indices.len();
-        let seed_base = self.seed.unwrap_or(0) + self.epoch;
+        let seed_base = self.seed.unwrap_or(0).wrapping_add(self.epoch);
         let mut rng = SmallRng::seed_from_u64(seed_base);
 
         for i in (1..length).rev() {
diff --git a/crates/hodu_datasets/src/data/dataset.rs b/crates/hodu_datasets/src/data/dataset.rs
index b256684..16501bb 100644
--- a/crates/hodu_datasets/src/data/dataset.rs
+++ b/crates/hodu_datasets/src/data/dataset.rs
@@ -134,7 +134,7 @@ where
     use rand::rngs::SmallRng;
 
     let total_len = dataset.len();
-    let train_len = (total_len as f32 * train_size) as usize;
+    let train_len = ((total_len as f32 * train_size) as usize).min(total_len);
 
     let mut indices: Vec<usize> = (0..total_len).collect();
 
-- 
2.43.0


From c5ce93bb2f06be7a771ed3650a4ed834b19e5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 24/49] fix: Adam bias correction, Adagrad accumulator dtype,
 optimizer steps with a missing gradient

---
 crates/hodu_nn/src/optimizers/adagrad.rs | 12 ++++++---
 crates/hodu_nn/src/optimizers/adam.rs    | 34 ++++++++++++++++++------
 crates/hodu_nn/src/optimizers/rmsprop.rs | 10 ++++---
 crates/hodu_nn/src/optimizers/sgd.rs     |  9 +++++--
 4 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/crates/hodu_nn/src/optimizers/adagrad.rs b/crates/hodu_nn/src/optimizers/adagrad.rs
index 08f5dd2..e6bd388 100644
--- a/crates/hodu_nn/src/optimizers/adagrad.rs
+++ b/crates/hodu_nn/src/optimizers/adagrad.rs
@@ -54,6 +54,12 @@ impl Adagrad {
     }
 
     fn step(&mut self, parameters: &[&Tensor]) -> HoduResult<()> {
+        // Every gradient has to exist before any state or parameter changes
+        let grads = parameters
+            .iter()
+            .map(|param| param.grad())
+            .collect::<HoduResult<Vec<_>>>()?;
+
         // Initialize state on first call
         if self.v.is_empty() {
             let init_val = self.initial_accumulator_value.to_f32();
@@ -65,16 +71,14 @@ impl Adagrad {
             } else {
                 self.v = parameters
                     .iter()
-                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value))
+                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value.to_dtype(param.dtype())))
                     .collect::<HoduResult<Vec<_>>>()?;
             }
         }
 
         self.t += 1;
 
-        for (i, param) in parameters.iter().enumerate() {
-            let mut grad = param.grad()?;
-
+        for (i, (param, mut grad)) in parameters.iter().zip(grads).enumerate() {
             let lr = self.learning_rate.to_dtype(grad.dtype());
             let lr_decay = self.lr_decay.to_dtype(grad.dtype());
             let epsilon = self.epsilon.to_dtype(grad.dtype());
diff --git a/crates/hodu_nn/src/optimizers/adam.rs b/crates/hodu_nn/src/optimizers/adam.rs
index 8780329..65c261e 100644
--- a/crates/hodu_nn/src/optimizers/adam.rs
+++ b/crates/hodu_nn/src/optimizers/adam.rs
@@ -31,6 +31,12 @@ impl Adam {
     }
 
     fn step(&mut self, parameters: &[&Tensor]) -> HoduResult<()> {
+        // Every gradient has to exist before any state or parameter changes
+        let grads = parameters
+            .iter()
+            .map(|param| param.grad())
+            .collect::<HoduResult<Vec<_>>>()?;
+
         if self.m.is_empty() || self.v.is_empty() {
             self.m = parameters
                 .iter()
@@ -44,8 +50,12 @@ impl Adam {
 
         self.t += 1;
 
-        for ((param, m), v) in parameters.iter().zip(self.m.iter_mut()).zip(self.v.iter_mut()) {
-            let grad = param.grad()?;
+        for (((param, grad), m), v) in parameters
+            .iter()
+            .zip(grads)
+            .zip(self.m.iter_mut())
+            .zip(self.v.iter_mut())
+        {
             let lr = self.learning_rate.to_dtype(grad.dtype());
             let beta1 = self.beta1.to_dtype(grad.dtype());
             let beta2 = self.beta2.to_dtype(grad.dtype());
@@ -54,14 +64,13 @@ impl Adam {
 
             let mut beta1_t = beta1;
             let mut beta2_t = beta2;
-            for _ in 0..self.t {
+            for _ in 1..self.t {
                 beta1_t = beta1_t * beta1;
                 beta2_t = beta2_t * beta2;
             }
 
             let one_minus_beta1_t = one - beta1_t;
             let one_minus_beta2_t = one - beta2_t;
-            let lr_t = lr * (one_minus_beta2_t.sqrt()) / one_minus_beta1_t;
 
             let one_minus_beta1 = one - beta1;
             let one_minus_beta2 = one - beta2;
@@ -78,7 +87,7 @@ impl Adam {
 
             // Update parameters
             let step = m_hat.div(&v_hat.sqrt()?.add_scalar(epsilon)?)?;
-            param.set_(&param.sub(&step.mul_scalar(lr_t)?)?)?;
+            param.set_(&param.sub(&step.mul_scalar(lr)?)?)?;
         }
 
         Ok(())
@@ -122,6 +131,12 @@ impl AdamW {
     }
 
     fn step(&mut self, parameters: &[&Tensor]) -> HoduResult<()> {
+        // Every gradient has to exist before any state or parameter changes
+        let grads = parameters
+            .iter()
+            .map(|param| param.grad())
+            .collect::<HoduResult<Vec<_>>>()?;
+
         // Initialize momentum buffers on first call
         if self.m.is_empty() || self.v.is_empty() {
             self.m = parameters
@@ -136,9 +151,12 @@ impl AdamW {
 
         self.t += 1;
 
-        for ((param, m), v) in parameters.iter().zip(self.m.iter_mut()).zip(self.v.iter_mut()) {
-            let grad = param.grad()?;
-
+        for (((param, grad), m), v) in parameters
+            .iter()
+            .zip(grads)
+            .zip(self.m.iter_mut())
+            .zip(self.v.iter_mut())
+        {
             // Convert scalars to match gradient dtype
             let lr = self.learning_rate.to_dtype(grad.dtype());
             let beta1 = self.beta1.to_dtype(grad.dtype());
diff --git a/crates/hodu_nn/src/optimizers/rmsprop.rs b/crates/hodu_nn/src/optimizers/rmsprop.rs
index dd7b0ba..8ee386d 100644
--- a/crates/hodu_nn/src/optimizers/rmsprop.rs
+++ b/crates/hodu_nn/src/optimizers/rmsprop.rs
@@ -62,6 +62,12 @@ impl RMSprop {
     }
 
     fn step(&mut self, parameters: &[&Tensor]) -> HoduResult<()> {
+        // Every gradient has to exist before any state or parameter changes
+        let grads = parameters
+            .iter()
+            .map(|param| param.grad())
+            .collect::<HoduResult<Vec<_>>>()?;
+
         // Initialize state on first call
         if self.v.is_empty() {
             self.v = parameters
@@ -86,9 +92,7 @@ impl RMSprop {
 
         let use_momentum = self.momentum.to_f32() != 0.0;
 
-        for (i, param) in parameters.iter().enumerate() {
-            let mut grad = param.grad()?;
-
+        for (i, (param, mut grad)) in parameters.iter().zip(grads).enumerate() {
             let lr = self.learning_rate.to_dtype(grad.dtype());
             let alpha = self.alpha.to_dtype(grad.dtype());
             let epsilon = self.epsilon.to_dtype(grad.dtype());
diff --git a/crates/hodu_nn/src/optimizers/sgd.rs b/crates/hodu_nn/src/optimizers/sgd.rs
index b6226e0..def3f1c 100644
--- a/crates/hodu_nn/src/optimizers/sgd.rs
+++ b/crates/hodu_nn/src/optimizers/sgd.rs
@@ -14,8 +14,13 @@ impl SGD {
     }
 
     fn step(&mut self, parameters: &[&Tensor]) -> HoduResult<()> {
-        for param in parameters.iter() {
-            let grad = param.grad()?;
+        // Every gradient has to exist before any parameter changes
+        let grads = parameters
+            .iter()
+            .map(|param| param.grad())
+            .collect::<HoduResult<Vec<_>>>()?;
+
+        for (param, grad) in parameters.iter().zip(grads) {
             let lr = self.learning_rate.to_dtype(grad.dtype());
 
             param.set_(&param.sub(&grad.mul_scalar(lr)?)?)?;
-- 
2.43.0


From 0450ba1e9279815161a90e7ae8a4d31e8c0f16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 25/49] fix: gradients of transpose, permute and slice follow
 the recorded parameters (G01)

---
 crates/hodu_core/src/op_params.rs             |   9 +-
 .../src/tensor/gradient/vjp_shape.rs          | 137 +++++-------------
 .../src/tensor/gradient/vjp_utils.rs          |   8 +
 crates/hodu_core/src/tensor/ops/shape.rs      |  14 +-
 4 files changed, 64 insertions(+), 104 deletions(-)

diff --git a/crates/hodu_core/src/op_params.rs b/crates/hodu_core/src/op_params.rs
index ef8209c..b470ad5 100644
--- a/crates/hodu_core/src/op_params.rs
+++ b/crates/hodu_core/src/op_params.rs
@@ -481,11 +481,16 @@ pub struct BroadcastParams;
 
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-pub struct TransposeParams;
+pub struct TransposeParams {
+    pub dim1: i32,
+    pub dim2: i32,
+}
 
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-pub struct PermuteParams;
+pub struct PermuteParams {
+    pub axes: Vec<i32>,
+}
 
 // Shape Memory Operations
 
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
index 3282c8b..7f64ade 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
@@ -1,8 +1,9 @@
-use super::VjpCompute;
+use super::{vjp_utils::expand_indices, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
-    ops::{OpParams, ShapeOp, ShapeScalarsOp, SliceParams},
+    ops::{OpParams, PermuteParams, ShapeOp, ShapeScalarsOp, SliceParams, TransposeParams},
     tensor::{tensor_from_id, Tensor, TensorId},
+    utils::valid::normalize_axis,
 };
 
 impl VjpCompute for ShapeOp {
@@ -11,7 +12,7 @@ impl VjpCompute for ShapeOp {
         inputs: &[TensorId],
         _output: TensorId,
         grad_output: TensorId,
-        _op_params: &OpParams,
+        op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         let input = inputs[0];
         let input_tensor = tensor_from_id(input);
@@ -69,80 +70,27 @@ impl VjpCompute for ShapeOp {
                 Ok(vec![final_grad.id()])
             },
             ShapeOp::Transpose => {
-                // Reverse the transpose by finding which dimensions were swapped
-                // Compare input and output shapes to determine the transpose dimensions
-                if input_shape.dims().len() != grad_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Input and gradient shapes must have same rank for transpose".to_string(),
+                // Swapping the same two dimensions again restores the input
+                let OpParams::Transpose(TransposeParams { dim1, dim2 }) = op_params else {
+                    return Err(HoduError::VjpFunctionNotFound(
+                        "Transpose requires TransposeParams".to_string(),
                     ));
-                }
-
-                if input_shape.dims().len() < 2 {
-                    // For 0D or 1D tensors, transpose has no effect
-                    Ok(vec![grad_output])
-                } else {
-                    // Find which dimensions were swapped by comparing shapes
-                    let mut transpose_dims = None;
-
-                    // Check common case: last two dimensions transposed
-                    if input_shape.dims().len() >= 2 {
-                        let last_idx = input_shape.dims().len() - 1;
-                        let second_last_idx = input_shape.dims().len() - 2;
-
-                        if input_shape.dims()[last_idx] == grad_shape.dims()[second_last_idx]
-                            && input_shape.dims()[second_last_idx] == grad_shape.dims()[last_idx]
-                        {
-                            // Check if all other dimensions match
-                            let other_dims_match = input_shape.dims()[..second_last_idx]
-                                .iter()
-                                .zip(grad_shape.dims()[..second_last_idx].iter())
-                                .all(|(a, b)| a == b);
-
-                            if other_dims_match {
-                                transpose_dims = Some((second_last_idx as i32, last_idx as i32));
-                            }
-                        }
-                    }
-
-                    // If we couldn't determine the transpose dimensions, fall back to (-2, -1)
-                    let (dim1, dim2) = transpose_dims.unwrap_or((-2i32, -1i32));
-                    let transposed_grad = grad_tensor.transpose(dim1, dim2)?;
-                    Ok(vec![transposed_grad.id()])
-                }
+                };
+                let transposed_grad = grad_tensor.transpose(*dim1, *dim2)?;
+                Ok(vec![transposed_grad.id()])
             },
             ShapeOp::Permute => {
-                // Reverse the permutation by finding the inverse permutation
                 // If forward permutation is [a, b, c], then inverse is such that inverse[forward[i]] = i
-                if input_shape.dims().len() != grad_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Input and gradient shapes must have same rank for permute".to_string(),
+                let OpParams::Permute(PermuteParams { axes }) = op_params else {
+                    return Err(HoduError::VjpFunctionNotFound(
+                        "Permute requires PermuteParams".to_string(),
                     ));
-                }
-
-                let ndim = input_shape.dims().len();
-
-                // Find the forward permutation by comparing input and grad shapes
-                let mut forward_perm = vec![0; ndim];
-                for i in 0..ndim {
-                    for j in 0..ndim {
-                        if input_shape.dims()[i] == grad_shape.dims()[j] {
-                            // Check if this dimension is already used
-                            let already_used = forward_perm[..i].contains(&j);
-                            if !already_used {
-                                forward_perm[i] = j;
-                                break;
-                            }
-                        }
-                    }
-                }
-
-                // Compute inverse permutation
+                };
+                let ndim = input_shape.ndim();
                 let mut inverse_perm = vec![0usize; ndim];
-                for (i, &p) in forward_perm.iter().enumerate() {
-                    inverse_perm[p] = i;
+                for (i, &axis) in axes.iter().enumerate() {
+                    inverse_perm[normalize_axis(axis, ndim)?] = i;
                 }
-
-                // Apply inverse permutation to gradient
                 let permuted_grad = grad_tensor.permute(&inverse_perm)?;
                 Ok(vec![permuted_grad.id()])
             },
@@ -170,37 +118,30 @@ impl VjpCompute for ShapeScalarsOp {
                     return Err(HoduError::VjpFunctionNotFound("Slice requires SliceParams".to_string()));
                 };
 
-                let dim = dim.to_i32() as usize;
-                let start = start.to_i32() as isize;
+                let dim = normalize_axis(dim.to_i32(), input_shape.ndim())?;
+                let step = step.to_i32() as i64;
                 let end_value = end.to_i32();
-                let end = if end_value == i32::MAX {
-                    None
-                } else {
-                    Some(end_value as isize)
-                };
-                let step = step.to_i32() as isize;
 
-                // Calculate slice indices
-                let dim_size = input_shape.dims()[dim] as isize;
-                let start_idx = if start < 0 { dim_size + start } else { start };
-                let end_idx = end
-                    .map(|e| if e < 0 { dim_size + e } else { e })
-                    .unwrap_or(if step > 0 { dim_size } else { -1 });
+                // Resolve start and end the way the forward slice does: from the end when negative, then clamped
+                let dim_size = input_shape.dims()[dim] as i64;
+                let (low, high) = if step > 0 { (0, dim_size) } else { (-1, dim_size - 1) };
+                let resolve = |position: i32| {
+                    let position = position as i64;
+                    let position = if position < 0 { position + dim_size } else { position };
+                    position.clamp(low, high)
+                };
+                let start_idx = resolve(start.to_i32());
+                let end_idx = match end_value {
+                    i32::MAX if step > 0 => high,
+                    i32::MAX => low,
+                    _ => resolve(end_value),
+                };
 
-                // Generate indices based on step direction
                 let mut indices_vec = Vec::new();
-                if step > 0 {
-                    let mut idx = start_idx;
-                    while idx < end_idx && idx < dim_size {
-                        indices_vec.push(idx as i32);
-                        idx += step;
-                    }
-                } else {
-                    let mut idx = start_idx;
-                    while idx > end_idx && idx >= 0 {
-                        indices_vec.push(idx as i32);
-                        idx += step;
-                    }
+                let mut idx = start_idx;
+                while (step > 0 && idx < end_idx) || (step < 0 && idx > end_idx) {
+                    indices_vec.push(idx as i32);
+                    idx += step;
                 }
 
                 // Validate that grad_shape matches expected slice output
@@ -219,7 +160,7 @@ impl VjpCompute for ShapeScalarsOp {
                 }
 
                 // Create indices tensor
-                let indices_tensor = Tensor::new(indices_vec)?;
+                let indices_tensor = expand_indices(&Tensor::new(indices_vec)?, dim, &grad_shape)?;
 
                 // Create zero tensor with input shape
                 let dtype = input_tensor.dtype();
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index 2407e36..cd7e889 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -190,6 +190,14 @@ pub fn create_sum_to_shape_tensor(tensor_id: TensorId, target_shape: &Shape) ->
 }
 
 // Utility functions
+
+/// Repeats a vector of positions along `dim` over every other coordinate of `shape`.
+pub fn expand_indices(indices: &Tensor, dim: usize, shape: &Shape) -> HoduResult<Tensor> {
+    let mut dims = vec![1; shape.ndim()];
+    dims[dim] = shape.dims()[dim];
+    indices.reshape(dims)?.broadcast(shape)
+}
+
 pub fn create_zeros_like_tensor(a: TensorId) -> HoduResult<TensorId> {
     let tensor_a = tensor_from_id(a);
     let shape = tensor_a.shape();
diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index 5cf2ea8..e175794 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -324,7 +324,10 @@ impl Tensor {
                     vec![self.id()],
                     result_id,
                     Op::Shape(ShapeOp::Transpose),
-                    OpParams::Transpose(TransposeParams),
+                    OpParams::Transpose(TransposeParams {
+                        dim1: dim1_i32,
+                        dim2: dim2_i32,
+                    }),
                 )?;
             }
 
@@ -337,7 +340,10 @@ impl Tensor {
                     vec![self.id()],
                     result.id(),
                     Op::Shape(ShapeOp::Transpose),
-                    OpParams::Transpose(TransposeParams),
+                    OpParams::Transpose(TransposeParams {
+                        dim1: dim1_i32,
+                        dim2: dim2_i32,
+                    }),
                 )?;
             }
 
@@ -384,7 +390,7 @@ impl Tensor {
                     vec![self.id()],
                     result_id,
                     Op::Shape(ShapeOp::Permute),
-                    OpParams::Permute(PermuteParams),
+                    OpParams::Permute(PermuteParams { axes: axes_i32 }),
                 )?;
             }
 
@@ -397,7 +403,7 @@ impl Tensor {
                     vec![self.id()],
                     result.id(),
                     Op::Shape(ShapeOp::Permute),
-                    OpParams::Permute(PermuteParams),
+                    OpParams::Permute(PermuteParams { axes: axes_i32 }),
                 )?;
             }
 
-- 
2.43.0


From 67de591da10a2479131c763120e5305f2d886b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 26/49] fix: gradients of reductions without kept dimensions,
 prod with zeros, logsumexp, std and norm at zero (G01)

---
 .../src/tensor/gradient/vjp_reduce.rs         | 137 +++++++-----------
 1 file changed, 51 insertions(+), 86 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
index 018aa32..cd26aa4 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, ReduceOp, ReduceParams},
     scalar::Scalar,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for ReduceOp {
@@ -32,127 +32,84 @@ impl VjpCompute for ReduceOp {
             dims.iter().map(|scalar| scalar.to_usize()).collect()
         };
 
+        // Shape of the output with the reduced dimensions kept as 1, which broadcasts against the input
+        let kept_dims: Vec<usize> = input_shape
+            .dims()
+            .iter()
+            .enumerate()
+            .map(|(i, &d)| if reduce_dims.contains(&i) { 1 } else { d })
+            .collect();
+        let reduce_elements = reduce_dims
+            .iter()
+            .map(|&dim| input_shape.dims()[dim])
+            .product::<usize>() as f32;
+
+        let grad = tensor_from_id(grad_output).reshape(&kept_dims)?;
+        let reduced = tensor_from_id(output).reshape(&kept_dims)?;
+
         match self {
             ReduceOp::Sum => {
                 // d/dx sum(x) = 1 for all elements
                 // Broadcast gradient back to input shape
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted = grad_tensor.broadcast(&input_shape)?;
-                Ok(vec![broadcasted.id()])
+                Ok(vec![grad.broadcast(&input_shape)?.id()])
             },
             ReduceOp::Mean => {
                 // d/dx mean(x) = 1/N where N is number of elements in reduced dimensions
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
-                let scale_scalar = Scalar::from_f32(1.0 / reduce_elements, dtype);
-
-                let grad_tensor = tensor_from_id(grad_output);
-                let scaled_grad = grad_tensor.mul_scalar(scale_scalar)?;
-                let broadcasted = scaled_grad.broadcast(&input_shape)?;
-                Ok(vec![broadcasted.id()])
+                let scaled_grad = grad.mul_scalar(Scalar::from_f32(1.0 / reduce_elements, dtype))?;
+                Ok(vec![scaled_grad.broadcast(&input_shape)?.id()])
             },
             ReduceOp::Prod => {
-                // d/dx prod(x) = prod(x) / x_i for each element x_i
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-                let derivative = broadcasted_output.div(&input_tensor)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                // d/dx_i prod(x) = product of the other elements
+                // Zeros are replaced by one; an element gets no gradient while another element is zero
+                let zeros = input_tensor.eq_scalar(Scalar::zero(dtype))?.to_dtype(dtype)?;
+                let nonzero = input_tensor.add(&zeros)?;
+                let others = nonzero.prod(&reduce_dims, true)?.div(&nonzero)?;
+                let other_zeros = zeros.sum(&reduce_dims, true)?.sub(&zeros)?;
+                let no_other_zero = other_zeros.eq_scalar(Scalar::zero(dtype))?.to_dtype(dtype)?;
+                let result = others.mul(&no_other_zero)?.mul(&grad)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Norm => {
                 // d/dx ||x||_2 = x / ||x||_2
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-                let derivative = input_tensor.div(&broadcasted_output)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                let result = input_tensor.div(&without_zeros(&reduced)?)?.mul(&grad)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Var => {
                 // d/dx var(x) = 2 * (x - mean(x)) / N where N is number of elements in reduced dimensions
-                let mean_tensor = input_tensor.mean(&reduce_dims, false)?;
-                let broadcasted_mean = mean_tensor.broadcast(&input_shape)?;
-                let diff = input_tensor.sub(&broadcasted_mean)?;
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
-                let scale = Scalar::from_f32(2.0 / reduce_elements, dtype);
-                let derivative = diff.mul_scalar(scale)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
-                Ok(vec![result.id()])
+                let diff = input_tensor.sub(&input_tensor.mean(&reduce_dims, true)?)?;
+                let derivative = diff.mul_scalar(Scalar::from_f32(2.0 / reduce_elements, dtype))?;
+                Ok(vec![derivative.mul(&grad)?.id()])
             },
             ReduceOp::Std => {
                 // d/dx std(x) = (x - mean(x)) / (N * std(x)) where N is number of elements in reduced dimensions
-                let mean_tensor = input_tensor.mean(&reduce_dims, false)?;
-                let broadcasted_mean = mean_tensor.broadcast(&input_shape)?;
-                let diff = input_tensor.sub(&broadcasted_mean)?;
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_std = output_tensor.broadcast(&input_shape)?;
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
+                let diff = input_tensor.sub(&input_tensor.mean(&reduce_dims, true)?)?;
                 let scale = Scalar::from_f32(1.0 / reduce_elements, dtype);
-                let derivative = diff.div(&broadcasted_std)?.mul_scalar(scale)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
-                Ok(vec![result.id()])
+                let derivative = diff.div(&without_zeros(&reduced)?)?.mul_scalar(scale)?;
+                Ok(vec![derivative.mul(&grad)?.id()])
             },
             ReduceOp::Max | ReduceOp::Min => {
                 // d/dx max(x) or min(x): gradient flows only to the positions that were max/min
-                // Create a mask where input equals output (broadcasted)
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-
-                // Create mask: 1 where input == output, 0 elsewhere
-                let mask = input_tensor.eq(&broadcasted_output)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let mask_f = mask.to_dtype(grad_tensor.dtype())?;
+                // Mask: 1 where input == output, 0 elsewhere
+                let mask = input_tensor.eq(&reduced)?.to_dtype(dtype)?;
 
                 // Count how many elements are equal to max/min (for gradient distribution)
-                let count_per_position = mask_f.sum(&reduce_dims, true)?;
-                let broadcasted_count = count_per_position.broadcast(&input_shape)?;
+                let count_per_position = mask.sum(&reduce_dims, true)?;
 
                 // Distribute gradient: grad * mask / count
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let masked_grad = broadcasted_grad.mul(&mask_f)?;
-                let result = masked_grad.div(&broadcasted_count)?;
-
+                let result = mask.mul(&grad)?.div(&count_per_position)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::LogSum => {
                 // d/dx log(sum(x)) = 1 / sum(x)
                 // output = log(sum(x)), so sum(x) = exp(output)
-                let output_tensor = tensor_from_id(output);
-                let sum_x = output_tensor.exp()?;
-                let broadcasted_sum = sum_x.broadcast(&input_shape)?;
-                let derivative = broadcasted_sum.recip()?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
-                Ok(vec![result.id()])
+                let result = grad.div(&reduced.exp()?)?;
+                Ok(vec![result.broadcast(&input_shape)?.id()])
             },
             ReduceOp::LogSumExp => {
                 // d/dx log(sum(exp(x))) = exp(x) / sum(exp(x)) = softmax(x)
-                // output = log(sum(exp(x))), so sum(exp(x)) = exp(output)
-                let output_tensor = tensor_from_id(output);
-                let exp_x = input_tensor.exp()?;
-                let sum_exp = output_tensor.exp()?;
-                let broadcasted_sum = sum_exp.broadcast(&input_shape)?;
-                let softmax = exp_x.div(&broadcasted_sum)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = softmax.mul(&broadcasted_grad)?;
-                Ok(vec![result.id()])
+                // output = log(sum(exp(x))), so softmax(x) = exp(x - output)
+                let softmax = input_tensor.sub(&reduced)?.exp()?;
+                Ok(vec![softmax.mul(&grad)?.id()])
             },
             _ => Err(HoduError::GradientComputationFailed(format!(
                 "{:?} is not differentiable - cannot compute gradients for discrete index operations",
@@ -161,3 +118,11 @@ impl VjpCompute for ReduceOp {
         }
     }
 }
+
+/// The tensor with 1 in place of its zeros, to divide by where the dividend is 0 as well
+fn without_zeros(tensor: &Tensor) -> HoduResult<Tensor> {
+    let zeros = tensor
+        .eq_scalar(Scalar::zero(tensor.dtype()))?
+        .to_dtype(tensor.dtype())?;
+    tensor.add(&zeros)
+}
-- 
2.43.0


From f6114c8773e065900f05c0adf6d4a2c875f313f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 27/49] fix: gradients of indexing, concat and split with
 negative dims, repeated indices and ties (G01)

---
 .../src/tensor/gradient/vjp_indexing.rs       | 135 +++++-------------
 .../hodu_core/src/tensor/ops/concat_split.rs  |  20 +--
 crates/hodu_core/src/tensor/ops/indexing.rs   |  32 ++---
 3 files changed, 66 insertions(+), 121 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
index d7bdf55..b5e04cb 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
@@ -1,4 +1,4 @@
-use super::VjpCompute;
+use super::{vjp_utils::expand_indices, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{IndexingOp, OpParams},
@@ -9,7 +9,7 @@ impl VjpCompute for IndexingOp {
     fn compute_vjp(
         &self,
         inputs: &[TensorId],
-        _output: TensorId,
+        output: TensorId,
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
@@ -45,9 +45,9 @@ impl VjpCompute for IndexingOp {
                 // Create zero tensor with same shape as input
                 let grad_self = Tensor::zeros(&self_shape, dtype)?;
 
-                // Scatter the gradient back to the original positions
-                let indices_tensor = tensor_from_id(indices_id);
+                // Add the gradient back at the original positions
                 let grad_tensor = tensor_from_id(grad_output);
+                let indices_tensor = expand_indices(&tensor_from_id(indices_id), dim, &grad_tensor.shape())?;
                 let result = grad_self.scatter_add(dim, &indices_tensor, &grad_tensor)?;
 
                 // IndexSelect doesn't have gradient w.r.t. indices
@@ -79,64 +79,35 @@ impl VjpCompute for IndexingOp {
                 Ok(vec![result.id()])
             },
 
-            IndexingOp::IndexPut => {
+            IndexingOp::IndexPut | IndexingOp::Scatter => {
                 // inputs: [self, values, indices]
                 if inputs.len() != 3 {
-                    return Err(HoduError::InternalError("IndexPut requires 3 inputs".to_string()));
+                    return Err(HoduError::InternalError(format!("{:?} requires 3 inputs", self)));
                 }
 
-                let self_id = inputs[0];
-                let _values_id = inputs[1];
-                let indices_id = inputs[2];
-
-                let self_tensor = tensor_from_id(self_id);
-                let dtype = self_tensor.dtype();
-
-                let indices_tensor = tensor_from_id(indices_id);
+                let values_tensor = tensor_from_id(inputs[1]);
+                let values_shape = values_tensor.shape();
                 let grad_tensor = tensor_from_id(grad_output);
+                let dtype = grad_tensor.dtype();
 
-                // Gradient w.r.t. self: everywhere except indexed positions
-                // Create a mask: 1 everywhere, 0 at indexed positions
-                let ones = Tensor::ones(self_tensor.shape(), dtype)?;
-                let zeros_at_indices =
-                    ones.index_put(dim, &indices_tensor, &Tensor::zeros(indices_tensor.shape(), dtype)?)?;
-                let grad_self = grad_tensor.mul(&zeros_at_indices)?;
-
-                // Gradient w.r.t. values: gather from grad_output at indices
-                let grad_values = grad_tensor.gather(dim, &indices_tensor)?;
-
-                // IndexPut doesn't have gradient w.r.t. indices
-                Ok(vec![grad_self.id(), grad_values.id()])
-            },
-
-            IndexingOp::Scatter => {
-                // inputs: [self, src, indices]
-                if inputs.len() != 3 {
-                    return Err(HoduError::InternalError("Scatter requires 3 inputs".to_string()));
+                let mut indices_tensor = tensor_from_id(inputs[2]);
+                if matches!(self, IndexingOp::IndexPut) {
+                    indices_tensor = expand_indices(&indices_tensor, dim, &values_shape)?;
                 }
 
-                let self_id = inputs[0];
-                let _src_id = inputs[1];
-                let indices_id = inputs[2];
-
-                let self_tensor = tensor_from_id(self_id);
-                let dtype = self_tensor.dtype();
-
-                let indices_tensor = tensor_from_id(indices_id);
-                let grad_tensor = tensor_from_id(grad_output);
+                // Gradient w.r.t. self: everywhere except the replaced positions
+                let grad_self = grad_tensor.scatter(dim, &indices_tensor, &Tensor::zeros(&values_shape, dtype)?)?;
 
-                // Gradient w.r.t. self: everywhere except scattered positions
-                // Create a mask: 1 everywhere, 0 at scattered positions
-                let ones = Tensor::ones(self_tensor.shape(), dtype)?;
-                let zeros_at_indices =
-                    ones.scatter(dim, &indices_tensor, &Tensor::zeros(indices_tensor.shape(), dtype)?)?;
-                let grad_self = grad_tensor.mul(&zeros_at_indices)?;
+                // Gradient w.r.t. values: the gradient of the position a value was stored at,
+                // unless a later value replaced it there
+                let number = Tensor::arange(0, values_shape.size() as i32, 1)?.reshape(&values_shape)?;
+                let stored =
+                    Tensor::zeros(grad_tensor.shape(), number.dtype())?.scatter(dim, &indices_tensor, &number)?;
+                let kept = stored.gather(dim, &indices_tensor)?.eq(&number)?.to_dtype(dtype)?;
+                let grad_values = grad_tensor.gather(dim, &indices_tensor)?.mul(&kept)?;
 
-                // Gradient w.r.t. src: gather from grad_output at indices
-                let grad_src = grad_tensor.gather(dim, &indices_tensor)?;
-
-                // Scatter doesn't have gradient w.r.t. indices
-                Ok(vec![grad_self.id(), grad_src.id()])
+                // There is no gradient w.r.t. indices
+                Ok(vec![grad_self.id(), grad_values.id()])
             },
 
             IndexingOp::ScatterAdd => {
@@ -165,54 +136,26 @@ impl VjpCompute for IndexingOp {
                     return Err(HoduError::InternalError(format!("{:?} requires 3 inputs", self)));
                 }
 
-                let self_id = inputs[0];
-                let src_id = inputs[1];
-                let indices_id = inputs[2];
-
-                let self_tensor = tensor_from_id(self_id);
-                let indices_tensor = tensor_from_id(indices_id);
-                let src_tensor = tensor_from_id(src_id);
+                let self_tensor = tensor_from_id(inputs[0]);
+                let src_tensor = tensor_from_id(inputs[1]);
+                let indices_tensor = tensor_from_id(inputs[2]);
+                let output_tensor = tensor_from_id(output);
                 let grad_tensor = tensor_from_id(grad_output);
+                let dtype = grad_tensor.dtype();
 
-                // Get the values at the scattered positions from output
-                let scattered_values = grad_tensor.gather(dim, &indices_tensor)?;
-
-                // Determine which values "won" (were selected)
-                let src_won = match self {
-                    IndexingOp::ScatterMax => {
-                        // src won if src >= self at those positions
-                        let self_at_indices = self_tensor.gather(dim, &indices_tensor)?;
-                        src_tensor.ge(&self_at_indices)?
-                    },
-                    IndexingOp::ScatterMin => {
-                        // src won if src <= self at those positions
-                        let self_at_indices = self_tensor.gather(dim, &indices_tensor)?;
-                        src_tensor.le(&self_at_indices)?
-                    },
-                    _ => unreachable!(),
-                };
-
-                // Gradient w.r.t. src: flows through where src won
-                let src_won_f = src_won.to_dtype(grad_tensor.dtype())?;
-                let grad_src = scattered_values.mul(&src_won_f)?;
-
-                // Gradient w.r.t. self: flows through where self won
-                // Create mask where self won (opposite of src_won)
-                let dtype = self_tensor.dtype();
-                let ones = Tensor::ones(src_won_f.shape(), dtype)?;
-                let self_won = ones.sub(&src_won_f)?;
-
-                // Scatter the masked gradient back
-                let grad_src_scattered = grad_tensor.gather(dim, &indices_tensor)?;
-                let grad_self_at_indices = grad_src_scattered.mul(&self_won)?;
+                // Which values "won" (equal the result at their position)
+                let self_won = self_tensor.eq(&output_tensor)?.to_dtype(dtype)?;
+                let src_won = src_tensor
+                    .eq(&output_tensor.gather(dim, &indices_tensor)?)?
+                    .to_dtype(dtype)?;
 
-                let zeros = Tensor::zeros(self_tensor.shape(), dtype)?;
-                let grad_self = zeros.scatter_add(dim, &indices_tensor, &grad_self_at_indices)?;
+                // The gradient of a position is shared by its winners
+                let count = self_won.scatter_add(dim, &indices_tensor, &src_won)?;
+                let share = grad_tensor.div(&count)?;
+                let grad_self = share.mul(&self_won)?;
+                let grad_src = share.gather(dim, &indices_tensor)?.mul(&src_won)?;
 
-                // Add gradient from positions not affected by scatter
-                let grad_self_final = grad_self.add(&grad_tensor)?;
-
-                Ok(vec![grad_self_final.id(), grad_src.id()])
+                Ok(vec![grad_self.id(), grad_src.id()])
             },
 
             IndexingOp::Onehot => {
diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 286ccb8..d737f16 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -5,8 +5,8 @@ use crate::{
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{Layout, Shape},
     utils::valid::{
-        normalize_axis, validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
-        validate_same_dtype,
+        normalize_axis, validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op,
+        validate_same_device, validate_same_dtype,
     },
 };
 
@@ -18,11 +18,11 @@ impl Tensor {
                 "concat requires at least one tensor".to_string(),
             ));
         }
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
 
         let first = tensors[0];
         let dim_usize = normalize_axis(dim_i32, first.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(tensors, Op::Concat(ConcatOp::Concat))?;
@@ -136,9 +136,9 @@ impl Tensor {
 
     // split Operations
     pub fn split<D: Into<Scalar>>(&self, sizes: &[usize], dim: D) -> HoduResult<Vec<Self>> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate dtype for device and operation
         validate_dtype_for_device(self.dtype(), self.device())?;
@@ -246,15 +246,17 @@ impl Tensor {
     }
 
     pub fn chunk<D: Into<Scalar>>(&self, chunks: usize, dim: D) -> HoduResult<Vec<Self>> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
         let shape = self.shape();
         let shape_dims = shape.dims();
         let dim_size = shape_dims[dim_usize];
 
         if chunks == 0 {
-            return Err(HoduError::InvalidArgument("chunk requires at least one chunk".to_string()));
+            return Err(HoduError::InvalidArgument(
+                "chunk requires at least one chunk".to_string(),
+            ));
         }
         let chunk_size = dim_size.div_ceil(chunks);
         let sizes: Vec<usize> = (0..chunks)
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 6fb45ca..b9cbb39 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -8,16 +8,16 @@ use crate::{
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Dim, DynamicDimId, Layout, Shape, SymbolicLayout, SymbolicShape},
     utils::valid::{
-        normalize_axis, validate_dtype_for_device, validate_dtype_for_op, validate_indices_dtype, validate_requires_grad_for_op,
-        validate_same_device, validate_same_dtype,
+        normalize_axis, validate_dtype_for_device, validate_dtype_for_op, validate_indices_dtype,
+        validate_requires_grad_for_op, validate_same_device, validate_same_dtype,
     },
 };
 
 impl Tensor {
     pub fn index_select<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices], Op::Indexing(IndexingOp::IndexSelect))?;
@@ -91,9 +91,9 @@ impl Tensor {
     }
 
     pub fn index_put<D: Into<Scalar>>(&self, dim: D, indices: &Self, values: &Self) -> HoduResult<Self> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, values], Op::Indexing(IndexingOp::IndexPut))?;
@@ -167,9 +167,9 @@ impl Tensor {
     }
 
     pub fn gather<D: Into<Scalar>>(&self, dim: D, indices: &Self) -> HoduResult<Self> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices], Op::Indexing(IndexingOp::Gather))?;
@@ -238,9 +238,9 @@ impl Tensor {
     }
 
     pub fn scatter<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::Scatter))?;
@@ -315,9 +315,9 @@ impl Tensor {
     }
 
     pub fn scatter_add<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterAdd))?;
@@ -389,9 +389,9 @@ impl Tensor {
     }
 
     pub fn scatter_max<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterMax))?;
@@ -463,9 +463,9 @@ impl Tensor {
     }
 
     pub fn scatter_min<D: Into<Scalar>>(&self, dim: D, indices: &Self, src: &Self) -> HoduResult<Self> {
-        let dim_scalar = dim.into();
-        let dim_i32 = dim_scalar.to_i32();
+        let dim_i32 = dim.into().to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
+        let dim_scalar = Scalar::from(dim_usize as i32);
 
         // Validate device, dtype for device, and dtype for operation
         validate_same_device(&[self, indices, src], Op::Indexing(IndexingOp::ScatterMin))?;
-- 
2.43.0


From a6eea6cec7c0f95964426a9c7bf9da25a03539be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 28/49] fix: gradients of reflect, replicate and circular
 padding (G01)

---
 .../src/tensor/gradient/vjp_padding.rs        | 301 ++----------------
 1 file changed, 35 insertions(+), 266 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_padding.rs b/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
index cc678ab..64c2ef3 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
@@ -1,4 +1,4 @@
-use super::VjpCompute;
+use super::{vjp_utils::expand_indices, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     op_params::{OpParams, PaddingParams},
@@ -27,27 +27,42 @@ impl VjpCompute for PaddingOp {
 
         let grad_tensor = tensor_from_id(grad_output);
 
+        if matches!(self, PaddingOp::PadConstant) {
+            // For constant padding, gradient is just a slice of grad_output
+            // removing the padded regions
+            let grad_input = slice_center(&grad_tensor, &input_shape, padding)?;
+            return Ok(vec![grad_input.id()]);
+        }
+
+        // Every padded position copies an input position, so its gradient is added there, one dimension at a time
+        let mut grad = grad_tensor;
+        for (dim, &(before, after)) in padding.iter().enumerate() {
+            if before == 0 && after == 0 {
+                continue;
+            }
+            let input_size = input_shape.dims()[dim];
+            let sources: Vec<i32> = (0..before + input_size + after)
+                .map(|position| self.source_position(position as i64 - before as i64, input_size as i64) as i32)
+                .collect();
+            let mut target_dims = grad.shape().dims().to_vec();
+            target_dims[dim] = input_size;
+            let indices = expand_indices(&Tensor::new(sources)?, dim, &grad.shape())?;
+            grad = Tensor::zeros(target_dims, grad.dtype())?.scatter_add(dim, &indices, &grad)?;
+        }
+        Ok(vec![grad.id()])
+    }
+}
+
+impl PaddingOp {
+    /// Input position that is copied to `position`, counted from the first input position.
+    fn source_position(&self, position: i64, size: i64) -> i64 {
         match self {
-            PaddingOp::PadConstant => {
-                // For constant padding, gradient is just a slice of grad_output
-                // removing the padded regions
-                let grad_input = slice_center(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
+            PaddingOp::PadConstant | PaddingOp::PadReplicate => position.clamp(0, size - 1),
+            PaddingOp::PadCircular => position.rem_euclid(size),
             PaddingOp::PadReflect => {
-                // For reflect padding, gradient accumulates from reflected positions
-                let grad_input = compute_reflect_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadReplicate => {
-                // For replicate padding, gradient accumulates at edge positions
-                let grad_input = compute_replicate_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadCircular => {
-                // For circular padding, gradient wraps around
-                let grad_input = compute_circular_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
+                let period = (2 * (size - 1)).max(1);
+                let folded = position.rem_euclid(period);
+                folded.min(period - folded).min(size - 1)
             },
         }
     }
@@ -63,249 +78,3 @@ fn slice_center(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, us
     }
     Ok(result)
 }
-
-/// Compute gradient for reflect padding
-fn compute_reflect_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region (original input area)
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, add contributions from reflected regions
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-        let input_size = input_dims[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: reflected from positions [1..pad_before+1]
-        // These map back to positions [1..min(pad_before, input_size-1)+1] in input
-        if pad_before > 0 && input_size > 1 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let flipped = left_pad_grad.flip(&[dim])?;
-
-            // The reflection maps position i in left pad to position (pad_before - i) in input
-            // After flip, position 0 maps to position 1, position 1 maps to position 2, etc.
-            let target_len = pad_before.min(input_size - 1);
-            let flipped_slice = if flipped.shape().dims()[dim] > target_len {
-                slice_single_dim(
-                    &flipped,
-                    dim,
-                    flipped.shape().dims()[dim] - target_len,
-                    flipped.shape().dims()[dim],
-                )?
-            } else {
-                flipped
-            };
-
-            let target = slice_single_dim(&grad_input, dim, 1, 1 + target_len)?;
-            let added = target.add(&flipped_slice)?;
-            grad_input = replace_single_dim(&grad_input, dim, 1, 1 + target_len, &added)?;
-        }
-
-        // Right padding: reflected from positions [input_size-2, input_size-pad_after-2]
-        if pad_after > 0 && input_size > 1 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-            let flipped = right_pad_grad.flip(&[dim])?;
-
-            // After flip, these map to positions ending at input_size - 2
-            let target_len = pad_after.min(input_size - 1);
-            let start_pos = input_size - 1 - target_len;
-
-            let flipped_slice = if flipped.shape().dims()[dim] > target_len {
-                slice_single_dim(&flipped, dim, 0, target_len)?
-            } else {
-                flipped
-            };
-
-            let target = slice_single_dim(&grad_input, dim, start_pos, start_pos + target_len)?;
-            let added = target.add(&flipped_slice)?;
-            grad_input = replace_single_dim(&grad_input, dim, start_pos, start_pos + target_len, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Compute gradient for replicate padding
-fn compute_replicate_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, sum padding gradients into edge positions
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: all go to first element
-        if pad_before > 0 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let left_sum = left_pad_grad.sum(&[dim], true)?;
-
-            let first = slice_single_dim(&grad_input, dim, 0, 1)?;
-            let added = first.add(&left_sum)?;
-            grad_input = replace_single_dim(&grad_input, dim, 0, 1, &added)?;
-        }
-
-        // Right padding: all go to last element
-        if pad_after > 0 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-            let right_sum = right_pad_grad.sum(&[dim], true)?;
-
-            let input_size = input_dims[dim];
-            let last = slice_single_dim(&grad_input, dim, input_size - 1, input_size)?;
-            let added = last.add(&right_sum)?;
-            grad_input = replace_single_dim(&grad_input, dim, input_size - 1, input_size, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Compute gradient for circular padding
-fn compute_circular_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, wrap padding gradients around
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-        let input_size = input_dims[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: comes from end of input (wraps around)
-        // Left pad positions [0..pad_before] come from input positions [input_size - pad_before..input_size]
-        if pad_before > 0 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let start_pos = input_size - pad_before;
-
-            let target = slice_single_dim(&grad_input, dim, start_pos, input_size)?;
-            let added = target.add(&left_pad_grad)?;
-            grad_input = replace_single_dim(&grad_input, dim, start_pos, input_size, &added)?;
-        }
-
-        // Right padding: comes from beginning of input
-        // Right pad positions come from input positions [0..pad_after]
-        if pad_after > 0 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-
-            let target = slice_single_dim(&grad_input, dim, 0, pad_after)?;
-            let added = target.add(&right_pad_grad)?;
-            grad_input = replace_single_dim(&grad_input, dim, 0, pad_after, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Slice a single dimension of a tensor
-fn slice_single_dim(tensor: &Tensor, dim: usize, start: usize, end: usize) -> HoduResult<Tensor> {
-    tensor.slice(dim, start as i64, Some(end as i64), 1)
-}
-
-/// Slice from grad_output taking into account other dimensions are at center
-fn slice_dim(
-    grad_output: &Tensor,
-    target_dim: usize,
-    start: usize,
-    end: usize,
-    padding: &[(usize, usize)],
-    input_dims: &[usize],
-) -> HoduResult<Tensor> {
-    let ndim = padding.len();
-    let mut result = grad_output.clone();
-
-    for dim in 0..ndim {
-        if dim == target_dim {
-            result = result.slice(dim, start as i64, Some(end as i64), 1)?;
-        } else {
-            let (pad_before, _) = padding[dim];
-            let input_size = input_dims[dim];
-            result = result.slice(dim, pad_before as i64, Some((pad_before + input_size) as i64), 1)?;
-        }
-    }
-
-    Ok(result)
-}
-
-/// Replace a slice of the tensor along a single dimension
-fn replace_single_dim(
-    tensor: &Tensor,
-    dim: usize,
-    start: usize,
-    end: usize,
-    replacement: &Tensor,
-) -> HoduResult<Tensor> {
-    let shape = tensor.shape();
-    let dim_size = shape.dims()[dim];
-
-    // If replacing the entire dimension, just return replacement
-    if start == 0 && end == dim_size {
-        return Ok(replacement.clone());
-    }
-
-    // Build result by concatenating: [before, replacement, after]
-    let mut parts: Vec<Tensor> = Vec::new();
-
-    // Before slice
-    if start > 0 {
-        let before = slice_single_dim(tensor, dim, 0, start)?;
-        parts.push(before);
-    }
-
-    // Replacement
-    parts.push(replacement.clone());
-
-    // After slice
-    if end < dim_size {
-        let after = slice_single_dim(tensor, dim, end, dim_size)?;
-        parts.push(after);
-    }
-
-    // Concatenate along dim
-    if parts.len() == 1 {
-        Ok(parts.remove(0))
-    } else {
-        let refs: Vec<&Tensor> = parts.iter().collect();
-        Tensor::cat(&refs, dim)
-    }
-}
-- 
2.43.0


From 8afac3cebf0f248430e83839579eca67df22e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 29/49] fix: gradients of window reductions with padding and
 overlapping windows (G01)

---
 .../src/tensor/gradient/vjp_windowing.rs      | 182 ++++++------------
 1 file changed, 63 insertions(+), 119 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs b/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
index e273a0b..10304d5 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
@@ -1,148 +1,92 @@
 use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
-    ops::{OpParams, ReduceWindowParams, WindowingOp},
+    op_params::{OpParams, ReduceWindowParams},
+    ops::WindowingOp,
     scalar::Scalar,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for WindowingOp {
     fn compute_vjp(
         &self,
         inputs: &[TensorId],
-        _output: TensorId,
+        output: TensorId,
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
-        let OpParams::ReduceWindow(ReduceWindowParams {
-            window_shape, strides, ..
-        }) = op_params
-        else {
+        let OpParams::ReduceWindow(params) = op_params else {
             return Err(HoduError::VjpFunctionNotFound(
                 "WindowingOp requires ReduceWindowParams".to_string(),
             ));
         };
 
-        let input = inputs[0];
-        let input_tensor = tensor_from_id(input);
+        let input_tensor = tensor_from_id(inputs[0]);
         let input_shape = input_tensor.shape();
+        let output_tensor = tensor_from_id(output);
+        let grad_tensor = tensor_from_id(grad_output);
         let dtype = input_tensor.dtype();
 
-        match self {
-            WindowingOp::ReduceWindowMax | WindowingOp::ReduceWindowMin => {
-                // For max/min pooling, gradient flows only through positions that were max/min
-                // Upsample both output and gradient by repeating each element by stride amount
-
-                // Upsample output
-                let output_tensor = tensor_from_id(_output);
-                let mut upsampled_output = output_tensor.clone();
-
-                // Upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // For each dimension, if stride > 1, insert a dimension after it and broadcast
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        // Upsample output
-                        let current_shape = upsampled_output.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_output = upsampled_output.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_output = upsampled_output.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_output = upsampled_output.reshape(&final_shape)?;
-
-                        // Upsample gradient (same process)
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
-                }
-
-                // Broadcast to exact input shape (handles padding differences)
-                upsampled_output = upsampled_output.broadcast(&input_shape)?;
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-
-                // Create mask: input == upsampled_output
-                let mask = input_tensor.eq(&upsampled_output)?;
-                let mask_f = mask.to_dtype(dtype)?;
-
-                // Multiply gradient by mask
-                let result = upsampled_grad.mul(&mask_f)?;
-
-                Ok(vec![result.id()])
-            },
-            WindowingOp::ReduceWindowMean => {
-                // Mean: divide by window size and upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
+        let window_size: usize = params.window_shape.iter().product();
+        let num_windows = output_tensor.size();
 
-                // Upsample gradient same way as Max/Min
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        let current_shape = upsampled_grad.shape();
-                        let current_dims = current_shape.dims();
+        // Input position of every element of every window: [num_windows, window_size]
+        let (positions, inside) = window_positions(params, input_shape.dims(), output_tensor.shape().dims());
+        let positions = Tensor::new(positions)?;
+        let inside = Tensor::new(inside)?
+            .to_dtype(dtype)?
+            .reshape([num_windows, window_size])?;
 
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
-                }
-
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-
-                let window_size: usize = window_shape.iter().product();
-                let scale = Scalar::from_f32(1.0 / window_size as f32, dtype);
-                let scaled_grad = upsampled_grad.mul_scalar(scale)?;
-                Ok(vec![scaled_grad.id()])
+        // Share of the gradient of its window that goes to every element
+        let shares = match self {
+            WindowingOp::ReduceWindowSum => inside,
+            WindowingOp::ReduceWindowMean => inside.mul_scalar(Scalar::from_f32(1.0 / window_size as f32, dtype))?,
+            WindowingOp::ReduceWindowMax | WindowingOp::ReduceWindowMin => {
+                // The elements that are equal to the result share it
+                let elements = input_tensor
+                    .contiguous()?
+                    .flatten()?
+                    .index_select(0, &positions)?
+                    .reshape([num_windows, window_size])?;
+                let result = output_tensor.contiguous()?.reshape([num_windows, 1])?;
+                let result = result.broadcast([num_windows, window_size])?;
+                let winners = elements.eq(&result)?.to_dtype(dtype)?.mul(&inside)?;
+                let count = winners.sum(&[1], true)?.maximum(&Tensor::ones([1, 1], dtype)?)?;
+                winners.div(&count)?
             },
-            WindowingOp::ReduceWindowSum => {
-                // Sum: just upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // Upsample gradient same way as Max/Min
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        let current_shape = upsampled_grad.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
+        };
 
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
-                }
+        let grad = grad_tensor.contiguous()?.reshape([num_windows, 1])?.mul(&shares)?;
+        let grad_input = Tensor::zeros([input_shape.size()], dtype)?.scatter_add(0, &positions, &grad.flatten()?)?;
+        Ok(vec![grad_input.reshape(&input_shape)?.id()])
+    }
+}
 
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-                Ok(vec![upsampled_grad.id()])
-            },
+/// For every element of every window its position in the input, and 1 when it lies in the input, 0 when in the padding.
+fn window_positions(params: &ReduceWindowParams, input_dims: &[usize], output_dims: &[usize]) -> (Vec<i32>, Vec<f32>) {
+    let num_windows: usize = output_dims.iter().product();
+    let window_size: usize = params.window_shape.iter().product();
+    let mut positions = Vec::with_capacity(num_windows * window_size);
+    let mut inside = Vec::with_capacity(num_windows * window_size);
+
+    for window in 0..num_windows {
+        for element in 0..window_size {
+            let (mut window_rest, mut element_rest) = (window, element);
+            let (mut position, mut stride, mut in_input) = (0usize, 1usize, true);
+            for dim in (0..input_dims.len()).rev() {
+                let start = (window_rest % output_dims[dim]) * params.strides[dim];
+                let coordinate = start + element_rest % params.window_shape[dim];
+                window_rest /= output_dims[dim];
+                element_rest /= params.window_shape[dim];
+
+                let before = params.padding[dim].0;
+                in_input &= coordinate >= before && coordinate - before < input_dims[dim];
+                position += coordinate.saturating_sub(before) * stride;
+                stride *= input_dims[dim];
+            }
+            positions.push(if in_input { position as i32 } else { 0 });
+            inside.push(if in_input { 1.0 } else { 0.0 });
         }
     }
+    (positions, inside)
 }
-- 
2.43.0


From c3c2da98cc5b3cdb62f6b5c1492417bd4f78412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 30/49] fix: gradient of resize is the transposed interpolation
 (G01)

---
 .../src/tensor/gradient/vjp_resize.rs         | 99 ++++++++++---------
 1 file changed, 51 insertions(+), 48 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_resize.rs b/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
index edcc827..d033ff8 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
@@ -1,9 +1,9 @@
 use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
-    op_params::{OpParams, ResizeMode, ResizeParams},
+    op_params::{OpParams, ResizeCoordTransform, ResizeMode, ResizeNearestMode, ResizeParams},
     ops::ResizeOp,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for ResizeOp {
@@ -14,13 +14,7 @@ impl VjpCompute for ResizeOp {
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
-        let OpParams::Resize(ResizeParams {
-            mode,
-            coord_transform,
-            nearest_mode,
-            ..
-        }) = op_params
-        else {
+        let OpParams::Resize(params) = op_params else {
             return Err(HoduError::VjpFunctionNotFound(
                 "ResizeOp requires ResizeParams".to_string(),
             ));
@@ -28,48 +22,57 @@ impl VjpCompute for ResizeOp {
 
         match self {
             ResizeOp::Resize => {
-                let input = inputs[0];
-                let input_tensor = tensor_from_id(input);
-                let input_shape = input_tensor.shape();
-                let input_dims = input_shape.dims();
+                let input_shape = tensor_from_id(inputs[0]).shape();
+                let mut grad = tensor_from_id(grad_output);
 
-                let grad_tensor = tensor_from_id(grad_output);
+                // Resizing multiplies every spatial dimension by a matrix of interpolation weights,
+                // the gradient goes back through the transposed matrices
+                for dim in 2..input_shape.ndim() {
+                    let input_size = input_shape.dims()[dim];
+                    let output_size = params.output_size[dim - 2];
+                    if input_size == output_size {
+                        continue;
+                    }
+                    let weights = interpolation_weights(params, input_size, output_size)?.to_dtype(grad.dtype())?;
+                    grad = grad.transpose(dim as i32, -1)?.matmul(&weights)?;
+                    grad = grad.transpose(dim as i32, -1)?;
+                }
 
-                // For resize, the gradient flows back by resizing grad_output to input shape
-                // This is valid for bilinear/bicubic interpolation
-                // For nearest neighbor, there's no well-defined gradient (we use bilinear for backward)
-
-                // Get spatial dimensions from input (skip batch and channel)
-                let spatial_dims: Vec<usize> = input_dims[2..].to_vec();
-
-                // For nearest mode, there's technically no gradient, but we can approximate
-                // by using bilinear interpolation for the backward pass
-                let backward_mode = match mode {
-                    ResizeMode::Nearest => "bilinear", // Use bilinear for backward pass
-                    ResizeMode::Linear => "bilinear",
-                    ResizeMode::Cubic => "bicubic",
-                };
-
-                let coord_transform_str = match coord_transform {
-                    crate::op_params::ResizeCoordTransform::HalfPixel => "half_pixel",
-                    crate::op_params::ResizeCoordTransform::Asymmetric => "asymmetric",
-                    crate::op_params::ResizeCoordTransform::AlignCorners => "align_corners",
-                    crate::op_params::ResizeCoordTransform::PytorchHalfPixel => "pytorch_half_pixel",
-                };
-
-                let nearest_mode_str = match nearest_mode {
-                    crate::op_params::ResizeNearestMode::Floor => "floor",
-                    crate::op_params::ResizeNearestMode::Ceil => "ceil",
-                    crate::op_params::ResizeNearestMode::RoundPreferFloor => "round_prefer_floor",
-                    crate::op_params::ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil",
-                };
-
-                // Resize grad_output back to input spatial dimensions
-                let grad_input =
-                    grad_tensor.resize(&spatial_dims, backward_mode, coord_transform_str, nearest_mode_str)?;
-
-                Ok(vec![grad_input.id()])
+                Ok(vec![grad.contiguous()?.id()])
             },
         }
     }
 }
+
+/// Weight of every input position in every output position, as a matrix [output_size, input_size]:
+/// the rows of the identity matrix, resized.
+fn interpolation_weights(params: &ResizeParams, input_size: usize, output_size: usize) -> HoduResult<Tensor> {
+    let mode = match params.mode {
+        ResizeMode::Nearest => "nearest",
+        ResizeMode::Linear => "bilinear",
+        ResizeMode::Cubic => "bicubic",
+    };
+    let coord_transform = match params.coord_transform {
+        ResizeCoordTransform::HalfPixel => "half_pixel",
+        ResizeCoordTransform::Asymmetric => "asymmetric",
+        ResizeCoordTransform::AlignCorners => "align_corners",
+        ResizeCoordTransform::PytorchHalfPixel => "pytorch_half_pixel",
+    };
+    let nearest_mode = match params.nearest_mode {
+        ResizeNearestMode::Floor => "floor",
+        ResizeNearestMode::Ceil => "ceil",
+        ResizeNearestMode::RoundPreferFloor => "round_prefer_floor",
+        ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil",
+    };
+
+    let mut identity = vec![0f32; input_size * input_size];
+    for position in 0..input_size {
+        identity[position * input_size + position] = 1.0;
+    }
+    let identity = Tensor::new(identity)?.reshape([1, input_size, 1, input_size])?;
+    let resized = identity.resize(&[1, output_size], mode, coord_transform, nearest_mode)?;
+    resized
+        .reshape([input_size, output_size])?
+        .transpose(0, 1)?
+        .contiguous()
+}
-- 
2.43.0


From c937a18092a758782518990bfa880e9734663e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 31/49] fix: gradients of einsum with summed or repeated
 labels, vectors in matmul, det and trace (G01)

---
 .../src/tensor/gradient/vjp_einsum.rs         | 95 ++++++++++++++-----
 .../src/tensor/gradient/vjp_linalg.rs         | 30 +++---
 .../src/tensor/gradient/vjp_matrix.rs         | 64 ++++++-------
 3 files changed, 118 insertions(+), 71 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs b/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
index 969d7c0..42c558f 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     op_params::{EinsumParams, OpParams},
     ops::EinsumOp,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for EinsumOp {
@@ -28,42 +28,62 @@ impl VjpCompute for EinsumOp {
                 };
 
                 let grad_tensor = tensor_from_id(grad_output);
+                let input_tensors: Vec<Tensor> = inputs.iter().map(|&id| tensor_from_id(id)).collect();
                 let mut grad_inputs = Vec::with_capacity(inputs.len());
 
-                for (i, _input_id) in inputs.iter().enumerate() {
+                for (i, input_tensor) in input_tensors.iter().enumerate() {
                     // Build gradient equation for input i
                     // grad_input_i = einsum(grad_equation, [grad, other_inputs...])
                     //
                     // The grad equation:
                     // - First operand: grad_output with output_subscripts
                     // - Other operands: all inputs except input i with their subscripts
-                    // - Result: input_subscripts[i]
-
-                    let mut grad_operand_subs = Vec::new();
-                    let mut grad_operand_tensors = Vec::new();
-
-                    // First operand is the gradient output
-                    grad_operand_subs.push(output_subscripts.iter().collect::<String>());
-                    grad_operand_tensors.push(&grad_tensor);
-
-                    // Remaining operands are inputs except the one we're computing gradient for
-                    let input_tensors: Vec<_> = inputs.iter().map(|&id| tensor_from_id(id)).collect();
-                    for (j, input_tensor) in input_tensors.iter().enumerate() {
+                    // - Result: the subscripts of input i that occur in an operand, each once
+                    let subscripts = &input_subscripts[i];
+                    let mut operand_subscripts = vec![output_subscripts];
+                    let mut operands = vec![&grad_tensor];
+                    for (j, other) in input_tensors.iter().enumerate() {
                         if j != i {
-                            grad_operand_subs.push(input_subscripts[j].iter().collect::<String>());
-                            grad_operand_tensors.push(input_tensor);
+                            operand_subscripts.push(&input_subscripts[j]);
+                            operands.push(other);
                         }
                     }
+                    let result_subscripts: Vec<char> = subscripts
+                        .iter()
+                        .enumerate()
+                        .filter(|&(dim, c)| {
+                            !subscripts[..dim].contains(c) && operand_subscripts.iter().any(|subs| subs.contains(c))
+                        })
+                        .map(|(_, &c)| c)
+                        .collect();
 
-                    // Result subscripts are the subscripts of the input we're computing gradient for
-                    let result_subs: String = input_subscripts[i].iter().collect();
+                    let operand_equation: Vec<String> =
+                        operand_subscripts.iter().map(|subs| subs.iter().collect()).collect();
+                    let result_equation: String = result_subscripts.iter().collect();
+                    let grad_equation = format!("{}->{}", operand_equation.join(","), result_equation);
+                    let mut grad_input = Tensor::einsum(&grad_equation, &operands)?;
 
-                    // Build the equation string
-                    let grad_equation = format!("{}->{}", grad_operand_subs.join(","), result_subs);
-
-                    // Compute the gradient
-                    let grad_tensor_refs: Vec<&crate::tensor::Tensor> = grad_operand_tensors.to_vec();
-                    let grad_input = crate::tensor::Tensor::einsum(&grad_equation, &grad_tensor_refs)?;
+                    if result_subscripts.len() < subscripts.len() {
+                        // The gradient is the same along a dimension that is only summed,
+                        // and lies on the diagonal of the dimensions that share a subscript
+                        let input_shape = input_tensor.shape();
+                        let dims = input_shape.dims();
+                        let kept_dims: Vec<usize> = (0..dims.len())
+                            .map(|dim| {
+                                let first = !subscripts[..dim].contains(&subscripts[dim]);
+                                if first && result_subscripts.contains(&subscripts[dim]) {
+                                    dims[dim]
+                                } else {
+                                    1
+                                }
+                            })
+                            .collect();
+                        grad_input = grad_input.reshape(&kept_dims)?.broadcast(&input_shape)?;
+                        if let Some(diagonal) = diagonal_mask(subscripts, dims) {
+                            let diagonal = Tensor::new(diagonal)?.reshape(dims)?.to_dtype(grad_input.dtype())?;
+                            grad_input = grad_input.mul(&diagonal)?;
+                        }
+                    }
 
                     grad_inputs.push(grad_input.id());
                 }
@@ -73,3 +93,30 @@ impl VjpCompute for EinsumOp {
         }
     }
 }
+
+/// 1 where the coordinates of every repeated subscript are equal, 0 elsewhere. `None` without repeated subscripts.
+fn diagonal_mask(subscripts: &[char], dims: &[usize]) -> Option<Vec<f32>> {
+    let first: Vec<usize> = subscripts
+        .iter()
+        .map(|c| subscripts.iter().position(|other| other == c).unwrap_or(0))
+        .collect();
+    if first.iter().enumerate().all(|(dim, &first)| dim == first) {
+        return None;
+    }
+    let size: usize = dims.iter().product();
+    let mut mask = Vec::with_capacity(size);
+    let mut coordinates = vec![0usize; dims.len()];
+    for position in 0..size {
+        let mut rest = position;
+        for dim in (0..dims.len()).rev() {
+            coordinates[dim] = rest % dims[dim];
+            rest /= dims[dim];
+        }
+        let on_diagonal = first
+            .iter()
+            .enumerate()
+            .all(|(dim, &first)| coordinates[dim] == coordinates[first]);
+        mask.push(if on_diagonal { 1.0 } else { 0.0 });
+    }
+    Some(mask)
+}
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
index 17ea7c3..ef06c39 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
@@ -2,7 +2,7 @@ use super::VjpCompute;
 use crate::{
     error::HoduResult,
     ops::{LinalgOp, OpParams},
-    tensor::{Tensor, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for LinalgOp {
@@ -25,9 +25,9 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let det_value = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let det_value = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Compute A^{-1}
                 let inv_a = input.inv()?;
@@ -36,9 +36,9 @@ impl VjpCompute for LinalgOp {
                 let inv_a_t = inv_a.transpose(-2, -1)?;
 
                 // Scale by det(A) * grad_output
-                // det_value and grad have shape [...], need to expand to [..., 1, 1]
+                // det_value and grad hold one value per matrix, need to expand to [..., 1, 1]
                 let scale = grad.mul(&det_value)?;
-                let scale = scale.unsqueeze(-1)?.unsqueeze(-1)?;
+                let scale = scale.reshape(per_matrix_dims(&input))?;
 
                 // grad_input = scale * inv_a_t
                 let grad_input = inv_a_t.mul(&scale)?;
@@ -53,8 +53,8 @@ impl VjpCompute for LinalgOp {
                 // Since output = inv(A), we have:
                 // dL/dA = -output^T @ grad_output @ output^T
 
-                let inv_a = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let inv_a = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Transpose the output (inverse): A^{-T}
                 let inv_a_t = inv_a.transpose(-2, -1)?;
@@ -77,8 +77,8 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let grad = tensor_from_id(grad_output);
 
                 // Get the matrix size from input shape
                 let shape = input.shape();
@@ -89,7 +89,7 @@ impl VjpCompute for LinalgOp {
                 let eye = Tensor::eye(n, input.dtype())?;
 
                 // Expand grad to [..., 1, 1] for broadcasting
-                let scale = grad.unsqueeze(-1)?.unsqueeze(-1)?;
+                let scale = grad.reshape(per_matrix_dims(&input))?;
 
                 // grad_input = scale * I
                 let grad_input = eye.mul(&scale)?;
@@ -99,3 +99,11 @@ impl VjpCompute for LinalgOp {
         }
     }
 }
+
+/// Shape [..., 1, 1] that holds one value per matrix of `input`
+fn per_matrix_dims(input: &Tensor) -> Vec<usize> {
+    let mut dims = input.shape().dims().to_vec();
+    let ndim = dims.len();
+    dims[ndim - 2..].fill(1);
+    dims
+}
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_matrix.rs b/crates/hodu_core/src/tensor/gradient/vjp_matrix.rs
index 9c80b85..7491f8e 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_matrix.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_matrix.rs
@@ -14,55 +14,47 @@ impl VjpCompute for MatrixOp {
         _op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         match self {
-            MatrixOp::Matmul => {
-                // For matmul (ND batched with broadcasting):
+            MatrixOp::Matmul | MatrixOp::Dot => {
+                // For matmul (ND batched with broadcasting) and dot:
                 // dA = grad_output @ B^T
                 // dB = A^T @ grad_output
                 // Need to sum gradients to match original input shapes (handles broadcasting)
-                let a = inputs[0];
-                let b = inputs[1];
-
-                let a_tensor = tensor_from_id(a);
-                let b_tensor = tensor_from_id(b);
+                let mut a_tensor = tensor_from_id(inputs[0]);
+                let mut b_tensor = tensor_from_id(inputs[1]);
                 let grad_tensor = tensor_from_id(grad_output);
                 let a_shape = a_tensor.shape();
                 let b_shape = b_tensor.shape();
 
+                // A vector on the left is a row, a vector on the right a column
+                let mut grad_dims = grad_tensor.shape().dims().to_vec();
+                if b_shape.ndim() == 1 {
+                    b_tensor = b_tensor.reshape([b_shape.dims()[0], 1])?;
+                    if a_shape.ndim() == 1 {
+                        grad_dims = vec![1];
+                    } else {
+                        grad_dims.push(1);
+                    }
+                }
+                if a_shape.ndim() == 1 {
+                    a_tensor = a_tensor.reshape([1, a_shape.dims()[0]])?;
+                    grad_dims.insert(grad_dims.len() - 1, 1);
+                }
+                let grad_tensor = grad_tensor.reshape(&grad_dims)?;
+
                 // dA = grad_output @ B^T
-                let b_transposed = b_tensor.transpose(-2, -1)?;
-                let grad_a_raw = grad_tensor.matmul(&b_transposed)?;
+                let grad_a_raw = grad_tensor.matmul(&b_tensor.transpose(-2, -1)?)?;
 
                 // dB = A^T @ grad_output
-                let a_transposed = a_tensor.transpose(-2, -1)?;
-                let grad_b_raw = a_transposed.matmul(&grad_tensor)?;
+                let grad_b_raw = a_tensor.transpose(-2, -1)?.matmul(&grad_tensor)?;
 
                 // Sum gradients to match original input shapes (handles broadcasting)
-                let grad_a = create_sum_to_shape_tensor(grad_a_raw.id(), &a_shape)?;
-                let grad_b = create_sum_to_shape_tensor(grad_b_raw.id(), &b_shape)?;
-
-                Ok(vec![grad_a, grad_b])
-            },
-            MatrixOp::Dot => {
-                // For simple dot (1D/2D only, no batching):
-                // dA = grad_output @ B^T
-                // dB = A^T @ grad_output
-                // No broadcasting to handle, so no need for sum_to_shape
-                let a = inputs[0];
-                let b = inputs[1];
-
-                let a_tensor = tensor_from_id(a);
-                let b_tensor = tensor_from_id(b);
-                let grad_tensor = tensor_from_id(grad_output);
-
-                // dA = grad_output @ B^T
-                let b_transposed = b_tensor.transpose(-2, -1)?;
-                let grad_a = grad_tensor.dot(&b_transposed)?;
-
-                // dB = A^T @ grad_output
-                let a_transposed = a_tensor.transpose(-2, -1)?;
-                let grad_b = a_transposed.dot(&grad_tensor)?;
+                let grad_a = create_sum_to_shape_tensor(grad_a_raw.id(), &a_tensor.shape())?;
+                let grad_b = create_sum_to_shape_tensor(grad_b_raw.id(), &b_tensor.shape())?;
 
-                Ok(vec![grad_a.id(), grad_b.id()])
+                Ok(vec![
+                    tensor_from_id(grad_a).reshape(&a_shape)?.id(),
+                    tensor_from_id(grad_b).reshape(&b_shape)?.id(),
+                ])
             },
         }
     }
-- 
2.43.0


From 4131a7cb426db99ccd1a338ab6cd18fc91c58c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 32/49] fix: gradients of transposed convolutions with output
 padding, hardsigmoid and hardsilu (G01)

---
 crates/hodu_core/src/tensor/gradient/vjp_conv.rs  |  9 ++++++---
 crates/hodu_core/src/tensor/gradient/vjp_unary.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
index 0b93ab0..a9d6c75 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
@@ -194,7 +194,8 @@ impl VjpCompute for ConvOp {
 
                 // Gradient w.r.t. input: Use regular Conv1d
                 // weight shape for conv1d is [Co, Ci, K], but we need to transpose channels
-                let grad_input = grad_output_tensor.conv1d(&weight, stride, padding, dilation)?;
+                // An output padding adds windows after the last input position
+                let grad_input = crop_to_input(grad_output_tensor.conv1d(&weight, stride, padding, dilation)?, &input)?;
 
                 // Gradient w.r.t. weight: conv_transpose1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_input, channels_output, kernel_size];
@@ -235,7 +236,8 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: Use regular Conv2d
-                let grad_input = grad_output_tensor.conv2d(&weight, stride, padding, dilation)?;
+                // An output padding adds windows after the last input position
+                let grad_input = crop_to_input(grad_output_tensor.conv2d(&weight, stride, padding, dilation)?, &input)?;
 
                 // Gradient w.r.t. weight: conv_transpose2d_grad_weight
                 let weight_shape = vec![channels_input, channels_output, kernel_height, kernel_width];
@@ -277,7 +279,8 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: Use regular Conv3d
-                let grad_input = grad_output_tensor.conv3d(&weight, stride, padding, dilation)?;
+                // An output padding adds windows after the last input position
+                let grad_input = crop_to_input(grad_output_tensor.conv3d(&weight, stride, padding, dilation)?, &input)?;
 
                 // Gradient w.r.t. weight: conv_transpose3d_grad_weight
                 let weight_shape = vec![
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_unary.rs b/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
index 9065970..6d3697d 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
@@ -71,9 +71,9 @@ impl VjpCompute for UnaryOp {
                 let one = Scalar::one(dtype);
 
                 // indicator = (output > 0) & (output < 1)
-                let gt_zero = create_gt_scalar_tensor(_output, zero)?;
-                let lt_one = create_lt_scalar_tensor(_output, one)?;
-                let indicator = create_mul_tensor(gt_zero, lt_one)?;
+                let gt_zero = tensor_from_id(create_gt_scalar_tensor(_output, zero)?);
+                let lt_one = tensor_from_id(create_lt_scalar_tensor(_output, one)?);
+                let indicator = gt_zero.logical_and(&lt_one)?.to_dtype(dtype)?.id();
 
                 // derivative = indicator * (1/6)
                 let derivative = create_mul_scalar_tensor(indicator, one_sixth)?;
@@ -156,9 +156,9 @@ impl VjpCompute for UnaryOp {
                 let hardsigmoid_x = create_hardsigmoid_tensor(input)?;
 
                 // indicator = (hardsigmoid(x) > 0) & (hardsigmoid(x) < 1)
-                let gt_zero = create_gt_scalar_tensor(hardsigmoid_x, zero)?;
-                let lt_one = create_lt_scalar_tensor(hardsigmoid_x, one)?;
-                let indicator = create_mul_tensor(gt_zero, lt_one)?;
+                let gt_zero = tensor_from_id(create_gt_scalar_tensor(hardsigmoid_x, zero)?);
+                let lt_one = tensor_from_id(create_lt_scalar_tensor(hardsigmoid_x, one)?);
+                let indicator = gt_zero.logical_and(&lt_one)?.to_dtype(dtype)?.id();
 
                 // x * indicator * (1/6)
                 let x_indicator = create_mul_tensor(input, indicator)?;
-- 
2.43.0


From d0dfb4ee35d3598f0ca309d76761d3a11dfc9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 33/49] fix: refuse convolutions whose shapes or steps do not
 fit (T07)

---
 crates/hodu_core/src/tensor/ops/conv.rs | 166 ++++++++++++++++++++++--
 1 file changed, 154 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index 27b0159..8313100 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -58,7 +58,7 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv1d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv1d));
 
-        let output_length = (length_input + 2 * padding - dilation * (kernel_size - 1) - 1) / stride + 1;
+        let output_length = conv_output_size(length_input, kernel_size, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
@@ -182,8 +182,8 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv2d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv2d));
 
-        let output_height = (input_height + 2 * padding - dilation * (kernel_height - 1) - 1) / stride + 1;
-        let output_width = (input_width + 2 * padding - dilation * (kernel_width - 1) - 1) / stride + 1;
+        let output_height = conv_output_size(input_height, kernel_height, stride, padding, dilation)?;
+        let output_width = conv_output_size(input_width, kernel_width, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
@@ -311,9 +311,9 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv3d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv3d));
 
-        let output_depth = (input_depth + 2 * padding - dilation * (kernel_depth - 1) - 1) / stride + 1;
-        let output_height = (input_height + 2 * padding - dilation * (kernel_height - 1) - 1) / stride + 1;
-        let output_width = (input_width + 2 * padding - dilation * (kernel_width - 1) - 1) / stride + 1;
+        let output_depth = conv_output_size(input_depth, kernel_depth, stride, padding, dilation)?;
+        let output_height = conv_output_size(input_height, kernel_height, stride, padding, dilation)?;
+        let output_width = conv_output_size(input_width, kernel_width, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
@@ -448,7 +448,7 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose1d));
 
         let output_length =
-            (length_input - 1) * stride + dilation * (kernel_size - 1) + output_padding + 1 - 2 * padding;
+            conv_transpose_output_size(length_input, kernel_size, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
@@ -583,9 +583,9 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose2d));
 
         let output_height =
-            (input_height - 1) * stride + dilation * (kernel_height - 1) + output_padding + 1 - 2 * padding;
+            conv_transpose_output_size(input_height, kernel_height, stride, padding, output_padding, dilation)?;
         let output_width =
-            (input_width - 1) * stride + dilation * (kernel_width - 1) + output_padding + 1 - 2 * padding;
+            conv_transpose_output_size(input_width, kernel_width, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
@@ -724,11 +724,11 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose3d));
 
         let output_depth =
-            (input_depth - 1) * stride + dilation * (kernel_depth - 1) + output_padding + 1 - 2 * padding;
+            conv_transpose_output_size(input_depth, kernel_depth, stride, padding, output_padding, dilation)?;
         let output_height =
-            (input_height - 1) * stride + dilation * (kernel_height - 1) + output_padding + 1 - 2 * padding;
+            conv_transpose_output_size(input_height, kernel_height, stride, padding, output_padding, dilation)?;
         let output_width =
-            (input_width - 1) * stride + dilation * (kernel_width - 1) + output_padding + 1 - 2 * padding;
+            conv_transpose_output_size(input_width, kernel_width, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
@@ -849,6 +849,16 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight_shapes(
+            input_dims,
+            grad_output_dims,
+            weight_shape,
+            false,
+            stride,
+            padding,
+            dilation,
+        )?;
+
         let stride_arr = [stride];
         let padding_arr = [padding];
         let dilation_arr = [dilation];
@@ -935,6 +945,16 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight_shapes(
+            input_dims,
+            grad_output_dims,
+            weight_shape,
+            false,
+            stride,
+            padding,
+            dilation,
+        )?;
+
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
         let dilation_arr = [dilation; 2];
@@ -1022,6 +1042,16 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight_shapes(
+            input_dims,
+            grad_output_dims,
+            weight_shape,
+            false,
+            stride,
+            padding,
+            dilation,
+        )?;
+
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
         let dilation_arr = [dilation; 3];
@@ -1110,6 +1140,16 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight_shapes(
+            input_dims,
+            grad_output_dims,
+            weight_shape,
+            true,
+            stride,
+            padding,
+            dilation,
+        )?;
+
         let stride_arr = [stride];
         let padding_arr = [padding];
         let dilation_arr = [dilation];
@@ -1196,6 +1236,16 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight_shapes(
+            input_dims,
+            grad_output_dims,
+            weight_shape,
+            true,
+            stride,
+            padding,
+            dilation,
+        )?;
+
         let stride_arr = [stride; 2];
         let padding_arr = [padding; 2];
         let dilation_arr = [dilation; 2];
@@ -1283,6 +1333,16 @@ impl Tensor {
             ));
         }
 
+        validate_grad_weight_shapes(
+            input_dims,
+            grad_output_dims,
+            weight_shape,
+            true,
+            stride,
+            padding,
+            dilation,
+        )?;
+
         let stride_arr = [stride; 3];
         let padding_arr = [padding; 3];
         let dilation_arr = [dilation; 3];
@@ -1335,3 +1395,85 @@ impl Tensor {
         }
     }
 }
+
+/// Number of windows along a dimension of a convolution.
+fn conv_output_size(input: usize, kernel: usize, stride: usize, padding: usize, dilation: usize) -> HoduResult<usize> {
+    validate_conv_steps(stride, dilation)?;
+    let padded = input + 2 * padding;
+    let extent = dilation * kernel.saturating_sub(1) + 1;
+    if kernel == 0 || extent > padded {
+        return Err(HoduError::InvalidArgument(format!(
+            "convolution kernel of extent {} does not fit into the padded input of size {}",
+            extent, padded
+        )));
+    }
+    Ok((padded - extent) / stride + 1)
+}
+
+/// Size of a dimension of the result of a transposed convolution.
+fn conv_transpose_output_size(
+    input: usize,
+    kernel: usize,
+    stride: usize,
+    padding: usize,
+    output_padding: usize,
+    dilation: usize,
+) -> HoduResult<usize> {
+    validate_conv_steps(stride, dilation)?;
+    if input == 0 || kernel == 0 {
+        return Err(HoduError::InvalidArgument(
+            "transposed convolution of an empty dimension".to_string(),
+        ));
+    }
+    let full = (input - 1) * stride + dilation * (kernel - 1) + output_padding + 1;
+    if full <= 2 * padding {
+        return Err(HoduError::InvalidArgument(format!(
+            "padding {} leaves nothing of a transposed convolution of size {}",
+            padding, full
+        )));
+    }
+    Ok(full - 2 * padding)
+}
+
+fn validate_conv_steps(stride: usize, dilation: usize) -> HoduResult<()> {
+    if stride == 0 || dilation == 0 {
+        return Err(HoduError::InvalidArgument(
+            "stride and dilation of a convolution must be positive".to_string(),
+        ));
+    }
+    Ok(())
+}
+
+/// The gradient must have the shape of the result of the convolution.
+fn validate_grad_weight_shapes(
+    input: &[usize],
+    grad_output: &[usize],
+    weight: &[usize],
+    transposed: bool,
+    stride: usize,
+    padding: usize,
+    dilation: usize,
+) -> HoduResult<()> {
+    let (channels_in, channels_out) = if transposed {
+        (weight[0], weight[1])
+    } else {
+        (weight[1], weight[0])
+    };
+    let mut matches = input[0] == grad_output[0] && input[1] == channels_in && grad_output[1] == channels_out;
+    for dim in 2..input.len() {
+        matches &= if transposed {
+            validate_conv_steps(stride, dilation)?;
+            let reach = (input[dim].max(1) - 1) * stride + dilation * (weight[dim].max(1) - 1) + 1;
+            grad_output[dim] + 2 * padding >= reach
+        } else {
+            grad_output[dim] == conv_output_size(input[dim], weight[dim], stride, padding, dilation)?
+        };
+    }
+    if !matches {
+        return Err(HoduError::InvalidArgument(format!(
+            "gradient of shape {:?} does not belong to a convolution of {:?} with weights {:?}",
+            grad_output, input, weight
+        )));
+    }
+    Ok(())
+}
-- 
2.43.0


From 4346186c630c8564762a7bcab517c23d82bac61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 34/49] fix: refuse empty windows, zero strides and empty
 resize targets (T07)

---
 crates/hodu_core/src/tensor/ops/resize.rs    | 6 ++++++
 crates/hodu_core/src/tensor/ops/windowing.rs | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/hodu_core/src/tensor/ops/resize.rs b/crates/hodu_core/src/tensor/ops/resize.rs
index eea603a..b7336d6 100644
--- a/crates/hodu_core/src/tensor/ops/resize.rs
+++ b/crates/hodu_core/src/tensor/ops/resize.rs
@@ -58,6 +58,12 @@ impl Tensor {
             });
         }
 
+        if output_size.contains(&0) {
+            return Err(HoduError::InvalidLayout {
+                reason: "resize requires positive output sizes".to_string(),
+            });
+        }
+
         let resize_mode = match mode.to_lowercase().as_str() {
             "nearest" => ResizeMode::Nearest,
             "linear" | "bilinear" | "trilinear" => ResizeMode::Linear,
diff --git a/crates/hodu_core/src/tensor/ops/windowing.rs b/crates/hodu_core/src/tensor/ops/windowing.rs
index 5ae96d8..069b97d 100644
--- a/crates/hodu_core/src/tensor/ops/windowing.rs
+++ b/crates/hodu_core/src/tensor/ops/windowing.rs
@@ -69,6 +69,14 @@ impl Tensor {
         let mut output_dims = Vec::with_capacity(rank);
         for i in 0..rank {
             let padded_size = input_dims[i] + padding[i].0 + padding[i].1;
+            if window_dims[i] == 0 || stride_dims[i] == 0 || window_dims[i] > padded_size {
+                return Err(HoduError::InvalidLayout {
+                    reason: format!(
+                        "window of size {} with stride {} does not fit into dimension {} of padded size {}",
+                        window_dims[i], stride_dims[i], i, padded_size
+                    ),
+                });
+            }
             let out_size = (padded_size - window_dims[i]) / stride_dims[i] + 1;
             output_dims.push(out_size);
         }
-- 
2.43.0


From c036ce8ba93e020222e1cf5779e67837cf7187cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 35/49] fix: refuse repeated squeeze dims, unreachable
 sum_to_shape targets, bad onehot, scan, topk and einsum requests (T07)

---
 crates/hodu_core/src/einsum.rs              |  8 +++++++-
 crates/hodu_core/src/tensor/ops/indexing.rs |  7 ++++++-
 crates/hodu_core/src/tensor/ops/reduce.rs   | 18 +++++++++++++++++-
 crates/hodu_core/src/tensor/ops/scan.rs     |  5 ++++-
 crates/hodu_core/src/tensor/ops/sort.rs     |  5 ++++-
 crates/hodu_core/src/types/layout.rs        |  6 ++++++
 6 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/einsum.rs b/crates/hodu_core/src/einsum.rs
index de03ed9..f7377d6 100644
--- a/crates/hodu_core/src/einsum.rs
+++ b/crates/hodu_core/src/einsum.rs
@@ -85,7 +85,13 @@ impl ParsedEinsum {
                 .collect()
         };
 
-        for &c in &output_subscripts {
+        for (position, &c) in output_subscripts.iter().enumerate() {
+            if output_subscripts[..position].contains(&c) {
+                return Err(HoduError::InvalidArgument(format!(
+                    "einsum output index '{}' is repeated",
+                    c
+                )));
+            }
             if !index_sizes.contains_key(&c) {
                 return Err(HoduError::InvalidArgument(format!(
                     "einsum output index '{}' not found in any input",
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index b9cbb39..3209a66 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -1,5 +1,5 @@
 use crate::{
-    error::HoduResult,
+    error::{HoduError, HoduResult},
     ops::{
         CompressParams, GatherParams, IndexPutParams, IndexSelectParams, IndexingOp, NonzeroParams, OnehotoParams, Op,
         OpParams, ScatterAddParams, ScatterMaxParams, ScatterMinParams, ScatterParams, UniqueParams,
@@ -557,6 +557,11 @@ impl Tensor {
     pub fn onehot<N: Into<Scalar>, A: Into<Scalar>>(&self, num_classes: N, axis: A, dtype: DType) -> HoduResult<Self> {
         let num_classes_scalar = num_classes.into();
         let axis_scalar = axis.into();
+        if num_classes_scalar.to_i64() < 0 {
+            return Err(HoduError::InvalidArgument(
+                "onehot requires a non-negative number of classes".to_string(),
+            ));
+        }
         let num_classes_usize = num_classes_scalar.to_usize();
         let axis_i32 = axis_scalar.to_i32();
 
diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index 56b26c6..d71b077 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -1,5 +1,5 @@
 use crate::{
-    error::HoduResult,
+    error::{HoduError, HoduResult},
     ops::{Op, OpParams, ReduceOp, ReduceParams},
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
@@ -26,6 +26,22 @@ impl Tensor {
             return Ok(self.clone());
         }
 
+        // The target has to be a shape that broadcasts to the current one
+        let leading = current_dims.len().checked_sub(target_dims.len());
+        let reachable = leading.is_some_and(|leading| {
+            let pairs = target_dims.iter().zip(&current_dims[leading..]);
+            pairs
+                .into_iter()
+                .all(|(&target, &current)| target == current || target == 1)
+        });
+        if !reachable {
+            return Err(HoduError::incompatible_shapes(
+                current_shape,
+                target_shape,
+                Op::Reduce(ReduceOp::Sum),
+            ));
+        }
+
         let mut result = self.clone();
 
         // If current shape has more dimensions than target, reduce leading dimensions
diff --git a/crates/hodu_core/src/tensor/ops/scan.rs b/crates/hodu_core/src/tensor/ops/scan.rs
index 55898ae..3b35f57 100644
--- a/crates/hodu_core/src/tensor/ops/scan.rs
+++ b/crates/hodu_core/src/tensor/ops/scan.rs
@@ -5,7 +5,7 @@ use crate::{
     scalar::Scalar,
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::Layout,
-    utils::valid::normalize_axis,
+    utils::valid::{normalize_axis, validate_dtype_for_device, validate_dtype_for_op},
 };
 
 impl Tensor {
@@ -14,6 +14,9 @@ impl Tensor {
         let dim_i32 = dim_scalar.to_i32();
         let dim_usize = normalize_axis(dim_i32, self.ndim())?;
 
+        validate_dtype_for_device(self.dtype(), self.device())?;
+        validate_dtype_for_op(self.dtype(), Op::Scan(ScanOp::CumSum))?;
+
         let op_params = OpParams::Scan(ScanParams { dim: dim_usize });
 
         let input_layout = self.layout();
diff --git a/crates/hodu_core/src/tensor/ops/sort.rs b/crates/hodu_core/src/tensor/ops/sort.rs
index 18de02b..0223057 100644
--- a/crates/hodu_core/src/tensor/ops/sort.rs
+++ b/crates/hodu_core/src/tensor/ops/sort.rs
@@ -4,7 +4,7 @@ use crate::{
     ops::{Op, SortOp},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Layout, Shape},
-    utils::valid::normalize_axis,
+    utils::valid::{normalize_axis, validate_dtype_for_device, validate_dtype_for_op},
 };
 
 impl Tensor {
@@ -38,6 +38,9 @@ impl Tensor {
 
         let dim_normalized = normalize_axis(dim, ndim)?;
 
+        validate_dtype_for_device(self.dtype(), self.device())?;
+        validate_dtype_for_op(self.dtype(), Op::Sort(SortOp::TopK))?;
+
         let dim_size = shape[dim_normalized];
         if k > dim_size {
             return Err(HoduError::InternalError(format!(
diff --git a/crates/hodu_core/src/types/layout.rs b/crates/hodu_core/src/types/layout.rs
index 2388241..2491d79 100644
--- a/crates/hodu_core/src/types/layout.rs
+++ b/crates/hodu_core/src/types/layout.rs
@@ -224,6 +224,12 @@ impl Layout {
                     });
                 }
 
+                if actual_dims.contains(&actual_dim) {
+                    return Err(HoduError::InvalidLayout {
+                        reason: format!("Cannot squeeze dimension {} twice", dim),
+                    });
+                }
+
                 actual_dims.push(actual_dim);
             }
 
-- 
2.43.0


From c4704c70c336919b8fbae0d119814cad0d4613cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 36/49] fix: tensor records live exactly as long as something
 refers to them (G02, G03, G04, T08)

Tape entries hold references to their inputs and go with their output, so dropping
a leaf or a gradient owner no longer loses operations, gradients or live tensors, and
forward passes or abandoned contexts leave nothing behind. A backward pass consumes
what its own thread has recorded, the flags of a thread are its own, gradients are
tensors of their own, and contexts may be left in any order.
---
 crates/hodu_core/src/tensor.rs                |   2 +-
 crates/hodu_core/src/tensor/core.rs           | 113 ++-----------
 crates/hodu_core/src/tensor/creation.rs       |  14 +-
 .../hodu_core/src/tensor/creation_static.rs   |   3 +-
 crates/hodu_core/src/tensor/gradient.rs       |   8 +-
 .../hodu_core/src/tensor/gradient/compute.rs  |  41 +++--
 .../hodu_core/src/tensor/gradient/context.rs  |   4 +-
 crates/hodu_core/src/tensor/gradient/core.rs  |  44 +++--
 crates/hodu_core/src/tensor/gradient/tape.rs  | 160 +++++++++---------
 crates/hodu_core/src/tensor/internal.rs       | 119 ++++++-------
 crates/hodu_core/src/tensor/registry.rs       |  16 +-
 crates/hodu_nn/macros/src/derive.rs           |   6 +-
 12 files changed, 221 insertions(+), 309 deletions(-)

diff --git a/crates/hodu_core/src/tensor.rs b/crates/hodu_core/src/tensor.rs
index 197e3ed..0d0f6fb 100644
--- a/crates/hodu_core/src/tensor.rs
+++ b/crates/hodu_core/src/tensor.rs
@@ -27,4 +27,4 @@ pub(crate) use internal::{
 };
 
 // Re-export for submodules
-pub(crate) use registry::{get_all_tensor_ids, insert, remove};
+pub(crate) use registry::insert;
diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index a10e352..4b2719c 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -35,63 +35,14 @@ impl AsRef<Tensor> for Tensor {
 
 impl Clone for Tensor {
     fn clone(&self) -> Self {
-        if let Some(()) = registry::with_tensor(self.0, |t| {
-            t.ref_count.fetch_add(1, Ordering::Relaxed);
-        }) {
-            // Tensor exists, ref_count incremented
-        }
+        super::internal::retain(self.0);
         Tensor(self.0)
     }
 }
 
 impl Drop for Tensor {
     fn drop(&mut self) {
-        let (should_remove, should_cleanup_tape, grad_id) = registry::with_tensor(self.0, |t| {
-            let prev_count = t.ref_count.load(Ordering::Relaxed);
-
-            if prev_count > 0 {
-                t.ref_count.fetch_sub(1, Ordering::Relaxed);
-            }
-
-            let remove = if gradient::is_computing_gradients() {
-                false
-            } else {
-                (prev_count == 1 || prev_count == 0) && t.is_runtime && t.owner_context.is_none() && !t.is_gradient
-            };
-
-            let cleanup =
-                prev_count == 1 && t.requires_grad && t.owner_context.is_none() && !gradient::is_computing_gradients();
-
-            (remove, cleanup, t.grad_tensor_id)
-        })
-        .unwrap_or((false, false, None));
-
-        if should_cleanup_tape {
-            gradient::cleanup_tape_for_dropped_tensor(self.0);
-        }
-
-        if should_remove {
-            if let Some(grad_id) = grad_id {
-                if let Some((should_remove_grad, should_cleanup_grad_tape)) = registry::with_tensor(grad_id, |g| {
-                    let prev_count = g.ref_count.load(Ordering::Relaxed);
-                    if prev_count > 0 {
-                        g.ref_count.fetch_sub(1, Ordering::Relaxed);
-                    }
-                    let remove = (prev_count == 1 || prev_count == 0) && g.is_runtime && g.owner_context.is_none();
-                    let cleanup = (prev_count == 1 || prev_count == 0) && g.requires_grad && g.owner_context.is_none();
-                    (remove, cleanup)
-                }) {
-                    if should_cleanup_grad_tape {
-                        gradient::cleanup_tape_for_dropped_tensor(grad_id);
-                    }
-                    if should_remove_grad {
-                        registry::remove(grad_id);
-                    }
-                }
-            }
-
-            registry::remove(self.0);
-        }
+        super::internal::release(vec![self.0]);
     }
 }
 
@@ -102,17 +53,12 @@ pub struct Tensor_ {
     pub(super) requires_grad: bool,
     pub(super) grad_tensor_id: Option<TensorId>,
     pub(super) is_runtime: bool,
-    pub(super) is_gradient: bool,
-    pub(super) owner_context: Option<ContextId>,
+    /// Context whose tape holds the operation that produced this tensor
+    pub(super) recorded_in: Option<ContextId>,
+    /// Handles, tape entries and gradient slots that refer to this tensor
     pub(super) ref_count: AtomicUsize,
 }
 
-impl Tensor_ {
-    pub(crate) fn owner_context(&self) -> Option<ContextId> {
-        self.owner_context
-    }
-}
-
 impl Tensor {
     #[inline]
     pub fn id(&self) -> TensorId {
@@ -239,16 +185,10 @@ impl Tensor {
     }
 
     pub fn grad(&self) -> HoduResult<Self> {
-        if let Some(result) = registry::with_tensor(self.0, |tensor_ref| {
-            if let Some(grad_id) = tensor_ref.grad_tensor_id {
-                Ok(super::internal::tensor_from_id(grad_id))
-            } else {
-                Err(HoduError::GradientNotComputed(self.0))
-            }
-        }) {
-            result
-        } else {
-            Err(HoduError::TensorNotFound(self.0))
+        match registry::with_tensor(self.0, |t| t.grad_tensor_id) {
+            Some(Some(grad_id)) => Ok(super::internal::tensor_from_id(grad_id)),
+            Some(None) => Err(HoduError::GradientNotComputed(self.0)),
+            None => Err(HoduError::TensorNotFound(self.0)),
         }
     }
 
@@ -257,9 +197,7 @@ impl Tensor {
             return Ok(());
         }
 
-        let old_grad_id = registry::with_tensor_mut(self.0, |tensor_ref| tensor_ref.grad_tensor_id.take());
-
-        if let Some(Some(old_grad_id)) = old_grad_id {
+        if let Some(Some(old_grad_id)) = registry::with_tensor(self.0, |t| t.grad_tensor_id) {
             let (shape, dtype) = registry::with_tensor(old_grad_id, |t| {
                 let shape = t.layout.shape().to_vec();
                 let dtype = t.storage.as_ref().map(|s| s.dtype()).unwrap_or(DType::F32);
@@ -267,37 +205,8 @@ impl Tensor {
             })
             .ok_or(HoduError::TensorNotFound(old_grad_id))?;
 
-            let (should_remove, should_cleanup_tape) = registry::with_tensor(old_grad_id, |t| {
-                let prev_count = t.ref_count.fetch_sub(1, Ordering::Relaxed);
-                let remove = prev_count == 1 && t.is_runtime && t.owner_context.is_none();
-                let cleanup = prev_count == 1 && t.requires_grad && t.owner_context.is_none();
-                (remove, cleanup)
-            })
-            .unwrap_or((false, false));
-
-            if should_cleanup_tape {
-                gradient::cleanup_tape_for_dropped_tensor(old_grad_id);
-            }
-
-            if should_remove {
-                registry::remove(old_grad_id);
-            }
-
             let zeros = Self::zeros(&shape, dtype)?;
-            let zeros_id = zeros.id();
-
-            if let Some(()) = registry::with_tensor_mut(zeros_id, |t| {
-                t.is_gradient = true;
-                t.ref_count.fetch_add(1, Ordering::Relaxed);
-            }) {
-                // Successfully set is_gradient
-            } else {
-                return Err(HoduError::TensorNotFound(zeros_id));
-            }
-
-            registry::with_tensor_mut(self.0, |tensor_ref| {
-                tensor_ref.grad_tensor_id = Some(zeros_id);
-            });
+            super::internal::set_grad_tensor_id(self.0, zeros.id())?;
         }
 
         Ok(())
diff --git a/crates/hodu_core/src/tensor/creation.rs b/crates/hodu_core/src/tensor/creation.rs
index 8fb1c0d..40b97de 100644
--- a/crates/hodu_core/src/tensor/creation.rs
+++ b/crates/hodu_core/src/tensor/creation.rs
@@ -61,7 +61,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -89,7 +88,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -115,7 +113,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -137,7 +134,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -160,7 +156,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -184,7 +179,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -236,7 +230,7 @@ impl Tensor {
         let shape = Shape::from(&[size]);
         let layout = Layout::from_shape(&shape);
         let storage = BackendDevice::storage_from_flatten(data, Device::CPU)?;
-        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false, None);
+        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false);
 
         let tensor = if dtype != DType::F32 {
             tensor.to_dtype(dtype)?
@@ -285,7 +279,7 @@ impl Tensor {
         let shape = Shape::from(&[steps]);
         let layout = Layout::from_shape(&shape);
         let storage = BackendDevice::storage_from_flatten(data, Device::CPU)?;
-        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false, None);
+        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false);
 
         let tensor = if dtype != DType::F32 {
             tensor.to_dtype(dtype)?
@@ -323,7 +317,7 @@ impl Tensor {
         let shape = Shape::from(&[n, m]);
         let layout = Layout::from_shape(&shape);
         let storage = BackendDevice::storage_from_flatten(data, Device::CPU)?;
-        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false, None);
+        let tensor = from_storage(storage, layout, !crate::snapshot::capture::is_active(), false);
 
         let tensor = if dtype != DType::F32 {
             tensor.to_dtype(dtype)?
@@ -364,7 +358,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
@@ -395,7 +388,6 @@ impl Tensor {
             layout,
             !crate::snapshot::capture::is_active(),
             false,
-            None,
         ))
     }
 
diff --git a/crates/hodu_core/src/tensor/creation_static.rs b/crates/hodu_core/src/tensor/creation_static.rs
index d88f9b8..c5319b5 100644
--- a/crates/hodu_core/src/tensor/creation_static.rs
+++ b/crates/hodu_core/src/tensor/creation_static.rs
@@ -20,8 +20,7 @@ impl Tensor {
             requires_grad: false,
             grad_tensor_id: None,
             is_runtime: false,
-            is_gradient: false,
-            owner_context: None, // Builder input tensors are user-created
+            recorded_in: None,
             ref_count: AtomicUsize::new(1),
         };
         let tensor_id = TensorId::new();
diff --git a/crates/hodu_core/src/tensor/gradient.rs b/crates/hodu_core/src/tensor/gradient.rs
index 33f244d..8edf6f6 100644
--- a/crates/hodu_core/src/tensor/gradient.rs
+++ b/crates/hodu_core/src/tensor/gradient.rs
@@ -39,10 +39,6 @@ pub use compute::{compute_gradients, record_operation};
 pub use context::GradientContext;
 pub use core::{is_computing_gradients, is_in_optimizer_step, set_optimizer_step_flag, ContextId};
 
-pub(crate) use core::get_active_context;
+pub(crate) use core::keep_for_backward;
+pub(crate) use tape::remove_entry as forget_operation;
 pub(crate) use vjp::VjpCompute;
-
-pub(crate) fn cleanup_tape_for_dropped_tensor(tensor_id: crate::tensor::TensorId) {
-    let context_id = get_active_context();
-    tape::remove_entries_with_input(context_id, tensor_id);
-}
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index c4902d7..3fe505e 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -1,12 +1,12 @@
 use super::{
-    core::{get_active_context, is_computing_gradients, is_in_optimizer_step, set_computing_gradients, ContextId},
-    tape::{get_tape_clone, push_entry, TapeEntry},
+    core::{end_backward, get_active_context, is_computing_gradients, is_in_optimizer_step, start_backward},
+    tape::{consume_tape, operations_of, push_entry, TapeEntry},
     vjp::VjpCompute,
 };
 use crate::{
     error::{HoduError, HoduResult},
     ops::{MemoryOp, Op, OpParams},
-    tensor::{self, set_grad_tensor_id, tensor_from_id, Tensor, TensorId},
+    tensor::{self, from_shared_storage_with, set_grad_tensor_id, tensor_from_id, Tensor, TensorId},
 };
 use std::collections::HashMap;
 
@@ -35,6 +35,7 @@ pub fn record_operation(input_ids: Vec<TensorId>, output_id: TensorId, op: Op, o
         op,
         op_params,
         input_ids,
+        thread: std::thread::current().id(),
     };
 
     push_entry(context_id, entry)
@@ -46,7 +47,7 @@ struct GradientComputationGuard {
 
 impl GradientComputationGuard {
     fn new_with_capacity(capacity: usize) -> Self {
-        set_computing_gradients(true);
+        start_backward();
         let keep_alive = HashMap::with_capacity(capacity);
         Self { keep_alive }
     }
@@ -58,7 +59,7 @@ impl GradientComputationGuard {
 
 impl Drop for GradientComputationGuard {
     fn drop(&mut self) {
-        set_computing_gradients(false);
+        end_backward();
     }
 }
 
@@ -69,10 +70,8 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     let loss_grad = Tensor::ones(&loss_shape, loss_tensor.dtype())?;
     let loss_grad_id = loss_grad.id();
 
-    set_grad_tensor_id(loss_tensor_id, loss_grad_id)?;
-
     let context_id = get_active_context();
-    let tape = get_tape_clone(context_id)?;
+    let (tape, _inputs) = operations_of(context_id, loss_tensor_id)?;
 
     let tape_len = tape.len();
     let mut guard = GradientComputationGuard::new_with_capacity(tape_len * 3);
@@ -83,7 +82,7 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     guard.keep(loss_grad);
 
     let result = (|| -> HoduResult<()> {
-        for entry in tape.iter().rev() {
+        for entry in tape.iter() {
             if let Some(&grad_output) = gradients.get(&entry.output_id) {
                 for &input_id in &entry.input_ids {
                     if tensor::get(input_id).is_none() {
@@ -127,28 +126,28 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
 
                     gradients.insert(*input_id, final_grad_id);
 
-                    let input_tensor = tensor_from_id(*input_id);
-                    if input_tensor.is_requires_grad() {
-                        set_grad_tensor_id(*input_id, final_grad_id)?;
-                    }
-                    guard.keep(input_tensor);
+                    guard.keep(tensor_from_id(*input_id));
                 }
             }
         }
 
+        // Every tensor gets a gradient of its own, even where one value serves several
+        for (&tensor_id, &grad_id) in &gradients {
+            let tensor = tensor_from_id(tensor_id);
+            if tensor.is_requires_grad() {
+                let grad = tensor_from_id(grad_id);
+                let grad = from_shared_storage_with(&grad, grad.layout(), false);
+                set_grad_tensor_id(tensor_id, grad.id())?;
+            }
+        }
+
         Ok(())
     })();
 
     drop(guard);
 
     if result.is_ok() {
-        use super::tape;
-
-        if context_id == ContextId::DEFAULT {
-            tape::cleanup_default_context_after_backward();
-        }
-
-        tape::clear_tape_for_context(context_id);
+        consume_tape(context_id, &tape);
     }
 
     result
diff --git a/crates/hodu_core/src/tensor/gradient/context.rs b/crates/hodu_core/src/tensor/gradient/context.rs
index e45d922..1b4da7f 100644
--- a/crates/hodu_core/src/tensor/gradient/context.rs
+++ b/crates/hodu_core/src/tensor/gradient/context.rs
@@ -1,4 +1,4 @@
-use super::core::{pop_context, push_context, ContextId};
+use super::core::{push_context, remove_context, ContextId};
 
 pub struct GradientContext {
     context_id: ContextId,
@@ -32,7 +32,7 @@ impl Drop for GradientContext {
             return;
         }
 
-        pop_context();
+        remove_context(self.context_id);
 
         super::tape::remove_tape(self.context_id);
     }
diff --git a/crates/hodu_core/src/tensor/gradient/core.rs b/crates/hodu_core/src/tensor/gradient/core.rs
index 8feb54b..4e9d512 100644
--- a/crates/hodu_core/src/tensor/gradient/core.rs
+++ b/crates/hodu_core/src/tensor/gradient/core.rs
@@ -1,5 +1,6 @@
-use std::cell::RefCell;
-use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+use crate::tensor::{internal::reclaim_unused, TensorId};
+use std::cell::{Cell, RefCell};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[repr(transparent)]
 #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
@@ -28,27 +29,48 @@ pub(super) fn push_context(context_id: ContextId) {
     });
 }
 
-pub(super) fn pop_context() {
+/// Contexts may be left in any order: the ones that stay keep their places.
+pub(super) fn remove_context(context_id: ContextId) {
     CONTEXT_STACK.with(|stack| {
-        stack.borrow_mut().pop();
+        stack.borrow_mut().retain(|&id| id != context_id);
     });
 }
 
-static IS_COMPUTING_GRADIENTS: AtomicBool = AtomicBool::new(false);
-static IS_IN_OPTIMIZER_STEP: AtomicBool = AtomicBool::new(false);
+// What a thread is doing concerns no other thread.
+thread_local! {
+    static IS_COMPUTING_GRADIENTS: Cell<bool> = const { Cell::new(false) };
+    static IS_IN_OPTIMIZER_STEP: Cell<bool> = const { Cell::new(false) };
+    static UNUSED_IN_BACKWARD: RefCell<Vec<TensorId>> = const { RefCell::new(vec![]) };
+}
 
 pub fn is_computing_gradients() -> bool {
-    IS_COMPUTING_GRADIENTS.load(Ordering::Relaxed)
+    IS_COMPUTING_GRADIENTS.try_with(Cell::get).unwrap_or(false)
 }
 
 pub fn is_in_optimizer_step() -> bool {
-    IS_IN_OPTIMIZER_STEP.load(Ordering::Relaxed)
+    IS_IN_OPTIMIZER_STEP.try_with(Cell::get).unwrap_or(false)
 }
 
 pub fn set_optimizer_step_flag(value: bool) {
-    IS_IN_OPTIMIZER_STEP.store(value, Ordering::Relaxed);
+    IS_IN_OPTIMIZER_STEP.with(|flag| flag.set(value));
+}
+
+pub(super) fn start_backward() {
+    IS_COMPUTING_GRADIENTS.with(|flag| flag.set(true));
 }
 
-pub(super) fn set_computing_gradients(value: bool) {
-    IS_COMPUTING_GRADIENTS.store(value, Ordering::Relaxed);
+/// Ends the backward pass of this thread and reclaims the tensors it has left
+pub(super) fn end_backward() {
+    IS_COMPUTING_GRADIENTS.with(|flag| flag.set(false));
+    reclaim_unused(UNUSED_IN_BACKWARD.with(RefCell::take));
+}
+
+/// During a backward pass gradients are handed on by id, so a tensor that loses
+/// its last reference is kept until the pass has ended
+pub(crate) fn keep_for_backward(tensor_id: TensorId) -> bool {
+    let computing = is_computing_gradients();
+    if computing {
+        UNUSED_IN_BACKWARD.with(|unused| unused.borrow_mut().push(tensor_id));
+    }
+    computing
 }
diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 895b28f..41ea7c2 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -3,18 +3,25 @@ use crate::error::HoduError;
 use crate::{
     error::HoduResult,
     ops::{Op, OpParams},
-    tensor::TensorId,
+    tensor::{
+        internal::{release, retain},
+        tensor_from_id, with_tensor_mut, Tensor, TensorId,
+    },
 };
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::{LazyLock, Mutex};
+use std::thread::{self, ThreadId};
 
-/// A single entry in the gradient tape
+/// A single entry in the gradient tape. It holds a reference to each of its
+/// inputs, and lives as long as its output can be differentiated: until the tape
+/// is consumed or the last reference to the output is gone.
 #[derive(Clone)]
 pub(super) struct TapeEntry {
     pub output_id: TensorId,
     pub op: Op,
     pub op_params: OpParams,
     pub input_ids: Vec<TensorId>,
+    pub thread: ThreadId,
 }
 
 /// Global gradient tape storage (one tape per context)
@@ -29,106 +36,97 @@ pub(super) fn initialize_tape(context_id: ContextId) {
     GRADIENT_TAPES.lock().unwrap().insert(context_id, Vec::new());
 }
 
-/// Remove a tape for a context and clean up context-owned tensors
+/// Remove the tape of a context
 pub(super) fn remove_tape(context_id: ContextId) {
-    if let Some(tape) = GRADIENT_TAPES.lock().unwrap().remove(&context_id) {
-        cleanup_context_tensors(context_id, &tape);
-    }
+    let tape = GRADIENT_TAPES.lock().unwrap().remove(&context_id);
+    discard(tape.unwrap_or_default());
 }
 
-/// Clean up tensors owned by a specific context
-fn cleanup_context_tensors(context_id: ContextId, _tape: &[TapeEntry]) {
-    use crate::tensor;
-    use std::sync::atomic::Ordering;
-
-    // Collect ALL tensor IDs owned by this context with ref_count=0
-    // (not just from tape, because some intermediate tensors may not be on the tape)
-    let tensor_ids_to_check = tensor::get_all_tensor_ids();
-
-    // Remove tensors that belong to this context AND have ref_count=0
-    for tensor_id in tensor_ids_to_check {
-        if let Some((should_remove, grad_id)) = tensor::with_tensor(tensor_id, |t| {
-            // Remove if:
-            // 1. (Owned by this context OR owner_context==None) AND ref_count==0
-            // 2. NOT a gradient tensor (gradient tensors should be preserved)
-            let ref_count = t.ref_count.load(Ordering::Relaxed);
-            let owner_ctx = t.owner_context();
-            let should_remove = (owner_ctx == Some(context_id) || owner_ctx.is_none())
-                && ref_count == 0
-                && t.is_runtime
-                && !t.is_gradient;
-            (should_remove, t.grad_tensor_id)
-        }) {
-            if should_remove {
-                // If this tensor has a gradient, decrement its ref_count and remove if necessary
-                if let Some(grad_id) = grad_id {
-                    if let Some((should_remove_grad, should_cleanup_tape)) = tensor::with_tensor(grad_id, |g| {
-                        let prev_count = g.ref_count.load(Ordering::Relaxed);
-                        if prev_count > 0 {
-                            g.ref_count.fetch_sub(1, Ordering::Relaxed);
-                        }
-                        let remove = (prev_count == 1 || prev_count == 0)
-                            && g.is_runtime
-                            && g.owner_context.is_none()
-                            && !g.is_gradient;
-                        let cleanup =
-                            (prev_count == 1 || prev_count == 0) && g.requires_grad && g.owner_context.is_none();
-                        (remove, cleanup)
-                    }) {
-                        if should_cleanup_tape {
-                            remove_entries_with_input(context_id, grad_id);
-                        }
-                        if should_remove_grad {
-                            tensor::remove(grad_id);
-                        }
-                    }
-                }
-
-                tensor::remove(tensor_id);
-            }
-        }
+/// Gives back what removed entries refer to. Never called with the tapes locked,
+/// because the references given back may be the last ones.
+fn discard(entries: Vec<TapeEntry>) {
+    for entry in &entries {
+        with_tensor_mut(entry.output_id, |t| t.recorded_in = None);
+    }
+    for entry in entries.into_iter().rev() {
+        release(entry.input_ids);
     }
-}
-
-/// Clean up tensors owned by the default context after backward
-/// Only removes tensors with ref_count=0
-pub(super) fn cleanup_default_context_after_backward() {
-    let context_id = ContextId::DEFAULT;
-    let tape = get_tape_clone(context_id).unwrap_or_default();
-    cleanup_context_tensors(context_id, &tape);
 }
 
 /// Add an entry to the tape for a given context
 pub(super) fn push_entry(context_id: ContextId, entry: TapeEntry) -> HoduResult<()> {
-    let mut tapes = GRADIENT_TAPES.lock().map_err(|_| HoduError::GradientTapeCorrupted)?;
-    if let Some(tape) = tapes.get_mut(&context_id) {
-        tape.push(entry);
+    let (input_ids, output_id) = (entry.input_ids.clone(), entry.output_id);
+    for &input_id in &input_ids {
+        retain(input_id);
     }
-    Ok(())
+
+    let recorded = match GRADIENT_TAPES.lock() {
+        Ok(mut tapes) => match tapes.get_mut(&context_id) {
+            Some(tape) => {
+                tape.push(entry);
+                Ok(true)
+            },
+            None => Ok(false),
+        },
+        Err(_) => Err(HoduError::GradientTapeCorrupted),
+    };
+
+    if let Ok(true) = recorded {
+        with_tensor_mut(output_id, |t| t.recorded_in = Some(context_id));
+    } else {
+        release(input_ids);
+    }
+    recorded.map(|_| ())
 }
 
-/// Get a cloned copy of the tape for a given context
-pub(super) fn get_tape_clone(context_id: ContextId) -> HoduResult<Vec<TapeEntry>> {
+/// The recorded operations that a tensor was computed with, latest first, and
+/// handles that keep their inputs while they are used
+pub(super) fn operations_of(context_id: ContextId, tensor_id: TensorId) -> HoduResult<(Vec<TapeEntry>, Vec<Tensor>)> {
     let tapes = GRADIENT_TAPES.lock().map_err(|_| HoduError::GradientTapeCorrupted)?;
-    Ok(tapes.get(&context_id).cloned().unwrap_or_default())
+    let mut needed = HashSet::from([tensor_id]);
+    let mut entries = Vec::new();
+    let mut handles = Vec::new();
+    for entry in tapes.get(&context_id).into_iter().flatten().rev() {
+        if needed.contains(&entry.output_id) {
+            needed.extend(entry.input_ids.iter().copied());
+            handles.extend(entry.input_ids.iter().map(|&id| tensor_from_id(id)));
+            entries.push(entry.clone());
+        }
+    }
+    Ok((entries, handles))
 }
 
-/// Clear the tape for a given context (but don't remove tensors)
-pub(super) fn clear_tape_for_context(context_id: ContextId) {
+/// Consume the tape of a context after a backward pass: what this thread has
+/// recorded, and the operations that the pass has used
+pub(super) fn consume_tape(context_id: ContextId, used: &[TapeEntry]) {
+    let this_thread = thread::current().id();
+    let used: HashSet<TensorId> = used.iter().map(|entry| entry.output_id).collect();
+    let mut consumed = Vec::new();
     if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
         if let Some(tape) = tapes.get_mut(&context_id) {
-            tape.clear();
+            let entries = std::mem::take(tape);
+            for entry in entries {
+                if entry.thread == this_thread || used.contains(&entry.output_id) {
+                    consumed.push(entry);
+                } else {
+                    tape.push(entry);
+                }
+            }
         }
     }
+    discard(consumed);
 }
 
-/// Remove tape entries that have the given tensor as input
-/// This is called when a tensor with requires_grad=true is dropped
-pub(super) fn remove_entries_with_input(context_id: ContextId, tensor_id: TensorId) {
+/// Remove the operation that produced a tensor nothing refers to any more, and
+/// return the references it held
+pub(crate) fn remove_entry(context_id: ContextId, output_id: TensorId) -> Vec<TensorId> {
+    let mut references = Vec::new();
     if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
         if let Some(tape) = tapes.get_mut(&context_id) {
-            // Remove entries where tensor_id is an input
-            tape.retain(|entry| !entry.input_ids.contains(&tensor_id));
+            if let Some(position) = tape.iter().rposition(|entry| entry.output_id == output_id) {
+                references = tape.remove(position).input_ids;
+            }
         }
     }
+    references
 }
diff --git a/crates/hodu_core/src/tensor/internal.rs b/crates/hodu_core/src/tensor/internal.rs
index fc595f9..9dcd285 100644
--- a/crates/hodu_core/src/tensor/internal.rs
+++ b/crates/hodu_core/src/tensor/internal.rs
@@ -10,13 +10,7 @@ use crate::{
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
-pub(crate) fn from_storage(
-    storage: BackendStorage,
-    layout: Layout,
-    is_runtime: bool,
-    requires_grad: bool,
-    owner_context: Option<gradient::ContextId>,
-) -> Tensor {
+pub(crate) fn from_storage(storage: BackendStorage, layout: Layout, is_runtime: bool, requires_grad: bool) -> Tensor {
     let tensor_ = Tensor_ {
         storage: Some(Arc::new(storage)),
         layout,
@@ -24,8 +18,7 @@ pub(crate) fn from_storage(
         requires_grad,
         grad_tensor_id: None,
         is_runtime,
-        is_gradient: false,
-        owner_context,
+        recorded_in: None,
         ref_count: AtomicUsize::new(1),
     };
     let tensor_id = TensorId::new();
@@ -39,33 +32,21 @@ pub(crate) fn from_storage_with_context(
     is_runtime: bool,
     requires_grad: bool,
 ) -> Tensor {
-    let owner_context = if gradient::is_computing_gradients() || gradient::is_in_optimizer_step() {
-        None
-    } else {
-        Some(gradient::get_active_context())
-    };
-    from_storage(storage, layout, is_runtime, requires_grad, owner_context)
+    from_storage(storage, layout, is_runtime, requires_grad && !gradients_paused())
 }
 
 pub(crate) fn from_shared_storage_with(source_tensor: &Tensor, layout: Layout, requires_grad: bool) -> Tensor {
     let storage_arc = registry::with_tensor(source_tensor.id(), |tensor_ref| tensor_ref.storage.clone())
         .expect("Source tensor not found");
 
-    let owner_context = if gradient::is_computing_gradients() || gradient::is_in_optimizer_step() {
-        None
-    } else {
-        Some(gradient::get_active_context())
-    };
-
     let tensor_ = Tensor_ {
         storage: storage_arc,
         layout,
         dtype: None, // Runtime tensors get dtype from storage
-        requires_grad,
+        requires_grad: requires_grad && !gradients_paused(),
         grad_tensor_id: None,
         is_runtime: true,
-        is_gradient: false,
-        owner_context,
+        recorded_in: None,
         ref_count: AtomicUsize::new(1),
     };
 
@@ -82,8 +63,7 @@ pub(crate) fn create_builder_tensor(layout: Layout, dtype: DType, requires_grad:
         requires_grad,
         grad_tensor_id: None,
         is_runtime: false,
-        is_gradient: false,
-        owner_context: None,
+        recorded_in: None,
         ref_count: AtomicUsize::new(1),
     };
     let tensor_id = TensorId::new();
@@ -93,48 +73,73 @@ pub(crate) fn create_builder_tensor(layout: Layout, dtype: DType, requires_grad:
 }
 
 pub(crate) fn tensor_from_id(tensor_id: TensorId) -> Tensor {
-    registry::with_tensor(tensor_id, |t| {
-        t.ref_count.fetch_add(1, Ordering::Relaxed);
-    });
+    retain(tensor_id);
     Tensor::from_id(tensor_id)
 }
 
-pub(crate) fn set_grad_tensor_id(tensor_id: TensorId, grad_tensor_id: TensorId) -> HoduResult<()> {
-    if let Some(()) = registry::with_tensor_mut(grad_tensor_id, |t| {
-        t.ref_count.fetch_add(1, Ordering::Relaxed);
-    }) {
-        // Successfully incremented ref_count
-    } else {
-        return Err(HoduError::TensorNotFound(grad_tensor_id));
-    }
+/// Gradients and parameter updates are values of their own: nothing computed
+/// for them takes part in differentiation.
+fn gradients_paused() -> bool {
+    gradient::is_computing_gradients() || gradient::is_in_optimizer_step()
+}
 
-    let old_grad_id = registry::with_tensor(tensor_id, |tensor_ref| tensor_ref.grad_tensor_id);
+/// Counts one more reference to a tensor.
+pub(super) fn retain(tensor_id: TensorId) {
+    registry::with_tensor(tensor_id, |t| {
+        t.ref_count.fetch_add(1, Ordering::Relaxed);
+    });
+}
 
-    if let Some(Some(old_grad_id)) = old_grad_id {
-        let (should_remove, should_cleanup_tape) = registry::with_tensor(old_grad_id, |t| {
-            let prev_count = t.ref_count.fetch_sub(1, Ordering::Relaxed);
-            let remove = prev_count == 1 && t.is_runtime && t.owner_context.is_none();
-            let cleanup = prev_count == 1 && t.requires_grad && t.owner_context.is_none();
-            (remove, cleanup)
+/// Gives references back. A runtime tensor goes with its last reference, and
+/// with it the references it holds itself: its gradient, and the inputs of the
+/// operation that produced it if that is still on a tape.
+pub(super) fn release(mut references: Vec<TensorId>) {
+    while let Some(tensor_id) = references.pop() {
+        let last = registry::with_tensor(tensor_id, |t| {
+            t.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 && t.is_runtime
         })
-        .unwrap_or((false, false));
+        .unwrap_or(false);
 
-        if should_cleanup_tape {
-            gradient::cleanup_tape_for_dropped_tensor(old_grad_id);
+        if last && !gradient::keep_for_backward(tensor_id) {
+            reclaim(tensor_id, &mut references);
         }
+    }
+}
 
-        if should_remove {
-            registry::remove(old_grad_id);
-        }
+/// Removes the tensors that nothing refers to any more.
+pub(super) fn reclaim_unused(tensor_ids: Vec<TensorId>) {
+    for tensor_id in tensor_ids {
+        let mut references = Vec::new();
+        reclaim(tensor_id, &mut references);
+        release(references);
+    }
+}
+
+fn reclaim(tensor_id: TensorId, references: &mut Vec<TensorId>) {
+    let Some(tensor_) = registry::remove_unused(tensor_id) else {
+        return;
+    };
+    references.extend(tensor_.grad_tensor_id);
+    if let Some(context_id) = tensor_.recorded_in {
+        references.extend(gradient::forget_operation(context_id, tensor_id));
+    }
+}
+
+pub(crate) fn set_grad_tensor_id(tensor_id: TensorId, grad_tensor_id: TensorId) -> HoduResult<()> {
+    if !registry::exists(grad_tensor_id) {
+        return Err(HoduError::TensorNotFound(grad_tensor_id));
     }
+    retain(grad_tensor_id);
 
-    if let Some(result) = registry::with_tensor_mut(tensor_id, |tensor_ref| {
-        tensor_ref.grad_tensor_id = Some(grad_tensor_id);
-        Ok(())
-    }) {
-        result
-    } else {
-        Err(HoduError::TensorNotFound(tensor_id))
+    match registry::with_tensor_mut(tensor_id, |t| t.grad_tensor_id.replace(grad_tensor_id)) {
+        Some(old_grad_id) => {
+            release(old_grad_id.into_iter().collect());
+            Ok(())
+        },
+        None => {
+            release(vec![grad_tensor_id]);
+            Err(HoduError::TensorNotFound(tensor_id))
+        },
     }
 }
 
diff --git a/crates/hodu_core/src/tensor/registry.rs b/crates/hodu_core/src/tensor/registry.rs
index 4d5e5e8..dddd578 100644
--- a/crates/hodu_core/src/tensor/registry.rs
+++ b/crates/hodu_core/src/tensor/registry.rs
@@ -17,13 +17,11 @@ pub fn exists(tensor_id: TensorId) -> bool {
     TENSORS.contains_key(&tensor_id)
 }
 
-pub(crate) fn remove(tensor_id: TensorId) {
-    if let Some(Some(grad_id)) = with_tensor(tensor_id, |t| t.grad_tensor_id) {
-        with_tensor(grad_id, |t| {
-            t.ref_count.fetch_sub(1, Ordering::Relaxed);
-        });
-    }
-    TENSORS.remove(&tensor_id);
+/// Removes a tensor that nothing refers to, and returns its record.
+pub(super) fn remove_unused(tensor_id: TensorId) -> Option<Tensor_> {
+    TENSORS
+        .remove_if(&tensor_id, |_, t| t.ref_count.load(Ordering::Acquire) == 0)
+        .map(|(_, tensor_)| tensor_)
 }
 
 pub fn get(tensor_id: TensorId) -> Option<dashmap::mapref::one::Ref<'static, TensorId, Tensor_>> {
@@ -38,10 +36,6 @@ pub fn tensor_count() -> usize {
     TENSORS.len()
 }
 
-pub(crate) fn get_all_tensor_ids() -> Vec<TensorId> {
-    TENSORS.iter().map(|entry| *entry.key()).collect()
-}
-
 pub fn with_tensor<F, R>(tensor_id: TensorId, f: F) -> Option<R>
 where
     F: FnOnce(&Tensor_) -> R,
diff --git a/crates/hodu_nn/macros/src/derive.rs b/crates/hodu_nn/macros/src/derive.rs
index 4901323..ea4319d 100644
--- a/crates/hodu_nn/macros/src/derive.rs
+++ b/crates/hodu_nn/macros/src/derive.rs
@@ -92,12 +92,10 @@ pub fn derive_optimizer_impl(input: TokenStream) -> TokenStream {
                 #hodu_core_path::tensor::set_optimizer_step_flag(true);
 
                 // Zero out gradients for each parameter
-                for param in parameters.iter() {
-                    param.zero_grad()?;
-                }
+                let result = parameters.iter().try_for_each(|param| param.zero_grad());
 
                 #hodu_core_path::tensor::set_optimizer_step_flag(false);
-                Ok(())
+                result
             }
         }
     };
-- 
2.43.0


From e3e2fd9aeec1bcf6698d7e5086558054912a6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 37/49] fix: captures keep their constants and results, end
 with their board and nest; captured results are dense (S01, S02)

---
 crates/hodu_core/src/op_params.rs             |  15 ++
 crates/hodu_core/src/snapshot/capture.rs      |   1 +
 .../hodu_core/src/snapshot/capture/board.rs   | 180 +++++++-----------
 .../hodu_core/src/snapshot/capture/storage.rs |  99 ++++++++--
 crates/hodu_core/src/tensor.rs                |   4 +-
 crates/hodu_core/src/tensor/core.rs           |   5 +
 crates/hodu_core/src/tensor/internal.rs       |  47 ++++-
 .../hodu_core/src/tensor/ops/cast_memory.rs   |   7 +-
 crates/hodu_core/src/tensor/ops/cmp.rs        |   7 +-
 crates/hodu_core/src/tensor/ops/indexing.rs   |  27 ++-
 crates/hodu_core/src/tensor/ops/shape.rs      |  25 +++
 crates/hodu_core/src/tensor/ops/unary.rs      |  21 +-
 12 files changed, 284 insertions(+), 154 deletions(-)

diff --git a/crates/hodu_core/src/op_params.rs b/crates/hodu_core/src/op_params.rs
index b470ad5..253678a 100644
--- a/crates/hodu_core/src/op_params.rs
+++ b/crates/hodu_core/src/op_params.rs
@@ -642,3 +642,18 @@ pub enum OpParams {
     Contiguous(ContiguousParams),
     Set(SetParams),
 }
+
+impl OpParams {
+    /// The same parameters with the tensors they mention numbered from `first`
+    pub(crate) fn with_ids_from(mut self, first: usize) -> Self {
+        match &mut self {
+            Self::Unique(params) => {
+                params.inverse_id = params.inverse_id.counted_from(first);
+                params.counts_id = params.counts_id.counted_from(first);
+            },
+            Self::TopK(params) => params.indices_id = params.indices_id.counted_from(first),
+            _ => {},
+        }
+        self
+    }
+}
diff --git a/crates/hodu_core/src/snapshot/capture.rs b/crates/hodu_core/src/snapshot/capture.rs
index 5214e80..4e2ad32 100644
--- a/crates/hodu_core/src/snapshot/capture.rs
+++ b/crates/hodu_core/src/snapshot/capture.rs
@@ -5,3 +5,4 @@ pub use board::{CaptureBoard, CaptureBoardId, CapturedInput, CapturedOp, Capture
 pub use storage::{
     active_board_id, add_input_to_active, capture_operation, capture_operation_with_symbolic, is_active,
 };
+pub(crate) use storage::dense_source;
diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index 0babdaa..164fc30 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -2,10 +2,10 @@ use crate::{
     error::HoduResult,
     ops::{Op, OpParams},
     snapshot::{Snapshot, SnapshotInput, SnapshotNode, SnapshotTarget, SnapshotTensorId},
-    tensor::{Tensor, TensorId},
+    tensor::{CapturedConstant, Tensor, TensorId},
     types::{DType, Layout, Shape, SymbolicLayout},
 };
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
@@ -54,9 +54,24 @@ pub(super) struct CaptureBoard_ {
     pub(super) inputs: Vec<CapturedInput>,
     pub(super) targets: Vec<CapturedTarget>,
     pub(super) ops: Vec<CapturedOp>,
+    // What the inputs, outputs and targets of the captured operations refer to
+    pub(super) constants: Vec<CapturedConstant>,
+    pub(super) values: HashMap<TensorId, Tensor>,
 }
 
 impl CaptureBoard_ {
+    fn new(id: CaptureBoardId, name: Option<String>) -> Self {
+        Self {
+            id,
+            name,
+            inputs: Vec::new(),
+            targets: Vec::new(),
+            ops: Vec::new(),
+            constants: Vec::new(),
+            values: HashMap::new(),
+        }
+    }
+
     pub(super) fn add_input(&mut self, name: &str, tensor: Tensor) -> HoduResult<()> {
         let input = CapturedInput {
             name: name.to_string(),
@@ -65,6 +80,7 @@ impl CaptureBoard_ {
             dtype: tensor.dtype(),
         };
         self.inputs.push(input);
+        self.values.insert(tensor.id(), tensor);
         Ok(())
     }
 
@@ -74,10 +90,27 @@ impl CaptureBoard_ {
             tensor_id: tensor.id(),
         };
         self.targets.push(target);
+        self.values.insert(tensor.id(), tensor);
     }
 
-    pub(super) fn add_op(&mut self, op: CapturedOp) {
+    pub(super) fn add_op(&mut self, op: CapturedOp, output: Tensor) {
         self.ops.push(op);
+        self.values.insert(output.id(), output);
+    }
+
+    /// The tensor that stands for a constant in this board
+    pub(super) fn add_constant(&mut self, constant: CapturedConstant) -> Tensor {
+        if let Some(known) = self.constants.iter().find(|known| known.same_data(&constant)) {
+            return known.tensor.clone();
+        }
+        let tensor = constant.tensor.clone();
+        self.constants.push(constant);
+        tensor
+    }
+
+    /// Whether a tensor is an input or a result of this board
+    pub(super) fn defines(&self, tensor_id: TensorId) -> bool {
+        self.values.contains_key(&tensor_id)
     }
 }
 
@@ -87,27 +120,13 @@ pub struct CaptureBoard(CaptureBoardId);
 impl CaptureBoard {
     pub fn new() -> Self {
         let id = CaptureBoardId::new();
-        let board = CaptureBoard_ {
-            id,
-            name: None,
-            inputs: Vec::new(),
-            targets: Vec::new(),
-            ops: Vec::new(),
-        };
-        super::storage::register_board(board);
+        super::storage::register_board(CaptureBoard_::new(id, None));
         Self(id)
     }
 
     pub fn with_name(name: impl Into<String>) -> Self {
         let id = CaptureBoardId::new();
-        let board = CaptureBoard_ {
-            id,
-            name: Some(name.into()),
-            inputs: Vec::new(),
-            targets: Vec::new(),
-            ops: Vec::new(),
-        };
-        super::storage::register_board(board);
+        super::storage::register_board(CaptureBoard_::new(id, Some(name.into())));
         Self(id)
     }
 
@@ -119,11 +138,11 @@ impl CaptureBoard {
     }
 
     pub fn open(&self) {
-        super::storage::set_active(Some(self.0));
+        super::storage::open_board(self.0);
     }
 
     pub fn close(&self) {
-        super::storage::set_active(None);
+        super::storage::close_board(self.0);
     }
 
     pub fn id(&self) -> CaptureBoardId {
@@ -132,7 +151,9 @@ impl CaptureBoard {
 
     pub fn capture(&self) -> Snapshot {
         let board = super::storage::take_board(self.0).expect("Board not found in storage");
+        super::storage::close_board(self.0);
 
+        let offset = Self::compute_id_offset(&board);
         let reachable = Self::compute_reachable(&board.targets, &board.ops);
         let filtered_ops: Vec<_> = board
             .ops
@@ -140,9 +161,11 @@ impl CaptureBoard {
             .filter(|op| reachable.contains(&op.output_id))
             .collect();
 
-        let offset = Self::compute_id_offset(&board.inputs, &board.targets, &filtered_ops);
-        let constant_ids = Self::find_constants(&board.inputs, &filtered_ops, &reachable);
-        let snapshot_constants = Self::extract_constants(constant_ids, offset);
+        let constants = board
+            .constants
+            .iter()
+            .filter(|constant| reachable.contains(&constant.tensor.id()));
+        let snapshot_constants = Self::extract_constants(constants, offset);
 
         let snapshot_inputs = board
             .inputs
@@ -167,11 +190,11 @@ impl CaptureBoard {
         let snapshot_nodes = filtered_ops
             .into_iter()
             .map(|op| {
-                let output_dtype = crate::tensor::get_dtype(op.output_id).expect("Builder tensor must have dtype");
+                let output_dtype = board.values[&op.output_id].dtype();
 
                 SnapshotNode {
                     op: op.op,
-                    params: op.params,
+                    params: op.params.map(|params| params.with_ids_from(offset)),
                     input_ids: op
                         .input_ids
                         .into_iter()
@@ -221,98 +244,26 @@ impl CaptureBoard {
         reachable
     }
 
-    fn compute_id_offset(inputs: &[CapturedInput], targets: &[CapturedTarget], filtered_ops: &[CapturedOp]) -> usize {
-        let mut min_id = usize::MAX;
-
-        for input in inputs {
-            min_id = min_id.min(input.tensor_id.as_usize());
-        }
-
-        for target in targets {
-            min_id = min_id.min(target.tensor_id.as_usize());
-        }
-
-        for op in filtered_ops {
-            for input_id in &op.input_ids {
-                min_id = min_id.min(input_id.as_usize());
-            }
-            min_id = min_id.min(op.output_id.as_usize());
-        }
-
-        if min_id == usize::MAX {
-            0
-        } else {
-            min_id
-        }
-    }
-
-    fn find_constants(
-        inputs: &[CapturedInput],
-        filtered_ops: &[CapturedOp],
-        reachable: &HashSet<TensorId>,
-    ) -> HashSet<TensorId> {
-        let input_ids: HashSet<_> = inputs.iter().map(|i| i.tensor_id).collect();
-        let op_output_ids: HashSet<_> = filtered_ops.iter().map(|op| op.output_id).collect();
-
-        let mut constant_ids = HashSet::new();
-        for op in filtered_ops {
-            for &input_id in &op.input_ids {
-                if reachable.contains(&input_id) && !input_ids.contains(&input_id) && !op_output_ids.contains(&input_id)
-                {
-                    constant_ids.insert(input_id);
-                }
-            }
-        }
-
-        constant_ids
+    fn compute_id_offset(board: &CaptureBoard_) -> usize {
+        let constants = board.constants.iter().map(|constant| constant.tensor.id());
+        let values = board.values.keys().copied();
+        values.chain(constants).map(|id| id.as_usize()).min().unwrap_or(0)
     }
 
-    fn extract_constants(constant_ids: HashSet<TensorId>, offset: usize) -> Vec<crate::snapshot::SnapshotConstant> {
-        fn to_bytes<T>(vec: Vec<T>) -> Vec<u8> {
-            let len = vec.len() * core::mem::size_of::<T>();
-            let ptr = vec.as_ptr() as *const u8;
-            let mut bytes = Vec::with_capacity(len);
-            unsafe {
-                core::ptr::copy_nonoverlapping(ptr, bytes.as_mut_ptr(), len);
-                bytes.set_len(len);
-            }
-            core::mem::forget(vec);
-            bytes
-        }
-
-        constant_ids
-            .into_iter()
-            .filter_map(|tensor_id| {
-                let tensor = crate::tensor::tensor_from_id(tensor_id);
+    fn extract_constants<'a>(
+        constants: impl Iterator<Item = &'a CapturedConstant>,
+        offset: usize,
+    ) -> Vec<crate::snapshot::SnapshotConstant> {
+        constants
+            .filter_map(|constant| {
+                let tensor = &constant.tensor;
                 let dtype = tensor.dtype();
                 let shape = tensor.shape();
 
-                let data = match dtype {
-                    DType::BOOL => to_bytes(tensor.to_flatten_vec::<bool>().ok()?),
-                    DType::F8E4M3 => to_bytes(tensor.to_flatten_vec::<float8::F8E4M3>().ok()?),
-                    #[cfg(feature = "f8e5m2")]
-                    DType::F8E5M2 => to_bytes(tensor.to_flatten_vec::<float8::F8E5M2>().ok()?),
-                    DType::BF16 => to_bytes(tensor.to_flatten_vec::<half::bf16>().ok()?),
-                    DType::F16 => to_bytes(tensor.to_flatten_vec::<half::f16>().ok()?),
-                    DType::F32 => to_bytes(tensor.to_flatten_vec::<f32>().ok()?),
-                    #[cfg(feature = "f64")]
-                    DType::F64 => to_bytes(tensor.to_flatten_vec::<f64>().ok()?),
-                    DType::U8 => tensor.to_flatten_vec::<u8>().ok()?,
-                    #[cfg(feature = "u16")]
-                    DType::U16 => to_bytes(tensor.to_flatten_vec::<u16>().ok()?),
-                    DType::U32 => to_bytes(tensor.to_flatten_vec::<u32>().ok()?),
-                    #[cfg(feature = "u64")]
-                    DType::U64 => to_bytes(tensor.to_flatten_vec::<u64>().ok()?),
-                    DType::I8 => to_bytes(tensor.to_flatten_vec::<i8>().ok()?),
-                    #[cfg(feature = "i16")]
-                    DType::I16 => to_bytes(tensor.to_flatten_vec::<i16>().ok()?),
-                    DType::I32 => to_bytes(tensor.to_flatten_vec::<i32>().ok()?),
-                    #[cfg(feature = "i64")]
-                    DType::I64 => to_bytes(tensor.to_flatten_vec::<i64>().ok()?),
-                };
+                let data = tensor.to_bytes().ok()?;
 
                 Some(crate::snapshot::SnapshotConstant {
-                    id: SnapshotTensorId(tensor_id.as_usize() - offset),
+                    id: SnapshotTensorId(tensor.id().as_usize() - offset),
                     name: None,
                     shape,
                     dtype,
@@ -323,6 +274,13 @@ impl CaptureBoard {
     }
 }
 
+impl Drop for CaptureBoard {
+    fn drop(&mut self) {
+        super::storage::close_board(self.0);
+        super::storage::take_board(self.0);
+    }
+}
+
 impl Default for CaptureBoard {
     fn default() -> Self {
         Self::new()
diff --git a/crates/hodu_core/src/snapshot/capture/storage.rs b/crates/hodu_core/src/snapshot/capture/storage.rs
index 69f0f07..428a5e3 100644
--- a/crates/hodu_core/src/snapshot/capture/storage.rs
+++ b/crates/hodu_core/src/snapshot/capture/storage.rs
@@ -2,10 +2,11 @@ use super::board::{CaptureBoardId, CaptureBoard_, CapturedOp};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{Op, OpParams},
-    tensor::{Tensor, TensorId},
+    tensor::{captured_constant, tensor_from_id, CapturedConstant, Tensor, TensorId},
     types::{Layout, SymbolicLayout},
 };
 use dashmap::DashMap;
+use std::cell::RefCell;
 use std::sync::LazyLock;
 
 // ============================================================================
@@ -16,7 +17,8 @@ static BOARDS: LazyLock<DashMap<CaptureBoardId, CaptureBoard_>> =
     LazyLock::new(|| DashMap::with_capacity_and_shard_amount(1 << 4, 4));
 
 thread_local! {
-    static ACTIVE_BOARD: std::cell::RefCell<Option<CaptureBoardId>> = const { std::cell::RefCell::new(None) };
+    // Boards opened on this thread and not closed yet, the innermost one last.
+    static OPEN_BOARDS: RefCell<Vec<CaptureBoardId>> = const { RefCell::new(Vec::new()) };
 }
 
 // ============================================================================
@@ -25,17 +27,47 @@ thread_local! {
 
 /// Check if any capture board is currently active
 pub fn is_active() -> bool {
-    ACTIVE_BOARD.with(|cell| cell.borrow().is_some())
+    active_board_id().is_some()
 }
 
-/// Get the currently active board ID
+/// Get the currently active board ID: the innermost open board that has not
+/// been captured or dropped
 pub fn active_board_id() -> Option<CaptureBoardId> {
-    ACTIVE_BOARD.with(|cell| *cell.borrow())
+    OPEN_BOARDS
+        .try_with(|cell| {
+            let mut open = cell.borrow_mut();
+            while let Some(&id) = open.last() {
+                if BOARDS.contains_key(&id) {
+                    return Some(id);
+                }
+                open.pop();
+            }
+            None
+        })
+        .unwrap_or(None)
 }
 
-/// Set the active board ID
-pub(super) fn set_active(id: Option<CaptureBoardId>) {
-    ACTIVE_BOARD.with(|cell| *cell.borrow_mut() = id);
+/// Make a board the active one of this thread
+pub(super) fn open_board(id: CaptureBoardId) {
+    OPEN_BOARDS.with(|cell| {
+        let mut open = cell.borrow_mut();
+        open.retain(|&other| other != id);
+        open.push(id);
+    });
+}
+
+/// End a board's activity on this thread; a board that was active before it
+/// was opened becomes active again
+pub(super) fn close_board(id: CaptureBoardId) {
+    let _ = OPEN_BOARDS.try_with(|cell| cell.borrow_mut().retain(|&other| other != id));
+}
+
+/// Run `f` with no board active on this thread
+fn without_capture<R>(f: impl FnOnce() -> R) -> R {
+    let open = OPEN_BOARDS.with(|cell| std::mem::take(&mut *cell.borrow_mut()));
+    let result = f();
+    OPEN_BOARDS.with(|cell| *cell.borrow_mut() = open);
+    result
 }
 
 // ============================================================================
@@ -59,9 +91,33 @@ pub(super) fn take_board(id: CaptureBoardId) -> Option<CaptureBoard_> {
 
 /// Add a target to a specific board
 pub(super) fn add_target_to_board(id: CaptureBoardId, name: String, tensor: Tensor) {
+    let constant = constant_for(tensor.id()).ok().flatten();
     if let Some(mut board) = BOARDS.get_mut(&id) {
-        board.add_target(&name, tensor);
+        let target = match constant {
+            Some(constant) => board.add_constant(constant),
+            None => tensor,
+        };
+        board.add_target(&name, target);
+    }
+}
+
+/// The constant a tensor with data stands for in a capture; `None` for the
+/// inputs and intermediate values of a capture, which have no data
+fn constant_for(tensor_id: TensorId) -> HoduResult<Option<CapturedConstant>> {
+    without_capture(|| captured_constant(tensor_id))
+}
+
+/// Under capture, views are taken of dense constants only, so that their
+/// layouts describe the data the snapshot embeds
+pub fn dense_source(tensor: &Tensor) -> HoduResult<Option<Tensor>> {
+    if !is_active() || !tensor.has_storage() {
+        return Ok(None);
+    }
+    let layout = tensor.layout();
+    if layout.is_contiguous() && layout.offset() == 0 {
+        return Ok(None);
     }
+    without_capture(|| tensor.dense_copy()).map(Some)
 }
 
 /// Add an input to the currently active board
@@ -102,7 +158,7 @@ pub fn capture_operation_with_symbolic(
         None => return Ok(()), // No active board, silently skip
     };
 
-    let captured = CapturedOp {
+    let mut captured = CapturedOp {
         op,
         params,
         input_ids,
@@ -111,9 +167,30 @@ pub fn capture_operation_with_symbolic(
         output_layout,
         symbolic_output_layout,
     };
+    let constants = captured
+        .input_ids
+        .iter()
+        .map(|&id| constant_for(id))
+        .collect::<HoduResult<Vec<_>>>()?;
+    let output = tensor_from_id(output_id);
 
     if let Some(mut board) = BOARDS.get_mut(&board_id) {
-        board.add_op(captured);
+        for (index, constant) in constants.into_iter().enumerate() {
+            match constant {
+                Some(constant) => {
+                    let tensor = board.add_constant(constant);
+                    captured.input_ids[index] = tensor.id();
+                    captured.input_layouts[index] = Layout::from_shape(captured.input_layouts[index].shape());
+                },
+                None if board.defines(captured.input_ids[index]) => {},
+                None => {
+                    return Err(HoduError::CaptureNotFound(
+                        "tensor belongs to another capture".to_string(),
+                    ))
+                },
+            }
+        }
+        board.add_op(captured, output);
     }
 
     Ok(())
diff --git a/crates/hodu_core/src/tensor.rs b/crates/hodu_core/src/tensor.rs
index 0d0f6fb..5a9b1fe 100644
--- a/crates/hodu_core/src/tensor.rs
+++ b/crates/hodu_core/src/tensor.rs
@@ -22,8 +22,8 @@ pub use registry::{exists, get, get_dtype, shrink_tensor_storage, tensor_count,
 
 // Re-export internal functions for crate use
 pub(crate) use internal::{
-    create_builder_tensor, from_shared_storage_with, from_storage, from_storage_with_context, set_grad_tensor_id,
-    tensor_from_id,
+    captured_constant, create_builder_tensor, from_shared_storage_with, from_storage, from_storage_with_context, set_grad_tensor_id,
+    tensor_from_id, CapturedConstant,
 };
 
 // Re-export for submodules
diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index 4b2719c..8e3e6bf 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -22,6 +22,11 @@ impl TensorId {
     pub fn as_usize(&self) -> usize {
         self.0
     }
+
+    /// The same tensor in a numbering that starts at `first`
+    pub(crate) fn counted_from(self, first: usize) -> Self {
+        Self(self.0 - first)
+    }
 }
 
 #[repr(transparent)]
diff --git a/crates/hodu_core/src/tensor/internal.rs b/crates/hodu_core/src/tensor/internal.rs
index 9dcd285..f013767 100644
--- a/crates/hodu_core/src/tensor/internal.rs
+++ b/crates/hodu_core/src/tensor/internal.rs
@@ -90,15 +90,13 @@ pub(super) fn retain(tensor_id: TensorId) {
     });
 }
 
-/// Gives references back. A runtime tensor goes with its last reference, and
+/// Gives references back. A tensor goes with its last reference, and
 /// with it the references it holds itself: its gradient, and the inputs of the
 /// operation that produced it if that is still on a tape.
 pub(super) fn release(mut references: Vec<TensorId>) {
     while let Some(tensor_id) = references.pop() {
-        let last = registry::with_tensor(tensor_id, |t| {
-            t.ref_count.fetch_sub(1, Ordering::AcqRel) == 1 && t.is_runtime
-        })
-        .unwrap_or(false);
+        let last =
+            registry::with_tensor(tensor_id, |t| t.ref_count.fetch_sub(1, Ordering::AcqRel) == 1).unwrap_or(false);
 
         if last && !gradient::keep_for_backward(tensor_id) {
             reclaim(tensor_id, &mut references);
@@ -143,7 +141,46 @@ pub(crate) fn set_grad_tensor_id(tensor_id: TensorId, grad_tensor_id: TensorId)
     }
 }
 
+/// A tensor with data as a capture sees it: its data at the time of use, dense.
+pub(crate) struct CapturedConstant {
+    source: Arc<BackendStorage>,
+    layout: Layout,
+    pub(crate) tensor: Tensor,
+}
+
+impl CapturedConstant {
+    pub(crate) fn same_data(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.source, &other.source) && self.layout == other.layout
+    }
+}
+
+pub(crate) fn captured_constant(tensor_id: TensorId) -> HoduResult<Option<CapturedConstant>> {
+    let (source, layout) = registry::with_tensor(tensor_id, |t| (t.storage.clone(), t.layout.clone()))
+        .ok_or(HoduError::TensorNotFound(tensor_id))?;
+    let Some(source) = source else {
+        return Ok(None);
+    };
+
+    let dense = Layout::from_shape(layout.shape());
+    let tensor = if layout == dense {
+        from_shared_storage_with(&tensor_from_id(tensor_id), dense, false)
+    } else {
+        from_storage(source.contiguous(&layout)?, dense, true, false)
+    };
+    Ok(Some(CapturedConstant { source, layout, tensor }))
+}
+
 impl Tensor {
+    /// `contiguous`, also for a dense part of a larger storage
+    pub(crate) fn dense_copy(&self) -> HoduResult<Self> {
+        if !self.is_contiguous() {
+            return self.contiguous();
+        }
+        let layout = self.layout();
+        let storage = self.with_storage(|storage| storage.contiguous(&layout))?;
+        Ok(from_storage(storage, Layout::from_shape(layout.shape()), true, false))
+    }
+
     pub(super) fn from_id(tensor_id: TensorId) -> Self {
         Tensor(tensor_id)
     }
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index 674cd37..64866ee 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -13,7 +13,8 @@ impl Tensor {
 
         if crate::snapshot::capture::is_active() {
             let input_layout = self.layout();
-            let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), dtype, false);
+            let result_layout = Layout::from_shape(&self.shape());
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), dtype, false);
 
             let op_params = OpParams::ToDType(ToDTypeParams { dtype });
 
@@ -22,8 +23,8 @@ impl Tensor {
                 Some(op_params),
                 vec![self.id()],
                 result_id,
-                vec![input_layout.clone()],
-                input_layout,
+                vec![input_layout],
+                result_layout,
             )?;
 
             Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/cmp.rs b/crates/hodu_core/src/tensor/ops/cmp.rs
index 41a5999..686368d 100644
--- a/crates/hodu_core/src/tensor/ops/cmp.rs
+++ b/crates/hodu_core/src/tensor/ops/cmp.rs
@@ -59,15 +59,16 @@ macro_rules! cmp_scalar_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(&self.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::CmpScalar(CmpScalarOp::$op_name),
                     Some(OpParams::CmpScalar(CmpScalarParams { scalar })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 3209a66..20f0bc2 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -557,7 +557,7 @@ impl Tensor {
     pub fn onehot<N: Into<Scalar>, A: Into<Scalar>>(&self, num_classes: N, axis: A, dtype: DType) -> HoduResult<Self> {
         let num_classes_scalar = num_classes.into();
         let axis_scalar = axis.into();
-        if num_classes_scalar.to_i64() < 0 {
+        if num_classes_scalar.to_i32() < 0 {
             return Err(HoduError::InvalidArgument(
                 "onehot requires a non-negative number of classes".to_string(),
             ));
@@ -765,15 +765,22 @@ impl Tensor {
                 dynamic_count_dim: Some(dynamic_dim_id),
             });
 
-            crate::snapshot::capture::capture_operation_with_symbolic(
-                Op::Indexing(IndexingOp::Unique),
-                Some(op_params),
-                vec![self.id()],
-                values_id,
-                vec![self_layout],
-                max_values_layout,
-                Some(values_symbolic_layout),
-            )?;
+            // Register each output separately, like the other operations with several outputs
+            for (output_id, output_layout, symbolic_layout) in [
+                (values_id, max_values_layout, Some(values_symbolic_layout.clone())),
+                (inverse_id, inverse_layout, None),
+                (counts_id, max_counts_layout, Some(values_symbolic_layout)),
+            ] {
+                crate::snapshot::capture::capture_operation_with_symbolic(
+                    Op::Indexing(IndexingOp::Unique),
+                    Some(op_params.clone()),
+                    vec![self.id()],
+                    output_id,
+                    vec![self_layout.clone()],
+                    output_layout,
+                    symbolic_layout,
+                )?;
+            }
 
             Ok((values_tensor, inverse_tensor, counts_tensor))
         } else {
diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index e175794..6312001 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -5,6 +5,7 @@ use crate::{
         SliceParams, SqueezeParams, TransposeParams, UnsqueezeParams,
     },
     scalar::Scalar,
+    snapshot::capture::dense_source,
     tensor::{create_builder_tensor, from_shared_storage_with, gradient, Tensor},
     types::Shape,
 };
@@ -28,6 +29,9 @@ impl Tensor {
             return contiguous.reshape(shape);
         }
 
+        if let Some(dense) = dense_source(self)? {
+            return dense.reshape(shape);
+        }
         let current_layout = self.layout();
         let new_layout = current_layout.reshape(&shape)?;
         let requires_grad = self.is_requires_grad();
@@ -80,6 +84,9 @@ impl Tensor {
             return contiguous.flatten();
         }
 
+        if let Some(dense) = dense_source(self)? {
+            return dense.flatten();
+        }
         let current_layout = self.layout();
         let new_layout = current_layout.flatten()?;
         let requires_grad = self.is_requires_grad();
@@ -136,6 +143,9 @@ impl Tensor {
             })
             .collect();
 
+        if let Some(dense) = dense_source(self)? {
+            return dense.squeeze(dims);
+        }
         let current_layout = self.layout();
         let new_layout = current_layout.squeeze(&dims_i32)?;
         let requires_grad = self.is_requires_grad();
@@ -187,6 +197,9 @@ impl Tensor {
         let dim_scalar = dim.into();
         let dim_i32 = dim_scalar.to_i32();
 
+        if let Some(dense) = dense_source(self)? {
+            return dense.unsqueeze(dim_i32);
+        }
         let current_layout = self.layout();
         let new_layout = current_layout.unsqueeze(dim_i32)?;
         let requires_grad = self.is_requires_grad();
@@ -236,6 +249,9 @@ impl Tensor {
             return contiguous.broadcast(&target_shape);
         }
 
+        if let Some(dense) = dense_source(self)? {
+            return dense.broadcast(target_shape);
+        }
         let current_layout = self.layout();
         let new_layout = current_layout.broadcast_to(&target_shape)?;
         let requires_grad = self.is_requires_grad();
@@ -303,6 +319,9 @@ impl Tensor {
         let dim1_i32 = dim1_scalar.to_i32();
         let dim2_i32 = dim2_scalar.to_i32();
 
+        if let Some(dense) = dense_source(self)? {
+            return dense.transpose(dim1_i32, dim2_i32);
+        }
         let current_layout = self.layout();
         let new_layout = current_layout.transpose(dim1_i32, dim2_i32)?;
         let requires_grad = self.is_requires_grad();
@@ -369,6 +388,9 @@ impl Tensor {
             })
             .collect();
 
+        if let Some(dense) = dense_source(self)? {
+            return dense.permute(axes);
+        }
         let current_layout = self.layout();
         let new_layout = current_layout.permute(&axes_i32)?;
         let requires_grad = self.is_requires_grad();
@@ -480,6 +502,9 @@ impl Tensor {
         let step_scalar = step.into();
         let step_i32 = step_scalar.to_i32();
 
+        if let Some(dense) = dense_source(self)? {
+            return dense.slice(dim_i32, start_i32, end_i32, step_i32);
+        }
         let current_layout = self.layout();
 
         // A layout has no negative strides: select the same elements in ascending order, then reverse them
diff --git a/crates/hodu_core/src/tensor/ops/unary.rs b/crates/hodu_core/src/tensor/ops/unary.rs
index 841ac52..6f1131a 100644
--- a/crates/hodu_core/src/tensor/ops/unary.rs
+++ b/crates/hodu_core/src/tensor/ops/unary.rs
@@ -17,17 +17,18 @@ macro_rules! unary_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
+                let result_layout = Layout::from_shape(&self.shape());
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::Unary(UnaryOp::$op_name),
                     Some(OpParams::Unary(UnaryParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
@@ -73,15 +74,16 @@ macro_rules! unary_logical_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(&self.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryLogical(UnaryLogicalOp::$op_name),
                     Some(OpParams::UnaryLogical(UnaryLogicalParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
@@ -111,17 +113,18 @@ macro_rules! unary_scalar_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
+                let result_layout = Layout::from_shape(&self.shape());
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryScalar(UnaryScalarOp::$op_name),
                     Some(OpParams::UnaryScalar(UnaryScalarParams { scalar: scalar_value })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
-- 
2.43.0


From c608c8688475f51d86a28ebdac51553c4bc2f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 38/49] fix: non-finite and out-of-range values in JSON,
 oversized shapes, surplus data and inconsistent snapshots (F01, F03)

---
 crates/hodu_core/src/format/hdt.rs   |  10 ++-
 crates/hodu_core/src/format/json.rs  | 109 ++++++++++++---------------
 crates/hodu_core/src/snapshot.rs     |  44 ++++++++++-
 crates/hodu_core/src/tensor/bytes.rs |  10 ++-
 crates/hodu_core/src/types/shape.rs  |  11 +++
 5 files changed, 119 insertions(+), 65 deletions(-)

diff --git a/crates/hodu_core/src/format/hdt.rs b/crates/hodu_core/src/format/hdt.rs
index 18b4822..a3bdcbf 100644
--- a/crates/hodu_core/src/format/hdt.rs
+++ b/crates/hodu_core/src/format/hdt.rs
@@ -63,8 +63,11 @@ pub fn serialize(tensor: &Tensor) -> HoduResult<Vec<u8>> {
 
 /// Deserialize a single tensor from bytes
 pub fn deserialize(data: &[u8]) -> HoduResult<Tensor> {
-    let tensor_data: TensorData = postcard::from_bytes(data)
+    let (tensor_data, rest): (TensorData, _) = postcard::take_from_bytes(data)
         .map_err(|e| HoduError::DeserializationFailed(format!("Failed to deserialize tensor: {}", e)))?;
+    if !rest.is_empty() {
+        return Err(HoduError::DeserializationFailed("Unexpected data after tensor".into()));
+    }
 
     let shape = Shape::new(&tensor_data.shape);
     Tensor::from_bytes(&tensor_data.data, shape, tensor_data.dtype, Device::CPU)
@@ -93,8 +96,11 @@ pub fn serialize_many(tensors: &HashMap<String, Tensor>) -> HoduResult<Vec<u8>>
 
 /// Deserialize multiple named tensors from bytes
 pub fn deserialize_many(data: &[u8]) -> HoduResult<HashMap<String, Tensor>> {
-    let collection: TensorCollection = postcard::from_bytes(data)
+    let (collection, rest): (TensorCollection, _) = postcard::take_from_bytes(data)
         .map_err(|e| HoduError::DeserializationFailed(format!("Failed to deserialize tensors: {}", e)))?;
+    if !rest.is_empty() {
+        return Err(HoduError::DeserializationFailed("Unexpected data after tensors".into()));
+    }
 
     collection
         .tensors
diff --git a/crates/hodu_core/src/format/json.rs b/crates/hodu_core/src/format/json.rs
index 23bf41f..a8ff5ac 100644
--- a/crates/hodu_core/src/format/json.rs
+++ b/crates/hodu_core/src/format/json.rs
@@ -126,7 +126,7 @@ fn json_to_tensor(value: &Value) -> HoduResult<Tensor> {
         .iter()
         .map(|v| {
             v.as_u64()
-                .map(|n| n as usize)
+                .and_then(|n| usize::try_from(n).ok())
                 .ok_or_else(|| HoduError::DeserializationFailed("Invalid shape dimension".into()))
         })
         .collect::<HoduResult<Vec<_>>>()?;
@@ -143,7 +143,15 @@ fn json_to_tensor(value: &Value) -> HoduResult<Tensor> {
         .and_then(|v| v.as_array())
         .ok_or_else(|| HoduError::DeserializationFailed("Missing or invalid 'data' field".into()))?;
 
-    json_data_to_tensor(data_arr, Shape::new(&shape), dtype)
+    let shape = Shape::new(&shape);
+    if shape.checked_size(dtype.size_in_bytes()).is_none() {
+        return Err(HoduError::DeserializationFailed(format!(
+            "Shape {:?} is too large",
+            shape.dims()
+        )));
+    }
+
+    json_data_to_tensor(data_arr, shape, dtype)
 }
 
 fn dtype_to_str(dtype: DType) -> &'static str {
@@ -201,6 +209,26 @@ fn str_to_dtype(s: &str) -> HoduResult<DType> {
     }
 }
 
+/// JSON numbers cannot hold non-finite values, and the parser may be off in the last digit;
+/// such values are written as strings.
+fn float_to_json(value: f64) -> Value {
+    let number = serde_json::Number::from_f64(value).filter(|number| {
+        let parsed: Option<f64> = serde_json::from_str(&number.to_string()).ok();
+        parsed.map(f64::to_bits) == Some(value.to_bits())
+    });
+    match number {
+        Some(number) => Value::Number(number),
+        None => Value::String(value.to_string()),
+    }
+}
+
+fn json_to_float(value: &Value) -> Option<f64> {
+    match value {
+        Value::String(text) => text.parse().ok(),
+        _ => value.as_f64(),
+    }
+}
+
 fn tensor_data_to_json(tensor: &Tensor) -> HoduResult<Value> {
     match tensor.dtype() {
         DType::BOOL => {
@@ -210,76 +238,38 @@ fn tensor_data_to_json(tensor: &Tensor) -> HoduResult<Value> {
         DType::F8E4M3 => {
             let data: Vec<F8E4M3> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(f32::from(v) as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(f32::from(v) as f64)).collect(),
             ))
         },
         #[cfg(feature = "f8e5m2")]
         DType::F8E5M2 => {
             let data: Vec<F8E5M2> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(f32::from(v) as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(f32::from(v) as f64)).collect(),
             ))
         },
         DType::BF16 => {
             let data: Vec<bf16> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v.to_f64())
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v.to_f64())).collect(),
             ))
         },
         DType::F16 => {
             let data: Vec<f16> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v.to_f64())
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v.to_f64())).collect(),
             ))
         },
         DType::F32 => {
             let data: Vec<f32> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v as f64)).collect(),
             ))
         },
         #[cfg(feature = "f64")]
         DType::F64 => {
             let data: Vec<f64> = tensor.to_flatten_vec()?;
-            Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
-            ))
+            Ok(Value::Array(data.into_iter().map(float_to_json).collect()))
         },
         DType::U8 => {
             let data: Vec<u8> = tensor.to_flatten_vec()?;
@@ -357,7 +347,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<F8E4M3> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(|f| F8E4M3::from_f32(f as f32))
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -369,7 +359,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<F8E5M2> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(|f| F8E5M2::from_f32(f as f32))
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -380,7 +370,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<bf16> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(bf16::from_f64)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -391,7 +381,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<f16> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(f16::from_f64)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -402,7 +392,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
             let values: Vec<f32> = data
                 .iter()
                 .map(|v| {
-                    v.as_f64()
+                    json_to_float(v)
                         .map(|f| f as f32)
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
                 })
@@ -413,10 +403,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
         DType::F64 => {
             let values: Vec<f64> = data
                 .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
+                .map(|v| json_to_float(v).ok_or_else(|| HoduError::DeserializationFailed("Expected number".into())))
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
@@ -425,7 +412,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u8)
+                        .and_then(|n| u8::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -437,7 +424,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u16)
+                        .and_then(|n| u16::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -448,7 +435,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u32)
+                        .and_then(|n| u32::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -470,7 +457,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i8)
+                        .and_then(|n| i8::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -482,7 +469,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i16)
+                        .and_then(|n| i16::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
@@ -493,7 +480,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i32)
+                        .and_then(|n| i32::try_from(n).ok())
                         .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
diff --git a/crates/hodu_core/src/snapshot.rs b/crates/hodu_core/src/snapshot.rs
index 51289f1..56fb920 100644
--- a/crates/hodu_core/src/snapshot.rs
+++ b/crates/hodu_core/src/snapshot.rs
@@ -96,7 +96,49 @@ impl Snapshot {
 
     #[cfg(feature = "serde")]
     pub fn from_bytes(data: &[u8]) -> crate::error::HoduResult<Self> {
-        postcard::from_bytes(data).map_err(|e| crate::error::HoduError::DeserializationFailed(e.to_string()))
+        let (snapshot, rest): (Self, _) = postcard::take_from_bytes(data)
+            .map_err(|e| crate::error::HoduError::DeserializationFailed(e.to_string()))?;
+        if !rest.is_empty() {
+            return Err(crate::error::HoduError::DeserializationFailed(
+                "Unexpected data after snapshot".into(),
+            ));
+        }
+        snapshot.check_declared_sizes()?;
+        Ok(snapshot)
+    }
+
+    /// Every declared shape must be addressable, constants must hold exactly the data they
+    /// declare, and layouts must have one stride per dimension.
+    #[cfg(feature = "serde")]
+    fn check_declared_sizes(&self) -> crate::error::HoduResult<()> {
+        let inconsistent = |what: String| Err(crate::error::HoduError::DeserializationFailed(what));
+
+        for input in &self.inputs {
+            if input.shape.checked_size(input.dtype.size_in_bytes()).is_none() {
+                return inconsistent(format!("Input '{}' declares shape {:?}", input.name, input.shape.dims()));
+            }
+        }
+        for constant in &self.constants {
+            let element_size = constant.dtype.size_in_bytes();
+            let declared = constant.shape.checked_size(element_size).map(|size| size * element_size);
+            if declared != Some(constant.data.len()) {
+                return inconsistent(format!(
+                    "Constant {} declares shape {:?} of {:?} but holds {} bytes",
+                    constant.id.0,
+                    constant.shape.dims(),
+                    constant.dtype,
+                    constant.data.len()
+                ));
+            }
+        }
+        for node in &self.nodes {
+            for layout in node.input_layouts.iter().chain([&node.output_layout]) {
+                if layout.strides().len() != layout.shape().ndim() || layout.shape().checked_size(1).is_none() {
+                    return inconsistent(format!("Node {} declares layout {:?}", node.output_id.0, layout));
+                }
+            }
+        }
+        Ok(())
     }
 
     #[cfg(feature = "serde")]
diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index f1240a7..28c4e1d 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -28,7 +28,15 @@ impl Tensor {
     /// Data is first loaded to CPU, then transferred to the target device if needed.
     pub fn from_bytes(data: &[u8], shape: impl Into<Shape>, dtype: DType, device: Device) -> HoduResult<Self> {
         let shape = shape.into();
-        let expected_size = shape.size() * dtype.size_in_bytes();
+        let expected_size = match shape.checked_size(dtype.size_in_bytes()) {
+            Some(size) => size * dtype.size_in_bytes(),
+            None => {
+                return Err(HoduError::InvalidArgument(format!(
+                    "Shape {:?} is too large",
+                    shape.dims()
+                )))
+            },
+        };
 
         if data.len() != expected_size {
             return Err(HoduError::InvalidArgument(format!(
diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index 5681bbe..c2e46cd 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -69,6 +69,17 @@ impl Shape {
         self.dims.iter().product()
     }
 
+    /// Returns the total number of elements, or `None` if elements of `element_size` bytes
+    /// in this shape cannot be addressed.
+    pub fn checked_size(&self, element_size: usize) -> Option<usize> {
+        // Zero-sized dimensions count as one: strides have to be representable as well
+        self.dims
+            .iter()
+            .try_fold(element_size.max(1), |size, &dim| size.checked_mul(dim.max(1)))
+            .filter(|&bytes| bytes <= isize::MAX as usize)
+            .map(|_| self.size())
+    }
+
     /// Returns true if this is a scalar (0 dimensions).
     #[inline]
     pub fn is_scalar(&self) -> bool {
-- 
2.43.0


From 6227e463553fac49ca85f417e3c711fa31b59710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 39/49] fix: plugin servers ignore notifications and survive
 bytes that are no text; clients skip answers to other requests and keep their
 timeout (P01, P02)

---
 crates/hodu_plugin_runtime/src/client.rs | 206 +++++++++++++++--------
 hodu-plugin-sdk/src/server.rs            |  31 +++-
 2 files changed, 164 insertions(+), 73 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index dd40e43..64ae6e0 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -13,19 +13,22 @@ use std::io::{BufRead, BufReader, Write};
 use std::process::{Child, ChildStdin};
 use std::sync::atomic::{AtomicI64, Ordering};
 use std::sync::mpsc::{self, RecvTimeoutError};
-use std::sync::{Arc, Mutex};
-use std::time::Duration;
+use std::sync::Arc;
+use std::time::{Duration, Instant};
 
 /// Default timeout for RPC requests (5 minutes)
 pub const DEFAULT_TIMEOUT: Duration = Duration::from_secs(300);
 
+/// How long a cancel request may wait for the plugin to take it
+const CANCEL_WRITE_TIMEOUT: Duration = Duration::from_secs(1);
+
 /// Notification handler callback type
 pub type NotificationHandler = Box<dyn Fn(&str, Option<&serde_json::Value>) + Send>;
 
 /// Handle for cancelling requests from another thread (e.g., signal handler)
 #[derive(Clone)]
 pub struct CancellationHandle {
-    stdin: Arc<Mutex<ChildStdin>>,
+    writer: mpsc::Sender<Outgoing>,
     current_request_id: Arc<AtomicI64>,
     next_id: Arc<AtomicI64>,
 }
@@ -47,18 +50,86 @@ impl CancellationHandle {
             RequestId::Number(self.next_id.fetch_add(1, Ordering::SeqCst)),
         );
 
-        let mut stdin = self.stdin.lock().map_err(|_| ClientError::LockError)?;
-        let json = serde_json::to_string(&request).map_err(ClientError::Serialize)?;
-        writeln!(stdin, "{}", json).map_err(ClientError::Io)?;
-        stdin.flush().map_err(ClientError::Io)?;
-        Ok(())
+        write_and_wait(&self.writer, &request, CANCEL_WRITE_TIMEOUT)
+    }
+}
+
+/// A line to be written to the plugin
+struct Outgoing {
+    line: String,
+    on_done: WriteDone,
+}
+
+/// Who learns how a write went
+enum WriteDone {
+    /// The call waiting for the response to this request (told of failures only)
+    Call(i64),
+    /// A sender waiting for the write itself
+    Sender(mpsc::Sender<std::io::Result<()>>),
+}
+
+/// What a waiting call can observe
+enum Event {
+    Line(String),
+    ReadFailed(std::io::Error),
+    WriteFailed(i64, std::io::Error),
+    Closed,
+}
+
+/// Queue a request for the writer thread and wait until it was written
+fn write_and_wait(writer: &mpsc::Sender<Outgoing>, request: &Request, timeout: Duration) -> Result<(), ClientError> {
+    let line = serde_json::to_string(request).map_err(ClientError::Serialize)?;
+    let (tx, rx) = mpsc::channel();
+    let outgoing = Outgoing {
+        line,
+        on_done: WriteDone::Sender(tx),
+    };
+    writer.send(outgoing).map_err(|_| ClientError::ConnectionClosed)?;
+    match rx.recv_timeout(timeout) {
+        Ok(done) => done.map_err(ClientError::Io),
+        Err(RecvTimeoutError::Timeout) => Err(ClientError::Timeout(timeout)),
+        Err(RecvTimeoutError::Disconnected) => Err(ClientError::ConnectionClosed),
+    }
+}
+
+/// Write queued lines to the plugin until every sender is gone
+fn write_loop(mut stdin: ChildStdin, lines: mpsc::Receiver<Outgoing>, events: mpsc::Sender<Event>) {
+    for Outgoing { line, on_done } in lines {
+        let written = writeln!(stdin, "{}", line).and_then(|_| stdin.flush());
+        match (on_done, written) {
+            (WriteDone::Sender(tx), written) => {
+                let _ = tx.send(written);
+            },
+            (WriteDone::Call(id), Err(e)) => {
+                let _ = events.send(Event::WriteFailed(id, e));
+            },
+            (WriteDone::Call(_), Ok(())) => {},
+        }
+    }
+}
+
+/// Pass the plugin's output lines on until it closes its output
+fn read_loop(mut reader: impl BufRead, events: mpsc::Sender<Event>) {
+    let mut line = Vec::new();
+    loop {
+        line.clear();
+        let event = match reader.read_until(b'\n', &mut line) {
+            Ok(0) => Event::Closed,
+            Ok(_) => Event::Line(String::from_utf8_lossy(&line).into_owned()),
+            Err(e) => Event::ReadFailed(e),
+        };
+        let last = !matches!(event, Event::Line(_));
+        if events.send(event).is_err() || last {
+            break;
+        }
     }
 }
 
 /// JSON-RPC client for communicating with a plugin process
 pub struct PluginClient {
-    stdin: Arc<Mutex<ChildStdin>>,
-    line_receiver: mpsc::Receiver<Result<String, std::io::Error>>,
+    writer: mpsc::Sender<Outgoing>,
+    events: mpsc::Receiver<Event>,
+    closed: bool,
     next_id: Arc<AtomicI64>,
     current_request_id: Arc<AtomicI64>,
     notification_handler: Option<NotificationHandler>,
@@ -71,30 +142,18 @@ impl PluginClient {
         let stdin = child.stdin.take().ok_or(ClientError::NoStdin)?;
         let stdout = child.stdout.take().ok_or(ClientError::NoStdout)?;
 
-        // Spawn a reader thread that sends lines through a channel
-        let (tx, rx) = mpsc::channel();
-        std::thread::spawn(move || {
-            let mut reader = BufReader::new(stdout);
-            loop {
-                let mut line = String::new();
-                match reader.read_line(&mut line) {
-                    Ok(0) => break, // EOF
-                    Ok(_) => {
-                        if tx.send(Ok(line)).is_err() {
-                            break; // Receiver dropped
-                        }
-                    },
-                    Err(e) => {
-                        let _ = tx.send(Err(e));
-                        break;
-                    },
-                }
-            }
-        });
+        // One thread reads lines and one writes them, so that neither a silent plugin
+        // nor one that stops reading can block a call beyond its timeout
+        let (event_tx, events) = mpsc::channel();
+        let (writer, outgoing) = mpsc::channel();
+        let write_events = event_tx.clone();
+        std::thread::spawn(move || read_loop(BufReader::new(stdout), event_tx));
+        std::thread::spawn(move || write_loop(stdin, outgoing, write_events));
 
         Ok(Self {
-            stdin: Arc::new(Mutex::new(stdin)),
-            line_receiver: rx,
+            writer,
+            events,
+            closed: false,
             next_id: Arc::new(AtomicI64::new(1)),
             current_request_id: Arc::new(AtomicI64::new(0)),
             notification_handler: None,
@@ -110,7 +169,7 @@ impl PluginClient {
     /// Get a cancellation handle for use from another thread (e.g., Ctrl+C handler)
     pub fn cancellation_handle(&self) -> CancellationHandle {
         CancellationHandle {
-            stdin: Arc::clone(&self.stdin),
+            writer: self.writer.clone(),
             current_request_id: Arc::clone(&self.current_request_id),
             next_id: Arc::clone(&self.next_id),
         }
@@ -159,11 +218,7 @@ impl PluginClient {
             None,
             RequestId::Number(self.next_id.fetch_add(1, Ordering::SeqCst)),
         );
-        let mut stdin = self.stdin.lock().map_err(|_| ClientError::LockError)?;
-        let json = serde_json::to_string(&request).map_err(ClientError::Serialize)?;
-        writeln!(stdin, "{}", json).map_err(ClientError::Io)?;
-        stdin.flush().map_err(ClientError::Io)?;
-        Ok(())
+        write_and_wait(&self.writer, &request, self.timeout)
     }
 
     // ========================================================================
@@ -266,42 +321,59 @@ impl PluginClient {
         R: serde::de::DeserializeOwned,
     {
         let id_num = self.next_id.fetch_add(1, Ordering::SeqCst);
-        let id = RequestId::Number(id_num);
-
-        // Track current request ID for cancellation
-        self.current_request_id.store(id_num, Ordering::SeqCst);
-
         let params_value = params
             .map(|p| serde_json::to_value(p))
             .transpose()
             .map_err(ClientError::Serialize)?;
-
         let request = Request {
             jsonrpc: JSONRPC_VERSION.to_string(),
             method: method.to_string(),
             params: params_value,
-            id: id.clone(),
+            id: RequestId::Number(id_num),
         };
 
-        // Send request
-        {
-            let mut stdin = self.stdin.lock().map_err(|_| ClientError::LockError)?;
-            let json = serde_json::to_string(&request).map_err(ClientError::Serialize)?;
-            writeln!(stdin, "{}", json).map_err(ClientError::Io)?;
-            stdin.flush().map_err(ClientError::Io)?;
+        // Track current request ID for cancellation, for as long as the call lasts
+        self.current_request_id.store(id_num, Ordering::SeqCst);
+        let response = self.exchange(id_num, &request);
+        self.current_request_id.store(0, Ordering::SeqCst);
+
+        serde_json::from_value(response?).map_err(|e| ClientError::Parse(e.to_string()))
+    }
+
+    /// Send a request and wait until its own response arrives
+    fn exchange(&mut self, id_num: i64, request: &Request) -> Result<serde_json::Value, ClientError> {
+        if self.closed {
+            return Err(ClientError::ConnectionClosed);
         }
+        let start = Instant::now();
+
+        // Send request
+        let outgoing = Outgoing {
+            line: serde_json::to_string(request).map_err(ClientError::Serialize)?,
+            on_done: WriteDone::Call(id_num),
+        };
+        self.writer.send(outgoing).map_err(|_| ClientError::ConnectionClosed)?;
 
         // Read response, handling notifications along the way
         loop {
-            let line = match self.line_receiver.recv_timeout(self.timeout) {
-                Ok(Ok(line)) => line,
-                Ok(Err(e)) => return Err(ClientError::Io(e)),
+            let left = self.timeout.saturating_sub(start.elapsed());
+            let line = match self.events.recv_timeout(left) {
+                Ok(Event::Line(line)) => line,
+                Ok(Event::WriteFailed(failed, e)) if failed == id_num => return Err(ClientError::Io(e)),
+                Ok(Event::WriteFailed(..)) => continue, // An earlier request
+                Ok(Event::ReadFailed(e)) => {
+                    self.closed = true;
+                    return Err(ClientError::Io(e));
+                },
+                Ok(Event::Closed) | Err(RecvTimeoutError::Disconnected) => {
+                    self.closed = true;
+                    return Err(ClientError::ConnectionClosed);
+                },
                 Err(RecvTimeoutError::Timeout) => return Err(ClientError::Timeout(self.timeout)),
-                Err(RecvTimeoutError::Disconnected) => return Err(ClientError::ConnectionClosed),
             };
-
-            if line.is_empty() {
-                return Err(ClientError::ConnectionClosed);
+            // A plugin that never stops talking must not outlast the timeout either
+            if start.elapsed() > self.timeout {
+                return Err(ClientError::Timeout(self.timeout));
             }
 
             // Try to parse as JSON first
@@ -317,14 +389,14 @@ impl PluginClient {
                 continue; // Keep reading for the actual response
             }
 
-            // It's a response - clear current request ID
-            self.current_request_id.store(0, Ordering::SeqCst);
-
-            let response: Response = serde_json::from_str(&line).map_err(|e| ClientError::Parse(e.to_string()))?;
+            // A missing result is an error; a null one is what a method without a result returns
+            let result = value.get("result").cloned();
+            let response: Response = serde_json::from_value(value).map_err(|e| ClientError::Parse(e.to_string()))?;
 
-            // Verify ID matches
-            if response.id != id {
-                return Err(ClientError::IdMismatch);
+            // A response to something else (an earlier request that timed out, a cancel
+            // request) is not ours to return: keep reading
+            if response.id != RequestId::Number(id_num) {
+                continue;
             }
 
             // Check for error
@@ -332,9 +404,7 @@ impl PluginClient {
                 return Err(ClientError::Rpc(error));
             }
 
-            // Parse result
-            let result = response.result.ok_or(ClientError::NoResult)?;
-            return serde_json::from_value(result).map_err(|e| ClientError::Parse(e.to_string()));
+            return result.ok_or(ClientError::NoResult);
         }
     }
 
diff --git a/hodu-plugin-sdk/src/server.rs b/hodu-plugin-sdk/src/server.rs
index 5553a39..f3a3bcf 100644
--- a/hodu-plugin-sdk/src/server.rs
+++ b/hodu-plugin-sdk/src/server.rs
@@ -160,15 +160,22 @@ impl PluginServer {
     pub fn run(mut self) -> Result<(), Box<dyn std::error::Error>> {
         let stdin = std::io::stdin();
         let mut stdout = std::io::stdout();
-        let reader = BufReader::new(stdin.lock());
+        let mut reader = BufReader::new(stdin.lock());
+        let mut line = Vec::new();
 
-        for line in reader.lines() {
-            let line = line?;
+        loop {
+            line.clear();
+            if reader.read_until(b'\n', &mut line)? == 0 {
+                break;
+            }
+            // Bytes that are no text make a message malformed, not the server fail
+            let text = String::from_utf8_lossy(&line);
+            let line = text.trim_end_matches(['\r', '\n']);
             if line.is_empty() {
                 continue;
             }
 
-            let response = self.handle_message(&line);
+            let response = self.handle_message(line);
             if let Some(resp) = response {
                 let json = serde_json::to_string(&resp)?;
                 writeln!(stdout, "{}", json)?;
@@ -180,8 +187,22 @@ impl PluginServer {
     }
 
     fn handle_message(&mut self, line: &str) -> Option<Response> {
+        // A message without an id is a notification: nobody waits for an answer
+        let message: serde_json::Value = match serde_json::from_str(line) {
+            Ok(message) => message,
+            Err(e) => {
+                return Some(Response::error(
+                    RequestId::Number(0),
+                    RpcError::parse_error(e.to_string()),
+                ));
+            },
+        };
+        if message.get("method").is_some() && message.get("id").is_none() {
+            return None;
+        }
+
         // Parse request
-        let request: Request = match serde_json::from_str(line) {
+        let request: Request = match serde_json::from_value(message) {
             Ok(req) => req,
             Err(e) => {
                 return Some(Response::error(
-- 
2.43.0


From 108d06373cc652f58a038d301736218c61662cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 40/49] fix: registry saves are atomic, removals undone when
 they fail, plugin processes always reaped and replaced after a crash (P04,
 P05, C03)

---
 crates/hodu_plugin_runtime/src/backend.rs  | 43 +++++++++------
 crates/hodu_plugin_runtime/src/client.rs   | 32 ++++++++++++
 crates/hodu_plugin_runtime/src/format.rs   | 43 +++++++++------
 crates/hodu_plugin_runtime/src/lib.rs      |  2 +-
 crates/hodu_plugin_runtime/src/registry.rs | 61 +++++++++++++---------
 hodu-cli/src/commands/plugin.rs            | 28 ++++++++--
 hodu-cli/src/plugins.rs                    |  5 +-
 hodu-cli/src/plugins/process.rs            | 44 ++++++++++------
 8 files changed, 180 insertions(+), 78 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/backend.rs b/crates/hodu_plugin_runtime/src/backend.rs
index 0826ab9..5b1236a 100644
--- a/crates/hodu_plugin_runtime/src/backend.rs
+++ b/crates/hodu_plugin_runtime/src/backend.rs
@@ -3,7 +3,7 @@
 //! This module provides the runtime for loading and executing backend plugins.
 //! Backend plugins handle model inference execution and AOT compilation.
 
-use crate::client::{CancellationHandle, ClientError, PluginClient, DEFAULT_TIMEOUT};
+use crate::client::{kill_plugin, stop_plugin, CancellationHandle, ClientError, PluginClient, DEFAULT_TIMEOUT};
 use crate::registry::{PluginEntry, PluginRegistry, RegistryError};
 use hodu_plugin::rpc::InitializeResult;
 use std::collections::HashMap;
@@ -61,14 +61,18 @@ impl PluginManager {
 
     /// Get or spawn a backend plugin by name
     pub fn get_plugin(&mut self, name: &str) -> Result<&mut PluginClient, ManagerError> {
-        // Check if already running
-        if self.processes.contains_key(name) {
-            return Ok(&mut self
-                .processes
-                .get_mut(name)
-                .expect("key exists after contains_key check")
-                .client);
+        // Check if already running; one that ended or closed its output is replaced
+        let running = match self.processes.get_mut(name) {
+            Some(managed) => !managed.client.is_closed() && matches!(managed.child.try_wait(), Ok(None)),
+            None => false,
+        };
+        if running {
+            let timeout = self.timeout;
+            let managed = self.processes.get_mut(name).expect("running plugin has an entry");
+            managed.client.set_timeout(timeout);
+            return Ok(&mut managed.client);
         }
+        let _ = self.shutdown_plugin(name);
 
         // Find plugin in registry
         let entry = self
@@ -118,22 +122,31 @@ impl PluginManager {
             .map_err(|e| ManagerError::Spawn(e.to_string()))?;
 
         // Create client
-        let mut client = PluginClient::new(&mut child).map_err(ManagerError::Client)?;
+        let mut client = match PluginClient::new(&mut child) {
+            Ok(client) => client,
+            Err(e) => {
+                kill_plugin(child);
+                return Err(ManagerError::Client(e));
+            },
+        };
 
         // Set timeout
         client.set_timeout(self.timeout);
 
         // Initialize
-        let info = client.initialize().map_err(ManagerError::Client)?;
-
-        Ok(ManagedPlugin { child, client, info })
+        match client.initialize() {
+            Ok(info) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                kill_plugin(child);
+                Err(ManagerError::Client(e))
+            },
+        }
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ManagerError> {
-        if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+        if let Some(managed) = self.processes.remove(name) {
+            stop_plugin(managed.child, managed.client);
         }
         Ok(())
     }
diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index 64ae6e0..f7c5c92 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -22,6 +22,9 @@ pub const DEFAULT_TIMEOUT: Duration = Duration::from_secs(300);
 /// How long a cancel request may wait for the plugin to take it
 const CANCEL_WRITE_TIMEOUT: Duration = Duration::from_secs(1);
 
+/// How long a plugin may take to end after a shutdown request before it is killed
+const SHUTDOWN_GRACE: Duration = Duration::from_secs(2);
+
 /// Notification handler callback type
 pub type NotificationHandler = Box<dyn Fn(&str, Option<&serde_json::Value>) + Send>;
 
@@ -166,6 +169,11 @@ impl PluginClient {
         self.timeout = timeout;
     }
 
+    /// Whether the plugin is known to have closed its output (no call can succeed any more)
+    pub fn is_closed(&self) -> bool {
+        self.closed
+    }
+
     /// Get a cancellation handle for use from another thread (e.g., Ctrl+C handler)
     pub fn cancellation_handle(&self) -> CancellationHandle {
         CancellationHandle {
@@ -429,6 +437,30 @@ impl PluginClient {
     }
 }
 
+/// Stop a plugin process: ask it to shut down, close its input, and kill it if it does not
+/// end by itself. The process is always reaped.
+pub fn stop_plugin(mut child: Child, mut client: PluginClient) {
+    client.timeout = client.timeout.min(CANCEL_WRITE_TIMEOUT);
+    let _ = client.shutdown();
+    drop(client);
+
+    let start = Instant::now();
+    while start.elapsed() < SHUTDOWN_GRACE {
+        match child.try_wait() {
+            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
+            Ok(Some(_)) => return,
+            Err(_) => break,
+        }
+    }
+    kill_plugin(child);
+}
+
+/// Kill a plugin process and reap it
+pub fn kill_plugin(mut child: Child) {
+    let _ = child.kill();
+    let _ = child.wait();
+}
+
 /// Client errors
 #[derive(Debug)]
 pub enum ClientError {
diff --git a/crates/hodu_plugin_runtime/src/format.rs b/crates/hodu_plugin_runtime/src/format.rs
index 37fe072..3569b7f 100644
--- a/crates/hodu_plugin_runtime/src/format.rs
+++ b/crates/hodu_plugin_runtime/src/format.rs
@@ -3,7 +3,7 @@
 //! This module provides the runtime for loading and executing format plugins.
 //! Format plugins handle loading and saving models and tensors in various file formats.
 
-use crate::client::{ClientError, PluginClient, DEFAULT_TIMEOUT};
+use crate::client::{kill_plugin, stop_plugin, ClientError, PluginClient, DEFAULT_TIMEOUT};
 use crate::registry::{PluginEntry, PluginRegistry, RegistryError};
 use hodu_plugin::rpc::InitializeResult;
 use std::collections::HashMap;
@@ -61,14 +61,18 @@ impl PluginManager {
 
     /// Get or spawn a format plugin by name
     pub fn get_plugin(&mut self, name: &str) -> Result<&mut PluginClient, ManagerError> {
-        // Check if already running
-        if self.processes.contains_key(name) {
-            return Ok(&mut self
-                .processes
-                .get_mut(name)
-                .expect("key exists after contains_key check")
-                .client);
+        // Check if already running; one that ended or closed its output is replaced
+        let running = match self.processes.get_mut(name) {
+            Some(managed) => !managed.client.is_closed() && matches!(managed.child.try_wait(), Ok(None)),
+            None => false,
+        };
+        if running {
+            let timeout = self.timeout;
+            let managed = self.processes.get_mut(name).expect("running plugin has an entry");
+            managed.client.set_timeout(timeout);
+            return Ok(&mut managed.client);
         }
+        let _ = self.shutdown_plugin(name);
 
         // Find plugin in registry
         let entry = self
@@ -129,22 +133,31 @@ impl PluginManager {
             .map_err(|e| ManagerError::Spawn(e.to_string()))?;
 
         // Create client
-        let mut client = PluginClient::new(&mut child).map_err(ManagerError::Client)?;
+        let mut client = match PluginClient::new(&mut child) {
+            Ok(client) => client,
+            Err(e) => {
+                kill_plugin(child);
+                return Err(ManagerError::Client(e));
+            },
+        };
 
         // Set timeout
         client.set_timeout(self.timeout);
 
         // Initialize
-        let info = client.initialize().map_err(ManagerError::Client)?;
-
-        Ok(ManagedPlugin { child, client, info })
+        match client.initialize() {
+            Ok(info) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                kill_plugin(child);
+                Err(ManagerError::Client(e))
+            },
+        }
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ManagerError> {
-        if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+        if let Some(managed) = self.processes.remove(name) {
+            stop_plugin(managed.child, managed.client);
         }
         Ok(())
     }
diff --git a/crates/hodu_plugin_runtime/src/lib.rs b/crates/hodu_plugin_runtime/src/lib.rs
index 0ce713e..af364b5 100644
--- a/crates/hodu_plugin_runtime/src/lib.rs
+++ b/crates/hodu_plugin_runtime/src/lib.rs
@@ -30,7 +30,7 @@ mod registry;
 mod runtime;
 mod types;
 
-pub use client::{CancellationHandle, ClientError, PluginClient, DEFAULT_TIMEOUT};
+pub use client::{kill_plugin, stop_plugin, CancellationHandle, ClientError, PluginClient, DEFAULT_TIMEOUT};
 pub use registry::{detect_plugin_type, PluginDetectError, PluginRegistry, RegistryError};
 #[cfg(all(feature = "format", feature = "backend"))]
 pub use runtime::{Model, Runtime, RuntimeError};
diff --git a/crates/hodu_plugin_runtime/src/registry.rs b/crates/hodu_plugin_runtime/src/registry.rs
index 660c4c7..eacd0bb 100644
--- a/crates/hodu_plugin_runtime/src/registry.rs
+++ b/crates/hodu_plugin_runtime/src/registry.rs
@@ -3,8 +3,10 @@
 pub use super::types::{DetectedPluginType, PluginEntry, PluginType};
 use fs2::FileExt;
 use serde::{Deserialize, Serialize};
-use std::fs::OpenOptions;
+use std::fs::{File, OpenOptions};
+use std::io::{Read, Write};
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicU64, Ordering};
 
 /// Plugin registry stored in ~/.hodu/plugins.json
 #[derive(Debug, Clone, Serialize, Deserialize, Default)]
@@ -29,19 +31,19 @@ impl PluginRegistry {
 
     /// Load registry from file with shared lock
     pub fn load(path: &Path) -> Result<Self, RegistryError> {
-        if !path.exists() {
-            return Ok(Self::new());
-        }
-
-        let file = OpenOptions::new()
-            .read(true)
-            .open(path)
-            .map_err(|e| RegistryError::Io(e.to_string()))?;
+        let mut file = match OpenOptions::new().read(true).open(path) {
+            Ok(file) => file,
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(Self::new()),
+            Err(e) => return Err(RegistryError::Io(e.to_string())),
+        };
 
         // Acquire shared lock for reading
-        file.lock_shared().map_err(|e| RegistryError::Lock(e.to_string()))?;
+        FileExt::lock_shared(&file).map_err(|e| RegistryError::Lock(e.to_string()))?;
 
-        let content = std::fs::read_to_string(path).map_err(|e| RegistryError::Io(e.to_string()))?;
+        // Read the file that is locked, whatever the path names by now
+        let mut content = String::new();
+        file.read_to_string(&mut content)
+            .map_err(|e| RegistryError::Io(e.to_string()))?;
 
         let registry: Self = serde_json::from_str(&content).map_err(|e| RegistryError::Parse(e.to_string()))?;
 
@@ -56,22 +58,24 @@ impl PluginRegistry {
             std::fs::create_dir_all(parent).map_err(|e| RegistryError::Io(e.to_string()))?;
         }
 
-        let file = OpenOptions::new()
-            .write(true)
-            .create(true)
-            .truncate(true)
-            .open(path)
-            .map_err(|e| RegistryError::Io(e.to_string()))?;
-
-        // Acquire exclusive lock for writing
-        file.lock_exclusive().map_err(|e| RegistryError::Lock(e.to_string()))?;
-
         let content = serde_json::to_string_pretty(self).map_err(|e| RegistryError::Serialize(e.to_string()))?;
 
-        std::fs::write(path, content).map_err(|e| RegistryError::Io(e.to_string()))?;
-
-        // Lock released when file is dropped
-        Ok(())
+        // Write a file of our own and move it into place: whoever reads the registry, and
+        // whenever this process dies, finds the old registry or the new one, never a part
+        static SAVES: AtomicU64 = AtomicU64::new(0);
+        let target = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
+        let file_name = target.file_name().unwrap_or_default().to_string_lossy().into_owned();
+        let temp = target.with_file_name(format!(
+            ".{}.{}.{}.tmp",
+            file_name,
+            std::process::id(),
+            SAVES.fetch_add(1, Ordering::Relaxed)
+        ));
+        let saved = write_synced(&temp, content.as_bytes()).and_then(|_| std::fs::rename(&temp, &target));
+        if saved.is_err() {
+            let _ = std::fs::remove_file(&temp);
+        }
+        saved.map_err(|e| RegistryError::Io(e.to_string()))
     }
 
     /// Get default registry path (~/.hodu/plugins.json)
@@ -228,6 +232,13 @@ impl PluginRegistry {
     }
 }
 
+/// Write a new file and flush it to the disk
+fn write_synced(path: &Path, content: &[u8]) -> std::io::Result<()> {
+    let mut file = File::create(path)?;
+    file.write_all(content)?;
+    file.sync_all()
+}
+
 /// Registry errors
 #[derive(Debug)]
 pub enum RegistryError {
diff --git a/hodu-cli/src/commands/plugin.rs b/hodu-cli/src/commands/plugin.rs
index e4d2e6e..4dd4ab0 100644
--- a/hodu-cli/src/commands/plugin.rs
+++ b/hodu-cli/src/commands/plugin.rs
@@ -8,7 +8,7 @@ mod update;
 use crate::output;
 use crate::plugins::{PluginManager, PluginRegistry, PluginSource};
 use clap::{Args, Subcommand};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 pub use install::{get_plugins_dir, install_from_git, install_from_path, install_from_registry};
 pub use update::update_plugins;
@@ -527,13 +527,31 @@ fn remove_plugin(args: RemoveArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     output::removing(&format!("{} v{}", name, version));
 
-    if plugin_dir.exists() {
-        std::fs::remove_dir_all(&plugin_dir)?;
+    // Only a plain name has a directory of its own below the plugins directory
+    let own_dir = Path::new(&name).components().count() == 1 && Path::new(&name).file_name().is_some();
+    let plugin_dir = own_dir
+        .then_some(plugin_dir)
+        .filter(|dir| dir.symlink_metadata().is_ok());
+
+    // Move the files aside first, so that a removal that fails can be undone
+    let removed_dir = plugins_dir.join(format!(".{}.removed-{}", name, std::process::id()));
+    if let Some(dir) = &plugin_dir {
+        std::fs::rename(dir, &removed_dir)?;
     }
 
     // Remove from registry
     registry.remove(&name);
-    registry.save(&registry_path)?;
+    if let Err(e) = registry.save(&registry_path) {
+        if let Some(dir) = &plugin_dir {
+            std::fs::rename(&removed_dir, dir)?;
+        }
+        return Err(e.into());
+    }
+    if plugin_dir.is_some() {
+        if let Err(e) = std::fs::remove_dir_all(&removed_dir) {
+            output::warning(&format!("could not delete {}: {}", removed_dir.display(), e));
+        }
+    }
 
     output::removed(&format!("{} v{}", name, version));
     Ok(())
@@ -567,7 +585,7 @@ fn disable_plugin(args: DisableArgs) -> Result<(), Box<dyn std::error::Error>> {
     let dependents: Vec<String> = registry
         .plugins
         .iter()
-        .filter(|p| p.enabled && p.dependencies.contains(&name))
+        .filter(|p| p.enabled && p.name != name && p.dependencies.contains(&name))
         .map(|p| p.name.clone())
         .collect();
 
diff --git a/hodu-cli/src/plugins.rs b/hodu-cli/src/plugins.rs
index f31d317..7411339 100644
--- a/hodu-cli/src/plugins.rs
+++ b/hodu-cli/src/plugins.rs
@@ -7,8 +7,9 @@
 pub use hodu_plugin_runtime::backend;
 pub use hodu_plugin_runtime::format;
 pub use hodu_plugin_runtime::{
-    detect_plugin_type, CancellationHandle, ClientError, DetectedPluginType, PluginCapabilities, PluginClient,
-    PluginDetectError, PluginEntry, PluginRegistry, PluginSource, PluginType, RegistryError, DEFAULT_TIMEOUT,
+    detect_plugin_type, kill_plugin, stop_plugin, CancellationHandle, ClientError, DetectedPluginType,
+    PluginCapabilities, PluginClient, PluginDetectError, PluginEntry, PluginRegistry, PluginSource, PluginType,
+    RegistryError, DEFAULT_TIMEOUT,
 };
 
 mod process;
diff --git a/hodu-cli/src/plugins/process.rs b/hodu-cli/src/plugins/process.rs
index 34811a3..d261aa7 100644
--- a/hodu-cli/src/plugins/process.rs
+++ b/hodu-cli/src/plugins/process.rs
@@ -6,7 +6,8 @@
 use crate::output;
 use hodu_plugin::rpc::{methods, InitializeResult, LogParams};
 use hodu_plugin_runtime::{
-    CancellationHandle, ClientError, PluginClient, PluginEntry, PluginRegistry, RegistryError, DEFAULT_TIMEOUT,
+    kill_plugin, stop_plugin, CancellationHandle, ClientError, PluginClient, PluginEntry, PluginRegistry,
+    RegistryError, DEFAULT_TIMEOUT,
 };
 use std::collections::HashMap;
 use std::path::PathBuf;
@@ -64,14 +65,18 @@ impl PluginManager {
 
     /// Get or spawn a plugin by name
     pub fn get_plugin(&mut self, name: &str) -> Result<&mut PluginClient, ProcessError> {
-        // Check if already running
-        if self.processes.contains_key(name) {
-            return Ok(&mut self
-                .processes
-                .get_mut(name)
-                .expect("key exists after contains_key check")
-                .client);
+        // Check if already running; one that ended or closed its output is replaced
+        let running = match self.processes.get_mut(name) {
+            Some(managed) => !managed.client.is_closed() && matches!(managed.child.try_wait(), Ok(None)),
+            None => false,
+        };
+        if running {
+            let timeout = self.timeout;
+            let managed = self.processes.get_mut(name).expect("running plugin has an entry");
+            managed.client.set_timeout(timeout);
+            return Ok(&mut managed.client);
         }
+        let _ = self.shutdown_plugin(name);
 
         // Find plugin in registry
         let entry = self
@@ -133,7 +138,13 @@ impl PluginManager {
             .map_err(|e| ProcessError::Spawn(e.to_string()))?;
 
         // Create client
-        let mut client = PluginClient::new(&mut child).map_err(ProcessError::Client)?;
+        let mut client = match PluginClient::new(&mut child) {
+            Ok(client) => client,
+            Err(e) => {
+                kill_plugin(child);
+                return Err(ProcessError::Client(e));
+            },
+        };
 
         // Set timeout
         client.set_timeout(self.timeout);
@@ -142,16 +153,19 @@ impl PluginManager {
         client.set_notification_handler(Box::new(cli_notification_handler));
 
         // Initialize
-        let info = client.initialize().map_err(ProcessError::Client)?;
-
-        Ok(ManagedPlugin { child, client, info })
+        match client.initialize() {
+            Ok(info) => Ok(ManagedPlugin { child, client, info }),
+            Err(e) => {
+                kill_plugin(child);
+                Err(ProcessError::Client(e))
+            },
+        }
     }
 
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ProcessError> {
-        if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+        if let Some(managed) = self.processes.remove(name) {
+            stop_plugin(managed.child, managed.client);
         }
         Ok(())
     }
-- 
2.43.0


From 57311bcba8a151aa76b6941149d3b46c4bc1e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 41/49] fix: cleaning a backend's cache refuses names that lead
 out of the cache (C02)

---
 hodu-cli/src/commands/clean.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hodu-cli/src/commands/clean.rs b/hodu-cli/src/commands/clean.rs
index d999ef5..a5d1c3b 100644
--- a/hodu-cli/src/commands/clean.rs
+++ b/hodu-cli/src/commands/clean.rs
@@ -35,7 +35,13 @@ pub fn execute(args: CleanArgs) -> Result<(), Box<dyn std::error::Error>> {
         // Clean everything
         clean_directory(&hodu_dir, "all hodu data", args.dry_run)?;
     } else if let Some(backend) = &args.backend {
-        // Clean specific backend
+        // Clean specific backend: its name is that of a directory in the cache, not a path
+        // that may lead elsewhere
+        let mut parts = std::path::Path::new(backend).components();
+        if !matches!((parts.next(), parts.next()), (Some(std::path::Component::Normal(n)), None) if n == backend.as_str())
+        {
+            return Err(format!("Invalid backend name '{}'", backend).into());
+        }
         let backend_cache = cache_dir.join(backend);
         if backend_cache.exists() {
             clean_directory(&backend_cache, &format!("{} cache", backend), args.dry_run)?;
-- 
2.43.0


From 7df930a0ee246fb94dc46a894ea95799017ded53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 42/49] fix: files are replaced as a whole, a failing save or
 conversion keeps what was there (C04)

---
 crates/hodu_core/src/format.rs      | 33 +++++++++++++++++++++++++++++
 crates/hodu_core/src/format/hdt.rs  |  6 ++++--
 crates/hodu_core/src/format/json.rs |  6 ++++--
 crates/hodu_core/src/snapshot.rs    |  2 +-
 hodu-cli/src/commands/convert.rs    | 22 +++++++++++++------
 hodu-cli/src/tensor.rs              |  2 +-
 hodu-cli/src/tensor/saver.rs        | 25 ++++++++++++++++++++++
 7 files changed, 83 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_core/src/format.rs b/crates/hodu_core/src/format.rs
index 7feceb1..6d33322 100644
--- a/crates/hodu_core/src/format.rs
+++ b/crates/hodu_core/src/format.rs
@@ -13,3 +13,36 @@ pub mod hdss;
 pub mod hdt;
 #[cfg(feature = "serde")]
 pub mod json;
+
+/// Write a file as a whole: until everything is written the path keeps what it held before,
+/// and a write that fails leaves nothing behind
+#[cfg(feature = "serde")]
+pub(crate) fn write_file(path: &std::path::Path, data: &[u8]) -> std::io::Result<()> {
+    use std::sync::atomic::{AtomicU64, Ordering};
+    static WRITES: AtomicU64 = AtomicU64::new(0);
+
+    let target = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
+    let existing = std::fs::metadata(&target).ok();
+    let name = match (&existing, target.file_name()) {
+        // Pipes, terminals and the like cannot be replaced, nor can a path without a name
+        (Some(found), _) if !found.is_file() => return std::fs::write(path, data),
+        (_, None) => return std::fs::write(path, data),
+        (_, Some(name)) => name.to_string_lossy().into_owned(),
+    };
+    let temp = target.with_file_name(format!(
+        ".{}.{}.{}.tmp",
+        name.chars().take(50).collect::<String>(),
+        std::process::id(),
+        WRITES.fetch_add(1, Ordering::Relaxed)
+    ));
+    let written = std::fs::write(&temp, data)
+        .and_then(|_| match existing {
+            Some(found) => std::fs::set_permissions(&temp, found.permissions()),
+            None => Ok(()),
+        })
+        .and_then(|_| std::fs::rename(&temp, &target));
+    if written.is_err() {
+        let _ = std::fs::remove_file(&temp);
+    }
+    written
+}
diff --git a/crates/hodu_core/src/format/hdt.rs b/crates/hodu_core/src/format/hdt.rs
index a3bdcbf..b4d5ce6 100644
--- a/crates/hodu_core/src/format/hdt.rs
+++ b/crates/hodu_core/src/format/hdt.rs
@@ -32,7 +32,8 @@ pub fn load(path: impl AsRef<std::path::Path>) -> HoduResult<Tensor> {
 /// Save a single tensor to .hdt file
 pub fn save(tensor: &Tensor, path: impl AsRef<std::path::Path>) -> HoduResult<()> {
     let data = serialize(tensor)?;
-    std::fs::write(path.as_ref(), data).map_err(|e| HoduError::IoError(format!("Failed to write hdt file: {}", e)))?;
+    super::write_file(path.as_ref(), &data)
+        .map_err(|e| HoduError::IoError(format!("Failed to write hdt file: {}", e)))?;
     Ok(())
 }
 
@@ -46,7 +47,8 @@ pub fn load_many(path: impl AsRef<std::path::Path>) -> HoduResult<HashMap<String
 /// Save multiple named tensors to .hdt file
 pub fn save_many(tensors: &HashMap<String, Tensor>, path: impl AsRef<std::path::Path>) -> HoduResult<()> {
     let data = serialize_many(tensors)?;
-    std::fs::write(path.as_ref(), data).map_err(|e| HoduError::IoError(format!("Failed to write hdt file: {}", e)))?;
+    super::write_file(path.as_ref(), &data)
+        .map_err(|e| HoduError::IoError(format!("Failed to write hdt file: {}", e)))?;
     Ok(())
 }
 
diff --git a/crates/hodu_core/src/format/json.rs b/crates/hodu_core/src/format/json.rs
index a8ff5ac..df84bc0 100644
--- a/crates/hodu_core/src/format/json.rs
+++ b/crates/hodu_core/src/format/json.rs
@@ -40,7 +40,8 @@ pub fn load(path: impl AsRef<std::path::Path>) -> HoduResult<Tensor> {
 /// Save a single tensor to JSON file
 pub fn save(tensor: &Tensor, path: impl AsRef<std::path::Path>) -> HoduResult<()> {
     let data = serialize(tensor)?;
-    std::fs::write(path.as_ref(), data).map_err(|e| HoduError::IoError(format!("Failed to write json file: {}", e)))?;
+    super::write_file(path.as_ref(), data.as_bytes())
+        .map_err(|e| HoduError::IoError(format!("Failed to write json file: {}", e)))?;
     Ok(())
 }
 
@@ -54,7 +55,8 @@ pub fn load_many(path: impl AsRef<std::path::Path>) -> HoduResult<HashMap<String
 /// Save multiple named tensors to JSON file
 pub fn save_many(tensors: &HashMap<String, Tensor>, path: impl AsRef<std::path::Path>) -> HoduResult<()> {
     let data = serialize_many(tensors)?;
-    std::fs::write(path.as_ref(), data).map_err(|e| HoduError::IoError(format!("Failed to write json file: {}", e)))?;
+    super::write_file(path.as_ref(), data.as_bytes())
+        .map_err(|e| HoduError::IoError(format!("Failed to write json file: {}", e)))?;
     Ok(())
 }
 
diff --git a/crates/hodu_core/src/snapshot.rs b/crates/hodu_core/src/snapshot.rs
index 56fb920..f58eb1a 100644
--- a/crates/hodu_core/src/snapshot.rs
+++ b/crates/hodu_core/src/snapshot.rs
@@ -144,7 +144,7 @@ impl Snapshot {
     #[cfg(feature = "serde")]
     pub fn save(&self, path: impl AsRef<std::path::Path>) -> crate::error::HoduResult<()> {
         let bytes = self.to_bytes()?;
-        std::fs::write(path, bytes).map_err(|e| crate::error::HoduError::IoError(e.to_string()))
+        crate::format::write_file(path.as_ref(), &bytes).map_err(|e| crate::error::HoduError::IoError(e.to_string()))
     }
 
     #[cfg(feature = "serde")]
diff --git a/hodu-cli/src/commands/convert.rs b/hodu-cli/src/commands/convert.rs
index 28f8a17..3eb257b 100644
--- a/hodu-cli/src/commands/convert.rs
+++ b/hodu-cli/src/commands/convert.rs
@@ -2,6 +2,7 @@
 
 use crate::output;
 use crate::plugins::{PluginManager, PluginRegistry};
+use crate::tensor::replace_file;
 use clap::Args;
 use std::path::{Path, PathBuf};
 
@@ -104,7 +105,10 @@ fn convert_model(
     // Step 2: Save to output format
     if output_ext == "hdss" {
         // Just copy the snapshot
-        std::fs::copy(&snapshot_path, &args.output)?;
+        replace_file(
+            &args.output,
+            |path| Ok(std::fs::copy(&snapshot_path, path).map(|_| ())?),
+        )?;
     } else {
         // Use model format plugin to save
         let plugin = registry
@@ -116,7 +120,9 @@ fn convert_model(
         }
 
         let client = manager.get_plugin(&plugin.name)?;
-        client.save_model(path_to_str(&snapshot_path)?, path_to_str(&args.output)?)?;
+        replace_file(&args.output, |path| {
+            Ok(client.save_model(path_to_str(&snapshot_path)?, path_to_str(path)?)?)
+        })?;
     }
 
     output::finished(&format!(
@@ -189,12 +195,14 @@ fn convert_tensor(
 
             // Save to temp hdt first
             let temp_path = std::env::temp_dir().join(format!("hodu_convert_{}.hdt", std::process::id()));
-            save_tensor_data(&tensor_data, &temp_path)?;
-
-            let client = manager.get_plugin(&plugin.name)?;
-            client.save_tensor(path_to_str(&temp_path)?, path_to_str(&args.output)?)?;
-
+            let saved = save_tensor_data(&tensor_data, &temp_path).and_then(|_| {
+                let client = manager.get_plugin(&plugin.name)?;
+                replace_file(&args.output, |path| {
+                    Ok(client.save_tensor(path_to_str(&temp_path)?, path_to_str(path)?)?)
+                })
+            });
             let _ = std::fs::remove_file(&temp_path);
+            saved?;
         },
     }
 
diff --git a/hodu-cli/src/tensor.rs b/hodu-cli/src/tensor.rs
index d2f4c09..c5ac39e 100644
--- a/hodu-cli/src/tensor.rs
+++ b/hodu-cli/src/tensor.rs
@@ -4,4 +4,4 @@ mod loader;
 mod saver;
 
 pub use loader::{load_tensor_file, str_to_plugin_dtype};
-pub use saver::save_outputs;
+pub use saver::{replace_file, save_outputs};
diff --git a/hodu-cli/src/tensor/saver.rs b/hodu-cli/src/tensor/saver.rs
index 19a3795..d0f492e 100644
--- a/hodu-cli/src/tensor/saver.rs
+++ b/hodu-cli/src/tensor/saver.rs
@@ -7,6 +7,31 @@ use hodu_plugin::{PluginDType, TensorData};
 use std::collections::HashMap;
 use std::path::Path;
 
+/// Let `write` produce a file which takes the place of `path` once it is complete: a failure
+/// leaves `path` as it was. The file is written next to `path`, with the same extension.
+pub fn replace_file(
+    path: &Path,
+    write: impl FnOnce(&Path) -> Result<(), Box<dyn std::error::Error>>,
+) -> Result<(), Box<dyn std::error::Error>> {
+    let target = path.canonicalize().unwrap_or_else(|_| path.to_path_buf());
+    let name = match target.file_name() {
+        Some(name) if target.is_file() || !target.exists() => name.to_string_lossy().into_owned(),
+        // Not something that can be replaced
+        _ => return write(path),
+    };
+    let temp = target.with_file_name(format!(".{}.{}", std::process::id(), name));
+    let written = write(&temp).and_then(|_| {
+        if let Ok(found) = std::fs::metadata(&target) {
+            std::fs::set_permissions(&temp, found.permissions())?;
+        }
+        Ok(std::fs::rename(&temp, &target)?)
+    });
+    if written.is_err() {
+        let _ = std::fs::remove_file(&temp);
+    }
+    written
+}
+
 pub fn save_outputs(
     outputs: &HashMap<String, TensorData>,
     save_dir: &Path,
-- 
2.43.0


From e3aef2185596b769b1c8ce1fa6c6b4583bf5650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 43/49] fix: runs cache only finished builds of their model,
 device and backend version, read JSON inputs exactly and show empty tensors
 (C01)

---
 crates/hodu_core/src/tensor/display.rs |  2 +-
 hodu-cli/src/commands/run.rs           | 59 +++++++++++++++++------
 hodu-cli/src/tensor/loader.rs          | 67 +++-----------------------
 3 files changed, 51 insertions(+), 77 deletions(-)

diff --git a/crates/hodu_core/src/tensor/display.rs b/crates/hodu_core/src/tensor/display.rs
index 598d498..6dbff8d 100644
--- a/crates/hodu_core/src/tensor/display.rs
+++ b/crates/hodu_core/src/tensor/display.rs
@@ -269,7 +269,7 @@ where
             write!(f, "]")
         },
         _ => {
-            let sub_stride = stride / shape[0];
+            let sub_stride = stride.checked_div(shape[0]).unwrap_or(0);
             write!(f, "[")?;
             let dim_size = shape[0];
             let (show_start, show_end) = if dim_size <= MAX_ELEMENTS_PER_DIM * 2 {
diff --git a/hodu-cli/src/commands/run.rs b/hodu-cli/src/commands/run.rs
index 97dc5d5..93c6dc8 100644
--- a/hodu-cli/src/commands/run.rs
+++ b/hodu-cli/src/commands/run.rs
@@ -4,7 +4,7 @@
 
 use crate::output;
 use crate::plugins::{PluginManager, PluginRegistry};
-use crate::tensor::{load_tensor_file, save_outputs};
+use crate::tensor::{load_tensor_file, replace_file, save_outputs};
 use clap::Args;
 use hodu_core::format::hdt;
 use hodu_core::snapshot::Snapshot;
@@ -166,9 +166,11 @@ pub fn execute(args: RunArgs) -> Result<(), Box<dyn std::error::Error>> {
     let inputs = parse_inputs(&all_inputs, &snapshot)?;
 
     // Save input tensors to temp files and create TensorInput refs
+    let mut input_files = TempFiles::default();
     let mut input_refs = Vec::new();
-    for (name, tensor_data) in &inputs {
-        let temp_path = std::env::temp_dir().join(format!("hodu_input_{}_{}.hdt", name, std::process::id()));
+    for (i, (name, tensor_data)) in inputs.iter().enumerate() {
+        let temp_path = std::env::temp_dir().join(format!("hodu_input_{}_{}.hdt", std::process::id(), i));
+        input_files.0.push(temp_path.clone());
         save_tensor_data(tensor_data, &temp_path)?;
         input_refs.push(TensorInput {
             name: name.clone(),
@@ -193,12 +195,18 @@ pub fn execute(args: RunArgs) -> Result<(), Box<dyn std::error::Error>> {
         .ok();
     }
 
-    // Compute cache key from snapshot content
-    let snapshot_content = std::fs::read(&snapshot_path).map_err(|e| format!("Failed to read snapshot: {}", e))?;
-    let mut hasher = Sha256::new();
-    hasher.update(&snapshot_content);
-    hasher.update(current_target_triple().as_bytes());
-    let snapshot_hash = hex::encode(hasher.finalize());
+    // Compute cache key from snapshot content and everything else the artifact depends on
+    let cache_key = || -> Result<String, Box<dyn std::error::Error>> {
+        let content = std::fs::read(&snapshot_path).map_err(|e| format!("Failed to read snapshot: {}", e))?;
+        let mut hasher = Sha256::new();
+        hasher.update(&content);
+        for part in [&current_target_triple(), &device, &backend_plugin.version] {
+            hasher.update([0]);
+            hasher.update(part.as_bytes());
+        }
+        Ok(hex::encode(hasher.finalize()))
+    };
+    let snapshot_hash = cache_key()?;
 
     // Determine library extension and cache path
     let lib_ext = if cfg!(target_os = "macos") {
@@ -222,13 +230,20 @@ pub fn execute(args: RunArgs) -> Result<(), Box<dyn std::error::Error>> {
     let start = std::time::Instant::now();
     if !library_path.exists() {
         output::compiling(&format!("{} ({})", model_name, device));
-        backend_client.build(
-            path_to_str(&snapshot_path)?,
-            &current_target_triple(),
-            &device,
-            "sharedlib",
-            path_to_str(&library_path)?,
-        )?;
+        // Only a finished build enters the cache
+        replace_file(&library_path, |path| {
+            backend_client.build(
+                path_to_str(&snapshot_path)?,
+                &current_target_triple(),
+                &device,
+                "sharedlib",
+                path_to_str(path)?,
+            )?;
+            if cache_key()? != snapshot_hash {
+                return Err("The model changed while it was being built".into());
+            }
+            Ok(())
+        })?;
     } else {
         output::cached(&format!("{}", model_name));
     }
@@ -271,6 +286,18 @@ pub fn execute(args: RunArgs) -> Result<(), Box<dyn std::error::Error>> {
     Ok(())
 }
 
+/// Files that are removed when they are no longer needed
+#[derive(Default)]
+struct TempFiles(Vec<PathBuf>);
+
+impl Drop for TempFiles {
+    fn drop(&mut self) {
+        for path in &self.0 {
+            let _ = std::fs::remove_file(path);
+        }
+    }
+}
+
 fn parse_inputs(
     input_args: &[String],
     snapshot: &Snapshot,
diff --git a/hodu-cli/src/tensor/loader.rs b/hodu-cli/src/tensor/loader.rs
index 807d12e..c292c29 100644
--- a/hodu-cli/src/tensor/loader.rs
+++ b/hodu-cli/src/tensor/loader.rs
@@ -1,6 +1,6 @@
 //! Tensor loading utilities
 
-use hodu_core::format::hdt;
+use hodu_core::format::{hdt, json};
 use hodu_plugin::{PluginDType, TensorData};
 use std::path::PathBuf;
 
@@ -57,20 +57,10 @@ fn load_tensor_json(
     expected_shape: &[usize],
     expected_dtype: PluginDType,
 ) -> Result<TensorData, Box<dyn std::error::Error>> {
-    let content = std::fs::read_to_string(path)?;
-    let json: serde_json::Value = serde_json::from_str(&content)?;
+    let tensor = json::load(path).map_err(|e| format!("Failed to load JSON file: {}", e))?;
 
-    let obj = json
-        .as_object()
-        .ok_or("JSON must be an object with shape, dtype, data")?;
-
-    let shape: Vec<usize> = obj
-        .get("shape")
-        .and_then(|v| v.as_array())
-        .ok_or("Missing 'shape' field")?
-        .iter()
-        .map(|v| v.as_u64().map(|n| n as usize).ok_or("Invalid shape dimension"))
-        .collect::<Result<Vec<_>, _>>()?;
+    let shape: Vec<usize> = tensor.shape().dims().to_vec();
+    let dtype: PluginDType = core_dtype_to_plugin(tensor.dtype());
 
     if shape != expected_shape {
         return Err(format!(
@@ -80,12 +70,6 @@ fn load_tensor_json(
         .into());
     }
 
-    let dtype_str = obj
-        .get("dtype")
-        .and_then(|v| v.as_str())
-        .ok_or("Missing 'dtype' field")?;
-    let dtype = str_to_plugin_dtype(dtype_str)?;
-
     if dtype != expected_dtype {
         return Err(format!(
             "DType mismatch: file has {}, model expects {}",
@@ -95,12 +79,9 @@ fn load_tensor_json(
         .into());
     }
 
-    let data_arr = obj
-        .get("data")
-        .and_then(|v| v.as_array())
-        .ok_or("Missing 'data' field")?;
-
-    let data = json_array_to_bytes(data_arr, dtype)?;
+    let data = tensor
+        .to_bytes()
+        .map_err(|e| format!("Failed to get tensor bytes: {}", e))?;
 
     Ok(TensorData::new(data, shape, dtype))
 }
@@ -129,37 +110,3 @@ fn core_dtype_to_plugin(dtype: hodu_core::types::DType) -> PluginDType {
         DType::I64 => PluginDType::I64,
     }
 }
-
-fn json_array_to_bytes(arr: &[serde_json::Value], dtype: PluginDType) -> Result<Vec<u8>, Box<dyn std::error::Error>> {
-    let mut bytes = Vec::with_capacity(arr.len() * dtype.size_in_bytes());
-
-    match dtype {
-        PluginDType::F32 => {
-            for v in arr {
-                let f = v.as_f64().ok_or("Expected number")? as f32;
-                bytes.extend_from_slice(&f.to_le_bytes());
-            }
-        },
-        PluginDType::F64 => {
-            for v in arr {
-                let f = v.as_f64().ok_or("Expected number")?;
-                bytes.extend_from_slice(&f.to_le_bytes());
-            }
-        },
-        PluginDType::I32 => {
-            for v in arr {
-                let n = v.as_i64().ok_or("Expected integer")? as i32;
-                bytes.extend_from_slice(&n.to_le_bytes());
-            }
-        },
-        PluginDType::I64 => {
-            for v in arr {
-                let n = v.as_i64().ok_or("Expected integer")?;
-                bytes.extend_from_slice(&n.to_le_bytes());
-            }
-        },
-        _ => return Err(format!("Unsupported dtype for JSON input: {}", dtype.name()).into()),
-    }
-
-    Ok(bytes)
-}
-- 
2.43.0


From 88c972e2a6c70a3512547d19f751fb6372c59683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 44/49] fix: losses compute their formulas in every float type,
 along any class axis, and abs passes gradients; train!/eval! can be used
 outside the crate (N02, N03)

---
 crates/hodu_core/src/ops.rs                      |  2 +-
 crates/hodu_core/src/utils/valid.rs              |  4 ++--
 crates/hodu_nn/src/lib.rs                        | 10 +++++-----
 .../hodu_nn/src/losses/binary_cross_entropy.rs   | 16 ++++------------
 crates/hodu_nn/src/losses/cosine_embedding.rs    |  4 +---
 crates/hodu_nn/src/losses/cross_entropy.rs       |  4 ++--
 crates/hodu_nn/src/losses/huber.rs               | 11 +++++------
 crates/hodu_nn/src/losses/kl_div.rs              |  9 ++++++---
 crates/hodu_nn/src/losses/mae.rs                 |  2 +-
 crates/hodu_nn/src/losses/nll.rs                 |  4 ++--
 crates/hodu_nn/src/losses/smooth_l1.rs           |  2 +-
 11 files changed, 30 insertions(+), 38 deletions(-)

diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index fa77879..17d0aff 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -155,7 +155,7 @@ impl fmt::Debug for CmpScalarOp {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum UnaryOp {
     Neg,
-    Abs,      // no-backprop
+    Abs,
     Sign,     // no-backprop
     Softsign, // x / (1 + |x|)
     Square,
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index d44612e..199a934 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -408,8 +408,8 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
 
         // Unary operations
         Op::Unary(inner_op) => match inner_op {
-            UnaryOp::Neg | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
-            UnaryOp::Abs | UnaryOp::Sign => false, // !
+            UnaryOp::Neg | UnaryOp::Abs | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
+            UnaryOp::Sign => false, // !
             UnaryOp::Softsign => true,
             UnaryOp::Relu
             | UnaryOp::Sigmoid
diff --git a/crates/hodu_nn/src/lib.rs b/crates/hodu_nn/src/lib.rs
index 02c167d..7519075 100644
--- a/crates/hodu_nn/src/lib.rs
+++ b/crates/hodu_nn/src/lib.rs
@@ -38,18 +38,18 @@ pub use optimizers::{
     sgd::SGD,
 };
 
-pub(crate) mod state {
+#[doc(hidden)] // public for the `train!` and `eval!` macros
+pub mod state {
     use std::sync::Mutex;
 
     #[derive(Debug, Clone, Copy, PartialEq)]
-    pub(crate) enum State {
+    pub enum State {
         Training,
         Evaluation,
     }
 
     static STATE: Mutex<State> = Mutex::new(State::Training);
 
-    #[allow(dead_code)]
     pub fn set_state(new_state: State) {
         *STATE.lock().unwrap() = new_state;
     }
@@ -63,7 +63,7 @@ pub(crate) mod state {
 #[macro_export]
 macro_rules! train {
     () => {
-        state::set_state(state::State::Training);
+        $crate::state::set_state($crate::state::State::Training);
     };
 }
 
@@ -71,6 +71,6 @@ macro_rules! train {
 #[macro_export]
 macro_rules! eval {
     () => {
-        state::set_state(state::State::Evaluation);
+        $crate::state::set_state($crate::state::State::Evaluation);
     };
 }
diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index c428128..f0ae777 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -29,8 +29,8 @@ impl BCELoss {
     fn forward(&self, (pred, target): (&Tensor, &Tensor)) -> HoduResult<Tensor> {
         // Clamp predictions to avoid log(0)
         // pred_clamped = clamp(pred, epsilon, 1 - epsilon)
-        let one_minus_eps_scalar = Scalar::one(self.epsilon.dtype()) - self.epsilon;
-        let pred_clamped = pred.clamp(self.epsilon, one_minus_eps_scalar)?;
+        let eps = self.epsilon.to_dtype(pred.dtype());
+        let pred_clamped = pred.clamp(eps, Scalar::one(eps.dtype()) - eps)?;
 
         // BCE = -[target * log(pred) + (1 - target) * log(1 - pred)]
 
@@ -66,17 +66,9 @@ impl BCEWithLogitsLoss {
         // More numerically stable: BCE(sigmoid(x)) = log(1 + exp(-x)) if target=1
         //                                            = log(1 + exp(x))  if target=0
         // This can be simplified to: max(x, 0) - x * target + log(1 + exp(-|x|))
-
-        let zeros = Tensor::zeros_like(logits)?;
-        let max_val = logits.maximum(&zeros)?; // max(x, 0)
-
-        let neg_abs = logits.abs()?.neg()?; // -|x|
-        let log_term = neg_abs.exp()?.add_scalar(Scalar::one(neg_abs.dtype()))?.ln()?; // log(1 + exp(-|x|))
-
+        // where max(x, 0) + log(1 + exp(-|x|)) is softplus(x), which is smooth at 0
         let target_term = logits.mul(target)?; // x * target
-
-        // max(x, 0) - x * target + log(1 + exp(-|x|))
-        let loss = max_val.sub(&target_term)?.add(&log_term)?;
+        let loss = logits.softplus()?.sub(&target_term)?;
 
         // Mean over all elements
         loss.mean_all()
diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index 083351f..3747292 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -66,9 +66,7 @@ impl CosineEmbeddingLoss {
         // mask = (y == 1)
         let mask = y.eq_scalar(one)?;
 
-        let loss = mask
-            .mul(&loss_positive)?
-            .add(&mask.logical_not()?.mul(&loss_negative)?)?;
+        let loss = loss_positive.where3(&mask, &loss_negative)?;
 
         loss.mean_all()
     }
diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index 6199563..85bb95f 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -32,13 +32,13 @@ impl CrossEntropyLoss {
 
         // Gather the log probabilities for the correct classes
         // target shape: [...] -> unsqueeze to [..., 1] at gather_dim
-        let target_unsqueezed = target.unsqueeze(-1)?;
+        let target_unsqueezed = target.unsqueeze(gather_dim)?;
 
         // Gather along class dimension
         let gathered = log_probs.gather(gather_dim as i64, &target_unsqueezed)?;
 
         // Remove the extra dimension
-        let gathered_squeezed = gathered.squeeze(&[-1])?;
+        let gathered_squeezed = gathered.squeeze(&[gather_dim])?;
 
         // Negative log likelihood
         let nll = gathered_squeezed.neg()?;
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index c642eea..d0117c7 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -19,15 +19,14 @@ impl HuberLoss {
         let quadratic_loss = diff
             .pow_scalar(Scalar::from_f32(2.0, diff.dtype()))?
             .div_scalar(Scalar::from_f32(2.0, diff.dtype()))?;
+        let delta = self.delta.to_dtype(diff.dtype());
         let linear_loss = abs_diff
-            .mul_scalar(self.delta)?
-            .sub_scalar(self.delta.powi(2) / Scalar::from_f32(2.0, self.delta.dtype()))?;
+            .mul_scalar(delta)?
+            .sub_scalar(delta.powi(2) / Scalar::from_f32(2.0, delta.dtype()))?;
 
-        let mask = abs_diff.le_scalar(self.delta)?;
+        let mask = abs_diff.le_scalar(delta)?;
 
-        let loss = mask
-            .mul(&quadratic_loss)?
-            .add(&mask.logical_not()?.mul(&linear_loss)?)?;
+        let loss = quadratic_loss.where3(&mask, &linear_loss)?;
 
         let pred_shape = pred.shape();
         let batch_size = Scalar::from_f32(pred_shape[0] as f32, diff.dtype());
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 12a5762..9f4a3d6 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -1,5 +1,5 @@
 use crate::module::Module;
-use hodu_core::{error::HoduResult, tensor::Tensor};
+use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor};
 
 /// Kullback-Leibler Divergence Loss.
 ///
@@ -44,11 +44,14 @@ impl KLDivLoss {
             // KL = target * (log(target) - input)
             // To handle target=0, we use: target * log(target) - target * input
             // where target * log(target) = 0 when target = 0 (by convention)
-            let target_log_target = target.mul(&target.ln()?)?;
+            let one = Tensor::ones_like(target)?;
+            let positive = target.gt_scalar(Scalar::zero(target.dtype()))?;
+            let target_log_target = target.mul(&target.where3(&positive, &one)?.ln()?)?;
             let target_input = target.mul(input)?;
             target_log_target.sub(&target_input)?
         };
 
-        loss.sum_all()?.div_scalar(input.shape()[0] as f32)
+        let batch_size = Scalar::from_f32(input.shape()[0] as f32, input.dtype());
+        loss.sum_all()?.div_scalar(batch_size)
     }
 }
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 8c52593..5d7bedf 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -15,7 +15,7 @@ impl MAELoss {
         let abs_diff = diff.abs()?;
 
         let pred_shape = pred.shape();
-        let batch_size = Scalar::new(pred_shape[0]);
+        let batch_size = Scalar::new(pred_shape[0]).to_dtype(diff.dtype());
         let mean = abs_diff.sum_all()?.div_scalar(batch_size)?;
 
         Ok(mean)
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 8a32680..5401853 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -29,13 +29,13 @@ impl NLLLoss {
 
         // Gather the log probabilities for the correct classes
         // target shape: [...] -> unsqueeze to [..., 1] at gather_dim
-        let target_unsqueezed = target.unsqueeze(-1)?;
+        let target_unsqueezed = target.unsqueeze(gather_dim)?;
 
         // Gather along class dimension
         let gathered = log_probs.gather(gather_dim, &target_unsqueezed)?;
 
         // Remove the extra dimension
-        let gathered_squeezed = gathered.squeeze(&[-1])?;
+        let gathered_squeezed = gathered.squeeze(&[gather_dim])?;
 
         // Negative log likelihood
         let nll = gathered_squeezed.neg()?;
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index 715157e..c09f461 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -49,7 +49,7 @@ impl SmoothL1Loss {
 
         // Select based on condition: |x - y| < beta
         let mask = abs_diff.lt_scalar(beta)?;
-        let loss = mask.mul(&quadratic)?.add(&mask.logical_not()?.mul(&linear)?)?;
+        let loss = quadratic.where3(&mask, &linear)?;
 
         loss.mean_all()
     }
-- 
2.43.0


From e94900b586f1e617c7d752be3f4aa7f76096bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 45/49] fix: module parameters are leaves that receive
 gradients, modules work in every float type, embedding padding and max_norm,
 dropout and RReLU at their limits (N03)

---
 .../src/losses/binary_cross_entropy.rs        |  8 ++++
 crates/hodu_nn/src/losses/cosine_embedding.rs |  4 ++
 crates/hodu_nn/src/losses/cross_entropy.rs    |  4 ++
 crates/hodu_nn/src/losses/huber.rs            |  4 ++
 crates/hodu_nn/src/losses/kl_div.rs           |  4 ++
 crates/hodu_nn/src/losses/mae.rs              |  4 ++
 crates/hodu_nn/src/losses/mse.rs              |  4 ++
 crates/hodu_nn/src/losses/nll.rs              |  4 ++
 crates/hodu_nn/src/losses/smooth_l1.rs        |  4 ++
 crates/hodu_nn/src/modules/activation.rs      |  6 +--
 crates/hodu_nn/src/modules/attention.rs       | 47 +++++++++++--------
 crates/hodu_nn/src/modules/conv.rs            | 24 +++++-----
 crates/hodu_nn/src/modules/dropout.rs         | 17 +++++--
 crates/hodu_nn/src/modules/embedding.rs       | 43 ++++++++++-------
 crates/hodu_nn/src/modules/linear.rs          |  4 +-
 crates/hodu_nn/src/modules/norm.rs            | 19 +++++---
 crates/hodu_nn/src/modules/rnn.rs             | 24 +++++-----
 17 files changed, 147 insertions(+), 77 deletions(-)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index f0ae777..b97b444 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -51,6 +51,10 @@ impl BCELoss {
         // Mean over all elements
         bce.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
 
 #[derive(Module, Clone, Default)]
@@ -73,4 +77,8 @@ impl BCEWithLogitsLoss {
         // Mean over all elements
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index 3747292..6e348cc 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -70,4 +70,8 @@ impl CosineEmbeddingLoss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index 85bb95f..9a507de 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -46,4 +46,8 @@ impl CrossEntropyLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index d0117c7..4cb9924 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -34,4 +34,8 @@ impl HuberLoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 9f4a3d6..bf6589a 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -54,4 +54,8 @@ impl KLDivLoss {
         let batch_size = Scalar::from_f32(input.shape()[0] as f32, input.dtype());
         loss.sum_all()?.div_scalar(batch_size)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 5d7bedf..b2e0f51 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -20,4 +20,8 @@ impl MAELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mse.rs b/crates/hodu_nn/src/losses/mse.rs
index f314773..8bd258c 100644
--- a/crates/hodu_nn/src/losses/mse.rs
+++ b/crates/hodu_nn/src/losses/mse.rs
@@ -20,4 +20,8 @@ impl MSELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 5401853..a52b244 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -43,4 +43,8 @@ impl NLLLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index c09f461..1b10bd2 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -53,4 +53,8 @@ impl SmoothL1Loss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/modules/activation.rs b/crates/hodu_nn/src/modules/activation.rs
index 1f6bdda..63f3327 100644
--- a/crates/hodu_nn/src/modules/activation.rs
+++ b/crates/hodu_nn/src/modules/activation.rs
@@ -237,11 +237,7 @@ impl RReLU {
 
         // RReLU: x if x > 0, else alpha * x
         let mask_pos = input.gt_scalar(zero)?;
-        let mask_neg = input.le_scalar(zero)?;
-        let positive_part = input.mul(&mask_pos.to_dtype(dtype)?)?;
-        let negative_part = input.mul(&alpha)?.mul(&mask_neg.to_dtype(dtype)?)?;
-
-        positive_part.add(&negative_part)
+        input.where3(&mask_pos, &input.mul(&alpha)?)
     }
 
     fn parameters(&self) -> Vec<&Tensor> {
diff --git a/crates/hodu_nn/src/modules/attention.rs b/crates/hodu_nn/src/modules/attention.rs
index c083b92..e96365d 100644
--- a/crates/hodu_nn/src/modules/attention.rs
+++ b/crates/hodu_nn/src/modules/attention.rs
@@ -34,7 +34,9 @@ pub fn scaled_dot_product_attention(
     let scale = 1.0 / d_k.sqrt();
 
     // QK^T / sqrt(d_k)
-    let attn_weights = query.matmul(&key.transpose(-2, -1)?)?.mul_scalar(scale)?;
+    let attn_weights = query
+        .matmul(&key.transpose(-2, -1)?)?
+        .mul_scalar(Scalar::from(scale).to_dtype(query.dtype()))?;
 
     // Apply causal mask if needed
     let attn_weights = if is_causal {
@@ -50,7 +52,7 @@ pub fn scaled_dot_product_attention(
     // Apply attention mask if provided (0 = mask out, 1 = attend)
     let attn_weights = if let Some(mask) = attn_mask {
         let neg_inf = get_neg_inf(query.dtype());
-        attn_weights.masked_fill(&mask.eq_scalar(0.0)?, neg_inf)?
+        attn_weights.masked_fill(&mask.eq_scalar(Scalar::zero(mask.dtype()))?, neg_inf)?
     } else {
         attn_weights
     };
@@ -82,23 +84,28 @@ fn create_causal_mask(seq_len_q: usize, seq_len_k: usize) -> HoduResult<Tensor>
 }
 
 /// Get negative infinity for masking based on dtype
-fn get_neg_inf(dtype: DType) -> f64 {
-    match dtype {
-        DType::F32 => f32::NEG_INFINITY as f64,
-        #[cfg(feature = "f64")]
-        DType::F64 => f64::NEG_INFINITY,
+fn get_neg_inf(dtype: DType) -> Scalar {
+    let value = match dtype {
         DType::F16 | DType::BF16 => -65504.0,
+        DType::F32 => f32::NEG_INFINITY,
+        #[cfg(feature = "f64")]
+        DType::F64 => f32::NEG_INFINITY,
         _ => -1e9,
-    }
+    };
+    Scalar::from_f32(value, dtype)
 }
 
 /// Apply dropout to tensor
 fn apply_dropout(x: &Tensor, p: f64) -> HoduResult<Tensor> {
+    let dtype = x.dtype();
     let random = Tensor::rand_uniform_like(x, 0.0, 1.0)?;
-    let mask = random.gt_scalar(p)?.to_dtype(x.dtype())?;
-    let scale = 1.0 / (1.0 - p);
-    let scaled_mask = mask.mul_scalar(scale)?;
-    x.mul(&scaled_mask)
+    let mask = random.ge_scalar(Scalar::from(p).to_dtype(dtype))?;
+    let scaled = if p < 1.0 {
+        x.mul_scalar(Scalar::from(1.0 / (1.0 - p)).to_dtype(dtype))?
+    } else {
+        x.clone()
+    };
+    scaled.where3(&mask, &Tensor::zeros_like(x)?)
 }
 
 // ============================================================================
@@ -179,38 +186,38 @@ impl MultiheadAttention {
 
         // Input projections
         let w_q = Tensor::randn([embed_dim, embed_dim], zero, one)?;
-        w_q.set_requires_grad(true)?;
         let w_q = w_q.mul_scalar(k_scalar)?;
+        w_q.set_requires_grad(true)?;
 
         let w_k = Tensor::randn([embed_dim, kdim], zero, one)?;
-        w_k.set_requires_grad(true)?;
         let w_k = w_k.mul_scalar(k_scalar)?;
+        w_k.set_requires_grad(true)?;
 
         let w_v = Tensor::randn([embed_dim, vdim], zero, one)?;
-        w_v.set_requires_grad(true)?;
         let w_v = w_v.mul_scalar(k_scalar)?;
+        w_v.set_requires_grad(true)?;
 
         // Output projection
         let w_o = Tensor::randn([embed_dim, embed_dim], zero, one)?;
-        w_o.set_requires_grad(true)?;
         let w_o = w_o.mul_scalar(k_scalar)?;
+        w_o.set_requires_grad(true)?;
 
         let (b_q, b_k, b_v, b_o) = if with_bias {
             let b_q = Tensor::randn([embed_dim], zero, one)?;
-            b_q.set_requires_grad(true)?;
             let b_q = b_q.mul_scalar(k_scalar)?;
+            b_q.set_requires_grad(true)?;
 
             let b_k = Tensor::randn([embed_dim], zero, one)?;
-            b_k.set_requires_grad(true)?;
             let b_k = b_k.mul_scalar(k_scalar)?;
+            b_k.set_requires_grad(true)?;
 
             let b_v = Tensor::randn([embed_dim], zero, one)?;
-            b_v.set_requires_grad(true)?;
             let b_v = b_v.mul_scalar(k_scalar)?;
+            b_v.set_requires_grad(true)?;
 
             let b_o = Tensor::randn([embed_dim], zero, one)?;
-            b_o.set_requires_grad(true)?;
             let b_o = b_o.mul_scalar(k_scalar)?;
+            b_o.set_requires_grad(true)?;
 
             (Some(b_q), Some(b_k), Some(b_v), Some(b_o))
         } else {
diff --git a/crates/hodu_nn/src/modules/conv.rs b/crates/hodu_nn/src/modules/conv.rs
index 3006af2..1b4e04d 100644
--- a/crates/hodu_nn/src/modules/conv.rs
+++ b/crates/hodu_nn/src/modules/conv.rs
@@ -32,14 +32,14 @@ impl Conv1D {
 
         // weight: [out_channels, in_channels, kernel_size]
         let weight = Tensor::randn([out_channels, in_channels, kernel_size], zero, one)?;
-        weight.set_requires_grad(true)?;
         let weight = weight.mul_scalar(k_scalar)?;
+        weight.set_requires_grad(true)?;
 
         // bias: [out_channels]
         let bias = if with_bias {
             let bias = Tensor::randn([out_channels], zero, one)?;
-            bias.set_requires_grad(true)?;
             let bias = bias.mul_scalar(k_scalar)?;
+            bias.set_requires_grad(true)?;
             Some(bias)
         } else {
             None
@@ -107,14 +107,14 @@ impl Conv2D {
 
         // weight: [out_channels, in_channels, kernel_size, kernel_size]
         let weight = Tensor::randn([out_channels, in_channels, kernel_size, kernel_size], zero, one)?;
-        weight.set_requires_grad(true)?;
         let weight = weight.mul_scalar(k_scalar)?;
+        weight.set_requires_grad(true)?;
 
         // bias: [out_channels]
         let bias = if with_bias {
             let bias = Tensor::randn([out_channels], zero, one)?;
-            bias.set_requires_grad(true)?;
             let bias = bias.mul_scalar(k_scalar)?;
+            bias.set_requires_grad(true)?;
             Some(bias)
         } else {
             None
@@ -186,14 +186,14 @@ impl Conv3D {
             zero,
             one,
         )?;
-        weight.set_requires_grad(true)?;
         let weight = weight.mul_scalar(k_scalar)?;
+        weight.set_requires_grad(true)?;
 
         // bias: [out_channels]
         let bias = if with_bias {
             let bias = Tensor::randn([out_channels], zero, one)?;
-            bias.set_requires_grad(true)?;
             let bias = bias.mul_scalar(k_scalar)?;
+            bias.set_requires_grad(true)?;
             Some(bias)
         } else {
             None
@@ -263,14 +263,14 @@ impl ConvTranspose1D {
 
         // weight: [in_channels, out_channels, kernel_size]
         let weight = Tensor::randn([in_channels, out_channels, kernel_size], zero, one)?;
-        weight.set_requires_grad(true)?;
         let weight = weight.mul_scalar(k_scalar)?;
+        weight.set_requires_grad(true)?;
 
         // bias: [out_channels]
         let bias = if with_bias {
             let bias = Tensor::randn([out_channels], zero, one)?;
-            bias.set_requires_grad(true)?;
             let bias = bias.mul_scalar(k_scalar)?;
+            bias.set_requires_grad(true)?;
             Some(bias)
         } else {
             None
@@ -347,14 +347,14 @@ impl ConvTranspose2D {
 
         // weight: [in_channels, out_channels, kernel_size, kernel_size]
         let weight = Tensor::randn([in_channels, out_channels, kernel_size, kernel_size], zero, one)?;
-        weight.set_requires_grad(true)?;
         let weight = weight.mul_scalar(k_scalar)?;
+        weight.set_requires_grad(true)?;
 
         // bias: [out_channels]
         let bias = if with_bias {
             let bias = Tensor::randn([out_channels], zero, one)?;
-            bias.set_requires_grad(true)?;
             let bias = bias.mul_scalar(k_scalar)?;
+            bias.set_requires_grad(true)?;
             Some(bias)
         } else {
             None
@@ -435,14 +435,14 @@ impl ConvTranspose3D {
             zero,
             one,
         )?;
-        weight.set_requires_grad(true)?;
         let weight = weight.mul_scalar(k_scalar)?;
+        weight.set_requires_grad(true)?;
 
         // bias: [out_channels]
         let bias = if with_bias {
             let bias = Tensor::randn([out_channels], zero, one)?;
-            bias.set_requires_grad(true)?;
             let bias = bias.mul_scalar(k_scalar)?;
+            bias.set_requires_grad(true)?;
             Some(bias)
         } else {
             None
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index c70e039..c1dbc39 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -19,11 +19,20 @@ impl Dropout {
         }
 
         // Training mode: apply dropout
+        let dtype = input.dtype();
         let random = Tensor::rand_uniform_like(input, 0.0, 1.0)?;
-        let mask = random.gt_scalar(self.p)?.to_dtype(input.dtype())?;
-        let scale = 1.0 / (1.0 - self.p.to_f32());
-        let scaled_mask = mask.mul_scalar(scale)?;
+        let keep = 1.0 - self.p.to_f32();
+        let mask = random.ge_scalar(self.p.to_dtype(dtype))?;
+        let scaled = if keep > 0.0 {
+            input.mul_scalar(Scalar::from_f32(1.0 / keep, dtype))?
+        } else {
+            input.clone()
+        };
 
-        input.mul(&scaled_mask)
+        scaled.where3(&mask, &Tensor::zeros_like(input)?)
+    }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
     }
 }
diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 8ccdc28..5abd76a 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -32,7 +32,6 @@ impl Embedding {
 
         // weight: [num_embeddings, embedding_dim]
         let weight = Tensor::randn([num_embeddings, embedding_dim], zero, one)?;
-        weight.set_requires_grad(true)?;
         // Scale by k
         let weight = weight.mul_scalar(k_scalar)?;
 
@@ -51,6 +50,7 @@ impl Embedding {
         } else {
             weight
         };
+        weight.set_requires_grad(true)?;
 
         Ok(Self {
             num_embeddings,
@@ -124,24 +124,35 @@ impl Embedding {
     }
 
     fn apply_max_norm(&self, embeddings: &Tensor, max_norm: Scalar) -> HoduResult<Tensor> {
-        // Compute L2 norm along the embedding dimension (last dimension)
+        // Compute the norm along the embedding dimension (last dimension)
         // embeddings shape: [num_indices, embedding_dim]
-        let embedding_dim = embeddings.shape().last().unwrap();
-
-        // squared_sum = sum(x^2, dim=-1, keepdim=true)
-        let squared = embeddings.mul(embeddings)?;
-        let squared_sum = squared.sum(&[embedding_dim - 1], true)?;
+        let dtype = embeddings.dtype();
+        let embedding_dim = embeddings.ndim() - 1;
+        let max_norm = max_norm.to_dtype(dtype);
+        let p = self.norm_type.to_dtype(dtype);
+        let zero = Scalar::zero(dtype);
 
-        // norm = sqrt(squared_sum)
-        let norm = squared_sum.sqrt()?;
+        // norm = sum(|x|^p, dim=-1, keepdim=true)^(1/p)
+        let norm = if self.norm_type.to_f32() == 2.0 {
+            let squared_sum = embeddings.square()?.sum(&[embedding_dim], true)?;
+            // an all-zero embedding needs no scaling (and its norm has no derivative)
+            let safe = Tensor::full_like(&squared_sum, max_norm * max_norm)?;
+            squared_sum.where3(&squared_sum.gt_scalar(zero)?, &safe)?.sqrt()?
+        } else {
+            let magnitude = embeddings.abs()?;
+            let safe = Tensor::ones_like(&magnitude)?;
+            let positive = magnitude.gt_scalar(zero)?;
+            let powers = magnitude.where3(&positive, &safe)?.pow_scalar(p)?;
+            let sum = powers.mul(&positive.to_dtype(dtype)?)?.sum(&[embedding_dim], true)?;
+            let safe = Tensor::ones_like(&sum)?;
+            let nonzero = sum.gt_scalar(zero)?;
+            let root = sum.where3(&nonzero, &safe)?.pow_scalar(Scalar::one(dtype) / p)?;
+            root.where3(&nonzero, &Tensor::full_like(&sum, max_norm)?)?
+        };
 
         // scale = min(max_norm / norm, 1.0)
-        let max_norm_tensor = Tensor::full(norm.shape(), max_norm)?;
-        let scale = max_norm_tensor.div(&norm)?;
-
-        // Clamp scale to maximum of 1.0
-        let one = Tensor::full(scale.shape(), Scalar::one(embeddings.dtype()))?;
-        let scale = scale.minimum(&one)?;
+        let scale = Tensor::full_like(&norm, max_norm)?.div(&norm)?;
+        let scale = scale.minimum_scalar(Scalar::one(dtype))?;
 
         // Apply scaling: embeddings * scale
         embeddings.mul(&scale)
@@ -165,7 +176,7 @@ impl Embedding {
         let zero = Tensor::zeros(mask.shape(), embeddings.dtype())?;
 
         // Convert bool mask to float: where(mask, 0.0, 1.0)
-        let float_mask = mask.where3(&zero, &one)?;
+        let float_mask = zero.where3(&mask, &one)?;
 
         // Apply mask
         embeddings.mul(&float_mask)
diff --git a/crates/hodu_nn/src/modules/linear.rs b/crates/hodu_nn/src/modules/linear.rs
index 2cb0a9a..55028a0 100644
--- a/crates/hodu_nn/src/modules/linear.rs
+++ b/crates/hodu_nn/src/modules/linear.rs
@@ -17,16 +17,16 @@ impl Linear {
 
         // weight: [out_features, in_features]
         let weight = Tensor::randn([out_features, in_features], zero, one)?;
-        weight.set_requires_grad(true)?;
         // Scale by k (Xavier/Glorot initialization)
         let weight = weight.mul_scalar(k_scalar)?;
+        weight.set_requires_grad(true)?;
 
         // bias
         let bias = if with_bias {
             let bias = Tensor::randn([out_features], zero, one)?;
-            bias.set_requires_grad(true)?;
             // Scale by k
             let bias = bias.mul_scalar(k_scalar)?;
+            bias.set_requires_grad(true)?;
             Some(bias)
         } else {
             None
diff --git a/crates/hodu_nn/src/modules/norm.rs b/crates/hodu_nn/src/modules/norm.rs
index 9712679..09da6e5 100644
--- a/crates/hodu_nn/src/modules/norm.rs
+++ b/crates/hodu_nn/src/modules/norm.rs
@@ -3,6 +3,13 @@ use crate::state::{get_state, State};
 use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor, types::DType};
 use std::cell::RefCell;
 
+/// The values of a tensor, cut off from the computation that produced them.
+fn detached(tensor: &Tensor) -> HoduResult<Tensor> {
+    let value = Tensor::zeros_like(tensor)?;
+    value.set_(tensor)?;
+    Ok(value)
+}
+
 #[derive(Module, Clone)]
 pub struct BatchNorm1D {
     num_features: usize,
@@ -102,8 +109,8 @@ impl BatchNorm1D {
                     .mul_scalar(momentum_typed)?
                     .add(&var_squeezed.mul_scalar(one_minus_momentum)?)?;
 
-                *rm = new_mean;
-                *rv = new_var;
+                *rm = detached(&new_mean)?;
+                *rv = detached(&new_var)?;
             }
 
             // Normalize
@@ -268,8 +275,8 @@ impl BatchNorm2D {
                     .mul_scalar(momentum_typed)?
                     .add(&var_squeezed.mul_scalar(one_minus_momentum)?)?;
 
-                *rm = new_mean;
-                *rv = new_var;
+                *rm = detached(&new_mean)?;
+                *rv = detached(&new_var)?;
             }
 
             let normalized = self.normalize(input, &mean, &var)?;
@@ -410,8 +417,8 @@ impl BatchNorm3D {
                     .mul_scalar(momentum_typed)?
                     .add(&var_squeezed.mul_scalar(one_minus_momentum)?)?;
 
-                *rm = new_mean;
-                *rv = new_var;
+                *rm = detached(&new_mean)?;
+                *rv = detached(&new_var)?;
             }
 
             let normalized = self.normalize(input, &mean, &var)?;
diff --git a/crates/hodu_nn/src/modules/rnn.rs b/crates/hodu_nn/src/modules/rnn.rs
index 0b316e7..2b19a9f 100644
--- a/crates/hodu_nn/src/modules/rnn.rs
+++ b/crates/hodu_nn/src/modules/rnn.rs
@@ -51,22 +51,22 @@ impl RNNCell {
 
         // weight_ih: [hidden_size, input_size]
         let weight_ih = Tensor::randn([hidden_size, input_size], zero, one)?;
-        weight_ih.set_requires_grad(true)?;
         let weight_ih = weight_ih.mul_scalar(k_scalar)?;
+        weight_ih.set_requires_grad(true)?;
 
         // weight_hh: [hidden_size, hidden_size]
         let weight_hh = Tensor::randn([hidden_size, hidden_size], zero, one)?;
-        weight_hh.set_requires_grad(true)?;
         let weight_hh = weight_hh.mul_scalar(k_scalar)?;
+        weight_hh.set_requires_grad(true)?;
 
         let (bias_ih, bias_hh) = if with_bias {
             let bias_ih = Tensor::randn([hidden_size], zero, one)?;
-            bias_ih.set_requires_grad(true)?;
             let bias_ih = bias_ih.mul_scalar(k_scalar)?;
+            bias_ih.set_requires_grad(true)?;
 
             let bias_hh = Tensor::randn([hidden_size], zero, one)?;
-            bias_hh.set_requires_grad(true)?;
             let bias_hh = bias_hh.mul_scalar(k_scalar)?;
+            bias_hh.set_requires_grad(true)?;
 
             (Some(bias_ih), Some(bias_hh))
         } else {
@@ -337,22 +337,22 @@ impl LSTMCell {
 
         // Combined weights for 4 gates: [4*hidden_size, input_size]
         let weight_ih = Tensor::randn([4 * hidden_size, input_size], zero, one)?;
-        weight_ih.set_requires_grad(true)?;
         let weight_ih = weight_ih.mul_scalar(k_scalar)?;
+        weight_ih.set_requires_grad(true)?;
 
         // Combined weights for 4 gates: [4*hidden_size, hidden_size]
         let weight_hh = Tensor::randn([4 * hidden_size, hidden_size], zero, one)?;
-        weight_hh.set_requires_grad(true)?;
         let weight_hh = weight_hh.mul_scalar(k_scalar)?;
+        weight_hh.set_requires_grad(true)?;
 
         let (bias_ih, bias_hh) = if with_bias {
             let bias_ih = Tensor::randn([4 * hidden_size], zero, one)?;
-            bias_ih.set_requires_grad(true)?;
             let bias_ih = bias_ih.mul_scalar(k_scalar)?;
+            bias_ih.set_requires_grad(true)?;
 
             let bias_hh = Tensor::randn([4 * hidden_size], zero, one)?;
-            bias_hh.set_requires_grad(true)?;
             let bias_hh = bias_hh.mul_scalar(k_scalar)?;
+            bias_hh.set_requires_grad(true)?;
 
             (Some(bias_ih), Some(bias_hh))
         } else {
@@ -642,22 +642,22 @@ impl GRUCell {
 
         // Combined weights for 3 gates: [3*hidden_size, input_size]
         let weight_ih = Tensor::randn([3 * hidden_size, input_size], zero, one)?;
-        weight_ih.set_requires_grad(true)?;
         let weight_ih = weight_ih.mul_scalar(k_scalar)?;
+        weight_ih.set_requires_grad(true)?;
 
         // Combined weights for 3 gates: [3*hidden_size, hidden_size]
         let weight_hh = Tensor::randn([3 * hidden_size, hidden_size], zero, one)?;
-        weight_hh.set_requires_grad(true)?;
         let weight_hh = weight_hh.mul_scalar(k_scalar)?;
+        weight_hh.set_requires_grad(true)?;
 
         let (bias_ih, bias_hh) = if with_bias {
             let bias_ih = Tensor::randn([3 * hidden_size], zero, one)?;
-            bias_ih.set_requires_grad(true)?;
             let bias_ih = bias_ih.mul_scalar(k_scalar)?;
+            bias_ih.set_requires_grad(true)?;
 
             let bias_hh = Tensor::randn([3 * hidden_size], zero, one)?;
-            bias_hh.set_requires_grad(true)?;
             let bias_hh = bias_hh.mul_scalar(k_scalar)?;
+            bias_hh.set_requires_grad(true)?;
 
             (Some(bias_ih), Some(bias_hh))
         } else {
-- 
2.43.0


From 02905be420605b5801fbed07cd2673c6ff4860e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 46/49] fix: random masks and slopes have the type of their
 input (N03)

---
 crates/hodu_nn/src/modules/activation.rs | 4 +---
 crates/hodu_nn/src/modules/attention.rs  | 2 +-
 crates/hodu_nn/src/modules/dropout.rs    | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_nn/src/modules/activation.rs b/crates/hodu_nn/src/modules/activation.rs
index 63f3327..a62d51b 100644
--- a/crates/hodu_nn/src/modules/activation.rs
+++ b/crates/hodu_nn/src/modules/activation.rs
@@ -225,9 +225,7 @@ impl RReLU {
         // Compute alpha based on training/evaluation mode
         let alpha = if get_state() == State::Training {
             // Training mode: use random alpha for each element
-            let lower_f32 = self.lower.to_f32();
-            let upper_f32 = self.upper.to_f32();
-            Tensor::rand_uniform_like(input, lower_f32, upper_f32)?
+            Tensor::rand_uniform_like(input, self.lower.to_dtype(dtype), self.upper.to_dtype(dtype))?
         } else {
             // Evaluation mode: use average of lower and upper bounds
             let avg = (self.lower.to_f32() + self.upper.to_f32()) / 2.0;
diff --git a/crates/hodu_nn/src/modules/attention.rs b/crates/hodu_nn/src/modules/attention.rs
index e96365d..f317187 100644
--- a/crates/hodu_nn/src/modules/attention.rs
+++ b/crates/hodu_nn/src/modules/attention.rs
@@ -98,7 +98,7 @@ fn get_neg_inf(dtype: DType) -> Scalar {
 /// Apply dropout to tensor
 fn apply_dropout(x: &Tensor, p: f64) -> HoduResult<Tensor> {
     let dtype = x.dtype();
-    let random = Tensor::rand_uniform_like(x, 0.0, 1.0)?;
+    let random = Tensor::rand_uniform_like(x, Scalar::zero(dtype), Scalar::one(dtype))?;
     let mask = random.ge_scalar(Scalar::from(p).to_dtype(dtype))?;
     let scaled = if p < 1.0 {
         x.mul_scalar(Scalar::from(1.0 / (1.0 - p)).to_dtype(dtype))?
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index c1dbc39..f7c8d27 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -20,7 +20,7 @@ impl Dropout {
 
         // Training mode: apply dropout
         let dtype = input.dtype();
-        let random = Tensor::rand_uniform_like(input, 0.0, 1.0)?;
+        let random = Tensor::rand_uniform_like(input, Scalar::zero(dtype), Scalar::one(dtype))?;
         let keep = 1.0 - self.p.to_f32();
         let mask = random.ge_scalar(self.p.to_dtype(dtype))?;
         let scaled = if keep > 0.0 {
-- 
2.43.0


From ee3483355bbf99253e9a8b5d4f0bba592f10d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 47/49] fix: plugin installations replace the plugin as a whole
 or change nothing, only plain names, Cargo.toml read as TOML (C05)

---
 hodu-cli/src/commands/plugin/install.rs | 127 ++++++++++++++----------
 1 file changed, 76 insertions(+), 51 deletions(-)

diff --git a/hodu-cli/src/commands/plugin/install.rs b/hodu-cli/src/commands/plugin/install.rs
index 42357de..56ab178 100644
--- a/hodu-cli/src/commands/plugin/install.rs
+++ b/hodu-cli/src/commands/plugin/install.rs
@@ -171,6 +171,7 @@ pub fn install_from_git(
 
     let status = git_cmd.status()?;
     if !status.success() {
+        let _ = std::fs::remove_dir_all(&temp_dir);
         return Err(format!("Failed to clone repository: {}", url).into());
     }
 
@@ -330,6 +331,11 @@ pub fn install_from_path(
         }
     };
 
+    // The name becomes a directory below the plugins directory
+    if Path::new(&name).file_name() != Some(std::ffi::OsStr::new(&name)) {
+        return Err(format!("Invalid plugin name: '{}'", name).into());
+    }
+
     // Check plugin protocol version compatibility
     let host_parts: Vec<u32> = PLUGIN_VERSION.split('.').filter_map(|s| s.parse().ok()).collect();
     let plugin_parts: Vec<u32> = plugin_version.split('.').filter_map(|s| s.parse().ok()).collect();
@@ -370,34 +376,6 @@ pub fn install_from_path(
         }
     }
 
-    // Copy executable to plugins directory
-    let plugins_dir = get_plugins_dir()?;
-    let plugin_dir = plugins_dir.join(&name);
-    std::fs::create_dir_all(&plugin_dir)?;
-
-    let bin_filename = bin_path
-        .file_name()
-        .ok_or("Invalid binary path: no filename")?
-        .to_string_lossy()
-        .to_string();
-    let dest_path = plugin_dir.join(&bin_filename);
-    std::fs::copy(&bin_path, &dest_path)?;
-
-    // Make executable on Unix
-    #[cfg(unix)]
-    {
-        use std::os::unix::fs::PermissionsExt;
-        let mut perms = std::fs::metadata(&dest_path)?.permissions();
-        perms.set_mode(0o755);
-        std::fs::set_permissions(&dest_path, perms)?;
-    }
-
-    // Copy manifest.json if it exists (needed for runtime target checking)
-    if manifest_path.exists() {
-        let dest_manifest = plugin_dir.join("manifest.json");
-        std::fs::copy(&manifest_path, &dest_manifest)?;
-    }
-
     // Parse metadata from manifest if available
     let (description, license, dependencies) = if manifest_path.exists() {
         let manifest_content = std::fs::read_to_string(&manifest_path)?;
@@ -413,6 +391,12 @@ pub fn install_from_path(
         (None, None, Vec::new())
     };
 
+    let bin_filename = bin_path
+        .file_name()
+        .ok_or("Invalid binary path: no filename")?
+        .to_string_lossy()
+        .to_string();
+
     // Create registry entry
     let entry = PluginEntry {
         name: name.clone(),
@@ -421,7 +405,7 @@ pub fn install_from_path(
         license,
         plugin_type,
         capabilities,
-        binary: bin_filename,
+        binary: bin_filename.clone(),
         source,
         installed_at: chrono_now(),
         plugin_version,
@@ -429,9 +413,47 @@ pub fn install_from_path(
         dependencies: dependencies.clone(),
     };
 
-    // Update registry
+    // Collect the files next to the plugin directory, so that it can be replaced as a whole
+    let plugins_dir = get_plugins_dir()?;
+    let plugin_dir = plugins_dir.join(&name);
+    let new_dir = plugins_dir.join(format!(".{}.new-{}", name, std::process::id()));
+    let old_dir = plugins_dir.join(format!(".{}.old-{}", name, std::process::id()));
+    let manifest = manifest_path.exists().then_some(manifest_path.as_path());
+    if let Err(e) = copy_plugin_files(&bin_path, &bin_filename, manifest, &new_dir) {
+        let _ = std::fs::remove_dir_all(&new_dir);
+        return Err(e.into());
+    }
+
+    let replaces = plugin_dir.symlink_metadata().is_ok();
+    if replaces {
+        if let Err(e) = std::fs::rename(&plugin_dir, &old_dir) {
+            let _ = std::fs::remove_dir_all(&new_dir);
+            return Err(e.into());
+        }
+    }
+
+    // Update registry; an installation that cannot be registered is undone
     registry.upsert(entry);
-    registry.save(&registry_path)?;
+    let result = std::fs::rename(&new_dir, &plugin_dir)
+        .map_err(|e| e.into())
+        .and_then(|_| {
+            registry
+                .save(&registry_path)
+                .map_err(Box::<dyn std::error::Error>::from)
+        });
+    if let Err(e) = result {
+        let _ = std::fs::remove_dir_all(&new_dir);
+        let _ = std::fs::remove_dir_all(&plugin_dir);
+        if replaces {
+            std::fs::rename(&old_dir, &plugin_dir)?;
+        }
+        return Err(e);
+    }
+    if replaces {
+        if let Err(e) = std::fs::remove_dir_all(&old_dir) {
+            output::warning(&format!("could not delete {}: {}", old_dir.display(), e));
+        }
+    }
 
     // Check dependencies after installation
     if !dependencies.is_empty() {
@@ -444,6 +466,27 @@ pub fn install_from_path(
     Ok(())
 }
 
+/// Copy a plugin's executable and manifest (needed for runtime target checking) into a new directory
+fn copy_plugin_files(bin_path: &Path, bin_filename: &str, manifest: Option<&Path>, dir: &Path) -> std::io::Result<()> {
+    std::fs::create_dir_all(dir)?;
+    let dest_path = dir.join(bin_filename);
+    std::fs::copy(bin_path, &dest_path)?;
+
+    // Make executable on Unix
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::PermissionsExt;
+        let mut perms = std::fs::metadata(&dest_path)?.permissions();
+        perms.set_mode(0o755);
+        std::fs::set_permissions(&dest_path, perms)?;
+    }
+
+    if let Some(manifest) = manifest {
+        std::fs::copy(manifest, dir.join("manifest.json"))?;
+    }
+    Ok(())
+}
+
 fn parse_manifest(manifest_path: &Path, package_name: &str) -> Result<ManifestInfo, Box<dyn std::error::Error>> {
     let manifest_content = std::fs::read_to_string(manifest_path)?;
     let manifest: serde_json::Value = serde_json::from_str(&manifest_content)?;
@@ -553,26 +596,8 @@ pub fn get_plugins_dir() -> Result<PathBuf, Box<dyn std::error::Error>> {
 
 /// Parse package name from Cargo.toml content
 pub fn parse_package_name(content: &str) -> Option<String> {
-    let mut in_package = false;
-    for line in content.lines() {
-        let trimmed = line.trim();
-        if trimmed == "[package]" {
-            in_package = true;
-            continue;
-        }
-        if trimmed.starts_with('[') && trimmed != "[package]" {
-            in_package = false;
-            continue;
-        }
-        if in_package && trimmed.starts_with("name") {
-            if let Some(eq_pos) = trimmed.find('=') {
-                let value = trimmed[eq_pos + 1..].trim();
-                let value = value.trim_matches('"').trim_matches('\'');
-                return Some(value.to_string());
-            }
-        }
-    }
-    None
+    let manifest: toml::Value = toml::from_str(content).ok()?;
+    Some(manifest.get("package")?.get("name")?.as_str()?.to_string())
 }
 
 /// Fetch official registry
-- 
2.43.0


From 0297a7f7083bab33e6f53e99001b641301e8418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 48/49] fix: empty operands broadcast to empty results (T02)

---
 crates/hodu_core/src/be_cpu/storage/ops_matrix.rs   | 2 +-
 crates/hodu_core/src/be_metal/storage/ops_matrix.rs | 2 +-
 crates/hodu_core/src/op_metadatas.rs                | 2 +-
 crates/hodu_core/src/tensor/ops/matrix.rs           | 2 +-
 crates/hodu_core/src/tensor/utils.rs                | 2 +-
 crates/hodu_core/src/types/shape.rs                 | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_matrix.rs b/crates/hodu_core/src/be_cpu/storage/ops_matrix.rs
index a2658a1..278c0b8 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_matrix.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_matrix.rs
@@ -90,7 +90,7 @@ pub fn call_ops_matmul(
             ));
         }
 
-        batch_shape.push(lhs_dim.max(rhs_dim));
+        batch_shape.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
     }
 
     // Build output shape: [...batch_dims, M, N]
diff --git a/crates/hodu_core/src/be_metal/storage/ops_matrix.rs b/crates/hodu_core/src/be_metal/storage/ops_matrix.rs
index 0683662..96871e0 100644
--- a/crates/hodu_core/src/be_metal/storage/ops_matrix.rs
+++ b/crates/hodu_core/src/be_metal/storage/ops_matrix.rs
@@ -59,7 +59,7 @@ pub fn call_ops_matmul(
             1
         };
 
-        batch_shape.push(lhs_dim.max(rhs_dim));
+        batch_shape.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
     }
 
     let mut output_shape_vec = batch_shape;
diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 935e77d..f03e4bb 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -241,7 +241,7 @@ pub fn matmul_metadata(lhs_layout: &Layout, rhs_layout: &Layout, output_layout:
             )));
         }
 
-        batch_shape.push(lhs_dim.max(rhs_dim));
+        batch_shape.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
     }
 
     let num_els = output_layout.size();
diff --git a/crates/hodu_core/src/tensor/ops/matrix.rs b/crates/hodu_core/src/tensor/ops/matrix.rs
index 21a404e..35983ca 100644
--- a/crates/hodu_core/src/tensor/ops/matrix.rs
+++ b/crates/hodu_core/src/tensor/ops/matrix.rs
@@ -148,7 +148,7 @@ impl Tensor {
                     Op::Matrix(MatrixOp::Matmul),
                 ));
             }
-            batch_dims[max_batch_ndim - 1 - i] = lhs_dim.max(rhs_dim);
+            batch_dims[max_batch_ndim - 1 - i] = if lhs_dim == 1 { rhs_dim } else { lhs_dim };
         }
 
         // Broadcast both tensors to have the same batch dimensions
diff --git a/crates/hodu_core/src/tensor/utils.rs b/crates/hodu_core/src/tensor/utils.rs
index 5a21468..0ba652c 100644
--- a/crates/hodu_core/src/tensor/utils.rs
+++ b/crates/hodu_core/src/tensor/utils.rs
@@ -27,7 +27,7 @@ pub fn broadcast_tensors2(a: &Tensor, b: &Tensor) -> HoduResult<(Tensor, Tensor)
         let b_dim = if i < b_ndim { b_dims[b_ndim - 1 - i] } else { 1 };
 
         if a_dim == 1 || b_dim == 1 || a_dim == b_dim {
-            output_dims[output_ndim - 1 - i] = a_dim.max(b_dim);
+            output_dims[output_ndim - 1 - i] = if a_dim == 1 { b_dim } else { a_dim };
         } else {
             // Only clone shapes for error messages
             return Err(HoduError::incompatible_shapes(a.shape(), b.shape(), Op::Dummy));
diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index c2e46cd..fce84d4 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -121,7 +121,7 @@ impl Shape {
                 return None;
             }
 
-            result_dims.push(lhs_dim.max(rhs_dim));
+            result_dims.push(if lhs_dim == 1 { rhs_dim } else { lhs_dim });
         }
 
         Some(Shape { dims: result_dims })
-- 
2.43.0


From 299ee6f8bc2a8686c51c7193da3727bf014b67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 49/49] fix: shapes of different ranks broadcast aligned at
 their last dimension (T02)

---
 crates/hodu_core/src/types/shape.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index fce84d4..5d17153 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -111,11 +111,9 @@ impl Shape {
         let mut result_dims = SmallVec::with_capacity(max_ndim);
 
         for i in 0..max_ndim {
-            let lhs_idx = lhs.ndim().saturating_sub(max_ndim - i);
-            let rhs_idx = rhs.ndim().saturating_sub(max_ndim - i);
-
-            let lhs_dim = lhs.dims.get(lhs_idx).copied().unwrap_or(1);
-            let rhs_dim = rhs.dims.get(rhs_idx).copied().unwrap_or(1);
+            // shapes align at their last dimension, a missing leading one counts as 1
+            let lhs_dim = (i + lhs.ndim()).checked_sub(max_ndim).map_or(1, |d| lhs.dims[d]);
+            let rhs_dim = (i + rhs.ndim()).checked_sub(max_ndim).map_or(1, |d| rhs.dims[d]);
 
             if lhs_dim != rhs_dim && lhs_dim != 1 && rhs_dim != 1 {
                 return None;
-- 
2.43.0

