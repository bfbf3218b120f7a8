From a9e82d162aec240c3cad9435fc5215fa865b4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 01/60] fix: name the Python expression inequality operator
 __ne__ so that != reaches it

---
 pyvortex/src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvortex/src/expr.rs b/pyvortex/src/expr.rs
index 5b5abe1..3674073 100644
--- a/pyvortex/src/expr.rs
+++ b/pyvortex/src/expr.rs
@@ -157,7 +157,7 @@ impl PyExpr {
         py_binary_opeartor(self_, Operator::Eq, coerce_expr(right)?)
     }
 
-    fn __neq__<'py>(
+    fn __ne__<'py>(
         self_: PyRef<'py, Self>,
         right: &Bound<'py, PyAny>,
     ) -> PyResult<Bound<'py, PyExpr>> {
-- 
2.43.0


From d81c3455552ee97ae98963e26c5c8defc3c1eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 02/60] fix: visit the validity of a StructArray so that its
 nulls are serialised

---
 vortex-array/src/array/struct_/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/struct_/mod.rs b/vortex-array/src/array/struct_/mod.rs
index cf31fbb..3613d27 100644
--- a/vortex-array/src/array/struct_/mod.rs
+++ b/vortex-array/src/array/struct_/mod.rs
@@ -185,7 +185,7 @@ impl AcceptArrayVisitor for StructArray {
                 .ok_or_else(|| vortex_err!(OutOfBounds: idx, 0, self.nfields()))?;
             visitor.visit_child(&format!("\"{}\"", name), &child)?;
         }
-        Ok(())
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 40ada367ed507432393bcd0ddc82362964379436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 03/60] fix: visit the validity of a DeltaArray so that its
 nulls are serialised

---
 encodings/fastlanes/src/delta/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ef07764..ee4830c 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -238,7 +238,8 @@ impl ArrayValidity for DeltaArray {
 impl AcceptArrayVisitor for DeltaArray {
     fn accept(&self, visitor: &mut dyn ArrayVisitor) -> VortexResult<()> {
         visitor.visit_child("bases", &self.bases())?;
-        visitor.visit_child("deltas", &self.deltas())
+        visitor.visit_child("deltas", &self.deltas())?;
+        visitor.visit_validity(&self.validity())
     }
 }
 
-- 
2.43.0


From 28bcc262bc85f1a8a91b9db980de0f6df8002236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 04/60] fix: read an f16 scalar whose bits were narrowed on the
 wire

---
 vortex-scalar/src/pvalue.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index 997d1c5..b00a8f1 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -223,9 +223,12 @@ impl TryFrom<PValue> for f16 {
     type Error = VortexError;
 
     fn try_from(value: PValue) -> Result<Self, Self::Error> {
-        // We serialize f16 as u16.
+        // We serialize f16 as u16, which may come back over the wire as any unsigned integer type.
         match value {
+            PValue::U8(u) => Some(Self::from_bits(u.into())),
             PValue::U16(u) => Some(Self::from_bits(u)),
+            PValue::U32(u) => u16::try_from(u).ok().map(Self::from_bits),
+            PValue::U64(u) => u16::try_from(u).ok().map(Self::from_bits),
             PValue::F16(u) => Some(u),
             PValue::F32(f) => <Self as NumCast>::from(f),
             PValue::F64(f) => <Self as NumCast>::from(f),
-- 
2.43.0


From 2c56d76cd0cf6e8222d30297744f0872f52ef308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 05/60] fix: serialise a binary scalar as bytes, so that it is
 not read back as a list

---
 vortex-scalar/src/serde/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-scalar/src/serde/serde.rs b/vortex-scalar/src/serde/serde.rs
index d31d715..cf94371 100644
--- a/vortex-scalar/src/serde/serde.rs
+++ b/vortex-scalar/src/serde/serde.rs
@@ -16,7 +16,7 @@ impl Serialize for ScalarValue {
             Self::Null => ().serialize(serializer),
             Self::Bool(b) => b.serialize(serializer),
             Self::Primitive(p) => p.serialize(serializer),
-            Self::Buffer(buffer) => buffer.as_ref().serialize(serializer),
+            Self::Buffer(buffer) => serializer.serialize_bytes(buffer.as_slice()),
             Self::BufferString(buffer) => buffer.as_str().serialize(serializer),
             Self::List(l) => l.serialize(serializer),
         }
-- 
2.43.0


From cbd8d7ccd97e34f4a67d9ad615cec35c7ade1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 06/60] fix: read u8 and u16 scalars back from protobuf

---
 vortex-scalar/src/serde/proto.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vortex-scalar/src/serde/proto.rs b/vortex-scalar/src/serde/proto.rs
index 8d9661f..d188ee9 100644
--- a/vortex-scalar/src/serde/proto.rs
+++ b/vortex-scalar/src/serde/proto.rs
@@ -132,8 +132,11 @@ fn deserialize_scalar_value(dtype: &DType, value: &pb::ScalarValue) -> VortexRes
 
                 Ok(ScalarValue::Primitive(PValue::F16(f16_value)))
             }
-            DType::Primitive(PType::U32, _) => Ok(ScalarValue::Primitive(PValue::U32(*v))),
-            _ => vortex_bail!("invalid dtype for f32 value {}", dtype),
+            // u8 and u16 values are widened to u32 on the wire.
+            DType::Primitive(PType::U8 | PType::U16 | PType::U32, _) => {
+                Ok(ScalarValue::Primitive(PValue::U32(*v)))
+            }
+            _ => vortex_bail!("invalid dtype for u32 value {}", dtype),
         },
         Kind::Uint64Value(v) => Ok(ScalarValue::Primitive(PValue::U64(*v))),
         Kind::FloatValue(v) => Ok(ScalarValue::Primitive(PValue::F32(*v))),
-- 
2.43.0


From 81f099f37986e823a4760e195caa880b47a511e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 07/60] fix: report an out-of-range struct field index as an
 error instead of panicking

---
 vortex-dtype/src/dtype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-dtype/src/dtype.rs b/vortex-dtype/src/dtype.rs
index b2b16e6..8374d50 100644
--- a/vortex-dtype/src/dtype.rs
+++ b/vortex-dtype/src/dtype.rs
@@ -182,7 +182,7 @@ impl StructDType {
                 .ok_or_else(|| vortex_err!("Unknown field: {}", name))?,
             Field::Index(index) => *index,
         };
-        if index > self.names.len() {
+        if index >= self.names.len() {
             vortex_bail!("field index out of bounds: {}", index)
         }
         Ok(FieldInfo {
-- 
2.43.0


From be742da53b488b1d98a950133940a6228550f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 08/60] fix: cast a null primitive scalar to null instead of
 panicking

---
 vortex-scalar/src/primitive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vortex-scalar/src/primitive.rs b/vortex-scalar/src/primitive.rs
index b7add0d..687096a 100644
--- a/vortex-scalar/src/primitive.rs
+++ b/vortex-scalar/src/primitive.rs
@@ -65,6 +65,12 @@ impl<'a> PrimitiveScalar<'a> {
 
     pub fn cast(&self, dtype: &DType) -> VortexResult<Scalar> {
         let ptype = PType::try_from(dtype)?;
+        if self.pvalue.is_none() {
+            if !dtype.is_nullable() {
+                vortex_bail!("Can't cast null scalar to non-nullable type")
+            }
+            return Ok(Scalar::null(dtype.clone()));
+        }
         match_each_native_ptype!(ptype, |$Q| {
             match_each_native_ptype!(self.ptype(), |$T| {
                 Ok(Scalar::primitive::<$Q>(
-- 
2.43.0


From 283179901360d8bc1c820263688ed123686484aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 09/60] fix: compare scalars by value, whatever width the wire
 gave them

---
 vortex-scalar/src/lib.rs       | 17 ++++++++++--
 vortex-scalar/src/primitive.rs |  5 ++++
 vortex-scalar/src/pvalue.rs    | 47 ++++++++++++++++++++++++----------
 3 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/vortex-scalar/src/lib.rs b/vortex-scalar/src/lib.rs
index f535cc1..9892008 100644
--- a/vortex-scalar/src/lib.rs
+++ b/vortex-scalar/src/lib.rs
@@ -106,16 +106,29 @@ impl Scalar {
     }
 }
 
+impl Scalar {
+    /// The value as the dtype reads it: a primitive value may come back over the wire as a
+    /// different primitive type than the dtype's (e.g. the bits of an f16 as a u16).
+    fn read_value(&self) -> ScalarValue {
+        if matches!(self.dtype, DType::Primitive(..)) {
+            if let Ok(primitive) = PrimitiveScalar::try_from(self) {
+                return primitive.scalar_value();
+            }
+        }
+        self.value.clone()
+    }
+}
+
 impl PartialEq for Scalar {
     fn eq(&self, other: &Self) -> bool {
-        self.dtype == other.dtype && self.value == other.value
+        self.dtype == other.dtype && self.read_value() == other.read_value()
     }
 }
 
 impl PartialOrd for Scalar {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         if self.dtype().eq_ignore_nullability(other.dtype()) {
-            self.value.partial_cmp(&other.value)
+            self.read_value().partial_cmp(&other.read_value())
         } else {
             None
         }
diff --git a/vortex-scalar/src/primitive.rs b/vortex-scalar/src/primitive.rs
index 687096a..2fd2fa1 100644
--- a/vortex-scalar/src/primitive.rs
+++ b/vortex-scalar/src/primitive.rs
@@ -51,6 +51,11 @@ impl<'a> PrimitiveScalar<'a> {
         self.ptype
     }
 
+    pub(crate) fn scalar_value(&self) -> ScalarValue {
+        self.pvalue
+            .map_or(ScalarValue::Null, ScalarValue::Primitive)
+    }
+
     pub fn typed_value<T: NativePType + TryFrom<PValue, Error = VortexError>>(&self) -> Option<T> {
         assert_eq!(
             self.ptype,
diff --git a/vortex-scalar/src/pvalue.rs b/vortex-scalar/src/pvalue.rs
index b00a8f1..d8a720a 100644
--- a/vortex-scalar/src/pvalue.rs
+++ b/vortex-scalar/src/pvalue.rs
@@ -8,7 +8,7 @@ use vortex_dtype::half::f16;
 use vortex_dtype::{NativePType, PType};
 use vortex_error::{vortex_err, VortexError};
 
-#[derive(Debug, Clone, Copy, PartialEq)]
+#[derive(Debug, Clone, Copy)]
 pub enum PValue {
     U8(u8),
     U16(u16),
@@ -23,20 +23,27 @@ pub enum PValue {
     F64(f64),
 }
 
+impl PartialEq for PValue {
+    fn eq(&self, other: &Self) -> bool {
+        match (self.widen(), other.widen()) {
+            (Self::U64(s), Self::U64(o)) => s == o,
+            (Self::I64(s), Self::I64(o)) => s == o,
+            (Self::F16(s), Self::F16(o)) => s == o,
+            (Self::F32(s), Self::F32(o)) => s == o,
+            (Self::F64(s), Self::F64(o)) => s == o,
+            (..) => false,
+        }
+    }
+}
+
 impl PartialOrd for PValue {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        match (self, other) {
-            (Self::U8(s), Self::U8(o)) => Some(s.compare(*o)),
-            (Self::U16(s), Self::U16(o)) => Some(s.compare(*o)),
-            (Self::U32(s), Self::U32(o)) => Some(s.compare(*o)),
-            (Self::U64(s), Self::U64(o)) => Some(s.compare(*o)),
-            (Self::I8(s), Self::I8(o)) => Some(s.compare(*o)),
-            (Self::I16(s), Self::I16(o)) => Some(s.compare(*o)),
-            (Self::I32(s), Self::I32(o)) => Some(s.compare(*o)),
-            (Self::I64(s), Self::I64(o)) => Some(s.compare(*o)),
-            (Self::F16(s), Self::F16(o)) => Some(s.compare(*o)),
-            (Self::F32(s), Self::F32(o)) => Some(s.compare(*o)),
-            (Self::F64(s), Self::F64(o)) => Some(s.compare(*o)),
+        match (self.widen(), other.widen()) {
+            (Self::U64(s), Self::U64(o)) => Some(s.compare(o)),
+            (Self::I64(s), Self::I64(o)) => Some(s.compare(o)),
+            (Self::F16(s), Self::F16(o)) => Some(s.compare(o)),
+            (Self::F32(s), Self::F32(o)) => Some(s.compare(o)),
+            (Self::F64(s), Self::F64(o)) => Some(s.compare(o)),
             (..) => None,
         }
     }
@@ -58,6 +65,20 @@ macro_rules! as_primitive {
 }
 
 impl PValue {
+    /// The widest integer of the same signedness. An integer may come back over the wire with a
+    /// different width than it was written with, so that integers are compared by their value.
+    fn widen(self) -> Self {
+        match self {
+            Self::U8(v) => Self::U64(v as u64),
+            Self::U16(v) => Self::U64(v as u64),
+            Self::U32(v) => Self::U64(v as u64),
+            Self::I8(v) => Self::I64(v as i64),
+            Self::I16(v) => Self::I64(v as i64),
+            Self::I32(v) => Self::I64(v as i64),
+            other => other,
+        }
+    }
+
     pub fn ptype(&self) -> PType {
         match self {
             Self::U8(_) => PType::U8,
-- 
2.43.0


From e8cfdff4ba5aaf8ff63f32ecd88cf75f6cee19ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 10/60] fix: iterate f16 arrays with an f16 iterator

---
 vortex-array/src/array/constant/variants.rs | 8 ++++++++
 vortex-array/src/array/primitive/mod.rs     | 5 +++++
 vortex-array/src/elementwise.rs             | 2 +-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/variants.rs b/vortex-array/src/array/constant/variants.rs
index 81e3a59..4ffeb00 100644
--- a/vortex-array/src/array/constant/variants.rs
+++ b/vortex-array/src/array/constant/variants.rs
@@ -2,6 +2,7 @@ use std::iter;
 use std::sync::Arc;
 
 use vortex_dtype::field::Field;
+use vortex_dtype::half::f16;
 use vortex_dtype::{DType, PType};
 use vortex_error::{vortex_panic, VortexError, VortexExpect as _, VortexResult};
 use vortex_scalar::{ExtScalar, Scalar, ScalarValue, StructScalar};
@@ -115,6 +116,13 @@ where
 }
 
 impl PrimitiveArrayTrait for ConstantArray {
+    fn f16_accessor(&self) -> Option<AccessorRef<f16>> {
+        match self.dtype() {
+            DType::Primitive(PType::F16, _) => Some(Arc::new(self.clone())),
+            _ => None,
+        }
+    }
+
     fn f32_accessor(&self) -> Option<AccessorRef<f32>> {
         match self.dtype() {
             DType::Primitive(PType::F32, _) => Some(Arc::new(self.clone())),
diff --git a/vortex-array/src/array/primitive/mod.rs b/vortex-array/src/array/primitive/mod.rs
index 298260a..1571397 100644
--- a/vortex-array/src/array/primitive/mod.rs
+++ b/vortex-array/src/array/primitive/mod.rs
@@ -9,6 +9,7 @@ use itertools::Itertools;
 use num_traits::AsPrimitive;
 use serde::{Deserialize, Serialize};
 use vortex_buffer::Buffer;
+use vortex_dtype::half::f16;
 use vortex_dtype::{match_each_native_ptype, DType, NativePType, PType};
 use vortex_error::{vortex_bail, vortex_panic, VortexError, VortexExpect as _, VortexResult};
 
@@ -249,6 +250,10 @@ macro_rules! primitive_accessor_ref {
 }
 
 impl PrimitiveArrayTrait for PrimitiveArray {
+    fn f16_accessor(&self) -> Option<AccessorRef<f16>> {
+        primitive_accessor_ref!(self, F16)
+    }
+
     fn f32_accessor(&self) -> Option<AccessorRef<f32>> {
         primitive_accessor_ref!(self, F32)
     }
diff --git a/vortex-array/src/elementwise.rs b/vortex-array/src/elementwise.rs
index 2e6c344..63c99b9 100644
--- a/vortex-array/src/elementwise.rs
+++ b/vortex-array/src/elementwise.rs
@@ -72,7 +72,7 @@ pub fn dyn_cast_array_iter<N: NativePType>(array: &Array) -> Box<dyn Iterator<It
         ),
         PType::F16 => Box::new(
             array
-                .with_dyn(|a| a.as_primitive_array_unchecked().u64_iter())
+                .with_dyn(|a| a.as_primitive_array_unchecked().f16_iter())
                 .unwrap()
                 .map(|b| b.as_::<N>()),
         ),
-- 
2.43.0


From 7957b2b86932aef6789d6820aad60c1319f91ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 11/60] fix: run-end bool slice, take and scalar_at keep
 validity and offset

---
 encodings/runend-bool/src/compute.rs | 32 ++++++++++++++++------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/encodings/runend-bool/src/compute.rs b/encodings/runend-bool/src/compute.rs
index d6a71b6..34bf4df 100644
--- a/encodings/runend-bool/src/compute.rs
+++ b/encodings/runend-bool/src/compute.rs
@@ -1,7 +1,7 @@
 use vortex::array::BoolArray;
 use vortex::compute::unary::ScalarAtFn;
 use vortex::compute::{slice, ArrayCompute, SliceFn, TakeFn};
-use vortex::{Array, IntoArray, IntoArrayVariant, ToArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_dtype::match_each_integer_ptype;
 use vortex_error::{vortex_bail, VortexExpect as _, VortexResult};
 use vortex_scalar::Scalar;
@@ -26,19 +26,22 @@ impl ArrayCompute for RunEndBoolArray {
 impl ScalarAtFn for RunEndBoolArray {
     fn scalar_at(&self, index: usize) -> VortexResult<Scalar> {
         let start = self.start();
-        Ok(Scalar::from(value_at_index(
-            self.find_physical_index(index)?,
-            start,
-        )))
+        Ok(Scalar::bool(
+            value_at_index(self.find_physical_index(index)?, start),
+            self.dtype().nullability(),
+        ))
     }
 
     fn scalar_at_unchecked(&self, index: usize) -> Scalar {
         let start = self.start();
-        Scalar::from(value_at_index(
-            self.find_physical_index(index)
-                .vortex_expect("Search must be implemented for the underlying index array"),
-            start,
-        ))
+        Scalar::bool(
+            value_at_index(
+                self.find_physical_index(index)
+                    .vortex_expect("Search must be implemented for the underlying index array"),
+                start,
+            ),
+            self.dtype().nullability(),
+        )
     }
 }
 
@@ -59,13 +62,14 @@ impl TakeFn for RunEndBoolArray {
                 .collect::<VortexResult<Vec<_>>>()?
         });
         let start = self.start();
-        Ok(BoolArray::from(
+        Ok(BoolArray::from_vec(
             physical_indices
                 .iter()
                 .map(|&it| value_at_index(it, start))
                 .collect::<Vec<_>>(),
+            self.validity().take(indices)?,
         )
-        .to_array())
+        .into_array())
     }
 }
 
@@ -77,9 +81,9 @@ impl SliceFn for RunEndBoolArray {
         Ok(Self::with_offset_and_size(
             slice(self.ends(), slice_begin, slice_end + 1)?,
             value_at_index(slice_begin, self.start()),
-            self.validity().slice(slice_begin, slice_end + 1)?,
+            self.validity().slice(start, stop)?,
             stop - start,
-            start,
+            start + self.offset(),
         )?
         .into_array())
     }
-- 
2.43.0


From 18e71285dc74ec53698e01b59ef516f16a4ee3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 12/60] fix: empty slice of a roaring int array is empty

---
 encodings/roaring/src/integer/compute.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encodings/roaring/src/integer/compute.rs b/encodings/roaring/src/integer/compute.rs
index 84df832..a0f595a 100644
--- a/encodings/roaring/src/integer/compute.rs
+++ b/encodings/roaring/src/integer/compute.rs
@@ -41,6 +41,10 @@ impl ScalarAtFn for RoaringIntArray {
 
 impl SliceFn for RoaringIntArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if start == stop {
+            return Self::try_new(Bitmap::new(), self.ptype()).map(IntoArray::into_array);
+        }
+
         let mut bitmap = self.owned_bitmap();
         let start = bitmap
             .select(start as u32)
-- 
2.43.0


From 21b1f90e05861762c7a2932dc659fcb82721dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 13/60] fix: byte bool take keeps the array's nullability

---
 encodings/bytebool/src/compute.rs | 49 ++++++++-----------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/encodings/bytebool/src/compute.rs b/encodings/bytebool/src/compute.rs
index bbdc421..5d0c575 100644
--- a/encodings/bytebool/src/compute.rs
+++ b/encodings/bytebool/src/compute.rs
@@ -49,46 +49,21 @@ impl SliceFn for ByteBoolArray {
 
 impl TakeFn for ByteBoolArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
-        let validity = self.validity();
+        let validity = self.validity().take(indices)?;
         let indices = indices.clone().as_primitive();
         let bools = self.maybe_null_slice();
 
-        let arr = match validity {
-            Validity::AllValid | Validity::NonNullable => {
-                let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
-                    indices.maybe_null_slice::<$I>()
-                    .iter()
-                    .map(|&idx| {
-                        let idx: usize = idx.as_();
-                        bools[idx]
-                    })
-                    .collect::<Vec<_>>()
-                });
-
-                Self::from(bools).into_array()
-            }
-            Validity::AllInvalid => Self::from(vec![None; indices.len()]).into_array(),
-
-            Validity::Array(_) => {
-                let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
-                    indices.maybe_null_slice::<$I>()
-                    .iter()
-                    .map(|&idx| {
-                        let idx = idx.as_();
-                        if validity.is_valid(idx) {
-                            Some(bools[idx])
-                        } else {
-                            None
-                        }
-                    })
-                    .collect::<Vec<Option<_>>>()
-                });
-
-                Self::from(bools).into_array()
-            }
-        };
-
-        Ok(arr)
+        let bools = match_each_integer_ptype!(indices.ptype(), |$I| {
+            indices.maybe_null_slice::<$I>()
+                .iter()
+                .map(|&idx| {
+                    let idx: usize = idx.as_();
+                    bools[idx]
+                })
+                .collect::<Vec<_>>()
+        });
+
+        Ok(Self::try_from_vec(bools, validity)?.into_array())
     }
 }
 
-- 
2.43.0


From 3cf377f27cc3ab9e02ec1fe99eab4d8dee6ec2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 14/60] fix: bit-packed take puts patches at the taken rows

---
 .../fastlanes/src/bitpacking/compute/take.rs  | 102 +++---------------
 1 file changed, 16 insertions(+), 86 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/take.rs b/encodings/fastlanes/src/bitpacking/compute/take.rs
index 95ab8cb..6c32083 100644
--- a/encodings/fastlanes/src/bitpacking/compute/take.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/take.rs
@@ -1,9 +1,7 @@
-use std::cmp::min;
-
 use fastlanes::BitPacking;
 use itertools::Itertools;
 use vortex::array::{PrimitiveArray, SparseArray};
-use vortex::compute::{slice, take, TakeFn};
+use vortex::compute::{take, TakeFn};
 use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant, IntoCanonical};
 use vortex_dtype::{
     match_each_integer_ptype, match_each_unsigned_integer_ptype, NativePType, PType,
@@ -16,7 +14,6 @@ use crate::{unpack_single_primitive, BitPackedArray};
 // all 1024 elements takes ~8.8x as long as unpacking a single element on an M2 Macbook Air.
 // see https://github.com/spiraldb/vortex/pull/190#issue-2223752833
 const UNPACK_CHUNK_THRESHOLD: usize = 8;
-const BULK_PATCH_THRESHOLD: usize = 64;
 
 impl TakeFn for BitPackedArray {
     fn take(&self, indices: &Array) -> VortexResult<Array> {
@@ -71,9 +68,7 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     let mut output = Vec::with_capacity(indices.len());
     let mut unpacked = [T::zero(); 1024];
 
-    let mut batch_count = 0_usize;
     for (chunk, offsets) in chunked_indices {
-        batch_count += 1;
         let chunk_size = 128 * bit_width / size_of::<T>();
         let packed_chunk = &packed[chunk * chunk_size..][..chunk_size];
 
@@ -118,96 +113,31 @@ fn take_primitive<T: NativePType + BitPacking, I: NativePType>(
     }
 
     if let Some(ref patches) = patches {
-        patch_for_take_primitive::<T, I>(patches, indices, offset, batch_count, &mut output)?;
+        patch_for_take_primitive::<T>(patches, indices, &mut output)?;
     }
 
     Ok(output)
 }
 
-fn patch_for_take_primitive<T: NativePType, I: NativePType>(
+fn patch_for_take_primitive<T: NativePType>(
     patches: &SparseArray,
     indices: &PrimitiveArray,
-    offset: usize,
-    batch_count: usize,
     output: &mut [T],
 ) -> VortexResult<()> {
-    #[inline]
-    fn inner_patch<T: NativePType>(
-        patches: &SparseArray,
-        indices: &PrimitiveArray,
-        output: &mut [T],
-    ) -> VortexResult<()> {
-        let taken_patches = take(patches.as_ref(), indices.as_ref())?;
-        let taken_patches = SparseArray::try_from(taken_patches)?;
-
-        let base_index = output.len() - indices.len();
-        let output_patches = taken_patches
-            .values()
-            .into_primitive()?
-            .reinterpret_cast(T::PTYPE);
-        taken_patches
-            .resolved_indices()
-            .iter()
-            .map(|idx| base_index + *idx)
-            .zip_eq(output_patches.maybe_null_slice::<T>())
-            .for_each(|(idx, val)| {
-                output[idx] = *val;
-            });
-
-        Ok(())
-    }
-
-    // if we have a small number of relatively large batches, we gain by slicing and then patching inside the loop
-    // if we have a large number of relatively small batches, the overhead isn't worth it, and we're better off with a bulk patch
-    // roughly, if we have an average of less than 64 elements per batch, we prefer bulk patching
-    let prefer_bulk_patch = batch_count * BULK_PATCH_THRESHOLD > indices.len();
-    if prefer_bulk_patch {
-        return inner_patch(patches, indices, output);
-    }
-
-    let min_index = patches.min_index().unwrap_or_default();
-    let max_index = patches.max_index().unwrap_or_default();
-
-    // Group indices into 1024-element chunks and relativise them to the beginning of each chunk
-    let chunked_indices = &indices
-        .maybe_null_slice::<I>()
+    let taken_patches = take(patches.as_ref(), indices.as_ref())?;
+    let taken_patches = SparseArray::try_from(taken_patches)?;
+
+    let output_patches = taken_patches
+        .values()
+        .into_primitive()?
+        .reinterpret_cast(T::PTYPE);
+    taken_patches
+        .resolved_indices()
         .iter()
-        .map(|i| {
-            i.to_usize()
-                .vortex_expect("index must be expressible as usize")
-                + offset
-        })
-        .filter(|i| *i >= min_index && *i <= max_index) // short-circuit
-        .chunk_by(|idx| idx / 1024);
-
-    for (chunk, offsets) in chunked_indices {
-        // NOTE: we need to subtract the array offset before slicing into the patches.
-        // This is because BitPackedArray is rounded to block boundaries, but patches
-        // is sliced exactly.
-        let patches_start = if chunk == 0 {
-            0
-        } else {
-            (chunk * 1024) - offset
-        };
-        let patches_end = min((chunk + 1) * 1024 - offset, patches.len());
-        let patches_slice = slice(patches.as_ref(), patches_start, patches_end)?;
-        let patches_slice = SparseArray::try_from(patches_slice)?;
-        if patches_slice.is_empty() {
-            continue;
-        }
-
-        let min_index = patches_slice.min_index().unwrap_or_default();
-        let max_index = patches_slice.max_index().unwrap_or_default();
-        let offsets = offsets
-            .map(|i| (i % 1024) as u16)
-            .filter(|i| *i as usize >= min_index && *i as usize <= max_index)
-            .collect_vec();
-        if offsets.is_empty() {
-            continue;
-        }
-
-        inner_patch(&patches_slice, &PrimitiveArray::from(offsets), output)?;
-    }
+        .zip_eq(output_patches.maybe_null_slice::<T>())
+        .for_each(|(idx, val)| {
+            output[*idx] = *val;
+        });
 
     Ok(())
 }
-- 
2.43.0


From 97f4fe5c374a63600f820091c975100b9de3918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 15/60] fix: chunked slice of an array without chunks

---
 vortex-array/src/array/chunked/compute/slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/chunked/compute/slice.rs b/vortex-array/src/array/chunked/compute/slice.rs
index 3faa414..7f2161d 100644
--- a/vortex-array/src/array/chunked/compute/slice.rs
+++ b/vortex-array/src/array/chunked/compute/slice.rs
@@ -2,10 +2,14 @@ use vortex_error::VortexResult;
 
 use crate::array::chunked::ChunkedArray;
 use crate::compute::{slice, SliceFn};
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, ToArray};
 
 impl SliceFn for ChunkedArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
+        if self.nchunks() == 0 {
+            return Ok(self.to_array());
+        }
+
         let (offset_chunk, offset_in_first_chunk) = self.find_chunk_idx(start);
         let (length_chunk, length_in_last_chunk) = self.find_chunk_idx(stop);
 
-- 
2.43.0


From be9d0a9a35ac0fce3658229b0752c0da8c3f3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 16/60] fix: chunked take with empty or narrow indices

---
 vortex-array/src/array/chunked/compute/take.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vortex-array/src/array/chunked/compute/take.rs b/vortex-array/src/array/chunked/compute/take.rs
index e7f91a6..8981171 100644
--- a/vortex-array/src/array/chunked/compute/take.rs
+++ b/vortex-array/src/array/chunked/compute/take.rs
@@ -29,9 +29,11 @@ impl TakeFn for ChunkedArray {
         // While the chunk idx remains the same, accumulate a list of chunk indices.
         let mut chunks = Vec::new();
         let mut indices_in_chunk = Vec::new();
-        let mut prev_chunk_idx = self
-            .find_chunk_idx(indices.maybe_null_slice::<u64>()[0] as usize)
-            .0;
+        let mut prev_chunk_idx = indices
+            .maybe_null_slice::<u64>()
+            .first()
+            .map(|idx| self.find_chunk_idx(*idx as usize).0)
+            .unwrap_or_default();
         for idx in indices.maybe_null_slice::<u64>() {
             let (chunk_idx, idx_in_chunk) = self.find_chunk_idx(*idx as usize);
 
@@ -69,7 +71,12 @@ fn take_strict_sorted(chunked: &ChunkedArray, indices: &Array) -> VortexResult<A
         // Find the end of this chunk, and locate that position in the indices array.
         let chunk_begin = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx)?)?;
         let chunk_end = usize::try_from(&scalar_at(chunked.chunk_offsets(), chunk_idx + 1)?)?;
-        let chunk_end_pos = search_sorted(indices, chunk_end, SearchSortedSide::Left)?.to_index();
+        // Note. If the dtype of the indices cannot represent chunk_end then all remaining indices are smaller.
+        let chunk_end_pos = if chunk_end as u64 <= PType::try_from(indices.dtype())?.max_value() {
+            search_sorted(indices, chunk_end, SearchSortedSide::Left)?.to_index()
+        } else {
+            indices.len()
+        };
 
         // Now we can say the slice of indices belonging to this chunk is [pos, chunk_end_pos)
         let chunk_indices = slice(indices, pos, chunk_end_pos)?;
-- 
2.43.0


From aa586a9ca15d13173f60fc9f42adb1b17a37f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 17/60] fix: varbinview take keeps the array's nullability

---
 vortex-array/src/array/varbinview/compute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbinview/compute.rs b/vortex-array/src/array/varbinview/compute.rs
index 4c14f4a..f07b1b8 100644
--- a/vortex-array/src/array/varbinview/compute.rs
+++ b/vortex-array/src/array/varbinview/compute.rs
@@ -71,7 +71,7 @@ impl TakeFn for VarBinViewArray {
         let indices_arrow = indices.clone().into_canonical()?.into_arrow()?;
 
         let take_arrow = arrow_select::take::take(&array_ref, &indices_arrow, None)?;
-        let nullable = take_arrow.is_nullable();
+        let nullable = self.dtype().is_nullable();
         Ok(Array::from_arrow(take_arrow, nullable))
     }
 }
-- 
2.43.0


From 2f4658da248c284e3c4f8258e5a14d003e32c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 18/60] fix: empty slice at the end of a run-end array

---
 encodings/runend/src/compute.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/encodings/runend/src/compute.rs b/encodings/runend/src/compute.rs
index e4b8ccf..d7c86da 100644
--- a/encodings/runend/src/compute.rs
+++ b/encodings/runend/src/compute.rs
@@ -96,12 +96,19 @@ impl TakeFn for RunEndArray {
 
 impl SliceFn for RunEndArray {
     fn slice(&self, start: usize, stop: usize) -> VortexResult<Array> {
-        let slice_begin = self.find_physical_index(start)?;
-        let slice_end = self.find_physical_index(stop)?;
+        // An empty slice has no runs, there might be no run that contains its start.
+        let (slice_begin, slice_end) = if start == stop {
+            (0, 0)
+        } else {
+            (
+                self.find_physical_index(start)?,
+                self.find_physical_index(stop)? + 1,
+            )
+        };
 
         Ok(Self::with_offset_and_length(
-            slice(self.ends(), slice_begin, slice_end + 1)?,
-            slice(self.values(), slice_begin, slice_end + 1)?,
+            slice(self.ends(), slice_begin, slice_end)?,
+            slice(self.values(), slice_begin, slice_end)?,
             self.validity().slice(start, stop)?,
             start + self.offset(),
             stop - start,
-- 
2.43.0


From 9ef86bf3f796598ffd92a4278e356aff49dddf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 19/60] fix: delta arrays keep their validity

---
 encodings/fastlanes/src/delta/compress.rs | 16 ++++++----------
 encodings/fastlanes/src/delta/mod.rs      |  2 +-
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/encodings/fastlanes/src/delta/compress.rs b/encodings/fastlanes/src/delta/compress.rs
index b7b5e44..3089801 100644
--- a/encodings/fastlanes/src/delta/compress.rs
+++ b/encodings/fastlanes/src/delta/compress.rs
@@ -3,7 +3,6 @@ use fastlanes::{Delta, Transpose};
 use num_traits::{WrappingAdd, WrappingSub};
 use vortex::array::PrimitiveArray;
 use vortex::compute::unary::fill_forward;
-use vortex::compute::SliceFn;
 use vortex::validity::Validity;
 use vortex::IntoArrayVariant;
 use vortex_dtype::{match_each_unsigned_integer_ptype, NativePType, Nullability};
@@ -100,16 +99,13 @@ where
 pub fn delta_decompress(array: DeltaArray) -> VortexResult<PrimitiveArray> {
     let bases = array.bases().into_primitive()?;
     let deltas = array.deltas().into_primitive()?;
-    let decoded = match_each_unsigned_integer_ptype!(deltas.ptype(), |$T| {
-        PrimitiveArray::from_vec(
-            decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice()),
-            array.validity()
-        )
-    });
+    let range = array.offset()..array.offset() + array.len();
 
-    decoded
-        .slice(array.offset(), array.offset() + array.len())?
-        .into_primitive()
+    // The validity covers the logical range only, whereas the deltas cover whole chunks.
+    Ok(match_each_unsigned_integer_ptype!(deltas.ptype(), |$T| {
+        let values = decompress_primitive::<$T>(bases.maybe_null_slice(), deltas.maybe_null_slice());
+        PrimitiveArray::from_vec(values[range].to_vec(), array.validity())
+    }))
 }
 
 fn decompress_primitive<T: NativePType + Delta + Transpose + WrappingAdd>(
diff --git a/encodings/fastlanes/src/delta/mod.rs b/encodings/fastlanes/src/delta/mod.rs
index ee4830c..ffcc4ef 100644
--- a/encodings/fastlanes/src/delta/mod.rs
+++ b/encodings/fastlanes/src/delta/mod.rs
@@ -73,7 +73,7 @@ impl DeltaArray {
         Self::try_from_delta_compress_parts(
             bases.into_array(),
             deltas.into_array(),
-            Validity::NonNullable,
+            array.validity(),
         )
     }
 
-- 
2.43.0


From 36453332f7d7d8d09553d00128f488922a4e6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 20/60] fix: canonical ALP-RD arrays keep their nullability

---
 encodings/alp/src/alp_rd/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encodings/alp/src/alp_rd/array.rs b/encodings/alp/src/alp_rd/array.rs
index f3d5611..bb01077 100644
--- a/encodings/alp/src/alp_rd/array.rs
+++ b/encodings/alp/src/alp_rd/array.rs
@@ -214,7 +214,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                left_parts.validity(),
             )
         } else {
             PrimitiveArray::from_vec(
@@ -226,7 +226,7 @@ impl IntoCanonical for ALPRDArray {
                     &exc_pos,
                     exc_u16.maybe_null_slice::<u16>(),
                 ),
-                self.logical_validity().into_validity(),
+                left_parts.validity(),
             )
         };
 
-- 
2.43.0


From 768be70f7a2262d723353a0850720825a02d40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 21/60] fix: ALP-RD scalars have the dtype of the array

---
 encodings/alp/src/alp_rd/compute/scalar_at.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encodings/alp/src/alp_rd/compute/scalar_at.rs b/encodings/alp/src/alp_rd/compute/scalar_at.rs
index a6c42b6..a8717ec 100644
--- a/encodings/alp/src/alp_rd/compute/scalar_at.rs
+++ b/encodings/alp/src/alp_rd/compute/scalar_at.rs
@@ -1,4 +1,5 @@
 use vortex::compute::unary::{scalar_at, ScalarAtFn};
+use vortex::ArrayDType;
 use vortex_error::{VortexResult, VortexUnwrap};
 use vortex_scalar::Scalar;
 
@@ -22,11 +23,11 @@ impl ScalarAtFn for ALPRDArray {
         if self.is_f32() {
             let right: u32 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f32::from_bits((left as u32) << self.right_bit_width() | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         } else {
             let right: u64 = scalar_at(self.right_parts(), index)?.try_into()?;
             let packed = f64::from_bits(((left as u64) << self.right_bit_width()) | right);
-            Ok(packed.into())
+            Ok(Scalar::primitive(packed, self.dtype().nullability()))
         }
     }
 
-- 
2.43.0


From a9aad6be816c4cb18738c0728de38d6869b04b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 22/60] fix: comparing ALP arrays with constants that ALP can't
 encode

---
 encodings/alp/src/alp/compute.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/encodings/alp/src/alp/compute.rs b/encodings/alp/src/alp/compute.rs
index efea9b0..afc0dbe 100644
--- a/encodings/alp/src/alp/compute.rs
+++ b/encodings/alp/src/alp/compute.rs
@@ -5,7 +5,7 @@ use vortex::compute::{
 };
 use vortex::stats::{ArrayStatistics, Stat};
 use vortex::validity::Validity;
-use vortex::{Array, ArrayDType, IntoArray};
+use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 use vortex_error::{VortexExpect, VortexResult};
 use vortex_scalar::{PValue, Scalar};
 
@@ -42,7 +42,9 @@ impl ScalarAtFn for ALPArray {
         if let Some(patches) = self.patches() {
             if patches.with_dyn(|a| a.is_valid(index)) {
                 // We need to make sure the value is actually in the patches array
-                return scalar_at_unchecked(&patches, index);
+                return scalar_at_unchecked(&patches, index)
+                    .cast(self.dtype())
+                    .vortex_expect("Failed to cast patch value to the dtype of the array");
             }
         }
 
@@ -109,9 +111,10 @@ impl MaybeCompareFn for ALPArray {
             match pvalue {
                 Some(PValue::F32(f)) => Some(alp_scalar_compare(self, f, operator)),
                 Some(PValue::F64(f)) => Some(alp_scalar_compare(self, f, operator)),
-                Some(_) | None => Some(Ok(BoolArray::from_vec(
+                Some(_) => None,
+                None => Some(Ok(BoolArray::from_vec(
                     vec![false; self.len()],
-                    Validity::AllValid,
+                    Validity::AllInvalid,
                 )
                 .into_array())),
             }
@@ -129,19 +132,16 @@ fn alp_scalar_compare<F: ALPFloat + Into<Scalar>>(
 where
     F::ALPInt: Into<Scalar>,
 {
-    let encoded = F::encode_single(value, alp.exponents());
-    match encoded {
-        Ok(encoded) => {
+    match F::encode_single(value, alp.exponents()) {
+        // Encoding preserves the order of the values, as long as none of them is patched.
+        Ok(encoded) if alp.patches().is_none() => {
             let s = ConstantArray::new(encoded, alp.len());
             compare(alp.encoded(), s.as_ref(), operator)
         }
-        Err(exception) => {
-            if let Some(patches) = alp.patches().as_ref() {
-                let s = ConstantArray::new(exception, alp.len());
-                compare(patches, s.as_ref(), operator)
-            } else {
-                Ok(BoolArray::from_vec(vec![false; alp.len()], Validity::AllValid).into_array())
-            }
+        _ => {
+            let decoded = alp.clone().into_array().into_primitive()?;
+            let s = ConstantArray::new(value, alp.len());
+            compare(decoded.as_ref(), s.as_ref(), operator)
         }
     }
 }
-- 
2.43.0


From 2d659befa722ac257d291188f902de14ff6171a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 23/60] fix: dict null count

---
 encodings/dict/src/stats.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/encodings/dict/src/stats.rs b/encodings/dict/src/stats.rs
index c153898..ce2f877 100644
--- a/encodings/dict/src/stats.rs
+++ b/encodings/dict/src/stats.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 
 use vortex::stats::{ArrayStatistics, ArrayStatisticsCompute, Stat, StatsSet};
+use vortex::validity::{ArrayValidity, LogicalValidity};
 use vortex_error::VortexResult;
 use vortex_scalar::Scalar;
 
@@ -22,8 +23,14 @@ impl ArrayStatisticsCompute for DictArray {
         if let Some(is_constant) = self.codes().statistics().compute(Stat::IsConstant) {
             stats.insert(Stat::IsConstant, is_constant);
         }
-        if let Some(null_count) = self.codes().statistics().compute(Stat::NullCount) {
-            stats.insert(Stat::NullCount, null_count);
+        // Nulls are values of the dictionary, they don't show in the codes
+        let null_count = match self.logical_validity() {
+            LogicalValidity::AllValid(_) => Some(0),
+            LogicalValidity::AllInvalid(len) => Some(len),
+            LogicalValidity::Array(a) => a.statistics().compute_true_count().map(|t| a.len() - t),
+        };
+        if let Some(null_count) = null_count {
+            stats.insert(Stat::NullCount, null_count.into());
         }
 
         // if dictionary is sorted
-- 
2.43.0


From 3f17ce2ba46c4888f55389fc9159d84a84d0a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 24/60] fix: statistics of roaring bool arrays with trailing
 falses

---
 encodings/roaring/src/boolean/stats.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/encodings/roaring/src/boolean/stats.rs b/encodings/roaring/src/boolean/stats.rs
index 5f62f20..d7d26c0 100644
--- a/encodings/roaring/src/boolean/stats.rs
+++ b/encodings/roaring/src/boolean/stats.rs
@@ -30,15 +30,17 @@ struct BitmapStats(Bitset, usize, u64);
 
 impl ArrayStatisticsCompute for BitmapStats {
     fn compute_statistics(&self, _stat: Stat) -> VortexResult<StatsSet> {
+        // The bitset only extends up to the last set bit, the words past it are all zero
         let bitset_slice = self.0.as_slice();
+        let word = |idx: usize| bitset_slice.get(idx).copied().unwrap_or_default();
         let whole_chunks = self.1 / 64;
         let last_chunk_len = self.1 % 64;
-        let fist_bool = bitset_slice[0] & 1 == 1;
+        let fist_bool = word(0) & 1 == 1;
         let mut stats = RoaringBoolStatsAccumulator::new(fist_bool);
-        for bits64 in bitset_slice[0..whole_chunks].iter() {
-            stats.next(*bits64);
+        for idx in 0..whole_chunks {
+            stats.next(word(idx));
         }
-        stats.next_up_to_length(bitset_slice[whole_chunks], last_chunk_len);
+        stats.next_up_to_length(word(whole_chunks), last_chunk_len);
         Ok(stats.finish(self.2))
     }
 }
-- 
2.43.0


From 80aae94df75cfbf61e964f4ec8fed43e5086bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 25/60] fix: iterators of sliced bool arrays

---
 vortex-array/src/array/bool/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/bool/mod.rs b/vortex-array/src/array/bool/mod.rs
index ea3c2c2..1965a43 100644
--- a/vortex-array/src/array/bool/mod.rs
+++ b/vortex-array/src/array/bool/mod.rs
@@ -97,11 +97,19 @@ impl ArrayVariants for BoolArray {
 
 impl BoolArrayTrait for BoolArray {
     fn maybe_null_indices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = usize> + 'a> {
-        Box::new(BitIndexIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitIndexIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 
     fn maybe_null_slices_iter<'a>(&'a self) -> Box<dyn Iterator<Item = (usize, usize)> + 'a> {
-        Box::new(BitSliceIterator::new(self.buffer(), 0, self.len()))
+        Box::new(BitSliceIterator::new(
+            self.buffer(),
+            self.metadata().first_byte_bit_offset as usize,
+            self.len(),
+        ))
     }
 }
 
-- 
2.43.0


From 8578867923f17c2b91c1b4443426e3d8f09926a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 26/60] fix: bool minimum in the presence of nulls

---
 vortex-array/src/array/bool/stats.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/bool/stats.rs b/vortex-array/src/array/bool/stats.rs
index 4c49264..7651fa3 100644
--- a/vortex-array/src/array/bool/stats.rs
+++ b/vortex-array/src/array/bool/stats.rs
@@ -119,7 +119,10 @@ impl BoolStatsAccumulator {
 
     pub fn finish(self) -> StatsSet {
         StatsSet::from(HashMap::from([
-            (Stat::Min, (self.true_count == self.len).into()),
+            (
+                Stat::Min,
+                (self.true_count + self.null_count == self.len).into(),
+            ),
             (Stat::Max, (self.true_count > 0).into()),
             (
                 Stat::IsConstant,
@@ -135,6 +138,7 @@ impl BoolStatsAccumulator {
             ),
             (Stat::RunCount, self.run_count.into()),
             (Stat::TrueCount, self.true_count.into()),
+            (Stat::NullCount, self.null_count.into()),
         ]))
     }
 }
-- 
2.43.0


From d6611e3c1edbc5ec6f791a7be305369edee350d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 27/60] fix: subtracting a scalar keeps the validity

---
 vortex-array/src/array/primitive/compute/subtract_scalar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/primitive/compute/subtract_scalar.rs b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
index 2524089..c5027a5 100644
--- a/vortex-array/src/array/primitive/compute/subtract_scalar.rs
+++ b/vortex-array/src/array/primitive/compute/subtract_scalar.rs
@@ -38,7 +38,7 @@ impl SubtractScalarFn for PrimitiveArray {
                 let sub_vec : Vec<$T> = self.maybe_null_slice::<$T>()
                 .iter()
                 .map(|&v| v - to_subtract).collect_vec();
-                PrimitiveArray::from(sub_vec)
+                PrimitiveArray::from_vec(sub_vec, self.validity())
             })
         };
         Ok(result.into_array())
@@ -63,12 +63,13 @@ fn subtract_scalar_integer<T: NativePType + WrappingSub>(
             .collect_vec();
         PrimitiveArray::from_vec(sub_vec, subtract_from.validity())
     } else {
-        PrimitiveArray::from(
+        PrimitiveArray::from_vec(
             subtract_from
                 .maybe_null_slice::<T>()
                 .iter()
                 .map(|&v| v - to_subtract)
                 .collect_vec(),
+            subtract_from.validity(),
         )
     };
     Ok(subtraction_result)
-- 
2.43.0


From 22852dc04d1c7047162f86d52cbdccb9083c3963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 28/60] fix: validity of sparse arrays

---
 vortex-array/src/array/sparse/flatten.rs | 62 ++++++++++++++++--------
 vortex-array/src/array/sparse/mod.rs     | 33 ++++---------
 2 files changed, 52 insertions(+), 43 deletions(-)

diff --git a/vortex-array/src/array/sparse/flatten.rs b/vortex-array/src/array/sparse/flatten.rs
index 17049c1..f4fb6f2 100644
--- a/vortex-array/src/array/sparse/flatten.rs
+++ b/vortex-array/src/array/sparse/flatten.rs
@@ -1,4 +1,4 @@
-use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder, MutableBuffer};
+use arrow_buffer::{BooleanBuffer, BooleanBufferBuilder};
 use itertools::Itertools;
 use vortex_dtype::{match_each_native_ptype, DType, NativePType};
 use vortex_error::{VortexError, VortexResult};
@@ -15,39 +15,68 @@ impl IntoCanonical for SparseArray {
         // Resolve our indices into a vector of usize applying the offset
         let indices = self.resolved_indices();
 
-        let validity_buffer =
-            BooleanBufferBuilder::new_from_buffer(MutableBuffer::new_null(self.len()), self.len());
-
         if matches!(self.dtype(), DType::Bool(_)) {
-            let values = self.values().into_bool()?.boolean_buffer();
+            let values = self.values().into_bool()?;
+            let validity = canonicalize_sparse_validity(
+                &values.validity(),
+                &indices,
+                self.len(),
+                self.fill_value(),
+            );
             canonicalize_sparse_bools(
-                values,
+                values.boolean_buffer(),
                 &indices,
                 self.len(),
                 self.fill_value(),
-                validity_buffer,
+                validity,
             )
         } else {
             let values = self.values().into_primitive()?;
+            let validity = canonicalize_sparse_validity(
+                &values.validity(),
+                &indices,
+                self.len(),
+                self.fill_value(),
+            );
             match_each_native_ptype!(values.ptype(), |$P| {
                 canonicalize_sparse_primitives(
                     values.maybe_null_slice::<$P>(),
                     &indices,
                     self.len(),
                     self.fill_value(),
-                    validity_buffer
+                    validity
                 )
             })
         }
     }
 }
 
+/// The validity of the array: that of the patch value where there is one, and of the fill value
+/// everywhere else.
+fn canonicalize_sparse_validity(
+    values_validity: &Validity,
+    indices: &[usize],
+    len: usize,
+    fill_value: &ScalarValue,
+) -> Validity {
+    if matches!(values_validity, Validity::NonNullable) {
+        return Validity::NonNullable;
+    }
+
+    let mut validity = BooleanBufferBuilder::new(len);
+    validity.append_n(len, !fill_value.is_null());
+    for (i, idx) in indices.iter().enumerate() {
+        validity.set_bit(*idx, values_validity.is_valid(i));
+    }
+    Validity::from(validity.finish())
+}
+
 fn canonicalize_sparse_bools(
     values: BooleanBuffer,
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity_buffer: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let fill_bool: bool = if fill_value.is_null() {
         bool::default()
@@ -57,10 +86,8 @@ fn canonicalize_sparse_bools(
     let mut flat_bools = vec![fill_bool; len];
     for (i, idx) in indices.iter().enumerate() {
         flat_bools[*idx] = values.value(i);
-        validity_buffer.set_bit(*idx, true);
     }
 
-    let validity = Validity::from(validity_buffer.finish());
     let bool_values = BoolArray::from_vec(flat_bools, validity);
 
     Ok(Canonical::Bool(bool_values))
@@ -73,7 +100,7 @@ fn canonicalize_sparse_primitives<
     indices: &[usize],
     len: usize,
     fill_value: &ScalarValue,
-    mut validity: BooleanBufferBuilder,
+    validity: Validity,
 ) -> VortexResult<Canonical> {
     let primitive_fill = if fill_value.is_null() {
         T::default()
@@ -84,16 +111,11 @@ fn canonicalize_sparse_primitives<
 
     for (v, idx) in values.iter().zip_eq(indices) {
         result[*idx] = *v;
-        validity.set_bit(*idx, true);
     }
 
-    let validity = validity.finish();
-    let array = if fill_value.is_null() {
-        PrimitiveArray::from_vec(result, Validity::from(validity))
-    } else {
-        PrimitiveArray::from(result)
-    };
-    Ok(Canonical::Primitive(array))
+    Ok(Canonical::Primitive(PrimitiveArray::from_vec(
+        result, validity,
+    )))
 }
 
 #[cfg(test)]
diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 33ca689..939bf34 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -5,7 +5,6 @@ use vortex_dtype::{match_each_integer_ptype, DType};
 use vortex_error::{vortex_bail, vortex_panic, VortexExpect as _, VortexResult};
 use vortex_scalar::{Scalar, ScalarValue};
 
-use crate::array::constant::ConstantArray;
 use crate::array::visitor::{AcceptArrayVisitor, ArrayVisitor};
 use crate::compute::unary::scalar_at;
 use crate::compute::{search_sorted, SearchResult, SearchSortedSide};
@@ -191,28 +190,16 @@ impl ArrayValidity for SparseArray {
     }
 
     fn logical_validity(&self) -> LogicalValidity {
-        let validity = if self.fill_value().is_null() {
-            // If we have a null fill value, then the result is a Sparse array with a fill_value
-            // of true, and patch values of false.
-            Self::try_new_with_offset(
-                self.indices(),
-                ConstantArray::new(true, self.indices().len()).into_array(),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
-        } else {
-            // If the fill_value is non-null, then the validity is based on the validity of the
-            // existing values.
-            Self::try_new_with_offset(
-                self.indices(),
-                self.values()
-                    .with_dyn(|a| a.logical_validity().into_array()),
-                self.len(),
-                self.indices_offset(),
-                false.into(),
-            )
-        }
+        // The patched positions take the validity of the patch values, every other position takes
+        // the validity of the fill value.
+        let validity = Self::try_new_with_offset(
+            self.indices(),
+            self.values()
+                .with_dyn(|a| a.logical_validity().into_array()),
+            self.len(),
+            self.indices_offset(),
+            (!self.fill_value().is_null()).into(),
+        )
         .vortex_expect("Error determining logical validity for sparse array");
         LogicalValidity::Array(validity.into_array())
     }
-- 
2.43.0


From 8f0e022d3bce3845296b088fdc96c52619c06c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 29/60] fix: search sorted in sparse arrays with a non-null
 fill value

---
 vortex-array/src/array/sparse/compute/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index c875c22..32fd18c 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -6,8 +6,8 @@ use crate::array::sparse::SparseArray;
 use crate::array::PrimitiveArray;
 use crate::compute::unary::{scalar_at, scalar_at_unchecked, ScalarAtFn};
 use crate::compute::{
-    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSortedFn, SearchSortedSide,
-    SliceFn, TakeFn,
+    search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
+    SearchSortedSide, SliceFn, TakeFn,
 };
 use crate::{Array, IntoArray, IntoArrayVariant};
 
@@ -54,6 +54,11 @@ impl ScalarAtFn for SparseArray {
 
 impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        // The patches alone only tell where the value belongs if every other element is null
+        if !self.fill_value().is_null() || self.metadata().indices_len == 0 {
+            return Ok(self.as_ref().search_sorted(value, side));
+        }
+
         search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
             let sidx = sr.to_offsets_index(self.metadata().indices_len);
             let index: usize = scalar_at(self.indices(), sidx)?.as_ref().try_into()?;
-- 
2.43.0


From 919036110a64f0bf549fe3b444fc505a2288a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 30/60] fix: iterators of sparse bool arrays

---
 vortex-array/src/array/sparse/variants.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/sparse/variants.rs b/vortex-array/src/array/sparse/variants.rs
index 68db18e..72775c4 100644
--- a/vortex-array/src/array/sparse/variants.rs
+++ b/vortex-array/src/array/sparse/variants.rs
@@ -1,3 +1,5 @@
+use arrow_buffer::BooleanBuffer;
+use itertools::Itertools;
 use vortex_dtype::field::Field;
 use vortex_dtype::DType;
 use vortex_error::{vortex_err, VortexExpect, VortexResult};
@@ -8,7 +10,7 @@ use crate::variants::{
     ArrayVariants, BinaryArrayTrait, BoolArrayTrait, ExtensionArrayTrait, ListArrayTrait,
     NullArrayTrait, PrimitiveArrayTrait, StructArrayTrait, Utf8ArrayTrait,
 };
-use crate::{Array, ArrayDType, IntoArray};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 /// Sparse arrays support all DTypes
 impl ArrayVariants for SparseArray {
@@ -49,14 +51,24 @@ impl NullArrayTrait for SparseArray {}
 
 impl BoolArrayTrait for SparseArray {
     fn maybe_null_indices_iter(&self) -> Box<dyn Iterator<Item = usize>> {
-        Box::new(self.resolved_indices().into_iter())
+        Box::new(set_values(self).set_indices().collect_vec().into_iter())
     }
 
     fn maybe_null_slices_iter(&self) -> Box<dyn Iterator<Item = (usize, usize)>> {
-        todo!()
+        Box::new(set_values(self).set_slices().collect_vec().into_iter())
     }
 }
 
+/// The set values depend on both the fill value and the values of the patches.
+fn set_values(array: &SparseArray) -> BooleanBuffer {
+    array
+        .clone()
+        .into_array()
+        .into_bool()
+        .vortex_expect("Failed to canonicalize boolean SparseArray")
+        .boolean_buffer()
+}
+
 impl PrimitiveArrayTrait for SparseArray {}
 
 impl Utf8ArrayTrait for SparseArray {}
-- 
2.43.0


From 10b71410ce9dd98dc79ed7bd640a993c9e68e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 31/60] fix: canonicalising binary varbin arrays

---
 vortex-array/src/array/varbin/flatten.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbin/flatten.rs b/vortex-array/src/array/varbin/flatten.rs
index ebd27da..15cb22f 100644
--- a/vortex-array/src/array/varbin/flatten.rs
+++ b/vortex-array/src/array/varbin/flatten.rs
@@ -1,4 +1,5 @@
 use arrow_schema::DataType;
+use vortex_dtype::DType;
 use vortex_error::VortexResult;
 
 use crate::array::varbin::arrow::varbin_to_arrow;
@@ -11,7 +12,11 @@ impl IntoCanonical for VarBinArray {
     fn into_canonical(self) -> VortexResult<Canonical> {
         let nullable = self.dtype().is_nullable();
         let array_ref = varbin_to_arrow(&self)?;
-        let casted = arrow_cast::cast(array_ref.as_ref(), &DataType::Utf8View)?;
+        let view_type = match self.dtype() {
+            DType::Binary(_) => DataType::BinaryView,
+            _ => DataType::Utf8View,
+        };
+        let casted = arrow_cast::cast(array_ref.as_ref(), &view_type)?;
 
         VarBinViewArray::try_from(Array::from_arrow(casted, nullable)).map(Canonical::VarBinView)
     }
-- 
2.43.0


From 5d5b74062be0326c2a3251ceeab2f4c699816108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 32/60] fix: nullability of varbinview arrays built from bytes

---
 vortex-array/src/array/varbinview/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/varbinview/mod.rs b/vortex-array/src/array/varbinview/mod.rs
index 54889e2..8eba2fa 100644
--- a/vortex-array/src/array/varbinview/mod.rs
+++ b/vortex-array/src/array/varbinview/mod.rs
@@ -423,7 +423,7 @@ impl VarBinViewArray {
         for b in iter {
             builder.append_value(b);
         }
-        let array = Array::from_arrow(&builder.finish(), true);
+        let array = Array::from_arrow(&builder.finish(), false);
         VarBinViewArray::try_from(array).vortex_expect("VarBinViewArray from StringViewBuilder")
     }
 
-- 
2.43.0


From 0dd2da845fb09851b6cdccea8a68d0f49abbfb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 33/60] fix: comparing empty arrays and null constants

---
 vortex-array/src/compute/compare.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vortex-array/src/compute/compare.rs b/vortex-array/src/compute/compare.rs
index c2736c3..5d68fde 100644
--- a/vortex-array/src/compute/compare.rs
+++ b/vortex-array/src/compute/compare.rs
@@ -6,9 +6,10 @@ use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 use vortex_scalar::Scalar;
 
-use crate::array::Constant;
+use crate::array::{BoolArray, Constant, ConstantArray};
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, ArrayDef, IntoCanonical};
+use crate::validity::Validity;
+use crate::{Array, ArrayDType, ArrayDef, IntoArray, IntoCanonical};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, PartialOrd)]
 pub enum Operator {
@@ -99,6 +100,18 @@ pub fn compare(
         return compare(right, left, operator.swap());
     }
 
+    if left.is_empty() {
+        return Ok(BoolArray::from_vec(vec![], Validity::AllValid).into_array());
+    }
+
+    // Comparing anything with null is null
+    if let Ok(constant) = ConstantArray::try_from(right) {
+        if constant.scalar_value().is_null() {
+            let null = Scalar::null(DType::Bool(Nullability::Nullable));
+            return Ok(ConstantArray::new(null, left.len()).into_array());
+        }
+    }
+
     if let Some(selection) = left.with_dyn(|lhs| lhs.compare(right, operator)) {
         return selection;
     }
-- 
2.43.0


From b3d72b8b4ec348adaff648a6bf215575f818dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 34/60] fix: filter predicates of any boolean encoding

---
 vortex-array/src/compute/filter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/compute/filter.rs b/vortex-array/src/compute/filter.rs
index a322fb1..3cfb370 100644
--- a/vortex-array/src/compute/filter.rs
+++ b/vortex-array/src/compute/filter.rs
@@ -2,8 +2,9 @@ use arrow_array::cast::AsArray;
 use vortex_dtype::{DType, Nullability};
 use vortex_error::{vortex_bail, VortexResult};
 
+use crate::array::{Bool, Constant};
 use crate::arrow::FromArrowArray;
-use crate::{Array, ArrayDType, IntoCanonical};
+use crate::{Array, ArrayDType, ArrayDef, IntoArrayVariant, IntoCanonical};
 
 pub trait FilterFn {
     /// Filter an array by the provided predicate.
@@ -38,6 +39,11 @@ pub fn filter(array: impl AsRef<Array>, predicate: impl AsRef<Array>) -> VortexR
         );
     }
 
+    // Not every boolean encoding can iterate over its set values, but these can.
+    if !predicate.is_encoding(Bool::ID) && !predicate.is_encoding(Constant::ID) {
+        return filter(array, predicate.clone().into_bool()?);
+    }
+
     array.with_dyn(|a| {
         if let Some(filter_fn) = a.filter() {
             filter_fn.filter(predicate)
-- 
2.43.0


From ef5d25834e7967893e59b338a21e80c4aaf9d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 35/60] fix: a batch emptied by the row filter keeps the filter
 in step

---
 vortex-serde/src/layouts/read/stream.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vortex-serde/src/layouts/read/stream.rs b/vortex-serde/src/layouts/read/stream.rs
index bcbe449..70f1cac 100644
--- a/vortex-serde/src/layouts/read/stream.rs
+++ b/vortex-serde/src/layouts/read/stream.rs
@@ -140,20 +140,22 @@ impl<R: VortexReadAt + Unpin + Send + 'static> Stream for LayoutBatchStream<R> {
                 StreamingState::Decoding(arr) => {
                     let mut batch = arr.clone();
 
+                    // Every batch needs its own mask, including one that follows a batch the filter emptied
+                    let goto_state = if self.filter_reader.is_some() {
+                        StreamingState::FilterInit
+                    } else {
+                        StreamingState::Init
+                    };
+
                     if let Some(mask) = self.cached_mask.take() {
-                        if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
-                            self.state = StreamingState::Init;
+                        if mask.statistics().compute_true_count() == Some(0) {
+                            self.state = goto_state;
                             continue;
                         }
 
                         batch = filter(batch, mask)?;
                     }
 
-                    let goto_state = if self.filter_reader.is_some() {
-                        StreamingState::FilterInit
-                    } else {
-                        StreamingState::Init
-                    };
                     self.state = goto_state;
                     return Poll::Ready(Some(Ok(batch)));
                 }
-- 
2.43.0


From cba1b959152ae63657cc63ec1554355364820a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 36/60] fix: row filter drops rows when the true count is
 unknown

---
 vortex-serde/src/layouts/read/filtering.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-serde/src/layouts/read/filtering.rs b/vortex-serde/src/layouts/read/filtering.rs
index 9f9d7d3..796c7e7 100644
--- a/vortex-serde/src/layouts/read/filtering.rs
+++ b/vortex-serde/src/layouts/read/filtering.rs
@@ -31,7 +31,7 @@ impl RowFilter {
             .vortex_expect("must have at least one predicate")
             .evaluate(target)?;
         for expr in filter_iter {
-            if mask.statistics().compute_true_count().unwrap_or_default() == 0 {
+            if mask.statistics().compute_true_count() == Some(0) {
                 return Ok(ConstantArray::new(false, target.len()).into_array());
             }
 
-- 
2.43.0


From 390a0a0003647dcd9461ccad9256e225189c91c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 37/60] fix: footers larger than the initial read, files
 shorter than a footer

---
 vortex-serde/src/layouts/read/footer.rs | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/footer.rs b/vortex-serde/src/layouts/read/footer.rs
index 6fc1341..a5e0483 100644
--- a/vortex-serde/src/layouts/read/footer.rs
+++ b/vortex-serde/src/layouts/read/footer.rs
@@ -142,11 +142,11 @@ impl LayoutDescriptorReader {
         read: &R,
         file_size: u64,
     ) -> VortexResult<LayoutDescriptor> {
-        if file_size < EOF_SIZE as u64 {
+        if file_size < (FOOTER_POSTSCRIPT_SIZE + EOF_SIZE) as u64 {
             vortex_bail!(
                 "Malformed vortex file, size {} must be at least {}",
                 file_size,
-                EOF_SIZE,
+                FOOTER_POSTSCRIPT_SIZE + EOF_SIZE,
             )
         }
 
@@ -154,7 +154,7 @@ impl LayoutDescriptorReader {
         let mut buf = BytesMut::with_capacity(read_size);
         unsafe { buf.set_len(read_size) }
 
-        let read_offset = file_size - read_size as u64;
+        let mut read_offset = file_size - read_size as u64;
         buf = read.read_at_into(read_offset, buf).await?;
 
         let eof_loc = read_size - EOF_SIZE;
@@ -177,9 +177,25 @@ impl LayoutDescriptorReader {
 
         let ps = root::<footer::Postscript>(&buf[eof_loc - FOOTER_POSTSCRIPT_SIZE..eof_loc])?;
 
+        let (schema_offset, footer_offset) = (ps.schema_offset(), ps.footer_offset());
+        if schema_offset > footer_offset
+            || footer_offset > file_size - (FOOTER_POSTSCRIPT_SIZE + EOF_SIZE) as u64
+        {
+            vortex_bail!("Malformed file, invalid schema offset {schema_offset} and footer offset {footer_offset}")
+        }
+
+        // The schema and the footer didn't fit into the initial read
+        if schema_offset < read_offset {
+            read_offset = schema_offset;
+            let read_size = (file_size - read_offset) as usize;
+            buf = BytesMut::with_capacity(read_size);
+            unsafe { buf.set_len(read_size) }
+            buf = read.read_at_into(read_offset, buf).await?;
+        }
+
         Ok(LayoutDescriptor {
-            schema_offset: ps.schema_offset(),
-            footer_offset: ps.footer_offset(),
+            schema_offset,
+            footer_offset,
             initial_read: buf.freeze(),
             initial_read_offset: read_offset,
             layout_serde: self.layout_serde.clone(),
-- 
2.43.0


From 6e0e19011fdad4f9978f4507a225e3a92efc2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 38/60] fix: writing a stream without arrays describes its
 columns

---
 vortex-serde/src/layouts/write/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vortex-serde/src/layouts/write/writer.rs b/vortex-serde/src/layouts/write/writer.rs
index 9b44245..1207134 100644
--- a/vortex-serde/src/layouts/write/writer.rs
+++ b/vortex-serde/src/layouts/write/writer.rs
@@ -118,6 +118,11 @@ impl<W: VortexWrite> LayoutWriter<W> {
     }
 
     async fn write_metadata_arrays(&mut self) -> VortexResult<Layout> {
+        // A stream without any arrays still has to describe all of its columns
+        if let (true, Some(DType::Struct(st, _))) = (self.column_chunks.is_empty(), &self.dtype) {
+            self.column_chunks = vec![BatchOffsets::new(vec![0], vec![]); st.dtypes().len()];
+        }
+
         let mut column_layouts = Vec::with_capacity(self.column_chunks.len());
         for mut chunk in mem::take(&mut self.column_chunks) {
             let mut chunks: VecDeque<Layout> = chunk
-- 
2.43.0


From 08d0573c6d131fe2e567e7d96f8c38b1e3b9dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 39/60] fix: roaring int statistics are those of the array's
 own type

---
 encodings/roaring/src/integer/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/encodings/roaring/src/integer/mod.rs b/encodings/roaring/src/integer/mod.rs
index f504c24..570aa04 100644
--- a/encodings/roaring/src/integer/mod.rs
+++ b/encodings/roaring/src/integer/mod.rs
@@ -135,8 +135,7 @@ impl ArrayStatisticsCompute for RoaringIntArray {
     fn compute_statistics(&self, stat: Stat) -> VortexResult<StatsSet> {
         // possibly faster to write an accumulator over the iterator, though not necessarily
         if stat == Stat::TrailingZeroFreq || stat == Stat::BitWidthFreq || stat == Stat::RunCount {
-            let primitive =
-                PrimitiveArray::from_vec(self.owned_bitmap().to_vec(), Validity::NonNullable);
+            let primitive = self.clone().into_canonical()?.into_primitive()?;
             primitive.statistics().compute(stat);
             Ok(primitive.statistics().to_set())
         } else {
-- 
2.43.0


From 91dc89345b0f5ebbb4ac90263a61e5060cd9bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 40/60] fix: an array of both zeros is not constant

---
 vortex-array/src/array/primitive/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/primitive/stats.rs b/vortex-array/src/array/primitive/stats.rs
index ac7aadf..d5eae99 100644
--- a/vortex-array/src/array/primitive/stats.rs
+++ b/vortex-array/src/array/primitive/stats.rs
@@ -207,7 +207,7 @@ impl<T: PStatsType> StatsAccumulator<T> {
     }
 
     pub fn finish(self) -> StatsSet {
-        let is_constant = (self.min == self.max && self.null_count == 0 && self.nan_count == 0)
+        let is_constant = (self.min.is_eq(self.max) && self.null_count == 0 && self.nan_count == 0)
             || self.null_count == self.len;
 
         StatsSet::from(HashMap::from([
-- 
2.43.0


From f9855006737f27fd99611797db8d2b8ab783f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 41/60] fix: the statistics lock isn't held while computing
 them

---
 vortex-array/src/data.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/data.rs b/vortex-array/src/data.rs
index 9deb597..c659fed 100644
--- a/vortex-array/src/data.rs
+++ b/vortex-array/src/data.rs
@@ -176,16 +176,17 @@ impl Statistics for ArrayData {
             return Some(s);
         }
 
+        // The lock must not be held while computing, computing may look at our other statistics
+        let computed = self
+            .to_array()
+            .with_dyn(|a| a.compute_statistics(stat))
+            .ok()?;
         self.stats_map
             .write()
             .unwrap_or_else(|_| {
                 vortex_panic!("Failed to write to stats map while computing {}", stat)
             })
-            .extend(
-                self.to_array()
-                    .with_dyn(|a| a.compute_statistics(stat))
-                    .ok()?,
-            );
+            .extend(computed);
         self.get(stat)
     }
 }
-- 
2.43.0


From c7f1039d804a63c83ca86f2e78100c57e98d7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 42/60] fix: merging the statistics of all-null and constant
 arrays

---
 vortex-array/src/stats/statsset.rs | 49 ++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/vortex-array/src/stats/statsset.rs b/vortex-array/src/stats/statsset.rs
index 71bf16e..66c33d8 100644
--- a/vortex-array/src/stats/statsset.rs
+++ b/vortex-array/src/stats/statsset.rs
@@ -46,15 +46,14 @@ impl StatsSet {
                 stats.insert(Stat::TrueCount, 0.into());
             }
             DType::Primitive(ptype, _) => {
-                ptype.byte_width();
-                stats.insert(
-                    Stat::BitWidthFreq,
-                    vec![0_u64; ptype.byte_width() * 8 + 1].into(),
-                );
-                stats.insert(
-                    Stat::TrailingZeroFreq,
-                    vec![ptype.byte_width() * 8; ptype.byte_width() * 8 + 1].into(),
-                );
+                // Nulls have no bits set, all of their bits are trailing zeros
+                let bit_width = ptype.bit_width();
+                let mut bit_width_freq = vec![0_u64; bit_width + 1];
+                bit_width_freq[0] = len as u64;
+                let mut trailing_zero_freq = vec![0_u64; bit_width + 1];
+                trailing_zero_freq[bit_width] = len as u64;
+                stats.insert(Stat::BitWidthFreq, bit_width_freq.into());
+                stats.insert(Stat::TrailingZeroFreq, trailing_zero_freq.into());
             }
             _ => {}
         }
@@ -114,6 +113,12 @@ impl StatsSet {
         self.merge_ordered(Stat::Max, other, |other, own| other > own);
     }
 
+    /// The extreme of an array consisting entirely of nulls is null, it doesn't order the values of
+    /// the other array.
+    fn is_null(&self, stat: Stat) -> bool {
+        self.get(stat).is_some_and(|s| s.is_null())
+    }
+
     /// Merges stats if both are present, if either stat is not present, drops the stat from the
     /// result set. For example, if we know the minimums of two arrays, the minimum of their union
     /// is the minimum-of-minimums, but if we only know the minimum of one of the two arrays, we
@@ -121,7 +126,7 @@ impl StatsSet {
     fn merge_ordered<F: Fn(&Scalar, &Scalar) -> bool>(&mut self, stat: Stat, other: &Self, cmp: F) {
         if let Entry::Occupied(mut e) = self.values.entry(stat) {
             if let Some(ov) = other.get(stat) {
-                if cmp(ov, e.get()) {
+                if e.get().is_null() || (ov.is_valid() && cmp(ov, e.get())) {
                     e.insert(ov.clone());
                 }
             } else {
@@ -131,13 +136,23 @@ impl StatsSet {
     }
 
     fn merge_is_constant(&mut self, other: &Self) {
-        if let Some(is_constant) = self.get_as(Stat::IsConstant) {
-            if let Some(other_is_constant) = other.get_as(Stat::IsConstant) {
-                if is_constant && other_is_constant && self.get(Stat::Min) == other.get(Stat::Min) {
-                    return;
+        if let Some(is_constant) = self.get_as::<bool>(Stat::IsConstant) {
+            let other_is_constant = other.get_as::<bool>(Stat::IsConstant);
+            if !is_constant || other_is_constant == Some(false) {
+                self.values.insert(Stat::IsConstant, false.into());
+                return;
+            }
+
+            match (self.get(Stat::Min), other.get(Stat::Min)) {
+                (Some(own), Some(ov)) if other_is_constant.is_some() => {
+                    let same = own.value() == ov.value();
+                    self.values.insert(Stat::IsConstant, same.into());
+                }
+                // Two constants that we know nothing about may or may not be the same
+                _ => {
+                    self.values.remove(&Stat::IsConstant);
                 }
             }
-            self.values.insert(Stat::IsConstant, false.into());
         }
     }
 
@@ -161,7 +176,9 @@ impl StatsSet {
                     self.values.remove(&stat);
                 } else if is_sorted
                     && other_is_sorted
-                    && cmp(self.get(Stat::Max), other.get(Stat::Min))
+                    && (self.is_null(Stat::Max)
+                        || other.is_null(Stat::Min)
+                        || cmp(self.get(Stat::Max), other.get(Stat::Min)))
                 {
                     return;
                 } else {
-- 
2.43.0


From 251bcbfbd6fdb249e0531ccf6323cd31c33b2172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 43/60] fix: rows with a null predicate aren't selected

---
 vortex-datafusion/src/plans.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vortex-datafusion/src/plans.rs b/vortex-datafusion/src/plans.rs
index 92097dd..5fd35c4 100644
--- a/vortex-datafusion/src/plans.rs
+++ b/vortex-datafusion/src/plans.rs
@@ -169,12 +169,14 @@ impl Stream for RowIndicesStream {
             .into_canonical()?
             .into_arrow()?;
 
-        // Convert the `selection` BooleanArray into a UInt64Array of indices.
-        let selection_indices = selection
-            .as_boolean()
-            .values()
-            .set_indices()
-            .map(|idx| idx as u64);
+        // Convert the `selection` BooleanArray into a UInt64Array of indices. A row for which the
+        // predicate is null isn't selected.
+        let selection = selection.as_boolean();
+        let selected = match arrow_array::Array::nulls(selection) {
+            None => selection.values().clone(),
+            Some(nulls) => selection.values() & nulls.inner(),
+        };
+        let selection_indices = selected.set_indices().map(|idx| idx as u64);
 
         let indices = Arc::new(UInt64Array::from_iter_values(selection_indices)) as ArrayRef;
         let indices_batch = RecordBatch::try_new(ROW_SELECTOR_SCHEMA_REF.clone(), vec![indices])?;
-- 
2.43.0


From 7c1b63fe3cbab71b28428b5a48bfdac87b1c2799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 44/60] fix: compressing a sliced sparse array

---
 vortex-array/src/array/sparse/mod.rs                 | 2 +-
 vortex-sampling-compressor/src/compressors/sparse.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/vortex-array/src/array/sparse/mod.rs b/vortex-array/src/array/sparse/mod.rs
index 939bf34..23501d6 100644
--- a/vortex-array/src/array/sparse/mod.rs
+++ b/vortex-array/src/array/sparse/mod.rs
@@ -43,7 +43,7 @@ impl SparseArray {
         Self::try_new_with_offset(indices, values, len, 0, fill_value)
     }
 
-    pub(crate) fn try_new_with_offset(
+    pub fn try_new_with_offset(
         indices: Array,
         values: Array,
         len: usize,
diff --git a/vortex-sampling-compressor/src/compressors/sparse.rs b/vortex-sampling-compressor/src/compressors/sparse.rs
index be84c2d..c327db9 100644
--- a/vortex-sampling-compressor/src/compressors/sparse.rs
+++ b/vortex-sampling-compressor/src/compressors/sparse.rs
@@ -37,13 +37,14 @@ impl EncodingCompressor for SparseCompressor {
         )?;
         let values = ctx.named("values").compress(
             &sparse_array.values(),
-            like.as_ref().and_then(|l| l.child(0)),
+            like.as_ref().and_then(|l| l.child(1)),
         )?;
         Ok(CompressedArray::new(
-            SparseArray::try_new(
+            SparseArray::try_new_with_offset(
                 indices.array,
                 values.array,
                 sparse_array.len(),
+                sparse_array.indices_offset(),
                 sparse_array.fill_value().clone(),
             )?
             .into_array(),
-- 
2.43.0


From 010c9a03bcacb2dd3084fc071fafcf4eb9a733bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 45/60] fix: intersecting validities of any boolean encoding

---
 vortex-array/src/validity.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vortex-array/src/validity.rs b/vortex-array/src/validity.rs
index 5389a5d..47416a6 100644
--- a/vortex-array/src/validity.rs
+++ b/vortex-array/src/validity.rs
@@ -198,11 +198,8 @@ impl Validity {
             | (Validity::AllValid, Validity::AllValid) => Validity::AllValid,
             // Here we actually have to do some work
             (Validity::Array(lhs), Validity::Array(rhs)) => {
-                let lhs = BoolArray::try_from(lhs)?;
-                let rhs = BoolArray::try_from(rhs)?;
-
-                let lhs = lhs.boolean_buffer();
-                let rhs = rhs.boolean_buffer();
+                let lhs = lhs.clone().into_bool()?.boolean_buffer();
+                let rhs = rhs.clone().into_bool()?.boolean_buffer();
 
                 Validity::from(lhs.bitand(&rhs))
             }
-- 
2.43.0


From 9e8e70c45957f250528f3515914932f95bed606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:06 +0000
Subject: [PATCH 46/60] fix: searching bit-packed arrays for many values
 considers patches; FoR search above the last representable value

---
 .../src/bitpacking/compute/search_sorted.rs   | 51 ++++++++++++-------
 encodings/fastlanes/src/for/compute.rs        |  9 ++--
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
index a1091b3..addf66d 100644
--- a/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
+++ b/encodings/fastlanes/src/bitpacking/compute/search_sorted.rs
@@ -31,8 +31,10 @@ impl SearchSortedFn for BitPackedArray {
                 search_sorted_native(self, pvalue, side)
             } else {
                 // provided u64 is too large to fit in the provided PType, value must be off
-                // the right end of the array.
-                Ok(SearchResult::NotFound(self.len()))
+                // the right end of the array, where only nulls follow.
+                Ok(SearchResult::NotFound(
+                    first_null_idx(self),
+                ))
             }
         })
     }
@@ -52,7 +54,7 @@ impl SearchSortedFn for BitPackedArray {
                     // Unwrap to native value
                     let unwrapped_value: $P = value.cast(self.dtype())?.try_into()?;
 
-                    Ok(searcher.search_sorted(&unwrapped_value, side))
+                    search_sorted_with(self, &searcher, unwrapped_value, side)
                 })
                 .try_collect()
         })
@@ -71,9 +73,11 @@ impl SearchSortedFn for BitPackedArray {
                 .copied()
                 .zip(sides.iter().copied())
                 .map(|(value, side)| {
-                    // NOTE: truncating cast
-                    let cast_value: $P = value as $P;
-                    Ok(searcher.search_sorted(&cast_value, side))
+                    match num_traits::cast::<u64, $P>(value) {
+                        Some(pvalue) => search_sorted_with(self, &searcher, pvalue, side),
+                        // too large for the PType, as in search_sorted_u64
+                        None => self.search_sorted_u64(value, side),
+                    }
                 })
                 .try_collect()
         })
@@ -102,6 +106,18 @@ fn search_sorted_native<T>(
     value: T,
     side: SearchSortedSide,
 ) -> VortexResult<SearchResult>
+where
+    T: NativePType + BitPacking + AsPrimitive<usize> + AsPrimitive<u64>,
+{
+    search_sorted_with(array, &BitPackedSearch::<'_, T>::new(array), value, side)
+}
+
+fn search_sorted_with<T>(
+    array: &BitPackedArray,
+    searcher: &BitPackedSearch<'_, T>,
+    value: T,
+    side: SearchSortedSide,
+) -> VortexResult<SearchResult>
 where
     T: NativePType + BitPacking + AsPrimitive<usize> + AsPrimitive<u64>,
 {
@@ -112,10 +128,19 @@ where
         if usize_value > array.max_packed_value() {
             search_sorted_u64(&patches_array, value.as_(), side)
         } else {
-            Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
+            Ok(searcher.search_sorted(&value, side))
         }
     } else {
-        Ok(BitPackedSearch::<'_, T>::new(array).search_sorted(&value, side))
+        Ok(searcher.search_sorted(&value, side))
+    }
+}
+
+/// In sorted order, nulls come after all the non-null values.
+fn first_null_idx(array: &BitPackedArray) -> usize {
+    match array.validity() {
+        Validity::NonNullable | Validity::AllValid => array.len(),
+        Validity::AllInvalid => 0,
+        Validity::Array(varray) => varray.with_dyn(|a| a.as_bool_array_unchecked().true_count()),
     }
 }
 
@@ -141,16 +166,8 @@ impl<'a, T: BitPacking + NativePType> BitPackedSearch<'a, T> {
                     .min_index()
             })
             .unwrap_or_else(|| array.len());
-        let first_null_idx = match array.validity() {
-            Validity::NonNullable | Validity::AllValid => array.len(),
-            Validity::AllInvalid => 0,
-            Validity::Array(varray) => {
-                // In sorted order, nulls come after all the non-null values.
-                varray.with_dyn(|a| a.as_bool_array_unchecked().true_count())
-            }
-        };
 
-        let first_invalid_idx = cmp::min(min_patch_offset, first_null_idx);
+        let first_invalid_idx = cmp::min(min_patch_offset, first_null_idx(array));
 
         Self {
             packed_maybe_null_slice: array.packed_slice::<T>(),
diff --git a/encodings/fastlanes/src/for/compute.rs b/encodings/fastlanes/src/for/compute.rs
index 62411b8..a11719e 100644
--- a/encodings/fastlanes/src/for/compute.rs
+++ b/encodings/fastlanes/src/for/compute.rs
@@ -138,16 +138,13 @@ where
     // We first determine whether the value can be represented in the compressed array. For any value that is not
     // representable, it is by definition NotFound. For NotFound values, the correct insertion index is by definition
     // the same regardless of which side we search on.
-    // However, to correctly handle repeated values in the array, we need to search left on the next *representable*
-    // value (i.e., increment the translated value by 1).
+    // However, to correctly handle repeated values in the array, we need to search right of the previous *representable*
+    // value (the next one may not exist: incrementing the translated value can overflow).
     let representable = decoded_value == primitive_value;
     let (side, target) = if representable {
         (side, encoded_value)
     } else {
-        (
-            SearchSortedSide::Left,
-            encoded_value.wrapping_add(&T::one()),
-        )
+        (SearchSortedSide::Right, encoded_value)
     };
 
     let target_scalar = Scalar::primitive(target, value.dtype().nullability())
-- 
2.43.0


From 8b3b845ad0d85dd8a9c2bae5fe6d7007cc7bb9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:06 +0000
Subject: [PATCH 47/60] fix: searching for u64 values in arrays of other types,
 with nulls, and in empty constant arrays

---
 vortex-array/src/array/constant/compute.rs        |  6 +++++-
 .../src/array/primitive/compute/search_sorted.rs  | 15 +++++++++++++--
 vortex-array/src/array/sparse/compute/mod.rs      |  6 ++++--
 vortex-array/src/compute/search_sorted.rs         |  2 +-
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/vortex-array/src/array/constant/compute.rs b/vortex-array/src/array/constant/compute.rs
index 2785363..c03dabd 100644
--- a/vortex-array/src/array/constant/compute.rs
+++ b/vortex-array/src/array/constant/compute.rs
@@ -88,9 +88,13 @@ impl FilterFn for ConstantArray {
 
 impl SearchSortedFn for ConstantArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
+        if self.is_empty() {
+            return Ok(SearchResult::NotFound(0));
+        }
+
         match self
             .scalar_value()
-            .partial_cmp(value.value())
+            .partial_cmp(value.cast(self.dtype())?.value())
             .unwrap_or(Ordering::Less)
         {
             Ordering::Greater => Ok(SearchResult::NotFound(0)),
diff --git a/vortex-array/src/array/primitive/compute/search_sorted.rs b/vortex-array/src/array/primitive/compute/search_sorted.rs
index 5bd2ed1..06e3787 100644
--- a/vortex-array/src/array/primitive/compute/search_sorted.rs
+++ b/vortex-array/src/array/primitive/compute/search_sorted.rs
@@ -44,13 +44,24 @@ impl SearchSortedFn for PrimitiveArray {
                 }
             } else {
                 // provided u64 is too large to fit in the provided PType, value must be off
-                // the right end of the array.
-                Ok(SearchResult::NotFound(self.len()))
+                // the right end of the array, where only nulls follow.
+                Ok(SearchResult::NotFound(
+                    first_null_idx(&self.validity(), self.len()),
+                ))
             }
         })
     }
 }
 
+/// In sorted order, nulls come after all the non-null values.
+fn first_null_idx(validity: &Validity, len: usize) -> usize {
+    match validity {
+        Validity::NonNullable | Validity::AllValid => len,
+        Validity::AllInvalid => 0,
+        Validity::Array(varray) => varray.with_dyn(|a| a.as_bool_array_unchecked().true_count()),
+    }
+}
+
 struct SearchSortedPrimitive<'a, T> {
     values: &'a [T],
 }
diff --git a/vortex-array/src/array/sparse/compute/mod.rs b/vortex-array/src/array/sparse/compute/mod.rs
index 32fd18c..8b0fc27 100644
--- a/vortex-array/src/array/sparse/compute/mod.rs
+++ b/vortex-array/src/array/sparse/compute/mod.rs
@@ -9,7 +9,7 @@ use crate::compute::{
     search_sorted, take, ArrayCompute, FilterFn, SearchResult, SearchSorted, SearchSortedFn,
     SearchSortedSide, SliceFn, TakeFn,
 };
-use crate::{Array, IntoArray, IntoArrayVariant};
+use crate::{Array, ArrayDType, IntoArray, IntoArrayVariant};
 
 mod slice;
 mod take;
@@ -56,7 +56,9 @@ impl SearchSortedFn for SparseArray {
     fn search_sorted(&self, value: &Scalar, side: SearchSortedSide) -> VortexResult<SearchResult> {
         // The patches alone only tell where the value belongs if every other element is null
         if !self.fill_value().is_null() || self.metadata().indices_len == 0 {
-            return Ok(self.as_ref().search_sorted(value, side));
+            return Ok(self
+                .as_ref()
+                .search_sorted(&value.cast(self.dtype())?, side));
         }
 
         search_sorted(&self.values(), value.clone(), side).and_then(|sr| {
diff --git a/vortex-array/src/compute/search_sorted.rs b/vortex-array/src/compute/search_sorted.rs
index e9082c9..e0a1657 100644
--- a/vortex-array/src/compute/search_sorted.rs
+++ b/vortex-array/src/compute/search_sorted.rs
@@ -167,7 +167,7 @@ pub fn search_sorted_u64(
         if let Some(search_sorted) = a.search_sorted() {
             search_sorted.search_sorted_u64(target, side)
         } else if a.scalar_at().is_some() {
-            let scalar = Scalar::primitive(target, array.dtype().nullability());
+            let scalar = Scalar::from(target).cast(array.dtype())?;
             Ok(array.search_sorted(&scalar, side))
         } else {
             vortex_bail!(
-- 
2.43.0


From 4ba881456541d88f10b839464c8c2e26c65f3910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:02 +0000
Subject: [PATCH 48/60] fix: an empty IPC stream is finished from the start

A message reader over a stream that ends (or carries the end marker) before
any message kept claiming to hold one, and peeking at it read an empty buffer
as a flatbuffer and panicked.
---
 vortex-serde/src/message_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vortex-serde/src/message_reader.rs b/vortex-serde/src/message_reader.rs
index f3737ad..5c77a0a 100644
--- a/vortex-serde/src/message_reader.rs
+++ b/vortex-serde/src/message_reader.rs
@@ -30,7 +30,9 @@ impl<R: VortexRead> MessageReader<R> {
             prev_message: BytesMut::new(),
             finished: false,
         };
-        reader.load_next_message().await?;
+        if !reader.load_next_message().await? {
+            reader.finished = true;
+        }
         Ok(reader)
     }
 
-- 
2.43.0


From 47e3ed9cc7508b3355e84aaa094ecf06f47a98bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:34 +0000
Subject: [PATCH 49/60] fix: chunks beyond the 65536th are read from their own
 messages

---
 vortex-serde/src/layouts/read/layouts/chunked.rs      | 2 +-
 vortex-serde/src/layouts/read/layouts/column.rs       | 6 ++----
 vortex-serde/src/layouts/read/layouts/inline_dtype.rs | 2 +-
 vortex-serde/src/layouts/read/mod.rs                  | 2 +-
 4 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/vortex-serde/src/layouts/read/layouts/chunked.rs b/vortex-serde/src/layouts/read/layouts/chunked.rs
index 47ecc3e..ac470a6 100644
--- a/vortex-serde/src/layouts/read/layouts/chunked.rs
+++ b/vortex-serde/src/layouts/read/layouts/chunked.rs
@@ -102,7 +102,7 @@ impl LayoutReader for ChunkedLayout {
                         c._tab.loc(),
                         self.scan.clone(),
                         self.message_cache
-                            .relative(i as u16, self.message_cache.dtype().clone()),
+                            .relative(i, self.message_cache.dtype().clone()),
                     )
                 })
                 .collect::<VortexResult<VecDeque<_>>>()?;
diff --git a/vortex-serde/src/layouts/read/layouts/column.rs b/vortex-serde/src/layouts/read/layouts/column.rs
index 2a0f39f..2d45073 100644
--- a/vortex-serde/src/layouts/read/layouts/column.rs
+++ b/vortex-serde/src/layouts/read/layouts/column.rs
@@ -94,10 +94,8 @@ impl ColumnLayout {
             self.fb_bytes.clone(),
             layout._tab.loc(),
             child_scan,
-            self.message_cache.relative(
-                idx as u16,
-                Arc::new(LazyDeserializedDType::from_dtype(dtype)),
-            ),
+            self.message_cache
+                .relative(idx, Arc::new(LazyDeserializedDType::from_dtype(dtype))),
         )
     }
 
diff --git a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
index ee969b6..1dafdc3 100644
--- a/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
+++ b/vortex-serde/src/layouts/read/layouts/inline_dtype.rs
@@ -128,7 +128,7 @@ impl LayoutReader for InlineDTypeLayout {
                             layout._tab.loc(),
                             self.scan.clone(),
                             self.message_cache
-                                .relative(1u16, Arc::new(LazyDeserializedDType::from_dtype(d))),
+                                .relative(1, Arc::new(LazyDeserializedDType::from_dtype(d))),
                         )?,
                     );
                     self.read_next()
diff --git a/vortex-serde/src/layouts/read/mod.rs b/vortex-serde/src/layouts/read/mod.rs
index 9d93505..dcddac2 100644
--- a/vortex-serde/src/layouts/read/mod.rs
+++ b/vortex-serde/src/layouts/read/mod.rs
@@ -43,7 +43,7 @@ pub struct Scan {
 }
 
 /// Unique identifier for a message within a layout
-pub type LayoutPartId = u16;
+pub type LayoutPartId = usize;
 pub type MessageId = Vec<LayoutPartId>;
 pub type Message = (MessageId, ByteRange);
 
-- 
2.43.0


From 0cbe43d32999387dadd592c5e4bdc75a342a3ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 50/60] fix: comparing identity expressions doesn't recurse
 forever

---
 vortex-expr/src/identity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-expr/src/identity.rs b/vortex-expr/src/identity.rs
index 8a28483..c7ae37c 100644
--- a/vortex-expr/src/identity.rs
+++ b/vortex-expr/src/identity.rs
@@ -22,7 +22,7 @@ impl PartialEq<dyn Any> for Identity {
     fn eq(&self, other: &dyn Any) -> bool {
         unbox_any(other)
             .downcast_ref::<Self>()
-            .map(|x| x == other)
+            .map(|x| x == self)
             .unwrap_or(false)
     }
 }
-- 
2.43.0


From 4d6e2acf05b45b175f93dd443fcbf375b337ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:36 +0000
Subject: [PATCH 51/60] fix: row filters that reference columns by position, or
 none

---
 vortex-serde/src/layouts/read/builder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vortex-serde/src/layouts/read/builder.rs b/vortex-serde/src/layouts/read/builder.rs
index e82030e..5eb2fde 100644
--- a/vortex-serde/src/layouts/read/builder.rs
+++ b/vortex-serde/src/layouts/read/builder.rs
@@ -1,6 +1,7 @@
 use std::sync::{Arc, RwLock};
 
 use vortex::{Array, ArrayDType};
+use vortex_dtype::field::Field;
 use vortex_error::VortexResult;
 use vortex_schema::projection::Projection;
 
@@ -77,11 +78,15 @@ impl<R: VortexReadAt> LayoutReaderBuilder<R> {
         ));
         let read_projection = self.projection.unwrap_or_default();
 
-        let filter_projection = self
-            .row_filter
-            .as_ref()
-            .map(|f| f.references().into_iter().cloned().collect::<Vec<_>>())
-            .map(Projection::from);
+        let filter_projection = self.row_filter.as_ref().map(|f| {
+            let references = f.references();
+            // Columns referenced by their position have to keep it, and no columns have no rows
+            if references.is_empty() || references.iter().any(|f| matches!(f, Field::Index(_))) {
+                Projection::All
+            } else {
+                Projection::from(references.into_iter().cloned().collect::<Vec<_>>())
+            }
+        });
 
         let projected_dtype = match read_projection {
             Projection::All => footer.dtype()?,
-- 
2.43.0


From 8d6931904dd5df398da5265092145afbd1e761b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:51 +0000
Subject: [PATCH 52/60] fix: compressing keeps the sign of zero

---
 encodings/alp/src/alp/mod.rs     | 12 +++++++++---
 encodings/runend/src/compress.rs |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/encodings/alp/src/alp/mod.rs b/encodings/alp/src/alp/mod.rs
index c86cce8..32c11e5 100644
--- a/encodings/alp/src/alp/mod.rs
+++ b/encodings/alp/src/alp/mod.rs
@@ -54,6 +54,12 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     /// Convert from the integer type back to the float type using `as`.
     fn from_int(n: Self::ALPInt) -> Self;
 
+    /// Whether both are the same number, the sign of zero included (a NaN is the same as nothing).
+    #[inline]
+    fn is_same(self, other: Self) -> bool {
+        self == other && self.is_sign_negative() == other.is_sign_negative()
+    }
+
     fn find_best_exponents(values: &[Self]) -> Exponents {
         let mut best_exp = Exponents { e: 0, f: 0 };
         let mut best_nbytes: usize = usize::MAX;
@@ -143,7 +149,7 @@ pub trait ALPFloat: private::Sealed + Float + Display + 'static {
     fn encode_single(value: Self, exponents: Exponents) -> Result<Self::ALPInt, Self> {
         let encoded = unsafe { Self::encode_single_unchecked(value, exponents) };
         let decoded = Self::decode_single(encoded, exponents);
-        if decoded == value {
+        if decoded.is_same(value) {
             return Ok(encoded);
         }
         Err(value)
@@ -191,7 +197,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
     encoded_output.extend(chunk.iter().map(|v| {
         let encoded = unsafe { T::encode_single_unchecked(*v, exp) };
         let decoded = T::decode_single(encoded, exp);
-        let neq = (decoded != *v) as usize;
+        let neq = !decoded.is_same(*v) as usize;
         chunk_patch_count += neq;
         encoded
     }));
@@ -213,7 +219,7 @@ fn encode_chunk_unchecked<T: ALPFloat>(
             // write() is only safe to call more than once because the values are primitive (i.e., Drop is a no-op)
             patch_indices_mut[chunk_patch_index].write(i as u64);
             patch_values_mut[chunk_patch_index].write(chunk[i - num_prev_encoded]);
-            chunk_patch_index += (decoded != chunk[i - num_prev_encoded]) as usize;
+            chunk_patch_index += !decoded.is_same(chunk[i - num_prev_encoded]) as usize;
         }
         assert_eq!(chunk_patch_index, chunk_patch_count);
         unsafe {
diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index d3d5883..0bd5f37 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -80,7 +80,7 @@ fn runend_encode_primitive<T: NativePType>(elements: &[T]) -> (Vec<u64>, Vec<T>)
     let mut last = elements[0];
     let mut end = 1;
     for &e in elements.iter().skip(1) {
-        if e != last {
+        if !e.is_eq(last) {
             ends.push(end);
             values.push(last);
         }
-- 
2.43.0


From 7cf0c7631078028791638d1f706a3b0d99c476af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:02 +0000
Subject: [PATCH 53/60] fix: statistics of the run values of arrays with nulls

---
 encodings/runend/src/compress.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/encodings/runend/src/compress.rs b/encodings/runend/src/compress.rs
index 0bd5f37..9b15037 100644
--- a/encodings/runend/src/compress.rs
+++ b/encodings/runend/src/compress.rs
@@ -29,21 +29,13 @@ pub fn runend_encode(array: &PrimitiveArray) -> (PrimitiveArray, PrimitiveArray)
     compressed_values
         .statistics()
         .set(Stat::IsConstant, (compressed_values.len() == 1).into());
-    if let Some(min) = array.statistics().get(Stat::Min) {
-        compressed_values.statistics().set(Stat::Min, min);
-    }
-    if let Some(max) = array.statistics().get(Stat::Max) {
-        compressed_values.statistics().set(Stat::Max, max);
-    }
-    if let Some(is_sorted) = array.statistics().get(Stat::IsSorted) {
-        compressed_values
-            .statistics()
-            .set(Stat::IsSorted, is_sorted);
-    }
-    if let Some(is_strict_sorted) = array.statistics().get(Stat::IsStrictSorted) {
-        compressed_values
-            .statistics()
-            .set(Stat::IsStrictSorted, is_strict_sorted);
+    // null rows have values too, which the array's own statistics leave out
+    if matches!(array.validity(), Validity::NonNullable | Validity::AllValid) {
+        for stat in [Stat::Min, Stat::Max, Stat::IsSorted, Stat::IsStrictSorted] {
+            if let Some(value) = array.statistics().get(stat) {
+                compressed_values.statistics().set(stat, value);
+            }
+        }
     }
 
     compressed_ends
-- 
2.43.0


From 637d63e79654683ec815b848dddb9069805b588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:31 +0000
Subject: [PATCH 54/60] fix: arrow structs without fields keep their length

---
 vortex-array/src/canonical.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vortex-array/src/canonical.rs b/vortex-array/src/canonical.rs
index a434f04..d093952 100644
--- a/vortex-array/src/canonical.rs
+++ b/vortex-array/src/canonical.rs
@@ -203,6 +203,14 @@ fn struct_to_arrow(struct_array: StructArray) -> VortexResult<ArrayRef> {
 
     let nulls = struct_array.logical_validity().to_null_buffer()?;
 
+    // without fields there is nothing to tell Arrow how many rows there are
+    if field_arrays.is_empty() {
+        return Ok(Arc::new(ArrowStructArray::new_empty_fields(
+            struct_array.len(),
+            nulls,
+        )));
+    }
+
     Ok(Arc::new(ArrowStructArray::try_new(
         arrow_fields,
         field_arrays,
-- 
2.43.0


From f669672caa9126ebf545d8579ef36385f2b0095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:31 +0000
Subject: [PATCH 55/60] fix: queries over files that need no columns count the
 rows

---
 vortex-datafusion/src/persistent/opener.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vortex-datafusion/src/persistent/opener.rs b/vortex-datafusion/src/persistent/opener.rs
index 73e1ea0..9980251 100644
--- a/vortex-datafusion/src/persistent/opener.rs
+++ b/vortex-datafusion/src/persistent/opener.rs
@@ -48,16 +48,27 @@ impl FileOpener for VortexFileOpener {
             builder = builder.with_row_filter(row_filter);
         }
 
+        // Batches have their rows counted by their columns, so when none are asked for read one and drop it
+        let rows_only = self.projection.as_ref().is_some_and(|p| p.is_empty());
+
         if let Some(projection) = self.projection.as_ref() {
+            let projection = if rows_only { &[0][..] } else { projection };
             builder = builder.with_projection(Projection::new(projection));
         }
 
-        Ok(async {
+        Ok(async move {
             Ok(Box::pin(
                 builder
                     .build()
                     .await?
-                    .map_ok(RecordBatch::try_from)
+                    .map_ok(move |array| {
+                        let batch = RecordBatch::try_from(array)?;
+                        Ok(if rows_only {
+                            batch.project(&[])?
+                        } else {
+                            batch
+                        })
+                    })
                     .map(|r| r.and_then(|inner| inner))
                     .map_err(|e| e.into()),
             ) as _)
-- 
2.43.0


From 79a905ebfb58843ced22bc93b59d7548e6c6d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:31 +0000
Subject: [PATCH 56/60] fix: null literals are not pushed down

---
 vortex-datafusion/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-datafusion/src/lib.rs b/vortex-datafusion/src/lib.rs
index e731766..30447ac 100644
--- a/vortex-datafusion/src/lib.rs
+++ b/vortex-datafusion/src/lib.rs
@@ -168,7 +168,8 @@ fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
             Some((_, field)) => supported_data_types(field.data_type().clone()),
             _ => false,
         },
-        Expr::Literal(lit) => supported_data_types(lit.data_type()),
+        // Nulls lose their type when converted, and then compare with nothing
+        Expr::Literal(lit) => !lit.is_null() && supported_data_types(lit.data_type()),
         _ => false,
     }
 }
-- 
2.43.0


From 8b8b41652a9b9beacc24cd3adfe978d9143049e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:31 +0000
Subject: [PATCH 57/60] fix: and/or of nullable operands are not pushed down

---
 vortex-datafusion/src/lib.rs | 38 ++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/vortex-datafusion/src/lib.rs b/vortex-datafusion/src/lib.rs
index 30447ac..739ff32 100644
--- a/vortex-datafusion/src/lib.rs
+++ b/vortex-datafusion/src/lib.rs
@@ -161,8 +161,19 @@ fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
         Expr::BinaryExpr(expr)
             if expr.op.is_logic_operator() || SUPPORTED_BINARY_OPS.contains(&expr.op) =>
         {
-            can_be_pushed_down(expr.left.as_ref(), schema)
-                & can_be_pushed_down(expr.right.as_ref(), schema)
+            // What `and` and `or` make of a null isn't what SQL does. A filter doesn't tell the null of an `and`
+            // from false, anything else may only be given the ones that see no nulls
+            let sees_nulls = match expr.op {
+                Operator::And => false,
+                Operator::Or => can_be_null(&expr.left, schema) || can_be_null(&expr.right, schema),
+                _ => [&expr.left, &expr.right]
+                    .into_iter()
+                    .any(|side| has_logic(side) && can_be_null(side, schema)),
+            };
+
+            !sees_nulls
+                && can_be_pushed_down(expr.left.as_ref(), schema)
+                && can_be_pushed_down(expr.right.as_ref(), schema)
         }
         Expr::Column(col) => match schema.column_with_name(col.name()) {
             Some((_, field)) => supported_data_types(field.data_type().clone()),
@@ -174,6 +185,29 @@ fn can_be_pushed_down(expr: &Expr, schema: &Schema) -> bool {
     }
 }
 
+fn can_be_null(expr: &Expr, schema: &Schema) -> bool {
+    match expr {
+        Expr::BinaryExpr(expr) => {
+            can_be_null(&expr.left, schema) || can_be_null(&expr.right, schema)
+        }
+        Expr::Column(col) => match schema.column_with_name(col.name()) {
+            Some((_, field)) => field.is_nullable(),
+            _ => true,
+        },
+        Expr::Literal(lit) => lit.is_null(),
+        _ => true,
+    }
+}
+
+fn has_logic(expr: &Expr) -> bool {
+    match expr {
+        Expr::BinaryExpr(expr) => {
+            expr.op.is_logic_operator() || has_logic(&expr.left) || has_logic(&expr.right)
+        }
+        _ => false,
+    }
+}
+
 /// Physical plan node for scans against an in-memory, possibly chunked Vortex Array.
 #[derive(Clone)]
 struct VortexScanExec {
-- 
2.43.0


From 371bfdc982a180abab12bd79e96abb40be0d4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:25 +0000
Subject: [PATCH 58/60] fix: offsets taken from Arrow are not strictly sorted,
 an empty element repeats one

---
 vortex-array/src/arrow/array.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 9d6af74..39b72e1 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -63,9 +63,6 @@ where
             Validity::NonNullable,
         );
         primitive.statistics().set(Stat::IsSorted, true.into());
-        primitive
-            .statistics()
-            .set(Stat::IsStrictSorted, true.into());
         primitive.into_array()
     }
 }
-- 
2.43.0


From eff4cbe549e3e8b84193f85459d17f3e3b7cd303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:56 +0000
Subject: [PATCH 59/60] fix: a non-nullable Arrow array may carry a null buffer
 without nulls

---
 vortex-array/src/arrow/array.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vortex-array/src/arrow/array.rs b/vortex-array/src/arrow/array.rs
index 39b72e1..e9de864 100644
--- a/vortex-array/src/arrow/array.rs
+++ b/vortex-array/src/arrow/array.rs
@@ -195,7 +195,8 @@ fn nulls(nulls: Option<&NullBuffer>, nullable: bool) -> Validity {
             })
             .unwrap_or_else(|| Validity::AllValid)
     } else {
-        assert!(nulls.is_none());
+        // Arrow may keep a null buffer without any nulls in it
+        assert!(nulls.map_or(true, |nulls| nulls.null_count() == 0));
         Validity::NonNullable
     }
 }
-- 
2.43.0


From 6a1c58873d050977d9bcb82e6ac29bb56d552720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:31 +0000
Subject: [PATCH 60/60] fix: the storage of a constant extension array of
 booleans is boolean

---
 vortex-array/src/array/constant/variants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vortex-array/src/array/constant/variants.rs b/vortex-array/src/array/constant/variants.rs
index 4ffeb00..a018523 100644
--- a/vortex-array/src/array/constant/variants.rs
+++ b/vortex-array/src/array/constant/variants.rs
@@ -225,7 +225,7 @@ impl ExtensionArrayTrait for ConstantArray {
         // FIXME(ngates): there's not enough information to get the storage array.
         let n = self.dtype().nullability();
         let storage_dtype = match scalar_ext.value() {
-            ScalarValue::Bool(_) => DType::Binary(n),
+            ScalarValue::Bool(_) => DType::Bool(n),
             ScalarValue::Primitive(pvalue) => DType::Primitive(pvalue.ptype(), n),
             ScalarValue::Buffer(_) => DType::Binary(n),
             ScalarValue::BufferString(_) => DType::Utf8(n),
-- 
2.43.0

