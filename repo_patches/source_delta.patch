From 500a0913e32a7fe284e999c2932ed11cbda853fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 01/56] fix: fold inarrow_{u,s} correctly when the target is 64
 bits wide

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index faad176..91394cc 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -128,7 +128,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: u64 = n0.value_u();
-                    let out_const: Value = if n0val >> (1 << logwidth1) != 0 {
+                    let out_const: Value = if n0val > bitmask_from_logwidth(logwidth1) {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_u(logwidth1, n0val).map(Into::into))
@@ -155,8 +155,9 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: i64 = n0.value_s();
-                    let ub = 1i64 << ((1 << logwidth1) - 1);
-                    let out_const: Value = if n0val >= ub || n0val < -ub {
+                    // Bounds for the target width, avoiding overflow for 64-bit integers.
+                    let max = (bitmask_from_logwidth(logwidth1) >> 1) as i64;
+                    let out_const: Value = if n0val > max || n0val < -max - 1 {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_s(logwidth1, n0val).map(Into::into))
-- 
2.43.0


From 9f643d3c766551f39aae6f8828179c8a95eff396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 02/56] fix: remainder of i64::MIN in constant-folded signed
 division

---
 hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 91394cc..7f91d25 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -59,11 +59,12 @@ fn divmod_s(n: i64, m: u64) -> (i64, u64) {
         // n = -2^63, 1 < m < 2^63
         let m_s = m as i64;
         let q = n / m_s;
+        // truncating remainder, so -m < r <= 0
         let r = n % m_s;
         if r == 0 {
             (q, 0)
         } else {
-            (q - 1, (m_s - r) as u64)
+            (q - 1, (m_s + r) as u64)
         }
     } else {
         // n = -2^63, m >= 2^63
-- 
2.43.0


From 73f2eb5b5b968cd348dabb9c10ead0943fd527fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 03/56] fix: checked division ops fold to the success variant
 of their output sum

---
 .../arithmetic/int_ops/const_fold.rs          | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 7f91d25..e7e1c63 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -7,7 +7,7 @@ use crate::{
     IncomingPort,
     extension::{
         ConstFoldResult, Folder, OpDef,
-        prelude::{ConstError, sum_with_error},
+        prelude::{ConstError, const_ok, error_type, sum_with_error},
     },
     ops::{
         Value,
@@ -603,10 +603,13 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         } else {
                             let qval = nval / mval;
                             let rval = nval % mval;
-                            Value::tuple(vec![
-                                Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
-                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            const_ok(
+                                Value::tuple(vec![
+                                    Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
+                                    Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                ]),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -663,10 +666,13 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, rval) = divmod_s(nval, mval);
-                            Value::tuple(vec![
-                                Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
-                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            const_ok(
+                                Value::tuple(vec![
+                                    Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
+                                    Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                ]),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -720,7 +726,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -772,7 +781,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -825,7 +837,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, _) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_s(logwidth0, qval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -879,7 +894,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (_, rval) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_u(logwidth0, rval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
-- 
2.43.0


From 4ce8500def26e68dd605e28e3492e5df82ecfaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 04/56] fix: folding iabs of the smallest integer panicked
 below 64 bits

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs  | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index e7e1c63..644405a 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -938,13 +938,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                if n0val == i64::MIN {
-                                    debug_assert!(logwidth == 6);
-                                    ConstInt::new_u(6, 1u64 << 63)
-                                } else {
-                                    ConstInt::new_s(logwidth, n0val.abs())
-                                }
-                                .unwrap(),
+                                // The absolute value of the minimum is only representable unsigned.
+                                ConstInt::new_u(logwidth, n0val.unsigned_abs()).unwrap(),
                             ),
                         )])
                     } else {
-- 
2.43.0


From 1a402a923b6400642e3850c80014418b7637341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 05/56] fix: folding shifts by 64 or more, and 64-bit rotations
 by 0, overflowed

---
 .../arithmetic/int_ops/const_fold.rs           | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 644405a..77177f4 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -40,6 +40,16 @@ fn bitmask_from_logwidth(logwidth: u8) -> u64 {
     bitmask_from_width(1u64 << logwidth)
 }
 
+// Left shift that drops every bit when shifting by 64 or more.
+fn shl(n: u64, k: u64) -> u64 {
+    if k >= 64 { 0 } else { n << k }
+}
+
+// Right shift that drops every bit when shifting by 64 or more.
+fn shr(n: u64, k: u64) -> u64 {
+    if k >= 64 { 0 } else { n >> k }
+}
+
 // return q, r s.t. n = qm + r, 0 <= r < m
 fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     // This is quite hairy.
@@ -1053,7 +1063,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    (n0.value_u() << n1.value_u())
+                                    shl(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth0),
                                 )
                                 .unwrap(),
@@ -1078,7 +1088,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                ConstInt::new_u(logwidth0, n0.value_u() >> n1.value_u()).unwrap(),
+                                ConstInt::new_u(logwidth0, shr(n0.value_u(), n1.value_u())).unwrap(),
                             ),
                         )])
                     }
@@ -1105,7 +1115,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << k) & bitmask_from_width(w)) | (n >> (w - k)),
+                                    (shl(n, k) & bitmask_from_width(w)) | shr(n, w - k),
                                 )
                                 .unwrap(),
                             ),
@@ -1134,7 +1144,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << (w - k)) & bitmask_from_width(w)) | (n >> k),
+                                    (shl(n, w - k) & bitmask_from_width(w)) | shr(n, k),
                                 )
                                 .unwrap(),
                             ),
-- 
2.43.0


From eb095af9cab26e6ed30cc5eb0775bfd78ac587c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 06/56] fix: ipow folding clamped exponents to 32 bits

---
 .../arithmetic/int_ops/const_fold.rs          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 77177f4..e2155d6 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -50,6 +50,19 @@ fn shr(n: u64, k: u64) -> u64 {
     if k >= 64 { 0 } else { n >> k }
 }
 
+// Exponentiation modulo 2^64, for exponents of any size.
+fn wrapping_pow(mut base: u64, mut exp: u64) -> u64 {
+    let mut res = 1u64;
+    while exp > 0 {
+        if exp & 1 == 1 {
+            res = res.wrapping_mul(base);
+        }
+        base = base.wrapping_mul(base);
+        exp >>= 1;
+    }
+    res
+}
+
 // return q, r s.t. n = qm + r, 0 <= r < m
 fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     // This is quite hairy.
@@ -571,11 +584,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth,
-                                    n0.value_u()
-                                        .overflowing_pow(
-                                            n1.value_u().try_into().unwrap_or(u32::MAX),
-                                        )
-                                        .0
+                                    wrapping_pow(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth),
                                 )
                                 .unwrap(),
-- 
2.43.0


From 12e44b32660d47d15888e9d872b1b9482238381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 07/56] fix: get_pair_of_input_values ignored which port each
 constant belongs to

---
 hugr-core/src/ops/constant/custom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/ops/constant/custom.rs b/hugr-core/src/ops/constant/custom.rs
index ac4251b..f17117f 100644
--- a/hugr-core/src/ops/constant/custom.rs
+++ b/hugr-core/src/ops/constant/custom.rs
@@ -349,14 +349,15 @@ pub fn get_single_input_value<T: CustomConst>(consts: &[(IncomingPort, Value)])
     c.get_custom_value()
 }
 
-/// Given a list of two constant operations, return the values.
+/// Given a list of two constant operations, return the values, in port order.
 #[must_use]
 pub fn get_pair_of_input_values<T: CustomConst>(
     consts: &[(IncomingPort, Value)],
 ) -> Option<(&T, &T)> {
-    let [(_, c0), (_, c1)] = consts else {
+    let [(p0, c0), (p1, c1)] = consts else {
         return None;
     };
+    let (c0, c1) = if p0 <= p1 { (c0, c1) } else { (c1, c0) };
     Some((c0.get_custom_value()?, c1.get_custom_value()?))
 }
 
-- 
2.43.0


From e8e894bd4e299b5e6818f35d38e68922f429193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 08/56] fix: folding trunc_{u,s} of values out of range
 saturated instead of failing

---
 .../arithmetic/conversions/const_fold.rs      | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
index 90615d7..17110ce 100644
--- a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
@@ -13,7 +13,6 @@ use crate::{
         float_types::ConstF64,
         int_types::{ConstInt, get_log_width},
     },
-    types::ConstTypeError,
 };
 
 use super::ConvertOpDef;
@@ -39,7 +38,7 @@ pub(super) fn set_fold(op: &ConvertOpDef, def: &mut OpDef) {
 fn fold_trunc(
     type_args: &[crate::types::TypeArg],
     consts: &[(IncomingPort, Value)],
-    convert: impl Fn(f64, u8) -> Result<Value, ConstTypeError>,
+    convert: impl Fn(f64, u8) -> Option<Value>,
 ) -> ConstFoldResult {
     let f: &ConstF64 = get_single_input_value(consts)?;
     let f = f.value();
@@ -57,7 +56,7 @@ fn fold_trunc(
     };
     let out_const: ops::Value = if f.is_finite() {
         let cv = convert(f, log_width);
-        if let Ok(cv) = cv {
+        if let Some(cv) = cv {
             const_ok(cv, error_type())
         } else {
             err_value()
@@ -78,7 +77,12 @@ impl ConstFold for TruncU {
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
         fold_trunc(type_args, consts, |f, log_width| {
-            ConstInt::new_u(log_width, f.trunc() as u64).map(Into::into)
+            let f = f.trunc();
+            // Float to integer casts saturate, so check the bounds first.
+            if f < 0.0 || f >= 2f64.powi(1 << log_width) {
+                return None;
+            }
+            ConstInt::new_u(log_width, f as u64).ok().map(Into::into)
         })
     }
 }
@@ -92,7 +96,13 @@ impl ConstFold for TruncS {
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
         fold_trunc(type_args, consts, |f, log_width| {
-            ConstInt::new_s(log_width, f.trunc() as i64).map(Into::into)
+            let f = f.trunc();
+            // Float to integer casts saturate, so check the bounds first.
+            let bound = 2f64.powi((1 << log_width) - 1);
+            if f < -bound || f >= bound {
+                return None;
+            }
+            ConstInt::new_s(log_width, f as i64).ok().map(Into::into)
         })
     }
 }
-- 
2.43.0


From 090535dbacf41619147ab3a43973e49e5c68489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 09/56] fix: folding logic Eq with a single known input

---
 hugr-core/src/std_extensions/logic.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/std_extensions/logic.rs b/hugr-core/src/std_extensions/logic.rs
index 1e211f6..21beb43 100644
--- a/hugr-core/src/std_extensions/logic.rs
+++ b/hugr-core/src/std_extensions/logic.rs
@@ -43,10 +43,9 @@ impl ConstFold for LogicOp {
             }
             Self::Eq => {
                 let inps = read_inputs(consts)?;
-                let res = inps.iter().copied().reduce(|a, b| a == b)?;
-                // If we have only some inputs, we can still fold to false, but not to true
-                (!res || inps.len() as u64 == 2)
-                    .then_some(vec![(0.into(), ops::Value::from_bool(res))])
+                // We can only fold if we have a const for both inputs.
+                let [a, b] = inps[..] else { return None };
+                Some(vec![(0.into(), ops::Value::from_bool(a == b))])
             }
             Self::Not => {
                 let inps = read_inputs(consts)?;
-- 
2.43.0


From 90eb3e96170f7c85cab7d3487eb2442dce2ee470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 10/56] fix: folding MakeTuple dropped elements that are not
 constant

---
 hugr-core/src/extension/prelude.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/extension/prelude.rs b/hugr-core/src/extension/prelude.rs
index e83287f..303dcb4 100644
--- a/hugr-core/src/extension/prelude.rs
+++ b/hugr-core/src/extension/prelude.rs
@@ -618,11 +618,18 @@ pub enum TupleOpDef {
 impl ConstFold for TupleOpDef {
     fn fold(
         &self,
-        _type_args: &[TypeArg],
+        type_args: &[TypeArg],
         consts: &[(crate::IncomingPort, Value)],
     ) -> crate::extension::ConstFoldResult {
         match self {
             TupleOpDef::MakeTuple => {
+                // We can only fold if we have a const for every element.
+                let [Term::List(elems)] = type_args else {
+                    return None;
+                };
+                if consts.len() != elems.len() {
+                    return None;
+                }
                 fold_out_row([Value::tuple(sorted_consts(consts).into_iter().cloned())])
             }
             TupleOpDef::UnpackTuple => {
-- 
2.43.0


From f0537b498217e464eb0dd85f11913cdc79fb094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 11/56] fix: constant folding put constants of other types on
 wires of polymorphic functions

---
 hugr-passes/src/const_fold.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 82caf3d..daa8754 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -11,7 +11,7 @@ use hugr_core::{
     ops::{
         Const, DataflowOpTrait, ExtensionOp, LoadConstant, OpType, Value, constant::OpaqueValue,
     },
-    types::EdgeKind,
+    types::{EdgeKind, PolyFuncType, Signature},
 };
 use value_handle::ValueHandle;
 
@@ -137,13 +137,21 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
                 // Avoid breaking edges from existing LoadConstant (we'd only add another)
                 // or from root input node (any "external inputs" provided will show up here
                 //   - potentially also in other places which this won't catch)
-                (!hugr.get_optype(src).is_load_constant() && Some(src) != mb_root_inp).then_some((
-                    n,
-                    ip,
-                    results
-                        .try_read_wire_concrete::<Value>(Wire::new(src, outp))
-                        .ok()?,
-                ))
+                if hugr.get_optype(src).is_load_constant() || Some(src) == mb_root_inp {
+                    return None;
+                }
+                let v = results
+                    .try_read_wire_concrete::<Value>(Wire::new(src, outp))
+                    .ok()?;
+                // Inside a polymorphic function the type of the wire may mention type variables,
+                // whereas constants are of the type of some instantiation (and must be closed).
+                let Some(EdgeKind::Value(ty)) = hugr.get_optype(n).port_kind(ip) else {
+                    return None;
+                };
+                let closed = PolyFuncType::new([], Signature::new(vec![], vec![ty.clone()]))
+                    .validate()
+                    .is_ok();
+                (closed && v.get_type() == ty).then_some((n, ip, v))
             })
             .collect::<Vec<_>>();
         // Sadly the results immutably borrow the hugr, so we must extract everything we need before mutation
-- 
2.43.0


From 0db02ac812a75b76ae7d012279e6942551a04ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 12/56] fix: dataflow analysis from a nested entrypoint took
 inputs of the enclosing function as unreachable

---
 hugr-passes/src/dataflow/datalog.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index 0368f93..f149684 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -130,6 +130,25 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
             if p.peek().is_some() || !self.1.contains_key(&ep) {
                 self.prepopulate_inputs(ep, p).unwrap();
             }
+            // Values may also reach nodes inside the entrypoint along nonlocal edges from
+            // outside it. Anything not constant may depend upon inputs that we do not know.
+            let inside: HashSet<_> = self.0.entry_descendants().collect();
+            let mut nonlocal = HashSet::new();
+            for n in inside.iter().copied().filter(|n| *n != ep) {
+                for (src, outp) in self.0.all_linked_outputs(n) {
+                    let optype = self.0.get_optype(src);
+                    if !inside.contains(&src)
+                        && !optype.is_load_constant()
+                        && !optype.is_load_function()
+                        && optype.port_kind(outp).is_some_and(|k| k.is_value())
+                    {
+                        nonlocal.insert(Wire::new(src, outp));
+                    }
+                }
+            }
+            for w in nonlocal {
+                self.prepopulate_wire(w, PartialValue::Top);
+            }
         }
         run_datalog(
             context,
-- 
2.43.0


From b859944e953152bec6843fc0b03a08441326d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 13/56] fix: dead code elimination removed nodes used from
 outside the entrypoint

---
 hugr-passes/src/dead_code.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hugr-passes/src/dead_code.rs b/hugr-passes/src/dead_code.rs
index 094d3e8..c5f1cdd 100644
--- a/hugr-passes/src/dead_code.rs
+++ b/hugr-passes/src/dead_code.rs
@@ -112,6 +112,15 @@ impl<H: HugrView> DeadCodeElimPass<H> {
         let mut needed = HashSet::new();
         let mut q = VecDeque::from_iter(self.entry_points.iter().copied());
         q.push_front(h.entrypoint());
+        // Only nodes beneath the entrypoint may be removed, so keep any whose results are
+        // used elsewhere (e.g. by `Dom` edges into basic blocks following the entrypoint).
+        let removable: HashSet<_> = h.entry_descendants().collect();
+        q.extend(
+            removable
+                .iter()
+                .copied()
+                .filter(|n| h.output_neighbours(*n).any(|tgt| !removable.contains(&tgt))),
+        );
         while let Some(n) = q.pop_front() {
             if !h.contains_node(n) {
                 return Err(DeadCodeElimError::NodeNotFound(n));
-- 
2.43.0


From 12779cecb936b27cfca80e98036e7836b6121265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 14/56] fix: dead function removal deleted functions used by
 kept code outside the entrypoint

---
 hugr-passes/src/dead_funcs.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-passes/src/dead_funcs.rs b/hugr-passes/src/dead_funcs.rs
index a77c19f..dbae44a 100644
--- a/hugr-passes/src/dead_funcs.rs
+++ b/hugr-passes/src/dead_funcs.rs
@@ -85,17 +85,18 @@ impl<H: HugrMut<Node = Node>> ComposablePass<H> for RemoveDeadFuncsPass {
             entry_points.push(hugr.entrypoint())
         }
 
-        let mut reachable =
-            reachable_funcs(&ModuleGraph::new(hugr), hugr, entry_points).collect::<HashSet<_>>();
-        // Also prevent removing the entrypoint itself
+        // Also prevent removing the function containing the entrypoint. Since that is kept
+        // entire, so must be everything it uses, including from outside the entrypoint.
         let mut n = Some(hugr.entrypoint());
         while let Some(n2) = n {
             n = hugr.get_parent(n2);
-            if n == Some(hugr.module_root()) {
-                reachable.insert(n2);
+            if n == Some(hugr.module_root()) && hugr.get_optype(n2).is_func_defn() {
+                entry_points.push(n2);
             }
         }
 
+        let reachable =
+            reachable_funcs(&ModuleGraph::new(hugr), hugr, entry_points).collect::<HashSet<_>>();
         let unreachable = hugr
             .children(hugr.module_root())
             .filter(|n| {
-- 
2.43.0


From 620a43f0b14d2d7d65df7aca008b8a2012399d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 15/56] fix: formatting of the shift folding repair

---
 hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index e2155d6..b64ffe1 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -1097,7 +1097,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                ConstInt::new_u(logwidth0, shr(n0.value_u(), n1.value_u())).unwrap(),
+                                ConstInt::new_u(logwidth0, shr(n0.value_u(), n1.value_u()))
+                                    .unwrap(),
                             ),
                         )])
                     }
-- 
2.43.0


From 915899316d855f2147811fa14d82d6efa1f28bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 16/56] fix: constant folding disconnected linear outputs of
 nodes that it kept

---
 hugr-passes/src/const_fold.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index daa8754..91d1dbf 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -148,6 +148,10 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
                 let Some(EdgeKind::Value(ty)) = hugr.get_optype(n).port_kind(ip) else {
                     return None;
                 };
+                // A linear output must keep its use (the node it comes from may not be removable).
+                if !ty.copyable() {
+                    return None;
+                }
                 let closed = PolyFuncType::new([], Signature::new(vec![], vec![ty.clone()]))
                     .validate()
                     .is_ok();
-- 
2.43.0


From ffeeb70f528362be331c49beb850290ef20929e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 17/56] fix: dataflow analysis took calls of declared functions
 as never returning

---
 hugr-passes/src/dataflow/datalog.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index f149684..c4f8252 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -357,6 +357,13 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        // Nothing is known about the outputs of functions that are only declared
+        out_wire_value(call, p, PV::Top) <--
+            func_call(call, func),
+            if hugr.get_optype(*func).is_func_decl(),
+            if let Some(sig) = hugr.signature(*call),
+            for p in sig.output_ports();
+
         // CallIndirect --------------------
         lattice indirect_call(H::Node, LatticeWrapper<H::Node>); // <Node> is an `IndirectCall` to `FuncDefn` <Node>
         indirect_call(call, tgt) <--
@@ -378,6 +385,13 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        out_wire_value(call, p, PV::Top) <--
+            indirect_call(call, lv),
+            if let LatticeWrapper::Value(func) = lv,
+            if hugr.get_optype(*func).is_func_decl(),
+            if let Some(sig) = hugr.signature(*call),
+            for p in sig.output_ports();
+
         // Default out-value is Bottom, but if we can't determine the called function,
         // assign everything to Top
         out_wire_value(call, p, PV::Top) <--
-- 
2.43.0


From 0e0fa4836811339ee430ccd7e1c173ce1ad0b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 18/56] fix: dataflow analysis ignored calls of functions
 passed to opaque operations

---
 hugr-passes/src/dataflow/datalog.rs | 37 +++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index c4f8252..1760a57 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -6,6 +6,7 @@ use ascent::Lattice;
 use ascent::lattice::BoundedLattice;
 use itertools::Itertools;
 
+use hugr_core::core::HugrNode;
 use hugr_core::extension::prelude::{MakeTuple, UnpackTuple};
 use hugr_core::ops::{DataflowOpTrait, OpTrait, OpType, TailLoop};
 use hugr_core::{HugrView, IncomingPort, OutgoingPort, PortIndex as _, Wire};
@@ -392,6 +393,20 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             if let Some(sig) = hugr.signature(*call),
             for p in sig.output_ports();
 
+        // Functions given to ops (or declared functions) that we know nothing about,
+        // so which may be called with any inputs
+        relation escapes(H::Node);
+        escapes(func) <--
+            node(n),
+            if is_opaque_op(&hugr, *n),
+            in_wire_value(n, _, v),
+            for func in funcs_within(v);
+
+        out_wire_value(inp, p, PV::Top) <--
+            escapes(func),
+            input_child(func, inp),
+            out_wire(inp, p);
+
         // Default out-value is Bottom, but if we can't determine the called function,
         // assign everything to Top
         out_wire_value(call, p, PV::Top) <--
@@ -475,6 +490,28 @@ fn load_func<V, N: Copy>(v: &PV<V, N>) -> LatticeWrapper<N> {
     }
 }
 
+/// Does a node pass its inputs to some operation or function that we know nothing about?
+fn is_opaque_op<H: HugrView>(hugr: &H, n: H::Node) -> bool {
+    match hugr.get_optype(n) {
+        OpType::Call(_) => hugr
+            .static_source(n)
+            .is_some_and(|f| hugr.get_optype(f).is_func_decl()),
+        op @ OpType::ExtensionOp(_) => {
+            op.cast::<MakeTuple>().is_none() && op.cast::<UnpackTuple>().is_none()
+        }
+        _ => false,
+    }
+}
+
+/// All the functions that might be contained in a value
+fn funcs_within<V: AbstractValue, N: HugrNode>(v: &PV<V, N>) -> Vec<N> {
+    match v {
+        PartialValue::LoadedFunction(lf) => vec![lf.func_node],
+        PartialValue::PartialSum(ps) => ps.0.values().flatten().flat_map(funcs_within).collect(),
+        PartialValue::Bottom | PartialValue::Top | PartialValue::Value(_) => vec![],
+    }
+}
+
 fn propagate_leaf_op<V: AbstractValue, H: HugrView>(
     ctx: &mut impl DFContext<V, Node = H::Node>,
     hugr: &H,
-- 
2.43.0


From e7b1e1b248cbee46562e536a31a7d34240de87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 19/56] fix: values prepopulated on wires were missing from
 dataflow analysis results

---
 hugr-passes/src/const_fold.rs       | 16 +++++++++++-----
 hugr-passes/src/dataflow/datalog.rs | 15 +++++++++++++--
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 91d1dbf..16dd6b9 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -2,7 +2,10 @@
 //! An (example) use of the [dataflow analysis framework](super::dataflow).
 
 pub mod value_handle;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 use thiserror::Error;
 
 use hugr_core::{
@@ -123,7 +126,10 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
         }
 
         let results = m.run(ConstFoldContext, []);
-        let mb_root_inp = hugr.get_io(hugr.entrypoint()).map(|[i, _]| i);
+        let input_nodes: HashSet<_> = std::iter::once(hugr.entrypoint())
+            .chain(self.inputs.keys().copied())
+            .filter_map(|n| hugr.get_io(n).map(|[i, _]| i))
+            .collect();
 
         let wires_to_break = hugr
             .entry_descendants()
@@ -135,9 +141,9 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
             .filter_map(|(n, ip)| {
                 let (src, outp) = hugr.single_linked_output(n, ip).unwrap();
                 // Avoid breaking edges from existing LoadConstant (we'd only add another)
-                // or from root input node (any "external inputs" provided will show up here
-                //   - potentially also in other places which this won't catch)
-                if hugr.get_optype(src).is_load_constant() || Some(src) == mb_root_inp {
+                // or from input nodes of entry points (any "external inputs" provided will show
+                //   up here - potentially also in other places which this won't catch)
+                if hugr.get_optype(src).is_load_constant() || input_nodes.contains(&src) {
                     return None;
                 }
                 let v = results
diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index 1760a57..5c9e908 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -29,12 +29,16 @@ type NodeInputs<V, N> = Vec<(IncomingPort, PV<V, N>)>;
 ///    [`Self::prepopulate_inputs`] can be used on each externally-callable
 ///    [`FuncDefn`](OpType::FuncDefn) to set all inputs to [`PartialValue::Top`].
 /// 3. Call [`Self::run`] to produce [`AnalysisResults`]
-pub struct Machine<H: HugrView, V: AbstractValue>(H, HashMap<H::Node, NodeInputs<V, H::Node>>);
+pub struct Machine<H: HugrView, V: AbstractValue>(
+    H,
+    HashMap<H::Node, NodeInputs<V, H::Node>>,
+    Vec<WireValue<V, H::Node>>,
+);
 
 impl<H: HugrView, V: AbstractValue> Machine<H, V> {
     /// Create a new Machine to analyse the given Hugr(View)
     pub fn new(hugr: H) -> Self {
-        Self(hugr, Default::default())
+        Self(hugr, Default::default(), Default::default())
     }
 }
 
@@ -42,6 +46,7 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
     /// Provide initial values for a wire - these will be `join`d with any computed
     /// or any value previously prepopulated for the same Wire.
     pub fn prepopulate_wire(&mut self, w: Wire<H::Node>, v: PartialValue<V, H::Node>) {
+        self.2.push((w, v.clone()));
         for (n, inp) in self.0.linked_inputs(w.node(), w.source()) {
             self.1.entry(n).or_default().push((inp, v.clone()));
         }
@@ -158,16 +163,19 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
                 .into_iter()
                 .flat_map(|(n, vals)| vals.into_iter().map(move |(ip, v)| (n, ip, v)))
                 .collect(),
+            self.2,
         )
     }
 }
 
+pub(super) type WireValue<V, N> = (Wire<N>, PartialValue<V, N>);
 pub(super) type InWire<V, N> = (N, IncomingPort, PartialValue<V, N>);
 
 pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
     mut ctx: impl DFContext<V, Node = H::Node>,
     hugr: H,
     in_wire_value_proto: Vec<InWire<V, H::Node>>,
+    out_wire_value_proto: Vec<WireValue<V, H::Node>>,
 ) -> AnalysisResults<V, H> {
     // ascent-(macro-)generated code generates a bunch of warnings,
     // keep code in here to a minimum.
@@ -208,6 +216,9 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
         // Initialize all wires to bottom
         out_wire_value(n, p, PV::bottom()) <-- out_wire(n, p);
 
+        // Prepopulate out_wire_value from out_wire_value_proto.
+        out_wire_value(w.node(), w.source(), v) <-- for (w, v) in &out_wire_value_proto;
+
         // Outputs to inputs
         in_wire_value(n, ip, v) <-- in_wire(n, ip),
             if let Some((m, op)) = hugr.single_linked_output(*n, *ip),
-- 
2.43.0


From c479ad18a54c61be513b8b01e6f84436e4bdd8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 20/56] fix: inlining a call of a polymorphic function kept its
 uninstantiated signature

---
 hugr-core/src/hugr/patch/inline_call.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index a4d8383..e3faa2c 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -3,7 +3,7 @@
 use derive_more::{Display, Error};
 
 use crate::core::HugrNode;
-use crate::ops::{DFG, DataflowParent, OpType};
+use crate::ops::{DFG, OpType};
 use crate::types::Substitution;
 use crate::{Direction, HugrView, Node};
 
@@ -72,12 +72,13 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         h.disconnect(self.0, old_order_in); // PortGraph currently does this anyway
 
         let new_op = OpType::from(DFG {
+            // The signature of the function, with any type parameters instantiated
             signature: h
-                .get_optype(orig_func)
-                .as_func_defn()
+                .get_optype(self.0)
+                .as_call()
                 .unwrap()
-                .inner_signature()
-                .into_owned(),
+                .instantiation
+                .clone(),
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-- 
2.43.0


From 96753811921d5d68d3dee4b55f92b5a908673392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 21/56] fix: inlining a DFG broke or lost order edges with
 nonlocal values and unconnected children

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 92 +++++++++++++++++++++++---
 1 file changed, 83 insertions(+), 9 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index f5a3653..7eebf3e 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -2,6 +2,8 @@
 //! of the DFG except Input+Output into the DFG's parent,
 //! and deleting the DFG along with its Input + Output
 
+use itertools::Itertools;
+
 use super::{PatchHugrMut, PatchVerification};
 use crate::core::HugrNode;
 use crate::ops::handle::{DfgID, NodeHandle};
@@ -73,21 +75,47 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
         };
         let parent = h.get_parent(n).unwrap();
         let [input, output] = h.get_io(n).unwrap();
-        for ch in h.children(n).skip(2).collect::<Vec<_>>() {
-            h.set_parent(ch, parent);
+        // Nodes to be executed that are connected to none before (respectively, after) them.
+        // As these would be executed with the DFG, they inherit any Order edges of the DFG.
+        let children = h.children(n).skip(2).collect::<Vec<_>>();
+        let executed = |ch: &&N| h.get_optype(**ch).other_input_port().is_some();
+        let children_of_dfg = || children.iter().filter(executed).copied();
+        let first = children_of_dfg()
+            .filter(|ch| {
+                !h.input_neighbours(*ch)
+                    .any(|src| h.get_parent(src) == Some(n) && !h.get_optype(src).is_const())
+            })
+            .collect::<Vec<_>>();
+        let last = children_of_dfg()
+            .filter(|ch| h.output_neighbours(*ch).next().is_none())
+            .collect::<Vec<_>>();
+        // If there is nothing to be executed, then what preceded the DFG precedes what followed
+        let bypass = children_of_dfg().next().is_none().then_some(output);
+        for ch in children.iter() {
+            h.set_parent(*ch, parent);
         }
         // DFG Inputs. Deal with Order inputs first
+        let input_succs = sibling_targets(&*h, n, h.output_neighbours(input).chain(bypass));
         for (src_n, src_p) in h.linked_outputs(n, oth_in).collect::<Vec<_>>() {
             // Order edge from src_n to DFG => add order edge to each successor of Input node
             debug_assert_eq!(Some(src_p), h.get_optype(src_n).other_output_port());
-            for tgt_n in h.output_neighbours(input).collect::<Vec<_>>() {
+            // ...and to any child using a value of src_n (via nonlocal edges) inside it.
+            let nonlocal_users = h
+                .output_neighbours(src_n)
+                .filter_map(|tgt| enclosing_child(&*h, parent, tgt).filter(|ch| *ch != tgt))
+                .filter(|ch| children.contains(ch))
+                .collect::<Vec<_>>();
+            let first = first.iter().chain(&input_succs).copied();
+            for tgt_n in first.chain(nonlocal_users).unique() {
                 h.add_other_edge(src_n, tgt_n);
             }
         }
         // And remaining (Value) inputs
         let input_ord_succs = h
             .linked_inputs(input, h.get_optype(input).other_output_port().unwrap())
+            .map(|(tgt, _)| tgt)
             .collect::<Vec<_>>();
+        let input_ord_succs = sibling_targets(&*h, n, input_ord_succs.into_iter());
         for inp in h.node_inputs(n).collect::<Vec<_>>() {
             if inp == oth_in {
                 continue;
@@ -103,20 +131,28 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
             }
             // Ensure order-successors of Input node execute after any node producing an input
-            for (tgt, _) in &input_ord_succs {
-                h.add_other_edge(src_n, *tgt);
+            // (if that is elsewhere, it is already ordered before our parent)
+            if h.get_parent(src_n) == Some(parent) {
+                for tgt in &input_ord_succs {
+                    h.add_other_edge(src_n, *tgt);
+                }
             }
         }
         // DFG Outputs. Deal with Order outputs first.
         for (tgt_n, tgt_p) in h.linked_inputs(n, oth_out).collect::<Vec<_>>() {
             debug_assert_eq!(Some(tgt_p), h.get_optype(tgt_n).other_input_port());
-            for src_n in h.input_neighbours(output).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
+            let last = last.iter().copied();
+            for src_n in h.input_neighbours(output).chain(last).collect::<Vec<_>>() {
+                if h.get_parent(src_n) == Some(parent) {
+                    h.add_other_edge(src_n, tgt_n);
+                }
             }
         }
         // And remaining (Value) outputs
         let output_ord_preds = h
             .linked_outputs(output, h.get_optype(output).other_input_port().unwrap())
+            .map(|(src, _)| src)
+            .filter(|src| *src != input)
             .collect::<Vec<_>>();
         for outport in h.node_outputs(n).collect::<Vec<_>>() {
             if outport == oth_out {
@@ -130,8 +166,10 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
             for (tgt_n, tgt_p) in h.linked_inputs(n, outport).collect::<Vec<_>>() {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
                 // Ensure order-predecessors of Output node execute before any node consuming a DFG output
-                for (src, _) in &output_ord_preds {
-                    h.add_other_edge(*src, tgt_n);
+                if let Some(tgt) = enclosing_child(&*h, parent, tgt_n) {
+                    for src in &output_ord_preds {
+                        h.add_other_edge(*src, tgt);
+                    }
                 }
             }
             h.disconnect(n, outport);
@@ -144,6 +182,42 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
     }
 }
 
+/// Those siblings of `dfg` that must execute after the Input of `dfg`, given the targets of
+/// some edges from it (after the children of `dfg` have been made its siblings).
+///
+/// Order edges must be between siblings, so for values used inside a sibling, use the latter.
+/// The successors of the Output node are those of the DFG itself.
+fn sibling_targets<N: HugrNode>(
+    h: &impl HugrView<Node = N>,
+    dfg: N,
+    targets: impl Iterator<Item = N>,
+) -> Vec<N> {
+    let parent = h.get_parent(dfg).unwrap();
+    let [_, output] = h.get_io(dfg).unwrap();
+    targets
+        .flat_map(|tgt| {
+            if tgt == output {
+                h.output_neighbours(dfg).collect()
+            } else {
+                vec![tgt]
+            }
+        })
+        .filter_map(|tgt| enclosing_child(h, parent, tgt))
+        .unique()
+        .collect()
+}
+
+/// The child of `parent` that is, or contains, the specified node; or None if there is none such
+fn enclosing_child<N: HugrNode>(h: &impl HugrView<Node = N>, parent: N, mut n: N) -> Option<N> {
+    loop {
+        let p = h.get_parent(n)?;
+        if p == parent {
+            return Some(n);
+        }
+        n = p;
+    }
+}
+
 #[cfg(test)]
 mod test {
     use std::collections::HashSet;
-- 
2.43.0


From 1f55f49f371347bd5063c91b7cf136503494fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 22/56] fix: CFG normalization keeps order edges and worklist
 valid when moving blocks

---
 hugr-passes/src/normalize_cfgs.rs | 58 ++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/hugr-passes/src/normalize_cfgs.rs b/hugr-passes/src/normalize_cfgs.rs
index 20d2494..9305ca4 100644
--- a/hugr-passes/src/normalize_cfgs.rs
+++ b/hugr-passes/src/normalize_cfgs.rs
@@ -42,7 +42,7 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
         let Ok(succ) = cfg.output_neighbours(n).exactly_one() else {
             continue;
         };
-        if cfg.input_neighbours(succ).count() != 1 {
+        if succ == n || cfg.input_neighbours(succ).count() != 1 {
             continue;
         }
         if cfg.children(cfg.entrypoint()).take(2).contains(&succ) {
@@ -55,10 +55,14 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
         let (rep, merge_bb, dfgs) = mk_rep(cfg, n, succ);
         let node_map = cfg.apply_patch(rep).unwrap();
         let merged_bb = *node_map.get(&merge_bb).unwrap();
+        worklist.retain(|bb| *bb != succ); // This no longer exists
         for dfg_id in dfgs {
             let n_id = *node_map.get(&dfg_id).unwrap();
             cfg.apply_patch(InlineDFG(n_id.into())).unwrap();
         }
+        // `Dom` edges between the merged blocks are now `Ext` edges inside one
+        let srcs = cfg.children(merged_bb).collect::<Vec<_>>();
+        add_order_for_nonlocal_uses(cfg, merged_bb, srcs);
         worklist.push(merged_bb);
     }
     Ok(num_merged)
@@ -288,6 +292,13 @@ pub fn normalize_cfg<H: HugrMut>(
         let pred_blk = h.get_optype(pred).as_dataflow_block().unwrap();
         let new_cfg_outs = pred_blk.inner_signature().into_owned().input;
 
+        // Detach output edges (including any Order edges) before changing the ports.
+        let mut out_edges = Vec::new();
+        for p in h.node_outputs(cfg_node).collect_vec() {
+            out_edges.extend(h.linked_inputs(cfg_node, p).map(|tgt| (p, tgt)));
+            h.disconnect(cfg_node, p);
+        }
+
         // new CFG result type and exit block
         let cfg_ty = cfg_ty_mut(h, cfg_node);
         let result_tys = std::mem::replace(&mut cfg_ty.signature.output, new_cfg_outs.clone());
@@ -318,19 +329,18 @@ pub fn normalize_cfg<H: HugrMut>(
         }
         unpack_before_output(h, output, result_tys);
 
-        // Move output edges.
-        for p in h.node_outputs(cfg_node).collect_vec() {
-            let tgts = h.linked_inputs(cfg_node, p).collect_vec();
-            h.disconnect(cfg_node, p);
-            for tgt in tgts {
-                h.connect(dfg, p, tgt.0, tgt.1)
-            }
+        // Reconnect output edges.
+        for (p, (tgt, tgt_p)) in out_edges {
+            h.connect(dfg, p, tgt, tgt_p);
         }
         for p in h.node_inputs(dfg).collect_vec() {
             h.connect(cfg_node, p.index(), dfg, p);
         }
         exit_dfg = Some(dfg);
     }
+    // Contents of the CFG that have been moved outside it may still use values nonlocally
+    let srcs = h.children(cfg_parent).collect::<Vec<_>>();
+    add_order_for_nonlocal_uses(h, cfg_parent, srcs);
     Ok(NormalizeCFGResult::CFGPreserved {
         entry_nodes_moved,
         exit_dfg,
@@ -338,6 +348,38 @@ pub fn normalize_cfg<H: HugrMut>(
     })
 }
 
+/// Ensure there are [EdgeKind::StateOrder] edges from each of the specified `srcs`, children of
+/// `parent`, to each sibling in which its outputs are used (as required for `Ext` edges).
+fn add_order_for_nonlocal_uses<H: HugrMut>(
+    h: &mut H,
+    parent: H::Node,
+    srcs: impl IntoIterator<Item = H::Node>,
+) {
+    for src in srcs {
+        let Some(order_out) = h.get_optype(src).other_output_port() else {
+            continue;
+        };
+        let present = h
+            .linked_inputs(src, order_out)
+            .map(|(tgt, _)| tgt)
+            .collect::<Vec<_>>();
+        let users = h
+            .node_outputs(src)
+            .filter(|p| matches!(h.get_optype(src).port_kind(*p), Some(EdgeKind::Value(_))))
+            .flat_map(|p| h.linked_inputs(src, p).collect::<Vec<_>>())
+            .filter_map(|(tgt, _)| {
+                std::iter::successors(Some(tgt), |n| h.get_parent(*n))
+                    .find(|n| h.get_parent(*n) == Some(parent))
+                    .filter(|ancestor| *ancestor != tgt && !present.contains(ancestor))
+            })
+            .unique()
+            .collect::<Vec<_>>();
+        for tgt in users {
+            h.add_other_edge(src, tgt);
+        }
+    }
+}
+
 fn mk_rep<H: HugrView>(
     cfg: &H,
     pred: H::Node,
-- 
2.43.0


From 1a9bfdba363048207f70d005f887d12ed2efdcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 23/56] fix: LocalizeEdges handles shifted Input ports,
 Dom-only CFGs and polymorphic types

---
 hugr-passes/src/non_local.rs          |  2 +-
 hugr-passes/src/non_local/localize.rs | 50 +++++++++++++++++++++------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/hugr-passes/src/non_local.rs b/hugr-passes/src/non_local.rs
index c8f5e85..4b005c9 100644
--- a/hugr-passes/src/non_local.rs
+++ b/hugr-passes/src/non_local.rs
@@ -98,7 +98,7 @@ pub fn remove_nonlocal_edges<H: HugrMut>(hugr: &mut H) -> Result<(), LocalizeEdg
     }
 
     // We now compute the sources needed by each parent node.
-    let needs_sources_map = {
+    let mut needs_sources_map = {
         let mut bnsm = ExtraSourceReqs::default();
         for (target_node, (source, ty)) in nonlocal_edges.iter() {
             let parent = hugr.get_parent(*target_node).unwrap();
diff --git a/hugr-passes/src/non_local/localize.rs b/hugr-passes/src/non_local/localize.rs
index 15f5ded..da348eb 100644
--- a/hugr-passes/src/non_local/localize.rs
+++ b/hugr-passes/src/non_local/localize.rs
@@ -3,8 +3,8 @@
 use std::collections::{BTreeMap, HashMap};
 
 use hugr_core::{
-    Direction, HugrView, IncomingPort, Wire,
-    builder::{ConditionalBuilder, Dataflow, DataflowSubContainer, HugrBuilder},
+    Direction, HugrView, IncomingPort, PortIndex, Wire,
+    builder::{ConditionalBuilder, Container, Dataflow, DataflowSubContainer},
     core::HugrNode,
     hugr::hugrmut::HugrMut,
     ops::{DataflowOpTrait, OpType, Tag, TailLoop},
@@ -85,21 +85,44 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
     }
 
     /// Threads the extra connections required throughout the Hugr
-    pub(super) fn thread_hugr(&self, hugr: &mut impl HugrMut<Node = N>) {
+    pub(super) fn thread_hugr(&mut self, hugr: &mut impl HugrMut<Node = N>) {
         self.thread_node(hugr, hugr.entrypoint(), &HashMap::new())
     }
 
-    // keys of `locals` are the *original* sources of the non-local edges, in self.0.
+    /// Account for insertion of `num_ports` new outports at the specified index of an Input node,
+    /// by updating any sources that are outports of that node (relative order is unchanged).
+    fn shift_sources(&mut self, input: N, start_port_index: usize, num_ports: usize) {
+        for reqs in self.0.values_mut() {
+            let shifted = reqs
+                .range(Wire::new(input, start_port_index)..)
+                .take_while(|(w, _)| w.node() == input)
+                .map(|(w, _)| *w)
+                .collect_vec();
+            // Last first, so as not to overwrite
+            for w in shifted.into_iter().rev() {
+                let ty = reqs.remove(&w).unwrap();
+                reqs.insert(Wire::new(input, w.source().index() + num_ports), ty);
+            }
+        }
+    }
+
+    // keys of `locals` are the sources of the non-local edges, in self.0.
     fn thread_node(
-        &self,
+        &mut self,
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         locals: &HashMap<Wire<N>, Wire<N>>,
     ) {
         if self.get(node).next().is_none() {
             // No edges incoming into this subtree, but there could still be nonlocal edges internal to it
+            let is_cfg = hugr.get_optype(node).is_cfg();
             for ch in hugr.children(node).collect::<Vec<_>>() {
-                self.thread_node(hugr, ch, &HashMap::new())
+                if is_cfg && hugr.get_optype(ch).is_dataflow_block() {
+                    // There may still be `Dom` edges between blocks of the CFG
+                    self.thread_bb(hugr, ch);
+                } else {
+                    self.thread_node(hugr, ch, &HashMap::new())
+                }
             }
             return;
         }
@@ -163,7 +186,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
 
     // Add to Input node; assume container type already updated.
     fn thread_dataflow_parent(
-        &self,
+        &mut self,
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         start_new_port_index: usize,
@@ -180,6 +203,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             vec_insert(in_op.types.to_mut(), tys, start_new_port_index);
             let new_outports =
                 hugr.insert_ports(inp, Direction::Outgoing, start_new_port_index, srcs.len());
+            self.shift_sources(inp, start_new_port_index, srcs.len());
 
             srcs.into_iter()
                 .zip_eq(new_outports)
@@ -203,7 +227,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
 
     // Add to children (assuming conditional already updated).
     fn thread_conditional(
-        &self,
+        &mut self,
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         srcs: Vec<(Wire<N>, Type)>,
@@ -221,7 +245,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
 
     // Add to body of loop (assume TailLoop node itself already updated).
     fn thread_tailloop(
-        &self,
+        &mut self,
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         srcs: Vec<(Wire<N>, Type)>,
@@ -237,7 +261,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
     }
 
     // Add to DataflowBlock *and* inner dataflow sibling subgraph
-    fn thread_bb(&self, hugr: &mut impl HugrMut<Node = N>, node: N) {
+    fn thread_bb(&mut self, hugr: &mut impl HugrMut<Node = N>, node: N) {
         let OpType::DataflowBlock(this_dfb) = hugr.optype_mut(node) else {
             panic!("Expected dataflow block")
         };
@@ -262,6 +286,9 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                     .collect()
             })
             .collect();
+        if variant_source_prefixes.iter().all(Vec::is_empty) {
+            return;
+        }
         let OpType::DataflowBlock(this_dfb) = hugr.optype_mut(node) else {
             panic!("It worked earlier!")
         };
@@ -347,7 +374,8 @@ fn add_control_prefixes<H: HugrMut>(
                 .outputs();
             case.finish_with_outputs(case_outputs).unwrap();
         }
-        (cond.finish_hugr().unwrap(), new_control_type)
+        // Do not validate in isolation: types may refer to variables of the enclosing function
+        (std::mem::take(cond.hugr_mut()), new_control_type)
     };
     let cond_node = hugr.insert_hugr(parent, cond).inserted_entrypoint;
     let (old_output_source_node, old_output_source_port) =
-- 
2.43.0


From afac3c10d10fede447de5e526cd95f3c7fd3edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 24/56] fix: UntuplePass handles unused tuple outputs, several
 regions and polymorphic types

---
 hugr-passes/src/untuple.rs | 86 +++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/hugr-passes/src/untuple.rs b/hugr-passes/src/untuple.rs
index 27a1f1f..b9c3389 100644
--- a/hugr-passes/src/untuple.rs
+++ b/hugr-passes/src/untuple.rs
@@ -2,7 +2,9 @@
 
 use std::collections::VecDeque;
 
-use hugr_core::builder::{DFGBuilder, Dataflow, DataflowHugr};
+#[cfg(test)]
+use hugr_core::builder::DataflowHugr;
+use hugr_core::builder::{Container, DFGBuilder, Dataflow};
 use hugr_core::extension::prelude::{MakeTuple, UnpackTuple};
 use hugr_core::hugr::SimpleReplacementError;
 use hugr_core::hugr::hugrmut::HugrMut;
@@ -10,7 +12,7 @@ use hugr_core::hugr::views::SiblingSubgraph;
 use hugr_core::hugr::views::sibling_subgraph::TopoConvexChecker;
 use hugr_core::ops::{OpTrait, OpType};
 use hugr_core::types::Type;
-use hugr_core::{HugrView, Node, SimpleReplacement};
+use hugr_core::{HugrView, Node, PortIndex, SimpleReplacement, Wire};
 use itertools::Itertools;
 
 use crate::ComposablePass;
@@ -105,10 +107,10 @@ impl UntuplePass {
         let mut children_queue = VecDeque::new();
         children_queue.push_back(parent);
 
-        // Required to create SimpleReplacements.
-        let mut convex_checker: Option<TopoConvexChecker<H>> = None;
-
         while let Some(parent) = children_queue.pop_front() {
+            // Required to create SimpleReplacements (within this region).
+            let mut convex_checker: Option<TopoConvexChecker<H>> = None;
+
             for node in hugr.children(parent) {
                 let op = hugr.get_optype(node);
                 if let Some(rw) = make_rewrite(hugr, &mut convex_checker, node, op) {
@@ -209,55 +211,53 @@ fn remove_pack_unpack<'h, T: HugrView>(
     unpack_nodes: Vec<T::Node>,
     num_other_outputs: usize,
 ) -> SimpleReplacement<T::Node> {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
     let parent = hugr.get_parent(pack_node).expect("pack_node has no parent");
     let checker = convex_checker.get_or_insert_with(|| TopoConvexChecker::new(hugr, parent));
 
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
     let subcirc = SiblingSubgraph::try_from_nodes_with_checker(nodes, hugr, checker).unwrap();
-    let subcirc_signature = subcirc.signature(hugr);
-
-    // The output port order in `SiblingSubgraph::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
+    let mut replacement = DFGBuilder::new(subcirc.signature(hugr)).unwrap();
+
+    // Find the wire for each element of the tuple
+    let mut elems = vec![None; tuple_types.len()];
+    for (wire, ports) in replacement
+        .input_wires()
+        .zip_eq(subcirc.incoming_ports().iter())
+    {
+        for (node, port) in ports {
+            debug_assert_eq!(*node, pack_node);
+            elems[port.index()] = Some(wire);
+        }
+    }
+    let elems: Vec<Wire> = elems.into_iter().map(Option::unwrap).collect();
+
+    // If needed, re-add the tuple pack node.
+    let tuple = (num_other_outputs > 0).then(|| {
         let op = MakeTuple::new(tuple_types.to_vec().into());
         let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
+            .add_dataflow_op(op, elems.iter().copied())
             .unwrap()
             .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs));
-    }
+        tuple
+    });
 
-    // These should never fail, as we are defining the replacement ourselves.
-    let replacement = replacement
-        .finish_hugr_with_outputs(outputs)
-        .unwrap_or_else(|e| {
-            panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
-        });
+    // Wire the elements directly to the unpack outputs, and any tuple to the other outputs.
+    let outputs = subcirc
+        .outgoing_ports()
+        .iter()
+        .map(|(node, port)| {
+            if *node == pack_node {
+                tuple.unwrap()
+            } else {
+                elems[port.index()]
+            }
+        })
+        .collect_vec();
+    replacement.set_outputs(outputs).unwrap();
+
+    // Do not validate in isolation: types may refer to variables of the enclosing function.
+    let replacement = std::mem::take(replacement.hugr_mut());
     subcirc
         .create_simple_replacement(hugr, replacement)
         .unwrap_or_else(|e| {
-- 
2.43.0


From 272ca2ca2827d23a4cd5c9d0cf3f72283eb52b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 25/56] fix: CFG normalization checks nested uses before
 extracting the exit block

---
 hugr-passes/src/normalize_cfgs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/normalize_cfgs.rs b/hugr-passes/src/normalize_cfgs.rs
index 9305ca4..76acccf 100644
--- a/hugr-passes/src/normalize_cfgs.rs
+++ b/hugr-passes/src/normalize_cfgs.rs
@@ -280,7 +280,10 @@ pub fn normalize_cfg<H: HugrMut>(
     let mut exit_dfg = None;
     if let Some(pred) = h.input_neighbours(exit).exactly_one().ok().filter(|pred| {
         // Allow only if there are no `Dom` edges into `pred`. (Ignore `Ext` edges.)
-        let src_nodes = h.children(*pred).flat_map(|ch| h.input_neighbours(ch));
+        let src_nodes = h
+            .descendants(*pred)
+            .skip(1)
+            .flat_map(|desc| h.input_neighbours(desc));
         h.output_neighbours(*pred).count() == 1
             && src_nodes.dedup().all(|src| {
                 ancestor_block(h, src).is_none_or(|src| src == *pred) // Nones are `Ext` edges.
-- 
2.43.0


From 6f0286e4f942c499c55d99fb643c79287f7c6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 26/56] fix: inlining a DFG keeps the order of nested DFGs

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index 7eebf3e..b523afd 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -77,17 +77,20 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
         let [input, output] = h.get_io(n).unwrap();
         // Nodes to be executed that are connected to none before (respectively, after) them.
         // As these would be executed with the DFG, they inherit any Order edges of the DFG.
+        // (Nested DFGs, too: their contents may be unconnected to the values they pass.)
         let children = h.children(n).skip(2).collect::<Vec<_>>();
         let executed = |ch: &&N| h.get_optype(**ch).other_input_port().is_some();
         let children_of_dfg = || children.iter().filter(executed).copied();
         let first = children_of_dfg()
             .filter(|ch| {
-                !h.input_neighbours(*ch)
-                    .any(|src| h.get_parent(src) == Some(n) && !h.get_optype(src).is_const())
+                h.get_optype(*ch).is_dfg()
+                    || !h
+                        .input_neighbours(*ch)
+                        .any(|src| h.get_parent(src) == Some(n) && !h.get_optype(src).is_const())
             })
             .collect::<Vec<_>>();
         let last = children_of_dfg()
-            .filter(|ch| h.output_neighbours(*ch).next().is_none())
+            .filter(|ch| h.get_optype(*ch).is_dfg() || h.output_neighbours(*ch).next().is_none())
             .collect::<Vec<_>>();
         // If there is nothing to be executed, then what preceded the DFG precedes what followed
         let bypass = children_of_dfg().next().is_none().then_some(output);
-- 
2.43.0


From 898f28cf0b4a4bbac7e0d03a965ab58f57097c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 27/56] fix: dataflow analysis mixed values of different types
 in polymorphic functions

---
 hugr-passes/src/dataflow/datalog.rs | 37 +++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index 5c9e908..0618a27 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -362,12 +362,14 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
         out_wire_value(inp, OutgoingPort::from(p.index()), v) <--
             func_call(call, func),
             input_child(func, inp),
-            in_wire_value(call, p, v);
+            in_wire_value(call, p, call_v),
+            let v = same_type_or_top(&hugr, (*call, *p), (*inp, OutgoingPort::from(p.index())), call_v);
 
         out_wire_value(call, OutgoingPort::from(p.index()), v) <--
             func_call(call, func),
             output_child(func, outp),
-            in_wire_value(outp, p, v);
+            in_wire_value(outp, p, func_v),
+            let v = same_type_or_top(&hugr, (*outp, *p), (*call, OutgoingPort::from(p.index())), func_v);
 
         // Nothing is known about the outputs of functions that are only declared
         out_wire_value(call, p, PV::Top) <--
@@ -388,14 +390,16 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             indirect_call(call, lv),
             if let LatticeWrapper::Value(func) = lv,
             input_child(func, inp),
-            in_wire_value(call, p, v)
-            if p.index() > 0;
+            in_wire_value(call, p, call_v)
+            if p.index() > 0,
+            let v = same_type_or_top(&hugr, (*call, *p), (*inp, OutgoingPort::from(p.index()-1)), call_v);
 
         out_wire_value(call, OutgoingPort::from(p.index()), v) <--
             indirect_call(call, lv),
             if let LatticeWrapper::Value(func) = lv,
             output_child(func, outp),
-            in_wire_value(outp, p, v);
+            in_wire_value(outp, p, func_v),
+            let v = same_type_or_top(&hugr, (*outp, *p), (*call, OutgoingPort::from(p.index())), func_v);
 
         out_wire_value(call, p, PV::Top) <--
             indirect_call(call, lv),
@@ -501,6 +505,29 @@ fn load_func<V, N: Copy>(v: &PV<V, N>) -> LatticeWrapper<N> {
     }
 }
 
+/// Adapts a value passed from `src` to `dst`, being ports on either side of the boundary of a function.
+///
+/// If the function is polymorphic, the types on the two sides may differ. In that case the same
+/// port of the function may carry values of different types (for different calls), so nothing
+/// is known about the value on the other side.
+fn same_type_or_top<V: AbstractValue, H: HugrView>(
+    hugr: &H,
+    src: (H::Node, IncomingPort),
+    dst: (H::Node, OutgoingPort),
+    v: &PV<V, H::Node>,
+) -> PV<V, H::Node> {
+    let (src_node, src_port) = src;
+    let (dst_node, dst_port) = dst;
+    if *v == PV::Bottom
+        || hugr.get_optype(src_node).port_kind(src_port)
+            == hugr.get_optype(dst_node).port_kind(dst_port)
+    {
+        v.clone()
+    } else {
+        PV::Top
+    }
+}
+
 /// Does a node pass its inputs to some operation or function that we know nothing about?
 fn is_opaque_op<H: HugrView>(hugr: &H, n: H::Node) -> bool {
     match hugr.get_optype(n) {
-- 
2.43.0


From dd84a6a45676dbb00445627823eb5bad0198574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 28/56] fix: resolving extensions left operations of nested
 programs pointing to dropped extensions

---
 hugr-core/src/extension/resolution/ops.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/extension/resolution/ops.rs b/hugr-core/src/extension/resolution/ops.rs
index e6727fd..4569ef5 100644
--- a/hugr-core/src/extension/resolution/ops.rs
+++ b/hugr-core/src/extension/resolution/ops.rs
@@ -50,7 +50,8 @@ pub(crate) fn collect_op_extension(
 ///
 /// If the op is a [`OpType::OpaqueOp`], replace it with a resolved
 /// [`OpType::ExtensionOp`] by looking searching for the operation in the
-/// extension registries.
+/// extension registries. Do the same with a [`OpType::ExtensionOp`] that refers to
+/// an instance of the extension other than the one in the registry.
 ///
 /// If `op` was an opaque or extension operation, the result contains the
 /// extension reference that should be added to the hugr's extension registry.
@@ -66,6 +67,15 @@ pub(crate) fn resolve_op_extensions<'e>(
 ) -> Result<Option<&'e Arc<Extension>>, ExtensionResolutionError> {
     let extension = operation_extension(node, op, extensions)?;
 
+    // An already resolved operation may refer to another instance of its extension,
+    // e.g. one that came with a nested envelope. As the extensions of the hugr will be those of
+    // the registry, which may be the only ones to be kept alive, point it to those too.
+    if let (OpType::ExtensionOp(ext_op), Some(extension)) = (&*op, extension)
+        && !std::sync::Weak::ptr_eq(&ext_op.def().extension(), &Arc::downgrade(extension))
+    {
+        *op = ext_op.make_opaque().into();
+    }
+
     let OpType::OpaqueOp(opaque) = op else {
         return Ok(extension);
     };
-- 
2.43.0


From b92c85d14e1e99f7ed2a89126985190303671a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 29/56] fix: resolving extensions skipped the last nodes of
 programs with fan-out

---
 hugr-core/src/hugr.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index d5d62c6..2787dd1 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -278,24 +278,15 @@ impl Hugr {
     ) -> Result<(), ExtensionResolutionError> {
         let mut used_extensions = ExtensionRegistry::default();
 
-        // Here we need to iterate the optypes in the hugr mutably, to avoid
-        // having to clone and accumulate all replacements before finally
-        // applying them.
+        let weak_extensions: WeakExtensionRegistry = extensions.into();
+
+        // Iterate the optypes in the hugr mutably, to avoid having to clone and
+        // accumulate all replacements before finally applying them.
         //
         // This is not something we want to expose it the API, so we manually
         // iterate instead of writing it as a method.
-        //
-        // Since we don't have a non-borrowing iterator over all the possible
-        // NodeIds, we have to simulate it by iterating over all possible
-        // indices and checking if the node exists.
-        let weak_extensions: WeakExtensionRegistry = extensions.into();
-        for n in 0..self.graph.node_capacity() {
-            let pg_node = portgraph::NodeIndex::new(n);
+        for pg_node in self.graph.nodes_iter() {
             let node: Node = pg_node.into();
-            if !self.contains_node(node) {
-                continue;
-            }
-
             let op = &mut self.op_types[pg_node];
 
             if let Some(extension) = resolve_op_extensions(node, op, extensions)? {
-- 
2.43.0


From d3da77d21c2ffc294b16cbb94b9e27fdfc75869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 30/56] fix: loading nested programs failed if only those use
 an extension

---
 hugr-core/src/extension/resolution/types_mut.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/extension/resolution/types_mut.rs b/hugr-core/src/extension/resolution/types_mut.rs
index 359241f..e95e531 100644
--- a/hugr-core/src/extension/resolution/types_mut.rs
+++ b/hugr-core/src/extension/resolution/types_mut.rs
@@ -7,11 +7,11 @@ use std::sync::Weak;
 
 use super::types::collect_type_exts;
 use super::{ExtensionResolutionError, WeakExtensionRegistry};
-use crate::extension::ExtensionSet;
+use crate::extension::{ExtensionRegistry, ExtensionSet};
 use crate::ops::{OpType, Value};
 use crate::types::type_row::TypeRowBase;
 use crate::types::{CustomType, FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
-use crate::{Extension, Node};
+use crate::{Extension, HugrView, Node};
 
 /// Replace the dangling extension pointer in the [`CustomType`]s inside an
 /// optype with a valid pointer to the extension in the `extensions`
@@ -279,8 +279,14 @@ pub(super) fn resolve_value_exts(
         }
         Value::Function { hugr } => {
             // We don't need to add the nested hugr's extensions to the main one here,
-            // but we run resolution on it independently.
-            if let Ok(exts) = extensions.try_into() {
+            // but we run resolution on it independently. It may have extensions of its own that
+            // the main hugr does not use.
+            if let Ok(mut exts) = ExtensionRegistry::try_from(extensions) {
+                for ext in hugr.extensions() {
+                    if !exts.contains(ext.name()) {
+                        exts.register_updated_ref(ext);
+                    }
+                }
                 hugr.resolve_extension_defs(&exts)?;
             }
         }
-- 
2.43.0


From 4976bae29d87d8d8da9739f8b0ba13ee170acdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 31/56] fix: the model text of polymorphic functions and of
 some float literals could not be parsed

---
 hugr-model/src/v0/ast/hugr.pest |  3 ++-
 hugr-model/src/v0/ast/print.rs  | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index d960cb3..1fa0b5a 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -1,5 +1,6 @@
 WHITESPACE         = _{ " " | "\t" | "\r" | "\n" }
 COMMENT            = _{ ";" ~ (!("\n") ~ ANY)* ~ "\n" }
+variable_name      = @{ identifier_rest+ }
 identifier         = @{ identifier_initial ~ identifier_rest* }
 identifier_initial = @{ ASCII_ALPHA | "_" | "-" }
 identifier_rest    = @{ ASCII_ALPHANUMERIC | "_" | "-" }
@@ -103,7 +104,7 @@ term = {
 }
 
 term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
-term_var        =  { "?" ~ identifier }
+term_var        =  { "?" ~ variable_name }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
diff --git a/hugr-model/src/v0/ast/print.rs b/hugr-model/src/v0/ast/print.rs
index 071146d..2ee6f40 100644
--- a/hugr-model/src/v0/ast/print.rs
+++ b/hugr-model/src/v0/ast/print.rs
@@ -169,8 +169,15 @@ fn print_literal<'a>(printer: &mut Printer<'a>, literal: &'a Literal) {
             printer.parens_exit();
         }
         Literal::Float(float) => {
-            // The debug representation of a float always includes a decimal point.
-            printer.text(format!("{:.?}", float.into_inner()));
+            // The debug representation of a float includes a decimal point unless
+            // it is in scientific notation, e.g. `1e300`.
+            let mut text = format!("{:?}", float.into_inner());
+            if !text.contains('.')
+                && let Some(exponent) = text.find('e')
+            {
+                text.insert_str(exponent, ".0");
+            }
+            printer.text(text);
         }
     }
 }
-- 
2.43.0


From 8b22f590e359e2733a56707c7c8e38814305ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 32/56] fix: extensions packaged with a text model were not
 resolved

---
 hugr-core/src/envelope/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 803b5b6..ff4f7e2 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -222,7 +222,11 @@ impl<R: BufRead> EnvelopeReader<R> {
                 .into_iter::<Vec<Extension>>()
                 .next()
                 .unwrap_or(Ok(vec![]))?;
-            ExtensionRegistry::new(extra_extensions.into_iter().map(std::sync::Arc::new))
+            ExtensionRegistry::new_with_extension_resolution(
+                extra_extensions,
+                &(&self.registry).into(),
+            )
+            .map_err(crate::extension::ExtensionRegistryLoadError::from)?
         } else {
             ExtensionRegistry::new([])
         };
-- 
2.43.0


From 5df04163f99e401abadf9c849a17a5c2efd440dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 33/56] fix: reading malformed JSON programs panicked on bad
 nodes, ports or parents

---
 hugr-core/src/core.rs           | 11 +++++
 hugr-core/src/hugr/serialize.rs | 86 ++++++++++++++++++++++++++++-----
 2 files changed, 84 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/core.rs b/hugr-core/src/core.rs
index 4578aa5..acaa63a 100644
--- a/hugr-core/src/core.rs
+++ b/hugr-core/src/core.rs
@@ -15,9 +15,20 @@ use crate::{HugrView, hugr::HugrError};
 )]
 #[serde(transparent)]
 pub struct Node {
+    #[serde(deserialize_with = "deserialize_node_index")]
     index: portgraph::NodeIndex,
 }
 
+/// Deserialize a node index, with an error if it is out of range.
+///
+/// Portgraph's own implementation panics.
+fn deserialize_node_index<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> Result<portgraph::NodeIndex, D::Error> {
+    let index = <u32 as serde::Deserialize>::deserialize(deserializer)?;
+    portgraph::NodeIndex::try_from(index as usize).map_err(serde::de::Error::custom)
+}
+
 /// A handle to a port for a node in the HUGR.
 #[derive(
     Clone,
diff --git a/hugr-core/src/hugr/serialize.rs b/hugr-core/src/hugr/serialize.rs
index 5ddc9e3..731f7e6 100644
--- a/hugr-core/src/hugr/serialize.rs
+++ b/hugr-core/src/hugr/serialize.rs
@@ -134,6 +134,38 @@ pub enum HUGRSerializationError {
         /// The node that has the port without offset.
         node: Node,
     },
+    /// Edge with an offset that is not a port of the node.
+    #[error("The node {node} with operation type {op_type} has no {dir:?} port {offset}.")]
+    UnknownPort {
+        /// The node that does not have the port.
+        node: Node,
+        /// The direction of the port.
+        dir: Direction,
+        /// The offset of the port.
+        offset: usize,
+        /// The operation type of the node.
+        op_type: OpType,
+    },
+    /// A parent or the entrypoint, or a node with metadata, that is not one of the nodes
+    /// (or not one of the preceding nodes, in the case of parents).
+    #[error("Node {node} referred to by the {what} does not exist.")]
+    UnknownNode {
+        /// The node that does not exist.
+        node: Node,
+        /// The part of the serialized HUGR that refers to the node.
+        what: &'static str,
+    },
+    /// An operation that does not make sense by itself.
+    #[error("The operation {op_type} of node {node} is malformed.")]
+    MalformedOp {
+        /// The node with the malformed operation.
+        node: Node,
+        /// The operation.
+        op_type: OpType,
+    },
+    /// There are no nodes.
+    #[error("The node list is empty.")]
+    NoNodes,
     /// First node in node list must be the HUGR root.
     #[error("The first node in the node list has parent {0}, should be itself (index 0)")]
     FirstNodeNotRoot(Node),
@@ -266,7 +298,7 @@ impl TryFrom<SerHugrLatest> for Hugr {
             parent: root_parent,
             op: root_type,
             ..
-        } = nodes.next().unwrap();
+        } = nodes.next().ok_or(HUGRSerializationError::NoNodes)?;
         if root_parent.index() != 0 {
             return Err(HUGRSerializationError::FirstNodeNotRoot(root_parent));
         }
@@ -278,32 +310,56 @@ impl TryFrom<SerHugrLatest> for Hugr {
         // encoded file did not have a module at the root), we need a function
         // to map the node indices.
         let padding_nodes = hugr.entrypoint.index();
-        let hugr_node =
-            |node: Node| -> Node { portgraph::NodeIndex::new(node.index() + padding_nodes).into() };
+        let num_nodes = nodes.len() + 1;
+        let hugr_node = |node: Node, what: &'static str| -> Result<Node, Self::Error> {
+            if node.index() >= num_nodes {
+                return Err(HUGRSerializationError::UnknownNode { node, what });
+            }
+            Ok(portgraph::NodeIndex::new(node.index() + padding_nodes).into())
+        };
 
-        for node_ser in nodes {
-            hugr.add_node_with_parent(hugr_node(node_ser.parent), node_ser.op);
+        for (i, NodeSer { parent, op }) in nodes.enumerate() {
+            // Parents precede their children.
+            if parent.index() > i {
+                return Err(HUGRSerializationError::UnknownNode {
+                    node: parent,
+                    what: "parents",
+                });
+            }
+            if matches!(&op, OpType::Tag(tag) if tag.tag >= tag.variants.len()) {
+                return Err(HUGRSerializationError::MalformedOp {
+                    node: portgraph::NodeIndex::new(i + 1).into(),
+                    op_type: op,
+                });
+            }
+            hugr.add_node_with_parent(hugr_node(parent, "parents")?, op);
         }
 
         if let Some(entrypoint) = entrypoint {
-            hugr.set_entrypoint(hugr_node(entrypoint));
+            hugr.set_entrypoint(hugr_node(entrypoint, "entrypoint")?);
         }
 
         if let Some(metadata) = metadata {
             for (node_idx, metadata) in metadata.into_iter().enumerate() {
                 if let Some(metadata) = metadata {
-                    let node = hugr_node(portgraph::NodeIndex::new(node_idx).into());
+                    let node = hugr_node(portgraph::NodeIndex::new(node_idx).into(), "metadata")?;
                     hugr.metadata[node.into_portgraph()] = Some(metadata);
                 }
             }
         }
 
         let unwrap_offset = |node: Node, offset, dir, hugr: &Hugr| -> Result<usize, Self::Error> {
-            if !hugr.graph.contains_node(node.into_portgraph()) {
-                return Err(HUGRSerializationError::UnknownEdgeNode { node });
-            }
             let offset = if let Some(offset) = offset {
-                offset as usize
+                let offset = offset as usize;
+                if offset >= hugr.graph.num_ports(node.into_portgraph(), dir) {
+                    return Err(HUGRSerializationError::UnknownPort {
+                        node,
+                        dir,
+                        offset,
+                        op_type: hugr.get_optype(node).clone(),
+                    });
+                }
+                offset
             } else {
                 let op_type = hugr.get_optype(node);
                 op_type
@@ -318,8 +374,12 @@ impl TryFrom<SerHugrLatest> for Hugr {
             Ok(offset)
         };
         for [(src, from_offset), (dst, to_offset)] in edges {
-            let src = hugr_node(src);
-            let dst = hugr_node(dst);
+            let edge_node = |node: Node| {
+                hugr_node(node, "edges")
+                    .map_err(|_| HUGRSerializationError::UnknownEdgeNode { node })
+            };
+            let src = edge_node(src)?;
+            let dst = edge_node(dst)?;
 
             let src_port = unwrap_offset(src, from_offset, Direction::Outgoing, &hugr)?;
             let dst_port = unwrap_offset(dst, to_offset, Direction::Incoming, &hugr)?;
-- 
2.43.0


From 1570feb58498fe22c8f907416ae3d4b6fdfb623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 34/56] fix: reading malformed model programs panicked or did
 not terminate

---
 hugr-core/src/import.rs        | 173 ++++++++++++++++++++++++++++-----
 hugr-model/src/v0/ast/parse.rs |   6 +-
 2 files changed, 155 insertions(+), 24 deletions(-)

diff --git a/hugr-core/src/import.rs b/hugr-core/src/import.rs
index 8c4f2a2..f21c91b 100644
--- a/hugr-core/src/import.rs
+++ b/hugr-core/src/import.rs
@@ -255,6 +255,9 @@ pub(crate) fn import_described_hugr(
         description: ModuleDesc::default(),
     };
 
+    if let Err(inner) = check_acyclic(module) {
+        return (ctx.description, Err(ImportError { inner }));
+    }
     if let Some(s) = get_generator(&ctx) {
         ctx.description.set_generator(s);
     }
@@ -276,6 +279,97 @@ pub(crate) fn import_described_hugr(
     (ctx.description, Ok(ctx.hugr))
 }
 
+/// Checks that no term, node or region contains itself.
+///
+/// The text format cannot express such modules, but in the binary format all
+/// of these refer to each other by index.
+fn check_acyclic(module: &table::Module) -> Result<(), ImportErrorInner> {
+    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
+    enum Item {
+        Term(table::TermId),
+        Node(table::NodeId),
+        Region(table::RegionId),
+    }
+
+    fn parts(module: &table::Module, item: Item) -> Vec<Item> {
+        fn seq(parts: &[table::SeqPart]) -> Vec<Item> {
+            let term = |part: &table::SeqPart| match part {
+                table::SeqPart::Item(term) | table::SeqPart::Splice(term) => Item::Term(*term),
+            };
+            parts.iter().map(term).collect()
+        }
+        fn symbol<'a>(symbol: &'a table::Symbol<'a>) -> impl Iterator<Item = table::TermId> + 'a {
+            let params = symbol.params.iter().map(|param| param.r#type);
+            params
+                .chain(symbol.constraints.iter().copied())
+                .chain([symbol.signature])
+        }
+
+        match item {
+            Item::Term(id) => match module.get_term(id) {
+                Some(table::Term::Apply(_, args)) => args.iter().copied().map(Item::Term).collect(),
+                Some(table::Term::List(parts) | table::Term::Tuple(parts)) => seq(parts),
+                Some(table::Term::Func(region)) => vec![Item::Region(*region)],
+                _ => vec![],
+            },
+            Item::Node(id) => {
+                let Some(node) = module.get_node(id) else {
+                    return vec![];
+                };
+                let mut terms = node.meta.to_vec();
+                terms.extend(node.signature);
+                match &node.operation {
+                    table::Operation::DefineFunc(s)
+                    | table::Operation::DeclareFunc(s)
+                    | table::Operation::DeclareAlias(s)
+                    | table::Operation::DeclareConstructor(s)
+                    | table::Operation::DeclareOperation(s) => terms.extend(symbol(s)),
+                    table::Operation::DefineAlias(s, value) => {
+                        terms.extend(symbol(s));
+                        terms.push(*value);
+                    }
+                    table::Operation::Custom(operation) => terms.push(*operation),
+                    _ => {}
+                }
+                let regions = node.regions.iter().copied().map(Item::Region);
+                regions.chain(terms.into_iter().map(Item::Term)).collect()
+            }
+            Item::Region(id) => {
+                let Some(region) = module.get_region(id) else {
+                    return vec![];
+                };
+                let mut terms = region.meta.to_vec();
+                terms.extend(region.signature);
+                let nodes = region.children.iter().copied().map(Item::Node);
+                nodes.chain(terms.into_iter().map(Item::Term)).collect()
+            }
+        }
+    }
+
+    // Items that are known to be fine, or that contain the one being visited.
+    let mut done = FxHashMap::<Item, bool>::default();
+    let mut stack = vec![(Item::Region(module.root), false)];
+    while let Some((item, finished)) = stack.pop() {
+        if finished {
+            done.insert(item, true);
+            continue;
+        }
+        match done.get(&item) {
+            Some(true) => continue,
+            Some(false) => {
+                return Err(error_invalid!(
+                    "the module has a term, node or region that contains itself"
+                ));
+            }
+            None => {}
+        }
+        done.insert(item, false);
+        stack.push((item, true));
+        stack.extend(parts(module, item).into_iter().map(|part| (part, false)));
+    }
+    Ok(())
+}
+
 struct Context<'a> {
     /// The module being imported.
     module: &'a table::Module<'a>,
@@ -353,8 +447,8 @@ impl<'a> Context<'a> {
         self.nodes.insert(node_id, node);
 
         let node_data = self.get_node(node_id)?;
-        self.record_links(node, Direction::Incoming, node_data.inputs);
-        self.record_links(node, Direction::Outgoing, node_data.outputs);
+        self.record_links(node, Direction::Incoming, node_data.inputs)?;
+        self.record_links(node, Direction::Outgoing, node_data.outputs)?;
 
         for meta_item in node_data.meta {
             self.import_node_metadata(node, *meta_item)
@@ -422,10 +516,19 @@ impl<'a> Context<'a> {
     }
 
     /// Associate links with the ports of the given node in the given direction.
-    fn record_links(&mut self, node: Node, direction: Direction, links: &'a [table::LinkIndex]) {
-        let optype = self.hugr.get_optype(node);
+    fn record_links(
+        &mut self,
+        node: Node,
+        direction: Direction,
+        links: &'a [table::LinkIndex],
+    ) -> Result<(), ImportErrorInner> {
         // NOTE: `OpType::port_count` copies the signature, which significantly slows down the import.
-        debug_assert!(links.len() <= optype.port_count(direction));
+        if links.len() > self.hugr.num_ports(node, direction) {
+            return Err(error_invalid!(
+                "there are more links than the operation `{}` has ports",
+                self.hugr.get_optype(node)
+            ));
+        }
 
         for (link, port) in links.iter().zip(self.hugr.node_ports(node, direction)) {
             self.link_ports
@@ -433,6 +536,8 @@ impl<'a> Context<'a> {
                 .or_default()
                 .push((node, port));
         }
+
+        Ok(())
     }
 
     /// Link up the ports in the hugr graph, according to the connectivity information that
@@ -491,11 +596,20 @@ impl<'a> Context<'a> {
     /// Connects static ports according to the connections in [`self.static_edges`].
     fn link_static_ports(&mut self) -> Result<(), ImportErrorInner> {
         for (src_id, dst_id) in std::mem::take(&mut self.static_edges) {
-            // None of these lookups should fail given how we constructed `static_edges`.
-            let src = self.nodes[&src_id];
-            let dst = self.nodes[&dst_id];
-            let src_port = self.hugr.get_optype(src).static_output_port().unwrap();
-            let dst_port = self.hugr.get_optype(dst).static_input_port().unwrap();
+            // The lookups of the source fail if the symbol does not refer to an imported function.
+            let src = self.nodes.get(&src_id).copied();
+            let src_port = src.and_then(|src| self.hugr.get_optype(src).static_output_port());
+            let dst = self.nodes.get(&dst_id).copied();
+            let dst_port = dst.and_then(|dst| self.hugr.get_optype(dst).static_input_port());
+            let (Some(src), Some(src_port), Some(dst), Some(dst_port)) =
+                (src, src_port, dst, dst_port)
+            else {
+                return Err(error_invalid!(
+                    "node {} is not a function that node {} can refer to",
+                    src_id,
+                    dst_id
+                ));
+            };
             self.hugr.connect(src, src_port, dst, dst_port);
         }
 
@@ -707,8 +821,8 @@ impl<'a> Context<'a> {
         );
 
         // Make sure that the ports of the input/output nodes are connected correctly
-        self.record_links(input, Direction::Outgoing, region_data.sources);
-        self.record_links(output, Direction::Incoming, region_data.targets);
+        self.record_links(input, Direction::Outgoing, region_data.sources)?;
+        self.record_links(output, Direction::Incoming, region_data.targets)?;
 
         for child in region_data.children {
             self.import_node(*child, node)?;
@@ -753,9 +867,11 @@ impl<'a> Context<'a> {
                     continue;
                 };
 
-                // NOTE: The lookups here are expected to succeed since we only
-                // process the order metadata after we have imported the nodes.
-                let child_node = self.nodes[child_id];
+                // NOTE: We only process the order metadata after we have imported the nodes,
+                // but not all of the model's nodes are nodes of the hugr.
+                let Some(&child_node) = self.nodes.get(child_id) else {
+                    return Err(OrderHintError::NoOrderPort(*child_id).into());
+                };
                 let child_optype = self.hugr.get_optype(child_node);
 
                 // Check that the node has order ports.
@@ -810,11 +926,17 @@ impl<'a> Context<'a> {
             let a = order_keys.get(a).ok_or(OrderHintError::UnknownKey(*a))?;
             let b = order_keys.get(b).ok_or(OrderHintError::UnknownKey(*b))?;
 
-            // NOTE: The unwrap here must succeed:
-            // - For all ordinary nodes we checked that they have an order port.
-            // - Input and output nodes always have an order port.
-            let a_port = self.hugr.get_optype(*a).other_output_port().unwrap();
-            let b_port = self.hugr.get_optype(*b).other_input_port().unwrap();
+            // NOTE: For all ordinary nodes we checked that they have order ports. Input and
+            // output nodes have only one each.
+            let (Some(a_port), Some(b_port)) = (
+                self.hugr.get_optype(*a).other_output_port(),
+                self.hugr.get_optype(*b).other_input_port(),
+            ) else {
+                return Err(error_invalid!(
+                    "there is an order hint from an output node or to an input node in region {}",
+                    region_id
+                ));
+            };
 
             self.hugr.connect(*a, a_port, *b, b_port);
         }
@@ -1030,7 +1152,7 @@ impl<'a> Context<'a> {
             let exit = self
                 .hugr
                 .add_node_with_parent(node, OpType::ExitBlock(ExitBlock { cfg_outputs }));
-            self.record_links(exit, Direction::Incoming, region_data.targets);
+            self.record_links(exit, Direction::Incoming, region_data.targets)?;
         }
 
         // Finally we import all other nodes.
@@ -1300,6 +1422,12 @@ impl<'a> Context<'a> {
                 .ok_or_else(|| error_uninferred!("node signature"))?;
             let [_, outputs] = self.get_func_type(signature)?;
             let (variants, _) = self.import_adt_and_rest(outputs)?;
+            if *tag >= variants.len() as u64 {
+                return Err(error_invalid!(
+                    "the tag of a `{}` must be a valid index into the list of variants",
+                    model::CORE_MAKE_ADT
+                ));
+            }
             let node = self.make_node(
                 node_id,
                 OpType::Tag(Tag {
@@ -1994,7 +2122,8 @@ impl<'a> Context<'a> {
                 }
             };
 
-            return Ok(Value::sum(*tag as _, items, ty).unwrap());
+            return Value::sum(*tag as _, items, ty)
+                .map_err(|err| error_invalid!("malformed `{}`: {}", model::CORE_CONST_ADT, err));
         }
 
         match term_data {
diff --git a/hugr-model/src/v0/ast/parse.rs b/hugr-model/src/v0/ast/parse.rs
index a2c9a5c..06146c7 100644
--- a/hugr-model/src/v0/ast/parse.rs
+++ b/hugr-model/src/v0/ast/parse.rs
@@ -397,8 +397,10 @@ fn parse_bytes(pair: Pair<Rule>) -> ParseResult<Arc<[u8]>> {
 
 fn parse_nat(pair: Pair<Rule>) -> ParseResult<u64> {
     debug_assert_eq!(pair.as_rule(), Rule::literal_nat);
-    let value = pair.as_str().trim().parse().unwrap();
-    Ok(value)
+    pair.as_str()
+        .trim()
+        .parse()
+        .map_err(|_| ParseError::custom("natural number literal is too large", pair.as_span()))
 }
 
 fn parse_float(pair: Pair<Rule>) -> ParseResult<OrderedFloat<f64>> {
-- 
2.43.0


From c0069c317caa03a774f041d4568ea6a710cf462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 35/56] fix: validating untrusted programs panicked on
 malformed operations, types or children

---
 hugr-core/src/extension/type_def.rs           |  3 +-
 hugr-core/src/hugr/validate.rs                | 28 +++++++++++++++++++
 hugr-core/src/ops/dataflow.rs                 |  2 ++
 .../src/std_extensions/arithmetic/int_ops.rs  |  5 ++--
 .../std_extensions/arithmetic/int_types.rs    | 16 +++++++++++
 .../collections/array/array_op.rs             | 12 ++++++--
 6 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/extension/type_def.rs b/hugr-core/src/extension/type_def.rs
index b848c75..fb47831 100644
--- a/hugr-core/src/extension/type_def.rs
+++ b/hugr-core/src/extension/type_def.rs
@@ -148,7 +148,8 @@ impl TypeDef {
                     let ta = args.get(*i);
                     match ta {
                         Some(TypeArg::Runtime(s)) => s.least_upper_bound(),
-                        _ => panic!("TypeArg index does not refer to a type."),
+                        // The arguments do not fit the parameters. Assume the most general case.
+                        _ => TypeBound::Linear,
                     }
                 }))
             }
diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 25316db..d85324b 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -355,6 +355,25 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                         position: "second",
                     });
                 }
+            } else if flags.allowed_second_child != OpTag::Any {
+                return Err(ValidationError::MissingSecondChild {
+                    parent: node,
+                    parent_optype: Box::new(op_type.clone()),
+                    expected: flags.allowed_second_child,
+                });
+            }
+            // The operation's own checks rely on the tags of the children.
+            for child in all_children.clone() {
+                let child_optype = self.hugr.get_optype(child);
+                if !flags.allowed_children.is_superset(child_optype.tag()) {
+                    return Err(ValidationError::InvalidParentOp {
+                        child,
+                        child_optype: Box::new(child_optype.clone()),
+                        parent: node,
+                        parent_optype: Box::new(op_type.clone()),
+                        allowed_children: flags.allowed_children,
+                    });
+                }
             }
             // Additional validations running over the full list of children optypes
             let children_optypes = all_children.map(|c| (c, self.hugr.get_optype(c)));
@@ -729,6 +748,15 @@ pub enum ValidationError<N: HugrNode> {
     /// The node must have children, but has none.
     #[error("{node} with optype {optype} must have children, but has none.")]
     ContainerWithoutChildren { node: N, optype: Box<OpType> },
+    /// The node must have at least two children, but has only one.
+    #[error(
+        "The operation {parent_optype} must have a {expected} as its second child. In {parent}."
+    )]
+    MissingSecondChild {
+        parent: N,
+        parent_optype: Box<OpType>,
+        expected: OpTag,
+    },
     /// The children of a node do not form a DAG.
     #[error(
         "The children of an operation {optype} must form a DAG. Loops are not allowed. In {node}."
diff --git a/hugr-core/src/ops/dataflow.rs b/hugr-core/src/ops/dataflow.rs
index 2a09fef..a5540d8 100644
--- a/hugr-core/src/ops/dataflow.rs
+++ b/hugr-core/src/ops/dataflow.rs
@@ -280,6 +280,7 @@ impl Call {
     }
 
     pub(crate) fn validate(&self) -> Result<(), SignatureError> {
+        self.func_sig.validate()?;
         let other = Self::try_new(self.func_sig.clone(), self.type_args.clone())?;
         if other.instantiation == self.instantiation {
             Ok(())
@@ -471,6 +472,7 @@ impl LoadFunction {
     }
 
     pub(crate) fn validate(&self) -> Result<(), SignatureError> {
+        self.func_sig.validate()?;
         let other = Self::try_new(self.func_sig.clone(), self.type_args.clone())?;
         if other.instantiation == self.instantiation {
             Ok(())
diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops.rs b/hugr-core/src/std_extensions/arithmetic/int_ops.rs
index 579ef63..056ea1e 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops.rs
@@ -11,7 +11,6 @@ use crate::extension::{CustomValidator, OpDef, SignatureFunc, ValidateJustArgs};
 use crate::ops::OpName;
 use crate::ops::custom::ExtensionOp;
 use crate::types::{FuncValueType, PolyFuncTypeRV, TypeRowRV};
-use crate::utils::collect_array;
 
 use crate::{
     Extension,
@@ -35,7 +34,9 @@ struct IOValidator {
 
 impl ValidateJustArgs for IOValidator {
     fn validate(&self, arg_values: &[TypeArg]) -> Result<(), SignatureError> {
-        let [arg0, arg1] = collect_array(arg_values);
+        let [arg0, arg1] = arg_values else {
+            return Err(SignatureError::InvalidTypeArgs);
+        };
         let i: u8 = get_log_width(arg0)?;
         let o: u8 = get_log_width(arg1)?;
         let cmp = if self.f_ge_s { i >= o } else { i <= o };
diff --git a/hugr-core/src/std_extensions/arithmetic/int_types.rs b/hugr-core/src/std_extensions/arithmetic/int_types.rs
index 04567aa..ecd0a30 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_types.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_types.rs
@@ -91,6 +91,7 @@ const fn type_arg(log_width: u8) -> TypeArg {
 
 /// An integer (either signed or unsigned)
 #[derive(Clone, Debug, Eq, PartialEq, Hash, serde::Serialize, serde::Deserialize)]
+#[serde(try_from = "SerConstInt")]
 pub struct ConstInt {
     log_width: u8,
     // We always use a u64 for the value. The interpretation is:
@@ -101,6 +102,21 @@ pub struct ConstInt {
     value: u64,
 }
 
+/// The serialized form of a [`ConstInt`], before checking that the value is in range.
+#[derive(serde::Deserialize)]
+struct SerConstInt {
+    log_width: u8,
+    value: u64,
+}
+
+impl TryFrom<SerConstInt> for ConstInt {
+    type Error = ConstTypeError;
+
+    fn try_from(SerConstInt { log_width, value }: SerConstInt) -> Result<Self, Self::Error> {
+        Self::new_u(log_width, value)
+    }
+}
+
 impl ConstInt {
     /// Name of the constructor for creating constant integers.
     pub(crate) const CTR_NAME: &'static str = "arithmetic.int.const";
diff --git a/hugr-core/src/std_extensions/collections/array/array_op.rs b/hugr-core/src/std_extensions/collections/array/array_op.rs
index 1eafb59..4afc3a6 100644
--- a/hugr-core/src/std_extensions/collections/array/array_op.rs
+++ b/hugr-core/src/std_extensions/collections/array/array_op.rs
@@ -75,17 +75,23 @@ impl<AK: ArrayKind> SignatureFromArgs for GenericArrayOpDef<AK> {
         let elem_ty_var = Type::new_var_use(0, TypeBound::Linear);
         let array_ty = AK::ty(n, elem_ty_var.clone());
         let params = vec![TypeBound::Linear.into()];
+        // There can be no operations with more ports than this.
+        let num_elem_ports = || match u16::try_from(n) {
+            Ok(n) => Ok(n as usize),
+            Err(_) => Err(SignatureError::InvalidTypeArgs),
+        };
         let poly_func_ty = match self {
             GenericArrayOpDef::new_array => PolyFuncTypeRV::new(
                 params,
-                FuncValueType::new(vec![elem_ty_var.clone(); n as usize], array_ty),
+                FuncValueType::new(vec![elem_ty_var.clone(); num_elem_ports()?], array_ty),
             ),
             GenericArrayOpDef::unpack => PolyFuncTypeRV::new(
                 params,
-                FuncValueType::new(array_ty, vec![elem_ty_var.clone(); n as usize]),
+                FuncValueType::new(array_ty, vec![elem_ty_var.clone(); num_elem_ports()?]),
             ),
             GenericArrayOpDef::pop_left | GenericArrayOpDef::pop_right => {
-                let popped_array_ty = AK::ty(n - 1, elem_ty_var.clone());
+                let popped_size = n.checked_sub(1).ok_or(SignatureError::InvalidTypeArgs)?;
+                let popped_array_ty = AK::ty(popped_size, elem_ty_var.clone());
                 PolyFuncTypeRV::new(
                     params,
                     FuncValueType::new(
-- 
2.43.0


From 173c3864d3c17043b0f01bd3fbc1922fcd493a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 36/56] fix: metadata of removed nodes was left to the nodes
 reusing their indices, and not moved by canonicalize_nodes

---
 hugr-core/src/hugr.rs         | 1 +
 hugr-core/src/hugr/hugrmut.rs | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index 2787dd1..5a37d86 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -374,6 +374,7 @@ impl Hugr {
             if pg_target != pg_source {
                 self.graph.swap_nodes(pg_target, pg_source);
                 self.op_types.swap(pg_target, pg_source);
+                self.metadata.swap(pg_target, pg_source);
                 self.hierarchy.swap_nodes(pg_target, pg_source);
                 rekey(source, pg_target.into());
             }
diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 3a1564c..d06bffb 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,6 +486,8 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
+        // The index may be reused by another node.
+        self.metadata.remove(node.into_portgraph());
         self.op_types.take(node.into_portgraph())
     }
 
-- 
2.43.0


From 4e0a2b5413186d29f80c431c3aec5b4786dd99d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 37/56] fix: removing ports with several links could leave an
 inconsistent graph

---
 hugr-core/src/hugr/internal.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index bb1a77f..20a0467 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -282,8 +282,7 @@ impl HugrMutInternals for Hugr {
     #[inline]
     fn set_num_ports(&mut self, node: Node, incoming: usize, outgoing: usize) {
         panic_invalid_node(self, node);
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.resize_ports(node, incoming, outgoing);
     }
 
     fn add_ports(&mut self, node: Node, direction: Direction, amount: isize) -> Range<usize> {
@@ -300,8 +299,7 @@ impl HugrMutInternals for Hugr {
             Direction::Incoming => increment(&mut incoming),
             Direction::Outgoing => increment(&mut outgoing),
         };
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.resize_ports(node, incoming, outgoing);
         range
     }
 
@@ -391,6 +389,24 @@ impl HugrMutInternals for Hugr {
 }
 
 impl Hugr {
+    /// Sets the number of ports of a node, disconnecting those that are removed.
+    fn resize_ports(&mut self, node: Node, incoming: usize, outgoing: usize) {
+        let node = node.into_portgraph();
+        // Removing a port with multiple links from the graph while others are
+        // moved may leave it in an inconsistent state.
+        for (dir, new_num) in [
+            (Direction::Incoming, incoming),
+            (Direction::Outgoing, outgoing),
+        ] {
+            for offset in new_num..self.graph.num_ports(node, dir) {
+                let port = self.graph.port_index(node, PortOffset::new(dir, offset));
+                self.graph.unlink_port(port.unwrap());
+            }
+        }
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |_, _| {});
+    }
+
     /// Consumes the HUGR and return a flat portgraph view of the region rooted
     /// at `parent`.
     #[inline]
-- 
2.43.0


From aaeccabe397505cfa478adc7452aeb8d37d4dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 38/56] fix: rewrites panicked on recursive calls, entry
 blocks, order edges or requests refused by their verification

---
 hugr-core/src/hugr/hugrmut.rs                |  9 +++++++--
 hugr-core/src/hugr/internal.rs               | 10 +++++-----
 hugr-core/src/hugr/patch/consts.rs           |  4 +---
 hugr-core/src/hugr/patch/inline_call.rs      | 20 +++++++++-----------
 hugr-core/src/hugr/patch/insert_cut.rs       |  1 +
 hugr-core/src/hugr/patch/replace.rs          |  1 +
 hugr-core/src/hugr/views.rs                  |  9 +++++++++
 hugr-core/src/hugr/views/sibling_subgraph.rs |  8 +++-----
 8 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index d06bffb..e9beb66 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -625,13 +625,18 @@ impl HugrMut for Hugr {
         let node_map =
             translate_indices(Into::into, Into::into, node_map).collect::<BTreeMap<_, _>>();
 
+        // Children to copy (before adding any copies, as `new_parent` may be one of `nodes`)
+        let children_of = |n: &Node| (*n, self.children(*n).collect::<Vec<_>>());
+        let children = node_map.keys().map(children_of).collect::<Vec<_>>();
+
         for node in self.children(root).collect::<Vec<_>>() {
             self.set_parent(*node_map.get(&node).unwrap(), new_parent);
         }
 
         // Copy the optypes, metadata, and hierarchy
-        for (&node, &new_node) in &node_map {
-            for ch in self.children(node).collect::<Vec<_>>() {
+        for (node, children) in children {
+            let new_node = node_map[&node];
+            for ch in children {
                 self.set_parent(*node_map.get(&ch).unwrap(), new_node);
             }
             let new_optype = match (&subst, self.get_optype(node)) {
diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index 20a0467..e27951e 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -11,7 +11,7 @@ use crate::extension::ExtensionRegistry;
 use crate::{Direction, Hugr, Node};
 
 use super::HugrView;
-use super::views::{panic_invalid_node, panic_invalid_non_entrypoint};
+use super::views::{panic_invalid_node, panic_invalid_non_root};
 use super::{NodeMetadataMap, OpType};
 use crate::ops::handle::NodeHandle;
 
@@ -348,8 +348,8 @@ impl HugrMutInternals for Hugr {
     }
 
     fn move_after_sibling(&mut self, node: Node, after: Node) {
-        panic_invalid_non_entrypoint(self, node);
-        panic_invalid_non_entrypoint(self, after);
+        panic_invalid_non_root(self, node);
+        panic_invalid_non_root(self, after);
         self.hierarchy.detach(node.into_portgraph());
         self.hierarchy
             .insert_after(node.into_portgraph(), after.into_portgraph())
@@ -357,8 +357,8 @@ impl HugrMutInternals for Hugr {
     }
 
     fn move_before_sibling(&mut self, node: Node, before: Node) {
-        panic_invalid_non_entrypoint(self, node);
-        panic_invalid_non_entrypoint(self, before);
+        panic_invalid_non_root(self, node);
+        panic_invalid_non_root(self, before);
         self.hierarchy.detach(node.into_portgraph());
         self.hierarchy
             .insert_before(node.into_portgraph(), before.into_portgraph())
diff --git a/hugr-core/src/hugr/patch/consts.rs b/hugr-core/src/hugr/patch/consts.rs
index dcdeea5..a500129 100644
--- a/hugr-core/src/hugr/patch/consts.rs
+++ b/hugr-core/src/hugr/patch/consts.rs
@@ -64,9 +64,7 @@ impl<N: HugrNode> PatchHugrMut for RemoveLoadConstant<N> {
         self.verify(h)?;
         let node = self.0;
         let source = h
-            .input_neighbours(node)
-            .exactly_one()
-            .ok()
+            .static_source(node)
             .expect("Validation should check a Const is connected to LoadConstant.");
         h.remove_node(node);
 
diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index e3faa2c..039e098 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -63,6 +63,14 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         self.verify(h)?; // Now we know we have a Call to a FuncDefn.
         let orig_func = h.static_source(self.0).unwrap();
 
+        // Copy the body first, in case it contains this (recursive) call
+        let ty_args = h.get_optype(self.0).as_call().unwrap().type_args.clone();
+        h.copy_descendants(
+            orig_func,
+            self.0,
+            (!ty_args.is_empty()).then_some(Substitution::new(&ty_args)),
+        );
+
         h.disconnect(self.0, h.get_optype(self.0).static_input_port().unwrap());
 
         // The order input port gets renumbered because the static input
@@ -82,12 +90,7 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-        let ty_args = h
-            .replace_op(self.0, new_op)
-            .as_call()
-            .unwrap()
-            .type_args
-            .clone();
+        h.replace_op(self.0, new_op);
 
         h.add_ports(self.0, Direction::Incoming, -1);
 
@@ -96,11 +99,6 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
             h.connect(src, srcp, self.0, new_order_in);
         }
 
-        h.copy_descendants(
-            orig_func,
-            self.0,
-            (!ty_args.is_empty()).then_some(Substitution::new(&ty_args)),
-        );
         Ok(())
     }
 
diff --git a/hugr-core/src/hugr/patch/insert_cut.rs b/hugr-core/src/hugr/patch/insert_cut.rs
index 518c75c..0e03bfa 100644
--- a/hugr-core/src/hugr/patch/insert_cut.rs
+++ b/hugr-core/src/hugr/patch/insert_cut.rs
@@ -135,6 +135,7 @@ impl PatchHugrMut for InsertCut<Node> {
         self,
         h: &mut impl HugrMut<Node = Node>,
     ) -> Result<Self::Outcome, InsertCutError> {
+        self.verify(h)?;
         let insert_res = h.insert_hugr(self.parent, self.insertion);
         let inserted_entrypoint = insert_res.inserted_entrypoint;
         for (i, (target, port)) in self.targets.into_iter().enumerate() {
diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index ba4104a..2783ce6 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -338,6 +338,7 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         self,
         h: &mut impl HugrMut<Node = HostNode>,
     ) -> Result<Self::Outcome, Self::Error> {
+        self.verify(h)?;
         let parent = self.check_parent(h)?;
         // Calculate removed nodes here. (Does not include transfers, so enumerates only
         // nodes we are going to remove, individually, anyway; so no *asymptotic* speed
diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index ff53ca0..0220946 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -849,6 +849,15 @@ pub(super) fn panic_invalid_non_entrypoint<H: HugrView + ?Sized>(hugr: &H, node:
     );
 }
 
+/// Panic if [`check_valid_non_root`] fails.
+#[track_caller]
+pub(super) fn panic_invalid_non_root<H: HugrView + ?Sized>(hugr: &H, node: H::Node) {
+    assert!(
+        check_valid_non_root(hugr, node),
+        "Received an invalid non-root node {node}.",
+    );
+}
+
 /// Panic if [`HugrView::valid_node`] fails.
 #[track_caller]
 pub(super) fn panic_invalid_port(hugr: &Hugr, node: Node, port: impl Into<Port>) {
diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index f5342ab..d0fafd7 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -780,11 +780,9 @@ fn get_boundary_from_nodes<N: HugrNode>(
 
     let inputs = incoming_edges
         .filter(|&(n, p)| {
-            if !hugr.is_linked(n, p) {
-                return false;
-            }
-            let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-            !nodes_set.contains(&out_n)
+            // (order and control flow ports may have several links)
+            hugr.linked_outputs(n, p)
+                .any(|(out_n, _)| !nodes_set.contains(&out_n))
         })
         // Every incoming edge is its own input.
         .map(|p| vec![p])
-- 
2.43.0


From 6a449f75ec49ef30795477623da65582049ad88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 39/56] fix: dead code elimination removed regions around entry
 points, leaving orphan nodes

---
 hugr-passes/src/dead_code.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-passes/src/dead_code.rs b/hugr-passes/src/dead_code.rs
index c5f1cdd..0e40e75 100644
--- a/hugr-passes/src/dead_code.rs
+++ b/hugr-passes/src/dead_code.rs
@@ -145,6 +145,8 @@ impl<H: HugrView> DeadCodeElimPass<H> {
                     q.push_back(ch);
                 }
             }
+            // Anything containing a needed node (e.g. an entry point) is needed too
+            q.extend(h.get_parent(n).filter(|p| removable.contains(p)));
             // Finally, follow dataflow demand (including e.g. edges from Call to FuncDefn)
             for src in h.input_neighbours(n) {
                 // Following ControlFlow edges backwards is harmless, we've already assumed all
-- 
2.43.0


From 24c42bb570c2b549b629b2fdb6222e4e587be81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 40/56] fix: monomorphization panicked on declarations and on
 bytes or float arguments

---
 hugr-passes/src/monomorphize.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hugr-passes/src/monomorphize.rs b/hugr-passes/src/monomorphize.rs
index 2d5abd5..ef12689 100644
--- a/hugr-passes/src/monomorphize.rs
+++ b/hugr-passes/src/monomorphize.rs
@@ -113,6 +113,9 @@ fn mono_scan(
         }
         let fn_inp = ch_op.static_input_port().unwrap();
         let tgt = h.static_source(old_ch).unwrap(); // Use old_ch as edges not copied yet
+        if !h.get_optype(tgt).is_func_defn() {
+            continue; // There is no definition to instantiate
+        }
         let new_tgt = instantiate(h, tgt, type_args.clone(), mono_sig.clone(), cache);
         let fn_out = {
             let func = h.get_optype(new_tgt).as_func_defn().unwrap();
@@ -235,6 +238,12 @@ fn write_type_arg_str(arg: &TypeArg, f: &mut std::fmt::Formatter<'_>) -> std::fm
         TypeArg::Runtime(ty) => f.write_fmt(format_args!("t({})", escape_dollar(ty.to_string()))),
         TypeArg::BoundedNat(n) => f.write_fmt(format_args!("n({n})")),
         TypeArg::String(arg) => f.write_fmt(format_args!("s({})", escape_dollar(arg))),
+        TypeArg::Bytes(bytes) => {
+            f.write_str("b(")?;
+            bytes.iter().try_for_each(|b| write!(f, "{b:02x}"))?;
+            f.write_char(')')
+        }
+        TypeArg::Float(x) => f.write_fmt(format_args!("f({x})")),
         TypeArg::List(elems) => f.write_fmt(format_args!("list({})", TypeArgsSeq(elems))),
         TypeArg::Tuple(elems) => f.write_fmt(format_args!("tuple({})", TypeArgsSeq(elems))),
         // We are monomorphizing. We will never monomorphize to a signature
-- 
2.43.0


From a1d52a9549c141802c2bfccff3c42996f0d5f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 41/56] fix: validation checks type arguments of calls, single
 sources of function edges, nested constants and non-block control flow
 sources

---
 hugr-core/src/hugr/validate.rs |  8 ++++++--
 hugr-core/src/ops/constant.rs  |  2 +-
 hugr-core/src/ops/validate.rs  | 17 ++++++++---------
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index d85324b..523a424 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -223,8 +223,8 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
         let mut links = self.hugr.linked_ports(node, port).peekable();
         // Linear dataflow values must be used, and control must have somewhere to flow.
         let outgoing_is_unique = port_kind.is_linear() || port_kind == EdgeKind::ControlFlow;
-        // All dataflow wires must have a unique source.
-        let incoming_is_unique = port_kind.is_value() || port_kind.is_const();
+        // All dataflow wires and static edges must have a unique source.
+        let incoming_is_unique = port_kind.is_value() || port_kind.is_static();
         let must_be_connected = match dir {
             // Incoming ports must be connected, except for state order ports, branch case nodes,
             // and CFG nodes.
@@ -600,7 +600,9 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                 ))?;
             }
             OpType::Call(c) => {
+                // The type arguments need not all occur in the instantiated signature.
                 c.validate()
+                    .and_then(|()| c.type_args.iter().try_for_each(|ta| ta.validate(var_decls)))
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
@@ -608,7 +610,9 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                     })?;
             }
             OpType::LoadFunction(c) => {
+                // The type arguments need not all occur in the instantiated signature.
                 c.validate()
+                    .and_then(|()| c.type_args.iter().try_for_each(|ta| ta.validate(var_decls)))
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
diff --git a/hugr-core/src/ops/constant.rs b/hugr-core/src/ops/constant.rs
index deebe54..6562d1e 100644
--- a/hugr-core/src/ops/constant.rs
+++ b/hugr-core/src/ops/constant.rs
@@ -497,7 +497,7 @@ impl Value {
                 sum_type,
             }) => {
                 sum_type.check_type(*tag, values)?;
-                Ok(())
+                values.iter().try_for_each(Value::validate)
             }
         }
     }
diff --git a/hugr-core/src/ops/validate.rs b/hugr-core/src/ops/validate.rs
index 9bb4ebb..23acc06 100644
--- a/hugr-core/src/ops/validate.rs
+++ b/hugr-core/src/ops/validate.rs
@@ -342,20 +342,19 @@ fn validate_io_nodes<'a, N: HugrNode>(
 
 /// Validate an edge between two basic blocks in a CFG sibling graph.
 fn validate_cfg_edge<N: HugrNode>(edge: ChildrenEdgeData<N>) -> Result<(), EdgeValidationError<N>> {
-    let source = &edge
+    // Constants may also appear in a CFG, but control flows only between blocks.
+    let source_types = edge
         .source_op
         .as_dataflow_block()
-        .expect("CFG sibling graphs can only contain basic block operations.");
-
+        .and_then(|source| source.successor_input(edge.source_port.index()));
     let target_input = match &edge.target_op {
-        OpType::DataflowBlock(dfb) => dfb.dataflow_input(),
-        OpType::ExitBlock(exit) => exit.dataflow_input(),
-        _ => panic!("CFG sibling graphs can only contain basic block operations."),
+        OpType::DataflowBlock(dfb) => Some(dfb.dataflow_input()),
+        OpType::ExitBlock(exit) => Some(exit.dataflow_input()),
+        _ => None,
     };
 
-    let source_types = source.successor_input(edge.source_port.index());
-    if source_types.as_ref() != Some(target_input) {
-        let target_types = target_input.clone();
+    if source_types.is_none() || source_types.as_ref() != target_input {
+        let target_types = target_input.cloned().unwrap_or_default();
         return Err(EdgeValidationError::CFGEdgeSignatureMismatch {
             edge: Box::new(edge),
             source_types: source_types.map(Box::new),
-- 
2.43.0


From a9c37cc3d23dfc361641831fd90957c969a20e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 42/56] fix: builders leave wires between unrelated regions to
 validation instead of panicking

---
 hugr-core/src/builder/build_traits.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/builder/build_traits.rs b/hugr-core/src/builder/build_traits.rs
index 1936c54..c08add4 100644
--- a/hugr-core/src/builder/build_traits.rs
+++ b/hugr-core/src/builder/build_traits.rs
@@ -5,7 +5,7 @@ use crate::hugr::views::HugrView;
 use crate::hugr::{NodeMetadata, ValidationError};
 use crate::ops::{self, OpTag, OpTrait, OpType, Tag, TailLoop};
 use crate::utils::collect_array;
-use crate::{Extension, IncomingPort, Node, OutgoingPort};
+use crate::{Direction, Extension, IncomingPort, Node, OutgoingPort};
 
 use std::collections::HashMap;
 use std::iter;
@@ -820,9 +820,13 @@ fn wire_up<T: Dataflow + ?Sized>(
             };
 
             if !OpTag::ControlFlowChild.is_superset(base.get_optype(src).tag())
-                && !OpTag::ControlFlowChild.is_superset(base.get_optype(src_sibling).tag())
+                && base
+                    .get_optype(src_sibling)
+                    .other_port_kind(Direction::Incoming)
+                    == Some(EdgeKind::StateOrder)
             {
-                // Add a state order constraint unless one of the nodes is a CFG BasicBlock
+                // Add a state order constraint, unless one of the nodes is a CFG BasicBlock
+                // (or the edge is not a valid one, as validation will report).
                 base.add_other_edge(src, src_sibling);
             }
         } else if !typ.copyable() & base.linked_ports(src, src_port).next().is_some() {
-- 
2.43.0


From 803fb3f91a0e4ce6eb4b70e5add77f00c09264af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 43/56] fix: subgraphs follow copied wires, keep the contents
 of their nodes and reject unsupported boundaries consistently

---
 hugr-core/src/hugr/hugrmut.rs                |   3 +-
 hugr-core/src/hugr/views/sibling_subgraph.rs | 209 ++++++++-----------
 2 files changed, 92 insertions(+), 120 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index e9beb66..799ba9c 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -268,7 +268,8 @@ pub trait HugrMut: HugrMutInternals {
     ) -> HashMap<H::Node, Self::Node> {
         self.insert_view_forest(
             other,
-            subgraph.nodes().iter().cloned(),
+            // Include the contents of the nodes in the subgraph.
+            subgraph.nodes().iter().flat_map(|n| other.descendants(*n)),
             subgraph.nodes().iter().map(|n| (*n, root)),
         )
         .expect("SiblingSubgraph nodes are a set")
diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index d0fafd7..4f2dbc5 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -9,11 +9,9 @@ use std::collections::HashSet;
 use std::mem;
 
 use itertools::Itertools;
-use portgraph::LinkView;
 use portgraph::PortView;
 use portgraph::algorithms::CreateConvexChecker;
 use portgraph::algorithms::convex::{LineIndex, LineIntervals, Position};
-use portgraph::boundary::Boundary;
 use rustc_hash::FxHashSet;
 use thiserror::Error;
 
@@ -241,17 +239,13 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &H,
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
-        let (subpg, node_map) = make_pg_subgraph(hugr, &inputs, &outputs);
-        let nodes = subpg
-            .nodes_iter()
-            .map(|index| node_map.from_portgraph(index))
-            .collect_vec();
+        let nodes = nodes_in_boundary(hugr, &inputs, &outputs);
 
         let function_calls = drain_function_calls(&mut inputs, hugr);
 
         validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
-        if nodes.len() > 1 && !subpg.is_convex_with_checker(checker) {
+        if !is_convex(checker, &nodes) {
             return Err(InvalidSubgraph::NotConvex);
         }
 
@@ -309,34 +303,27 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
         let mut nodes: Vec<N> = nodes.into();
-        let num_nodes = nodes.len();
 
         if nodes.is_empty() {
             return Err(InvalidSubgraph::EmptySubgraph);
         }
 
-        let (inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
-
-        // If there are no input/output edges, the set is always convex so we can initialize the subgraph directly.
-        // If we called `try_new_with_checker` with no boundaries, we'd select every node in the region instead of the expected subset.
-        if inputs.is_empty() && outputs.is_empty() {
-            return Ok(Self {
-                nodes,
-                inputs,
-                outputs,
-                function_calls: vec![],
-            });
-        }
+        let (mut inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
+        nodes.sort_unstable();
+        let function_calls = drain_function_calls(&mut inputs, hugr);
 
-        let mut subgraph = Self::try_new_with_checker(inputs, outputs, hugr, checker)?;
+        validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
-        // If some nodes formed a fully connected component, they won't be included in the subgraph generated from the boundaries.
-        // We re-add them here.
-        if subgraph.node_count() < num_nodes {
-            subgraph.nodes = nodes;
+        if !is_convex(checker, &nodes) {
+            return Err(InvalidSubgraph::NotConvex);
         }
 
-        Ok(subgraph)
+        Ok(Self {
+            nodes,
+            inputs,
+            outputs,
+            function_calls,
+        })
     }
 
     /// Create a subgraph from a set of nodes, using a line convexity checker
@@ -361,38 +348,20 @@ impl<N: HugrNode> SiblingSubgraph<N> {
             return Err(InvalidSubgraph::NotConvex);
         }
 
-        let nodes: Vec<N> = nodes.into();
+        let mut nodes: Vec<N> = nodes.into();
         let hugr = line_checker.hugr();
 
         if nodes.is_empty() {
             return Err(InvalidSubgraph::EmptySubgraph);
         }
 
-        let nodes_set = nodes.iter().copied().collect::<HashSet<_>>();
-        let incoming_edges = nodes
-            .iter()
-            .flat_map(|&n| hugr.node_inputs(n).map(move |p| (n, p)));
-        let outgoing_edges = nodes
-            .iter()
-            .flat_map(|&n| hugr.node_outputs(n).map(move |p| (n, p)));
-        let mut inputs = incoming_edges
-            .filter(|&(n, p)| {
-                if !hugr.is_linked(n, p) {
-                    return false;
-                }
-                let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-                !nodes_set.contains(&out_n)
-            })
-            // Every incoming edge is its own input.
-            .map(|p| vec![p])
-            .collect_vec();
-        let outputs = outgoing_edges
-            .filter(|&(n, p)| {
-                hugr.linked_ports(n, p)
-                    .any(|(n1, _)| !nodes_set.contains(&n1))
-            })
-            .collect_vec();
+        let (mut inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
         let function_calls = drain_function_calls(&mut inputs, hugr);
+        if let Some((n, p)) =
+            iter_io(&inputs, &outputs).find(|&(n, p)| is_non_value_edge(hugr, n, p))
+        {
+            return Err(InvalidSubgraph::UnsupportedEdgeKind(n, p));
+        }
 
         Ok(Self {
             nodes,
@@ -466,19 +435,17 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &'h H,
         mode: ValidationMode<'_, 'h, H>,
     ) -> Result<(), InvalidSubgraph<N>> {
-        let mut exp_nodes = {
-            let (subpg, node_map) = make_pg_subgraph(hugr, &self.inputs, &self.outputs);
-            subpg
-                .nodes_iter()
-                .map(|n| node_map.from_portgraph(n))
-                .collect_vec()
-        };
-        let mut nodes = self.nodes.clone();
-
-        exp_nodes.sort_unstable();
-        nodes.sort_unstable();
-
-        if exp_nodes != nodes {
+        // All the nodes delimited by the boundary must be in the subgraph. Any
+        // other nodes must not have edges out of the subgraph, which is checked
+        // below.
+        let nodes: HashSet<_> = self.nodes.iter().copied().collect();
+        let boundary_ports = self.inputs.len() + self.outputs.len();
+        if nodes.len() != self.nodes.len()
+            || (boundary_ports > 0
+                && nodes_in_boundary(hugr, &self.inputs, &self.outputs)
+                    .iter()
+                    .any(|n| !nodes.contains(n)))
+        {
             return Err(InvalidSubgraph::InvalidNodeSet);
         }
 
@@ -500,8 +467,7 @@ impl<N: HugrNode> SiblingSubgraph<N> {
             ValidationMode::SkipConvexity => None,
         };
         if let Some(checker) = checker_ref {
-            let (subpg, _) = make_pg_subgraph(hugr, &self.inputs, &self.outputs);
-            if !subpg.is_convex_with_checker(&checker.init_checker().0) {
+            if !is_convex(checker, &self.nodes) {
                 return Err(InvalidSubgraph::NotConvex);
             }
         }
@@ -728,35 +694,58 @@ pub enum ValidationMode<'t, 'h, H: HugrView> {
     /// Skip convexity check.
     SkipConvexity,
 }
-
-fn make_pg_subgraph<'h, H: HugrView>(
-    hugr: &'h H,
+/// The nodes delimited by a set of boundary ports.
+///
+/// These are the nodes that can be reached from the nodes at the boundary
+/// within their region, without following edges at a boundary port.
+fn nodes_in_boundary<H: HugrView>(
+    hugr: &H,
     inputs: &IncomingPorts<H::Node>,
     outputs: &OutgoingPorts<H::Node>,
-) -> (
-    portgraph::view::Subgraph<CheckerRegion<'h, H>>,
-    H::RegionPortgraphNodes,
-) {
+) -> Vec<H::Node> {
     // Pick the hugr region that contains the boundary nodes.
-    // If the nodes are not in the same region, we'll fail the convexity check later on.
-    let mut io_nodes = inputs
-        .iter()
-        .flat_map(|inps| inps.iter().map(|(n, _)| *n))
-        .chain(outputs.iter().map(|(n, _)| *n));
-    let hugr_region = io_nodes
+    // If the nodes are not in the same region, the subgraph will be rejected
+    // later on.
+    let Some(region) = iter_io(inputs, outputs)
         .next()
-        .and_then(|n| hugr.get_parent(n))
-        .unwrap_or(hugr.entrypoint());
-
-    let (region, node_map) = hugr.region_portgraph(hugr_region);
-
-    // Ordering of the edges here is preserved and becomes ordering of the
-    // signature.
-    let boundary = make_boundary::<H>(&region, &node_map, inputs, outputs);
-    (
-        portgraph::view::Subgraph::new_subgraph(region, boundary),
-        node_map,
-    )
+        .map(|(n, _)| hugr.get_parent(n))
+    else {
+        return hugr.children(hugr.entrypoint()).collect();
+    };
+
+    let boundary: HashSet<(H::Node, Port)> = iter_io(inputs, outputs).collect();
+    let mut nodes = iter_io(inputs, outputs)
+        .map(|(n, _)| n)
+        .unique()
+        .collect_vec();
+    let mut seen: HashSet<H::Node> = nodes.iter().copied().collect();
+    let mut next = 0;
+    while let Some(&node) = nodes.get(next) {
+        next += 1;
+        for port in hugr.all_node_ports(node) {
+            if boundary.contains(&(node, port)) {
+                continue;
+            }
+            for (other, other_port) in hugr.linked_ports(node, port) {
+                if !boundary.contains(&(other, other_port.into()))
+                    && hugr.get_parent(other) == region
+                    && seen.insert(other)
+                {
+                    nodes.push(other);
+                }
+            }
+        }
+    }
+    nodes.sort_unstable();
+    nodes
+}
+
+/// Whether the subgraph induced by some nodes is convex.
+fn is_convex<H: HugrView>(checker: &TopoConvexChecker<H>, nodes: &[H::Node]) -> bool {
+    nodes.len() <= 1 || {
+        let (checker, node_map) = checker.init_checker();
+        checker.is_node_convex(nodes.iter().map(|&n| node_map.to_portgraph(n)))
+    }
 }
 
 /// Returns the input and output boundary ports for a given set of nodes.
@@ -804,16 +793,15 @@ fn drain_function_calls<N: HugrNode, H: HugrView<Node = N>>(
 ) -> IncomingPorts<N> {
     let mut function_calls = Vec::new();
     inputs.retain_mut(|calls| {
-        let Some(&(n, p)) = calls.first() else {
-            return true;
+        let is_call = |&(n, p): &(N, IncomingPort)| {
+            let op = hugr.get_optype(n);
+            op.static_input_port() == Some(p)
+                && op
+                    .static_input()
+                    .expect("static input exists")
+                    .is_function()
         };
-        let op = hugr.get_optype(n);
-        if op.static_input_port() == Some(p)
-            && op
-                .static_input()
-                .expect("static input exists")
-                .is_function()
-        {
+        if !calls.is_empty() && calls.iter().all(is_call) {
             function_calls.extend(mem::take(calls));
             false
         } else {
@@ -934,23 +922,6 @@ fn pick_parent<'a, N: HugrNode>(
     Ok(parent)
 }
 
-fn make_boundary<'a, H: HugrView>(
-    region: &impl LinkView<PortOffsetBase = u32>,
-    node_map: &H::RegionPortgraphNodes,
-    inputs: &'a IncomingPorts<H::Node>,
-    outputs: &'a OutgoingPorts<H::Node>,
-) -> Boundary {
-    let to_pg_index = |n: H::Node, p: Port| {
-        region
-            .port_index(node_map.to_portgraph(n), p.pg_offset())
-            .unwrap()
-    };
-    Boundary::new(
-        iter_incoming(inputs).map(|(n, p)| to_pg_index(n, p.into())),
-        iter_outgoing(outputs).map(|(n, p)| to_pg_index(n, p.into())),
-    )
-}
-
 type CheckerRegion<'g, Base> =
     portgraph::view::FlatRegion<'g, <Base as HugrInternals>::RegionPortgraph<'g>>;
 
@@ -1255,7 +1226,7 @@ fn validate_subgraph<H: HugrView>(
     }
 
     // Check inputs are unique
-    if !inputs.iter().flatten().all_unique() {
+    if !inputs.iter().chain(function_calls).flatten().all_unique() {
         return Err(InvalidSubgraphBoundary::NonUniqueInput.into());
     }
 
-- 
2.43.0


From 919e0233821b9796f9d89ae4420454f433d48944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 44/56] fix: type arguments with spliced lists are checked and
 substituted, and tuple types stay tuple types

---
 hugr-core/src/types.rs            | 36 +++++++++++++------------------
 hugr-core/src/types/type_param.rs |  6 +++---
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/hugr-core/src/types.rs b/hugr-core/src/types.rs
index 3bb307b..fed360a 100644
--- a/hugr-core/src/types.rs
+++ b/hugr-core/src/types.rs
@@ -15,7 +15,7 @@ use crate::extension::resolution::{
     ExtensionCollectionError, WeakExtensionRegistry, collect_type_exts,
 };
 pub use crate::ops::constant::{ConstTypeError, CustomCheckFailure};
-use crate::types::type_param::check_term_type;
+use crate::types::type_param::{SeqPart, check_term_type};
 use crate::utils::display_list_with_separator;
 pub use check::SumTypeError;
 pub use custom::CustomType;
@@ -752,28 +752,22 @@ impl<'a> Substitution<'a> {
             .get(idx)
             .expect("Undeclared type variable - call validate() ?");
         debug_assert!(check_term_type(arg, &TypeParam::new_list_type(bound)).is_ok());
-        match arg {
-            TypeArg::List(elems) => elems
-                .iter()
-                .map(|ta| {
-                    match ta {
-                        Term::Runtime(ty) => return ty.clone().into(),
-                        Term::Variable(v) => {
-                            if let Some(b) = v.bound_if_row_var() {
-                                return TypeRV::new_row_var_use(v.index(), b);
-                            }
+        arg.clone()
+            .into_list_parts()
+            .map(|part| {
+                match part {
+                    SeqPart::Item(Term::Runtime(ty)) => return ty.into(),
+                    // A row variable, either conflated with a single type or spliced into the list
+                    SeqPart::Item(Term::Variable(v)) | SeqPart::Splice(Term::Variable(v)) => {
+                        if let Some(b) = v.bound_if_row_var() {
+                            return TypeRV::new_row_var_use(v.index(), b);
                         }
-                        _ => (),
                     }
-                    panic!("Not a list of types - call validate() ?")
-                })
-                .collect(),
-            Term::Runtime(ty) if matches!(ty.0, TypeEnum::RowVar(_)) => {
-                // Standalone "Type" can be used iff its actually a Row Variable not an actual (single) Type
-                vec![ty.clone().into()]
-            }
-            _ => panic!("Not a type or list of types - call validate() ?"),
-        }
+                    _ => (),
+                }
+                panic!("Not a list of types - call validate() ?")
+            })
+            .collect()
     }
 }
 
diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index b539e55..016518a 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -446,7 +446,7 @@ impl Term {
             Term::BytesType => self.clone(),
             Term::FloatType => self.clone(),
             Term::ListType(item_type) => Term::new_list_type(item_type.substitute(t)),
-            Term::TupleType(item_types) => Term::new_list_type(item_types.substitute(t)),
+            Term::TupleType(item_types) => Term::new_tuple_type(item_types.substitute(t)),
             Term::StaticType => self.clone(),
             Term::ConstType(ty) => Term::new_const(ty.substitute1(t)),
         }
@@ -657,9 +657,9 @@ pub fn check_term_type(term: &Term, type_: &Term) -> Result<(), TermTypeError> {
                 check_term_type(term, item_type)
             })
         }
-        (Term::ListConcat(lists), Term::ListType(item_type)) => lists
+        (Term::ListConcat(lists), Term::ListType(_)) => lists
             .iter()
-            .try_for_each(|list| check_term_type(list, item_type)),
+            .try_for_each(|list| check_term_type(list, type_)),
         (TypeArg::Tuple(_) | TypeArg::TupleConcat(_), TypeParam::TupleType(item_types)) => {
             let term_parts: Vec<_> = term.clone().into_tuple_parts().collect();
             let type_parts: Vec<_> = item_types.clone().into_list_parts().collect();
-- 
2.43.0


From 3d79297469841c509ca395b5a39363334f5158bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 45/56] fix: linking a whole module, or around an entrypoint
 that is not inserted, no longer panics

---
 hugr-core/src/hugr/linking.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index f20c006..aed341b 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -87,8 +87,13 @@ pub trait HugrLinking: HugrMut {
         let mut roots = HashMap::new();
         if let Some(parent) = parent {
             roots.insert(other.entrypoint(), parent);
-            other.set_parent(other.entrypoint(), other.module_root());
+            // (If the entrypoint is the module root, we are inserting the whole Hugr.)
+            if other.entrypoint() != other.module_root() {
+                other.set_parent(other.entrypoint(), other.module_root());
+            }
         };
+        // The entrypoint may be inside a child whose contents are not wanted (removed below).
+        other.set_entrypoint(other.module_root());
         for (ch, dirv) in children.iter() {
             roots.insert(*ch, self.module_root());
             if matches!(dirv, NodeLinkingDirective::UseExisting(_)) {
-- 
2.43.0


From b5ab038c4476fe0a4754163443f4f04b585a0f4c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 46/56] fix: copies of arrays have as many results as uses

---
 hugr-passes/src/replace_types/handlers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-passes/src/replace_types/handlers.rs b/hugr-passes/src/replace_types/handlers.rs
index b11c49e..7694358 100644
--- a/hugr-passes/src/replace_types/handlers.rs
+++ b/hugr-passes/src/replace_types/handlers.rs
@@ -331,7 +331,7 @@ pub fn copy_discard_array(
             let array_ty = array_type(*n, ty.clone());
             Ok(NodeTemplate::CompoundOp(Box::new({
                 let mut dfb =
-                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; *n as usize]))
+                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; num_outports]))
                         .unwrap();
                 let [mut arr] = dfb.input_wires_arr();
                 let mut outs = vec![];
@@ -378,7 +378,7 @@ pub fn copy_discard_borrow_array(
             let array_ty = borrow_array_type(*n, ty.clone());
             Ok(NodeTemplate::CompoundOp(Box::new({
                 let mut dfb =
-                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; *n as usize]))
+                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; num_outports]))
                         .unwrap();
                 let [mut arr] = dfb.input_wires_arr();
                 let mut outs = vec![];
-- 
2.43.0


From c5074a2fc9d7c61fb001fd916ce5ab691bad877f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 47/56] fix: replacing types in function constants ignores the
 regions of the outer program

---
 hugr-passes/src/replace_types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/replace_types.rs b/hugr-passes/src/replace_types.rs
index a6167a5..49a946c 100644
--- a/hugr-passes/src/replace_types.rs
+++ b/hugr-passes/src/replace_types.rs
@@ -736,7 +736,11 @@ impl ReplaceTypes {
                     false
                 }
             }),
-            Value::Function { hugr } => self.run(&mut **hugr),
+            Value::Function { hugr } => {
+                // (any `regions` are nodes of the outer Hugr)
+                let root = hugr.module_root();
+                self.change_subtree(&mut **hugr, root, false)
+            }
         }
     }
 
-- 
2.43.0


From 69c582bbce6afba6ae2807a958e8953a2f68f098 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 48/56] fix: rewrite histories with several parents, shared
 wires, or removed containers

- wires that are both inside and on the boundary of a removed subgraph no longer panic
- the base commit is found when ancestors are reached several times
- ancestors are added in topological order, so a refused commit leaves a valid history
- a replacement with a parent outside of the history is refused, as documented
- removing a node that has children is refused instead of failing when applied
---
 hugr-persistent/src/commit.rs          | 33 ++++++++++++++++++-----
 hugr-persistent/src/persistent_hugr.rs | 36 ++++++++++++--------------
 hugr-persistent/src/trait_impls.rs     |  3 ++-
 hugr-persistent/src/wire.rs            |  6 +++++
 4 files changed, 51 insertions(+), 27 deletions(-)

diff --git a/hugr-persistent/src/commit.rs b/hugr-persistent/src/commit.rs
index ae6db1c..f1d5b31 100644
--- a/hugr-persistent/src/commit.rs
+++ b/hugr-persistent/src/commit.rs
@@ -1,6 +1,6 @@
 //! [`Commit`] type and data associated with it.
 
-use std::{marker::PhantomData, mem};
+use std::{collections::BTreeSet, marker::PhantomData, mem};
 
 use delegate::delegate;
 use hugr_core::{
@@ -114,7 +114,8 @@ impl<'a> Commit<'a> {
     /// function will return an [`InvalidCommit::EmptyReplacement`] error.
     /// If any of the parents of the replacement are not in the commit state
     /// space, this function will return an [`InvalidCommit::UnknownParent`]
-    /// error.
+    /// error. If the subgraph contains a node that has children, this function
+    /// will return an [`InvalidCommit::NonLeafNode`] error.
     pub fn try_new<'b>(
         replacement: PersistentReplacement,
         parents: impl IntoIterator<Item = Commit<'b>>,
@@ -124,9 +125,15 @@ impl<'a> Commit<'a> {
         if replacement.subgraph().nodes().is_empty() {
             return Err(InvalidCommit::EmptyReplacement);
         }
-        let repl_parents = get_parent_commits(&replacement, state_space)?
-            .into_iter()
-            .map_into::<RelRc<_, ()>>();
+        let repl_parents = get_parent_commits(&replacement, state_space)?;
+        // Only leaf nodes can be removed by a `SimpleReplacement`
+        for node @ PatchNode(id, n) in replacement.invalidation_set() {
+            let owner = repl_parents.iter().find(|p| p.id() == id);
+            if owner.is_some_and(|p| p.commit_hugr().first_child(n).is_some()) {
+                return Err(InvalidCommit::NonLeafNode(node));
+            }
+        }
+        let repl_parents = repl_parents.into_iter().map_into::<RelRc<_, ()>>();
         let parents = parents
             .into_iter()
             .map_into::<RelRc<_, ()>>()
@@ -362,7 +369,17 @@ impl Commit<'_> {
 }
 
 fn get_base_ancestors(arg: &RelRc<CommitData, ()>) -> impl Iterator<Item = &RelRc<CommitData, ()>> {
-    arg.all_ancestors()
+    // Note: `RelRc::all_ancestors` stops at the first ancestor that it reaches
+    // for a second time, so we traverse the ancestors ourselves.
+    let mut seen = BTreeSet::from([arg.as_ptr()]);
+    let mut ancestors = vec![arg];
+    let mut ind = 0;
+    while let Some(&commit) = ancestors.get(ind) {
+        ind += 1;
+        ancestors.extend(commit.all_parents().filter(|p| seen.insert(p.as_ptr())));
+    }
+    ancestors
+        .into_iter()
         .filter(|c| matches!(c.value(), CommitData::Base(_)))
 }
 
@@ -403,6 +420,10 @@ pub enum InvalidCommit {
     #[error("Not allowed: empty replacement")]
     EmptyReplacement,
 
+    /// The commit removes a node that has children.
+    #[error("Not allowed: removing node {0}, which has children")]
+    NonLeafNode(PatchNode),
+
     #[error("Invalid subgraph: {0}")]
     /// The subgraph of the replacement is not convex.
     InvalidSubgraph(#[from] InvalidPinnedSubgraph),
diff --git a/hugr-persistent/src/persistent_hugr.rs b/hugr-persistent/src/persistent_hugr.rs
index 01bbfd6..0b5bbb9 100644
--- a/hugr-persistent/src/persistent_hugr.rs
+++ b/hugr-persistent/src/persistent_hugr.rs
@@ -195,6 +195,9 @@ impl PersistentHugr {
             .into_grouping_map()
             .collect::<BTreeSet<_>>();
         for (parent, new_invalid_nodes) in new_invalid_nodes {
+            if !self.contains_id(parent) {
+                return Err(InvalidCommit::UnknownParent(parent));
+            }
             let invalidation_set = self.deleted_nodes(parent).collect();
             if let Some(&node) = new_invalid_nodes.intersection(&invalidation_set).next() {
                 return Err(InvalidCommit::IncompatibleHistory(parent, node));
@@ -449,32 +452,25 @@ fn get_ancestors_while<'a>(
     continue_fn: impl Fn(&Commit) -> bool,
 ) -> VecDeque<Commit<'a>> {
     let mut seen_ids = BTreeSet::new();
-    let commits = commits.into_iter();
-    let mut all_commits = VecDeque::with_capacity(commits.size_hint().0);
+    let mut all_commits = VecDeque::new();
 
     for commit in commits {
-        if !seen_ids.insert(commit.as_ptr()) {
-            continue;
-        }
-        let start = all_commits.len();
-        let mut ind = start;
-        all_commits.push_back(commit);
-
-        while ind < all_commits.len() {
-            let commit = all_commits[ind].clone();
-            ind += 1;
-
-            if !continue_fn(&commit) {
+        // Depth-first search: a commit is added (to the front) once all its
+        // ancestors have been added.
+        let mut stack = vec![(commit, false)];
+        while let Some((commit, parents_done)) = stack.pop() {
+            if parents_done {
+                all_commits.push_front(commit);
                 continue;
             }
-
-            for commit in commit.parents() {
-                if seen_ids.insert(commit.as_ptr()) {
-                    all_commits.push_back(commit.clone());
-                }
+            if !seen_ids.insert(commit.as_ptr()) {
+                continue;
+            }
+            stack.push((commit.clone(), true));
+            if continue_fn(&commit) {
+                stack.extend(commit.parents().map(|p| (p.clone(), false)));
             }
         }
-        all_commits.rotate_right(all_commits.len() - start);
     }
 
     all_commits
diff --git a/hugr-persistent/src/trait_impls.rs b/hugr-persistent/src/trait_impls.rs
index 77f7a9f..88675c4 100644
--- a/hugr-persistent/src/trait_impls.rs
+++ b/hugr-persistent/src/trait_impls.rs
@@ -38,7 +38,8 @@ impl Patch<PersistentHugr> for PersistentReplacement {
             Err(
                 InvalidCommit::UnknownParent(_)
                 | InvalidCommit::IncompatibleHistory(_, _)
-                | InvalidCommit::EmptyReplacement,
+                | InvalidCommit::EmptyReplacement
+                | InvalidCommit::NonLeafNode(_),
             ) => Err(SimpleReplacementError::InvalidRemovedNode()),
             _ => unreachable!(),
         }
diff --git a/hugr-persistent/src/wire.rs b/hugr-persistent/src/wire.rs
index e1b38eb..6c54daf 100644
--- a/hugr-persistent/src/wire.rs
+++ b/hugr-persistent/src/wire.rs
@@ -121,6 +121,12 @@ impl PersistentWire {
                         // ports on the opposite end of the wire and boundary
                         // ports in the child commit that deleted the node.
                         for (opp_node, opp_port) in commit_hugr.linked_ports(node, port) {
+                            // Connections between two nodes deleted by the same commit
+                            // are not part of its boundary.
+                            let opp_per_node = per_hugr.to_persistent_node(opp_node, commit_id);
+                            if per_hugr.find_deleting_commit(opp_per_node) == Some(deleted_by) {
+                                continue;
+                            }
                             for (child_node, child_port) in commit.linked_child_ports(
                                 opp_node,
                                 opp_port,
-- 
2.43.0


From b55e3acaf2b2afc89286af765b7911c8d1400b19 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 49/56] fix: lattice values of dataflow analysis compare and
 hash consistently

---
 hugr-passes/src/dataflow/partial_value.rs | 49 +++++++++++------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 3ca23fb..cca79a2 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -156,8 +156,6 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> PartialSum<V, N> {
                 for (lhs, rhs) in zip_eq(row.iter_mut(), v.into_iter()) {
                     changed |= lhs.meet_mut(rhs);
                 }
-            } else {
-                keys_to_remove.push(k);
             }
         }
         for k in keys_to_remove {
@@ -269,31 +267,29 @@ impl<V: Clone, N: Clone> PartialSum<V, N> {
 
 impl<V: PartialEq, N: PartialEq + PartialOrd> PartialOrd for PartialSum<V, N> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let max_key = self.0.keys().chain(other.0.keys()).copied().max().unwrap();
-        let (mut keys1, mut keys2) = (vec![0; max_key + 1], vec![0; max_key + 1]);
-        for k in self.0.keys() {
-            keys1[*k] = 1;
-        }
-
-        for k in other.0.keys() {
-            keys2[*k] = 1;
+        let mut ord = Ordering::Equal;
+        // Compare every row (a tag that is missing is below any row), the results must all agree
+        for k in self.0.keys().chain(other.0.keys()) {
+            let row_ord = match (self.0.get(k), other.0.get(k)) {
+                (Some(lhs), Some(rhs)) if lhs.len() == rhs.len() => zip_eq(lhs, rhs)
+                    .try_fold(Ordering::Equal, |acc, (l, r)| {
+                        combine_orderings(acc, l.partial_cmp(r)?)
+                    })?,
+                (Some(_), Some(_)) => return None,
+                (Some(_), None) => Ordering::Greater,
+                (None, _) => Ordering::Less,
+            };
+            ord = combine_orderings(ord, row_ord)?;
         }
+        Some(ord)
+    }
+}
 
-        Some(match keys1.cmp(&keys2) {
-            ord @ (Ordering::Greater | Ordering::Less) => ord,
-            Ordering::Equal => {
-                for (k, lhs) in &self.0 {
-                    let Some(rhs) = other.0.get(k) else {
-                        unreachable!()
-                    };
-                    let key_cmp = lhs.partial_cmp(rhs);
-                    if key_cmp != Some(Ordering::Equal) {
-                        return key_cmp;
-                    }
-                }
-                Ordering::Equal
-            }
-        })
+/// The ordering of two tuples given the orderings of their elements, if comparable
+fn combine_orderings(o1: Ordering, o2: Ordering) -> Option<Ordering> {
+    match (o1, o2) {
+        (Ordering::Equal, o) | (o, Ordering::Equal) => Some(o),
+        _ => (o1 == o2).then_some(o1),
     }
 }
 
@@ -305,7 +301,8 @@ impl<V: std::fmt::Debug, N: std::fmt::Debug> std::fmt::Debug for PartialSum<V, N
 
 impl<V: Hash, N: Hash> Hash for PartialSum<V, N> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for (k, v) in &self.0 {
+        // The order of iteration may differ between equal maps
+        for (k, v) in self.0.iter().sorted_by_key(|(k, _)| **k) {
             k.hash(state);
             v.hash(state);
         }
-- 
2.43.0


From f10ab506d3dafb446a0260583db1877c07fff9fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:58:02 +0000
Subject: [PATCH 50/56] fix: lowering of integer absolute values, minima and
 maxima of any width, and of borrow arrays to arrays

- iabs was undefined on the minimum; iabs, imax_* and imin_* could only be compiled for 64-bit integers.
- turning a borrow_array into an array leaked the mask.
---
 .../src/extension/collections/borrow_array.rs |  2 +
 hugr-llvm/src/extension/int.rs                | 39 ++++++-------------
 2 files changed, 14 insertions(+), 27 deletions(-)

diff --git a/hugr-llvm/src/extension/collections/borrow_array.rs b/hugr-llvm/src/extension/collections/borrow_array.rs
index 13ec4d0..2c39461 100644
--- a/hugr-llvm/src/extension/collections/borrow_array.rs
+++ b/hugr-llvm/src/extension/collections/borrow_array.rs
@@ -1650,6 +1650,8 @@ pub fn emit_to_array_op<'c, H: HugrView<Node = Node>>(
         offset,
     } = decompose_barray_fat_pointer(ctx.builder(), barray_v)?;
     build_none_borrowed_check(ccg, ctx, mask_ptr, offset, op.size)?;
+    // The array takes over the elements, but not the mask.
+    ccg.emit_free_array(ctx, mask_ptr)?;
     Ok(build_array_fat_pointer(ctx, elems_ptr, offset)?.into())
 }
 
diff --git a/hugr-llvm/src/extension/int.rs b/hugr-llvm/src/extension/int.rs
index 57d2f9e..e1bcb41 100644
--- a/hugr-llvm/src/extension/int.rs
+++ b/hugr-llvm/src/extension/int.rs
@@ -513,25 +513,22 @@ fn emit_int_op<'c, H: HugrView<Node = Node>>(
             ])
         }),
         IntOpDef::iabs => emit_custom_unary_op(context, args, |ctx, arg, _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.abs.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
-            let true_ = ctx.iw_context().bool_type().const_all_ones();
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.abs", [arg.get_type()])?;
+            // The absolute value of the minimum is a valid unsigned integer, not poison.
+            let min_is_poison = ctx.iw_context().bool_type().const_zero();
             let r = ctx
                 .builder()
-                .build_call(intr, &[arg.into_int_value().into(), true_.into()], "")?
+                .build_call(
+                    intr,
+                    &[arg.into_int_value().into(), min_is_poison.into()],
+                    "",
+                )?
                 .try_as_basic_value()
                 .unwrap_basic();
             Ok(vec![r])
         }),
         IntOpDef::imax_s => emit_custom_binary_op(context, args, |ctx, (lhs, rhs), _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.smax.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.smax", [lhs.get_type()])?;
             let r = ctx
                 .builder()
                 .build_call(
@@ -544,11 +541,7 @@ fn emit_int_op<'c, H: HugrView<Node = Node>>(
             Ok(vec![r])
         }),
         IntOpDef::imax_u => emit_custom_binary_op(context, args, |ctx, (lhs, rhs), _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.umax.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.umax", [lhs.get_type()])?;
             let r = ctx
                 .builder()
                 .build_call(
@@ -561,11 +554,7 @@ fn emit_int_op<'c, H: HugrView<Node = Node>>(
             Ok(vec![r])
         }),
         IntOpDef::imin_s => emit_custom_binary_op(context, args, |ctx, (lhs, rhs), _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.smin.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.smin", [lhs.get_type()])?;
             let r = ctx
                 .builder()
                 .build_call(
@@ -578,11 +567,7 @@ fn emit_int_op<'c, H: HugrView<Node = Node>>(
             Ok(vec![r])
         }),
         IntOpDef::imin_u => emit_custom_binary_op(context, args, |ctx, (lhs, rhs), _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.umin.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.umin", [lhs.get_type()])?;
             let r = ctx
                 .builder()
                 .build_call(
-- 
2.43.0


From 27b8095a06363d54ea753aea87476432a68abd45 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 51/56] fix: views of graphs with gaps, of module extractions,
 of generic functions and in dot text

---
 hugr-core/src/hugr/views.rs                  |  7 +++++--
 hugr-core/src/hugr/views/petgraph.rs         |  7 ++++++-
 hugr-core/src/hugr/views/render.rs           | 10 ++++++++++
 hugr-core/src/hugr/views/root_checked/dfg.rs |  8 ++++++--
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index 0220946..4d3284c 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -696,10 +696,11 @@ impl HugrView for Hugr {
         Self: Sized,
     {
         let formatter = MermaidFormatter::new(self).with_entrypoint(self.entrypoint());
+        let mut node_style = render::node_style(self, formatter.clone());
         self.graph
             .dot_format()
             .with_hierarchy(&self.hierarchy)
-            .with_node_style(render::node_style(self, formatter.clone()))
+            .with_node_style(move |node| render::escape_node_label(node_style(node)))
             .with_port_style(render::port_style(self))
             .with_edge_style(render::edge_style(self, formatter))
             .finish()
@@ -714,7 +715,9 @@ impl HugrView for Hugr {
     fn extract_hugr(&self, target: Node) -> (Hugr, impl ExtractionResult<Node> + 'static) {
         // Shortcircuit if the extracted HUGR is the same as the original
         if target == self.module_root().node() {
-            return (self.clone(), DefaultNodeMap(HashMap::new()));
+            let mut extracted = self.clone();
+            extracted.set_entrypoint(target);
+            return (extracted, DefaultNodeMap(HashMap::new()));
         }
 
         // Initialize a new HUGR with the desired entrypoint operation.
diff --git a/hugr-core/src/hugr/views/petgraph.rs b/hugr-core/src/hugr/views/petgraph.rs
index bff727b..fa67c29 100644
--- a/hugr-core/src/hugr/views/petgraph.rs
+++ b/hugr-core/src/hugr/views/petgraph.rs
@@ -66,7 +66,12 @@ where
     T::Node: NodeIndex + From<portgraph::NodeIndex>,
 {
     fn node_bound(&self) -> usize {
-        HugrView::num_nodes(self.hugr)
+        // Node indices are not contiguous if nodes have been removed.
+        self.hugr
+            .nodes()
+            .map(|n| n.index() + 1)
+            .max()
+            .unwrap_or_default()
     }
 
     fn to_index(&self, ix: Self::NodeId) -> usize {
diff --git a/hugr-core/src/hugr/views/render.rs b/hugr-core/src/hugr/views/render.rs
index de0ea62..02eee68 100644
--- a/hugr-core/src/hugr/views/render.rs
+++ b/hugr-core/src/hugr/views/render.rs
@@ -309,6 +309,16 @@ pub(in crate::hugr) fn node_style<'a>(
     }
 }
 
+/// Escape the label of a node, to be shown as part of an HTML-like label.
+pub(in crate::hugr) fn escape_node_label(style: NodeStyle) -> NodeStyle {
+    match style {
+        NodeStyle::Boxed { label, attrs, .. } => {
+            NodeStyle::boxed(html_escape::encode_text(&label)).with_attrs(attrs)
+        }
+        style => style,
+    }
+}
+
 /// Formatter method to compute a port style.
 pub(in crate::hugr) fn port_style(h: &Hugr) -> Box<dyn FnMut(PortIndex) -> PortStyle + '_> {
     let graph = &h.graph;
diff --git a/hugr-core/src/hugr/views/root_checked/dfg.rs b/hugr-core/src/hugr/views/root_checked/dfg.rs
index c27b996..5ff20a4 100644
--- a/hugr-core/src/hugr/views/root_checked/dfg.rs
+++ b/hugr-core/src/hugr/views/root_checked/dfg.rs
@@ -12,7 +12,7 @@ use crate::{
         OpParent, OpTrait, OpType,
         handle::{DataflowParentID, DfgID},
     },
-    types::{NoRV, Signature, Type, TypeBase},
+    types::{NoRV, PolyFuncType, Signature, Type, TypeBase},
 };
 
 use super::RootChecked;
@@ -249,7 +249,11 @@ fn update_signature<H: HugrMut>(hugr: &mut H, node: H::Node, new_sig: &Signature
         OpType::DFG(dfg) => {
             dfg.signature = new_sig.clone();
         }
-        OpType::FuncDefn(fn_def_op) => *fn_def_op.signature_mut() = new_sig.clone().into(),
+        OpType::FuncDefn(fn_def_op) => {
+            let poly_sig = fn_def_op.signature_mut();
+            // Keep the type parameters of generic functions.
+            *poly_sig = PolyFuncType::new(poly_sig.params(), new_sig.clone());
+        }
         OpType::Input(inp) => {
             inp.types = new_sig.input().clone();
         }
-- 
2.43.0


From d5b607b74bbb091667ce3344fa4f8ff6c12ad636 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:50:51 +0000
Subject: [PATCH 52/56] fix: resolution of aliases, parameter kinds, own and
 duplicated extensions, and of unvalidated ones

---
 hugr-core/src/envelope/reader.rs              |   4 +-
 hugr-core/src/extension/op_def.rs             |  15 +--
 .../src/extension/resolution/extension.rs     | 100 +++++++++++-------
 hugr-core/src/extension/resolution/ops.rs     |   7 ++
 hugr-core/src/extension/resolution/types.rs   |  39 +++++--
 .../src/extension/resolution/types_mut.rs     |  43 +++++---
 hugr-core/src/types/poly_func.rs              |   5 +
 7 files changed, 139 insertions(+), 74 deletions(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index ff4f7e2..7c852a3 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -137,8 +137,8 @@ impl<R: BufRead> EnvelopeReader<R> {
             let desc = desc.get_or_insert_default();
             desc.load_used_extensions_generator(module)
                 .map_err(ExtensionBreakingError::from)?;
-            if let Some(used_exts) = &mut desc.used_extensions_generator {
-                check_breaking_extensions(module.extensions(), used_exts.drain(..))?;
+            if let Some(used_exts) = &desc.used_extensions_generator {
+                check_breaking_extensions(&self.registry, used_exts.iter().cloned())?;
             }
 
             module
diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index c1e19b5..c56dbea 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -462,13 +462,16 @@ impl OpDef {
     pub(super) fn validate(&self) -> Result<(), SignatureError> {
         // TODO https://github.com/CQCL/hugr/issues/624 validate declared TypeParams
         // for both type scheme and custom binary
-        if let SignatureFunc::CustomValidator(ts) = &self.signature_func {
-            // The type scheme may contain row variables so be of variable length;
-            // these will have to be substituted to fixed-length concrete types when
-            // the OpDef is instantiated into an actual OpType.
-            ts.poly_func.validate()?;
+        //
+        // The type scheme may contain row variables so be of variable length;
+        // these will have to be substituted to fixed-length concrete types when
+        // the OpDef is instantiated into an actual OpType.
+        match &self.signature_func {
+            SignatureFunc::PolyFuncType(ts) => ts.validate(),
+            SignatureFunc::CustomValidator(ts) => ts.poly_func.validate(),
+            SignatureFunc::MissingValidateFunc(ts) => ts.validate(),
+            SignatureFunc::CustomFunc(_) | SignatureFunc::MissingComputeFunc => Ok(()),
         }
-        Ok(())
     }
 
     /// Add a lowering function to the [`OpDef`]
diff --git a/hugr-core/src/extension/resolution/extension.rs b/hugr-core/src/extension/resolution/extension.rs
index 05c0faf..fb6d3c6 100644
--- a/hugr-core/src/extension/resolution/extension.rs
+++ b/hugr-core/src/extension/resolution/extension.rs
@@ -4,12 +4,13 @@
 //! weak links are resolved.
 #![allow(dead_code, unused_variables)]
 
+use std::collections::{BTreeMap, btree_map};
 use std::mem;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 
 use crate::extension::{Extension, ExtensionId, ExtensionRegistry, OpDef, SignatureFunc, TypeDef};
 
-use super::types_mut::resolve_signature_exts;
+use super::types_mut::resolve_poly_func_exts;
 use super::{ExtensionResolutionError, WeakExtensionRegistry};
 
 impl ExtensionRegistry {
@@ -28,13 +29,38 @@ impl ExtensionRegistry {
         extensions: impl IntoIterator<Item = Extension>,
         other_extensions: &WeakExtensionRegistry,
     ) -> Result<ExtensionRegistry, ExtensionResolutionError> {
-        Self::new_cyclic(extensions, |mut exts, weak_registry| {
-            let mut weak_registry = weak_registry.clone();
+        // The registry only keeps one version of each extension, so no reference
+        // may point to any of the others.
+        let mut newest: BTreeMap<ExtensionId, Extension> = BTreeMap::new();
+        for ext in extensions {
+            match newest.entry(ext.name().clone()) {
+                btree_map::Entry::Occupied(mut prev) => {
+                    if prev.get().version() < ext.version() {
+                        prev.insert(ext);
+                    }
+                }
+                btree_map::Entry::Vacant(entry) => {
+                    entry.insert(ext);
+                }
+            }
+        }
+        Self::new_cyclic(newest.into_values(), |mut exts, own_registry| {
+            // Prefer the given extensions, unless there is a newer version here.
+            let mut weak_registry = own_registry.clone();
             for (other_id, other) in other_extensions.iter() {
-                weak_registry.register(other_id.clone(), other.clone());
+                let is_newer = |own: &Weak<Extension>| match (own.upgrade(), other.upgrade()) {
+                    (Some(own), Some(other)) => own.version() > other.version(),
+                    _ => false,
+                };
+                if !own_registry.get(other_id).is_some_and(is_newer) {
+                    weak_registry.register(other_id.clone(), other.clone());
+                }
             }
             for ext in &mut exts {
-                ext.resolve_references(&weak_registry)?;
+                let own = own_registry
+                    .get(ext.name())
+                    .expect("Registered in the same call");
+                ext.resolve_references(own, &weak_registry)?;
             }
             Ok(exts)
         })
@@ -50,14 +76,18 @@ impl Extension {
     /// This method will clone all opdef `Arc`s in the extension, so it should
     /// not be called on locally defined extensions to prevent unnecessary
     /// cloning.
+    ///
+    /// The definitions of the extension will point to `own`, the reference to
+    /// the extension itself.
     fn resolve_references(
         &mut self,
+        own: &Weak<Extension>,
         extensions: &WeakExtensionRegistry,
     ) -> Result<(), ExtensionResolutionError> {
         let mut used_extensions = WeakExtensionRegistry::default();
 
         for type_def in self.types.values_mut() {
-            resolve_typedef_exts(&self.name, type_def, extensions, &mut used_extensions)?;
+            resolve_typedef_exts(&self.name, own, type_def)?;
         }
 
         let ops = mem::take(&mut self.operations);
@@ -65,7 +95,7 @@ impl Extension {
             // TODO: We should be able to clone the definition if needed by using `make_mut`,
             // but `OpDef` does not implement clone -.-
             let op_ref = Arc::<OpDef>::get_mut(&mut op_def).expect("OpDef is not unique");
-            resolve_opdef_exts(&self.name, op_ref, extensions, &mut used_extensions)?;
+            resolve_opdef_exts(&self.name, own, op_ref, extensions, &mut used_extensions)?;
             self.operations.insert(op_id, op_def);
         }
 
@@ -73,28 +103,21 @@ impl Extension {
     }
 }
 
-/// Update all weak Extension pointers in the [`CustomType`]s inside a type
-/// definition.
-///
-/// Adds the extensions used in the type to the `used_extensions` registry.
+/// Update the weak Extension pointer of a type definition to point to its own
+/// extension.
 pub(super) fn resolve_typedef_exts(
     extension: &ExtensionId,
+    own: &Weak<Extension>,
     def: &mut TypeDef,
-    extensions: &WeakExtensionRegistry,
-    used_extensions: &mut WeakExtensionRegistry,
 ) -> Result<(), ExtensionResolutionError> {
-    match extensions.get(def.extension_id()) {
-        Some(ext) => {
-            *def.extension_mut() = ext.clone();
-        }
-        None => {
-            return Err(ExtensionResolutionError::WrongTypeDefExtension {
-                extension: extension.clone(),
-                def: def.name().clone(),
-                wrong_extension: def.extension_id().clone(),
-            });
-        }
+    if def.extension_id() != extension {
+        return Err(ExtensionResolutionError::WrongTypeDefExtension {
+            extension: extension.clone(),
+            def: def.name().clone(),
+            wrong_extension: def.extension_id().clone(),
+        });
     }
+    *def.extension_mut() = own.clone();
 
     Ok(())
 }
@@ -105,22 +128,19 @@ pub(super) fn resolve_typedef_exts(
 /// Adds the extensions used in the type to the `used_extensions` registry.
 pub(super) fn resolve_opdef_exts(
     extension: &ExtensionId,
+    own: &Weak<Extension>,
     def: &mut OpDef,
     extensions: &WeakExtensionRegistry,
     used_extensions: &mut WeakExtensionRegistry,
 ) -> Result<(), ExtensionResolutionError> {
-    match extensions.get(def.extension_id()) {
-        Some(ext) => {
-            *def.extension_mut() = ext.clone();
-        }
-        None => {
-            return Err(ExtensionResolutionError::WrongOpDefExtension {
-                extension: extension.clone(),
-                def: def.name().clone(),
-                wrong_extension: def.extension_id().clone(),
-            });
-        }
+    if def.extension_id() != extension {
+        return Err(ExtensionResolutionError::WrongOpDefExtension {
+            extension: extension.clone(),
+            def: def.name().clone(),
+            wrong_extension: def.extension_id().clone(),
+        });
     }
+    *def.extension_mut() = own.clone();
 
     resolve_signature_func_exts(
         extension,
@@ -147,13 +167,13 @@ pub(super) fn resolve_signature_func_exts(
     used_extensions: &mut WeakExtensionRegistry,
 ) -> Result<(), ExtensionResolutionError> {
     let signature_body = match signature {
-        SignatureFunc::PolyFuncType(p) => p.body_mut(),
-        SignatureFunc::CustomValidator(v) => v.poly_func_mut().body_mut(),
-        SignatureFunc::MissingValidateFunc(p) => p.body_mut(),
+        SignatureFunc::PolyFuncType(p) => p,
+        SignatureFunc::CustomValidator(v) => v.poly_func_mut(),
+        SignatureFunc::MissingValidateFunc(p) => p,
         // Binary computation functions should always return valid types.
         SignatureFunc::CustomFunc(_) | SignatureFunc::MissingComputeFunc => {
             return Ok(());
         }
     };
-    resolve_signature_exts(None, signature_body, extensions, used_extensions)
+    resolve_poly_func_exts(None, signature_body, extensions, used_extensions)
 }
diff --git a/hugr-core/src/extension/resolution/ops.rs b/hugr-core/src/extension/resolution/ops.rs
index 4569ef5..124e0c6 100644
--- a/hugr-core/src/extension/resolution/ops.rs
+++ b/hugr-core/src/extension/resolution/ops.rs
@@ -96,6 +96,13 @@ pub(crate) fn resolve_op_extensions<'e>(
         .into());
     };
 
+    // The definition may come from a loaded extension that was never validated.
+    def.validate().map_err(|e| OpaqueOpError::SignatureError {
+        node,
+        name: opaque.name().clone(),
+        cause: e,
+    })?;
+
     let ext_op = ExtensionOp::new_with_cached(def.clone(), opaque.args().to_vec(), opaque)
         .map_err(|e| OpaqueOpError::SignatureError {
             node,
diff --git a/hugr-core/src/extension/resolution/types.rs b/hugr-core/src/extension/resolution/types.rs
index 45866d5..018f465 100644
--- a/hugr-core/src/extension/resolution/types.rs
+++ b/hugr-core/src/extension/resolution/types.rs
@@ -11,7 +11,7 @@ use crate::Node;
 use crate::extension::{ExtensionRegistry, ExtensionSet};
 use crate::ops::{DataflowOpTrait, OpType, Value};
 use crate::types::type_row::TypeRowBase;
-use crate::types::{FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
+use crate::types::{FuncTypeBase, MaybeRV, PolyFuncTypeBase, SumType, Term, TypeBase, TypeEnum};
 
 /// Collects every extension used to define the types in an operation.
 ///
@@ -42,17 +42,13 @@ pub(crate) fn collect_op_types_extensions(
             }
             collect_signature_exts(&ext.signature(), &mut used, &mut missing);
         }
-        OpType::FuncDefn(f) => {
-            collect_signature_exts(f.signature().body(), &mut used, &mut missing)
-        }
-        OpType::FuncDecl(f) => {
-            collect_signature_exts(f.signature().body(), &mut used, &mut missing)
-        }
+        OpType::FuncDefn(f) => collect_poly_func_exts(f.signature(), &mut used, &mut missing),
+        OpType::FuncDecl(f) => collect_poly_func_exts(f.signature(), &mut used, &mut missing),
         OpType::Const(c) => collect_value_exts(&c.value, &mut used, &mut missing),
         OpType::Input(inp) => collect_type_row_exts(&inp.types, &mut used, &mut missing),
         OpType::Output(out) => collect_type_row_exts(&out.types, &mut used, &mut missing),
         OpType::Call(c) => {
-            collect_signature_exts(c.func_sig.body(), &mut used, &mut missing);
+            collect_poly_func_exts(&c.func_sig, &mut used, &mut missing);
             collect_signature_exts(&c.instantiation, &mut used, &mut missing);
             for arg in &c.type_args {
                 collect_term_exts(arg, &mut used, &mut missing);
@@ -61,7 +57,7 @@ pub(crate) fn collect_op_types_extensions(
         OpType::CallIndirect(c) => collect_signature_exts(&c.signature, &mut used, &mut missing),
         OpType::LoadConstant(lc) => collect_type_exts(&lc.datatype, &mut used, &mut missing),
         OpType::LoadFunction(lf) => {
-            collect_signature_exts(lf.func_sig.body(), &mut used, &mut missing);
+            collect_poly_func_exts(&lf.func_sig, &mut used, &mut missing);
             collect_signature_exts(&lf.instantiation, &mut used, &mut missing);
             for arg in &lf.type_args {
                 collect_term_exts(arg, &mut used, &mut missing);
@@ -107,8 +103,11 @@ pub(crate) fn collect_op_types_extensions(
         OpType::Case(case) => {
             collect_signature_exts(&case.signature, &mut used, &mut missing);
         }
+        OpType::AliasDefn(alias) => {
+            collect_type_exts(&alias.definition, &mut used, &mut missing);
+        }
         // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
 
     if missing.is_empty() {
@@ -121,6 +120,26 @@ pub(crate) fn collect_op_types_extensions(
     }
 }
 
+/// Collect the Extension pointers in the [`CustomType`]s inside a polymorphic
+/// function type, including those in its parameter kinds.
+///
+/// # Attributes
+///
+/// - `poly_func`: The function type to collect the extensions from.
+/// - `used_extensions`: A The registry where to store the used extensions.
+/// - `missing_extensions`: A set of `ExtensionId`s of which the
+///   `Weak<Extension>` pointer has been invalidated.
+fn collect_poly_func_exts<RV: MaybeRV>(
+    poly_func: &PolyFuncTypeBase<RV>,
+    used_extensions: &mut WeakExtensionRegistry,
+    missing_extensions: &mut ExtensionSet,
+) {
+    for param in poly_func.params() {
+        collect_term_exts(param, used_extensions, missing_extensions);
+    }
+    collect_signature_exts(poly_func.body(), used_extensions, missing_extensions);
+}
+
 /// Collect the Extension pointers in the [`CustomType`]s inside a signature.
 ///
 /// # Attributes
diff --git a/hugr-core/src/extension/resolution/types_mut.rs b/hugr-core/src/extension/resolution/types_mut.rs
index e95e531..465995f 100644
--- a/hugr-core/src/extension/resolution/types_mut.rs
+++ b/hugr-core/src/extension/resolution/types_mut.rs
@@ -10,7 +10,9 @@ use super::{ExtensionResolutionError, WeakExtensionRegistry};
 use crate::extension::{ExtensionRegistry, ExtensionSet};
 use crate::ops::{OpType, Value};
 use crate::types::type_row::TypeRowBase;
-use crate::types::{CustomType, FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
+use crate::types::{
+    CustomType, FuncTypeBase, MaybeRV, PolyFuncTypeBase, SumType, Term, TypeBase, TypeEnum,
+};
 use crate::{Extension, HugrView, Node};
 
 /// Replace the dangling extension pointer in the [`CustomType`]s inside an
@@ -35,20 +37,10 @@ pub fn resolve_op_types_extensions(
             resolve_signature_exts(node, ext.signature_mut(), extensions, used_extensions)?;
         }
         OpType::FuncDefn(f) => {
-            resolve_signature_exts(
-                node,
-                f.signature_mut().body_mut(),
-                extensions,
-                used_extensions,
-            )?;
+            resolve_poly_func_exts(node, f.signature_mut(), extensions, used_extensions)?;
         }
         OpType::FuncDecl(f) => {
-            resolve_signature_exts(
-                node,
-                f.signature_mut().body_mut(),
-                extensions,
-                used_extensions,
-            )?;
+            resolve_poly_func_exts(node, f.signature_mut(), extensions, used_extensions)?;
         }
         OpType::Const(c) => resolve_value_exts(node, &mut c.value, extensions, used_extensions)?,
         OpType::Input(inp) => {
@@ -58,7 +50,7 @@ pub fn resolve_op_types_extensions(
             resolve_type_row_exts(node, &mut out.types, extensions, used_extensions)?;
         }
         OpType::Call(c) => {
-            resolve_signature_exts(node, c.func_sig.body_mut(), extensions, used_extensions)?;
+            resolve_poly_func_exts(node, &mut c.func_sig, extensions, used_extensions)?;
             resolve_signature_exts(node, &mut c.instantiation, extensions, used_extensions)?;
             for arg in &mut c.type_args {
                 resolve_term_exts(node, arg, extensions, used_extensions)?;
@@ -71,7 +63,7 @@ pub fn resolve_op_types_extensions(
             resolve_type_exts(node, &mut lc.datatype, extensions, used_extensions)?;
         }
         OpType::LoadFunction(lf) => {
-            resolve_signature_exts(node, lf.func_sig.body_mut(), extensions, used_extensions)?;
+            resolve_poly_func_exts(node, &mut lf.func_sig, extensions, used_extensions)?;
             resolve_signature_exts(node, &mut lf.instantiation, extensions, used_extensions)?;
             for arg in &mut lf.type_args {
                 resolve_term_exts(node, arg, extensions, used_extensions)?;
@@ -119,12 +111,31 @@ pub fn resolve_op_types_extensions(
         OpType::Case(case) => {
             resolve_signature_exts(node, &mut case.signature, extensions, used_extensions)?;
         }
+        OpType::AliasDefn(alias) => {
+            resolve_type_exts(node, &mut alias.definition, extensions, used_extensions)?;
+        }
         // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
     Ok(used.into_iter())
 }
 
+/// Update all weak Extension pointers in the [`CustomType`]s inside a
+/// polymorphic function type, including those in its parameter kinds.
+///
+/// Adds the extensions used in the function type to the `used_extensions` registry.
+pub(super) fn resolve_poly_func_exts<RV: MaybeRV>(
+    node: Option<Node>,
+    poly_func: &mut PolyFuncTypeBase<RV>,
+    extensions: &WeakExtensionRegistry,
+    used_extensions: &mut WeakExtensionRegistry,
+) -> Result<(), ExtensionResolutionError> {
+    for param in poly_func.params_mut() {
+        resolve_term_exts(node, param, extensions, used_extensions)?;
+    }
+    resolve_signature_exts(node, poly_func.body_mut(), extensions, used_extensions)
+}
+
 /// Update all weak Extension pointers in the [`CustomType`]s inside a signature.
 ///
 /// Adds the extensions used in the signature to the `used_extensions` registry.
diff --git a/hugr-core/src/types/poly_func.rs b/hugr-core/src/types/poly_func.rs
index 0769ef4..5da6c8e 100644
--- a/hugr-core/src/types/poly_func.rs
+++ b/hugr-core/src/types/poly_func.rs
@@ -147,6 +147,11 @@ impl<RV: MaybeRV> PolyFuncTypeBase<RV> {
         Cow::Owned(format!("∀ {params_list}. ",))
     }
 
+    /// Returns a mutable reference to the type parameters of the function type.
+    pub(crate) fn params_mut(&mut self) -> &mut [TypeParam] {
+        &mut self.params
+    }
+
     /// Returns a mutable reference to the body of the function type.
     pub fn body_mut(&mut self) -> &mut FuncTypeBase<RV> {
         &mut self.body
-- 
2.43.0


From 3bb4704d52b676fbc7c78d95442139b5da72d92f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 53/56] fix: compression without a level in hugr convert

---
 hugr-cli/src/convert.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hugr-cli/src/convert.rs b/hugr-cli/src/convert.rs
index 6a9aa18..631aa6d 100644
--- a/hugr-cli/src/convert.rs
+++ b/hugr-cli/src/convert.rs
@@ -85,8 +85,12 @@ impl ConvertArgs {
         };
 
         // Configure compression
-        if let Some(level) = self.compress.then_some(self.compression_level).flatten() {
-            config = config.with_zstd(ZstdConfig::new(level));
+        if self.compress {
+            let zstd = self
+                .compression_level
+                .map(ZstdConfig::new)
+                .unwrap_or_default();
+            config = config.with_zstd(zstd);
         }
 
         // Write the package with the requested format
-- 
2.43.0


From 8fb2ae2855671b3e88b4a14bc6c43f1f4427d23f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 54/56] fix: references between the extensions given to the
 command line tool

---
 hugr-cli/src/hugr_io.rs | 8 +++++++-
 hugr-cli/src/lib.rs     | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/hugr-cli/src/hugr_io.rs b/hugr-cli/src/hugr_io.rs
index ea9631b..917300e 100644
--- a/hugr-cli/src/hugr_io.rs
+++ b/hugr-cli/src/hugr_io.rs
@@ -114,9 +114,15 @@ impl HugrInputArgs {
             hugr::std_extensions::STD_REG.to_owned()
         };
 
+        let mut extensions: Vec<Extension> = Vec::with_capacity(self.extensions.len());
         for ext in &self.extensions {
             let f = std::fs::File::open(ext)?;
-            let ext: Extension = serde_json::from_reader(f)?;
+            extensions.push(serde_json::from_reader(BufReader::new(f))?);
+        }
+        // The definitions may mention the other extensions.
+        let extensions =
+            ExtensionRegistry::new_with_extension_resolution(extensions, &(&reg).into())?;
+        for ext in extensions {
             reg.register_updated(ext);
         }
 
diff --git a/hugr-cli/src/lib.rs b/hugr-cli/src/lib.rs
index da41e73..eaf15e3 100644
--- a/hugr-cli/src/lib.rs
+++ b/hugr-cli/src/lib.rs
@@ -111,6 +111,9 @@ pub enum CliError {
     #[error("Error reading envelope.")]
     /// Errors produced when reading an envelope.
     ReadEnvelope(#[from] hugr::envelope::ReadError),
+    /// The additional extensions mention something unknown.
+    #[error("Error resolving the additional extensions.")]
+    ExtensionResolution(#[from] hugr::extension::resolution::ExtensionResolutionError),
 }
 
 impl CliError {
-- 
2.43.0


From a46f9a6a898085305ed5952de6780c6f4df4af07 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 55/56] fix: results of copying, linking, replacing and
 monomorphizing depended on hash order

---
 hugr-core/src/hugr/hugrmut.rs       | 38 +++++++++++++++++++++++------
 hugr-core/src/hugr/linking.rs       | 23 +++++++++++------
 hugr-core/src/hugr/patch/replace.rs |  4 +--
 hugr-passes/src/monomorphize.rs     |  6 ++---
 4 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 799ba9c..dffff33 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -3,6 +3,7 @@
 use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::sync::Arc;
 
+use itertools::Itertools;
 use portgraph::{LinkMut, PortMut, PortView, SecondaryMap};
 
 use crate::core::HugrNode;
@@ -552,7 +553,7 @@ impl HugrMut for Hugr {
         mut other: Hugr,
         root_parents: impl IntoIterator<Item = (Node, Self::Node)>,
     ) -> InsertForestResult<Node, Self::Node> {
-        let roots: HashMap<_, _> = root_parents.into_iter().collect();
+        let roots: BTreeMap<_, _> = root_parents.into_iter().collect();
         for &subtree in roots.keys() {
             let mut n = subtree;
             while let Some(parent) = other.get_parent(n) {
@@ -619,12 +620,35 @@ impl HugrMut for Hugr {
         let mut descendants = self.hierarchy.descendants(root.into_portgraph());
         let root2 = descendants.next();
         debug_assert_eq!(root2, Some(root.into_portgraph()));
-        let nodes = Vec::from_iter(descendants);
-        let node_map = portgraph::view::Subgraph::with_nodes(&mut self.graph, nodes)
-            .copy_in_parent()
-            .expect("Is a MultiPortGraph");
-        let node_map =
-            translate_indices(Into::into, Into::into, node_map).collect::<BTreeMap<_, _>>();
+        let nodes = descendants.map_into::<Node>().sorted().collect_vec();
+        // Add the copies and their edges in the order of the nodes, so that the
+        // result does not depend on hashes.
+        let mut node_map = BTreeMap::new();
+        for &node in &nodes {
+            let pg_node = node.into_portgraph();
+            let copy = self.graph.add_node(
+                self.graph.num_inputs(pg_node),
+                self.graph.num_outputs(pg_node),
+            );
+            node_map.insert(node, Node::from(copy));
+        }
+        // Copy the edges, keeping the outer ends of those crossing the boundary.
+        for &node in &nodes {
+            let copy = node_map[&node];
+            for port in self.node_inputs(node).collect_vec() {
+                for (src, src_port) in self.linked_outputs(node, port).collect_vec() {
+                    let src = node_map.get(&src).copied().unwrap_or(src);
+                    self.connect(src, src_port, copy, port);
+                }
+            }
+            for port in self.node_outputs(node).collect_vec() {
+                for (tgt, tgt_port) in self.linked_inputs(node, port).collect_vec() {
+                    if !node_map.contains_key(&tgt) {
+                        self.connect(copy, port, tgt, tgt_port);
+                    }
+                }
+            }
+        }
 
         // Children to copy (before adding any copies, as `new_parent` may be one of `nodes`)
         let children_of = |n: &Node| (*n, self.children(*n).collect::<Vec<_>>());
diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index aed341b..a16bfad 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -1,6 +1,9 @@
 //! Directives and errors relating to linking Hugrs.
 
-use std::{collections::HashMap, fmt::Display};
+use std::{
+    collections::{BTreeMap, HashMap},
+    fmt::Display,
+};
 
 use itertools::Either;
 
@@ -39,6 +42,8 @@ pub trait HugrLinking: HugrMut {
         other: &H,
         children: NodeLinkingDirectives<H::Node, Self::Node>,
     ) -> Result<InsertedForest<H::Node, Self::Node>, NodeLinkingError<H::Node, Self::Node>> {
+        // Link in the order of the nodes, so that the result does not depend on hashes.
+        let children = BTreeMap::from_iter(children);
         let transfers = check_directives(other, parent, &children)?;
         let nodes =
             parent
@@ -48,7 +53,7 @@ pub trait HugrLinking: HugrMut {
                     NodeLinkingDirective::Add { .. } => Either::Left(other.descendants(ch)),
                     NodeLinkingDirective::UseExisting(_) => Either::Right(std::iter::once(ch)),
                 }));
-        let mut roots = HashMap::new();
+        let mut roots = BTreeMap::new();
         if let Some(parent) = parent {
             roots.insert(other.entrypoint(), parent);
         }
@@ -83,8 +88,10 @@ pub trait HugrLinking: HugrMut {
         mut other: Hugr,
         children: NodeLinkingDirectives<Node, Self::Node>,
     ) -> Result<InsertedForest<Node, Self::Node>, NodeLinkingError<Node, Self::Node>> {
+        // Link in the order of the nodes, so that the result does not depend on hashes.
+        let children = BTreeMap::from_iter(children);
         let transfers = check_directives(&other, parent, &children)?;
-        let mut roots = HashMap::new();
+        let mut roots = BTreeMap::new();
         if let Some(parent) = parent {
             roots.insert(other.entrypoint(), parent);
             // (If the entrypoint is the module root, we are inserting the whole Hugr.)
@@ -199,14 +206,14 @@ pub type NodeLinkingDirectives<SN, TN> = HashMap<SN, NodeLinkingDirective<TN>>;
 /// Invariant: no SourceNode can be in both maps (by type of [NodeLinkingDirective])
 /// TargetNodes can be (in RHS of multiple directives)
 struct Transfers<SourceNode, TargetNode> {
-    use_existing: HashMap<SourceNode, TargetNode>,
-    replace: HashMap<TargetNode, SourceNode>,
+    use_existing: BTreeMap<SourceNode, TargetNode>,
+    replace: BTreeMap<TargetNode, SourceNode>,
 }
 
 fn check_directives<SRC: HugrView, TN: HugrNode>(
     other: &SRC,
     parent: Option<TN>,
-    children: &HashMap<SRC::Node, NodeLinkingDirective<TN>>,
+    children: &BTreeMap<SRC::Node, NodeLinkingDirective<TN>>,
 ) -> Result<Transfers<SRC::Node, TN>, NodeLinkingError<SRC::Node, TN>> {
     if parent.is_some() {
         if other.entrypoint() == other.module_root() {
@@ -233,8 +240,8 @@ fn check_directives<SRC: HugrView, TN: HugrNode>(
         }
     }
     let mut trns = Transfers {
-        replace: HashMap::default(),
-        use_existing: HashMap::default(),
+        replace: BTreeMap::default(),
+        use_existing: BTreeMap::default(),
     };
     for (&sn, dirv) in children {
         if other.get_parent(sn) != Some(other.module_root()) {
diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index 2783ce6..a83f55f 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -233,7 +233,7 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
         }
         if !transferred.is_empty() {
             return Err(ReplaceError::AdopteesNotSeparateDescendants(
-                transferred.into_iter().collect(),
+                transferred.into_iter().sorted().collect(),
             ));
         }
         Ok(removed)
@@ -410,7 +410,7 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         }
 
         // 7. Remove remaining nodes
-        for n in to_remove {
+        for n in to_remove.into_iter().sorted() {
             h.remove_node(n);
         }
         Ok(node_map)
diff --git a/hugr-passes/src/monomorphize.rs b/hugr-passes/src/monomorphize.rs
index ef12689..add626c 100644
--- a/hugr-passes/src/monomorphize.rs
+++ b/hugr-passes/src/monomorphize.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, hash_map::Entry},
+    collections::{BTreeMap, HashMap, hash_map::Entry},
     convert::Infallible,
     fmt::Write,
 };
@@ -49,7 +49,7 @@ fn is_polymorphic_funcdefn(t: &OpType) -> bool {
 struct Instantiating<'a> {
     subst: &'a Substitution<'a>,
     target_container: Node,
-    node_map: &'a mut HashMap<Node, Node>,
+    node_map: &'a mut BTreeMap<Node, Node>,
 }
 
 type Instantiations = HashMap<Node, HashMap<Vec<TypeArg>, Node>>;
@@ -151,7 +151,7 @@ fn instantiate(
     // Insert BEFORE we scan (in case of recursion), hence we cannot use Entry::or_insert
     ve.insert(mono_tgt);
     // Now make the instantiation
-    let mut node_map = HashMap::new();
+    let mut node_map = BTreeMap::new();
     let mut inst = Instantiating {
         subst: &Substitution::new(&type_args),
         target_container: mono_tgt,
-- 
2.43.0


From 918b401a32c4d9b2887437af3772cf2fd49f0eca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:37:43 +0000
Subject: [PATCH 56/56] fix: nesting of control flow mixed up edges that are
 not equivalent

The bracket list of the cycle equivalence algorithm took the oldest bracket
for its top, so that edges which do not lie on the same cycles could share a
class, and nesting made inner CFGs of regions with several exits. Self loops
and doubled edges, and blocks that cannot be reached or never reach the exit,
were not expected at all (panics).
---
 hugr-passes/src/nest_cfgs.rs | 60 +++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/hugr-passes/src/nest_cfgs.rs b/hugr-passes/src/nest_cfgs.rs
index 7f456f8..c034868 100644
--- a/hugr-passes/src/nest_cfgs.rs
+++ b/hugr-passes/src/nest_cfgs.rs
@@ -87,7 +87,9 @@ pub trait CfgNester<T>: CfgNodeMap<T> {
 pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
     view: &mut impl CfgNester<T>,
 ) {
-    let edge_classes = EdgeClassifier::get_edge_classes(view);
+    let mut edge_classes = EdgeClassifier::get_edge_classes(view);
+    // Several edges between the same two nodes are not a single entry nor a single exit
+    edge_classes.retain(|(src, tgt), _| view.successors(*src).filter(|s| s == tgt).count() == 1);
     let mut rem_edges: HashMap<usize, HashSet<(T, T)>> = HashMap::new();
     for (e, cls) in &edge_classes {
         rem_edges.entry(*cls).or_default().insert(*e);
@@ -111,6 +113,7 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
             }
             let (exit, rest): (Vec<_>, Vec<_>) = view
                 .successors(n)
+                .unique()
                 .map(|s| (n, s))
                 .partition(|e| stop_at.is_some() && edge_classes.get(e).copied() == stop_at);
             exit_edges.extend(exit.into_iter().at_most_one().unwrap());
@@ -127,7 +130,9 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
                         assert!(rem_edges.get_mut(cls).unwrap().remove(&e));
                         // Skip trivial regions of a single node, unless the node has other edges
                         // (non-exiting, but e.g. a backedge to a loop header, ending that loop)
-                        if prev_e.1 != e.0 || view.successors(e.0).count() > 1 {
+                        if (prev_e.1 != e.0 || view.successors(e.0).count() > 1)
+                            && is_sese_region(view, prev_e, e)
+                        {
                             // Traversal and nesting of the subregion's *contents* were completed in the
                             // recursive call above, so only processed nodes are moved into descendant CFGs
                             e = (view.nest_sese_region(prev_e, e), e.1);
@@ -194,6 +199,8 @@ fn all_edges<'a, T: Copy + Clone + PartialEq + Eq + Hash + 'a>(
         .chain(extra)
         .map(EdgeDest::Forward)
         .chain(cfg.predecessors(n).map(EdgeDest::Backward))
+        // An edge from a node to itself is a cycle on its own
+        .filter(move |e| e.target() != n)
         .unique()
 }
 
@@ -289,6 +296,24 @@ pub enum RegionBlocksError<T> {
     UnexpectedEntryEdges(Vec<T>),
 }
 
+/// Whether the edges are the only ones into and out of the blocks between them. Edges with the
+/// same class are, apart from edges of nodes that cannot be reached from the entry node of the
+/// CFG, or from which the exit node cannot be reached.
+fn is_sese_region<T: Copy + Eq + Hash + std::fmt::Debug>(
+    v: &impl CfgNodeMap<T>,
+    entry_edge: (T, T),
+    exit_edge: (T, T),
+) -> bool {
+    region_blocks(v, entry_edge, exit_edge).is_ok_and(|blocks| {
+        blocks.iter().all(|&n| {
+            v.predecessors(n)
+                .all(|p| blocks.contains(&p) || (p, n) == entry_edge)
+                && v.successors(n)
+                    .all(|s| blocks.contains(&s) || (n, s) == exit_edge)
+        })
+    })
+}
+
 /// Given entry and exit edges for a SESE region, identify all the blocks in it.
 pub fn region_blocks<T: Copy + Eq + Hash + std::fmt::Debug>(
     v: &impl CfgNodeMap<T>,
@@ -340,7 +365,7 @@ pub fn region_blocks<T: Copy + Eq + Hash + std::fmt::Debug>(
 }
 
 /// Records an undirected Depth First Search over a `CfgView`,
-///   restricted to nodes forwards-reachable from the entry.
+///   restricted to nodes forwards-reachable from the entry, and from which the exit is reachable.
 /// That is, the DFS traversal goes both ways along the edges of the CFG.
 /// *Undirected* DFS classifies all edges into *only two* categories
 ///   * tree edges, which on their own (with the nodes) form a tree (minimum spanning tree);
@@ -355,13 +380,22 @@ struct UndirectedDFSTree<T> {
 
 impl<T: Copy + Clone + PartialEq + Eq + Hash> UndirectedDFSTree<T> {
     fn new(cfg: &impl CfgNodeMap<T>) -> Self {
-        //1. Traverse backwards-only from exit building bitset of reachable nodes
+        //1. Traverse forwards-only from entry, then backwards-only from exit, building
+        // the set of nodes on paths from entry to exit
+        let mut from_entry = HashSet::new();
+        {
+            let mut pending = VecDeque::from([cfg.entry_node()]);
+            while let Some(n) = pending.pop_front() {
+                if from_entry.insert(n) {
+                    pending.extend(cfg.successors(n));
+                }
+            }
+        }
         let mut reachable = HashSet::new();
         {
-            let mut pending = VecDeque::new();
-            pending.push_back(cfg.exit_node());
+            let mut pending = VecDeque::from([cfg.exit_node()]);
             while let Some(n) = pending.pop_front() {
-                if reachable.insert(n) {
+                if from_entry.contains(&n) && reachable.insert(n) {
                     pending.extend(cfg.predecessors(n));
                 }
             }
@@ -381,7 +415,8 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> UndirectedDFSTree<T> {
                     }
                 }
             }
-            dfs_parents.remove(&cfg.entry_node()).unwrap();
+            // (There is no entry in the tree if the exit cannot be reached)
+            dfs_parents.remove(&cfg.entry_node());
         }
         UndirectedDFSTree {
             dfs_num,
@@ -417,10 +452,11 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> BracketList<T> {
     }
 
     pub fn tag(&mut self, deleted: &HashSet<Bracket<T>>) -> Option<(Bracket<T>, usize)> {
-        while let Some(e) = self.items.front() {
+        // The top of the list is the bracket most recently added
+        while let Some(e) = self.items.back() {
             // Pop deleted elements to save time (and memory)
             if deleted.contains(e) {
-                self.items.pop_front();
+                self.items.pop_back();
                 //deleted.remove(e); // Would only save memory, so keep as immutable
             } else {
                 return Some((e.clone(), self.size));
@@ -474,7 +510,9 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> EdgeClassifier<T> {
             capping_edges: HashMap::new(),
             edge_classes: HashMap::new(),
         };
-        s.traverse(cfg, &tree, cfg.entry_node());
+        if tree.dfs_num.contains_key(&cfg.entry_node()) {
+            s.traverse(cfg, &tree, cfg.entry_node());
+        }
         assert!(s.capping_edges.is_empty());
         s.edge_classes.remove(&(cfg.exit_node(), cfg.entry_node()));
         let mut cycle_class_idxs = HashMap::new();
-- 
2.43.0

