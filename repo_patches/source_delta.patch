From 563f6e212f693e50537e4b805a1260ea4ac66902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 01/12] fix: compare the identity with the other operand in
 point equality

The constant-time comparison tested self twice, so the identity compared
equal to every point.
---
 src/curves/ec0.rs | 2 +-
 src/curves/ec1.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index 2dd161e..fbffee5 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec0 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index f7bffbf..da61392 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -18,7 +18,7 @@ impl ConstantTimeEq for Ec1 {
         let y2 = other.y * self.z;
 
         let z1 = self.is_zero();
-        let z2 = self.is_zero();
+        let z2 = other.is_zero();
 
         (z1 & z2) | ((!z1) & (!z2) & (x1.ct_eq(&x2)) & (y1.ct_eq(&y2)))
     }
-- 
2.43.0


From 00fa448a51c7c7dc878321f18421a90a979989c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 02/12] fix: make the default point the identity

The derived default was (0, 0, 0), which is not a representation of any
point and absorbs everything added to it.
---
 src/curves/ec0.rs | 8 +++++++-
 src/curves/ec1.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/curves/ec0.rs b/src/curves/ec0.rs
index fbffee5..d2de31d 100644
--- a/src/curves/ec0.rs
+++ b/src/curves/ec0.rs
@@ -2,13 +2,19 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec0 {
     x: Fq,
     y: Fq,
     z: Fq,
 }
 
+impl Default for Ec0 {
+    fn default() -> Self {
+        Self::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec0 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
diff --git a/src/curves/ec1.rs b/src/curves/ec1.rs
index da61392..d7e7b75 100644
--- a/src/curves/ec1.rs
+++ b/src/curves/ec1.rs
@@ -2,13 +2,19 @@ use crate::{Curve, Field, Fp, Fq};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 
-#[derive(Default, Eq, Debug, Copy, Clone)]
+#[derive(Eq, Debug, Copy, Clone)]
 pub struct Ec1 {
     x: Fp,
     y: Fp,
     z: Fp,
 }
 
+impl Default for Ec1 {
+    fn default() -> Self {
+        Self::zero()
+    }
+}
+
 impl ConstantTimeEq for Ec1 {
     fn ct_eq(&self, other: &Self) -> Choice {
         let x1 = self.x * other.z;
-- 
2.43.0


From 69e6be5346fda5fa2f359a77ebb89147410ab49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:27 +0000
Subject: [PATCH 03/12] verif hooks: access to private parts under
 cfg(halo_verif)

---
 src/gadgets/ecc.rs | 13 +++++++++++++
 src/gadgets/mod.rs |  2 ++
 src/proofs.rs      | 18 ++++++++++++++++++
 src/recursion.rs   | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 80 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index e7b3bb9..ae568c0 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -2029,6 +2029,19 @@ impl<C: Curve> CurvePoint<C> {
     }
 }
 
+#[cfg(halo_verif)]
+impl<C: Curve> CurvePoint<C> {
+    /// The parts of a point, for verification.
+    pub fn verif_parts(&self) -> (Num<C::Base>, Num<C::Base>, Boolean) {
+        (self.x, self.y, self.is_identity.clone())
+    }
+
+    /// A point made of the given parts, for verification.
+    pub fn verif_from_parts(x: Num<C::Base>, y: Num<C::Base>, is_identity: Boolean) -> Self {
+        CurvePoint { x, y, is_identity }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::CurvePoint;
diff --git a/src/gadgets/mod.rs b/src/gadgets/mod.rs
index 0586b5e..9c5bc0f 100644
--- a/src/gadgets/mod.rs
+++ b/src/gadgets/mod.rs
@@ -11,3 +11,5 @@ pub use ecc::*;
 pub use num::*;
 pub use rescue::*;
 pub use uint64::*;
+#[cfg(halo_verif)]
+pub use uint32::*;
diff --git a/src/proofs.rs b/src/proofs.rs
index b774842..31c788b 100644
--- a/src/proofs.rs
+++ b/src/proofs.rs
@@ -1240,6 +1240,24 @@ pub struct PolynomialOpening<C: Curve> {
     right_edge: bool,
 }
 
+#[cfg(halo_verif)]
+impl<C: Curve> PolynomialOpening<C> {
+    /// An opening instance, for verification.
+    pub fn verif_new(
+        commitment: C,
+        opening: C::Scalar,
+        point: C::Scalar,
+        right_edge: bool,
+    ) -> Self {
+        PolynomialOpening {
+            commitment,
+            opening,
+            point,
+            right_edge,
+        }
+    }
+}
+
 #[derive(Clone)]
 pub struct MultiPolynomialOpening<C: Curve> {
     pub rounds: Vec<InnerProductRound<C>>,
diff --git a/src/recursion.rs b/src/recursion.rs
index ff28cc8..58591ce 100644
--- a/src/recursion.rs
+++ b/src/recursion.rs
@@ -1718,3 +1718,50 @@ impl<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Sc
         )
     }
 }
+
+#[cfg(halo_verif)]
+impl<E1: Curve, E2: Curve> RecursiveProof<E1, E2> {
+    /// A recursive proof made of the given parts, for verification.
+    pub fn verif_new(
+        proof: Proof<E1>,
+        oldproof1: Leftovers<E1>,
+        oldproof2: Leftovers<E2>,
+        deferred: Deferred<E2::Scalar>,
+        payload: Vec<u8>,
+    ) -> Self {
+        RecursiveProof {
+            proof,
+            oldproof1,
+            oldproof2,
+            deferred,
+            payload,
+        }
+    }
+}
+
+/// The verification circuit with the given witness, for verification.
+#[cfg(halo_verif)]
+pub fn verif_circuit<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Scalar>>(
+    params: &'a Params<E2>,
+    base_case: Option<bool>,
+    inner_circuit: &'a Inner,
+    proof: Option<&'a RecursiveProof<E2, E1>>,
+    new_payload: &'a [u8],
+    forkvalues: Option<&'a [u8]>,
+    old_leftovers: Option<Leftovers<E1>>,
+    new_leftovers: Option<Leftovers<E2>>,
+    deferred: Option<Deferred<E2::Scalar>>,
+) -> impl Circuit<E1::Scalar> + 'a {
+    VerificationCircuit::<E1, E2, Inner> {
+        _marker: PhantomData,
+        params,
+        base_case,
+        inner_circuit,
+        proof,
+        new_payload,
+        forkvalues,
+        old_leftovers,
+        new_leftovers,
+        deferred,
+    }
+}
-- 
2.43.0


From f3d0d9518739832262dc79671611a337685dc8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:27 +0000
Subject: [PATCH 04/12] fix: constrain the result of incomplete point addition

---
 src/gadgets/ecc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index ae568c0..f77f466 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -330,6 +330,7 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(LinearCombination::from(lambda) - d_var);
         cs.enforce_zero(LinearCombination::from(lambda) - e_var);
         let x_r_lc = LinearCombination::from(f_var) - &x_p_lc - &x_q_lc;
+        cs.enforce_zero(x_r.lc() - &x_r_lc);
 
         let (g_var, h_var, i_var) = cs.multiply(
             || "(x_p - x_r) * lambda = (y_p + y_r)",
@@ -343,6 +344,7 @@ impl<C: Curve> CurvePoint<C> {
         cs.enforce_zero(x_p_lc.clone() - &x_r_lc - g_var);
         cs.enforce_zero(LinearCombination::from(lambda) - h_var);
         let y_r_lc = LinearCombination::from(i_var) - &y_p_lc;
+        cs.enforce_zero(y_r.lc() - &y_r_lc);
 
         Ok(CurvePoint {
             x: x_r.into(),
-- 
2.43.0


From c0ba317b1ab71fc4315a29202a00a9e919933909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 05/12] fix: a point witnessed as the identity must have
 coordinates (0, 0)

---
 src/gadgets/ecc.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index f77f466..94ac33f 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -126,6 +126,23 @@ impl<C: Curve> CurvePoint<C> {
         );
         cs.enforce_zero(LinearCombination::from(l_var));
 
+        // The identity must be represented as (0, 0).
+        let (m_var, n_var, o_var) = cs.multiply(
+            || "x * is_identity = 0",
+            || Ok((x_val?, is_identity_val?.into(), C::Base::zero())),
+        )?;
+        cs.enforce_zero(x.lc() - m_var);
+        cs.enforce_zero(LinearCombination::from(is_identity.get_variable()) - n_var);
+        cs.enforce_zero(LinearCombination::from(o_var));
+
+        let (p_var, q_var, r_var) = cs.multiply(
+            || "y * is_identity = 0",
+            || Ok((y_val?, is_identity_val?.into(), C::Base::zero())),
+        )?;
+        cs.enforce_zero(y.lc() - p_var);
+        cs.enforce_zero(LinearCombination::from(is_identity.get_variable()) - q_var);
+        cs.enforce_zero(LinearCombination::from(r_var));
+
         Ok(CurvePoint {
             x: Num::from(x),
             y: Num::from(y),
-- 
2.43.0


From 39fe239cfeb97324b2097bec7dfb9cf322fda8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:49 +0000
Subject: [PATCH 06/12] fix: constrain the result of complete point addition

---
 src/gadgets/ecc.rs | 90 +++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 94ac33f..fbb9af1 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -417,26 +417,18 @@ impl<C: Curve> CurvePoint<C> {
         let p1_is_identity_val = self.is_identity.get_value();
         let p2_is_identity_val = other.is_identity.get_value();
 
-        let x4_val =
-            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
-
-        let y4_val =
-            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
-
-        let x5_val = x2_val.and_then(|x2| {
-            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
-        });
-
-        let y5_val = y2_val.and_then(|y2| {
-            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
-        });
-
-        let x_out_val = x1_val.and_then(|x1| {
-            x5_val.and_then(|x5| p2_is_identity_val.map(|p2| if p2 { x1 } else { x5 }))
-        });
-        let y_out_val = y1_val.and_then(|y1| {
-            y5_val.and_then(|y5| p2_is_identity_val.map(|p2| if p2 { y1 } else { y5 }))
-        });
+        let x_out_val = match (p1_is_identity_val, p2_is_identity_val) {
+            (Some(_), Some(true)) => x1_val,
+            (Some(true), Some(false)) => x2_val,
+            (Some(false), Some(false)) => x3_val,
+            _ => None,
+        };
+        let y_out_val = match (p1_is_identity_val, p2_is_identity_val) {
+            (Some(_), Some(true)) => y1_val,
+            (Some(true), Some(false)) => y2_val,
+            (Some(false), Some(false)) => y3_val,
+            _ => None,
+        };
 
         let x_out = AllocatedNum::alloc(cs.namespace(|| "x_out"), || {
             x_out_val.ok_or(SynthesisError::AssignmentMissing)
@@ -760,21 +752,49 @@ impl<C: Curve> CurvePoint<C> {
         );
         cs.enforce_zero(LinearCombination::from(v_var));
 
-        // // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
-        // let (w_var, _, x_var) = cs.multiply(|| {
-        //     let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
-        //     let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
+        // (y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)
+        //
+        // When the x coordinates differ, the right-hand side is zero and so the
+        // second factor must be zero as well.
+        let (w_var, _, x_var) = cs.multiply(
+            || "(y1 + y2) * (y1 + y2)^-1 = (x_is_same - p3_is_identity)",
+            || {
+                let y1 = y1_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let y2 = y2_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let x_is_same = x_is_same_val.ok_or(SynthesisError::AssignmentMissing)?;
+                let p3_is_identity = p3_is_identity_val.ok_or(SynthesisError::AssignmentMissing)?;
 
-        //     let y1y2inv = (y1 + &y2).invert().unwrap_or(C::Base::zero());
+                let p3_is_identity: C::Base = p3_is_identity.into();
+                let rhs = x_is_same - &p3_is_identity;
+                let y1y2inv = (y1 + &y2).invert().unwrap_or(C::Base::zero());
+
+                Ok((y1 + &y2, rhs * &y1y2inv, rhs))
+            },
+        )?;
+        cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
+        cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+
+        // The values the formulas give for p3, which is p1 + p2 only if neither
+        // of them is the identity (the result is replaced below otherwise).
+        let x3_val = lambda_sq_val
+            .and_then(|lambda_sq| x1_val.and_then(|x1| x2_val.map(|x2| lambda_sq - &x1 - &x2)));
+        let y3_val = x3_val.and_then(|x3| {
+            lambda_val.and_then(|lambda| {
+                x1_val.and_then(|x1| y1_val.map(|y1| (x1 - &x3) * &lambda - &y1))
+            })
+        });
 
-        //     let p3_is_identity: C::Base = p3_is_identity.into();
+        let x4_val =
+            x3_val.and_then(|x3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { x3 }));
+        let y4_val =
+            y3_val.and_then(|y3| p3_is_identity_val.map(|b| if b { C::Base::zero() } else { y3 }));
 
-        //     Ok((y1 + &y2, y1y2inv, x_is_same - &p3_is_identity))
-        // })?;
-        // cs.enforce_zero(y1_lc.clone() + &y2_lc - w_var);
-        // cs.enforce_zero(LinearCombination::from(x_is_same_var) - p3_is_identity_var - x_var);
+        let x5_val = x2_val.and_then(|x2| {
+            x4_val.and_then(|x4| p1_is_identity_val.map(|p1| if p1 { x2 } else { x4 }))
+        });
+        let y5_val = y2_val.and_then(|y2| {
+            y4_val.and_then(|y4| p1_is_identity_val.map(|p1| if p1 { y2 } else { y4 }))
+        });
 
         let (y_var, z_var, x4_var) = cs.multiply(
             || "x3 * (1 - p3_is_identity) = x4",
@@ -786,8 +806,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((x3, (!p3_is_identity).into(), x4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(x3_lc - y_var);
+        cs.enforce_zero(x3_lc - y_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - z_var);
 
         let (aa_var, bb_var, y4_var) = cs.multiply(
@@ -800,8 +819,7 @@ impl<C: Curve> CurvePoint<C> {
                 Ok((y3, (!p3_is_identity).into(), y4))
             },
         )?;
-        // TODO: Fix
-        // cs.enforce_zero(y3_lc - aa_var);
+        cs.enforce_zero(y3_lc - aa_var);
         cs.enforce_zero(LinearCombination::from(CS::ONE) - p3_is_identity_var - bb_var);
 
         let (cc_var, dd_var, ee_var) = cs.multiply(
-- 
2.43.0


From 030898d8f687dca61914eb2b1bc358a2ff3153ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:42 +0000
Subject: [PATCH 07/12] fix: require the result of inverse point multiplication
 to be a valid point

---
 src/gadgets/ecc.rs | 35 +++++------------------------------
 1 file changed, 5 insertions(+), 30 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index fbb9af1..4643262 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1997,36 +1997,11 @@ impl<C: Curve> CurvePoint<C> {
             }
         }
 
-        let inverted_val = p.map(|p| {
-            let inv = mulby.invert();
-            if inv.is_none().into() {
-                (C::Base::zero(), C::Base::zero(), true)
-            } else {
-                let inv = p * &inv.unwrap();
-                let coords = inv.get_xy();
-                if coords.is_some().into() {
-                    let (x, y) = coords.unwrap();
-                    (x, y, false)
-                } else {
-                    (C::Base::zero(), C::Base::zero(), true)
-                }
-            }
-        });
-
-        let x_inv_val = inverted_val.map(|(x, _, _)| x);
-        let y_inv_val = inverted_val.map(|(_, y, _)| y);
-        let is_identity_inv_val = inverted_val.map(|(_, _, b)| b);
-
-        let x_inv = AllocatedNum::alloc(cs.namespace(|| "x_inv"), || x_inv_val)?;
-        let y_inv = AllocatedNum::alloc(cs.namespace(|| "y_inv"), || y_inv_val)?;
-        let is_identity_inv =
-            AllocatedBit::alloc(cs.namespace(|| "inv_is_identity"), || is_identity_inv_val)?;
-
-        let inverted = CurvePoint {
-            x: x_inv.into(),
-            y: y_inv.into(),
-            is_identity: is_identity_inv.into(),
-        };
+        // The result must be a valid point, as we only check that multiplying it
+        // gives us back the original one.
+        let inverted = Self::witness(cs.namespace(|| "inverted"), || {
+            p.map(|p| p * &mulby.invert().unwrap_or(C::Scalar::zero()))
+        })?;
 
         let calculated = mul_func(&mut cs, &inverted)?;
 
-- 
2.43.0


From 976248096e1281ceb6ec5804103e254d73d14bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:17 +0000
Subject: [PATCH 08/12] fix: multiply by a one-bit scalar in multiply_fast

---
 src/gadgets/ecc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 4643262..7b4696c 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1821,6 +1821,12 @@ impl<C: Curve> CurvePoint<C> {
         if let Some(b) = other.last().unwrap().get_value() {
             assert_eq!(b, true);
         }
+        // A single set bit is the scalar one, which is below what the
+        // accumulator starts at.
+        if other.len() == 1 {
+            return Ok(self.clone());
+        }
+
         let mut acc = self.double(cs.namespace(|| "[2] Acc"))?;
         acc = acc.add_incomplete(cs.namespace(|| "[3] Acc"), self)?;
 
-- 
2.43.0


From 7281f75ba01ccead6cc77c2bd8c6a2c6751da8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:45 +0000
Subject: [PATCH 09/12] fix: bit decomposition admits only the canonical bits
 of a number

---
 src/gadgets/boolean.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/gadgets/boolean.rs b/src/gadgets/boolean.rs
index 9373576..3810c91 100644
--- a/src/gadgets/boolean.rs
+++ b/src/gadgets/boolean.rs
@@ -317,6 +317,32 @@ pub fn unpack_fe<F: Field, CS: ConstraintSystem<F>>(
     let num_lc = num.lc(&mut cs);
     cs.enforce_zero(lc - &num_lc);
 
+    // 256 bits can also hold the value plus a multiple of the modulus, so check
+    // that they do not exceed p - 1: below every run of ones of p - 1 (from the
+    // most significant bit), while all bits of the previous runs are set, the
+    // bits where p - 1 has a zero must be zero. As p - 1 is even, its last bit
+    // ends the last run.
+    let max = (-F::one()).to_bytes();
+    let mut run: Option<AllocatedBit> = None;
+    for (i, bit) in bools.iter().enumerate().rev() {
+        let mut cs = cs.namespace(|| format!("canonical {}", i));
+        let max_bit = (max[i / 8] >> (i % 8)) & 1 == 1;
+
+        run = match (run, max_bit) {
+            (None, true) => Some(bit.clone()),
+            (Some(run), true) => Some(AllocatedBit::and(&mut cs, &run, bit)?),
+            (None, false) => {
+                cs.enforce_zero(LinearCombination::from(bit.var));
+                None
+            }
+            (Some(run), false) => {
+                let exceeds = AllocatedBit::and(&mut cs, &run, bit)?;
+                cs.enforce_zero(LinearCombination::from(exceeds.var));
+                Some(run)
+            }
+        };
+    }
+
     Ok(bools)
 }
 
-- 
2.43.0


From cbed851816c933f58cd72d80d8236b897e46b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:44 +0000
Subject: [PATCH 10/12] fix: report an error for the edge cases of conditional
 point addition

---
 src/gadgets/ecc.rs | 47 +++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/gadgets/ecc.rs b/src/gadgets/ecc.rs
index 7b4696c..911861d 100644
--- a/src/gadgets/ecc.rs
+++ b/src/gadgets/ecc.rs
@@ -1,5 +1,6 @@
 use super::AllocatedNum;
 use super::{AllocatedBit, Boolean, Num};
+use crate::util::CtOptionExt2;
 use crate::{
     circuits::{Coeff, ConstraintSystem, LinearCombination, SynthesisError},
     fields::Field,
@@ -1043,29 +1044,29 @@ impl<C: Curve> CurvePoint<C> {
         let x2 = other.x;
         let y2 = other.y;
 
-        let p1 = self.get_point().map(|p| p.unwrap());
-        let p2 = other.get_point().map(|p| p.unwrap());
-
-        let p3_val = p1.and_then(|p1| p2.and_then(|p2| Some((p1 + p2).get_xy().unwrap())));
-
-        let p_out = match (p3_val, condition.get_value()) {
-            (Some(p3), Some(b)) => {
-                if b {
-                    Some(p3)
-                } else {
-                    self.x
-                        .value()
-                        .and_then(|x| self.y.value().and_then(|y| Some((x, y))))
-                }
-            }
-            _ => None,
+        // The sum is not defined in the edge cases.
+        let p3_val = match (self.get_point(), other.get_point()) {
+            (Some(p1), Some(p2)) => p1
+                .and_then(|p1| p2.and_then(|p2| (p1 + p2).get_xy()))
+                .to_option()
+                .ok_or(SynthesisError::DivisionByZero),
+            _ => Err(SynthesisError::AssignmentMissing),
         };
 
+        let p_out = p3_val.and_then(|p3| match condition.get_value() {
+            Some(true) => Ok(p3),
+            Some(false) => match (x1.value(), y1.value()) {
+                (Some(x), Some(y)) => Ok((x, y)),
+                _ => Err(SynthesisError::AssignmentMissing),
+            },
+            None => Err(SynthesisError::AssignmentMissing),
+        });
+
         let x_out = AllocatedNum::alloc(cs.namespace(|| "x_out"), || {
-            Ok(p_out.ok_or(SynthesisError::AssignmentMissing)?.0)
+            Ok(p_out?.0)
         })?;
         let y_out = AllocatedNum::alloc(cs.namespace(|| "y_out"), || {
-            Ok(p_out.ok_or(SynthesisError::AssignmentMissing)?.1)
+            Ok(p_out?.1)
         })?;
 
         let x1_lc = x1.lc(&mut cs);
@@ -1159,7 +1160,7 @@ impl<C: Curve> CurvePoint<C> {
             || "lambda x3",
             || {
                 let lambda_val = lambda_val.ok_or(SynthesisError::AssignmentMissing)?;
-                let x3_val = p3_val.ok_or(SynthesisError::AssignmentMissing)?.0;
+                let x3_val = p3_val?.0;
 
                 if lambda_val.is_some().into() {
                     let lambda_val = lambda_val.unwrap();
@@ -1198,8 +1199,8 @@ impl<C: Curve> CurvePoint<C> {
                     .get_value()
                     .ok_or(SynthesisError::AssignmentMissing)?;
                 let x1_val = x1.value().ok_or(SynthesisError::AssignmentMissing)?;
-                let x3_val = p3_val.ok_or(SynthesisError::AssignmentMissing)?.0;
-                let x_out_val = p_out.ok_or(SynthesisError::AssignmentMissing)?.0;
+                let x3_val = p3_val?.0;
+                let x_out_val = p_out?.0;
 
                 Ok((bit.into(), x3_val - &x1_val, x_out_val - &x1_val))
             },
@@ -1215,8 +1216,8 @@ impl<C: Curve> CurvePoint<C> {
                     .get_value()
                     .ok_or(SynthesisError::AssignmentMissing)?;
                 let y1_val = y1.value().ok_or(SynthesisError::AssignmentMissing)?;
-                let y3_val = p3_val.ok_or(SynthesisError::AssignmentMissing)?.1;
-                let y_out_val = p_out.ok_or(SynthesisError::AssignmentMissing)?.1;
+                let y3_val = p3_val?.1;
+                let y_out_val = p_out?.1;
 
                 Ok((bit.into(), y3_val - &y1_val, y_out_val - &y1_val))
             },
-- 
2.43.0


From 4f0e7ebfe34badc24819f09890105151d13ff6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:50 +0000
Subject: [PATCH 11/12] verif hook: end the verification circuit after its
 public inputs

---
 src/recursion.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/recursion.rs b/src/recursion.rs
index 58591ce..e12a8ef 100644
--- a/src/recursion.rs
+++ b/src/recursion.rs
@@ -1503,6 +1503,13 @@ impl<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Sc
             }
         }
 
+        #[cfg(halo_verif)]
+        {
+            if VERIF_PUBLIC_ONLY.load(std::sync::atomic::Ordering::SeqCst) {
+                return Ok(());
+            }
+        }
+
         // Check that all the inputs are booleans now that we've allocated
         // all of our public inputs.
         {
@@ -1719,8 +1726,33 @@ impl<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, Inner: RecursiveCircuit<E1::Sc
     }
 }
 
+/// When set, the verification circuit ends once its public inputs are allocated,
+/// which makes recursive proofs small enough to create, for verification.
+#[cfg(halo_verif)]
+pub static VERIF_PUBLIC_ONLY: std::sync::atomic::AtomicBool =
+    std::sync::atomic::AtomicBool::new(false);
+
 #[cfg(halo_verif)]
 impl<E1: Curve, E2: Curve> RecursiveProof<E1, E2> {
+    /// The parts of a recursive proof, for verification.
+    pub fn verif_parts(
+        &self,
+    ) -> (
+        &Proof<E1>,
+        &Leftovers<E1>,
+        &Leftovers<E2>,
+        &Deferred<E2::Scalar>,
+        &[u8],
+    ) {
+        (
+            &self.proof,
+            &self.oldproof1,
+            &self.oldproof2,
+            &self.deferred,
+            &self.payload,
+        )
+    }
+
     /// A recursive proof made of the given parts, for verification.
     pub fn verif_new(
         proof: Proof<E1>,
-- 
2.43.0


From c9e760c5cbffc97f7d68e199f27a562ef6eb9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:42 +0000
Subject: [PATCH 12/12] fix: the determinism check also notices a second
 synthesis that ends early

---
 src/dev.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dev.rs b/src/dev.rs
index ecbe828..1580d8d 100644
--- a/src/dev.rs
+++ b/src/dev.rs
@@ -578,6 +578,9 @@ pub fn determinism_check<F: Field, C: Circuit<F>>(circuit: &C) -> Result<(), Syn
 
     circuit.synthesize(&mut enforce)?;
 
+    // The second synthesis must not be a mere beginning of the first.
+    assert!(enforce.events.next().is_none());
+
     Ok(())
 }
 
-- 
2.43.0

