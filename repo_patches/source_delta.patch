From 4e2b6f3ec8d3d4970869bfd32f6b981f91b41bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 1/4] fix: normalize brings every representation of the
 identity to the canonical one

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3720db9..5ac492d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,7 +236,10 @@ impl Group for G1 {
     fn normalize(&mut self) {
         let new = match self.0.to_affine() {
             Some(a) => a,
-            None => return,
+            None => {
+                self.0 = groups::G1::zero();
+                return;
+            }
         };
 
         self.0 = new.to_jacobian();
@@ -325,7 +328,10 @@ impl Group for G2 {
     fn normalize(&mut self) {
         let new = match self.0.to_affine() {
             Some(a) => a,
-            None => return,
+            None => {
+                self.0 = groups::G2::zero();
+                return;
+            }
         };
 
         self.0 = new.to_jacobian();
-- 
2.43.0


From 7baca21e8da188ba2b0c9c3b9893fd7c057cbbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 2/4] fix: decoding a field element rejects words at or above
 the modulus

---
 src/fields/fp.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/fields/fp.rs b/src/fields/fp.rs
index 61810a8..c4b2742 100644
--- a/src/fields/fp.rs
+++ b/src/fields/fp.rs
@@ -5,18 +5,50 @@ use super::FieldElement;
 use arith::{U512, U256};
 use core::fmt;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{io, BorshSerialize, BorshDeserialize};
 #[cfg(feature = "serde")]
-use serde::{Serialize, Deserialize};
+use serde::{de::Error, Deserializer, Serialize, Deserialize};
 
 macro_rules! field_impl {
     ($name:ident, $modulus:expr, $rsquared:expr, $rcubed:expr, $one:expr, $inv:expr) => {
         #[derive(Copy, Clone, PartialEq, Eq, Debug)]
-        #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-        #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+        #[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+        #[cfg_attr(feature = "serde", derive(Serialize))]
         #[repr(C)]
         pub struct $name(U256);
 
+        // Words at or above the modulus are not an element: arithmetic on them
+        // is wrong, panics or (inversion) does not terminate.
+        #[cfg(feature = "serde")]
+        impl<'de> Deserialize<'de> for $name {
+            fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+                #[derive(Deserialize)]
+                struct $name(U256);
+
+                let raw = <$name as Deserialize>::deserialize(deserializer)?;
+                if raw.0 < Self::modulus() {
+                    Ok(Self(raw.0))
+                } else {
+                    Err(D::Error::custom("integer is not less than modulus"))
+                }
+            }
+        }
+
+        #[cfg(feature = "borsh")]
+        impl BorshDeserialize for $name {
+            fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+                let raw = U256::deserialize_reader(reader)?;
+                if raw < Self::modulus() {
+                    Ok($name(raw))
+                } else {
+                    Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "integer is not less than modulus",
+                    ))
+                }
+            }
+        }
+
         impl From<$name> for U256 {
             #[inline]
             fn from(mut a: $name) -> Self {
-- 
2.43.0


From 62a6cae4278692a576663e21a74c3a2437d08ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 3/4] fix: decoding a point rejects coordinates that are not in
 the group

---
 src/groups/mod.rs | 61 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/groups/mod.rs b/src/groups/mod.rs
index fe847c0..6fe9b0f 100644
--- a/src/groups/mod.rs
+++ b/src/groups/mod.rs
@@ -4,9 +4,9 @@ use arith::U256;
 use std::fmt;
 use rand::Rng;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{io, BorshSerialize, BorshDeserialize};
 #[cfg(feature = "serde")]
-use serde::{de::DeserializeOwned, Serialize, Deserialize};
+use serde::{de::{DeserializeOwned, Error}, Deserializer, Serialize, Deserialize};
 
 pub trait GroupElement
     : Sized
@@ -36,12 +36,11 @@ pub trait GroupParams: Sized {
     fn name() -> &'static str;
     fn one() -> G<Self>;
     fn coeff_b() -> Self::Base;
-    #[allow(dead_code)]
     fn check_order() -> bool { false }
 }
 
-#[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[repr(C)]
 pub struct G<P: GroupParams> {
     x: P::Base,
@@ -49,6 +48,48 @@ pub struct G<P: GroupParams> {
     z: P::Base,
 }
 
+// Coordinates off the curve, or outside the group of order r, are not an
+// element: none of the group's laws hold for them.
+#[cfg(feature = "serde")]
+impl<'de, P: GroupParams> Deserialize<'de> for G<P> {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "G", bound = "B: DeserializeOwned")]
+        struct Raw<B> {
+            x: B,
+            y: B,
+            z: B,
+        }
+
+        let Raw { x, y, z } = Raw::<P::Base>::deserialize(deserializer)?;
+        let point = G { x, y, z };
+        if point.is_member() {
+            Ok(point)
+        } else {
+            Err(D::Error::custom("point is not in the group"))
+        }
+    }
+}
+
+#[cfg(feature = "borsh")]
+impl<P: GroupParams> BorshDeserialize for G<P> {
+    fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+        let point = G {
+            x: P::Base::deserialize_reader(reader)?,
+            y: P::Base::deserialize_reader(reader)?,
+            z: P::Base::deserialize_reader(reader)?,
+        };
+        if point.is_member() {
+            Ok(point)
+        } else {
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point is not in the group",
+            ))
+        }
+    }
+}
+
 #[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct AffineG<P: GroupParams> {
@@ -122,6 +163,16 @@ impl<P: GroupParams> PartialEq for G<P> {
 impl<P: GroupParams> Eq for G<P> {}
 
 impl<P: GroupParams> G<P> {
+    fn is_member(&self) -> bool {
+        if self.z.is_zero() {
+            return true;
+        }
+
+        let z2 = self.z.squared();
+        let z6 = z2.squared() * z2;
+        self.y.squared() == self.x.squared() * self.x + P::coeff_b() * z6
+            && (!P::check_order() || (*self * (-Fr::one()) + *self).is_zero())
+    }
     pub fn into_bytes(&self) -> Vec<u8> {
         [
             self.x.into_bytes(),
-- 
2.43.0


From 4e212ccb19e9ea32a59dfba63a93f9b7fa291ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 4/4] fix: decoding a Gt element rejects values outside the
 group

---
 src/lib.rs | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5ac492d..09f808e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,10 +25,11 @@ use std::{
 use rand::{Rng, distributions::{Distribution, Standard}};
 use core::fmt;
 #[cfg(feature = "borsh")]
-use borsh::{BorshSerialize, BorshDeserialize};
+use borsh::{io, BorshSerialize, BorshDeserialize};
 #[cfg(feature = "serde")]
 use serde::{
-    de::DeserializeOwned,
+    de::{DeserializeOwned, Error},
+    Deserializer,
     Serialize,
     Deserialize
 };
@@ -385,12 +386,47 @@ impl Debug for G2 {
 }
 
 #[derive(Copy, Clone, PartialEq, Eq)]
-#[cfg_attr(feature = "borsh", derive(BorshSerialize, BorshDeserialize))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "borsh", derive(BorshSerialize))]
+#[cfg_attr(feature = "serde", derive(Serialize))]
 #[repr(C)]
 pub struct Gt(fields::Fq12);
 
+// Zero and the elements outside the group of order r are not an element:
+// inversion of zero panics and none of the group's laws hold for the others.
+#[cfg(feature = "serde")]
+impl<'de> Deserialize<'de> for Gt {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        struct Gt(fields::Fq12);
+
+        let raw = <Gt as Deserialize>::deserialize(deserializer)?;
+        if Self::is_member(&raw.0) {
+            Ok(Self(raw.0))
+        } else {
+            Err(D::Error::custom("element is not in the group"))
+        }
+    }
+}
+
+#[cfg(feature = "borsh")]
+impl BorshDeserialize for Gt {
+    fn deserialize_reader<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+        let raw = fields::Fq12::deserialize_reader(reader)?;
+        if Self::is_member(&raw) {
+            Ok(Gt(raw))
+        } else {
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "element is not in the group",
+            ))
+        }
+    }
+}
+
 impl Gt {
+    fn is_member(raw: &fields::Fq12) -> bool {
+        raw.pow(fields::Fr::modulus()) == fields::Fq12::one()
+    }
     pub fn one() -> Self {
         Gt(fields::Fq12::one())
     }
-- 
2.43.0

