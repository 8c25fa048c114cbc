From 57c3f5ff62c0d1cdcce92f1ca21aec1bd903c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:51 +0000
Subject: [PATCH 01/47] hooks: expose edwards25519 internals to the
 verification harness under cfg(kyber_verif)

---
 src/group/edwards25519/mod.rs   | 10 ++++++++++
 src/group/edwards25519/point.rs | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/group/edwards25519/mod.rs b/src/group/edwards25519/mod.rs
index 746f68a..a2547f3 100644
--- a/src/group/edwards25519/mod.rs
+++ b/src/group/edwards25519/mod.rs
@@ -24,3 +24,13 @@ pub use scalar::Scalar;
 pub use scalar_benches::benchmark_scalar;
 pub use scalar_test_types::{FactoredScalar, SimpleCTScalar};
 pub use suite::SuiteEd25519;
+
+/// Items that only the verification harness needs (never part of a normal build).
+#[allow(unexpected_cfgs)]
+#[cfg(kyber_verif)]
+pub mod verif {
+    pub use super::constants::*;
+    pub use super::fe::*;
+    pub use super::ge::*;
+    pub use super::ge_mult_vartime::*;
+}
diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 679424c..a56afe0 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -32,6 +32,17 @@ impl Point {
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(kyber_verif)]
+impl Point {
+    pub fn verif_new(ge: ExtendedGroupElement, var_time: bool) -> Self {
+        Point { ge, var_time }
+    }
+    pub fn verif_ge(&self) -> &ExtendedGroupElement {
+        &self.ge
+    }
+}
+
 impl BinaryMarshaler for Point {
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
         let mut b = [0_u8; 32];
-- 
2.43.0


From d1238f0dc4024cfddeb6f18a0fd46c15553e6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 02/47] hooks: expose table selection under cfg(kyber_verif)

---
 src/group/edwards25519/ge.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/group/edwards25519/ge.rs b/src/group/edwards25519/ge.rs
index 37a6cf6..5ec8678 100644
--- a/src/group/edwards25519/ge.rs
+++ b/src/group/edwards25519/ge.rs
@@ -566,3 +566,15 @@ pub fn ge_scalar_mult(
 
     t.to_extended(h);
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(kyber_verif)]
+pub fn verif_select_cached(c: &mut CachedGroupElement, ai: &[CachedGroupElement; 8], b: i32) {
+    select_cached(c, ai, b)
+}
+
+#[allow(unexpected_cfgs)]
+#[cfg(kyber_verif)]
+pub fn verif_select_pre_computed(t: &mut PreComputedGroupElement, pos: usize, b: i32) {
+    select_pre_computed(t, pos, b)
+}
-- 
2.43.0


From 67de00643fe8841704c5238b3b4ae07fb9706d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 03/47] fix: Point::is_canonical rejected canonical encodings
 with y in [2^255-236, p)

---
 src/group/edwards25519/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index a56afe0..f3bd0bc 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -342,7 +342,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
 
         // subtraction might underflow
         c = (((c as u16) - 1) >> 8) as u8;
-        let d = ((0xEDu16.wrapping_sub(1u16.wrapping_sub(b[0] as u16))) >> 8) as u8;
+        let d = ((0xEDu16.wrapping_sub(1).wrapping_sub(b[0] as u16)) >> 8) as u8;
 
         1 - (c & d & 1) == 1
     }
-- 
2.43.0


From c290e0fd8fe4bc8f0660f63597595b19975b6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 04/47] fix: PubPoly::equal compared only a prefix of
 polynomials with different thresholds

---
 src/share/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index be34e4e..81dbddd 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -512,6 +512,9 @@ impl<GROUP: Group> PubPoly<GROUP> {
         if self.g.to_string() != q.g.to_string() {
             return Ok(false);
         }
+        if self.threshold() != q.threshold() {
+            return Ok(false);
+        }
         let mut b = true;
         for i in 0..self.threshold() {
             let pb = self.commits[i].marshal_binary()?;
-- 
2.43.0


From c23857cc9ed01fc1503f17688f1f9df698f7fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 05/47] fix: recover_pub_poly panicked unless the shares were
 those of indices 0..t-1

---
 src/share/poly.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index 81dbddd..b3b43ab 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -620,11 +620,11 @@ pub fn recover_pub_poly<GROUP: Group>(
 
     let mut acc_poly = PubPoly::new(&g, None, &[]);
 
-    for (j, _) in x.iter().enumerate() {
-        let basis = lagrange_basis(&g, j, x.clone());
+    for j in x.keys() {
+        let basis = lagrange_basis(&g, *j, x.clone());
 
         // compute the L_j * y_j polynomial in point space
-        let tmp = basis.commit(Some(&y[&j]));
+        let tmp = basis.commit(Some(&y[j]));
         if acc_poly.commits.is_empty() {
             acc_poly = tmp;
             continue;
-- 
2.43.0


From 23c991a8ba404f2ed34b3c64e8301010cf2922eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 06/47] fix: Int::little_endian did not pad its result to the
 requested minimum length

---
 src/group/integer_field/integer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c033c7f..a6808ab 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -128,9 +128,10 @@ impl Int {
             return Err(IntError::NotRepresentable);
         }
 
-        let buf = vec![0; pad];
-        let buf2 = &buf[0..act];
-        Ok(reverse(buf2, &v_bytes))
+        let mut buf = reverse(&vec![0; act], &v_bytes);
+        // the most significant bytes come last in little-endian order
+        buf.resize(pad, 0);
+        Ok(buf)
     }
 
     /// [`new_int()`] creates a new [`Int`] with a given [`BigInt`] and a [`BigInt`] `modulus`.
-- 
2.43.0


From 5dea20fed0edc66e68a8a38da7b978d12cf3b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 07/47] fix: Int::div multiplied by the divisor instead of by
 its inverse

---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index a6808ab..ec6de5a 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -405,9 +405,9 @@ impl Scalar for Int {
 
     /// [`div()`] sets the target to `a * b^-1 mod m`, where `b^-1` is the modular inverse of `b`.
     fn div(mut self, a: &Self, b: &Self) -> Self {
-        let _t = BigInt::default();
-        self.v = a.v.clone() * b.v.clone();
-        self.v = self.v.clone() % self.m.clone();
+        self.m = a.m.clone();
+        let t = b.v.clone().mod_inverse(&self.m).unwrap();
+        self.v = (&a.v * t) % &self.m;
         self
     }
 
-- 
2.43.0


From 02abac19786bfd1505c134f539853ada5aeaef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 08/47] fix: Int::exp raised the receiver instead of its
 operand

---
 src/group/integer_field/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index ec6de5a..4a47b66 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -472,7 +472,7 @@ impl Int {
     pub fn exp(mut self, a: &Self, e: &BigInt) -> Self {
         self.m = a.m.clone();
         // to protect against golang/go#22830
-        self.v = self.v.modpow(e, &self.m);
+        self.v = a.v.modpow(e, &self.m);
         self
     }
 
-- 
2.43.0


From d27b14b3533154746e77b8f46d97a83187d246e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 09/47] fix: Int::set_int64 and init64 left negative multiples
 of the modulus unreduced

---
 src/group/integer_field/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 4a47b66..ba1cc6e 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -96,7 +96,7 @@ impl Int {
         self.v = BigInt::from(v);
         // specify euclidean modulus for negative number
         match self.v.sign() {
-            num_bigint::Sign::Minus => self.v = (self.v % m.clone()) + m.abs(),
+            num_bigint::Sign::Minus => self.v = ((self.v % m.clone()) + m.abs()) % m,
             _ => self.v %= m,
         }
         self
@@ -350,7 +350,7 @@ impl Scalar for Int {
         i.v = BigInt::from(v);
         // specify euclidean modulus for negative number
         match i.v.sign() {
-            num_bigint::Sign::Minus => i.v = (i.v % i.m.clone()) + i.m.abs(),
+            num_bigint::Sign::Minus => i.v = ((i.v % i.m.clone()) + i.m.abs()) % i.m.clone(),
             _ => i.v %= i.m.clone(),
         }
         i
-- 
2.43.0


From c4572301bfbac19e1b83f9e54074c29b4671995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 10/47] fix: Int::unmarshal_binary stored an out-of-range value
 it had rejected

---
 src/group/integer_field/integer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index ba1cc6e..10a5320 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -266,12 +266,13 @@ impl BinaryUnmarshaler for Int {
         if self.bo == LittleEndian {
             buf = reverse(&vec![0_u8; buf.len()], &buf.to_vec());
         }
-        self.v = BigInt::from_bytes_be(Plus, buf.as_slice());
-        if matches!(self.v.cmp(&self.m), Greater | Equal) {
+        let v = BigInt::from_bytes_be(Plus, buf.as_slice());
+        if matches!(v.cmp(&self.m), Greater | Equal) {
             return Err(MarshallingError::InvalidInput(
                 "unmarshal_binary: value out of range".to_owned(),
             ));
         }
+        self.v = v;
         Ok(())
     }
 }
-- 
2.43.0


From 83ac604e5446a6ec62287d7d3ccb9a66c7c0fd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 11/47] fix: Int::big_endian panicked unless the value filled
 the whole buffer

---
 src/group/integer_field/integer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 10a5320..ddada3c 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -503,15 +503,13 @@ impl Int {
     /// Returns an [`Error`](IntError) if `max != 0` and the [`Int`] cannot be represented in `max` bytes.
     pub fn big_endian(&self, min: usize, max: usize) -> Result<Vec<u8>, IntError> {
         let act = self.marshal_size();
-        let (mut pad, mut ofs) = (act, 0);
-        if pad < min {
-            (pad, ofs) = (min, min - act)
-        }
+        let pad = act.max(min);
         if max != 0 && pad > max {
             return Err(IntError::NotRepresentable);
         }
         let mut buf = vec![0_u8; pad];
         let b = self.v.to_bytes_be().1;
+        let ofs = pad - b.len();
         buf[ofs..].copy_from_slice(&b);
         Ok(buf)
     }
-- 
2.43.0


From f29b9406386bffd1530a785c8d16f75c7d1c0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:40 +0000
Subject: [PATCH 12/47] hooks: read access to a modular integer's value and
 modulus under cfg(kyber_verif)

---
 src/group/integer_field/integer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index ddada3c..f3c91e2 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -539,3 +539,11 @@ pub enum IntError {
     #[error("input is a negative number, square root is imaginary")]
     ImaginaryRoot,
 }
+
+#[cfg(kyber_verif)]
+impl Int {
+    /// [`verif_parts()`] returns the value and the modulus.
+    pub fn verif_parts(&self) -> (&BigInt, &BigInt) {
+        (&self.v, &self.m)
+    }
+}
-- 
2.43.0


From b7e61721a33a211bd83fa4893dcc505f8e1e7880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:40 +0000
Subject: [PATCH 13/47] fix: Int::set_string left values outside 0..m unreduced

---
 src/group/integer_field/integer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index f3c91e2..f71257f 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -190,7 +190,8 @@ impl Int {
     /// Returns the [`Int`] on success or an [`Error`](BigIntError)
     /// if the string failed to parse
     pub fn set_string(mut self, n: String, d: String, base: i32) -> Result<Self, IntError> {
-        self.v = BigInt::from_str_radix(n.as_str(), base as u32)?;
+        let v = BigInt::from_str_radix(n.as_str(), base as u32)?;
+        self.v = ((v % &self.m) + &self.m) % &self.m;
         if !d.is_empty() {
             let mut di = Int {
                 m: self.m.clone(),
-- 
2.43.0


From c8ec5a1d33e40b65f524ef2201446dc1221ac937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:01 +0000
Subject: [PATCH 14/47] fix: a participant's own partial signature could be
 counted twice

---
 src/sign/dss/dss_sig.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sign/dss/dss_sig.rs b/src/sign/dss/dss_sig.rs
index 9dd6ae9..1f625b9 100644
--- a/src/sign/dss/dss_sig.rs
+++ b/src/sign/dss/dss_sig.rs
@@ -229,8 +229,10 @@ impl<SUITE: Suite, DKS: DistKeyShare<SUITE>> DSS<SUITE, DKS> {
         let msg = ps.hash(self.suite.clone())?;
         ps.signature = schnorr::sign(&self.suite, &self.secret, &msg)?;
         if !self.signed {
-            self.partials_idx.insert(self.index, true);
-            self.partials.push(Some(ps.partial.clone()));
+            // our own partial may already have been processed like any other
+            if self.partials_idx.insert(self.index, true).is_none() {
+                self.partials.push(Some(ps.partial.clone()));
+            }
             self.signed = true
         }
         Ok(ps)
-- 
2.43.0


From 7cda415b92e5d144b424f7d949919d191c480c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 15/47] fix: canonical and small-order tests panicked when
 built with overflow checks

---
 src/group/edwards25519/point.rs  | 4 ++--
 src/group/edwards25519/scalar.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index f3bd0bc..f70caa7 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -314,7 +314,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
         // Constant time verification if one or more of the c's are zero
         let mut k = 0;
         (0..5).for_each(|i| {
-            k |= (c[i] as u16) - 1;
+            k |= (c[i] as u16).wrapping_sub(1);
         });
 
         (k >> 8) & 1 > 0
@@ -341,7 +341,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
         }
 
         // subtraction might underflow
-        c = (((c as u16) - 1) >> 8) as u8;
+        c = ((c as u16).wrapping_sub(1) >> 8) as u8;
         let d = ((0xEDu16.wrapping_sub(1).wrapping_sub(b[0] as u16)) >> 8) as u8;
 
         1 - (c & d & 1) == 1
diff --git a/src/group/edwards25519/scalar.rs b/src/group/edwards25519/scalar.rs
index 6888733..a3d347e 100644
--- a/src/group/edwards25519/scalar.rs
+++ b/src/group/edwards25519/scalar.rs
@@ -67,8 +67,8 @@ impl ScalarCanCheckCanonical for Scalar {
         for i in (0..=31).rev() {
             // subtraction might lead to an underflow which needs
             // to be accounted for in the right shift
-            c |= (((sb[i] as u16) - (l[i] as u16)) >> 8) as u8 & n;
-            n &= ((((sb[i] as u16) ^ (l[i] as u16)) - 1) >> 8) as u8;
+            c |= ((sb[i] as u16).wrapping_sub(l[i] as u16) >> 8) as u8 & n;
+            n &= (((sb[i] as u16) ^ (l[i] as u16)).wrapping_sub(1) >> 8) as u8;
         }
 
         c != 0
-- 
2.43.0


From 038727c1dc304a6a892709dd4e3261380fe9a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 16/47] fix: encoding an EdDSA key that was made from a key
 pair panicked

---
 src/sign/eddsa/eddsa_sig.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 314d057..893546f 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -95,6 +95,11 @@ impl BinaryMarshaler for EdDSA<Curve> {
     /// implementation of `SUPERCOP ref10`, which is `"seed || Public"`.
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
         let p_buff = self.public.marshal_binary()?;
+        if self.seed.len() != 32 {
+            return Err(MarshallingError::InvalidInput(
+                "EdDSA private key has no seed".to_owned(),
+            ));
+        }
 
         let mut eddsa = [0u8; 64];
         eddsa[..32].copy_from_slice(&self.seed);
-- 
2.43.0


From 50cfc9114d4e33aeaf038d1ba100ec75276db928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 17/47] fix: EdDSA keys made from a key pair derived their
 nonces from the message alone

---
 src/sign/eddsa/eddsa_sig.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 893546f..0b07119 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -111,11 +111,13 @@ impl BinaryMarshaler for EdDSA<Curve> {
 impl From<Pair<EdPoint>> for EdDSA<Curve> {
     fn from(pair: Pair<EdPoint>) -> Self {
         let g = Curve::default();
+        // the nonces are derived from the prefix: it has to be secret
+        let prefix = Sha512::digest(pair.private.v)[32..].to_vec();
         Self {
             secret: g.scalar().set(&pair.private),
             public: g.point().set(&pair.public),
             seed: vec![],
-            prefix: vec![],
+            prefix,
         }
     }
 }
-- 
2.43.0


From db08759af3e979df363b3bc345b74788055b7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 18/47] hooks: construct and read verifiable secret sharing
 messages under cfg(kyber_verif)

---
 src/share/vss/pedersen/vss.rs | 122 ++++++++++++++++++++++++++++++++
 src/share/vss/rabin/vss.rs    | 126 ++++++++++++++++++++++++++++++++++
 2 files changed, 248 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5b6b0c9..858c2a7 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -1104,3 +1104,125 @@ pub fn context<SUITE: Suite>(
     }
     h.finalize().to_vec()
 }
+
+/// read and construct protocol messages and states (verification only)
+#[cfg(kyber_verif)]
+mod verif {
+    use super::*;
+    type Share<SUITE> = PriShare<<<SUITE as crate::Group>::POINT as Point>::SCALAR>;
+    impl<SUITE: Suite> Deal<SUITE> {
+        pub fn verif_new(
+            session_id: Vec<u8>,
+            sec_share: Share<SUITE>,
+            t: usize,
+            commitments: Vec<SUITE::POINT>,
+        ) -> Self {
+            Deal {
+                session_id,
+                sec_share,
+                t,
+                commitments,
+            }
+        }
+        #[allow(clippy::type_complexity)]
+        pub fn verif_parts(
+            &mut self,
+        ) -> (
+            &mut Vec<u8>,
+            &mut Share<SUITE>,
+            &mut usize,
+            &mut Vec<SUITE::POINT>,
+        ) {
+            (
+                &mut self.session_id,
+                &mut self.sec_share,
+                &mut self.t,
+                &mut self.commitments,
+            )
+        }
+        pub fn verif_decode(buff: &[u8]) -> Result<Self, VSSError> {
+            Self::decode(buff)
+        }
+    }
+    impl<POINT: Point> EncryptedDeal<POINT> {
+        pub fn verif_parts(&mut self) -> (&mut POINT, &mut Vec<u8>, &mut Vec<u8>, &mut Vec<u8>) {
+            (
+                &mut self.dhkey,
+                &mut self.signature,
+                &mut self.nonce,
+                &mut self.cipher,
+            )
+        }
+    }
+    impl<SUITE: Suite> Justification<SUITE> {
+        pub fn verif_new(
+            session_id: Vec<u8>,
+            index: u32,
+            deal: Deal<SUITE>,
+            signature: Vec<u8>,
+        ) -> Self {
+            Justification {
+                session_id,
+                index,
+                deal,
+                signature,
+            }
+        }
+        pub fn verif_parts(&mut self) -> (&mut Vec<u8>, &mut u32, &mut Deal<SUITE>, &mut Vec<u8>) {
+            (
+                &mut self.session_id,
+                &mut self.index,
+                &mut self.deal,
+                &mut self.signature,
+            )
+        }
+        pub fn verif_hash(self, s: SUITE) -> Result<Vec<u8>, VSSError> {
+            self.hash(s)
+        }
+    }
+    impl<SUITE: Suite> Aggregator<SUITE> {
+        /// responses, session, deal, threshold, bad dealer
+        #[allow(clippy::type_complexity)]
+        pub fn verif_parts(
+            &self,
+        ) -> (
+            &HashMap<u32, Response>,
+            &[u8],
+            Option<&Deal<SUITE>>,
+            usize,
+            bool,
+        ) {
+            (
+                &self.responses,
+                &self.sid,
+                self.deal.as_ref(),
+                self.t,
+                self.bad_dealer,
+            )
+        }
+    }
+    impl<SUITE: Suite> Dealer<SUITE> {
+        pub fn verif_aggregator(&mut self) -> &mut Aggregator<SUITE> {
+            &mut self.aggregator
+        }
+    }
+    impl<SUITE: Suite> Verifier<SUITE> {
+        pub fn verif_aggregator(&mut self) -> Option<&mut Aggregator<SUITE>> {
+            self.aggregator.as_mut()
+        }
+    }
+    pub fn verif_session_id<SUITE: Suite>(
+        suite: &SUITE,
+        dealer: &SUITE::POINT,
+        verifiers: &[SUITE::POINT],
+        commitments: &[SUITE::POINT],
+        t: usize,
+    ) -> Vec<u8> {
+        session_id(suite, dealer, verifiers, commitments, t).unwrap()
+    }
+    pub fn verif_derive_h<SUITE: Suite>(suite: SUITE, verifiers: &[SUITE::POINT]) -> SUITE::POINT {
+        derive_h(suite, verifiers)
+    }
+}
+#[cfg(kyber_verif)]
+pub use verif::{verif_derive_h, verif_session_id};
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 634ffe1..71bbcfa 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -1105,3 +1105,129 @@ pub fn context<SUITE: Suite>(
     h.read_exact(&mut sum).unwrap();
     sum.to_vec()
 }
+
+/// read and construct protocol messages and states (verification only)
+#[cfg(kyber_verif)]
+mod verif {
+    use super::*;
+    type Share<SUITE> = PriShare<<<SUITE as crate::Group>::POINT as Point>::SCALAR>;
+    impl<SUITE: Suite> Deal<SUITE> {
+        pub fn verif_new(
+            session_id: Vec<u8>,
+            sec_share: Share<SUITE>,
+            rnd_share: Share<SUITE>,
+            t: usize,
+            commitments: Vec<SUITE::POINT>,
+        ) -> Self {
+            Deal {
+                session_id,
+                sec_share,
+                rnd_share,
+                t,
+                commitments,
+            }
+        }
+        #[allow(clippy::type_complexity)]
+        pub fn verif_parts(
+            &mut self,
+        ) -> (
+            &mut Vec<u8>,
+            &mut Share<SUITE>,
+            &mut Share<SUITE>,
+            &mut usize,
+            &mut Vec<SUITE::POINT>,
+        ) {
+            (
+                &mut self.session_id,
+                &mut self.sec_share,
+                &mut self.rnd_share,
+                &mut self.t,
+                &mut self.commitments,
+            )
+        }
+        pub fn verif_decode(buff: &[u8]) -> Result<Self, VSSError> {
+            Self::decode(buff)
+        }
+    }
+    impl<POINT: Point> EncryptedDeal<POINT> {
+        pub fn verif_parts(&mut self) -> (&mut POINT, &mut Vec<u8>, &mut Vec<u8>, &mut Vec<u8>) {
+            (
+                &mut self.dhkey,
+                &mut self.signature,
+                &mut self.nonce,
+                &mut self.cipher,
+            )
+        }
+    }
+    impl<SUITE: Suite> Justification<SUITE> {
+        pub fn verif_new(
+            session_id: Vec<u8>,
+            index: u32,
+            deal: Deal<SUITE>,
+            signature: Vec<u8>,
+        ) -> Self {
+            Justification {
+                session_id,
+                index,
+                deal,
+                signature,
+            }
+        }
+        pub fn verif_parts(&mut self) -> (&mut Vec<u8>, &mut u32, &mut Deal<SUITE>, &mut Vec<u8>) {
+            (
+                &mut self.session_id,
+                &mut self.index,
+                &mut self.deal,
+                &mut self.signature,
+            )
+        }
+        pub fn verif_hash(self, s: SUITE) -> Result<Vec<u8>, VSSError> {
+            self.hash(s)
+        }
+    }
+    impl<SUITE: Suite> Aggregator<SUITE> {
+        /// responses, session, deal, threshold, bad dealer
+        #[allow(clippy::type_complexity)]
+        pub fn verif_parts(
+            &self,
+        ) -> (
+            &HashMap<u32, Response>,
+            &[u8],
+            Option<&Deal<SUITE>>,
+            usize,
+            bool,
+        ) {
+            (
+                &self.responses,
+                &self.sid,
+                self.deal.as_ref(),
+                self.t,
+                self.bad_dealer,
+            )
+        }
+    }
+    impl<SUITE: Suite> Dealer<SUITE> {
+        pub fn verif_aggregator(&mut self) -> &mut Aggregator<SUITE> {
+            &mut self.aggregator
+        }
+    }
+    impl<SUITE: Suite> Verifier<SUITE> {
+        pub fn verif_aggregator(&mut self) -> Option<&mut Aggregator<SUITE>> {
+            self.aggregator.as_mut()
+        }
+    }
+    pub fn verif_session_id<SUITE: Suite>(
+        suite: &SUITE,
+        dealer: &SUITE::POINT,
+        verifiers: &[SUITE::POINT],
+        commitments: &[SUITE::POINT],
+        t: usize,
+    ) -> Vec<u8> {
+        session_id(suite, dealer, verifiers, commitments, t).unwrap()
+    }
+    pub fn verif_derive_h<SUITE: Suite>(suite: SUITE, verifiers: &[SUITE::POINT]) -> SUITE::POINT {
+        derive_h(suite, verifiers)
+    }
+}
+#[cfg(kyber_verif)]
+pub use verif::{verif_derive_h, verif_session_id};
-- 
2.43.0


From 0a87ba7ace858033a2b302ec9cd035ca46b0cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 19/47] fix: a pedersen deal with a nonce of the wrong length
 made the verifier panic

---
 src/share/vss/pedersen/vss.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 858c2a7..47c915a 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -12,7 +12,7 @@ use digest::Digest;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    dh::{AEAD, NONCE_SIZE},
+    dh::{DhError, AEAD, NONCE_SIZE},
     encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError},
     group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical},
     share::{
@@ -650,9 +650,12 @@ where
         // compute shared key and AES526-GCM cipher
         let pre = SUITE::dh_exchange(self.suite, self.longterm.clone(), e.dhkey.clone());
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
+        let nonce = e.nonce.as_slice().try_into().map_err(|_| {
+            DhError::DecryptionFailed(format!("expected a nonce of {NONCE_SIZE} bytes"))
+        })?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            nonce,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From df33c7773a332dc29ba6db711ace7992dd3ca264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 20/47] fix: a justified complaint stayed a complaint in the
 pedersen aggregator

---
 src/share/vss/pedersen/vss.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 47c915a..acb47c7 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -966,13 +966,23 @@ where
         }
 
         match self.verify_deal(&j.deal, false) {
-            Ok(_) => r.status = STATUS_APPROVAL,
+            Ok(_) => {
+                r.status = STATUS_APPROVAL;
+                // the justified deal replaces the one this verifier complained about
+                if self.deal.as_ref().map(|d| d.sec_share.i) == Some(j.index as usize) {
+                    self.deal = Some(j.deal.clone());
+                }
+            }
             Err(err) => {
                 // if one justification is bad, then flag the dealer as malicious
                 self.bad_dealer = true;
                 return Err(err);
             }
         }
+
+        // add the updated resp
+        self.responses.insert(j.index, r);
+
         Ok(())
     }
 
-- 
2.43.0


From 028072d16606ac24bcb9a65696f00c6cafdc0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 21/47] fix: the threshold a pedersen verifier was told to
 expect was overwritten by the dealer's

---
 src/share/vss/pedersen/vss.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index acb47c7..41a4e99 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -884,7 +884,10 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
-            self.t = d.t;
+            // a threshold set beforehand is the one to expect
+            if self.t == 0 {
+                self.t = d.t;
+            }
         }
 
         if !valid_t(d.t, &self.verifiers) {
-- 
2.43.0


From 678b4e15ef245e12865bac1a1e96ec4bd7b310e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 22/47] fix: a pedersen verifier approved a deal whose session
 id was not the one of its participants and commitments

---
 src/share/vss/pedersen/vss.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 41a4e99..3f762ca 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -611,6 +611,11 @@ where
             t,
         )?;
 
+        // the session is the one of these participants and commitments, whatever the deal says
+        if let Some(a) = self.aggregator.as_mut() {
+            a.bind_session(&sid);
+        }
+
         let mut r = Response {
             session_id: sid,
             index: self.index as u32,
@@ -882,7 +887,7 @@ where
         }
         if self.deal.is_none() {
             self.commits = d.commitments.clone();
-            self.sid = d.session_id.clone();
+            self.bind_session(&d.session_id);
             self.deal = Some(d.clone());
             // a threshold set beforehand is the one to expect
             if self.t == 0 {
@@ -918,6 +923,13 @@ where
         Ok(())
     }
 
+    /// [`bind_session()`] sets the session id if it is not known yet.
+    fn bind_session(&mut self, sid: &[u8]) {
+        if self.sid.is_empty() {
+            self.sid = sid.to_vec();
+        }
+    }
+
     /// [`set_threshold()`] is used to specify the expected threshold *before* the verifier
     /// receives anything. Sometimes, a verifier knows the treshold in advance and
     /// should make sure the one it receives from the dealer is consistent. If this
-- 
2.43.0


From aaf308e0ddcb5ab3ed872c4f98bcdbd00ecbd5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 23/47] fix: responses of other sessions received before the
 deal counted for its certification

---
 src/share/vss/pedersen/vss.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 3f762ca..9b3e6b2 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -927,6 +927,8 @@ where
     fn bind_session(&mut self, sid: &[u8]) {
         if self.sid.is_empty() {
             self.sid = sid.to_vec();
+            // responses received before belong to this session or do not count
+            self.responses.retain(|_, r| r.session_id == sid);
         }
     }
 
-- 
2.43.0


From de5cada3a6b4d69f2c9afc325d96be2789d8cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 24/47] fix: pedersen deals and justifications could bring
 commitments of another polynomial or degree

---
 src/share/vss/pedersen/vss.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 9b3e6b2..d2d4354 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -907,6 +907,11 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // as many coefficients as the threshold says, the same ones for every deal
+        if d.commitments.len() != d.t || d.commitments != self.commits {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+
         let fi = &d.sec_share;
         if fi.i >= self.verifiers.len() {
             return Err(VSSError::DealIndexOutOfBounds);
-- 
2.43.0


From 11a033e915a7073f700e48fcb8c918b4087dd22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 25/47] fix: a pedersen justification could reveal, or be taken
 for, the deal of another verifier

---
 src/share/vss/pedersen/vss.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index d2d4354..70c2211 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -888,7 +888,10 @@ where
         if self.deal.is_none() {
             self.commits = d.commitments.clone();
             self.bind_session(&d.session_id);
-            self.deal = Some(d.clone());
+            // a justification reveals the deal of another verifier
+            if inclusion {
+                self.deal = Some(d.clone());
+            }
             // a threshold set beforehand is the one to expect
             if self.t == 0 {
                 self.t = d.t;
@@ -987,7 +990,13 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        match self.verify_deal(&j.deal, false) {
+        // the justified deal is the one of the complaining verifier
+        let verification = if j.deal.sec_share.i == j.index as usize {
+            self.verify_deal(&j.deal, false)
+        } else {
+            Err(VSSError::DealWrongIndex)
+        };
+        match verification {
             Ok(_) => {
                 r.status = STATUS_APPROVAL;
                 // the justified deal replaces the one this verifier complained about
-- 
2.43.0


From 075c9acc54a003890d3e67c273156d6b54ef8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 26/47] fix: after a timeout a pedersen aggregator without deal
 or threshold was certified

---
 src/share/dkg/pedersen/dkg.rs | 1 +
 src/share/vss/pedersen/vss.rs | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 6ebd732..b6f7ce4 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -651,6 +651,7 @@ where
                 let mut agg = vss::Aggregator::<SUITE>::default();
                 agg.verifiers = self.c.new_nodes.clone();
                 agg.suite = self.suite;
+                agg.set_threshold(self.new_t);
                 self.old_aggregators.insert(resp.index, agg);
                 self.old_aggregators.get_mut(&resp.index).unwrap()
             }
diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 70c2211..7f1fe92 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -1063,8 +1063,9 @@ where
                 }
             }
         }
-        let enough_approvals = approvals >= self.t;
-        let too_much_absents = absent_verifiers > self.verifiers.len() - self.t;
+        // the threshold is zero as long as it is not known
+        let enough_approvals = self.t > 0 && approvals >= self.t;
+        let too_much_absents = absent_verifiers + self.t > self.verifiers.len();
         let base_condition = !self.bad_dealer && enough_approvals && !is_complaint;
         if self.timeout {
             return base_condition && !too_much_absents;
-- 
2.43.0


From 66b77e49626c146ee7383b22a99fa49584ca904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 27/47] fix: a rabin deal with a nonce of the wrong length made
 the verifier panic

---
 src/share/vss/rabin/vss.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 71bbcfa..95fae52 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -31,7 +31,7 @@ use std::io::Write;
 
 use core::fmt::{Debug, Display, Formatter};
 
-use crate::dh::{AEAD, NONCE_SIZE};
+use crate::dh::{DhError, AEAD, NONCE_SIZE};
 use crate::encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError};
 use crate::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
 use crate::share::poly::{self, new_pri_poly, PriShare, PubPoly};
@@ -694,9 +694,12 @@ where
         // compute shared key and AES526-GCM cipher
         let pre = SUITE::dh_exchange(self.suite, self.longterm.clone(), e.dhkey.clone());
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
+        let nonce = e.nonce.as_slice().try_into().map_err(|_| {
+            DhError::DecryptionFailed(format!("expected a nonce of {NONCE_SIZE} bytes"))
+        })?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            nonce,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From f29cf82768b993408c6eae1946fb52dd80b5b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 28/47] fix: a rabin verifier approved a deal whose session id
 was not the one of its participants and commitments

---
 src/share/vss/rabin/vss.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 95fae52..a8a9c65 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -650,7 +650,7 @@ where
                 &self.verifiers,
                 &d.commitments,
                 t,
-                &d.session_id,
+                &sid,
             ));
         }
 
@@ -869,7 +869,6 @@ where
         }
         if self.deal.is_none() {
             self.commits = d.commitments.clone();
-            self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
         }
 
-- 
2.43.0


From 0d0b89167e8223f5f195d8ace365d9d9f1d93a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 29/47] fix: rabin deals and justifications could bring
 commitments of another polynomial, degree or threshold

---
 src/share/vss/rabin/vss.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index a8a9c65..fff1f65 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -867,8 +867,8 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
-        if self.deal.is_none() {
-            self.commits = d.commitments.clone();
+        // a justification reveals the deal of another verifier
+        if self.deal.is_none() && inclusion {
             self.deal = Some(d.clone());
         }
 
@@ -880,6 +880,11 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // as many coefficients as the threshold says, the same ones for every deal
+        if d.t != self.t || d.commitments.len() != d.t || d.commitments != self.commits {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+
         let fi = &d.sec_share;
         let gi = &d.rnd_share;
         if fi.i != gi.i {
-- 
2.43.0


From b5a9f179423348a24167852c7cf7efd1f16fdb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 30/47] fix: a rabin justification could reveal, or be taken
 for, the deal of another verifier

---
 src/share/vss/rabin/vss.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index fff1f65..e58d965 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -957,11 +957,20 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        let verification = self.verify_deal(&j.deal, false);
+        // the justified deal is the one of the complaining verifier
+        let verification = if j.deal.sec_share.i == j.index as usize {
+            self.verify_deal(&j.deal, false)
+        } else {
+            Err(VSSError::DealWrongIndex)
+        };
         if verification.is_err() {
             self.bad_dealer = true;
         } else {
-            r.approved = true
+            r.approved = true;
+            // the justified deal replaces the one this verifier complained about
+            if self.deal.as_ref().map(|d| d.sec_share.i) == Some(j.index as usize) {
+                self.deal = Some(j.deal.clone());
+            }
         }
 
         // add the updated resp
-- 
2.43.0


From c807fd48cd058d6654cb2cda846b5701a51904bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 31/47] fix: a pedersen resharing node that rejected a deal
 kept counting its own approval of it

---
 src/share/vss/pedersen/vss.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 7f1fe92..56b2d99 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -744,7 +744,12 @@ where
             signature: vec![],
         };
 
-        self.add_response(&r);
+        // a complaint stands even if an approval was recorded before
+        if approval == STATUS_COMPLAINT {
+            self.responses.insert(idx, r);
+        } else {
+            self.add_response(&r);
+        }
     }
 }
 
-- 
2.43.0


From 7b07603e659d0666e6489d620a754d4585cc567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 32/47] fix: in a pedersen resharing a dealer could justify the
 deal of another secret

---
 src/share/dkg/pedersen/dkg.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index b6f7ce4..2d6da8e 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -692,6 +692,13 @@ where
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
+        // in a resharing, a deal of another secret can't be justified
+        if self.is_resharing && self.can_receive {
+            let expected = self.dpub.eval(j.index as usize).v;
+            if j.justification.deal.commitments.first() != Some(&expected) {
+                return Err(DKGError::ShareDoesNotMatchPublicPoly);
+            }
+        }
         Ok(v.process_justification(&j.justification)?)
     }
 
-- 
2.43.0


From 19cdf33f679fd0259583aca411359d1137ec4830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 33/47] fix: a pedersen resharing deal without commitments made
 the receiver panic

---
 src/share/dkg/pedersen/dkg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 2d6da8e..98ad470 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -571,7 +571,7 @@ where
             // Check that the received committed share is equal to the one we
             // generate from the known public polynomial
             let expected_pub_share = self.dpub.eval(dd.index as usize);
-            if !expected_pub_share.v.eq(&deal_commits.unwrap()[0]) {
+            if deal_commits.unwrap_or_default().first() != Some(&expected_pub_share.v) {
                 return reject();
             }
         }
-- 
2.43.0


From 8d9ac1a6b369b09beb4a6d29c9b5b8802d8e9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 34/47] fix: with the default threshold a pedersen dkg was
 certified without any deal, and computing its key panicked

---
 src/share/dkg/pedersen/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 98ad470..d1b04a1 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -315,6 +315,7 @@ where
     } else {
         vss::minimum_t(c.new_nodes.len())
     };
+    c.threshold = new_threshold;
 
     let mut dealer = vss::Dealer::default();
     let mut can_issue = false;
-- 
2.43.0


From 3fdeee2b7b91e1ee8ccab5b3d7261e6ab720ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 35/47] fix: a pedersen dkg configured with duplicate dealers
 was created without verifiers and panicked on the first deal

---
 src/share/dkg/pedersen/dkg.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index d1b04a1..9d25042 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -411,11 +411,9 @@ where
         timeout: false,
     };
     if new_present {
-        let mut dkg_try = dkg.clone();
-        let res_init = dkg_try.init_verifiers(c);
-        if res_init.is_ok() {
-            return Ok(dkg_try);
-        }
+        let mut dkg = dkg;
+        dkg.init_verifiers(c)?;
+        return Ok(dkg);
     }
     Ok(dkg)
 }
-- 
2.43.0


From 78cd63eb21ea04e369c12507f4eba0d2f19e9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 36/47] fix: renewing a pedersen share with one of another
 degree panicked or gave a share off the public polynomial

---
 src/share/dkg/pedersen/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 9d25042..a8bc37d 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1077,6 +1077,11 @@ impl<SUITE: Suite> DistKeyShare<SUITE> {
         suite: SUITE,
         g: DistKeyShare<SUITE>,
     ) -> Result<DistKeyShare<SUITE>, DKGError> {
+        // Check that the polynomials have the same degree
+        if g.commits.is_empty() || g.commits.len() != self.commits.len() {
+            return Err(DKGError::WrongRenewal);
+        }
+
         // Check G(0) = 0*G.
         if !g
             .public()
-- 
2.43.0


From 63f4bf674278b7c9be0c55e66c2b62ad76c93c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 37/47] fix: revealed commitments of another degree made a
 rabin dkg panic, or never finish

---
 src/share/dkg/rabin/dkg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 832558f..db42c7a 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -46,7 +46,7 @@ use crate::{
     group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical},
     share::{
         dkg::DKGError,
-        poly::{recover_pri_poly, PriShare, PubPoly},
+        poly::{recover_pri_poly, PolyError, PriShare, PubPoly},
         vss::{
             rabin::vss::{self, EncryptedDeal},
             suite::Suite,
@@ -711,6 +711,11 @@ where
         let msg = sc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &sc.signature.clone())?;
 
+        // a polynomial of another degree can't be added to the others
+        if sc.commitments.len() != self.t {
+            return Err(DKGError::PolyError(PolyError::WrongCoefficientsNumber));
+        }
+
         let deal = match v.deal() {
             Some(d) => d,
             None => return Err(DKGError::MissingDeal),
-- 
2.43.0


From f253bceefba3c655b4c2125a7c47e72c11e26af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 38/47] fix: a rabin dkg took part in deals with another
 threshold than its own

---
 src/share/dkg/rabin/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index db42c7a..285ae83 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -50,6 +50,7 @@ use crate::{
         vss::{
             rabin::vss::{self, EncryptedDeal},
             suite::Suite,
+            VSSError,
         },
     },
     sign::{dss, schnorr},
@@ -527,6 +528,10 @@ where
         let mut ver = vss::new_verifier(&self.suite, &self.long, &pubb, &self.participants)?;
 
         let resp = ver.process_encrypted_deal(&dd.deal)?;
+        // all dealers share with the threshold of this protocol
+        if ver.aggregator.as_ref().map(|a| a.t) != Some(self.t) {
+            return Err(VSSError::DealInvalidThreshold.into());
+        }
 
         // Set StatusApproval for the verifier that represents the participant
         // that distibuted the Deal
-- 
2.43.0


From b146b5d508bb848a8131cccc7666f2c3285558f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 39/47] fix: after a timeout a qualified rabin dkg node could
 not reveal its commitments

---
 src/share/dkg/rabin/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 285ae83..fa91cc1 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -596,6 +596,7 @@ where
     /// [`set_timeout()`] triggers the timeout on all verifiers, and thus makes sure
     /// all verifiers have either responded, or have a StatusComplaint response.
     pub fn set_timeout(&mut self) {
+        self.dealer.set_timeout();
         for (_, v) in self.verifiers.iter_mut() {
             v.set_timeout()
         }
-- 
2.43.0


From 6456a34ce97654886579def6edf6193648d4135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 40/47] fix: a complaint a rabin dealer had justified still
 kept it from revealing its commitments

---
 src/share/vss/rabin/vss.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index e58d965..3e36d46 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -453,6 +453,9 @@ where
         let sig = schnorr::sign(&self.suite, &self.long, msg)?;
         j.signature = sig;
 
+        // a deal that is really wrong stays a complaint
+        let _ = self.aggregator.verify_justification(&j);
+
         Ok(Some(j))
     }
 
-- 
2.43.0


From a349cb50bbdc42cea1b00fea7a9e40e213b34ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 41/47] fix: ECIES decryption of a ciphertext shorter than a
 point fails instead of panicking

---
 src/encrypt/ecies/ecies_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encrypt/ecies/ecies_impl.rs b/src/encrypt/ecies/ecies_impl.rs
index 1f89851..99b51fd 100644
--- a/src/encrypt/ecies/ecies_impl.rs
+++ b/src/encrypt/ecies/ecies_impl.rs
@@ -63,6 +63,9 @@ pub fn decrypt<GROUP: Group>(
     // Reconstruct the ephemeral elliptic curve point
     let mut r_p = group.point();
     let l = group.point_len();
+    if ctx.len() < l {
+        return Err(MarshallingError::InvalidInput("ciphertext too short".to_owned()).into());
+    }
     r_p.unmarshal_binary(&ctx[..l])?;
 
     // Compute shared DH key and derive the symmetric key and nonce via HKDF
-- 
2.43.0


From f21a3a515ee7087013dbbcac4b039facd829eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 42/47] fix: writing all bytes to an XOF already read from
 fails instead of spinning forever, and flushing it does not panic

---
 src/xof/blake3/xof.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index 453722e..5fd82ae 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -51,7 +51,7 @@ impl std::io::Write for Xof {
     fn write(&mut self, buf: &[u8]) -> Result<usize, std::io::Error> {
         match &mut self.implementation {
             HashState::Readable { reader: _ } => Err(std::io::Error::new(
-                std::io::ErrorKind::Interrupted,
+                std::io::ErrorKind::Other,
                 "write after read",
             )),
             HashState::Writeable { writer } => writer.write(buf),
@@ -59,14 +59,8 @@ impl std::io::Write for Xof {
     }
 
     fn flush(&mut self) -> Result<(), std::io::Error> {
-        match &mut self.implementation {
-            HashState::Readable { reader: _ } => {
-                todo!()
-                // Err(std::io::Error::new(std::io::ErrorKind::, "asdf"))
-            }
-            HashState::Writeable { writer: _ } => todo!(),
-        }
-        // self.implementation.flush()
+        // nothing is buffered between the caller and the hasher
+        Ok(())
     }
 }
 impl std::io::Read for Xof {
-- 
2.43.0


From 163e1991f9dc705b291c7e07bdddaef6fa47dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 43/47] fix: random bits are not all zero when the random
 stream fails

---
 src/util/random/random_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/random/random_stream.rs b/src/util/random/random_stream.rs
index 5b0070a..ea0672a 100644
--- a/src/util/random/random_stream.rs
+++ b/src/util/random/random_stream.rs
@@ -17,7 +17,8 @@ use crate::{
 pub fn bits(bit_len: u64, exact: bool, rand: &mut impl Stream) -> Vec<u8> {
     let mut b: Vec<u8> = vec![0; ((bit_len + 7) / 8) as usize];
     let b_clone = b.clone();
-    _ = rand.xor_key_stream(&mut b, &b_clone);
+    rand.xor_key_stream(&mut b, &b_clone)
+        .expect("random stream failure");
     let highbits = bit_len & 7;
     if highbits != 0 {
         b[0] &= !(0xff << highbits);
-- 
2.43.0


From 92889b6eaa783bd6f7e816346f8b361180646c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 44/47] fix: points are ordered by their encoding, so that
 equal points compare equal

---
 src/group/edwards25519/point.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index f70caa7..b6fad65 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -20,7 +20,7 @@ use super::{
 
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
-#[derive(Copy, Clone, Eq, Ord, PartialOrd, Debug, Default, Serialize, Deserialize)]
+#[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
@@ -251,6 +251,23 @@ impl PartialEq for Point {
     }
 }
 
+impl Ord for Point {
+    /// [`cmp()`] orders [`points`](Point) by their encoding, in accordance with [`eq()`]
+    fn cmp(&self, p2: &Self) -> core::cmp::Ordering {
+        let mut b1 = [0_u8; 32];
+        let mut b2 = [0_u8; 32];
+        self.ge.write_bytes(&mut b1);
+        p2.ge.write_bytes(&mut b2);
+        b1.cmp(&b2)
+    }
+}
+
+impl PartialOrd for Point {
+    fn partial_cmp(&self, p2: &Self) -> Option<core::cmp::Ordering> {
+        Some(self.cmp(p2))
+    }
+}
+
 impl core::hash::Hash for Point {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         let mut b = [0_u8; 32];
-- 
2.43.0


From 6723e195dbf2a9d77686812b86859da15fdada19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 45/47] fix: deserialised points are checked to lie on the
 curve

---
 src/group/edwards25519/point.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index b6fad65..8561b44 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -21,6 +21,7 @@ use super::{
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
 #[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
+#[serde(try_from = "[u8; 32]", into = "[u8; 32]")]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
@@ -43,6 +44,24 @@ impl Point {
     }
 }
 
+impl From<Point> for [u8; 32] {
+    fn from(p: Point) -> Self {
+        let mut b = [0_u8; 32];
+        p.ge.write_bytes(&mut b);
+        b
+    }
+}
+
+impl TryFrom<[u8; 32]> for Point {
+    type Error = MarshallingError;
+
+    fn try_from(b: [u8; 32]) -> Result<Self, Self::Error> {
+        let mut p = Self::default();
+        p.unmarshal_binary(&b)?;
+        Ok(p)
+    }
+}
+
 impl BinaryMarshaler for Point {
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
         let mut b = [0_u8; 32];
-- 
2.43.0


From 7a1ee15a5e7db11973308a08ee176b4c1d4bbb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 46/47] fix: compute modular square roots

Int::sqrt returned the integer square root of the value, which in general is
not a square root modulo m, and never refused a non-square.
---
 src/group/integer_field/integer.rs | 64 +++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index f71257f..1f500b3 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -491,10 +491,7 @@ impl Int {
     /// Assumes the modulus `m` is an `odd prime`.
     /// Returns `true` on success, `false` if input a is not a square.
     pub fn sqrt(&mut self, a_s: &Self) -> Result<(), IntError> {
-        if a_s.v.sign() == Sign::Minus {
-            return Err(IntError::ImaginaryRoot);
-        }
-        self.v = a_s.v.sqrt() % a_s.m.clone();
+        self.v = mod_sqrt(&a_s.v, &a_s.m).ok_or(IntError::ImaginaryRoot)?;
         self.m = a_s.m.clone();
         Ok(())
     }
@@ -516,6 +513,63 @@ impl Int {
     }
 }
 
+/// [`mod_sqrt()`] computes a square root of `a` modulo the odd prime `p` with the
+/// Tonelli-Shanks algorithm, or returns [`None`] if `a` is not a square.
+fn mod_sqrt(a: &BigInt, p: &BigInt) -> Option<BigInt> {
+    let zero = BigInt::from(0_i64);
+    let a = ((a % p) + p) % p;
+    if a == zero {
+        return Some(a);
+    }
+    let minus_one = p - &*ONE;
+    let half = &minus_one / &*TWO;
+    if a.modpow(&half, p) != *ONE {
+        return None;
+    }
+
+    // p - 1 = q * 2^s with q odd
+    let mut q = half;
+    let mut s = 1;
+    while &q % &*TWO == zero {
+        q = &q / &*TWO;
+        s += 1;
+    }
+
+    // any non-square modulo p
+    let half = &minus_one / &*TWO;
+    let mut z = TWO.clone();
+    while z.modpow(&half, p) != minus_one {
+        z = &z + &*ONE;
+        if z >= *p {
+            return None;
+        }
+    }
+
+    let mut c = z.modpow(&q, p);
+    let mut t = a.modpow(&q, p);
+    let mut r = a.modpow(&((&q + &*ONE) / &*TWO), p);
+    let mut m = s;
+    while t != *ONE {
+        let mut i = 0;
+        let mut u = t.clone();
+        while u != *ONE {
+            u = (&u * &u) % p;
+            i += 1;
+            if i == m {
+                return None;
+            }
+        }
+        for _ in 0..(m - i - 1) {
+            c = (&c * &c) % p;
+        }
+        r = (&r * &c) % p;
+        c = (&c * &c) % p;
+        t = (&t * &c) % p;
+        m = i;
+    }
+    Some(r)
+}
+
 /// [`reverse()`] copies `src` into `dst` in byte-reversed order and returns `dst`,
 /// such that `src[0]` goes into `dst[len-1]` and vice versa.
 /// `dst` and `src` may be the same slice but otherwise must not overlap.
@@ -537,7 +591,7 @@ pub enum IntError {
     ParseBigIntError(#[from] ParseBigIntError),
     #[error("Int not representable in max bytes")]
     NotRepresentable,
-    #[error("input is a negative number, square root is imaginary")]
+    #[error("input is not a square, it has no square root")]
     ImaginaryRoot,
 }
 
-- 
2.43.0


From 92e3b6162f5a6b1bf6316f58524917547e25960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 47/47] fix: a square root modulo two is found without an
 endless search

The search for the odd part of p - 1 = 1 never ended for a = 1.
---
 src/group/integer_field/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 1f500b3..b4bc317 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -518,7 +518,7 @@ impl Int {
 fn mod_sqrt(a: &BigInt, p: &BigInt) -> Option<BigInt> {
     let zero = BigInt::from(0_i64);
     let a = ((a % p) + p) % p;
-    if a == zero {
+    if a == zero || a == *ONE {
         return Some(a);
     }
     let minus_one = p - &*ONE;
-- 
2.43.0

