From 3efd2336bec2f186261649813e21760e099ff6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:17 +0000
Subject: [PATCH 1/7] fix: compare all sixteen limbs in decaf_equal

The top limb was left out, so field elements differing only by a multiple of
2^420 compared equal and off-curve encodings could be accepted.
---
 src/bignumber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index e2b1d23..2bbc34d 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -536,6 +536,7 @@ pub fn decaf_equal(n: &BigNumber, x: &BigNumber) -> Word {
     ret |= y[12];
     ret |= y[13];
     ret |= y[14];
+    ret |= y[15];
 
     is_zero_mask(ret)
 }
-- 
2.43.0


From d6d1f4c18b84f5ba71fa0d5fab2a39fb797e498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:17 +0000
Subject: [PATCH 2/7] fix: decide canonical field encodings by a real
 comparison with p

The borrow computed while decoding was not the borrow of y - p: encodings
y >= p were accepted, and some valid points with y < p were refused.
---
 src/bignumber.rs   | 4 +---
 src/constants32.rs | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index 2bbc34d..a9e509b 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -628,9 +628,7 @@ pub fn dsa_like_deserialize(input: &[u8], mask: usize) -> (BigNumber, Word) {
         }
         fill -= RADIX;
         buffer >>= RADIX;
-        // TODO CHECK SCARRY NOT SURE IF CORRECT
-        scarry = ((u32::wrapping_sub(u32::wrapping_add(scarry as Word, n[i]), MODULUS[i]) >> 8) * 4)
-            as Sdword;
+        scarry = (scarry + n[i] as Sdword - MODULUS[i] as Sdword) >> RADIX;
     }
 
     (
diff --git a/src/constants32.rs b/src/constants32.rs
index b1fbaa3..29e753e 100644
--- a/src/constants32.rs
+++ b/src/constants32.rs
@@ -63,6 +63,6 @@ pub const SCALAR_ZERO: [Word; SCALAR_WORDS] = [
     0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 pub const MODULUS: BigNumber = [
-    0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
-    0xfffffe, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
+    0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
+    0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
 ];
-- 
2.43.0


From c73d7d2805bc508cb300e6cfb9ff4362aad2d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:44 +0000
Subject: [PATCH 3/7] fix: refuse the sign bit on encodings of points with x =
 0

RFC 8032 (5.2.3) has no such encoding; it was a second encoding of the
identity and of the point of order two.
---
 src/extended_point.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 72b1d08..b2d99ca 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -535,6 +535,8 @@ pub fn eddsa_like_decode(src_org: &[u8]) -> Result<TwistedExtendedPoint, Libgold
     p.x = mul(&p.z, &p.t);
     p.t = isr(&p.x);
     p.x = mul(&p.t, &p.z);
+    // RFC 8032, 5.2.3: x = 0 has no encoding with the sign bit set.
+    succ &= !(decaf_equal(&p.x, &BIG_ZERO) & low);
     p.x = decaf_cond_negate(&p.x, &(!(low_bit(&p.x)) ^ low));
     p.z = BIG_ONE;
 
-- 
2.43.0


From 9538bd820f8bdae29a80509486e0494b77f8c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:44 +0000
Subject: [PATCH 4/7] fix: report a signature of the wrong length instead of
 panicking

A signature shorter than 114 bytes made verification panic on a slice index,
and bytes after the 114th were silently ignored.
---
 src/eddsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0580513..2a540c8 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -52,6 +52,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
             }
         },
     }
+    if sig.len() != 114 {
+        return Err(LibgoldilockErrors::InvalidSignatureLengthError);
+    }
     let scalar_zero: Scalar = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
     let scalar_four: Scalar = [4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
     let mut p2 = p.clone();
-- 
2.43.0


From ee7a55c3124bdae7b51e44c3e7b6fd96813fe49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:44 +0000
Subject: [PATCH 5/7] fix: bind the challenge to the public key bytes being
 verified

The key was decoded and re-encoded before hashing, which drops its torsion
component, so a signature also verified under three other public keys.
---
 src/eddsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 2a540c8..e0b026e 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -90,7 +90,7 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
 
     let mut challenge: [u8; 114] = [0; 114];
     let mut h = sig1.to_vec();
-    h.append(&mut p.eddsa_like_encode().to_vec());
+    h.append(&mut pubkey.to_vec());
     h.append(&mut message.to_vec());
     hash_with_dom(&mut h, &mut challenge);
 
-- 
2.43.0


From 595934bcb4cdac1fb1b84bd3bbd1590307ecd829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 6/7] fix: refuse signatures whose S is not reduced modulo the
 group order

S + kL verified as well as S, so anyone could alter a valid signature.
---
 src/eddsa.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index e0b026e..f41279f 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -5,7 +5,7 @@ use sha3::{
 
 use crate::{
     extended_point::{eddsa_like_decode, TwistedExtendedPoint},
-    scalar::{decode_long, sub, Scalar},
+    scalar::{decode_long, encode, sub, Scalar},
 };
 
 use crate::errors::LibgoldilockErrors;
@@ -98,6 +98,10 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     challenge_scalar = sub(&scalar_zero, &challenge_scalar);
 
     let responce_scalar = decode_long(&sig2);
+    // RFC 8032, 5.2.7: S must be reduced, otherwise S + kL is another valid signature.
+    if encode(&responce_scalar) != sig2 {
+        return Ok(false);
+    }
 
     let pk = p2.point_double_scalamul_non_secret(&responce_scalar, &challenge_scalar);
 
-- 
2.43.0


From 9499edb22617cdf4403c578f484ff27071ef514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:45 +0000
Subject: [PATCH 7/7] fix: return an error when a serialized key is not 57
 bytes of hex

Deserializing untrusted data panicked on bad hex or a wrong length.
---
 src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 70536b6..a3050f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,6 +167,12 @@ impl Signature {
     }
 }
 
+fn key_from_hex<E: de::Error>(s: &str) -> Result<[u8; 57], E> {
+    let mut key: [u8; 57] = [0; 57];
+    hex::decode_to_slice(s, &mut key).map_err(E::custom)?;
+    Ok(key)
+}
+
 impl Serialize for SigningKey {
     fn serialize<S>(&self, serializer: S) -> core::result::Result<S::Ok, S::Error>
     where
@@ -184,7 +190,7 @@ impl<'de> Deserialize<'de> for SigningKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SigningKey::from_str(&s))
+            Ok(SigningKey::from_slice(&key_from_hex(&s)?))
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -208,7 +214,9 @@ impl<'de> Deserialize<'de> for SecretKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(SecretKey::from_str(&s))
+            Ok(SecretKey {
+                key: key_from_hex(&s)?,
+            })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
@@ -232,7 +240,9 @@ impl<'de> Deserialize<'de> for VerifyingKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
-            Ok(VerifyingKey::from_str(&s))
+            Ok(VerifyingKey {
+                key: key_from_hex(&s)?,
+            })
         } else {
             Err(de::Error::custom("Expected a string"))
         }
-- 
2.43.0

