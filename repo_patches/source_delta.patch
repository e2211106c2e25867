From a0814ef3b00052f7a58b1b7fd69a3b99cf8611ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:49 +0000
Subject: [PATCH 1/3] fix: let the Newton step of the inversion mod q wrap

The constant term of the intermediate product is an unreduced 16-bit value.
Adding 2 to it overflowed for about one key pair in 8192, which aborted key
generation in builds with overflow checks.
---
 src/poly.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index e45c48b..7b4dcad 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -87,19 +87,19 @@ pub fn poly_r2_inv_to_rq_inv(r: &mut Poly, ai: Poly, a: &Poly) {
         r.coeffs[i] = ai.coeffs[i];
     }
     poly_rq_mul(&mut c, r, &b);
-    c.coeffs[0] += 2; // c = 2 - a*ai
+    c.coeffs[0] = c.coeffs[0].wrapping_add(2); // c = 2 - a*ai
     poly_rq_mul(&mut s, &c, r); // s = ai*c
 
     poly_rq_mul(&mut c, &s, &b);
-    c.coeffs[0] += 2; // c = 2 - a*s
+    c.coeffs[0] = c.coeffs[0].wrapping_add(2); // c = 2 - a*s
     poly_rq_mul(r, &c, &s);
 
     poly_rq_mul(&mut c, r, &b);
-    c.coeffs[0] += 2; // c = 2 - a*r
+    c.coeffs[0] = c.coeffs[0].wrapping_add(2); // c = 2 - a*r
     poly_rq_mul(&mut s, &c, r); // s = r*c
 
     poly_rq_mul(&mut c, &s, &b);
-    c.coeffs[0] += 2; // c = 2 - a*s
+    c.coeffs[0] = c.coeffs[0].wrapping_add(2); // c = 2 - a*s
     poly_rq_mul(r, &c, &s); // r = s*c
 }
 
-- 
2.43.0


From b4f6b5b10fd8d1baeaf02aafac3151044de226cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:49 +0000
Subject: [PATCH 2/3] fix: wrap the counter of the random generator modulo
 2^128

A state whose counter block is all ones made the next request panic in builds
with overflow checks. The counter is defined modulo 2^128.
---
 src/rng.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rng.rs b/src/rng.rs
index ae69f9c..ee92a00 100644
--- a/src/rng.rs
+++ b/src/rng.rs
@@ -58,7 +58,7 @@ impl AesState {
 
         for tmp in &mut temp[0..3] {
             let count = u128::from_be_bytes(*v);
-            v.copy_from_slice(&(count + 1).to_be_bytes());
+            v.copy_from_slice(&count.wrapping_add(1).to_be_bytes());
 
             Self::aes256_ecb(key, v, tmp);
         }
@@ -83,7 +83,7 @@ impl RNGState for AesState {
     fn randombytes(&mut self, x: &mut [u8]) -> Result<(), Box<dyn error::Error>> {
         for chunk in x.chunks_mut(16) {
             let count = u128::from_be_bytes(self.v);
-            self.v.copy_from_slice(&(count + 1).to_be_bytes());
+            self.v.copy_from_slice(&count.wrapping_add(1).to_be_bytes());
 
             let mut block = [0u8; 16];
             Self::aes256_ecb(&self.key, &self.v, &mut block);
-- 
2.43.0


From 7c684504329bf7cdd545d5ebb9df3f1436ab8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:49 +0000
Subject: [PATCH 3/3] fix: do not overflow the request counter of the random
 generator

The counter is informational and signed 32 bit. Request number 2^31 panicked in
builds with overflow checks.
---
 src/rng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rng.rs b/src/rng.rs
index ee92a00..eefeff5 100644
--- a/src/rng.rs
+++ b/src/rng.rs
@@ -92,7 +92,7 @@ impl RNGState for AesState {
         }
 
         Self::aes256_ctr_update(&mut None, &mut self.key, &mut self.v);
-        self.reseed_counter += 1;
+        self.reseed_counter = self.reseed_counter.wrapping_add(1);
 
         Ok(())
     }
-- 
2.43.0

