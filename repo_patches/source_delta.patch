From 2b64846e4fa1db75c4cf1713a5bc96c98566c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 1/7] fix: report success from Gerg2008::density with a phase
 flag

With iflag > 0 every converged state was reported as IterationFail, also when the
checks for a possible 2-phase state passed and the density was right.
---
 src/gerg2008.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index cf12404..3e5541d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4362,8 +4362,8 @@ impl Gerg2008 {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
                                 self.d = self.p / RGERG / self.t;
+                                return Err(DensityError::IterationFail);
                             }
-                            return Err(DensityError::IterationFail);
                         }
                         return Ok(()); // Iteration converged
                     }
-- 
2.43.0


From 1c1bf4b99be857ed0ea6270d15078f686fe397c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 2/7] fix: report zero pressure as PressureTooLow from
 Gerg2008::density

A zero pressure has no density to search for. It ran through all restarts of the
iteration and came back as IterationFail; Detail::density reports PressureTooLow.
---
 src/gerg2008.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 3e5541d..c0336f5 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4292,6 +4292,11 @@ impl Gerg2008 {
         let mut ifail: i32 = 0;
         const TOLR: f64 = 0.000_000_1;
 
+        if self.p.abs() < EPSILON {
+            self.d = 0.0;
+            return Err(DensityError::PressureTooLow);
+        }
+
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
         if self.d > -EPSILON {
-- 
2.43.0


From dc148ab7fa2da9eec5a292392a15a1c07695eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 3/7] fix: recompute cached terms whenever composition or
 temperature changed

The caches were compared with the previous call under a tolerance of 1e-7 and the
reference values moved along on every call. A series of small changes was therefore
never noticed (results drifted away from those of a fresh instance), and a NaN in one
call left stale terms in use for the following calls.
---
 src/detail.rs   | 13 +++----------
 src/gerg2008.rs | 12 +++---------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 16f130c..ffb5192 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1014,17 +1014,10 @@ impl Detail {
         let mut xi2: f64;
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
-        let mut icheck = 0;
-
-        for (i, x) in self.x.iter().enumerate() {
-            if (x - self.xold[i]).abs() > 0.000_000_1 {
-                icheck = 1;
-            }
-            self.xold[i] = *x;
-        }
-        if icheck == 0 {
+        if self.x == self.xold {
             return;
         }
+        self.xold = self.x;
 
         self.k3 = 0.0;
         let mut u = 0.0;
@@ -1214,7 +1207,7 @@ impl Detail {
                 self.ar[i][j] = 0.0;
             }
         }
-        if (self.t - self.told).abs() > 0.000_000_1 {
+        if self.t != self.told {
             for (i, item) in UN.iter().enumerate() {
                 self.tun[i] = self.t.powf(-item);
             }
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index c0336f5..925e17d 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4426,18 +4426,12 @@ impl Gerg2008 {
         let mut vr: f64 = 0.0;
         let mut xij: f64;
         let mut f: f64;
-        let mut icheck: i32 = 0;
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
-        for i in 1..=NC_GERG {
-            if (self.x[i] - self.xold[i]).abs() > 0.000_000_1 {
-                icheck = 1;
-            }
-            self.xold[i] = self.x[i];
-        }
-        if icheck == 0 {
+        if self.x == self.xold {
             return (self.drold, self.trold);
         }
+        self.xold = self.x;
         self.told = 0.0;
         self.trold2 = 0.0;
 
@@ -4551,7 +4545,7 @@ impl Gerg2008 {
         }
 
         // If temperature has changed, calculate temperature dependent parts
-        if (self.t - self.told).abs() > 0.000_000_1 || (tr - self.trold2).abs() > 0.000_000_1 {
+        if self.t != self.told || tr != self.trold2 {
             self.tterms(lntau);
         }
         self.told = self.t;
-- 
2.43.0


From fe79e133800690c295df2bb39fd704658fa32ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 4/7] fix: Composition::check rejects NaN fractions

A NaN compares false with both limits and was accepted as a valid composition.
---
 src/composition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/composition.rs b/src/composition.rs
index d436450..d325f1a 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -167,7 +167,7 @@ impl Composition {
         if (self.sum() - 0.0).abs() < 1.0e-10 {
             return Err(CompositionError::Empty);
         }
-        if (self.sum() - 1.0).abs() > 1.0e-2 {
+        if self.sum().is_nan() || (self.sum() - 1.0).abs() > 1.0e-2 {
             return Err(CompositionError::BadSum);
         }
         Ok(())
-- 
2.43.0


From c783f5daefd099aca20892d3dc76586710626b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:50 +0000
Subject: [PATCH 5/7] fix: Composition::normalize reports sums it cannot scale

An infinite sum (overflow) or one whose reciprocal overflows was reported as a success,
leaving all zeros, infinities or NaN in the composition.
---
 src/composition.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/composition.rs b/src/composition.rs
index d325f1a..5c8b636 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -121,8 +121,11 @@ impl Composition {
     /// ```
     pub fn normalize(&mut self) -> Result<(), CompositionError> {
         let sum = self.sum();
-        if sum > 0.0 {
-            let factor = 1.0 / sum;
+        if sum.is_infinite() {
+            return Err(CompositionError::BadSum);
+        }
+        let factor = 1.0 / sum;
+        if sum > 0.0 && factor.is_finite() {
 
             self.methane *= factor;
             self.nitrogen *= factor;
-- 
2.43.0


From bb75dc2cf9a53a688a7db23828a4bf61e96dc379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 6/7] fix: make the generated C header compile

Both error enums have an enumerator Ok, and C enumerators share one scope, so
including aga8.h was an error. Prefix the enumerators with the enum's name.
---
 src/composition.rs | 2 ++
 src/lib.rs         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/composition.rs b/src/composition.rs
index 5c8b636..bbc60e6 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -178,6 +178,8 @@ impl Composition {
 }
 
 /// Error conditions for composition
+///
+/// cbindgen:prefix-with-name
 #[repr(C)]
 #[derive(Debug, PartialEq, Eq)]
 pub enum CompositionError {
diff --git a/src/lib.rs b/src/lib.rs
index 468bdef..cc7db3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -70,6 +70,8 @@ pub mod detail;
 pub mod gerg2008;
 
 /// Error conditions for density calculation
+///
+/// cbindgen:prefix-with-name
 #[repr(C)]
 #[derive(Debug, PartialEq, Eq)]
 pub enum DensityError {
-- 
2.43.0


From 9ced62ae71dbc4d2b9c6d6a00d1957957230ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:10 +0000
Subject: [PATCH 7/7] fix: density() reported success at a vanishing pressure
 on the edge of the liquid branch

---
 src/detail.rs   | 3 +++
 src/gerg2008.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/detail.rs b/src/detail.rs
index ffb5192..894b458 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1326,6 +1326,9 @@ impl Detail {
                 dpdlv = -self.d * self.dp_dd_save; // d(p)/d[log(v)]
                 vdiff = (p2.ln() - plog) * p2 / dpdlv;
                 vlog -= vdiff;
+                if ((p2 - self.p) / dpdlv).abs() >= TOLR {
+                    continue; // A small p2 makes the step small however far away the root is
+                }
                 if vdiff.abs() < TOLR {
                     self.d = (-vlog).exp();
                     return Ok(()); // Iteration converged
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index 925e17d..586d0ef 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4350,6 +4350,9 @@ impl Gerg2008 {
                 let dpdlv = -self.d * self.dpddsave; // d(p)/d[log(v)]
                 let vdiff = (p2.ln() - plog) * p2 / dpdlv;
                 vlog += -vdiff;
+                if ((p2 - self.p) / dpdlv).abs() >= TOLR {
+                    continue; // A small p2 makes the step small however far away the root is
+                }
                 if vdiff.abs() < TOLR {
                     // Check to see if state is possibly 2-phase, and if so restart
                     if self.dpddsave < 0.0 {
-- 
2.43.0

