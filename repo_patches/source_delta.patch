From c2c1ffecb7cd11d80a1f9ab28b11e14d051ab1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 1/3] fix: gate the std::error::Error impl so the crate builds
 without std

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57cc5aa..fb6251e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,4 +77,5 @@ impl fmt::Display for HyperLogLogError {
     }
 }
 
+#[cfg(feature = "std")]
 impl std::error::Error for HyperLogLogError {}
-- 
2.43.0


From 6c924891126c8d35f87fd16856e272cae5e181db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 2/3] fix: HyperLogLogPF::count() no longer returns NaN for
 saturated sketches

---
 src/hyperloglog.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 6bda970..42a2aa9 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -190,7 +190,17 @@ where
             raw = Self::linear_count(self.count, zeros);
         } else if raw > two32 / 30.0 {
             // Apply large range correction.
-            raw = -1.0 * two32 * ln(1.0 - raw / two32);
+            //
+            // A raw estimate of 2^32 or more means that the 32-bit hash
+            // space is exhausted, and the correction is not defined there:
+            // saturate it instead of taking the logarithm of a number that
+            // is not positive.
+            let free = 1.0 - raw / two32;
+            let min_free = 1.0 / two32;
+
+            raw = -1.0 *
+                two32 *
+                ln(if free > min_free { free } else { min_free });
         }
 
         raw
-- 
2.43.0


From 905e8ac4f76ba59885f8cdf39b6eb09e4ca21afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 3/3] fix: linear counting in sparse representation uses all
 2^25 buckets

---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 9264ced..1f40d8e 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -90,7 +90,7 @@ where
         let count = Self::register_count(precision);
         let counts = (
             count,
-            Self::register_count(Self::PRIME_PRECISION - 1),
+            Self::register_count(Self::PRIME_PRECISION),
             RegistersPlus::size_in_bytes(count),
         );
 
-- 
2.43.0

