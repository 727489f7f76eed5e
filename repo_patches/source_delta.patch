From 9b495347871e44d42f1d26a4d468806f113e6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 01/33] fix: give zero binomial mass to counts above the number
 of trials

---
 src/distribution/binomial.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec8903e..74b45c3 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -100,6 +100,8 @@ impl distribution::Discrete for Binomial {
             (n * self.q.ln()).exp()
         } else if x == self.n {
             (n * self.p.ln()).exp()
+        } else if x > self.n {
+            0.0
         } else {
             let x = x as f64;
             let n_m_x = n - x;
-- 
2.43.0


From 6af63ea7ad804166f5739d0f3daa574372dc57b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 02/33] fix: keep the binomial distribution at zero right for
 large numbers of trials

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 74b45c3..8d26c40 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -128,7 +128,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powi(self.n as i32);
+            return self.q.powf(self.n as f64);
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From e99efff566ed42c43e0feab3191f2e98779234ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 03/33] fix: leave outcomes of probability zero out of the
 entropy

---
 src/distribution/binomial.rs    | 5 ++++-
 src/distribution/categorical.rs | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 8d26c40..4b1d4e9 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -147,7 +147,10 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| sum + self.mass(i) * self.mass(i).ln())
+            -(0..(self.n + 1)).fold(0.0, |sum, i| match self.mass(i) {
+                p if p > 0.0 => sum + p * p.ln(),
+                _ => sum,
+            })
         }
     }
 }
diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index e4ba842..8a54d7d 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -75,7 +75,11 @@ impl distribution::Distribution for Categorical {
 
 impl distribution::Entropy for Categorical {
     fn entropy(&self) -> f64 {
-        -self.p.iter().fold(0.0, |sum, p| sum + p * p.ln())
+        -self
+            .p
+            .iter()
+            .filter(|&&p| p > 0.0)
+            .fold(0.0, |sum, p| sum + p * p.ln())
     }
 }
 
-- 
2.43.0


From 85a467b609bc68da84ae67c7562089eded3fe783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 04/33] fix: round the binomial mean to the median only where
 that is right

---
 src/distribution/binomial.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 4b1d4e9..9b9632a 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -246,15 +246,11 @@ impl distribution::Mean for Binomial {
 
 impl distribution::Median for Binomial {
     fn median(&self) -> f64 {
-        use core::f64::consts::LN_2;
         use distribution::Inverse;
 
         if (self.np - self.np.trunc()) == 0.0 || (self.p == 0.5 && self.n % 2 != 0) {
             self.np
-        } else if self.p <= 1.0 - LN_2
-            || self.p >= LN_2
-            || (self.np.round() - self.np).abs() <= self.p.min(self.q)
-        {
+        } else if (self.np.round() - self.np).abs() <= self.p.min(self.q) {
             self.np.round()
         } else if self.n > 1000 && self.npq > 80.0 {
             // Use a normal approximation.
-- 
2.43.0


From 99ac553f3ed3ec742c8e401d1d76363fe34fbd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 05/33] fix: correct the normal approximation of the binomial
 quantile

---
 src/distribution/binomial.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 9b9632a..001ea3c 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -212,7 +212,11 @@ impl distribution::Inverse for Binomial {
             }
         } else if self.npq > 80.0 {
             // Use a normal approximation.
-            inverse_normal(self.p, self.np, self.npq, p).floor() as usize
+            // At a probability attained by a count, it gives the next count up
+            // to an error, in which case the former should be chosen.
+            const ERROR: f64 = 1e-6;
+            let k = (inverse_normal(self.p, self.np, self.npq, p) - ERROR).floor();
+            (k.max(0.0) as usize).min(self.n)
         } else {
             // Use Newton’s method starting at the mode.
             const ALPHA: f64 = 0.999;
@@ -325,9 +329,11 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     sd * w +
     (p + 1.0) / 3.0 -
     (2.0 * p - 1.0) * w2 / 6.0 +
-    sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
-    w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
-    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0 / 1620.0) +
+    sd_em1 * (
+        w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
+        w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0
+    ) +
+    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
         w3 * (256.0 * p4 - 512.0 * p3 - 147.0 * p2 + 403.0 * p - 137.0) / 38880.0 -
-- 
2.43.0


From 3295d67d9d855580d66b1300b16e3611b256c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 06/33] fix: let the binomial quantile terminate where Newton's
 method diverges

---
 src/distribution/binomial.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 001ea3c..2843473 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -73,6 +73,22 @@ impl Binomial {
     pub fn q(&self) -> f64 {
         self.q
     }
+
+    // Find the smallest count whose cumulative probability is at least `p`.
+    fn bisect(&self, p: f64) -> usize {
+        use distribution::Distribution;
+
+        let (mut low, mut high) = (0, self.n);
+        while low < high {
+            let middle = low + (high - low) / 2;
+            if self.distribution(middle as f64) < p {
+                low = middle + 1;
+            } else {
+                high = middle;
+            }
+        }
+        low
+    }
 }
 
 impl distribution::Discrete for Binomial {
@@ -160,7 +176,7 @@ impl distribution::Inverse for Binomial {
     ///
     /// For small `n`, a simple summation is utilized. For large `n` and large
     /// variances, a normal asymptotic approximation is used. Otherwise,
-    /// Newton’s method is employed.
+    /// Newton’s method is employed, resorting to bisection if it diverges.
     ///
     /// ## References
     ///
@@ -220,16 +236,21 @@ impl distribution::Inverse for Binomial {
         } else {
             // Use Newton’s method starting at the mode.
             const ALPHA: f64 = 0.999;
+            const LIMIT: usize = 50;
             let mut q = self.modes()[0] as f64;
             let mut alpha = 1.0;
-            loop {
+            for _ in 0..LIMIT {
                 let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
                 if delta.abs() < 0.5 {
                     return q as usize;
                 }
                 q += delta;
+                if !(0.0..=self.n as f64).contains(&q) {
+                    break;
+                }
                 alpha *= ALPHA;
             }
+            self.bisect(p)
         }
     }
 }
-- 
2.43.0


From 56f393f8ce61f4e3cc9bce420dcf8c765446a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 07/33] fix: let the binomial quantile terminate where the
 summation underflows

---
 src/distribution/binomial.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 2843473..d8bb750 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -184,6 +184,7 @@ impl distribution::Inverse for Binomial {
     ///    distribution function where the number of trials is large,” Oxford
     ///    University, 2013.
     fn inverse(&self, p: f64) -> usize {
+        use core::f64::MIN_POSITIVE;
         use distribution::{Discrete, Distribution, Modes};
 
         should!((0.0..=1.0).contains(&p));
@@ -192,8 +193,11 @@ impl distribution::Inverse for Binomial {
             ($prod_term: expr) => ({
                 let mut k = 1;
                 let mut a = self.q.powi(self.n as i32);
+                if a < MIN_POSITIVE {
+                    return self.bisect(p);
+                }
                 let mut sum = a - p;
-                while sum < 0.0 {
+                while sum < 0.0 && k <= self.n {
                     a *= $prod_term(k);
                     sum += a;
                     k += 1;
@@ -205,8 +209,11 @@ impl distribution::Inverse for Binomial {
             ($prod_term: expr) => ({
                 let mut k = 1;
                 let mut a = self.p.powi(self.n as i32);
+                if a < MIN_POSITIVE {
+                    return self.bisect(p);
+                }
                 let mut sum = (1.0 - p) - a;
-                while sum >= 0.0 {
+                while sum >= 0.0 && k <= self.n {
                     a *= $prod_term(k);
                     sum -= a;
                     k += 1;
-- 
2.43.0


From 0da634a54d65e754d4beb61aaefa68c46342326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 08/33] fix: keep the binomial mass below the number of trials
 for tiny failure probabilities

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index d8bb750..244ca2d 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -107,7 +107,7 @@ impl distribution::Discrete for Binomial {
         if self.p == 0.0 {
             return if x == 0 { 1.0 } else { 0.0 };
         }
-        if self.p == 1.0 {
+        if self.q == 0.0 {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
-- 
2.43.0


From b05dc6cc2648480dbf30b6f3326a2f95b30e8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 09/33] fix: keep binomial modes within the number of trials

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 244ca2d..1145dfc 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -298,7 +298,7 @@ impl distribution::Modes for Binomial {
         let r = self.p * (self.n + 1) as f64;
         if r == 0.0 {
             vec![0]
-        } else if self.p == 1.0 {
+        } else if r >= (self.n + 1) as f64 {
             vec![self.n]
         } else if (r - r.trunc()) != 0.0 {
             vec![r.floor() as usize]
-- 
2.43.0


From d7ba8e811e2580deec82947b47838ea17f652064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 10/33] fix: never draw a trailing category of probability zero

---
 src/distribution/categorical.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 8a54d7d..51e9641 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -25,11 +25,15 @@ impl Categorical {
         });
 
         let k = p.len();
+        // The last category of positive probability completes the sum.
+        let last = p.iter().rposition(|&p| p > 0.0).unwrap_or(k - 1);
         let mut cumsum = p.to_vec();
-        for i in 1..(k - 1) {
-            cumsum[i] += cumsum[i - 1];
+        for i in 1..last {
+            cumsum[i] = (cumsum[i] + cumsum[i - 1]).min(1.0);
+        }
+        for sum in &mut cumsum[last..] {
+            *sum = 1.0;
         }
-        cumsum[k - 1] = 1.0;
         Categorical {
             k,
             p: p.to_vec(),
-- 
2.43.0


From 96b269e42c38bb988d2affb1082e74d683008bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 11/33] fix: move the median of a symmetric beta distribution
 to its interval

---
 src/distribution/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 8a89b27..c9f8818 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -127,7 +127,7 @@ impl distribution::Median for Beta {
     fn median(&self) -> f64 {
         use distribution::Inverse;
         if self.alpha == self.beta {
-            0.5 * (self.b - self.a)
+            self.a + 0.5 * (self.b - self.a)
         } else if self.alpha > 1.0 && self.beta > 1.0 {
             self.a
                 + (self.b - self.a) * (self.alpha - 1.0 / 3.0)
-- 
2.43.0


From cc7eda5f5cf22d004570a4f2837cb36f63a97e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 12/33] fix: keep the logistic density from overflowing in the
 left tail

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index 23d0b43..d15b2b1 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -45,7 +45,7 @@ impl Default for Logistic {
 impl distribution::Continuous for Logistic {
     #[inline]
     fn density(&self, x: f64) -> f64 {
-        let exp = (-(x - self.mu) / self.s).exp();
+        let exp = (-(x - self.mu).abs() / self.s).exp();
         exp / (self.s * (1.0 + exp).powi(2))
     }
 }
-- 
2.43.0


From 171c96d04c3d0817347a5df0a913100fd4696f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 13/33] fix: keep the lognormal entropy from overflowing

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index bd6baf8..adb55d4 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -75,7 +75,7 @@ impl distribution::Entropy for Lognormal {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::PI;
-        (self.sigma * (self.mu + 0.5).exp() * (2.0 * PI).sqrt()).ln()
+        (self.sigma * (2.0 * PI).sqrt()).ln() + self.mu + 0.5
     }
 }
 
-- 
2.43.0


From cb4c05abf6074f607b5ff4797876718e14c2cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 14/33] fix: keep the beta density defined at the endpoints for
 unit shape parameters

---
 src/distribution/beta.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index c9f8818..9a80b69 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -65,8 +65,18 @@ impl distribution::Continuous for Beta {
         } else {
             let scale = self.b - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // At the endpoints, a unit shape parameter would yield zero times infinity.
+            let left = if self.alpha == 1.0 {
+                0.0
+            } else {
+                (self.alpha - 1.0) * x.ln()
+            };
+            let right = if self.beta == 1.0 {
+                0.0
+            } else {
+                (self.beta - 1.0) * (-x).ln_1p()
+            };
+            (left + right - self.ln_beta).exp() / scale
         }
     }
 }
-- 
2.43.0


From 6501592d09ffcebbc10a8b8245903e8d77170cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 15/33] fix: keep the gamma density from overflowing and define
 it at zero

---
 src/distribution/gamma.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index d769a21..51abde3 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -10,7 +10,7 @@ use source::Source;
 pub struct Gamma {
     k: f64,
     theta: f64,
-    norm: f64,
+    ln_gamma: f64,
 }
 
 impl Gamma {
@@ -25,7 +25,7 @@ impl Gamma {
         Gamma {
             k,
             theta,
-            norm: k.gamma() * theta.powf(k),
+            ln_gamma: k.ln_gamma().0,
         }
     }
 
@@ -44,11 +44,17 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x <= 0.0 {
+        if x < 0.0 {
+            return 0.0;
+        }
+        let x = x / self.theta;
+        // At zero, a unit shape parameter would yield zero times infinity.
+        let power = if self.k == 1.0 {
             0.0
         } else {
-            x.powf(self.k - 1.0) * (-x / self.theta).exp() / self.norm
-        }
+            (self.k - 1.0) * x.ln()
+        };
+        (power - x - self.ln_gamma).exp() / self.theta
     }
 }
 
-- 
2.43.0


From 0c8506ef765ce68492aa131cf56e6304aac5a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 16/33] fix: keep quantiles and samples of bounded
 distributions within their bounds

---
 src/distribution/beta.rs       |  5 +++--
 src/distribution/mod.rs        | 11 +++++++++++
 src/distribution/pert.rs       |  5 +++--
 src/distribution/triangular.rs |  4 ++--
 src/distribution/uniform.rs    |  4 ++--
 5 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 9a80b69..a50589a 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -112,7 +112,8 @@ impl distribution::Inverse for Beta {
     fn inverse(&self, p: f64) -> f64 {
         use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.b - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        let x = p.inv_inc_beta(self.alpha, self.beta, self.ln_beta);
+        distribution::scale(x, self.a, self.b)
     }
 }
 
@@ -177,7 +178,7 @@ impl distribution::Sample for Beta {
         use distribution::gamma;
         let x = gamma::sample(self.alpha, source);
         let y = gamma::sample(self.beta, source);
-        self.a + (self.b - self.a) * x / (x + y)
+        distribution::scale(x / (x + y), self.a, self.b)
     }
 }
 
diff --git a/src/distribution/mod.rs b/src/distribution/mod.rs
index d5738f6..9f6aef6 100644
--- a/src/distribution/mod.rs
+++ b/src/distribution/mod.rs
@@ -128,3 +128,14 @@ pub use self::lognormal::Lognormal;
 pub use self::pert::Pert;
 pub use self::triangular::Triangular;
 pub use self::uniform::Uniform;
+
+// Map the unit interval onto `[a, b]` without leaving it due to rounding.
+#[inline]
+fn scale(x: f64, a: f64, b: f64) -> f64 {
+    let y = a + (b - a) * x;
+    if x == 1.0 || y > b {
+        b
+    } else {
+        y
+    }
+}
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 7edf373..a522afe 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -112,7 +112,8 @@ impl distribution::Inverse for Pert {
     fn inverse(&self, p: f64) -> f64 {
         use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.c - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        let x = p.inv_inc_beta(self.alpha, self.beta, self.ln_beta);
+        distribution::scale(x, self.a, self.c)
     }
 }
 
@@ -155,7 +156,7 @@ impl distribution::Sample for Pert {
         use distribution::gamma;
         let x = gamma::sample(self.alpha, source);
         let y = gamma::sample(self.beta, source);
-        self.a + (self.c - self.a) * x / (x + y)
+        distribution::scale(x / (x + y), self.a, self.c)
     }
 }
 
diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f2c1682..a0835fa 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -100,9 +100,9 @@ impl distribution::Inverse for Triangular {
         } else {
             let p0 = (c - a) / (b - a);
             if p < p0 {
-                ((b - a) * (c - a) * p).sqrt() + a
+                (((b - a) * (c - a) * p).sqrt() + a).min(b)
             } else if p > p0 {
-                b - ((b - a) * (b - c) * (1.0 - p)).sqrt()
+                (b - ((b - a) * (b - c) * (1.0 - p)).sqrt()).max(a)
             } else {
                 c
             }
diff --git a/src/distribution/uniform.rs b/src/distribution/uniform.rs
index 8e3092f..2de35b5 100644
--- a/src/distribution/uniform.rs
+++ b/src/distribution/uniform.rs
@@ -78,7 +78,7 @@ impl distribution::Inverse for Uniform {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.b - self.a) * p
+        distribution::scale(p, self.a, self.b)
     }
 }
 
@@ -110,7 +110,7 @@ impl distribution::Sample for Uniform {
     where
         S: Source,
     {
-        self.a + (self.b - self.a) * source.read::<f64>()
+        distribution::scale(source.read::<f64>(), self.a, self.b)
     }
 }
 
-- 
2.43.0


From f0c301f53b511277aefe938847c0a5bb9ab0181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 17/33] fix: keep beta samples defined for small shape
 parameters

---
 src/distribution/beta.rs  |  7 ++++---
 src/distribution/gamma.rs | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index a50589a..1ae8c4f 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -176,9 +176,10 @@ impl distribution::Sample for Beta {
         S: Source,
     {
         use distribution::gamma;
-        let x = gamma::sample(self.alpha, source);
-        let y = gamma::sample(self.beta, source);
-        distribution::scale(x / (x + y), self.a, self.b)
+        // For small shape parameters, the gamma variables might underflow.
+        let x = gamma::sample_ln(self.alpha, source);
+        let y = gamma::sample_ln(self.beta, source);
+        distribution::scale(1.0 / (1.0 + (y - x).exp()), self.a, self.b)
     }
 }
 
diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index 51abde3..abd0582 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -172,6 +172,20 @@ pub fn sample<S: Source>(k: f64, source: &mut S) -> f64 {
     }
 }
 
+/// Draw the logarithm of a sample from the standard gamma distribution.
+pub fn sample_ln<S: Source>(k: f64, source: &mut S) -> f64 {
+    if k >= 1.0 {
+        return sample(k, source).ln();
+    }
+    let x = sample(1.0 + k, source);
+    loop {
+        let u = source.read::<f64>();
+        if u > 0.0 {
+            return x.ln() + u.ln() / k;
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
-- 
2.43.0


From 440d9dd377d95c89cca8392dcabba33200586237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:48 +0000
Subject: [PATCH 18/33] fix: sum the binomial quantile from the end where the
 sum keeps its precision

---
 src/distribution/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 1145dfc..e56e8ef 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -218,7 +218,7 @@ impl distribution::Inverse for Binomial {
                     sum -= a;
                     k += 1;
                 }
-                self.n - k + 1
+                self.n + 1 - k
             });
         );
 
@@ -228,7 +228,7 @@ impl distribution::Inverse for Binomial {
             self.n
         } else if self.n < 1000 {
             // Find if top-down or bottom-up summation is better.
-            if p <= self.distribution((self.n / 2) as f64) {
+            if p <= 0.5 {
                 sum_bottom_up!(|k| self.p / self.q * ((self.n - k + 1) as f64 / k as f64))
             } else {
                 sum_top_down!(|k| self.q / self.p * ((self.n - k + 1) as f64 / k as f64))
-- 
2.43.0


From a3e70c33369c8c59f0d0cdc35562e6b2bf2493a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 19/33] fix: Do not let the powers of a tiny variance underflow
 in the categorical moments

---
 src/distribution/categorical.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 51e9641..3819c5f 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -106,7 +106,7 @@ impl distribution::Kurtosis for Categorical {
             .iter()
             .enumerate()
             .fold(0.0, |sum, (i, p)| sum + (i as f64 - mean).powi(4) * p);
-        kurt / variance.powi(2) - 3.0
+        kurt / variance / variance - 3.0
     }
 }
 
@@ -175,7 +175,7 @@ impl distribution::Skewness for Categorical {
             .iter()
             .enumerate()
             .fold(0.0, |sum, (i, p)| sum + (i as f64 - mean).powi(3) * p);
-        skew / (variance * variance.sqrt())
+        skew / variance / variance.sqrt()
     }
 }
 
-- 
2.43.0


From 883eeea1c5575da8572f49ad3fd1c709856677e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 20/33] fix: do not cancel the sum of the shapes in the mode of
 a beta distribution

---
 src/distribution/beta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 1ae8c4f..50059ac 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -164,7 +164,8 @@ impl distribution::Modes for Beta {
         } else if self.alpha >= 1.0 && self.beta < 1.0 {
             vec![self.b]
         } else {
-            vec![self.a + (self.b - self.a) * (self.alpha - 1.0) / (self.alpha + self.beta - 2.0)]
+            let (left, right) = (self.alpha - 1.0, self.beta - 1.0);
+            vec![self.a + (self.b - self.a) * left / (left + right)]
         }
     }
 }
-- 
2.43.0


From 6cfd089ae9267acb1938796cab65039ca36aa9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 21/33] fix: keep the triangular distribution function at most
 one

---
 src/distribution/triangular.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index a0835fa..74f5b5a 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -73,9 +73,9 @@ impl distribution::Distribution for Triangular {
         } else {
             let diff = b - a;
             if x <= c {
-                (x - a).powi(2) / diff / (c - a)
+                ((x - a) / diff) * ((x - a) / (c - a))
             } else {
-                1.0 - (b - x).powi(2) / diff / (b - c)
+                1.0 - ((b - x) / diff) * ((b - x) / (b - c))
             }
         }
     }
-- 
2.43.0


From 144e3fe17a2ae723e64eebb62c7b19af8357c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 22/33] fix: do not square the scale of a Gaussian, which might
 under- or overflow

---
 src/distribution/gaussian.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index 63cb259..d830103 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -51,7 +51,8 @@ impl Default for Gaussian {
 
 impl distribution::Continuous for Gaussian {
     fn density(&self, x: f64) -> f64 {
-        (-(x - self.mu).powi(2) / (2.0 * self.sigma * self.sigma)).exp() / self.norm
+        let x = (x - self.mu) / self.sigma;
+        (-0.5 * x * x).exp() / self.norm
     }
 }
 
@@ -68,8 +69,8 @@ impl distribution::Distribution for Gaussian {
 impl distribution::Entropy for Gaussian {
     #[inline]
     fn entropy(&self) -> f64 {
-        use core::f64::consts::{E, PI};
-        0.5 * (2.0 * PI * E * self.sigma * self.sigma).ln()
+        use core::f64::consts::PI;
+        0.5 * ((2.0 * PI).ln() + 1.0) + self.sigma.ln()
     }
 }
 
-- 
2.43.0


From 74d90b586cbcaedd8e98e8323027c66bc4669ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 23/33] fix: do not square the scale of a Cauchy distribution,
 which might under- or overflow

---
 src/distribution/cauchy.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/distribution/cauchy.rs b/src/distribution/cauchy.rs
index d56b93d..d06563d 100644
--- a/src/distribution/cauchy.rs
+++ b/src/distribution/cauchy.rs
@@ -49,8 +49,15 @@ impl distribution::Continuous for Cauchy {
     #[inline]
     fn density(&self, x: f64) -> f64 {
         use core::f64::consts::PI;
-        let deviation = x - self.x_0;
-        self.gamma / (PI * (self.gamma * self.gamma + deviation * deviation))
+        let deviation = (x - self.x_0).abs();
+        // Squaring either of the two might under- or overflow.
+        if deviation > self.gamma {
+            let ratio = self.gamma / deviation;
+            ratio / (PI * deviation * (1.0 + ratio * ratio))
+        } else {
+            let ratio = deviation / self.gamma;
+            1.0 / (PI * self.gamma * (1.0 + ratio * ratio))
+        }
     }
 }
 
-- 
2.43.0


From d1b0b17716d96d324da2be409ec3869dae2713f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 24/33] fix: do not multiply the widths of a triangular
 distribution, which might under- or overflow

---
 src/distribution/triangular.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index 74f5b5a..b4899df 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -100,9 +100,9 @@ impl distribution::Inverse for Triangular {
         } else {
             let p0 = (c - a) / (b - a);
             if p < p0 {
-                (((b - a) * (c - a) * p).sqrt() + a).min(b)
+                ((b - a) * ((c - a) / (b - a) * p).sqrt() + a).min(b)
             } else if p > p0 {
-                (b - ((b - a) * (b - c) * (1.0 - p)).sqrt()).max(a)
+                (b - (b - a) * ((b - c) / (b - a) * (1.0 - p)).sqrt()).max(a)
             } else {
                 c
             }
@@ -128,9 +128,9 @@ impl distribution::Median for Triangular {
     fn median(&self) -> f64 {
         let &Triangular { a, b, c } = self;
         if c >= (a + b) / 2.0 {
-            a + ((b - a) * (c - a) / 2.0).sqrt()
+            a + (b - a) * ((c - a) / (b - a) / 2.0).sqrt()
         } else {
-            b - ((b - a) * (b - c) / 2.0).sqrt()
+            b - (b - a) * ((b - c) / (b - a) / 2.0).sqrt()
         }
     }
 }
-- 
2.43.0


From b5d4d37c26c35c7482c6e0604204d736427814bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 25/33] fix: do not cancel the location in the variance and
 skewness of a triangular distribution

---
 src/distribution/triangular.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index b4899df..132c521 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -156,8 +156,10 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = a * a + b * b + c * c - a * b - a * c - b * c;
+        // The skewness does not depend on the location and scale.
+        let (left, right) = ((c - a) / (b - a), (b - c) / (b - a));
+        let npart = (right - left) * (1.0 + left) * (1.0 + right);
+        let dpart = 1.0 - left * right;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
@@ -165,7 +167,8 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        (a * a + b * b + c * c - a * b - a * c - b * c) / 18.0
+        let (left, right) = (c - a, b - c);
+        (left * left + left * right + right * right) / 18.0
     }
 }
 
-- 
2.43.0


From 3556e97cf66b9c41798b558ba554b2f60913cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 26/33] fix: do not square the deviations when fitting a
 Gaussian, which might under- or overflow

---
 src/distribution/gaussian.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index d830103..5109cfb 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -161,12 +161,17 @@ impl core::iter::FromIterator<f64> for Gaussian {
     fn from_iter<T: IntoIterator<Item = f64>>(iterator: T) -> Self {
         let samples: Vec<f64> = iterator.into_iter().collect();
         let mu = samples.iter().fold(0.0, |a, b| a + b) / samples.len() as f64;
-        let sigma = f64::sqrt(
-            samples
-                .iter()
-                .fold(0.0, |a, b| a + f64::powf(b - mu as f64, 2.0))
-                / (samples.len() - 1) as f64,
-        );
+        // Squaring the deviations as they are might under- or overflow.
+        let scale = samples
+            .iter()
+            .fold(f64::MIN_POSITIVE, |a, b| a.max((b - mu).abs()));
+        let sigma = scale
+            * f64::sqrt(
+                samples
+                    .iter()
+                    .fold(0.0, |a, b| a + f64::powf((b - mu) / scale, 2.0))
+                    / (samples.len() - 1) as f64,
+            );
         Gaussian::new(mu, sigma)
     }
 }
-- 
2.43.0


From c4334ce985db04449dbc69ac91043be7cd2c3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 27/33] fix: let the inverse of the binomial distribution go on
 to the quantile where Newton's step vanishes far in the upper tail

---
 src/distribution/binomial.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index e56e8ef..c38c5fb 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -249,7 +249,12 @@ impl distribution::Inverse for Binomial {
             for _ in 0..LIMIT {
                 let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
                 if delta.abs() < 0.5 {
-                    return q as usize;
+                    let q = q as usize;
+                    // In the upper tail, a small step can stand for many counts.
+                    if q < self.n && self.distribution((q + 1) as f64) < p {
+                        return self.bisect(p);
+                    }
+                    return q;
                 }
                 q += delta;
                 if !(0.0..=self.n as f64).contains(&q) {
-- 
2.43.0


From c7453dc3c26a3780405b86c4aa38833cb98af9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 28/33] fix: find the modes of the binomial distribution when
 the number of trials is the largest possible

---
 src/distribution/binomial.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index c38c5fb..4e19d65 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -300,10 +300,11 @@ impl distribution::Median for Binomial {
 
 impl distribution::Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
-        let r = self.p * (self.n + 1) as f64;
+        let m = self.n as f64 + 1.0;
+        let r = self.p * m;
         if r == 0.0 {
             vec![0]
-        } else if r >= (self.n + 1) as f64 {
+        } else if r >= m {
             vec![self.n]
         } else if (r - r.trunc()) != 0.0 {
             vec![r.floor() as usize]
-- 
2.43.0


From a0379dcb6412fce141b94de371163a3da8d278e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:28 +0000
Subject: [PATCH 29/33] fix: count the failures exactly in the mass function of
 the binomial distribution

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 4e19d65..c5d4551 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -119,8 +119,8 @@ impl distribution::Discrete for Binomial {
         } else if x > self.n {
             0.0
         } else {
+            let n_m_x = (self.n - x) as f64;
             let x = x as f64;
-            let n_m_x = n - x;
             let ln_c = stirlerr(n)
                 - stirlerr(x)
                 - stirlerr(n_m_x)
-- 
2.43.0


From fa6a6b4944e4ff52dd1e3be88ffcb39351a1933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 30/33] fix: compute the probability of no success or no
 failure from the smaller probability in the binomial distribution

---
 src/distribution/binomial.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index c5d4551..61f3c13 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -74,6 +74,16 @@ impl Binomial {
         self.q
     }
 
+    // Compute the logarithm of the probability that all trials succeed.
+    fn ln_all(&self) -> f64 {
+        self.n as f64 * ln_complement(self.p, self.q)
+    }
+
+    // Compute the logarithm of the probability that all trials fail.
+    fn ln_none(&self) -> f64 {
+        self.n as f64 * ln_complement(self.q, self.p)
+    }
+
     // Find the smallest count whose cumulative probability is at least `p`.
     fn bisect(&self, p: f64) -> usize {
         use distribution::Distribution;
@@ -113,9 +123,9 @@ impl distribution::Discrete for Binomial {
 
         let n = self.n as f64;
         if x == 0 {
-            (n * self.q.ln()).exp()
+            self.ln_none().exp()
         } else if x == self.n {
-            (n * self.p.ln()).exp()
+            self.ln_all().exp()
         } else if x > self.n {
             0.0
         } else {
@@ -143,12 +153,12 @@ impl distribution::Distribution for Binomial {
             return 0.0;
         }
         let x = x as usize;
-        if x == 0 {
-            return self.q.powf(self.n as f64);
-        }
         if x >= self.n {
             return 1.0;
         }
+        if x == 0 {
+            return self.ln_none().exp();
+        }
         let (p, q) = ((self.n - x) as f64, (x + 1) as f64);
         self.q.inc_beta(p, q, p.ln_beta(q))
     }
@@ -384,6 +394,15 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     // + O(v.powf(-2.5)), with probabilty of 1 - 2e-9
 }
 
+// Compute ln(x), where x = 1 - y, without losing a small y.
+fn ln_complement(x: f64, y: f64) -> f64 {
+    if y < 0.5 {
+        (-y).ln_1p()
+    } else {
+        x.ln()
+    }
+}
+
 // ln(np * D₀) = x * ln(x / np) + np - x
 fn ln_d0(x: f64, np: f64) -> f64 {
     if (x - np).abs() < 0.1 * (x + np) {
-- 
2.43.0


From 5f66613f72dc0e03a50960384ce786ef74233640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 31/33] fix: compute the higher moments of Lognormal without
 cancellation

---
 src/distribution/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index adb55d4..1f02d91 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -89,7 +89,7 @@ impl distribution::Kurtosis for Lognormal {
     #[inline]
     fn kurtosis(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (4.0 * s2).exp() + 2.0 * (3.0 * s2).exp() + 3.0 * (2.0 * s2).exp() - 6.0
+        (4.0 * s2).exp_m1() + 2.0 * (3.0 * s2).exp_m1() + 3.0 * (2.0 * s2).exp_m1()
     }
 }
 
@@ -127,8 +127,8 @@ impl distribution::Sample for Lognormal {
 impl distribution::Skewness for Lognormal {
     #[inline]
     fn skewness(&self) -> f64 {
-        let es2 = (self.sigma * self.sigma).exp();
-        (es2 - 1.0).sqrt() * (2.0 + es2)
+        let es2_m1 = (self.sigma * self.sigma).exp_m1();
+        es2_m1.sqrt() * (3.0 + es2_m1)
     }
 }
 
@@ -136,7 +136,7 @@ impl distribution::Variance for Lognormal {
     #[inline]
     fn variance(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (s2.exp() - 1.0) * (2.0 * self.mu + s2).exp()
+        s2.exp_m1() * (2.0 * self.mu + s2).exp()
     }
 }
 
-- 
2.43.0


From 9fdb2282b8a56c7a97ffde2bc0f7924981633353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:45 +0000
Subject: [PATCH 32/33] fix: keep the smaller term of the entropy of Bernoulli

---
 src/distribution/bernoulli.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/distribution/bernoulli.rs b/src/distribution/bernoulli.rs
index d926db0..5d21899 100644
--- a/src/distribution/bernoulli.rs
+++ b/src/distribution/bernoulli.rs
@@ -84,7 +84,9 @@ impl distribution::Distribution for Bernoulli {
 
 impl distribution::Entropy for Bernoulli {
     fn entropy(&self) -> f64 {
-        -self.q * self.q.ln() - self.p * self.p.ln()
+        // The logarithm of the larger probability is the one that loses digits.
+        let (small, large) = (self.p.min(self.q), self.p.max(self.q));
+        -small * small.ln() - large * (-small).ln_1p()
     }
 }
 
-- 
2.43.0


From 29586f0ee7530679d1a8a0d028dc99d0fd4e722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 33/33] fix: compute the shape and variance of Pert from
 differences

---
 src/distribution/pert.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index a522afe..2499984 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -24,8 +24,8 @@ impl Pert {
     pub fn new(a: f64, b: f64, c: f64) -> Self {
         use special::Beta as SpecialBeta;
         should!(a < b && b < c);
-        let alpha = (4.0 * b + c - 5.0 * a) / (c - a);
-        let beta = (5.0 * c - a - 4.0 * b) / (c - a);
+        let alpha = 1.0 + 4.0 * ((b - a) / (c - a));
+        let beta = 1.0 + 4.0 * ((c - b) / (c - a));
         Pert {
             a,
             b,
@@ -170,8 +170,8 @@ impl distribution::Skewness for Pert {
 
 impl distribution::Variance for Pert {
     fn variance(&self) -> f64 {
-        use distribution::Mean;
-        (self.mean() - self.a) * (self.c - self.mean()) / 7.0
+        let scale = self.c - self.a;
+        scale * scale * (self.alpha * self.beta / 252.0)
     }
 }
 
-- 
2.43.0

