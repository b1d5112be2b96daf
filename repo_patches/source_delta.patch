From b76d4ef3cfd5136fb2fd98a789151f1445cf374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 01/86] fix: refuse a zero-length Savitzky-Golay window instead
 of overflowing

SavitzkyGolay::latest worked out WINDOW - 1 before the window length was
checked, so a zero-length window panicked on builds with overflow checks
instead of returning SignalError::WindowTooShort.
---
 crates/multicalc/src/signal_processing/savitzky_golay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/signal_processing/savitzky_golay.rs b/crates/multicalc/src/signal_processing/savitzky_golay.rs
index 018564e..b352fc0 100644
--- a/crates/multicalc/src/signal_processing/savitzky_golay.rs
+++ b/crates/multicalc/src/signal_processing/savitzky_golay.rs
@@ -90,7 +90,7 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
     /// [`SignalError::PolynomialOrderTooHigh`] if there are more terms than samples to fit them,
     /// and [`SignalError::Linalg`] if the fit cannot be worked out.
     pub fn latest(timestep: T) -> Result<Self, SignalError> {
-        Self::build(timestep, WINDOW - 1)
+        Self::build(timestep, WINDOW.saturating_sub(1))
     }
 
     /// Feeds one sample and returns the smoothed value of the window it now sits in.
-- 
2.43.0


From 4f5e7b2f35d157ac2baff17e9ee741f24d45698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 02/86] fix: refuse a NaN diagonal in Cholesky as not positive
 definite

---
 crates/multicalc/src/linear_algebra/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/cholesky.rs b/crates/multicalc/src/linear_algebra/cholesky.rs
index 702922f..19ab02a 100644
--- a/crates/multicalc/src/linear_algebra/cholesky.rs
+++ b/crates/multicalc/src/linear_algebra/cholesky.rs
@@ -47,7 +47,7 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
             for k in 0..j {
                 diag -= lower[(j, k)] * lower[(j, k)];
             }
-            if diag <= T::ZERO {
+            if diag.is_nan() || diag <= T::ZERO {
                 return Err(LinalgError::NotPositiveDefinite);
             }
             let ljj = diag.sqrt();
-- 
2.43.0


From 201d8949d309b9ceef9a7cc3b0665ec45baef602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 03/86] fix: keep the SVD left factor orthonormal when the rank
 is short

---
 crates/multicalc/src/linear_algebra/svd.rs | 42 ++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/svd.rs b/crates/multicalc/src/linear_algebra/svd.rs
index 5f24839..b219dd8 100644
--- a/crates/multicalc/src/linear_algebra/svd.rs
+++ b/crates/multicalc/src/linear_algebra/svd.rs
@@ -163,6 +163,35 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
             }
         }
 
+        // A negligible singular value leaves a left column that is rounding noise, or zero. Bring it
+        // to a right angle with the columns before it, falling back on whichever axis they leave
+        // freest, so the left factor stays orthonormal when the rank is short.
+        for k in 0..N {
+            // Still visible next to the largest one: the rotations have settled this column.
+            if singular_values[0] + singular_values[k] > singular_values[0] {
+                continue;
+            }
+            let mut direction = left.without_earlier_columns(k, |row| left[(row, k)]);
+            if direction.norm_squared() < T::HALF {
+                for axis in 0..M {
+                    let candidate =
+                        left.without_earlier_columns(
+                            k,
+                            |row| {
+                                if row == axis { T::ONE } else { T::ZERO }
+                            },
+                        );
+                    if candidate.norm_squared() > direction.norm_squared() {
+                        direction = candidate;
+                    }
+                }
+            }
+            let direction = direction.normalized();
+            for i in 0..M {
+                left[(i, k)] = direction[i];
+            }
+        }
+
         // Sign convention: the largest-magnitude entry of each left column is positive.
         for k in 0..N {
             let mut row = 0;
@@ -191,6 +220,19 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
         })
     }
 
+    /// A vector with the part along each of the first `count` columns taken out.
+    fn without_earlier_columns(self, count: usize, entry: impl Fn(usize) -> T) -> Vector<M, T> {
+        let mut result = Vector::<M, T>::from_fn(entry);
+        // Twice, so what rounding leaves behind the first time is taken out as well.
+        for _ in 0..2 {
+            for j in 0..count {
+                let column = Vector::<M, T>::from_fn(|row| self[(row, j)]);
+                result -= column * column.dot(result);
+            }
+        }
+        result
+    }
+
     /// The Moore–Penrose pseudo-inverse of `self`, for any shape.
     ///
     /// Tall or square inputs go straight through [`Matrix::svd`]; a wide input (`M < N`) is handled
-- 
2.43.0


From 682e5d6551f9c00fbe3c67e1666f290038d9ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 04/86] fix: report a Riccati equation that never settles

---
 crates/multicalc/src/linear_algebra/riccati.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/riccati.rs b/crates/multicalc/src/linear_algebra/riccati.rs
index 6081080..3226965 100644
--- a/crates/multicalc/src/linear_algebra/riccati.rs
+++ b/crates/multicalc/src/linear_algebra/riccati.rs
@@ -70,7 +70,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
 
     let mut state = a;
     let mut cost = state_cost;
-    let mut passes_taken = MAXIMUM_PASSES;
+    let mut passes_taken = None;
     for pass in 0..MAXIMUM_PASSES {
         let coupling = (Matrix::<N, N, T>::identity() + reach * cost).inverse()?;
         let folded = coupling * state;
@@ -101,11 +101,19 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
         if increment_size <= T::EPSILON_X30 * cost_size.max(T::ONE) {
-            passes_taken = pass + 1;
+            passes_taken = Some(pass + 1);
             break;
         }
     }
 
+    // Out of passes with the cost still growing: judged against so large a cost, the check below
+    // would let it through.
+    let Some(passes_taken) = passes_taken else {
+        return Err(LinalgError::DidNotConverge {
+            iters: MAXIMUM_PASSES,
+        });
+    };
+
     // Put the answer back into the equation and require what is left over to be small.
     let input_weight = input_cost + b.transpose() * cost * b;
     let input_weight_factor = input_weight.cholesky()?;
-- 
2.43.0


From 837cd552dca973823e7846d5c151348bec2bcc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 05/86] fix: check the Lyapunov answer against its equation

---
 crates/multicalc/src/linear_algebra/lyapunov.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/lyapunov.rs b/crates/multicalc/src/linear_algebra/lyapunov.rs
index ea3689e..483077e 100644
--- a/crates/multicalc/src/linear_algebra/lyapunov.rs
+++ b/crates/multicalc/src/linear_algebra/lyapunov.rs
@@ -80,6 +80,13 @@ pub fn solve_discrete_lyapunov<const N: usize, T: Numeric>(
         }
         let settled = increment_size <= T::EPSILON_X30 * total_size.max(T::ONE);
         if settled {
+            // A growing direction the total happens not to weigh can leave the increment at zero
+            // although the series has no sum, so the answer has to satisfy the equation as well.
+            let residual = a.transpose() * total * a - total + state_cost;
+            let allowed = T::EPSILON.sqrt() * total_size.max(T::ONE);
+            if !residual.is_finite() || residual.frobenius_norm() > allowed {
+                return Err(LinalgError::DidNotConverge { iters: pass + 1 });
+            }
             return Ok(total);
         }
         power = power * power;
-- 
2.43.0


From f46941a64e4fe7e9e74ea2d1c3fb7f41cbaa2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 06/86] fix: keep the default tanh finite far from zero

---
 crates/multicalc/src/scalar/numeric.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index 7b7553f..6358e58 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -346,7 +346,11 @@ pub trait Numeric:
     /// Hyperbolic tangent.
     #[inline]
     fn tanh(self) -> Self {
-        self.sinh().safe_div(self.cosh())
+        // A decaying exponential levels off far from zero, where `sinh / cosh` is `inf / inf`.
+        let magnitude = self.abs();
+        let decay = (-(magnitude + magnitude)).expm1();
+        let level = -decay / (decay + Self::TWO);
+        if self < Self::ZERO { -level } else { level }
     }
 
     /// Euclidean distance `√(self² + other²)`, scaled to avoid overflow and underflow.
-- 
2.43.0


From 86471aaa5c63919193e8fb776a245e73b084dc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 07/86] fix: flip the derivative too when copysign copies a
 negative zero

---
 crates/multicalc/src/scalar/dual.rs       |  2 +-
 crates/multicalc/src/scalar/hyper_dual.rs |  2 +-
 crates/multicalc/src/scalar/jet.rs        | 11 ++++++-----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/scalar/dual.rs b/crates/multicalc/src/scalar/dual.rs
index bebd0f5..9267025 100644
--- a/crates/multicalc/src/scalar/dual.rs
+++ b/crates/multicalc/src/scalar/dual.rs
@@ -360,7 +360,7 @@ impl<T: Numeric> Numeric for Dual<T> {
     /// sign when `self` and `sign` disagree; the sign argument carries no derivative.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let same = (self.value < T::ZERO) == (sign.value < T::ZERO);
+        let same = (self.value < T::ZERO) == (T::ONE.copysign(sign.value) < T::ZERO);
         Dual {
             value: self.value.copysign(sign.value),
             deriv: if same { self.deriv } else { -self.deriv },
diff --git a/crates/multicalc/src/scalar/hyper_dual.rs b/crates/multicalc/src/scalar/hyper_dual.rs
index c67551e..88465c0 100644
--- a/crates/multicalc/src/scalar/hyper_dual.rs
+++ b/crates/multicalc/src/scalar/hyper_dual.rs
@@ -443,7 +443,7 @@ impl<T: Numeric> Numeric for HyperDual<T> {
     /// univariate `chain` helper with slope `s` and zero curvature.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.real < T::ZERO) == (sign.real < T::ZERO) {
+        let sign_scale = if (self.real < T::ZERO) == (T::ONE.copysign(sign.real) < T::ZERO) {
             T::ONE
         } else {
             -T::ONE
diff --git a/crates/multicalc/src/scalar/jet.rs b/crates/multicalc/src/scalar/jet.rs
index f5b0b27..7d686d4 100644
--- a/crates/multicalc/src/scalar/jet.rs
+++ b/crates/multicalc/src/scalar/jet.rs
@@ -440,11 +440,12 @@ impl<T: Numeric, const N: usize> Numeric for Jet<T, N> {
     /// scaled by `s = ±1`; the value coefficient is set by `copysign` so signed zero is exact.
     #[inline]
     fn copysign(self, sign: Self) -> Self {
-        let sign_scale = if (self.coeffs[0] < T::ZERO) == (sign.coeffs[0] < T::ZERO) {
-            T::ONE
-        } else {
-            -T::ONE
-        };
+        let sign_scale =
+            if (self.coeffs[0] < T::ZERO) == (T::ONE.copysign(sign.coeffs[0]) < T::ZERO) {
+                T::ONE
+            } else {
+                -T::ONE
+            };
         let mut coeffs = core::array::from_fn(|k| sign_scale * self.coeffs[k]);
         coeffs[0] = self.coeffs[0].copysign(sign.coeffs[0]);
         Jet { coeffs }
-- 
2.43.0


From 1f18ddaa5eb4c6c45a46fcaf685d87d6292a1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 08/86] fix: integrate the 2D flux against the curve's normal

---
 crates/multicalc/src/vector_field/flux_integral.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/vector_field/flux_integral.rs b/crates/multicalc/src/vector_field/flux_integral.rs
index 9c6de36..db5fbf1 100644
--- a/crates/multicalc/src/vector_field/flux_integral.rs
+++ b/crates/multicalc/src/vector_field/flux_integral.rs
@@ -6,6 +6,9 @@ use crate::vector_field::line_integral::{line_integral_partial_2d, line_integral
 
 /// Computes the flux integral of a 2D vector field across a parametrized curve.
 ///
+/// This is `∫ Fx dy - Fy dx`: positive where the field crosses the curve from its left side to its
+/// right side, so outward for a counter-clockwise curve.
+///
 /// The curve is described by a parameter `t`: the transforms map `t` to each coordinate, and
 /// the field is sampled at the resulting curve position. Uses the default iteration count;
 /// see [`flux_integral_2d_custom`] to set it.
@@ -59,18 +62,21 @@ pub fn flux_integral_2d_custom<T: Numeric>(
     integration_limit: &[T; 2],
     total_iterations: u64,
 ) -> Result<T, IntegrateError> {
+    // the outward normal of a counter-clockwise curve is (dy, -dx), so the flux is the integral of
+    // Fx dy - Fy dx: each component runs along the other axis
+    let swapped = [vector_field[1], vector_field[0]];
     Ok(line_integral_partial_2d(
-        vector_field,
+        &swapped,
         transformations,
         integration_limit,
         total_iterations,
-        0,
+        1,
     )? - line_integral_partial_2d(
-        vector_field,
+        &swapped,
         transformations,
         integration_limit,
         total_iterations,
-        1,
+        0,
     )?)
 }
 
-- 
2.43.0


From e27364c13e30520c5148066b7a20c8f2df367355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 09/86] fix: refuse an integral over no limits instead of
 panicking

---
 .../src/numerical_integration/gaussian_integration.rs      | 7 +++++--
 .../src/numerical_integration/iterative_integration.rs     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/numerical_integration/gaussian_integration.rs b/crates/multicalc/src/numerical_integration/gaussian_integration.rs
index 2e36fcf..12c8de8 100644
--- a/crates/multicalc/src/numerical_integration/gaussian_integration.rs
+++ b/crates/multicalc/src/numerical_integration/gaussian_integration.rs
@@ -53,6 +53,9 @@ impl GaussianConfig {
         &self,
         integration_limit: &[[T; 2]; NUM_INTEGRATIONS],
     ) -> Result<(), IntegrateError> {
+        if NUM_INTEGRATIONS == 0 {
+            return Err(IntegrateError::LimitsIllDefined);
+        }
         for limit in integration_limit {
             let limits_ok = match self.integration_method {
                 GaussianQuadratureMethod::GaussLegendre => {
@@ -183,7 +186,7 @@ impl<T: Numeric> IntegratorSingleVariable for GaussianSingle<T> {
     ///
     /// # Errors
     /// [`IntegrateError::QuadratureOrderOutOfRange`] if the configured order is unsupported,
-    /// [`IntegrateError::LimitsIllDefined`] if any limit does not match the method's domain, or
+    /// [`IntegrateError::LimitsIllDefined`] if there are no limits or any limit does not match the method's domain, or
     /// [`IntegrateError::NonFinite`] if a sampled integrand value is infinite or NaN.
     ///
     /// # Examples
@@ -351,7 +354,7 @@ impl<T: Numeric> IntegratorMultiVariable for GaussianMulti<T> {
     ///
     /// # Errors
     /// [`IntegrateError::QuadratureOrderOutOfRange`] if the configured order is unsupported,
-    /// [`IntegrateError::LimitsIllDefined`] if any limit does not match the method's domain,
+    /// [`IntegrateError::LimitsIllDefined`] if there are no limits or any limit does not match the method's domain,
     /// [`IntegrateError::IndexOutOfRange`] if any index is `>= NUM_VARS`, or
     /// [`IntegrateError::NonFinite`] if a sampled integrand value is infinite or NaN.
     ///
diff --git a/crates/multicalc/src/numerical_integration/iterative_integration.rs b/crates/multicalc/src/numerical_integration/iterative_integration.rs
index a8d2872..5b6a954 100644
--- a/crates/multicalc/src/numerical_integration/iterative_integration.rs
+++ b/crates/multicalc/src/numerical_integration/iterative_integration.rs
@@ -67,6 +67,9 @@ impl IterativeConfig {
         if self.total_iterations == 0 {
             return Err(IntegrateError::IterationsZero);
         }
+        if NUM_INTEGRATIONS == 0 {
+            return Err(IntegrateError::LimitsIllDefined);
+        }
 
         for limit in integration_limit {
             classify(limit)?;
@@ -297,7 +300,7 @@ impl<T: Numeric> IntegratorSingleVariable for IterativeSingle<T> {
     ///
     /// # Errors
     /// [`IntegrateError::IterationsZero`] if the configured iteration count is zero,
-    /// [`IntegrateError::LimitsIllDefined`] if any limit is ill-defined, or
+    /// [`IntegrateError::LimitsIllDefined`] if there are no limits or any limit is ill-defined, or
     /// [`IntegrateError::NonFinite`] if a sampled integrand value is infinite or NaN.
     ///
     /// # Examples
@@ -484,7 +487,7 @@ impl<T: Numeric> IntegratorMultiVariable for IterativeMulti<T> {
     ///
     /// # Errors
     /// [`IntegrateError::IterationsZero`] if the configured iteration count is zero,
-    /// [`IntegrateError::LimitsIllDefined`] if any limit is ill-defined,
+    /// [`IntegrateError::LimitsIllDefined`] if there are no limits or any limit is ill-defined,
     /// [`IntegrateError::IndexOutOfRange`] if any index is `>= NUM_VARS`, or
     /// [`IntegrateError::NonFinite`] if a sampled integrand value is infinite or NaN.
     ///
-- 
2.43.0


From a2db704c46d0e2c2195552690cb44d8796288f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 10/86] fix: refuse a field component that does not exist in a
 partial line integral

---
 crates/multicalc/src/vector_field/line_integral.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/vector_field/line_integral.rs b/crates/multicalc/src/vector_field/line_integral.rs
index 79bb42d..c05a29e 100644
--- a/crates/multicalc/src/vector_field/line_integral.rs
+++ b/crates/multicalc/src/vector_field/line_integral.rs
@@ -27,6 +27,9 @@ fn get_partial<T: Numeric, const N: usize>(
     if total_iterations == 0 {
         return Err(IntegrateError::IterationsZero);
     }
+    if idx >= N {
+        return Err(IntegrateError::IndexOutOfRange);
+    }
     // rejects NaN, equal, and reversed limits (partial_cmp is None for NaN)
     if !matches!(
         integration_limit[0].partial_cmp(&integration_limit[1]),
@@ -133,7 +136,8 @@ pub fn line_integral_2d_custom<T: Numeric>(
 /// [`line_integral_2d_custom`] and the flux integral.
 ///
 /// # Errors
-/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
+/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero,
+/// [`IntegrateError::IndexOutOfRange`] if `idx` is not a field component, or
 /// [`IntegrateError::LimitsIllDefined`] if the lower limit is not strictly less than the
 /// upper limit.
 pub fn line_integral_partial_2d<T: Numeric>(
@@ -208,7 +212,8 @@ pub fn line_integral_3d_custom<T: Numeric>(
 /// [`line_integral_3d_custom`] and the flux integral.
 ///
 /// # Errors
-/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero, or
+/// [`IntegrateError::IterationsZero`] if `total_iterations` is zero,
+/// [`IntegrateError::IndexOutOfRange`] if `idx` is not a field component, or
 /// [`IntegrateError::LimitsIllDefined`] if the lower limit is not strictly less than the
 /// upper limit.
 pub fn line_integral_partial_3d<T: Numeric>(
-- 
2.43.0


From 497b6888ae300d257628c459992a795755cdf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 11/86] fix: fix: cubic and quartic roots survive repeats,
 scale and nearly-even quartics

---
 crates/multicalc/src/polynomial/roots.rs | 113 +++++++++++++++--------
 1 file changed, 75 insertions(+), 38 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4ad3109..f228e90 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -196,22 +196,42 @@ impl<T: Numeric> Polynomial<4, T> {
         let four = T::from_f64(4.0);
         let twenty_seven = T::from_f64(27.0);
 
+        // Dividing the leading coefficient out first keeps its powers from overflowing or vanishing.
+        let constant = constant / cubic;
+        let linear = linear / cubic;
+        let quadratic = quadratic / cubic;
+
         // Sliding the curve sideways by this much removes the squared term, leaving something of
         // the form y³ + (a number)·y + (a number), which the formulas below expect.
-        let slide = -quadratic / (three * cubic);
-        let reduced_linear =
-            (three * cubic * linear - quadratic * quadratic) / (three * cubic * cubic);
+        let slide = -quadratic / three;
+        let reduced_linear = linear - quadratic * quadratic / three;
         let reduced_constant = (T::TWO * quadratic * quadratic * quadratic
-            - T::from_f64(9.0) * cubic * quadratic * linear
-            + twenty_seven * cubic * cubic * constant)
-            / (twenty_seven * cubic * cubic * cubic);
+            - T::from_f64(9.0) * quadratic * linear
+            + twenty_seven * constant)
+            / twenty_seven;
+
+        // What rounding can leave behind in each of those two numbers, and in the discriminant that
+        // tells one real root from three. A repeated root makes them exactly zero, so anything this
+        // small has to count as zero or the repeated root would go missing.
+        let rounding = T::from_f64(8.0) * T::EPSILON;
+        let linear_rounding = rounding * (linear.abs() + three * slide * slide);
+        let constant_rounding = rounding
+            * (T::TWO * (slide * slide * slide).abs() + (slide * linear).abs() + constant.abs());
+        let discriminant =
+            four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant;
+        let discriminant_rounding =
+            T::from_f64(12.0) * reduced_linear * reduced_linear * linear_rounding
+                + T::from_f64(54.0) * reduced_constant.abs() * constant_rounding;
 
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        if reduced_linear.abs() <= linear_rounding && reduced_constant.abs() <= constant_rounding {
+            // All three roots sit in the same place.
+            for _ in 0..3 {
+                roots.push(slide);
+            }
+        } else if reduced_linear == T::ZERO {
             roots.push((-reduced_constant).cbrt() + slide);
-        } else if four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant
-            <= T::ZERO
-        {
+        } else if reduced_linear < T::ZERO && discriminant <= discriminant_rounding {
             // All three roots are real, and they sit a third of a turn apart on a circle, so one
             // angle gives all of them.
             let radius = T::TWO * (-reduced_linear / three).sqrt();
@@ -262,33 +282,26 @@ impl<T: Numeric> Polynomial<5, T> {
         let eight = T::from_f64(8.0);
         let two_hundred_fifty_six = T::from_f64(256.0);
 
+        // Dividing the leading coefficient out first keeps its powers from overflowing or vanishing.
+        let constant = constant / quartic;
+        let linear = linear / quartic;
+        let quadratic = quadratic / quartic;
+        let cubic = cubic / quartic;
+
         // As with the cubic, sliding sideways removes the cubed term, leaving only y⁴, y², y and a
         // number.
-        let slide = -cubic / (four * quartic);
-        let reduced_quadratic =
-            (eight * quartic * quadratic - T::THREE * cubic * cubic) / (eight * quartic * quartic);
-        let reduced_linear = (cubic * cubic * cubic - four * quartic * cubic * quadratic
-            + eight * quartic * quartic * linear)
-            / (eight * quartic * quartic * quartic);
-        let reduced_constant = (-T::THREE * cubic.powi(4)
-            + two_hundred_fifty_six * quartic.powi(3) * constant
-            - T::from_f64(64.0) * quartic * quartic * cubic * linear
-            + T::from_f64(16.0) * quartic * cubic * cubic * quadratic)
-            / (two_hundred_fifty_six * quartic.powi(4));
+        let slide = -cubic / four;
+        let reduced_quadratic = (eight * quadratic - T::THREE * cubic * cubic) / eight;
+        let reduced_linear =
+            (cubic * cubic * cubic - four * cubic * quadratic + eight * linear) / eight;
+        let reduced_constant = (-T::THREE * cubic.powi(4) + two_hundred_fifty_six * constant
+            - T::from_f64(64.0) * cubic * linear
+            + T::from_f64(16.0) * cubic * cubic * quadratic)
+            / two_hundred_fifty_six;
 
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
-            // Only even powers are left, so solve for y² and take both square roots of each answer.
-            let squares = Polynomial::<3, T>::new([reduced_constant, reduced_quadratic, T::ONE])
-                .real_roots()?;
-            for square in squares.as_slice() {
-                if *square >= T::ZERO {
-                    let root = square.sqrt();
-                    roots.push(root + slide);
-                    roots.push(-root + slide);
-                }
-            }
-        } else {
+        let mut largest = T::ZERO;
+        if reduced_linear != T::ZERO {
             // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
             // coefficient is negative, so it always has a positive root, and the largest root is
             // the one that works.
@@ -297,14 +310,27 @@ impl<T: Numeric> Polynomial<5, T> {
                 T::TWO * reduced_quadratic * reduced_quadratic - eight * reduced_constant,
                 eight * reduced_quadratic,
                 eight,
-            ])
-            .real_roots()?;
-            let largest = helper.as_slice().last().copied().unwrap_or(T::ZERO);
-
+            ]);
+            largest = helper
+                .real_roots()?
+                .as_slice()
+                .last()
+                .copied()
+                .unwrap_or(T::ZERO);
+            // A root much smaller than the helper's coefficients comes back with few good digits,
+            // so close in on it. A step that makes things worse means there was nothing to gain.
+            for _ in 0..3 {
+                let [value, slope] = helper.evaluate_with_derivatives::<2>(largest);
+                let closer = largest - value / slope;
+                if slope > T::ZERO && helper.evaluate(closer).abs() < value.abs() {
+                    largest = closer;
+                }
+            }
+        }
+        if largest > T::ZERO {
             let separation = (T::TWO * largest).sqrt();
             let shared = reduced_quadratic * T::HALF + largest;
             let apart = reduced_linear / (T::TWO * separation);
-
             for factor in [
                 Polynomial::<3, T>::new([shared + apart, -separation, T::ONE]),
                 Polynomial::<3, T>::new([shared - apart, separation, T::ONE]),
@@ -314,6 +340,17 @@ impl<T: Numeric> Polynomial<5, T> {
                     roots.push(*root + slide);
                 }
             }
+        } else {
+            // Only even powers are left, so solve for y² and take both square roots of each answer.
+            let squares = Polynomial::<3, T>::new([reduced_constant, reduced_quadratic, T::ONE])
+                .real_roots()?;
+            for square in squares.as_slice() {
+                if *square >= T::ZERO {
+                    let root = square.sqrt();
+                    roots.push(root + slide);
+                    roots.push(-root + slide);
+                }
+            }
         }
         roots.sort_ascending();
         Ok(roots)
-- 
2.43.0


From 16809b19b335a6d7574f87050267e62c2850ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 12/86] fix: fix: counting and finding roots by sign changes
 handles repeated roots

---
 crates/multicalc/src/polynomial/roots.rs | 191 +++++++++++++++++------
 1 file changed, 141 insertions(+), 50 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index f228e90..b11b85d 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -357,38 +357,151 @@ impl<T: Numeric> Polynomial<5, T> {
     }
 }
 
-/// What is left of `dividend` after taking out as many copies of `divisor` as fit.
+/// A polynomial along with how far rounding may have moved each of its coefficients.
+#[derive(Clone, Copy)]
+struct Tracked<const COEFFICIENT_COUNT: usize, T: Numeric> {
+    coefficients: [T; COEFFICIENT_COUNT],
+    rounding: [T; COEFFICIENT_COUNT],
+}
+
+impl<const COEFFICIENT_COUNT: usize, T: Numeric> Tracked<COEFFICIENT_COUNT, T> {
+    /// A polynomial whose coefficients are taken as they are.
+    fn exact(polynomial: &Polynomial<COEFFICIENT_COUNT, T>) -> Self {
+        Self {
+            coefficients: *polynomial.coefficients(),
+            rounding: [T::ZERO; COEFFICIENT_COUNT],
+        }
+    }
+
+    /// The coefficient at `power` and how far off it may be.
+    fn at(&self, power: usize) -> (T, T) {
+        (
+            self.coefficients.get(power).copied().unwrap_or(T::ZERO),
+            self.rounding.get(power).copied().unwrap_or(T::ZERO),
+        )
+    }
+
+    /// Adds `change` to the coefficient at `power`, which may itself be off by `change_rounding`.
+    fn add(&mut self, power: usize, change: T, change_rounding: T) {
+        if let (Some(coefficient), Some(rounding)) = (
+            self.coefficients.get_mut(power),
+            self.rounding.get_mut(power),
+        ) {
+            *coefficient += change;
+            *rounding += change_rounding + T::EPSILON * (change.abs() + coefficient.abs());
+        }
+    }
+
+    /// The polynomial, with every coefficient that may be nothing but rounding set to zero.
+    fn settle(mut self) -> (Polynomial<COEFFICIENT_COUNT, T>, Self) {
+        for (coefficient, rounding) in self.coefficients.iter_mut().zip(self.rounding.iter()) {
+            if coefficient.abs() <= *rounding {
+                *coefficient = T::ZERO;
+            }
+        }
+        (Polynomial::new(self.coefficients), self)
+    }
+}
+
+/// How many copies of `divisor` fit in `dividend`, and what is left after taking them out.
 ///
-/// Both sides and the answer are the same size, which is what lets a whole chain of these sit in
-/// one array. The answer's coefficients at and above the divisor's degree are zero.
-fn remainder<const COEFFICIENT_COUNT: usize, T: Numeric>(
-    dividend: &Polynomial<COEFFICIENT_COUNT, T>,
-    divisor: &Polynomial<COEFFICIENT_COUNT, T>,
-) -> Option<Polynomial<COEFFICIENT_COUNT, T>> {
-    let divisor_degree = divisor.degree()?;
-    let divisor_highest = divisor.coefficient(divisor_degree)?;
-
-    let mut working = *dividend.coefficients();
+/// All of them are the same size, which is what lets a whole chain of these sit in one array. The
+/// remainder's coefficients at and above the divisor's degree are zero.
+fn divide_tracked<const COEFFICIENT_COUNT: usize, T: Numeric>(
+    dividend: &Tracked<COEFFICIENT_COUNT, T>,
+    divisor: &Tracked<COEFFICIENT_COUNT, T>,
+) -> Option<(Tracked<COEFFICIENT_COUNT, T>, Tracked<COEFFICIENT_COUNT, T>)> {
+    let divisor_degree = Polynomial::new(divisor.coefficients).degree()?;
+    let (divisor_highest, divisor_highest_rounding) = divisor.at(divisor_degree);
+
+    let mut quotient = Tracked::exact(&Polynomial::zeros());
+    let mut working = *dividend;
     let mut power = COEFFICIENT_COUNT;
     while power > divisor_degree {
         power -= 1;
-        let highest = working.get(power).copied().unwrap_or(T::ZERO);
+        let (highest, highest_rounding) = working.at(power);
         if highest == T::ZERO {
             continue;
         }
         let share = highest / divisor_highest;
+        let share_rounding = (highest_rounding + share.abs() * divisor_highest_rounding)
+            / divisor_highest.abs()
+            + T::EPSILON * share.abs();
         let offset = power - divisor_degree;
-        for (divisor_power, divisor_coefficient) in divisor.coefficients().iter().enumerate() {
-            if let Some(slot) = working.get_mut(offset + divisor_power) {
-                *slot -= share * *divisor_coefficient;
-            }
+        quotient.add(offset, share, share_rounding);
+        for divisor_power in 0..divisor_degree {
+            let (coefficient, rounding) = divisor.at(divisor_power);
+            working.add(
+                offset + divisor_power,
+                -share * coefficient,
+                share_rounding * coefficient.abs() + share.abs() * rounding,
+            );
         }
-        // The subtraction is meant to clear this power exactly; rounding can leave a speck.
-        if let Some(slot) = working.get_mut(power) {
-            *slot = T::ZERO;
+        // The subtraction is meant to clear this power exactly.
+        if let (Some(coefficient), Some(rounding)) = (
+            working.coefficients.get_mut(power),
+            working.rounding.get_mut(power),
+        ) {
+            *coefficient = T::ZERO;
+            *rounding = T::ZERO;
         }
     }
-    Some(Polynomial::new(working))
+    Some((quotient, working))
+}
+
+/// The chain of polynomials whose sign changes count the roots of `first`, how many there are, and
+/// the last of them.
+fn chain_from<const COEFFICIENT_COUNT: usize, T: Numeric>(
+    first: &Tracked<COEFFICIENT_COUNT, T>,
+) -> (
+    [Polynomial<COEFFICIENT_COUNT, T>; COEFFICIENT_COUNT],
+    usize,
+    Tracked<COEFFICIENT_COUNT, T>,
+) {
+    let mut chain = [Polynomial::<COEFFICIENT_COUNT, T>::zeros(); COEFFICIENT_COUNT];
+    let (polynomial, mut current) = first.settle();
+    let mut length = 0;
+    // The polynomial itself starts the chain.
+    if let Some(slot) = chain.get_mut(0) {
+        *slot = polynomial;
+        length = 1;
+    }
+    // Its derivative comes next, unless it is a flat line with nothing to differentiate.
+    if polynomial.degree().unwrap_or(0) == 0 {
+        return (chain, length, current);
+    }
+    let mut previous = current;
+    let derivative = polynomial.derivative();
+    current = Tracked::exact(&derivative);
+    for (power, slot) in current.rounding.iter_mut().enumerate() {
+        *slot = previous.at(power + 1).1 * T::from_usize(power + 1)
+            + T::EPSILON * derivative.coefficient(power).unwrap_or(T::ZERO).abs();
+    }
+    if let Some(slot) = chain.get_mut(1) {
+        *slot = derivative;
+        length = 2;
+    }
+
+    while length < COEFFICIENT_COUNT {
+        // Each new entry is what is left over from dividing the two before it, with the sign
+        // turned around.
+        let Some((_, left)) = divide_tracked(&previous, &current) else {
+            break;
+        };
+        let (next, mut left) = left.settle();
+        // Nothing left over means the chain is finished.
+        if next.is_zero() {
+            break;
+        }
+        left.coefficients = *(-next).coefficients();
+        if let Some(slot) = chain.get_mut(length) {
+            *slot = -next;
+        }
+        length += 1;
+        previous = current;
+        current = left;
+    }
+    (chain, length, current)
 }
 
 /// Adds a range to the waiting list, when there is still room for one.
@@ -469,37 +582,15 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             .degree()
             .ok_or(PolynomialError::LeadingCoefficientZero)?;
 
-        let mut chain = [Polynomial::<COEFFICIENT_COUNT, T>::zeros(); COEFFICIENT_COUNT];
-        let mut length = 0;
-        // The polynomial itself starts the chain.
-        if let Some(slot) = chain.get_mut(0) {
-            *slot = *self;
-            length = 1;
-        }
-        // Its derivative comes next, unless it is a flat line with nothing to differentiate.
-        if degree >= 1 {
-            if let Some(slot) = chain.get_mut(1) {
-                *slot = self.derivative();
-                length = 2;
-            }
-        }
-
-        while length < COEFFICIENT_COUNT {
-            // Each new entry is what is left over from dividing the two before it, with the sign
-            // turned around.
-            let previous = chain.get(length - 2).copied().unwrap_or_default();
-            let current = chain.get(length - 1).copied().unwrap_or_default();
-            let Some(next) = remainder(&previous, &current) else {
-                break;
-            };
-            // Nothing left over means the chain is finished.
-            if next.is_zero() {
-                break;
-            }
-            if let Some(slot) = chain.get_mut(length) {
-                *slot = -next;
+        let whole = Tracked::exact(self);
+        let (chain, length, last) = chain_from(&whole);
+        // The last entry holds every repeated root, one time fewer. Dividing it out leaves each root
+        // once, and near a root that is there only once the signs can be trusted.
+        if degree >= 1 && Polynomial::new(last.coefficients).degree() != Some(0) {
+            if let Some((single, _)) = divide_tracked(&whole, &last) {
+                let (chain, length, _) = chain_from(&single);
+                return Ok((chain, length));
             }
-            length += 1;
         }
         Ok((chain, length))
     }
-- 
2.43.0


From 2e174cee6075a2d3602a1b2f3337c29d6239d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 13/86] fix: fix: closed form roots keep their digits and their
 derivatives when a reduced term vanishes

---
 crates/multicalc/src/polynomial/roots.rs | 29 ++++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index b11b85d..640c73a 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -229,8 +229,6 @@ impl<T: Numeric> Polynomial<4, T> {
             for _ in 0..3 {
                 roots.push(slide);
             }
-        } else if reduced_linear == T::ZERO {
-            roots.push((-reduced_constant).cbrt() + slide);
         } else if reduced_linear < T::ZERO && discriminant <= discriminant_rounding {
             // All three roots are real, and they sit a third of a turn apart on a circle, so one
             // angle gives all of them.
@@ -245,12 +243,15 @@ impl<T: Numeric> Polynomial<4, T> {
                 roots.push(radius * (angle / three - turn).cos() + slide);
             }
         } else {
-            // One real root, from the sum of two cube roots.
+            // One real root, from the sum of two cube roots. Their product is known, so only the
+            // one that adds two like-signed numbers is taken; the other would lose its digits to
+            // cancellation.
             let half_constant = -reduced_constant * T::HALF;
             let spread = (reduced_constant * reduced_constant / four
                 + reduced_linear.powi(3) / twenty_seven)
                 .sqrt();
-            roots.push((half_constant + spread).cbrt() + (half_constant - spread).cbrt() + slide);
+            let cube_root = (half_constant + spread.copysign(half_constant)).cbrt();
+            roots.push(cube_root - reduced_linear / (three * cube_root) + slide);
         }
         roots.sort_ascending();
         Ok(roots)
@@ -300,8 +301,14 @@ impl<T: Numeric> Polynomial<5, T> {
             / two_hundred_fifty_six;
 
         let mut roots = RealRoots::new();
+        // About how large the roots are, once slid. An odd term smaller than this shows is lost in
+        // rounding next to the even ones, and its square could vanish altogether.
+        let size = reduced_quadratic
+            .abs()
+            .sqrt()
+            .max(reduced_constant.abs().sqrt().sqrt());
         let mut largest = T::ZERO;
-        if reduced_linear != T::ZERO {
+        if reduced_linear.abs() > T::EPSILON * size * size * size {
             // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
             // coefficient is negative, so it always has a positive root, and the largest root is
             // the one that works.
@@ -347,8 +354,16 @@ impl<T: Numeric> Polynomial<5, T> {
             for square in squares.as_slice() {
                 if *square >= T::ZERO {
                     let root = square.sqrt();
-                    roots.push(root + slide);
-                    roots.push(-root + slide);
+                    // How far the odd term moves each root. It is next to nothing here, but its
+                    // derivative need not be.
+                    let slope = four * *square + T::TWO * reduced_quadratic;
+                    let moved = if slope.abs() * size * T::EPSILON.sqrt() > reduced_linear.abs() {
+                        reduced_linear / slope
+                    } else {
+                        T::ZERO
+                    };
+                    roots.push(root - moved + slide);
+                    roots.push(-root - moved + slide);
                 }
             }
         }
-- 
2.43.0


From 0bbedf8df1d0db1586f65634b6ddee1d84375eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 14/86] fix: fix: a small remainder is only dropped from the
 root count when it really divides

---
 crates/multicalc/src/polynomial/roots.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 640c73a..f7d2ca0 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -466,8 +466,11 @@ fn divide_tracked<const COEFFICIENT_COUNT: usize, T: Numeric>(
 
 /// The chain of polynomials whose sign changes count the roots of `first`, how many there are, and
 /// the last of them.
+///
+/// With `settling`, whatever may be nothing but rounding is left out of the chain.
 fn chain_from<const COEFFICIENT_COUNT: usize, T: Numeric>(
     first: &Tracked<COEFFICIENT_COUNT, T>,
+    settling: bool,
 ) -> (
     [Polynomial<COEFFICIENT_COUNT, T>; COEFFICIENT_COUNT],
     usize,
@@ -503,7 +506,11 @@ fn chain_from<const COEFFICIENT_COUNT: usize, T: Numeric>(
         let Some((_, left)) = divide_tracked(&previous, &current) else {
             break;
         };
-        let (next, mut left) = left.settle();
+        let (next, mut left) = if settling {
+            left.settle()
+        } else {
+            (Polynomial::new(left.coefficients), left)
+        };
         // Nothing left over means the chain is finished.
         if next.is_zero() {
             break;
@@ -598,14 +605,16 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             .ok_or(PolynomialError::LeadingCoefficientZero)?;
 
         let whole = Tracked::exact(self);
-        let (chain, length, last) = chain_from(&whole);
+        let (chain, length, last) = chain_from(&whole, true);
         // The last entry holds every repeated root, one time fewer. Dividing it out leaves each root
         // once, and near a root that is there only once the signs can be trusted.
         if degree >= 1 && Polynomial::new(last.coefficients).degree() != Some(0) {
-            if let Some((single, _)) = divide_tracked(&whole, &last) {
-                let (chain, length, _) = chain_from(&single);
-                return Ok((chain, length));
-            }
+            let (chain, length, _) = match divide_tracked(&whole, &last) {
+                Some((single, left)) if left.settle().0.is_zero() => chain_from(&single, true),
+                // It does not divide after all, so what looked like rounding was a real remainder.
+                _ => chain_from(&whole, false),
+            };
+            return Ok((chain, length));
         }
         Ok((chain, length))
     }
-- 
2.43.0


From f2851cb50c56ecbd945a1c58fbdda617259d7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 15/86] fix: Bisection and Brent on brackets too wide for their
 width, or infinite

---
 crates/multicalc/src/root_finding/bisection.rs | 13 +++++++------
 crates/multicalc/src/root_finding/brent.rs     |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/multicalc/src/root_finding/bisection.rs b/crates/multicalc/src/root_finding/bisection.rs
index 171febe..b0e16f3 100644
--- a/crates/multicalc/src/root_finding/bisection.rs
+++ b/crates/multicalc/src/root_finding/bisection.rs
@@ -80,14 +80,14 @@ impl<T: Numeric> Bisection<T> {
     /// Finds a root of `f` in the bracket `[a, b]`.
     ///
     /// Returns the root estimate and termination reason, or an error:
-    /// [`NonFinite`](SolveError::NonFinite) if `f` returns a non-finite value,
+    /// [`NonFinite`](SolveError::NonFinite) if an endpoint is, or `f` returns, a non-finite value,
     /// [`InvalidBracket`](SolveError::InvalidBracket) if `f(a)` and `f(b)` share a sign, or
     /// [`DidNotConverge`](SolveError::DidNotConverge) if the budget is exhausted.
     pub fn solve<F: ScalarFn>(&self, f: &F, a: T, b: T) -> Result<RootReport<T>, SolveError> {
         let value_a = f.eval(a);
         let value_b = f.eval(b);
 
-        if !value_a.is_finite() || !value_b.is_finite() {
+        if ![a, b, value_a, value_b].iter().all(|x| x.is_finite()) {
             return Err(SolveError::NonFinite);
         }
         if value_a == T::ZERO {
@@ -110,8 +110,8 @@ impl<T: Numeric> Bisection<T> {
             return Err(SolveError::InvalidBracket);
         }
 
-        // Order so lower < upper numerically; the midpoint formula lower + (upper - lower)/2 then
-        // always lands strictly inside the interval.
+        // Order so lower < upper numerically; the midpoint formula lower + (upper/2 - lower/2) then
+        // always lands strictly inside the interval, even when upper - lower would overflow.
         let (mut lower, mut value_lower, mut upper) = if a <= b {
             (a, value_a, b)
         } else {
@@ -119,7 +119,8 @@ impl<T: Numeric> Bisection<T> {
         };
 
         for iter in 1..=self.max_iterations {
-            let mid = lower + (upper - lower) * T::HALF;
+            let half_width = upper * T::HALF - lower * T::HALF;
+            let mid = lower + half_width;
             let fmid = f.eval(mid);
             if !fmid.is_finite() {
                 return Err(SolveError::NonFinite);
@@ -132,7 +133,7 @@ impl<T: Numeric> Bisection<T> {
                     termination: RootTermination::ResidualTolerance,
                 });
             }
-            if (upper - lower) <= self.xtol * (T::ONE + mid.abs()) {
+            if half_width <= self.xtol * T::HALF * (T::ONE + mid.abs()) {
                 return Ok(RootReport {
                     root: mid,
                     residual: fmid,
diff --git a/crates/multicalc/src/root_finding/brent.rs b/crates/multicalc/src/root_finding/brent.rs
index 1d0d8af..c90cf12 100644
--- a/crates/multicalc/src/root_finding/brent.rs
+++ b/crates/multicalc/src/root_finding/brent.rs
@@ -79,14 +79,14 @@ impl<T: Numeric> Brent<T> {
     /// Finds a root of `f` in the bracket `[a, b]`.
     ///
     /// Returns the root estimate and termination reason, or an error:
-    /// [`NonFinite`](SolveError::NonFinite) if `f` returns a non-finite value,
+    /// [`NonFinite`](SolveError::NonFinite) if an endpoint is, or `f` returns, a non-finite value,
     /// [`InvalidBracket`](SolveError::InvalidBracket) if `f(a)` and `f(b)` share a sign, or
     /// [`DidNotConverge`](SolveError::DidNotConverge) if the budget is exhausted.
     pub fn solve<F: ScalarFn>(&self, f: &F, a: T, b: T) -> Result<RootReport<T>, SolveError> {
         let mut f_at_a = f.eval(a);
         let mut f_at_b = f.eval(b);
 
-        if !f_at_a.is_finite() || !f_at_b.is_finite() {
+        if ![a, b, f_at_a, f_at_b].iter().all(|x| x.is_finite()) {
             return Err(SolveError::NonFinite);
         }
         if f_at_a == T::ZERO {
-- 
2.43.0


From a1bad71cfb93ae337521eed28ded6265ce5959fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 16/86] fix: Newton solvers reporting an infinite root as
 converged

---
 crates/multicalc/src/root_finding/newton.rs        | 10 ++++++----
 crates/multicalc/src/root_finding/newton_system.rs |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/root_finding/newton.rs b/crates/multicalc/src/root_finding/newton.rs
index 77cd188..f04e333 100644
--- a/crates/multicalc/src/root_finding/newton.rs
+++ b/crates/multicalc/src/root_finding/newton.rs
@@ -118,7 +118,7 @@ impl<D: DerivatorSingleVariable> Newton<D> {
     /// Finds a root of `f` starting from `x0`.
     ///
     /// Returns the root estimate and termination reason, or an error:
-    /// [`NonFinite`](SolveError::NonFinite) if `f` or its derivative is non-finite,
+    /// [`NonFinite`](SolveError::NonFinite) if an iterate, `f` or its derivative is non-finite,
     /// [`Linalg`](SolveError::Linalg) wrapping [`Singular`](LinalgError::Singular) if the derivative
     /// is zero, or [`DidNotConverge`](SolveError::DidNotConverge) if the budget is exhausted.
     pub fn solve<F: ScalarFn>(
@@ -162,14 +162,16 @@ impl<D: DerivatorSingleVariable> Newton<D> {
             let (x_new, residual_new) = loop {
                 let candidate = x - alpha * step;
                 let trial = f.eval(candidate);
+                // A function that levels off stays finite where the step overflowed.
+                let usable = candidate.is_finite() && trial.is_finite();
                 if !self.backtracking {
-                    if !trial.is_finite() {
+                    if !usable {
                         return Err(SolveError::NonFinite);
                     }
                     break (candidate, trial);
                 }
-                if (trial.is_finite() && trial.abs() < residual.abs()) || tries >= MAX_BACKTRACK {
-                    if !trial.is_finite() {
+                if (usable && trial.abs() < residual.abs()) || tries >= MAX_BACKTRACK {
+                    if !usable {
                         return Err(SolveError::NonFinite);
                     }
                     break (candidate, trial);
diff --git a/crates/multicalc/src/root_finding/newton_system.rs b/crates/multicalc/src/root_finding/newton_system.rs
index 0744024..60b087d 100644
--- a/crates/multicalc/src/root_finding/newton_system.rs
+++ b/crates/multicalc/src/root_finding/newton_system.rs
@@ -117,7 +117,7 @@ impl<D: DerivatorMultiVariable> NewtonSystem<D> {
     /// Finds a root of the square system `F` starting from `x0`.
     ///
     /// Returns the root estimate and termination reason, or an error:
-    /// [`NonFinite`](SolveError::NonFinite) if `F` or its Jacobian is non-finite,
+    /// [`NonFinite`](SolveError::NonFinite) if an iterate, `F` or its Jacobian is non-finite,
     /// [`Linalg`](SolveError::Linalg) wrapping [`Singular`](crate::error::LinalgError::Singular) if
     /// the Jacobian is singular at a step, or [`DidNotConverge`](SolveError::DidNotConverge) if the
     /// budget is exhausted.
@@ -170,7 +170,8 @@ impl<D: DerivatorMultiVariable> NewtonSystem<D> {
                 let candidate: [D::Scalar; N] =
                     core::array::from_fn(|k| x[k] + alpha * step_arr[k]);
                 let trial = f.eval(&candidate);
-                let trial_finite = all_finite(&trial);
+                // A function that levels off stays finite where the step overflowed.
+                let trial_finite = all_finite(&candidate) && all_finite(&trial);
                 let trial_fnorm = if trial_finite {
                     enorm(&trial)
                 } else {
-- 
2.43.0


From 242c429eabd770389400a191ad21573bd90514b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 17/86] fix: Least squares circling in the subnormals at a zero
 minimum

---
 crates/multicalc/src/optimization/gauss_newton.rs        | 4 ++--
 crates/multicalc/src/optimization/levenberg_marquardt.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/optimization/gauss_newton.rs b/crates/multicalc/src/optimization/gauss_newton.rs
index 1577141..b766602 100644
--- a/crates/multicalc/src/optimization/gauss_newton.rs
+++ b/crates/multicalc/src/optimization/gauss_newton.rs
@@ -155,8 +155,8 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
             }
             let pivoted_qr = PivotedQr::decompose(j)?;
 
-            // Already at a perfect fit.
-            if fnorm == zero {
+            // Already at a perfect fit: a subnormal residual has no digits left to reduce.
+            if fnorm < D::Scalar::MIN_POSITIVE {
                 return Ok(report(x, fnorm, evaluations, TerminationReason::Gtol));
             }
 
diff --git a/crates/multicalc/src/optimization/levenberg_marquardt.rs b/crates/multicalc/src/optimization/levenberg_marquardt.rs
index e1ef9ab..63d62a1 100644
--- a/crates/multicalc/src/optimization/levenberg_marquardt.rs
+++ b/crates/multicalc/src/optimization/levenberg_marquardt.rs
@@ -185,8 +185,8 @@ impl<D: DerivatorMultiVariable> LevenbergMarquardt<D> {
                 }
             }
 
-            // Gradient convergence test.
-            if dls.max_a_t_b_scaled(fnorm) <= self.gtol {
+            // Gradient convergence test; a subnormal residual has no digits left to reduce.
+            if fnorm < D::Scalar::MIN_POSITIVE || dls.max_a_t_b_scaled(fnorm) <= self.gtol {
                 return Ok(report(x, fnorm, evaluations, TerminationReason::Gtol));
             }
 
-- 
2.43.0


From 8169a9fd52e2f4a1b1ad47e850e660752bc9fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 18/86] fix: GaussNewton taking an overflowed gradient for a
 vanishing one

---
 crates/multicalc/src/optimization/gauss_newton.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/optimization/gauss_newton.rs b/crates/multicalc/src/optimization/gauss_newton.rs
index b766602..fb9cfc9 100644
--- a/crates/multicalc/src/optimization/gauss_newton.rs
+++ b/crates/multicalc/src/optimization/gauss_newton.rs
@@ -161,12 +161,13 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
             }
 
             // Gradient convergence: max over columns of |(Jᵀr)_c| / (fnorm · ‖columnₙ‖).
-            let gradient = j.transpose() * Vector::new(residuals);
+            // The residuals are scaled first: the products of large ones would overflow.
+            let gradient = j.transpose() * Vector::new(residuals.map(|r| r / fnorm));
             let grad = *gradient.as_array();
             let mut gnorm = zero;
             for (col, &column_norm) in pivoted_qr.column_norms.iter().enumerate() {
                 if column_norm != zero {
-                    gnorm = max(gnorm, (grad[col] / (fnorm * column_norm)).abs());
+                    gnorm = max(gnorm, (grad[col] / column_norm).abs());
                 }
             }
             if gnorm <= self.gtol {
-- 
2.43.0


From 79a759e75b261c383816aac168610bc5f8c82264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 19/86] fix: Rk45 refusing a grid whose last time its steps
 miss by a rounding error

---
 crates/multicalc/src/ode/rk45.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 3438892..fc2ef4f 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -366,8 +366,14 @@ impl<T: Numeric> Rk45<T> {
             if accept {
                 // Kahan-compensated time += h.
                 let delta = h - kahan_c;
-                let tnew = time + delta;
+                let mut tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
+                // The last step ends at time_final itself, not a rounding error short of it.
+                let finished =
+                    (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs());
+                if finished {
+                    tnew = time_final;
+                }
                 let step = Step {
                     time_start: time,
                     time_end: tnew,
@@ -380,7 +386,7 @@ impl<T: Numeric> Rk45<T> {
                 time = tnew;
                 y = state5;
                 stage1 = stage7; // FSAL
-                if (time_final - time).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                if finished {
                     return Ok(y);
                 }
             }
-- 
2.43.0


From e96bf2338f4cee03a488f07bfe79eb0ac1eedcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 20/86] fix: Rk45 sampling an unsorted or out-of-range grid
 inside one step

---
 crates/multicalc/src/ode/rk45.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index fc2ef4f..5f2ed74 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -466,6 +466,20 @@ impl<T: Numeric> Rk45<T> {
             return Ok(());
         }
         let time_final = times[times.len() - 1];
+        // Every time must lie between its predecessor and the final one. Checked up front: two times
+        // inside one accepted step would otherwise be sampled in any order.
+        let mut earliest = time_start;
+        for &time_query in times {
+            let ordered = if time_final >= time_start {
+                earliest <= time_query && time_query <= time_final
+            } else {
+                earliest >= time_query && time_query >= time_final
+            };
+            if !ordered {
+                return Err(IntegrateError::LimitsIllDefined);
+            }
+            earliest = time_query;
+        }
         let mut next = 0usize;
         let _ = self.for_each_step(f, time_start, state_start, time_final, |step| {
             // Consume every requested time that falls in this accepted step (times are sorted).
-- 
2.43.0


From 2d4a910d06166a4e97fc81238e29a68dd8c6b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 21/86] fix: Rk45 dense output of a step below the clock's
 resolution

---
 crates/multicalc/src/ode/rk45.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 5f2ed74..f64a09e 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -27,6 +27,10 @@ impl<const N: usize, T: Numeric> Step<N, T> {
     /// and `state_end` at `time_end` exactly.
     pub fn interpolate(&self, time: T) -> Vector<N, T> {
         let h = self.time_end - self.time_start;
+        if h == T::ZERO {
+            // A step below the resolution of `time`: the two states differ by no more than rounding.
+            return self.state_end;
+        }
         let frac = (time - self.time_start) / h; // normalized position in [0, 1]
         let frac2 = frac * frac;
         let frac3 = frac2 * frac;
-- 
2.43.0


From 15446cc23c533fccfd4e2cdd36904d5ca6abc9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 22/86] fix: from_two_vectors stays unit for directions a tiny
 tilt from opposite

---
 crates/multicalc/src/spatial/quaternion.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/spatial/quaternion.rs b/crates/multicalc/src/spatial/quaternion.rs
index 656acb2..ffca12b 100644
--- a/crates/multicalc/src/spatial/quaternion.rs
+++ b/crates/multicalc/src/spatial/quaternion.rs
@@ -375,15 +375,14 @@ impl<T: Numeric> Quaternion<T> {
         // accuracy at `eps/delta^2` for a separation `delta` from `pi`, while the components of `a + b`
         // each keep theirs to `eps/delta`.
         let h = a + b;
-        let h_sq = h.norm_squared();
         // Only the exactly degenerate case needs the fallback, not a band around it. The axis below
         // is `a x h`, which is perpendicular to `a` however inaccurate `h` is, so `a` always lands
         // in the right plane and the leftover error is `delta` times the `eps/delta` relative error
         // of `h`, i.e. flat in `eps`. That holds until `h` is exactly zero and there is no axis at
-        // all. An `h_sq` that has underflowed to zero from a nonzero `h` lands here too, and is
-        // just as well served: `h_sq = delta^2`, so that needs `delta < 1e-154`, far below the
-        // point where a pi turn is the right answer anyway.
-        if h_sq == T::ZERO {
+        // all.
+        let [h_x, h_y, h_z] = *h.as_array();
+        let scale = h_x.abs().max(h_y.abs()).max(h_z.abs());
+        if scale == T::ZERO {
             // Antiparallel, where the inputs pin down no axis. Build the pi rotation by crossing
             // `a` with the principal axis it is least aligned with, which keeps that cross
             // product's norm at 0.816 or above.
@@ -405,7 +404,10 @@ impl<T: Numeric> Quaternion<T> {
         // Dividing by `s` instead leaves the norm off by `(eps/delta)^2` just above the cutoff,
         // where `s` is small enough for its own rounding to show; this way the norm is unit to eps
         // over the whole range.
-        Self::from_scalar_vector(h_sq * T::HALF, a.cross(h)).normalized()
+        // `h` is taken relative to its largest component, so that its square cannot underflow.
+        let h = h / scale;
+        let h_sq = h.norm_squared();
+        Self::from_scalar_vector(h_sq * scale * T::HALF, a.cross(h)).normalized()
     }
 
     /// Builds a unit quaternion from a rotation matrix by Shepperd's method (the largest of the
-- 
2.43.0


From 4479f574db8496e595a489ae5f878c8ea81575d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 23/86] fix: orientation from two nearly aligned directions

---
 crates/multicalc/src/spatial/lie/so3.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/so3.rs b/crates/multicalc/src/spatial/lie/so3.rs
index 53d0f7e..78b59e4 100644
--- a/crates/multicalc/src/spatial/lie/so3.rs
+++ b/crates/multicalc/src/spatial/lie/so3.rs
@@ -203,14 +203,18 @@ impl<T: Numeric> SO3<T> {
         }
 
         let observed_first = primary_observed.try_normalized()?;
+        // The second cross product squares up the rounding of the first, which grows as the two
+        // directions close in on each other.
         let observed_third = observed_first.cross(secondary_observed).try_normalized()?;
-        let observed_second = observed_third.cross(observed_first);
+        let observed_second = observed_third.cross(observed_first).try_normalized()?;
+        let observed_third = observed_first.cross(observed_second);
 
         let reference_first = primary_reference.try_normalized()?;
         let reference_third = reference_first
             .cross(secondary_reference)
             .try_normalized()?;
-        let reference_second = reference_third.cross(reference_first);
+        let reference_second = reference_third.cross(reference_first).try_normalized()?;
+        let reference_third = reference_first.cross(reference_second);
 
         // Each set of axes goes in as columns, so the product carries body directions to world
         // ones.
-- 
2.43.0


From 30a6091df4ba4c4663812f36f82aca01135ab518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 24/86] fix: SE2 exponential and Jacobians near zero rotation

---
 crates/multicalc/src/spatial/lie/se2.rs | 35 ++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/se2.rs b/crates/multicalc/src/spatial/lie/se2.rs
index c5ba7a6..52a35cc 100644
--- a/crates/multicalc/src/spatial/lie/se2.rs
+++ b/crates/multicalc/src/spatial/lie/se2.rs
@@ -5,7 +5,7 @@ use core::ops::Mul;
 use crate::linear_algebra::{Matrix, Matrix3D, Vector, Vector2D, Vector3D};
 use crate::scalar::Numeric;
 use crate::spatial::lie::SO2;
-use crate::spatial::small_angle_sq;
+use crate::spatial::{small_angle_so3_sq, small_angle_sq};
 
 /// A 2D rigid-body transform: a rotation and a translation. The tangent is `[vx, vy, ω]`.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -15,6 +15,24 @@ pub struct SE2<T: Numeric = f64> {
     translation: Vector2D<T>,
 }
 
+/// `(1 − cosθ)/θ²` for a nonzero `θ`, through the half angle, which does not cancel.
+fn versine_ratio<T: Numeric>(omega: T) -> T {
+    let half = omega * T::HALF;
+    let ratio = half.sin() / half;
+    ratio * ratio * T::HALF
+}
+
+/// `(θ − sinθ)/θ²` for a nonzero `θ`, by its series where the difference cancels.
+fn sine_gap_ratio<T: Numeric>(omega: T) -> T {
+    let theta_sq = omega * omega;
+    let (_, thresh) = small_angle_so3_sq::<T>();
+    if theta_sq < thresh {
+        omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0))
+    } else {
+        (omega - omega.sin()) / theta_sq
+    }
+}
+
 impl<T: Numeric> SE2<T> {
     /// The identity transform.
     #[inline]
@@ -89,7 +107,7 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::HALF - theta_sq / T::from_f64(24.0)),
             )
         } else {
-            (omega.sin() / omega, (T::ONE - omega.cos()) / omega)
+            (omega.sin() / omega, omega * versine_ratio(omega))
         };
         let translation = Vector::new([a * lin_x - b * lin_y, b * lin_x + a * lin_y]);
         SE2 {
@@ -216,12 +234,12 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
             )
         } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
+            let p_coeff = versine_ratio(omega);
             (
-                sin / omega,
-                (T::ONE - cos) / omega,
-                (T::ONE - cos) / theta_sq,
-                (omega - sin) / theta_sq,
+                omega.sin() / omega,
+                omega * p_coeff,
+                p_coeff,
+                sine_gap_ratio(omega),
             )
         };
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
@@ -252,8 +270,7 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
             )
         } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            ((T::ONE - cos) / theta_sq, (omega - sin) / theta_sq)
+            (versine_ratio(omega), sine_gap_ratio(omega))
         };
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
-- 
2.43.0


From 61b9d32e2dd136a7b743b5c31861c3748a7a81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 25/86] fix: a floating joint's slide columns follow its
 origin's orientation

---
 crates/multicalc/src/kinematics/kinematic_tree.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/kinematics/kinematic_tree.rs b/crates/multicalc/src/kinematics/kinematic_tree.rs
index 5386a61..2831c8f 100644
--- a/crates/multicalc/src/kinematics/kinematic_tree.rs
+++ b/crates/multicalc/src/kinematics/kinematic_tree.rs
@@ -541,14 +541,15 @@ impl<const MAX_JOINTS: usize, const MAX_CONFIG: usize, T: Numeric>
                         let basis = Vector::<3, T>::from_fn(|row| {
                             if row == local_axis { T::ONE } else { T::ZERO }
                         });
-                        // Sliding along a world axis carries every point in the subtree, tool
+                        // Sliding along an origin axis carries every point in the subtree, tool
                         // included, by the same amount, in that fixed world direction — no
                         // turning. Unlike every other joint's own axis, this one is not carried
                         // by the joint's own orientation: a floating joint's slide reading is a
-                        // world position directly (MuJoCo's own free-joint convention), so world
-                        // axis 0 always means world axis 0, whichever way the body is turned.
+                        // position in its origin's frame directly (MuJoCo's own free-joint
+                        // convention when that origin is the world), so slide axis 0 always
+                        // means the same world direction, whichever way the body is turned.
                         if let Some(slot) = columns.get_mut(local_axis) {
-                            *slot = Some((basis, Vector::zeros()));
+                            *slot = Some((joint.origin().rotation().act(basis), Vector::zeros()));
                         }
                         // Turning about this axis sweeps the tool around the joint's own origin,
                         // the same formula a revolute joint's single axis already uses. The turn
-- 
2.43.0


From ac9e77dceb132a4a74e0ab502237c440965ea13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 26/86] fix: inverse kinematics reports the configuration it
 returns when the budget runs out

---
 .../src/kinematics/inverse_kinematics.rs      | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 45a6a93..0581d14 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -273,8 +273,6 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         let mut configuration = *seed;
         self.hold_inside_limits(tree, &mut configuration);
 
-        let mut position_error = T::ZERO;
-        let mut orientation_error = T::ZERO;
         let mut iterations = 0;
 
         for _ in 0..self.maximum_iterations {
@@ -287,7 +285,7 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Body-frame pose error: log(T_current⁻¹ · T_target). The Jacobian below is taken in
             // the same frame so error and columns agree.
             let task_error = (current.inverse() * target).log();
-            (position_error, orientation_error) = split_error(task_error);
+            let (position_error, orientation_error) = split_error(task_error);
 
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
@@ -393,21 +391,26 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             configuration = next;
         }
 
-        // Re-evaluate at the final configuration so the residuals match the returned q.
-        if iterations > 0 {
-            let state = tree.forward_kinematics(&configuration)?;
-            let current = state
-                .pose(tool_index)
-                .ok_or(KinematicsError::ToolIndexOutOfRange)?;
-            (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        }
+        // Re-evaluate at the final configuration so the report matches the returned q.
+        let state = tree.forward_kinematics(&configuration)?;
+        let current = state
+            .pose(tool_index)
+            .ok_or(KinematicsError::ToolIndexOutOfRange)?;
+        let (position_error, orientation_error) = split_error((current.inverse() * target).log());
+        let termination = if position_error <= self.position_tolerance
+            && orientation_error <= self.orientation_tolerance
+        {
+            InverseKinematicsTermination::Converged
+        } else {
+            InverseKinematicsTermination::IterationBudget
+        };
 
         Ok(InverseKinematicsReport {
             joint_positions: configuration,
             position_error,
             orientation_error,
             iterations,
-            termination: InverseKinematicsTermination::IterationBudget,
+            termination,
         })
     }
 
-- 
2.43.0


From 28e823d63024728de55d5ed7d67ad10edea58cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 27/86] fix: keep the null-space objective of inverse
 kinematics out of the task directions

---
 crates/multicalc/src/kinematics/inverse_kinematics.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 0581d14..e20f029 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -474,8 +474,8 @@ fn joint_step<const MAX_CONFIG: usize, T: Numeric>(
     let base = entries * weighted_transpose;
 
     // σ(J W⁻¹ Jᵀ) = σ(J)² up to the weighting; values come back descending, so index 5 is σ_min.
-    let smallest = base
-        .svd()?
+    let base_svd = base.svd()?;
+    let smallest = base_svd
         .singular_values()
         .get(5)
         .copied()
@@ -492,10 +492,11 @@ fn joint_step<const MAX_CONFIG: usize, T: Numeric>(
     let damped = base + Matrix::<6, 6, T>::identity().scale(damping_squared);
     let damped_svd = damped.svd()?;
 
-    // One decomposition serves both terms, and the null-space projector is applied rather than
-    // formed, so nothing MAX_CONFIG × MAX_CONFIG is ever allocated.
+    // The null-space projector is applied rather than formed, so nothing MAX_CONFIG × MAX_CONFIG
+    // is ever allocated. It takes the undamped decomposition: damping would leave part of the
+    // bias inside the task directions, where it holds the tool off its target.
     let task_step = weighted_transpose * damped_svd.solve(task_error);
-    let projected = weighted_transpose * damped_svd.solve(entries * secondary_bias);
+    let projected = weighted_transpose * base_svd.solve(entries * secondary_bias);
     let null_step = secondary_bias - projected;
 
     Ok(task_step + null_step)
-- 
2.43.0


From 00682a782889125d1c64c35bdb18bb6c75eab5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 28/86] fix: measure short capsules against their own length,
 not an absolute epsilon

---
 crates/multicalc/src/kinematics/collision.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index ee65736..587fb19 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -113,7 +113,7 @@ fn closest_point_on_segment<T: Numeric>(
 ) -> Vector3D<T> {
     let segment = end - start;
     let length_squared = segment.dot(segment);
-    if length_squared <= T::EPSILON {
+    if length_squared <= T::ZERO {
         return start;
     }
     let parameter = ((point - start).dot(segment) / length_squared)
@@ -140,11 +140,11 @@ fn closest_points_between_segments<T: Numeric>(
     let second_offset = second_direction.dot(start_offset);
 
     // Both degenerate: two points.
-    if first_length_squared <= T::EPSILON && second_length_squared <= T::EPSILON {
+    if first_length_squared <= T::ZERO && second_length_squared <= T::ZERO {
         return (first_start, second_start);
     }
 
-    let (first_parameter, second_parameter) = if first_length_squared <= T::EPSILON {
+    let (first_parameter, second_parameter) = if first_length_squared <= T::ZERO {
         // First degenerate: project its point onto the second.
         (
             T::ZERO,
@@ -154,7 +154,7 @@ fn closest_points_between_segments<T: Numeric>(
         )
     } else {
         let first_offset = first_direction.dot(start_offset);
-        if second_length_squared <= T::EPSILON {
+        if second_length_squared <= T::ZERO {
             // Second degenerate: project its point onto the first.
             (
                 (-first_offset / first_length_squared)
@@ -165,8 +165,10 @@ fn closest_points_between_segments<T: Numeric>(
         } else {
             let alignment = first_direction.dot(second_direction);
             let denominator = first_length_squared * second_length_squared - alignment * alignment;
-            // Parallel: denominator vanishes, so pin the first parameter and solve the second.
-            let candidate = if denominator > T::EPSILON {
+            // Parallel: denominator vanishes against the lengths it is built from, so pin the first
+            // parameter and solve the second.
+            let parallel = T::EPSILON * first_length_squared * second_length_squared;
+            let candidate = if denominator > parallel {
                 ((alignment * second_offset - first_offset * second_length_squared) / denominator)
                     .max(T::ZERO)
                     .min(T::ONE)
-- 
2.43.0


From f1e1d94d7538a0af1d51783be179db12fcad1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 29/86] fix: refuse band-pass and notch designs whose band
 reaches half the sampling rate

---
 crates/multicalc/src/signal_processing/biquad.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/signal_processing/biquad.rs b/crates/multicalc/src/signal_processing/biquad.rs
index 4127e6b..729916c 100644
--- a/crates/multicalc/src/signal_processing/biquad.rs
+++ b/crates/multicalc/src/signal_processing/biquad.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the band `center_hz / quality_factor` is that wide itself.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -146,7 +146,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
     /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// the sampling rate, or if the band `center_hz / quality_factor` is that wide itself.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -321,6 +321,12 @@ impl<T: Numeric> BiquadCoefficients<T> {
         let angle = T::TWO * T::PI * frequency_hz * timestep;
         let cosine = angle.cos();
 
+        // Half the band reaching a right angle is where its tangent stops making a stable filter.
+        let half_band = angle / (T::TWO * quality_factor);
+        let is_band_shape = matches!(design, Design::BandPass | Design::Notch);
+        if is_band_shape && half_band >= T::PI * T::HALF {
+            return Err(SignalError::FrequencyOutOfRange);
+        }
         // The sharpness means a different thing in each pair, so each pair gets its own formula
         // and they are not interchangeable. For the low- and high-pass it says how heavily the
         // filter is damped; for the band-pass and notch it says how wide a band is affected.
@@ -328,7 +334,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
         // which is a different filter rather than a rounding difference.
         let alpha = match design {
             Design::LowPass | Design::HighPass => angle.sin() / (T::TWO * quality_factor),
-            Design::BandPass | Design::Notch => (angle / (T::TWO * quality_factor)).tan(),
+            Design::BandPass | Design::Notch => half_band.tan(),
         };
 
         let feed_forward = match design {
@@ -353,7 +359,7 @@ impl<T: Numeric> BiquadCoefficients<T> {
 
     /// Divides the six raw weights through by the leading output weight and keeps the five that
     /// are left. [`Self::build`] reaches this only after its arguments pass
-    /// [`Self::check_design`], which leaves the divisor above one.
+    /// [`Self::check_design`] and the check on the band, which leave the divisor above one.
     #[must_use]
     fn from_unnormalized(feed_forward: [T; 3], feedback: [T; 3], timestep: T) -> Self {
         let leading = feedback[0];
-- 
2.43.0


From d0aa3eefd5e22bc6a6dcb124a165bf9151429c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 30/86] fix: a point that is not a number belongs to no cell

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7ef7c61..c11f70e 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -83,7 +83,7 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         let row = ((point[1] - origin[1]) / self.resolution())
             .floor()
             .to_f64();
-        if column < 0.0 || row < 0.0 {
+        if column.is_nan() || row.is_nan() || column < 0.0 || row < 0.0 {
             return None;
         }
         let (row, column) = (row as usize, column as usize);
-- 
2.43.0


From 8f413d671750957ecfd9748dda72f87ae8ed6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 31/86] fix: skip polyline edges that are not finite instead of
 sampling them forever

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index c11f70e..343e593 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -327,6 +327,10 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
                 continue;
             };
             let length = (end[0] - start[0]).hypot(end[1] - start[1]);
+            // An edge without an end has no samples to walk.
+            if !length.is_finite() {
+                continue;
+            }
             let samples = (length / step).ceil().max(T::ONE).to_f64() as usize;
             for sample in 0..=samples {
                 let fraction = T::from_usize(sample) / T::from_usize(samples);
-- 
2.43.0


From 727bfdb6f3f78eae1ff9d89f72706a22061e6aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 32/86] fix: never read a beam shorter than the distance at
 which it entered the map

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 343e593..42e0085 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -224,11 +224,11 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
             // Cross whichever edge comes first.
             if next_column < next_row {
                 column += step_column;
-                entered = next_column;
+                entered = entered.max(next_column);
                 next_column += stride_column;
             } else {
                 row += step_row;
-                entered = next_row;
+                entered = entered.max(next_row);
                 next_row += stride_row;
             }
         }
-- 
2.43.0


From 95cfc1657805d7cb90b7c9cd55cb36a038cc6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 33/86] fix: place the last beam of a scan on the end of its
 arc

---
 crates/multicalc/src/mapping/scan_geometry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/scan_geometry.rs b/crates/multicalc/src/mapping/scan_geometry.rs
index 55b1f2c..34e527d 100644
--- a/crates/multicalc/src/mapping/scan_geometry.rs
+++ b/crates/multicalc/src/mapping/scan_geometry.rs
@@ -299,5 +299,6 @@ impl<const NUM_BEAMS: usize, T: Numeric + Primal> ScanGeometry<NUM_BEAMS, T> {
 #[must_use]
 pub(crate) fn beam_angle_across<T: Numeric>(field_of_view: T, num_beams: usize, index: usize) -> T {
     let span = T::from_usize(num_beams - 1);
-    -field_of_view * T::HALF + field_of_view * T::from_usize(index) / span
+    // Scaling the fraction of the arc puts the outermost beams on its very ends.
+    field_of_view * (T::from_usize(index) / span - T::HALF)
 }
-- 
2.43.0


From 293fb4baabf2b047f92fd69f02a0894f78d418f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 34/86] fix: walk a circle's rim in cell-sized steps whatever
 its radius

---
 .../multicalc/src/mapping/occupancy_grid.rs   | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 42e0085..663e832 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -389,14 +389,41 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
     /// }
     /// ```
     fn occupy_circle(&mut self, center: [T; 2], radius: T) {
-        let step = (T::from_f64(0.4) * self.resolution() / radius).max(T::from_f64(1e-3));
-        let mut angle = T::ZERO;
-        while angle < T::TWO_PI {
+        let radius = radius.abs();
+        let resolution = self.resolution();
+        let half_width = T::from_usize(self.columns()) * resolution * T::HALF;
+        let half_height = T::from_usize(self.rows()) * resolution * T::HALF;
+        let to_middle = [
+            self.origin()[0] + half_width - center[0],
+            self.origin()[1] + half_height - center[1],
+        ];
+        // A disc holding the whole map, with a cell to spare. A rim that misses it marks nothing.
+        let reach = half_width.hypot(half_height) + resolution;
+        let distance = to_middle[0].hypot(to_middle[1]);
+        let rim_is_near = (distance - radius).abs() <= reach;
+        if !rim_is_near {
+            return;
+        }
+
+        // Seen from outside that disc, only the arc towards it is walked, so a large rim far from
+        // its center costs no more than the map is wide.
+        let (first_angle, sweep) = if distance > reach {
+            let half_sweep = (reach / distance).asin();
+            (
+                to_middle[1].atan2(to_middle[0]) - half_sweep,
+                T::TWO * half_sweep,
+            )
+        } else {
+            (T::ZERO, T::TWO_PI)
+        };
+        let step = T::from_f64(0.4) * resolution / radius;
+        let samples = (sweep / step).ceil().max(T::ONE).to_f64() as usize;
+        for sample in 0..samples {
+            let angle = first_angle + T::from_usize(sample) * step;
             self.occupy_point([
                 center[0] + radius * angle.cos(),
                 center[1] + radius * angle.sin(),
             ]);
-            angle += step;
         }
     }
 }
-- 
2.43.0


From bd4090ffdf4c940c4005f12fd916a948b17c42d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 35/86] fix: keep a lookahead behind the start of a stopping
 path on the path

---
 crates/multicalc/src/motion/polyline_path.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/motion/polyline_path.rs b/crates/multicalc/src/motion/polyline_path.rs
index fde6930..46ff0ac 100644
--- a/crates/multicalc/src/motion/polyline_path.rs
+++ b/crates/multicalc/src/motion/polyline_path.rs
@@ -299,7 +299,8 @@ impl<const MAX_POINTS: usize, const DIMENSION: usize, T: Numeric>
     /// The point a given arc length ahead of a starting arc length along the path.
     ///
     /// The end-of-path mode decides what happens once the target runs past the end: [`EndOfPath::Stop`]
-    /// clamps to the last waypoint and [`EndOfPath::Loop`] wraps around. Returns
+    /// clamps to the last waypoint and [`EndOfPath::Loop`] wraps around; a target before the start
+    /// clamps to the first waypoint or wraps the same way. Returns
     /// [`MotionError::PathTooShort`] if the path has no waypoints, or
     /// [`MotionError::OutOfSync`] if the path cannot get the cumulative arc length.
     pub fn lookahead_point(
@@ -324,6 +325,11 @@ impl<const MAX_POINTS: usize, const DIMENSION: usize, T: Numeric>
                 if target >= total {
                     return Ok(last);
                 }
+                // Behind the start there is no path to be on; running the first segment backwards
+                // would leave it.
+                if target <= T::ZERO {
+                    return Ok(first);
+                }
             }
             EndOfPath::Loop => {
                 if total > T::ZERO {
-- 
2.43.0


From e403d83e80ce5a8c5e3ba5a6d2ad3f5fb8a41a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 36/86] fix: judge a rotor layout free of the frame's units

---
 .../multicalc/src/plant/multirotor_mixing.rs  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/plant/multirotor_mixing.rs b/crates/multicalc/src/plant/multirotor_mixing.rs
index 8b71e99..fd00c9d 100644
--- a/crates/multicalc/src/plant/multirotor_mixing.rs
+++ b/crates/multicalc/src/plant/multirotor_mixing.rs
@@ -158,13 +158,26 @@ impl<const ROTOR_COUNT: usize, T: Numeric> MultirotorMixer<ROTOR_COUNT, T> {
                 },
             }
         });
-        let distribution = allocation.pseudo_inverse()?;
+        // A newton, a metre-sized lever arm, and a small twist ratio are different sizes of number.
+        // Bringing each row to a largest entry of one keeps the frame's size and the twist ratio out
+        // of how well the layout can be inverted, and out of the check on it below.
+        let row_size = Vector::<4, T>::from_fn(|row| {
+            let mut largest = T::ZERO;
+            for rotor in 0..ROTOR_COUNT {
+                largest = largest.max(allocation[(row, rotor)].abs());
+            }
+            if largest > T::ZERO { largest } else { T::ONE }
+        });
+        let scaled = Matrix::<4, ROTOR_COUNT, T>::from_fn(|row, rotor| {
+            allocation[(row, rotor)] / row_size[row]
+        });
+        let scaled_distribution = scaled.pseudo_inverse()?;
 
         // Going out to the rotors and back has to land where it started; when it does not, some
         // wanted push or turn is one the rotors simply cannot produce. The bar is loose enough
         // that single precision passes and tight enough that a missing direction, which is off by
         // about one, always fails.
-        let round_trip = allocation * distribution;
+        let round_trip = scaled * scaled_distribution;
         let bar = T::from_f64(1e-4);
         for row in 0..4 {
             for col in 0..4 {
@@ -174,6 +187,9 @@ impl<const ROTOR_COUNT: usize, T: Numeric> MultirotorMixer<ROTOR_COUNT, T> {
                 }
             }
         }
+        let distribution = Matrix::<ROTOR_COUNT, 4, T>::from_fn(|rotor, row| {
+            scaled_distribution[(rotor, row)] / row_size[row]
+        });
 
         Ok(MultirotorMixer {
             allocation,
-- 
2.43.0


From 472271ae548c894412052e49257be8c93d261c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 37/86] fix: read a stretched motion profile as at rest at its
 end

---
 crates/multicalc/src/motion/motion_profile.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/multicalc/src/motion/motion_profile.rs b/crates/multicalc/src/motion/motion_profile.rs
index 826fbb1..eb6de34 100644
--- a/crates/multicalc/src/motion/motion_profile.rs
+++ b/crates/multicalc/src/motion/motion_profile.rs
@@ -267,6 +267,11 @@ impl<T: Numeric> MotionProfile<T> {
 
         let mut phase_start = T::ZERO;
         for phase in self.phases.iter() {
+            // Stretched phases need not add up to the stretched duration to the last digit, so the
+            // end is read off the duration rather than off the phases.
+            if clamped >= self.duration {
+                break;
+            }
             let phase_end = phase_start + phase.duration;
             if phase_end > clamped {
                 let elapsed = clamped - phase_start;
-- 
2.43.0


From 9f935d8729044568ed5e0a961d5968e1dd6f667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 38/86] fix: plan minimum snap whatever the unit of time

---
 crates/multicalc/src/motion/minimum_snap.rs   | 93 +++++++++++++------
 .../multicalc/src/polynomial/construction.rs  | 81 +++++++---------
 crates/multicalc/src/polynomial/mod.rs        |  1 -
 3 files changed, 94 insertions(+), 81 deletions(-)

diff --git a/crates/multicalc/src/motion/minimum_snap.rs b/crates/multicalc/src/motion/minimum_snap.rs
index 5974013..38e75a5 100644
--- a/crates/multicalc/src/motion/minimum_snap.rs
+++ b/crates/multicalc/src/motion/minimum_snap.rs
@@ -3,7 +3,7 @@
 
 use crate::error::MotionError;
 use crate::linear_algebra::{Matrix, Vector};
-use crate::polynomial::{PiecewisePolynomial, Polynomial, endpoint_mapping_inverse};
+use crate::polynomial::{PiecewisePolynomial, Polynomial};
 use crate::scalar::Numeric;
 
 /// Each segment is a degree-7 curve, which is what smoothing the fourth derivative asks for.
@@ -60,29 +60,44 @@ enum EndpointDerivative<const DIMENSION: usize, T: Numeric> {
     Free(usize),
 }
 
-/// `index · (index - 1) · (index - 2) · (index - 3)`, which is how many ways a term survives being
-/// differentiated four times.
-fn ways_after_four_derivatives<T: Numeric>(index: usize) -> T {
-    let mut product = T::ONE;
-    for step in 0..4 {
-        product *= T::from_usize(index.saturating_sub(step));
-    }
-    product
-}
+/// A segment's total snap, on the segment's own 0-to-1 clock, written against the position and three
+/// derivatives at its start and then at its end. The entries are whole numbers, so no precision is
+/// lost in forming it.
+const SNAP_COST: [[f64; COEFFICIENTS_PER_SEGMENT]; COEFFICIENTS_PER_SEGMENT] = [
+    [
+        100800.0, 50400.0, 10080.0, 840.0, -100800.0, 50400.0, -10080.0, 840.0,
+    ],
+    [
+        50400.0, 25920.0, 5400.0, 480.0, -50400.0, 24480.0, -4680.0, 360.0,
+    ],
+    [
+        10080.0, 5400.0, 1200.0, 120.0, -10080.0, 4680.0, -840.0, 60.0,
+    ],
+    [840.0, 480.0, 120.0, 16.0, -840.0, 360.0, -60.0, 4.0],
+    [
+        -100800.0, -50400.0, -10080.0, -840.0, 100800.0, -50400.0, 10080.0, -840.0,
+    ],
+    [
+        50400.0, 24480.0, 4680.0, 360.0, -50400.0, 25920.0, -5400.0, 480.0,
+    ],
+    [
+        -10080.0, -4680.0, -840.0, -60.0, 10080.0, -5400.0, 1200.0, -120.0,
+    ],
+    [840.0, 360.0, 60.0, 4.0, -840.0, 480.0, -120.0, 16.0],
+];
 
-/// The 8×8 that turns a segment's coefficients into its total snap, on the segment's own 0-to-1
-/// clock.
-///
-/// Only terms from the fourth power up survive four differentiations, so everything below is zero.
-fn snap_cost<T: Numeric>() -> Matrix<COEFFICIENTS_PER_SEGMENT, COEFFICIENTS_PER_SEGMENT, T> {
+/// The 8×8 that turns the values at a segment's two ends into its total snap, for a segment lasting
+/// this long.
+fn snap_cost<T: Numeric>(
+    duration: T,
+) -> Matrix<COEFFICIENTS_PER_SEGMENT, COEFFICIENTS_PER_SEGMENT, T> {
     let mut cost = Matrix::zeros();
-    for row in 4..COEFFICIENTS_PER_SEGMENT {
-        for column in 4..COEFFICIENTS_PER_SEGMENT {
-            let value = ways_after_four_derivatives::<T>(row)
-                * ways_after_four_derivatives::<T>(column)
-                / T::from_usize(row + column - 7);
+    for (row, entries) in SNAP_COST.iter().enumerate() {
+        for (column, entry) in entries.iter().enumerate() {
+            // Each derivative is worth that many powers of the duration on the segment's own clock.
+            let orders = row % DERIVATIVES_PER_WAYPOINT + column % DERIVATIVES_PER_WAYPOINT;
             if let Some(slot) = cost.get_mut(row, column) {
-                *slot = value;
+                *slot = T::from_f64(*entry) * duration.powi(orders as i32 - 7);
             }
         }
     }
@@ -274,16 +289,13 @@ impl<
 
         // Build the system that chooses the free values. Everything already known moves to the other
         // side, so the global system never has to exist.
-        let cost = snap_cost::<T>();
         let mut reduced = Matrix::<MAX_FREE_DERIVATIVES, MAX_FREE_DERIVATIVES, T>::zeros();
         let mut known_side = Matrix::<MAX_FREE_DERIVATIVES, DIMENSION, T>::zeros();
 
         for (segment, duration) in durations.iter().enumerate() {
-            // The segment's cost is written against its coefficients; this restates it against the
-            // values at its two ends, which is what neighbouring segments share.
-            let inverse_mapping = endpoint_mapping_inverse(*duration)?;
-            let in_endpoint_terms =
-                inverse_mapping.transpose() * cost.scale(duration.powi(-7)) * inverse_mapping;
+            // Written against the values at the segment's two ends, which is what neighbouring
+            // segments share.
+            let in_endpoint_terms = snap_cost(*duration);
 
             for local_row in 0..COEFFICIENTS_PER_SEGMENT {
                 let row_waypoint = segment + local_row / DERIVATIVES_PER_WAYPOINT;
@@ -334,6 +346,27 @@ impl<
                 *slot = T::ONE;
             }
         }
+        // A velocity row and a jerk row differ by the duration to the fourth power, which the
+        // factorization would take for ill-conditioning. Scaling every diagonal entry to one leaves
+        // the unit of time out of it.
+        let scales = Vector::<MAX_FREE_DERIVATIVES, T>::from_fn(|row| {
+            system
+                .get(row, row)
+                .map_or(T::ONE, |entry| T::ONE / entry.sqrt())
+        });
+        let scale_of = |row: usize| scales.get(row).copied().unwrap_or(T::ONE);
+        for row in 0..MAX_FREE_DERIVATIVES {
+            for column in 0..MAX_FREE_DERIVATIVES {
+                if let Some(slot) = system.get_mut(row, column) {
+                    *slot *= scale_of(row) * scale_of(column);
+                }
+            }
+            for axis in 0..DIMENSION {
+                if let Some(slot) = known_side.get_mut(row, axis) {
+                    *slot *= scale_of(row);
+                }
+            }
+        }
 
         // The durations alone decide the system, so one factorization covers every axis.
         let solved = if free_count == 0 {
@@ -353,9 +386,9 @@ impl<
             for (order, slot) in block.iter_mut().enumerate() {
                 *slot = match self.classify(waypoint, order, waypoints, segments) {
                     EndpointDerivative::Fixed(value) => value,
-                    EndpointDerivative::Free(row) => {
-                        Vector::from_fn(|axis| solved.get(row, axis).copied().unwrap_or(T::ZERO))
-                    }
+                    EndpointDerivative::Free(row) => Vector::from_fn(|axis| {
+                        solved.get(row, axis).copied().unwrap_or(T::ZERO) * scale_of(row)
+                    }),
                 };
             }
             if waypoint == segments {
diff --git a/crates/multicalc/src/polynomial/construction.rs b/crates/multicalc/src/polynomial/construction.rs
index edba7c7..b36d25b 100644
--- a/crates/multicalc/src/polynomial/construction.rs
+++ b/crates/multicalc/src/polynomial/construction.rs
@@ -15,7 +15,7 @@
 //! value rather than reading the coefficients, avoids it.
 #![deny(clippy::indexing_slicing)]
 
-use crate::error::{LinalgError, PolynomialError};
+use crate::error::PolynomialError;
 use crate::linear_algebra::{Matrix, PivotedQr, Vector};
 use crate::polynomial::Polynomial;
 use crate::scalar::{Jet, Numeric};
@@ -279,60 +279,42 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
     }
 }
 
-/// Turns the eight coefficients of a degree-7 piece into its value and first three derivatives at
-/// each end, measured against the outer parameter rather than the piece's own 0-to-1 clock.
+/// In sixths, the coefficients of the degree-7 piece on its own 0-to-1 clock: one row per
+/// coefficient, one column per wanted value, first the start's value and three derivatives, then
+/// the end's. These are the eight end conditions solved once and for all.
+const ENDPOINT_SIXTHS: [[f64; 8]; 8] = [
+    [6.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
+    [0.0, 6.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
+    [0.0, 0.0, 3.0, 0.0, 0.0, 0.0, 0.0, 0.0],
+    [0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0],
+    [-210.0, -120.0, -30.0, -4.0, 210.0, -90.0, 15.0, -1.0],
+    [504.0, 270.0, 60.0, 6.0, -504.0, 234.0, -42.0, 3.0],
+    [-420.0, -216.0, -45.0, -4.0, 420.0, -204.0, 39.0, -3.0],
+    [120.0, 60.0, 12.0, 1.0, -120.0, 60.0, -12.0, 1.0],
+];
+
+/// Gives the eight coefficients of a degree-7 piece that produce a wanted value and first three
+/// derivatives at each end, measured against the outer parameter rather than the piece's own 0-to-1
+/// clock.
 ///
 /// `span` is how much of the outer parameter the piece covers, which is what converts between the
-/// two.
-pub(crate) fn endpoint_mapping<T: Numeric>(span: T) -> Matrix<8, 8, T> {
+/// two. Written out rather than solved for, since the powers of a short or long span would leave
+/// nothing of the solve.
+fn endpoint_mapping_inverse<T: Numeric>(span: T) -> Matrix<8, 8, T> {
+    let six = T::from_usize(6);
     let mut mapping = Matrix::<8, 8, T>::zeros();
-
-    // At the start of the piece only the lowest coefficients survive: the value is the first one,
-    // and each derivative picks out one more.
-    if let Some(slot) = mapping.get_mut(0, 0) {
-        *slot = T::ONE;
-    }
-    let mut ways = T::ONE;
-    let mut span_raised = T::ONE;
-    for order in 1..4 {
-        ways *= T::from_usize(order);
-        span_raised *= span;
-        if let Some(slot) = mapping.get_mut(order, order) {
-            *slot = ways / span_raised;
-        }
-    }
-
-    // At the end of the piece every coefficient contributes, since the clock reads one there.
-    for column in 0..8 {
-        if let Some(slot) = mapping.get_mut(4, column) {
-            *slot = T::ONE;
-        }
-    }
-    let mut span_raised = T::ONE;
-    for order in 1..4 {
-        span_raised *= span;
-        for column in order..8 {
-            // Differentiating `order` times leaves this many copies of the term behind.
-            let mut ways = T::ONE;
-            for step in 0..order {
-                ways *= T::from_usize(column - step);
-            }
-            if let Some(slot) = mapping.get_mut(4 + order, column) {
-                *slot = ways / span_raised;
+    for (row, entries) in ENDPOINT_SIXTHS.iter().enumerate() {
+        for (column, entry) in entries.iter().enumerate() {
+            // A derivative of this order grows by this power on the piece's own clock.
+            let order = column % 4;
+            if let Some(slot) = mapping.get_mut(row, column) {
+                *slot = T::from_f64(*entry) / six * span.powi(order as i32);
             }
         }
     }
     mapping
 }
 
-/// The other direction: the eight coefficients that produce a wanted value and first three
-/// derivatives at each end.
-pub(crate) fn endpoint_mapping_inverse<T: Numeric>(
-    span: T,
-) -> Result<Matrix<8, 8, T>, LinalgError> {
-    endpoint_mapping(span).inverse()
-}
-
 impl<T: Numeric> Polynomial<4, T> {
     /// The smooth curve matching a value and a slope at each end.
     ///
@@ -386,9 +368,8 @@ impl<T: Numeric> Polynomial<8, T> {
     /// outer parameter. As with the cubic, the result runs on the piece's own 0-to-1 clock and
     /// `span` is how much of the outer parameter that covers.
     ///
-    /// Returns [`PolynomialError::SpanNotPositive`] when `span` is zero or negative,
-    /// [`PolynomialError::NonFinite`] when any input is infinite or NaN, and
-    /// [`PolynomialError::Linalg`] when the eight conditions cannot be solved.
+    /// Returns [`PolynomialError::SpanNotPositive`] when `span` is zero or negative, and
+    /// [`PolynomialError::NonFinite`] when any input is infinite or NaN.
     ///
     /// ```
     /// use multicalc::Polynomial;
@@ -421,7 +402,7 @@ impl<T: Numeric> Polynomial<8, T> {
         for (slot, value) in wanted.iter_mut().zip(start.iter().chain(end.iter())) {
             *slot = *value;
         }
-        let coefficients = endpoint_mapping_inverse(span)? * Vector::new(wanted);
+        let coefficients = endpoint_mapping_inverse(span) * Vector::new(wanted);
         Ok(Self::new(coefficients.into_array()))
     }
 }
diff --git a/crates/multicalc/src/polynomial/mod.rs b/crates/multicalc/src/polynomial/mod.rs
index 2812d4e..9281d7b 100644
--- a/crates/multicalc/src/polynomial/mod.rs
+++ b/crates/multicalc/src/polynomial/mod.rs
@@ -26,7 +26,6 @@ mod piecewise;
 mod polynomial;
 mod roots;
 
-pub(crate) use construction::endpoint_mapping_inverse;
 pub use multivariate::{MultivariatePolynomial, MultivariateTerm};
 pub use piecewise::PiecewisePolynomial;
 pub use polynomial::Polynomial;
-- 
2.43.0


From 6a9ca82f5b12bd415621acadf1cc1d7c29198604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 39/86] fix: keep the coordinated-turn model exact through slow
 turns

---
 crates/multicalc/src/estimation/models.rs | 25 +++++++++++------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/estimation/models.rs b/crates/multicalc/src/estimation/models.rs
index be8cab7..a77213a 100644
--- a/crates/multicalc/src/estimation/models.rs
+++ b/crates/multicalc/src/estimation/models.rs
@@ -7,6 +7,7 @@
 use crate::error::EstimationError;
 use crate::linear_algebra::Vector;
 use crate::scalar::{Numeric, VectorFn};
+use crate::spatial::SE2;
 
 /// Rolls a vehicle's state `[x, y, heading, speed, turn rate]` forward one tick.
 ///
@@ -44,19 +45,17 @@ impl VectorFn<5, 5> for ConstantTurnAndSpeed {
         let [x, y, heading, speed, turn_rate] = *state;
         let timestep = S::from_f64(self.timestep);
         let next_heading = heading + turn_rate * timestep;
-        // Straighten the arc when the turn rate is tiny, so the radius cannot blow up.
-        let (next_x, next_y) = if turn_rate.abs() > S::from_f64(1e-6) {
-            let radius = speed / turn_rate;
-            (
-                x + radius * (next_heading.sin() - heading.sin()),
-                y + radius * (heading.cos() - next_heading.cos()),
-            )
-        } else {
-            (
-                x + speed * heading.cos() * timestep,
-                y + speed * heading.sin() * timestep,
-            )
-        };
+        // The arc, in the vehicle's own frame, turned to face its heading. The exponential keeps its
+        // digits, and its slopes, down to no turn at all.
+        let arc = SE2::exp(Vector::new([
+            speed * timestep,
+            S::ZERO,
+            turn_rate * timestep,
+        ]));
+        let [forward, sideways] = arc.translation().into_array();
+        let (sin_heading, cos_heading) = (heading.sin(), heading.cos());
+        let next_x = x + forward * cos_heading - sideways * sin_heading;
+        let next_y = y + forward * sin_heading + sideways * cos_heading;
         [next_x, next_y, next_heading.wrap_to_pi(), speed, turn_rate]
     }
 }
-- 
2.43.0


From 76dc39da663ba757fe0ad0ab086bda283b45a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 40/86] fix: add the unscented filter's regularization to the
 covariance itself

---
 crates/multicalc/src/estimation/unscented_kalman_filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/estimation/unscented_kalman_filter.rs b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
index 8fad1d8..5de87ee 100644
--- a/crates/multicalc/src/estimation/unscented_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
@@ -249,8 +249,9 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
     fn offset_directions(
         &self,
     ) -> Result<Matrix<STATE_DIMENSION, STATE_DIMENSION, T>, EstimationError> {
-        let scaled = self.covariance.scale(self.spread_factor())
+        let widened = self.covariance
             + Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::identity().scale(self.regularization);
+        let scaled = widened.scale(self.spread_factor());
         if !scaled.is_finite() {
             return Err(EstimationError::NonFinite);
         }
-- 
2.43.0


From 7c23ea16ca9ba9b87c232cf012d6dce8485e103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 41/86] fix: draw new points for a second unscented update

---
 .../src/estimation/unscented_kalman_filter.rs | 43 ++++++++++++++++++-
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/estimation/unscented_kalman_filter.rs b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
index 5de87ee..181df34 100644
--- a/crates/multicalc/src/estimation/unscented_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
@@ -4,6 +4,17 @@ use crate::error::EstimationError;
 use crate::linear_algebra::{Matrix, Vector};
 use crate::scalar::{Numeric, VectorFn};
 
+/// Where the points an update works from come from.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum PointsOrigin {
+    /// Nothing has been predicted: every point sits on the initial estimate.
+    Seeded,
+    /// They describe the current estimate.
+    Predicted,
+    /// An update has moved the estimate on since they were placed.
+    Spent,
+}
+
 /// An unscented Kalman filter over a `STATE_DIMENSION`-state model with `MEASUREMENT_DIMENSION`
 /// measurements.
 ///
@@ -83,6 +94,7 @@ pub struct UnscentedKalmanFilter<
     propagated_centre: Vector<STATE_DIMENSION, T>,
     propagated_plus: Matrix<STATE_DIMENSION, STATE_DIMENSION, T>,
     propagated_minus: Matrix<STATE_DIMENSION, STATE_DIMENSION, T>,
+    points: PointsOrigin,
     alpha: T,
     beta: T,
     kappa: T,
@@ -127,6 +139,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
             propagated_centre: initial_state,
             propagated_plus: seeded,
             propagated_minus: seeded,
+            points: PointsOrigin::Seeded,
             alpha: T::from_f64(1e-3),
             beta: T::TWO,
             kappa: T::ZERO,
@@ -338,6 +351,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !mean.is_finite() || !covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.points = PointsOrigin::Predicted;
         self.state = mean;
 
         // Rounding leaves the two halves of the sum slightly apart; average them back together.
@@ -345,6 +359,24 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         Ok(())
     }
 
+    /// Draws new points from the current estimate when an update has already used up the ones
+    /// [`predict`](Self::predict) left behind. They no longer describe the estimate, and working
+    /// from them again would take the same certainty from the covariance twice.
+    fn replace_spent_points(&mut self) -> Result<(), EstimationError> {
+        if self.points != PointsOrigin::Spent {
+            return Ok(());
+        }
+        let directions = self.offset_directions()?;
+        let state = self.state;
+        self.propagated_centre = state;
+        self.propagated_plus =
+            Matrix::from_fn(|row, column| state[row] + directions[(row, column)]);
+        self.propagated_minus =
+            Matrix::from_fn(|row, column| state[row] - directions[(row, column)]);
+        self.points = PointsOrigin::Predicted;
+        Ok(())
+    }
+
     /// Pushes the points [`predict`](Self::predict) left behind through the measurement model, and
     /// returns where they landed together with their average.
     fn measurement_sigma_points<MeasurementModel>(
@@ -478,6 +510,9 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         // takes away. The residual and its spread are kept so the caller can judge the fit.
         self.innovation = residual;
         self.innovation_covariance = innovation_covariance;
+        if self.points == PointsOrigin::Predicted {
+            self.points = PointsOrigin::Spent;
+        }
         self.state += kalman_gain * residual;
         self.covariance = (self.covariance
             - kalman_gain * innovation_covariance * kalman_gain.transpose())
@@ -489,7 +524,8 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
     ///
     /// Works from the points [`predict`](Self::predict) left behind, so call it after a predict: on
     /// a filter that has never predicted, the points all sit on the initial estimate, the gain
-    /// works out to zero, and the estimate is left where it was.
+    /// works out to zero, and the estimate is left where it was. Another update before the next
+    /// predict draws its own points from the estimate the last one left.
     ///
     /// Use [`update_with_residual`](Self::update_with_residual) when any measurement component is
     /// an angle: plain subtraction is wrong across the ±π wrap.
@@ -497,7 +533,8 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
     /// Returns [`NonFinite`](EstimationError::NonFinite) when the measurement, a predicted
     /// measurement, or the formed innovation covariance holds an infinity or NaN, and
     /// [`NotPositiveDefinite`](EstimationError::NotPositiveDefinite) when the innovation covariance
-    /// cannot be factorized — the gain is undefined.
+    /// cannot be factorized — the gain is undefined — or the covariance cannot be, for an update
+    /// that has to place its own points.
     pub fn update<MeasurementModel>(
         &mut self,
         measurement_model: &MeasurementModel,
@@ -509,6 +546,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !measurement.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.replace_spent_points()?;
         let (centre, plus_side, minus_side, predicted) =
             self.measurement_sigma_points(measurement_model)?;
         self.fold_in(
@@ -593,6 +631,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !residual.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.replace_spent_points()?;
         let (centre, plus_side, minus_side, predicted) =
             self.measurement_sigma_points(measurement_model)?;
         self.fold_in(centre, plus_side, minus_side, predicted, residual)
-- 
2.43.0


From 54c58bc2cbe0a735f25b5fabfa67b16a3f370b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 42/86] fix: keep the error-state filter's facing at unit
 length

---
 .../multicalc/src/estimation/error_state_kalman_filter.rs   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/estimation/error_state_kalman_filter.rs b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
index 822956b..0a4f380 100644
--- a/crates/multicalc/src/estimation/error_state_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
@@ -163,7 +163,7 @@ impl<T: Numeric> NominalState<T> {
         NominalState {
             position: self.position + position_error,
             velocity: self.velocity + velocity_error,
-            orientation: self.orientation * SO3::exp(rotation_error),
+            orientation: (self.orientation * SO3::exp(rotation_error)).normalized(),
             gyroscope_bias: self.gyroscope_bias + gyroscope_bias_error,
             accelerometer_bias: self.accelerometer_bias + accelerometer_bias_error,
         }
@@ -266,7 +266,9 @@ impl<T: Numeric> NominalState<T> {
                 + self.velocity * timestep
                 + world_push * (timestep * timestep * T::HALF),
             velocity: self.velocity + world_push * timestep,
-            orientation: self.orientation * SO3::exp(turn_rate * timestep),
+            // Every product rounds, and a filter runs for hours at a kilohertz with nothing else
+            // watching the length, so it is pulled back each step.
+            orientation: (self.orientation * SO3::exp(turn_rate * timestep)).normalized(),
             gyroscope_bias: self.gyroscope_bias,
             accelerometer_bias: self.accelerometer_bias,
         }
-- 
2.43.0


From 66ce54d4fb9d4c743c3c2893ce80646c64a2ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 43/86] fix: refuse parallel reference directions in the
 attitude filters

---
 .../src/estimation/attitude_correction.rs     | 21 +++++++++++++++++++
 .../src/estimation/madgwick_filter.rs         |  8 +++----
 .../multicalc/src/estimation/mahony_filter.rs |  8 +++----
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc/src/estimation/attitude_correction.rs b/crates/multicalc/src/estimation/attitude_correction.rs
index 1371f55..eed4d13 100644
--- a/crates/multicalc/src/estimation/attitude_correction.rs
+++ b/crates/multicalc/src/estimation/attitude_correction.rs
@@ -17,6 +17,27 @@ pub(super) fn north_reference<T: Numeric>() -> Vector3D<T> {
     Vector3D::new([T::ONE, T::ZERO, T::ZERO])
 }
 
+/// The two reference directions at unit length, with north squared up against up, or `None` when
+/// the pair does not describe two usable directions.
+pub(super) fn reference_directions<T: Numeric>(
+    upward_reference: Vector3D<T>,
+    north_reference: Vector3D<T>,
+) -> Option<(Vector3D<T>, Vector3D<T>)> {
+    let upward = upward_reference.try_normalized()?;
+    let north = north_reference.try_normalized()?;
+    let levelled = north - upward * north.dot(upward);
+    // What is left of a north that points straight up or down is only rounding, which names no
+    // direction. The comparison is written so an infinity or NaN fails it too.
+    let smallest_usable = T::EPSILON * T::from_f64(16.0);
+    if !(levelled.norm() > smallest_usable) {
+        return None;
+    }
+    let levelled = levelled.normalized();
+    // A second pass takes out what rounding the first one left along up.
+    let squared_up = levelled - upward * levelled.dot(upward);
+    Some((upward, squared_up.try_normalized()?))
+}
+
 /// True when every reading and the timestep is a real, finite number.
 #[inline]
 pub(super) fn readings_are_finite<T: Numeric>(
diff --git a/crates/multicalc/src/estimation/madgwick_filter.rs b/crates/multicalc/src/estimation/madgwick_filter.rs
index 87f0acd..a314388 100644
--- a/crates/multicalc/src/estimation/madgwick_filter.rs
+++ b/crates/multicalc/src/estimation/madgwick_filter.rs
@@ -120,11 +120,9 @@ impl<T: Numeric> MadgwickFilter<T> {
         upward_reference: Vector3D<T>,
         north_reference: Vector3D<T>,
     ) -> Self {
-        let Some(upward) = upward_reference.try_normalized() else {
-            return self;
-        };
-        let levelled = north_reference - upward * north_reference.dot(upward);
-        let Some(north) = levelled.try_normalized() else {
+        let Some((upward, north)) =
+            attitude_correction::reference_directions(upward_reference, north_reference)
+        else {
             return self;
         };
         self.upward_reference = upward;
diff --git a/crates/multicalc/src/estimation/mahony_filter.rs b/crates/multicalc/src/estimation/mahony_filter.rs
index 5bb30a3..f8df22c 100644
--- a/crates/multicalc/src/estimation/mahony_filter.rs
+++ b/crates/multicalc/src/estimation/mahony_filter.rs
@@ -116,11 +116,9 @@ impl<T: Numeric> MahonyFilter<T> {
         upward_reference: Vector3D<T>,
         north_reference: Vector3D<T>,
     ) -> Self {
-        let Some(upward) = upward_reference.try_normalized() else {
-            return self;
-        };
-        let levelled = north_reference - upward * north_reference.dot(upward);
-        let Some(north) = levelled.try_normalized() else {
+        let Some((upward, north)) =
+            attitude_correction::reference_directions(upward_reference, north_reference)
+        else {
             return self;
         };
         self.upward_reference = upward;
-- 
2.43.0


From 957871014a111c3de31902268075521f83a175a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 44/86] fix: never resample a particle that carries no weight

---
 .../src/estimation/particle_filter.rs         | 39 +++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 1556cb2..8e93cf0 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -91,13 +91,19 @@ fn systematic<T: RandomScalar, R: RandomSource<T>>(
     // which span more of the line, catch more picks.
     let mut running_sum = weights[0];
     let mut source = 0;
+    let mut last_weighted = 0;
     for (step, slot) in indices.iter_mut().enumerate() {
         let position = (offset + T::from_usize(step)) / count_scalar;
         while position >= running_sum && source + 1 < count {
             source += 1;
             running_sum += weights[source];
+            if weights[source] > T::ZERO {
+                last_weighted = source;
+            }
         }
-        *slot = source;
+        // Rounding can leave the total short of the position, and the walk then runs on through
+        // sources that carry no weight: those are never picked.
+        *slot = last_weighted;
     }
 }
 
@@ -114,14 +120,20 @@ fn stratified<T: RandomScalar, R: RandomSource<T>>(
     // so the picks are still one per stratum but jittered independently within them.
     let mut running_sum = weights[0];
     let mut source = 0;
+    let mut last_weighted = 0;
     for (step, slot) in indices.iter_mut().enumerate() {
         let offset = random.next_unit();
         let position = (offset + T::from_usize(step)) / count_scalar;
         while position >= running_sum && source + 1 < count {
             source += 1;
             running_sum += weights[source];
+            if weights[source] > T::ZERO {
+                last_weighted = source;
+            }
         }
-        *slot = source;
+        // Rounding can leave the total short of the position, and the walk then runs on through
+        // sources that carry no weight: those are never picked.
+        *slot = last_weighted;
     }
 }
 
@@ -178,13 +190,19 @@ fn residual<T: RandomScalar, R: RandomSource<T>>(
 #[must_use]
 fn draw_from_weights<T: Numeric>(weights: &[T], draw: T) -> usize {
     let mut running_sum = T::ZERO;
+    let mut last_weighted = weights.len() - 1;
     for (source, &weight) in weights.iter().enumerate() {
+        // A source with no weight covers none of the line, so no draw lands on it.
+        if weight <= T::ZERO {
+            continue;
+        }
         running_sum += weight;
+        last_weighted = source;
         if running_sum >= draw {
-            return source;
+            break;
         }
     }
-    weights.len() - 1
+    last_weighted
 }
 
 /// The smallest source whose cumulative fractional remainder reaches `draw`.
@@ -196,14 +214,21 @@ fn draw_from_remainders<T: Numeric>(
     draw: T,
 ) -> usize {
     let mut running_sum = T::ZERO;
+    let mut last_weighted = weights.len() - 1;
     for (source, &weight) in weights.iter().enumerate() {
         let scaled = count_scalar * weight;
-        running_sum += (scaled - scaled.floor()) / remainder_sum;
+        let remainder = scaled - scaled.floor();
+        // A source with no remainder covers none of the line, so no draw lands on it.
+        if remainder <= T::ZERO {
+            continue;
+        }
+        running_sum += remainder / remainder_sum;
+        last_weighted = source;
         if running_sum >= draw {
-            return source;
+            break;
         }
     }
-    weights.len() - 1
+    last_weighted
 }
 
 /// Logs a normalized weight without letting linear underflow make it permanently impossible.
-- 
2.43.0


From 3ea5671dc6ed1d0101a950d042f924f18da0d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 45/86] fix: keep the particle weights when an update is
 refused

---
 crates/multicalc/src/estimation/particle_filter.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 8e93cf0..177247e 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -663,20 +663,20 @@ where
 
         // Back to plain weights, measured relative to the heaviest particle, and total them.
         let mut sum = T::ZERO;
-        for i in 0..self.weights.len() {
-            let weight = (self.log_weight_scratch[i] - largest).exp();
-            self.weights[i] = weight;
-            sum += weight;
+        for log_weight in self.log_weight_scratch.iter_mut() {
+            *log_weight = (*log_weight - largest).exp();
+            sum += *log_weight;
         }
 
-        // A zero or non-finite total leaves nothing to divide by, so the cloud has degenerated.
+        // A zero or non-finite total leaves nothing to divide by, so the cloud has degenerated and
+        // keeps the weights it had.
         if sum <= T::ZERO || !sum.is_finite() {
             return Err(EstimationError::WeightsDegenerate);
         }
 
         // Scale so the weights sum to one.
-        for weight in self.weights.iter_mut() {
-            *weight /= sum;
+        for (weight, &relative) in self.weights.iter_mut().zip(&self.log_weight_scratch) {
+            *weight = relative / sum;
         }
 
         // If the weight has piled onto too few particles, refresh the cloud before it collapses.
-- 
2.43.0


From 1cf6de2ddd050b626010585e5c7c66806d2e2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 46/86] fix: refuse an infinite particle spread

---
 .../src/estimation/particle_filter.rs         | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 177247e..58335e4 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -231,6 +231,21 @@ fn draw_from_remainders<T: Numeric>(
     last_weighted
 }
 
+/// The lower factor that shapes standard normal draws to a covariance. A covariance with an infinite
+/// entry factorizes, but its draws would not be finite, so it is refused too.
+fn spread_factor<const N: usize, T: Numeric>(
+    covariance: Matrix<N, N, T>,
+) -> Result<Matrix<N, N, T>, EstimationError> {
+    let factor = covariance
+        .cholesky()
+        .map_err(|_| EstimationError::NotPositiveDefinite)?
+        .lower();
+    if !factor.is_finite() {
+        return Err(EstimationError::NotPositiveDefinite);
+    }
+    Ok(factor)
+}
+
 /// Logs a normalized weight without letting linear underflow make it permanently impossible.
 fn recoverable_log_weight<T: Numeric>(weight: T) -> T {
     if weight == T::ZERO {
@@ -433,15 +448,9 @@ where
         // Factor both covariances up front. The initial factor shapes the starting spread; the
         // process-noise factor is kept to add noise every predict step. A covariance that will not
         // factorize is not a valid spread.
-        let initial_factor = initial_covariance
-            .cholesky()
-            .map_err(|_| EstimationError::NotPositiveDefinite)?
-            .lower();
+        let initial_factor = spread_factor(initial_covariance)?;
 
-        let process_noise_factor = process_noise
-            .cholesky()
-            .map_err(|_| EstimationError::NotPositiveDefinite)?
-            .lower();
+        let process_noise_factor = spread_factor(process_noise)?;
 
         // Scatter the starting cloud around the mean: each particle is the mean plus the initial
         // factor applied to a vector of standard normal draws, which reshapes those draws to match
@@ -507,10 +516,7 @@ where
         &mut self,
         process_noise: Matrix<STATE_DIMENSION, STATE_DIMENSION, T>,
     ) -> Result<(), EstimationError> {
-        self.process_noise_factor = process_noise
-            .cholesky()
-            .map_err(|_| EstimationError::NotPositiveDefinite)?
-            .lower();
+        self.process_noise_factor = spread_factor(process_noise)?;
         Ok(())
     }
 
-- 
2.43.0


From 7b5910372e57bc471fed071cf374bfeb50b74d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 47/86] fix: keep a turned inertia tensor symmetric

---
 crates/multicalc-robot-model/src/mjcf/body.rs     |  4 ++--
 crates/multicalc-robot-model/src/mjcf/geometry.rs |  4 ++--
 crates/multicalc-robot-model/src/urdf/link.rs     |  4 ++--
 crates/multicalc-robot-model/src/xml.rs           | 12 +++++++++++-
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 77da9f7..5397209 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -15,7 +15,7 @@ use crate::mjcf::geometry::{GeomMass, read_geom};
 use crate::mjcf::joint::read_joint;
 use crate::xml::{
     bad_attribute, element, elements, ignored_sections, parse_scalar, parse_vector3, parse_vector4,
-    parse_vector6, unit_quaternion,
+    parse_vector6, turned, unit_quaternion,
 };
 
 /// Top-level elements this reader consumes. Every other one is listed in `ignored`.
@@ -194,7 +194,7 @@ fn stated_inertia(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
             // into body axes.
             let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
             let rotation = unit_quaternion(node, quat, "quat")?.to_rotation_matrix();
-            rotation * Matrix::from_diagonal(principal) * rotation.transpose()
+            turned(rotation, Matrix::from_diagonal(principal))
         }
         // `quat` does not apply to a full tensor; MuJoCo ignores it there too.
         (None, Some([ixx, iyy, izz, ixy, ixz, iyz])) => {
diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index d85a3d5..ee5b414 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -10,7 +10,7 @@ use roxmltree::Node;
 
 use crate::ModelError;
 use crate::mjcf::defaults::{DefaultTable, GeomDefaults, reject_orientation_attributes};
-use crate::xml::{bad_attribute, unit_quaternion};
+use crate::xml::{bad_attribute, turned, unit_quaternion};
 
 /// MuJoCo's defaults for an unspecified geom. Size has no default.
 const ASSUMED_TYPE: &str = "sphere";
@@ -143,7 +143,7 @@ pub(crate) fn read_geom(
         None => unit_quaternion(node, settings.quat.unwrap_or([1.0, 0.0, 0.0, 0.0]), "quat")?,
     };
     let rotation = turn.to_rotation_matrix();
-    let inertia = rotation * Matrix::from_diagonal(principal) * rotation.transpose();
+    let inertia = turned(rotation, Matrix::from_diagonal(principal));
 
     let center = match &axis {
         Some(axis) => axis.center,
diff --git a/crates/multicalc-robot-model/src/urdf/link.rs b/crates/multicalc-robot-model/src/urdf/link.rs
index 2bf72db..9cb7483 100644
--- a/crates/multicalc-robot-model/src/urdf/link.rs
+++ b/crates/multicalc-robot-model/src/urdf/link.rs
@@ -8,7 +8,7 @@ use multicalc::spatial::{Quaternion, SE3, SO3, SpatialInertia};
 use roxmltree::Node;
 
 use crate::ModelError;
-use crate::xml::{bad_attribute, element, elements, parse_scalar, parse_vector3};
+use crate::xml::{bad_attribute, element, elements, parse_scalar, parse_vector3, turned};
 
 /// A `<link>` as stated, before tree resolution.
 pub(crate) struct ParsedLink {
@@ -61,7 +61,7 @@ fn read_inertial(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
     ]);
 
     let rotation = origin.rotation().to_matrix();
-    let tensor = rotation * stated * rotation.transpose();
+    let tensor = turned(rotation, stated);
 
     SpatialInertia::new(mass, origin.translation(), tensor).map_err(ModelError::Inertia)
 }
diff --git a/crates/multicalc-robot-model/src/xml.rs b/crates/multicalc-robot-model/src/xml.rs
index 5a2f0de..b5618cc 100644
--- a/crates/multicalc-robot-model/src/xml.rs
+++ b/crates/multicalc-robot-model/src/xml.rs
@@ -1,5 +1,6 @@
-//! XML attribute and element access, shared by both readers.
+//! XML attribute and element access, and what is read out of it, shared by both readers.
 
+use multicalc::linear_algebra::{Matrix, Matrix3D};
 #[cfg(feature = "mjcf")]
 use multicalc::spatial::Quaternion;
 use roxmltree::Node;
@@ -44,6 +45,15 @@ pub(crate) fn unit_quaternion(
         })
 }
 
+/// An inertia tensor turned into other axes, `R I Rᵀ`.
+///
+/// The product rounds the two halves apart, so they are averaged back together. A tensor of any
+/// size leaves exactly symmetric.
+pub(crate) fn turned(rotation: Matrix3D, tensor: Matrix3D) -> Matrix3D {
+    let product = rotation * tensor * rotation.transpose();
+    Matrix::from_fn(|row, column| 0.5 * (product[(row, column)] + product[(column, row)]))
+}
+
 /// Error for an attribute that does not parse as the numbers it should hold.
 #[must_use]
 pub(crate) fn bad_attribute(node: Node, attribute: &str, text: &str) -> ModelError {
-- 
2.43.0


From bb6040622f281428825e86392cc0cd28eac2f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 48/86] fix: let an element's own default class replace its
 body's childclass

---
 .../multicalc-robot-model/src/mjcf/geometry.rs   | 16 ++++++----------
 crates/multicalc-robot-model/src/mjcf/joint.rs   | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index ee5b414..4d29d19 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -157,21 +157,17 @@ pub(crate) fn read_geom(
     }))
 }
 
-/// A shape's settings, with the shape's own winning over the class it names, that over the class
-/// its body names, and that over the unnamed block.
+/// A shape's settings, with the shape's own winning over its class. A shape naming no class takes
+/// the one its body passes down, and failing that the unnamed block. A class already carries
+/// everything it inherits.
 fn effective(
     node: Node,
     table: &DefaultTable,
     class_chain: Option<&str>,
 ) -> Result<GeomDefaults, ModelError> {
-    let mut settings = table.resolve(None)?.geom.clone();
-    if let Some(name) = class_chain {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.geom);
-    }
-    if let Some(name) = node.attribute("class") {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.geom);
-    }
-    Ok(settings.overridden_by(&GeomDefaults::read(node)?))
+    let class = node.attribute("class").or(class_chain);
+    let inherited = &table.resolve(class)?.geom;
+    Ok(inherited.overridden_by(&GeomDefaults::read(node)?))
 }
 
 /// A capsule is a cylinder with a hemisphere capping each end, so it is measured as the two bodies
diff --git a/crates/multicalc-robot-model/src/mjcf/joint.rs b/crates/multicalc-robot-model/src/mjcf/joint.rs
index 49e12e6..ef0db0e 100644
--- a/crates/multicalc-robot-model/src/mjcf/joint.rs
+++ b/crates/multicalc-robot-model/src/mjcf/joint.rs
@@ -122,19 +122,15 @@ fn read_limits(
     }
 }
 
-/// Joint settings in precedence order: own attributes, named class, inherited `childclass`,
-/// unnamed default block.
+/// Joint settings in precedence order: own attributes, then the named class. Without one of its
+/// own, a joint takes the inherited `childclass`, and failing that the unnamed default block. A
+/// class already carries everything it inherits.
 fn effective(
     node: Node,
     table: &DefaultTable,
     class_chain: Option<&str>,
 ) -> Result<JointDefaults, ModelError> {
-    let mut settings = table.resolve(None)?.joint.clone();
-    if let Some(name) = class_chain {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.joint);
-    }
-    if let Some(name) = node.attribute("class") {
-        settings = settings.overridden_by(&table.resolve(Some(name))?.joint);
-    }
-    Ok(settings.overridden_by(&JointDefaults::read(node)?))
+    let class = node.attribute("class").or(class_chain);
+    let inherited = &table.resolve(class)?.joint;
+    Ok(inherited.overridden_by(&JointDefaults::read(node)?))
 }
-- 
2.43.0


From 608e0d8b88da1050f2f6dd1b2ff12ee85a1cdffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 49/86] fix: merge top-level default blocks into the one root
 class

---
 .../src/mjcf/defaults.rs                      | 56 ++++++++++++-------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index c457afd..c11f1cc 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -10,9 +10,13 @@ use roxmltree::Node;
 
 use crate::ModelError;
 use crate::xml::{
-    elements, fixed, parse_list, parse_scalar, parse_vector2, parse_vector3, parse_vector4,
+    bad_attribute, elements, fixed, parse_list, parse_scalar, parse_vector2, parse_vector3,
+    parse_vector4,
 };
 
+/// What MuJoCo calls the root class, whether or not the file does.
+const ROOT_CLASS: &str = "main";
+
 /// Geom settings from one default class. `None` means unset at this level.
 #[derive(Debug, Clone, Default, PartialEq)]
 pub(crate) struct GeomDefaults {
@@ -122,12 +126,23 @@ pub(crate) struct DefaultTable {
 }
 
 impl DefaultTable {
-    /// Parses every `<default>` block.
+    /// Parses every `<default>` block. Top-level blocks all state the root class, `main`, so a
+    /// later one adds to what the earlier ones set.
     pub(crate) fn build(root: Node) -> Result<Self, ModelError> {
         let mut table = DefaultTable::default();
         for node in elements(root, "default") {
-            table.walk(node, &ClassDefaults::default())?;
+            let settings = stated_over(&table.root, node)?;
+            table.root = settings.clone();
+            if let Some(name) = node.attribute("class") {
+                table.classes.insert(name.to_owned(), settings.clone());
+            }
+            for nested in elements(node, "default") {
+                table.walk(nested, &settings)?;
+            }
         }
+        table
+            .classes
+            .insert(ROOT_CLASS.to_owned(), table.root.clone());
         Ok(table)
     }
 
@@ -144,23 +159,14 @@ impl DefaultTable {
         }
     }
 
-    /// Flattens one block, then its nested blocks, each starting from what it inherits.
+    /// Flattens one nested block, then those nested in it, each starting from what it inherits.
+    /// Only a top-level block may leave its class unnamed.
     fn walk(&mut self, node: Node, inherited: &ClassDefaults) -> Result<(), ModelError> {
-        let mut settings = inherited.clone();
-        for geom in elements(node, "geom") {
-            settings.geom = settings.geom.overridden_by(&GeomDefaults::read(geom)?);
-        }
-        for joint in elements(node, "joint") {
-            settings.joint = settings.joint.overridden_by(&JointDefaults::read(joint)?);
-        }
-
-        match node.attribute("class") {
-            Some(name) => {
-                self.classes.insert(name.to_owned(), settings.clone());
-            }
-            None => self.root = settings.clone(),
-        }
-
+        let settings = stated_over(inherited, node)?;
+        let name = node
+            .attribute("class")
+            .ok_or_else(|| bad_attribute(node, "class", ""))?;
+        self.classes.insert(name.to_owned(), settings.clone());
         for nested in elements(node, "default") {
             self.walk(nested, &settings)?;
         }
@@ -168,6 +174,18 @@ impl DefaultTable {
     }
 }
 
+/// What one block states, over what it inherits.
+fn stated_over(inherited: &ClassDefaults, node: Node) -> Result<ClassDefaults, ModelError> {
+    let mut settings = inherited.clone();
+    for geom in elements(node, "geom") {
+        settings.geom = settings.geom.overridden_by(&GeomDefaults::read(geom)?);
+    }
+    for joint in elements(node, "joint") {
+        settings.joint = settings.joint.overridden_by(&JointDefaults::read(joint)?);
+    }
+    Ok(settings)
+}
+
 /// Orientation attributes this reader does not handle; only `pos`/`quat` are read.
 const UNSUPPORTED_ORIENTATION_ATTRIBUTES: [&str; 4] = ["euler", "axisangle", "xyaxes", "zaxis"];
 
-- 
2.43.0


From 30e86a262fd6271655b1b3ebc69e46f47288edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 50/86] fix: read every compiler section, not only the first

---
 .../src/mjcf/compiler.rs                      | 65 ++++++++++---------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/compiler.rs b/crates/multicalc-robot-model/src/mjcf/compiler.rs
index ca257a5..f7915ce 100644
--- a/crates/multicalc-robot-model/src/mjcf/compiler.rs
+++ b/crates/multicalc-robot-model/src/mjcf/compiler.rs
@@ -3,7 +3,7 @@
 use roxmltree::Node;
 
 use crate::ModelError;
-use crate::xml::{bad_attribute, element};
+use crate::xml::{bad_attribute, elements};
 
 /// File-wide settings governing how the rest of the document parses.
 pub(crate) struct CompilerSettings {
@@ -26,39 +26,42 @@ pub(crate) enum InertiaFromGeom {
 }
 
 impl CompilerSettings {
-    /// The first `<compiler>` child of `root`, with MJCF's defaults (`angle="degree"`,
-    /// `autolimits="true"`, `inertiafromgeom="auto"`) for absent attributes.
+    /// Every `<compiler>` child of `root` in turn, a later one overriding what it restates, over
+    /// MJCF's defaults (`angle="degree"`, `autolimits="true"`, `inertiafromgeom="auto"`).
     pub(crate) fn read(root: Node) -> Result<Self, ModelError> {
-        let Some(compiler) = element(root, "compiler") else {
-            return Ok(CompilerSettings {
-                angle_in_degrees: true,
-                auto_limits: true,
-                inertia_from_geom: InertiaFromGeom::Auto,
-            });
-        };
-
-        let angle_in_degrees = match compiler.attribute("angle").unwrap_or("degree") {
-            "degree" => true,
-            "radian" => false,
-            value => return Err(bad_attribute(compiler, "angle", value)),
-        };
-        let auto_limits = match compiler.attribute("autolimits").unwrap_or("true") {
-            "true" => true,
-            "false" => false,
-            value => return Err(bad_attribute(compiler, "autolimits", value)),
-        };
-        let inertia_from_geom = match compiler.attribute("inertiafromgeom").unwrap_or("auto") {
-            "false" => InertiaFromGeom::Never,
-            "auto" => InertiaFromGeom::Auto,
-            "true" => InertiaFromGeom::Always,
-            value => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
+        let mut settings = CompilerSettings {
+            angle_in_degrees: true,
+            auto_limits: true,
+            inertia_from_geom: InertiaFromGeom::Auto,
         };
+        for compiler in elements(root, "compiler") {
+            settings.apply(compiler)?;
+        }
+        Ok(settings)
+    }
 
-        Ok(CompilerSettings {
-            angle_in_degrees,
-            auto_limits,
-            inertia_from_geom,
-        })
+    /// Takes over what one `<compiler>` states.
+    fn apply(&mut self, compiler: Node) -> Result<(), ModelError> {
+        match compiler.attribute("angle") {
+            None => {}
+            Some("degree") => self.angle_in_degrees = true,
+            Some("radian") => self.angle_in_degrees = false,
+            Some(value) => return Err(bad_attribute(compiler, "angle", value)),
+        }
+        match compiler.attribute("autolimits") {
+            None => {}
+            Some("true") => self.auto_limits = true,
+            Some("false") => self.auto_limits = false,
+            Some(value) => return Err(bad_attribute(compiler, "autolimits", value)),
+        }
+        match compiler.attribute("inertiafromgeom") {
+            None => {}
+            Some("false") => self.inertia_from_geom = InertiaFromGeom::Never,
+            Some("auto") => self.inertia_from_geom = InertiaFromGeom::Auto,
+            Some("true") => self.inertia_from_geom = InertiaFromGeom::Always,
+            Some(value) => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
+        }
+        Ok(())
     }
 
     /// An angle in the file's units, in radians.
-- 
2.43.0


From 384a77e7a6a43779c0782ca8839baf8de76a50b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 51/86] fix: read the bodies of every worldbody, not only the
 first

---
 crates/multicalc-robot-model/src/mjcf/body.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 5397209..718e498 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -46,11 +46,14 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
     let name = root.attribute("model").unwrap_or("model").to_owned();
     let settings = CompilerSettings::read(root)?;
     let table = DefaultTable::build(root)?;
-    let worldbody = element(root, "worldbody").ok_or(ModelError::MissingWorldbody)?;
+    let worldbodies: Vec<Node> = elements(root, "worldbody").collect();
+    if worldbodies.is_empty() {
+        return Err(ModelError::MissingWorldbody);
+    }
 
     let mut bodies = Vec::new();
     let mut floating_base = false;
-    for node in top_level_bodies(worldbody) {
+    for node in worldbodies.into_iter().flat_map(top_level_bodies) {
         walk_body(
             node,
             None,
-- 
2.43.0


From b06fb1e9e6d75bb69c2dd11aea56f4cf62a04f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 52/86] fix: refuse compiler settings that change masses

---
 crates/multicalc-robot-model/src/error.rs     |  9 +++++++
 .../src/mjcf/compiler.rs                      | 27 ++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/error.rs b/crates/multicalc-robot-model/src/error.rs
index 0cef9f3..a9ff5af 100644
--- a/crates/multicalc-robot-model/src/error.rs
+++ b/crates/multicalc-robot-model/src/error.rs
@@ -33,6 +33,11 @@ pub enum ModelError {
         /// The joint type as written in the file.
         joint_type: String,
     },
+    /// A compiler setting that changes masses, which this reader does not apply.
+    UnsupportedCompilerSetting {
+        /// The setting's name.
+        setting: String,
+    },
     /// Orientation stated other than by `quat`.
     UnsupportedOrientation {
         /// The element carrying the attribute.
@@ -191,6 +196,10 @@ impl core::fmt::Display for ModelError {
                 f,
                 "body {body} has a {joint_type} joint, and only hinge or slide joints are handled"
             ),
+            ModelError::UnsupportedCompilerSetting { setting } => write!(
+                f,
+                "the compiler setting {setting} changes the masses in a way this loader does not apply"
+            ),
             ModelError::UnsupportedOrientation { element, attribute } => write!(
                 f,
                 "the {attribute} attribute on {element} states a turn in a form this loader does not read; write it as a quaternion"
diff --git a/crates/multicalc-robot-model/src/mjcf/compiler.rs b/crates/multicalc-robot-model/src/mjcf/compiler.rs
index f7915ce..392b721 100644
--- a/crates/multicalc-robot-model/src/mjcf/compiler.rs
+++ b/crates/multicalc-robot-model/src/mjcf/compiler.rs
@@ -3,7 +3,7 @@
 use roxmltree::Node;
 
 use crate::ModelError;
-use crate::xml::{bad_attribute, elements};
+use crate::xml::{bad_attribute, elements, parse_list};
 
 /// File-wide settings governing how the rest of the document parses.
 pub(crate) struct CompilerSettings {
@@ -25,6 +25,14 @@ pub(crate) enum InertiaFromGeom {
     Always,
 }
 
+/// Settings that change masses after the tree is read, and what each says when it changes nothing.
+const MASS_SETTINGS: [(&str, &[f64]); 4] = [
+    ("settotalmass", &[-1.0]),
+    ("boundmass", &[0.0]),
+    ("boundinertia", &[0.0]),
+    ("inertiagrouprange", &[0.0, 5.0]),
+];
+
 impl CompilerSettings {
     /// Every `<compiler>` child of `root` in turn, a later one overriding what it restates, over
     /// MJCF's defaults (`angle="degree"`, `autolimits="true"`, `inertiafromgeom="auto"`).
@@ -61,6 +69,16 @@ impl CompilerSettings {
             Some("true") => self.inertia_from_geom = InertiaFromGeom::Always,
             Some(value) => return Err(bad_attribute(compiler, "inertiafromgeom", value)),
         }
+        for (setting, unused) in MASS_SETTINGS {
+            if parse_list(compiler, setting)?.is_some_and(|values| values != unused) {
+                return Err(unsupported(setting));
+            }
+        }
+        match compiler.attribute("balanceinertia") {
+            None | Some("false") => {}
+            Some("true") => return Err(unsupported("balanceinertia")),
+            Some(value) => return Err(bad_attribute(compiler, "balanceinertia", value)),
+        }
         Ok(())
     }
 
@@ -73,3 +91,10 @@ impl CompilerSettings {
         }
     }
 }
+
+/// Error for a setting that would change the masses this reader works out.
+fn unsupported(setting: &str) -> ModelError {
+    ModelError::UnsupportedCompilerSetting {
+        setting: setting.to_owned(),
+    }
+}
-- 
2.43.0


From eef9bbad963028a6862d2ca2b19f27d1292be9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 53/86] fix: refuse frames and other elements whose bodies are
 not read

---
 crates/multicalc-robot-model/src/error.rs     | 11 ++++++
 crates/multicalc-robot-model/src/mjcf/body.rs | 35 ++++++++++++++++---
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc-robot-model/src/error.rs b/crates/multicalc-robot-model/src/error.rs
index a9ff5af..bca7e6e 100644
--- a/crates/multicalc-robot-model/src/error.rs
+++ b/crates/multicalc-robot-model/src/error.rs
@@ -33,6 +33,13 @@ pub enum ModelError {
         /// The joint type as written in the file.
         joint_type: String,
     },
+    /// An element that places or makes bodies in a way this reader does not follow.
+    UnsupportedElement {
+        /// The body it was in, or `world`.
+        body: String,
+        /// The element's name.
+        element: String,
+    },
     /// A compiler setting that changes masses, which this reader does not apply.
     UnsupportedCompilerSetting {
         /// The setting's name.
@@ -196,6 +203,10 @@ impl core::fmt::Display for ModelError {
                 f,
                 "body {body} has a {joint_type} joint, and only hinge or slide joints are handled"
             ),
+            ModelError::UnsupportedElement { body, element } => write!(
+                f,
+                "body {body} holds a {element}, and the bodies in one are not read"
+            ),
             ModelError::UnsupportedCompilerSetting { setting } => write!(
                 f,
                 "the compiler setting {setting} changes the masses in a way this loader does not apply"
diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 718e498..1c75d94 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -21,6 +21,10 @@ use crate::xml::{
 /// Top-level elements this reader consumes. Every other one is listed in `ignored`.
 const READ_SECTIONS: [&str; 3] = ["compiler", "default", "worldbody"];
 
+/// Elements that place or make bodies in a way this reader does not follow.
+const UNSUPPORTED_BODY_ELEMENTS: [&str; 5] =
+    ["frame", "replicate", "attach", "composite", "flexcomp"];
+
 /// One parsed file: bodies in document order, plus what was skipped.
 pub(crate) struct ParsedModel {
     pub name: String,
@@ -51,9 +55,14 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
         return Err(ModelError::MissingWorldbody);
     }
 
+    let mut top_level = Vec::new();
+    for worldbody in worldbodies {
+        top_level.extend(top_level_bodies(worldbody)?);
+    }
+
     let mut bodies = Vec::new();
     let mut floating_base = false;
-    for node in worldbodies.into_iter().flat_map(top_level_bodies) {
+    for node in top_level {
         walk_body(
             node,
             None,
@@ -81,16 +90,33 @@ pub(crate) fn read(document: &Document) -> Result<ParsedModel, ModelError> {
 /// `<include>`. Splicing reinserts the included file's `<mujoco>` contents verbatim, so an
 /// included body list arrives wrapped in its own `<worldbody>`. Nested `<body>` elements are never
 /// wrapped this way, so recursion below the top level is a plain child scan.
-fn top_level_bodies<'doc, 'input>(worldbody: Node<'doc, 'input>) -> Vec<Node<'doc, 'input>> {
+fn top_level_bodies<'doc, 'input>(
+    worldbody: Node<'doc, 'input>,
+) -> Result<Vec<Node<'doc, 'input>>, ModelError> {
+    reject_unsupported_elements(worldbody, "world")?;
     let mut found = Vec::new();
     for child in worldbody.children().filter(Node::is_element) {
         match child.tag_name().name() {
             "body" => found.push(child),
-            "worldbody" => found.extend(top_level_bodies(child)),
+            "worldbody" => found.extend(top_level_bodies(child)?),
             _ => {}
         }
     }
-    found
+    Ok(found)
+}
+
+/// Rejects an element whose bodies would otherwise be missing or out of place.
+fn reject_unsupported_elements(node: Node, body: &str) -> Result<(), ModelError> {
+    for child in node.children().filter(Node::is_element) {
+        let element = child.tag_name().name();
+        if UNSUPPORTED_BODY_ELEMENTS.contains(&element) {
+            return Err(ModelError::UnsupportedElement {
+                body: body.to_owned(),
+                element: element.to_owned(),
+            });
+        }
+    }
+    Ok(())
 }
 
 /// Parses one body, emits it, then recurses into its `<body>` children.
@@ -107,6 +133,7 @@ fn walk_body(
 ) -> Result<(), ModelError> {
     let name = node.attribute("name").unwrap_or("body").to_owned();
     reject_orientation_attributes(node, "body")?;
+    reject_unsupported_elements(node, &name)?;
 
     let position = parse_vector3(node, "pos")?.unwrap_or([0.0; 3]);
     let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
-- 
2.43.0


From 6d3f09ecfc865eb2c047e5f0794baf589cce8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 54/86] fix: refuse a worldbody inside a body

---
 crates/multicalc-robot-model/src/mjcf/body.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 1c75d94..4d5eb81 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -134,6 +134,12 @@ fn walk_body(
     let name = node.attribute("name").unwrap_or("body").to_owned();
     reject_orientation_attributes(node, "body")?;
     reject_unsupported_elements(node, &name)?;
+    if element(node, "worldbody").is_some() {
+        return Err(ModelError::UnsupportedElement {
+            body: name,
+            element: "worldbody".to_owned(),
+        });
+    }
 
     let position = parse_vector3(node, "pos")?.unwrap_or([0.0; 3]);
     let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
-- 
2.43.0


From 04482f9d7f82e5dfec6976067ad1e413a25314ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 55/86] fix: refuse an orientation stated by a shape's default
 class

---
 crates/multicalc-robot-model/src/mjcf/defaults.rs | 8 ++++++++
 crates/multicalc-robot-model/src/mjcf/geometry.rs | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/defaults.rs b/crates/multicalc-robot-model/src/mjcf/defaults.rs
index c11f1cc..a4770e8 100644
--- a/crates/multicalc-robot-model/src/mjcf/defaults.rs
+++ b/crates/multicalc-robot-model/src/mjcf/defaults.rs
@@ -27,6 +27,8 @@ pub(crate) struct GeomDefaults {
     pub quat: Option<[f64; 4]>,
     pub mass: Option<f64>,
     pub density: Option<f64>,
+    /// An orientation attribute this reader does not handle, if one is stated.
+    pub unsupported_orientation: Option<&'static str>,
 }
 
 impl GeomDefaults {
@@ -40,6 +42,9 @@ impl GeomDefaults {
             quat: parse_vector4(node, "quat")?,
             mass: parse_scalar(node, "mass")?,
             density: parse_scalar(node, "density")?,
+            unsupported_orientation: UNSUPPORTED_ORIENTATION_ATTRIBUTES
+                .into_iter()
+                .find(|attribute| node.has_attribute(*attribute)),
         })
     }
 
@@ -54,6 +59,9 @@ impl GeomDefaults {
             quat: other.quat.or(self.quat),
             mass: other.mass.or(self.mass),
             density: other.density.or(self.density),
+            unsupported_orientation: other
+                .unsupported_orientation
+                .or(self.unsupported_orientation),
         }
     }
 }
diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index 4d29d19..bfd54de 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -58,6 +58,13 @@ pub(crate) fn read_geom(
     if settings.mass == Some(0.0) {
         return Ok(None);
     }
+    // The shape's own were refused above; this is one its class states.
+    if let Some(attribute) = settings.unsupported_orientation {
+        return Err(ModelError::UnsupportedOrientation {
+            element: "geom".to_owned(),
+            attribute: attribute.to_owned(),
+        });
+    }
 
     let shape = match settings.geom_type.as_deref().unwrap_or(ASSUMED_TYPE) {
         "sphere" => Shape::Sphere,
-- 
2.43.0


From daf5735d2bdab3fd308c461b525c00223b2bc6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 56/86] fix: check principal moments before turning them

---
 crates/multicalc-robot-model/src/mjcf/body.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/body.rs b/crates/multicalc-robot-model/src/mjcf/body.rs
index 4d5eb81..74aa261 100644
--- a/crates/multicalc-robot-model/src/mjcf/body.rs
+++ b/crates/multicalc-robot-model/src/mjcf/body.rs
@@ -3,6 +3,7 @@
 //! Spatial inertia comes from `<inertial>` where stated, otherwise it is integrated over the
 //! body's geoms.
 
+use multicalc::error::SpatialError;
 use multicalc::linear_algebra::{Matrix, Matrix3D, Vector, Vector3D};
 use multicalc::spatial::{SE3, SO3, SpatialInertia};
 use roxmltree::{Document, Node};
@@ -226,6 +227,10 @@ fn stated_inertia(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
 
     let tensor = match (diagonal, full) {
         (Some(principal), None) => {
+            // Checked before turning, which can hide a bad moment by mixing it with the others.
+            if principal.iter().any(|moment| *moment <= 0.0) {
+                return Err(ModelError::Inertia(SpatialError::NonPositiveInertia));
+            }
             // Principal moments are given in a frame rotated by `quat`; rotate the tensor back
             // into body axes.
             let quat = parse_vector4(node, "quat")?.unwrap_or([1.0, 0.0, 0.0, 0.0]);
-- 
2.43.0


From e3fdf81fa2d58fe8fa9de3eb598d646d6a58984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 57/86] fix: refuse a negative shape size, mass or density

---
 .../src/mjcf/geometry.rs                      | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc-robot-model/src/mjcf/geometry.rs b/crates/multicalc-robot-model/src/mjcf/geometry.rs
index bfd54de..22a89d7 100644
--- a/crates/multicalc-robot-model/src/mjcf/geometry.rs
+++ b/crates/multicalc-robot-model/src/mjcf/geometry.rs
@@ -85,6 +85,24 @@ pub(crate) fn read_geom(
         }
     };
 
+    // A negative size, mass or density measures nothing, and two of them can cancel out.
+    if settings
+        .size
+        .as_deref()
+        .unwrap_or_default()
+        .iter()
+        .any(|size| *size < 0.0)
+    {
+        return Err(stated_badly(node, "size"));
+    }
+    let (stated, quantity) = match settings.mass {
+        Some(mass) => ("mass", mass),
+        None => ("density", settings.density.unwrap_or(ASSUMED_DENSITY)),
+    };
+    if quantity < 0.0 {
+        return Err(stated_badly(node, stated));
+    }
+
     // `fromto` gives the axis endpoints instead of a length and orientation, which is how models
     // laid out around joint positions are usually written.
     let axis = axis(node, &settings, &shape, body)?;
@@ -254,11 +272,7 @@ fn axis(
     // Two ends in the same place pin down no direction, so there is no shape to measure.
     let length = along.norm();
     if length == 0.0 {
-        return Err(bad_attribute(
-            node,
-            "fromto",
-            node.attribute("fromto").unwrap_or_default(),
-        ));
+        return Err(stated_badly(node, "fromto"));
     }
 
     Ok(Some(Axis {
@@ -294,5 +308,14 @@ fn extents(
         (Shape::Sphere | Shape::Cylinder | Shape::Capsule, _, _) => None,
         (_, _, _) => <[f64; 3]>::try_from(size).ok(),
     };
-    reach.ok_or_else(|| bad_attribute(node, "size", node.attribute("size").unwrap_or_default()))
+    reach.ok_or_else(|| stated_badly(node, "size"))
+}
+
+/// Error for an attribute a shape states, or takes from its class, that cannot be measured.
+fn stated_badly(node: Node, attribute: &str) -> ModelError {
+    bad_attribute(
+        node,
+        attribute,
+        node.attribute(attribute).unwrap_or_default(),
+    )
 }
-- 
2.43.0


From b8686fb705a818cbbeb72640ffc5de382f0f3bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 58/86] fix: refuse an include inside another include

---
 crates/multicalc-robot-model/src/mjcf/document.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/multicalc-robot-model/src/mjcf/document.rs b/crates/multicalc-robot-model/src/mjcf/document.rs
index 0689783..7ba9f1f 100644
--- a/crates/multicalc-robot-model/src/mjcf/document.rs
+++ b/crates/multicalc-robot-model/src/mjcf/document.rs
@@ -32,6 +32,15 @@ fn read(path: &Path, depth: usize) -> Result<String, ModelError> {
             let file = node
                 .attribute("file")
                 .ok_or_else(|| bad_attribute(node, "file", ""))?;
+            // The outer one is replaced whole, which leaves nothing of an inner one to replace.
+            if includes
+                .last()
+                .is_some_and(|(outer, _)| outer.contains(&node.range().start))
+            {
+                return Err(ModelError::Xml(format!(
+                    "the include of {file} is inside another include"
+                )));
+            }
             includes.push((node.range(), file.to_owned()));
         }
     }
-- 
2.43.0


From 54abc6cfa4138060fc202d2d1af2f0e9e4468064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 59/86] fix: check a link's stated tensor before turning it

---
 crates/multicalc-robot-model/src/urdf/link.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/multicalc-robot-model/src/urdf/link.rs b/crates/multicalc-robot-model/src/urdf/link.rs
index 9cb7483..dc09c1e 100644
--- a/crates/multicalc-robot-model/src/urdf/link.rs
+++ b/crates/multicalc-robot-model/src/urdf/link.rs
@@ -60,6 +60,9 @@ fn read_inertial(node: Node) -> Result<SpatialInertia<f64>, ModelError> {
         ],
     ]);
 
+    // Checked before turning, which can hide a bad moment by mixing it with the others.
+    SpatialInertia::new(mass, origin.translation(), stated).map_err(ModelError::Inertia)?;
+
     let rotation = origin.rotation().to_matrix();
     let tensor = turned(rotation, stated);
 
-- 
2.43.0


From b4c515b74722095cc59affcf6b18f4a26f292ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 60/86] fix: keep a body's name inside the comment it is
 written in

---
 crates/multicalc-robot-model/src/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index 42f5e48..32f1ff4 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -270,7 +270,8 @@ fn render_push(
         JointParent::Joint(index) => format!("JointParent::Joint({index})"),
     };
 
-    let _ = writeln!(out, "    // {name}");
+    // Escaped, so that a line break in a name cannot end the comment.
+    let _ = writeln!(out, "    // {}", name.escape_debug());
     match joint.kind() {
         JointKind::Fixed => {
             let _ = writeln!(out, "    tree.push(");
-- 
2.43.0


From 82f9c3a8324b89b6ecca0940166faa4a99eb7e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 61/86] fix: refuse to write a tree its configuration capacity
 cannot hold

---
 crates/multicalc-robot-model/src/codegen.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index 32f1ff4..4af9eb8 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -3,6 +3,7 @@
 
 use std::fmt::Write as _;
 
+use multicalc::error::KinematicsError;
 use multicalc::kinematics::{Joint, JointKind, JointParent, KinematicTree};
 
 use crate::{ModelError, RobotModel};
@@ -148,10 +149,17 @@ impl RobotModel {
         };
 
         let (joints, parents) = self.joints_and_parents(&slots);
-        KinematicTree::<VALIDATION_CAPACITY, VALIDATION_CONFIGURATION_CAPACITY, f64>::try_from_joints(
-            &joints, &parents,
-        )
+        let checked = KinematicTree::<
+            VALIDATION_CAPACITY,
+            VALIDATION_CONFIGURATION_CAPACITY,
+            f64,
+        >::try_from_joints(&joints, &parents)
         .map_err(ModelError::Kinematics)?;
+        if checked.config_len() > configuration_capacity {
+            return Err(ModelError::Kinematics(
+                KinematicsError::ConfigurationCapacityExceeded,
+            ));
+        }
 
         let names: Vec<&str> = slots
             .iter()
-- 
2.43.0


From 01ec61b822ccbcde45d078f066ae3350839276a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 62/86] fix: refuse to write numbers single precision cannot
 hold

---
 crates/multicalc-robot-model/src/codegen.rs | 35 +++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/crates/multicalc-robot-model/src/codegen.rs b/crates/multicalc-robot-model/src/codegen.rs
index 4af9eb8..f2b3ff0 100644
--- a/crates/multicalc-robot-model/src/codegen.rs
+++ b/crates/multicalc-robot-model/src/codegen.rs
@@ -37,6 +37,14 @@ impl GeneratedScalar {
             GeneratedScalar::F64 => format!("{value:?}"),
         }
     }
+
+    /// Whether a value is still a number once narrowed to this scalar.
+    fn holds(self, value: f64) -> bool {
+        match self {
+            GeneratedScalar::F32 => (value as f32).is_finite(),
+            GeneratedScalar::F64 => value.is_finite(),
+        }
+    }
 }
 
 /// How to write a model out as Rust source.
@@ -160,6 +168,13 @@ impl RobotModel {
                 KinematicsError::ConfigurationCapacityExceeded,
             ));
         }
+        if joints
+            .iter()
+            .flat_map(written_numbers)
+            .any(|value| !options.scalar.holds(value))
+        {
+            return Err(ModelError::Kinematics(KinematicsError::NonFinite));
+        }
 
         let names: Vec<&str> = slots
             .iter()
@@ -180,6 +195,26 @@ impl RobotModel {
     }
 }
 
+/// Every number of a joint whose size the file decides. Facings and axes are of unit length.
+fn written_numbers(joint: &Joint<f64>) -> impl Iterator<Item = f64> {
+    let (lower, upper) = joint.limits().unwrap_or((0.0, 0.0));
+    let settings = [
+        lower,
+        upper,
+        joint.zero_offset(),
+        joint.armature(),
+        joint.damping(),
+        joint.friction_loss(),
+    ];
+    joint
+        .origin()
+        .translation()
+        .into_array()
+        .into_iter()
+        .chain(joint.anchor().into_array())
+        .chain(settings)
+}
+
 fn render(
     joints: &[Joint<f64>],
     parents: &[JointParent],
-- 
2.43.0


From 2bbf629bb00b246d4c3a349796e1e979090dccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 63/86] fix: unit vectors of entries whose squares leave the
 range of the scalar

---
 crates/multicalc/src/linear_algebra/vector.rs | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/vector.rs b/crates/multicalc/src/linear_algebra/vector.rs
index e10ffda..8fb3645 100644
--- a/crates/multicalc/src/linear_algebra/vector.rs
+++ b/crates/multicalc/src/linear_algebra/vector.rs
@@ -266,22 +266,36 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     }
 
     /// Attempts to return a normalized copy of the vector (i.e. one where the norm is equal to 1),
-    /// returning `None` in the case of a zero vector or a vector with a `NAN` entry.
+    /// returning `None` in the case of a zero vector or a vector with a `NAN` or infinite entry.
     ///
     /// ```
     /// use multicalc::linear_algebra::Vector;
     /// assert_eq!(Vector::new([30.0, 40.0]).try_normalized(), Some(Vector::new([0.6, 0.8])));
+    /// assert_eq!(Vector::new([3e200, 4e200]).try_normalized(), Some(Vector::new([0.6, 0.8])));
     /// assert_eq!(Vector::new([0.0, 0.0]).try_normalized(), None);
     /// assert_eq!(Vector::new([f64::NAN, 0.0]).try_normalized(), None);
     /// ```
     #[inline]
     #[must_use]
     pub fn try_normalized(self) -> Option<Self> {
-        let norm = self.norm();
-        if norm.is_nan() || norm == T::ZERO {
+        let norm_squared = self.norm_squared();
+        // Squares that leave the range of the scalar, or lose digits at the bottom of it, say
+        // nothing of the length, so the entries are brought near one first.
+        if norm_squared.is_infinite() || norm_squared < T::MIN_POSITIVE / T::EPSILON {
+            let largest = self
+                .data
+                .iter()
+                .fold(T::ZERO, |largest, entry| largest.max(entry.abs()));
+            if largest == T::ZERO || !largest.is_finite() || !self.is_finite() {
+                return None;
+            }
+            let scaled = Self::from_fn(|index| self.data[index] / largest);
+            return Some(scaled / scaled.norm());
+        }
+        if norm_squared.is_nan() {
             return None;
         }
-        Some(self / norm)
+        Some(self / norm_squared.sqrt())
     }
 
     /// Normalize the vector in-place (i.e. after this operation the norm is equal to 1).
@@ -299,7 +313,8 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     }
 
     /// Attempt to normalize the vector in-place (i.e. after this operation the norm is equal to 1).
-    /// This method returns `None` and leaves the vector unchanged if the norm is zero or NAN.
+    /// This method returns `None` and leaves the vector unchanged if it is zero or has a `NAN` or infinite
+    /// entry.
     ///
     /// ```
     /// use multicalc::linear_algebra::Vector;
@@ -319,11 +334,7 @@ impl<const N: usize, T: Numeric> Vector<N, T> {
     #[inline]
     #[must_use]
     pub fn try_normalize(&mut self) -> Option<()> {
-        let norm = self.norm();
-        if norm.is_nan() || norm == T::ZERO {
-            return None;
-        }
-        self.do_normalize(norm);
+        *self = self.try_normalized()?;
         Some(())
     }
 
-- 
2.43.0


From c3257bcb928735cc7a0cffe42cd7091630b2bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 64/86] fix: clamp to reversed or NaN bounds without panicking

---
 crates/multicalc/src/scalar/numeric.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index 6358e58..5f287c7 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -554,7 +554,14 @@ impl Numeric for f64 {
     }
     #[inline]
     fn clamp(self, min: Self::Constant, max: Self::Constant) -> Self {
-        self.clamp(min, max)
+        // Compared by hand, as the standard clamp panics on bounds that are reversed or not numbers.
+        if self < min {
+            min
+        } else if max < self {
+            max
+        } else {
+            self
+        }
     }
     #[inline]
     fn max(self, other: Self) -> Self {
@@ -737,7 +744,14 @@ impl Numeric for f32 {
     }
     #[inline]
     fn clamp(self, min: Self::Constant, max: Self::Constant) -> Self {
-        self.clamp(min, max)
+        // Compared by hand, as the standard clamp panics on bounds that are reversed or not numbers.
+        if self < min {
+            min
+        } else if max < self {
+            max
+        } else {
+            self
+        }
     }
     #[inline]
     fn max(self, other: Self) -> Self {
-- 
2.43.0


From 9ba9583bb4317be3acc36e97820c9cef945b1419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 65/86] fix: matrix exponential of entries whose column sum
 overflows

---
 crates/multicalc/src/linear_algebra/expm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/expm.rs b/crates/multicalc/src/linear_algebra/expm.rs
index 974f3f9..b025d9d 100644
--- a/crates/multicalc/src/linear_algebra/expm.rs
+++ b/crates/multicalc/src/linear_algebra/expm.rs
@@ -9,7 +9,8 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
     /// approximant. Exact derivatives flow through: the scaling exponent is chosen from the
     /// (primal) 1-norm, an integer that is never differentiated.
     ///
-    /// Returns [`LinalgError::NonFinite`] if the input or result has a non-finite entry.
+    /// Returns [`LinalgError::NonFinite`] if the input or result has a non-finite entry, or the
+    /// absolute values of a column sum past the largest number.
     ///
     /// ```
     /// use multicalc::linear_algebra::Matrix;
@@ -35,6 +36,10 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
                 nrm = col;
             }
         }
+        // An infinite norm never halves its way down to 1/2.
+        if !nrm.is_finite() {
+            return Err(LinalgError::NonFinite);
+        }
         // Scale so ‖A / 2^s‖₁ ≤ 1/2. `squares` is that exponent and depends only on the primal, so it is AD-safe.
         let mut squares: i32 = 0;
         let mut scaled = nrm;
-- 
2.43.0


From 818882ae0cb9fcde23b364ec808e2c98c0751dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 66/86] fix: walk only the part of a long edge near the map

---
 .../multicalc/src/mapping/occupancy_grid.rs   | 78 ++++++++++++++++++-
 1 file changed, 76 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 663e832..f891994 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -235,6 +235,73 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
     }
 }
 
+/// The part of an edge lying on the map or within a cell of it, `None` if no part does. An end that
+/// is already there stays exactly where it is.
+fn edge_near_map<M, T>(map: &M, start: [T; 2], end: [T; 2]) -> Option<([T; 2], [T; 2])>
+where
+    M: OccupancyMap<T> + ?Sized,
+    T: Numeric + Primal,
+{
+    let resolution = map.resolution();
+    let origin = map.origin();
+    let cells = [map.columns(), map.rows()];
+    let low = [origin[0] - resolution, origin[1] - resolution];
+    let high = [
+        origin[0] + T::from_usize(cells[0] + 1) * resolution,
+        origin[1] + T::from_usize(cells[1] + 1) * resolution,
+    ];
+
+    // How far along the edge, 0 to 1, it comes near the map and leaves it again.
+    let (mut enters, mut leaves) = (T::ZERO, T::ONE);
+    for axis in 0..2 {
+        let travel = end[axis] - start[axis];
+        if travel == T::ZERO {
+            if start[axis] < low[axis] || start[axis] > high[axis] {
+                return None;
+            }
+            continue;
+        }
+        let at_low = (low[axis] - start[axis]) / travel;
+        let at_high = (high[axis] - start[axis]) / travel;
+        enters = enters.max(at_low.min(at_high));
+        leaves = leaves.min(at_low.max(at_high));
+    }
+    if enters > leaves {
+        return None;
+    }
+
+    // Held to the box as well, which rounding on a very long edge would otherwise miss.
+    let point_at = |fraction: T| -> [T; 2] {
+        core::array::from_fn(|axis| {
+            let point = start[axis] + fraction * (end[axis] - start[axis]);
+            point.max(low[axis]).min(high[axis])
+        })
+    };
+    Some((
+        if enters > T::ZERO {
+            point_at(enters)
+        } else {
+            start
+        },
+        if leaves < T::ONE {
+            point_at(leaves)
+        } else {
+            end
+        },
+    ))
+}
+
+/// Sample counts no outline near the map comes to, taken instead of one a vanishing step size made
+/// endless.
+fn samples_on_map<M, T>(map: &M, samples: usize) -> usize
+where
+    M: OccupancyMap<T> + ?Sized,
+    T: Numeric + Primal,
+{
+    let cells = map.columns().saturating_add(map.rows()).saturating_add(4);
+    samples.min(cells.saturating_mul(32))
+}
+
 /// A map whose cells can be marked, from world geometry rather than cell by cell.
 pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
     /// Marks a cell. An index outside the map does nothing.
@@ -331,7 +398,14 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
             if !length.is_finite() {
                 continue;
             }
-            let samples = (length / step).ceil().max(T::ONE).to_f64() as usize;
+            // Only the part near the map is walked, so a long edge costs no more than the map is
+            // wide.
+            let Some((start, end)) = edge_near_map(self, start, end) else {
+                continue;
+            };
+            let length = (end[0] - start[0]).hypot(end[1] - start[1]);
+            let samples =
+                samples_on_map(self, (length / step).ceil().max(T::ONE).to_f64() as usize);
             for sample in 0..=samples {
                 let fraction = T::from_usize(sample) / T::from_usize(samples);
                 self.occupy_point([
@@ -417,7 +491,7 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
             (T::ZERO, T::TWO_PI)
         };
         let step = T::from_f64(0.4) * resolution / radius;
-        let samples = (sweep / step).ceil().max(T::ONE).to_f64() as usize;
+        let samples = samples_on_map(self, (sweep / step).ceil().max(T::ONE).to_f64() as usize);
         for sample in 0..samples {
             let angle = first_angle + T::from_usize(sample) * step;
             self.occupy_point([
-- 
2.43.0


From 980a36bca0868847a0d7870c13d5542d8dc11472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 67/86] fix: the quaternion logarithms carry the higher
 derivatives of a rotation that is exactly the identity

---
 crates/multicalc/src/spatial/quaternion.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/spatial/quaternion.rs b/crates/multicalc/src/spatial/quaternion.rs
index ffca12b..9b64c55 100644
--- a/crates/multicalc/src/spatial/quaternion.rs
+++ b/crates/multicalc/src/spatial/quaternion.rs
@@ -243,11 +243,13 @@ impl<T: Numeric> Quaternion<T> {
     #[must_use]
     pub fn log(self) -> Self {
         let n = self.norm();
-        let vector_norm = (self.x * self.x + self.y * self.y + self.z * self.z).sqrt();
+        let vector_norm_sq = self.x * self.x + self.y * self.y + self.z * self.z;
+        let vector_norm = vector_norm_sq.sqrt();
         // Restrict the small-vector fallback to w > 0; near the negative real axis θ ≈ π, not 0,
         // so 1/‖q‖ would be the wrong coefficient (see the doc note above).
         let coeff = if vector_norm < small_angle::<T>() && self.w > T::ZERO {
-            n.recip()
+            // The second term is nothing next to 1 in value, but carries the higher derivatives.
+            n.recip() * (T::ONE + vector_norm_sq / (T::from_f64(6.0) * n * n))
         } else {
             vector_norm.atan2(self.w) / vector_norm
         };
@@ -506,12 +508,12 @@ impl<T: Numeric> Quaternion<T> {
     #[inline]
     pub fn to_scaled_axis(self) -> Vector3D<T> {
         let quaternion = if self.w < T::ZERO { -self } else { self };
-        let vector_norm = (quaternion.x * quaternion.x
-            + quaternion.y * quaternion.y
-            + quaternion.z * quaternion.z)
-            .sqrt();
+        let vector_norm_sq =
+            quaternion.x * quaternion.x + quaternion.y * quaternion.y + quaternion.z * quaternion.z;
+        let vector_norm = vector_norm_sq.sqrt();
         let coeff = if vector_norm < small_angle::<T>() {
-            T::TWO
+            // The second term is nothing next to 2 in value, but carries the higher derivatives.
+            T::TWO + vector_norm_sq / T::from_f64(3.0)
         } else {
             (T::TWO * vector_norm.atan2(quaternion.w)) / vector_norm
         };
-- 
2.43.0


From 922019d77ce73f8273f5801100fbcdb6d02a21f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 68/86] fix: a norm keeps the second derivatives of components
 that are exactly zero

---
 crates/multicalc/src/linear_algebra/qr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/qr.rs b/crates/multicalc/src/linear_algebra/qr.rs
index a1c7ff1..a690851 100644
--- a/crates/multicalc/src/linear_algebra/qr.rs
+++ b/crates/multicalc/src/linear_algebra/qr.rs
@@ -52,6 +52,9 @@ pub(crate) fn enorm<T: Numeric>(values: &[T]) -> T {
                 let ratio = a / small_max;
                 small_sum += ratio * ratio;
             }
+        } else {
+            // Nothing to add in value, but a zero can carry derivatives.
+            mid_sum += value * value;
         }
     }
 
-- 
2.43.0


From 5301c1b883f5e1c70188fb1cf2c0104705073116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 69/86] fix: dividing polynomials keeps the derivatives of a
 coefficient that is exactly zero

---
 crates/multicalc/src/polynomial/polynomial.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/polynomial/polynomial.rs b/crates/multicalc/src/polynomial/polynomial.rs
index 6874b3f..6873088 100644
--- a/crates/multicalc/src/polynomial/polynomial.rs
+++ b/crates/multicalc/src/polynomial/polynomial.rs
@@ -464,13 +464,12 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
         while power > divisor_degree {
             power -= 1;
             let leading = working.get(power).copied().unwrap_or(T::ZERO);
-            if leading == T::ZERO {
-                continue;
-            }
+            // Not skipped when it is zero: a zero coefficient can carry derivatives.
             let share = leading / divisor_leading;
             let quotient_power = power - divisor_degree;
             match quotient.coefficients.get_mut(quotient_power) {
                 Some(slot) => *slot += share,
+                None if leading == T::ZERO => continue,
                 None => return Err(PolynomialError::DegreeOverflow),
             }
             for (divisor_power, divisor_coefficient) in divisor.coefficients.iter().enumerate() {
-- 
2.43.0


From efbd799093141f651a60673389ddfa7d07ebfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 70/86] fix: the Jacobi eigenvalue and singular value rotations
 keep the derivatives of directions that are already apart

---
 crates/multicalc/src/linear_algebra/svd.rs    | 19 ++++++++----
 .../symmetric_eigendecomposition.rs           | 29 ++++++++++++-------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/svd.rs b/crates/multicalc/src/linear_algebra/svd.rs
index b219dd8..a988956 100644
--- a/crates/multicalc/src/linear_algebra/svd.rs
+++ b/crates/multicalc/src/linear_algebra/svd.rs
@@ -81,7 +81,7 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
 
         // One-sided Jacobi: rotate column pairs of left until its columns are orthogonal.
         let max_sweeps = 60;
-        for _ in 0..max_sweeps {
+        for sweep in 0..max_sweeps {
             let mut off_max = T::ZERO;
             for col_p in 0..N {
                 for col_q in (col_p + 1)..N {
@@ -98,13 +98,22 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
                     if off > off_max {
                         off_max = off;
                     }
-                    if gamma.abs() <= T::EPSILON * scale {
+                    // Columns orthogonal from the start turn by next to nothing, but the turn still
+                    // carries derivatives, so only those of about the same length are left alone.
+                    let settled = gamma.abs() <= T::EPSILON * scale;
+                    let difference = beta - alpha;
+                    if settled && (sweep > 0 || difference.abs() <= T::EPSILON.sqrt() * scale) {
                         continue;
                     }
                     // Rotation that makes columns col_p and col_q orthogonal.
-                    let zeta = (beta - alpha) / (T::TWO * gamma);
-                    let sign = if zeta < T::ZERO { -T::ONE } else { T::ONE };
-                    let tan = sign / (zeta.abs() + (T::ONE + zeta * zeta).sqrt());
+                    let tan = if settled {
+                        let ratio = T::TWO * gamma / difference;
+                        ratio / (T::ONE + (T::ONE + ratio * ratio).sqrt())
+                    } else {
+                        let zeta = difference / (T::TWO * gamma);
+                        let sign = if zeta < T::ZERO { -T::ONE } else { T::ONE };
+                        sign / (zeta.abs() + (T::ONE + zeta * zeta).sqrt())
+                    };
                     let cos = T::ONE / (T::ONE + tan * tan).sqrt();
                     let sin = cos * tan;
                     for i in 0..M {
diff --git a/crates/multicalc/src/linear_algebra/symmetric_eigendecomposition.rs b/crates/multicalc/src/linear_algebra/symmetric_eigendecomposition.rs
index 0356311..73ff85d 100644
--- a/crates/multicalc/src/linear_algebra/symmetric_eigendecomposition.rs
+++ b/crates/multicalc/src/linear_algebra/symmetric_eigendecomposition.rs
@@ -71,10 +71,10 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
             }
         }
 
-        // Anything this small counts as already zero, both for skipping a pair and for stopping.
+        // Anything this small counts as already zero, and a sweep that finds nothing larger is the last.
         // A zero matrix gives a zero threshold, so every pair is skipped and the first sweep ends
-        // the loop; and a pair that is rotated is strictly non-zero, so the rotation below never
-        // divides by zero.
+        // the loop; and a pair that is rotated is strictly non-zero or differs on the diagonal, so
+        // the rotation below never divides by zero.
         let threshold = T::EPSILON * largest_entry;
 
         let mut working = self;
@@ -88,17 +88,26 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
                 for col_q in (col_p + 1)..N {
                     let off_diagonal = working[(col_p, col_q)];
                     off_max = off_max.max(off_diagonal.abs());
-                    if off_diagonal.abs() <= threshold {
+                    let alpha = working[(col_p, col_p)];
+                    let beta = working[(col_q, col_q)];
+                    let gamma = off_diagonal;
+                    // An entry already zero turns by next to nothing, but the turn still carries
+                    // derivatives, so only pairs about equal along the diagonal are left alone.
+                    let settled = gamma.abs() <= threshold;
+                    let difference = beta - alpha;
+                    if settled && difference.abs() <= T::EPSILON.sqrt() * largest_entry {
                         continue;
                     }
 
                     // Rotation that zeroes the entry shared by rows and columns col_p and col_q.
-                    let alpha = working[(col_p, col_p)];
-                    let beta = working[(col_q, col_q)];
-                    let gamma = off_diagonal;
-                    let zeta = (beta - alpha) / (T::TWO * gamma);
-                    let sign = if zeta < T::ZERO { -T::ONE } else { T::ONE };
-                    let tan = sign / (zeta.abs() + (T::ONE + zeta * zeta).sqrt());
+                    let tan = if settled {
+                        let ratio = T::TWO * gamma / difference;
+                        ratio / (T::ONE + (T::ONE + ratio * ratio).sqrt())
+                    } else {
+                        let zeta = difference / (T::TWO * gamma);
+                        let sign = if zeta < T::ZERO { -T::ONE } else { T::ONE };
+                        sign / (zeta.abs() + (T::ONE + zeta * zeta).sqrt())
+                    };
                     let cos = T::ONE / (T::ONE + tan * tan).sqrt();
                     let sin = tan * cos;
 
-- 
2.43.0


From c685b0583f9026f436adcc767fa8e928c28572f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 71/86] fix: keep a refused Kalman update from replacing the
 innovation

---
 .../src/estimation/extended_kalman_filter.rs       | 13 +++++++------
 crates/multicalc/src/estimation/kalman_filter.rs   | 14 ++++++++------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc/src/estimation/extended_kalman_filter.rs b/crates/multicalc/src/estimation/extended_kalman_filter.rs
index 77a0771..dca3330 100644
--- a/crates/multicalc/src/estimation/extended_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/extended_kalman_filter.rs
@@ -346,26 +346,27 @@ where
         let measurement_model_jacobian = Jacobian::from_derivator(self.derivator.clone())
             .evaluate(measurement_model, self.state.as_array())?;
 
-        self.innovation = residual;
-        self.innovation_covariance =
+        let innovation_covariance =
             measurement_model_jacobian * self.covariance * measurement_model_jacobian.transpose()
                 + self.measurement_noise;
 
-        if !self.innovation_covariance.is_finite() {
+        if !innovation_covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
 
         // Kᵀ = S⁻¹·H·Pᵀ, solved rather than inverted. Pᵀ is written out so an asymmetric
         // caller-seeded covariance still gives the exact gain.
         let projected = measurement_model_jacobian * self.covariance.transpose();
-        let kalman_gain = self
-            .innovation_covariance
+        let kalman_gain = innovation_covariance
             .cholesky()
             .map_err(|_| EstimationError::NotPositiveDefinite)?
             .solve_matrix::<STATE_DIMENSION>(projected)
             .transpose();
 
-        self.state += kalman_gain * self.innovation;
+        // Nothing is stored before this point, so a refused reading leaves the filter as it was.
+        self.innovation = residual;
+        self.innovation_covariance = innovation_covariance;
+        self.state += kalman_gain * residual;
 
         let residual_transfer = Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::identity()
             - kalman_gain * measurement_model_jacobian;
diff --git a/crates/multicalc/src/estimation/kalman_filter.rs b/crates/multicalc/src/estimation/kalman_filter.rs
index 830682c..48cf94c 100644
--- a/crates/multicalc/src/estimation/kalman_filter.rs
+++ b/crates/multicalc/src/estimation/kalman_filter.rs
@@ -257,26 +257,28 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
             return Err(EstimationError::NonFinite);
         }
 
-        self.innovation = measurement - self.measurement_model * self.state;
-        self.innovation_covariance =
+        let innovation = measurement - self.measurement_model * self.state;
+        let innovation_covariance =
             self.measurement_model * self.covariance * self.measurement_model.transpose()
                 + self.measurement_noise;
 
-        if !self.innovation_covariance.is_finite() {
+        if !innovation_covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
 
         // Kᵀ = S⁻¹·H·Pᵀ, solved rather than inverted. Pᵀ is written out so an asymmetric
         // caller-seeded covariance still gives the exact gain.
         let projected = self.measurement_model * self.covariance.transpose();
-        let kalman_gain = self
-            .innovation_covariance
+        let kalman_gain = innovation_covariance
             .cholesky()
             .map_err(|_| EstimationError::NotPositiveDefinite)?
             .solve_matrix::<STATE_DIMENSION>(projected)
             .transpose();
 
-        self.state += kalman_gain * self.innovation;
+        // Nothing is stored before this point, so a refused reading leaves the filter as it was.
+        self.innovation = innovation;
+        self.innovation_covariance = innovation_covariance;
+        self.state += kalman_gain * innovation;
 
         let residual = Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::identity()
             - kalman_gain * self.measurement_model;
-- 
2.43.0


From 9e8c7b4cc5b9e601d09c85ee148096f726eaf2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 72/86] fix: keep a refused unscented predict from replacing
 the sigma points

---
 .../src/estimation/unscented_kalman_filter.rs | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/estimation/unscented_kalman_filter.rs b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
index 181df34..e69fb1c 100644
--- a/crates/multicalc/src/estimation/unscented_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
@@ -299,7 +299,7 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
 
         // Push every point through the model: the estimate itself, then a pair either side of it
         // along each direction. Where they land is kept for the next update.
-        self.propagated_centre = Vector::new(process_model.eval(self.state.as_array()));
+        let propagated_centre = Vector::new(process_model.eval(self.state.as_array()));
         let mut propagated_plus = Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::zeros();
         let mut propagated_minus = Matrix::<STATE_DIMENSION, STATE_DIMENSION, T>::zeros();
         for column in 0..STATE_DIMENSION {
@@ -313,22 +313,20 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
                 propagated_minus[(row, column)] = minus[row];
             }
         }
-        self.propagated_plus = propagated_plus;
-        self.propagated_minus = propagated_minus;
 
         // The model is the caller's, so it may have handed back an infinity or a NaN.
-        if !self.propagated_centre.is_finite()
-            || !self.propagated_plus.is_finite()
-            || !self.propagated_minus.is_finite()
+        if !propagated_centre.is_finite()
+            || !propagated_plus.is_finite()
+            || !propagated_minus.is_finite()
         {
             return Err(EstimationError::NonFinite);
         }
 
         // The new estimate is the weighted average of where the points landed.
-        let mut mean = self.propagated_centre.scale(centre_mean);
+        let mut mean = propagated_centre.scale(centre_mean);
         for column in 0..STATE_DIMENSION {
-            let plus = Vector::from_fn(|row| self.propagated_plus[(row, column)]);
-            let minus = Vector::from_fn(|row| self.propagated_minus[(row, column)]);
+            let plus = Vector::from_fn(|row| propagated_plus[(row, column)]);
+            let minus = Vector::from_fn(|row| propagated_minus[(row, column)]);
             mean += (plus + minus).scale(side);
         }
 
@@ -337,12 +335,12 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         let mut covariance = add_weighted_outer_product(
             self.process_noise,
             centre_covariance,
-            self.propagated_centre - mean,
-            self.propagated_centre - mean,
+            propagated_centre - mean,
+            propagated_centre - mean,
         );
         for column in 0..STATE_DIMENSION {
-            let plus = Vector::from_fn(|row| self.propagated_plus[(row, column)]) - mean;
-            let minus = Vector::from_fn(|row| self.propagated_minus[(row, column)]) - mean;
+            let plus = Vector::from_fn(|row| propagated_plus[(row, column)]) - mean;
+            let minus = Vector::from_fn(|row| propagated_minus[(row, column)]) - mean;
             covariance = add_weighted_outer_product(covariance, side, plus, plus);
             covariance = add_weighted_outer_product(covariance, side, minus, minus);
         }
@@ -351,6 +349,10 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
         if !mean.is_finite() || !covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        // Nothing is stored before this point, so a refused step leaves the filter as it was.
+        self.propagated_centre = propagated_centre;
+        self.propagated_plus = propagated_plus;
+        self.propagated_minus = propagated_minus;
         self.points = PointsOrigin::Predicted;
         self.state = mean;
 
-- 
2.43.0


From b9478ca4d2e0d67fcc47cc6844e398c9e23efcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 73/86] fix: redraw spent sigma points again after a refused
 update

---
 crates/multicalc/src/estimation/unscented_kalman_filter.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/multicalc/src/estimation/unscented_kalman_filter.rs b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
index e69fb1c..8b506c5 100644
--- a/crates/multicalc/src/estimation/unscented_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/unscented_kalman_filter.rs
@@ -375,7 +375,6 @@ impl<const STATE_DIMENSION: usize, const MEASUREMENT_DIMENSION: usize, T: Numeri
             Matrix::from_fn(|row, column| state[row] + directions[(row, column)]);
         self.propagated_minus =
             Matrix::from_fn(|row, column| state[row] - directions[(row, column)]);
-        self.points = PointsOrigin::Predicted;
         Ok(())
     }
 
-- 
2.43.0


From 73c14510e89c646c7f7cd5532e489b0e33a62ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 74/86] fix: keep a refused error-state predict from moving the
 filter

---
 .../estimation/error_state_kalman_filter.rs   | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/estimation/error_state_kalman_filter.rs b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
index 0a4f380..47c0f78 100644
--- a/crates/multicalc/src/estimation/error_state_kalman_filter.rs
+++ b/crates/multicalc/src/estimation/error_state_kalman_filter.rs
@@ -549,11 +549,12 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
             return Err(EstimationError::NonFinite);
         }
 
-        self.nominal_state = propagated;
-        self.propagate_covariance(transition, timestep);
-        if !self.covariance.is_finite() {
+        let covariance = self.propagated_covariance(transition, timestep);
+        if !covariance.is_finite() {
             return Err(EstimationError::NonFinite);
         }
+        self.nominal_state = propagated;
+        self.covariance = covariance;
         Ok(())
     }
 
@@ -594,13 +595,13 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
         transition
     }
 
-    /// Carries the spread through the step and adds what the IMU's own noise put into it.
-    fn propagate_covariance(
-        &mut self,
+    /// The spread carried through the step, plus what the IMU's own noise put into it.
+    fn propagated_covariance(
+        &self,
         transition: Matrix<ERROR_DIMENSION, ERROR_DIMENSION, T>,
         timestep: T,
-    ) {
-        self.covariance = transition * self.covariance * transition.transpose();
+    ) -> Matrix<ERROR_DIMENSION, ERROR_DIMENSION, T> {
+        let mut covariance = transition * self.covariance * transition.transpose();
 
         // The noise goes straight onto four diagonal blocks: what carries sensor noise into the
         // error only picks blocks out, so there is no product to form. Jitter in a reading is
@@ -611,14 +612,14 @@ impl<const MEASUREMENT_DIMENSION: usize, T: Numeric>
         let gyroscope_walk = self.imu_noise.gyroscope_bias_random_walk;
         let accelerometer_walk = self.imu_noise.accelerometer_bias_random_walk;
         for offset in 0..3 {
-            self.covariance[(3 + offset, 3 + offset)] += velocity_noise * velocity_noise;
-            self.covariance[(6 + offset, 6 + offset)] += rotation_noise * rotation_noise;
-            self.covariance[(9 + offset, 9 + offset)] += gyroscope_walk * gyroscope_walk * timestep;
-            self.covariance[(12 + offset, 12 + offset)] +=
+            covariance[(3 + offset, 3 + offset)] += velocity_noise * velocity_noise;
+            covariance[(6 + offset, 6 + offset)] += rotation_noise * rotation_noise;
+            covariance[(9 + offset, 9 + offset)] += gyroscope_walk * gyroscope_walk * timestep;
+            covariance[(12 + offset, 12 + offset)] +=
                 accelerometer_walk * accelerometer_walk * timestep;
         }
 
-        self.covariance = self.covariance.symmetrized();
+        covariance.symmetrized()
     }
 
     // ----- Update -----
-- 
2.43.0


From ddadb18c4b0c6d8da49ca5255bbd4047e4a821b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:26 +0000
Subject: [PATCH 75/86] fix: refuse a non-finite motion before it reaches the
 particles

---
 crates/multicalc/src/estimation/monte_carlo_localizer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/estimation/monte_carlo_localizer.rs b/crates/multicalc/src/estimation/monte_carlo_localizer.rs
index 03c65a0..d7b9006 100644
--- a/crates/multicalc/src/estimation/monte_carlo_localizer.rs
+++ b/crates/multicalc/src/estimation/monte_carlo_localizer.rs
@@ -144,12 +144,17 @@ impl<const NUM_BEAMS: usize, T: RandomScalar + Primal> MonteCarloLocalizer<NUM_B
 
     /// Moves every guess by one step of travel and turn, plus the filter's own spread.
     ///
-    /// Returns [`EstimationError::NonFinite`] if a guess ends up holding an infinity or NaN.
+    /// Returns [`EstimationError::NonFinite`] if the travel or the turn is an infinity or NaN, which
+    /// leaves the guesses as they were, or if a guess ends up holding one.
     pub fn predict(
         &mut self,
         delta_arc_length: T,
         delta_heading: T,
     ) -> Result<(), EstimationError> {
+        // One bad reading would carry every guess off with it, so it is refused first.
+        if !delta_arc_length.is_finite() || !delta_heading.is_finite() {
+            return Err(EstimationError::NonFinite);
+        }
         self.filter.predict(&LocalizationMotion {
             delta_arc_length: delta_arc_length.to_f64(),
             delta_heading: delta_heading.to_f64(),
-- 
2.43.0


From ceea66b0878b511608265e45155eff9ccd4c25ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 76/86] fix: keep large matrices from overflowing the SVD's
 orthogonality test

---
 crates/multicalc/src/linear_algebra/svd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/linear_algebra/svd.rs b/crates/multicalc/src/linear_algebra/svd.rs
index a988956..af32a61 100644
--- a/crates/multicalc/src/linear_algebra/svd.rs
+++ b/crates/multicalc/src/linear_algebra/svd.rs
@@ -93,7 +93,8 @@ impl<const M: usize, const N: usize, T: Numeric> Matrix<M, N, T> {
                     if alpha == T::ZERO || beta == T::ZERO {
                         continue;
                     }
-                    let scale = (alpha * beta).sqrt();
+                    // The product of the squared lengths could overflow or underflow on its own.
+                    let scale = alpha.sqrt() * beta.sqrt();
                     let off = gamma.abs() / scale;
                     if off > off_max {
                         off_max = off;
-- 
2.43.0


From 56a6df897798941c4a36afc5c77fe75145d03613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:44 +0000
Subject: [PATCH 77/86] fix: keep the closed-form inverse right for very large
 and very small matrices

---
 crates/multicalc/src/linear_algebra/matrix.rs | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/multicalc/src/linear_algebra/matrix.rs b/crates/multicalc/src/linear_algebra/matrix.rs
index 52dc02c..78e8cf3 100644
--- a/crates/multicalc/src/linear_algebra/matrix.rs
+++ b/crates/multicalc/src/linear_algebra/matrix.rs
@@ -440,6 +440,26 @@ impl<const N: usize, T: Numeric> Matrix<N, N, T> {
     /// ```
     #[inline]
     pub fn inverse(self) -> Result<Self, LinalgError> {
+        if !(2..=4).contains(&N) {
+            return self.inverse_in_range();
+        }
+        // The closed forms multiply N entries together. Entries far from one take that product out
+        // of range, so there the matrix is inverted at unit scale instead.
+        let largest = self.max_abs();
+        let eighth_root = |x: T| x.sqrt().sqrt().sqrt();
+        if largest >= eighth_root(T::MIN_POSITIVE) && largest <= eighth_root(T::MAX) {
+            return self.inverse_in_range();
+        }
+        let unit = T::ONE / largest;
+        if !largest.is_finite() || !unit.is_finite() {
+            return self.inverse_in_range();
+        }
+        Ok(self.scale(unit).inverse_in_range()?.scale(unit))
+    }
+
+    /// The inverse of a matrix whose `N`-fold products of entries stay in range.
+    #[inline]
+    fn inverse_in_range(self) -> Result<Self, LinalgError> {
         match N {
             0 => Ok(self),
             1 => self.inverse_1x1(),
-- 
2.43.0


From 152626fde12b79df32648e5b244a2cd56726d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:19 +0000
Subject: [PATCH 78/86] fix: keep the earlier repairs within the crate's own
 lint policy

---
 .../src/estimation/attitude_correction.rs     |  3 ++-
 .../multicalc/src/mapping/occupancy_grid.rs   | 21 +++++++++++--------
 .../src/optimization/gauss_newton.rs          |  2 +-
 crates/multicalc/src/polynomial/roots.rs      | 10 ++++-----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/multicalc/src/estimation/attitude_correction.rs b/crates/multicalc/src/estimation/attitude_correction.rs
index eed4d13..d4093ea 100644
--- a/crates/multicalc/src/estimation/attitude_correction.rs
+++ b/crates/multicalc/src/estimation/attitude_correction.rs
@@ -29,7 +29,8 @@ pub(super) fn reference_directions<T: Numeric>(
     // What is left of a north that points straight up or down is only rounding, which names no
     // direction. The comparison is written so an infinity or NaN fails it too.
     let smallest_usable = T::EPSILON * T::from_f64(16.0);
-    if !(levelled.norm() > smallest_usable) {
+    let usable = levelled.norm() > smallest_usable;
+    if !usable {
         return None;
     }
     let levelled = levelled.normalized();
diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index f891994..c6799a0 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -253,16 +253,16 @@ where
 
     // How far along the edge, 0 to 1, it comes near the map and leaves it again.
     let (mut enters, mut leaves) = (T::ZERO, T::ONE);
-    for axis in 0..2 {
-        let travel = end[axis] - start[axis];
+    for (((&start, &end), &low), &high) in start.iter().zip(&end).zip(&low).zip(&high) {
+        let travel = end - start;
         if travel == T::ZERO {
-            if start[axis] < low[axis] || start[axis] > high[axis] {
+            if start < low || start > high {
                 return None;
             }
             continue;
         }
-        let at_low = (low[axis] - start[axis]) / travel;
-        let at_high = (high[axis] - start[axis]) / travel;
+        let at_low = (low - start) / travel;
+        let at_high = (high - start) / travel;
         enters = enters.max(at_low.min(at_high));
         leaves = leaves.min(at_low.max(at_high));
     }
@@ -272,10 +272,13 @@ where
 
     // Held to the box as well, which rounding on a very long edge would otherwise miss.
     let point_at = |fraction: T| -> [T; 2] {
-        core::array::from_fn(|axis| {
-            let point = start[axis] + fraction * (end[axis] - start[axis]);
-            point.max(low[axis]).min(high[axis])
-        })
+        let coordinate = |start: T, end: T, low: T, high: T| -> T {
+            (start + fraction * (end - start)).max(low).min(high)
+        };
+        [
+            coordinate(start[0], end[0], low[0], high[0]),
+            coordinate(start[1], end[1], low[1], high[1]),
+        ]
     };
     Some((
         if enters > T::ZERO {
diff --git a/crates/multicalc/src/optimization/gauss_newton.rs b/crates/multicalc/src/optimization/gauss_newton.rs
index fb9cfc9..e4e266f 100644
--- a/crates/multicalc/src/optimization/gauss_newton.rs
+++ b/crates/multicalc/src/optimization/gauss_newton.rs
@@ -162,7 +162,7 @@ impl<D: DerivatorMultiVariable> GaussNewton<D> {
 
             // Gradient convergence: max over columns of |(Jᵀr)_c| / (fnorm · ‖columnₙ‖).
             // The residuals are scaled first: the products of large ones would overflow.
-            let gradient = j.transpose() * Vector::new(residuals.map(|r| r / fnorm));
+            let gradient = j.transpose() * Vector::new(residuals.map(|residual| residual / fnorm));
             let grad = *gradient.as_array();
             let mut gnorm = zero;
             for (col, &column_norm) in pivoted_qr.column_norms.iter().enumerate() {
diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index f7d2ca0..cca40ed 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -389,7 +389,7 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Tracked<COEFFICIENT_COUNT, T> {
     }
 
     /// The coefficient at `power` and how far off it may be.
-    fn at(&self, power: usize) -> (T, T) {
+    fn entry(&self, power: usize) -> (T, T) {
         (
             self.coefficients.get(power).copied().unwrap_or(T::ZERO),
             self.rounding.get(power).copied().unwrap_or(T::ZERO),
@@ -427,14 +427,14 @@ fn divide_tracked<const COEFFICIENT_COUNT: usize, T: Numeric>(
     divisor: &Tracked<COEFFICIENT_COUNT, T>,
 ) -> Option<(Tracked<COEFFICIENT_COUNT, T>, Tracked<COEFFICIENT_COUNT, T>)> {
     let divisor_degree = Polynomial::new(divisor.coefficients).degree()?;
-    let (divisor_highest, divisor_highest_rounding) = divisor.at(divisor_degree);
+    let (divisor_highest, divisor_highest_rounding) = divisor.entry(divisor_degree);
 
     let mut quotient = Tracked::exact(&Polynomial::zeros());
     let mut working = *dividend;
     let mut power = COEFFICIENT_COUNT;
     while power > divisor_degree {
         power -= 1;
-        let (highest, highest_rounding) = working.at(power);
+        let (highest, highest_rounding) = working.entry(power);
         if highest == T::ZERO {
             continue;
         }
@@ -445,7 +445,7 @@ fn divide_tracked<const COEFFICIENT_COUNT: usize, T: Numeric>(
         let offset = power - divisor_degree;
         quotient.add(offset, share, share_rounding);
         for divisor_power in 0..divisor_degree {
-            let (coefficient, rounding) = divisor.at(divisor_power);
+            let (coefficient, rounding) = divisor.entry(divisor_power);
             working.add(
                 offset + divisor_power,
                 -share * coefficient,
@@ -492,7 +492,7 @@ fn chain_from<const COEFFICIENT_COUNT: usize, T: Numeric>(
     let derivative = polynomial.derivative();
     current = Tracked::exact(&derivative);
     for (power, slot) in current.rounding.iter_mut().enumerate() {
-        *slot = previous.at(power + 1).1 * T::from_usize(power + 1)
+        *slot = previous.entry(power + 1).1 * T::from_usize(power + 1)
             + T::EPSILON * derivative.coefficient(power).unwrap_or(T::ZERO).abs();
     }
     if let Some(slot) = chain.get_mut(1) {
-- 
2.43.0


From a5b13aa07fbfa96b838374f73febd0e9a8d69f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:03 +0000
Subject: [PATCH 79/86] fix: finish an Rk45 integration only at the end of its
 span, however short

---
 crates/multicalc/src/ode/rk45.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index f64a09e..9a12b23 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -373,8 +373,8 @@ impl<T: Numeric> Rk45<T> {
                 let mut tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
                 // The last step ends at time_final itself, not a rounding error short of it.
-                let finished =
-                    (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs());
+                let finished = (time_final - tnew).abs()
+                    <= T::EPSILON * time_start.abs().max(time_final.abs());
                 if finished {
                     tnew = time_final;
                 }
-- 
2.43.0


From 210d1325ba4ce3951d5b9941b58fba361a67b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 80/86] fix: never evaluate an Rk45 right-hand side past the
 end of its span to choose the first step

---
 crates/multicalc/src/ode/rk45.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 9a12b23..3d72620 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -276,6 +276,8 @@ impl<T: Numeric> Rk45<T> {
         } else {
             T::from_f64(0.01) * norm0 / norm1
         };
+        // Never probe past the end of the span.
+        let step0 = step0.min(span);
         let state_end = *state_start + derivative_start.scale(dir * step0);
         let derivative_end = f(time_start + dir * step0, &state_end);
         let norm2 = scaled_norm(
-- 
2.43.0


From ee5af19429943ee6ae4ae023be4096296134b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 81/86] fix: an unscaled Levenberg-Marquardt weighs every
 parameter the same

---
 crates/multicalc/src/optimization/levenberg_marquardt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/optimization/levenberg_marquardt.rs b/crates/multicalc/src/optimization/levenberg_marquardt.rs
index 63d62a1..790ad8d 100644
--- a/crates/multicalc/src/optimization/levenberg_marquardt.rs
+++ b/crates/multicalc/src/optimization/levenberg_marquardt.rs
@@ -172,7 +172,7 @@ impl<D: DerivatorMultiVariable> LevenbergMarquardt<D> {
 
             if first {
                 for (slot, &column_norm) in diag.iter_mut().zip(dls.column_norms.iter()) {
-                    *slot = if column_norm == zero {
+                    *slot = if column_norm == zero || !self.scale_diag {
                         one
                     } else {
                         column_norm
-- 
2.43.0


From 3bb1f55cf445466e016470d639f4934978771010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:14 +0000
Subject: [PATCH 82/86] fix: zoh and van_loan keep the state transition when
 the input or noise is large

---
 crates/multicalc/src/discretization/mod.rs    | 32 +++++++++++++++----
 crates/multicalc/src/linear_algebra/matrix.rs |  2 +-
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/discretization/mod.rs b/crates/multicalc/src/discretization/mod.rs
index 3d7e355..ce7af7b 100644
--- a/crates/multicalc/src/discretization/mod.rs
+++ b/crates/multicalc/src/discretization/mod.rs
@@ -38,19 +38,23 @@ pub fn zoh<const N: usize, const M: usize, const NM: usize, T: Numeric>(
     if !timestep.is_finite() || timestep < T::ZERO {
         return Err(LinalgError::InvalidTimestep);
     }
-    // Augmented [[A, B], [0, 0]] · timestep; its exponential's top blocks are F and G.
+    // Augmented [[A, B/size], [0, 0]] · timestep; its exponential's top blocks are F and G/size.
+    let size = block_size(b, timestep);
     let aug = Matrix::<NM, NM, T>::from_fn(|i, j| {
         if i < N && j < N {
             a[(i, j)] * timestep
         } else if i < N {
-            b[(i, j - N)] * timestep
+            b[(i, j - N)] * timestep / size
         } else {
             T::ZERO
         }
     });
     let exponential = aug.expm()?;
     let f = Matrix::<N, N, T>::from_fn(|i, j| exponential[(i, j)]);
-    let input_matrix = Matrix::<N, M, T>::from_fn(|i, j| exponential[(i, N + j)]);
+    let input_matrix = Matrix::<N, M, T>::from_fn(|i, j| exponential[(i, N + j)] * size);
+    if !input_matrix.is_finite() {
+        return Err(LinalgError::NonFinite);
+    }
     Ok((f, input_matrix))
 }
 
@@ -80,12 +84,14 @@ pub fn van_loan<const N: usize, const N2: usize, T: Numeric>(
     if !timestep.is_finite() || timestep < T::ZERO {
         return Err(LinalgError::InvalidTimestep);
     }
-    // Ξ = [[-A, process_noise], [0, Aᵀ]] · timestep. From expm(Ξ) = [[.., G12], [0, G22]]: F = G22ᵀ, Q_d = F · G12.
+    // Ξ = [[-A, process_noise/size], [0, Aᵀ]] · timestep. From expm(Ξ) = [[.., G12], [0, G22]]:
+    // F = G22ᵀ, Q_d = F · G12 · size.
+    let size = block_size(process_noise, timestep);
     let augmented = Matrix::<N2, N2, T>::from_fn(|i, j| {
         if i < N && j < N {
             -a[(i, j)] * timestep
         } else if i < N {
-            process_noise[(i, j - N)] * timestep
+            process_noise[(i, j - N)] * timestep / size
         } else if j >= N {
             a[(j - N, i - N)] * timestep // (Aᵀ)[i-N, j-N] = A[j-N, i-N]
         } else {
@@ -96,10 +102,24 @@ pub fn van_loan<const N: usize, const N2: usize, T: Numeric>(
     let g12 = Matrix::<N, N, T>::from_fn(|i, j| expm_result[(i, N + j)]);
     let g22 = Matrix::<N, N, T>::from_fn(|i, j| expm_result[(N + i, N + j)]);
     let f = g22.transpose();
-    let discrete_q = f * g12;
+    let discrete_q = (f * g12).scale(size);
+    if !discrete_q.is_finite() {
+        return Err(LinalgError::NonFinite);
+    }
     Ok((f, discrete_q))
 }
 
+/// What to divide the upper-right block by before the exponential, at least one. That block
+/// enters the answer linearly, so a large one is taken out rather than left to set how far the
+/// exponential scales `A` down, which would round `A` away.
+#[must_use]
+fn block_size<const R: usize, const C: usize, T: Numeric>(
+    block: Matrix<R, C, T>,
+    timestep: T,
+) -> T {
+    block.scale(timestep).max_abs().max(T::ONE)
+}
+
 /// The filterpy-compatible discrete white-noise covariance for a Newtonian integrator chain of
 /// `DIM` states (`DIM ∈ {2, 3, 4}`). Closed form; no matrix exponential. `variance` is the
 /// continuous white-noise spectral intensity (filterpy's `var`).
diff --git a/crates/multicalc/src/linear_algebra/matrix.rs b/crates/multicalc/src/linear_algebra/matrix.rs
index 78e8cf3..44ebd37 100644
--- a/crates/multicalc/src/linear_algebra/matrix.rs
+++ b/crates/multicalc/src/linear_algebra/matrix.rs
@@ -257,7 +257,7 @@ impl<const ROWS: usize, const COLS: usize, T: Numeric> Matrix<ROWS, COLS, T> {
     /// Largest absolute entry; used to scale near-singularity checks.
     #[inline]
     #[must_use]
-    pub(super) fn max_abs(self) -> T {
+    pub(crate) fn max_abs(self) -> T {
         let mut best = T::ZERO;
         for row in &self.data {
             for x in row {
-- 
2.43.0


From d2f2c3f66d4a3def406d251439c8da01686066cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:46 +0000
Subject: [PATCH 83/86] fix: Riccati and Lyapunov solutions settle relative to
 their own size

---
 crates/multicalc/src/linear_algebra/lyapunov.rs | 4 ++--
 crates/multicalc/src/linear_algebra/riccati.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/lyapunov.rs b/crates/multicalc/src/linear_algebra/lyapunov.rs
index 483077e..d54ff85 100644
--- a/crates/multicalc/src/linear_algebra/lyapunov.rs
+++ b/crates/multicalc/src/linear_algebra/lyapunov.rs
@@ -78,12 +78,12 @@ pub fn solve_discrete_lyapunov<const N: usize, T: Numeric>(
         if !total.is_finite() || !increment_size.is_finite() || !total_size.is_finite() {
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
-        let settled = increment_size <= T::EPSILON_X30 * total_size.max(T::ONE);
+        let settled = increment_size <= T::EPSILON_X30 * total_size;
         if settled {
             // A growing direction the total happens not to weigh can leave the increment at zero
             // although the series has no sum, so the answer has to satisfy the equation as well.
             let residual = a.transpose() * total * a - total + state_cost;
-            let allowed = T::EPSILON.sqrt() * total_size.max(T::ONE);
+            let allowed = T::EPSILON.sqrt() * total_size;
             if !residual.is_finite() || residual.frobenius_norm() > allowed {
                 return Err(LinalgError::DidNotConverge { iters: pass + 1 });
             }
diff --git a/crates/multicalc/src/linear_algebra/riccati.rs b/crates/multicalc/src/linear_algebra/riccati.rs
index 3226965..e51dd7b 100644
--- a/crates/multicalc/src/linear_algebra/riccati.rs
+++ b/crates/multicalc/src/linear_algebra/riccati.rs
@@ -100,7 +100,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
         {
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
-        if increment_size <= T::EPSILON_X30 * cost_size.max(T::ONE) {
+        if increment_size <= T::EPSILON_X30 * cost_size {
             passes_taken = Some(pass + 1);
             break;
         }
@@ -125,7 +125,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
     // Deliberately looser than the settling test the passes use: the leftover is built from
     // several matrix products, so it carries far more rounding than the answer itself, and a
     // tighter bound would turn away correct answers on badly scaled systems.
-    let allowed = T::EPSILON.sqrt() * cost.frobenius_norm().max(T::ONE);
+    let allowed = T::EPSILON.sqrt() * cost.frobenius_norm();
     if !residual.is_finite() || residual.frobenius_norm() > allowed {
         return Err(LinalgError::DidNotConverge {
             iters: passes_taken,
-- 
2.43.0


From e1fd9a98e48ccf2a635a2a63a634a72691e32b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 84/86] fix: divide duals without squaring the divisor

---
 crates/multicalc/src/scalar/dual.rs       |  7 ++++---
 crates/multicalc/src/scalar/hyper_dual.rs | 24 ++++++++++++-----------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/crates/multicalc/src/scalar/dual.rs b/crates/multicalc/src/scalar/dual.rs
index 9267025..932b70c 100644
--- a/crates/multicalc/src/scalar/dual.rs
+++ b/crates/multicalc/src/scalar/dual.rs
@@ -87,13 +87,14 @@ impl<T: Numeric> Mul for Dual<T> {
 
 impl<T: Numeric> Div for Dual<T> {
     type Output = Self;
-    /// Quotient rule: `(u/v)' = (u'v − uv') / v²`. A zero divisor yields `inf`/`NaN`, as with
+    /// Quotient rule: `(u/v)' = (u' − (u/v)·v') / v`. A zero divisor yields `inf`/`NaN`, as with
     /// plain floats.
     #[inline]
     fn div(self, rhs: Self) -> Self {
+        let quotient = self.value / rhs.value;
         Dual {
-            value: self.value / rhs.value,
-            deriv: (self.deriv * rhs.value - self.value * rhs.deriv) / (rhs.value * rhs.value),
+            value: quotient,
+            deriv: (self.deriv - quotient * rhs.deriv) / rhs.value,
         }
     }
 }
diff --git a/crates/multicalc/src/scalar/hyper_dual.rs b/crates/multicalc/src/scalar/hyper_dual.rs
index 88465c0..a6f8652 100644
--- a/crates/multicalc/src/scalar/hyper_dual.rs
+++ b/crates/multicalc/src/scalar/hyper_dual.rs
@@ -81,14 +81,6 @@ impl<T: Numeric> HyperDual<T> {
             eps1eps2: deriv1 * self.eps1eps2 + deriv2 * self.eps1 * self.eps2,
         }
     }
-
-    /// The reciprocal `1/self`, via `φ(x) = 1/x` (`φ' = -1/x²`, `φ'' = 2/x³`).
-    #[inline]
-    #[must_use]
-    fn recip(self) -> Self {
-        let inv = T::ONE / self.real;
-        self.chain(inv, -(inv * inv), T::TWO * inv * inv * inv)
-    }
 }
 
 impl<T: Numeric> Add for HyperDual<T> {
@@ -137,11 +129,21 @@ impl<T: Numeric> Mul for HyperDual<T> {
 
 impl<T: Numeric> Div for HyperDual<T> {
     type Output = Self;
-    /// `self · (1/rhs)`. A zero divisor yields `inf`/`NaN`, as with plain floats.
+    /// Quotient rule to second order: each part of `q = u/v` solves `q·v = u`. A zero divisor
+    /// yields `inf`/`NaN`, as with plain floats.
     #[inline]
-    #[allow(clippy::suspicious_arithmetic_impl)] // division is multiplication by the reciprocal
     fn div(self, rhs: Self) -> Self {
-        self * rhs.recip()
+        let real = self.real / rhs.real;
+        let eps1 = (self.eps1 - real * rhs.eps1) / rhs.real;
+        let eps2 = (self.eps2 - real * rhs.eps2) / rhs.real;
+        let eps1eps2 =
+            (self.eps1eps2 - real * rhs.eps1eps2 - eps1 * rhs.eps2 - eps2 * rhs.eps1) / rhs.real;
+        HyperDual {
+            real,
+            eps1,
+            eps2,
+            eps1eps2,
+        }
     }
 }
 
-- 
2.43.0


From ffd6c40751401fe928b5072ef97da846098262a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:00 +0000
Subject: [PATCH 85/86] fix: take dual atan2 derivatives in the size of the
 operands

---
 crates/multicalc/src/scalar/dual.rs       |  6 +++--
 crates/multicalc/src/scalar/hyper_dual.rs | 32 ++++++++++++++++-------
 crates/multicalc/src/scalar/jet.rs        | 11 +++++---
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/crates/multicalc/src/scalar/dual.rs b/crates/multicalc/src/scalar/dual.rs
index 932b70c..b302dd8 100644
--- a/crates/multicalc/src/scalar/dual.rs
+++ b/crates/multicalc/src/scalar/dual.rs
@@ -351,10 +351,12 @@ impl<T: Numeric> Numeric for Dual<T> {
     /// `(x·y′ − y·x′) / (x² + y²)`.
     #[inline]
     fn atan2(self, other: Self) -> Self {
-        let denom = self.value * self.value + other.value * other.value;
+        // Measured in the larger of the two, so that no square leaves the range.
+        let size = self.value.abs().max(other.value.abs());
+        let (y, x) = (self.value / size, other.value / size);
         Dual {
             value: self.value.atan2(other.value),
-            deriv: (other.value * self.deriv - self.value * other.deriv) / denom,
+            deriv: (x * self.deriv - y * other.deriv) / (x * x + y * y) / size,
         }
     }
     /// Magnitude of `self` with the sign of `sign`. The derivative follows `self`, flipping
diff --git a/crates/multicalc/src/scalar/hyper_dual.rs b/crates/multicalc/src/scalar/hyper_dual.rs
index a6f8652..934e5a6 100644
--- a/crates/multicalc/src/scalar/hyper_dual.rs
+++ b/crates/multicalc/src/scalar/hyper_dual.rs
@@ -67,6 +67,18 @@ impl<T: Numeric> HyperDual<T> {
         }
     }
 
+    /// The same operation on each of the four parts.
+    #[inline]
+    #[must_use]
+    fn map(self, part: impl Fn(T) -> T) -> Self {
+        HyperDual {
+            real: part(self.real),
+            eps1: part(self.eps1),
+            eps2: part(self.eps2),
+            eps1eps2: part(self.eps1eps2),
+        }
+    }
+
     /// Applies a univariate function `φ` given its value and first two derivatives at `real`.
     ///
     /// With `val = φ(real)`, `deriv1 = φ'(real)`, `deriv2 = φ''(real)`, this carries the chain rule
@@ -421,17 +433,19 @@ impl<T: Numeric> Numeric for HyperDual<T> {
     /// as for float `atan2`.
     #[inline]
     fn atan2(self, other: Self) -> Self {
-        let (y, x) = (self, other);
-        let (y_real, x_real) = (y.real, x.real);
-        let r_sq = x_real * x_real + y_real * y_real;
+        // The angle has no unit: measured in the larger of the two, no power leaves the range.
+        let size = self.real.abs().max(other.real.abs());
+        let y = self.map(|part| part / size);
+        let x = other.map(|part| part / size);
+        let r_sq = x.real * x.real + y.real * y.real;
         let r_fourth = r_sq * r_sq;
-        let f_y = x_real / r_sq;
-        let f_x = -y_real / r_sq;
-        let f_yy = -(T::TWO * x_real * y_real) / r_fourth;
-        let f_xx = (T::TWO * x_real * y_real) / r_fourth;
-        let f_xy = (y_real * y_real - x_real * x_real) / r_fourth;
+        let f_y = x.real / r_sq;
+        let f_x = -y.real / r_sq;
+        let f_yy = -(T::TWO * x.real * y.real) / r_fourth;
+        let f_xx = (T::TWO * x.real * y.real) / r_fourth;
+        let f_xy = (y.real * y.real - x.real * x.real) / r_fourth;
         HyperDual {
-            real: y_real.atan2(x_real),
+            real: self.real.atan2(other.real),
             eps1: f_y * y.eps1 + f_x * x.eps1,
             eps2: f_y * y.eps2 + f_x * x.eps2,
             eps1eps2: f_y * y.eps1eps2
diff --git a/crates/multicalc/src/scalar/jet.rs b/crates/multicalc/src/scalar/jet.rs
index 7d686d4..f87b435 100644
--- a/crates/multicalc/src/scalar/jet.rs
+++ b/crates/multicalc/src/scalar/jet.rs
@@ -416,12 +416,15 @@ impl<T: Numeric, const N: usize> Numeric for Jet<T, N> {
     /// higher `uₖ` is solved from that relation. `w₀ = x₀²+y₀²` is zero only at the origin.
     #[inline]
     fn atan2(self, other: Self) -> Self {
-        let y = self.coeffs;
-        let x = other.coeffs;
+        // The angle has no unit: measured in the larger of the two, no square leaves the range.
+        let size = self.coeffs[0].abs().max(other.coeffs[0].abs());
+        let y = self.coeffs.map(|coeff| coeff / size);
+        let x = other.coeffs.map(|coeff| coeff / size);
         // w = x² + y², via the existing jet operators.
-        let w = (other * other + self * self).coeffs;
+        let w =
+            (Jet { coeffs: x } * Jet { coeffs: x } + Jet { coeffs: y } * Jet { coeffs: y }).coeffs;
         let mut out = [T::ZERO; N];
-        out[0] = y[0].atan2(x[0]);
+        out[0] = self.coeffs[0].atan2(other.coeffs[0]);
         for k in 1..N {
             let mut acc = T::ZERO;
             for i in 0..k {
-- 
2.43.0


From d654315a0fdaf7a3891b250447ab0a144144ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:17 +0000
Subject: [PATCH 86/86] fix: keep dual sinh, asin and acos accurate near 0 and
 1

---
 crates/multicalc/src/scalar/numeric.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/scalar/numeric.rs b/crates/multicalc/src/scalar/numeric.rs
index 5f287c7..39b29ed 100644
--- a/crates/multicalc/src/scalar/numeric.rs
+++ b/crates/multicalc/src/scalar/numeric.rs
@@ -322,19 +322,19 @@ pub trait Numeric:
     /// Arcsine, in radians, for `self` in `[-1, 1]`.
     #[inline]
     fn asin(self) -> Self {
-        self.atan2((Self::ONE - self * self).sqrt())
+        self.atan2(((Self::ONE - self) * (Self::ONE + self)).sqrt())
     }
 
     /// Arccosine, in radians, for `self` in `[-1, 1]`.
     #[inline]
     fn acos(self) -> Self {
-        (Self::ONE - self * self).sqrt().atan2(self)
+        ((Self::ONE - self) * (Self::ONE + self)).sqrt().atan2(self)
     }
 
     /// Hyperbolic sine.
     #[inline]
     fn sinh(self) -> Self {
-        (self.exp() - (-self).exp()) * Self::HALF
+        (self.expm1() - (-self).expm1()) * Self::HALF
     }
 
     /// Hyperbolic cosine.
-- 
2.43.0

