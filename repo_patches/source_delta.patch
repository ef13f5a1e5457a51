From 2b925749b28514b2100d2e1d6f1fef4c9c9985c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 01/53] fix: battin1984 continued fraction and u(B) denominator
 (velocities were off by up to 1%)

---
 src/lamberthub/p_solvers/battin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index b0a75a3..17cea71 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -375,7 +375,7 @@ def _u_at_B(B):
     This is equation (55) from the original report [1].
 
     """
-    u = -B / (2 * np.sqrt(1 + B) + 1)
+    u = -B / (2 * (np.sqrt(1 + B) + 1))
     return u
 
 
@@ -435,10 +435,10 @@ def _xi_at_x(x, levels=125):
         sigma,
         m1,
     ) = (
-        0,
         1,
         1,
         1,
+        0,
     )
 
     while np.abs(u) > 1e-18 and m1 <= levels:
-- 
2.43.0


From 918bfe046978fb25dd13afba6891fd661d4c1a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 02/53] fix: exactly polar transfers took the long way for both
 senses of motion

---
 src/lamberthub/utils/angles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 3a1318a..103a187 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -51,7 +51,7 @@ def get_transfer_angle(r1, r2, is_prograde):
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-        dtheta = theta0 if alpha > 0 else 2 * np.pi - theta0
+        dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
 
@@ -90,7 +90,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
     if is_prograde is True:
-        i_h = i_h if alpha > 0 else -i_h
+        i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
 
-- 
2.43.0


From 9d46b5daeead39ce9ea1a308fd9f32955e9ea47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 03/53] fix: avanzini2008 returned rotated velocities for
 transfers in the fundamental plane

---
 src/lamberthub/ecc_solvers/utils.py | 5 +++--
 src/lamberthub/utils/angles.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index b44ec73..9072ce2 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -511,8 +511,9 @@ def coe_at_eccT(ecc_T, r1, r2, sense):
     # Solve for inclination and RAAN
     inc, raan = get_orbit_inc_and_raan_from_position_vectors(r1, r2, sense)
 
-    # Get a vector in the direction of the line of nodes
-    n = np.cross(np.array([0, 0, 1]), i_h)
+    # Get a vector in the direction of the line of nodes. Built from the RAAN, it
+    # is also defined for orbits contained in the fundamental plane.
+    n = np.array([np.cos(raan), np.sin(raan), 0.0])
     px = r1.dot(n)
     py = r1.dot(cross(i_h, n)) / norm(i_h)
     argp = (np.arctan2(py, px) - nu_1) % (2 * np.pi)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 103a187..114ed81 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -127,7 +127,7 @@ def get_orbit_inc_and_raan_from_position_vectors(r1, r2, is_prograde):
     # If the orbit is coplanar with fundamental plane, neither inc or raan are
     # defined. TODO: use atol and rtol instead of pure floating zero comparison
     if i_h[0] == 0 and i_h[1] == 0:
-        inc, raan = 0, 0
+        inc, raan = (0.0 if i_h[2] > 0 else np.pi), 0.0
     else:
         # Inclination is always bounded between [0, pi], so no correction is
         # needed
-- 
2.43.0


From b33caf3f07c7b22a24b3fb4fd99a206a0b789624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 04/53] fix: the final position vector was never validated

---
 src/lamberthub/utils/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 8b78fbe..7cff373 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -87,7 +87,7 @@ def assert_position_vectors_are_valid(r1, r2):
     """
     # Check if position vectors have proper dimensions
     for r in [r1, r2]:
-        assert_position_vector_is_valid(r1)
+        assert_position_vector_is_valid(r)
 
     # Check both vectors are different
     if np.all(np.equal(r1, r2)):
-- 
2.43.0


From 5fbb7a863341422d04b4a866270f5e02b47e2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 05/53] fix: thorne2004 could not bracket the minimum-energy
 transfer

---
 src/lamberthub/series_solvers/thorne.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index daa81ec..e6c30c7 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -169,8 +169,7 @@ def get_minimum_energy_tof(mu, s, c, mp):
     This is equation (4) from Thorne's paper evaluated at :math:`a=s/2`.
 
     """
-    beta = 2 * np.arcsin(np.sqrt((s - c) / s))
-    return np.sqrt((s / 2) ** 3 / mu) * (np.pi + mp * (beta - np.sin(beta)))
+    return lagrange_tof(mu, s, c, s / 2, mp, "A")
 
 
 def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
@@ -219,11 +218,11 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         lower = expand_lower_hyperbolic_bound(mu, s, c, tof, mp, lower)
     elif tof < t_min:
         branch = "A"
-        lower = s / 2 * (1 + np.finfo(float).eps)
+        lower = s / 2
         upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
     else:
         branch = "B"
-        lower = s / 2 * (1 + np.finfo(float).eps)
+        lower = s / 2
         upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
 
     def f(a):
-- 
2.43.0


From 5fb3f774cc2ec91b2c79ce5a41e3ad15745d0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 06/53] fix: jiang2016 looped forever just above the
 minimum-energy time of flight

---
 src/lamberthub/p_solvers/jiang.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index f754adc..719e0ab 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -248,7 +248,7 @@ def _elliptic_alpha_beta(a, s, c, theta, long_period):
         Signed elliptic beta angle in radians.
 
     """
-    alpha = 2 * np.arcsin(np.sqrt(s / (2 * a)))
+    alpha = 2 * np.arcsin(np.sqrt(min(s / (2 * a), 1.0)))
     if long_period:
         alpha = 2 * np.pi - alpha
 
@@ -319,8 +319,7 @@ def _find_and_solve_elliptic(
     Combines bracket expansion and the Newton-bisection iteration into a single
     JIT-compiled function, removing all Python closure overhead.
     """
-    eps = 1.4901161193847656e-08
-    lower = a_min * (1 + eps)
+    lower = a_min
     upper = max(2 * lower, 1.0)
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
@@ -360,7 +359,7 @@ def _find_and_solve_elliptic(
 
         f_new = _tof_elliptic(mu, x_new, s, c, theta, long_period) - tof
         if np.abs(f_new) <= atol or (
-            np.abs(x_new - x) <= atol + rtol * np.abs(x_new)
+            np.abs(x_new - x) <= rtol * np.abs(x_new)
             and np.abs(f_new) <= np.abs(f_x)
         ):
             return x_new, numiter
-- 
2.43.0


From 933375137f45484d0ebb33816d7300170b2e12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 07/53] fix: pan2016 returned a discontinuity of the transfer
 time as a solution

---
 src/lamberthub/p_solvers/pan.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 42a1b4a..53618e0 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -177,14 +177,20 @@ def _find_argument_of_periapsis(mu, geometry, tof, maxiter, atol, rtol):
     if not brackets:
         raise ValueError("No feasible solution, try lower M!")
 
-    omega_low, omega_high = brackets[0]
-
     def residual(omega):
         """Evaluate the transfer-time residual for the current bracket."""
         return _tof_at_omega(mu, geometry, omega) - tof
 
-    omega, numiter = _bezier_root(residual, omega_low, omega_high, maxiter, atol, rtol)
-    return omega, numiter
+    # The residual also changes sign across the discontinuities of the transfer
+    # time, so a bracket is only trusted if the time of flight is met at its root.
+    for omega_low, omega_high in brackets:
+        omega, numiter = _bezier_root(
+            residual, omega_low, omega_high, maxiter, atol, rtol
+        )
+        if np.abs(residual(omega)) <= 1e-5 * tof:
+            return omega, numiter
+
+    raise ValueError("Could not locate the argument of periapsis!")
 
 
 def _get_omega_brackets(mu, geometry, tof):
-- 
2.43.0


From 9aa5db9489140b3879bcfa133e6a78d375066bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 08/53] fix: der2011 used the wrong angle parameter for
 parabolic transfers

---
 src/lamberthub/universal_solvers/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 401c1bb..383fc94 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -148,7 +148,7 @@ def _find_path_parameter(
 ):
     """Solve for Der's path parameter with the Laguerre method."""
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
-        return 1.0, sigma, 1
+        return 1.0, _compute_y(sigma, 1.0), 1
 
     is_elliptic = M > 0 or tau > tau_p
     tau_me = _compute_minimum_energy_time(sigma, M) if is_elliptic else None
-- 
2.43.0


From 95af843dbae4bd3bac8977306e7119775b7fa83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 09/53] fix: der2011 fallback could not bracket minimum-energy
 and near-parabolic transfers

---
 src/lamberthub/universal_solvers/der.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 383fc94..bc8ca7c 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -177,7 +177,10 @@ def _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol):
 def _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
-    lower, upper = (-1 + eps, 0.0) if x0 < 0 else (0.0, 1 - eps)
+    # The time of flight is monotonic in the path parameter for M = 0, so both
+    # regions can overlap to enclose a minimum-energy root.
+    margin = 0.1 if M == 0 else 0.0
+    lower, upper = (-1 + eps, margin) if x0 < 0 else (-margin, 1 - eps)
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
@@ -212,7 +215,7 @@ def _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol):
 
 def _solve_hyperbolic_bracketed(sigma, tau, maxiter, atol, rtol):
     """Solve Sun's hyperbolic Lambert equation on the valid path interval."""
-    lower = 1.0 + 1.4901161193847656e-08
+    lower = 1.0 + 1e-6
     upper = 2.0
 
     def hyperbolic_equation(x):
-- 
2.43.0


From b8781a717027d329c581872318326f5e2430f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 10/53] fix: der2011 returned the other path for transfers
 close to the minimum time

---
 src/lamberthub/universal_solvers/der.py | 28 +++++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index bc8ca7c..388651d 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -95,8 +95,9 @@ def der2011(
     if M > 0 and tau <= tau_p:
         raise ValueError("No feasible solution, try lower M!")
 
+    x_min = 0.0
     if M > 0:
-        tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
+        tau_min, x_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
         if tau < tau_min:
             raise ValueError("No feasible solution, try lower M!")
 
@@ -107,6 +108,7 @@ def der2011(
         tau_p,
         M,
         is_low_path,
+        x_min,
         maxiter,
         atol,
         rtol,
@@ -142,6 +144,7 @@ def _find_path_parameter(
     tau_p,
     M,
     is_low_path,
+    x_min,
     maxiter,
     atol,
     rtol,
@@ -159,28 +162,35 @@ def _find_path_parameter(
         x0 = 0.5 if is_low_path else -0.5
 
     if is_elliptic:
-        return _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol)
+        return _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol)
 
     return _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol)
 
 
-def _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation."""
     x, y, numiter, needs_fallback = _solve_elliptic_jit(
         sigma, tau, M, x0, maxiter, atol, rtol
     )
-    if needs_fallback:
-        return _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol)
+    # The low and high path solutions lie at each side of the minimum-time one.
+    wrong_path = M > 0 and (x > x_min) != (x0 > 0)
+    if needs_fallback or wrong_path:
+        return _solve_elliptic_bracketed(
+            sigma, tau, M, x0, x_min, maxiter, atol, rtol
+        )
     return x, y, numiter
 
 
-def _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
     # The time of flight is monotonic in the path parameter for M = 0, so both
     # regions can overlap to enclose a minimum-energy root.
     margin = 0.1 if M == 0 else 0.0
-    lower, upper = (-1 + eps, margin) if x0 < 0 else (-margin, 1 - eps)
+    if x0 < 0:
+        lower, upper = -1 + eps, x_min + margin
+    else:
+        lower, upper = x_min - margin, 1 - eps
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
@@ -463,7 +473,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         x = 0.1
     else:
         y = _compute_y(sigma, x)
-        return 2 * (1 / x - sigma**3 / y) / 3
+        return 2 * (1 / x - sigma**3 / y) / 3, x
 
     for _ in range(maxiter):
         y = _compute_y(sigma, x)
@@ -471,7 +481,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         dphi = 2 * (1 - x**2) * (1 - sigma**5 * x**3 / y**3) / (3 * x**2)
 
         if np.abs(phi) <= atol + rtol * M * np.pi:
-            return 2 * (1 / x - sigma**3 / y) / 3
+            return 2 * (1 / x - sigma**3 / y) / 3, x
 
         x -= phi / dphi
         x = np.clip(x, 2.220446049250313e-16, 0.999999)
-- 
2.43.0


From 459dc3667ef534b415c60617f1221c3f69dd0343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 11/53] fix: negrete2024 returned an average of both paths
 close to the minimum time

---
 src/lamberthub/universal_solvers/negrete.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index dc51967..e28f71d 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -126,7 +126,7 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
         I1 = moments[1]
         z = _real_solution(I1 / I0, atol, rtol)
         return _refine_single_root(
-            z, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+            z, z_min, z_max, 2.0, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
         )
 
     z_min = (2.0 * M * np.pi) ** 2
@@ -161,11 +161,13 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     if r1r > r2r:
         r1r, r2r = r2r, r1r
 
+    # The refinement contours must enclose just one of the two roots
+    max_radius = min(2.0, 0.5 * (r2r - r1r))
     refined_lo = _refine_single_root(
-        r1r, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        r1r, z_min, z_max, max_radius, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
     refined_hi = _refine_single_root(
-        r2r, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        r2r, z_min, z_max, max_radius, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
     if refined_lo > refined_hi:
         refined_lo, refined_hi = refined_hi, refined_lo
@@ -174,18 +176,21 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
 
 @jit(cache=True, fastmath=True)
 def _refine_single_root(
-    z, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+    z, z_min, z_max, max_radius, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
 ):
     """Refine a candidate root using smaller local contours."""
     for _ in range(2):
         center = _refinement_center(z, z_min, z_max)
-        radius = _refinement_radius(center, z_min, z_max)
+        radius = _refinement_radius(center, z_min, z_max, max_radius)
         moments = _contour_integrals(
             center, radius, mu, r1_norm, r2_norm, A, tof, 1, numiter
         )
         I0 = moments[0]
         I1 = moments[1]
         z = _real_solution(I1 / I0, atol, rtol)
+    residual = _tof_at_z(z, mu, r1_norm, r2_norm, A) - tof
+    if not abs(residual) <= 1e-6 * tof:
+        raise ValueError("Contour integral did not converge to a solution!")
     return z
 
 
@@ -199,9 +204,9 @@ def _refinement_center(z, z_min, z_max):
 
 
 @jit(cache=True, fastmath=True)
-def _refinement_radius(z, z_min, z_max):
+def _refinement_radius(z, z_min, z_max, max_radius):
     """Choose a bounded contour radius around a candidate root."""
-    radius = 2.0
+    radius = max_radius
     if z_min == 0.0 and 0.0 < z < 1.0:
         a = z
         b = 0.5 * (z_max - z)
-- 
2.43.0


From bed4295e43cfa4043c8af566d1e4098af30fb2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 12/53] fix: negrete2024 hyperbolic bracket skipped over the
 root for small transfer angles

---
 src/lamberthub/universal_solvers/negrete.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index e28f71d..938d561 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -271,13 +271,19 @@ def _tof_at_z(z, mu, r1_norm, r2_norm, A):
 def _hyperbolic_contour(mu, r1_norm, r2_norm, A, tof):
     """Build a negative-z contour for hyperbolic single-revolution transfers."""
     z_low = -1.0
+    z_high, z_invalid = 0.0, 0.0
     success = False
     for _ in range(64):
         y = _y_at_z(np.complex128(z_low), r1_norm, r2_norm, A).real
-        if y > 0.0 and _tof_at_z(z_low, mu, r1_norm, r2_norm, A) < tof:
+        if y <= 0.0:
+            z_invalid = z_low
+        elif _tof_at_z(z_low, mu, r1_norm, r2_norm, A) < tof:
             success = True
             break
-        z_low *= 2.0
+        else:
+            z_high = z_low
+        # Step back towards the root if y is not defined for such a low z value
+        z_low = 2.0 * z_low if z_invalid == 0.0 else 0.5 * (z_high + z_invalid)
 
     center = 0.5 * z_low
     radius = abs(center) * (1.0 - 1e-6)
-- 
2.43.0


From b9f16f8ae83e3ce19ab8efb488f54f406ed78227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 13/53] fix: izzo2015 neither validated its input nor accepted
 full_output

---
 src/lamberthub/universal_solvers/izzo.py | 45 +++++++++++++++++++-----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0e293b8..e4ad46c 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -1,13 +1,20 @@
 """A module hosting all algorithms devised by Izzo"""
 
+import time
+
 from numba import njit as jit
 import numpy as np
 from numpy import cross, pi
 
 from lamberthub.linalg import norm
+from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
-@jit(cache=True, fastmath=True)
 def izzo2015(
     mu,
     r1,
@@ -19,6 +26,7 @@ def izzo2015(
     maxiter=35,
     atol=1e-5,
     rtol=1e-7,
+    full_output=False,
 ):
     r"""
     Solves Lambert problem using Izzo's devised algorithm.
@@ -43,6 +51,8 @@ def izzo2015(
         Absolute tolerance.
     rtol: float
         Relative tolerance.
+    full_output: bool
+        If True, the number of iterations and time per iteration are also returned.
 
     Returns
     -------
@@ -50,8 +60,10 @@ def izzo2015(
         Initial velocity vector.
     v2: numpy.array
         Final velocity vector.
-    numiter: list
+    numiter: int
         Number of iterations.
+    tpi: float
+        Time per iteration in seconds.
 
     Notes
     -----
@@ -80,8 +92,23 @@ def izzo2015(
 
     """
     # Check that input parameters are safe
-    # assert_parameters_are_valid(mu, r1, r2, tof, M)
+    assert_parameters_are_valid(mu, r1, r2, tof, M)
+    dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
+
+    tic = time.perf_counter() if full_output else 0.0
+    v1, v2, numiter = _izzo2015(
+        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+    )
+    tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
+
+    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
+
+@jit(cache=True, fastmath=True)
+def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
+    """Solve Lambert's problem once the input parameters are known to be valid."""
     # Chord
     c = r2 - r1
     c_norm, r1_norm, r2_norm = norm(c), norm(r1), norm(r2)
@@ -112,7 +139,7 @@ def izzo2015(
     T = np.sqrt(2 * mu / s**3) * tof
 
     # Find solutions and filter them
-    x, y = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    x, y, numiter = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
 
     # Reconstruct
     gamma = np.sqrt(mu * s / 2)
@@ -126,7 +153,7 @@ def izzo2015(
     # Solve for the initial and final velocity
     v1 = V_r1 * (r1 / r1_norm) + V_t1 * i_t1
     v2 = V_r2 * (r2 / r2_norm) + V_t2 * i_t2
-    return v1, v2
+    return v1, v2, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -163,10 +190,10 @@ def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     x_0 = _initial_guess(T, ll, M, is_low_path)
 
     # Start Householder iterations from x_0 and find x, y
-    x = _householder(x_0, T, ll, M, atol, rtol, maxiter)
+    x, numiter = _householder(x_0, T, ll, M, atol, rtol, maxiter)
     y = _compute_y(x, ll)
 
-    return x, y
+    return x, y, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -332,7 +359,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
     this module and is not really reusable.
 
     """
-    for _ in range(1, maxiter + 1):
+    for numiter in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
@@ -347,7 +374,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
-            return p
+            return p, numiter
         p0 = p
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From 7c73b8d2a02826d4d5ac1fdb64c95caa76974426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 14/53] fix: izzo2015 failed to converge for parabolic
 transfers

---
 src/lamberthub/universal_solvers/izzo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index e4ad46c..8a2de76 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -363,6 +363,14 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
+        if M == 0 and abs(p0 - 1.0) < 1e-6:
+            # The derivatives are singular for the parabolic transfer. Apply a
+            # Newton step with the limit of the first one.
+            p = p0 + 5 * fval / (2 * (1 - ll**5))
+            if abs(p - p0) < rtol * np.abs(p0) + atol:
+                return p, numiter
+            p0 = p
+            continue
         fder = _tof_equation_p(p0, y, T, ll)
         fder2 = _tof_equation_p2(p0, y, T, fder, ll)
         fder3 = _tof_equation_p3(p0, y, T, fder, fder2, ll)
-- 
2.43.0


From 9666fbc495f62008e76af925c48c5cdd8935b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 15/53] fix: delatorre2018 failed to converge for parabolic
 transfers

---
 src/lamberthub/regularization/delatorre.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f176ad6..6cb5eba 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -258,19 +258,19 @@ def _stumpff1(z):
 
 def _stumpff2(z):
     """Evaluate the second Stumpff function."""
-    if z > 1e-8:
+    if z > 1e-2:
         return (1 - np.cos(np.sqrt(z))) / z
-    if z < -1e-8:
+    if z < -1e-2:
         return (np.cosh(np.sqrt(-z)) - 1) / (-z)
     return _stumpff(2, z)
 
 
 def _stumpff3(z):
     """Evaluate the third Stumpff function."""
-    if z > 1e-8:
+    if z > 1e-2:
         sqrt_z = np.sqrt(z)
         return (sqrt_z - np.sin(sqrt_z)) / (z * sqrt_z)
-    if z < -1e-8:
+    if z < -1e-2:
         sqrt_neg_z = np.sqrt(-z)
         return (np.sinh(sqrt_neg_z) - sqrt_neg_z) / (-z * sqrt_neg_z)
     return _stumpff(3, z)
-- 
2.43.0


From 629d6a257a57a214d76aaaa52f4c939aedaf3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 16/53] fix: negrete2024 Stumpff functions lost precision
 around the parabola

---
 src/lamberthub/universal_solvers/negrete.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 938d561..efb34bf 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -314,7 +314,7 @@ def _y_at_z(z, r1_norm, r2_norm, A):
 @jit(cache=True, fastmath=True)
 def _c2(z):
     """Evaluate the second Stumpff function for a complex scalar z."""
-    if abs(z) < 1e-8:
+    if abs(z) < 1e-2:
         return _stumpff_series(z, 2)
     return (1.0 - np.cos(np.sqrt(z))) / z
 
@@ -322,7 +322,7 @@ def _c2(z):
 @jit(cache=True, fastmath=True)
 def _c3(z):
     """Evaluate the third Stumpff function for a complex scalar z."""
-    if abs(z) < 1e-8:
+    if abs(z) < 1e-2:
         return _stumpff_series(z, 3)
     sqrt_z = np.sqrt(z)
     return (sqrt_z - np.sin(sqrt_z)) / (z * sqrt_z)
-- 
2.43.0


From 726e418e3a8cdb7a0801815dbf38d79c566babcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 17/53] fix: vallado2013 readjusted psi with the product of the
 position norms instead of their sum

---
 src/lamberthub/universal_solvers/vallado.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 344f24f..f0ab88b 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -113,7 +113,7 @@ def vallado2013(
                 psi = (
                     0.8
                     * (1.0 / c3(psi))
-                    * (1.0 - (r1_norm * r2_norm) * np.sqrt(c2(psi)) / A)
+                    * (1.0 - (r1_norm + r2_norm) * np.sqrt(c2(psi)) / A)
                 )
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
-- 
2.43.0


From abe573de8ae43853b55bdeeaf05aec19d1a3aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 18/53] fix: gauss1809 used the circular cosine for hyperbolic
 transfers and none for parabolic ones

---
 src/lamberthub/p_solvers/gauss.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 57d6f77..935b36c 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -129,22 +129,16 @@ def gauss1809(
         raise ValueError("Exceeded maximum number of iterations.")
 
     # Once the value of y has been found, the shape and nature of the orbit can
-    # be determined from the sign of x variable
-    if x > 0:
-        # The orbit is an ellipse, being deltaAnomaly = deltaE
-        deltaAnomaly = 2 * np.arccos(1 - 2 * x)
-    elif x == 0:
-        # The orbit is a parabola
-        pass
-    else:
-        # The orbit is an hyperbola, being deltaAnomaly = deltaF
-        deltaAnomaly = 2 * np.arccosh(1 - 2 * x)
+    # be determined from the sign of x variable. It is an ellipse if x > 0, being
+    # 1 - 2 * x = cos(deltaE / 2), a parabola if x = 0 and an hyperbola if x < 0,
+    # being 1 - 2 * x = cosh(deltaF / 2)
+    cos_half_anomaly = 1 - 2 * x
 
     # Compute the orbital parameter
     p = (r1_norm * r2_norm * (1 - np.cos(dtheta))) / (
         r1_norm
         + r2_norm
-        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * np.cos(deltaAnomaly / 2)
+        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * cos_half_anomaly
     )
 
     # Evaluate f, g, f_dot and g_dot functions for future solving v1 and v2
-- 
2.43.0


From db9c291e4b69a10ffa975225fba27774a9a3f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 19/53] fix: gauss1809 final velocity ignored the norm of the
 final position vector

---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 935b36c..ec0c3a4 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -147,7 +147,7 @@ def gauss1809(
     f_dot = (
         np.sqrt(mu / p)
         * np.tan(dtheta / 2)
-        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r1_norm)
+        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r2_norm)
     )
     g_dot = 1 - r1_norm * (1 - np.cos(dtheta)) / p
 
-- 
2.43.0


From 578a65fbd4811f2ba00012dd8acec20c3feec0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 20/53] fix: gauss1809 returned false solutions for transfer
 angles close to 360 degrees

---
 src/lamberthub/p_solvers/gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index ec0c3a4..099fdcd 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -128,6 +128,11 @@ def gauss1809(
     else:
         raise ValueError("Exceeded maximum number of iterations.")
 
+    # The ratio of the sector to the triangle area shares the sign of the latter,
+    # and it only makes sense if the X(x) series was able to converge
+    if y * np.cos(dtheta / 2) <= 0 or not np.isclose(_X_at_x(x), _X_at_x(x, 100)):
+        raise ValueError("Failed to converge to a valid solution.")
+
     # Once the value of y has been found, the shape and nature of the orbit can
     # be determined from the sign of x variable. It is an ellipse if x > 0, being
     # 1 - 2 * x = cos(deltaE / 2), a parabola if x = 0 and an hyperbola if x < 0,
-- 
2.43.0


From 5fa1b229ecf10b4b6e9f56f659427d1085054da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 21/53] fix: NumPy booleans were not honored by is_prograde,
 is_low_path and full_output

---
 src/lamberthub/ecc_solvers/avanzini.py        | 2 +-
 src/lamberthub/p_solvers/battin.py            | 2 +-
 src/lamberthub/p_solvers/gauss.py             | 2 +-
 src/lamberthub/p_solvers/jiang.py             | 2 +-
 src/lamberthub/p_solvers/pan.py               | 2 +-
 src/lamberthub/regularization/delatorre.py    | 2 +-
 src/lamberthub/series_solvers/thorne.py       | 6 +++---
 src/lamberthub/universal_solvers/arora.py     | 4 ++--
 src/lamberthub/universal_solvers/der.py       | 2 +-
 src/lamberthub/universal_solvers/gooding.py   | 4 ++--
 src/lamberthub/universal_solvers/izzo.py      | 6 +++---
 src/lamberthub/universal_solvers/mcelreath.py | 2 +-
 src/lamberthub/universal_solvers/negrete.py   | 2 +-
 src/lamberthub/universal_solvers/vallado.py   | 2 +-
 src/lamberthub/utils/angles.py                | 4 ++--
 15 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 23dda8e..3668721 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -139,7 +139,7 @@ def avanzini2008(
     # Compute the velocity vectors from the classic orbital elements
     (_, v1), (_, v2) = [coe2rv(mu, p, ecc, inc, raan, argp, nu) for nu in [nu_1, nu_2]]
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True)
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 17cea71..ee4497a 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -157,7 +157,7 @@ def battin1984(
     v1 = -r11 * (s11 * (r1 - r2) - t11 * r1 / r1_norm)
     v2 = -r11 * (s11 * (r1 - r2) + t11 * r2 / r2_norm)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 099fdcd..0cb85ba 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -160,7 +160,7 @@ def gauss1809(
     v1 = (r2 - f * r1) / g
     v2 = f_dot * r1 + g_dot * v1
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 719e0ab..0315587 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -122,7 +122,7 @@ def jiang2016(
         tpi = 0.0
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, theta, p)
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 53618e0..0cfcff4 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -140,7 +140,7 @@ def pan2016(
     elements = _elements_at_omega(geometry, omega)
     v1, v2 = _reconstruct_velocities(mu, geometry, elements)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_planar_geometry(r1, r2, theta, is_prograde):
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index 6cb5eba..5935e5c 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -97,7 +97,7 @@ def delatorre2018(
     tac = time.perf_counter()
     tpi = (tac - tic) / numiter
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _find_z(P, Q, mu, tof, M, is_low_path, maxiter, atol, rtol):
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index e6c30c7..d134108 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -114,7 +114,7 @@ def thorne2004(
     y = get_y_from_x(x, r1, r2, semiperimeter, c_norm, is_prograde)
     v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, is_prograde)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def get_parabolic_tof(mu, s, c, mp):
@@ -303,7 +303,7 @@ def get_lambda(r1, r2, s, c, is_prograde):
     if i_h[2] < 0:
         ll = -ll
 
-    return -ll if is_prograde is False else ll
+    return -ll if not is_prograde else ll
 
 
 def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
@@ -320,7 +320,7 @@ def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
     else:
         i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
 
-    if is_prograde is False:
+    if not is_prograde:
         ll, i_t1, i_t2 = -ll, -i_t1, -i_t2
 
     gamma = np.sqrt(mu * s / 2)
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 447ef50..b0d3b08 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -323,7 +323,7 @@ def arora2013(
     v1 = (r2_hat - f * r1_hat) / g * (L_ref / T_ref)
     v2 = (g_dot * r2_hat - r1_hat) / g * (L_ref / T_ref)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
@@ -392,7 +392,7 @@ def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
     if abs(tof - tof_min) <= atol:
         return k_min
 
-    lower, upper = (k_min, k_right) if is_low_path is True else (k_left, k_min)
+    lower, upper = (k_min, k_right) if is_low_path else (k_left, k_min)
     return brentq(
         lambda k: tof_at(k) - tof,
         lower,
diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 388651d..033217a 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -117,7 +117,7 @@ def der2011(
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, c_norm, m, n, x, y)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 5d5a76a..1ad1f34 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -134,7 +134,7 @@ def gooding1990(
     v1 = vr1 * i_r1 + vt1 * i_t1
     v2 = vr2 * i_r2 + vt2 * i_t2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -660,7 +660,7 @@ def vlamb(
 
     # Filter the solution
     if n_sol > 1:
-        if is_low_path is True:
+        if is_low_path:
             x_sol = np.max([x1_sol, x2_sol])
         else:
             x_sol = np.min([x1_sol, x2_sol])
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 8a2de76..a0f92df 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -103,7 +103,7 @@ def izzo2015(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -133,7 +133,7 @@ def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol)
 
     # Correct transfer angle parameter and tangential vectors regarding orbit's
     # inclination
-    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if is_prograde is False else (ll, i_t1, i_t2)
+    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if not is_prograde else (ll, i_t1, i_t2)
 
     # Non dimensional time of flight
     T = np.sqrt(2 * mu / s**3) * tof
@@ -314,7 +314,7 @@ def _initial_guess(T, ll, M, is_low_path):
         # Filter out the solution
         x_0 = (
             np.max(np.array([x_0l, x_0r]))
-            if is_low_path is True
+            if is_low_path
             else np.min(np.array([x_0l, x_0r]))
         )
 
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index d6f6010..bf30c26 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -117,7 +117,7 @@ def mcelreath2025(
     v1 = v_c * i_c + v_r * i_r1
     v2 = v_c * i_c - v_r * i_r2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index efb34bf..b259c8d 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -101,7 +101,7 @@ def negrete2024(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index f0ab88b..809763f 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -142,7 +142,7 @@ def vallado2013(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 114ed81..1b4918a 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -50,7 +50,7 @@ def get_transfer_angle(r1, r2, is_prograde):
     theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
 
     # Fix the value of theta if necessary
-    if is_prograde is True:
+    if is_prograde:
         dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
@@ -89,7 +89,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
 
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
-    if is_prograde is True:
+    if is_prograde:
         i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
-- 
2.43.0


From 1777bf752593bb4ce14c9a74d949dd98be454c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 22/53] fix: gauss1809, battin1984 and vallado2013 silently
 ignored the number of revolutions

---
 src/lamberthub/p_solvers/battin.py          | 6 ++++++
 src/lamberthub/p_solvers/gauss.py           | 6 ++++++
 src/lamberthub/universal_solvers/vallado.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index ee4497a..13e6aa8 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -86,6 +86,12 @@ def battin1984(
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
+    # Multi-revolution is not supported
+    if M > 0:
+        raise ValueError(
+            "Battin is not able to work within the multi-revolution scenario!"
+        )
+
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     semiperimeter = (r1_norm + r2_norm + c_norm) / 2
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 0cb85ba..deeed11 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -89,6 +89,12 @@ def gauss1809(
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
+    # Multi-revolution is not supported
+    if M > 0:
+        raise ValueError(
+            "Gauss is not able to work within the multi-revolution scenario!"
+        )
+
     # Norm of the initial and final position vectors
     r1_norm, r2_norm = [norm(r) for r in [r1, r2]]
 
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 809763f..511146e 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -89,6 +89,12 @@ def vallado2013(
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
+    # Multi-revolution is not supported
+    if M > 0:
+        raise ValueError(
+            "Vallado is not able to work within the multi-revolution scenario!"
+        )
+
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     dtheta = get_transfer_angle(r1, r2, is_prograde)
-- 
2.43.0


From fa09d6906e4f0816ebbd02d6bfb427de3073cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 23/53] fix: collinear position vectors were not detected in
 the presence of round-off errors

---
 src/lamberthub/utils/angles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 1b4918a..5a117d4 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -31,23 +31,23 @@ def get_transfer_angle(r1, r2, is_prograde):
         Transfer angle in radians.
 
     """
-    # Check if both position vectors are collinear. If so, check if the transfer
-    # angle is 0 or pi.
+    # Check if both position vectors are collinear, up to round-off errors. If
+    # so, check if the transfer angle is 0 or pi.
+    r1_norm, r2_norm = norm(r1), norm(r2)
     cross_r1r2 = cross(r1, r2)
-    if np.all(cross_r1r2 == 0):
-        return 0 if np.all(np.sign(r1) == np.sign(r2)) else np.pi
+    cross_norm = norm(cross_r1r2)
+    if cross_norm <= 1e-14 * r1_norm * r2_norm:
+        return 0.0 if dot(r1, r2) > 0 else np.pi
 
     # Solve for a unitary vector normal to the vector plane. Its direction and
     # sense the one given by the cross product (right-hand) from r1 to r2.
-    h = cross_r1r2 / norm(cross_r1r2)
+    h = cross_r1r2 / cross_norm
 
     # Compute the projection of the normal vector onto the reference plane.
     alpha = dot(K_AXIS, h)
 
     # Get the minimum angle (0 <= dtheta <= pi) between r1 and r2.
-    r1_norm = norm(r1)
-    r2_norm = norm(r2)
-    theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
+    theta0 = np.arctan2(cross_norm, dot(r1, r2))
 
     # Fix the value of theta if necessary
     if is_prograde:
-- 
2.43.0


From 65f513811c252aada969f1bd7d3e96956d4d7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 24/53] fix: transfer angles of 0 and 180 degrees returned NaN
 instead of being rejected

---
 src/lamberthub/ecc_solvers/utils.py         | 6 +++++-
 src/lamberthub/p_solvers/battin.py          | 8 +++++++-
 src/lamberthub/regularization/delatorre.py  | 8 +++++++-
 src/lamberthub/series_solvers/thorne.py     | 8 +++++++-
 src/lamberthub/universal_solvers/arora.py   | 2 ++
 src/lamberthub/universal_solvers/gooding.py | 2 ++
 src/lamberthub/universal_solvers/vallado.py | 6 +++++-
 7 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 9072ce2..5ae9b8b 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -26,7 +26,10 @@ from lamberthub.utils.angles import (
     get_orbit_normal_vector,
     get_transfer_angle,
 )
-from lamberthub.utils.assertions import assert_transfer_angle_not_zero
+from lamberthub.utils.assertions import (
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.kepler import kepler_from_nu
 
 
@@ -63,6 +66,7 @@ def get_geometry(r1, r2, is_prograde):
     # Compute angles
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 13e6aa8..2b1c8c7 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,7 +6,11 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def battin1984(
@@ -96,6 +100,8 @@ def battin1984(
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     semiperimeter = (r1_norm + r2_norm + c_norm) / 2
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Compute the auxiliary lambda parameter. The variable _lambda is used here
     # as lambda is a reserved keyword in Python for declaring inline functions.
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index 5935e5c..f97fa41 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,7 +6,11 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def delatorre2018(
@@ -78,6 +82,8 @@ def delatorre2018(
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index d134108..2e7a649 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,7 +8,11 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def thorne2004(
@@ -97,6 +101,8 @@ def thorne2004(
 
     # Compute the cosine of the transfer angle and check
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Thorne uses the upper sign for transfers greater than 180 degrees and the
     # lower sign for transfers lower than 180 degrees in equations (1)-(5).
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index b0d3b08..74c44cb 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -10,6 +10,7 @@ from scipy.optimize import brentq, minimize_scalar
 from lamberthub.utils.angles import get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -93,6 +94,7 @@ def arora2013(
     # Compute the transfer angle and the transfer angle parameter
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     d = 1 if dtheta <= np.pi else -1
 
     # Compute the characteristic length and time variables
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 1ad1f34..9cc5b66 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -9,6 +9,7 @@ from numpy.linalg import norm
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -105,6 +106,7 @@ def gooding1990(
     # exception its value is found to be the zero.
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
+    assert_transfer_angle_not_pi(theta)
 
     # Include additional revolutions if necessary.
     dtheta = 2.0 * np.pi * M + theta
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 511146e..462d9ce 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -6,7 +6,10 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.stumpff import c2, c3
 
 
@@ -98,6 +101,7 @@ def vallado2013(
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
 
     # Compute Vallado's transfer angle parameter
     A = _get_A(r1_norm, r2_norm, dtheta)
-- 
2.43.0


From 5729a388a3fea17b5bd2e6fd0e4dcfdb09249ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 25/53] fix: gooding1990 returned unconverged solutions when
 exceeding the maximum number of iterations

---
 src/lamberthub/universal_solvers/gooding.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 9cc5b66..c4c3f36 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -450,10 +450,8 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # desired range
             if np.abs(xmold - xm) < rtol * np.abs(xmold) + atol:
                 break
-
-        # Check last
-        if (numiter + 1) == maxiter:
-            raise ValueError("Exceeded max iterations!")
+        else:
+            raise ValueError("Exceeded maximum number of iterations!")
 
         # Now proceed from T(min) to full starter
         tdiffm = tin - tmin
@@ -466,7 +464,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # Found minimum time condition
             x = xm
             n = 1
-            return n, x, None, numiter
+            return n, x, None, numiter, 0.0
 
         else:
             n = 3
@@ -553,7 +551,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
 def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
     """Run the Halley iteration for the independent variable in Gooding's method.
 
-    Returns (x, numiter) once convergence is reached or maxiter is exhausted.
+    Returns (x, numiter) once convergence is reached.
     """
     xold = x
     for numiter in range(1, maxiter + 1):
@@ -564,11 +562,12 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
             xold = x
             x = x + t * dt / (dt * dt + t * d2t / 2.0)
 
-        x_atol, x_rtol = np.abs(x - xold), np.abs(x / xold - 1)
-        if x_atol <= atol and x_rtol <= rtol:
+        # The relative tolerance can not be met if the solution is the null one
+        step = np.abs(x - xold)
+        if step <= atol and step <= rtol * np.abs(xold) + 1e-12:
             return x, numiter
 
-    return x, maxiter
+    raise ValueError("Exceeded maximum number of iterations!")
 
 
 def vlamb(
-- 
2.43.0


From 49bac4d8fbda87205c2e3b44ccfcc37895ccae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 26/53] fix: NaN and infinite input parameters were considered
 to be safe

---
 src/lamberthub/utils/assertions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 7cff373..4d1fb0d 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -42,7 +42,7 @@ def assert_gravitational_parameter_is_positive(mu):
 
     """
     # Check positive gravitational parameter
-    if mu <= 0:
+    if not 0 < mu < np.inf:
         raise ValueError("Gravitational parameter must be positive!")
     else:
         return True
@@ -67,6 +67,9 @@ def assert_position_vector_is_valid(r):
     if np.all(r == 0):
         raise ValueError("Position vector cannot be the null vector [0,0,0]!")
 
+    if not np.all(np.isfinite(r)):
+        raise ValueError("Position vector must be finite!")
+
     return True
 
 
@@ -109,7 +112,7 @@ def assert_time_of_flight_is_positive(tof):
     ValueError
 
     """
-    if tof <= 0:
+    if not 0 < tof < np.inf:
         raise ValueError("Time of flight must be positive!")
     else:
         return True
-- 
2.43.0


From b624111270d525ffe14c303a017d9a66c9ef92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 27/53] fix: rv2coe returned wrong elements for parabolic
 orbits

---
 src/lamberthub/utils/elements.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index a36e43f..81a948f 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -20,7 +20,6 @@ import numpy as np
 from numpy import cos, cross, sin, sqrt
 
 from lamberthub.linalg import dot
-from lamberthub.utils.angles import E_to_nu, H_to_nu
 
 
 @jit(cache=True)
@@ -231,7 +230,6 @@ def rv2coe(k, r, v, tol=1e-8):
     h = cross(r, v)
     n = cross(np.array([0.0, 0.0, 1.0]), h)
     r_norm = sqrt(dot(r, r))
-    v_norm = sqrt(dot(v, v))
     h_norm = sqrt(dot(h, h))
     e = ((dot(v, v) - k / r_norm) * r - dot(r, v) * v) / k
     ecc = sqrt(dot(e, e))
@@ -255,16 +253,8 @@ def rv2coe(k, r, v, tol=1e-8):
         argp = 0
         nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
-        a = p / (1 - (ecc**2))
-        ka = k * a
-        if a > 0:
-            e_se = dot(r, v) / sqrt(ka)
-            e_ce = r_norm * dot(v, v) / k - 1
-            nu = E_to_nu(np.arctan2(e_se, e_ce), ecc)
-        else:
-            e_sh = dot(r, v) / sqrt(-ka)
-            e_ch = r_norm * (v_norm**2) / k - 1
-            nu = H_to_nu(np.log((e_ch + e_sh) / (e_ch - e_sh)) / 2, ecc)
+        # Valid for all conics, including the parabola
+        nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
 
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
         px = dot(r, n)
-- 
2.43.0


From 19cccb1607a58ce9869c3bee689140c14c544f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 28/53] fix: rv2coe lost the orientation of retrograde
 equatorial orbits

---
 src/lamberthub/utils/elements.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index 81a948f..e7b52b5 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -234,14 +234,17 @@ def rv2coe(k, r, v, tol=1e-8):
     e = ((dot(v, v) - k / r_norm) * r - dot(r, v) * v) / k
     ecc = sqrt(dot(e, e))
     p = dot(h, h) / k
-    inc = np.arccos(h[2] / h_norm)
+    inc = np.arctan2(sqrt(dot(n, n)), h[2])
 
     circular = ecc < tol
-    equatorial = abs(inc) < tol
+    equatorial = inc < tol or np.pi - inc < tol
+
+    # The sense of rotation in the fundamental plane
+    sign = 1.0 if h[2] >= 0 else -1.0
 
     if equatorial and not circular:
         raan = 0
-        argp = np.arctan2(e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
+        argp = np.arctan2(sign * e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
     elif not equatorial and circular:
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
@@ -251,7 +254,7 @@ def rv2coe(k, r, v, tol=1e-8):
     elif equatorial and circular:
         raan = 0
         argp = 0
-        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
+        nu = np.arctan2(sign * r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
         # Valid for all conics, including the parabola
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
-- 
2.43.0


From ae43e439047be65299a1f17b18f14584e6a2cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 29/53] fix: linear algebra routines overflowed for integer
 vectors

---
 src/lamberthub/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/linalg.py b/src/lamberthub/linalg.py
index 591521d..78364b1 100644
--- a/src/lamberthub/linalg.py
+++ b/src/lamberthub/linalg.py
@@ -26,7 +26,7 @@ def dot(v1, v2):
     this issue: https://github.com/numba/numba/issues/8676
 
     """
-    return v1[0] * v2[0] + v1[1] * v2[1] + v1[2] * v2[2]
+    return float(v1[0]) * v2[0] + float(v1[1]) * v2[1] + float(v1[2]) * v2[2]
 
 
 @jit(cache=True, fastmath=True)
@@ -46,7 +46,7 @@ def cross(v1, v2):
         Resultant vector of the cross product between the two vectors.
 
     """
-    return np.cross(v1, v2)
+    return np.cross(1.0 * v1, 1.0 * v2)
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0


From bb8fbfeff96b588b39054a48d001e6744cb106df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 30/53] fix: benchmark report interpreted backslashes as
 regular expression escapes

---
 scripts/generate_benchmark_report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 73523d4..d165fb9 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -271,7 +271,7 @@ def update_readme(readme_path, section):
             rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
             flags=re.DOTALL,
         )
-        updated = pattern.sub(generated_content, content)
+        updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-- 
2.43.0


From 0bc7ebb2a878abd71b621b6d281c834b2b81e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 31/53] fix: mcelreath2025 compared dimensional times with the
 absolute tolerance

---
 src/lamberthub/universal_solvers/mcelreath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index bf30c26..f3f3fae 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -138,7 +138,7 @@ def _find_x(tof, r1_norm, r2_norm, m, dtheta, M, is_low_path, maxiter, atol, rto
 def _find_single_revolution_x(tof, r_norm_sum, m, dtheta, maxiter, atol, rtol):
     """Find the single-revolution elliptic or hyperbolic root."""
     tof_p = _get_parabolic_tof(r_norm_sum, m)
-    if abs(tof - tof_p) <= atol + rtol * abs(tof_p):
+    if abs(tof - tof_p) <= rtol * tof_p:
         return np.complex128(0.0), 1
 
     if tof > tof_p:
@@ -196,10 +196,10 @@ def _find_multi_revolution_x(
     )
     tof_min = _tof_equation(np.complex128(x_min), r_norm_sum, m).real
 
-    if tof < tof_min - atol:
+    if tof < tof_min - rtol * tof_min:
         raise ValueError("No feasible solution, try lower M!")
 
-    if abs(tof - tof_min) <= atol + rtol * abs(tof_min):
+    if abs(tof - tof_min) <= rtol * tof_min:
         if minimum_iterations < 1:
             minimum_iterations = 1
         return np.complex128(x_min), minimum_iterations
-- 
2.43.0


From 5e93d032aa2da63cf3e20a5f61f93aae5496e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 32/53] fix: mcelreath2025 initial guess of short hyperbolic
 transfers took the wrong complex branch

---
 src/lamberthub/universal_solvers/mcelreath.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index f3f3fae..8cb7649 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -149,15 +149,12 @@ def _find_single_revolution_x(tof, r_norm_sum, m, dtheta, maxiter, atol, rtol):
         lo, hi = 0.0, 2 * np.pi
     elif dtheta < np.pi:
         tau = r_norm_sum**2 / (2 * m**2) - 1
-        x_tau = 1j * np.log(tau + np.sqrt(tau**2 - 1))
-        x_1 = x_tau * np.exp(-2.5)
-        tof_x1 = _tof_equation(np.complex128(x_1), r_norm_sum, m)
-        tof_p_16 = np.complex128(tof_p) ** 1.6
-        tof_x1_16 = np.complex128(tof_x1) ** 1.6
-        exponent = 2.5 / (np.log(-tof_p_16) - np.log(tof_x1_16 - tof_p_16))
-        x_0 = x_tau * (1 - (tof / tof_p) ** 1.6) ** exponent
-        x_0 = np.complex128(1j * x_0.imag)
-        lo, hi = 0.0, x_tau.imag
+        x_tau = np.log(tau + np.sqrt(tau**2 - 1))
+        x_1 = 1j * x_tau * np.exp(-2.5)
+        tof_x1 = _tof_equation(np.complex128(x_1), r_norm_sum, m).real
+        exponent = -2.5 / np.log(1 - (tof_x1 / tof_p) ** 1.6)
+        x_0 = np.complex128(1j * x_tau * (1 - (tof / tof_p) ** 1.6) ** exponent)
+        lo, hi = 0.0, x_tau
     else:
         tof_theta = _tof_equation(np.complex128(1j * dtheta), r_norm_sum, m)
         x_0 = np.complex128(
-- 
2.43.0


From fc0cbee00e7bf9112fbb4f740a488ae12d56de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 33/53] fix: mcelreath2025 failed to converge for hyperbolic
 transfers when compiled

---
 src/lamberthub/universal_solvers/mcelreath.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 8cb7649..8dfdaaf 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -324,6 +324,17 @@ def _clean_root(x):
     return x
 
 
+@jit(cache=True, fastmath=True)
+def _get_alpha_sqrt(alpha, x):
+    """Compute the square root of alpha sharing the branch of x.
+
+    For hyperbolic transfers alpha is negative, so the branch of its square root
+    can not rely on the sign of a null imaginary component.
+    """
+    alpha_sqrt = np.sqrt(alpha)
+    return -alpha_sqrt if alpha_sqrt.imag * x.imag < 0 else alpha_sqrt
+
+
 @jit(cache=True, fastmath=True)
 def _get_parabolic_tof(r_norm_sum, m):
     """Compute the scaled parabolic time of flight."""
@@ -350,7 +361,7 @@ def _tof_equation(x, r_norm_sum, m):
     u0_star = np.cos(0.5 * x)
     alpha = (1 - u0) / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _get_alpha_sqrt(alpha, x)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1_star = np.sin(0.5 * x) * alpha_sqrt_inv
@@ -365,7 +376,7 @@ def _tof_equation_full(x, r_norm_sum, m):
     u0_star = np.cos(0.5 * x)
     alpha = (1 - u0) / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _get_alpha_sqrt(alpha, x)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1 = np.sin(x) * alpha_sqrt_inv
@@ -433,7 +444,7 @@ def _alpha_and_universal_values(x, r1_norm, r2_norm, m):
     u0 = np.cos(x)
     u0_star = np.cos(x / 2)
     alpha = (1 - u0) / (r1_norm + r2_norm - 2 * m * u0_star)
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _get_alpha_sqrt(alpha, x)
     u1_star = np.sin(x / 2) / alpha_sqrt
     u3 = (x - np.sin(x)) / (alpha * alpha_sqrt)
     return alpha, u1_star, u0_star, u3
-- 
2.43.0


From c5d4c155c177474a5d3e3afca8f6770a2f92a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 34/53] fix: mcelreath2025 divided by zero for parabolic
 transfers when compiled

---
 src/lamberthub/universal_solvers/mcelreath.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 8dfdaaf..7acca53 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -96,9 +96,7 @@ def mcelreath2025(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
-    _, _, u0_star, _ = _alpha_and_universal_values(
-        np.complex128(x), r1_norm, r2_norm, m
-    )
+    u0_star = np.cos(np.complex128(x) / 2)
     p = (
         r1_norm
         * r2_norm
-- 
2.43.0


From f70763a3f3330bdf387cf5f455a8ea524a9e9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 35/53] fix: jiang2016 looped forever for minimum-energy
 transfers when compiled

---
 src/lamberthub/p_solvers/jiang.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 0315587..4fdaa91 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -324,7 +324,16 @@ def _find_and_solve_elliptic(
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
-    while f_lower * f_upper > 0:
+
+    # The sign of the residual at the lower bound is the known one, otherwise the
+    # solution is, up to round-off errors, the minimum-energy transfer
+    sign = -1.0 if long_period else 1.0
+    if not sign * f_lower > 0:
+        return lower, 1
+
+    while sign * f_upper > 0:
+        if upper > 1e15 * lower:
+            raise ValueError("Failed to bracket the solution!")
         upper *= 2
         f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
 
-- 
2.43.0


From ecfffbce246fa429bb6af7fd53c6d46fccf9dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 36/53] fix: der2011 fallback could not bracket high-energy
 elliptic transfers when compiled

---
 src/lamberthub/universal_solvers/der.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 033217a..a320e6a 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -183,12 +183,13 @@ def _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
 
 def _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
-    eps = 2.220446049250313e-16
+    # The elliptic equation is a ratio of vanishing terms next to the parabola
+    eps = 1e-6 if M == 0 else 1e-12
     # The time of flight is monotonic in the path parameter for M = 0, so both
     # regions can overlap to enclose a minimum-energy root.
     margin = 0.1 if M == 0 else 0.0
     if x0 < 0:
-        lower, upper = -1 + eps, x_min + margin
+        lower, upper = -1 + 1e-12, x_min + margin
     else:
         lower, upper = x_min - margin, 1 - eps
 
-- 
2.43.0


From ea1cccfaf5b21ae3ec90deff203c949f972aa6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 37/53] fix: gauss1809 raised ZeroDivisionError when it
 diverged

---
 src/lamberthub/p_solvers/gauss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index deeed11..03f85ac 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -124,6 +124,10 @@ def gauss1809(
         # Evaluate the new value of the dependent variable
         y = _gauss_second_equation(x, s)
 
+        # A null or an infinite area ratio means that the procedure diverged
+        if y == 0 or not np.isfinite(y):
+            raise ValueError("Exceeded maximum number of iterations.")
+
         # Check the convergence of the method
         if np.abs(y - y0) <= atol:
             tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
-- 
2.43.0


From 39da968d113e351d121145fd7d2529a56ad42963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 38/53] fix: mcelreath2025 returned the solution of the other
 path for tiny transfer angles

---
 src/lamberthub/universal_solvers/mcelreath.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 7acca53..cc22df4 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -206,6 +206,13 @@ def _find_multi_revolution_x(
     x, desired_iterations = _solve_desired_x(
         x_0, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol
     )
+
+    # The bounds enclose the roots of both paths: make sure that the iterations did
+    # not end up in the other one, whose transfer time has the opposite slope
+    _, tof_prime, _, _ = _tof_equation_full(x, r_norm_sum, m)
+    if (tof_prime.real > 0) == is_low_path and tof - tof_min > 1e-8 * tof_min:
+        raise RuntimeError("Failed to converge")
+
     total = minimum_iterations + desired_iterations
     if total < 1:
         total = 1
-- 
2.43.0


From 896233045542e14c0f619649e697b0534b87f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 39/53] fix: avanzini2008 returned the last iterate when the
 secant method stalled

---
 src/lamberthub/ecc_solvers/avanzini.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 3668721..0e85df0 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -210,6 +210,9 @@ def _secant(f, x0, args, maxiter, atol, rtol):
     f1 = f(x1, *args)
     for i in range(1, maxiter + 1):
         if f1 == f0:
+            # A flat function is only a solution if it was found to be null
+            if f1 != 0 and abs(x1 - x0) > atol + rtol * abs(x1):
+                raise RuntimeError("Failed to converge")
             return (x1 + x0) * 0.5, i
         x_new = x1 - f1 * (x1 - x0) / (f1 - f0)
         if abs(x_new - x1) <= atol + rtol * abs(x_new):
-- 
2.43.0


From 4377fae43456aafe77bfc19c318c52c30deabc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 40/53] fix: arora2013 returned hyperbolic transfers for
 multi-revolution problems

---
 src/lamberthub/universal_solvers/arora.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 74c44cb..fb197eb 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -123,6 +123,10 @@ def arora2013(
 
     # Compare actual and parabolic TOF to generate the initial guess
     if tof <= tof_p:
+        # Only elliptic orbits can perform complete revolutions
+        if M > 0:
+            raise ValueError("No feasible solution, try lower M!")
+
         # The final orbit is expected to be hyperbolic. The initial guess is
         # determined by the formulae given by (TABLE 2) from official report.
         # Three regions, depending on the transfer angle are possible: one where
-- 
2.43.0


From 1fac695c4d799c0f03b3d6ddebb934d4950870d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 41/53] fix: izzo2015 could reverse the sense of motion of
 vertical transfers

---
 src/lamberthub/universal_solvers/izzo.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index a0f92df..0b1636f 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -99,7 +99,7 @@ def izzo2015(
 
     tic = time.perf_counter() if full_output else 0.0
     v1, v2, numiter = _izzo2015(
-        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+        mu, r1, r2, tof, M, dtheta > pi, is_low_path, maxiter, atol, rtol
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
@@ -107,7 +107,7 @@ def izzo2015(
 
 
 @jit(cache=True, fastmath=True)
-def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
+def _izzo2015(mu, r1, r2, tof, M, is_long_way, is_low_path, maxiter, atol, rtol):
     """Solve Lambert's problem once the input parameters are known to be valid."""
     # Chord
     c = r2 - r1
@@ -125,15 +125,11 @@ def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol)
     ll = np.sqrt(1 - min(1.0, c_norm / s))
 
     # Compute the fundamental tangential directions
-    if i_h[2] < 0:
-        ll = -ll
-        i_t1, i_t2 = cross(i_r1, i_h), cross(i_r2, i_h)
-    else:
-        i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
+    i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
 
-    # Correct transfer angle parameter and tangential vectors regarding orbit's
-    # inclination
-    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if not is_prograde else (ll, i_t1, i_t2)
+    # Correct transfer angle parameter and tangential vectors if the transfer
+    # angle is greater than 180 degrees
+    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if is_long_way else (ll, i_t1, i_t2)
 
     # Non dimensional time of flight
     T = np.sqrt(2 * mu / s**3) * tof
-- 
2.43.0


From 8e436be23bd600ed3e27a124375651676e843570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 42/53] fix: thorne2004 mixed both senses of motion for
 vertical transfers

---
 src/lamberthub/series_solvers/thorne.py | 36 ++++++++-----------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 2e7a649..b4e7687 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -117,8 +117,8 @@ def thorne2004(
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
     x = get_x_from_semimajor_axis(a, semiperimeter, branch)
-    y = get_y_from_x(x, r1, r2, semiperimeter, c_norm, is_prograde)
-    v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, is_prograde)
+    y = get_y_from_x(x, semiperimeter, c_norm, mp)
+    v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, mp)
 
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
@@ -292,42 +292,28 @@ def get_x_from_semimajor_axis(a, s, branch):
     return -x if branch == "B" else x
 
 
-def get_y_from_x(x, r1, r2, s, c, is_prograde):
+def get_y_from_x(x, s, c, mp):
     """Compute the Lancaster-Blanchard y variable for the transfer geometry."""
-    ll = get_lambda(r1, r2, s, c, is_prograde)
+    ll = get_lambda(s, c, mp)
     return np.sqrt(1 - ll**2 * (1 - x**2))
 
 
-def get_lambda(r1, r2, s, c, is_prograde):
+def get_lambda(s, c, mp):
     """Compute the signed transfer-angle parameter."""
-    i_r1 = r1 / norm(r1)
-    i_r2 = r2 / norm(r2)
-    i_h = cross(i_r1, i_r2)
-    i_h = i_h / norm(i_h)
-
-    ll = np.sqrt(1 - c / s)
-    if i_h[2] < 0:
-        ll = -ll
+    return -mp * np.sqrt(1 - c / s)
 
-    return -ll if not is_prograde else ll
 
-
-def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
+def reconstruct(x, y, mu, r1, r2, s, c, mp):
     """Reconstruct initial and final velocities from geometry and x-y values."""
     r1_norm, r2_norm = norm(r1), norm(r2)
     i_r1, i_r2 = r1 / r1_norm, r2 / r2_norm
     i_h = cross(i_r1, i_r2)
     i_h = i_h / norm(i_h)
 
-    ll = np.sqrt(1 - c / s)
-    if i_h[2] < 0:
-        ll = -ll
-        i_t1, i_t2 = cross(i_r1, i_h), cross(i_r2, i_h)
-    else:
-        i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
-
-    if not is_prograde:
-        ll, i_t1, i_t2 = -ll, -i_t1, -i_t2
+    # The orbit is traversed against the short-way normal vector if the transfer
+    # angle is greater than 180 degrees
+    ll = get_lambda(s, c, mp)
+    i_t1, i_t2 = -mp * cross(i_h, i_r1), -mp * cross(i_h, i_r2)
 
     gamma = np.sqrt(mu * s / 2)
     rho = (r1_norm - r2_norm) / c
-- 
2.43.0


From 17ff99a8641b79c65751dce1dce4cc6db5486b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 43/53] fix: avanzini2008 measured angles in opposite senses
 for vertical transfers

---
 src/lamberthub/ecc_solvers/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 5ae9b8b..b1c43e1 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -69,6 +69,11 @@ def get_geometry(r1, r2, is_prograde):
     assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
+    # Round-off errors shall not reverse the sense in which both angles are
+    # measured, since r1 x (r2 - r1) and r1 x r2 are the same vector
+    if (w_c > np.pi) != (dtheta > np.pi):
+        w_c = 2 * np.pi - w_c
+
     return r1_norm, r2_norm, c_norm, dtheta, w_c
 
 
-- 
2.43.0


From 582a6c8e013eaf26f266f563d6e3394742ff1be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 44/53] fix: pan2016 gave up when its Bezier updates stalled

---
 src/lamberthub/p_solvers/pan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 0cfcff4..cd50fc1 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -187,6 +187,9 @@ def _find_argument_of_periapsis(mu, geometry, tof, maxiter, atol, rtol):
         omega, numiter = _bezier_root(
             residual, omega_low, omega_high, maxiter, atol, rtol
         )
+        if np.abs(residual(omega)) > 1e-5 * tof:
+            # The Bezier updates may stall far from the root
+            omega = brentq(residual, omega_low, omega_high, rtol=1e-12)
         if np.abs(residual(omega)) <= 1e-5 * tof:
             return omega, numiter
 
-- 
2.43.0


From 80efbcca8ff2f7c2e4fa5223e36b7582e570990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 45/53] fix: thorne2004 reported an uninitialized number of
 iterations for minimum-energy transfers

---
 src/lamberthub/series_solvers/thorne.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index b4e7687..915c77f 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -235,6 +235,12 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         """Compute the time-of-flight residual for the semimajor axis."""
         return lagrange_tof(mu, s, c, a, mp, branch) - tof
 
+    # No iterations are performed, nor reported, if the bracket starts or ends at the
+    # solution
+    for bound in (lower, upper):
+        if f(bound) == 0:
+            return bound, branch, 1
+
     a, r = brentq(
         f, lower, upper, xtol=atol, rtol=rtol, maxiter=maxiter, full_output=True
     )
-- 
2.43.0


From e5029ff73e8ab1271f4246bdc692676c4a48a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 46/53] fix: negrete2024 returned the solution of the other
 path with few contour points

---
 src/lamberthub/universal_solvers/negrete.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index b259c8d..12e76f3 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -171,6 +171,15 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     )
     if refined_lo > refined_hi:
         refined_lo, refined_hi = refined_hi, refined_lo
+
+    # With few contour points, both candidates may end up in the same root or in
+    # one for another number of revolutions
+    if (
+        refined_hi - refined_lo <= 1e-3 * (r2r - r1r)
+        or refined_lo < z_min
+        or refined_hi > z_max
+    ):
+        raise ValueError("Contour integral did not converge to a solution!")
     return refined_lo if is_low_path else refined_hi
 
 
-- 
2.43.0


From a961b768c97f06b34c7e9f28ce68ac42a9edeb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 47/53] fix: pan2016 transfer time of near-parabolic orbits was
 wrong by a factor of the square root of two

---
 src/lamberthub/p_solvers/pan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index cd50fc1..0528bdc 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -304,7 +304,7 @@ def _tof_from_elements(mu, theta, elements):
             raise ValueError("Invalid elliptic semi-major axis.")
         return _elliptic_tof(mu, semi_major_axis, eccentricity, f1, f2)
 
-    if np.isclose(eccentricity, 1.0):
+    if np.isclose(eccentricity, 1.0, rtol=0.0, atol=1e-8):
         p = semi_major_axis * (1 - eccentricity**2)
         return _parabolic_tof(mu, p, f1, f2)
 
@@ -340,7 +340,7 @@ def _parabolic_tof(mu, semi_latus_rectum, f1, f2):
     if semi_latus_rectum <= 0:
         raise ValueError("Invalid parabolic semi-latus rectum.")
     D1, D2 = np.tan(f1 / 2), np.tan(f2 / 2)
-    return np.sqrt(semi_latus_rectum**3 / (2 * mu)) * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
+    return 0.5 * np.sqrt(semi_latus_rectum**3 / mu) * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
 
 
 def _true_to_eccentric_anomaly(true_anomaly, eccentricity):
-- 
2.43.0


From 568af409d2072d3dc37abdc79b1a40577ef03fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 48/53] fix: delatorre2018 bisected only, as the bracket of its
 derivative always collapsed

---
 src/lamberthub/regularization/delatorre.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f97fa41..86536b5 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -155,6 +155,10 @@ def _solve_bracketed(P, Q, mu, tof, M, z_low, z_high, maxiter, atol, rtol):
     if f_low * f_high > 0:
         raise ValueError("No feasible solution, try lower M!")
 
+    # The derivative is sampled within the initial bracket: the current one has z
+    # itself as one of its ends
+    z_first, z_last = z_low, z_high
+
     z = 0.5 * (z_low + z_high)
     for numiter in range(1, maxiter + 1):
         f = _tof_equation_y(P, Q, mu, z, M) - tof
@@ -168,7 +172,7 @@ def _solve_bracketed(P, Q, mu, tof, M, z_low, z_high, maxiter, atol, rtol):
             z_low = z
             f_low = f
 
-        df = _tof_derivative(P, Q, mu, z, M, z_low, z_high)
+        df = _tof_derivative(P, Q, mu, z, M, z_first, z_last)
         z_new = z - f / df if df != 0 and np.isfinite(df) else np.nan
         if not np.isfinite(z_new) or z_new <= z_low or z_new >= z_high:
             z_new = 0.5 * (z_low + z_high)
-- 
2.43.0


From 46ae974085f539b05478f33265a63e951a0fe513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 49/53] fix: pan2016 took near-rectilinear hyperbolas for
 parabolas

---
 src/lamberthub/p_solvers/pan.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 0528bdc..1b160f9 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -304,7 +304,10 @@ def _tof_from_elements(mu, theta, elements):
             raise ValueError("Invalid elliptic semi-major axis.")
         return _elliptic_tof(mu, semi_major_axis, eccentricity, f1, f2)
 
-    if np.isclose(eccentricity, 1.0, rtol=0.0, atol=1e-8):
+    # Far from the periapsis an orbit only passes for a parabola when its
+    # eccentricity is all the closer to one
+    farthest = max(1.0, np.tan(f1 / 2) ** 2, np.tan(f2 / 2) ** 2)
+    if np.isclose(eccentricity, 1.0, rtol=0.0, atol=1e-8 / farthest):
         p = semi_major_axis * (1 - eccentricity**2)
         return _parabolic_tof(mu, p, f1, f2)
 
-- 
2.43.0


From 085ec335e6838be8b6f46a98efe941f1e49dc5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 50/53] fix: stray markers made the benchmark report skip its
 update or delete text of the README

---
 scripts/generate_benchmark_report.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index d165fb9..65ca72b 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -264,13 +264,13 @@ def build_section(reports):
 def update_readme(readme_path, section):
     """Replace or append the generated performance section in the README."""
     content = readme_path.read_text(encoding="utf-8")
-    if START_MARKER in content and END_MARKER in content:
+    # A section is a start marker and the first end marker after it, without any
+    # other start marker in between: stray markers do not take text with them
+    start, end = re.escape(START_MARKER), re.escape(END_MARKER)
+    pattern = re.compile(rf"{start}(?:(?!{start}).)*?{end}\n?", flags=re.DOTALL)
+    if pattern.search(content):
         generated_content = section.split(f"{START_MARKER}\n\n", maxsplit=1)[1]
         generated_content = f"{START_MARKER}\n\n{generated_content}"
-        pattern = re.compile(
-            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
-            flags=re.DOTALL,
-        )
         updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
-- 
2.43.0


From 8657761b5a20345bd4631b036f887c04d3def427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 51/53] fix: jiang2016 assumed that lengths are of the order of
 one

The brackets and the step of the numerical derivative contained an absolute
length of one, so that transfers in large units of length were refused or the
hyperbolic bracket did not contain the solution at all.
---
 src/lamberthub/p_solvers/jiang.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 4fdaa91..e6f511f 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -320,7 +320,7 @@ def _find_and_solve_elliptic(
     JIT-compiled function, removing all Python closure overhead.
     """
     lower = a_min
-    upper = max(2 * lower, 1.0)
+    upper = 2 * lower
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
@@ -351,7 +351,7 @@ def _find_and_solve_elliptic(
             lower = x
             f_lower_iter = f_x
 
-        step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+        step = 1.4901161193847656e-08 * np.abs(x)
         x_minus = max(lower, x - step)
         x_plus = min(upper, x + step)
         if x_plus != x_minus:
@@ -386,8 +386,8 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
     JIT-compiled function, removing all Python closure overhead.
     """
     eps = 1.4901161193847656e-08
-    lower = -max(s, c, 1.0)
-    upper = -eps * max(s, c, 1.0)
+    lower = -max(s, c)
+    upper = -eps * max(s, c)
 
     while (_tof_hyperbolic(mu, lower, s, c, theta) - tof) < 0:
         lower *= 2
@@ -406,7 +406,7 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
             lower = x
             f_lower_iter = f_x
 
-        step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+        step = 1.4901161193847656e-08 * np.abs(x)
         x_minus = max(lower, x - step)
         x_plus = min(upper, x + step)
         if x_plus != x_minus:
@@ -469,7 +469,7 @@ def _get_elliptic_bracket(mu, tof, a_min, s, c, theta, long_period):
     """
     eps = 1.4901161193847656e-08
     lower = a_min * (1 + eps)
-    upper = max(2 * lower, 1.0)
+    upper = 2 * lower
 
     def residual(axis):
         """Evaluate the elliptic time-of-flight residual at ``axis``."""
@@ -512,8 +512,8 @@ def _get_hyperbolic_bracket(mu, tof, s, c, theta):
 
     """
     eps = 1.4901161193847656e-08
-    lower = -max(s, c, 1.0)
-    upper = -eps * max(s, c, 1.0)
+    lower = -max(s, c)
+    upper = -eps * max(s, c)
 
     def residual(axis):
         """Evaluate the hyperbolic time-of-flight residual at ``axis``."""
@@ -609,7 +609,7 @@ def _numerical_derivative(function, x, lower, upper):
         Centered finite-difference derivative clipped to the active bracket.
 
     """
-    step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+    step = 1.4901161193847656e-08 * np.abs(x)
     x_minus = max(lower, x - step)
     x_plus = min(upper, x + step)
 
-- 
2.43.0


From cd7232ed4629e2129e204747eac2acb58658ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 52/53] fix: transverse eccentricity routines divided by zero
 on the parabola

---
 src/lamberthub/ecc_solvers/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index b1c43e1..d4e7bd5 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -270,7 +270,13 @@ def a_at_eccT(ecc_T, ecc_F, p):
         Semi-major axis of the transfer orbit.
 
     """
-    a = p / (1 - ecc_F**2 - ecc_T**2)
+    # The very same eccentricity classifies the orbit, so both need to agree on how
+    # close to the parabola it is
+    ecc = ecc_at_eccT(ecc_T, ecc_F)
+    if ecc == 1:
+        return np.inf
+
+    a = p / ((1 - ecc) * (1 + ecc))
     return a
 
 
-- 
2.43.0


From 106c30c45a07373086c389277ddfff9e6325a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 53/53] fix: mcelreath2025 divided by zero at the lower end of
 its minimum-time band when compiled

---
 src/lamberthub/universal_solvers/mcelreath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index cc22df4..d2e4099 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -194,7 +194,7 @@ def _find_multi_revolution_x(
     if tof < tof_min - rtol * tof_min:
         raise ValueError("No feasible solution, try lower M!")
 
-    if abs(tof - tof_min) <= rtol * tof_min:
+    if tof - tof_min <= rtol * tof_min:
         if minimum_iterations < 1:
             minimum_iterations = 1
         return np.complex128(x_min), minimum_iterations
-- 
2.43.0

