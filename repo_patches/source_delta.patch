From 100b4a33b004cb920abe8aca5d2bc18e7e9c210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 01/14] fix: initial polar phase of an inclined Schwarzschild
 orbit

For a = 0, k_theta came out as 1 instead of 0 because both polar roots are set
to z_minus, the radial roots were handed on in increasing order although the
Schwarzschild frequency needs them in decreasing order, and the frequency's
sign for L < 0 is not the one used for a > 0. The phase was NaN, so the orbit's
t, theta and phi were too.
---
 kerrgeopy/initial_conditions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 946ac94..12c2db1 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -200,9 +200,8 @@ def stable_orbit_initial_phases(
         )
         radial_roots = R.roots()
         # numpy returns roots in increasing order
-        r4, r3, r2, r1 = radial_roots
-    else:
-        r1, r2, r3, r4 = radial_roots
+        radial_roots = np.flip(radial_roots)
+    r1, r2, r3, r4 = radial_roots
 
     # check for turning points in r
     if abs(r0 - r2) < tol:
@@ -244,13 +243,15 @@ def stable_orbit_initial_phases(
             upsilon_theta = _theta_frequency_from_constants(
                 a, constants, radial_roots, polar_roots
             )
+        # the sign convention for L < 0 differs between a = 0 and a > 0
+        upsilon_theta = abs(upsilon_theta)
 
-        k_theta = sqrt(z_minus / z_plus)
+        k_theta = 0 if a == 0 else sqrt(z_minus / z_plus)
         y_theta = cos(theta0) / sqrt(z_minus)
         e0zp = (a**2 * (1 - E**2) * (1 - z_minus) + L**2) / (L**2 * (1 - z_minus))
 
         # Fujita and Hikida equation 37
-        lambda_theta0 = 1 / (L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
+        lambda_theta0 = 1 / abs(L * sqrt(e0zp)) * ellipkinc(arcsin(y_theta), k_theta**2)
 
         # Fujita and Hikida equation 36
         if dtheta0 < 0:
-- 
2.43.0


From 2ef33937eee99d331442baac63b5f3e6a875b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 02/14] fix: recognise circular orbits from their initial
 conditions

Rounding error splits the double radial root of a circular orbit into a
complex-conjugate pair, so Orbit() took it for a plunge (or refused it in
Schwarzschild). No motion is possible above the largest real root when the
other two are complex, so a starting radius up there identifies the case.
---
 kerrgeopy/constants.py          | 2 +-
 kerrgeopy/initial_conditions.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 46d018c..2e53ba8 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -470,7 +470,7 @@ def apex_from_constants(a, E, L, Q):
             E**2 - 1,
         ]
     )
-    radial_roots = R.roots()
+    radial_roots = np.real_if_close(R.roots(), tol=1e-4)
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
 
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 12c2db1..06fda4b 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -111,7 +111,9 @@ def is_stable(a, initial_position, initial_velocity, constants=None, tol=1e-4):
         raise ValueError("Not a physical orbit")
 
     if len(complex_roots) == 2:
-        return False
+        # rounding error can split the double root of a circular orbit into a complex pair,
+        # in which case r0 lies at the pair rather than below the largest real root
+        return bool(r0 > real_roots[-1] + tol)
 
     r4, r3, r2, r1 = real_roots
     # r4 < r3 < [r2 < r_minus < r_plus < r1]
@@ -198,7 +200,7 @@ def stable_orbit_initial_phases(
                 E**2 - 1,
             ]
         )
-        radial_roots = R.roots()
+        radial_roots = np.real_if_close(R.roots(), tol=1e-4)
         # numpy returns roots in increasing order
         radial_roots = np.flip(radial_roots)
     r1, r2, r3, r4 = radial_roots
-- 
2.43.0


From 5d474a61f30096a88f0abf9d764a477869c7a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/14] fix: initial phases of plunges at turning points and in
 the equatorial plane

At a radial or polar turning point rounding error pushed the argument of
arcsin beyond 1, and in the equatorial plane z1 = 0, so the phases were NaN.
---
 kerrgeopy/initial_conditions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index 06fda4b..d397885 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -353,12 +353,19 @@ def plunging_orbit_initial_phases(
             -1
             / sqrt((1 - E**2) * A * B)
             * ellipkinc(
-                pi / 2 - arcsin((B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1))),
+                pi / 2
+                - arcsin(
+                    np.clip(
+                        (B * (r2 - r0) - A * (r0 - r1)) / (B * (r2 - r0) + A * (r0 - r1)), -1, 1
+                    )
+                ),
                 k_r**2,
             )
         )
         # derived by inverting equation 29
-        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(cos(theta0) / z1), k_theta**2)
+        # (z1 = 0 for equatorial orbits, rounding error can push the ratio past 1 at turning points)
+        y_theta = np.clip(cos(theta0) / z1, -1, 1) if z1 != 0 else 0
+        lambda_theta0 = 1 / z2 * ellipkinc(arcsin(y_theta), k_theta**2)
 
         upsilon_r, upsilon_theta = plunging_mino_frequencies(a, E, L, Q)
 
-- 
2.43.0


From f170d0eadc88e07e5ad566f30cc924c8e164be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 04/14] fix: trajectory_deltas of a plunge with four real
 radial roots

polar_solutions was handed the radial roots and raised
'too many values to unpack'.
---
 kerrgeopy/orbit.py  | 5 ++++-
 kerrgeopy/plunge.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 52b68f6..40943f5 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -156,8 +156,11 @@ class Orbit:
 
                 constants = (self.E, self.L, self.Q)
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
+                # polar polynomial written in terms of z = cos^2(theta)
+                b = self.a**2 * (1 - self.E**2)
+                polar_roots = Polynomial([self.Q, -(self.Q + b + self.L**2), b]).roots()
                 theta, t_theta, phi_theta = polar_solutions(
-                    self.a, constants, radial_roots
+                    self.a, constants, polar_roots
                 )
 
         return (
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 5c1b693..2bccbc9 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -109,7 +109,10 @@ class PlungingOrbit(Orbit):
         else:
             constants = (self.E, self.L, self.Q)
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            theta, t_theta, phi_theta = polar_solutions(self.a, constants, radial_roots)
+            # polar polynomial written in terms of z = cos^2(theta)
+            b = self.a**2 * (1 - self.E**2)
+            polar_roots = Polynomial([self.Q, -(self.Q + b + self.L**2), b]).roots()
+            theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
             lambda q_r: t_r(q_r + q_r0),
-- 
2.43.0


From 284856a287804fc252dfb4e8bf91281bb8cb33da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 05/14] fix: is_visible tests each point against the horizon

The norm was taken over the whole array of points, so points inside the
horizon on the near side were reported visible.
---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 40943f5..5277a67 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -588,7 +588,7 @@ class Orbit:
         return (
             (normal_component >= 0)
             | (np.linalg.norm(projection, axis=1) > event_horizon)
-        ) & (np.linalg.norm(points) > event_horizon)
+        ) & (np.linalg.norm(points, axis=1) > event_horizon)
 
     def animate(
         self,
-- 
2.43.0


From 3e6551200f57bf23b899c28f545fec0a68c68361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 06/14] fix: animate accepts a fractional tail_length

tail_length is documented as a double, but a non-integer one made the slice
index a float and raised TypeError once the tail had reached its full length.
---
 kerrgeopy/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 5277a67..ce56101 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -797,7 +797,7 @@ class Orbit:
                 pbar.update(1)
 
                 j = speed_multiplier * i
-                j0 = max(0, j - tail_length * point_density)
+                j0 = max(0, j - int(tail_length * point_density))
                 current_time = time[j]
 
                 # update camera angles
-- 
2.43.0


From d552e66a5735afcb56ce06e8c4c71920767057c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 07/14] fix: animate closes its figure when it fails

If the encoder was missing or died, a callback raised or the user interrupted,
the half-drawn figure stayed open in pyplot. The body of animate moves to
_save_animation unchanged and animate closes the figure whatever happens.
---
 kerrgeopy/orbit.py | 57 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index ce56101..8bd058f 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -665,6 +665,60 @@ class Orbit:
             if true, plots the components of the trajectory in addition
             to the trajectory itself, defaults to False
         """
+        fig = None
+        try:
+            fig = plt.figure(figsize=((18, 12) if plot_components else (12, 12)))
+            self._save_animation(
+                fig,
+                filename,
+                lambda0,
+                lambda1,
+                elevation,
+                azimuth,
+                initial_phases,
+                grid,
+                axes,
+                color,
+                tau,
+                tail_length,
+                lw,
+                azimuthal_pan,
+                elevation_pan,
+                roll,
+                speed,
+                background_color,
+                axis_limit,
+                plot_components,
+            )
+        finally:
+            # close figure so it doesn't show up in notebook
+            if fig is not None:
+                plt.close(fig)
+
+    def _save_animation(
+        self,
+        fig,
+        filename,
+        lambda0,
+        lambda1,
+        elevation,
+        azimuth,
+        initial_phases,
+        grid,
+        axes,
+        color,
+        tau,
+        tail_length,
+        lw,
+        azimuthal_pan,
+        elevation_pan,
+        roll,
+        speed,
+        background_color,
+        axis_limit,
+        plot_components,
+    ):
+        """Draws the animation on the given figure and saves it (see :meth:`animate`)"""
         lambda_range = lambda1 - lambda0
         point_density = 240  # number of points per unit of mino time
         num_pts = int(lambda_range * point_density)  # total number of points
@@ -674,7 +728,6 @@ class Orbit:
         # compute trajectory
         t, r, theta, phi = self.trajectory(initial_phases)
 
-        fig = plt.figure(figsize=((18, 12) if plot_components else (12, 12)))
         if plot_components:
             ax_dict = fig.subplot_mosaic(
                 """
@@ -879,5 +932,3 @@ class Orbit:
                 )
             else:
                 ani.save(filename, writer=FFwriter)
-            # close figure so it doesn't show up in notebook
-            plt.close(fig)
-- 
2.43.0


From 77953f1048b74cbf2ebd45f5597e07c7202a356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 08/14] fix: scale the circular-orbit root tolerance with the
 radius

The double root of a wide circular orbit splits by more than 1e-4 in absolute
terms, so Orbit() failed in ellipk with a complex argument.
---
 kerrgeopy/constants.py          | 5 ++++-
 kerrgeopy/initial_conditions.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 2e53ba8..c725f48 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -470,7 +470,10 @@ def apex_from_constants(a, E, L, Q):
             E**2 - 1,
         ]
     )
-    radial_roots = np.real_if_close(R.roots(), tol=1e-4)
+    radial_roots = R.roots()
+    # rounding error can split the double root of a circular orbit into a complex pair
+    if np.all(np.abs(radial_roots.imag) <= 1e-4 * np.abs(radial_roots)):
+        radial_roots = np.real(radial_roots)
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
 
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index d397885..ae0dd09 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -200,7 +200,10 @@ def stable_orbit_initial_phases(
                 E**2 - 1,
             ]
         )
-        radial_roots = np.real_if_close(R.roots(), tol=1e-4)
+        radial_roots = R.roots()
+        # rounding error can split the double root of a circular orbit into a complex pair
+        if np.all(np.abs(radial_roots.imag) <= 1e-4 * np.abs(radial_roots)):
+            radial_roots = np.real(radial_roots)
         # numpy returns roots in increasing order
         radial_roots = np.flip(radial_roots)
     r1, r2, r3, r4 = radial_roots
-- 
2.43.0


From 07f086a8b9b219fc8c9e3e79c8f4506cc018392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 09/14] fix: animate no longer loses a frame to rounding of the
 duration

int() truncated e.g. 4.1 * 240 = 983.9999999999999, which dropped a frame.
---
 kerrgeopy/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 8bd058f..b89aa06 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -721,7 +721,8 @@ class Orbit:
         """Draws the animation on the given figure and saves it (see :meth:`animate`)"""
         lambda_range = lambda1 - lambda0
         point_density = 240  # number of points per unit of mino time
-        num_pts = int(lambda_range * point_density)  # total number of points
+        # total number of points (rounded so that e.g. 4.1 units are 984 points, not 983)
+        num_pts = int(round(lambda_range * point_density, 6))
         time = np.linspace(lambda0, lambda1, num_pts)
         speed_multiplier = int(speed * 8)
         num_frames = int(num_pts / speed_multiplier)
-- 
2.43.0


From 4ce8d4d3b793b7587df5fa9bb84d644752d7e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 10/14] fix: numerical four-velocity functions keep the spin
 they were requested with

---
 kerrgeopy/orbit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index b89aa06..5813807 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -380,9 +380,10 @@ class Orbit:
         if initial_phases is None:
             initial_phases = self.initial_phases
         t, r, theta, phi = self.trajectory(initial_phases)
+        a = self.a
 
         def u_t(mino_time):
-            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
+            sigma = r(mino_time) ** 2 + a**2 * cos(theta(mino_time)) ** 2
             return (
                 -t(mino_time + 2 * dx)
                 + 8 * t(mino_time + dx)
@@ -391,7 +392,7 @@ class Orbit:
             ) / (12 * dx * sigma)
 
         def u_r(mino_time):
-            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
+            sigma = r(mino_time) ** 2 + a**2 * cos(theta(mino_time)) ** 2
             return (
                 -r(mino_time + 2 * dx)
                 + 8 * r(mino_time + dx)
@@ -400,7 +401,7 @@ class Orbit:
             ) / (12 * dx * sigma)
 
         def u_theta(mino_time):
-            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
+            sigma = r(mino_time) ** 2 + a**2 * cos(theta(mino_time)) ** 2
             return (
                 -theta(mino_time + 2 * dx)
                 + 8 * theta(mino_time + dx)
@@ -409,7 +410,7 @@ class Orbit:
             ) / (12 * dx * sigma)
 
         def u_phi(mino_time):
-            sigma = r(mino_time) ** 2 + self.a**2 * cos(theta(mino_time)) ** 2
+            sigma = r(mino_time) ** 2 + a**2 * cos(theta(mino_time)) ** 2
             return (
                 -phi(mino_time + 2 * dx)
                 + 8 * phi(mino_time + dx)
-- 
2.43.0


From 83d4e3446880f6dc2993293154770dd9d1f54242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 11/14] fix: orbits keep their own copy of the phases and state
 they are built from

---
 kerrgeopy/orbit.py  | 4 ++--
 kerrgeopy/plunge.py | 2 +-
 kerrgeopy/stable.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 5813807..4070fdd 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -61,8 +61,8 @@ class Orbit:
     def __init__(self, a, initial_position, initial_velocity, M=None, mu=None):
         self.a, self.initial_position, self.initial_velocity, self.M, self.mu = (
             a,
-            initial_position,
-            initial_velocity,
+            tuple(initial_position),
+            tuple(initial_velocity),
             M,
             mu,
         )
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 2bccbc9..0b02149 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -64,7 +64,7 @@ class PlungingOrbit(Orbit):
             E,
             L,
             Q,
-            initial_phases,
+            tuple(initial_phases),
             M,
             mu,
         )
diff --git a/kerrgeopy/stable.py b/kerrgeopy/stable.py
index 4aa7ce3..0358ff4 100644
--- a/kerrgeopy/stable.py
+++ b/kerrgeopy/stable.py
@@ -82,7 +82,7 @@ class StableOrbit(Orbit):
             p,
             e,
             x,
-            initial_phases,
+            tuple(initial_phases),
             M,
             mu,
         )
-- 
2.43.0


From afe1da390baf30a223dc839b624a575ccd27f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 12/14] fix: refuse initial conditions that are not finite
 numbers instead of accepting a NaN velocity

---
 kerrgeopy/orbit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 4070fdd..2f35c77 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -70,6 +70,9 @@ class Orbit:
         # check if initial four-velocity is valid
         spacetime = KerrSpacetime(a)
         initial_norm = spacetime.norm(*initial_position, initial_velocity)
+        # a velocity that is not a number would pass both of the comparisons below
+        if not np.all(np.isfinite([initial_norm, *initial_position, *initial_velocity])):
+            raise ValueError("Initial position and velocity must be finite")
         if initial_norm >= 0:
             raise ValueError("Initial velocity is not timelike")
         if abs(initial_norm + 1) > 1e-6:
-- 
2.43.0


From 16efd0019aeeff4129616ce8794eec35831bf0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:23 +0000
Subject: [PATCH 13/14] fix: compute polar roots without losing precision for
 small spins

The companion matrix (and the closed form used for plunges) finds z- next to
z+ ~ (L^2 + Q) / (a^2 (1 - E^2)), which costs 1e-16 z+ of absolute accuracy:
orbits built from a state, constants or phases had an inclination wrong by
1e-4 for a = 1e-5 and NaN coordinates for a = 1e-7.
---
 kerrgeopy/constants.py          | 39 ++++++++++++++++++++++++++++-----
 kerrgeopy/frequencies.py        | 21 +++---------------
 kerrgeopy/initial_conditions.py | 21 +++---------------
 kerrgeopy/orbit.py              |  5 ++---
 kerrgeopy/plunge.py             | 24 ++++----------------
 5 files changed, 45 insertions(+), 65 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index c725f48..505a820 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -142,6 +142,38 @@ def stable_polar_roots(a, p, e, x, constants=None):
     return z_minus, z_plus
 
 
+def _polar_roots(a, E, L, Q):
+    r"""Computes the roots of the polar polynomial for the given constants of motion.
+    Uses the form of the quadratic formula that does not lose precision when
+    :math:`a^2(1-E^2)` is small and :math:`z_+` is therefore much greater than :math:`z_-`.
+
+    Parameters
+    ----------
+    a : double
+        dimensionless spin of the black hole
+    E : double
+        dimensionless energy
+    L : double
+        dimensionless angular momentum
+    Q : double
+        dimensionless Carter constant
+
+    Returns
+    -------
+    tuple(double, double)
+        tuple of roots :math:`(z_-, z_+)`
+    """
+    # polar polynomial written in terms of z = cos^2(theta)
+    # is beta*z^2 - (Q + beta + L^2)*z + Q
+    beta = a**2 * (1 - E**2)
+    b = Q + beta + L**2
+    discriminant = (Q - beta) ** 2 + L**2 * (2 * (Q + beta) + L**2)
+    z_minus = 2 * Q / (b + sqrt(discriminant))
+    z_plus = z_minus if a == 0 else (b + sqrt(discriminant)) / (2 * beta)
+
+    return z_minus, z_plus
+
+
 def _coefficients(r, a, x):
     """Computes the coefficients f, g, h and d from equation B.5 in 
     `Schmidt <https://doi.org/10.48550/arXiv.gr-qc/0202090>`_
@@ -477,12 +509,7 @@ def apex_from_constants(a, E, L, Q):
     # numpy returns roots in increasing order
     r4, r3, r2, r1 = radial_roots
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
-    z_minus, z_plus = polar_roots
+    z_minus, z_plus = _polar_roots(a, E, L, Q)
 
     p = 2 * r1 * r2 / (r1 + r2)
     e = (r1 - r2) / (r1 + r2)
diff --git a/kerrgeopy/frequencies.py b/kerrgeopy/frequencies.py
index 9ecc96d..46a1610 100644
--- a/kerrgeopy/frequencies.py
+++ b/kerrgeopy/frequencies.py
@@ -1,7 +1,7 @@
 """Module containing functions for computing frequencies of motion for orbits in Kerr spacetime.
 Frequencies are computed using the method derived in `Fujita and Hikida <https://doi.org/10.48550/arXiv.0906.1420>`_
 """
-from .constants import _standardize_params
+from .constants import _standardize_params, _polar_roots
 from .constants import *
 from scipy.special import ellipk, ellipe, elliprj, elliprf, elliprd
 from numpy import sin, cos, sqrt, pi, arcsin, floor, where
@@ -481,18 +481,7 @@ def plunging_mino_frequencies(a, E, L, Q):
         upsilon_r = pi * sqrt(A * B * (1 - E**2)) / (2 * ellipk(k_r**2))
 
         # equation 14
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z1 = sqrt(_polar_roots(a, E, L, Q)[0])
         z2 = sqrt(
             a**2
             * (1 - E**2)
@@ -511,11 +500,7 @@ def plunging_mino_frequencies(a, E, L, Q):
         # equation 53
         upsilon_theta = pi / 2 * z2 / ellipk(k_theta**2)
     else:
-        # polar polynomial written in terms of z = cos^2(theta)
-        Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-        polar_roots = Z.roots()
-        if a == 0:
-            polar_roots = [polar_roots[0], polar_roots[0]]
+        polar_roots = _polar_roots(a, E, L, Q)
         constants = (E, L, Q)
         upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
             a, constants, radial_roots, polar_roots
diff --git a/kerrgeopy/initial_conditions.py b/kerrgeopy/initial_conditions.py
index ae0dd09..af7737e 100644
--- a/kerrgeopy/initial_conditions.py
+++ b/kerrgeopy/initial_conditions.py
@@ -4,7 +4,7 @@ from .frequencies import (
     _theta_frequency_from_constants,
     plunging_mino_frequencies,
 )
-from .constants import plunging_radial_roots
+from .constants import plunging_radial_roots, _polar_roots
 import numpy as np
 from numpy import sin, cos, sqrt, pi, arcsin, arccos
 from numpy.polynomial import Polynomial
@@ -182,11 +182,7 @@ def stable_orbit_initial_phases(
         constants = constants_from_initial_conditions(a, initial_position, initial_velocity)
     E, L, Q = constants
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = _polar_roots(a, E, L, Q)
     z_minus, z_plus = polar_roots
 
     # recompute radial roots if they are not passed in
@@ -318,18 +314,7 @@ def plunging_orbit_initial_phases(
     r1, r2, r3, r4 = radial_roots
 
     if np.iscomplex(r3):
-        z1 = sqrt(
-            1
-            / 2
-            * (
-                1
-                + (L**2 + Q) / (a**2 * (1 - E**2))
-                - sqrt(
-                    (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2
-                    - 4 * Q / (a**2 * (1 - E**2))
-                )
-            )
-        )
+        z1 = sqrt(_polar_roots(a, E, L, Q)[0])
         z2 = sqrt(
             a**2
             * (1 - E**2)
diff --git a/kerrgeopy/orbit.py b/kerrgeopy/orbit.py
index 2f35c77..16ca243 100644
--- a/kerrgeopy/orbit.py
+++ b/kerrgeopy/orbit.py
@@ -7,6 +7,7 @@ from .constants import (
     apex_from_constants,
     stable_polar_roots,
     stable_radial_roots,
+    _polar_roots,
 )
 from .frequencies import mino_frequencies, fundamental_frequencies
 from numpy import sin, cos, sqrt, pi
@@ -159,9 +160,7 @@ class Orbit:
 
                 constants = (self.E, self.L, self.Q)
                 r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-                # polar polynomial written in terms of z = cos^2(theta)
-                b = self.a**2 * (1 - self.E**2)
-                polar_roots = Polynomial([self.Q, -(self.Q + b + self.L**2), b]).roots()
+                polar_roots = _polar_roots(self.a, self.E, self.L, self.Q)
                 theta, t_theta, phi_theta = polar_solutions(
                     self.a, constants, polar_roots
                 )
diff --git a/kerrgeopy/plunge.py b/kerrgeopy/plunge.py
index 0b02149..cda8293 100644
--- a/kerrgeopy/plunge.py
+++ b/kerrgeopy/plunge.py
@@ -1,9 +1,9 @@
 """Module implementing the plunging orbit solutions of `Dyson and van de Meent <https://doi.org/10.48550/arXiv.2302.03704>`_"""
 from numpy import sqrt, arctan, arctan2, arccos, log, pi
-from numpy.polynomial import Polynomial
 import numpy as np
 from scipy.special import ellipj, ellipeinc, ellipk
 from .frequencies import _mino_frequencies_from_constants, _ellippiinc
+from .constants import _polar_roots
 from .stable import *
 from .orbit import Orbit
 from .units import *
@@ -109,9 +109,7 @@ class PlungingOrbit(Orbit):
         else:
             constants = (self.E, self.L, self.Q)
             r, t_r, phi_r = radial_solutions(self.a, constants, radial_roots)
-            # polar polynomial written in terms of z = cos^2(theta)
-            b = self.a**2 * (1 - self.E**2)
-            polar_roots = Polynomial([self.Q, -(self.Q + b + self.L**2), b]).roots()
+            polar_roots = _polar_roots(self.a, self.E, self.L, self.Q)
             theta, t_theta, phi_theta = polar_solutions(self.a, constants, polar_roots)
 
         return (
@@ -421,17 +419,7 @@ def plunging_polar_solutions(a, E, L, Q):
         tuple of polar solutions :math:`(\theta(q_\theta),
         t_\theta(q_\theta), \phi_\theta(q_\theta))`
     """
-    z1 = sqrt(
-        1
-        / 2
-        * (
-            1
-            + (L**2 + Q) / (a**2 * (1 - E**2))
-            - sqrt(
-                (1 + (L**2 + Q) / (a**2 * (1 - E**2))) ** 2 - 4 * Q / (a**2 * (1 - E**2))
-            )
-        )
-    )
+    z1 = sqrt(_polar_roots(a, E, L, Q)[0])
     z2 = sqrt(
         a**2
         * (1 - E**2)
@@ -655,11 +643,7 @@ def _real_plunge_trajectory(
     constants = (E, L, Q)
     radial_roots = plunging_radial_roots(a, E, L, Q)
 
-    # polar polynomial written in terms of z = cos^2(theta)
-    Z = Polynomial([Q, -(Q + a**2 * (1 - E**2) + L**2), a**2 * (1 - E**2)])
-    polar_roots = Z.roots()
-    if a == 0:
-        polar_roots = [polar_roots[0], polar_roots[0]]
+    polar_roots = _polar_roots(a, E, L, Q)
 
     upsilon_r, upsilon_theta, upsilon_phi, gamma = _mino_frequencies_from_constants(
         a, constants, radial_roots, polar_roots
-- 
2.43.0


From c41174f215ef9697cea396c4643c5e3cb7f13a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:48 +0000
Subject: [PATCH 14/14] fix: separatrix of nearly equatorial inclinations and
 of small spins

Rounding of the ends of the bracket left no sign change, so that e.g.
x = 1 - 1e-12 at any spin, or x = 1 - 1e-9 at a = 1e-6, raised
"f(a) and f(b) must have different signs" for about a third of the orbits.
---
 kerrgeopy/constants.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kerrgeopy/constants.py b/kerrgeopy/constants.py
index 505a820..f0b3a74 100644
--- a/kerrgeopy/constants.py
+++ b/kerrgeopy/constants.py
@@ -667,13 +667,14 @@ def separatrix(a, e, x):
         )
         return p_equatorial_retrograde.root
 
-    if x > 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_equatorial_prograde.root, p_polar.root])
-        return p.root
-
-    if x < 0:
-        p = root_scalar(_S, args=(a, e, x), bracket=[p_polar.root, 12])
-        return p.root
+    bracket = [p_equatorial_prograde.root, p_polar.root] if x > 0 else [p_polar.root, 12]
+    S0, S1 = _S(bracket[0], a, e, x), _S(bracket[1], a, e, x)
+    # rounding error can push the root out of the bracket if the orbit is nearly
+    # equatorial or polar or if the spin is small, the root is then the nearest end
+    if S0 * S1 >= 0:
+        return bracket[0] if abs(S0) < abs(S1) else bracket[1]
+
+    return root_scalar(_S, args=(a, e, x), bracket=bracket).root
 
 
 def fast_separatrix(a, grid_spacing=0.01):
-- 
2.43.0

