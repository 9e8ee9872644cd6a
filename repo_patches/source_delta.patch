From 95492bab5a2e0940c443b8712f382261a4a08403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:31 +0000
Subject: [PATCH 01/16] fix: close the 2F argument in the lunar latitude series
 (Montenbruck & Gill eq. 3.49)

---
 src/openspace/bodies/celestial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/celestial.py b/src/openspace/bodies/celestial.py
index 7838e72..4749e71 100644
--- a/src/openspace/bodies/celestial.py
+++ b/src/openspace/bodies/celestial.py
@@ -313,7 +313,7 @@ class Moon:
 
         # Equation 3.49
         beta = (
-            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f + a2 * sin(lp)))
+            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f) + a2 * sin(lp))
             - a3 * sin(f - 2.0 * d)
             + a4 * sin(l + f - 2.0 * d)
             - a5 * sin(-l + f - 2.0 * d)
-- 
2.43.0


From 9e4666189fcf23448509fbec8a376a41e974444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:33 +0000
Subject: [PATCH 02/16] fix: map finite burns from the RIC frame to GCRF, not
 the other way round

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ab06592..6d01842 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -147,7 +147,7 @@ class Spacecraft:
         :param dt: duration of the maneuver in days
         :type dt: float
         """
-        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).multiply_vector(ric_dv)
+        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).transpose().multiply_vector(ric_dv)
         self.propagator.maneuver(
             gcrf_thrust,
             self.m_dot,
-- 
2.43.0


From 9efac7b09b710e5501c15dff306483c16ab2eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:34 +0000
Subject: [PATCH 03/16] fix: finite maneuvers consume propellant instead of
 creating it

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 6d01842..51823fc 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -155,7 +155,7 @@ class Spacecraft:
             self.isp,
         )
         m_spec: float = self.m_dot / self.total_mass()
-        dt: float = (-1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
+        dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
 
     def sma(self) -> float:
-- 
2.43.0


From 7b1398a8f8fd15b77356616e4aff30e1a8908b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 04/16] fix: eccentricity of a circular orbit no longer fails
 on rounding of p/a above one

---
 src/openspace/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c6dcfde..ec8fb17 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -173,7 +173,7 @@ class Eccentricity:
            but :math:`km` is the preferred unit throughout this package to ensure computational
            consistency and accuracy.
         """
-        return sqrt(1 - p / a)
+        return sqrt(max(0.0, 1 - p / a))
 
 
 class Flattening:
-- 
2.43.0


From 0b987f12f7d7f6eb5c732d1f7002a0f00c446d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:36 +0000
Subject: [PATCH 05/16] fix: geodetic latitude at the poles no longer fails on
 rounding above one

---
 src/openspace/coordinates/positions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 026b5cf..59b375f 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -253,7 +253,7 @@ class _PositionConvertITRF:
         # Equation 2.77f
         n: float = a * sqrt(1.0 + eps2 * d * d / b2)
         arg = (eps2 + 1.0) * (d / n)
-        lamb: float = asin(arg)
+        lamb: float = asin(max(-1.0, min(1.0, arg)))
 
         # Equation 2.77g
         h: float = rho * cos(lamb) + z * sin(lamb) - a2 / n
-- 
2.43.0


From 0cc64ef0543e3dd835bfc4bc71460064dc398b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 06/16] fix: track_state re-points to a new target when already
 target-pointing

---
 src/openspace/bodies/artificial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 51823fc..855923a 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -303,10 +303,11 @@ class Spacecraft:
         :param target: spacecraft to be tracked
         :type target: Spacecraft
         """
+        self.tracked_target = target
+
         # Include slew duration if not already target-pointing
         if self.steering != Spacecraft.STEERING_MODES[2]:
             self.steering = Spacecraft.STEERING_MODES[2]
-            self.tracked_target = target
             self.slewing = True
             t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
-- 
2.43.0


From f1bf59fac37c70d5e20aec455b02b38bcd3ccca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:39 +0000
Subject: [PATCH 07/16] fix: visual magnitude uses the observed target's size
 and albedo

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 855923a..d682765 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -352,7 +352,7 @@ class Spacecraft:
         :rtype: float
         """
         # Store the target's body radius
-        r: float = self.body_radius
+        r: float = target.body_radius
 
         # Calculate the range to the target
         dist: float = self.range(target)
@@ -361,7 +361,7 @@ class Spacecraft:
         phi: float = pi - self.sun_angle(target)
 
         # Calculate the flux and vismag
-        fdiff: float = (2 / 3) * self.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
+        fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
         return -26.74 - 2.5 * log10(fdiff)
 
     def sun_angle(self, target: "Spacecraft") -> float:
-- 
2.43.0


From 9d87b2d6c516e53f8582e39b70b9a50c30cc992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 08/16] fix: angular noise of a vector along the z-axis no
 longer divides by zero

---
 src/openspace/math/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index 4df3fe1..d5ce9a1 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -168,9 +168,10 @@ class Vector3D:
         :return: new vector offset using gaussian distribution for the angle
         :rtype: Vector3D
         """
-        return self.rotation_about_axis(self.cross(Vector3D(0, 0, 1)), gauss(0, ang_err)).rotation_about_axis(
-            self, uniform(0, 2 * pi)
-        )
+        axis: Vector3D = self.cross(Vector3D(0, 0, 1))
+        if axis.magnitude() == 0:
+            axis = Vector3D(1, 0, 0)
+        return self.rotation_about_axis(axis, gauss(0, ang_err)).rotation_about_axis(self, uniform(0, 2 * pi))
 
     def __str__(self) -> str:
         """overrides the string method so the elements can be viewed
-- 
2.43.0


From ad31b0c2bb1357e6db2f89101b91eaa1ec22fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:08 +0000
Subject: [PATCH 09/16] fix: copying and propagating a GCRF state keep its
 perturbation setting

---
 src/openspace/coordinates/states.py   | 11 +++++++++++
 src/openspace/propagators/inertial.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 94c7602..7f94d81 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -137,6 +137,17 @@ class GCRF(State):
         #: boolean to determine if perturbations are modeled during propagation
         self.use_perturbations: bool = True
 
+    def copy(self) -> "GCRF":
+        """create a replica of the calling state including its thrust and perturbation setting
+
+        :return: state with attributes equal to the calling state
+        :rtype: GCRF
+        """
+        replica: GCRF = super().copy()
+        replica.thrust = self.thrust.copy()
+        replica.use_perturbations = self.use_perturbations
+        return replica
+
     def acceleration_from_gravity(self) -> Vector3D:
         """calculates the gravity due to a nonspherical earth
 
diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 82e660a..7a9758e 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -52,26 +52,31 @@ class RK4:
         epoch_1 = epoch_0.plus_days(ddays)
         y1: GCRF = GCRF(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
         y1.thrust = self.thrust_vector(dsecs)
+        y1.use_perturbations = self.state.use_perturbations
         k2: List[Vector3D] = y1.derivative()
 
         y2: GCRF = GCRF(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
         y2.thrust = self.thrust_vector(dsecs)
+        y2.use_perturbations = self.state.use_perturbations
         k3: List[Vector3D] = y2.derivative()
 
         epoch_2 = epoch_1.plus_days(ddays)
         y3: GCRF = GCRF(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
         y3.thrust = self.thrust_vector(dsecs * 2)
+        y3.use_perturbations = self.state.use_perturbations
         k4: List[Vector3D] = y3.derivative()
 
         coeff: float = 1 / 6
         dv: Vector3D = k1[0].plus(k2[0].scaled(2).plus(k3[0].scaled(2).plus(k4[0]))).scaled(coeff)
         da: Vector3D = k1[1].plus(k2[1].scaled(2).plus(k3[1].scaled(2).plus(k4[1]))).scaled(coeff)
 
+        use_perturbations: bool = self.state.use_perturbations
         self.state = GCRF(
             epoch_2,
             self.state.position.plus(dv.scaled(h)),
             self.state.velocity.plus(da.scaled(h)),
         )
+        self.state.use_perturbations = use_perturbations
 
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
-- 
2.43.0


From 6c5e5e5c0ff5497f05730587199bcf011935be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:09 +0000
Subject: [PATCH 10/16] fix: burn mass decreases across the integration steps
 of one maneuver

---
 src/openspace/propagators/inertial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 7a9758e..e12cbf8 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -77,6 +77,7 @@ class RK4:
             self.state.velocity.plus(da.scaled(h)),
         )
         self.state.use_perturbations = use_perturbations
+        self.m0 -= self.m_dot * h
 
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
-- 
2.43.0


From ce58aa6354e1e435fef8423d9a3776098dbbe8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 11/16] fix: node and argument of latitude of equatorial orbits
 are measured from the x-axis

---
 src/openspace/math/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index ec8fb17..6926c99 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -437,6 +437,8 @@ class RightAscensionNode:
            document equation reference from Satellite Orbits
         """
         raan: float = atan2(w.x, -w.y)
+        if w.x == 0 and w.y == 0:
+            raan = 0
         if raan < 0:
             raan += 2 * pi
         return raan
@@ -845,6 +847,8 @@ class ArgumentOfLatitude:
            find equation reference
         """
         u: float = atan2(r.z, -r.x * w.y + r.y * w.x)
+        if w.x == 0 and w.y == 0:
+            u = atan2(r.y * sign(w.z), r.x)
         if u < 0:
             u += 2 * pi
         return u
-- 
2.43.0


From 19efb5472421ae94ff3ba3a8b7165d5ff33b7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 12/16] fix: two-position orbit determination places equatorial
 orbits correctly

---
 src/openspace/estimation/iod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 91dd2d0..8f560da 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -4,6 +4,7 @@ from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
 from openspace.estimation.obs import Observation
 from openspace.math.constants import SECONDS_IN_DAY
+from openspace.math.functions import sign
 from openspace.math.linalg import Vector3D
 
 
@@ -42,6 +43,9 @@ class Gauss:
         ua: float = atan2(ra.z, -ra.x * w.y + ra.y * w.x)
         inc: float = atan2(sqrt(w.x * w.x + w.y * w.y), w.z)
         raan: float = atan2(w.x, -w.y)
+        if w.x == 0 and w.y == 0:
+            ua = atan2(ra.y * sign(w.z), ra.x)
+            raan = 0
         if inc < 0:
             inc += 2 * pi
         if raan < 0:
-- 
2.43.0


From bccf8885f6ee2bdeaf5684ce26e349ed6f99e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:17 +0000
Subject: [PATCH 13/16] fix: the slew to a tracked target is timed with the
 target at the current epoch

---
 src/openspace/bodies/artificial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index d682765..a6569de 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -305,6 +305,10 @@ class Spacecraft:
         """
         self.tracked_target = target
 
+        # Step the target if epochs are not in sync so that the slew is toward its current position
+        if target.current_epoch().value != self.current_epoch().value:
+            target.step_to_epoch(self.current_epoch())
+
         # Include slew duration if not already target-pointing
         if self.steering != Spacecraft.STEERING_MODES[2]:
             self.steering = Spacecraft.STEERING_MODES[2]
-- 
2.43.0


From 4db0daf5a598a2c5167614fbbe3edf267c333e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:07 +0000
Subject: [PATCH 14/16] fix: two-position orbit determination keeps the
 eccentricity at a quarter turn from perigee

---
 src/openspace/estimation/iod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 8f560da..5b430e9 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -80,7 +80,7 @@ class Gauss:
         if ta < 0:
             ta += 2 * pi
 
-        e: float = ecosva / cos(ta)
+        e: float = sqrt(ecosva * ecosva + esinva * esinva)
 
         aop: float = ua - ta
         if aop < 0:
-- 
2.43.0


From 89e98026173e1ca39e070b15f13285c241bf1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:58 +0000
Subject: [PATCH 15/16] fix: the vector list of a state does not expose the
 state's own vectors

---
 src/openspace/coordinates/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 7f94d81..c5f3adc 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -42,7 +42,7 @@ class State:
         :return: list of indices 0 == position and 1 == velocity
         :rtype: List[Vector3D]
         """
-        return [self.position, self.velocity]
+        return [self.position.copy(), self.velocity.copy()]
 
 
 class ITRF(State):
-- 
2.43.0


From 90fa2e6b6a2e50476450781b0c0bb1c17f6f97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:53 +0000
Subject: [PATCH 16/16] fix: the epoch of an observation is returned as a copy

---
 src/openspace/estimation/obs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/estimation/obs.py b/src/openspace/estimation/obs.py
index 3390b62..4bf1f0b 100644
--- a/src/openspace/estimation/obs.py
+++ b/src/openspace/estimation/obs.py
@@ -62,7 +62,7 @@ class SpaceObservation(Observation):
         :return: valid epoch of the observation
         :rtype: Epoch
         """
-        return self.observer_state.epoch
+        return self.observer_state.epoch.copy()
 
     def ijk_position(self) -> Vector3D:
         """calculate the inertial position of the observation
@@ -142,7 +142,7 @@ class GroundObservation(Observation):
         :return: valid epoch of the observation
         :rtype: Epoch
         """
-        return self.observer_state.epoch
+        return self.observer_state.epoch.copy()
 
     def ijk_position(self) -> Vector3D:
         """calculate the inertial position of the observation
-- 
2.43.0

