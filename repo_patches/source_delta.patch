From 34b7722aeb7f63b7f1c1a933ae46036dfed6c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 01/30] fix: keep the scale and the exponents of nested and
 scaled compound units

---
 celest/units/core.py     | 46 +++++++++++++++++-----------------------
 celest/units/quantity.py |  2 +-
 2 files changed, 21 insertions(+), 27 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 586e3f0..a17299b 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -69,6 +69,8 @@ class BaseUnit:
             return CompoundUnit(1.0, [self, other], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        else:
+            return NotImplemented
 
     def __rmul__(self, other):
         if isinstance(other, BaseUnit):
@@ -79,6 +81,8 @@ class BaseUnit:
             return CompoundUnit(1.0, [other, self], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        else:
+            return NotImplemented
 
     def is_unity(self) -> bool:
         """
@@ -169,6 +173,9 @@ class Unit(NamedUnit, BaseUnit):
             self._scale = base_units.scale
             self._bases = base_units.bases
             self._powers = base_units.powers
+            if isinstance(base_units, CompoundUnit):
+                for base, power in zip(base_units.bases, base_units.powers):
+                    self._scale *= base.scale ** power
         else:
             self._scale = 1.0
             self._bases = [self]
@@ -217,24 +224,10 @@ class CompoundUnit(BaseUnit):
 
     def __init__(self, scale: float, bases: list, powers: list) -> None:
 
-        self._is_unity = False
-
-        base = bases[0]
-        power = powers[0]
-        if not isinstance(base, CompoundUnit) and len(bases) == 1 and power >= 0:
-            if power == 0:
-                self._scale = scale * base.scale
-                self._bases = []
-                self._powers = []
-            else:
-                self._scale = scale * base.scale ** power
-                self._bases = bases
-                self._powers = powers
-        else:
-            self._scale = scale
-            self._bases = bases
-            self._powers = powers
-            self._expand_and_collect()
+        self._scale = scale
+        self._bases = bases
+        self._powers = powers
+        self._expand_and_collect()
 
     def __repr__(self) -> str:
         return "CompoundUnit(\"" + _to_string(self) + "\")"
@@ -269,16 +262,17 @@ class CompoundUnit(BaseUnit):
                 powers[index] = new_power
 
         for base, power in zip(self._bases, self._powers):
-            if isinstance(base, CompoundUnit):
+            if not power:
+                continue
+            elif isinstance(base, CompoundUnit):
+                if base.scale != 1:
+                    self._scale *= base.scale ** power
                 for b, p in zip(base.bases, base.powers):
                     if b not in bases:
-                        if b not in bases:
-                            bases.append(b)
-                            powers.append(p * power)
-                        else:
-                            handle_repeated_units(b, p * power)
+                        bases.append(b)
+                        powers.append(p * power)
                     else:
-                        handle_repeated_units(b, p)
+                        handle_repeated_units(b, p * power)
             elif base not in bases:
                 bases.append(base)
                 powers.append(power)
@@ -288,7 +282,7 @@ class CompoundUnit(BaseUnit):
         self._bases = bases
         self._powers = powers
 
-        self._is_unity = True if not len(self._bases) else False
+        self._is_unity = not len(self._bases) and self._scale == 1
 
     def is_unity(self) -> bool:
         return self._is_unity
diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 942c33a..27a6407 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -280,7 +280,7 @@ class Quantity:
 
         def _get_unit_scale(unit):
             if isinstance(unit, CompoundUnit):
-                scale = 1.0
+                scale = unit.scale
                 for base, power in zip(unit.bases, unit.powers):
                     scale *= base.scale ** power
                 return scale
-- 
2.43.0


From 743e92c2bd31521eb817a412d6dca26be1f0bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 02/30] fix: drop cancelled dimensions instead of popping from
 a number

---
 celest/units/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index c08645f..2872a03 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -90,7 +90,7 @@ def get_dimensions_from_unit(unit):
             new_power = dimension_powers[dimension_index] + power
             if new_power == 0:
                 dimensions.pop(dimension_index)
-                new_power.pop(dimension_index)
+                dimension_powers.pop(dimension_index)
             else:
                 dimension_powers[dimension_index] = new_power
         else:
-- 
2.43.0


From a659fcfca08af0ffd499c0d427655e819aa26b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 03/30] fix: make the dimension string independent of how a
 unit was built

---
 celest/units/display.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 2872a03..afddd73 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -35,6 +35,9 @@ def generate_compound_unit_string(unit):
             [scale_string + numerator_string, "/", denominator_string])
 
 
+DIMENSION_ORDER = ["L", "T", "D", "A"]
+
+
 UNIT_TO_DIMENSION_DICTIONARY = {
     "m": "L",
     "mm": "L",
@@ -63,7 +66,10 @@ def get_dimension_string(unit):
 
     dimensions, powers = get_dimensions_from_unit(unit)
 
-    for dimension, power in zip(dimensions, powers):
+    for dimension, power in sorted(
+            zip(dimensions, powers), key=lambda x: DIMENSION_ORDER.index(x[0])):
+        if isinstance(power, float) and power.is_integer():
+            power = int(power)
         unit_string = dimension + ("" if abs(power) == 1 else str(abs(power)))
         if power > 0:
             numerator_strings.append(unit_string)
-- 
2.43.0


From 92266e786cb303564fff551118b462f8494694b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 04/30] fix: convert integer arrays and keep the identity of
 the unit

---
 celest/units/quantity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 27a6407..8e4ad4d 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -287,11 +287,11 @@ class Quantity:
             else:
                 return unit.scale
 
-        quantity_copy = deepcopy(self)
+        quantity_copy = Quantity(deepcopy(self._data), self._unit)
 
         if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= _get_unit_scale(
-                quantity_copy.unit) / _get_unit_scale(new_unit)
+            quantity_copy._data = quantity_copy._data * (_get_unit_scale(
+                quantity_copy.unit) / _get_unit_scale(new_unit))
             quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From fce33935de3fd460233aa0955903a044df29261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 05/30] fix: a quantity is unequal to anything that is not a
 quantity

---
 celest/units/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 8e4ad4d..c3a305d 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -181,7 +181,8 @@ class Quantity:
             return NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        equal = self.__eq__(other)
+        return equal if equal is NotImplemented else not equal
 
     def __lt__(self, other):
         if isinstance(other, Quantity):
-- 
2.43.0


From 52e2d126b17896c68e3802992b36093fed199f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:51 +0000
Subject: [PATCH 06/30] fix: wrap Greenwich apparent sidereal time into [0, 24)
 hours

---
 celest/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/time.py b/celest/time.py
index 5ebabed..45e58e4 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -480,7 +480,7 @@ class Time:
         gmst = self.gmst().to(u.hourangle)
         eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
 
-        return Quantity(gmst + eqn_of_equinoxes, u.hourangle)
+        return Quantity((gmst + eqn_of_equinoxes) % 24, u.hourangle)
 
     def last(self, longitude: np.ndarray) -> Quantity:
         """Return Local Apparent Sidereal Time.
-- 
2.43.0


From c285c34d3ae491b62fd86db1cb70b94c22571bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:08 +0000
Subject: [PATCH 07/30] fix: apply the Gregorian calendar rules from 15 October
 1582, entry by entry

---
 celest/constants.py                           | 1 +
 celest/coordinates/astronomical_quantities.py | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/celest/constants.py b/celest/constants.py
index 53257e7..9e8af0f 100644
--- a/celest/constants.py
+++ b/celest/constants.py
@@ -3,6 +3,7 @@
 # Time constants.
 JD2000_DATE = 2451545
 DAYS_IN_JULIAN_CENTURY = 36525
+DAYS_IN_GREGORIAN_CENTURY = 36524.25
 DAYS_PER_YEAR = 365.25
 
 # Earth rotation constants.
diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index a6ac344..aa7ec1a 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -3,6 +3,7 @@
 from celest.constants import (
     JD2000_DATE,
     DAYS_IN_JULIAN_CENTURY,
+    DAYS_IN_GREGORIAN_CENTURY,
     DAYS_PER_YEAR,
     EARTH_ROTATION_RATE_DEG_PER_DAY,
     ERA_AT_JD2000_DEG,
@@ -402,9 +403,9 @@ def from_julian(julian: Quantity) -> Tuple:
         jd = np.array(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
-    ind = np.where(a >= 2291161)[0]
-    alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
-    a[ind] = a + 1 + alpha - (alpha / 4).astype(int)
+    ind = np.where(a >= 2299161)[0]
+    alpha = ((a[ind] - 1867216.25) / DAYS_IN_GREGORIAN_CENTURY).astype(int)
+    a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
     c = ((b - 122.1) / DAYS_PER_YEAR).astype(int)
-- 
2.43.0


From 53c62b0e2da9b57d3cf7d09f3928b6ee97d3ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:08 +0000
Subject: [PATCH 08/30] fix: century years are leap years only every four
 hundred years

---
 celest/coordinates/astronomical_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index aa7ec1a..f66abb0 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -462,7 +462,7 @@ def day_of_year(julian: Quantity) -> np.ndarray:
     year, month, day = from_julian(julian)
 
     K = np.full(day.shape, 2)
-    K[np.where(year % 4 == 0)] = 1
+    K[np.where((year % 4 == 0) & ((year % 100 != 0) | (year % 400 == 0)))] = 1
 
     N = (275 * month / 9).astype(int)
     N = N - K * ((month + 9) / 12).astype(int) + day - 30
-- 
2.43.0


From 95b1aa6b8c2b35744b285134d67e5968a3899838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:08 +0000
Subject: [PATCH 09/30] fix: reject frames when any one array differs in length

---
 celest/coordinates/frames/base_positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/frames/base_positions.py b/celest/coordinates/frames/base_positions.py
index 48fb461..e7c8eee 100644
--- a/celest/coordinates/frames/base_positions.py
+++ b/celest/coordinates/frames/base_positions.py
@@ -23,7 +23,7 @@ class Position2d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size:
+        if not time.size == x.size == y.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
@@ -79,7 +79,7 @@ class Position3d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1 or z.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size != z.size:
+        if not time.size == x.size == y.size == z.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
-- 
2.43.0


From df960181d8d9853cb5726fd341c8c6513b84e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 10/30] fix: do not truncate rotated integer coordinates

---
 celest/coordinates/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0e0f45b..9be65ce 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -95,6 +95,7 @@ def _rotate_by_earth_rotation_angle(data, degree_era):
     c, s = np.cos(radian_era), np.sin(radian_era)
     c1, c2, c3 = np.copy(data).T
 
+    data = data.astype(float)
     data[:, 0] = c * c1 - s * c2
     data[:, 1] = s * c1 + c * c2
     data[:, 2] = c3
-- 
2.43.0


From eefc06146c886a6c68eb88160b627f815860d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 11/30] fix: keep the cosine of an angle within [-1, 1]

---
 celest/coordinates/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 9be65ce..4be54e6 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -399,7 +399,7 @@ def _get_ang(u, v) -> np.ndarray:
 
     numerator = np.sum(u * v, axis=(ua or va))
     denominator = np.linalg.norm(u, axis=ua) * np.linalg.norm(v, axis=va)
-    ang = np.degrees(np.arccos(numerator / denominator))
+    ang = np.degrees(np.arccos(np.clip(numerator / denominator, -1, 1)))
 
     return ang
 
-- 
2.43.0


From f703cca03a734cc1c1409116cb3488b36265c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 12/30] fix: measure azimuth from north in both hemispheres and
 on the equator

---
 celest/coordinates/transforms.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 4be54e6..5e679b9 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -356,25 +356,23 @@ def _azimuth(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         location.itrs_z.to(u.km)
     ])
 
-    latitude = location.latitude.to(u.rad)
-    radius = location.radius.to(u.km)
+    radius = np.linalg.norm(ground_itrs)
 
     ground_to_satellite = sat_itrs - ground_itrs
 
-    z_axis_vector = [0, 0, radius / np.sin(latitude)]
-    surface_tangent = z_axis_vector - ground_itrs
+    z_axis_vector = np.array([0, 0, 1])
+    surface_tangent = z_axis_vector - ground_itrs[2] * ground_itrs / radius ** 2
 
     sat_to_ground_on_normal = np.dot(ground_to_satellite, ground_itrs) / radius ** 2
     sat_to_ground_on_normal = np.array([sat_to_ground_on_normal *
                                         ground_itrs[i] for i in range(3)]).T
     ground_to_sat_on_plane = ground_to_satellite - sat_to_ground_on_normal
 
-    direction = np.cross(surface_tangent, ground_itrs)
-    negative_indices = np.sum(ground_to_sat_on_plane * direction, axis=1) < 0
-    azimuth = _get_ang(surface_tangent, ground_to_sat_on_plane)
-    azimuth = 360 * negative_indices - 1 * (2 * negative_indices - 1) * azimuth
+    direction = np.cross(surface_tangent, ground_itrs) / radius
+    east_component = np.sum(ground_to_sat_on_plane * direction, axis=1)
+    north_component = np.sum(ground_to_sat_on_plane * surface_tangent, axis=1)
 
-    return azimuth
+    return np.degrees(np.arctan2(east_component, north_component)) % 360
 
 
 def _get_ang(u, v) -> np.ndarray:
-- 
2.43.0


From 21165472e2b73400e229f44161e3d701871221fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 13/30] fix: return converged geodetic latitude and height for
 every sample

---
 celest/coordinates/transforms.py | 56 ++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 5e679b9..8ec4966 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -13,7 +13,6 @@ from celest.coordinates.nutation_precession_matrices import (
 )
 from celest.coordinates.ground_location import GroundLocation
 from celest.constants import (
-    WGS84_MINOR_AXIS_KM,
     WGS84_MAJOR_AXIS_KM,
     WGS83_FIRST_ECCENTRICITY
 )
@@ -183,9 +182,8 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
     itrs_y = itrs.y.to(u.km)
     itrs_z = itrs.z.to(u.km)
 
-    latitude = np.arctan(itrs_z / np.sqrt(itrs_x ** 2 + itrs_y ** 2))
+    latitude, height = _geodetic_latitude_and_altitude(itrs_x, itrs_y, itrs_z)
     longitude = np.arctan2(itrs_y, itrs_x)
-    height = _altitude(itrs)
 
     return WGS84(julian, latitude, longitude, height, u.rad, u.km)
 
@@ -222,34 +220,50 @@ def _altitude(itrs: ITRS) -> np.ndarray:
         raise ValueError(f"Input data is in the {itrs.__class__} frame and not"
                          " the ITRS frame.")
 
-    a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
+    _, height = _geodetic_latitude_and_altitude(
+        itrs.x.to(u.km), itrs.y.to(u.km), itrs.z.to(u.km))
 
-    tol = 10e-10
+    return height
 
-    itrs_x = itrs.x.to(u.km)
-    itrs_y = itrs.y.to(u.km)
-    itrs_z = itrs.z.to(u.km)
 
-    e = np.sqrt(1 - b ** 2 / a ** 2)
+def _geodetic_latitude_and_altitude(itrs_x, itrs_y, itrs_z) -> Tuple:
+    """Return the geodetic latitude in radians and the altitude in kilometers.
+
+    Every sample is iterated until its own latitude has converged.
+
+    Parameters
+    ----------
+    itrs_x, itrs_y, itrs_z : np.ndarray
+        1-D arrays containing the ITRS coordinates in kilometers.
+
+    Returns
+    -------
+    Tuple
+        Tuple of the form, `(latitude, altitude)`.
+    """
+
+    a, e = WGS84_MAJOR_AXIS_KM, WGS83_FIRST_ECCENTRICITY
+
+    tol = 1e-12
+
     p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
 
-    h = np.sqrt(itrs_x ** 2 + itrs_y ** 2 + itrs_z ** 2) - np.sqrt(a * b)
-    phi = np.arctan((itrs_z / p) * (1 - (e ** 2 * a) / (a + h)) ** -1)
+    phi = np.arctan2(itrs_z, p * (1 - e ** 2))
 
-    def new_vals(a, b, e, p, phi, z):
-        N = a / np.sqrt(np.cos(phi) ** 2 + b ** 2 / a ** 2 * np.sin(phi) ** 2)
-        h = p / np.cos(phi) - N
-        phi = np.arctan((z / p) * (1 - (e ** 2 * N) / (N + h)) ** -1)
+    def new_phi(phi):
+        N = a / np.sqrt(1 - e ** 2 * np.sin(phi) ** 2)
+        return np.arctan2(itrs_z + e ** 2 * N * np.sin(phi), p)
 
-        return h, phi
+    phip = new_phi(phi)
 
-    hp, phip = new_vals(a, b, e, p, phi, itrs_z)
+    while np.any(np.abs(phip - phi) > tol):
+        phi = phip
+        phip = new_phi(phi)
 
-    while (np.mean(hp - h) > a * tol) or (np.mean(phip - phi) > tol):
-        h, phi = hp, phip
-        hp, phip = new_vals(a, b, e, p, phi, itrs_z)
+    h = p * np.cos(phip) + itrs_z * np.sin(phip) - \
+        a * np.sqrt(1 - e ** 2 * np.sin(phip) ** 2)
 
-    return h
+    return phip, h
 
 
 def _wgs84_to_itrs(wgs84: WGS84) -> ITRS:
-- 
2.43.0


From 50ebd65bb181064e0874c74bfcf44ba807f0fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:58 +0000
Subject: [PATCH 14/30] fix: validate ground locations in the unit they are
 given in

---
 celest/coordinates/ground_location.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index afa628c..3c60e18 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -70,9 +70,9 @@ class GroundLocation:
             Unit of the `height` measure.
         """
 
-        if latitude < -90 or latitude > 90:
+        if not -90 <= Quantity(latitude, angular_unit).to(u.deg) <= 90:
             raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if longitude < -180 or longitude > 180:
+        if not -180 <= Quantity(longitude, angular_unit).to(u.deg) <= 180:
             raise ValueError("Longitude must be between -180 and 180 degrees.")
 
         self._latitude = Quantity(latitude, angular_unit)
-- 
2.43.0


From e9050e2bdb9eba2989cf1227ea4a8ba142078c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:58 +0000
Subject: [PATCH 15/30] fix: carry rounded seconds into minutes and degrees

---
 celest/angle_strings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/celest/angle_strings.py b/celest/angle_strings.py
index c0bb645..738909c 100644
--- a/celest/angle_strings.py
+++ b/celest/angle_strings.py
@@ -55,9 +55,10 @@ def _get_sexagesimal_string(degree_angle: float) -> str:
         Sexagesimal representation string of `degree_angle`.
     """
 
-    degree_string = "%.3s" % str(int(degree_angle)).zfill(2)
-    minute_string = "%.2s" % str(int(degree_angle * 60 % 60)).zfill(2)
-    second_string = str("%.2f" % (degree_angle * 3600 % 60)).zfill(5)
+    hundredths = round(degree_angle * 360000)
+    degree_string = "%.3s" % str(hundredths // 360000).zfill(2)
+    minute_string = "%.2s" % str(hundredths // 6000 % 60).zfill(2)
+    second_string = str("%.2f" % (hundredths % 6000 / 100)).zfill(5)
 
     return degree_string + DEGREE_SYMBOL + minute_string + MINUTE_SYMBOL + \
         second_string + SECOND_SYMBOL
-- 
2.43.0


From f2f7d7a32c3c6b2b52efbc670795849690ccd9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:58 +0000
Subject: [PATCH 16/30] fix: keep each column's own type when writing tables

---
 celest/file_save.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index 3032a6b..175b0da 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -224,9 +224,9 @@ def _get_maximum_value_width(value: Any, value_format: str) -> int:
 
 def _get_and_reshape_column_data(value: Any) -> np.ndarray:
     if isinstance(value, Quantity):
-        return value.data.reshape((-1, 1))
+        return value.data.astype(object).reshape((-1, 1))
     else:
-        return value.reshape((-1, 1))
+        return value.astype(object).reshape((-1, 1))
 
 
 def _write_column_data_to_file(file: IO, column_widths: list,
-- 
2.43.0


From 0b654b31c67d03f05930ff0438a60fbd83e3d2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 17/30] fix: make table columns as wide as their widest entry

---
 celest/file_save.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index 175b0da..2d05a29 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -211,13 +211,10 @@ def _get_column_information(label: str, value: Any, value_format:
 
 
 def _get_maximum_value_width(value: Any, value_format: str) -> int:
-    if isinstance(value, Quantity):
-        return len(value_format % np.max(value.data))
-    elif isinstance(value, np.ndarray):
-        if isinstance(value.dtype, (int, float)):
-            return len(value_format % np.max(value))
-        else:
-            return len(max(value.astype(str), key=len))
+    if isinstance(value, (Quantity, np.ndarray)):
+        return max((len(_get_data_entry_string(entry, 0, value_format))
+                    for [entry] in _get_and_reshape_column_data(value)),
+                   default=0)
     else:
         return NotImplemented
 
-- 
2.43.0


From 6b05e64d0a57b5663bc0451429f51c8baf702724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 18/30] fix: start a window that is visible at the first sample
 at that sample

---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index b1d5ae4..af332ae 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -87,7 +87,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
-        rise_time = julian[window_index_set[0] - 1]
+        rise_time = julian[max(window_index_set[0] - 1, 0)]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
 
-- 
2.43.0


From a82ceb2c935251543bcc22a54f07f1bf8a393b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 19/30] fix: return no windows when the satellite is never
 visible

---
 celest/encounter/window_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index af332ae..230960d 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -87,6 +87,8 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
+        if not len(window_index_set):
+            continue
         rise_time = julian[max(window_index_set[0] - 1, 0)]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
-- 
2.43.0


From 6067924e79531d7049e02c8d9a026a371dae033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:30 +0000
Subject: [PATCH 20/30] fix: give every iteration over a window collection its
 own position

---
 celest/encounter/window_handling.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/celest/encounter/window_handling.py b/celest/encounter/window_handling.py
index 06fc51c..29560d8 100644
--- a/celest/encounter/window_handling.py
+++ b/celest/encounter/window_handling.py
@@ -150,7 +150,6 @@ class WindowCollection:
 
     def __init__(self) -> None:
         self._window_data = []
-        self._current_window_index = 0
 
     def __str__(self) -> str:
         return str(self._window_data)
@@ -163,15 +162,7 @@ class WindowCollection:
         return len(self._window_data)
 
     def __iter__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        return self
-
-    def __next__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        if self._current_window_index < len(self._window_data):
-            self._current_window_index += 1
-            return self._window_data[self._current_window_index - 1]
-        else:
-            self._current_window_index = 0
-            raise StopIteration
+        return iter(self._window_data)
 
     def __getitem__(self, key) -> Union[list, VisibleTimeWindow,
                                         ObservationWindow]:
-- 
2.43.0


From 043cee4fbd0fe03bcdac0bebe8e65fe8db96e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:30 +0000
Subject: [PATCH 21/30] fix: iterate over every request, independently in
 nested loops

---
 celest/schedule/request_handler.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0c81693..0af848c 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -40,15 +40,7 @@ class RequestHandler:
         return self.requests[index]
 
     def __iter__(self):
-        self.iteration_index = 0
-        return self
-
-    def __next__(self):
-        current_index = self.iteration_index
-        self.iteration_index += 1
-        if self.iteration_index < self.number_of_requests:
-            return self.requests[current_index]
-        raise StopIteration
+        return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
         self.number_of_requests += 1
-- 
2.43.0


From 143be951095e1f8acd26589793f46d65cbb3a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:59 +0000
Subject: [PATCH 22/30] fix: measure window overlap symmetrically and order
 unscheduled requests last

---
 celest/schedule/request_handler.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0af848c..23f98ef 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -1,5 +1,6 @@
 
 
+from celest import units as u
 from enum import IntEnum
 
 
@@ -128,7 +129,7 @@ class RequestHandler:
                 vtw = request[RequestIndices.vtw_list][vtw_index]
                 conflict_degree.append(self._conflict_degree(vtw))
             else:
-                conflict_degree.append(0)
+                conflict_degree.append(-1)
 
             conflict_degree_index.append(request_index)
 
@@ -164,14 +165,8 @@ class RequestHandler:
 
         if (e1 < s2) | (e2 < s1):
             return 0
-        elif (s1 < s2) & (e2 < e1):
-            return e2 - s2
-        elif (s2 < s1) & (e1 < e2):
-            return e1 - s1
-        elif s2 < e1:
-            return e1 - s2
-        elif s1 < e2:
-            return e2 - s1
+
+        return (min(e1, e2) - max(s1, s2)).to(u.jd2000)
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From 745fc7ba546a80347a11fdd0d4d3d2f56a64a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:59 +0000
Subject: [PATCH 23/30] fix: keep the scheduled window of a request when its
 windows are sorted

---
 celest/schedule/request_handler.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 23f98ef..e5083b9 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -177,12 +177,22 @@ class RequestHandler:
                 conflict_degree.append(self._conflict_degree(vtw))
                 vtw_indices.append(vtw_index)
 
-            self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw for _, vtw in sorted(zip(conflict_degree, vtw_list))]
+            order = [index for _, index in
+                     sorted(zip(conflict_degree, vtw_indices))]
+            self._reorder_vtws(self.requests[request_index], order)
+
+    def _reorder_vtws(self, request, order):
+        vtw_list = request[RequestIndices.vtw_list]
+        request[RequestIndices.vtw_list] = [vtw_list[index] for index in order]
+        if request[RequestIndices.is_scheduled]:
+            request[RequestIndices.vtw_index] = \
+                order.index(request[RequestIndices.vtw_index])
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-            request[RequestIndices.vtw_list] = sorted(
-                request[RequestIndices.vtw_list],
-                key=lambda x: x.rise_time.data
+            vtw_list = request[RequestIndices.vtw_list]
+            order = sorted(
+                range(len(vtw_list)),
+                key=lambda x: vtw_list[x].rise_time.data
             )
+            self._reorder_vtws(request, order)
-- 
2.43.0


From 2ffa195003bd7a211d73d3c44dcef447444dc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:59 +0000
Subject: [PATCH 24/30] fix: count a request once however often it is scheduled
 or unscheduled

---
 celest/schedule/request_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index e5083b9..7ec261d 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -60,11 +60,12 @@ class RequestHandler:
         ])
 
     def schedule_request(self, request_index, vtw_index, start, duration):
+        if not self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests += 1
         self.requests[request_index][RequestIndices.is_scheduled] = True
         self.requests[request_index][RequestIndices.vtw_index] = vtw_index
         self.requests[request_index][RequestIndices.scheduled_start_time] = start
         self.requests[request_index][RequestIndices.scheduled_duration] = duration
-        self.number_of_scheduled_requests += 1
 
     def unschedule_all_requests(self):
         for index in range(self.number_of_requests):
@@ -72,11 +73,12 @@ class RequestHandler:
         self.number_of_scheduled_requests = 0
 
     def unschedule_request(self, request_index):
+        if self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests -= 1
         self.requests[request_index][RequestIndices.is_scheduled] = False
         self.requests[request_index][RequestIndices.vtw_index] = None
         self.requests[request_index][RequestIndices.scheduled_start_time] = None
         self.requests[request_index][RequestIndices.scheduled_duration] = None
-        self.number_of_scheduled_requests -= 1
 
     def is_request_scheduled(self, request_index):
         return self.requests[request_index][RequestIndices.is_scheduled]
-- 
2.43.0


From dda83668f4b579a1b679e0fc94f78adb1e38ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:59 +0000
Subject: [PATCH 25/30] fix: let random removal choose the last request

---
 celest/schedule/removal_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/removal_operators.py b/celest/schedule/removal_operators.py
index ad22f1c..3e0996d 100644
--- a/celest/schedule/removal_operators.py
+++ b/celest/schedule/removal_operators.py
@@ -21,7 +21,7 @@ def random_removal(request_handler, number_to_remove):
         request_handler.unschedule_all_requests()
         return request_handler
 
-    unchecked_indices = [i for i in range(0, len(request_handler) - 1)]
+    unchecked_indices = [i for i in range(0, len(request_handler))]
     while number_to_remove > 0:
         request_index = random.choice(unchecked_indices)
         if request_handler.is_request_scheduled(request_index):
-- 
2.43.0


From 6188804deeee5fc58043c637b8f56a4760fa758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:59 +0000
Subject: [PATCH 26/30] fix: centre an observation in its visible time window

---
 celest/schedule/insertion_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/insertion_operators.py b/celest/schedule/insertion_operators.py
index 690ec5b..95225ae 100644
--- a/celest/schedule/insertion_operators.py
+++ b/celest/schedule/insertion_operators.py
@@ -55,7 +55,7 @@ def insert_first_n_requests(request_handler, number_to_insert):
                 if start is None:
                     continue
             else:
-                start = (vtw.rise_time + vtw.set_time + duration_in_days) / 2
+                start = (vtw.rise_time + vtw.set_time - duration_in_days) / 2
 
             if not is_window_within_vtw_bounds(start, duration_in_days, vtw):
                 continue
-- 
2.43.0


From b24b3cb00979bd0b365e7e8c42bccd0b219869da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 27/30] fix: decide acceptance when the temperature or the
 current cost is zero

---
 celest/schedule/alns.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 0a25bfa..23357bb 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -248,9 +248,11 @@ class ALNS:
 
         if temporary_cost < current_cost:
             return True
+        elif not T * current_cost:
+            return temporary_cost == current_cost
         else:
-            probability = math.exp(100 * (temporary_cost - current_cost) /
-                                   (T * current_cost))
+            probability = math.exp(-100 * (temporary_cost - current_cost) /
+                                   abs(T * current_cost))
             return False if random.random() > probability else True
 
     def _update_destroy_weights(self, l: float, score: int,
-- 
2.43.0


From 76dd49d456963600225774b3e326a2db8a666662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 28/30] fix: choose operators evenly when every weight has
 decayed to zero

---
 celest/schedule/alns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 23357bb..a9031de 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -177,6 +177,9 @@ class ALNS:
             list of probabilities.
         """
 
+        if not sum(weights):
+            return [1 / len(weights) for _ in weights]
+
         return [weight / sum(weights) for weight in weights]
 
     def _get_repair_index(self) -> int:
-- 
2.43.0


From 187fee43584d7f0783c77d990a66228828a3b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 29/30] fix: store the requested look angle as a quantity

---
 celest/schedule/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index f2168c7..89098a5 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -113,7 +113,7 @@ class Scheduler(ALNS):
             Quantity(duration, u.s),
             priority,
             quality,
-            look_ang,
+            None if look_ang is None else Quantity(look_ang, u.deg),
             vtws
         )
 
-- 
2.43.0


From 43a1cf464a903a9b7137b799e9259cf265b8cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:22 +0000
Subject: [PATCH 30/30] fix: export the attitude sample nearest to the start of
 the observation

---
 celest/schedule/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 89098a5..1cf21be 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -175,10 +175,10 @@ class Scheduler(ALNS):
 
                 idx = request[RequestIndices.vtw_index]
                 attitude = request[RequestIndices.vtw_list][idx].attitude
-                attitude_idx = np.where(
-                    attitude.time.to(u.jd2000).data ==
-                    request[RequestIndices.scheduled_start_time]
-                )[0]
+                start_time = request[RequestIndices.scheduled_start_time]
+                attitude_idx = [np.argmin(np.abs(
+                    attitude.time.to(u.jd2000) - start_time.to(u.jd2000)
+                ))]
                 time = attitude.time.data[attitude_idx]
                 roll = attitude.roll.data[attitude_idx]
                 pitch = attitude.pitch.data[attitude_idx]
-- 
2.43.0

