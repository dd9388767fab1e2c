From 0fb2b719416f5caa533ac179b5421e365ce232d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 01/12] fix: enu2aer does not modify the caller's input arrays

---
 src/pymap3d/enu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index ef78eaa..866ddad 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -52,6 +52,8 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
     # 1 millimeter precision for singularity stability
 
     def _zero_trim_numpy(x, y, z) -> tuple:
+        # copy so that the caller's arrays are not modified
+        x, y, z = x.copy(), y.copy(), z.copy()
         x[abs(x) < 1e-3] = 0.0
         y[abs(y) < 1e-3] = 0.0
         z[abs(z) < 1e-3] = 0.0
@@ -63,7 +65,7 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
 
     try:
         e, n, u = _zero_trim_numpy(e, n, u)
-    except TypeError:
+    except (AttributeError, TypeError):
         e, n, u = _zero_trim_scalar(float(e), float(n), float(u))
 
     r = hypot(e, n)
-- 
2.43.0


From 32fffd3fefae1f7e4f130a3f05fa87e501c816b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 02/12] fix: vdist and vreckon do not modify the caller's input
 arrays at the poles

---
 src/pymap3d/vincenty.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d975633..2fc5dbd 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -115,6 +115,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
     # %% correct for errors at exact poles by adjusting 0.6 millimeters:
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
+        lat1 = copy(lat1)
         lat1[i] = sign(lat1[i]) * (pi / 2 - 1e-10)
     except TypeError:
         if abs(pi / 2 - abs(lat1)) < 1e-10:
@@ -122,6 +123,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
 
     try:
         i = abs(pi / 2 - abs(lat2)) < 1e-10
+        lat2 = copy(lat2)
         lat2[i] = sign(lat2[i]) * (pi / 2 - 1e-10)
     except TypeError:
         if abs(pi / 2 - abs(lat2)) < 1e-10:
@@ -352,6 +354,7 @@ def vreckon(
     # correct for errors at exact poles by adjusting 0.6 millimeters:
     try:
         i = abs(pi / 2 - abs(lat1)) < 1e-10
+        lat1 = copy(lat1)
         lat1[i] = sign(lat1[i]) * (pi / 2 - (1e-10))
     except TypeError:
         if abs(pi / 2 - abs(lat1)) < 1e-10:
-- 
2.43.0


From 98604e3ac5dc541cffe3d07917d1929f3d59393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 03/12] fix: eci2ecef_state and ecef2eci_state accept arrays of
 more than one state

---
 src/pymap3d/eci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 0eedb0b..a4e089f 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -451,15 +451,15 @@ def _apply_state_rotation(
     vel_out = numpy.empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
-        x, y, z, vx, vy, vz = _apply_state_rotation_scalar(
+        state = _apply_state_rotation_scalar(
             rotation,
             rotation_rate,
             *tuple(pos_in[i, :]),
             *tuple(vel_in[i, :]),
             inverse=inverse,
         )
-        pos_out[i, :] = (x, y, z)
-        vel_out[i, :] = (vx, vy, vz)
+        pos_out[i, :] = state[:3]
+        vel_out[i, :] = state[3:]
 
     return (
         pos_out[:, 0].reshape(x.shape),
-- 
2.43.0


From 74f814eaae13c5f2b5e705b9e208d0ca776698b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 04/12] fix: geodetic2conformal of an array containing the
 north pole keeps the other elements

---
 src/pymap3d/latitude.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4a56c08..819155f 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 
 from ._typing import FloatArray, FloatLike
 
-import warnings
 
 from math import pi
 
@@ -13,6 +12,7 @@ from .ellipsoid import Ellipsoid, resolve_ellipsoid
 from .mathfun import (
     asinh,
     atan,
+    atan2,
     atanh,
     cos,
     degrees,
@@ -364,13 +364,8 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
     f3 = 1 - sin(geodetic_lat)
     f4 = 1 + sin(geodetic_lat)
 
-    #  compute conformal latitudes with correction for points at +90
-    try:
-        with warnings.catch_warnings(record=True):
-            warnings.simplefilter("error")
-            conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
-    except (ArithmeticError, RuntimeWarning):
-        conformal_lat = pi / 2
+    #  atan2 handles points at +90, where f3 is zero, element by element
+    conformal_lat = 2 * atan2(sqrt(f4 * (f1 / f2) ** e), sqrt(f3)) - (pi / 2)
 
     return degrees(conformal_lat) if deg else conformal_lat
 
-- 
2.43.0


From a2fe362aa7a81d13d36405d78c37c54d029a9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 05/12] fix: geodetic2eci honours delta_ut1, xp and yp

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 587f0df..138725b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -549,7 +549,7 @@ def geodetic2eci(
 
     x, y, z = geodetic2ecef(lat, lon, alt, ell, deg)
 
-    return ecef2eci(x, y, z, t)
+    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)
 
 
 def enu2ecef(
-- 
2.43.0


From c1de6257488bd14b3a1da5162d8ef77b8c9b3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 06/12] fix: lookAtSpheroid uses the given ellipsoid throughout

---
 src/pymap3d/los.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index f03abee..7eeeb54 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -76,7 +76,7 @@ def lookAtSpheroid(
     # fixed 1 km slant range
 
     u, v, w = enu2uvw(e, n, u, lat0, lon0, deg=deg)
-    x, y, z = geodetic2ecef(lat0, lon0, h0, deg=deg)
+    x, y, z = geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
 
     value = -(a**2) * b**2 * w * z - a**2 * c**2 * v * y - b**2 * c**2 * u * x
     radical = (
@@ -112,6 +112,6 @@ def lookAtSpheroid(
             d = nan
 
     # %% cartesian to ellipsodal
-    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)
+    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)
 
     return lat, lon, d
-- 
2.43.0


From 535ca634208fba5b4a89145431fb9375d6852737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 07/12] fix: loxodrome_inverse takes the short way across the
 antimeridian

---
 src/pymap3d/lox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index bcecf54..e57c9e1 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -155,6 +155,8 @@ def loxodrome_inverse(
     # compute changes in isometric latitude and longitude between points
     disolat = geodetic2isometric(lat2, ell, False) - geodetic2isometric(lat1, ell, False)
     dlon = lon2 - lon1
+    # shortest way around: (-pi, pi]
+    dlon = dlon + tau * ((pi - dlon) // tau)
 
     # compute azimuth
     az12 = atan2(dlon, disolat)
-- 
2.43.0


From c7d9714a8cdcc4821729c61210f8596cb4b265fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 08/12] fix: CLI passes optional arguments defaulting to None
 as None

---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 8a1c083..1cf2dd1 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -103,7 +103,7 @@ def _add_parameter_arg(parser: argparse.ArgumentParser, param: inspect.Parameter
         parser.add_argument(
             f"--{name.replace('_', '-')}",
             dest=dest,
-            default=str(default),
+            default=None if default is None else str(default),
             help=f"{name} (default: {default})",
         )
     else:
-- 
2.43.0


From 44c641b5f2b0a69bd20c322d09f037b37a9e67ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 09/12] fix: polar motion is applied with the right sign (the
 pole is at xp, -yp in ECEF)

---
 src/pymap3d/earth_orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index e649409..2c25dd0 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -282,7 +282,7 @@ def polar_motion_matrix(xp_arcsec: float = 0.0, yp_arcsec: float = 0.0):
 
     xp = xp_arcsec * ARCSEC2RAD
     yp = yp_arcsec * ARCSEC2RAD
-    return matmul3(rotation_y(xp), rotation_x(yp))
+    return matmul3(rotation_y(-xp), rotation_x(-yp))
 
 
 def eci_to_ecef_matrix(
-- 
2.43.0


From 90b43209addeb4439f02cc658144e9fb031da14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 10/12] fix: azel2radec and radec2azel are defined at the poles
 and near the zenith

---
 src/pymap3d/vallado.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index b397ac0..3ebb6f1 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -12,7 +12,7 @@ from datetime import datetime
 
 from ._typing import FloatLike
 
-from .mathfun import asin, atan2, cos, degrees, radians, sin
+from .mathfun import atan2, cos, degrees, hypot, radians, sin
 from .sidereal import datetime2sidereal
 
 __all__ = ["azel2radec", "radec2azel"]
@@ -65,12 +65,12 @@ def azel2radec(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
     # %% Vallado "algorithm 28" p 268
-    dec = asin(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az))
+    # direction components rather than their ratios: defined at the poles and accurate at the zenith
+    west = -sin(az) * cos(el)
+    equator = sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az)
+    dec = atan2(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az), hypot(west, equator))
 
-    lha = atan2(
-        -(sin(az) * cos(el)) / cos(dec),
-        (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
-    )
+    lha = atan2(west, equator)
 
     lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
@@ -128,11 +128,11 @@ def radec2azel(
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-    el = asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha))
+    # direction components rather than their ratios: defined at the poles and accurate at the zenith
+    east = -sin(lha) * cos(dec)
+    north = sin(dec) * cos(lat) - cos(dec) * sin(lat) * cos(lha)
+    el = atan2(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha), hypot(east, north))
     # %% combine Eq. 4-13 and 4-14 p. 268
-    az = atan2(
-        -sin(lha) * cos(dec) / cos(el),
-        (sin(dec) - sin(el) * sin(lat)) / (cos(el) * cos(lat)),
-    )
+    az = atan2(east, north)
 
     return degrees(az) % 360.0, degrees(el)
-- 
2.43.0


From 4c7738d1e90835ad04eea236ded683a0b65f8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 11/12] fix: ecef2geodetic returns the latitude with the shape
 of the input, like longitude and altitude

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 138725b..7850836 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -203,7 +203,7 @@ def ecef2geodetic(
 
         lat, alt = _lat_alt_numpy(x, y, z, Beta)
 
-        lat = lat.squeeze()[()]
+        lat = lat[()]
 
         return lat, alt
 
-- 
2.43.0


From 68cdeea28566495b4f95b8043af38c8ffb020b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 12/12] fix: ecef2geodetic and enu2aer accept a mix of scalars
 and arrays

---
 src/pymap3d/ecef.py |  8 +++++++-
 src/pymap3d/enu.py  | 11 +++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 7850836..b1961ac 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import warnings
 
 try:
-    from numpy import empty_like, finfo, where
+    from numpy import broadcast_arrays, empty_like, finfo, shape, where
 except ImportError:
     pass
 
@@ -127,6 +127,12 @@ def ecef2geodetic(
 
     ell = resolve_ellipsoid(ell)
 
+    try:
+        if not shape(x) == shape(y) == shape(z):
+            x, y, z = broadcast_arrays(x, y, z)
+    except NameError:
+        pass
+
     r = sqrt(x**2 + y**2 + z**2)
 
     E = sqrt(ell.semimajor_axis**2 - ell.semiminor_axis**2)
diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index 866ddad..d34f4df 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -2,6 +2,11 @@
 
 from __future__ import annotations
 
+try:
+    from numpy import broadcast_arrays, shape
+except ImportError:
+    pass
+
 from math import tau
 
 from ._typing import FloatLike
@@ -63,6 +68,12 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
         """Trim small values (|x| < threshold) to zero."""
         return tuple(0.0 if abs(v) < threshold else float(v) for v in values)
 
+    try:
+        if not shape(e) == shape(n) == shape(u):
+            e, n, u = broadcast_arrays(e, n, u)
+    except NameError:
+        pass
+
     try:
         e, n, u = _zero_trim_numpy(e, n, u)
     except (AttributeError, TypeError):
-- 
2.43.0

