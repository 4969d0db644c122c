From a0059aca917470867da177a304046899813e37db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:47 +0000
Subject: [PATCH 01/21] fix: open a geoid grid only when a height needs it

Importing geec.crs opened all three grids, so one missing or damaged grid
(two of them are not even shipped here) stopped every command, including
runs that use no geoid at all.
---
 geec/crs.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index cefde8e..3331064 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -238,9 +238,24 @@ def wrap180(points: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
 
 
 data_path = resources.files("geec.data")
-egm08geoid = pgeo.GeoidKarney(data_path / "geoids/egm2008-2_5.pgm")
-egm96geoid = pgeo.GeoidKarney(data_path / "geoids/egm96-5.pgm")
-egm84geoid = pgeo.GeoidKarney(data_path / "geoids/egm84-15.pgm")
+
+
+class LazyGeoid:
+    """Geoid model, whose grid file is opened the first time a height is needed"""
+
+    def __init__(self, filename: str) -> None:
+        self._filename = filename
+        self._geoid = None
+
+    def __call__(self, positions):
+        if self._geoid is None:
+            self._geoid = pgeo.GeoidKarney(data_path / self._filename)
+        return self._geoid(positions)
+
+
+egm08geoid = LazyGeoid("geoids/egm2008-2_5.pgm")
+egm96geoid = LazyGeoid("geoids/egm96-5.pgm")
+egm84geoid = LazyGeoid("geoids/egm84-15.pgm")
 
 
 def ellpsgeoid(x: pgeo.ellipsoidalKarney.LatLon):
-- 
2.43.0


From 389ba38ae1f58b8aee64d288bc545f748570f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:56 +0000
Subject: [PATCH 02/21] fix: take a station in the plane of a face as such
 despite rounding errors

The solid angle of a face seen edge-on was decided by comparing a distance
with the machine epsilon, whatever the size of the body. For a station in
the plane of an oblique face the sign of rounding errors was used instead:
the gradient came out wrong by orders of magnitude, or acos/sqrt raised
'math domain error'.
---
 geec/polyhedron.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3c2dc67..40f45d3 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -36,6 +36,10 @@ from geec.utils import (
     minus_identity,
 )
 
+# distance to the plane of a face, relative to the distance to its corners,
+# below which the station is taken to be in that plane (rounding errors only)
+coplanar = 1e-12
+
 
 class Edge:
     """
@@ -408,8 +412,8 @@ class Face:
 
         self._omega = 0
         self._domega = np.zeros(3)
-        if abs(self._dp1) > epsilon:
-            points = self.points - obs  # [p1,p2,p3]
+        points = self.points - obs  # [p1,p2,p3]
+        if abs(self._dp1) > coplanar * np.linalg.norm(points, axis=1).max():
             dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
@@ -499,7 +503,7 @@ class Face:
         if inout == 0:
             angle = 0
         else:
-            angle = acos(b)
+            angle = acos(max(-1.0, min(1.0, b)))
             if perp < 0:
                 angle = 2 * np.pi - angle
         return angle
@@ -549,7 +553,7 @@ class Face:
         DA2 = (dV2 * v2 - V2 * dv2[:, np.newaxis]) / (v2 * v2)
 
         DB = npdot(DA1, A2) + npdot(DA2, A1)
-        denom = sqrt(1 - b * b)
+        denom = sqrt(max(0.0, 1 - b * b))
 
         if denom != 0:
             dangle = -DB / denom
-- 
2.43.0


From 78fb674a4b005630a0d169096aae54a1b5ec3023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:56 +0000
Subject: [PATCH 03/21] fix: integrate an edge from its nearest end

For a station lying on the line of an edge, farther from the first corner
than from the second, the integral was the log of a ratio of rounding errors
(only the exact case was caught), giving wrong or NaN gradients.
---
 geec/polyhedron.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 40f45d3..4a649a6 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -208,15 +208,16 @@ class Edge:
             R1, R2 = (self.points[0] - obs, self.points[1] - obs)
             r1, r2 = (np.linalg.norm(R1), np.linalg.norm(R2))
 
-            chsgn = 1  # if origin,p1 & p2 are on a st line
-            if r1 > r2 and np.dot(R1, R2) / (r1 * r2) == 1:  # p1 farther than p2
-                R1 = R2  # interchange p1,p2
-                r1 = r2
-                chsgn = -1
-
             Lj = self.vector
             lj = self.length
 
+            chsgn = 1
+            if r1 > r2:  # p1 farther than p2
+                # interchange p1,p2: seen from the nearest end of the edge, cj does
+                # not cancel out when origin,p1 & p2 are (almost) on a st line
+                R1, r1, Lj = R2, r2, -Lj
+                chsgn = -1
+
             # bj = 2 Rj.Lj
             bj = 2 * np.dot(R1, Lj)
             b2 = bj / lj / 2
@@ -234,7 +235,7 @@ class Edge:
 
             # change sign of I if p1,p2 were interchanged
             self._pqr = pqr * chsgn
-            self._dpqr = dpqr
+            self._dpqr = dpqr * chsgn if gradient else dpqr
             # assign twin value
             self._set_twin_pqr()
 
-- 
2.43.0


From 4c3056652e5494a74750ed80a0facb3f948be3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 04/21] fix: do not reuse what an interrupted computation left
 in a polyhedron

When get_gravity was stopped half-way (Ctrl-C, MemoryError, a station on a
vertex), the integrals already stored on the faces and edges were added to
the next station's, which silently got a wrong field.
---
 geec/polyhedron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 4a649a6..a957f0c 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -1000,6 +1000,9 @@ class Polyhedron:
         # self.set_origin(coord)
         T = np.zeros((3, 3))
 
+        # a former computation may have been interrupted before its own reset
+        self.reset(coord)
+
         for face in self.faces:
             (g, t) = face.get_gravity(coord, density, Gc, gradient)
             G += g
-- 
2.43.0


From b885def77211ca06f7e81522f9904d6563aa1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 05/21] fix: add to a station the field of all the polyhedrons,
 or of none

When the second polyhedron failed or was interrupted, the first one was
already added to the station: trying again counted it twice.
---
 geec/station.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/geec/station.py b/geec/station.py
index 5af9376..5cbec61 100644
--- a/geec/station.py
+++ b/geec/station.py
@@ -78,10 +78,16 @@ class Station:
         if not all(isinstance(x, Polyhedron) for x in polyhedrons):
             raise TypeError("polyhedrons should be of type Polyhedron")
 
+        G = np.zeros(3)
+        T = np.zeros((3, 3))
         for poly in polyhedrons:
-            (G, T) = poly.get_gravity(self.coord, density, Gc, gradient)
-            self.G += G
-            self.T += T
+            (g, t) = poly.get_gravity(self.coord, density, Gc, gradient)
+            G += g
+            T += t
+
+        # all polyhedrons, or none if one of them failed
+        self.G += G
+        self.T += T
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 4f3ff655657354f80690d6b3c1088d416b863f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 06/21] fix: allow threads to share a polyhedron

Two threads computing stations on one Polyhedron mixed up the intermediate
values stored on its faces and edges, and both got wrong fields.
---
 geec/polyhedron.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index a957f0c..cce7cbd 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -19,6 +19,7 @@
 # import from standard lib
 from itertools import pairwise
 from math import acos, log, sqrt
+from threading import RLock
 
 # import from other lib
 import numpy as np
@@ -36,6 +37,10 @@ from geec.utils import (
     minus_identity,
 )
 
+# intermediate values are stored on the faces and edges: one computation at a time
+# Note: not on the Polyhedron, which would no longer be picklable
+_computing = RLock()
+
 # distance to the plane of a face, relative to the distance to its corners,
 # below which the station is taken to be in that plane (rounding errors only)
 coplanar = 1e-12
@@ -1000,17 +1005,18 @@ class Polyhedron:
         # self.set_origin(coord)
         T = np.zeros((3, 3))
 
-        # a former computation may have been interrupted before its own reset
-        self.reset(coord)
+        with _computing:
+            # a former computation may have been interrupted before its own reset
+            self.reset(coord)
 
-        for face in self.faces:
-            (g, t) = face.get_gravity(coord, density, Gc, gradient)
-            G += g
-            T += t
+            for face in self.faces:
+                (g, t) = face.get_gravity(coord, density, Gc, gradient)
+                G += g
+                T += t
 
-        # reset intermediate variables, and shift back origin
-        # self.reset_origin(coord)
-        self.reset(coord)
+            # reset intermediate variables, and shift back origin
+            # self.reset_origin(coord)
+            self.reset(coord)
 
         return (G, T)
 
-- 
2.43.0


From e4f51c49ec78a9eeba864e7b2cc2f9b6874ae993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 07/21] fix: accept the documented vertical datum egm2008

The configuration files document [ellps, egm84, egm96, egm2008], but the
last one was rejected: names were looked up among the enum members.
---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index 3331064..bcfc876 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -35,6 +35,7 @@ class VDatumEnum(StrEnum):
     EGM84 = "egm84"
     EGM96 = "egm96"
     EGM08 = "egm2008"
+    EGM2008 = "egm2008"  # name used in configuration files
 
 
 EllModelEnum = Enum("EllModelEnum", pm.Ellipsoid.models)
-- 
2.43.0


From a6ae908ca524d7377760f82d966ac721b586af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 08/21] fix: convert coordinates without touching the ones
 converted

The conversions relabelled the given CRS (and some overwrote the given
points) on the way. One that failed or was interrupted between its two steps
left a dataset whose points and CRS disagree, so that trying again gave wrong
positions; and datasets sharing a CRS or an array broke each other.
Heights given as integers can be converted now too.
---
 geec/crs.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index bcfc876..763cdbe 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -7,7 +7,7 @@
 # --- import -----------------------------------
 # import from standard lib
 import importlib.resources as resources
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from enum import Enum, StrEnum
 
 # import from other lib
@@ -234,6 +234,7 @@ def wrap180(points: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
     """wrap longitude coordinates to -180..180"""
     logger.info("Convert points longitude to -180..180")
     result = (x - 360 if x > 180 else x for x in points[:, 0])
+    points = points.copy()
     points[:, 0] = list(result)
     return points
 
@@ -284,10 +285,11 @@ def ellipsoid_height(
     geoh = func(positions)
 
     # ellipsoid height (from GPS) = orthometric height + geoid height
+    points = points.astype(float)
     points.T[2] += geoh
 
     # update coordinates reference system
-    crs.vdatum = VDatumEnum.ELLPS
+    crs = replace(crs, vdatum=VDatumEnum.ELLPS)
 
     return points, crs
 
@@ -303,9 +305,7 @@ def ellps_to_ecef(
     points = np.array([x, y, z]).T
 
     # update coordinates reference system
-    crs.name = CRSEnum.ECEF
-    crs.ellps = None
-    crs.enu = None
+    crs = replace(crs, name=CRSEnum.ECEF, ellps=None, enu=None)
 
     return points, crs
 
@@ -328,9 +328,7 @@ def enu_to_ecef(
     points = np.array([x, y, z]).T
 
     # update coordinates reference system
-    crs.name = CRSEnum.ECEF
-    crs.ellps = None
-    crs.enu = None
+    crs = replace(crs, name=CRSEnum.ECEF, ellps=None, enu=None)
 
     return points, crs
 
@@ -354,9 +352,7 @@ def ecef_to_wgs84(
     points = np.array([lon, lat, alt]).T
 
     # update coordinates reference system
-    crs.name = CRSEnum.ELLPS
-    crs.ellps = _WGS84_
-    crs.enu = None
+    crs = replace(crs, name=CRSEnum.ELLPS, ellps=_WGS84_, enu=None)
 
     return points, crs
 
@@ -411,13 +407,13 @@ def ecef_to_enu(
     points = np.array([e, n, u]).T
 
     # update coordinates reference system
-    crs.name = CRSEnum.ENU
-    crs.enu = ENU(
+    enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
         latitude_origin=lat0,
         altitude_origin=alt0,
     )
+    crs = replace(crs, name=CRSEnum.ENU, ellps=_WGS84_, enu=enu)
 
     return points, crs
 
@@ -445,12 +441,12 @@ def wgs84_to_enu(
     points = np.array([e, n, u]).T
 
     # update coordinates reference system
-    crs.name = CRSEnum.ENU
-    crs.enu = ENU(
+    enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
         latitude_origin=lat0,
         altitude_origin=alt0,
     )
+    crs = replace(crs, name=CRSEnum.ENU, ellps=_WGS84_, enu=enu)
 
     return points, crs
-- 
2.43.0


From 20dea8ea7f739e6a31f983a09b890a90b022ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 09/21] fix: convert points from any ellipsoid to ENU

Longitudes and latitudes on another ellipsoid were taken as WGS84 ones.
---
 geec/crs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/crs.py b/geec/crs.py
index 763cdbe..d9740fc 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -434,6 +434,9 @@ def wgs84_to_enu(
     #     logger.error(msg)
     #     raise ValueError(msg)
 
+    if crs.ellps is not None:
+        points, crs = ellps_to_wgs84(points, crs)
+
     logger.info("Convert points from WGS84 ellipsoid to ENU coorindates.")
     lon, lat, alt = points.T
     e, n, u = pm.geodetic2enu(lat, lon, alt, lat0, lon0, alt0)
-- 
2.43.0


From 40032660e91d3945b30bb6bda901de41a5ce6d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 10/21] fix: do not take east and north for longitude and
 latitude

On ENU points, to_lon180 moved the ones more than 180 m east of the origin
360 m west, and to_ellipsoid_height looked up the geoid at longitude 'east'
and latitude 'north' (and raised for points more than 90 m north).
---
 geec/crs.py     | 7 +++++++
 geec/dataset.py | 8 ++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index d9740fc..53e450f 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -294,6 +294,13 @@ def ellipsoid_height(
     return points, crs
 
 
+def enu_ellipsoid_height(
+    points: npt.NDArray[np.float64], crs: CRS
+) -> tuple[npt.NDArray[np.float64], CRS]:
+    """ENU points are relative to an origin given by its height above ellipsoid"""
+    return points, replace(crs, vdatum=VDatumEnum.ELLPS)
+
+
 def ellps_to_ecef(
     points: npt.NDArray[np.float64], crs: CRS
 ) -> tuple[npt.NDArray[np.float64], CRS]:
diff --git a/geec/dataset.py b/geec/dataset.py
index ea20e8c..5473aa2 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -41,10 +41,10 @@ class Dataset:
         """Convert longitude to -180°..180°,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for ENU, Cartesian or ECEF coordinate system, do nothing.
         """
         CRS_LON180 = {
-            geec.crs.CRSEnum.ENU: geec.crs.wrap180,
+            geec.crs.CRSEnum.ENU: lambda x: x,
             geec.crs.CRSEnum.ELLPS: geec.crs.wrap180,
             geec.crs.CRSEnum.ECEF: lambda x: x,
             geec.crs.CRSEnum.CART: lambda x: x,
@@ -56,10 +56,10 @@ class Dataset:
         """Convert altitude to ellipsoid height,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for ENU, Cartesian or ECEF coordinate system, do nothing.
         """
         CRS_ELLPSH = {
-            geec.crs.CRSEnum.ENU: geec.crs.ellipsoid_height,
+            geec.crs.CRSEnum.ENU: geec.crs.enu_ellipsoid_height,
             geec.crs.CRSEnum.ELLPS: geec.crs.ellipsoid_height,
             geec.crs.CRSEnum.ECEF: lambda x, y: (x, y),
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
-- 
2.43.0


From 28c674b6447395bafb613d1c831b5ae6fba91a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 11/21] fix: reject coordinates with missing values

A torn file of observation points (last line cut short) was accepted, and
its last point reported with empty coordinates and fields.
---
 geec/dataset.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 5473aa2..78b5d17 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -117,15 +117,25 @@ class Dataset:
         )
 
 
+def _check_coords(coords) -> npt.NDArray[np.float64]:
+    """return coords as an array of shape (N,3), without missing values"""
+    coords = np.array(coords, dtype=float)
+    if coords.ndim != 2 or coords.shape[1] != 3 or not np.isfinite(coords).all():
+        msg = "Points must be a list of 3 finite coordinates"
+        logger.error(msg)
+        raise ValueError(msg)
+    return coords
+
+
 def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
     if config["points"]:
         coords = config["points"].get()
-        return np.array(coords)
+        return _check_coords(coords)
     elif config["file_path"]:
         file_path = Path(str(config["file_path"].get(str)))
         if file_path.is_file():
             df = pd.read_csv(file_path, sep=",", header=None)
-            return df.values
+            return _check_coords(df.values)
         else:
             msg = f"File {file_path} not found"
             logger.error(msg)
-- 
2.43.0


From 92bfb7a3c418e2670a51f94e0df0408cf24f02ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 12/21] fix: use the density and gravity constant of each mass
 body

The ones of the first body were used for all of them.
---
 geec/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index df90a73..00d0a6d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -65,9 +65,6 @@ def run(
     # assess Polyhedron of each mass bodies
     p = [Polyhedron(mass.dataset.coords) for mass in masses]
 
-    density = masses[0].density
-    Gc = masses[0].gravity_constant
-
     # observation points
     observer = geec.observer.get_observer(config)
     observer.to_wgs84()
@@ -78,7 +75,10 @@ def run(
 
     def add_gravity(row):
         s = Station(np.array(row))
-        s.compute_gravity(p, density, Gc, gradient=gradient)
+        for mass, poly in zip(masses, p, strict=True):
+            s.compute_gravity(
+                poly, mass.density, mass.gravity_constant, gradient=gradient
+            )
         listG = s.G
         listT = s.T.flatten()[
             [0, 1, 2, 4, 5, 8]
-- 
2.43.0


From d21fd6f73ff1a8d308b5a40d101d825ff1d6f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 13/21] fix: compute the field at the observation points

Longitudes and latitudes (degrees) of the observation points were used as
ECEF coordinates (meters), the ones of the mass bodies.
---
 geec/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geec/cli.py b/geec/cli.py
index 00d0a6d..a912459 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -73,6 +73,10 @@ def run(
     obs_name = observer.coords_name
     obs_unit = observer.coords_unit
 
+    # stations, in the same coordinates system as mass bodies
+    observer.to_ecef()
+    stations = observer.dataset.coords
+
     def add_gravity(row):
         s = Station(np.array(row))
         for mass, poly in zip(masses, p, strict=True):
@@ -85,7 +89,7 @@ def run(
         ]  # "txx", "txy", "txz", "tyy", "tyz", "tzz"
         return np.concatenate([listG, listT])
 
-    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_points)
+    listGT = np.apply_along_axis(add_gravity, axis=1, arr=stations)
     G_name = ["Gx", "Gy", "Gz"]
     G_unit = ["(mGal)", "(mGal)", "(mGal)"]
     T_name = ["txx", "txy", "txz", "tyy", "tyz", "tzz"]
-- 
2.43.0


From 3c70ea77cf751ab28a2abc81099ad87fac1e5c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:25 +0000
Subject: [PATCH 14/21] fix: measure elapsed times with a monotonic clock

They came out negative, or off by hours, when the system clock was set.
---
 geec/timing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/timing.py b/geec/timing.py
index eaff06b..4a90471 100644
--- a/geec/timing.py
+++ b/geec/timing.py
@@ -6,7 +6,7 @@
 # import from standard lib
 import atexit
 from datetime import timedelta
-from time import localtime, strftime, time
+from time import localtime, monotonic, strftime
 
 # import from other lib
 from loguru import logger
@@ -31,18 +31,18 @@ def log(s, elapsed=None):
 
 
 def midlog(s):
-    end = time()
+    end = monotonic()
     elapsed = end - start
     log(s, _secondsToStr(elapsed))
 
 
 def endlog():
-    end = time()
+    end = monotonic()
     elapsed = end - start
     log("End Program", _secondsToStr(elapsed))
 
 
 # ----------------------------------------------
-start = time()
+start = monotonic()
 atexit.register(endlog)
 log("Start Program")
-- 
2.43.0


From 9e9694203318812921c69e848c3b6fbfd5e42a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:48 +0000
Subject: [PATCH 15/21] fix: never leave a half-written output file

The output file was truncated first, then written piece by piece: on a full
disk or an interruption, former results were lost, and what was left of the
new ones could be read as a complete, shorter, csv file.
---
 geec/api.py | 26 +++++++++++++++++++++++++-
 geec/cli.py |  2 +-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/geec/api.py b/geec/api.py
index a71f418..b7d8e65 100644
--- a/geec/api.py
+++ b/geec/api.py
@@ -6,7 +6,10 @@ Main functions to interact with the application
 
 # --- import -----------------------------------
 # import from standard lib
+import os
+import shutil
 import sys
+import uuid
 from pathlib import Path
 
 # import from other lib
@@ -36,13 +39,34 @@ def setup_logger():
     logger.add(logdir / "geec_{time}.log", level="DEBUG")
 
 
+def replace_file(file_path: Path, text: str) -> None:
+    """Write text in file, all or nothing.
+
+    Whatever happens (disk full, interruption, ...) the file holds either its former
+    content, or the whole text.
+    """
+    file_path = file_path.resolve()
+    tmp_path = file_path.with_name(f".{file_path.name}.{uuid.uuid4().hex}.tmp")
+    try:
+        with open(tmp_path, "x", encoding="utf-8", newline="") as f:
+            f.write(text)
+            f.flush()
+            os.fsync(f.fileno())
+        if file_path.exists():
+            shutil.copymode(file_path, tmp_path)
+        os.replace(tmp_path, file_path)
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 def write_file(df: pd.DataFrame, output: str = "") -> None:
     """Write output file."""
     if output:
         # Save result in csv file
         file_path = Path(output).expanduser().resolve()
         file_path.parent.mkdir(parents=True, exist_ok=True)
-        df.to_csv(file_path.with_suffix(".csv"), index=False)
+        replace_file(file_path.with_suffix(".csv"), df.to_csv(index=False))
         logger.success(
             f"\nResults are saved in csv file {file_path.with_suffix('.csv')}"
         )
diff --git a/geec/cli.py b/geec/cli.py
index a912459..6b75373 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -132,7 +132,7 @@ def config(
     template = pkg_path / "config_template.yaml"
 
     # copy template file
-    file_path.write_text(template.read_text())
+    geec.api.replace_file(file_path, template.read_text(encoding="utf-8"))
     logger.success(f"Save configuration template in {file_path}")
 
 
-- 
2.43.0


From d4abde183a4d0dee2a70f2e8769b950dd8ada686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:18 +0000
Subject: [PATCH 16/21] fix: forget a geoid grid whose reading failed

---
 geec/crs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geec/crs.py b/geec/crs.py
index 53e450f..7205c65 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -252,7 +252,12 @@ class LazyGeoid:
     def __call__(self, positions):
         if self._geoid is None:
             self._geoid = pgeo.GeoidKarney(data_path / self._filename)
-        return self._geoid(positions)
+        try:
+            return self._geoid(positions)
+        except BaseException:
+            # its cache may hold the heights of another place
+            self._geoid = None
+            raise
 
 
 egm08geoid = LazyGeoid("geoids/egm2008-2_5.pgm")
-- 
2.43.0


From ea3156fc3d0ad559bb91dd450ae18216f082cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 17/21] fix: run without standard error

Without standard error (closed by the caller, daemon, ...), sys.stderr is None, and adding it as a
sink of the logger stopped every command.
---
 geec/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geec/api.py b/geec/api.py
index b7d8e65..c61732b 100644
--- a/geec/api.py
+++ b/geec/api.py
@@ -33,8 +33,9 @@ def setup_logger():
     # removes all handlers
     # Note: remove(0) to remove the default (0ᵗʰ) handler
     logger.remove()
-    # add handler to stderr
-    logger.add(sys.stderr, level="SUCCESS", format="{message}")
+    # add handler to stderr (None when closed)
+    if sys.stderr is not None:
+        logger.add(sys.stderr, level="SUCCESS", format="{message}")
     # add handler to file
     logger.add(logdir / "geec_{time}.log", level="DEBUG")
 
-- 
2.43.0


From 0c605c8f705a42fe6887c89e640fc0038c81208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 18/21] fix: one interpolation at a time in a geoid grid

The geoid model keeps an open file and a cache of the last cell, so that threads converting
datasets at the same time got heights of one another's points.
---
 geec/crs.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index 7205c65..ef67d1b 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -7,6 +7,7 @@
 # --- import -----------------------------------
 # import from standard lib
 import importlib.resources as resources
+import threading
 from dataclasses import dataclass, field, replace
 from enum import Enum, StrEnum
 
@@ -248,16 +249,19 @@ class LazyGeoid:
     def __init__(self, filename: str) -> None:
         self._filename = filename
         self._geoid = None
+        # its file and its cache serve one interpolation at a time
+        self._lock = threading.Lock()
 
     def __call__(self, positions):
-        if self._geoid is None:
-            self._geoid = pgeo.GeoidKarney(data_path / self._filename)
-        try:
-            return self._geoid(positions)
-        except BaseException:
-            # its cache may hold the heights of another place
-            self._geoid = None
-            raise
+        with self._lock:
+            if self._geoid is None:
+                self._geoid = pgeo.GeoidKarney(data_path / self._filename)
+            try:
+                return self._geoid(positions)
+            except BaseException:
+                # its cache may hold the heights of another place
+                self._geoid = None
+                raise
 
 
 egm08geoid = LazyGeoid("geoids/egm2008-2_5.pgm")
-- 
2.43.0


From 7d9ec9ad1043313cbf26f075840d12aeb4cebfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 19/21] fix: do not let a forked process wait for a computation
 of its parent

---
 geec/polyhedron.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index cce7cbd..cd982c0 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -17,6 +17,7 @@
 
 # --- import -----------------------------------
 # import from standard lib
+import os
 from itertools import pairwise
 from math import acos, log, sqrt
 from threading import RLock
@@ -41,6 +42,16 @@ from geec.utils import (
 # Note: not on the Polyhedron, which would no longer be picklable
 _computing = RLock()
 
+
+def _renew_lock() -> None:
+    """A forked process does not have the thread that may hold the lock"""
+    global _computing
+    _computing = RLock()
+
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=_renew_lock)
+
 # distance to the plane of a face, relative to the distance to its corners,
 # below which the station is taken to be in that plane (rounding errors only)
 coplanar = 1e-12
-- 
2.43.0


From 3c90f3a1b3bdd5ead9c4a2bf087f8430a54d441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:30 +0000
Subject: [PATCH 20/21] fix: do not share the open geoid grid with forked
 processes

---
 geec/crs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geec/crs.py b/geec/crs.py
index ef67d1b..8ac64fe 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -7,6 +7,7 @@
 # --- import -----------------------------------
 # import from standard lib
 import importlib.resources as resources
+import os
 import threading
 from dataclasses import dataclass, field, replace
 from enum import Enum, StrEnum
@@ -251,6 +252,15 @@ class LazyGeoid:
         self._geoid = None
         # its file and its cache serve one interpolation at a time
         self._lock = threading.Lock()
+        if hasattr(os, "register_at_fork"):
+            os.register_at_fork(after_in_child=self._forget)
+
+    def _forget(self) -> None:
+        """A forked process shares the position in the open file with its parent,
+        and does not have the thread that may hold the lock
+        """
+        self._lock = threading.Lock()
+        self._geoid = None
 
     def __call__(self, positions):
         with self._lock:
-- 
2.43.0


From ae96ff295780d1ca86017716ad64a995701c171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 21/21] fix: declare every attribute of a face when it is built

Face._tensor only came into being with the first computation: copying or
pickling a body while another thread computed with it for the first time
failed with 'dictionary changed size during iteration'.
---
 geec/polyhedron.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index cd982c0..8f2abb8 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -305,6 +305,7 @@ class Face:
         self._dpqr = None
         # self._pqr = vector_nan
         self._g = None
+        self._tensor = None
 
     def reset(self):
         """reset values for future computing"""
-- 
2.43.0

