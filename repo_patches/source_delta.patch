From c91a3fc3f9de4022905d42d76c9827c3913e995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 001/129] fix: number grid cells relative to the domain origin

The cell number was computed from absolute values of the coordinates. Domains
that straddle the equator or the Greenwich meridian got wrong numbers. So did
domains whose width is not a multiple of the cell size, and cells smaller than
one degree. Use offsets from the western and northern limits instead.
---
 Utilities/stats.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/Utilities/stats.py b/Utilities/stats.py
index 67b5cbe..aa030f7 100644
--- a/Utilities/stats.py
+++ b/Utilities/stats.py
@@ -12,7 +12,6 @@
 import sys
 import logging
 
-import math
 import numpy as np
 
 from .grid import grdRead
@@ -90,17 +89,16 @@ def getCellNum(lon, lat, gridLimit, gridSpace):
     """
     Return the cell number given longitude and latititude
     """
-    lon = int(math.floor(lon))
-    lat = int(math.ceil(lat))
-
     if (lon < gridLimit['xMin'] or lon >= gridLimit['xMax'] or
             lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):
         raise ValueError('Invalid input on cellNum: cell number is out of range')
 
-    j = abs((abs(lon) - abs(gridLimit['xMin']))) // abs(gridSpace['x'])
-    i = abs((abs(lat) - abs(gridLimit['yMax']))) // abs(gridSpace['y'])
+    j = (lon - gridLimit['xMin']) // gridSpace['x']
+    i = (gridLimit['yMax'] - lat) // gridSpace['y']
+    lonCells = np.size(
+        np.arange(gridLimit['xMin'], gridLimit['xMax'], gridSpace['x']))
 
-    return int(i * abs((gridLimit['xMax'] - gridLimit['xMin']) // gridSpace['x']) + j)
+    return int(i * lonCells + j)
 
 
 def getCellLonLat(cellNum, gridLimit, gridSpace):
-- 
2.43.0


From 2d37aa62c4afe1ec647e15f70ad4142e11ea7ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:23 +0000
Subject: [PATCH 002/129] fix: put the Hubbert asymmetry on the right side in
 the northern hemisphere

The translation term was written for clockwise storms only. It now takes
the sign of the rotation, so thetaMax is the bearing of the maximum in
both hemispheres.
---
 wind/windmodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index c275928..89d9595 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -987,7 +987,7 @@ class HubbertWindField(WindFieldModel):
         inflow = inflow * np.pi / 180
 
         thetaMaxAbsolute = np.array(thetaFm) + thetaMax * np.pi/180.
-        asym = vFm * np.cos(thetaMaxAbsolute - lam + np.pi)
+        asym = np.sign(self.f) * vFm * np.cos(thetaMaxAbsolute - lam)
         Vsf = Km * V + asym
         phi = inflow - lam
 
-- 
2.43.0


From 183300f5bb18fa3f92f747701a949d77d55bb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:23 +0000
Subject: [PATCH 003/129] fix: correct Rankine vorticity outside the radius of
 maximum wind

The derivative lacked the power of rMax and the sign of the rotation.
Surface winds from the Kepert model were not a number in the northern
hemisphere.
---
 wind/windmodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index 89d9595..f2b0465 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -546,7 +546,7 @@ class RankineWindProfile(WindProfileModel):
 
         """
         V = self.velocity(R)
-        Z = V/R - self.alpha * self.vMax * self.rMax / (R**(self.alpha + 1))
+        Z = (1. - self.alpha) * V / R
         icore = np.where(R <= self.rMax)
         Z[icore] = np.sign(self.f) * ((self.vMax * (R[icore] /
                                       self.rMax) + self.vMax / self.rMax))
-- 
2.43.0


From 9a05627924bcc2a606467431ed11445da21b189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:23 +0000
Subject: [PATCH 004/129] fix: keep the sign of velocity and vorticity in the
 compiled wind models

The Fortran sign intrinsic takes the magnitude of its first argument, so
negative values came out with the opposite sign to the Python code.
---
 wind/windmodels.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wind/windmodels.f90 b/wind/windmodels.f90
index a471243..6404d77 100644
--- a/wind/windmodels.f90
+++ b/wind/windmodels.f90
@@ -74,8 +74,8 @@ subroutine fkerpert(R, lam, f, rMax, Vm, thetaFm, vFm, d2Vm, dVm, dP, beta, rho,
             (sqrt(beta * dP * delta * edelta / &
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
-      V = sign(V, f)
-      Z = sign(Z, f)
+      V = V * sign(b, f)
+      Z = Z * sign(b, f)
 
       if (R(i) > 2 * rMax) then
          Vt  = Umod * exp(-((R(i) / (2.*rMax)) - 1.) ** 2.)
@@ -163,7 +163,7 @@ subroutine fhollandvel(V, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
          V(i) = sqrt((dP * beta / rho) * delta * edelta + (R(i) * f / 2.) ** 2) - R(i) * abs(f) / 2.
       end if
 
-      V(i) = sign(V(i), f)
+      V(i) = V(i) * sign(1.d0, f)
 
    end do
    !$OMP END PARALLEL DO
@@ -202,7 +202,7 @@ subroutine fhollandvort(Z, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
 
-      Z(i) = sign(Z(i), f)
+      Z(i) = Z(i) * sign(1.d0, f)
    end do
    !$OMP END PARALLEL DO
 
-- 
2.43.0


From b0c60e2f3b719a986c7b5ca487f58df1296b3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:23 +0000
Subject: [PATCH 005/129] fix: fill the output of the compiled wind models for
 any memory order

ravel() copies an array that is not C contiguous, so the results were
written to the copy and the caller got uninitialised memory.
---
 wind/windmodels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index f2b0465..a2e4f84 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -383,7 +383,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvel
-            V = np.empty_like(R)
+            V = np.empty_like(R, order='C')
             fhollandvel(
                 V.ravel(), R.ravel(), d2Vm, dVm, self.rMax,
                 self.vMax, self.beta, self.dP, self.rho, self.f, V.size
@@ -425,7 +425,7 @@ class HollandWindProfile(WindProfileModel):
 
         try:
             from ._windmodels import fhollandvort
-            Z = np.empty_like(R)
+            Z = np.empty_like(R, order='C')
             fhollandvort(
                 Z.ravel(), R.ravel(), d2Vm, dVm, self.rMax, self.vMax,
                 self.beta, self.dP, self.rho, self.f, Z.size
@@ -1087,7 +1087,7 @@ class KepertWindField(WindFieldModel):
                 from ._windmodels import fkerpert
 
                 d2Vm, dVm = self.profile.secondDerivative(), self.profile.firstDerivative()
-                Ux, Vy = np.empty_like(R), np.empty_like(R)
+                Ux, Vy = np.empty_like(R, order='C'), np.empty_like(R, order='C')
                 n = Ux.size
                 fkerpert(
                     R.ravel(), lam.ravel(), self.f, self.rMax, Vm, thetaFm,
-- 
2.43.0


From f8eb0af2b4f7f0c501b7b45d98e867305d77076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:52 +0000
Subject: [PATCH 006/129] fix: use the mean slope at corners in the Python
 Akima interpolation

Where two straight runs meet, both weights vanish and Akima's method takes
the mean of the two slopes. The Python code took the left slope, unlike
the C extension.
---
 Utilities/akima.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/akima.py b/Utilities/akima.py
index fee063e..ed88e0d 100755
--- a/Utilities/akima.py
+++ b/Utilities/akima.py
@@ -159,7 +159,7 @@ def interpolate(x, y, x_new, axis=-1, out=None):
     f12 = f1 + f2
 
     ids = numpy.nonzero(f12 > 1e-9 * numpy.max(f12))[0]
-    b = m1[1:n + 1]
+    b = 0.5 * (m1[1:n + 1] + m1[2:n + 2])
 
     b[ids] = (f1[ids] * m1[ids + 1] + f2[ids] * m1[ids + 2]) / f12[ids]
     c = (3.0 * m - 2.0 * b[0:n - 1] - b[1:n]) / dx
-- 
2.43.0


From 497b95685483e65a27d213ac68b42ccf34badb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:39 +0000
Subject: [PATCH 007/129] fix: honour grid limits of zero degrees in makeGrid

A limit on the equator or the prime meridian was treated as not given.
Positions are also rounded, rather than truncated, to millidegrees, so
that 1.001 is not taken as 1.000 because of floating point noise.
---
 Utilities/maputils.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 61a60e9..122e823 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -491,24 +491,26 @@ def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
         type(cLon)==np.ndarray or type(cLat)==np.ndarray):
         raise TypeError("Input values must be scalar values")
 
-    gridSize = int(resolution * 1000)
-
-    if minLon:
-        minLon_ = int(1000 * (minLon)) - int(1000 * margin)
-    else:
-        minLon_ = int(1000 * (cLon)) - int(1000 * margin)
-    if maxLon:
-        maxLon_ = int(1000 * (maxLon)) + int(1000 * margin) + 1
-    else:
-        maxLon_ = int(1000 * (cLon)) + int(1000 * margin) + 1
-    if minLat:
-        minLat_ = int(1000 * (minLat)) - int(1000 * margin)
-    else:
-        minLat_ = int(1000 * (cLat)) - int(1000 * margin)
-    if maxLat:
-        maxLat_ = int(1000 * (maxLat)) + int(1000 * margin) + 1
-    else:
-        maxLat_ = int(1000 * (cLat)) + int(1000 * margin) + 1
+    def millidegrees(value):
+        """Nearest whole number of millidegrees"""
+        return int(np.rint(1000. * value))
+
+    gridSize = millidegrees(resolution)
+    gridMargin = millidegrees(margin)
+
+    if minLon is None:
+        minLon = cLon
+    if maxLon is None:
+        maxLon = cLon
+    if minLat is None:
+        minLat = cLat
+    if maxLat is None:
+        maxLat = cLat
+
+    minLon_ = millidegrees(minLon) - gridMargin
+    maxLon_ = millidegrees(maxLon) + gridMargin + 1
+    minLat_ = millidegrees(minLat) - gridMargin
+    maxLat_ = millidegrees(maxLat) + gridMargin + 1
 
     xGrid = np.array(np.arange(minLon_, maxLon_, gridSize), dtype=int)
     yGrid = np.array(np.arange(minLat_, maxLat_, gridSize), dtype=int)
-- 
2.43.0


From 285e61d524b2d799a8b64cd1828089c471bec230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:39 +0000
Subject: [PATCH 008/129] fix: use one grid step for the storm grid and the
 regional grid

The region was laid out in whole centidegrees and the grid around the
storm in millidegrees. A resolution such as 0.025 degrees gave two
different steps, and a margin that is not a multiple of the resolution
gave a window with a different shape to the wind field, which raised an
error. Both grids now use millidegrees and the window takes its size
from the wind field.
---
 wind/__init__.py | 50 ++++++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index d909e64..140a853 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -238,13 +238,13 @@ class WindfieldAroundTrack(object):
         yMax = gridLimit['yMax']
 
         # Setup a 'millidegree' integer grid for the region
-        gridMargin = int(100. * self.margin)
-        gridStep = int(100. * self.resolution)
+        gridMargin = int(np.rint(1000. * self.margin))
+        gridStep = int(np.rint(1000. * self.resolution))
 
-        minLat = int(100. * yMin) - gridMargin
-        maxLat = int(100. * yMax) + gridMargin
-        minLon = int(100. * xMin) - gridMargin
-        maxLon = int(100. * xMax) + gridMargin
+        minLat = int(np.rint(1000. * yMin)) - gridMargin
+        maxLat = int(np.rint(1000. * yMax)) + gridMargin
+        minLon = int(np.rint(1000. * xMin)) - gridMargin
+        maxLon = int(np.rint(1000. * xMax)) + gridMargin
 
         latGrid = np.arange(minLat, maxLat + gridStep, gridStep, dtype=int)
         lonGrid = np.arange(minLon, maxLon + gridStep, gridStep, dtype=int)
@@ -258,8 +258,8 @@ class WindfieldAroundTrack(object):
         gust = np.zeros_like(cGridX, dtype='f')
         pressure = np.ones_like(cGridX, dtype='f') * envPressure
 
-        lonCDegree = np.array(100. * self.track.Longitude, dtype=int)
-        latCDegree = np.array(100. * self.track.Latitude, dtype=int)
+        lonMDegree = np.rint(1000. * self.track.Longitude).astype(int)
+        latMDegree = np.rint(1000. * self.track.Latitude).astype(int)
 
         # We only consider the times when the TC track falls in the region
         timesInRegion = np.where((xMin <= self.track.Longitude) &
@@ -272,27 +272,19 @@ class WindfieldAroundTrack(object):
         for i in tqdm.tqdm(timesInRegion, disable=None):
             log.debug(("Calculating wind field at timestep "
                        "{0} of {1}".format(i, nsteps)))
-            # Map the local grid to the regional grid
-            # Set up max/min over the whole domain
-            jmin, jmax = 0, int((maxLat - minLat + 2. * gridMargin) /
-                                gridStep) + 1
-            imin, imax = 0, int((maxLon - minLon + 2. * gridMargin) /
-                                gridStep) + 1
-
-            # If domain is set in gridLimit in config, use only those
-            # limits instead
-            if self.domain == 'bounded':
-
-                jmin = int((latCDegree[i] - minLat - gridMargin) / gridStep)
-                jmax = int((latCDegree[i] - minLat +
-                            gridMargin) / gridStep) + 1
-                imin = int((lonCDegree[i] - minLon - gridMargin) / gridStep)
-                imax = int((lonCDegree[i] - minLon +
-                            gridMargin) / gridStep) + 1
-
             # Calculate the local wind speeds and pressure at time i
             Ux, Vy, P = self.localWindField(i)
 
+            # Map the local grid to the regional grid. If the domain is
+            # 'full', the local grid starts at the corner of the region
+            jmin, imin = 0, 0
+            if self.domain == 'bounded':
+                jmin = (latMDegree[i] - minLat - gridMargin) // gridStep
+                imin = (lonMDegree[i] - minLon - gridMargin) // gridStep
+
+            jmax = jmin + Ux.shape[0]
+            imax = imin + Ux.shape[1]
+
             # Calculate the local wind gust and bearing
             Ux *= self.gustFactor
             Vy *= self.gustFactor
@@ -304,8 +296,8 @@ class WindfieldAroundTrack(object):
             if timeStepCallback is not None:
                 timeStepCallback(self.track.Datetime[i],
                                  localGust, Ux, Vy, P,
-                                 lonGrid[imin:imax] / 100.,
-                                 latGrid[jmin:jmax] / 100.)
+                                 lonGrid[imin:imax] / 1000.,
+                                 latGrid[jmin:jmax] / 1000.)
 
             # Retain when there is a new maximum gust
             mask = localGust > gust[jmin:jmax, imin:imax]
@@ -327,7 +319,7 @@ class WindfieldAroundTrack(object):
         if type(timeStepCallback) is writer.WriteFoliationCallback:
             timeStepCallback.ds.close()
 
-        return gust, bearing, UU, VV, pressure, lonGrid / 100., latGrid / 100.
+        return gust, bearing, UU, VV, pressure, lonGrid / 1000., latGrid / 1000.
 
 
 class WindfieldGenerator(object):
-- 
2.43.0


From 7930570a3b6303d4c2f9a67644e6243b73958073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:39 +0000
Subject: [PATCH 009/129] fix: keep wind components with the gust they belong
 to

When the extremes of several tracks are combined, the gust was replaced
before it was compared for the components, so that the components and
the bearing always came from the first track.
---
 wind/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 140a853..2527c7c 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -492,9 +492,11 @@ class WindfieldGenerator(object):
 
         for result in results:
             gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
-            gust = np.where(gust1 > gust, gust1, gust)
-            Vx = np.where(gust1 > gust, Vx1, Vx)
-            Vy = np.where(gust1 > gust, Vy1, Vy)
+            mask = gust1 > gust
+            gust = np.where(mask, gust1, gust)
+            bearing = np.where(mask, bearing1, bearing)
+            Vx = np.where(mask, Vx1, Vx)
+            Vy = np.where(mask, Vy1, Vy)
             P = np.where(P1 < P, P1, P)
 
         return (gust, bearing, Vx, Vy, P, lon, lat)
-- 
2.43.0


From cf84b8539e2ec5687d69617f45b65caebf1c8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:39 +0000
Subject: [PATCH 010/129] fix: pass thetaMax to the wind fields in degrees

The fields expect degrees, but the angle was converted to radians twice
on the way, so the configured angle of maximum wind had no effect.
---
 wind/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 2527c7c..ac4db20 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -111,7 +111,7 @@ class WindfieldAroundTrack(object):
         self.beta = beta
         self.beta1 = beta1
         self.beta2 = beta2
-        self.thetaMax = math.radians(thetaMax)
+        self.thetaMax = thetaMax
         self.margin = margin
         self.resolution = resolution
         self.gustFactor = gustFactor
@@ -928,8 +928,6 @@ def run(configFile, callback=None):
     if config.has_option('Input', 'Multipliers'):
         multipliers = config.get('Input', 'Multipliers')
 
-    thetaMax = math.radians(thetaMax)
-
     # Attempt to start the track generator in parallel
     global MPI
     MPI = attemptParallel()
-- 
2.43.0


From 067a39f8a6bec8d3f78a961b4006182f8a4bca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:39 +0000
Subject: [PATCH 011/129] fix: recompute gust files that were cut short

A file that was interrupted while the pressure was being written already
holds all of the data variables, and was taken to be complete.
---
 wind/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index ac4db20..b3b5bda 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -398,7 +398,8 @@ class WindfieldGenerator(object):
 
         try:
             with Dataset(filename, mode='r') as ncobj:
-                expected = ('lat', 'lon', 'vmax', 'ua', 'va', 'slp')
+                # 'crs' is the last variable written to the file
+                expected = ('lat', 'lon', 'vmax', 'ua', 'va', 'slp', 'crs')
                 return all(name in ncobj.variables for name in expected)
         except Exception:
             log.warning("Existing gust file is incomplete or unreadable: %s",
-- 
2.43.0


From a022aca0cc9751f7f45476c908b0875cdbafcd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:58 +0000
Subject: [PATCH 012/129] fix: remove an unusable gust file before writing it
 again

The netCDF library can keep a damaged file open after it failed to read
it. Opening the file for writing then failed and stopped the run.
---
 wind/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wind/__init__.py b/wind/__init__.py
index b3b5bda..c6019bb 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -530,6 +530,10 @@ class WindfieldGenerator(object):
                          .format(*track.trackId))
                 continue
 
+            if os.path.isfile(dumpfile):
+                # A damaged file may not be replaced by opening it again
+                os.remove(dumpfile)
+
             if timeStepCallback:
                 track, result = self.calculateExtremesFromTrack(
                     track, timeStepCallback)
-- 
2.43.0


From 7b7ae3a0519b7aa32b25cb0adb2ad642a20b9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:24 +0000
Subject: [PATCH 013/129] fix: record wind field evolution on the wind field
 grid

Where the extent is not a multiple of the resolution, the coordinates
were stretched to fit the extent and could be one point short, so that
the recorded layers did not fit the file.
---
 wind/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wind/writer.py b/wind/writer.py
index a2ea33c..e8fe89c 100644
--- a/wind/writer.py
+++ b/wind/writer.py
@@ -60,7 +60,8 @@ class WriteFoliationCallback(object):
         self.callback = wraps
 
         def series(start, stop, inc=resolution):
-            return np.linspace(start, stop, int(round((stop-start)/inc)) + 1)
+            n = int(np.ceil(np.around((stop - start) / inc, 6)))
+            return start + inc * np.arange(n + 1)
 
         lat = series(gridLimit['yMin'] - margin, gridLimit['yMax'] + margin)
         lon = series(gridLimit['xMin'] - margin, gridLimit['xMax'] + margin)
-- 
2.43.0


From ce5bc898df7f5ba8c9998e9aa8dc8566c81694b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:03 +0000
Subject: [PATCH 014/129] fix: read any list of stations from a csv file

A list with one station raised an error. Station names that are not
numbers were all read as nan, so the series of the stations overwrote
each other.
---
 Utilities/timeseries.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Utilities/timeseries.py b/Utilities/timeseries.py
index 087644d..e5c7e60 100644
--- a/Utilities/timeseries.py
+++ b/Utilities/timeseries.py
@@ -17,7 +17,6 @@ from configparser import NoOptionError
 import numpy as np
 
 from Utilities.config import ConfigParser
-from Utilities.files import flLoadFile
 from Utilities.maputils import find_index
 from Utilities.dynarray import DynamicRecArray
 from .shptools import shpGetVertices
@@ -160,7 +159,9 @@ class Timeseries(object):
 
 
         else:
-            stndata = flLoadFile(stnFile, delimiter=',')
+            stndata = np.atleast_2d(np.genfromtxt(stnFile, dtype=str,
+                                                  comments='%', delimiter=',',
+                                                  autostrip=True))
             # If there are more than 3 columns, save the additional
             # columns as 'metadata'
             if stndata.shape[1] > 3:
-- 
2.43.0


From b227860bcc229b9e8fcf3f321bd4db00c1879676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:35 +0000
Subject: [PATCH 015/129] fix: read only event wind field files in hazard
 calculations

Evolution files written next to the gust files were taken for event
wind fields.
---
 hazard/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bb9670f..0b3eabc 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -25,6 +25,7 @@ calling the :meth: `run` with the location of a *configFile*::
 import os
 import sys
 import numpy as np
+import fnmatch
 import logging
 import random
 
@@ -41,6 +42,19 @@ from . import GPD
 log = logging.getLogger(__name__)
 log.addHandler(logging.NullHandler())
 
+def listGustFiles(inputPath):
+    """
+    List the event wind field files in a folder. The folder may also hold
+    other files (e.g. the evolution of the wind field for some events), which
+    are not input to the hazard calculations.
+
+    :param str inputPath: path of folder containing wind field files
+
+    :return: sorted list of the names of the event wind field files.
+
+    """
+    return sorted(fnmatch.filter(os.listdir(inputPath), 'gust.*.nc'))
+
 def setDomain(inputPath):
     """
     Establish the full extent of input wind field files
@@ -52,7 +66,7 @@ def setDomain(inputPath):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = listGustFiles(inputPath)
     inputFile = pjoin(inputPath, fileList[0])
     ncobj = nctools.ncLoadFile(inputFile)
     wf_lon = nctools.ncGetDims(ncobj, 'lon')
@@ -905,7 +919,7 @@ def loadFilesFromPath(inputPath, tilelimits):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = listGustFiles(inputPath)
     files = [pjoin(inputPath, f) for f in fileList]
     files = [f for f in files if os.path.isfile(f)]
     log.debug("Loading data from %d files" % (len(files)))
-- 
2.43.0


From 5a644cc36a5d29f463433fc206bb7d2750373f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:35 +0000
Subject: [PATCH 016/129] fix: keep the outer row and column of the hazard
 domain

Truncating limits such as 113.3 * 1000 moved them off the wind field grid.
---
 hazard/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 0b3eabc..695e4f4 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -119,15 +119,15 @@ class TileGrid(object):
 
 
         ii, = ((np.round(wf_lon*1000).astype(int) >=
-                int(gridLimit['xMin']*1000)) &
+                int(np.round(gridLimit['xMin']*1000))) &
                (np.round(wf_lon*1000).astype(int) <=
-                int(gridLimit['xMax']*1000))).nonzero()
+                int(np.round(gridLimit['xMax']*1000)))).nonzero()
 
 
         jj, = ((np.round(wf_lat*1000).astype(int) >=
-                int(gridLimit['yMin']*1000)) &
+                int(np.round(gridLimit['yMin']*1000))) &
                (np.round(wf_lat*1000).astype(int) <=
-                int(gridLimit['yMax']*1000))).nonzero()
+                int(np.round(gridLimit['yMax']*1000)))).nonzero()
 
         self.imin = ii[0]
         self.imax = ii[-1]
-- 
2.43.0


From d5db9b7a922eb35b1c7a7cbe83b52925118ec491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:35 +0000
Subject: [PATCH 017/129] fix: use a whole number of samples for hazard
 confidence intervals

---
 hazard/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 695e4f4..f6c39d9 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -839,7 +839,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     upper = 100. - lower # 95th percentile default
 
     nrecords = Vr.shape[0] # number of years (since we have aggregated into 1/yr)
-    nsamples = nrecords / sample_size # number of iterations to perform
+    nsamples = nrecords // sample_size # number of iterations to perform
     
     # RpUpper/RpLower = years x lat x lon
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
-- 
2.43.0


From 421e9753b503aa048e3834daf205ab7af3edcb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:35 +0000
Subject: [PATCH 018/129] fix: use complete samples for hazard confidence
 intervals

The slice already excludes its end point, so one record of every sample
was dropped.
---
 hazard/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index f6c39d9..4ab68dd 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -856,7 +856,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
                 random.shuffle(Vr[:, i, j]) # shuffle the years
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
-                    nend  = (n + 1)*sample_size - 1
+                    nend  = (n + 1)*sample_size
                     vsub = Vr[nstart:nend, i, j] # select random 50(default) events
 
                     vsub.sort()
-- 
2.43.0


From 1d808fbaeab45c0f18b62c4a46ed9df1a3a67198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:35 +0000
Subject: [PATCH 019/129] fix: base hazard confidence intervals on the fits of
 the same cell

Samples that could not be fitted contributed the missing value, or the
fit of another cell, to the percentiles.
---
 hazard/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 4ab68dd..6dff854 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -845,14 +845,14 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
     RpLower = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
 
-    # w: years x number of iterations
-    w = np.zeros((len(years), nsamples), dtype='f')
-    wUpper = np.zeros((len(years)), dtype='f')
-    wLower = np.zeros((len(years)), dtype='f')
-
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
             if Vr[:, i, j].max() > 0.0: # check for valid data
+                # w: years x number of iterations
+                w = nodata*np.ones((len(years), nsamples), dtype='f')
+                wUpper = nodata*np.ones((len(years)), dtype='f')
+                wLower = nodata*np.ones((len(years)), dtype='f')
+
                 random.shuffle(Vr[:, i, j]) # shuffle the years
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
@@ -867,8 +867,10 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
 
                 # Pull out the upper and lower percentiles from the random sample fits
                 for n in range(len(years)):
-                    wUpper[n] = percentile(w[n,:], upper)
-                    wLower[n] = percentile(w[n,:], lower)
+                    valid = w[n, w[n, :] != nodata]
+                    if len(valid) > 0:
+                        wUpper[n] = percentile(valid, upper)
+                        wLower[n] = percentile(valid, lower)
 
                 # Store upper and lower percentiles for each return period, for each grid cell
                 RpUpper[:, i, j] = wUpper
-- 
2.43.0


From 3ba0b22f15347d82fc1a01729ff1f2b7af6528aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:46 +0000
Subject: [PATCH 020/129] fix: count all simulated years in event-based hazard
 curves

Simulations longer than one year were counted as a single year by the
empirical, power law and generalised Pareto fits.
---
 hazard/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 6dff854..c3eeb27 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -677,7 +677,8 @@ def calculateEMP(Vr, years, numsim, nodata, minRecords, yrsPerSim):
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
             if Vr[:,i,j].max() > 0.0: # all years at one lat/lon
-                w, l, sc, sh = evd.empfit(Vr[:,i,j], years, numsim, nodata,
+                w, l, sc, sh = evd.empfit(Vr[:,i,j], years,
+                                          numsim*yrsPerSim, nodata,
                                           minRecords)
                 # w = array of return period wind speed values
                 # l = location parameter of fit
@@ -734,7 +735,7 @@ def calculateGPD(Vr, years, numsim, nodata, minRecords, yrsPerSim):
                 log.debug("lat: {0}, lon: {1}".format(i, j))
                 w, l, sc, sh = GPD.gpdfit(Vr[:,i,j],
                                           years,
-                                          numsim,
+                                          numsim*yrsPerSim,
                                           nodata,
                                           minRecords,
                                           threshold=99.5)
@@ -791,7 +792,7 @@ def calculatePower(Vr, years, numsim, nodata, minRecords, yrsPerSim):
                 log.debug("lat: {0}, lon: {1}".format(i, j))
                 w, l, sc, sh = evd.powerfit(Vr[:,i,j],
                                             years,
-                                            numsim,
+                                            numsim*yrsPerSim,
                                             nodata,
                                             minRecords)
                 # w = array of return period wind speed values
-- 
2.43.0


From c218ef21ddb93e06cbaeb4fe97f8b986c530f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:21 +0000
Subject: [PATCH 021/129] fix: use whole days for empirical return periods

A fraction of a day left over shortened the return period of the largest
events, by up to three quarters in some record lengths.
---
 hazard/evd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazard/evd.py b/hazard/evd.py
index a9fefaa..94ad35f 100644
--- a/hazard/evd.py
+++ b/hazard/evd.py
@@ -369,7 +369,7 @@ def powerfit(data, intervals, numsim, nodata=-9999., minrecords=50):
     w = nodata * np.ones(len(intervals)) # Create empty return period array
     
     npyr = 365.25
-    nobs = npyr * numsim
+    nobs = int(npyr * numsim)
     
     wspd = np.zeros(int(nobs))
     wspd[-len(data):] = np.sort(data)
@@ -423,7 +423,7 @@ def empfit(data, intervals, numsim, nodata=-9999., minrecords=50):
     w = nodata * np.ones(len(intervals)) # Create empty return period array
     
     npyr = 365.25
-    nobs = npyr * numsim
+    nobs = int(npyr * numsim)
     
     wspd = np.zeros(int(nobs))
     wspd[-len(data):] = np.sort(data)
-- 
2.43.0


From fa2c79e7b3cfdf581fb84af67b9b66add2c14224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:10 +0000
Subject: [PATCH 022/129] fix: sample the environmental pressure anew for every
 generated track

generateTracks() stored the sampled environmental pressure in its own
argument, so every track after the first started with the pressure found
at the first track's genesis point and day.
---
 TrackGenerator/TrackGenerator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 5819800..1aae7fd 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -617,10 +617,12 @@ class TrackGenerator(object):
             # provided - dependent on initial day of year:
 
             if not initEnvPressure:
-                initEnvPressure = \
+                genesisEnvPressure = \
                     self.mslp.get_pressure(np.array([[genesisDay],
                                                      [genesisLat],
                                                      [genesisLon]]))
+            else:
+                genesisEnvPressure = initEnvPressure
 
             # Sample an initial pressure if none is provided
 
@@ -629,7 +631,7 @@ class TrackGenerator(object):
                 # initEnvPressure
                 ind = self.allCDFInitPressure[:, 0] == initCellNum
                 cdfInitPressure = self.allCDFInitPressure[ind, 1:3]
-                ix = cdfInitPressure[:, 0].searchsorted(initEnvPressure)
+                ix = cdfInitPressure[:, 0].searchsorted(genesisEnvPressure)
                 upperProb = cdfInitPressure[ix - 1, 1]
                 genesisPressure = ppf(uniform(0.0, upperProb),
                                       cdfInitPressure)
@@ -645,7 +647,7 @@ class TrackGenerator(object):
                     ind = self.allCDFInitSize[:, 0] == initCellNum
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
-                dp = initEnvPressure - genesisPressure
+                dp = genesisEnvPressure - genesisPressure
                 self.rmwEps = np.random.normal(0, scale=0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
@@ -670,7 +672,7 @@ class TrackGenerator(object):
             log.debug('initBearing: %.2f initSpeed: %.2f' +
                       ' initEnvPressure: %.2f initPressure: %.2f' +
                       ' initRmax: %.2f',
-                      genesisBearing, genesisSpeed, initEnvPressure,
+                      genesisBearing, genesisSpeed, genesisEnvPressure,
                       genesisPressure, genesisRmax)
 
             xMin = self.gridLimit['xMin']
@@ -684,7 +686,7 @@ class TrackGenerator(object):
                           ' for this genesis point.')
                 continue
 
-            if (initEnvPressure - genesisPressure) < 2:
+            if (genesisEnvPressure - genesisPressure) < 2:
                 log.debug(("Track does not start with sufficient "
                            "pressure deficit"))
                 continue
@@ -694,7 +696,7 @@ class TrackGenerator(object):
 
             data = self._singleTrack(j, genesisLon, genesisLat,
                                      genesisSpeed, genesisBearing,
-                                     genesisPressure, initEnvPressure,
+                                     genesisPressure, genesisEnvPressure,
                                      genesisRmax, genesisTime)
 
             track_dtype = np.dtype({'names':TCRM_COLS, 'formats':TCRM_FMTS})
-- 
2.43.0


From 6fad671d10bf0fdb70e5068eccc2ab5046695746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:10 +0000
Subject: [PATCH 023/129] fix: draw the size term of a track from the
 simulation's own stream

The random term of the radius of maximum winds came from numpy's global
generator, so the tracks of a simulation depended on which simulations
the same process had run before it.
---
 TrackGenerator/TrackGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 1aae7fd..80cb15f 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -648,13 +648,13 @@ class TrackGenerator(object):
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
                 dp = genesisEnvPressure - genesisPressure
-                self.rmwEps = np.random.normal(0, scale=0.335)
+                self.rmwEps = normal(0, 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
                 # Censor the initial Rmax to be < 100 km.
                 if genesisRmax > 100.:
                     while genesisRmax > 100.:
-                        self.rmwEps = np.random.normal(0, scale=0.335)
+                        self.rmwEps = normal(0, 0.335)
                         genesisRmax = trackSize.rmax(dp,
                                                      genesisLat,
                                                      self.rmwEps)
-- 
2.43.0


From d84b2ec1b006d77eb195c13fa07f25fc0113d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:10 +0000
Subject: [PATCH 024/129] fix: accept zero as a prescribed initial value of a
 track

A prescribed longitude, latitude, bearing or speed of zero was taken as
missing and replaced with a random one.
---
 TrackGenerator/TrackGenerator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 80cb15f..4314808 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -557,7 +557,7 @@ class TrackGenerator(object):
         j = 0
         while j < nTracks:
 
-            if not (initLon and initLat):
+            if initLon is None or initLat is None:
                 log.debug('Cyclone origin not given, sampling a' +
                           ' random one instead.')
                 genesisLon, genesisLat = \
@@ -580,7 +580,7 @@ class TrackGenerator(object):
 
             # Sample an initial bearing if none is provided
 
-            if not initBearing:
+            if initBearing is None:
                 ind = self.allCDFInitBearing[:, 0] == initCellNum
                 cdfInitBearing = self.allCDFInitBearing[ind, 1:3]
                 genesisBearing = ppf(uniform(), cdfInitBearing)
@@ -589,7 +589,7 @@ class TrackGenerator(object):
 
             # Sample an initial speed if none is provided
 
-            if not initSpeed:
+            if initSpeed is None:
                 ind = self.allCDFInitSpeed[:, 0] == initCellNum
                 cdfInitSpeed = self.allCDFInitSpeed[ind, 1:3]
                 genesisSpeed = ppf(uniform(), cdfInitSpeed)
@@ -599,7 +599,7 @@ class TrackGenerator(object):
 
             # Sample an initial day if none is provided
 
-            if not initDay:
+            if initDay is None:
                 ind = self.allCDFInitDay[:, 0] == initCellNum
                 cdfInitDay = self.allCDFInitDay[ind, 1:3]
                 genesisDay = ppf(uniform(), cdfInitDay)
@@ -616,7 +616,7 @@ class TrackGenerator(object):
             # Sample an initial environment pressure if none is
             # provided - dependent on initial day of year:
 
-            if not initEnvPressure:
+            if initEnvPressure is None:
                 genesisEnvPressure = \
                     self.mslp.get_pressure(np.array([[genesisDay],
                                                      [genesisLat],
@@ -626,7 +626,7 @@ class TrackGenerator(object):
 
             # Sample an initial pressure if none is provided
 
-            if not initPressure:
+            if initPressure is None:
                 # Sample subject to the constraint initPressure <
                 # initEnvPressure
                 ind = self.allCDFInitPressure[:, 0] == initCellNum
@@ -640,7 +640,7 @@ class TrackGenerator(object):
 
             # Sample an initial maximum radius if none is provided
 
-            if not initRmax:
+            if initRmax is None:
                 if not self.allCDFInitSize:
                     cdfSize = self.cdfSize[:, [0, 2]]
                 else:
-- 
2.43.0


From e4d8863a476d9c45013868ccde3992dd018f17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:10 +0000
Subject: [PATCH 025/129] fix: generate tracks from a prescribed radius of
 maximum winds

The random term used to update the size was only set when the initial
size was sampled, so prescribing the initial size failed.
---
 TrackGenerator/TrackGenerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 4314808..dbf6277 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -661,6 +661,9 @@ class TrackGenerator(object):
 
             else:
                 genesisRmax = initRmax
+                dp = genesisEnvPressure - genesisPressure
+                self.rmwEps = np.log(initRmax /
+                                     trackSize.rmax(dp, genesisLat, 0.))
             # Do not generate tracks from this genesis point if we are
             # going to exit the domain on the first step
 
-- 
2.43.0


From a7efcdfe711f49878ed1bcb17bb347e3ee5863a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:10 +0000
Subject: [PATCH 026/129] fix: restart the time over land when a track moves
 back offshore

The time over land kept accumulating over separate landfalls, so a storm
that crossed an island decayed at its next landfall as if it had been
ashore all along.
---
 TrackGenerator/TrackGenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index dbf6277..332a64c 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1018,6 +1018,7 @@ class TrackGenerator(object):
                 log.debug(('Central pressure {0} hours after landfall:'
                            '{1:.2f}'.format(tol, pressure[i])))
             else:
+                tol = 0.0
                 pstat = self.pStats.coeffs
                 pressure[i] = pressure[i - 1] + self.dp * self.dt
 
-- 
2.43.0


From 34547507f1dc2f3fbb9f5a15db9d2d0c282ae620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:10 +0000
Subject: [PATCH 027/129] fix: allow a single track simulation

With one simulation the progress message divided by zero.
---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 332a64c..a9a3fac 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1875,7 +1875,7 @@ def run(configFile, callback=None):
 
     comm.barrier()
 
-    N = sims[-1].index
+    N = max(sims[-1].index, 1)
 
     # Balance the simulations over the number of processors and do it
 
-- 
2.43.0


From 5c8c8a37af59ad8267d782ce0e8a02d99dc149f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:42 +0000
Subject: [PATCH 028/129] fix: keep the random streams of different seeds apart

Seed and stream were added to form the key of the generator, so stream 1
of seed 1 was stream 0 of seed 2, and two runs with close seeds shared
most of their tracks. Stream 0 of every seed is unchanged.
---
 Utilities/tcrandom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/tcrandom.py b/Utilities/tcrandom.py
index fa8c761..26833cc 100644
--- a/Utilities/tcrandom.py
+++ b/Utilities/tcrandom.py
@@ -36,7 +36,7 @@ class Random:
     """
     # numpy 1.18 recommends Philox for independent pseudorandom streams
     def __init__(self, seed, stream):
-        self.PRNG = Generator(Philox(key=seed + stream))
+        self.PRNG = Generator(Philox(key=[seed, stream]))
     def normalvariate(self, loc=0, scale=1, shape=None):
         return self.PRNG.normal(loc, scale, shape)
     def uniform(self, low=0, high=1, shape=None):
-- 
2.43.0


From d9e069d497cc2c29b460a091f110243f8941199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:25 +0000
Subject: [PATCH 029/129] fix: leave the tracks unchanged when saving them

ncSaveTracks() replaced the dates of the tracks it was given with the
numbers stored in the file, so the tracks could not be used or saved
again afterwards.
---
 Utilities/track.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84b6b98..9a5bf43 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -324,11 +324,12 @@ def ncSaveTracks(trackfile, tracks,
                                      zlib=True, complevel=8, shuffle=True)
         tvar = tdata.createVariable('track', tdtype, ('time',),
                                     zlib=True, complevel=8, shuffle=True)
-        t.data['Datetime'] = date2num(t.data['Datetime'], timeunits, calendar)
-        times[:] = t.data['Datetime']
+        data = t.data.copy()
+        data['Datetime'] = date2num(data['Datetime'], timeunits, calendar)
+        times[:] = data['Datetime']
         times.units = 'hours since 1900-01-01 00:00'
         times.calendar = calendar
-        tvar[:] = t.data.astype(track_dtype)
+        tvar[:] = data.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
         tvar.time_units = 'hours since 1900-01-01 00:00'
         tvar.calendar = calendar
-- 
2.43.0


From 62f481d489f42b68ec114dd1ae496f923968d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:26 +0000
Subject: [PATCH 030/129] fix: record the time units used to store track dates

The units attribute was always the default one, so dates stored with
other units were read back wrong.
---
 Utilities/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 9a5bf43..323b5af 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -327,11 +327,11 @@ def ncSaveTracks(trackfile, tracks,
         data = t.data.copy()
         data['Datetime'] = date2num(data['Datetime'], timeunits, calendar)
         times[:] = data['Datetime']
-        times.units = 'hours since 1900-01-01 00:00'
+        times.units = timeunits
         times.calendar = calendar
         tvar[:] = data.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
-        tvar.time_units = 'hours since 1900-01-01 00:00'
+        tvar.time_units = timeunits
         tvar.calendar = calendar
         tvar.lon_units = 'degrees east'
         tvar.lat_units = 'degrees north'
-- 
2.43.0


From ae5953c42acbb1f6a3f567ffe42efede0f746b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:26 +0000
Subject: [PATCH 031/129] fix: do not write file attributes back into the
 caller's dictionary

The creation attributes were added to the dictionary passed in, or to
the shared default one.
---
 Utilities/track.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utilities/track.py b/Utilities/track.py
index 323b5af..84869ea 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -340,6 +340,7 @@ def ncSaveTracks(trackfile, tracks,
         tvar.length_units = 'km'
         tvar.trackId = repr(t.trackId)
 
+    attributes = dict(attributes)
     attributes['created_on'] = time.strftime(ISO_FORMAT, time.localtime())
     attributes['created_by'] = getpass.getuser()
     ncobj.setncatts(attributes)
-- 
2.43.0


From ae16deafb75d1fcbab9032b4492bea0fee50af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:26 +0000
Subject: [PATCH 032/129] fix: read csv track files

The column converters expect text, but numpy hands them bytes unless an
encoding is given. The failure was taken for an empty file. A file with
a single record is now also returned as an array of one record.
---
 Utilities/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84869ea..07a8dbb 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -372,7 +372,8 @@ def readTrackData(trackfile):
                           dtype={
                           'names': TCRM_COLS,
                           'formats': TCRM_FMTS},
-                          converters=TCRM_CNVT)
+                          converters=TCRM_CNVT,
+                          encoding='utf-8', ndmin=1)
     except ValueError:
         # return an empty array with the appropriate `dtype` field names
         return np.empty(0, dtype={
-- 
2.43.0


From 17b0493cdc31c41d467dec020f28c2d96c04fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:26 +0000
Subject: [PATCH 033/129] fix: pass the domain when loading all tracks in a
 directory

wind.loadTracksFromPath() called loadTracksFromFiles() without its
domain arguments and failed.
---
 wind/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index c6019bb..59f9ece 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -854,7 +854,7 @@ def loadTracks(trackfile):
     return tracks
 
 
-def loadTracksFromPath(path):
+def loadTracksFromPath(path, gridLimit, margin):
     """
     Helper function to obtain a generator that yields :class:`Track` objects
     from a directory containing track .csv files.
@@ -864,12 +864,14 @@ def loadTracksFromPath(path):
 
     :type  path: str
     :param path: the directory path.
+    :param gridLimit: the simulation domain used to filter the tracks.
+    :param margin: how much buffer to apply around the domain.
     """
     files = os.listdir(path)
     trackfiles = [pjoin(path, f) for f in files if f.startswith('tracks')]
     msg = f'Processing {len(trackfiles)} track files in {path}'
     log.info(msg)
-    return loadTracksFromFiles(sorted(trackfiles))
+    return loadTracksFromFiles(sorted(trackfiles), gridLimit, margin)
 
 
 def balanced(iterable):
-- 
2.43.0


From 37b0120394715a12dcfe73f89b2f0b3b0c87e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:20 +0000
Subject: [PATCH 034/129] fix: round dates read from track files to the nearest
 second

Dates are stored as floating point numbers, and dropping the fraction of
a second when reading turned 01:00:00 into 00:59:59 now and then.
---
 Utilities/track.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 07a8dbb..487b5d2 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -15,7 +15,7 @@ import time
 import logging
 import getpass
 import numpy as np
-from datetime import datetime
+from datetime import datetime, timedelta
 
 from os.path import join as pjoin
 import re
@@ -162,6 +162,7 @@ class Track(object):
 
 # Define format for TCRM output track files:
 ISO_FORMAT = "%Y-%m-%d %H:%M:%S"
+HALF_SECOND = timedelta(microseconds=500000)
 TCRM_COLS = ('CycloneNumber', 'Datetime', 'TimeElapsed', 'Longitude',
              'Latitude', 'Speed', 'Bearing', 'CentralPressure',
              'EnvPressure', 'rMax')
@@ -215,7 +216,7 @@ def ncReadTrackData(trackfile):
         calendar = ncobj.getncattr('calendar')
         dtt = num2date(dt[:], units, calendar)
         # Convert to true python datetimes
-        dtconversion = [datetime.strptime(d.strftime(), "%Y-%m-%d %H:%M:%S") for d in dtt]
+        dtconversion = [datetime.strptime((d + HALF_SECOND).strftime(), "%Y-%m-%d %H:%M:%S") for d in dtt]
         newtd = np.zeros(len(dtt), dtype=track_dtype)
         for f in ncobj.variables.keys():
             if f != 'Datetime' and f in track_dtype.names:
@@ -247,7 +248,7 @@ def ncReadTrackData(trackfile):
             for f in track_data.dtype.names:
                 if f != 'Datetime' and f in track_dtype.names:
                     newtd[f] = track_data[f]
-            dtconversion = [datetime.strptime(d.strftime(), "%Y-%m-%d %H:%M:%S") for d in dt]
+            dtconversion = [datetime.strptime((d + HALF_SECOND).strftime(), "%Y-%m-%d %H:%M:%S") for d in dt]
             newtd['Datetime'] = dtconversion
 
             track = Track(newtd)
-- 
2.43.0


From fb6706a667435c3c0e2377aff1543a8a6f70513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 035/129] fix: load track files with separate date columns

The loaded file is a structured array, which raises ValueError rather
than KeyError for a missing field, so a file with year, month, day and
hour columns in place of a date column could not be loaded.
---
 Utilities/loadData.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index badf3a7..b0f9552 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -430,8 +430,13 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
     """
     try:
-        year, month, day, hour, minute, datetimes = date2ymdh(data['date'], datefmt)
-    except (KeyError):
+        dates = data['date']
+    except (ValueError, KeyError):
+        dates = None
+
+    if dates is not None:
+        year, month, day, hour, minute, datetimes = date2ymdh(dates, datefmt)
+    else:
         # Sort out date/time information:
         month = np.array(data['month'], 'i')
         day = np.array(data['day'], 'i')
-- 
2.43.0


From 9e7314c9ca06407f28c5e9f7167cf5b2b0050e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 036/129] fix: split tracks at large jumps in any direction

Only jumps to the east or north were recognised, so two storms sharing a
number in different basins were joined when the second lay to the west
or south of the first.  A step across the Greenwich meridian was taken
for a jump.  The elapsed time also restarts at the split.
---
 DataProcess/DataProcess.py |  4 ++--
 Utilities/loadData.py      | 27 +++++++++++++--------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 9693a98..ad4580e 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -245,8 +245,8 @@ class DataProcess(object):
             # Calculate julian days:
             jdays = loadData.julianDays(year, month, day, hour, minute)
 
-        delta_lon = np.diff(lon)
-        delta_lat = np.diff(lat)
+        delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+        delta_lat = np.abs(np.diff(lat))
 
         # Split into separate tracks if large jump occurs (delta_lon >
         # 15 degrees or delta_lat > 5 degrees) This avoids two tracks
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index b0f9552..dc60357 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -849,6 +849,19 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     # Determine the initial TC positions...
     indicator = getInitialPositions(inputData)
 
+    lat = np.array(inputData['lat'], 'd')
+    lon = np.mod(np.array(inputData['lon'], 'd'), 360)
+    delta_lon = np.abs(np.mod(np.diff(lon) + 180., 360.) - 180.)
+    delta_lat = np.abs(np.diff(lat))
+
+    # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
+    # or delta_lat > 5 degrees)
+    # This avoids two tracks being accidentally combined when seasons and track
+    # numbers match but basins are different as occurs in the IBTrACS dataset.
+    # This problem can also be prevented if the 'tcserialno' column is
+    # specified.
+    indicator[np.where(delta_lon > 10)[0] + 1] = 1
+    indicator[np.where(delta_lat > 5)[0] + 1] = 1
 
     # Sort date/time information
     if 'age' in inputData.dtype.names:
@@ -867,20 +880,6 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     # Calculate julian days
     jdays = julianDays(year, month, day, hour, minute)
 
-    lat = np.array(inputData['lat'], 'd')
-    lon = np.mod(np.array(inputData['lon'], 'd'), 360)
-    delta_lon = np.diff(lon)
-    delta_lat = np.diff(lat)
-
-    # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
-    # or delta_lat > 5 degrees)
-    # This avoids two tracks being accidentally combined when seasons and track
-    # numbers match but basins are different as occurs in the IBTrACS dataset.
-    # This problem can also be prevented if the 'tcserialno' column is
-    # specified.
-    indicator[np.where(delta_lon > 10)[0] + 1] = 1
-    indicator[np.where(delta_lat > 5)[0] + 1] = 1
-
     pressure = filterPressure(np.array(inputData['pressure'], 'd'),
                               inputPressureUnits, missingValue)
     try:
-- 
2.43.0


From 44e6fdc4295b177a0df41182102bcaf22d6cd88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 037/129] fix: keep the minutes in the time between
 observations

The time step was rounded to whole hours, so observations half an hour
apart had a step of zero and no forward speed, and speeds were wrong for
any step that is not a whole number of hours.
---
 Utilities/loadData.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index dc60357..6b3a9f9 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -524,7 +524,7 @@ def getTimeDelta(year, month, day, hour, minute):
     """
     dates = [datetime(*x) for x in zip(year, month, day, hour, minute)]
     diffs = [d1 - d0 for d0, d1 in zip(dates[:-1], dates[1:])]
-    return np.array([0.0] + [round(d.days * 24. + d.seconds / 3600.)
+    return np.array([0.0] + [d.days * 24. + d.seconds / 3600.
                              for d in diffs], 'f')
 
 def getTimeElapsed(indicator, year, month, day, hour, minute):
-- 
2.43.0


From 90acc92af5e429d7b8926a260edba24b3bd15f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 038/129] fix: leave the outer pressure missing where the
 central pressure is

The missing value code was not passed on, so a missing central pressure
was used as a pressure and gave an environmental pressure of about
1650 hPa.
---
 Utilities/loadData.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 6b3a9f9..b37f482 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -934,7 +934,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     else:
         LOG.debug("Determining poci")
         eps = np.random.normal(0, scale=2.5717)
-        poci = getPoci(penv, pressure, lat, jdays, eps)
+        poci = getPoci(penv, pressure, lat, jdays, eps,
+                       missingValue=missingValue)
 
 
     speed, bearing = getSpeedBearing(indicator, lon, lat, dt,
-- 
2.43.0


From da2e1cc6f508418982780860beaf059b248d5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 039/129] fix: convert the units of environmental pressure in
 track files

Central pressures are converted from the units given for the source, but
the environmental and outer pressures were used as they were.
---
 Utilities/loadData.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index b37f482..5a5e31d 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -905,7 +905,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
         rmax = np.zeros(indicator.size, 'f')
 
     if 'penv' in inputData.dtype.names:
-        penv = np.array(inputData['penv'], 'd')
+        penv = metutils.convert(np.array(inputData['penv'], 'd'),
+                                inputPressureUnits, 'hPa')
     else:
         LOG.debug("No ambient MSLP data in this input file")
         LOG.debug("Sampling data from MSLP data defined in "
@@ -930,7 +931,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
         penv = ltmPressure(jdays, time, lon, lat, ncfile, ncvar)
 
     if 'poci' in inputData.dtype.names:
-        poci = np.array(inputData['poci'], 'd')
+        poci = metutils.convert(np.array(inputData['poci'], 'd'),
+                                inputPressureUnits, 'hPa')
     else:
         LOG.debug("Determining poci")
         eps = np.random.normal(0, scale=2.5717)
-- 
2.43.0


From 20124e846a81d49084c508033c6fd63a507c4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 040/129] fix: treat blank pressures in track files as missing

A blank is read as NaN, which passed the test for non-physical values
and reached the initial pressures and the minimum pressure of a storm.
---
 DataProcess/DataProcess.py | 3 ++-
 Utilities/loadData.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index ad4580e..a004064 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -277,7 +277,8 @@ class DataProcess(object):
         # Convert any non-physical central pressure values to maximum integer
         # This is required because IBTrACS has a mix of missing value codes
         # (i.e. -999, 0, 9999) in the same global dataset.
-        pressure = np.where((pressure < 600) | (pressure > 1100),
+        pressure = np.where((pressure < 600) | (pressure > 1100) |
+                            np.isnan(pressure),
                             sys.maxsize, pressure)
 
         if self.progressbar is not None:
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 5a5e31d..f7dd850 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -753,7 +753,8 @@ def filterPressure(pressure, inputPressureUnits='hPa',
     # Convert any non-physical central pressure values to maximum integer
     # This is required because IBTrACS has a mix of missing value codes
     # (i.e. -999, 0, 9999) in the same global dataset.
-    pressure = np.where((pressure < 600) | (pressure > 1100),
+    pressure = np.where((pressure < 600) | (pressure > 1100) |
+                        np.isnan(pressure),
                         missingValue, pressure)
     return pressure
 
-- 
2.43.0


From c3e62bd3217be046ea2ba002f98b9090c93a2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 041/129] fix: load track files that hold a single observation

---
 Utilities/columns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/columns.py b/Utilities/columns.py
index 392121b..8a656fd 100644
--- a/Utilities/columns.py
+++ b/Utilities/columns.py
@@ -50,4 +50,5 @@ def colReadCSV(configFile, dataFile, source):
         raise TypeError(("{0} is not a string, filehandle "
                          "or generator.").format(dataFile))
 
-    return data
+    # A file with a single record is read as a 0-dimensional array
+    return np.atleast_1d(data)
-- 
2.43.0


From 6e2018acf1b06221bd5fbdb078a818df88b920ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 042/129] fix: measure eastward distance the short way around
 the globe

A step from 359.5E to 0.5E came out as 359 degrees to the west, so a
storm crossing that meridian had no valid speed and the wrong bearing.
---
 Utilities/maputils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 122e823..8fcc0c9 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -166,7 +166,9 @@ def latLon2XY(xr, yr, lat, lon, ieast=1, azimuth=0):
     sinazi = np.sin(angle)
 
     xntru = xr + radius * (np.diff(lat))
-    yetru = yr + ieast * radius * (np.diff(lon)) * np.cos(lat[1:])
+    # Take the shorter way around the globe:
+    dlon = np.mod(np.diff(lon) + np.pi, 2. * np.pi) - np.pi
+    yetru = yr + ieast * radius * dlon * np.cos(lat[1:])
     xn = xntru * cosazi + yetru * sinazi
     ye = -xntru * sinazi + yetru * cosazi
 
-- 
2.43.0


From 4d317317f0d3ee23871b084220deb3746b71651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 043/129] fix: use the configured date format when processing
 input data

The date format of the source was ignored, so only files using the
default format could be processed.
---
 DataProcess/DataProcess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index a004064..6a15f9d 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -197,6 +197,9 @@ class DataProcess(object):
         inputSpeedUnits = config.get(self.source, 'SpeedUnits')
         inputPressureUnits = config.get(self.source, 'PressureUnits')
         inputLengthUnits = config.get(self.source, 'LengthUnits')
+        inputDateFormat = '%Y-%m-%d %H:%M:%S'
+        if config.has_option(self.source, 'DateFormat'):
+            inputDateFormat = config.get(self.source, 'DateFormat')
         startSeason = config.getint('DataProcess', 'StartSeason')
 
         indicator = loadData.getInitialPositions(inputData)
@@ -237,7 +240,7 @@ class DataProcess(object):
                 pass
 
             year, month, day, hour, minute, datetimes \
-                = loadData.parseDates(inputData, indicator)
+                = loadData.parseDates(inputData, indicator, inputDateFormat)
 
             # Time between observations:
             dt = loadData.getTimeDelta(year, month, day, hour, minute)
-- 
2.43.0


From b8c8b863ae94694483b58d56b1cb74f36c40e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 044/129] fix: mark wind speeds as missing when the input has
 none

The list was written from uninitialised memory.
---
 DataProcess/DataProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 6a15f9d..d6246d3 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -291,7 +291,7 @@ class DataProcess(object):
             vmax = np.array(inputData['vmax'], 'float32')
         except (ValueError, KeyError):
             self.logger.warning("No max wind speed data")
-            vmax = np.empty(indicator.size, 'f')
+            vmax = np.full(indicator.size, sys.maxsize, 'f')
         else:
             novalue_index = np.where(vmax == sys.maxsize)
             vmax = metutils.convert(vmax, inputSpeedUnits, "mps")
-- 
2.43.0


From ce5fc5d9ddaabcc74740891830368f9cc78038de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:01 +0000
Subject: [PATCH 045/129] fix: process input data that give the age of the
 storm

No dates were derived for such data, so processing failed when the
frequency and day of year were calculated.
---
 DataProcess/DataProcess.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index d6246d3..576b0e4 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -224,6 +224,9 @@ class DataProcess(object):
         try:
             dt = np.empty(indicator.size, 'f')
             dt[1:] = np.diff(inputData['age'])
+            year, month, day, hour, minute, datetimes \
+                = loadData.parseAge(inputData, indicator)
+            jdays = loadData.julianDays(year, month, day, hour, minute)
         except (ValueError, KeyError):
 
             try:
-- 
2.43.0


From fc001a21a9cb1c09f81ad89651336d1b6d9365b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:54 +0000
Subject: [PATCH 046/129] fix: keep the values of packed netCDF variables

Values unpacked with scale_factor and add_offset were cast back to the
integer type of the packed data, losing the fraction and overflowing.
---
 Utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index bb68bbc..aa5fa3f 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -139,7 +139,7 @@ def ncGetData(ncobj, var):
     # Get the data:
     d = varobj[:]
 
-    data = np.array(d, copy=True, dtype=varobj.dtype)
+    data = np.array(d, copy=True)
 
     return data
 
-- 
2.43.0


From 32710ec22499510ee4a95a0e42f01f10080ee5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:54 +0000
Subject: [PATCH 047/129] fix: sample the mean sea level pressure at the right
 latitude

The reanalysis data run from north to south, but were sampled as if they
ran from south to north, giving the pressure of the other hemisphere.
---
 TrackGenerator/TrackGenerator.py | 6 ++++++
 Utilities/loadData.py            | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index a9a3fac..edd0512 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -178,6 +178,12 @@ class SamplePressure(object):
     def __init__(self, mslp_file, var='slp'):
         ncobj = nctools.ncLoadFile(mslp_file)
         data = nctools.ncGetData(ncobj, var)
+        # The interpolation assumes rows run from south to north:
+        latname = ncobj.variables[var].dimensions[1]
+        if latname in ncobj.variables:
+            latvals = nctools.ncGetDims(ncobj, latname)
+            if latvals[0] > latvals[-1]:
+                data = data[:, ::-1, :]
         slpunits = getattr(ncobj.variables[var], 'units')
         data = metutils.convert(data, slpunits, 'hPa')
         self.data = spline_filter(data)
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index f7dd850..b0be1e0 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -658,6 +658,12 @@ def ltmPressure(jdays, time, lon, lat, ncfile, ncvar='slp'):
     slpunits = getattr(ncobj.variables[ncvar], 'units')
 
     data = nctools.ncGetData(ncobj, ncvar)
+    # The interpolation assumes rows run from south to north:
+    latname = ncobj.variables[ncvar].dimensions[1]
+    if latname in ncobj.variables:
+        latvals = nctools.ncGetDims(ncobj, latname)
+        if latvals[0] > latvals[-1]:
+            data = data[:, ::-1, :]
     # Get the MSLP by interpolating to the location of the TC:
     penv = interp3d.interp3d(data, coords, scale=[365., 180., 360.],
                              offset=[0., -90., 0.])
-- 
2.43.0


From c440aff06d002b66c7656cb264419ce37c98025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:39 +0000
Subject: [PATCH 048/129] fix: return one whole period from periodic
 distributions

The central copy of the grid was located with int(periodic/kdeStep). When
the step does not divide the period, that is smaller than the number of
grid points, so the table started in the previous period and stopped short
of the end of the year.
---
 StatInterface/KDEParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StatInterface/KDEParameters.py b/StatInterface/KDEParameters.py
index 6f339ed..e70d7e7 100644
--- a/StatInterface/KDEParameters.py
+++ b/StatInterface/KDEParameters.py
@@ -153,7 +153,7 @@ class KDEParameters(object):
         self.pdf = self._generatePDF(self.grid, bw, self.parameters)
 
         if periodic:
-            idx = int(periodic/kdeStep)
+            idx = x.size
             self.pdf = 3.0*self.pdf[idx:2*idx]
             self.grid = self.grid[idx:2*idx]
 
-- 
2.43.0


From d6d59a34f525eae6074f551dd52b0428d177d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:39 +0000
Subject: [PATCH 049/129] fix: base the genesis day distribution on the genesis
 days

generateGenesisDateCDF loaded the genesis days and then estimated the
density from self.parameters, which is whatever generateKDE processed last
or missing altogether.
---
 StatInterface/KDEParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StatInterface/KDEParameters.py b/StatInterface/KDEParameters.py
index e70d7e7..f89aa02 100644
--- a/StatInterface/KDEParameters.py
+++ b/StatInterface/KDEParameters.py
@@ -194,9 +194,9 @@ class KDEParameters(object):
         ndata = np.concatenate([data - 365, data, data + 365])
 
         if bw is None:
-            bw = stats.bandwidth(self.parameters)
+            bw = stats.bandwidth(ndata)
 
-        kde = sm.nonparametric.KDEUnivariate(self.parameters)
+        kde = sm.nonparametric.KDEUnivariate(ndata)
         kde.fit(kernel=self.kdeType, bw=bw, fft=False, 
                 gridsize=len(ndays), clip=(min(ndays), max(ndays)), cut=0)
         #try:
-- 
2.43.0


From d2284bb62f32dee9bacc76b4d1ae7e6fa19e72d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:39 +0000
Subject: [PATCH 050/129] fix: set genesis density from arrays or an output
 folder

setKDEOrigins read a non-existent attribute when given an output folder,
and tried to open an array as a file when given arrays.
---
 StatInterface/SamplingOrigin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/StatInterface/SamplingOrigin.py b/StatInterface/SamplingOrigin.py
index eb8e106..84d1576 100644
--- a/StatInterface/SamplingOrigin.py
+++ b/StatInterface/SamplingOrigin.py
@@ -89,7 +89,7 @@ class SamplingOrigin(object):
         """
         if outputPath:
             try:
-                self.x, self.y, self.z = grdRead(pjoin(self.outputPath,
+                self.x, self.y, self.z = grdRead(pjoin(outputPath,
                                                        'originPDF.txt'))
             except IOError:
                 LOG.critical(('Error! Files relating to KDE of cyclone '
@@ -109,7 +109,9 @@ class SamplingOrigin(object):
                 raise
             self._calculateCDF()
         elif isinstance(kdeOriginZ, np.ndarray):
-            self.x, self.y, self.z = grdRead(kdeOriginZ)
+            self.x = kdeOriginX
+            self.y = kdeOriginY
+            self.z = kdeOriginZ
             self._calculateCDF()
         else:
             LOG.error("No input arguments")
-- 
2.43.0


From f8b1f4a10078c9714d609cd793cc2ab43e077cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:39 +0000
Subject: [PATCH 051/129] fix: save the genesis density when locations are
 passed in

The output folder was only set when the genesis locations were read from
file, so generateKDE(save=True) failed for locations given as an array.
---
 StatInterface/KDEOrigin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/StatInterface/KDEOrigin.py b/StatInterface/KDEOrigin.py
index e043825..8ea1f71 100644
--- a/StatInterface/KDEOrigin.py
+++ b/StatInterface/KDEOrigin.py
@@ -82,10 +82,12 @@ class KDEOrigin(object):
         self.config = ConfigParser()
         self.config.read(configFile)
 
-        if lonLat is None:
-            # Load the data from file:
+        if self.config.has_option('Output', 'Path'):
             self.outputPath = self.config.get('Output', 'Path')
             self.processPath = pjoin(self.outputPath, 'process')
+
+        if lonLat is None:
+            # Load the data from file:
             LOGGER.debug("Loading " + pjoin(self.processPath, 'init_lon_lat'))
             ll = flLoadFile(pjoin(self.processPath, 'init_lon_lat'), '%', ',')
             self.lonLat = ll[:, 0:2]
-- 
2.43.0


From cb0accea5a951bc2558d01a08bcf8fe900ea1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:39 +0000
Subject: [PATCH 052/129] fix: save the genesis cumulative distribution on its
 grid

The values were written to the (lat, lon) variable as a flat array.
---
 StatInterface/KDEOrigin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StatInterface/KDEOrigin.py b/StatInterface/KDEOrigin.py
index 8ea1f71..fe202a2 100644
--- a/StatInterface/KDEOrigin.py
+++ b/StatInterface/KDEOrigin.py
@@ -236,7 +236,7 @@ class KDEOrigin(object):
                 0: {
                     'name': 'gcdf',
                     'dims': ('lat', 'lon'),
-                    'values': np.array(self.cz),
+                    'values': np.array(self.cz).reshape(xx.shape),
                     'dtype': 'f',
                     'atts': {
                         'long_name': ('TC Genesis cumulative '
-- 
2.43.0


From e30795181b135feb2df0d8c5de544a0dcd124d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:39 +0000
Subject: [PATCH 053/129] fix: select grid values inside a cell in
 statCellFraction

Indexing with the list returned by meshgrid is no longer treated as an
index per axis, so the call failed.
---
 Utilities/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/stats.py b/Utilities/stats.py
index aa030f7..3a70816 100644
--- a/Utilities/stats.py
+++ b/Utilities/stats.py
@@ -264,7 +264,7 @@ def statCellFraction(gridLimit, gridSpace, valueFile):
 
         ii = np.where((gLon <= eLon) & (gLon >= wLon))
         jj = np.where((gLat <= nLat) & (gLat >= sLat))
-        cellValues = gData[np.meshgrid(jj[0], ii[0])]
+        cellValues = gData[np.ix_(jj[0], ii[0])]
 
         if abs(cellValues).max() == 0:
             output[cellNum] = np.average(cellValues)
-- 
2.43.0


From 717712c5b450272e79fa7cf085d4ca04312ed10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:41 +0000
Subject: [PATCH 054/129] fix: estimate densities of samples with few distinct
 values

The automatic bandwidth is chosen from the values strictly inside the grid.
When the other values are all equal, or there are none, the estimate failed
although the sample is not constant. Use the bandwidth of the whole sample
in that case.
---
 StatInterface/KDEParameters.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/StatInterface/KDEParameters.py b/StatInterface/KDEParameters.py
index f89aa02..477b404 100644
--- a/StatInterface/KDEParameters.py
+++ b/StatInterface/KDEParameters.py
@@ -239,9 +239,15 @@ class KDEParameters(object):
 
         kde = sm.nonparametric.KDEUnivariate(dataset)
 
-        kde.fit(kernel=self.kdeType, fft=False, 
-                gridsize=len(grid), clip=(min(grid), max(grid)), cut=0)
-        
+        try:
+            kde.fit(kernel=self.kdeType, fft=False,
+                    gridsize=len(grid), clip=(min(grid), max(grid)), cut=0)
+        except (RuntimeError, ZeroDivisionError):
+            # The automatic bandwidth ignores values on the bounds of the
+            # grid. It is undefined if there is no spread in the remainder.
+            kde.fit(kernel=self.kdeType, bw=bw, fft=False,
+                    gridsize=len(grid), cut=0)
+
         try:
             pdf = np.squeeze(kde.evaluate(grid))
             if pdf.ndim == 0 or pdf.size != len(grid):
-- 
2.43.0


From 4a377500aa0f3849981703d91a3c64fa74181c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:19 +0000
Subject: [PATCH 055/129] fix: great circle distance between coincident points

Rounding can make the cosine of the angular distance slightly larger than
one when both points are the same, so that distGC failed with a math
domain error.
---
 Utilities/maputils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 8fcc0c9..ba7cfcf 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -195,9 +195,11 @@ def distGC(lat, lon):
     lat = np.radians(lat)
     lon = np.radians(lon)
 
-    angular_distance = math.acos(math.sin(lat[0]) * math.sin(lat[1]) + \
-                       math.cos(lat[0]) * math.cos(lat[1]) * \
-                       math.cos(lon[0] - lon[1]))
+    cos_distance = math.sin(lat[0]) * math.sin(lat[1]) + \
+                   math.cos(lat[0]) * math.cos(lat[1]) * \
+                   math.cos(lon[0] - lon[1])
+    # Rounding can take this just outside the valid range:
+    angular_distance = math.acos(min(1., max(-1., cos_distance)))
 
     return radius*angular_distance
 
-- 
2.43.0


From 2439200f1a5db8035e714f77a3ce9b772dcac17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:19 +0000
Subject: [PATCH 056/129] fix: cross-track distance from a great circle

dist2GC passed longitudes as latitudes and subtracted the (bearing,
distance) pair, in degrees, from an array of bearings in radians.
---
 Utilities/maputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index ba7cfcf..c15f756 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -667,7 +667,7 @@ def dist2GC(cLon1, cLat1, cLon2, cLat2, lonArray, latArray, units="km"):
     bear_ = gridLatLonBear(cLon1, cLat1, lonArray, latArray)
 
     #bearing of the cyclone:
-    cyc_bear_ = latLon2Azi([cLon1, cLon2], [cLat1, cLat2])
+    cyc_bear_ = gridLatLonBear(cLon1, cLat1, [cLon2], [cLat2])
 
     dist2GC_ = np.arcsin(np.sin(dist_) * np.sin(bear_ - cyc_bear_))
 
-- 
2.43.0


From 636bcaf4755730b958228d321c86b88bbeb1ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:19 +0000
Subject: [PATCH 057/129] fix: put coordinate meshes on the points of the
 distance grids

makeGridDomain, meshLatLon and meshLatLonDomain truncated to whole
millidegrees, and the meshes could hold one row and column more, so they
did not match the grids of makeGrid for the same centre and margin.
---
 Utilities/maputils.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index c15f756..bc8ee79 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -470,6 +470,10 @@ def theta2bearing(theta):
 
     return bearing
 
+def millidegrees(value):
+    """Nearest whole number of millidegrees"""
+    return int(np.rint(1000. * value))
+
 def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
              minLat=None, maxLat=None):
     """
@@ -495,10 +499,6 @@ def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
         type(cLon)==np.ndarray or type(cLat)==np.ndarray):
         raise TypeError("Input values must be scalar values")
 
-    def millidegrees(value):
-        """Nearest whole number of millidegrees"""
-        return int(np.rint(1000. * value))
-
     gridSize = millidegrees(resolution)
     gridMargin = millidegrees(margin)
 
@@ -560,11 +560,12 @@ def makeGridDomain(cLon, cLat, minLon, maxLon, minLat, maxLat,
     if (type(cLon)==list or type(cLat)==list or
         type(cLon)==np.ndarray or type(cLat)==np.ndarray):
         raise TypeError("Input values must be scalar values")
-    gridSize = int(resolution * 1000)
-    minLon_ = int(1000 * (minLon)) - int(1000 * margin)
-    maxLon_ = int(1000 * (maxLon)) + int(1000 * margin) + 1
-    minLat_ = int(1000 * (minLat)) - int(1000 * margin)
-    maxLat_ = int(1000 * (maxLat)) + int(1000 * margin) + 1
+    gridSize = millidegrees(resolution)
+    gridMargin = millidegrees(margin)
+    minLon_ = millidegrees(minLon) - gridMargin
+    maxLon_ = millidegrees(maxLon) + gridMargin + 1
+    minLat_ = millidegrees(minLat) - gridMargin
+    maxLat_ = millidegrees(maxLat) + gridMargin + 1
 
     xGrid = np.array(np.arange(minLon_, maxLon_, gridSize), dtype=int)
     yGrid = np.array(np.arange(minLat_, maxLat_, gridSize), dtype=int)
@@ -593,12 +594,13 @@ def meshLatLon(cLon, cLat, margin=2, resolution=0.01):
     if (type(cLon)==list or type(cLat)==list or
         type(cLon)==np.ndarray or type(cLat)==np.ndarray):
         raise TypeError("Input values must be scalar values")
-    gridSize = int(1000 * resolution)
+    gridSize = millidegrees(resolution)
+    gridMargin = millidegrees(margin)
 
-    minLon = int(1000 * (cLon - margin))
-    maxLon = int(1000 * (cLon + margin)) + gridSize
-    minLat = int(1000 * (cLat - margin))
-    maxLat = int(1000 * (cLat + margin)) + gridSize
+    minLon = millidegrees(cLon) - gridMargin
+    maxLon = millidegrees(cLon) + gridMargin + 1
+    minLat = millidegrees(cLat) - gridMargin
+    maxLat = millidegrees(cLat) + gridMargin + 1
 
     xx = np.array(np.arange(minLon, maxLon, gridSize))
     yy = np.array(np.arange(minLat, maxLat, gridSize))
@@ -623,12 +625,13 @@ def meshLatLonDomain(minLon, maxLon, minLat, maxLat,
               vectors, covering the full domain, plus an additional
               margin of ``margin`` degrees.
     """
-    gridSize = int(1000 * resolution)
+    gridSize = millidegrees(resolution)
+    gridMargin = millidegrees(margin)
 
-    minLon_ = int(1000 * (minLon - margin))
-    maxLon_ = int(1000 * (maxLon + margin)) + gridSize
-    minLat_ = int(1000 * (minLat - margin))
-    maxLat_ = int(1000 * (maxLat + margin)) + gridSize
+    minLon_ = millidegrees(minLon) - gridMargin
+    maxLon_ = millidegrees(maxLon) + gridMargin + 1
+    minLat_ = millidegrees(minLat) - gridMargin
+    maxLat_ = millidegrees(maxLat) + gridMargin + 1
 
     xx = np.array(np.arange(minLon_, maxLon_, gridSize))
     yy = np.array(np.arange(minLat_, maxLat_, gridSize))
-- 
2.43.0


From 427dcac8a2f46834d3ad9d2168a07b9df3afe794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:02 +0000
Subject: [PATCH 058/129] fix: relative humidity from wet bulb temperature

The vapour pressure was in hPa and the saturation vapour pressure in kPa,
so the result was ten times too large and capped at 100%.
---
 Utilities/metutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 0226102..6a629d0 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -213,7 +213,7 @@ def wetBulbToRH(t_db, t_wb, elev):
     """
 
     # Calculate vapour pressure
-    vp = wetBulbToVapPr(t_db, t_wb, elev)
+    vp = wetBulbToVapPr(t_db, t_wb, elev, 'kPa')
     # Calculate the saturated vapour pressure at the dry bulb temperature
     sat_vp = satVapPr(t_db, 'kPa')
 
-- 
2.43.0


From 193b57db2bfdd12dec14a81eb659f537da0a5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:02 +0000
Subject: [PATCH 059/129] fix: recognise kmh and m/s as target units

The aliases were only handled for the input units. Converting to them
returned the value unchanged.
---
 Utilities/metutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 6a629d0..91946f6 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -394,6 +394,10 @@ def convert(value, inunits, outunits):
         inunits = 'kph'
     if inunits == "m/s":
         inunits = "mps"
+    if outunits == 'kmh':
+        outunits = 'kph'
+    if outunits == "m/s":
+        outunits = "mps"
 
     # Speeds:
     mps = {"kph":3.6, "kts":1.944, "mph":2.2369}
-- 
2.43.0


From 028d781bbf68ea40c69a3dea875fb7b3bd5f0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:02 +0000
Subject: [PATCH 060/129] fix: convert between any two units of the same
 quantity

Some pairs were missing from the conversion tables (for example Fahrenheit
to Kelvin, miles to nautical miles). Converting between them returned the
value unchanged.
---
 Utilities/metutils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index 91946f6..c7243a7 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -407,8 +407,8 @@ def convert(value, inunits, outunits):
 
     # Temperatures:
     C = {"F":1.8, "K":1.}
-    F = {"C":0.5556}
-    K = {"C":1.}
+    F = {"C":0.5556, "K":0.5556}
+    K = {"C":1., "F":1.8}
 
     # Pressures:
     kPa = {"hPa":10., "Pa":1000., "inHg":0.295299831, "mmHg":7.500615613,
@@ -418,8 +418,9 @@ def convert(value, inunits, outunits):
     Pa = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pascals":1.0}
     inHg = {"kPa":3.386388667, "hPa":33.863886667, "Pa":3386.388666667,
-            "mmHg":25.4}
-    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394}
+            "mmHg":25.4, "Pascals":3386.388666667}
+    mmHg = {"kPa":0.13332239, "hPa":1.3332239, "Pa":133.32239, "inHg":0.0394,
+            "Pascals":133.32239}
     pascals = {"kPa":0.001, "hPa":0.01, "inHg":0.0002953, "mmHg":0.007500616,
           "Pa":1.0}
 
@@ -430,9 +431,12 @@ def convert(value, inunits, outunits):
            "rad":math.pi/180.}
     m = {"km":0.001, "mi":0.000621371, "deg":0.00000899886, "nm":0.000539957,
          "rad":0.0000001570783}
-    mi = {"km":1.60934, "m":1609.34, "deg":0.014482}
-    nm = {"km":1.852, "m":1852, "deg":0.01666, "rad":math.pi/10800.}
-    rad = {"nm":10800./math.pi, "km":6366.248653, "deg":180./math.pi}
+    mi = {"km":1.60934, "m":1609.34, "deg":0.014482, "nm":0.868976,
+          "rad":0.00025279}
+    nm = {"km":1.852, "m":1852, "deg":0.01666, "mi":1.150779,
+          "rad":math.pi/10800.}
+    rad = {"nm":10800./math.pi, "km":6366.248653, "m":6366248.653,
+           "mi":3955.802, "deg":180./math.pi}
 
     # Mixing ratio:
     gkg = {"kgkg":0.001}
@@ -461,10 +465,12 @@ def convert(value, inunits, outunits):
                "kgkg":kgkg}
 
     # Additions required before multiplication:
-    convert_pre = {"F":{"C":-32.}}
+    convert_pre = {"F":{"C":-32., "K":-32.},
+                   "K":{"F":-273.}}
     # Additions required after multiplication:
     convert_post = {"C":{"K":273., "F":32.},
-                    "K":{"C":-273.}}
+                    "F":{"K":273.},
+                    "K":{"C":-273., "F":32.}}
 
     if inunits in convert_pre:
         if outunits in convert_pre[inunits]:
-- 
2.43.0


From 406492e15d62a5903fc4c0ebdcc11429ed87000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:10 +0000
Subject: [PATCH 061/129] fix: convert geographic coordinates to UTM

The longitude argument had been replaced by the int builtin, so every call
to LLtoUTM failed.
---
 Utilities/lat_long_UTM_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/lat_long_UTM_conversion.py b/Utilities/lat_long_UTM_conversion.py
index 9261d4f..3ac000a 100644
--- a/Utilities/lat_long_UTM_conversion.py
+++ b/Utilities/lat_long_UTM_conversion.py
@@ -94,7 +94,7 @@ def LLtoUTM(lat, long, reference_ellipsoid=23, ZoneNumber=None):
     k0 = 0.9996
 
     # Make sure the longitude is between -180.00 .. 179.9
-    longTemp = (int+180)-int((int+180)/360)*360-180  # -180.00 .. 179.9
+    longTemp = (long+180)-int((long+180)/360)*360-180  # -180.00 .. 179.9
 
     latRad = lat*_deg2rad
     longRad = longTemp*_deg2rad
-- 
2.43.0


From 7b2029f66e98c9e26c851e5a0a93b16887da919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:49 +0000
Subject: [PATCH 062/129] fix: convert UTM coordinates to geographic

The longitude had been replaced by the int builtin, so every call to
UTMtoLL failed.
---
 Utilities/lat_long_UTM_conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/lat_long_UTM_conversion.py b/Utilities/lat_long_UTM_conversion.py
index 3ac000a..3b0f9ce 100644
--- a/Utilities/lat_long_UTM_conversion.py
+++ b/Utilities/lat_long_UTM_conversion.py
@@ -278,8 +278,8 @@ def UTMtoLL(northing, easting, zone, isSouthernHemisphere=True,
 
     long = (D-(1+2*T1+C1)*D*D*D/6+(5-2*C1+28*T1-3*C1*C1+8*eccPrimeSquared+24*T1*T1)
             *D*D*D*D*D/120)/cos(phi1Rad)
-    long = longOrigin + int * _rad2deg
-    return (lat, int)
+    long = longOrigin + long * _rad2deg
+    return (lat, long)
 
 if __name__ == '__main__':
     (z, e, n) = LLtoUTM(45.00, -75.00, 23)
-- 
2.43.0


From c73728b1a421fa8ef07c27468496831ed389a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:49 +0000
Subject: [PATCH 063/129] fix: save ascii grids over existing files and to file
 handles

Overwriting a file used the file builtin, which no longer exists, gzip
files were opened for bytes but written as text, and a file handle was
passed to os.path.isfile.
---
 Utilities/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/grid.py b/Utilities/grid.py
index afe3e4d..1bf462a 100644
--- a/Utilities/grid.py
+++ b/Utilities/grid.py
@@ -63,12 +63,12 @@ def grdSave(filename, data, lon, lat, delta, delimiter=' ', nodata=-9999,
                  nodata=-9999, fmt='%.10e, coords='latlon')
     """
 
-    if filename and os.path.isfile(filename):
+    if isinstance(filename, str) and os.path.isfile(filename):
         if filename.endswith('.gz'):
             import gzip
-            fh = gzip.open(filename, 'wb')
+            fh = gzip.open(filename, 'wt')
         else:
-            fh = file(filename, 'w')
+            fh = open(filename, 'w')
     elif hasattr(filename, 'seek'):
         fh = filename
     else:
-- 
2.43.0


From ae63a610dc3e14bbc4179a9200821a817a26e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:30 +0000
Subject: [PATCH 064/129] fix: leave the array passed to convert unchanged

Conversions that start with an offset, such as Fahrenheit to Celsius,
added it to the caller's array in place.
---
 Utilities/metutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/metutils.py b/Utilities/metutils.py
index c7243a7..67f299a 100644
--- a/Utilities/metutils.py
+++ b/Utilities/metutils.py
@@ -386,7 +386,7 @@ def convert(value, inunits, outunits):
 
     """
     startValue = value
-    value = ma.array(value, dtype=float)
+    value = ma.array(value, dtype=float, copy=True)
     if inunits == outunits:
         # Do nothing:
         return value
-- 
2.43.0


From c06b6e34085f405304894b7a86c057374d37403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:30 +0000
Subject: [PATCH 065/129] fix: parse all options when listing a section

Option names are lower case when a section is listed, so the parsers
registered with capitals were never used and the options came back as text.
---
 Utilities/config.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index 10a65ee..b196ee3 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -84,7 +84,7 @@ PARSERS = {
     'Hazard_samplesize': int,
     'Hazard_percentilerange': int,
     'Hazard_extremevaluedistribution': str,
-    'Hazard_SmoothPlots': parseBool,
+    'Hazard_smoothplots': parseBool,
     'Input_landmask': str,
     'Input_locationfile': str,
     'Input_mslpgrid': parseList,
@@ -117,10 +117,10 @@ PARSERS = {
     'TCRM_numberofheadinglines': int,
     'TCRM_pressureunits': str,
     'TCRM_speedunits': str,
-    'Timeseries_Extract': parseBool,
-    'Timeseries_LocationFile': str,
-    'Timeseries_StationID': str,
-    'Timeseries_Windfields': parseBool,
+    'Timeseries_extract': parseBool,
+    'Timeseries_locationfile': str,
+    'Timeseries_stationid': str,
+    'Timeseries_windfields': parseBool,
     'TrackGenerator_numsimulations': int,
     'TrackGenerator_seasonseed': int,
     'TrackGenerator_trackseed': int,
-- 
2.43.0


From 12635ff81d7472063ec8be1ba04fa1339ccba585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:43 +0000
Subject: [PATCH 066/129] fix: format list options however their name is
 capitalised

Setting MSLPGrid or Columns to a list stored the list itself, which can
neither be read back as text nor be written to a file.
---
 Utilities/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index b196ee3..0770031 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -325,7 +325,7 @@ class _ConfigParser(RawConfigParser):
         """
 
         try:
-            formatter = FORMATERS['%s_%s' % (section, option)]
+            formatter = FORMATERS['%s_%s' % (section, self.optionxform(option))]
             newvalue = formatter(value)
         except KeyError:
             newvalue = value
-- 
2.43.0


From 3975ced6ed7f7541881ef7d109780b7c1a4bea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:43 +0000
Subject: [PATCH 067/129] fix: report whether the dat file was deleted

os.unlink returns nothing, so a deleted file was always reported as
not deleted, and one that could not be deleted raised an error.
---
 Utilities/process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utilities/process.py b/Utilities/process.py
index 02cc2ec..2d4a692 100644
--- a/Utilities/process.py
+++ b/Utilities/process.py
@@ -158,10 +158,12 @@ def pDeleteDatFile():
     """
 
     rc = 0
-    if os.unlink(GLOBAL_DATFILE):
-        rc = 1
-    else:
+    try:
+        os.unlink(GLOBAL_DATFILE)
+    except (OSError, TypeError):
         LOGGER.warning("Cannot remove dat file %s", GLOBAL_DATFILE)
+    else:
+        rc = 1
     return rc
 
 def pAlreadyProcessed(directory, filename, attribute, value):
-- 
2.43.0


From 57df339e6153c028358502d462912fee0744b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:43 +0000
Subject: [PATCH 068/129] fix: allow archive timestamps to be turned off

Passing False was taken as a request for the current value, so the flag
could never be cleared.
---
 Utilities/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/process.py b/Utilities/process.py
index 2d4a692..a4c014b 100644
--- a/Utilities/process.py
+++ b/Utilities/process.py
@@ -238,7 +238,7 @@ def pArchiveDateFormat(date_format=None):
     return rc
 
 
-def pArchiveTimestamp(timestamp=False):
+def pArchiveTimestamp(timestamp=None):
     """
     Set or get archive timstamp flag. If the flag is `True`, then
     files that are to be archived will have a timestamp inserted into
@@ -251,7 +251,7 @@ def pArchiveTimestamp(timestamp=False):
 
     """
     global GLOBAL_TIMESTAMP
-    if timestamp:
+    if timestamp is not None:
         GLOBAL_TIMESTAMP = timestamp
     rc = GLOBAL_TIMESTAMP
     return rc
-- 
2.43.0


From 57faa411b8af789bf8ab5e17ada6b3583794ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:30 +0000
Subject: [PATCH 069/129] fix: pair track passages with wind speeds at the same
 location

The passage query joined on the event alone, so each passage was returned
once for every location in the database, with the other locations' winds.
---
 database/queries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/database/queries.py b/database/queries.py
index 6e93edb..a4b9cc1 100644
--- a/database/queries.py
+++ b/database/queries.py
@@ -123,6 +123,7 @@ def locationPassage(hazard_db, locId, distance=50):
              "INNER JOIN tblTracks t "
              "ON l.locId = t.locId "
              "JOIN tblWindSpeed w on w.eventId = t.eventId "
+             "AND w.locId = t.locId "
              "JOIN tblEvents e on e.eventId = t.eventId "
              "WHERE t.distClosest < ? and l.locId = ?")
     cur = hazard_db.execute(query, (distance, locId))
-- 
2.43.0


From 4204f1128e1de97bf8865535de858007124054c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:30 +0000
Subject: [PATCH 070/129] fix: store track file name and version of events as
 text

The encoded values were stored as blobs in text columns, so they could
not be matched in queries and came back as bytes.
---
 database/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index c4eb941..baf15f7 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -111,11 +111,9 @@ def windfieldAttributes(ncobj):
     trackfiledate = getattr(ncobj, 'track_file_date')
     trackfiledate = datetime.strptime(trackfiledate, '%Y-%m-%d %H:%M:%S')
     tcrm_vers = getattr(ncobj, 'tcrm_version')
-    trackfile = unicodedata.normalize("NFKD",
-                                      trackfile).encode('utf-8', 'ignore')
+    trackfile = unicodedata.normalize("NFKD", trackfile)
     trackfile = os.path.basename(trackfile)
-    tcrm_vers = unicodedata.normalize("NFKD",
-                                      tcrm_vers).encode('utf-8', 'ignore')
+    tcrm_vers = unicodedata.normalize("NFKD", tcrm_vers)
     slpobj = ncobj.variables['slp']
     minslp = getattr(slpobj, 'actual_range')[0]
 
-- 
2.43.0


From a6ad0ab30ada7cfdedbcd5f3332d085f01eba42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:30 +0000
Subject: [PATCH 071/129] fix: build event records from event wind fields only

The wind field folder can hold other files, such as the evolution of an
event, which stopped the database being built. Event numbers no longer
depend on the order the folder is listed in.
---
 database/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index baf15f7..7d196ec 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -35,6 +35,7 @@ TODO::
 
 import os
 from os.path import join as pjoin
+import fnmatch
 import logging
 import sqlite3
 from sqlite3 import PARSE_DECLTYPES, PARSE_COLNAMES, IntegrityError
@@ -271,7 +272,8 @@ class _HazardDatabase(sqlite3.Connection):
         """
         log.info("Inserting records into tblEvents")
 
-        fileList = os.listdir(self.windfieldPath)
+        fileList = fnmatch.filter(sorted(os.listdir(self.windfieldPath)),
+                                  'gust.*.nc')
         fileList = [f for f in fileList if
                     os.path.isfile(pjoin(self.windfieldPath, f))]
 
@@ -358,7 +360,8 @@ class _HazardDatabase(sqlite3.Connection):
 
         """
         status = MPI.Status()
-        fileList = os.listdir(self.windfieldPath)
+        fileList = fnmatch.filter(sorted(os.listdir(self.windfieldPath)),
+                                  'gust.*.nc')
         fileList = [f for f in fileList if
                     os.path.isfile(pjoin(self.windfieldPath, f))]
 
-- 
2.43.0


From 360b199b661c63592651f52c6f2056ae3314976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:30 +0000
Subject: [PATCH 072/129] fix: open event files when filling the event table

The attributes were requested from the file name instead of the file.
---
 database/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/__init__.py b/database/__init__.py
index 7d196ec..af033cd 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -286,8 +286,10 @@ class _HazardDatabase(sqlite3.Connection):
             fname = pjoin(self.windfieldPath, f)
             si = os.stat(fname)
             dtWindfieldFile = datetime.fromtimestamp(int(si.st_mtime))
+            ncobj = Dataset(fname)
             trackfile, dtTrackFile, tcrm_version, minslp, maxwind = \
-                windfieldAttributes(fname)
+                windfieldAttributes(ncobj)
+            ncobj.close()
             params.append(("%06d"%n, eventId, os.path.basename(fname),
                            trackfile, float(maxwind), float(minslp),
                            dtTrackFile, dtWindfieldFile, tcrm_version,
-- 
2.43.0


From aa1987acf5300f6d082a4f8666fea4939de44e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:33 +0000
Subject: [PATCH 073/129] fix: keep combined multipliers missing where a
 component is missing

The data under the mask was written, which is the terrain multiplier when
the topographic or shielding value is the missing one.
---
 ProcessMultipliers/processMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f45e1eb..289357c 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -311,7 +311,7 @@ class getMultipliers():
             CopyDatasetInfo(ds1, dsOut)
             bandOut = dsOut.GetRasterBand(1)
             bandOut.SetNoDataValue(-9999)
-            BandWriteArray(bandOut, dataOut.data)
+            BandWriteArray(bandOut, dataOut.filled(-9999))
 
     @timer
     def build_combined_multipliers_for_all_directions(self, output_path):
-- 
2.43.0


From 53c5e9130f7a965efce41a6c3abf779ea8e74b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:33 +0000
Subject: [PATCH 074/129] fix: leave the nodata value of the matched raster
 alone

Only its geometry is used, but the nodata value of the multiplier file was
replaced (and stored beside it), so its missing values were then used as
multipliers.
---
 ProcessMultipliers/processMultipliers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 289357c..93a8504 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -775,8 +775,6 @@ def reprojectDataset(src_file, match_filename, dst_filename,
         match_ds = gdal.Open(match_filename, gdal.GA_ReadOnly)
     else:
         match_ds = match_filename
-    matchBand = match_ds.GetRasterBand(1)
-    matchBand.SetNoDataValue(-9999)
 
     if match_projection:
         srs = osr.SpatialReference()
-- 
2.43.0


From abd848d670d92038550b22a78f28f70b26ed1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:33 +0000
Subject: [PATCH 075/129] fix: do not wait for segments another thread has
 taken

A thread could find the queue occupied and then wait forever because the
last segment was taken by another thread in between.
---
 ProcessMultipliers/processMultipliers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 93a8504..a7e2fa4 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1057,8 +1057,12 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
 
 
 def call_process_multiplier_segment(segment_queue, source_dir_band, wind_prj, bear_prj, dst_band):
-    while not segment_queue.empty():
-        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
+    while True:
+        try:
+            segment = segment_queue.get_nowait()
+        except queue.Empty:
+            break
+        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
 
 
 def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band):
-- 
2.43.0


From e6b60ce726300c3a7a57071b13847b8e7daa3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:33 +0000
Subject: [PATCH 076/129] fix: apply the northerly multiplier to bearings
 rounded to 360

Such bearings fell in no sector, giving no local wind.
---
 ProcessMultipliers/processMultipliers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index a7e2fa4..6bad6e7 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -871,6 +871,8 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
 
     wind_data = wind_prj.ReadAsArray()
     bear_data = bear_prj.ReadAsArray()
+    # Bearings just below 360 are rounded up in single precision:
+    bear_data[bear_data >= 360.] -= 360.
     uu_data = uu_prj.ReadAsArray()
     vv_data = vv_prj.ReadAsArray()
     bearing = calculateBearing(uu_data, vv_data)
@@ -1095,6 +1097,8 @@ def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_b
         wind_data = wind_prj.ReadAsArray(x_offset, y_offset, width, height)
     with threadLock_bear:
         bear_data = bear_prj.ReadAsArray(x_offset, y_offset, width, height)
+    # Bearings just below 360 are rounded up in single precision:
+    bear_data[bear_data >= 360.] -= 360.
     m4_all = loadAllBandArrayData(source_dir_band, segment_info=segment)
     local = np.zeros([height, width], dtype='float32')
     for i in list(indices.keys()):
-- 
2.43.0


From 5f89c163271c307100bd24408717d36c7283c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:46 +0000
Subject: [PATCH 077/129] fix: keep zeros in rasters

Blocks that are all zero were not stored, and took the missing value set
afterwards. Where there was no wind, the local wind speed was calculated
from the missing value.
---
 ProcessMultipliers/processMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 6bad6e7..fc215b9 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -621,8 +621,8 @@ def createRaster(array, x, y, dx, dy, epsg = 4326, filename=None, nodata=-9999):
     tempRaster.SetGeoTransform((originX, dx, 0,
                                 originY, 0, dy))
     tempBand = tempRaster.GetRasterBand(1)
-    tempBand.WriteArray(array[::int(np.sign(dy) * 1)])
     tempBand.SetNoDataValue(nodata)
+    tempBand.WriteArray(array[::int(np.sign(dy) * 1)])
     tempRasterSRS = osr.SpatialReference()
     tempRasterSRS.ImportFromEPSG(epsg)
     tempRaster.SetProjection(tempRasterSRS.ExportToWkt())
-- 
2.43.0


From 888b16052afb29ec819ff903b1f23b9f2adfafbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:21 +0000
Subject: [PATCH 078/129] fix: keep interpolated track times on whole minutes

Converting the output times through day numbers lost a few microseconds, so
the hour and minute of an interpolated record could be a minute early.
---
 Evaluate/interpolateTracks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index afbae57..195bbab 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -3,7 +3,6 @@ import logging
 import numpy as np
 
 from datetime import datetime, timedelta
-from matplotlib.dates import num2date, date2num 
 from scipy.interpolate import interp1d, splev, splrep
 
 from Utilities.maputils import latLon2Azi
@@ -84,6 +83,7 @@ def interpolate(track, delta, interpolation_type=None):
             day__ = [d._to_real_datetime() for d in day_]
             time_ = np.array([d.toordinal() + (d.hour + d.minute/60.)/24.
                               for d in day__], dtype=float)
+            day_ = day__
         else:
             raise
     dt_ = 24.0 * np.diff(time_)
@@ -95,9 +95,8 @@ def interpolate(track, delta, interpolation_type=None):
 
     newtime = np.arange(timestep[0], timestep[-1] + .01, delta)
     newtime[-1] = timestep[-1]
-    _newtime = (newtime / 24.) + time_[0] + date2num(np.datetime64('0000-12-31'))     #  Before Matplotlib 3.3, the epoch was 0000-12-31, later it changes to 1970-01-01 UTC 
-    newdates = num2date(_newtime) 
-    newdates = np.array([n.replace(tzinfo=None) for n in newdates])
+    newdates = np.array([day_[0] + timedelta(seconds=round(3600 * t))
+                         for t in newtime])
 
     if not hasattr(track, 'Speed'):
         idx = np.zeros(len(track.data))
-- 
2.43.0


From 0f0fdbd75fbfa04bb52473ead374db6a4891db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:21 +0000
Subject: [PATCH 079/129] fix: keep the start of tracks shorter than the
 interpolation step

A track lasting less than one output step was reduced to its final
observation.
---
 Evaluate/interpolateTracks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index 195bbab..1faa6be 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -94,6 +94,8 @@ def interpolate(track, delta, interpolation_type=None):
     timestep = 24.0*(time_ - time_[0])
 
     newtime = np.arange(timestep[0], timestep[-1] + .01, delta)
+    if newtime.size == 1:
+        newtime = timestep[[0, -1]]
     newtime[-1] = timestep[-1]
     newdates = np.array([day_[0] + timedelta(seconds=round(3600 * t))
                          for t in newtime])
@@ -108,9 +110,6 @@ def interpolate(track, delta, interpolation_type=None):
     # Find the indices of valid pressure observations:
     validIdx = np.where(track.CentralPressure < sys.maxsize)[0]
 
-    # FIXME: Need to address the issue when the time between obs is less
-    # than delta (e.g. only two obs 5 hrs apart, but delta = 6 hrs).
-
     if len(track.data) <= 3:
         # Use linear interpolation only (only a start and end point given):
         nLon = interp1d(timestep, track.Longitude, kind='linear')(newtime)
-- 
2.43.0


From 3e6d196ed0b4e2566869ea02fd4166042f2b2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:21 +0000
Subject: [PATCH 080/129] fix: use the true length of the last step for
 interpolated track speed

The last output step runs to the final observation and is longer than the
requested step when that does not divide the track duration.
---
 Evaluate/interpolateTracks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index 1faa6be..d60ca28 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -206,7 +206,7 @@ def interpolate(track, delta, interpolation_type=None):
         dist = np.zeros(newtime.size, dtype=float)
         dist[:-1] = dist_
         dist[-1] = dist_[-1]
-        nvFm = dist / delta
+        nvFm = dist / np.append(np.diff(newtime), newtime[-1] - newtime[-2])
 
     else:
         nvFm = track.Speed[-1]
-- 
2.43.0


From aa480b462a60cb5055191631b0f3dc38919bc283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:21 +0000
Subject: [PATCH 081/129] fix: keep the final observed pressure and wind of an
 interpolated track

The last valid output time repeated the value of the one before it.
---
 Evaluate/interpolateTracks.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index d60ca28..f912275 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -160,8 +160,8 @@ def interpolate(track, delta, interpolation_type=None):
             nLat = splev(newtime, splrep(timestep, track.Latitude, s=0), der=0)
 
         if len(validIdx) >= 2:
-            # No valid data at the final new time,
-            # would require extrapolation:
+            # Only interpolate between the first and last valid data,
+            # anything else would require extrapolation:
             firsttime = np.where(newtime >= timestep[validIdx[0]])[0][0]
             lasttime = np.where(newtime <= timestep[validIdx[-1]])[0][-1]
 
@@ -177,16 +177,14 @@ def interpolate(track, delta, interpolation_type=None):
                 nwSpd = np.zeros(len(newtime))
                 _npCentre = interp1d(timestep[validIdx],
                                      track.CentralPressure[validIdx],
-                                     kind='linear')(newtime[firsttime:lasttime])
+                                     kind='linear')(newtime[firsttime:lasttime + 1])
 
                 _nwSpd = interp1d(timestep[validIdx],
                                   track.WindSpeed[validIdx],
-                                  kind='linear')(newtime[firsttime:lasttime])
+                                  kind='linear')(newtime[firsttime:lasttime + 1])
 
-                npCentre[firsttime:lasttime] = _npCentre
-                nwSpd[firsttime:lasttime] = _nwSpd
-                npCentre[lasttime] = _npCentre[-1]
-                nwSpd[lasttime] = _nwSpd[-1]
+                npCentre[firsttime:lasttime + 1] = _npCentre
+                nwSpd[firsttime:lasttime + 1] = _nwSpd
 
         elif len(validIdx) == 1:
             npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
-- 
2.43.0


From c82ed950602029c61b3db17d39ef67c0ef96b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:21 +0000
Subject: [PATCH 082/129] fix: leave missing central pressures out of track
 interpolation

Missing pressures are stored as zero when a track file is loaded.  They were
interpolated with the valid ones, giving false very low pressures next to a
missing one.
---
 Evaluate/interpolateTracks.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index f912275..0b97830 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -108,7 +108,8 @@ def interpolate(track, delta, interpolation_type=None):
                                        track.Latitude, track.CentralPressure,
                                        track.EnvPressure)
     # Find the indices of valid pressure observations:
-    validIdx = np.where(track.CentralPressure < sys.maxsize)[0]
+    validIdx = np.where((track.CentralPressure > 0) &
+                        (track.CentralPressure < sys.maxsize))[0]
 
     if len(track.data) <= 3:
         # Use linear interpolation only (only a start and end point given):
@@ -116,12 +117,14 @@ def interpolate(track, delta, interpolation_type=None):
         nLat = interp1d(timestep, track.Latitude, kind='linear')(newtime)
 
         if len(validIdx) >= 2:
-            npCentre = interp1d(timestep,
-                                track.CentralPressure,
-                                kind='linear')(newtime)
-            nwSpd = interp1d(timestep,
-                             track.WindSpeed,
-                             kind='linear')(newtime)
+            npCentre = interp1d(timestep[validIdx],
+                                track.CentralPressure[validIdx],
+                                kind='linear', bounds_error=False,
+                                fill_value=0)(newtime)
+            nwSpd = interp1d(timestep[validIdx],
+                             track.WindSpeed[validIdx],
+                             kind='linear', bounds_error=False,
+                             fill_value=0)(newtime)
 
         elif len(validIdx) == 1:
             # If one valid observation, assume no change and
-- 
2.43.0


From 70d9670fcd1238624fca760a420d7331ebe98c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:19 +0000
Subject: [PATCH 083/129] fix: interpolate tracks that have no wind speed field

Tracks read from netCDF track files carry no wind speed. The test for it
looked for the translation speed instead, so they could not be interpolated.
---
 Evaluate/interpolateTracks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index 0b97830..8386185 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -100,7 +100,7 @@ def interpolate(track, delta, interpolation_type=None):
     newdates = np.array([day_[0] + timedelta(seconds=round(3600 * t))
                          for t in newtime])
 
-    if not hasattr(track, 'Speed'):
+    if 'WindSpeed' not in track.data.dtype.names:
         idx = np.zeros(len(track.data))
         idx[0] = 1
         # TODO: Possibly could change `np.mean(dt)` to `dt`?
-- 
2.43.0


From 97fe4b3e7ddddbe87b2115912b0cd38f70bacc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:19 +0000
Subject: [PATCH 084/129] fix: interpolate pressures when one output time lies
 between valid ones

The first valid pressure was used whatever the output time was.
---
 Evaluate/interpolateTracks.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index 8386185..82d3544 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -168,26 +168,18 @@ def interpolate(track, delta, interpolation_type=None):
             firsttime = np.where(newtime >= timestep[validIdx[0]])[0][0]
             lasttime = np.where(newtime <= timestep[validIdx[-1]])[0][-1]
 
-            if firsttime == lasttime:
-                # only one valid observation:
-                npCentre = np.zeros(len(newtime))
-                nwSpd = np.zeros(len(newtime))
-                npCentre[firsttime] = track.CentralPressure[validIdx[0]]
-                nwSpd[firsttime] = track.WindSpeed[validIdx[0]]
+            npCentre = np.zeros(len(newtime))
+            nwSpd = np.zeros(len(newtime))
+            _npCentre = interp1d(timestep[validIdx],
+                                 track.CentralPressure[validIdx],
+                                 kind='linear')(newtime[firsttime:lasttime + 1])
 
-            else:
-                npCentre = np.zeros(len(newtime))
-                nwSpd = np.zeros(len(newtime))
-                _npCentre = interp1d(timestep[validIdx],
-                                     track.CentralPressure[validIdx],
-                                     kind='linear')(newtime[firsttime:lasttime + 1])
-
-                _nwSpd = interp1d(timestep[validIdx],
-                                  track.WindSpeed[validIdx],
-                                  kind='linear')(newtime[firsttime:lasttime + 1])
-
-                npCentre[firsttime:lasttime + 1] = _npCentre
-                nwSpd[firsttime:lasttime + 1] = _nwSpd
+            _nwSpd = interp1d(timestep[validIdx],
+                              track.WindSpeed[validIdx],
+                              kind='linear')(newtime[firsttime:lasttime + 1])
+
+            npCentre[firsttime:lasttime + 1] = _npCentre
+            nwSpd[firsttime:lasttime + 1] = _nwSpd
 
         elif len(validIdx) == 1:
             npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
-- 
2.43.0


From 8710a74f3711f612fcb36d03915c4ea49cf37e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:19 +0000
Subject: [PATCH 085/129] fix: save tracks with different fields in one track
 file

The fields of the first track were used for all, so a single record read from
a track file could not be saved with interpolated tracks.
---
 Utilities/track.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 487b5d2..4513ada 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -306,16 +306,16 @@ def ncSaveTracks(trackfile, tracks,
 
     tgroup = ncobj.createGroup('tracks')
 
-    # Fidget with the dtype to convert :class:`datetime` objects to floats:
-    track_dtype = np.dtype(tracks[0].data.dtype)
-    dtidx = track_dtype.names.index('Datetime')
-    track_dtype = track_dtype.descr
-    track_dtype[dtidx] = ('Datetime', 'f8')
-    track_dtype = np.dtype(track_dtype)
-
     for n, t in enumerate(tracks):
         if len(t.data) == 0: # Empty track
             continue
+        # Fidget with the dtype to convert :class:`datetime` objects to floats:
+        track_dtype = np.dtype(t.data.dtype)
+        dtidx = track_dtype.names.index('Datetime')
+        track_dtype = track_dtype.descr
+        track_dtype[dtidx] = ('Datetime', 'f8')
+        track_dtype = np.dtype(track_dtype)
+
         tname = "tracks-{:04d}".format(n)
         tdata = tgroup.createGroup(tname)
         tdtype = tdata.createCompoundType(track_dtype, 'track_dtype')
-- 
2.43.0


From d330152dff506b70cd58ee45a9eb2dda3ed14705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:20 +0000
Subject: [PATCH 086/129] fix: split exported track lines at every crossing of
 0E

The observation before the crossing was dropped from the line, and tracks
moving west over 0E were not split, drawing a line around the globe.
---
 Utilities/shptools.py   | 18 ++++++++----------
 Utilities/tracks2shp.py | 18 ++++++++----------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/Utilities/shptools.py b/Utilities/shptools.py
index 81e4419..605ea7a 100644
--- a/Utilities/shptools.py
+++ b/Utilities/shptools.py
@@ -444,17 +444,15 @@ def tracks2line(tracks, outputFile, dissolve=False):
         if dissolve:
             if len(track.data) > 1:
                 dlon = np.diff(track.Longitude)
-                if dlon.min() < -180:
+                if np.abs(dlon).max() > 180:
                     # Track crosses 0E longitude - split track
                     # into multiple parts:
-                    idx = np.argmin(dlon)
-                    parts = []
-                    lines = zip(track.Longitude[:idx], track.Latitude[:idx])
-
-                    parts.append(lines)
-                    lines = zip(track.Longitude[idx + 1 :], track.Latitude[idx + 1 :])
-
-                    parts.append(lines)
+                    idx = np.where(np.abs(dlon) > 180)[0] + 1
+                    parts = [
+                        list(zip(lon, lat))
+                        for lon, lat in zip(np.split(track.Longitude, idx),
+                                            np.split(track.Latitude, idx))
+                    ]
                     sf.line(parts)
                 else:
                     lines = zip(track.Longitude, track.Latitude)
@@ -499,7 +497,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
             else:
                 for n in range(len(track.data) - 1):
                     dlon = track.Longitude[n + 1] - track.Longitude[n]
-                    if dlon < -180.0:
+                    if abs(dlon) > 180.0:
                         # case where the track crosses 0E:
                         segment = [
                             [
diff --git a/Utilities/tracks2shp.py b/Utilities/tracks2shp.py
index 5770fa8..929daa4 100644
--- a/Utilities/tracks2shp.py
+++ b/Utilities/tracks2shp.py
@@ -232,17 +232,15 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
         if dissolve:
             if len(track.data) > 1:
                 dlon = np.diff(track.Longitude)
-                if dlon.min() < -180:
+                if np.abs(dlon).max() > 180:
                     # Track crosses 0E longitude - split track
                     # into multiple parts:
-                    idx = np.argmin(dlon)
-                    parts = []
-                    lines = zip(track.Longitude[:idx], track.Latitude[:idx])
-
-                    parts.append(lines)
-                    lines = zip(track.Longitude[idx + 1 :], track.Latitude[idx + 1 :])  # noqa
-
-                    parts.append(lines)
+                    idx = np.where(np.abs(dlon) > 180)[0] + 1
+                    parts = [
+                        list(zip(lon, lat))
+                        for lon, lat in zip(np.split(track.Longitude, idx),
+                                            np.split(track.Latitude, idx))
+                    ]
                     sf.line(parts)
                 else:
                     lines = zip(track.Longitude, track.Latitude)
@@ -290,7 +288,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
             else:
                 for n in range(len(track.data) - 1):
                     dlon = track.Longitude[n + 1] - track.Longitude[n]
-                    if dlon < -180.0:
+                    if abs(dlon) > 180.0:
                         # case where the track crosses 0E:
                         segment = [
                             [
-- 
2.43.0


From da779ac328372f9e1c0afad0db02c93b9d953ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:20 +0000
Subject: [PATCH 087/129] fix: keep the dates of tracks exported to shapefiles

Exporting removed the dates from the tracks themselves.
---
 Utilities/tracks2shp.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Utilities/tracks2shp.py b/Utilities/tracks2shp.py
index 929daa4..44e1b0a 100644
--- a/Utilities/tracks2shp.py
+++ b/Utilities/tracks2shp.py
@@ -179,8 +179,8 @@ def tracks2point(tracks, outputFile, netcdf_format=False):
     LOG.debug("Processing {0} tracks".format(len(tracks)))
 
     for track in tracks:
-        track.data = recdropfields(track.data, ["Datetime"])
-        for lon, lat, rec in zip(track.Longitude, track.Latitude, track.data):
+        data = recdropfields(track.data, ["Datetime"])
+        for lon, lat, rec in zip(track.Longitude, track.Latitude, data):
             sf.point(lon, lat)
             sf.record(*rec)
 
@@ -227,7 +227,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
     LOG.debug("Processing {0} tracks".format(len(tracks)))
 
     for track in tracks:
-        track.data = recdropfields(track.data, ["Datetime"])
+        data = recdropfields(track.data, ["Datetime"])
 
         if dissolve:
             if len(track.data) > 1:
@@ -250,7 +250,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
                 sf.line([lines])
 
             if netcdf_format:
-                sf.record(*track.data[0])
+                sf.record(*data[0])
             else:
                 minPressure = track.trackMinPressure
                 maxWind = track.trackMaxWind
@@ -284,7 +284,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
                     ]
                 ]
                 sf.line(line)
-                sf.record(*track.data[0])
+                sf.record(*data[0])
             else:
                 for n in range(len(track.data) - 1):
                     dlon = track.Longitude[n + 1] - track.Longitude[n]
@@ -304,7 +304,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
                             ]
                         ]
                     sf.line(segment)
-                    sf.record(*track.data[n])
+                    sf.record(*data[n])
 
                 # Last point in the track:
                 sf.line(
@@ -315,7 +315,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
                         ]
                     ]
                 )
-                sf.record(*track.data[n + 1])
+                sf.record(*data[n + 1])
 
     try:
         sf.close()
-- 
2.43.0


From e1af3f3ffd3d7763d793cef6cc56391fb10a3207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:20 +0000
Subject: [PATCH 088/129] fix: leave dates out of the records of track
 shapefiles

The shapefiles have no date field, so all fields after it were shifted by one.
---
 Utilities/shptools.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Utilities/shptools.py b/Utilities/shptools.py
index 605ea7a..c4d1b94 100644
--- a/Utilities/shptools.py
+++ b/Utilities/shptools.py
@@ -15,6 +15,8 @@ import logging
 import shapefile
 import numpy as np
 
+from .tracks2shp import recdropfields
+
 
 log = logging.getLogger(__name__)
 log.addHandler(logging.NullHandler())
@@ -404,7 +406,8 @@ def tracks2point(tracks, outputFile):
     sf.fields = OBSFIELDS
 
     for track in tracks:
-        for x, y, rec in zip(track.Longitude, track.Latitude, track.data):
+        data = recdropfields(track.data, ["Datetime"])
+        for x, y, rec in zip(track.Longitude, track.Latitude, data):
             sf.point(x, y)
             sf.record(*rec)
 
@@ -441,6 +444,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
         sf.fields = OBSFIELDS
 
     for track in tracks:
+        data = recdropfields(track.data, ["Datetime"])
         if dissolve:
             if len(track.data) > 1:
                 dlon = np.diff(track.Longitude)
@@ -493,7 +497,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
                     ]
                 ]
                 sf.line(line)
-                sf.record(*track.data[0])
+                sf.record(*data[0])
             else:
                 for n in range(len(track.data) - 1):
                     dlon = track.Longitude[n + 1] - track.Longitude[n]
@@ -513,7 +517,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
                             ]
                         ]
                     sf.line(segment)
-                    sf.record(*track.data[n])
+                    sf.record(*data[n])
 
                 # Last point in the track:
                 sf.line(
@@ -524,7 +528,7 @@ def tracks2line(tracks, outputFile, dissolve=False):
                         ]
                     ]
                 )
-                sf.record(*track.data[n + 1])
+                sf.record(*data[n + 1])
 
     try:
         sf.close()
-- 
2.43.0


From b5ffeab7c3a8bcacdafe7962111d156362c310f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:20 +0000
Subject: [PATCH 089/129] fix: save track points by default in shpSaveTrackFile

The documented default was not recognised and nothing was saved.
---
 Utilities/shptools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/shptools.py b/Utilities/shptools.py
index c4d1b94..954b254 100644
--- a/Utilities/shptools.py
+++ b/Utilities/shptools.py
@@ -183,7 +183,7 @@ def shpSaveTrackFile(outputFile, tracks, fmt="point"):
 
     """
 
-    if fmt == "points":
+    if fmt in ("point", "points"):
         tracks2point(tracks, outputFile)
     elif fmt == "lines":
         tracks2line(tracks, outputFile, dissolve=True)
-- 
2.43.0


From 49339c9b39741350132ecc3228e4160adae73e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:20 +0000
Subject: [PATCH 090/129] fix: write shapes with the current pyshp interface

The writer no longer accepts parts by name, so no shape could be written.
The last vertex of every part was left out as well.
---
 Utilities/shptools.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/Utilities/shptools.py b/Utilities/shptools.py
index 954b254..f9ba545 100644
--- a/Utilities/shptools.py
+++ b/Utilities/shptools.py
@@ -146,16 +146,7 @@ def shpCreateFile(outputFile, shapes, data, shpType):
 
     # Add shapes and records:
     for r, s in zip(records, shapes):
-        if len(s.parts) > 1:
-            start = 0
-            new_parts = []
-            for p in s.parts[1:]:
-                new_parts.append(list(s.points[start : p - 1]))
-                start = p
-            new_parts.append(list(s.points[p:-1]))
-            w.poly(parts=new_parts)
-        else:
-            w.poly(parts=[s.points])
+        w.shape(s)
         w.record(*r)
 
     try:
@@ -228,16 +219,7 @@ def shpWriteShapeFile(outputFile, shpType, fields, shapes, records):
 
     # Add shapes and records:
     for rec, shp in zip(records, shapes):
-        if len(shp.parts) > 1:
-            start = 0
-            new_parts = []
-            for p in shp.parts[1:]:
-                new_parts.append(list(shp.points[start : p - 1]))
-                start = p
-            new_parts.append(list(shp.points[p:-1]))
-            w.poly(parts=new_parts)
-        else:
-            w.poly(parts=[shp.points])
+        w.shape(shp)
         w.record(*rec)
 
     try:
-- 
2.43.0


From 5fb1338df6688004176c1e483ce54a52e7e8fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:21 +0000
Subject: [PATCH 091/129] fix: write one record for each shape

The values of a whole field were written as the record of one shape.
---
 Utilities/shptools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utilities/shptools.py b/Utilities/shptools.py
index f9ba545..78479bf 100644
--- a/Utilities/shptools.py
+++ b/Utilities/shptools.py
@@ -107,7 +107,10 @@ def parseData(data):
             p = 0
 
         fields.append([k, nt, l, p])
-        records.append([data[k]["Data"]])
+        records.append(data[k]["Data"])
+
+    # One record for each feature
+    records = [list(r) for r in zip(*records)]
 
     return fields, records
 
-- 
2.43.0


From 260a933871326343357ba49c2d3f11e40a4c492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:53 +0000
Subject: [PATCH 092/129] fix: create netCDF variables with data

The truth of an array of several values is ambiguous, so creating a variable
with its data failed.
---
 Utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index aa5fa3f..64057ae 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -244,7 +244,7 @@ def ncCreateVar(ncobj, name, dimensions, dtype, data=None, atts=None, **kwargs):
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From 5b0fffa1a7b7e3e4b8bf28710db8d13adf4c0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:53 +0000
Subject: [PATCH 093/129] fix: leave the caller's global attributes unchanged
 when saving a grid

The attributes of one file were added to the dictionary of the caller, or to
the shared default. None is accepted as documented.
---
 Utilities/nctools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index 64057ae..e5de32d 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -379,6 +379,7 @@ def ncSaveGrid(filename, dimensions, variables, nodata=-9999,
         var.setncatts(v['atts'])
 
     # Additional global attributes:
+    gatts = dict(gatts or {})
     gatts['created_on'] = time.strftime(ISO_FORMAT, time.localtime())
     gatts['created_by'] = getpass.getuser()
     gatts['Conventions'] = 'CF-1.6'
-- 
2.43.0


From 1a6ec1ac3bd3bbe4f1d06db75d83414685f428c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:53 +0000
Subject: [PATCH 094/129] fix: save files to the current directory

---
 Utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/files.py b/Utilities/files.py
index a58f7f8..0438782 100644
--- a/Utilities/files.py
+++ b/Utilities/files.py
@@ -107,7 +107,7 @@ def flSaveFile(filename, data, header='', delimiter=',', fmt='%.18e'):
     """
 
     directory, fname = os.path.split(filename)
-    if not os.path.isdir(directory):
+    if directory and not os.path.isdir(directory):
         os.makedirs(directory)
 
     try:
-- 
2.43.0


From 3c2c1e0619c12d1ce410a46c172003d67ae1215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:53 +0000
Subject: [PATCH 095/129] fix: compress ascii grids saved to a new .gz file

Only files that existed before were compressed.
---
 Utilities/grid.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Utilities/grid.py b/Utilities/grid.py
index 1bf462a..e391f7b 100644
--- a/Utilities/grid.py
+++ b/Utilities/grid.py
@@ -63,12 +63,9 @@ def grdSave(filename, data, lon, lat, delta, delimiter=' ', nodata=-9999,
                  nodata=-9999, fmt='%.10e, coords='latlon')
     """
 
-    if isinstance(filename, str) and os.path.isfile(filename):
-        if filename.endswith('.gz'):
-            import gzip
-            fh = gzip.open(filename, 'wt')
-        else:
-            fh = open(filename, 'w')
+    if isinstance(filename, str) and filename.endswith('.gz'):
+        import gzip
+        fh = gzip.open(filename, 'wt')
     elif hasattr(filename, 'seek'):
         fh = filename
     else:
-- 
2.43.0


From 05856053f150166eb7e4c1edf918331ff620e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:50 +0000
Subject: [PATCH 096/129] fix: count downward edges in the winding number test

The test for a downward crossing sat under the branch for edges that start
at or below the point, so edges going down past the point were never
counted. Points inside polygons given in clockwise order could be reported
outside.
---
 Utilities/Intersections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 3b01b8c..dace293 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -99,9 +99,9 @@ def _wnPnPoly(P, V):
             if V[i + 1].y > P.y:      # an upward crossing
                 if _isLeft(V[i], V[i + 1], P) > 0:  # P left of edge
                     wn += 1            # have a valid up intersect
-            elif V[i + 1].y <= P.y:     # a downward crossing
-                if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
-                    wn -= 1            # have a valid down intersect
+        elif V[i + 1].y <= P.y:    # a downward crossing
+            if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
+                wn -= 1            # have a valid down intersect
     return wn != 0
 
 
-- 
2.43.0


From 749dfb5790ad0c8fe7486dc8f62dc8b274d0ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:50 +0000
Subject: [PATCH 097/129] fix: test every edge of each part in CirclePolygon

For a list of parts each vertex was joined to the one before it, so the
last edge of every part was never tested against the circle.
---
 Utilities/Intersections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index dace293..87cafa7 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -232,7 +232,7 @@ class Crossings(object):
             for p in points:
                 for i in range(len(p) - 1):
                     a1 = p[i]
-                    a2 = p[i - 1]
+                    a2 = p[i + 1]
                     inter = self.CircleLine(c, r, a1, a2)
                     if inter.status == "Intersection":
                         result.points.append(inter.points)
-- 
2.43.0


From aed48d259832bb6740ac3d9150d260f1aa17c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:50 +0000
Subject: [PATCH 098/129] fix: report no intersection of a line that misses a
 polygon

LinePolygon stored an empty list for every edge that was not crossed, so
the status was Intersection whether or not the line met the polygon.
---
 Utilities/Intersections.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 87cafa7..bf55ce8 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -320,13 +320,15 @@ class Crossings(object):
                     b1 = p[i]
                     b2 = p[i + 1]
                     inter = self.LineLine(a1, a2, b1, b2)
-                    result.points.append(inter.points)
+                    if inter.status == "Intersection":
+                        result.points.append(inter.points)
         else:
             for i in range(len(points) - 1):
                 b1 = points[i]
                 b2 = points[i + 1]
                 inter = self.LineLine(a1, a2, b1, b2)
-                result.points.append(inter.points)
+                if inter.status == "Intersection":
+                    result.points.append(inter.points)
 
         if len(result.points) > 0:
             result.status = "Intersection"
-- 
2.43.0


From 16cc3eb20f087ea2d5c963cde20360a2e461dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 099/129] fix: run the track density evaluation in parallel

File names and results were passed to the buffer versions of send and
receive, which do not accept such objects, and the sender was read from a
status that receive does not return. Runs with more processes than track
files failed before any work was done.
---
 Evaluate/trackDensity.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index e36163e..775be77 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -167,43 +167,48 @@ class TrackDensity(object):
         result_tag = 1
 
         if (comm.rank == 0) and (comm.size > 1):
+            status = MPI.Status()
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                              format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                                  format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
             while (terminated < comm.size - 1):
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=True)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
                 self.synHist[n, :, :] = results
                 n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while(True):
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 log.debug("Processing %s" % (trackfile))
                 tracks = loadTracks(trackfile)
                 results = self.calculate(tracks) / self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
-- 
2.43.0


From 7582b27fce352c26b720c4ca0b20083346398572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 100/129] fix: run the genesis density evaluation in parallel

File names and results were passed to the buffer versions of send and
receive, which do not accept such objects, and the sender was read from a
status that receive does not return. Runs with more processes than track
files failed before any work was done.
---
 Evaluate/genesisDensity.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index 25ec56d..b8325df 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -263,43 +263,48 @@ class GenesisDensity(object):
         result_tag = 1
 
         if (comm.rank == 0) and (comm.size > 1):
+            status = MPI.Status()
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                          format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                              format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
                 self.synHist[n, :, :] = results
                 n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 log.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 results = self._calculate(tracks) #/ self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
-- 
2.43.0


From 4d69f717e636b032e3997117e99bde4e9670374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 101/129] fix: run the pressure distribution evaluation in
 parallel

File names and results were passed to the buffer versions of send and
receive, which do not accept such objects, and the sender was read from a
status that receive does not return. Runs with more processes than track
files failed before any work was done. A misspelt communicator name is
corrected as well.
---
 Evaluate/pressureDistribution.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 2687230..e161e63 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -257,18 +257,23 @@ class PressureDistribution(object):
         self.synMinCP = np.array([])
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=None)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 sMean, sMin, sMax, sMed, sMinCPDist, sMinCP = results
                 synMean[n, :, :] = sMean
@@ -282,19 +287,19 @@ class PressureDistribution(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comn.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans(synMean, synMin, synMed, synMax, synMinCPDist)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
@@ -303,7 +308,7 @@ class PressureDistribution(object):
                 sMean, sMin, sMax, sMed = self.calculate(tracks)
                 sMinCPDist, sMinCP = self.calcMinPressure(tracks)
                 results = (sMean, sMin, sMax, sMed, sMinCPDist, sMinCP)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
-- 
2.43.0


From 8939d6663766f7a8755814f69587e1109f3ddaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 102/129] fix: run the longitude crossing evaluation in
 parallel

File names and results were passed to the buffer versions of send and
receive, which do not accept such objects, and the sender was read from a
status that receive does not return. Runs with more processes than track
files failed before any work was done.
---
 Evaluate/longitudeCrossing.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 6a60fde..ec3da78 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -227,18 +227,23 @@ class LongitudeCrossing(object):
 
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
             while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                               status=None)
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 lonCrossHist[n, :, :], lonCrossEW[n, :, :], \
                     lonCrossWE[n, :, :] = results
@@ -247,19 +252,19 @@ class LongitudeCrossing(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calcStats(lonCrossHist, lonCrossEW, lonCrossWE)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
@@ -267,7 +272,7 @@ class LongitudeCrossing(object):
                 tracks = loadTracks(trackfile)
                 lonCross, lonCrossEW, lonCrossWE = self.findCrossings(tracks)
                 results = (lonCross, lonCrossEW, lonCrossWE)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
-- 
2.43.0


From 1ce8049a12bddf902db49d16ccfa841eb8ee8566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 103/129] fix: run the landfall rate evaluation in parallel

File names and results were passed to the buffer versions of send and
receive, which do not accept such objects, and the sender was read from a
status that receive does not return. Runs with more processes than track
files failed before any work was done. The size of the communicator
was called as a function as well.
---
 Evaluate/landfallRates.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 2d41ef9..4e70b95 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -210,18 +210,23 @@ class LandfallRates(object):
 
         if (comm.rank == 0) and (comm.size > 1):
 
+            status = MPI.Status()
             w = 0
             n = 0
+            terminated = 0
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    terminated += 1
 
-            terminated = 0
-            while terminated < comm.size() - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+            while terminated < comm.size - 1:
+                results = comm.recv(source=MPI.ANY_SOURCE, tag=result_tag,
+                                    status=status)
 
                 self.processResults(results, n)
                 n += 1
@@ -229,26 +234,26 @@ class LandfallRates(object):
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send(trackfiles[w], dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateStats()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
+                trackfile = comm.recv(source=0, tag=work_tag)
                 if trackfile is None:
                     break
 
                 LOG.debug("Processing %s", trackfile)
                 tracks = loadTracks(trackfile)
                 results = self.processTracks(tracks)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send(results, dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
-- 
2.43.0


From f08ed40a502007208a6b3e95b5c5d48adff8365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 104/129] fix: count both end years of the historical record

The track density divided by one year too few, and by zero for a record
of a single year.
---
 Evaluate/trackDensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index 775be77..81e160f 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -149,7 +149,7 @@ class TrackDensity(object):
             for t in tracks:
                 startYr = min(startYr, min(t.Year))
                 endYr = max(endYr, max(t.Year))
-            numYears = endYr - startYr
+            numYears = endYr - startYr + 1
 
             self.hist = self.calculate(tracks) / numYears
 
-- 
2.43.0


From 1c538f9c1f13d8d867b289fc6a186a66bd0e8567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 105/129] fix: count coastal crossings in the gate they cross

Crossings of the first gate were counted in the second bin and so on, the
first bin was never used and crossings of the last gate were not counted.
---
 Evaluate/landfallRates.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 4e70b95..af8a62f 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -107,22 +107,22 @@ class LandfallRates(object):
                 if not startOnshore and endOnshore:
                     # Landfall:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(1, len(self.gates)):
                         r = cross.LineLine(start, end,
                                            self.gates[j-1],
                                            self.gates[j])
                         if r.status == "Intersection":
-                            landfall.append(j)
+                            landfall.append(j - 1)
 
                 elif startOnshore and not endOnshore:
                     # Moving offshore:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(1, len(self.gates)):
                         r = cross.LineLine(start, end,
                                            self.gates[j - 1],
                                            self.gates[j])
                         if r.status == "Intersection":
-                            offshore.append(j)
+                            offshore.append(j - 1)
 
         # Generate the histograms to be returned:
         lh, n = np.histogram(landfall, np.arange(len(self.gates)), density=True)
-- 
2.43.0


From afe76c345d32956e1b2603308a91a9fd06cda4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 106/129] fix: landfall rates of track sets without a coastal
 crossing

The distribution of no crossings is not a number. One simulation without
a landfall turned the mean and percentiles of all simulations into nan.
---
 Evaluate/landfallRates.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index af8a62f..730436c 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -125,8 +125,14 @@ class LandfallRates(object):
                             offshore.append(j - 1)
 
         # Generate the histograms to be returned:
-        lh, n = np.histogram(landfall, np.arange(len(self.gates)), density=True)
-        oh, n = np.histogram(offshore, np.arange(len(self.gates)), density=True)
+        lh = np.zeros(len(self.gates) - 1)
+        oh = np.zeros(len(self.gates) - 1)
+        if len(landfall) > 0:
+            lh, n = np.histogram(landfall, np.arange(len(self.gates)),
+                                 density=True)
+        if len(offshore) > 0:
+            oh, n = np.histogram(offshore, np.arange(len(self.gates)),
+                                 density=True)
         return lh, oh
 
     def processResults(self, results, index):
-- 
2.43.0


From d84cb168084d4c563185281c64a5d147c8c01af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 107/129] fix: minimum pressure distribution of track sets
 outside the region

The distribution of no values is not a number. One simulation without a
track in the region turned the mean and percentiles of all simulations
into nan.
---
 Evaluate/pressureDistribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index e161e63..f5292a6 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -170,7 +170,9 @@ class PressureDistribution(object):
                 minCP[i] = t.CentralPressure.min()
 
         bins = np.arange(850., 1020., 5.)
-        h, n = np.histogram(minCP, bins, density=True)
+        h, n = np.histogram(minCP, bins)
+        if h.sum() > 0:
+            h, n = np.histogram(minCP, bins, density=True)
         return h, minCP
 
     def calculateMeans(self, synMean, synMin, synMed, synMax, synMinCP):
-- 
2.43.0


From 42e860f6aa1c5f918fac23833d9a9bda141fb0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 108/129] fix: count a crossing at a track position once

A track with a position exactly on a line of longitude was counted by the
step arriving there and again by the step leaving it.
---
 Evaluate/longitudeCrossing.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index ec3da78..dae7a99 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -127,15 +127,14 @@ class LongitudeCrossing(object):
                     end = Int.Point(t.Longitude[i + 1], t.Latitude[i + 1])
                     r = cross.LineLine(start, end, gStart, gEnd)
                     if r.status == "Intersection":
-                        lats.append(r.points[0].y)
                         startSide = Int._isLeft(gStart, gEnd, start)
                         endSide = Int._isLeft(gStart, gEnd, end)
-                        if ((startSide < 0.) and (endSide >= 0.)) \
-                                or ((startSide <= 0.) and (endSide > 0.)):
+                        if (startSide < 0.) and (endSide >= 0.):
+                            lats.append(r.points[0].y)
                             welats.append(r.points[0].y)
 
-                        elif ((startSide > 0.) and (endSide <= 0.)) \
-                                or ((startSide >= 0.) and (endSide < 0.)):
+                        elif (startSide >= 0.) and (endSide < 0.):
+                            lats.append(r.points[0].y)
                             ewlats.append(r.points[0].y)
 
                     else:
-- 
2.43.0


From d82ffe4e2530af14e85d1d23d1ed6b2c752db806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:41 +0000
Subject: [PATCH 109/129] fix: describe the upper crossing rates as the 95th
 percentile

The saved values are 95th percentiles but were labelled 90, and one name
was stored in two pieces.
---
 Evaluate/longitudeCrossing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index dae7a99..2ea26fa 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -383,10 +383,10 @@ class LongitudeCrossing(object):
                 'values': self.synCrossUpper,
                 'dtype': 'f',
                 'atts': {
-                    'long_name': ('Upper percentile synthetic longitudinal ',
+                    'long_name': ('Upper percentile synthetic longitudinal '
                                   'crossing rate'),
                     'units': 'number of crossings per year',
-                    'percentile': 90
+                    'percentile': 95
                 }
             },
             7: {
@@ -398,7 +398,7 @@ class LongitudeCrossing(object):
                     'long_name': ('Upper percentile synthetic longitudinal '
                                   'crossing rate - east-west crossings'),
                     'units': 'number of crossings per year',
-                    'percentile': 90
+                    'percentile': 95
                 }
             },
             8: {
@@ -410,7 +410,7 @@ class LongitudeCrossing(object):
                     'long_name': ('Upper percentile synthetic longitudinal '
                                   'crossing rate - west-east crossings'),
                     'units': 'number of crossings per year',
-                    'percentile': 90
+                    'percentile': 95
                 }
             },
             9: {
-- 
2.43.0


From 2bc6bd1a8f2789e49d3c7171de7d78c802ea041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:50 +0000
Subject: [PATCH 110/129] fix: save masked cells as missing data

The mask of a masked array was dropped when the grid was written, so the
values under the mask appeared in the file. Cells without any observation
had a central pressure of 0 hPa in the saved pressure distributions.
---
 Utilities/nctools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index e5de32d..68a6974 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -374,7 +374,8 @@ def ncSaveGrid(filename, dimensions, variables, nodata=-9999,
                                    fill_value=nodata)
 
         if (writedata and v['values'] is not None):
-            var[:] = np.array(v['values'], dtype=v['dtype'])
+            var[:] = np.array(np.ma.filled(v['values'], nodata),
+                              dtype=v['dtype'])
 
         var.setncatts(v['atts'])
 
-- 
2.43.0


From b7b28d8d8b2bbc86f3fee7541d690d8d4e370a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:50 +0000
Subject: [PATCH 111/129] fix: load the historical crossings on every process

The tracks are interpolated by a function that waits for all processes, but
only the first one called it. Parallel runs stopped there for ever.
---
 Evaluate/longitudeCrossing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 2ea26fa..bb86506 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -172,7 +172,6 @@ class LongitudeCrossing(object):
 
 
 
-    @disableOnWorkers
     def historic(self):
         """Calculate historical rates of longitude crossing"""
 
-- 
2.43.0


From bcf6a5ea9a5c6c45233017f5eafd475914229f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:43 +0000
Subject: [PATCH 112/129] fix: leave missing values out of the minimum central
 pressure

A storm with one missing pressure had a minimum of zero and dropped out of
the distribution of minimum pressures.
---
 Evaluate/pressureDistribution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index f5292a6..5043a0b 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -167,7 +167,11 @@ class PressureDistribution(object):
 
         for i, t in enumerate(tracks):
             if t.inRegion(self.gridLimit):
-                minCP[i] = t.CentralPressure.min()
+                cp = t.CentralPressure.compress(
+                    (t.CentralPressure > 0.0) &
+                    (t.CentralPressure < sys.maxsize))
+                if len(cp) > 0:
+                    minCP[i] = cp.min()
 
         bins = np.arange(850., 1020., 5.)
         h, n = np.histogram(minCP, bins)
-- 
2.43.0


From 9c8fdd7a39c3be169152843daf799ea32007db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:07 +0000
Subject: [PATCH 113/129] fix: treat blank or negative winds and radii as
 missing when loading tracks

---
 Utilities/loadData.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index b0be1e0..5fc563f 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -891,7 +891,9 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
                               inputPressureUnits, missingValue)
     try:
         windspeed = np.array(inputData['vmax'], 'd')
-        novalue_index = np.where(windspeed == sys.maxsize)
+        # Blank values are read as nan, or -1 in a column of integers
+        novalue_index = np.where((windspeed == sys.maxsize) |
+                                 np.isnan(windspeed) | (windspeed < 0))
         windspeed = metutils.convert(windspeed, inputSpeedUnits, "mps")
         windspeed[novalue_index] = missingValue
     except (ValueError, KeyError):
@@ -903,7 +905,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
 
     try:
         rmax = np.array(inputData['rmax'])
-        novalue_index = np.where(rmax == missingValue)
+        novalue_index = np.where((rmax == missingValue) |
+                                 np.isnan(rmax) | (rmax < 0))
         rmax = metutils.convert(rmax, inputLengthUnits, "km")
         rmax[novalue_index] = missingValue
 
-- 
2.43.0


From 7ed0fa0330229a096df33b178f9dae0a54610b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:01 +0000
Subject: [PATCH 114/129] fix: create the working directory before downloading
 the wind field into it

---
 ProcessMultipliers/processMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index fc215b9..2555980 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1198,9 +1198,9 @@ class run():
         log.debug('Instantiating getMultipliers class')
         gM = getMultipliers(self.configFile)
         self.working_dir = gM.check_if_working_dir_in_s3(self.working_dir)
-        self.gust_file = gM.check_if_gust_file_from_s3(self.gust_file, self.working_dir)
         log.debug('Running checkOutputFolders')
         gM.checkOutputFolders(self.working_dir, self.type_mapping)
+        self.gust_file = gM.check_if_gust_file_from_s3(self.gust_file, self.working_dir)
         combined_mulipliers_file = None
 
         if gM.computed_wm_path is None:
-- 
2.43.0


From b8d3f67074f2789be2d9b7c76b38c79f69ed0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:56 +0000
Subject: [PATCH 115/129] fix: plot the sample track densities of small event
 sets

---
 Evaluate/trackDensity.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index 81e160f..06bd456 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -324,16 +324,9 @@ class TrackDensity(object):
         figure2 = ArrayMapFigure()
         figure2.add(self.hist.T, self.X, self.Y, "Historic", datarange,
                     cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[0, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[10, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[20, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[30, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[40, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
+        for n in range(0, min(50, len(self.synHist)), 10):
+            figure2.add(self.synHist[n, :, :].T, self.X, self.Y, "Synthetic",
+                        datarange, cbarlab, self.map_kwargs)
         figure2.plot()
         outputFile = pjoin(self.plotPath, 'track_density_samples.png')
         saveFigure(figure2, outputFile)
-- 
2.43.0


From fc984ba852eadd134800409873d31c5b0af008d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:56 +0000
Subject: [PATCH 116/129] fix: plot the sample genesis densities of small event
 sets

---
 Evaluate/genesisDensity.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index b8325df..a6439eb 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -427,12 +427,9 @@ class GenesisDensity(object):
         figure2 = FilledContourMapFigure()
         figure2.add(self.hist.T*(10.**-exponent), xgrid, ygrid,
                     "Historic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[0, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[1, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[2, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
+        for n in range(min(3, len(self.synHist))):
+            figure2.add(self.synHist[n, :, :].T*(10.**-exponent), xgrid, ygrid,
+                        "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
 
         figure2.plot()
         outputFile = pjoin(self.plotPath, 'genesis_density_samples.png')
-- 
2.43.0


From 9e373a2433a33d44146badaf807e4723430b6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:47 +0000
Subject: [PATCH 117/129] fix: show every cell in the plots of the cell
 statistics

The first cell's histogram and autocorrelation were overwritten by those
of the last cell, and a domain of a single cell ended the calibration
with an IndexError.
---
 StatInterface/generateStats.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/StatInterface/generateStats.py b/StatInterface/generateStats.py
index 8e7e6de..25cbbe9 100644
--- a/StatInterface/generateStats.py
+++ b/StatInterface/generateStats.py
@@ -178,19 +178,19 @@ class GenerateStats:
         amax = a.max()
         abins = np.linspace(amin, amax, 50)
         bins = np.linspace(pmin, pmax, 50)
-        hist = np.empty((len(bins) - 1, self.maxCell))
-        ahist = np.empty((len(abins) - 1, self.maxCell))
+        hist = np.empty((len(bins) - 1, self.maxCell + 1))
+        ahist = np.empty((len(abins) - 1, self.maxCell + 1))
         x = np.arange(11)
-        alpha = np.empty((11, self.maxCell))
-        aalpha = np.empty((11, self.maxCell))
+        alpha = np.empty((11, self.maxCell + 1))
+        aalpha = np.empty((11, self.maxCell + 1))
 
         for i in range(self.maxCell + 1):
             p = self.extractParameter(i, 0)
             a = p - np.mean(p)
-            hist[:, i - 1], b = np.histogram(p, bins, density=True)
-            ahist[:, i - 1], b = np.histogram(a, abins, density=True)
-            alpha[:, i - 1] = acf(p, 10)
-            aalpha[:, i - 1] = acf(a, 10)
+            hist[:, i], b = np.histogram(p, bins, density=True)
+            ahist[:, i], b = np.histogram(a, abins, density=True)
+            alpha[:, i] = acf(p, 10)
+            aalpha[:, i] = acf(a, 10)
 
         mhist = np.mean(hist, axis=1)
         uhist = percentile(hist, per=95, axis=1)
-- 
2.43.0


From 73cd005b8bda27a0defd18e756948ad6ee0180d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:55 +0000
Subject: [PATCH 118/129] fix: name time series figures after the full station
 ID

Stripping '.csv' and 'ts.' character by character shortened station IDs
that start or end with any of those letters, so two stations could share
one figure.
---
 PlotInterface/plotTimeseries.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index 49afc71..edbaada 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -96,8 +96,9 @@ def plotTimeseries(inputPath, outputPath, locID=None):
         inputFileList = [f for f in files if f.startswith('ts.')]
         for f in inputFileList:
             # Here we assume the timeseries files are named ts.<location ID>.dat
-            locID = f.rstrip('.csv').lstrip('ts.')
-            outputFile = pjoin(outputPath, '%s.png' % f.rstrip('.csv'))
+            basename = f[:-4] if f.endswith('.csv') else f
+            locID = basename[len('ts.'):]
+            outputFile = pjoin(outputPath, '%s.png' % basename)
             inputData = loadTimeseriesData(pjoin(inputPath, f))
 
 
-- 
2.43.0


From 87f3ab9be6d7da9fb335559a4114a222ab2bd8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:58 +0000
Subject: [PATCH 119/129] fix: plot time series that hold a single record

A storm that is inside the region for one time step only ended the
scenario with an IndexError.
---
 PlotInterface/plotTimeseries.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index edbaada..f811982 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -45,9 +45,11 @@ INPUT_CNVT = {
 def loadTimeseriesData(datafile):
     logging.debug("Loading timeseries data from {0}".format(datafile))
     try:
-        return np.genfromtxt(datafile, dtype=INPUT_FMTS, names=INPUT_COLS,
+        data = np.genfromtxt(datafile, dtype=INPUT_FMTS, names=INPUT_COLS,
                              comments='#', delimiter=',', skip_header=1,
                              converters=INPUT_CNVT)
+        # A file with a single record is read as a 0-d array
+        return np.atleast_1d(data)
     except ValueError:
         logging.warning("Timeseries data file is empty - returning empty array")
         return np.empty(0, dtype={
-- 
2.43.0


From d7248a16342c31ae6ed87e86e5a0889565844d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:59 +0000
Subject: [PATCH 120/129] fix: show simulated winds in the units of the hazard
 curve

The curve and its confidence limits are converted to PlotSpeedUnits, but the
simulated winds plotted with them were left in metres per second.
---
 PlotInterface/AutoPlotHazard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PlotInterface/AutoPlotHazard.py b/PlotInterface/AutoPlotHazard.py
index a4225f8..de71ab3 100644
--- a/PlotInterface/AutoPlotHazard.py
+++ b/PlotInterface/AutoPlotHazard.py
@@ -231,7 +231,8 @@ class AutoPlotHazard(object):
             if len(recs) > 0:
                 data[-len(recs):] = recs['wspd']
 
-            allevents = np.sort(data)
+            allevents = metutils.convert(np.sort(data), 'mps',
+                                         self.plotUnits.units)
             log.debug("allevents length = {0}".format(len(allevents)))
 
             placeWspd = metutils.convert(wspd, 'mps',
-- 
2.43.0


From c99be60d39b0967fc2d177601d895fd94ac2200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:59 +0000
Subject: [PATCH 121/129] fix: take the half angle of bearings in radians

Bearings are in degrees, so the figure of lagged bearings showed the cosine of
an unrelated angle.
---
 PlotInterface/plotStats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PlotInterface/plotStats.py b/PlotInterface/plotStats.py
index 42027f2..3132bac 100644
--- a/PlotInterface/plotStats.py
+++ b/PlotInterface/plotStats.py
@@ -303,7 +303,7 @@ class PlotBearing(PlotData):
     def plotBearing(self, data):
         labels = [r'$\theta(t)$', r'$\theta(t-1)$']
         def transform(x):
-            return np.cos(x/2.)
+            return np.cos(np.radians(x)/2.)
 
         self.scatterHistogram(data[1:], data[:-1], labels, 'bearing',
                               transform=transform, xlim=(-1, 1),
-- 
2.43.0


From c70c5a9336c1838f4c0caf4d478d15e81b266b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:59 +0000
Subject: [PATCH 122/129] fix: include the last observation in the distribution
 of minimum pressures

---
 PlotInterface/plotStats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PlotInterface/plotStats.py b/PlotInterface/plotStats.py
index 3132bac..4a431fb 100644
--- a/PlotInterface/plotStats.py
+++ b/PlotInterface/plotStats.py
@@ -173,7 +173,7 @@ class PlotData(object):
         plt.clf()
         pcarray = []
         index = index.astype(int)
-        for i in range(len(index) - 1):
+        for i in range(len(index)):
             if index[i] == 1:
                 pcarray.append(pAllData[i])
             else:
@@ -274,7 +274,7 @@ class PlotPressure(PlotData):
         """
         pcarray = []
         index = index.astype(int)
-        for i in range(len(index) - 1):
+        for i in range(len(index)):
             if index[i] == 1:
                 pcarray.append(pAllData[i])
             else:
-- 
2.43.0


From e8bdad00dd20dd708271a73eb57af668c6fd6cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:17 +0000
Subject: [PATCH 123/129] fix: plot hazard maps of grids coarser than one
 degree with SmoothPlots on

The smoothing kernel had a size of zero, and the map was all nan.
---
 PlotInterface/AutoPlotHazard.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PlotInterface/AutoPlotHazard.py b/PlotInterface/AutoPlotHazard.py
index de71ab3..97f9e4d 100644
--- a/PlotInterface/AutoPlotHazard.py
+++ b/PlotInterface/AutoPlotHazard.py
@@ -120,11 +120,12 @@ class AutoPlotHazard(object):
             filename = pjoin(self.plotPath, imageFilename)
             cbarlab = "Wind speed (%s)"%self.plotUnits.units
             levels = self.plotUnits.levels
+            data = inputData[i, :, :]
             if self.smooth:
                 dx = np.mean(np.diff(xgrid))
-                data = smooth(inputData[i, :, :], int(1/dx))
-            else:
-                data = inputData[i, :, :]
+                npoints = int(1/dx)
+                if npoints > 0:
+                    data = smooth(data, npoints)
 
             saveHazardMap(data, xgrid, ygrid, title, levels,
                           cbarlab, map_kwargs, filename)
-- 
2.43.0


From 1224b3fd3edbf0c313cee65370bff3aa5ce15a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:59 +0000
Subject: [PATCH 124/129] fix: leave cells without a return level out of
 smoothed hazard maps

The missing value (-9999) was averaged into the cells around it, and the cells
themselves were no longer masked.
---
 Utilities/smooth.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Utilities/smooth.py b/Utilities/smooth.py
index 430576b..f040e11 100644
--- a/Utilities/smooth.py
+++ b/Utilities/smooth.py
@@ -37,9 +37,20 @@ def smooth(im, n=15):
     :type  im: :class:`numpy.ndarray`
     :param int n: Number of points to include in the smoothing.
 
+    Masked elements of `im` do not contribute to the smoothed values, and remain
+    masked.
+
     :returns: smoothed array (same dimensions as the input array)
 
     """
     g = gaussKern(n)
+    mask = numpy.ma.getmaskarray(im)
+    if mask.any():
+        data = numpy.ma.filled(im, 0)
+        weight = signal.convolve2d(~mask, g, mode='same', boundary='symm')
+        improc = signal.convolve2d(data, g, mode='same', boundary='symm')
+        # Every unmasked element has a weight of its own
+        weight[mask] = 1.0
+        return numpy.ma.array(improc / weight, mask=mask)
     improc = signal.convolve2d(im, g, mode='same', boundary='symm')
     return improc
-- 
2.43.0


From e44042f3b7ea81c297fa2c77c844fd7037f17ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:00:52 +0000
Subject: [PATCH 125/129] fix: count landfalls of each category under that
 category

The first bin of the histogram holds category 0, so category 1 showed the
storms below category 1 and category 5 landfalls were not counted at all.
---
 Evaluate/landfallIntensity.py         | 10 +++++-----
 Evaluate/locationLandfallIntensity.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Evaluate/landfallIntensity.py b/Evaluate/landfallIntensity.py
index acbd597..4bda14f 100644
--- a/Evaluate/landfallIntensity.py
+++ b/Evaluate/landfallIntensity.py
@@ -164,11 +164,11 @@ def countCrossings(gates, tracks, sim):
             gates['meanlfintensity'].iloc[i] = l['CentralPressure'].mean()
             gates['minlfintensity'].iloc[i] = l['CentralPressure'].min()
             cathist, bins = np.histogram(l['category'].values, bins=[0,1,2,3,4,5, 6])
-            gates['cat1'].iloc[i] = cathist[0]
-            gates['cat2'].iloc[i] = cathist[1]
-            gates['cat3'].iloc[i] = cathist[2]
-            gates['cat4'].iloc[i] = cathist[3]
-            gates['cat5'].iloc[i] = cathist[4]
+            gates['cat1'].iloc[i] = cathist[1]
+            gates['cat2'].iloc[i] = cathist[2]
+            gates['cat3'].iloc[i] = cathist[3]
+            gates['cat4'].iloc[i] = cathist[4]
+            gates['cat5'].iloc[i] = cathist[5]
         else:
             gates['count'].iloc[i] = 0
             gates['meanlfintensity'].iloc[i] = np.nan
diff --git a/Evaluate/locationLandfallIntensity.py b/Evaluate/locationLandfallIntensity.py
index 04b1dd5..4533e9a 100644
--- a/Evaluate/locationLandfallIntensity.py
+++ b/Evaluate/locationLandfallIntensity.py
@@ -172,11 +172,11 @@ def countCrossings(gdf, tracks, sim):
             gdf['meanlfintensity'].iloc[i] = l['CentralPressure'].mean()
             gdf['minlfintensity'].iloc[i] = l['CentralPressure'].min()
             cathist, bins = np.histogram(l['category'].values, bins=[0,1,2,3,4,5, 6])
-            gdf['cat1'].iloc[i] = cathist[0]
-            gdf['cat2'].iloc[i] = cathist[1]
-            gdf['cat3'].iloc[i] = cathist[2]
-            gdf['cat4'].iloc[i] = cathist[3]
-            gdf['cat5'].iloc[i] = cathist[4]
+            gdf['cat1'].iloc[i] = cathist[1]
+            gdf['cat2'].iloc[i] = cathist[2]
+            gdf['cat3'].iloc[i] = cathist[3]
+            gdf['cat4'].iloc[i] = cathist[4]
+            gdf['cat5'].iloc[i] = cathist[5]
         else:
             gdf['count'].iloc[i] = 0
             gdf['meanlfintensity'].iloc[i] = np.nan
-- 
2.43.0


From 31bdf0c0c59b0b9536735be27f39febf8553d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:00:52 +0000
Subject: [PATCH 126/129] fix: join landfall statistics to their gates by gate
 number

The statistics are indexed by gate number but were joined by row number.
---
 Evaluate/landfallIntensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/landfallIntensity.py b/Evaluate/landfallIntensity.py
index 4bda14f..12869f5 100644
--- a/Evaluate/landfallIntensity.py
+++ b/Evaluate/landfallIntensity.py
@@ -240,7 +240,7 @@ def loadLandfallRates(datapath, gates):
     gs.columns = gs.columns.get_level_values(0)
 
 
-    gatedata = gates[['gate', 'longitude', 'latitude', 'label', 'geometry']].join(gs)
+    gatedata = gates[['gate', 'longitude', 'latitude', 'label', 'geometry']].join(gs, on='gate')
 
     return gatedata
 
-- 
2.43.0


From 5eb368d4fbea2d37f4e9985f4b99700ceda740de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:00:52 +0000
Subject: [PATCH 127/129] fix: count storms entering a location

The test was given the first point of the segment instead of the segment,
and the result was joined to a variable that only the script defines.
---
 Evaluate/locationLandfallIntensity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Evaluate/locationLandfallIntensity.py b/Evaluate/locationLandfallIntensity.py
index 4533e9a..929b23e 100644
--- a/Evaluate/locationLandfallIntensity.py
+++ b/Evaluate/locationLandfallIntensity.py
@@ -143,7 +143,7 @@ def isLandfall(feat, tracks):
     crossings = tracks.crosses(feat.geometry)
     landfall = []
     for t in tracks[crossings].itertuples():
-        if enters(feat.geometry, Point(t.geometry.coords[0])):
+        if enters(feat.geometry, t.geometry):
             landfall.append(True)
         else:
             landfall.append(False)
@@ -248,7 +248,7 @@ def loadLandfallRates(datapath, gdf):
     gs.columns = gs.columns.get_level_values(0)
 
 
-    gatedata = gates[['LGA_CODE19', 'LGA_NAME19', 'geometry']].join(gs, on='LGA_CODE19')
+    gatedata = gdf[['LGA_CODE19', 'LGA_NAME19', 'geometry']].join(gs, on='LGA_CODE19')
     
     gatedata.rename(columns={
         'count_sum':'sum',
-- 
2.43.0


From ca3b2d91ac0fb812cfd963e455f8520f06dd1af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:33 +0000
Subject: [PATCH 128/129] fix: import the shapefile reader for time series
 multipliers

The reader is no longer part of Utilities, so the module could not be
imported.
---
 Utilities/tsmultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/tsmultipliers.py b/Utilities/tsmultipliers.py
index b226ad5..bfab4ff 100644
--- a/Utilities/tsmultipliers.py
+++ b/Utilities/tsmultipliers.py
@@ -26,7 +26,7 @@ import numpy as np
 from Utilities.files import flStartLog
 from Utilities.config import ConfigParser
 from Utilities.dynarray import DynamicRecArray
-from Utilities import shapefile
+import shapefile
 from Utilities import pathLocator
 
 
-- 
2.43.0


From ef61f2dca865a793e05ba9c182fb9fd8453d918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:33 +0000
Subject: [PATCH 129/129] fix: weight directional multipliers by nearness to
 their direction

The weights of the two neighbouring directions were swapped, so a wind from
the north was given the multiplier for winds from the north-east.
---
 Utilities/tsmultipliers.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Utilities/tsmultipliers.py b/Utilities/tsmultipliers.py
index bfab4ff..7b493dd 100644
--- a/Utilities/tsmultipliers.py
+++ b/Utilities/tsmultipliers.py
@@ -81,29 +81,29 @@ def tsmultiply(inputFile, multipliers, outputFile):
     # Apply multipliers:
 
     ii = np.where((bear >= 0.0) & (bear < 45.))
-    gust[ii] *= (1./45.)*(mcn*(bear[ii] - 0.0) +
-                          mcne*(45. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcn*(45. - bear[ii]) +
+                          mcne*(bear[ii] - 0.0))
     ii = np.where((bear >= 45.0) & (bear < 90.))
-    gust[ii] *= (1./45.)*(mcne*(bear[ii] - 45.0) +
-                          mce*(90. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcne*(90. - bear[ii]) +
+                          mce*(bear[ii] - 45.0))
     ii = np.where((bear >= 90.0) & (bear < 135.))
-    gust[ii] *= (1./45.)*(mce*(bear[ii] - 90.0) +
-                          mcse*(135. - bear[ii]))
+    gust[ii] *= (1./45.)*(mce*(135. - bear[ii]) +
+                          mcse*(bear[ii] - 90.0))
     ii = np.where((bear >= 135.0) & (bear < 180.))
-    gust[ii] *= (1./45.)*(mcse*(bear[ii] - 135.0) +
-                          mcs*(180. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcse*(180. - bear[ii]) +
+                          mcs*(bear[ii] - 135.0))
     ii = np.where((bear >= 180.0) & (bear < 225.))
-    gust[ii] *= (1./45.)*(mcs*(bear[ii] - 180.0) +
-                          mcsw*(225. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcs*(225. - bear[ii]) +
+                          mcsw*(bear[ii] - 180.0))
     ii = np.where((bear >= 225.0) & (bear < 270.))
-    gust[ii] *= (1./45.)*(mcsw*(bear[ii] - 225.0) +
-                          mcw*(270. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcsw*(270. - bear[ii]) +
+                          mcw*(bear[ii] - 225.0))
     ii = np.where((bear >= 270.0) & (bear < 315.))
-    gust[ii] *= (1./45.)*(mcw*(bear[ii] - 270.0) +
-                          mcnw*(315. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcw*(315. - bear[ii]) +
+                          mcnw*(bear[ii] - 270.0))
     ii = np.where((bear >= 315.0) & (bear <= 360.))
-    gust[ii] *= (1./45.)*(mcnw*(bear[ii] - 315.0) +
-                          mcn*(360. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcnw*(360. - bear[ii]) +
+                          mcn*(bear[ii] - 315.0))
 
 
     ii = np.where(gust==0)
-- 
2.43.0

