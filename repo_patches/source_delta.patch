From 5e1a79ee54edbd2bd254cf7b49cb53360ef5c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 01/38] fix: ObscPolygon.containsGrid closing edge, output
 stride, multiple crossings per cell and input dtype/layout

---
 batoid/obscuration.py |  2 ++
 src/obscuration.cpp   | 14 ++++----------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 895fa27..680066a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -290,6 +290,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
+        xgrid = np.ascontiguousarray(xgrid, dtype=float)
+        ygrid = np.ascontiguousarray(ygrid, dtype=float)
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 20cc015..76ecb9f 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -261,7 +261,7 @@ namespace batoid {
             // Loop through edges to find all relevant x intercepts
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
-            for (int k=0; k<_size; k++) {
+            for (int k=1; k<=_size; k++) {
                 double x2 = _xp[k % _size];  // second point of segment
                 double y2 = _yp[k % _size];
                 if ((y > std::min(y1, y2)) && (y <= std::max(y1, y2)))
@@ -272,16 +272,10 @@ namespace batoid {
             std::sort(xinters.begin(), xinters.end());
             // All points to the left of first intercept are outside the polygon
             // Alternate after that.
-            bool contained = false;
-            auto xptr = xinters.begin();
             for (int i=0; i<nx; i++) {
-                if (xptr != xinters.end()) {
-                    if (xgrid[i] > *xptr) {
-                        contained = !contained;
-                        xptr++;
-                    }
-                }
-                out[j*ny+i] = contained;
+                auto xptr = std::lower_bound(xinters.begin(), xinters.end(), xgrid[i]);
+                bool contained = (xptr - xinters.begin()) % 2;
+                out[j*nx+i] = contained;
             }
         }
     }
-- 
2.43.0


From c18a0c9ead616f79982418d10f895f3ef49fb3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 02/38] fix: TableMedium reads past its table at the last
 wavelength and misreads non-float tables

---
 batoid/medium.py | 4 ++--
 src/medium.cpp   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index fff1e26..08b19ed 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -69,8 +69,8 @@ class TableMedium(Medium):
         Refractive indices.
     """
     def __init__(self, wavelengths, ns):
-        self.wavelengths = np.array(wavelengths)
-        self.ns = np.array(ns)
+        self.wavelengths = np.array(wavelengths, dtype=float, order='C')
+        self.ns = np.array(ns, dtype=float, order='C')
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
diff --git a/src/medium.cpp b/src/medium.cpp
index 77330aa..d1452dc 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -92,6 +92,8 @@ namespace batoid {
                 return NAN;
             if (wavelength > _args[_size-1])
                 return NAN;
+            if (wavelength == _args[_size-1])
+                return _vals[_size-1];
             int upperIdx;
             for(upperIdx=1; upperIdx<_size; upperIdx++) {
                 if (wavelength < _args[upperIdx])
-- 
2.43.0


From 8b8ec7902e0b644acc0e19be5897ccce21eadefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 03/38] fix: Asphere misreads integer coefficients when imin=1

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 1f15f40..5343ab8 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -393,7 +393,7 @@ class Asphere(Surface):
             padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
         else:
             padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs)
+        self._padded_coefs = np.ascontiguousarray(padded_coefs, dtype=float)
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From 3dc63761242bfbee71685296d51bb94eb279ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 04/38] fix: quadratic surface intersections with conic=-1,
 rays starting on the surface, and the off-sheet crossing

---
 src/paraboloid.cpp | 11 +++++++----
 src/quadric.cpp    | 47 +++++++++++++++++++++++++++++-----------------
 src/sphere.cpp     | 11 +++++++----
 3 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/src/paraboloid.cpp b/src/paraboloid.cpp
index d282c95..71cca8a 100644
--- a/src/paraboloid.cpp
+++ b/src/paraboloid.cpp
@@ -43,7 +43,7 @@ namespace batoid {
         double a = (vx*vx + vy*vy)*_2Rinv;
         double b = (x*vx + y*vy)*_Rinv - vz;
         double c = (x*x + y*y)*_2Rinv - z;
-        double dt1;
+        double dt1, dt2;
 
         if (a == 0) {
             // Ray is heading straight at optic axis.
@@ -57,11 +57,14 @@ namespace batoid {
             return false;
 
         if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
+            double q = -b - sqrt(discriminant);
+            dt1 = q / (2*a);
+            dt2 = 2*c / q;
         } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
+            double q = -b + sqrt(discriminant);
+            dt2 = q / (2*a);
+            dt1 = (q == 0) ? dt2 : 2*c / q;
         }
-        double dt2 = c / (a*dt1);
 
         // If vz down and paraboloid concave up, then pick greatest time;
         // I.e., intersection closest to the origin.
diff --git a/src/quadric.cpp b/src/quadric.cpp
index d04e43f..3d66364 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -43,30 +43,43 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double z0term = z-_Rcp1;
+        // Conic equation multiplied by (1+conic), so it stays regular for conic=-1
         double vrr0 = vx*x + vy*y;
+        double z0term = _cp1*z - _R;
+        double a = vx*vx + vy*vy + _cp1*vz*vz;
+        double b = 2*(vz*z0term + vrr0);
+        double c = x*x + y*y + z*(z0term - _R);
 
-        double a = vz*vz + (vx*vx+vy*vy)*_cp1inv;
-        double b = 2*(vz*z0term + vrr0*_cp1inv);
-        double c = z0term*z0term - _RRcp1cp1 + (x*x + y*y)*_cp1inv;
-
-        double discriminant = b*b - 4*a*c;
-
-        if (discriminant < 0)
-            return false;
-
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
+        double dt1, dt2;
+        if (a == 0) {
+            // Only a single crossing
+            if (b == 0)
+                return false;
+            dt1 = dt2 = -c/b;
         } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
+            double discriminant = b*b - 4*a*c;
+            if (discriminant < 0)
+                return false;
+            if (b > 0) {
+                double q = -b - sqrt(discriminant);
+                dt1 = q / (2*a);
+                dt2 = 2*c / q;
+            } else {
+                double q = -b + sqrt(discriminant);
+                dt2 = q / (2*a);
+                dt1 = (q == 0) ? dt2 : 2*c / q;
+            }
         }
-        double dt2 = c / (a*dt1);
 
-        // New strategy, just always pick smaller abs(z).
+        // Pick the crossing on the sheet described by sag, or else the smaller abs(z).
         double z1 = z + vz*dt1;
         double z2 = z + vz*dt2;
-        dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
+        bool sheet1 = _R*(_R - _cp1*z1) >= 0;
+        bool sheet2 = _R*(_R - _cp1*z2) >= 0;
+        if (sheet1 != sheet2)
+            dt = sheet1 ? dt1 : dt2;
+        else
+            dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
         return true;
     }
 
diff --git a/src/sphere.cpp b/src/sphere.cpp
index d0f505f..061485c 100644
--- a/src/sphere.cpp
+++ b/src/sphere.cpp
@@ -53,13 +53,16 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        double dt1;
+        double dt1, dt2;
         if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
+            double q = -b - sqrt(discriminant);
+            dt1 = q / (2*a);
+            dt2 = 2*c / q;
         } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
+            double q = -b + sqrt(discriminant);
+            dt2 = q / (2*a);
+            dt1 = (q == 0) ? dt2 : 2*c / q;
         }
-        double dt2 = c / (a*dt1);
 
         // If vz < 0, R > 0, want greatest time.
         dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
-- 
2.43.0


From 655f8b8128f8ba44aa7f4a71e558daed3e0526b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 05/38] fix: rays refracted where the index or the normal is
 undefined are marked failed

---
 src/batoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2627e2c..4955aa6 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -479,7 +479,7 @@ namespace batoid {
                     yptr[i] = y;
                     zptr[i] = z;
                     tptr[i] = t;
-                    if (sinsqr > 1.0) {  // total internal reflection
+                    if (!(sinsqr <= 1.0)) {  // total internal reflection (or undefined index)
                         vxptr[i] = std::numeric_limits<double>::quiet_NaN();
                         vyptr[i] = std::numeric_limits<double>::quiet_NaN();
                         vzptr[i] = std::numeric_limits<double>::quiet_NaN();
@@ -647,7 +647,7 @@ namespace batoid {
                     yptr[i] = y;
                     zptr[i] = z;
                     tptr[i] = t;
-                    if (sinsqr > 1.0) {  // total internal reflection
+                    if (!(sinsqr <= 1.0)) {  // total internal reflection (or undefined index)
                         vxptr[i] = std::numeric_limits<double>::quiet_NaN();
                         vyptr[i] = std::numeric_limits<double>::quiet_NaN();
                         vzptr[i] = std::numeric_limits<double>::quiet_NaN();
-- 
2.43.0


From cfbe7be34e52e61ac3f1626b20809fa9192b262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 06/38] fix: OPDScreen bends rays travelling towards +z against
 the delay it adds

---
 src/batoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 4955aa6..b3dfe33 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -805,8 +805,8 @@ namespace batoid {
                         cos2 += dPd2;
                         cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     } else {
-                        cos1 -= dPd1;
-                        cos2 -= dPd2;
+                        cos1 += dPd1;
+                        cos2 += dPd2;
                         cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     }
 
-- 
2.43.0


From 08e4f08a62014bfe75612a80dd8997086ab77ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 07/38] fix: rays a phase screen cannot redirect are marked
 failed

---
 src/batoid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index b3dfe33..06eb012 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -836,6 +836,12 @@ namespace batoid {
                     yptr[i] = y;
                     zptr[i] = z;
                     tptr[i] = t;
+
+                    // no real direction left, or off the edge of the screen
+                    if (!(cos1*cos1 + cos2*cos2 <= 1.0)) {
+                        failptr[i] = true;
+                        vigptr[i] = true;
+                    }
                 } else {
                     failptr[i] = true;
                     vigptr[i] = true;
-- 
2.43.0


From 1e49ee9317ae56d1eea2fa6cd3461f7c0f8604fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 08/38] fix: Optic ignores its skip argument

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b63277..d8da8dd 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -41,7 +41,7 @@ class Optic:
         self.coordSys = coordSys
         self.inMedium = inMedium
         self.outMedium = outMedium
-        self.skip = False
+        self.skip = skip
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From 360324158720f7f55135b42a8bbd3eda5cb12bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 09/38] fix: traceSplit returns lists for skipped optics

---
 batoid/optic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index d8da8dd..9c6ded2 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -503,10 +503,12 @@ class Interface(Optic):
                            "flux = {:18.8f}   nphot = {:10d}")
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
+            if not hasattr(rv, 'path'):
+                rv.path = []
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
         refracted, reflected = self.rSplit(rv, reverse=reverse)
 
         # For now, apply obscuration equally forwards and backwards
@@ -1224,10 +1226,12 @@ class CompoundOptic(Optic):
                            "flux = {:18.8f}   nphot = {:10d}")
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
+            if not hasattr(rv, 'path'):
+                rv.path = []
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
 
         if not reverse:
             workQueue = [(rv, "forward", 0)]
-- 
2.43.0


From 0cbd2824bfceadd2addee6454179f02a46fed953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 10/38] fix: OPDScreen.rSplit calls a method that does not
 exist

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 9c6ded2..5134cc7 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -925,7 +925,7 @@ class OPDScreen(Interface):
 
     def rSplit(self, rv, reverse=False):
         # Can only go forward for now.
-        return self.surface.interact(rv), None
+        return self.interact(rv, reverse=reverse), None
 
 
 class CompoundOptic(Optic):
-- 
2.43.0


From 089b732f1be18d9272032663a2c515bd4dd6efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 11/38] fix: optics whose name is a prefix of a sibling's name
 can be perturbed

---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 5134cc7..6f6d5ae 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1441,7 +1441,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withGlobalShift(shift))
                 else:
@@ -1604,7 +1604,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withLocalRotation(
                         rot, rotCenter, coordSys
@@ -1652,7 +1652,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withSurface(surface))
                 else:
-- 
2.43.0


From 2069aa626d069acae6dea470af4fb874250e8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 12/38] fix: RefractiveInterface.rSplit uses the coating of the
 opposite direction

---
 batoid/optic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 6f6d5ae..ae41297 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -786,11 +786,11 @@ class RefractiveInterface(Interface):
         if reverse:
             m1 = self.outMedium
             m2 = self.inMedium
-            coating = self.forwardCoating
+            coating = self.reverseCoating
         else:
             m1 = self.inMedium
             m2 = self.outMedium
-            coating = self.reverseCoating
+            coating = self.forwardCoating
 
         return self.surface.rSplit(rv, m1, m2, coating, coordSys=self.coordSys)
 
-- 
2.43.0


From 909ffc0424d1519036cfc0ce37b655fa031ce446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 13/38] fix: Interface.withLocalRotation rotates its stop
 surface about other axes

---
 batoid/optic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index ae41297..64463a5 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -683,8 +683,8 @@ class Interface(Optic):
             rot, rotCenter, coordSys
         )
         if 'stopSurface' in newDict:
-            newDict['stopSurface'] = newDict['stopSurface'].withLocalRotation(
-                rot, rotCenter, coordSys
+            newDict['stopSurface'] = newDict['stopSurface'].withGlobalRotation(
+                self.coordSys.rot@rot@self.coordSys.rot.T, rotCenter, coordSys
             )
         del newDict['surface']
         ret.__init__(
-- 
2.43.0


From f9fad929d1e9cc052bf2d1548455a7179fbd74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 14/38] fix: perturbing an optic resets its coatings

---
 batoid/optic.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 64463a5..f808dea 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -763,13 +763,13 @@ class RefractiveInterface(Interface):
     Rays will interact with this surface by refracting through it.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def interact(self, rv, reverse=False):
         if reverse:
@@ -801,13 +801,13 @@ class Mirror(Interface):
     Rays will interact with this surface by reflecting off of it.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def interact(self, rv, reverse=False):
         # reflect is independent of reverse
@@ -829,11 +829,11 @@ class Detector(Interface):
     stop with this `Interface`.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = None
+        ))
+        kwargs.setdefault('reverseCoating', None)
+        Interface.__init__(self, *args, **kwargs)
 
     def rSplit(self, rv, reverse=False):
         assert reverse == False
@@ -850,13 +850,13 @@ class Baffle(Interface):
     the vignetting calculation will still be applied at this `Interface`.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def rSplit(self, rv, reverse=False):
         return self.surface.intersect(rv, self.coordSys), None
-- 
2.43.0


From c4ddb263cb40ddac4b95781fc054997eb1786369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 15/38] fix: RayVector index -k returns several rays, numpy
 integer index a broken RayVector

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c639ee4..87c08b9 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1318,7 +1318,7 @@ class RayVector:
          self._failed, self.coordSys) = args
 
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, Integral):
             if idx >= 0:
                 if idx >= self._rv.t.size:
                     msg = "index {} is out of bounds for axis 0 with size {}"
@@ -1330,7 +1330,7 @@ class RayVector:
                     msg = "index {} is out of bounds for axis 0 with size {}"
                     msg = msg.format(idx, self._rv.t.size)
                     raise IndexError(msg)
-                idx = slice(self._rv.t.size+idx, self._rv.t.size-idx+1)
+                idx = slice(self._rv.t.size+idx, self._rv.t.size+idx+1)
 
         self._syncToHost()
         return RayVector._directInit(
-- 
2.43.0


From 4e0a070120cb703558738cd7bef8b31418915b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 16/38] fix: RayVector comparison reads past the end of shorter
 batches and ignores coordSys

---
 batoid/rayVector.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 87c08b9..97a3cac 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1290,10 +1290,15 @@ class RayVector:
         return self._t.size
 
     def __eq__(self, rhs):
-        return self._rv == rhs._rv
+        if not isinstance(rhs, RayVector): return False
+        return (
+            len(self) == len(rhs)
+            and self.coordSys == rhs.coordSys
+            and self._rv == rhs._rv
+        )
 
     def __ne__(self, rhs):
-        return self._rv != rhs._rv
+        return not (self == rhs)
 
     def __repr__(self):
         out = f"RayVector({self.x!r}, {self.y!r}, {self.z!r}"
-- 
2.43.0


From 9f3414653ef8b83fb952011e57d1cdbe9d5a363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 17/38] fix: concatenateRayVectors mixes coordinate systems

---
 batoid/rayVector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 97a3cac..4758f2f 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1354,6 +1354,12 @@ class RayVector:
         )
 
 def concatenateRayVectors(rvs):
+    # Express all the rays in the coordinate system of the first batch.
+    coordSys = rvs[0].coordSys
+    rvs = [
+        rv if rv.coordSys == coordSys else rv.copy().toCoordSys(coordSys)
+        for rv in rvs
+    ]
     return RayVector(
         np.hstack([rv.x for rv in rvs]),
         np.hstack([rv.y for rv in rvs]),
-- 
2.43.0


From de0e1bfafd6c8ad84db039c7eb6c9c71e07b2b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 18/38] fix: RayVector.fromStop overwrites its arguments and
 misreads strided ones

---
 batoid/rayVector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 4758f2f..111ccb3 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -967,8 +967,10 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
-        x = np.atleast_1d(x).astype(float, copy=False)
-        y = np.atleast_1d(y).astype(float, copy=False)
+        x, y = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(y))
+        # Copy, since these get modified in place below.
+        x = np.array(x, dtype=float, order='C')
+        y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
-- 
2.43.0


From e2cad2bf2932da0146db7047d51bb3ec61384895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 19/38] fix: RayVector factories misread integer fluxes and
 alias flux arrays

---
 batoid/rayVector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 111ccb3..5b08441 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -818,8 +818,7 @@ class RayVector:
         cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
     ):
         """Map rays backwards to their source position."""
-        if isinstance(flux, Real):
-            flux = np.full(len(x), float(flux))
+        flux = np.array(np.broadcast_to(flux, x.shape), dtype=float)
         if source is None:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
-- 
2.43.0


From d4f1aaa88994a9c20ca6b841e49d711780f3fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 20/38] fix: RayVector.asSpokes uses an integer number of
 spokes as an angle when rings is an array

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 5b08441..b71513a 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -792,8 +792,8 @@ class RayVector:
                 area = np.pi*(1-eps**2)
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
                 flux = w*area/(2*spokes)
-            if isinstance(spokes, Integral):
-                spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+        if isinstance(spokes, Integral):
+            spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
-- 
2.43.0


From bd3b9c2536fee5f7c4f8f0f2b2f1839758c9c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 21/38] fix: RayVector factories return NaN positions for rays
 along the x axis

---
 batoid/rayVector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index b71513a..96fa7ba 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -823,7 +823,10 @@ class RayVector:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
             zhat = -n*vv
-            xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
+            if abs(zhat[0]) < 0.9:
+                xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
+            else:
+                xhat = np.cross(np.array([0.0, 1.0, 0.0]), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
             origin = zhat*backDist
-- 
2.43.0


From 5671be879a292bb99bf18d4bb99d585878bd83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 22/38] fix: RayVector.fromFieldAngles overwrites its arguments

---
 batoid/rayVector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 96fa7ba..e468966 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1064,9 +1064,9 @@ class RayVector:
 
         vx, vy, vz = fieldToDirCos(theta_x, theta_y, projection=projection)
         n = medium.getN(wavelength)
-        vx /= n
-        vy /= n
-        vz /= n
+        vx = vx/n
+        vy = vy/n
+        vz = vz/n
 
         z = stopSurface.surface.sag(x, y)
         x = np.full_like(vx, x)
-- 
2.43.0


From 7a3bfe2fdc8c38953c774c5750f80c01e2c573dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 23/38] fix: RayVector factories measure backDist from the
 origin of coordSys instead of the stop surface

---
 batoid/rayVector.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index e468966..d4a613c 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -440,7 +440,7 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys, stopSurface
         )
 
     @classmethod
@@ -639,7 +639,7 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys, stopSurface
         )
 
     @classmethod
@@ -810,12 +810,12 @@ class RayVector:
         w.fill(wavelength)
         n = medium.getN(wavelength)
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys, stopSurface
         )
 
     @classmethod
     def _finish(
-        cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+        cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys, stopSurface
     ):
         """Map rays backwards to their source position."""
         flux = np.array(np.broadcast_to(flux, x.shape), dtype=float)
@@ -829,7 +829,10 @@ class RayVector:
                 xhat = np.cross(np.array([0.0, 1.0, 0.0]), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
-            origin = zhat*backDist
+            vertex = CoordTransform(
+                stopSurface.coordSys, coordSys
+            ).applyForwardArray(0.0, 0.0, stopSurface.surface.sag(0.0, 0.0))
+            origin = vertex + zhat*backDist
             rot = np.stack([xhat, yhat, zhat]).T
             _batoid.finishParallel(
                 origin, rot.ravel(), vv,
@@ -982,7 +985,7 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys, stopSurface
         )
 
     @classmethod
-- 
2.43.0


From 16ef3c815ac5642c3afe72af1fa3a399c92ce3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 24/38] fix: RayVector factories return None for rays from a
 finite source

---
 batoid/rayVector.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index d4a613c..d8826a1 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -850,17 +850,16 @@ class RayVector:
                 flux, vignetted, failed, coordSys
             )
         else:
-            pass
-            # v = np.copy(r)
-            # v -= source
-            # v /= n*np.einsum('ab,ab->b', v, v)
-            # r[:] = source
-            # t = np.zeros(len(r), dtype=float)
-            # vignetted = np.zeros(len(r), dtype=bool)
-            # failed = np.zeros(len(r), dtype=bool)
-            # return RayVector._directInit(
-            #     r, v, t, w, flux, vignetted, failed, coordSys
-            # )
+            # Rays start from the source, heading for their stop surface points
+            source = CoordTransform(
+                globalCoordSys, coordSys
+            ).applyForwardArray(*source)
+            v = np.stack([x, y, z]) - source[:, None]
+            v /= n*np.sqrt(np.sum(v*v, axis=0))
+            return RayVector(
+                source[0], source[1], source[2], v[0], v[1], v[2],
+                0.0, w, flux, coordSys=coordSys
+            )
 
     @classmethod
     def fromStop(
-- 
2.43.0


From 17345dcae8010ab9382cf979776442160f13918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 25/38] fix: RayVector.asGrid with vector dx, or with dx and
 two rays per side

---
 batoid/rayVector.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index d8826a1..2a938c7 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -371,7 +371,10 @@ class RayVector:
         if nx is not None and ny is None:
             ny = nx
         if dx is not None and dy is None:
-            dy = dx
+            if isinstance(dx, Real):
+                dy = dx
+            else:
+                dy = np.dot(np.array([[0, -1], [1, 0]]), dx)
         if lx is not None and ly is None:
             if isinstance(lx, Real):
                 ly = lx
@@ -381,14 +384,15 @@ class RayVector:
         # We need lx, ly, nx, ny for below, so construct these from other
         # arguments if they're not already available.
         if nx is not None and dx is not None:
+            # Note special case for n=2, where the ray separation is l/2.
             if (nx%2) == 0:
-                lx = dx*(nx-2)
+                lx = np.multiply(dx, max(nx-2, 2))
             else:
-                lx = dx*(nx-1)
+                lx = np.multiply(dx, nx-1)
             if (ny%2) == 0:
-                ly = dy*(ny-2)
+                ly = np.multiply(dy, max(ny-2, 2))
             else:
-                ly = dy*(ny-1)
+                ly = np.multiply(dy, ny-1)
         elif lx is not None and dx is not None:
             # adjust dx in this case
             # always infer an even n (since even and odd are degenerate given
-- 
2.43.0


From e2f210585e5b425b52fcb7447324ac4a59b43f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 26/38] fix: CoordTransform array methods mix up the axes of
 2-d arrays

---
 batoid/coordTransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/coordTransform.py b/batoid/coordTransform.py
index 3f4a08a..0c37ced 100644
--- a/batoid/coordTransform.py
+++ b/batoid/coordTransform.py
@@ -87,7 +87,7 @@ class CoordTransform:
         """
         r = np.array([x, y, z], dtype=float, copy=True).T
         r -= self.dr
-        return self.drot.T@r.T
+        return np.tensordot(self.drot.T, r.T, axes=1)
 
     def applyReverseArray(self, x, y, z):
         """Apply reverse-direction transformation to ndarrays.
@@ -108,7 +108,7 @@ class CoordTransform:
         returns a newly created ndarray.
         """
         r = np.array([x, y, z], dtype=float, copy=True)
-        r = (self.drot@r).T
+        r = np.tensordot(self.drot, r, axes=1).T
         r += self.dr
         return r.T
 
-- 
2.43.0


From 904399f3d7a1367a03e7222b6460caadb0089829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 27/38] fix: reciprocal lattice vectors of non-orthogonal
 lattices

---
 batoid/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 06f2d2c..6a36d70 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -7,8 +7,8 @@ from .utils import bilinear_fit, fieldToDirCos
 
 def _reciprocalLatticeVectors(a1, a2, N):
     norm = 2*np.pi/(a1[0]*a2[1] - a1[1]*a2[0])/N
-    b1 = norm*np.array([a2[1], a2[0]])
-    b2 = norm*np.array([a1[1], a1[0]])
+    b1 = norm*np.array([a2[1], -a2[0]])
+    b2 = norm*np.array([-a1[1], a1[0]])
     return b1, b2
 
 
-- 
2.43.0


From fdef0e4cd9c51552706f7ab2e693cdbe7847bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 28/38] fix: fftPSF fails for an odd number of rays per side

---
 batoid/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 6a36d70..92fc6cd 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -458,7 +458,7 @@ def fftPSF(
     pad_size = nx*pad_factor
     expwf = np.zeros((pad_size, pad_size), dtype=np.complex128)
     start = pad_size//2-nx//2
-    stop = pad_size//2+nx//2
+    stop = start+nx
     expwf[start:stop, start:stop][~wfarr.mask] = \
         np.exp(2j*np.pi*wfarr[~wfarr.mask])
     psf = np.abs(np.fft.fftshift(np.fft.fft2(expwf)))**2
-- 
2.43.0


From 723ed40fb1f88d7d099251551b29ac6cbb6b134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 29/38] fix: parsing consumes the config, so that repeated
 parts of a yaml file fail to parse

---
 batoid/parse.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/batoid/parse.py b/batoid/parse.py
index 6e0c039..092effd 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -4,6 +4,9 @@ import numpy as np
 
 
 def parse_obscuration(config):
+    # This dict may be referenced again elsewhere in the config, so copy it
+    # before parsing
+    config = dict(**config)
     typ = config.pop('type')
     if typ in [
         'ObscCircle', 'ObscAnnulus', 'ObscRay', 'ObscRectangle', 'ObscPolygon'
@@ -26,6 +29,9 @@ def parse_obscuration(config):
 
 
 def parse_surface(config):
+    # This dict may be referenced again elsewhere in the config, so copy it
+    # before parsing
+    config = dict(**config)
     typ = config.pop('type')
     if typ == 'Sum':
         items = [parse_surface(c) for c in config['items']]
@@ -96,6 +102,9 @@ def parse_optic(config,
     @param inMedium  default in Medium, often set by optic parent
     @param outMedium default out Medium, often set by optic parent
     """
+    # This dict may be referenced again elsewhere in the config, so copy it
+    # before parsing
+    config = dict(**config)
     if 'obscuration' in config:
         obscuration = parse_obscuration(config.pop('obscuration'))
     else:
-- 
2.43.0


From 729f71e2d315264f2caf019a23201fe5218215ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 30/38] fix: parse_optic drops the obscuration and the media of
 an Interface

---
 batoid/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/parse.py b/batoid/parse.py
index 092effd..2299a1e 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -217,7 +217,8 @@ def parse_optic(config,
         surface = parse_surface(config.pop('surface'))
         return batoid.optic.Interface(
             surface, name=name,
-            coordSys=coordSys,
+            coordSys=coordSys, obscuration=obscuration,
+            inMedium=inMedium, outMedium=outMedium,
             **kwargs
         )
     else:
-- 
2.43.0


From 44d9c0bdfc42ac66798b372cfd4cd296b1496189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 31/38] fix: equal Bicubic surfaces with different hashes

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 5343ab8..3a0d8fa 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -611,7 +611,7 @@ class Bicubic(Surface):
         return hash((
             "Bicubic", tuple(self.xs), tuple(self.ys), tuple(self.zs.ravel()),
             tuple(self.dzdxs.ravel()), tuple(self.dzdys.ravel()),
-            tuple(self.d2zdxdys.ravel()), self.nanpolicy
+            tuple(self.d2zdxdys.ravel()), self.nanpolicy.upper()
         ))
 
     def __setstate__(self, args):
-- 
2.43.0


From daaef84aa7787310a9e0688dbabcb086f95e8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 32/38] fix: comparing ObscPolygons with different numbers of
 vertices

---
 batoid/obscuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 680066a..9a3403a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -268,8 +268,8 @@ class ObscPolygon(Obscuration):
     def __eq__(self, rhs):
         if type(rhs) == type(self):
             return (
-                np.all(self.xs == rhs.xs)
-                and np.all(self.ys == rhs.ys)
+                np.array_equal(self.xs, rhs.xs)
+                and np.array_equal(self.ys, rhs.ys)
             )
         return False
 
-- 
2.43.0


From 2ac64a84c678011301593275221b6f9e5c52447b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:26 +0000
Subject: [PATCH 33/38] fix: hexapolar with one ring returns a point at the
 origin instead of the outer ring

---
 batoid/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 7d9b94b..69376fd 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -516,7 +516,7 @@ def hexapolar(outer=1.0, inner=0.0, nrad=5, naz=30, kfold=6, rth=False):
         if nphi == 0:
             nphi = kfold
         nphis.append(nphi)
-    if inner == 0.0:
+    if rhos[-1] == 0.0:
         nphis[-1] = 1
     n = np.sum(nphis)
     th = np.empty(n)
@@ -526,7 +526,7 @@ def hexapolar(outer=1.0, inner=0.0, nrad=5, naz=30, kfold=6, rth=False):
         rr[idx:idx+nphi] = rho
         th[idx:idx+nphi] = np.linspace(0, 2*np.pi, nphi, endpoint=False)
         idx += nphi
-    if inner == 0.0:
+    if rhos[-1] == 0.0:
         rr[-1] = 0.0
         th[-1] = 0.0
     if rth:
-- 
2.43.0


From da9663aa620a9fed7d695b076701aa87e91fbf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 34/38] fix: RayVector.asGrid transposes the primitive vectors
 of the grid

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 2a938c7..60d38a0 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -433,8 +433,8 @@ class RayVector:
             xx = xx.ravel()
             yy = yy.ravel()
         stack = np.stack([xx, yy])
-        x = np.dot(lx, stack)
-        y = np.dot(ly, stack)
+        # lx and ly are the primitive vectors of the grid.
+        x, y = np.ascontiguousarray(np.dot(np.transpose([lx, ly]), stack))
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
-- 
2.43.0


From 87af119ced3ba15e116155fbde10da02acd404d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 35/38] fix: PFS.yaml cannot be loaded: YAML 1.1 floats need a
 signed exponent

---
 batoid/data/PFS/PFS.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/data/PFS/PFS.yaml b/batoid/data/PFS/PFS.yaml
index 8b499d6..6df43ed 100644
--- a/batoid/data/PFS/PFS.yaml
+++ b/batoid/data/PFS/PFS.yaml
@@ -152,7 +152,7 @@ opticalSystem:
             type: Asphere
             R: -0.8160784449707
             conic: 0.0
-            coefs: [15.794016512640001, 1.096767066453e5, -5.9917366145880001e7, 1.119542606394e10]
+            coefs: [15.794016512640001, 1.096767066453e+5, -5.9917366145880001e+7, 1.119542606394e+10]
           obscuration:
             type: ClearCircle
             radius: 0.045264242758568948
-- 
2.43.0


From 813eb375edd9cb480851b26996a2e699f9200e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 36/38] fix: Obscuration.obscure returns the rays, as
 documented

---
 batoid/obscuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 9a3403a..b3e7d72 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -39,7 +39,7 @@ class Obscuration:
         out : `RayVector`
             Returned object will have appropriate elements marked as vignetted.
         """
-        obscure(self, rv)
+        return obscure(self, rv)
 
     def __ne__(self, rhs):
         return not (self == rhs)
-- 
2.43.0


From 03492fabf81149d02ce09086fa10fb0de94c6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 37/38] fix: zernikeGQ traces its chief ray from the optic's
 coordinate system

---
 batoid/analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 92fc6cd..f5fa0e9 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -673,6 +673,7 @@ def zernikeGQ(
         chiefRay = batoid.RayVector.fromStop(
             0.0, 0.0,
             backDist=optic.backDist, wavelength=wavelength,
+            coordSys=optic.coordSys,
             dirCos=dirCos,
             medium=optic.inMedium,
             stopSurface=optic.stopSurface
-- 
2.43.0


From ace08ce61ae78c59edc61b83754c8bfb1771def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 38/38] fix: inserting or removing an optic fails when another
 short name is ambiguous

withInsertedOptic and withRemovedOptic looked up the short name of every
item, which raises KeyError when that name also occurs elsewhere in the
tree.  Compare full names instead.
---
 batoid/optic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index f808dea..eb5c476 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1712,7 +1712,7 @@ class CompoundOptic(Optic):
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for i, it in enumerate(self.items):
-            if self._names[it.name] == self._names[before]:
+            if self.name + '.' + it.name == before:
                 newItems.append(item)
             newItems.append(it)
         return self.__class__(
@@ -1741,7 +1741,7 @@ class CompoundOptic(Optic):
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for it in self.items:
-            if self._names[it.name] != self._names[item]:
+            if self.name + '.' + it.name != item:
                 newItems.append(it)
         return self.__class__(
             newItems,
-- 
2.43.0

