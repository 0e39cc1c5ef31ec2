From 7bd75f5099ca4d1999dde244f01921800f4e535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 01/42] fix: sphere and quadric intersections of rays starting
 on the surface, paraboloidal quadrics, and hits on the branch away from the
 vertex

---
 src/quadric.cpp | 38 +++++++++++++++++++++++---------------
 src/sphere.cpp  | 24 ++++++++++++++++--------
 2 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/quadric.cpp b/src/quadric.cpp
index d04e43f..84339e8 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -43,30 +43,38 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double z0term = z-_Rcp1;
-        double vrr0 = vx*x + vy*y;
-
-        double a = vz*vz + (vx*vx+vy*vy)*_cp1inv;
-        double b = 2*(vz*z0term + vrr0*_cp1inv);
-        double c = z0term*z0term - _RRcp1cp1 + (x*x + y*y)*_cp1inv;
+        // Points on the conic satisfy r^2 - 2 R z + (1+conic) z^2 = 0.
+        double a = _cp1*vz*vz + vx*vx + vy*vy;
+        double b = 2*(_cp1*vz*z - _R*vz + vx*x + vy*y);
+        double c = _cp1*z*z - 2*_R*z + x*x + y*y;
 
         double discriminant = b*b - 4*a*c;
 
         if (discriminant < 0)
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        // The two roots are q/a and c/q; neither is divided by the other, so a
+        // ray starting on the surface (c == 0) is fine.
+        double q = (b > 0) ? -0.5*(b + sqrt(discriminant)) : -0.5*(b - sqrt(discriminant));
+        if (a == 0 && q == 0)
+            return false;
+        double dta = (a == 0) ? c/q : q/a;
+        double dtc = (q == 0) ? dta : c/q;
+        double dt1 = (b > 0) ? dta : dtc;
+        double dt2 = (b > 0) ? dtc : dta;
 
-        // New strategy, just always pick smaller abs(z).
+        // New strategy, just always pick smaller abs(z)...
         double z1 = z + vz*dt1;
         double z2 = z + vz*dt2;
-        dt = (std::abs(z1) < std::abs(z2)) ? dt1 : dt2;
+        bool first = std::abs(z1) < std::abs(z2);
+        // ...of the points on the branch through the vertex, where the sag is.
+        bool ok1 = (_R - _cp1*z1)*_R >= 0;
+        bool ok2 = (_R - _cp1*z2)*_R >= 0;
+        if (!ok1 && !ok2)
+            return false;
+        if (ok1 != ok2)
+            first = ok1;
+        dt = first ? dt1 : dt2;
         return true;
     }
 
diff --git a/src/sphere.cpp b/src/sphere.cpp
index d0f505f..5ed0a62 100644
--- a/src/sphere.cpp
+++ b/src/sphere.cpp
@@ -53,16 +53,24 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        // The two roots are q/a and c/q; neither is divided by the other, so a
+        // ray starting on the surface (c == 0) is fine.
+        double q = (b > 0) ? -0.5*(b + sqrt(discriminant)) : -0.5*(b - sqrt(discriminant));
+        double dt1 = q/a;
+        double dt2 = (q == 0) ? dt1 : c/q;
 
         // If vz < 0, R > 0, want greatest time.
-        dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
+        double dtmin = std::min(dt1, dt2);
+        double dtmax = std::max(dt1, dt2);
+        bool late = vz*_R < 0;
+        // The sag only describes the half through the vertex.
+        bool okmin = (_R - z - vz*dtmin)*_R >= 0;
+        bool okmax = (_R - z - vz*dtmax)*_R >= 0;
+        if (!okmin && !okmax)
+            return false;
+        if (okmin != okmax)
+            late = okmax;
+        dt = late ? dtmax : dtmin;
         return true;
     }
 
-- 
2.43.0


From 661b5c35db612016e43fc200cedb929706822aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 02/42] fix: ObscPolygon.containsGrid agrees with contains
 (indexing, closing edge, several crossings between nodes)

---
 src/obscuration.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 20cc015..04af05a 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -261,7 +261,7 @@ namespace batoid {
             // Loop through edges to find all relevant x intercepts
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
-            for (int k=0; k<_size; k++) {
+            for (int k=1; k<=_size; k++) {
                 double x2 = _xp[k % _size];  // second point of segment
                 double y2 = _yp[k % _size];
                 if ((y > std::min(y1, y2)) && (y <= std::max(y1, y2)))
@@ -272,16 +272,9 @@ namespace batoid {
             std::sort(xinters.begin(), xinters.end());
             // All points to the left of first intercept are outside the polygon
             // Alternate after that.
-            bool contained = false;
-            auto xptr = xinters.begin();
             for (int i=0; i<nx; i++) {
-                if (xptr != xinters.end()) {
-                    if (xgrid[i] > *xptr) {
-                        contained = !contained;
-                        xptr++;
-                    }
-                }
-                out[j*ny+i] = contained;
+                auto xptr = std::lower_bound(xinters.begin(), xinters.end(), xgrid[i]);
+                out[j*nx+i] = (xptr - xinters.begin()) % 2 == 1;
             }
         }
     }
-- 
2.43.0


From c724f864961f3bbc484e936c6952af38f1bd3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 03/42] fix: negative RayVector index selects exactly one ray

---
 batoid/rayVector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c639ee4..df4f654 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1330,7 +1330,7 @@ class RayVector:
                     msg = "index {} is out of bounds for axis 0 with size {}"
                     msg = msg.format(idx, self._rv.t.size)
                     raise IndexError(msg)
-                idx = slice(self._rv.t.size+idx, self._rv.t.size-idx+1)
+                idx = slice(self._rv.t.size+idx, self._rv.t.size+idx+1)
 
         self._syncToHost()
         return RayVector._directInit(
-- 
2.43.0


From 5286632fefa70f9606921ab6aa74f5569942b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 04/42] fix: TableMedium converts its tables to float and stays
 inside them at the last wavelength

---
 batoid/medium.py | 4 ++--
 src/medium.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index fff1e26..08b19ed 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -69,8 +69,8 @@ class TableMedium(Medium):
         Refractive indices.
     """
     def __init__(self, wavelengths, ns):
-        self.wavelengths = np.array(wavelengths)
-        self.ns = np.array(ns)
+        self.wavelengths = np.array(wavelengths, dtype=float, order='C')
+        self.ns = np.array(ns, dtype=float, order='C')
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
diff --git a/src/medium.cpp b/src/medium.cpp
index 77330aa..36c730b 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -93,7 +93,7 @@ namespace batoid {
             if (wavelength > _args[_size-1])
                 return NAN;
             int upperIdx;
-            for(upperIdx=1; upperIdx<_size; upperIdx++) {
+            for(upperIdx=1; upperIdx<_size-1; upperIdx++) {
                 if (wavelength < _args[upperIdx])
                     break;
             }
-- 
2.43.0


From 1c8d246219afdf196a15659829034c8927e10c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 05/42] fix: signs of the reciprocal lattice vectors of a
 skewed lattice

---
 batoid/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 06f2d2c..6a36d70 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -7,8 +7,8 @@ from .utils import bilinear_fit, fieldToDirCos
 
 def _reciprocalLatticeVectors(a1, a2, N):
     norm = 2*np.pi/(a1[0]*a2[1] - a1[1]*a2[0])/N
-    b1 = norm*np.array([a2[1], a2[0]])
-    b2 = norm*np.array([a1[1], a1[0]])
+    b1 = norm*np.array([a2[1], -a2[0]])
+    b2 = norm*np.array([-a1[1], a1[0]])
     return b1, b2
 
 
-- 
2.43.0


From 08c636467828f42b5812a86aa90c199ba65e7f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 06/42] fix: Optic honours its skip argument

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b63277..d8da8dd 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -41,7 +41,7 @@ class Optic:
         self.coordSys = coordSys
         self.inMedium = inMedium
         self.outMedium = outMedium
-        self.skip = False
+        self.skip = skip
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From 3a80755dd4abe484b22ad63d60618d3ac89e62c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 07/42] fix: moving or resurfacing an interface keeps its
 coatings

---
 batoid/optic.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index d8da8dd..d87e771 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -762,12 +762,12 @@ class RefractiveInterface(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        self.__dict__.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        self.__dict__.setdefault('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
 
     def interact(self, rv, reverse=False):
         if reverse:
@@ -800,12 +800,12 @@ class Mirror(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        self.__dict__.setdefault('forwardCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        self.__dict__.setdefault('reverseCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
+        ))
 
     def interact(self, rv, reverse=False):
         # reflect is independent of reverse
@@ -828,10 +828,10 @@ class Detector(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        self.__dict__.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = None
+        ))
+        self.__dict__.setdefault('reverseCoating', None)
 
     def rSplit(self, rv, reverse=False):
         assert reverse == False
@@ -849,12 +849,12 @@ class Baffle(Interface):
     """
     def __init__(self, *args, **kwargs):
         Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        self.__dict__.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        self.__dict__.setdefault('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
 
     def rSplit(self, rv, reverse=False):
         return self.surface.intersect(rv, self.coordSys), None
-- 
2.43.0


From 6437475ade6891eabc0a1669982f3582e5b6494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 08/42] fix: RefractiveInterface.rSplit uses the coating of its
 direction

---
 batoid/optic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index d87e771..15e73a5 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -784,11 +784,11 @@ class RefractiveInterface(Interface):
         if reverse:
             m1 = self.outMedium
             m2 = self.inMedium
-            coating = self.forwardCoating
+            coating = self.reverseCoating
         else:
             m1 = self.inMedium
             m2 = self.outMedium
-            coating = self.reverseCoating
+            coating = self.forwardCoating
 
         return self.surface.rSplit(rv, m1, m2, coating, coordSys=self.coordSys)
 
-- 
2.43.0


From 4ab362b160c7e08d17ce6b1d331960b605cda038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 09/42] fix: OPDScreen.rSplit crosses the screen

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 15e73a5..2bfe6fd 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -923,7 +923,7 @@ class OPDScreen(Interface):
 
     def rSplit(self, rv, reverse=False):
         # Can only go forward for now.
-        return self.surface.interact(rv), None
+        return self.interact(rv, reverse=reverse), None
 
 
 class CompoundOptic(Optic):
-- 
2.43.0


From eb10d994a7bab260b815edd909cf9972b746a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 10/42] fix: Interface.withLocalRotation rotates the stop
 surface by the same rotation

---
 batoid/optic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 2bfe6fd..1d39be1 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -681,8 +681,9 @@ class Interface(Optic):
             rot, rotCenter, coordSys
         )
         if 'stopSurface' in newDict:
-            newDict['stopSurface'] = newDict['stopSurface'].withLocalRotation(
-                rot, rotCenter, coordSys
+            # rot is wrt to our local axes, which may not be the stop's
+            newDict['stopSurface'] = newDict['stopSurface'].withGlobalRotation(
+                self.coordSys.rot@rot@self.coordSys.rot.T, rotCenter, coordSys
             )
         del newDict['surface']
         ret.__init__(
-- 
2.43.0


From 955380ab3cdddabd7a184c5e9a1db1bb4b6e731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 11/42] fix: components sharing a name prefix are told apart
 when moved or resurfaced

---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 1d39be1..43b7877 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1438,7 +1438,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+"."):
                 if name == item.name:
                     newItems.append(item.withGlobalShift(shift))
                 else:
@@ -1601,7 +1601,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+"."):
                 if name == item.name:
                     newItems.append(item.withLocalRotation(
                         rot, rotCenter, coordSys
@@ -1649,7 +1649,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+"."):
                 if name == item.name:
                     newItems.append(item.withSurface(surface))
                 else:
-- 
2.43.0


From 8d4d9c1c17b5c2ab58407014210aa89ce905511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 12/42] fix: insert and remove components at any depth

---
 batoid/optic.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 43b7877..1b3624d 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1702,15 +1702,19 @@ class CompoundOptic(Optic):
             Optic with inserted item.
         """
         before = self._names.get(before, before)
-        if before not in self.itemDict:
+        if before not in self.itemDict or before == self.name:
             raise ValueError("Optic {} not found".format(before))
+        # before is fully qualified, so clip off leading token
+        before = before[len(self.name)+1:]
         newItems = []
         newDict = dict(self.__dict__)
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for i, it in enumerate(self.items):
-            if self._names[it.name] == self._names[before]:
+            if before == it.name:
                 newItems.append(item)
+            elif before.startswith(it.name+"."):
+                it = it.withInsertedOptic(before, item)
             newItems.append(it)
         return self.__class__(
             newItems,
@@ -1731,14 +1735,18 @@ class CompoundOptic(Optic):
             Optic without removed item.
         """
         item = self._names.get(item, item)
-        if item not in self.itemDict:
+        if item not in self.itemDict or item == self.name:
             raise ValueError("Optic {} not found".format(item))
+        # item is fully qualified, so clip off leading token
+        item = item[len(self.name)+1:]
         newItems = []
         newDict = dict(self.__dict__)
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
         for it in self.items:
-            if self._names[it.name] != self._names[item]:
+            if item.startswith(it.name+"."):
+                newItems.append(it.withRemovedOptic(item))
+            elif item != it.name:
                 newItems.append(it)
         return self.__class__(
             newItems,
-- 
2.43.0


From 23d9410f9e035e2fcefc67d9652a42339d12c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 13/42] fix: traceSplit passes rays through skipped optics

---
 batoid/optic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 1b3624d..09297ae 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -504,9 +504,9 @@ class Interface(Optic):
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
         refracted, reflected = self.rSplit(rv, reverse=reverse)
 
         # For now, apply obscuration equally forwards and backwards
@@ -1226,9 +1226,9 @@ class CompoundOptic(Optic):
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
 
         if not reverse:
             workQueue = [(rv, "forward", 0)]
@@ -1260,7 +1260,7 @@ class CompoundOptic(Optic):
                         rr.vignetted[w], rr.failed[w],
                         rr.coordSys
                     )
-                    rList[i].path = rr.path
+                    rList[i].path = getattr(rr, 'path', [])
 
             for rr in rForward:
                 if len(rr) > 0:
-- 
2.43.0


From 0c2f64316e7ac07f5f0a91473a47241adf5ff1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 14/42] fix: traceFull keeps every surface when names repeat

---
 batoid/optic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 09297ae..19ef425 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1121,7 +1121,13 @@ class CompoundOptic(Optic):
                 for item in items:
                     tf = item.traceFull(rv_in, reverse=reverse)
                     for k, v in tf.items():
-                        result[k] = v
+                        # keep earlier visits to a surface of the same name
+                        key = k
+                        j = 1
+                        while key in result:
+                            key = k+'_{}'.format(j)
+                            j += 1
+                        result[key] = v
                         rv_in = v['out']
         else:
             # establish nominal order of elements by building dict
-- 
2.43.0


From 7ec73fd9ba78a45d70fd821d20a24529d18a2852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 15/42] fix: ray factories leave the arrays passed to them
 alone

---
 batoid/rayVector.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index df4f654..959e9c8 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -967,8 +967,9 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
-        x = np.atleast_1d(x).astype(float, copy=False)
-        y = np.atleast_1d(y).astype(float, copy=False)
+        # x and y are transformed in place below, so always copy
+        x = np.array(np.atleast_1d(x), dtype=float, order='C')
+        y = np.array(np.atleast_1d(y), dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
@@ -1060,9 +1061,9 @@ class RayVector:
 
         vx, vy, vz = fieldToDirCos(theta_x, theta_y, projection=projection)
         n = medium.getN(wavelength)
-        vx /= n
-        vy /= n
-        vz /= n
+        vx = vx/n
+        vy = vy/n
+        vz = vz/n
 
         z = stopSurface.surface.sag(x, y)
         x = np.full_like(vx, x)
-- 
2.43.0


From 60a3ac58f244826ec1a1658689173a55cb15d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 16/42] fix: ray factories accept rays travelling along the x
 axis

---
 batoid/rayVector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 959e9c8..a40d18c 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -824,7 +824,8 @@ class RayVector:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
             zhat = -n*vv
-            xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
+            ref = [1.0, 0.0, 0.0] if abs(zhat[0]) < 0.9 else [0.0, 1.0, 0.0]
+            xhat = np.cross(np.array(ref), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
             origin = zhat*backDist
-- 
2.43.0


From b0800fd4d456ab95dc41aacddf33b4491ea968ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 17/42] fix: asGrid infers dy as the rotation of a vector dx,
 as documented

---
 batoid/rayVector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index a40d18c..234c4e7 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -371,7 +371,10 @@ class RayVector:
         if nx is not None and ny is None:
             ny = nx
         if dx is not None and dy is None:
-            dy = dx
+            if isinstance(dx, Real):
+                dy = dx
+            else:
+                dy = np.dot(np.array([[0, -1], [1, 0]]), dx)
         if lx is not None and ly is None:
             if isinstance(lx, Real):
                 ly = lx
-- 
2.43.0


From fd43e8eb2b59e43a2d8a6e4487d7f7d812f5b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 18/42] fix: RayVector equality includes size and coordinate
 system

---
 batoid/rayVector.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 234c4e7..c7ad60a 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1295,10 +1295,15 @@ class RayVector:
         return self._t.size
 
     def __eq__(self, rhs):
-        return self._rv == rhs._rv
+        if not isinstance(rhs, RayVector): return False
+        return (
+            len(self) == len(rhs)
+            and self.coordSys == rhs.coordSys
+            and self._rv == rhs._rv
+        )
 
     def __ne__(self, rhs):
-        return self._rv != rhs._rv
+        return not (self == rhs)
 
     def __repr__(self):
         out = f"RayVector({self.x!r}, {self.y!r}, {self.z!r}"
-- 
2.43.0


From adf0c5fdaa1a4f7cc30784165ae81261eca82cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 19/42] fix: ObscPolygon equality of different sizes and
 containsGrid of non-contiguous or integer grids

---
 batoid/obscuration.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 895fa27..9a3403a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -268,8 +268,8 @@ class ObscPolygon(Obscuration):
     def __eq__(self, rhs):
         if type(rhs) == type(self):
             return (
-                np.all(self.xs == rhs.xs)
-                and np.all(self.ys == rhs.ys)
+                np.array_equal(self.xs, rhs.xs)
+                and np.array_equal(self.ys, rhs.ys)
             )
         return False
 
@@ -290,6 +290,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
+        xgrid = np.ascontiguousarray(xgrid, dtype=float)
+        ygrid = np.ascontiguousarray(ygrid, dtype=float)
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
-- 
2.43.0


From 9094c2ffbf38e3d43567a1c508a26a684832b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 20/42] fix: Asphere converts integer coefficients to float

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 1f15f40..5343ab8 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -393,7 +393,7 @@ class Asphere(Surface):
             padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
         else:
             padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs)
+        self._padded_coefs = np.ascontiguousarray(padded_coefs, dtype=float)
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From 2ec7b29937e6d56986263cfb9f7573647aeb65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 21/42] fix: equal Bicubic surfaces have equal hashes

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 5343ab8..3a0d8fa 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -611,7 +611,7 @@ class Bicubic(Surface):
         return hash((
             "Bicubic", tuple(self.xs), tuple(self.ys), tuple(self.zs.ravel()),
             tuple(self.dzdxs.ravel()), tuple(self.dzdys.ravel()),
-            tuple(self.d2zdxdys.ravel()), self.nanpolicy
+            tuple(self.d2zdxdys.ravel()), self.nanpolicy.upper()
         ))
 
     def __setstate__(self, args):
-- 
2.43.0


From d50a7bf5b44a7f64cb5097f11003e1584cf254d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:43 +0000
Subject: [PATCH 22/42] fix: parsing leaves the description alone and keeps
 media and obscuration of a plain Interface

---
 batoid/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/batoid/parse.py b/batoid/parse.py
index 6e0c039..3fa9782 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -4,6 +4,7 @@ import numpy as np
 
 
 def parse_obscuration(config):
+    config = dict(config)  # leave the argument alone
     typ = config.pop('type')
     if typ in [
         'ObscCircle', 'ObscAnnulus', 'ObscRay', 'ObscRectangle', 'ObscPolygon'
@@ -26,6 +27,7 @@ def parse_obscuration(config):
 
 
 def parse_surface(config):
+    config = dict(config)  # leave the argument alone
     typ = config.pop('type')
     if typ == 'Sum':
         items = [parse_surface(c) for c in config['items']]
@@ -96,6 +98,7 @@ def parse_optic(config,
     @param inMedium  default in Medium, often set by optic parent
     @param outMedium default out Medium, often set by optic parent
     """
+    config = dict(config)  # leave the argument alone
     if 'obscuration' in config:
         obscuration = parse_obscuration(config.pop('obscuration'))
     else:
@@ -208,7 +211,8 @@ def parse_optic(config,
         surface = parse_surface(config.pop('surface'))
         return batoid.optic.Interface(
             surface, name=name,
-            coordSys=coordSys,
+            coordSys=coordSys, obscuration=obscuration,
+            inMedium=inMedium, outMedium=outMedium,
             **kwargs
         )
     else:
-- 
2.43.0


From a52b72a33dd1ad3dd4ba71b3e911d372bbc8136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:43 +0000
Subject: [PATCH 23/42] fix: Table checks its bounds before converting cell
 numbers to int

---
 src/table.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/table.cpp b/src/table.cpp
index fd7d119..ba1cc0d 100644
--- a/src/table.cpp
+++ b/src/table.cpp
@@ -56,11 +56,14 @@ namespace batoid {
     }
 
     double Table::eval(double x, double y) const {
-        int ix = int(std::floor((x-_x0)/_dx));
-        int iy = int(std::floor((y-_y0)/_dy));
-        if ((ix >= (_nx-1)) or (ix < 0) or (iy >= (_ny-1)) or (iy < 0)) {
+        double fx = std::floor((x-_x0)/_dx);
+        double fy = std::floor((y-_y0)/_dy);
+        // written so that nan is out of bounds too
+        if (!(fx >= 0 and fx < _nx-1 and fy >= 0 and fy < _ny-1)) {
             return _use_nan ? NAN : 0.0;
         }
+        int ix = int(fx);
+        int iy = int(fy);
         double xgrid = _x0 + ix*_dx;
         double ygrid = _y0 + iy*_dy;
         double xfrac = (x - xgrid)/_dx;
@@ -93,9 +96,10 @@ namespace batoid {
         double x, double y,
         double& dzdx, double& dzdy
     ) const {
-        int ix = int(std::floor((x-_x0)/_dx));
-        int iy = int(std::floor((y-_y0)/_dy));
-        if ((ix >= (_nx-1)) or (ix < 0) or (iy >= (_ny-1)) or (iy < 0)) {
+        double fx = std::floor((x-_x0)/_dx);
+        double fy = std::floor((y-_y0)/_dy);
+        // written so that nan is out of bounds too
+        if (!(fx >= 0 and fx < _nx-1 and fy >= 0 and fy < _ny-1)) {
             if (_use_nan) {
                 dzdx = NAN;
                 dzdy = NAN;
@@ -105,6 +109,8 @@ namespace batoid {
             }
             return;
         }
+        int ix = int(fx);
+        int iy = int(fy);
         double xgrid = _x0 + ix*_dx;
         double ygrid = _y0 + iy*_dy;
         double xfrac = (x - xgrid)/_dx;
-- 
2.43.0


From c45af9673dfe1440dbb9215bfbab6059e06c5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:43 +0000
Subject: [PATCH 24/42] fix: rays that a phase screen cannot deflect are failed

---
 src/batoid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2627e2c..6f8ea9b 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -809,6 +809,12 @@ namespace batoid {
                         cos2 -= dPd2;
                         cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     }
+                    if (cos1*cos1 + cos2*cos2 > 1) {
+                        // gradient too steep, no direction satisfies it
+                        failptr[i] = true;
+                        vigptr[i] = true;
+                        continue;
+                    }
 
                     // printf("cos1 = %.18f\n", cos1);
                     // printf("cos2 = %.18f\n", cos2);
-- 
2.43.0


From e7385007ce071e565d3868414f80ae7f10db4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 25/42] fix: a surface of a lens can be removed and inserted
 again

---
 batoid/optic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 19ef425..29aa7eb 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1772,8 +1772,10 @@ class Lens(CompoundOptic):
     """
     def __init__(self, items, **kwargs):
         CompoundOptic.__init__(self, items, **kwargs)
-        assert len(items) == 2
-        assert items[0].outMedium == items[1].inMedium
+        # a single surface is what withRemovedOptic leaves of a lens
+        assert len(items) in (1, 2)
+        if len(items) == 2:
+            assert items[0].outMedium == items[1].inMedium
 
     def draw2d(self, ax, **kwargs):
         """Specialized draw2d for `Lens` instances.
-- 
2.43.0


From 7e7c3290a429b250ca2e3878c865c411a2dbebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:46 +0000
Subject: [PATCH 26/42] fix: inputs of mismatched size are rejected or
 broadcast, not read past their end

---
 batoid/medium.py      |  2 ++
 batoid/obscuration.py |  2 ++
 batoid/rayVector.py   |  5 +++--
 batoid/surface.py     | 15 +++++++++++----
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index 08b19ed..3a43d64 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -71,6 +71,8 @@ class TableMedium(Medium):
     def __init__(self, wavelengths, ns):
         self.wavelengths = np.array(wavelengths, dtype=float, order='C')
         self.ns = np.array(ns, dtype=float, order='C')
+        if self.wavelengths.shape != self.ns.shape or len(self.ns) < 2:
+            raise ValueError("wavelengths and ns must have the same size >= 2")
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 9a3403a..7a7f1b6 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -259,6 +259,8 @@ class ObscPolygon(Obscuration):
     def __init__(self, xs, ys):
         self.xs = np.ascontiguousarray(xs, dtype=float)
         self.ys = np.ascontiguousarray(ys, dtype=float)
+        if self.xs.shape != self.ys.shape or self.xs.ndim != 1:
+            raise ValueError("xs and ys must be 1d and of the same size")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c7ad60a..2624907 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -972,8 +972,9 @@ class RayVector:
             raise ValueError("Missing wavelength keyword")
 
         # x and y are transformed in place below, so always copy
-        x = np.array(np.atleast_1d(x), dtype=float, order='C')
-        y = np.array(np.atleast_1d(y), dtype=float, order='C')
+        x, y = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(y))
+        x = np.array(x, dtype=float, order='C')
+        y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
diff --git a/batoid/surface.py b/batoid/surface.py
index 3a0d8fa..491a7c0 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -38,6 +38,8 @@ class Surface(ABC):
         normal : array_like, shape (n, 3)
             Surface normals.
         """
+        if np.shape(x) != np.shape(y):
+            raise ValueError("x and y must have the same shape")
         xx = np.asfortranarray(x, dtype=float)
         yy = np.asfortranarray(y, dtype=float)
         out = np.empty(xx.shape+(3,), order='F', dtype=float)
@@ -543,6 +545,8 @@ class Bicubic(Surface):
         self._xs = np.array(xs, dtype=float, order="C")
         self._ys = np.array(ys, dtype=float, order="C")
         self._zs = np.array(zs, dtype=float, order="C")
+        if self._zs.ndim != 2 or min(self._zs.shape) < 2:
+            raise ValueError("zs must be a 2d array with at least 2 rows and columns")
         self._x0 = xs[0]
         self._y0 = ys[0]
         dx = self._dx = (self._xs[-1] - self._xs[0])/(len(self._xs)-1)
@@ -569,6 +573,9 @@ class Bicubic(Surface):
         self._dzdxs = np.array(dzdxs, dtype=float, order="C")
         self._dzdys = np.array(dzdys, dtype=float, order="C")
         self._d2zdxdys = np.array(d2zdxdys, dtype=float, order="C")
+        for d in (self._dzdxs, self._dzdys, self._d2zdxdys):
+            if d.shape != self._zs.shape:
+                raise ValueError("derivatives must have the shape of zs")
 
         self.nanpolicy = nanpolicy
         self._table = _batoid.CPPTable(
@@ -577,8 +584,8 @@ class Bicubic(Surface):
             self._dzdxs.ctypes.data,
             self._dzdys.ctypes.data,
             self._d2zdxdys.ctypes.data,
-            len(self._xs),
-            len(self._ys),
+            self._zs.shape[1],
+            self._zs.shape[0],
             True if self.nanpolicy.upper() == 'NAN' else False
         )
         self._surface = _batoid.CPPBicubic(self._table)
@@ -629,8 +636,8 @@ class Bicubic(Surface):
             self._dzdxs.ctypes.data,
             self._dzdys.ctypes.data,
             self._d2zdxdys.ctypes.data,
-            len(self._xs),
-            len(self._ys),
+            self._zs.shape[1],
+            self._zs.shape[0],
             True if self.nanpolicy.upper() == 'NAN' else False
         )
         self._surface = _batoid.CPPBicubic(self._table)
-- 
2.43.0


From 4cb00145969c6299c1a93ce9f7df604f09034476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 27/42] fix: intersect a paraboloid from a point on it

---
 src/paraboloid.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/paraboloid.cpp b/src/paraboloid.cpp
index d282c95..6079ce8 100644
--- a/src/paraboloid.cpp
+++ b/src/paraboloid.cpp
@@ -43,7 +43,6 @@ namespace batoid {
         double a = (vx*vx + vy*vy)*_2Rinv;
         double b = (x*vx + y*vy)*_Rinv - vz;
         double c = (x*x + y*y)*_2Rinv - z;
-        double dt1;
 
         if (a == 0) {
             // Ray is heading straight at optic axis.
@@ -56,12 +55,11 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        // The two roots are q/a and c/q; neither is divided by the other, so a
+        // ray starting on the surface (c == 0) is fine.
+        double q = (b > 0) ? -0.5*(b + sqrt(discriminant)) : -0.5*(b - sqrt(discriminant));
+        double dt1 = q/a;
+        double dt2 = (q == 0) ? dt1 : c/q;
 
         // If vz down and paraboloid concave up, then pick greatest time;
         // I.e., intersection closest to the origin.
-- 
2.43.0


From 3cc4e0fe25939a7268db7338fdbc117192176379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 28/42] fix: a phase screen bends rays by its gradient
 whichever way they travel

The delay added to a ray does not depend on its sense of travel, but rays
crossing towards +z were deflected against the gradient of that delay: not the
documented cosx2 = cosx1 + d(OPD)/dx, not normal to the wavefront they belong
to, and not reversible.
---
 src/batoid.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 6f8ea9b..30193c1 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -800,13 +800,13 @@ namespace batoid {
                     // printf("dPd1 = %.18f\n", dPd1);
                     // printf("dPd2 = %.18f\n", dPd2);
 
+                    // The delay below grows by the same gradient whichever way the ray
+                    // travels, so the sense of travel only decides the sign of cos3.
+                    cos1 += dPd1;
+                    cos2 += dPd2;
                     if (cos3 < 0) {
-                        cos1 += dPd1;
-                        cos2 += dPd2;
                         cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     } else {
-                        cos1 -= dPd1;
-                        cos2 -= dPd2;
                         cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
                     }
                     if (cos1*cos1 + cos2*cos2 > 1) {
-- 
2.43.0


From 1a43b9f9c03bd84aa403f4a907e4559f7f198054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 29/42] fix: a numpy integer indexes one ray, like a Python
 integer

---
 batoid/rayVector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 2624907..afee2e2 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1329,7 +1329,7 @@ class RayVector:
          self._failed, self.coordSys) = args
 
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, Integral):
             if idx >= 0:
                 if idx >= self._rv.t.size:
                     msg = "index {} is out of bounds for axis 0 with size {}"
-- 
2.43.0


From 9ab0b07e583afed8d8ae6ebdf4a821619bdfc16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 30/42] fix: a gridded surface includes its last grid lines

---
 src/table.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/table.cpp b/src/table.cpp
index ba1cc0d..b1ca6bc 100644
--- a/src/table.cpp
+++ b/src/table.cpp
@@ -1,4 +1,5 @@
 #include "table.h"
+#include <algorithm>
 #include <new>
 #include <cmath>
 
@@ -56,14 +57,15 @@ namespace batoid {
     }
 
     double Table::eval(double x, double y) const {
-        double fx = std::floor((x-_x0)/_dx);
-        double fy = std::floor((y-_y0)/_dy);
+        double fx = (x-_x0)/_dx;
+        double fy = (y-_y0)/_dy;
         // written so that nan is out of bounds too
-        if (!(fx >= 0 and fx < _nx-1 and fy >= 0 and fy < _ny-1)) {
+        if (!(fx >= 0 and fx <= _nx-1 and fy >= 0 and fy <= _ny-1)) {
             return _use_nan ? NAN : 0.0;
         }
-        int ix = int(fx);
-        int iy = int(fy);
+        // the last grid lines belong to the last cells
+        int ix = std::min(int(fx), int(_nx)-2);
+        int iy = std::min(int(fy), int(_ny)-2);
         double xgrid = _x0 + ix*_dx;
         double ygrid = _y0 + iy*_dy;
         double xfrac = (x - xgrid)/_dx;
@@ -96,10 +98,10 @@ namespace batoid {
         double x, double y,
         double& dzdx, double& dzdy
     ) const {
-        double fx = std::floor((x-_x0)/_dx);
-        double fy = std::floor((y-_y0)/_dy);
+        double fx = (x-_x0)/_dx;
+        double fy = (y-_y0)/_dy;
         // written so that nan is out of bounds too
-        if (!(fx >= 0 and fx < _nx-1 and fy >= 0 and fy < _ny-1)) {
+        if (!(fx >= 0 and fx <= _nx-1 and fy >= 0 and fy <= _ny-1)) {
             if (_use_nan) {
                 dzdx = NAN;
                 dzdy = NAN;
@@ -109,8 +111,9 @@ namespace batoid {
             }
             return;
         }
-        int ix = int(fx);
-        int iy = int(fy);
+        // the last grid lines belong to the last cells
+        int ix = std::min(int(fx), int(_nx)-2);
+        int iy = std::min(int(fy), int(_ny)-2);
         double xgrid = _x0 + ix*_dx;
         double ygrid = _y0 + iy*_dy;
         double xfrac = (x - xgrid)/_dx;
-- 
2.43.0


From 6de1f5190d505dbb2cffb5d071455bfd2b88b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 31/42] fix: an Asphere keeps its own copy of its coefficients

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 491a7c0..d5f52a2 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -395,7 +395,7 @@ class Asphere(Surface):
             padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
         else:
             padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs, dtype=float)
+        self._padded_coefs = np.array(padded_coefs, dtype=float)
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From 60f7fa9662ff1f1a72e0f9cb39138380cab2c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 32/42] fix: ray factories store fluxes as floats

---
 batoid/rayVector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index afee2e2..26f3313 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -821,8 +821,7 @@ class RayVector:
         cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
     ):
         """Map rays backwards to their source position."""
-        if isinstance(flux, Real):
-            flux = np.full(len(x), float(flux))
+        flux = np.array(np.broadcast_to(flux, x.shape), dtype=float)
         if source is None:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
-- 
2.43.0


From c71ac58d2b68ae51b95c04f5b52092484afa4490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 33/42] fix: asSpokes accepts any combination of counts and
 arrays

---
 batoid/rayVector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 26f3313..f416d31 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -794,9 +794,10 @@ class RayVector:
                 eps = inner/outer
                 area = np.pi*(1-eps**2)
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
-                flux = w*area/(2*spokes)
-            if isinstance(spokes, Integral):
-                spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+                nspokes = spokes if isinstance(spokes, Integral) else len(spokes)
+                flux = w*area/(2*nspokes)
+        if isinstance(spokes, Integral):
+            spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
-- 
2.43.0


From 1c4ea69a0b7e279cdf40d41d158ed3386d5d7af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 34/42] fix: asGrid with two rays on a side separates them by
 dx

---
 batoid/rayVector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index f416d31..2b824cb 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -384,11 +384,15 @@ class RayVector:
         # We need lx, ly, nx, ny for below, so construct these from other
         # arguments if they're not already available.
         if nx is not None and dx is not None:
-            if (nx%2) == 0:
+            if nx == 2:
+                lx = dx*2
+            elif (nx%2) == 0:
                 lx = dx*(nx-2)
             else:
                 lx = dx*(nx-1)
-            if (ny%2) == 0:
+            if ny == 2:
+                ly = dy*2
+            elif (ny%2) == 0:
                 ly = dy*(ny-2)
             else:
                 ly = dy*(ny-1)
-- 
2.43.0


From bf03b6ba9458c7160c1ca8037423cab962b45dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 35/42] fix: ray factories honour a finite source

---
 batoid/rayVector.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 2b824cb..27d6966 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -853,17 +853,24 @@ class RayVector:
                 flux, vignetted, failed, coordSys
             )
         else:
-            pass
-            # v = np.copy(r)
-            # v -= source
-            # v /= n*np.einsum('ab,ab->b', v, v)
-            # r[:] = source
-            # t = np.zeros(len(r), dtype=float)
-            # vignetted = np.zeros(len(r), dtype=bool)
-            # failed = np.zeros(len(r), dtype=bool)
-            # return RayVector._directInit(
-            #     r, v, t, w, flux, vignetted, failed, coordSys
-            # )
+            x0, y0, z0 = CoordTransform(
+                globalCoordSys, coordSys
+            ).applyForwardArray(*np.array(source, dtype=float))
+            vx = x - x0
+            vy = y - y0
+            vz = z - z0
+            norm = n*np.sqrt(vx*vx + vy*vy + vz*vz)
+            vx /= norm
+            vy /= norm
+            vz /= norm
+            t = np.zeros(len(x), dtype=float)
+            vignetted = np.zeros(len(x), dtype=bool)
+            failed = np.zeros(len(x), dtype=bool)
+            return RayVector._directInit(
+                np.full_like(x, x0), np.full_like(y, y0), np.full_like(z, z0),
+                vx, vy, vz, t, w,
+                flux, vignetted, failed, coordSys
+            )
 
     @classmethod
     def fromStop(
-- 
2.43.0


From ba5a0bb0cb4628d6bf323790a496e5ede565573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 36/42] fix: ray factories measure backDist from the vertex of
 the stop surface, as documented

---
 batoid/rayVector.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 27d6966..3b56b88 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -441,13 +441,16 @@ class RayVector:
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
+        vertex = transform.applyForwardArray(
+            0.0, 0.0, stopSurface.surface.sag(0.0, 0.0)
+        )
         applyForwardTransformArrays(transform, x, y, z)
         w = np.empty_like(x)
         w.fill(wavelength)
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, vertex, source, dirCos, n, x, y, z, w, flux, coordSys
         )
 
     @classmethod
@@ -640,13 +643,16 @@ class RayVector:
         del rr, th
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
+        vertex = transform.applyForwardArray(
+            0.0, 0.0, stopSurface.surface.sag(0.0, 0.0)
+        )
         applyForwardTransformArrays(transform, x, y, z)
         w = np.empty_like(x)
         w.fill(wavelength)
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, vertex, source, dirCos, n, x, y, z, w, flux, coordSys
         )
 
     @classmethod
@@ -813,17 +819,20 @@ class RayVector:
         del rings, spokes
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
+        vertex = transform.applyForwardArray(
+            0.0, 0.0, stopSurface.surface.sag(0.0, 0.0)
+        )
         applyForwardTransformArrays(transform, x, y, z)
         w = np.empty_like(x)
         w.fill(wavelength)
         n = medium.getN(wavelength)
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, vertex, source, dirCos, n, x, y, z, w, flux, coordSys
         )
 
     @classmethod
     def _finish(
-        cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+        cls, backDist, vertex, source, dirCos, n, x, y, z, w, flux, coordSys
     ):
         """Map rays backwards to their source position."""
         flux = np.array(np.broadcast_to(flux, x.shape), dtype=float)
@@ -835,7 +844,7 @@ class RayVector:
             xhat = np.cross(np.array(ref), zhat)
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
-            origin = zhat*backDist
+            origin = vertex + zhat*backDist
             rot = np.stack([xhat, yhat, zhat]).T
             _batoid.finishParallel(
                 origin, rot.ravel(), vv,
@@ -988,6 +997,9 @@ class RayVector:
         y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
+        vertex = transform.applyForwardArray(
+            0.0, 0.0, stopSurface.surface.sag(0.0, 0.0)
+        )
         applyForwardTransformArrays(transform, x, y, z)
 
         w = np.empty_like(x)
@@ -995,7 +1007,7 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, vertex, source, dirCos, n, x, y, z, w, flux, coordSys
         )
 
     @classmethod
-- 
2.43.0


From 864ec1219067396c45e208992eb9d9d18731d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 37/42] fix: asGrid lays out vector dx, dy, lx, ly as primitive
 vectors, not transposed

---
 batoid/rayVector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 3b56b88..9043f39 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -436,8 +436,9 @@ class RayVector:
             xx = xx.ravel()
             yy = yy.ravel()
         stack = np.stack([xx, yy])
-        x = np.dot(lx, stack)
-        y = np.dot(ly, stack)
+        # lx, ly are the vectors along the two dimensions of the grid
+        x = np.dot((lx[0], ly[0]), stack)
+        y = np.dot((lx[1], ly[1]), stack)
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
-- 
2.43.0


From 7c49ac5537cd204d3d4ad393558ce76ebc36ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 38/42] fix: field-angle projections keep the shape of length-1
 arrays at the field centre

---
 batoid/utils.py | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 7d9b94b..69c2300 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -91,11 +91,8 @@ def postelToDirCos(u, v):
     """
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     srho = np.sin(rho)
     with np.errstate(invalid='ignore'):
         alpha = u/rho*srho
@@ -130,11 +127,8 @@ def dirCosToPostel(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     rho = np.arccos(-gamma)
     srho = np.sin(rho)
     with np.errstate(invalid='ignore'):
@@ -223,11 +217,8 @@ def stereographicToDirCos(u, v):
     """
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     theta = 2*np.arctan(rho/2)
     stheta = np.sin(theta)
     with np.errstate(invalid='ignore'):
@@ -261,11 +252,8 @@ def dirCosToStereographic(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     theta = np.arccos(-gamma)
     rho = 2*np.tan(theta/2)
     stheta = np.sin(theta)
@@ -351,11 +339,8 @@ def lambertToDirCos(u, v):
     """
     rhosqr = u*u + v*v
     wZero = rhosqr == 0.0
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     rho = np.sqrt(rhosqr)
     gamma = (2-rhosqr)/2
     r = np.sqrt(1-gamma*gamma)
@@ -390,11 +375,8 @@ def dirCosToLambert(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     rho = np.sqrt(2+2*gamma)
     norm = np.sqrt(1-gamma*gamma)
     with np.errstate(invalid='ignore'):
-- 
2.43.0


From ef31ddbf74a7f390a2505c2618708a54925c2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 39/42] fix: an Asphere and an ObscPolygon keep their own
 copies of the arrays they are built from

---
 batoid/obscuration.py | 4 ++--
 batoid/surface.py     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 7a7f1b6..45a443a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -257,8 +257,8 @@ class ObscPolygon(Obscuration):
     """
 
     def __init__(self, xs, ys):
-        self.xs = np.ascontiguousarray(xs, dtype=float)
-        self.ys = np.ascontiguousarray(ys, dtype=float)
+        self.xs = np.array(xs, dtype=float, order='C')
+        self.ys = np.array(ys, dtype=float, order='C')
         if self.xs.shape != self.ys.shape or self.xs.ndim != 1:
             raise ValueError("xs and ys must be 1d and of the same size")
         self._obsc = _batoid.CPPObscPolygon(
diff --git a/batoid/surface.py b/batoid/surface.py
index d5f52a2..0a29d63 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from numbers import Integral, Real
 
 import numpy as np
@@ -380,7 +381,7 @@ class Asphere(Surface):
     def __init__(self, R, conic, coefs, imin=2):
         self.R = R
         self.conic = conic
-        self.coefs = coefs
+        self.coefs = copy(coefs)
         self.imin = imin
 
         if not isinstance(imin, Integral):
-- 
2.43.0


From 4e0fce13aa3a54b74a4a787e205617284249b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 40/42] fix: reject a polygon without vertices instead of
 reading past its empty arrays

---
 batoid/obscuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 45a443a..85a6124 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -261,6 +261,8 @@ class ObscPolygon(Obscuration):
         self.ys = np.array(ys, dtype=float, order='C')
         if self.xs.shape != self.ys.shape or self.xs.ndim != 1:
             raise ValueError("xs and ys must be 1d and of the same size")
+        if len(self.xs) == 0:
+            raise ValueError("a polygon needs vertices")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
-- 
2.43.0


From e440f2dd089cac6b05b877c01faa82d2bc151554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 41/42] fix: fftPSF places a pupil grid with an odd number of
 samples whole

---
 batoid/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 6a36d70..92fc6cd 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -458,7 +458,7 @@ def fftPSF(
     pad_size = nx*pad_factor
     expwf = np.zeros((pad_size, pad_size), dtype=np.complex128)
     start = pad_size//2-nx//2
-    stop = pad_size//2+nx//2
+    stop = start+nx
     expwf[start:stop, start:stop][~wfarr.mask] = \
         np.exp(2j*np.pi*wfarr[~wfarr.mask])
     psf = np.abs(np.fft.fftshift(np.fft.fft2(expwf)))**2
-- 
2.43.0


From 08caf2a4f06cd9567e3058fc7d89d396d8ef12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 42/42] fix: a sum of no surfaces is intersected as the plane
 it is, not read past its end

---
 src/sum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sum.cpp b/src/sum.cpp
index a68b100..44f0b81 100644
--- a/src/sum.cpp
+++ b/src/sum.cpp
@@ -49,8 +49,8 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        // Use first surface as an initial guess
-        if (!_surfaces[0]->timeToIntersect(x, y, z, vx, vy, vz, dt, niter))
+        // Use first surface, if any, as an initial guess
+        if (_nsurf > 0 && !_surfaces[0]->timeToIntersect(x, y, z, vx, vy, vz, dt, niter))
             return false;
         return Surface::timeToIntersect(x, y, z, vx, vy, vz, dt, niter);
     }
-- 
2.43.0

