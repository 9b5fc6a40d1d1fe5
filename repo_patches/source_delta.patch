From 6fecb10e36c6699dd7af1f6aec1bd15ff1571b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:41 +0000
Subject: [PATCH 001/120] fix: compare bounding boxes by their corners, not by
 hash values

---
 coral/bbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 4478869..3151c3f 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -57,7 +57,9 @@ class BBox:
         return hash((self.x0, self.y0, self.x1, self.y1))
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        if not isinstance(other, BBox):
+            return NotImplemented
+        return (self.x0, self.y0, self.x1, self.y1) == (other.x0, other.y0, other.x1, other.y1)
 
     def __lt__(self, other):
         return self.area() < other.area()
-- 
2.43.0


From 25f3f256811c367b35d51f228db37f32e5397d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 002/120] fix: keep boxes of zero width or height in bounding
 box unions

---
 coral/bbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 3151c3f..be1a80b 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -68,8 +68,8 @@ class BBox:
         return bool(self.area())
 
     def __or__(self, other):
-        if not self: return other
-        if not other: return self
+        if other is None or other == BBox(): return self
+        if self == BBox(): return other
         x0 = min(self.x0, other.x0)
         y0 = min(self.y0, other.y0)
         x1 = max(self.x1, other.x1)
-- 
2.43.0


From f38d25d2f1e4bdb7fafb2e7e6674db290444188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 003/120] fix: haversine of antipodal points raised a math
 domain error

---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index cca69f2..87794fd 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -119,7 +119,7 @@ def haversine(lon1, lat1, lon2, lat2, R=None):
     lat2 = math.radians(lat2)
     a1 = math.sin(dLat / 2) * math.sin(dLat / 2)
     a2 = math.sin(dLon / 2) * math.sin(dLon / 2) * math.cos(lat1) * math.cos(lat2)
-    a = a1 + a2
+    a = min(1, a1 + a2) # rounding may exceed 1 for antipodal points.
     c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
     d = R * c
     return d
-- 
2.43.0


From 96b0b1659830110e90839b192ddda9fc4ceda43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 004/120] fix: destination at a pole raised a math domain error

---
 coral/coord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 87794fd..6504c42 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -156,7 +156,8 @@ def destination(lon, lat, bear, dist, R=None):
     sind = math.sin(d)
     costc = math.cos(tc)
     sintc = math.sin(tc)
-    lat = math.asin(sinlat*cosd + coslat*sind*costc)
+    # Rounding may exceed the domain of asin when arriving at a pole.
+    lat = math.asin(max(-1, min(1, sinlat*cosd + coslat*sind*costc)))
     dlon = math.atan2(sintc*sind*coslat, cosd - sinlat*math.sin(lat))
     lon = corangle(rlon - dlon)
     lon, lat = math.degrees(lon), math.degrees(lat)
-- 
2.43.0


From 908eb283aff4c0d9ab6ef3edb17415fe796b874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:09 +0000
Subject: [PATCH 005/120] fix: azimuthal inverses returned points of the far
 hemisphere on the near one

---
 coral/proj.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 0164943..ceeba7d 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -279,17 +279,16 @@ class Stereographic(Proj):
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -327,17 +326,16 @@ class AzimuthalEquidistant(Proj):
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -370,17 +368,16 @@ class AzimuthalEqualArea(Proj):
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
-- 
2.43.0


From 4f049fbc7acae96890c778cbe23af40b0065b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:11 +0000
Subject: [PATCH 006/120] fix: azimuthal inverses divided by zero at the
 projection center

---
 coral/proj.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index ceeba7d..ad1a8f7 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -276,6 +276,8 @@ class Stereographic(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -323,6 +325,8 @@ class AzimuthalEquidistant(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -365,6 +369,8 @@ class AzimuthalEqualArea(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-- 
2.43.0


From 95dd37e6e5c590ab3e97fccbacdef73da71fc229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:13 +0000
Subject: [PATCH 007/120] fix: azimuthal inverses raised a math domain error at
 the poles

---
 coral/proj.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index ad1a8f7..012ce2e 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -291,7 +291,8 @@ class Stereographic(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(1, sinlat)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -340,7 +341,8 @@ class AzimuthalEquidistant(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(1, sinlat)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -384,7 +386,8 @@ class AzimuthalEqualArea(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(1, sinlat)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 26e3b367b901d02612bf24394172c26ee2c3e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:15 +0000
Subject: [PATCH 008/120] fix: azimuthal equal-area inverse raised a math
 domain error at its rim

---
 coral/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index 012ce2e..50fabb1 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -373,7 +373,7 @@ class AzimuthalEqualArea(Proj):
         p = math.sqrt(x*x + y*y)
         if p == 0:
             return math.degrees(self.lon0), math.degrees(self.lat0)
-        c = 2 * math.asin(p / (2 * self.r))
+        c = 2 * math.asin(min(1, p / (2 * self.r)))
         cosc = math.cos(c)
         sinc = math.sin(c)
         if self.lat0 == math.pi / 2:
-- 
2.43.0


From 00438b8618b7111eacbf46d41d83238cdb5d0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:17 +0000
Subject: [PATCH 009/120] fix: azimuthal equidistant projection failed for
 points next to its center

---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 50fabb1..177aa95 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -317,8 +317,8 @@ class AzimuthalEquidistant(Proj):
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
-        c = math.acos(cosc)
-        k = c / math.sin(c)
+        c = math.acos(max(-1, min(1, cosc)))
+        k = c / math.sin(c) if c else 1
         x = y = self.r * k
         x *= coslat * sinlon
         y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
-- 
2.43.0


From 736ff10544291d715d909065bdc9abba6284675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 010/120] fix: oblique Mercator mirrored the far hemisphere
 onto the near one

---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 177aa95..1c6b284 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -198,7 +198,7 @@ class ObliqMercator(Proj):
         a = s * math.sin(lat) - c * math.cos(lat) * math.sin(lon - self.lon0)
         v = math.tan(lat) * c + s * math.sin(lon - self.lon0)
         h = math.cos(lon - self.lon0)
-        x = self.r * math.atan(v / h)
+        x = self.r * math.atan2(v, h)
         y = self.r * math.atanh(a)
         return x, y
 
@@ -208,7 +208,7 @@ class ObliqMercator(Proj):
         lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
-        lon = self.lon0 + math.atan(v / h)
+        lon = self.lon0 + math.atan2(v, h)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 22965c40b66886d9920cd560e4e4f55feaa9e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:20 +0000
Subject: [PATCH 011/120] fix: raise NotImplementedError where a projection has
 no scale

---
 coral/proj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 1c6b284..ca5de2c 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -252,7 +252,7 @@ class EckertIV(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Eckert IV")
+        raise NotImplementedError("scale is not implemented for Eckert IV")
 
 class Stereographic(Proj):
     "Stereographic Projection for the Spherical Earth."
@@ -297,7 +297,7 @@ class Stereographic(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Stereographic")
+        raise NotImplementedError("scale is not implemented for Stereographic")
 
 class AzimuthalEquidistant(Proj):
     "Azimuthal Equidistant Projection for the Spherical Earth."
@@ -347,7 +347,7 @@ class AzimuthalEquidistant(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Azimuthal Equidistant")
+        raise NotImplementedError("scale is not implemented for Azimuthal Equidistant")
 
 class AzimuthalEqualArea(Proj):
     "Lambert Azimuthal Equal-Area Projection for the Spherical Earth."
@@ -392,7 +392,7 @@ class AzimuthalEqualArea(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Azimuthal Equal-Area")
+        raise NotImplementedError("scale is not implemented for Azimuthal Equal-Area")
 
 class ConicEqualArea(CProj):
     "Albers Equal-Area Conic Projection for the Spherical Earth."
-- 
2.43.0


From 2a0df49c1728f4a1db895a7ef8d0547de554850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:19 +0000
Subject: [PATCH 012/120] fix: closed simplification scrambled the vertex order
 of rings

---
 coral/coord.py | 37 +++++--------------------------------
 1 file changed, 5 insertions(+), 32 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 6504c42..743f956 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -268,38 +268,11 @@ def open_no_slit(s, k):
     yield q
 
 def closed_no_slit(s, k):
-    b1 = Buffer(k)
-    b2 = Buffer(k)
-    p = next(s)
-    yield p
-    q = next(s)
-    for r in s:
-        if r == q:
-            continue
-        if not collinear(p, q, r):
-            if not b1.isempty() and q == b1.peek():
-                b1.pop()
-            else:
-                if b1.isfull():
-                    t = b1.shift()
-                    if b2.isfull():
-                        yield t
-                    else:
-                        b2.push(t)
-                b1.push(q)
-        p, q = q, r
-    while not (b1.isempty() or b2.isempty()):
-        p = b1.pop()
-        q = b2.shift()
-        if p != q:
-            break
-    while not b1.isempty():
-        yield b1.shift()
-    yield p
-    yield q
-    while not b2.isempty():
-        yield b2.shift()
-    yield r
+    ring = list(open_no_slit(s, k))
+    # Remove slit across the closing vertex.
+    while len(ring) > 3 and ring[0] == ring[-1] and ring[1] == ring[-2]:
+        ring = ring[1:-1]
+    yield from ring
 
 def simplify(xys, scl, closed=False, k=8):
     s = sqr_fit(xys, scl)
-- 
2.43.0


From e2b52a798369604ee930ac55feb2864e100d7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:20 +0000
Subject: [PATCH 013/120] fix: simplification of less than two points raised
 RuntimeError

---
 coral/coord.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 743f956..6db172a 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -249,9 +249,13 @@ def sqr_fit(s, m):
 
 def open_no_slit(s, k):
     b = Buffer(k)
-    p = next(s)
+    p = next(s, None)
+    if p is None:
+        return
     yield p
-    q = next(s)
+    q = next(s, None)
+    if q is None:
+        return
     for r in s:
         if r == q:
             continue
-- 
2.43.0


From 500a226f3db7f6866c5d7c7355e9736628863ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:22 +0000
Subject: [PATCH 014/120] fix: removing a slit also removed the corner it
 started from

---
 coral/coord.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 6db172a..fcb451a 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -253,6 +253,7 @@ def open_no_slit(s, k):
     if p is None:
         return
     yield p
+    last = p
     q = next(s, None)
     if q is None:
         return
@@ -262,9 +263,13 @@ def open_no_slit(s, k):
         if not collinear(p, q, r):
             if not b.isempty() and q == b.peek():
                 b.pop()
+                # Without the slit, q may still be a corner.
+                if not collinear(last if b.isempty() else b.peek(), q, r):
+                    b.push(q)
             else:
                 if b.isfull():
-                    yield b.shift()
+                    last = b.shift()
+                    yield last
                 b.push(q)
         p, q = q, r
     while not b.isempty():
-- 
2.43.0


From a183cfc31e14cada685a890e9a4880e55b94e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 015/120] fix: loading a frame with an ellipsoidal projection
 raised NameError

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b627079..94c331d 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -126,7 +126,7 @@ def load(path):
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-        e = Ellipsoid(*(m[k] for k in 'abef'))
+        e = proj.Ellipsoid(*(m[k] for k in 'abef'))
         prj = Proj(c, e)
     else:
         r = m['r']
-- 
2.43.0


From 0f79708104a6f5d23caff43549b62ce2fc8f3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 016/120] fix: frames with a conic projection could not be
 saved

---
 coral/frame.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/coral/frame.py b/coral/frame.py
index 94c331d..b1fc74b 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -62,12 +62,16 @@ class Frame:
                 "type": "sphere",
                 "r": self.projection.r
             }
-        rlon, rlat = self.projection.lon0, self.projection.lat0
-        lon, lat = math.degrees(rlon), math.degrees(rlat)
+        if issubclass(type(self.projection), proj.CProj):
+            key = "parallels"
+            ra, rb = self.projection.lat1, self.projection.lat2
+        else:
+            key = "center"
+            ra, rb = self.projection.lon0, self.projection.lat0
         d = {
             "projection": {
                 "type": type(self.projection).__name__,
-                "center": (lon, lat),
+                key: (math.degrees(ra), math.degrees(rb)),
                 "orientation": 0.0,
                 "model": model
             },
@@ -122,7 +126,7 @@ def load(path):
     p = d['projection']
     Proj = getattr(proj, p['type'])
     pt = p['type']
-    c = p['center']
+    c = p['parallels'] if issubclass(Proj, proj.CProj) else p['center']
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-- 
2.43.0


From 7fbb6878bd04a19ff14f58dce72084875a48338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 017/120] fix: loading cached names dropped their trailing
 blanks

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b1fc74b..19d5f8b 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -115,7 +115,7 @@ class Frame:
         with open("{}.names".format(key), "r") as f:
             names = []
             for line in f:
-                names.append(line.rstrip())
+                names.append(line.rstrip("\n"))
         return names
 
 def load(path):
-- 
2.43.0


From 85500237ad88ebf1f88d07ad01af9989955012cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 018/120] fix: top of the range and null did not fit the size
 of numeric fields

---
 coral/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coral/grid.py b/coral/grid.py
index 6c4bfe2..03f94bc 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -21,7 +21,7 @@
 import struct
 
 SIZE_FORMAT = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}
-SIZE_SPAN   = {1: 0x100, 2: 0x10000, 4: 0x100000000, 8: 0x10000000000000000}
+SIZE_SPAN   = {1: 0xFF, 2: 0xFFFF, 4: 0xFFFFFFFF, 8: 0xFFFFFFFFFFFFFFFF}
 
 class IVar:
 
@@ -31,13 +31,13 @@ class IVar:
         self.minv = minv
         self.maxv = maxv
         delta = maxv - minv
-        if delta < SIZE_SPAN[1] - nullable:
+        if delta <= SIZE_SPAN[1] - nullable:
             self.size = 1
-        elif delta < SIZE_SPAN[2] - nullable:
+        elif delta <= SIZE_SPAN[2] - nullable:
             self.size = 2
-        elif delta < SIZE_SPAN[4] - nullable:
+        elif delta <= SIZE_SPAN[4] - nullable:
             self.size = 4
-        elif delta < SIZE_SPAN[8] - nullable:
+        elif delta <= SIZE_SPAN[8] - nullable:
             self.size = 8
         else:
             raise ValueError
-- 
2.43.0


From 66d2a098727463ba45200f6a4e0d085f4c977cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 019/120] fix: integer fields had no format and could not be
 encoded

---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 03f94bc..6f8940c 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -41,6 +41,7 @@ class IVar:
             self.size = 8
         else:
             raise ValueError
+        self.fmt = '>' + SIZE_FORMAT[self.size]
         self.span = SIZE_SPAN[self.size]
         if nullable:
             self.span -= 1
-- 
2.43.0


From be8105dac0a58f987ff31b239be5077a5d1b722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:05 +0000
Subject: [PATCH 020/120] fix: RangeGrid reader raised NameError for a missing
 import

---
 coral/rg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/rg.py b/coral/rg.py
index 3ab2857..01be947 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -81,6 +81,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
 import io
 import struct
+import collections
 
 from .grid import IVar, FVar, SVar, GRow
 
-- 
2.43.0


From 61be49cfd52811f0053b74f575944c1955814a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 021/120] fix: RangeGrid entities with blanks in their ID could
 not be read

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 01be947..4cc82a1 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -135,7 +135,7 @@ def _readindex(path):
     with open(path, "r") as md:
         n = int(md.readline())
         for i in range(n):
-            eid, ensegs = md.readline().split(" ")
+            eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
             elens = [int(s) for s in md.readline().split(" ")]
             index.append((eid, elens))
-- 
2.43.0


From 7f94863f502b36ce7a44bbdf9b538097ac403536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:09 +0000
Subject: [PATCH 022/120] fix: RangeGrid entities without segments could not be
 read

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 4cc82a1..59e25ae 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -137,7 +137,7 @@ def _readindex(path):
         for i in range(n):
             eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split(" ")]
+            elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
     return index
 
-- 
2.43.0


From 2218547f9bd5482fe3ad3e30a3d57363e47cd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:11 +0000
Subject: [PATCH 023/120] fix: RangeGrid reader looped forever on a file cut
 inside a field name

---
 coral/rg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/rg.py b/coral/rg.py
index 59e25ae..aa9090e 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -224,6 +224,8 @@ class Reader:
             bs = b''
             b = rg.read(1)
             while b != b'\x00':
+                if not b:
+                    raise EOFError("unexpected end of file")
                 bs += b
                 b = rg.read(1)
             name = bs.decode("ascii")
-- 
2.43.0


From 5555d78c04f40416df51485ad07d3a6b258d6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:13 +0000
Subject: [PATCH 024/120] fix: PF reader looped forever on a file cut inside a
 name

---
 coral/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 7e301ac..30c222c 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -116,6 +116,8 @@ def readascii(f):
     bs = b""
     b = f.read(1)
     while b != b'\x00':
+        if not b:
+            raise EOFError("unexpected end of file")
         bs += b
         b = f.read(1)
     return bs.decode("ascii")
-- 
2.43.0


From ec41eb7f3e7bddbc166d365984ad9649da9e4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:15 +0000
Subject: [PATCH 025/120] fix: PF writer looped forever on latitudes above 90

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 30c222c..ff542b3 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -174,7 +174,7 @@ class Writer:
                 while lat < -90:
                     lat += 180
                 while lat > 90:
-                    lat += 180
+                    lat -= 180
                 parts[i][j] = (lon, lat)
         nparts = len(parts)
         for i in range(nparts):
-- 
2.43.0


From 6dfcb9b1bfa52dfb710ccafff47d0e65cb293a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 026/120] fix: PF writer failed with 8-byte coordinates on the
 bounding box

---
 coral/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index ff542b3..327b3d4 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -209,6 +209,9 @@ class Writer:
                 lon1, lat1 = point
                 ulon = round((lon1 - x0) * self.umax / (x1 - x0))
                 ulat = round((lat1 - y0) * self.umax / (y1 - y0))
+                # Rounding may exceed the range for points on the bounding box.
+                ulon = max(0, min(self.umax, ulon))
+                ulat = max(0, min(self.umax, ulat))
                 data = struct.pack(self.fmt, ulon, ulat)
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
-- 
2.43.0


From 613bc35e4f09662bae937c21bf6deec5b6f1249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 027/120] fix: rows cut short were decoded as if complete

---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 6f8940c..b77ffbf 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -166,6 +166,7 @@ class GRow:
         return data
 
     def decode(self, data):
+        assert len(data) == self.size
         values = []
         offset = 0
         for f in self.fields:
-- 
2.43.0


From 1a1edbfda7bb9dba2f86531fc527011d899c7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 028/120] fix: damaged RangeGrid indexes were misread instead
 of refused

---
 coral/rg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/rg.py b/coral/rg.py
index aa9090e..6988a75 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -138,6 +138,7 @@ def _readindex(path):
             eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
             elens = [int(s) for s in md.readline().split()]
+            assert len(elens) == ensegs
             index.append((eid, elens))
     return index
 
@@ -219,6 +220,7 @@ class Reader:
         assert ver == b'\x01'
         ncols = ord(rg.read(1))
         nrows, = struct.unpack("I", rg.read(4))
+        assert nrows == sum(sum(elens) for eid, elens in self.index)
         fields = [None] * ncols
         for i in range(ncols):
             bs = b''
-- 
2.43.0


From b9602039c8109819ac229e09d99b1964b36f25d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:47 +0000
Subject: [PATCH 029/120] fix: cache report and clearing left out max and min

---
 coral/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/stats.py b/coral/stats.py
index 4145aa7..6887a70 100644
--- a/coral/stats.py
+++ b/coral/stats.py
@@ -89,7 +89,7 @@ def gini_deaton(seq):
     g = (n + 1) / (n - 1) - 2 * s / (n * (n - 1) * u)
     return g
 
-memos = [sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
+memos = [max, min, sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
 
 CacheInfo = collections.namedtuple("CacheInfo", "hits, misses, maxsize, currsize")
 
-- 
2.43.0


From 3036b0aa65bf75b08a5bd91e08072bddd3585962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 030/120] fix: reading selected columns in another order mixed
 up their values

---
 coral/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 28b22f3..8c2fdf7 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -87,7 +87,7 @@ def readfile(path, keys=None, sep=',', comm='#'):
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-        indexes = [i for i in range(len(fkeys)) if fkeys[i] in keys]
+        indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
             line = line.split(comm)[0].strip()
-- 
2.43.0


From b52c9d55b97d0c366b97eca43f1a1ef0e9177fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:51 +0000
Subject: [PATCH 031/120] fix: reading a table without header line looped
 forever

---
 coral/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 8c2fdf7..eb1fb09 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -83,7 +83,10 @@ def readfile(path, keys=None, sep=',', comm='#'):
     with codecs.open(path, "r", "utf8") as f:
         line = ""
         while not line:
-            line = f.readline().split(comm)[0].strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("no header line in file: {}".format(path))
+            line = line.split(comm)[0].strip()
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-- 
2.43.0


From c60cd6281abeba937dc70f6218a6c0a565c06460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:53 +0000
Subject: [PATCH 032/120] fix: progress meter failed on iterables without
 length

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index 13ce086..eac33aa 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -39,7 +39,7 @@ def format_meter(n, total, elapsed):
     # n - number of finished iterations
     # total - total number of iterations, or None
     # elapsed - number of seconds passed since start
-    if n > total:
+    if total is not None and n > total:
         total = None
     
     elapsed_str = format_interval(elapsed)
-- 
2.43.0


From 924709fc5c67bf2f0413fb2bf31eaeac15d12333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:55 +0000
Subject: [PATCH 033/120] fix: progress meter wrote to standard output instead
 of its file

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index eac33aa..a8fabec 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -118,7 +118,7 @@ def tqdm(iterable, desc='', total=None, leave=True, file=sys.stderr,
     
     if not leave:
         sp.print_status('')
-        sys.stdout.write('\r')
+        file.write('\r')
     else:
         if last_print_n < n:
             cur_t = time.time()
-- 
2.43.0


From 3f19dcf3aa587aecb7789e0886c6b46dcf2b1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:15 +0000
Subject: [PATCH 034/120] fix: selecting columns by a string of names when
 reading a table

---
 coral/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index eb1fb09..0f59b10 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -90,8 +90,8 @@ def readfile(path, keys=None, sep=',', comm='#'):
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-        indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
+        indexes = [fkeys.index(key) for key in Row._fields]
         for line in f:
             line = line.split(comm)[0].strip()
             if not line:
-- 
2.43.0


From 346ce4430d5526584e2c9109cb5ab410ce337ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 035/120] fix: Jaro similarity matched characters twice and
 could exceed 1

---
 coral/names.py | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/coral/names.py b/coral/names.py
index c2f399e..1043bac 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -74,35 +74,19 @@ def strerr(s1, s2):
 def jaro(s1, s2):
     ls1 = len(s1)
     ls2 = len(s2)
-    if ls1 < ls2:
-        s1 += "*" * (ls2 - ls1)
-        length = ls2
-    elif ls2 < ls1:
-        s2 += "*" * (ls1 - ls2)
-        length = ls1
-    else:
-        length = ls1
-    m = 0
-    w = length // 2 - 1
-    p = []
-    for i in range(length):
-        if s1[i] == s2[i]:
-            m += 1
-        else:
-            i0, i1 = max(0, i-w), min(length, i+w+1)
-            f = s2.find(s1[i], i0, i1)
-            if f >= 0:
-                m += 1
+    w = max(0, max(ls1, ls2) // 2 - 1)
+    # Each character of a string can match only one character of the other.
+    m1, p = [], []
+    for i in range(ls1):
+        for f in range(max(0, i-w), min(ls2, i+w+1)):
+            if f not in p and s1[i] == s2[f]:
+                m1.append(s1[i])
                 p.append(f)
+                break
+    m = len(p)
     if m == 0:
         return 0
-    t = 0
-    x = 0
-    for f in p:
-        if f < x:
-            t += 1
-        else:
-            x = f
+    t = sum(c1 != s2[f] for c1, f in zip(m1, sorted(p))) / 2
     return (m / ls1 + m / ls2 + (m - t) / m) / 3
 
 # http://en.wikipedia.org/wiki/Jaro%E2%80%93Winkler_distance
-- 
2.43.0


From ffb7fb4e13bc82a1cdc46659bdde06ee49abbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:18 +0000
Subject: [PATCH 036/120] fix: abbreviations raised NameError for names that
 were never defined

---
 coral/names.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 1043bac..1319c0e 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import collections
+import itertools
 
 def ascii(s):
     src = "áàãâäéèẽêëíìĩîïóòõôöúùũûüç"
@@ -113,7 +114,8 @@ def mapping(keys, values):
     m.sort(key=lambda match: -match.score)
     return m
 
-def abbreviations(names, length):
+def abbreviations(names, length, extras=()):
+    # `extras` are words to be left out when surrounded by others.
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
     inames.sort(key=len)
-- 
2.43.0


From 2dce99ba5448b7833efaa774c695b383dba0a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 037/120] fix: abbreviations could coincide with a shorter name
 handled later

---
 coral/names.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 1319c0e..210e039 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -118,7 +118,7 @@ def abbreviations(names, length, extras=()):
     # `extras` are words to be left out when surrounded by others.
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
-    inames.sort(key=len)
+    inames.sort(key=lambda iname: len(iname[1]))
     counter = collections.Counter()
     for i, name in inames:
         counter.update(set(name))
-- 
2.43.0


From bb85459f8f0754a68ff2557d55e0f8a511394472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:22 +0000
Subject: [PATCH 038/120] fix: polygon filling lost spans at the right border
 and at coinciding edges

Marks were paired by the direction of the last one popped, so edges sharing
a column flipped the state, and a span ending at the canvas width was left
unfilled.  Count windings instead.
---
 coral/raster.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 41423ef..4b43b86 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -64,18 +64,15 @@ class BaseCanvas:
         "Fill polygons previously scanned with `scanpolygon()`."
 
         for y, marks in enumerate(scans):
-            heapq.heappush(marks, (self.width, False))
-            x1, d1 = heapq.heappop(marks)
-            x0, d0 = 0, not d1
-            while x1 < self.width:
-                if not d0:
-                    while x0 < x1:
+            x0, wind = 0, 0
+            while marks:
+                x1, down = heapq.heappop(marks)
+                if wind:
+                    while x0 < min(x1, self.width):
                         self[x0, y] = color
                         x0 += 1
-                else:
-                    x0 = x1
-                d0 = d1
-                x1, d1 = heapq.heappop(marks)
+                x0 = x1
+                wind += -1 if down else 1
 
     def line(self, start, end, color):
         "Draw line using Bresenham's algorithm."
-- 
2.43.0


From 48f72e45769693c219bbcd55398b5ce74a5067ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 039/120] fix: anti-aliased lines wrote pixels beyond the
 canvas border

A pixel with zero coverage was still written, which raised IndexError below
the last row and, on colour canvases, grew the pixel data.
---
 coral/raster.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 4b43b86..14f9b54 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -105,6 +105,10 @@ class BaseCanvas:
         ipart   = int
         fpart   = lambda x: math.modf(x)[0]
         rfpart  = lambda x: 1 - math.modf(x)[0]
+        def plot(x, y, alpha):
+            # pixels without coverage may lie beyond the canvas border.
+            if alpha > 0:
+                self[x, y] = color + (alpha,)
         x0, y0 = start
         x1, y1 = end
         steep = abs(y1 - y0) > abs(x1 - x0)
@@ -125,11 +129,11 @@ class BaseCanvas:
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
         if steep:
-            self[ypxl1  , xpxl1] = color + (alpha1,)
-            self[ypxl1+1, xpxl1] = color + (alpha2,)
+            plot(ypxl1, xpxl1, alpha1)
+            plot(ypxl1+1, xpxl1, alpha2)
         else:
-            self[xpxl1, ypxl1  ] = color + (alpha1,)
-            self[xpxl1, ypxl1+1] = color + (alpha2,)
+            plot(xpxl1, ypxl1, alpha1)
+            plot(xpxl1, ypxl1+1, alpha2)
         intery = yend + gradient
 
         # Line end.
@@ -141,22 +145,22 @@ class BaseCanvas:
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
         if steep:
-            self[ypxl2  , xpxl2] = color + (alpha1,)
-            self[ypxl2+1, xpxl2] = color + (alpha2,)
+            plot(ypxl2, xpxl2, alpha1)
+            plot(ypxl2+1, xpxl2, alpha2)
         else:
-            self[xpxl2, ypxl2  ] = color + (alpha1,)
-            self[xpxl2, ypxl2+1] = color + (alpha2,)
+            plot(xpxl2, ypxl2, alpha1)
+            plot(xpxl2, ypxl2+1, alpha2)
 
         # Internal points.
         for x in range(xpxl1+1, xpxl2):
             alpha1 = rfpart(intery)
             alpha2 =  fpart(intery)
             if steep:
-                self[ipart(intery)  , x] = color + (alpha1,)
-                self[ipart(intery)+1, x] = color + (alpha2,)
+                plot(ipart(intery), x, alpha1)
+                plot(ipart(intery)+1, x, alpha2)
             else:
-                self[x, ipart(intery)  ] = color + (alpha1,)
-                self[x, ipart(intery)+1] = color + (alpha2,)
+                plot(x, ipart(intery), alpha1)
+                plot(x, ipart(intery)+1, alpha2)
             intery += gradient
 
     def strokepolygon(self, points, color, aa=None):
-- 
2.43.0


From 17ed4d9ea2f3f7a31834af1145934d6e6210d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:53 +0000
Subject: [PATCH 040/120] fix: anti-aliased line between equal points divided
 by zero

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 14f9b54..57d47e3 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -118,7 +118,7 @@ class BaseCanvas:
             (x0, y0), (x1, y1) = (x1, y1), (x0, y0)
         dx = x1 - x0
         dy = y1 - y0
-        gradient = dy / dx
+        gradient = dy / dx if dx else 0
 
         # Line start.
         xend = nearest(x0)
-- 
2.43.0


From c630dbd1be8c35c8ca468d94a2e2ef6395a3be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:55 +0000
Subject: [PATCH 041/120] fix: anti-aliased lines and strokes rejected plain
 grey levels

---
 coral/raster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/raster.py b/coral/raster.py
index 57d47e3..968ec18 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -120,6 +120,9 @@ class BaseCanvas:
         dy = y1 - y0
         gradient = dy / dx if dx else 0
 
+        if not isinstance(color, tuple):
+            color = (color,)
+
         # Line start.
         xend = nearest(x0)
         yend = y0 + gradient * (xend - x0)
-- 
2.43.0


From bdd92d37d88f51349f11b24aa2d934cfc97db1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 042/120] fix: black-and-white canvas filled one pixel in eight
 with the background

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 968ec18..053ac6e 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -183,7 +183,7 @@ class BWCanvas(BaseCanvas):
         self.bgcolor = bgcolor
         nw = math.ceil(width/8) # bytes/row
         n = nw * height
-        self.data = array('B', (bgcolor for i in range(n)))
+        self.data = array('B', (0xFF if bgcolor else 0 for i in range(n)))
         self.bits_per_row = nw * 8
 
     def __getitem__(self, key):
-- 
2.43.0


From 40d5ff8bc573481adb74f08926ac3338b04e589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 043/120] fix: changing between grey and colour inks could be
 skipped

Grey and colour share one ink in PostScript, but were remembered separately.
---
 coral/vector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index aadeb81..9783114 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -83,8 +83,10 @@ class Canvas:
         if bgcolor is not None:
             if isinstance(bgcolor, tuple):
                 self.state['color'] = bgcolor
+                self.state['gray'] = None
             else:
                 self.state['gray'] = bgcolor
+                self.state['color'] = None
         self.deps = set()
 
     def copy(self):
@@ -104,6 +106,7 @@ class Canvas:
         line = "{} v".format(v)
         self.lines.append(line)
         self.state['gray'] = v
+        self.state['color'] = None
 
     def setcolor(self, r, g, b):
         if self.state['color'] == (r, g, b):
@@ -111,6 +114,7 @@ class Canvas:
         line = "{} {} {} rgb".format(r, g, b)
         self.lines.append(line)
         self.state['color'] = (r, g, b)
+        self.state['gray'] = None
 
     def setink(self, ink):
         if isinstance(ink, tuple):
-- 
2.43.0


From 7e82c5333d54b693307b2203d16d1b689109458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:00 +0000
Subject: [PATCH 044/120] fix: stroke ink was skipped when equal to the fill
 ink

The graphics state is restored between filling and stroking, the remembered
state was not.
---
 coral/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 9783114..dfcac58 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -148,11 +148,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
@@ -198,11 +200,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
@@ -221,11 +225,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
-- 
2.43.0


From 6ac778dfe2f907e077ad899c1dac7b7ca82b4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 045/120] fix: circles were joined to the previous text or
 unpainted path

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index dfcac58..edee60d 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -143,6 +143,7 @@ class Canvas:
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
+        self.lines.append("np")
         line = "{} {} {} 0 360 arc cp".format(x, y, r)
         self.lines.append(line)
         if fill is not None:
-- 
2.43.0


From 9124aba9682eb2955ee1a471d1fac0f71c0b599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 046/120] fix: text with parentheses or backslashes produced
 broken PostScript

---
 coral/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index edee60d..7a6b589 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -241,6 +241,8 @@ class Canvas:
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
         x, y = pos
+        for char in "\\()":
+            text = text.replace(char, "\\" + char)
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
         self.lines.append(line)
-- 
2.43.0


From 6f400f440a5eb5ae33c3dc0cfd8b0bb187d5dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:06 +0000
Subject: [PATCH 047/120] fix: dash pattern changed in place by the caller was
 not noticed

---
 coral/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 7a6b589..4e391b1 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -133,12 +133,12 @@ class Canvas:
         self.state['width'] = w
 
     def setdash(self, pattern, offset=0):
-        if self.state['dash'] == (pattern, offset):
+        if self.state['dash'] == (list(pattern), offset):
             return
         psarray = "[{}]".format(" ".join(map(str, pattern)))
         line = "{} {} setdash".format(psarray, offset)
         self.lines.append(line)
-        self.state['dash'] = (pattern, offset)
+        self.state['dash'] = (list(pattern), offset)
 
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
-- 
2.43.0


From cc62ddf47cbcfacf33b2acbf66015eb1172b6103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 048/120] fix: oblique Mercator raised ValueError at its
 singular points

Raise ProjectionError, as the other Mercator projections do.
---
 coral/proj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index ca5de2c..16435dd 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -196,6 +196,9 @@ class ObliqMercator(Proj):
         lon, lat = math.radians(lon), math.radians(lat)
         c, s = math.cos(self.lat0), math.sin(self.lat0)
         a = s * math.sin(lat) - c * math.cos(lat) * math.sin(lon - self.lon0)
+        if not -1 < a < 1:
+            lon, lat = math.degrees(lon), math.degrees(lat)
+            raise ProjectionError("Invalid coordinates for this projection: {}, {}.".format(lon, lat))
         v = math.tan(lat) * c + s * math.sin(lon - self.lon0)
         h = math.cos(lon - self.lon0)
         x = self.r * math.atan2(v, h)
-- 
2.43.0


From 1c37bc941ceb3c1b271319732c59f3bb9dea3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 049/120] fix: Albers projection failed at poles by rounding
 outside asin and sqrt domains

---
 coral/proj.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 16435dd..f5a97cf 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -413,7 +413,7 @@ class ConicEqualArea(CProj):
     def geo2rect(self, lon, lat):
         lon, lat = math.radians(lon), math.radians(lat)
         sinlat = math.sin(lat)
-        p = self.r * math.sqrt(self.c - 2 * self.n * sinlat) / self.n
+        p = self.r * math.sqrt(max(0, self.c - 2 * self.n * sinlat)) / self.n
         t = self.n * lon
         x = p * math.sin(t)
         y = self.p0 - p * math.cos(t)
@@ -429,7 +429,8 @@ class ConicEqualArea(CProj):
         t = math.atan2(x, p0 - y)
         lon = t / self.n
         pnr = p * self.n / self.r
-        lat = math.asin((self.c - pnr*pnr) / (2 * self.n))
+        sinlat = (self.c - pnr*pnr) / (2 * self.n)
+        lat = math.asin(max(-1, min(1, sinlat)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 2b5adc9c0808dee082638c43bc5f4850370fc564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 050/120] fix: shapefile reader rejected the negative index of
 the first record

An index into a file without records is now out of range too.
---
 coral/shapefile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c789f89..45aa231 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -306,9 +306,8 @@ class Reader:
     def __restrictIndex(self, i):
         """Provides list-like handling of a record index with a clearer
         error message if the index is out of bounds."""
-        if self.numRecords:
-            rmax = self.numRecords - 1
-            if abs(i) > rmax:
+        if self.numRecords is not None:
+            if not -self.numRecords <= i < self.numRecords:
                 raise IndexError("Shape or Record index out of range.")
             if i < 0: i = range(self.numRecords)[i]
         return i
-- 
2.43.0


From 6f5c4de0f97527702e6dd525e45af69321fab296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:50 +0000
Subject: [PATCH 051/120] fix: reading a dbf file without records failed

The header was parsed again from the current position.
---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 45aa231..8ef361e 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -485,7 +485,7 @@ class Reader:
 
     def __recordFmt(self):
         """Calculates the size of a .shp geometry record."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in self.fields])
         fmtSize = calcsize(fmt)
@@ -533,7 +533,7 @@ class Reader:
     def record(self, i=0):
         """Returns a specific dbf record based on the supplied index."""
         f = self.__getFileObj(self.dbf)
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         i = self.__restrictIndex(i)
         recSize = self.__recordFmt()[1]
@@ -543,7 +543,7 @@ class Reader:
 
     def records(self):
         """Returns all records in a dbf file."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         records = []
         f = self.__getFileObj(self.dbf)
@@ -557,7 +557,7 @@ class Reader:
     def iterRecords(self):
         """Serves up records in a dbf file as an iterator.
         Useful for large shapefiles or dbf files."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
         f.seek(self.__dbfHeaderLength())
-- 
2.43.0


From f1f352a79a0a7da841bea03a979f0219b710c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 052/120] fix: shapeRecords() paired shapes with wrong rows
 after a deleted record

---
 coral/shapefile.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 8ef361e..409a185 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -550,7 +550,7 @@ class Reader:
         f.seek(self.__dbfHeaderLength())
         for i in range(self.numRecords):
             r = self.__record()
-            if r:
+            if r is not None:
                 records.append(r)
         return records
 
@@ -563,7 +563,7 @@ class Reader:
         f.seek(self.__dbfHeaderLength())
         for i in xrange(self.numRecords):
             r = self.__record()
-            if r:
+            if r is not None:
                 yield r
 
     def shapeRecord(self, i=0):
@@ -575,9 +575,13 @@ class Reader:
     def shapeRecords(self):
         """Returns a list of combination geometry/attribute records for
         all records in a shapefile."""
-        shapeRecords = []
+        shapes = self.shapes()
+        self.__getFileObj(self.dbf)
+        n = min(len(shapes), self.numRecords)
+        records = [self.record(i) for i in range(n)]
+        # Records marked as deleted are left out along with their shapes.
         return [_ShapeRecord(shape=rec[0], record=rec[1]) \
-                                for rec in zip(self.shapes(), self.records())]
+                                for rec in zip(shapes, records) if rec[1] is not None]
 
 class Writer:
     """Provides write support for ESRI Shapefiles."""
-- 
2.43.0


From 04b0641969300f329d802c5d010feed029df9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:53 +0000
Subject: [PATCH 053/120] fix: shape() failed for negative indices without shx
 and dbf files

---
 coral/shapefile.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 409a185..fdbabee 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -418,9 +418,7 @@ class Reader:
         offset = self.__shapeIndex(i)
         if not offset:
             # Shx index not available so iterate the full list.
-            for j,k in enumerate(self.iterShapes()):
-                if j == i:
-                    return k
+            return self.shapes()[i]
         shp.seek(offset)
         return self.__shape()
 
-- 
2.43.0


From 8249303744da18f5a202ad24314e0e230c7ecdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 054/120] fix: blank dbf values were returned as undecoded
 bytes

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index fdbabee..0ba67f6 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -503,7 +503,7 @@ class Reader:
             if name == 'DeletionFlag':
                 continue
             elif not value.strip():
-                record.append(value)
+                record.append(self.u(value.strip()))
                 continue
             elif typ == "N":
                 value = value.replace(self.b('\0'), self.b('')).strip()
-- 
2.43.0


From 50e0498dedfe4d8fb700d07b08e6dd28af92f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 055/120] fix: dates and logical values of dbf files were not
 decoded

Field types are text, but were compared to bytes. Accept decoded and empty
values when writing, so that a file that was read can be written again.
---
 coral/shapefile.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 0ba67f6..0f54e1b 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -513,15 +513,15 @@ class Reader:
                     value = float(value)
                 else:
                     value = int(value)
-            elif typ == self.b('D'):
+            elif typ == 'D':
                 try:
                     y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])
                     value = [y, m, d]
                 except:
-                    value = value.strip()
-            elif typ == self.b('L'):
-                value = (value in self.b('YyTt') and self.b('T')) or \
-                                        (value in self.b('NnFf') and self.b('F')) or self.b('?')
+                    value = self.u(value).strip()
+            elif typ == 'L':
+                value = (value in self.b('YyTt') and 'T') or \
+                                        (value in self.b('NnFf') and 'F') or '?'
             else:
                 value = self.u(value)
                 value = value.strip()
@@ -916,7 +916,9 @@ class Writer:
                 if fieldType.upper() == "N":
                     value = str(value).rjust(size)
                 elif fieldType == 'L':
-                    value = str(value)[0].upper()
+                    value = str(value)[:1].upper().ljust(size)
+                elif fieldType == 'D' and isinstance(value, (list, tuple)):
+                    value = "{:04}{:02}{:02}".format(*value).ljust(size)
                 else:
                     value = str(value)[:size].ljust(size)
                 assert len(value) == size
-- 
2.43.0


From b3a65d6d8e4dc7742439d02df06d4cabe5bfcfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:19 +0000
Subject: [PATCH 056/120] fix: non-ASCII text shifted the following dbf values

Text was padded and cut by characters, but field sizes are in bytes.
---
 coral/shapefile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 0f54e1b..3fa4b31 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -920,9 +920,12 @@ class Writer:
                 elif fieldType == 'D' and isinstance(value, (list, tuple)):
                     value = "{:04}{:02}{:02}".format(*value).ljust(size)
                 else:
-                    value = str(value)[:size].ljust(size)
-                assert len(value) == size
+                    # Sizes are in bytes. Do not cut inside a character.
+                    value = self.b(str(value))[:size]
+                    value = value.decode(self.encoding, 'ignore')
+                    value += ' ' * (size - len(self.b(value)))
                 value = self.b(value)
+                assert len(value) == size
                 f.write(value)
 
     def null(self):
-- 
2.43.0


From 6a8c55e79c0267334d88e97786f29d76035d1099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:21 +0000
Subject: [PATCH 057/120] fix: record values given by name shifted when a field
 was left out

---
 coral/shapefile.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 3fa4b31..65f71bb 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -995,12 +995,13 @@ class Writer:
             [record.append(recordList[i]) for i in range(fieldCount)]
         elif recordDict:
             for field in self.fields:
-                if field[0] in recordDict:
-                    val = recordDict[field[0]]
-                    if val is None:
-                        record.append("")
-                    else:
-                        record.append(val)
+                if field[0] == "DeletionFlag":
+                    continue
+                val = recordDict.get(field[0])
+                if val is None:
+                    record.append("")
+                else:
+                    record.append(val)
         if record:
             self.records.append(record)
 
-- 
2.43.0


From 1e76081dffa330c02e6c70714e09cb6bc6338a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 058/120] fix: fields with names starting with Deletion were
 dropped

---
 coral/shapefile.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 65f71bb..3d74b62 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -763,7 +763,7 @@ class Writer:
         year -= 1900
         # Remove deletion flag placeholder from fields
         for field in self.fields:
-            if field[0].startswith("Deletion"):
+            if field[0] == "DeletionFlag":
                 self.fields.remove(field)
         numRecs = len(self.records)
         numFields = len(self.fields)
@@ -908,8 +908,7 @@ class Writer:
         """Writes the dbf records."""
         f = self.__getFileObj(self.dbf)
         for record in self.records:
-            if not self.fields[0][0].startswith("Deletion"):
-                f.write(self.b(' ')) # deletion flag
+            f.write(self.b(' ')) # deletion flag
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
                 fieldType = fieldType.upper()
                 size = int(size)
@@ -990,7 +989,7 @@ class Writer:
         record = []
         fieldCount = len(self.fields)
         # Compensate for deletion flag
-        if self.fields[0][0].startswith("Deletion"): fieldCount -= 1
+        if self.fields[0][0] == "DeletionFlag": fieldCount -= 1
         if recordList:
             [record.append(recordList[i]) for i in range(fieldCount)]
         elif recordDict:
-- 
2.43.0


From 3243a7c2664b29d0ddc93575bd2e4c439d0f6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 059/120] fix: saving a shapefile again wrote the index of the
 first save

---
 coral/shapefile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 3d74b62..d6a6e7b 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -789,6 +789,8 @@ class Writer:
         """Write the shp records"""
         f = self.__getFileObj(self.shp)
         f.seek(100)
+        self._offsets = []
+        self._lengths = []
         recNum = 1
         for s in self._shapes:
             self._offsets.append(f.tell())
-- 
2.43.0


From 21f63cc64ade3263d6f56967bc1d9db9e4e90823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 060/120] fix: null shapes could not be mixed with other shapes
 when writing

They took the type of the file (or gave it theirs), and broke the bounding
box and the file length. Files without any shape can be written as well.
---
 coral/shapefile.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index d6a6e7b..05be42f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -624,6 +624,8 @@ class Writer:
         for s in self._shapes:
             # Add in record header and shape type fields
             size += 12
+            if s.shapeType == NULL:
+                continue
             # nParts and nPoints do not apply to all shapes
             #if self.shapeType not in (0,1):
             #       nParts = len(s.parts)
@@ -682,9 +684,13 @@ class Writer:
             shapeType = self.shapeType
             if shapeTypes:
                 shapeType = shapeTypes[shapes.index(s)]
+            if not s.points:
+                continue
             px, py = list(zip(*s.points))[:2]
             x.extend(px)
             y.extend(py)
+        if not x:
+            return [0, 0, 0, 0]
         return [min(x), min(y), max(x), max(y)]
 
     def __zbox(self, shapes, shapeTypes=[]):
@@ -799,7 +805,7 @@ class Writer:
             recNum += 1
             start = f.tell()
             # Shape Type
-            if self.shapeType != 31:
+            if self.shapeType != 31 and s.shapeType != NULL:
                 s.shapeType = self.shapeType
             f.write(pack("<i", s.shapeType))
             # All shape types capable of having a bounding box
@@ -935,7 +941,7 @@ class Writer:
 
     def point(self, x, y, z=0, m=0):
         """Creates a point shape."""
-        pointShape = _Shape(self.shapeType)
+        pointShape = _Shape(self.shapeType or POINT)
         pointShape.points.append([x, y, z, m])
         self._shapes.append(pointShape)
 
@@ -1018,7 +1024,8 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shp'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            types = [s.shapeType for s in self._shapes if s.shapeType]
+            self.shapeType = types[0] if types else NULL
         self.shp = self.__getFileObj(target)
         self.__shapefileHeader(self.shp, headerType='shp')
         self.__shpRecords()
@@ -1028,7 +1035,8 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shx'
         if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+            types = [s.shapeType for s in self._shapes if s.shapeType]
+            self.shapeType = types[0] if types else NULL
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
-- 
2.43.0


From 34d5f9ce81ecb19c6ae0c313e205387c68719895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 061/120] fix: MultiPointZ and MultiPointM shapes lacked their
 points

The number of points and their coordinates were neither read nor written.
---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 05be42f..103bc37 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -350,7 +350,7 @@ class Reader:
         if shapeType in (3,5,13,15,23,25,31):
             nParts = unpack("<i", f.read(4))[0]
         # Shape types with points
-        if shapeType in (3,5,8,13,15,23,25,31):
+        if shapeType in (3,5,8,13,15,18,23,25,28,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
         if nParts:
@@ -644,7 +644,7 @@ class Writer:
                 # Parts index array
                 size += nParts * 4
             # Shape types with points
-            if self.shapeType in (3,5,8,13,15,23,25,31):
+            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Points count
                 size += 4
                 # Points array
@@ -819,7 +819,7 @@ class Writer:
                 # Number of parts
                 f.write(pack("<i", len(s.parts)))
             # Shape types with multiple points per record
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Number of points
                 f.write(pack("<i", len(s.points)))
             # Write part indexes
@@ -831,7 +831,7 @@ class Writer:
                 for pt in s.partTypes:
                     f.write(pack("<i", pt))
             # Write points for multiple-point records
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 try:
                     [f.write(pack("<2d", *p[:2])) for p in s.points]
                 except error:
-- 
2.43.0


From 4b830c88ff4b5124795079c79fbd7740f510707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:37 +0000
Subject: [PATCH 062/120] fix: shp header length did not count the measures of
 some shape types

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 103bc37..8a7545c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -659,7 +659,7 @@ class Writer:
                 # z array
                 size += 8 * nPoints
             # Calc m extremes and values
-            if self.shapeType in (23,25,31):
+            if self.shapeType in (13,15,18,23,25,28,31):
                 # m extremes
                 size += 16
                 # m array
-- 
2.43.0


From 352a5d3635bd5b7f4fb2287e40a7b272953869c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 063/120] fix: measures were ignored or invented depending on
 the file header

Whether a record has its optional measures shows in its length only; a range
in the header that touches zero does not mean that there are none.
---
 coral/shapefile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 8a7545c..2fb7c31 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -365,8 +365,8 @@ class Reader:
         if shapeType in (13,15,18,31):
             (zmin, zmax) = unpack("<2d", f.read(16))
             record.z = _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8)))
-        # Read m extremes and values if header m values do not equal 0.0
-        if shapeType in (13,15,18,23,25,28,31) and not 0.0 in self.measure:
+        # Read m extremes and values if the record has them
+        if shapeType in (13,15,18,23,25,28,31) and next - f.tell() >= 16 + 8 * nPoints:
             (mmin, mmax) = unpack("<2d", f.read(16))
             # Measure values less than -10e38 are nodata values according to the spec
             record.m = []
@@ -382,7 +382,7 @@ class Reader:
         if shapeType == 11:
             record.z = unpack("<d", f.read(8))
         # Read a single M value
-        if shapeType in (11,21):
+        if shapeType in (11,21) and next - f.tell() >= 8:
             record.m = unpack("<d", f.read(8))
         # Seek to the end of this record as defined by the record header because
         # the shapefile spec doesn't require the actual content to meet the header
-- 
2.43.0


From f2a92e1170a94800e53c690af096d2dd513fe5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:40 +0000
Subject: [PATCH 064/120] fix: Z and M shapes could be written only from points
 or only after reading

Polygons and lines with elevations given in their points had no z attribute,
and shapes read from a file had no measure in their points. Ranges of
measures no longer include zero when it is not among them.
---
 coral/shapefile.py | 70 ++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 43 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 2fb7c31..a4a31c7 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -54,6 +54,9 @@ POLYGONM = 25
 MULTIPOINTM = 28
 MULTIPATCH = 31
 
+# Measures not greater than this mean no data.
+NODATA = -10e38
+
 PYTHON3 = sys.version_info[0] == 3
 
 if PYTHON3:
@@ -371,7 +374,7 @@ class Reader:
             # Measure values less than -10e38 are nodata values according to the spec
             record.m = []
             for m in _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8))):
-                if m > -10e38:
+                if m > NODATA:
                     record.m.append(m)
                 else:
                     record.m.append(None)
@@ -693,25 +696,27 @@ class Writer:
             return [0, 0, 0, 0]
         return [min(x), min(y), max(x), max(y)]
 
+    def __values(self, s, i):
+        """Returns the elevations (i = 2) or measures (i = 3) of a shape,
+        as read from a file or as given along with its points."""
+        values = getattr(s, "z" if i == 2 else "m", None)
+        if values is None:
+            values = [p[i] if len(p) > i else None for p in s.points]
+        # Missing measures are written as no data values.
+        return [(0 if i == 2 else NODATA) if v is None else v for v in values]
+
     def __zbox(self, shapes, shapeTypes=[]):
         z = []
         for s in shapes:
-            try:
-                for p in s.points:
-                    z.append(p[2])
-            except IndexError:
-                pass
+            z.extend(self.__values(s, 2))
         if not z: z.append(0)
         return [min(z), max(z)]
 
     def __mbox(self, shapes, shapeTypes=[]):
-        m = [0]
+        m = []
         for s in shapes:
-            try:
-                for p in s.points:
-                    m.append(p[3])
-            except IndexError:
-                pass
+            m.extend(v for v in self.__values(s, 3) if v > NODATA)
+        if not m: m.append(0)
         return [min(m), max(m)]
 
     def bbox(self):
@@ -843,8 +848,7 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write elevation extremes for record %s. Expected floats." % recNum)
                 try:
-                    #[f.write(pack("<d", p[2])) for p in s.points]
-                    f.write(pack("<%sd" % len(s.z), *s.z))
+                    [f.write(pack("<d", z)) for z in self.__values(s, 2)]
                 except error:
                     raise ShapefileException("Failed to write elevation values for record %s. Expected floats." % recNum)
             # Write m extremes and values
@@ -854,7 +858,7 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write measure extremes for record %s. Expected floats" % recNum)
                 try:
-                    [f.write(pack("<d", p[3])) for p in s.points]
+                    [f.write(pack("<d", m)) for m in self.__values(s, 3)]
                 except error:
                     raise ShapefileException("Failed to write measure values for record %s. Expected floats" % recNum)
             # Write a single point
@@ -865,36 +869,16 @@ class Writer:
                     raise ShapefileException("Failed to write point for record %s. Expected floats." % recNum)
             # Write a single Z value
             if s.shapeType == 11:
-                if hasattr(s, "z"):
-                    try:
-                        if not s.z:
-                            s.z = (0,)    
-                        f.write(pack("<d", s.z[0]))
-                    except error:
-                        raise ShapefileException("Failed to write elevation value for record %s. Expected floats." % recNum)
-                else:
-                    try:
-                        if len(s.points[0])<3:
-                            s.points[0].append(0)
-                        f.write(pack("<d", s.points[0][2]))
-                    except error:
-                        raise ShapefileException("Failed to write elevation value for record %s. Expected floats." % recNum)
+                try:
+                    f.write(pack("<d", self.__values(s, 2)[0]))
+                except error:
+                    raise ShapefileException("Failed to write elevation value for record %s. Expected floats." % recNum)
             # Write a single M value
             if s.shapeType in (11,21):
-                if hasattr(s, "m"):
-                    try:
-                        if not s.m:
-                            s.m = (0,) 
-                        f.write(pack("<1d", s.m[0]))
-                    except error:
-                        raise ShapefileException("Failed to write measure value for record %s. Expected floats." % recNum)    
-                else:                                
-                    try:
-                        if len(s.points[0])<4:
-                            s.points[0].append(0)
-                        f.write(pack("<1d", s.points[0][3]))
-                    except error:
-                        raise ShapefileException("Failed to write measure value for record %s. Expected floats." % recNum)
+                try:
+                    f.write(pack("<1d", self.__values(s, 3)[0]))
+                except error:
+                    raise ShapefileException("Failed to write measure value for record %s. Expected floats." % recNum)
             # Finalize record length as 16-bit words
             finish = f.tell()
             length = (finish - start) // 2
-- 
2.43.0


From 068c48f088fe74e6ed00a312d7e8937a994ebe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:42 +0000
Subject: [PATCH 065/120] fix: default part types of a multipatch accumulated
 those of earlier ones

---
 coral/shapefile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a4a31c7..1e703c1 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -935,7 +935,7 @@ class Writer:
         """
         self.poly(parts, shapeType, [])
 
-    def poly(self, parts=[], shapeType=POLYGON, partTypes=[]):
+    def poly(self, parts=[], shapeType=POLYGON, partTypes=None):
         """Creates a shape that has multiple collections of points (parts)
         including lines, polygons, and even multipoint shapes. If no shape type
         is specified it defaults to 'polygon'. If no part types are specified
@@ -961,8 +961,7 @@ class Writer:
                 polyShape.points.append(point)
         if polyShape.shapeType == 31:
             if not partTypes:
-                for part in parts:
-                    partTypes.append(polyShape.shapeType)
+                partTypes = [polyShape.shapeType for part in parts]
             polyShape.partTypes = partTypes
         self._shapes.append(polyShape)
 
-- 
2.43.0


From a3a8cfe33c7e025cfc7d6bed6367613ae2b4b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 066/120] fix: poly() changed the lists of the caller and
 rejected tuples of points

---
 coral/shapefile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 1e703c1..995137d 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -944,6 +944,7 @@ class Writer:
         polyShape = _Shape(shapeType)
         polyShape.parts = []
         polyShape.points = []
+        parts = [list(part) for part in parts]
         # Make sure polygons are closed
         if shapeType in (5,15,25,31):
             for part in parts:
@@ -952,9 +953,8 @@ class Writer:
         for part in parts:
             polyShape.parts.append(len(polyShape.points))
             for point in part:
-                # Ensure point is list
-                if not isinstance(point, list):
-                    point = list(point)
+                # Ensure point is a list of its own
+                point = list(point)
                 # Make sure point has z and m values
                 while len(point) < 4:
                     point.append(0)
-- 
2.43.0


From 7980c8f3598aae474229c4d79125339ceb234c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 067/120] fix: Editor.delete() did nothing for the first shape

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 995137d..2d14734 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1091,7 +1091,7 @@ class Editor(Writer):
         elif shape and part and not point:
             del self._shapes[shape][part]
         # shape
-        elif shape and not part and not point:
+        elif shape is not None and not part and not point:
             del self._shapes[shape]
         # point
         elif not shape and not part and point:
-- 
2.43.0


From 1eb93864cb31b869296966eeb3350edd6d45b419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:18 +0000
Subject: [PATCH 068/120] fix: points added with the Editor could not be saved

They had None for elevation and measure, and no empty record was added when
balancing.
---
 coral/shapefile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 2d14734..50a2f07 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1153,7 +1153,7 @@ class Editor(Writer):
             shape, part, point = addr
             self._shapes[shape][part][point] = [x, y, z, m]
         else:
-            Writer.point(self, x, y, z, m)
+            Writer.point(self, x, y, z or 0, m or 0)
         if self.autoBalance:
             self.balance()
 
@@ -1170,7 +1170,8 @@ class Editor(Writer):
         if len(self.records) > len(self._shapes):
             self.null()
         elif len(self.records) < len(self._shapes):
-            self.record()
+            fields = [f for f in self.fields if f[0] != "DeletionFlag"]
+            self.records.append(["" for f in fields])
 
     def __fieldNorm(self, fieldName):
         """Normalizes a dbf field name to fit within the spec and the
-- 
2.43.0


From 3671871cc07dbe3cd70695d7eb6efb948426f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:37 +0000
Subject: [PATCH 069/120] fix: different boxes of equal area were each greater
 than the other

The derived comparisons mixed ordering by area with equality by corners.
---
 coral/bbox.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index be1a80b..23d8928 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -19,9 +19,7 @@
 # THE SOFTWARE.
 
 import math
-import functools
 
-@functools.total_ordering
 class BBox:
 
     """BBox() -> empty box
@@ -64,6 +62,17 @@ class BBox:
     def __lt__(self, other):
         return self.area() < other.area()
 
+    # Different boxes of the same area are neither less nor greater.
+
+    def __gt__(self, other):
+        return self.area() > other.area()
+
+    def __le__(self, other):
+        return self.area() <= other.area()
+
+    def __ge__(self, other):
+        return self.area() >= other.area()
+
     def __bool__(self):
         return bool(self.area())
 
-- 
2.43.0


From cf95dd01fa844c28a4c597bdd5fc37e5756bcd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 070/120] fix: geocentroid did not terminate for regions
 centred at a pole

The longitude of the pole is arbitrary, so it never settled.
---
 coral/coord.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index fcb451a..9cc9a46 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -214,7 +214,9 @@ def geocentroid(region, bb=None, epsilon=None):
         cx /= sw
         cy /= sw
         c1 = prj.rect2geo(cx, cy)
-        if abs(c1[0] - c0[0]) <= epsilon and abs(c1[1] - c0[1]) <= epsilon:
+        # Near a pole the longitude may change without moving the point.
+        dlon = (c1[0] - c0[0]) * math.cos(math.radians(c1[1]))
+        if abs(dlon) <= epsilon and abs(c1[1] - c0[1]) <= epsilon:
             break
         c0 = c1
     return c1
-- 
2.43.0


From 6da429ce7edbc7b4cf4af880474cf9801e99ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:36 +0000
Subject: [PATCH 071/120] fix: geocentroid did not terminate for regions
 centred within metres of a pole

The latitude found by the inverse azimuthal equal-area projection was too
coarse there for the iteration to settle.
---
 coral/proj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index f5a97cf..75fa2da 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -390,7 +390,9 @@ class AzimuthalEqualArea(Proj):
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
         sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
-        lat = math.asin(max(-1, min(1, sinlat)))
+        # Unlike asin, this is accurate near the poles too.
+        den = self.coslat0 * cosc - y * self.sinlat0 * sinc / p
+        lat = math.atan2(sinlat, math.hypot(x * sinc / p, den))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From f15905a4c2bad722e1b56574da1efbf9db6e19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:44 +0000
Subject: [PATCH 072/120] fix: azimuthal projections divided by zero at the
 antipode of their centre

Raise ProjectionError, as the Mercator projections do at their singular points.
---
 coral/proj.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 75fa2da..bade077 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -271,7 +271,10 @@ class Stereographic(Proj):
         sinlat = math.sin(lat)
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
-        k = 2 / (1 + self.sinlat0 * sinlat + self.coslat0 * coslat * coslon)
+        d = 1 + self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
+        if d <= 0:
+            raise ProjectionError("Invalid coordinates for this projection: {}, {}.".format(math.degrees(lon), math.degrees(lat)))
+        k = 2 / d
         x = y = self.r * k
         x *= coslat * sinlon
         y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
@@ -366,7 +369,10 @@ class AzimuthalEqualArea(Proj):
         sinlat = math.sin(lat)
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
-        k = math.sqrt(2 / (1 + self.sinlat0 * sinlat + self.coslat0 * coslat * coslon))
+        d = 1 + self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
+        if d <= 0:
+            raise ProjectionError("Invalid coordinates for this projection: {}, {}.".format(math.degrees(lon), math.degrees(lat)))
+        k = math.sqrt(2 / d)
         x = y = self.r * k
         x *= coslat * sinlon
         y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
-- 
2.43.0


From dcfb63bfb3bb49b76d0543fe2487099bca35d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:11 +0000
Subject: [PATCH 073/120] fix: Eckert IV ignored the last step of its iteration

It was metres off, sine and cosine being those of the last but one iterate.
---
 coral/proj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index bade077..fdecf5b 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -241,6 +241,8 @@ class EckertIV(Proj):
             den = 2 * costheta * (1 + costheta)
             delta = - num / den
             theta += delta
+        costheta = math.cos(theta)
+        sintheta = math.sin(theta)
         x = self.CX * self.r * corangle(lon - self.lon0) * (1 + costheta)
         y = self.CY * self.r * sintheta
         return x, y
-- 
2.43.0


From ee7e1b5908f618e5c1bb2db46e4df402873add48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 074/120] fix: inverse oblique Mercator left the domain of asin
 by rounding at poles

---
 coral/proj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index fdecf5b..1f2b93c 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -208,7 +208,8 @@ class ObliqMercator(Proj):
     def rect2geo(self, x, y):
         c, s = math.cos(self.lat0), math.sin(self.lat0)
         xr, yr = x / self.r, y / self.r
-        lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
+        sinlat = s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr)
+        lat = math.asin(max(-1, min(1, sinlat)))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
         lon = self.lon0 + math.atan2(v, h)
-- 
2.43.0


From 7971b8ac19ab7160097e0fa80e7392f35ddfbf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:55 +0000
Subject: [PATCH 075/120] fix: no-data measures of single points were reported
 as values

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 50a2f07..c9ad77c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -386,7 +386,7 @@ class Reader:
             record.z = unpack("<d", f.read(8))
         # Read a single M value
         if shapeType in (11,21) and next - f.tell() >= 8:
-            record.m = unpack("<d", f.read(8))
+            record.m = tuple(m if m > NODATA else None for m in unpack("<d", f.read(8)))
         # Seek to the end of this record as defined by the record header because
         # the shapefile spec doesn't require the actual content to meet the header
         # definition.  Probably allowed for lazy feature deletion. 
-- 
2.43.0


From 831c7f57ff8cc8ae8610f59771e3ce97828e3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:56 +0000
Subject: [PATCH 076/120] fix: shape and record iterators lost their place when
 the reader was used meanwhile

---
 coral/shapefile.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c9ad77c..28a36fa 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -446,9 +446,14 @@ class Reader:
         shp = self.__getFileObj(self.shp)
         shp.seek(0,2)
         self.shpLength = shp.tell()
-        shp.seek(100)
-        while shp.tell() < self.shpLength:
-            yield self.__shape()    
+        shpLength = self.shpLength
+        # Other methods may move the file position between items.
+        pos = 100
+        while pos < shpLength:
+            shp.seek(pos)
+            shape = self.__shape()
+            pos = shp.tell()
+            yield shape
 
     def __dbfHeaderLength(self):
         """Retrieves the header length of a dbf file header."""
@@ -561,9 +566,12 @@ class Reader:
         if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
-        f.seek(self.__dbfHeaderLength())
+        # Other methods may move the file position between items.
+        pos = self.__dbfHeaderLength()
         for i in xrange(self.numRecords):
+            f.seek(pos)
             r = self.__record()
+            pos = f.tell()
             if r is not None:
                 yield r
 
-- 
2.43.0


From 965ce0fdbe2e1b09490059464e0fa1487a9949ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:46 +0000
Subject: [PATCH 077/120] fix: table.readfile keeps empty first and last values
 when the separator is a blank

---
 coral/table.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index 0f59b10..e4254a8 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import codecs
+import string
 import collections
 
 def join(t1, t2, pivots=None, keys=None):
@@ -92,11 +93,13 @@ def readfile(path, keys=None, sep=',', comm='#'):
             keys = fkeys
         Row = collections.namedtuple("Row", keys)
         indexes = [fkeys.index(key) for key in Row._fields]
+        # empty values at either end of a line must survive the stripping
+        blanks = "".join(c for c in string.whitespace if c not in sep)
         for line in f:
-            line = line.split(comm)[0].strip()
-            if not line:
+            line = line.split(comm)[0]
+            if not line.strip():
                 continue
-            fvalues = line.split(sep)
+            fvalues = line.strip(blanks).split(sep)
             values = [fvalues[i] for i in indexes]
             table.append(Row(*values))
     return table
-- 
2.43.0


From 19f727ccdf8b10899f6eda9b3d9a15902bbe6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:29 +0000
Subject: [PATCH 078/120] fix: text was displaced by a preceding shape without
 fill and stroke

---
 coral/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 4e391b1..0033fa5 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -243,6 +243,8 @@ class Canvas:
         x, y = pos
         for char in "\\()":
             text = text.replace(char, "\\" + char)
+        # the text is measured together with the current path
+        self.lines.append("np")
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
         self.lines.append(line)
-- 
2.43.0


From d5533c588a2ff6250cf970913d3b04b5bd149f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 079/120] fix: simultaneous exports shared one temporary file

---
 coral/vector.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 0033fa5..5c70027 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -323,12 +323,12 @@ class Canvas:
 
     def export(self, path, device='png256', *args, **kwargs):
         # useful devices: png{16,48,256,mono,gray,alpha}
-        pspath = "/tmp/tempeps.ps"
-        self.save(pspath, *args, **kwargs)
-        cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-        cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
-        ret = subprocess.call(cmd, shell=True)
-        os.remove(pspath)
+        with tempfile.TemporaryDirectory() as folder:
+            pspath = os.path.join(folder, "tempeps.ps")
+            self.save(pspath, *args, **kwargs)
+            cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
+            cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
+            ret = subprocess.call(cmd, shell=True)
         return ret
 
 def export(pspath, output, device='png256'):
-- 
2.43.0


From 211e50eb553994450edb177a2dc41d3e2ad36b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 080/120] fix: paths with blanks or quotes broke the export
 commands

---
 coral/vector.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 5c70027..782624a 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import os
+import shlex
 import inspect
 import subprocess
 import tempfile
@@ -327,14 +328,16 @@ class Canvas:
             pspath = os.path.join(folder, "tempeps.ps")
             self.save(pspath, *args, **kwargs)
             cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-            cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
+            cmd += "-sDEVICE={} -sOutputFile={} {}".format(
+                device, shlex.quote(str(path)), shlex.quote(pspath))
             ret = subprocess.call(cmd, shell=True)
         return ret
 
 def export(pspath, output, device='png256'):
     # useful devices: png{16,48,256,mono,gray,alpha}
     cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, output, pspath)
+    cmd += "-sDEVICE={} -sOutputFile={} {}".format(
+        device, shlex.quote(str(output)), shlex.quote(str(pspath)))
     ret = subprocess.call(cmd, shell=True)
     return ret
 
@@ -352,7 +355,8 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
             path = fmt.format(i)
             canvas.export(path, *args, **kwargs)
             paths.append(path)
-        paths = " ".join(paths)
-        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, gifpath)
+        paths = " ".join(map(shlex.quote, paths))
+        cmd = "convert -delay {} -loop 0 {} {}".format(
+            delay, paths, shlex.quote(str(gifpath)))
         status = subprocess.call(cmd, shell=True)
     return status
-- 
2.43.0


From 0327e2811caf02977856199f310959abb5c6667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 081/120] fix: animation changed the bounding boxes of its
 frames

---
 coral/vector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 782624a..8e93fa3 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -351,9 +351,12 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
         bb = bb.scale(1.05)
         paths = []
         for i, canvas in tqdm.tqdm(enumerate(frames), total=n, desc="anim"):
-            canvas.bbox = bb
             path = fmt.format(i)
-            canvas.export(path, *args, **kwargs)
+            own, canvas.bbox = canvas.bbox, bb
+            try:
+                canvas.export(path, *args, **kwargs)
+            finally:
+                canvas.bbox = own
             paths.append(path)
         paths = " ".join(map(shlex.quote, paths))
         cmd = "convert -delay {} -loop 0 {} {}".format(
-- 
2.43.0


From 0b6045e9a15237b72030934f0cd3bd01d76a405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 082/120] fix: default columns of joined tables came in random
 order

---
 coral/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index e4254a8..6ba174c 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -26,9 +26,9 @@ def join(t1, t2, pivots=None, keys=None):
     keys1 = t1[0]._fields
     keys2 = t2[0]._fields
     if pivots is None:
-        pivots = list(set(keys1) & set(keys2))
+        pivots = [key for key in keys1 if key in keys2]
     if keys is None:
-        keys = list(set(keys1) | set(keys2))
+        keys = list(keys1) + [key for key in keys2 if key not in keys1]
     Row = collections.namedtuple("Row", keys)
     table = []
     for r1 in t1:
-- 
2.43.0


From ece79ad83660cce4c7a4df1289d7367b1120994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:56 +0000
Subject: [PATCH 083/120] fix: do not keep a partly loaded shapefile index

---
 coral/shapefile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 28a36fa..4b06f52 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -406,10 +406,13 @@ class Reader:
             numRecords = shxRecordLength // 8
             # Jump to the first record.
             shx.seek(100)
+            offsets = []
             for r in range(numRecords):
                 # Offsets are 16-bit words just like the file length
-                self._offsets.append(unpack(">i", shx.read(4))[0] * 2)
+                offsets.append(unpack(">i", shx.read(4))[0] * 2)
                 shx.seek(shx.tell() + 4)
+            # A truncated index must not be left half loaded.
+            self._offsets = offsets
         if not i == None:
             return self._offsets[i]
 
-- 
2.43.0


From fa8e7c71f7566dc0c1520998bfdc6473dd9a8011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 084/120] fix: a refused entity leaves no rows in a RangeGrid
 file

---
 coral/rg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 6988a75..f39d439 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -183,14 +183,15 @@ class Writer:
         rg = self.rg
         if id_ is None:
             id_ = len(self.index)
-        lens = []
+        data, lens = [], []
         for rows in segs:
             length = 0
             for r in rows:
-                data = self.row.encode(*r)
-                rg.write(data)
+                data.append(self.row.encode(*r))
                 length += 1
             lens.append(length)
+        # Nothing is written before the whole entity proved valid.
+        rg.write(b"".join(data))
         self.index.append((id_, lens))
 
     def close(self):
-- 
2.43.0


From 5a03e52edf289d60eed5809d58c42e150b39789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:49 +0000
Subject: [PATCH 085/120] fix: a refused entity leaves nothing behind in a PF
 writer

---
 coral/pf.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 327b3d4..bffa053 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -182,7 +182,6 @@ class Writer:
             if part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
-        self.names.append(name)
         bb = None
         partlen = []
         for part in parts:
@@ -191,7 +190,6 @@ class Writer:
             else:
                 bb |= bbox.BBox(part)
             partlen.append(len(part))
-        self.partlens.append(partlen)
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
@@ -199,11 +197,12 @@ class Writer:
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
-        self.bboxes.append((x0, x1, y0, y1))
+        limits = (x0, x1, y0, y1)
         x0 = x0 * 360 / UMAX2 - 180
         x1 = x1 * 360 / UMAX2 - 180
         y0 = y0 * 180 / UMAX2 - 90
         y1 = y1 * 180 / UMAX2 - 90
+        errs, buffers = [], []
         for part in parts:
             for point in part:
                 lon1, lat1 = point
@@ -216,8 +215,14 @@ class Writer:
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
                 err = coord.haversine(lon1, lat1, lon2, lat2)
-                self.errs.append(err)
-                self.buffers.append(data)
+                errs.append(err)
+                buffers.append(data)
+        # Nothing is stored before the whole entity proved valid.
+        self.names.append(name)
+        self.partlens.append(partlen)
+        self.bboxes.append(limits)
+        self.errs.extend(errs)
+        self.buffers.extend(buffers)
 
     def close(self):
         with open(self.path, "wb") as pf:
-- 
2.43.0


From aadacc36eb60a8bd20e2eb0480131b5e2c91d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 086/120] fix: a refused drawing call leaves nothing on the
 canvas

---
 coral/vector.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index 8e93fa3..7317aba 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -23,7 +23,7 @@ import shlex
 import inspect
 import subprocess
 import tempfile
-from functools import reduce
+from functools import reduce, wraps
 
 from . import bbox, tqdm
 
@@ -74,6 +74,19 @@ base = os.path.dirname(os.path.abspath(inspect.getfile(inspect.currentframe())))
 KEYS, DEFS = read_defs(os.path.join(base, "defs.ps"))
 DEPS = {k: set(["sz"]) for k in "sc st str sr sbr sb sbl sl stl".split()}
 
+def _whole(method):
+    "Add the whole element, or nothing if that is refused."
+    @wraps(method)
+    def add(self, *args, **kwargs):
+        length, state, deps = len(self.lines), self.state.copy(), self.deps.copy()
+        try:
+            method(self, *args, **kwargs)
+        except Exception:
+            del self.lines[length:]
+            self.state, self.deps = state, deps
+            raise
+    return add
+
 class Canvas:
 
     def __init__(self, bgcolor=None):
@@ -141,6 +154,7 @@ class Canvas:
         self.lines.append(line)
         self.state['dash'] = (list(pattern), offset)
 
+    @_whole
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
@@ -161,6 +175,7 @@ class Canvas:
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
 
+    @_whole
     def addpolyline(self, points, stroke=None):
         points = iter(points)
         try:
@@ -182,6 +197,7 @@ class Canvas:
         self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
 
+    @_whole
     def addpolygon(self, points, fill=None, stroke=None):
         points = iter(points)
         try:
@@ -213,6 +229,7 @@ class Canvas:
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
 
+    @_whole
     def addroundedpolygon(self, points, radius, fill=None, stroke=None):
         self.lines.append("np")
         (x1, y1), (x2, y2) = points[:2]
@@ -238,6 +255,7 @@ class Canvas:
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
 
+    @_whole
     def addtext(self, pos, text, size, font="Times-Bold", anchor="l"):
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
@@ -252,6 +270,7 @@ class Canvas:
         self.deps.add(key)
         self.deps.update(DEPS.get(key, set()))
 
+    @_whole
     def addimage(self, data, width, position=None, scale=1, color=False):
         cwidth = (3 * width) if color else width
         height = len(data) // cwidth
-- 
2.43.0


From cf747a57acb97b2469010202d09f9af77caaa7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 087/120] fix: complete the RangeGrid header after its index is
 written

---
 coral/rg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index f39d439..9426426 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -198,10 +198,11 @@ class Writer:
         rg = self.rg
         nrows = sum(sum(e[1]) for e in self.index)
         data = struct.pack("I", nrows)
+        # The number of rows, written last, marks the data set as complete.
+        _writeindex(self.path + ".md", self.index)
         rg.seek(self.nrowspos)
         rg.write(data)
         rg.close()
-        _writeindex(self.path + ".md", self.index)
 
 class Reader:
 
-- 
2.43.0


From 5bc0a23320af109b2f97e0cd90523d617461bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:48 +0000
Subject: [PATCH 088/120] fix: Gradient leaves the list of points it is given
 alone

---
 coral/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/gradient.py b/coral/gradient.py
index 2979ae8..dd12d52 100644
--- a/coral/gradient.py
+++ b/coral/gradient.py
@@ -23,7 +23,7 @@ import bisect
 class Gradient:
 
     def __init__(self, points):
-        points.sort(key=lambda p: p[0])
+        points = sorted(points, key=lambda p: p[0])
         if points[0][0] > 0:
             points.insert(0, (0, points[0][1]))
         if points[-1][0] < 1:
-- 
2.43.0


From e6c3265fea22ebc333539cd868cd51b9ec7615f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 089/120] fix: shapefile Writer does not hold on to the
 caller's list of part types

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 4b06f52..1bea538 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -973,7 +973,7 @@ class Writer:
         if polyShape.shapeType == 31:
             if not partTypes:
                 partTypes = [polyShape.shapeType for part in parts]
-            polyShape.partTypes = partTypes
+            polyShape.partTypes = list(partTypes)
         self._shapes.append(polyShape)
 
     def field(self, name, fieldType="C", size="50", decimal=0):
-- 
2.43.0


From bb6d0d0f6b1fc6fce3e127a81a18c57ba6d2760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 090/120] fix: text files do not depend on the encoding of the
 locale

---
 coral/frame.py  | 4 ++--
 coral/rg.py     | 4 ++--
 coral/vector.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/coral/frame.py b/coral/frame.py
index 19d5f8b..7739a65 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -107,12 +107,12 @@ class Frame:
                 if self.bounding.collide(bb):
                     lines.append(name + "\n")
                     break
-        with open("{}.names".format(key), "w") as f:
+        with open("{}.names".format(key), "w", encoding="utf8") as f:
             f.writelines(lines)
         return len(lines)
 
     def loadnames(self, key):
-        with open("{}.names".format(key), "r") as f:
+        with open("{}.names".format(key), "r", encoding="utf8") as f:
             names = []
             for line in f:
                 names.append(line.rstrip("\n"))
diff --git a/coral/rg.py b/coral/rg.py
index 9426426..811c4a4 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -123,7 +123,7 @@ def readsvlv(f):
     return v
 
 def _writeindex(path, index):
-    with open(path, "w") as md:
+    with open(path, "w", encoding="utf8") as md:
         n = len(index)
         md.write("{}\n".format(n))
         for eid, elens in index:
@@ -132,7 +132,7 @@ def _writeindex(path, index):
 
 def _readindex(path):
     index = []
-    with open(path, "r") as md:
+    with open(path, "r", encoding="utf8") as md:
         n = int(md.readline())
         for i in range(n):
             eid, ensegs = md.readline().rsplit(" ", 1)
diff --git a/coral/vector.py b/coral/vector.py
index 7317aba..2f87195 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -337,7 +337,7 @@ class Canvas:
             line = "{} {} translate".format(-cx, -cy)
             pre.append(line)
         pre.append("")
-        with open(path, "w") as f:
+        with open(path, "w", encoding="utf8") as f:
             for line in pre + self.lines:
                 f.write(line + '\n')
 
-- 
2.43.0


From 66fc4f64c8664d65edd3cdbb9e8cc9aa4e30e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:14 +0000
Subject: [PATCH 091/120] fix: refuse invalid values and files under python -O,
 too

---
 coral/coord.py     | 15 ++++++++++-----
 coral/grid.py      | 48 ++++++++++++++++++++++++++++++----------------
 coral/pf.py        |  9 ++++++---
 coral/rg.py        | 15 ++++++++++-----
 coral/shapefile.py |  6 ++++--
 coral/vector.py    |  3 ++-
 6 files changed, 64 insertions(+), 32 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 9cc9a46..bd729f9 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -38,7 +38,8 @@ nearest = lambda x: int(x + math.copysign(0.5, x))
 class Buffer:
 
     def __init__(self, n):
-        assert (n & (n - 1) == 0), "Buffer length must be a power of two."
+        if n & (n - 1) != 0:
+            raise ValueError("Buffer length must be a power of two.")
         self.n = n
         self.buf = [None] * n
         self.s = self.e = 0
@@ -73,23 +74,27 @@ class Buffer:
         return self.e == self.s ^ self.n
 
     def push(self, o):
-        assert not self.isfull(), "cannot push to full Buffer."
+        if self.isfull():
+            raise IndexError("cannot push to full Buffer.")
         self.buf[self.e & self._m1] = o
         self.e = self._inc(self.e)
 
     def pop(self):
-        assert not self.isempty(), "cannot pop from empty Buffer."
+        if self.isempty():
+            raise IndexError("cannot pop from empty Buffer.")
         self.e = self._dec(self.e)
         o = self.buf[self.e & self._m1]
         return o
 
     def peek(self):
-        assert not self.isempty(), "cannot peek at empty Buffer."
+        if self.isempty():
+            raise IndexError("cannot peek at empty Buffer.")
         o = self.buf[self._dec(self.e) & self._m1]
         return o
 
     def shift(self):
-        assert not self.isempty(), "cannot shift empty Buffer."
+        if self.isempty():
+            raise IndexError("cannot shift empty Buffer.")
         o = self.buf[self.s & self._m1]
         self.s = self._inc(self.s)
         return o
diff --git a/coral/grid.py b/coral/grid.py
index b77ffbf..37a8a04 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -26,7 +26,8 @@ SIZE_SPAN   = {1: 0xFF, 2: 0xFFFF, 4: 0xFFFFFFFF, 8: 0xFFFFFFFFFFFFFFFF}
 class IVar:
 
     def __init__(self, name, minv, maxv, nullable=False):
-        assert maxv > minv
+        if not maxv > minv:
+            raise ValueError("empty range: [{}; {}]".format(minv, maxv))
         self.name = name
         self.minv = minv
         self.maxv = maxv
@@ -58,16 +59,20 @@ class IVar:
 
     def index(self, value):
         if value is None:
-            assert self.nullable
+            if not self.nullable:
+                raise ValueError("{} is not nullable".format(self.name))
             return self.span + 1
-        assert self.minv <= value <= self.maxv
+        if not self.minv <= value <= self.maxv:
+            raise ValueError("{} out of range: {}".format(self.name, value))
         return value - self.minv
 
     def value(self, index):
         if index == self.span + 1:
-            assert self.nullable
+            if not self.nullable:
+                raise ValueError("{} is not nullable".format(self.name))
             return None
-        assert 0 <= index <= self.span
+        if not 0 <= index <= self.span:
+            raise ValueError("{} out of range: {}".format(self.name, index))
         return self.minv + index
 
     def encode(self, value):
@@ -79,8 +84,10 @@ class IVar:
 class FVar:
 
     def __init__(self, name, minv, maxv, size, nullable=False):
-        assert maxv > minv
-        assert size in (1, 2, 4, 8) # (B, H, I, Q)
+        if not maxv > minv:
+            raise ValueError("empty range: [{}; {}]".format(minv, maxv))
+        if size not in (1, 2, 4, 8): # (B, H, I, Q)
+            raise ValueError("invalid size: {}".format(size))
         self.name = name
         self.fmt = '>' + SIZE_FORMAT[size]
         self.minv = minv
@@ -103,16 +110,20 @@ class FVar:
 
     def index(self, value):
         if value is None:
-            assert self.nullable
+            if not self.nullable:
+                raise ValueError("{} is not nullable".format(self.name))
             return self.span + 1
-        assert self.minv <= value <= self.maxv
+        if not self.minv <= value <= self.maxv:
+            raise ValueError("{} out of range: {}".format(self.name, value))
         return min(round((value - self.minv) * self.span / self.delta), self.span)
 
     def value(self, index):
         if index == self.span + 1:
-            assert self.nullable
+            if not self.nullable:
+                raise ValueError("{} is not nullable".format(self.name))
             return None
-        assert 0 <= index <= self.span
+        if not 0 <= index <= self.span:
+            raise ValueError("{} out of range: {}".format(self.name, index))
         return self.minv + index * self.delta / self.span
 
     def encode(self, value):
@@ -139,15 +150,18 @@ class SVar:
 
     def encode(self, value):
         if value is None:
-            assert self.nullable
+            if not self.nullable:
+                raise ValueError("{} is not nullable".format(self.name))
             return b'\xff' * self.size
         data = value.encode("utf8")
-        assert len(data) <= self.size
+        if len(data) > self.size:
+            raise ValueError("{} too long: {!r}".format(self.name, value))
         return data.ljust(self.size, b'\x00')
 
     def decode(self, data):
         if data == b'\xff' * self.size:
-            assert self.nullable
+            if not self.nullable:
+                raise ValueError("{} is not nullable".format(self.name))
             return None
         return data.decode("utf8").rstrip('\x00')
 
@@ -162,11 +176,13 @@ class GRow:
 
     def encode(self, *values):
         data = b''.join(f.encode(v) for (f, v) in zip(self.fields, values))
-        assert len(data) == self.size
+        if len(data) != self.size:
+            raise ValueError("row of {} bytes, expected {}".format(len(data), self.size))
         return data
 
     def decode(self, data):
-        assert len(data) == self.size
+        if len(data) != self.size:
+            raise ValueError("row of {} bytes, expected {}".format(len(data), self.size))
         values = []
         offset = 0
         for f in self.fields:
diff --git a/coral/pf.py b/coral/pf.py
index bffa053..57e408b 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -262,11 +262,14 @@ class Reader:
     def _header(self):
         pf = self.pf
         sig = pf.read(2)
-        assert sig == b'PF'
+        if sig != b'PF':
+            raise ValueError("not a PF file")
         ver = pf.read(1)
-        assert ver == b'\x00'
+        if ver != b'\x00':
+            raise ValueError("unknown version of PF")
         size = ord(pf.read(1))
-        assert size in (1, 2, 4, 8)
+        if size not in (1, 2, 4, 8):
+            raise ValueError("invalid size: {}".format(size))
         nrows = readvlv(pf)
         nentities = readvlv(pf)
         names = [None] * nentities
diff --git a/coral/rg.py b/coral/rg.py
index 811c4a4..1505164 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -138,7 +138,8 @@ def _readindex(path):
             eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
             elens = [int(s) for s in md.readline().split()]
-            assert len(elens) == ensegs
+            if len(elens) != ensegs:
+                raise ValueError("unexpected number of segments")
             index.append((eid, elens))
     return index
 
@@ -155,7 +156,8 @@ class Writer:
     def _header(self):
         rg = self.rg
         ncols = len(self.row)
-        assert ncols < 256
+        if ncols >= 256:
+            raise ValueError("too many columns: {}".format(ncols))
         rg.write(b'RG\x01')
         rg.write(bytes((ncols,)))
         self.nrowspos = rg.tell()
@@ -217,12 +219,15 @@ class Reader:
     def _header(self):
         rg = self.rg
         sig = rg.read(2)
-        assert sig == b'RG'
+        if sig != b'RG':
+            raise ValueError("not an RG file")
         ver = rg.read(1)
-        assert ver == b'\x01'
+        if ver != b'\x01':
+            raise ValueError("unknown version of RG")
         ncols = ord(rg.read(1))
         nrows, = struct.unpack("I", rg.read(4))
-        assert nrows == sum(sum(elens) for eid, elens in self.index)
+        if nrows != sum(sum(elens) for eid, elens in self.index):
+            raise ValueError("data and index do not match")
         fields = [None] * ncols
         for i in range(ncols):
             bs = b''
diff --git a/coral/shapefile.py b/coral/shapefile.py
index 1bea538..0554185 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -489,7 +489,8 @@ class Reader:
             fieldDesc[1] = self.u(fieldDesc[1])
             self.fields.append(fieldDesc)
         terminator = dbf.read(1)
-        assert terminator == self.b("\r")
+        if terminator != self.b("\r"):
+            raise ShapefileException("Missing terminator of field descriptors.")
         self.fields.insert(0, ('DeletionFlag', 'C', 1, 0))
 
     def __recordFmt(self):
@@ -927,7 +928,8 @@ class Writer:
                     value = value.decode(self.encoding, 'ignore')
                     value += ' ' * (size - len(self.b(value)))
                 value = self.b(value)
-                assert len(value) == size
+                if len(value) != size:
+                    raise ShapefileException("Value exceeds its field: %s" % value)
                 f.write(value)
 
     def null(self):
diff --git a/coral/vector.py b/coral/vector.py
index 2f87195..bcdf943 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -257,7 +257,8 @@ class Canvas:
 
     @_whole
     def addtext(self, pos, text, size, font="Times-Bold", anchor="l"):
-        assert anchor in "c t tr r br b bl l tl".split()
+        if anchor not in "c t tr r br b bl l tl".split():
+            raise ValueError("invalid anchor: {}".format(anchor))
         key = "s" + anchor
         x, y = pos
         for char in "\\()":
-- 
2.43.0


From 4b6c65fcd9fec48bda5a6c80f3d6125bc3881696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 092/120] fix: names of shapefiles may contain dots

---
 coral/shapefile.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 0554185..7503693 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -210,6 +210,11 @@ class ShapefileException(Exception):
     """An exception to handle shapefile specific problems."""
     pass
 
+def basename(path):
+    """The path of a shapefile, without the extension of any of its files."""
+    base, ext = os.path.splitext(path)
+    return base if ext.lower() in (".shp", ".shx", ".dbf") else path
+
 class Reader:
     """Reads the three files of a shapefile as a unit or
     separately.  If one of the three files (.shp, .shx,
@@ -276,7 +281,7 @@ class Reader:
         constructor with the file object or file name as an
         argument."""
         if shapefile:
-            (shapeName, ext) = os.path.splitext(shapefile)
+            shapeName = basename(shapefile)
             self.shapeName = shapeName
             try:
                 self.shp = open("%s.shp" % shapeName, "rb")
@@ -1018,7 +1023,7 @@ class Writer:
     def saveShp(self, target):
         """Save an shp file."""
         if not hasattr(target, "write"):
-            target = os.path.splitext(target)[0] + '.shp'
+            target = basename(target) + '.shp'
         if not self.shapeType:
             types = [s.shapeType for s in self._shapes if s.shapeType]
             self.shapeType = types[0] if types else NULL
@@ -1029,7 +1034,7 @@ class Writer:
     def saveShx(self, target):
         """Save an shx file."""
         if not hasattr(target, "write"):
-            target = os.path.splitext(target)[0] + '.shx'
+            target = basename(target) + '.shx'
         if not self.shapeType:
             types = [s.shapeType for s in self._shapes if s.shapeType]
             self.shapeType = types[0] if types else NULL
@@ -1040,7 +1045,7 @@ class Writer:
     def saveDbf(self, target):
         """Save a dbf file."""
         if not hasattr(target, "write"):
-            target = os.path.splitext(target)[0] + '.dbf'
+            target = basename(target) + '.dbf'
         self.dbf = self.__getFileObj(target)
         self.__dbfHeader()
         self.__dbfRecords()
@@ -1081,7 +1086,7 @@ class Editor(Writer):
         if not shapefile:
             Writer.__init__(self, shapeType)
         elif is_string(shapefile):
-            base = os.path.splitext(shapefile)[0]
+            base = basename(shapefile)
             if os.path.isfile("%s.shp" % base):
                 r = Reader(base)
                 Writer.__init__(self, r.shapeType)
-- 
2.43.0


From 195e35842beaa0e2ffb26b67f267d960a6d26d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 093/120] fix: RangeGrid Writer keeps its files together when
 the current directory changes

---
 coral/rg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 1505164..5f70e65 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -80,6 +80,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_CUR) seeks from current position
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
 import io
+import os
 import struct
 import collections
 
@@ -146,7 +147,8 @@ def _readindex(path):
 class Writer:
 
     def __init__(self, path, row):
-        self.path = path
+        # Both files belong in one place, even if the current directory changes.
+        self.path = os.path.abspath(path)
         self.rg = open(self.path + ".rg", "wb")
         assert self.rg.seekable()
         self.row = row
-- 
2.43.0


From f3ace92cc7ed174ffbf2d7fb4ede149772a620e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:30 +0000
Subject: [PATCH 094/120] fix: rounded polygons may come as any sequence, like
 others

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index bcdf943..57bc4ea 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -231,6 +231,7 @@ class Canvas:
 
     @_whole
     def addroundedpolygon(self, points, radius, fill=None, stroke=None):
+        points = list(points)
         self.lines.append("np")
         (x1, y1), (x2, y2) = points[:2]
         startend = ((x1 + x2) / 2, (y1 + y2) / 2)
-- 
2.43.0


From d2687918033d382f4d249bda56276d188811903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:08 +0000
Subject: [PATCH 095/120] fix: a closed ring is recognised whatever the types
 of its vertices

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 7503693..90f2f36 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -962,7 +962,7 @@ class Writer:
         polyShape = _Shape(shapeType)
         polyShape.parts = []
         polyShape.points = []
-        parts = [list(part) for part in parts]
+        parts = [[list(point) for point in part] for part in parts]
         # Make sure polygons are closed
         if shapeType in (5,15,25,31):
             for part in parts:
-- 
2.43.0


From 70b6e66d984fed621c4aeb21bec7fa6e85db02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:41 +0000
Subject: [PATCH 096/120] fix: shapefile Writer completes each file it opens

---
 coral/shapefile.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 90f2f36..b3386e2 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1030,6 +1030,9 @@ class Writer:
         self.shp = self.__getFileObj(target)
         self.__shapefileHeader(self.shp, headerType='shp')
         self.__shpRecords()
+        # Files opened here are complete from now on.
+        if self.shp is not target:
+            self.shp.close()
 
     def saveShx(self, target):
         """Save an shx file."""
@@ -1041,6 +1044,9 @@ class Writer:
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
+        # Files opened here are complete from now on.
+        if self.shx is not target:
+            self.shx.close()
 
     def saveDbf(self, target):
         """Save a dbf file."""
@@ -1049,6 +1055,9 @@ class Writer:
         self.dbf = self.__getFileObj(target)
         self.__dbfHeader()
         self.__dbfRecords()
+        # Files opened here are complete from now on.
+        if self.dbf is not target:
+            self.dbf.close()
 
     def save(self, target=None, shp=None, shx=None, dbf=None):
         """Save the shapefile data to three files or
-- 
2.43.0


From 166f284d53fece996df11a0aa1b0144dd909d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 097/120] fix: shapefile Reader forgets about former files when
 others are loaded

---
 coral/shapefile.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index b3386e2..79155be 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -295,6 +295,12 @@ class Reader:
                 self.dbf = open("%s.dbf" % shapeName, "rb")
             except IOError:
                 raise ShapefileException("Unable to open %s.dbf" % shapeName)
+        # Forget what is known about files loaded before.
+        self._offsets = []
+        self.shpLength = None
+        self.numRecords = None
+        self.fields = []
+        self.__dbfHdrLength = 0
         if self.shp:
             self.__shpHeader()
         if self.dbf:
@@ -469,6 +475,7 @@ class Reader:
             if not self.dbf:
                 raise ShapefileException("Shapefile Reader requires a shapefile or file-like object. (no dbf file found)")
             dbf = self.dbf
+            dbf.seek(0)
             (self.numRecords, self.__dbfHdrLength) = \
                     unpack("<xxxxLH22x", dbf.read(32))
         return self.__dbfHdrLength
-- 
2.43.0


From 2ef4814c8c9f18fda9ea8287a4af0c3e9b37e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:19 +0000
Subject: [PATCH 098/120] fix: shapefile Reader keeps its files if others can
 not be loaded

---
 coral/shapefile.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 79155be..d42449b 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -282,19 +282,20 @@ class Reader:
         argument."""
         if shapefile:
             shapeName = basename(shapefile)
-            self.shapeName = shapeName
             try:
-                self.shp = open("%s.shp" % shapeName, "rb")
+                shp = open("%s.shp" % shapeName, "rb")
             except IOError:
                 raise ShapefileException("Unable to open %s.shp" % shapeName)
             try:
-                self.shx = open("%s.shx" % shapeName, "rb")
+                shx = open("%s.shx" % shapeName, "rb")
             except IOError:
                 raise ShapefileException("Unable to open %s.shx" % shapeName)
             try:
-                self.dbf = open("%s.dbf" % shapeName, "rb")
+                dbf = open("%s.dbf" % shapeName, "rb")
             except IOError:
                 raise ShapefileException("Unable to open %s.dbf" % shapeName)
+            self.shapeName = shapeName
+            self.shp, self.shx, self.dbf = shp, shx, dbf
         # Forget what is known about files loaded before.
         self._offsets = []
         self.shpLength = None
-- 
2.43.0


From cf4d285f3037b72358f4f07dcb0cd9573a0bef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:27 +0000
Subject: [PATCH 099/120] fix: a shapefile Reader may be created before its
 files are known, as documented

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index d42449b..7672458 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -266,7 +266,7 @@ class Reader:
                     self.dbf.seek(0)
         if self.shp or self.dbf:        
             self.load()
-        else:
+        elif args or any(key != "encoding" for key in kwargs):
             raise ShapefileException("Shapefile Reader requires a shapefile or file-like object.")
 
     def b(self, v):
-- 
2.43.0


From a46e5685ddf01758306726669fc4165adb56a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:29 +0000
Subject: [PATCH 100/120] fix: refuse RangeGrid rows with too many values

---
 coral/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/grid.py b/coral/grid.py
index 37a8a04..9d48e10 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -175,6 +175,8 @@ class GRow:
         return len(self.fields)
 
     def encode(self, *values):
+        if len(values) != len(self.fields):
+            raise ValueError("row of {} values, expected {}".format(len(values), len(self.fields)))
         data = b''.join(f.encode(v) for (f, v) in zip(self.fields, values))
         if len(data) != self.size:
             raise ValueError("row of {} bytes, expected {}".format(len(data), self.size))
-- 
2.43.0


From b8658e6499a9b3e170e0d213ea7991ed491a81dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 101/120] fix: PF Writer brings huge coordinates into range,
 refuses infinite ones

---
 coral/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/pf.py b/coral/pf.py
index 57e408b..803cd11 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -167,6 +167,7 @@ class Writer:
         parts = [[None] * len(polygon) for polygon in polygons]
         for i, polygon in enumerate(polygons):
             for j, (lon, lat) in enumerate(polygon):
+                lon, lat = math.fmod(lon, 360), math.fmod(lat, 180)
                 while lon < -180:
                     lon += 360
                 while lon > 180:
-- 
2.43.0


From 309a71676085b6fe200db24e308e1a8bdc5c693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:20 +0000
Subject: [PATCH 102/120] fix: geocentroid ends if it can not get closer than
 epsilon

---
 coral/coord.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index bd729f9..5cc18ce 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -195,7 +195,8 @@ def geocentroid(region, bb=None, epsilon=None):
     if epsilon is None:
         epsilon = 1e-10
     c0 = bb.center()
-    while True:
+    # Rounding may keep the point from ever settling within a tiny epsilon.
+    for i in range(1000):
         prj = proj.AzimuthalEqualArea(c0)
         cw = []
         for poly in region:
@@ -221,7 +222,7 @@ def geocentroid(region, bb=None, epsilon=None):
         c1 = prj.rect2geo(cx, cy)
         # Near a pole the longitude may change without moving the point.
         dlon = (c1[0] - c0[0]) * math.cos(math.radians(c1[1]))
-        if abs(dlon) <= epsilon and abs(c1[1] - c0[1]) <= epsilon:
+        if not (abs(dlon) > epsilon or abs(c1[1] - c0[1]) > epsilon):
             break
         c0 = c1
     return c1
-- 
2.43.0


From 66cefedd012ebd3dd32b106ba1ccacd8413604b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:31 +0000
Subject: [PATCH 103/120] fix: corangle ends for huge angles, refuses infinite
 ones

---
 coral/proj.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/proj.py b/coral/proj.py
index 1f2b93c..f16c570 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -27,6 +27,7 @@ import collections
 
 def corangle(a):
     "Correct angle such that `-pi <= a <= pi`."
+    a = math.fmod(a, 2 * math.pi)
     while a < -math.pi:
         a += 2 * math.pi
     while a > math.pi:
-- 
2.43.0


From 8cd4769d60d5e47247bebe271157cdfd2c874acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:31 +0000
Subject: [PATCH 104/120] fix: EMercator inverse of an undefined position ends

---
 coral/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index f16c570..d479f37 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -152,7 +152,7 @@ class EMercator(EProj):
             esinlat = self.e * math.sin(l0)
             lat = t * ((1 - esinlat) / (1 + esinlat)) ** (self.e / 2)
             lat = math.pi / 2 - 2 * math.atan(lat)
-            ok = lat == l0
+            ok = lat == l0 or math.isnan(lat)
             l0 = lat
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
-- 
2.43.0


From d53d09d8349a4961068c888652ba48a9adf5d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:31 +0000
Subject: [PATCH 105/120] fix: EckertIV ends for latitudes beyond the poles

---
 coral/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index d479f37..4d0a747 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -233,8 +233,8 @@ class EckertIV(Proj):
 
     def geo2rect(self, lon, lat):
         lon, lat = math.radians(lon), math.radians(lat)
-        theta = lat / 2
         sinlat = math.sin(lat)
+        theta = math.asin(sinlat) / 2
         delta = 1
         while abs(delta) > 1e-6:
             costheta = math.cos(theta)
-- 
2.43.0


From 0fa0ed349f815034433852540089d6dd788c400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:31 +0000
Subject: [PATCH 106/120] fix: Editor refuses a data set without files like
 Reader does

---
 coral/shapefile.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 7672458..77ede3c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1104,12 +1104,11 @@ class Editor(Writer):
             Writer.__init__(self, shapeType)
         elif is_string(shapefile):
             base = basename(shapefile)
-            if os.path.isfile("%s.shp" % base):
-                r = Reader(base)
-                Writer.__init__(self, r.shapeType)
-                self._shapes = r.shapes()
-                self.fields = r.fields
-                self.records = r.records()
+            r = Reader(base)
+            Writer.__init__(self, r.shapeType)
+            self._shapes = r.shapes()
+            self.fields = r.fields
+            self.records = r.records()
 
     def select(self, expr):
         """Select one or more shapes (to be implemented)"""
-- 
2.43.0


From 53b6fa33068c9b7ebfacaf4a146d50385b407153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 107/120] fix: PF Writer accepts entities without extent in one
 direction

---
 coral/pf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 803cd11..3b3cb45 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -203,12 +203,14 @@ class Writer:
         x1 = x1 * 360 / UMAX2 - 180
         y0 = y0 * 180 / UMAX2 - 90
         y1 = y1 * 180 / UMAX2 - 90
+        # The box of a flat entity may have no extent.
+        w, h = x1 - x0 or 1, y1 - y0 or 1
         errs, buffers = [], []
         for part in parts:
             for point in part:
                 lon1, lat1 = point
-                ulon = round((lon1 - x0) * self.umax / (x1 - x0))
-                ulat = round((lat1 - y0) * self.umax / (y1 - y0))
+                ulon = round((lon1 - x0) * self.umax / w)
+                ulat = round((lat1 - y0) * self.umax / h)
                 # Rounding may exceed the range for points on the bounding box.
                 ulon = max(0, min(self.umax, ulon))
                 ulat = max(0, min(self.umax, ulat))
-- 
2.43.0


From 74933c00eb1117c2770a1b0af3b51337ce44986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 108/120] fix: integer fields refuse to decode values out of
 their range

---
 coral/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/grid.py b/coral/grid.py
index 9d48e10..ac68664 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -71,7 +71,7 @@ class IVar:
             if not self.nullable:
                 raise ValueError("{} is not nullable".format(self.name))
             return None
-        if not 0 <= index <= self.span:
+        if not 0 <= index <= self.maxv - self.minv:
             raise ValueError("{} out of range: {}".format(self.name, index))
         return self.minv + index
 
-- 
2.43.0


From a5a423d0d2f811f3e5ff83d6571fee001750940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 109/120] fix: real fields do not decode values out of their
 range

---
 coral/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/grid.py b/coral/grid.py
index ac68664..2f55928 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -124,7 +124,9 @@ class FVar:
             return None
         if not 0 <= index <= self.span:
             raise ValueError("{} out of range: {}".format(self.name, index))
-        return self.minv + index * self.delta / self.span
+        value = self.minv + index * self.delta / self.span
+        # Rounding may leave the range.
+        return max(self.minv, min(self.maxv, value))
 
     def encode(self, value):
         return struct.pack(self.fmt, self.index(value))
-- 
2.43.0


From df9ce050df8fe38bc5d7e5cdee30eab4cb6ab5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:59 +0000
Subject: [PATCH 110/120] fix: long field names are cut to whole characters

---
 coral/shapefile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 77ede3c..a33f5a1 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -811,7 +811,9 @@ class Writer:
         # Field descriptors
         for field in self.fields:
             name, fieldType, size, decimal = field
-            name = self.b(name)
+            # Names are of ten bytes at most. Do not cut inside a character.
+            name = self.b(name)[:10]
+            name = self.b(name.decode(self.encoding, 'ignore'))
             name = name.replace(self.b(' '), self.b('_'))
             name = name.ljust(11).replace(self.b(' '), self.b('\x00'))
             fieldType = self.b(fieldType)
-- 
2.43.0


From 1beb7b8693a8407bc8c393613d463edf78474370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:26 +0000
Subject: [PATCH 111/120] fix: rings begun on a spike are simplified without it

---
 coral/coord.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 5cc18ce..df78f9a 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -274,21 +274,31 @@ def open_no_slit(s, k):
                 # Without the slit, q may still be a corner.
                 if not collinear(last if b.isempty() else b.peek(), q, r):
                     b.push(q)
-            else:
+            elif not (b.isempty() and q == last):
                 if b.isfull():
                     last = b.shift()
                     yield last
                 b.push(q)
         p, q = q, r
+    if not b.isempty() and q == b.peek():
+        b.pop()
     while not b.isempty():
         yield b.shift()
     yield q
 
+def retraces(a, b, c):
+    xa, ya = a
+    xb, yb = b
+    xc, yc = c
+    return collinear(a, b, c) and (xb - xa) * (xc - xb) + (yb - ya) * (yc - yb) <= 0
+
 def closed_no_slit(s, k):
     ring = list(open_no_slit(s, k))
     # Remove slit across the closing vertex.
-    while len(ring) > 3 and ring[0] == ring[-1] and ring[1] == ring[-2]:
+    while len(ring) > 3 and ring[0] == ring[-1] and retraces(ring[-2], ring[0], ring[1]):
         ring = ring[1:-1]
+        if ring[0] != ring[-1]:
+            ring.append(ring[0])
     yield from ring
 
 def simplify(xys, scl, closed=False, k=8):
-- 
2.43.0


From caeb92791bcf8c2497d5650cec21f46999138d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:01 +0000
Subject: [PATCH 112/120] fix: measures below -10^38 are read as no data

---
 coral/shapefile.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a33f5a1..493cb9c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -54,7 +54,9 @@ POLYGONM = 25
 MULTIPOINTM = 28
 MULTIPATCH = 31
 
-# Measures not greater than this mean no data.
+# Measures less than this mean no data.
+MEASURE_MIN = -1e38
+# What is written for them.
 NODATA = -10e38
 
 PYTHON3 = sys.version_info[0] == 3
@@ -383,10 +385,10 @@ class Reader:
         # Read m extremes and values if the record has them
         if shapeType in (13,15,18,23,25,28,31) and next - f.tell() >= 16 + 8 * nPoints:
             (mmin, mmax) = unpack("<2d", f.read(16))
-            # Measure values less than -10e38 are nodata values according to the spec
+            # Measure values less than -10^38 are nodata values according to the spec
             record.m = []
             for m in _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8))):
-                if m > NODATA:
+                if m >= MEASURE_MIN:
                     record.m.append(m)
                 else:
                     record.m.append(None)
@@ -398,7 +400,7 @@ class Reader:
             record.z = unpack("<d", f.read(8))
         # Read a single M value
         if shapeType in (11,21) and next - f.tell() >= 8:
-            record.m = tuple(m if m > NODATA else None for m in unpack("<d", f.read(8)))
+            record.m = tuple(m if m >= MEASURE_MIN else None for m in unpack("<d", f.read(8)))
         # Seek to the end of this record as defined by the record header because
         # the shapefile spec doesn't require the actual content to meet the header
         # definition.  Probably allowed for lazy feature deletion. 
@@ -740,7 +742,7 @@ class Writer:
     def __mbox(self, shapes, shapeTypes=[]):
         m = []
         for s in shapes:
-            m.extend(v for v in self.__values(s, 3) if v > NODATA)
+            m.extend(v for v in self.__values(s, 3) if v >= MEASURE_MIN)
         if not m: m.append(0)
         return [min(m), max(m)]
 
-- 
2.43.0


From 7fa3311e6e746bb17dddea3091667356b0b9b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:03 +0000
Subject: [PATCH 113/120] fix: float fields (F) of attribute tables hold
 numbers, not text

---
 coral/shapefile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 493cb9c..354872d 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -532,11 +532,11 @@ class Reader:
             elif not value.strip():
                 record.append(self.u(value.strip()))
                 continue
-            elif typ == "N":
+            elif typ in ("N", "F"):
                 value = value.replace(self.b('\0'), self.b('')).strip()
                 if value == self.b(''):
                     value = 0
-                elif deci:
+                elif deci or typ == "F":
                     value = float(value)
                 else:
                     value = int(value)
@@ -933,7 +933,7 @@ class Writer:
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
                 fieldType = fieldType.upper()
                 size = int(size)
-                if fieldType.upper() == "N":
+                if fieldType in ("N", "F"):
                     value = str(value).rjust(size)
                 elif fieldType == 'L':
                     value = str(value)[:1].upper().ljust(size)
-- 
2.43.0


From cfa7c79994305e4a7452ca56cc22008ea8ca298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:04 +0000
Subject: [PATCH 114/120] fix: whole-number fields holding a number with
 decimals can be read

---
 coral/shapefile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 354872d..32e9b5f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -539,7 +539,11 @@ class Reader:
                 elif deci or typ == "F":
                     value = float(value)
                 else:
-                    value = int(value)
+                    try:
+                        value = int(value)
+                    except ValueError:
+                        # Stored with decimals or an exponent.
+                        value = float(value)
             elif typ == 'D':
                 try:
                     y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])
-- 
2.43.0


From 7577f5f2eb26022520fdc43693cb9a7fcec35ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:06 +0000
Subject: [PATCH 115/120] fix: dates given as date objects are stored as dates

---
 coral/shapefile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 32e9b5f..9210ba8 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -36,6 +36,7 @@ import sys
 import time
 import array
 import tempfile
+from datetime import date
 
 #
 # Constants for shape types
@@ -941,6 +942,8 @@ class Writer:
                     value = str(value).rjust(size)
                 elif fieldType == 'L':
                     value = str(value)[:1].upper().ljust(size)
+                elif fieldType == 'D' and isinstance(value, date):
+                    value = value.strftime("%Y%m%d").rjust(8, '0').ljust(size)
                 elif fieldType == 'D' and isinstance(value, (list, tuple)):
                     value = "{:04}{:02}{:02}".format(*value).ljust(size)
                 else:
-- 
2.43.0


From aee62db1c0acae7600fc5a4d9923ac64cd71ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:08 +0000
Subject: [PATCH 116/120] fix: missing values given in order are stored as
 blanks, as by field name

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 9210ba8..8c92c4b 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1019,7 +1019,7 @@ class Writer:
         # Compensate for deletion flag
         if self.fields[0][0] == "DeletionFlag": fieldCount -= 1
         if recordList:
-            [record.append(recordList[i]) for i in range(fieldCount)]
+            [record.append("" if recordList[i] is None else recordList[i]) for i in range(fieldCount)]
         elif recordDict:
             for field in self.fields:
                 if field[0] == "DeletionFlag":
-- 
2.43.0


From b5fd9c0a18016ba1c60538f9c9d41a55fafa9437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:09 +0000
Subject: [PATCH 117/120] fix: field types given in lower case are stored as
 the types they name

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 8c92c4b..af1836d 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -823,7 +823,7 @@ class Writer:
             name = self.b(name.decode(self.encoding, 'ignore'))
             name = name.replace(self.b(' '), self.b('_'))
             name = name.ljust(11).replace(self.b(' '), self.b('\x00'))
-            fieldType = self.b(fieldType)
+            fieldType = self.b(fieldType.upper())
             size = int(size)
             fld = pack('<11sc4xBB14x', name, fieldType, size, decimal)
             f.write(fld)
-- 
2.43.0


From 3e7511ccc62327d232660f6d828b6b007bbd1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:17 +0000
Subject: [PATCH 118/120] fix: numbers read from a field fit into it again when
 saved

---
 coral/shapefile.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index af1836d..6362042 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -218,6 +218,16 @@ def basename(path):
     base, ext = os.path.splitext(path)
     return base if ext.lower() in (".shp", ".shx", ".dbf") else path
 
+def _number(value, size):
+    """The text of a number, in a shorter form if it exceeds the size."""
+    text = str(value)
+    if len(text) > size and isinstance(value, float):
+        forms = ["%.0f" % value] + ["%.*e" % (n, value) for n in range(17)]
+        for form in forms:
+            if len(form) <= size and float(form) == value:
+                return form
+    return text
+
 class Reader:
     """Reads the three files of a shapefile as a unit or
     separately.  If one of the three files (.shp, .shx,
@@ -537,7 +547,7 @@ class Reader:
                 value = value.replace(self.b('\0'), self.b('')).strip()
                 if value == self.b(''):
                     value = 0
-                elif deci or typ == "F":
+                elif deci:
                     value = float(value)
                 else:
                     try:
@@ -939,7 +949,7 @@ class Writer:
                 fieldType = fieldType.upper()
                 size = int(size)
                 if fieldType in ("N", "F"):
-                    value = str(value).rjust(size)
+                    value = _number(value, size).rjust(size)
                 elif fieldType == 'L':
                     value = str(value)[:1].upper().ljust(size)
                 elif fieldType == 'D' and isinstance(value, date):
-- 
2.43.0


From a1548c56dd6eba15977d13c6271acd77e29669ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 119/120] fix: a read after a refused one does not start amid
 the refused entity

---
 coral/rg.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 5f70e65..2dd3d97 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -276,10 +276,16 @@ class Reader:
                 raise KeyError("id not found: {}".format(id_))
             self.idx = idx
             rg.seek(self.datapos + offset)
+        start = rg.tell()
         segs = []
-        for nrows in self.index[self.idx][1]:
-            rows = [self.nt(*self.row.decode(rg.read(self.row.size))) for i in range(nrows)]
-            segs.append(rows)
+        try:
+            for nrows in self.index[self.idx][1]:
+                rows = [self.nt(*self.row.decode(rg.read(self.row.size))) for i in range(nrows)]
+                segs.append(rows)
+        except Exception:
+            # The next read must not start amid this entity.
+            rg.seek(start)
+            raise
         self.idx += 1
         return segs
 
-- 
2.43.0


From 59517907590c97d5dcb355b3ff9a5eb33515d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:43 +0000
Subject: [PATCH 120/120] fix: gradients keep their colours when the lists
 given are changed

---
 coral/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/gradient.py b/coral/gradient.py
index dd12d52..0292c1d 100644
--- a/coral/gradient.py
+++ b/coral/gradient.py
@@ -29,7 +29,7 @@ class Gradient:
         if points[-1][0] < 1:
             points.append((1, points[-1][1]))
         self.pos = [p[0] for p in points]
-        self.rgb = [p[1] for p in points]
+        self.rgb = [tuple(p[1]) for p in points]
 
     def get(self, x):
         ib = bisect.bisect_left(self.pos, x)
-- 
2.43.0

