From 171441fe4cad8b2bd95e476b7ff6b5c40bdc6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:07 +0000
Subject: [PATCH 01/48] fix: BBox equality compares the corners, not their
 hashes

---
 coral/bbox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 4478869..b61d118 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -57,7 +57,10 @@ class BBox:
         return hash((self.x0, self.y0, self.x1, self.y1))
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        if not isinstance(other, BBox):
+            return NotImplemented
+        return (self.x0, self.y0, self.x1, self.y1) == \
+               (other.x0, other.y0, other.x1, other.y1)
 
     def __lt__(self, other):
         return self.area() < other.area()
-- 
2.43.0


From 57d77ff827d8354fcd0282d066731fb8659d3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:35 +0000
Subject: [PATCH 02/48] fix: BBox union keeps boxes that have no area

---
 coral/bbox.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index b61d118..46754e1 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -69,8 +69,9 @@ class BBox:
         return bool(self.area())
 
     def __or__(self, other):
-        if not self: return other
-        if not other: return self
+        empty = BBox()
+        if self == empty: return other
+        if other is None or other == empty: return self
         x0 = min(self.x0, other.x0)
         y0 = min(self.y0, other.y0)
         x1 = max(self.x1, other.x1)
-- 
2.43.0


From f4ffaaacf514a4d1b714866e4be5f58b23117adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:47 +0000
Subject: [PATCH 03/48] fix: simplifying a line of no points or one point does
 not fail

---
 coral/coord.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index cca69f2..1395742 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -248,9 +248,13 @@ def sqr_fit(s, m):
 
 def open_no_slit(s, k):
     b = Buffer(k)
-    p = next(s)
+    p = next(s, None)
+    if p is None:
+        return
     yield p
-    q = next(s)
+    q = next(s, None)
+    if q is None:
+        return
     for r in s:
         if r == q:
             continue
-- 
2.43.0


From f4749dda1ed20e70152e6ece58090bb61918f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:47 +0000
Subject: [PATCH 04/48] fix: simplifying a closed ring keeps the order of its
 vertices

---
 coral/coord.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 1395742..88ea1e1 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -273,9 +273,10 @@ def open_no_slit(s, k):
 def closed_no_slit(s, k):
     b1 = Buffer(k)
     b2 = Buffer(k)
-    p = next(s)
-    yield p
-    q = next(s)
+    p = first = next(s, None)
+    if first is None:
+        return
+    q = next(s, first)
     for r in s:
         if r == q:
             continue
@@ -291,18 +292,21 @@ def closed_no_slit(s, k):
                         b2.push(t)
                 b1.push(q)
         p, q = q, r
-    while not (b1.isempty() or b2.isempty()):
+    # The seam is where the last vertex (q) meets the first one.
+    seam = [q] if q == first else [q, first]
+    while len(seam) == 1 and not (b1.isempty() or b2.isempty()):
         p = b1.pop()
         q = b2.shift()
-        if p != q:
-            break
+        if p == q:
+            seam = [p]
+        else:
+            seam = [p] + seam + [q]
     while not b1.isempty():
         yield b1.shift()
-    yield p
-    yield q
+    for p in seam:
+        yield p
     while not b2.isempty():
         yield b2.shift()
-    yield r
 
 def simplify(xys, scl, closed=False, k=8):
     s = sqr_fit(xys, scl)
-- 
2.43.0


From 77cc233576869a9265bb402cd4d5952e7573c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 05/48] fix: a bilevel canvas starts with the background colour
 in every pixel

---
 coral/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 41423ef..9a88b6a 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -179,7 +179,8 @@ class BWCanvas(BaseCanvas):
         self.bgcolor = bgcolor
         nw = math.ceil(width/8) # bytes/row
         n = nw * height
-        self.data = array('B', (bgcolor for i in range(n)))
+        fill = 255 if bgcolor else 0 # eight pixels
+        self.data = array('B', (fill for i in range(n)))
         self.bits_per_row = nw * 8
 
     def __getitem__(self, key):
-- 
2.43.0


From a5d39b398b3334248cb26309ed3d47e033f28da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:06 +0000
Subject: [PATCH 06/48] fix: filling polygons clips spans at the canvas edges

---
 coral/raster.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 9a88b6a..cdf0744 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -73,9 +73,14 @@ class BaseCanvas:
                         self[x0, y] = color
                         x0 += 1
                 else:
-                    x0 = x1
+                    x0 = max(x1, 0)
                 d0 = d1
                 x1, d1 = heapq.heappop(marks)
+            if not d0:
+                # the last span leaves at the right edge or beyond.
+                while x0 < self.width:
+                    self[x0, y] = color
+                    x0 += 1
 
     def line(self, start, end, color):
         "Draw line using Bresenham's algorithm."
-- 
2.43.0


From 4b9886096785b7b8023a31b1fcd2596004b364e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 07/48] fix: grid fields use the index range their size has

---
 coral/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/grid.py b/coral/grid.py
index 6c4bfe2..9fb7649 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -41,7 +41,8 @@ class IVar:
             self.size = 8
         else:
             raise ValueError
-        self.span = SIZE_SPAN[self.size]
+        self.fmt = '>' + SIZE_FORMAT[self.size]
+        self.span = SIZE_SPAN[self.size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
@@ -86,7 +87,7 @@ class FVar:
         self.maxv = maxv
         self.size = size
         self.delta = maxv - minv
-        self.span = SIZE_SPAN[size]
+        self.span = SIZE_SPAN[size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
-- 
2.43.0


From 4de6f4f9808a4cdddd9757b25cc10d05ffdce22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 08/48] fix: the error rate of two empty strings is zero

---
 coral/names.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/names.py b/coral/names.py
index c2f399e..998fb71 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -67,6 +67,8 @@ def damlev(s1, s2):
 
 def strerr(s1, s2):
     length = len(s1) + len(s2)
+    if length == 0:
+        return 0
     distance = damlev(s1, s2)
     return distance * 2 / length
 
-- 
2.43.0


From d092454fa9cfea8098b5177dfb82c5f6e2a7520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:36 +0000
Subject: [PATCH 09/48] fix: reading a table gives each asked column its own
 values

---
 coral/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 28b22f3..8c2fdf7 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -87,7 +87,7 @@ def readfile(path, keys=None, sep=',', comm='#'):
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-        indexes = [i for i in range(len(fkeys)) if fkeys[i] in keys]
+        indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
             line = line.split(comm)[0].strip()
-- 
2.43.0


From 48b3622d23b5b218f7ae3b595bff233b813f31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 10/48] fix: the progress meter takes iterables without a
 length

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index 13ce086..eac33aa 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -39,7 +39,7 @@ def format_meter(n, total, elapsed):
     # n - number of finished iterations
     # total - total number of iterations, or None
     # elapsed - number of seconds passed since start
-    if n > total:
+    if total is not None and n > total:
         total = None
     
     elapsed_str = format_interval(elapsed)
-- 
2.43.0


From ce90cee5ec5818d44c926b475a2b23778e8278a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 11/48] fix: haversine of antipodal points could fail on a
 value rounded above 1

---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 88ea1e1..cfbc4be 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -119,7 +119,7 @@ def haversine(lon1, lat1, lon2, lat2, R=None):
     lat2 = math.radians(lat2)
     a1 = math.sin(dLat / 2) * math.sin(dLat / 2)
     a2 = math.sin(dLon / 2) * math.sin(dLon / 2) * math.cos(lat1) * math.cos(lat2)
-    a = a1 + a2
+    a = min(1, a1 + a2)
     c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
     d = R * c
     return d
-- 
2.43.0


From 166950a0391e9a6c400be20c72d0e5609ca2555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 12/48] fix: oblique Mercator lost the quadrant of points far
 from its centre

---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 0164943..1537c18 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -198,7 +198,7 @@ class ObliqMercator(Proj):
         a = s * math.sin(lat) - c * math.cos(lat) * math.sin(lon - self.lon0)
         v = math.tan(lat) * c + s * math.sin(lon - self.lon0)
         h = math.cos(lon - self.lon0)
-        x = self.r * math.atan(v / h)
+        x = self.r * math.atan2(v, h)
         y = self.r * math.atanh(a)
         return x, y
 
@@ -208,7 +208,7 @@ class ObliqMercator(Proj):
         lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
-        lon = self.lon0 + math.atan(v / h)
+        lon = self.lon0 + math.atan2(v, h)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 7fc01eb971be4c08e460f5f9c5bc3a0943f95cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 13/48] fix: azimuthal inverses lost the quadrant, and failed
 at the centre

---
 coral/proj.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 1537c18..c08e3d5 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -276,20 +276,21 @@ class Stereographic(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -324,20 +325,21 @@ class AzimuthalEquidistant(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -367,20 +369,21 @@ class AzimuthalEqualArea(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
-- 
2.43.0


From 10fdf66100d845e2748d70cd7d6b3b3544fc1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 14/48] fix: azimuthal equidistant failed on the centre written
 with another longitude

---
 coral/proj.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index c08e3d5..f95fd71 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -308,19 +308,20 @@ class AzimuthalEquidistant(Proj):
 
     def geo2rect(self, lon, lat):
         lon, lat = math.radians(lon), math.radians(lat)
-        if (lon, lat) == (self.lon0, self.lat0):
-            # This shortcut avoid division by zero on the k formula below.
-            return 0, 0
         coslat = math.cos(lat)
         sinlat = math.sin(lat)
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
-        c = math.acos(cosc)
-        k = c / math.sin(c)
-        x = y = self.r * k
-        x *= coslat * sinlon
-        y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        u = coslat * sinlon
+        v = self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        sinc = math.sqrt(u*u + v*v)
+        if sinc == 0 and cosc > 0:
+            # This shortcut avoid division by zero on the k formula below.
+            return 0, 0
+        k = math.atan2(sinc, cosc) / sinc
+        x = self.r * k * u
+        y = self.r * k * v
         return x, y
 
     def rect2geo(self, x, y):
-- 
2.43.0


From 6568b80880183180ac7c2a66a896dd0b30a1da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 15/48] fix: destination failed next to the poles on a sine
 rounded above 1

---
 coral/coord.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index cfbc4be..0a60d25 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -156,8 +156,9 @@ def destination(lon, lat, bear, dist, R=None):
     sind = math.sin(d)
     costc = math.cos(tc)
     sintc = math.sin(tc)
-    lat = math.asin(sinlat*cosd + coslat*sind*costc)
-    dlon = math.atan2(sintc*sind*coslat, cosd - sinlat*math.sin(lat))
+    sinlat2 = max(-1, min(1, sinlat*cosd + coslat*sind*costc))
+    lat = math.asin(sinlat2)
+    dlon = math.atan2(sintc*sind*coslat, cosd - sinlat*sinlat2)
     lon = corangle(rlon - dlon)
     lon, lat = math.degrees(lon), math.degrees(lat)
     return lon, lat
-- 
2.43.0


From e6d6390439500f9df48d94322e4e369df7f59a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 16/48] fix: conic projection failed at the poles on values
 rounded out of range

---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index f95fd71..c5903df 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -408,7 +408,7 @@ class ConicEqualArea(CProj):
     def geo2rect(self, lon, lat):
         lon, lat = math.radians(lon), math.radians(lat)
         sinlat = math.sin(lat)
-        p = self.r * math.sqrt(self.c - 2 * self.n * sinlat) / self.n
+        p = self.r * math.sqrt(max(0, self.c - 2 * self.n * sinlat)) / self.n
         t = self.n * lon
         x = p * math.sin(t)
         y = self.p0 - p * math.cos(t)
@@ -424,7 +424,7 @@ class ConicEqualArea(CProj):
         t = math.atan2(x, p0 - y)
         lon = t / self.n
         pnr = p * self.n / self.r
-        lat = math.asin((self.c - pnr*pnr) / (2 * self.n))
+        lat = math.asin(max(-1, min(1, (self.c - pnr*pnr) / (2 * self.n))))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 7fb336022044241c23a9ba5efda7fb8ebf72dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:45 +0000
Subject: [PATCH 17/48] fix: azimuthal inverses failed next to the poles on a
 sine rounded above 1

---
 coral/proj.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index c5903df..3c34672 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -291,7 +291,8 @@ class Stereographic(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(1, sinlat)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -341,7 +342,8 @@ class AzimuthalEquidistant(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(1, sinlat)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -385,7 +387,8 @@ class AzimuthalEqualArea(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        sinlat = cosc * self.sinlat0 + y * sinc * self.coslat0 / p
+        lat = math.asin(max(-1, min(1, sinlat)))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From d1e68e096a7512f57dc73a0b1336e5b147ccb94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 18/48] fix: equal-area inverse failed next to the antipode on
 a value rounded above 1

---
 coral/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index 3c34672..e7d72d8 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -374,7 +374,7 @@ class AzimuthalEqualArea(Proj):
         p = math.sqrt(x*x + y*y)
         if p == 0:
             return math.degrees(self.lon0), math.degrees(self.lat0)
-        c = 2 * math.asin(p / (2 * self.r))
+        c = 2 * math.asin(min(1, p / (2 * self.r)))
         cosc = math.cos(c)
         sinc = math.sin(c)
         if self.lat0 == math.pi / 2:
-- 
2.43.0


From f8b7da4259842b520696f0b2823c12f7cf0638c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:11 +0000
Subject: [PATCH 19/48] fix: setting a gray level makes the cached colour stale
 and vice versa (vector.Canvas)

---
 coral/vector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index aadeb81..9783114 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -83,8 +83,10 @@ class Canvas:
         if bgcolor is not None:
             if isinstance(bgcolor, tuple):
                 self.state['color'] = bgcolor
+                self.state['gray'] = None
             else:
                 self.state['gray'] = bgcolor
+                self.state['color'] = None
         self.deps = set()
 
     def copy(self):
@@ -104,6 +106,7 @@ class Canvas:
         line = "{} v".format(v)
         self.lines.append(line)
         self.state['gray'] = v
+        self.state['color'] = None
 
     def setcolor(self, r, g, b):
         if self.state['color'] == (r, g, b):
@@ -111,6 +114,7 @@ class Canvas:
         line = "{} {} {} rgb".format(r, g, b)
         self.lines.append(line)
         self.state['color'] = (r, g, b)
+        self.state['gray'] = None
 
     def setink(self, ink):
         if isinstance(ink, tuple):
-- 
2.43.0


From ada3c967f520f2ad523985039dce3e481aaa4cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:12 +0000
Subject: [PATCH 20/48] fix: grestore brings back the ink of before the fill
 (vector.Canvas)

---
 coral/vector.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 9783114..dfcac58 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -148,11 +148,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
@@ -198,11 +200,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
@@ -221,11 +225,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
-- 
2.43.0


From 74b9b91c8a2d384360ba872ef1cb5e09b564b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:12 +0000
Subject: [PATCH 21/48] fix: a circle starts a path of its own
 (vector.Canvas.addcircle)

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index dfcac58..edee60d 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -143,6 +143,7 @@ class Canvas:
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
+        self.lines.append("np")
         line = "{} {} {} 0 360 arc cp".format(x, y, r)
         self.lines.append(line)
         if fill is not None:
-- 
2.43.0


From 064b4a4d97eb91967d98a135fb00acf9fcc0a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:12 +0000
Subject: [PATCH 22/48] fix: setdash keeps a copy of the pattern
 (vector.Canvas)

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index edee60d..a0ce5b5 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -133,6 +133,7 @@ class Canvas:
         self.state['width'] = w
 
     def setdash(self, pattern, offset=0):
+        pattern = list(pattern)
         if self.state['dash'] == (pattern, offset):
             return
         psarray = "[{}]".format(" ".join(map(str, pattern)))
-- 
2.43.0


From 7a8cecf0ffbc8e2e5777239be43f0cf69abf9282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:12 +0000
Subject: [PATCH 23/48] fix: addroundedpolygon takes any sequence of points, as
 addpolygon does (vector.Canvas)

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index a0ce5b5..81937ca 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -214,6 +214,7 @@ class Canvas:
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
 
     def addroundedpolygon(self, points, radius, fill=None, stroke=None):
+        points = list(points)
         self.lines.append("np")
         (x1, y1), (x2, y2) = points[:2]
         startend = ((x1 + x2) / 2, (y1 + y2) / 2)
-- 
2.43.0


From dfa1c96993a654e70fe3be50e0632fd97d557a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:29 +0000
Subject: [PATCH 24/48] fix: Ellipsoidal frames can be loaded (frame.load)

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b627079..94c331d 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -126,7 +126,7 @@ def load(path):
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-        e = Ellipsoid(*(m[k] for k in 'abef'))
+        e = proj.Ellipsoid(*(m[k] for k in 'abef'))
         prj = Proj(c, e)
     else:
         r = m['r']
-- 
2.43.0


From 831612b7b5fa583f04a13eda2fa84139a4eff289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:29 +0000
Subject: [PATCH 25/48] fix: Blanks at the end of a name are part of the name
 (frame.loadnames)

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index 94c331d..b3429e2 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -111,7 +111,7 @@ class Frame:
         with open("{}.names".format(key), "r") as f:
             names = []
             for line in f:
-                names.append(line.rstrip())
+                names.append(line.rstrip("\n"))
         return names
 
 def load(path):
-- 
2.43.0


From b91789760163b201486c843694cca7953b126671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:17 +0000
Subject: [PATCH 26/48] fix: Latitudes above 90 are brought into range
 (pf.Writer)

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 7e301ac..c3e2553 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -172,7 +172,7 @@ class Writer:
                 while lat < -90:
                     lat += 180
                 while lat > 90:
-                    lat += 180
+                    lat -= 180
                 parts[i][j] = (lon, lat)
         nparts = len(parts)
         for i in range(nparts):
-- 
2.43.0


From 37e5a12b9d246ed371ef96cea5358b65f5604950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:17 +0000
Subject: [PATCH 27/48] fix: A part of a single point keeps it (pf.Writer)

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index c3e2553..4984faa 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -177,7 +177,7 @@ class Writer:
         nparts = len(parts)
         for i in range(nparts):
             part = parts[i]
-            if part[0] == part[-1]:
+            if len(part) > 1 and part[0] == part[-1]:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-- 
2.43.0


From 1c3c5b677781be1305c093bf8de763875ad8bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:17 +0000
Subject: [PATCH 28/48] fix: The box of an entity covers all its points
 (pf.Writer)

A part that is the point (0, 0) has the empty box, which is left out of a
union; an entity of no parts had no box at all.
---
 coral/pf.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 4984faa..11e7b62 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -181,13 +181,10 @@ class Writer:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-        bb = None
+        points = [point for part in parts for point in part]
+        bb = bbox.BBox(points) if points else bbox.BBox()
         partlen = []
         for part in parts:
-            if bb is None:
-                bb = bbox.BBox(part)
-            else:
-                bb |= bbox.BBox(part)
             partlen.append(len(part))
         self.partlens.append(partlen)
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
-- 
2.43.0


From 43bce4c4bae85987e6ec8a89a87c67d2fefa0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:17 +0000
Subject: [PATCH 29/48] fix: Boxes of no width or height can be written
 (pf.Writer)

---
 coral/pf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 11e7b62..028839f 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -137,6 +137,11 @@ def getfmt(size):
         raise ValueError("invalid size: {}".format(size))
     return fmt, umax
 
+def quantize(v, v0, v1, umax):
+    if v0 == v1:
+        return 0
+    return round((v - v0) * umax / (v1 - v0))
+
 def sf2pf(sfpath, pfpath, getname, size=4):
     sf = shapefile.Reader(sfpath)
     pf = Writer(pfpath, size)
@@ -202,8 +207,8 @@ class Writer:
         for part in parts:
             for point in part:
                 lon1, lat1 = point
-                ulon = round((lon1 - x0) * self.umax / (x1 - x0))
-                ulat = round((lat1 - y0) * self.umax / (y1 - y0))
+                ulon = quantize(lon1, x0, x1, self.umax)
+                ulat = quantize(lat1, y0, y1, self.umax)
                 data = struct.pack(self.fmt, ulon, ulat)
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
-- 
2.43.0


From e38d5ce6bfac0bb45b4654d7594efc44bb5dbee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:17 +0000
Subject: [PATCH 30/48] fix: Coordinates at the sides of the box can be written
 with 8 bytes (pf.Writer)

---
 coral/pf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 028839f..18f85f7 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -140,7 +140,8 @@ def getfmt(size):
 def quantize(v, v0, v1, umax):
     if v0 == v1:
         return 0
-    return round((v - v0) * umax / (v1 - v0))
+    # Rounding errors may lead out of the range.
+    return min(max(round((v - v0) * umax / (v1 - v0)), 0), umax)
 
 def sf2pf(sfpath, pfpath, getname, size=4):
     sf = shapefile.Reader(sfpath)
-- 
2.43.0


From 2b2ddce8bc8f681e361df8b10b20c6632adc349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 31/48] fix: Range-grid data sets can be opened (rg.Reader:
 missing import)

---
 coral/rg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/rg.py b/coral/rg.py
index 3ab2857..4563186 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -79,6 +79,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_SET) seeks from the start of the stream (default)
 #   s.seek(offset, io.SEEK_CUR) seeks from current position
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
+import collections
 import io
 import struct
 
-- 
2.43.0


From f0890cc2b0a9324c310d4395dc206ef840d439b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 32/48] fix: Entities of no segments can be read
 (rg._readindex)

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 4563186..f6a60b6 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -137,7 +137,7 @@ def _readindex(path):
         for i in range(n):
             eid, ensegs = md.readline().split(" ")
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split(" ")]
+            elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
     return index
 
-- 
2.43.0


From b288c996b613359cef4cabfd9e4024600f3aec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 33/48] fix: Ids may have blanks (rg._readindex)

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index f6a60b6..5c5cefd 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -135,7 +135,7 @@ def _readindex(path):
     with open(path, "r") as md:
         n = int(md.readline())
         for i in range(n):
-            eid, ensegs = md.readline().split(" ")
+            eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
             elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
-- 
2.43.0


From 9ba07f71f2bad1fe11b198eaad84943ad8347243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:21 +0000
Subject: [PATCH 34/48] fix: Column names need not be identifiers (rg.Reader)

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 5c5cefd..3053387 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -247,7 +247,7 @@ class Reader:
             else:
                 raise TypeError
         self.row = GRow(*fields)
-        self.nt = collections.namedtuple("Row", (field.name for field in fields))
+        self.nt = collections.namedtuple("Row", (field.name for field in fields), rename=True)
         self.datapos = rg.tell()
 
     def read(self, id_=None):
-- 
2.43.0


From bb107d8f7854f5a7c80e0d17672c8dd236c02325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 35/48] fix: Multipoints with elevations or measures can be
 written and read (shapefile)

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c789f89..a54bc13 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -351,7 +351,7 @@ class Reader:
         if shapeType in (3,5,13,15,23,25,31):
             nParts = unpack("<i", f.read(4))[0]
         # Shape types with points
-        if shapeType in (3,5,8,13,15,23,25,31):
+        if shapeType in (3,5,8,13,15,18,23,25,28,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
         if nParts:
@@ -641,7 +641,7 @@ class Writer:
                 # Parts index array
                 size += nParts * 4
             # Shape types with points
-            if self.shapeType in (3,5,8,13,15,23,25,31):
+            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Points count
                 size += 4
                 # Points array
@@ -810,7 +810,7 @@ class Writer:
                 # Number of parts
                 f.write(pack("<i", len(s.parts)))
             # Shape types with multiple points per record
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Number of points
                 f.write(pack("<i", len(s.points)))
             # Write part indexes
@@ -822,7 +822,7 @@ class Writer:
                 for pt in s.partTypes:
                     f.write(pack("<i", pt))
             # Write points for multiple-point records
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 try:
                     [f.write(pack("<2d", *p[:2])) for p in s.points]
                 except error:
-- 
2.43.0


From 7f1fb994f63db09442539667168bbf3840b4caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 36/48] fix: Elevations are taken from the points where a shape
 has no list of its own (shapefile.Writer)

---
 coral/shapefile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a54bc13..21b8da6 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -834,8 +834,10 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write elevation extremes for record %s. Expected floats." % recNum)
                 try:
-                    #[f.write(pack("<d", p[2])) for p in s.points]
-                    f.write(pack("<%sd" % len(s.z), *s.z))
+                    if hasattr(s, "z"):
+                        f.write(pack("<%sd" % len(s.z), *s.z))
+                    else:
+                        [f.write(pack("<d", p[2])) for p in s.points]
                 except error:
                     raise ShapefileException("Failed to write elevation values for record %s. Expected floats." % recNum)
             # Write m extremes and values
-- 
2.43.0


From 74c48540f759904b252507c110a6e38bde3953f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 37/48] fix: The length in the header counts the measures of
 all the types that have them (shapefile.Writer)

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 21b8da6..978cb1c 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -656,7 +656,7 @@ class Writer:
                 # z array
                 size += 8 * nPoints
             # Calc m extremes and values
-            if self.shapeType in (23,25,31):
+            if self.shapeType in (13,15,18,23,25,28,31):
                 # m extremes
                 size += 16
                 # m array
-- 
2.43.0


From fb3cb7a55b5af3222c09524acb155410faceafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 38/48] fix: Measures are read whenever the record has them
 (shapefile.Reader)

---
 coral/shapefile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 978cb1c..9607399 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -366,8 +366,8 @@ class Reader:
         if shapeType in (13,15,18,31):
             (zmin, zmax) = unpack("<2d", f.read(16))
             record.z = _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8)))
-        # Read m extremes and values if header m values do not equal 0.0
-        if shapeType in (13,15,18,23,25,28,31) and not 0.0 in self.measure:
+        # Read m extremes and values if the record has them
+        if shapeType in (13,15,18,23,25,28,31) and f.tell() + 16 + nPoints * 8 <= next:
             (mmin, mmax) = unpack("<2d", f.read(16))
             # Measure values less than -10e38 are nodata values according to the spec
             record.m = []
-- 
2.43.0


From f81fcf2c10c54cb9cc2ab8dd5b2d42988da21a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 39/48] fix: Saving again writes the right index
 (shapefile.Writer)

---
 coral/shapefile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 9607399..565b0fe 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -788,6 +788,8 @@ class Writer:
         """Write the shp records"""
         f = self.__getFileObj(self.shp)
         f.seek(100)
+        self._offsets = []
+        self._lengths = []
         recNum = 1
         for s in self._shapes:
             self._offsets.append(f.tell())
-- 
2.43.0


From 258c1d4db44bcff986cd5e81ce06703ae73ca69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 40/48] fix: Part types are not shared between multipatches
 (shapefile.Writer)

---
 coral/shapefile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 565b0fe..a884c64 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -968,8 +968,7 @@ class Writer:
                 polyShape.points.append(point)
         if polyShape.shapeType == 31:
             if not partTypes:
-                for part in parts:
-                    partTypes.append(polyShape.shapeType)
+                partTypes = [polyShape.shapeType for part in parts]
             polyShape.partTypes = partTypes
         self._shapes.append(polyShape)
 
-- 
2.43.0


From 3b77530d0ebfdeeaaa2d8235df132fd3d62349c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 41/48] fix: The first shape or record can be counted from the
 end (shapefile.Reader)

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a884c64..244a0d2 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -308,7 +308,7 @@ class Reader:
         error message if the index is out of bounds."""
         if self.numRecords:
             rmax = self.numRecords - 1
-            if abs(i) > rmax:
+            if i > rmax or i < -self.numRecords:
                 raise IndexError("Shape or Record index out of range.")
             if i < 0: i = range(self.numRecords)[i]
         return i
-- 
2.43.0


From 23d826d8220cfbbc5335dc8f3d489c05d0fd9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 42/48] fix: A data set of no shapes can be saved
 (shapefile.Writer)

---
 coral/shapefile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 244a0d2..39a9c66 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -684,6 +684,7 @@ class Writer:
             px, py = list(zip(*s.points))[:2]
             x.extend(px)
             y.extend(py)
+        if not x: return [0, 0, 0, 0]
         return [min(x), min(y), max(x), max(y)]
 
     def __zbox(self, shapes, shapeTypes=[]):
-- 
2.43.0


From 820c512cda074615639f88594dc5df05d20a93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 43/48] fix: Tables of no records can be read
 (shapefile.Reader)

---
 coral/shapefile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 39a9c66..0773b7d 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -486,7 +486,7 @@ class Reader:
 
     def __recordFmt(self):
         """Calculates the size of a .shp geometry record."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in self.fields])
         fmtSize = calcsize(fmt)
@@ -534,7 +534,7 @@ class Reader:
     def record(self, i=0):
         """Returns a specific dbf record based on the supplied index."""
         f = self.__getFileObj(self.dbf)
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         i = self.__restrictIndex(i)
         recSize = self.__recordFmt()[1]
@@ -544,7 +544,7 @@ class Reader:
 
     def records(self):
         """Returns all records in a dbf file."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         records = []
         f = self.__getFileObj(self.dbf)
@@ -558,7 +558,7 @@ class Reader:
     def iterRecords(self):
         """Serves up records in a dbf file as an iterator.
         Useful for large shapefiles or dbf files."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
         f.seek(self.__dbfHeaderLength())
-- 
2.43.0


From 181082b13ba69155042034039f441e29297a86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 44/48] fix: Text is cut and padded to its size in bytes
 (shapefile.Writer)

---
 coral/shapefile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 0773b7d..01fe40f 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -922,9 +922,10 @@ class Writer:
                 elif fieldType == 'L':
                     value = str(value)[0].upper()
                 else:
-                    value = str(value)[:size].ljust(size)
+                    # Sizes are in bytes; characters are not split
+                    value = self.b(str(value))[:size].decode(self.encoding, "ignore")
+                value = self.b(value).ljust(size)
                 assert len(value) == size
-                value = self.b(value)
                 f.write(value)
 
     def null(self):
-- 
2.43.0


From e7b922a218a44dc1a673a175002002220a9d4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 45/48] fix: Blank fields are read as empty text
 (shapefile.Reader)

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 01fe40f..3d986f2 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -506,7 +506,7 @@ class Reader:
             if name == 'DeletionFlag':
                 continue
             elif not value.strip():
-                record.append(value)
+                record.append(self.u(value).strip())
                 continue
             elif typ == "N":
                 value = value.replace(self.b('\0'), self.b('')).strip()
-- 
2.43.0


From 2d2a7c63fd35f1aad81e2b056e3a18713888f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 46/48] fix: Fields left out of a record given by names are
 written blank (shapefile.Writer)

---
 coral/shapefile.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 3d986f2..ed90e07 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -994,12 +994,11 @@ class Writer:
             [record.append(recordList[i]) for i in range(fieldCount)]
         elif recordDict:
             for field in self.fields:
-                if field[0] in recordDict:
-                    val = recordDict[field[0]]
-                    if val is None:
-                        record.append("")
-                    else:
-                        record.append(val)
+                val = recordDict.get(field[0])
+                if val is None:
+                    record.append("")
+                else:
+                    record.append(val)
         if record:
             self.records.append(record)
 
-- 
2.43.0


From f88b809d2a772480265cf33e0c2eacd6f04e1eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:57 +0000
Subject: [PATCH 47/48] fix: The range of measures is that of the points
 (shapefile.Writer)

---
 coral/shapefile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index ed90e07..e6efc42 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -699,13 +699,14 @@ class Writer:
         return [min(z), max(z)]
 
     def __mbox(self, shapes, shapeTypes=[]):
-        m = [0]
+        m = []
         for s in shapes:
             try:
                 for p in s.points:
                     m.append(p[3])
             except IndexError:
                 pass
+        if not m: m.append(0)
         return [min(m), max(m)]
 
     def bbox(self):
-- 
2.43.0


From 3478a017ac1bc86e2f97178232415bd3c7e538c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:57 +0000
Subject: [PATCH 48/48] fix: Null shapes can be saved among others
 (shapefile.Writer)

---
 coral/shapefile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index e6efc42..b091615 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -623,6 +623,9 @@ class Writer:
         for s in self._shapes:
             # Add in record header and shape type fields
             size += 12
+            # Null shapes have nothing else
+            if s.shapeType == NULL:
+                continue
             # nParts and nPoints do not apply to all shapes
             #if self.shapeType not in (0,1):
             #       nParts = len(s.parts)
@@ -681,6 +684,8 @@ class Writer:
             shapeType = self.shapeType
             if shapeTypes:
                 shapeType = shapeTypes[shapes.index(s)]
+            if not s.points:
+                continue
             px, py = list(zip(*s.points))[:2]
             x.extend(px)
             y.extend(py)
@@ -800,7 +805,7 @@ class Writer:
             recNum += 1
             start = f.tell()
             # Shape Type
-            if self.shapeType != 31:
+            if self.shapeType != 31 and s.shapeType != NULL:
                 s.shapeType = self.shapeType
             f.write(pack("<i", s.shapeType))
             # All shape types capable of having a bounding box
-- 
2.43.0

