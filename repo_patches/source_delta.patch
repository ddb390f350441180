From 6c8ce20e2880f3840938e449c58620bb979490b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 01/81] fix: adjacent node when leaving an object is the one
 just beyond its surface

Both tracers took the owner of the next surface along the ray, which is wrong
when another object lies further on with a gap between, so the wrong refractive
index was used for reflection and refraction.
---
 pvtrace/algorithm/photon_tracer.py | 28 +++++++++++++++++++++++++++-
 pvtrace/engine/_kernel.pyx         | 17 +++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 857dae1..500cb79 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -57,6 +57,32 @@ def find_container(intersections):
     return container
 
 
+def find_adjacent(intersections):
+    """Returns the node on the far side of the nearest intersection, when the ray
+    is leaving the node that owns it.
+
+    This is the node which contains the point just beyond the nearest surface; it
+    does not need to be the owner of the next surface, because that can belong to an
+    object which is further along the ray.
+
+    Parameters
+    ----------
+    intersections: List[Intersection]
+        Full list of intersections of ray with a scene, sorted by distance.
+
+    Returns
+    -------
+    Node
+        The adjacent node
+    """
+    nearest = intersections[0].distance
+    beyond = [x for x in intersections if not close_to_zero(x.distance - nearest)]
+    count = collections.Counter([x.hit for x in beyond])
+    if 1 not in count.values():
+        return intersections[1].hit
+    return find_container(beyond)
+
+
 def next_hit(scene, ray):
     """Returns information about the next interface the ray makes with the scene.
 
@@ -103,7 +129,7 @@ def next_hit(scene, ray):
     hit_node = hit.hit
     distance = distance_between(ray.position, point)
     if container == hit_node:
-        adjacent = intersections[1].hit
+        adjacent = find_adjacent(intersections)
     else:
         adjacent = hit_node
     return hit_node, (container, adjacent), point, distance
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f2a3fae..3e26aac 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -709,7 +709,24 @@ cdef int trace_one(
             if container < 0:
                 container = hit
             if container == hit:
+                # The node containing the point just beyond this surface,
+                # which is not always the owner of the next surface
+                # (photon_tracer.find_adjacent).
                 adjacent = hit_node[second]
+                for node in range(S.n_nodes):
+                    node_hits[node] = 0
+                    node_min_t[node] = INFINITY
+                for i in range(nhits):
+                    if hit_t[i] - t0 > EPS:
+                        node = hit_node[i]
+                        node_hits[node] += 1
+                        if hit_t[i] < node_min_t[node]:
+                            node_min_t[node] = hit_t[i]
+                best = INFINITY
+                for node in range(S.n_nodes):
+                    if node_hits[node] == 1 and node_min_t[node] < best:
+                        best = node_min_t[node]
+                        adjacent = node
             else:
                 adjacent = hit
 
-- 
2.43.0


From aa333a396edbdaee789af4698ebee9550d891a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 02/81] fix: native kernel samples phase functions in the frame
 of the container

The direction was used as a world direction, unlike the Python tracer, so
anisotropic emission from a rotated object pointed the wrong way.
---
 pvtrace/engine/_kernel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 3e26aac..4925a5d 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -804,10 +804,10 @@ cdef int trace_one(
             if (ctype == COMP_SCATTERER or ctype == COMP_LUMINOPHORE) and \
                     rng_uniform(&rng) < S.comp_qy[comp]:
                 # Radiative: re-emit with new direction (and wavelength)
+                # Phase functions are defined in the frame of the container
                 sample_phase(S.comp_phase_type[comp], S.comp_phase_param[comp],
                              &rng, new_dir)
-                for i in range(3):
-                    direction[i] = new_dir[i]
+                transform_vector(S.l2w + container * 16, new_dir, direction)
                 source = comp
                 if ctype == COMP_LUMINOPHORE:
                     ax = S.ems_x + S.ems_start[comp]
-- 
2.43.0


From d2abce8927ec2b6f440c3423519e9edcafe53e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 03/81] fix: find the container when a ray crosses a concave
 mesh more than once

A node whose surface is crossed three times by a ray starting inside it was not
considered to contain the ray.
---
 pvtrace/algorithm/photon_tracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 500cb79..d4ec270 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -44,7 +44,8 @@ def find_container(intersections):
     if len(intersections) == 1:
         return intersections[0].hit
     count = collections.Counter([x.hit for x in intersections]).most_common()
-    candidates = [x[0] for x in count if x[1] == 1]
+    # A ray crosses a surface it is inside of an odd number of times
+    candidates = [x[0] for x in count if x[1] % 2 == 1]
     pairs = []
     for intersection in intersections:
         node = intersection.hit
@@ -78,7 +79,7 @@ def find_adjacent(intersections):
     nearest = intersections[0].distance
     beyond = [x for x in intersections if not close_to_zero(x.distance - nearest)]
     count = collections.Counter([x.hit for x in beyond])
-    if 1 not in count.values():
+    if not any(x % 2 == 1 for x in count.values()):
         return intersections[1].hit
     return find_container(beyond)
 
-- 
2.43.0


From a50fddc50f98e2c6cb5f159354f6b0a03ef6d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 04/81] fix: cumulative distribution of unevenly spaced data
 weights by spacing

Sampling an interpolated spectrum ignored the width of the intervals, so the
sampled values did not follow the distribution unless x was evenly spaced.
---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 235ef22..ef128b6 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -51,7 +51,7 @@ class Distribution(object):
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
-                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5)
+                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5 * np.diff(x))
                 cdf = cdf / np.max(cdf)
                 cdf = np.hstack([0.0, cdf])
                 self._cdf = cdf
-- 
2.43.0


From 1f0647e18f50baee9672ee6409dcadc67ef9f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 05/81] fix: reject distributions with any non-finite value, as
 documented

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index ef128b6..c4b73fd 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -35,7 +35,7 @@ class Distribution(object):
         else:
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
-            if not np.isfinite(y).any():
+            if not np.isfinite(y).all():
                 raise ValueError("All values of y must be finite.")
             if np.any(y < 0.0):
                 raise ValueError(
-- 
2.43.0


From 2fa0e7e9886095fcae014373047da4b2b2ac1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 06/81] fix: distributions accept any array-like x and y, as
 documented

---
 pvtrace/material/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index c4b73fd..ab3130c 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -33,6 +33,8 @@ class Distribution(object):
             self._x = None
             self._y = y
         else:
+            x = np.asarray(x)
+            y = np.asarray(y)
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
             if not np.isfinite(y).all():
-- 
2.43.0


From 34aa2f5811e3b186dfd7f56db5577a69fdb46233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 07/81] fix: Henyey-Greenstein phase function with g=0 divides
 by zero

---
 pvtrace/material/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 905a2f1..9b04caa 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -114,13 +114,13 @@ def isotropic() -> numpy.ndarray:
 def henyey_greenstein(g=0.0) -> numpy.ndarray:
     """Henyey-Greenstein phase function."""
     # https://www.astro.umd.edu/~jph/HG_note.pdf
-    p = np.random.uniform(0, 1)
-    s = 2 * p - 1
-    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     # Inverse is not defined at g=0 but in the limit
     # tends to the isotropic case.
     if close_to_zero(g):
         return isotropic()
+    p = np.random.uniform(0, 1)
+    s = 2 * p - 1
+    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From d472d51f2323f6c5f6b6b5687652d93f82ed1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 08/81] fix: Henyey-Greenstein directions can be nan when
 rounding takes the cosine past one

---
 pvtrace/engine/_kernel.pyx | 4 ++++
 pvtrace/engine/emit.py     | 1 +
 pvtrace/material/utils.py  | 1 +
 3 files changed, 6 insertions(+)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 4925a5d..099cd9c 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -459,6 +459,10 @@ cdef inline void sample_phase(int phase_type, double phase_param, RNG* rng, doub
         g1 = rng_uniform(rng)
         s = 2.0 * g1 - 1.0
         mu = 1.0 / (2.0 * g) * (1.0 + g * g - ((1.0 - g * g) / (1.0 + g * s)) ** 2)
+        if mu > 1.0:  # rounding is amplified when g is small
+            mu = 1.0
+        elif mu < -1.0:
+            mu = -1.0
         phi = 2.0 * M_PI * rng_uniform(rng)
         theta = acos(mu)
     elif phase_type == PHASE_CONE:
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 339a60a..e86b00c 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -84,6 +84,7 @@ def _sample_directions(delegate, n):
             return _sample_directions(isotropic, n)
         s = 2 * np.random.uniform(0, 1, n) - 1
         mu = (1 + g * g - ((1 - g * g) / (1 + g * s)) ** 2) / (2 * g)
+        mu = np.clip(mu, -1.0, 1.0)  # rounding is amplified when g is small
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(np.arccos(mu), phi)
     return None
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 9b04caa..5694542 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -121,6 +121,7 @@ def henyey_greenstein(g=0.0) -> numpy.ndarray:
     p = np.random.uniform(0, 1)
     s = 2 * p - 1
     mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
+    mu = np.clip(mu, -1.0, 1.0)  # rounding is amplified when g is small
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From e9c6828b5f58276a115b0ec9bb3532cb39970ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 09/81] fix: emission after absorption at a wavelength below
 the emission spectrum raises

In particular the kT method blue shifts the limit past the first wavelength of
the spectrum. The whole spectrum is allowed then, as in the native engine.
---
 pvtrace/material/component.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 82d3b44..f2482bd 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -404,12 +404,12 @@ class Luminophore(Scatterer):
         nm = ray.wavelength
         # Different ways of sampling the emission distribution.
         if method == "kT":
-            # Known issue: this can blue shift outside simulation range!
             # Emission energy can be within 3kT above current value. Simple bolzmann.
             eV = 1240.0 / nm
             eV = eV + 3 / 2 * kB * T  # Assumes 3 dimensional degrees of freedom
             nm = 1240.0 / eV
-            p1 = dist.lookup(nm)
+            # The blue shift can pass the shortest wavelength in the spectrum
+            p1 = dist.lookup(max(nm, np.min(dist._x)))
         elif method == "boltzmann":
             # Convolve the emission spectrum with a bolzmann factor centered at
             # the current photon energy. This will allow the energy to go up via
@@ -417,7 +417,7 @@ class Luminophore(Scatterer):
             raise NotImplementedError()
         elif method == "redshift":
             # Emission energy must always redshift
-            p1 = dist.lookup(nm)
+            p1 = dist.lookup(max(nm, np.min(dist._x)))
         elif method == "full":
             # Emission energy is sampled from full distribution
             p1 = 0.0
-- 
2.43.0


From e29ce72958fc8fbd0af84e65db91681a3bdb66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 10/81] fix: native kernel with fewer than one worker writes
 outside its tallies

OpenMP reads a thread count of zero as its default, but the accumulators were
sized for one thread.
---
 pvtrace/engine/_kernel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 099cd9c..b1854b3 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -1093,7 +1093,7 @@ def trace_bundle(
     cdef long i, base
     cdef int tid, nev
     with nogil:
-        for i in prange(n, num_threads=num_threads, schedule="dynamic", chunksize=64):
+        for i in prange(n, num_threads=nthr, schedule="dynamic", chunksize=64):
             tid = threadid()
             if record_every > 0 and i % record_every == 0:
                 base = (i // record_every) * max_events
-- 
2.43.0


From d1d912f44633a598e4b293830db0547aac8a0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 11/81] fix: native histories that fill the event budget with
 an emission lack the KILL

An absorption adds two events, so checking for a single free row could drop the
terminal event of the history.
---
 pvtrace/engine/_kernel.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index b1854b3..2251043 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -660,8 +660,9 @@ cdef int trace_one(
         count += 1
 
         # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for the KILL record).
-        if base >= 0 and nevents >= elog.max_events - 1:
+        # silently dropping events (leave room for an absorption, its
+        # outcome and the KILL record).
+        if base >= 0 and nevents >= elog.max_events - 2:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
             break
-- 
2.43.0


From 72b1dfbe0e39b77856886e12e69d17b44861464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 12/81] fix: recorder tallies depend on which rays have their
 history logged

A logged ray was dropped when its event log was full, so long-lived rays were
missing from the tallies unless record_every skipped them.
---
 pvtrace/engine/_kernel.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 2251043..c6b4ca3 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -659,13 +659,14 @@ cdef int trace_one(
     while True:
         count += 1
 
-        # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for an absorption, its
-        # outcome and the KILL record).
+        # End the history with a KILL when its event budget is exhausted
+        # rather than silently dropping events (leave room for an
+        # absorption, its outcome and the KILL record). The ray is still
+        # traced, so recorders do not depend on which rays are logged.
         if base >= 0 and nevents >= elog.max_events - 2:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
-            break
+            base = -1
 
         # --- next_hit: intersect every node ---------------------------
         nhits = 0
-- 
2.43.0


From b6041883a486eebe0acd62dfbab622cd156803ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 13/81] fix: normal of a cylinder's curved surface close to a
 cap

The relative tolerance of the cap test reached 1e-5 of the length down the side,
so rays hitting the side there were reflected and refracted by the cap normal.
---
 pvtrace/engine/_kernel.pyx   | 12 ++++--------
 pvtrace/geometry/cylinder.py | 11 ++++++-----
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index c6b4ca3..9c84921 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -384,17 +384,13 @@ cdef inline void local_normal(SceneT* S, int node, double* p, double* out) noexc
         out[2] = p[2] / mag
     else:
         half = 0.5 * params[0]
-        # np.isclose default tolerances
-        if fabs(p[2] + half) <= 1e-8 + 1e-5 * fabs(half):
+        r = sqrt(p[0] * p[0] + p[1] * p[1])
+        # Points on the curved surface can be arbitrarily close to a cap
+        if fabs(fabs(p[2]) - half) <= fabs(r - params[1]):
             out[0] = 0.0
             out[1] = 0.0
-            out[2] = -1.0
-        elif fabs(p[2] - half) <= 1e-8 + 1e-5 * fabs(half):
-            out[0] = 0.0
-            out[1] = 0.0
-            out[2] = 1.0
+            out[2] = -1.0 if p[2] < 0.0 else 1.0
         else:
-            r = sqrt(p[0] * p[0] + p[1] * p[1])
             out[0] = p[0] / r
             out[1] = p[1] / r
             out[2] = 0.0
diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 70181b8..7de229c 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -53,11 +53,12 @@ class Cylinder(Geometry):
         """ Normal faces outwards by convention.
         """
         z = surface_point[2]
-        if np.isclose(z, -0.5 * self.length):
-            return (0.0, 0.0, -1.0)
-        elif np.isclose(z, 0.5 * self.length):
-            return (0.0, 0.0, 1.0)
-        elif np.isclose(self.radius, np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))):
+        half = 0.5 * self.length
+        r = np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))
+        # Points on the curved surface can be arbitrarily close to a cap
+        if np.isclose(abs(z), half) and abs(abs(z) - half) <= abs(r - self.radius):
+            return (0.0, 0.0, -1.0) if z < 0.0 else (0.0, 0.0, 1.0)
+        elif np.isclose(self.radius, r):
             v = np.array(surface_point) - np.array([0.0, 0.0, surface_point[2]])
             n = tuple(norm(v).tolist())
             return n
-- 
2.43.0


From a9c58b1bce4e2f66b67aec41a8990b6d5a0c7b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 14/81] fix: histogram values just below the range are counted
 in the first bin

---
 pvtrace/engine/_kernel.pyx | 16 ++++++++++++----
 pvtrace/engine/tally.py    |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 9c84921..dc7eb56 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -498,6 +498,14 @@ cdef inline double prop_value(int prop, double wavelength, double angle,
     return lpos[2]
 
 
+cdef inline int bin_index(double value, double lo, double hi, int n) noexcept nogil:
+    """Histogram bin of `value`, or -1 when it is outside the range."""
+    cdef double index = (value - lo) / (hi - lo) * n
+    if index >= 0.0 and index < n:
+        return <int>index
+    return -1
+
+
 cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
                        unsigned char* seen, double* wnormal,
                        double* lpos, double angle, double wavelength,
@@ -542,16 +550,16 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
         for h in range(S.rec_hist_start[r], S.rec_hist_start[r] + S.rec_hist_n[r]):
             va = prop_value(S.h_prop_a[h], wavelength, angle, duration,
                             travelled, lpos)
-            ia = <int>((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
-            if ia < 0 or ia >= S.h_na[h]:
+            ia = bin_index(va, S.h_lo_a[h], S.h_hi_a[h], S.h_na[h])
+            if ia < 0:
                 continue
             if S.h_prop_b[h] < 0:
                 bins[S.h_offset[h] + ia] += 1
             else:
                 vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                 travelled, lpos)
-                ib = <int>((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
-                if ib < 0 or ib >= S.h_nb[h]:
+                ib = bin_index(vb, S.h_lo_b[h], S.h_hi_b[h], S.h_nb[h])
+                if ib < 0:
                     continue
                 bins[S.h_offset[h] + ia * S.h_nb[h] + ib] += 1
 
diff --git a/pvtrace/engine/tally.py b/pvtrace/engine/tally.py
index ae9d8c6..51782e5 100644
--- a/pvtrace/engine/tally.py
+++ b/pvtrace/engine/tally.py
@@ -79,8 +79,8 @@ class _TallyState:
 
 
 def _bin_index(value, hist):
-    index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
-    return index if 0 <= index < hist.bins else -1
+    index = np.floor((value - hist.start) / (hist.stop - hist.start) * hist.bins)
+    return int(index) if 0 <= index < hist.bins else -1
 
 
 def tally_histories(scene, histories):
-- 
2.43.0


From 120f0c321001cee03c3fa219f91b74f333cea4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 15/81] fix: engine accepts subclasses with custom behaviour as
 if they were built in

---
 pvtrace/engine/compiler.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 9bc600c..11626be 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -15,7 +15,12 @@ from pvtrace.geometry.box import Box
 from pvtrace.geometry.cylinder import Cylinder
 from pvtrace.geometry.sphere import Sphere
 from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
-from pvtrace.material.surface import FresnelSurfaceDelegate, NullSurfaceDelegate
+from pvtrace.material.material import Material
+from pvtrace.material.surface import (
+    FresnelSurfaceDelegate,
+    NullSurfaceDelegate,
+    Surface,
+)
 from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
@@ -206,14 +211,14 @@ class CompiledScene:
     # -- geometry ------------------------------------------------------
 
     def _compile_geometry(self, i, geometry):
-        if isinstance(geometry, Box):
+        if type(geometry) is Box:
             self.geom_type[i] = GEOM_BOX
             size = np.asarray(geometry._size, dtype=np.float64)
             self.geom_params[i, :3] = size
-        elif isinstance(geometry, Sphere):
+        elif type(geometry) is Sphere:
             self.geom_type[i] = GEOM_SPHERE
             self.geom_params[i, 0] = float(geometry.radius)
-        elif isinstance(geometry, Cylinder):
+        elif type(geometry) is Cylinder:
             self.geom_type[i] = GEOM_CYLINDER
             self.geom_params[i, 0] = float(geometry.length)
             self.geom_params[i, 1] = float(geometry.radius)
@@ -235,6 +240,10 @@ class CompiledScene:
     # -- surfaces ------------------------------------------------------
 
     def _surface_tag(self, node, material):
+        if type(material) is not Material or type(material.surface) is not Surface:
+            raise UnsupportedSceneError(
+                f"Node {node.name!r} uses a custom material or surface class."
+            )
         delegate = material.surface.delegate
         if type(delegate) is FresnelSurfaceDelegate:
             return SURF_FRESNEL
@@ -249,14 +258,14 @@ class CompiledScene:
     # -- components ----------------------------------------------------
 
     def _compile_component(self, node, component, abs_x, abs_y, ems_x, ems_cdf):
-        # Order matters: Reactor < Absorber < Scatterer, Luminophore < Scatterer
-        if isinstance(component, Reactor):
+        # Exact types: a subclass may override any behaviour
+        if type(component) is Reactor:
             ctype = COMP_REACTOR
-        elif isinstance(component, Absorber):
+        elif type(component) is Absorber:
             ctype = COMP_ABSORBER
-        elif isinstance(component, Luminophore):
+        elif type(component) is Luminophore:
             ctype = COMP_LUMINOPHORE
-        elif isinstance(component, Scatterer):
+        elif type(component) is Scatterer:
             ctype = COMP_SCATTERER
         else:
             raise UnsupportedSceneError(
@@ -301,9 +310,9 @@ class CompiledScene:
         phase = component.phase_function
         if phase is isotropic:
             return PHASE_ISOTROPIC, 0.0
-        if isinstance(phase, HenyeyGreenstein):
+        if type(phase) is HenyeyGreenstein:
             return PHASE_HENYEY_GREENSTEIN, float(phase.g)
-        if isinstance(phase, Cone):
+        if type(phase) is Cone:
             return PHASE_CONE, float(phase.theta_max)
         raise UnsupportedSceneError(
             f"Node {node.name!r}: custom phase functions are not supported."
-- 
2.43.0


From cbdfadba791199bcbbbed100f380b6e75168d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 16/81] fix: scenes with too many nodes for the engine raise
 UnsupportedSceneError

---
 pvtrace/engine/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 11626be..53cf7c2 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -25,6 +25,7 @@ from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
 VOLUME_EVENTS = {"lost", "reacted", "killed"}
+MAX_NODES = 128  # per-ray node tracking array size in the kernel
 MAX_RECORDERS = 256  # per-ray distinct tracking array size in the kernel
 
 # Geometry type tags
@@ -70,6 +71,10 @@ class CompiledScene:
             raise UnsupportedSceneError("Scene has no geometry nodes.")
         if scene.root.geometry is None:
             raise UnsupportedSceneError("Root node must have a geometry.")
+        if len(nodes) > MAX_NODES:
+            raise UnsupportedSceneError(
+                f"At most {MAX_NODES} geometry nodes are supported."
+            )
 
         n = len(nodes)
         self.scene = scene
-- 
2.43.0


From 88c9d346e900064f52ea56a8e6795e31a46f70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 17/81] fix: vectorised emission ignores the behaviour of
 custom light and mask subclasses

---
 pvtrace/engine/emit.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index e86b00c..966c470 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -20,13 +20,14 @@ def _sphere_directions(theta, phi):
 
 
 def _sample_wavelengths(delegate, n):
-    if delegate is light_module.default_wavelength or isinstance(
-        delegate, light_module.DefaultWavelength
+    if (
+        delegate is light_module.default_wavelength
+        or type(delegate) is light_module.DefaultWavelength
     ):
         return np.full(n, 555.0)
-    if isinstance(delegate, light_module.ConstantWavelengthMask):
+    if type(delegate) is light_module.ConstantWavelengthMask:
         return np.full(n, delegate.nanometers)
-    if isinstance(delegate, light_module.SpectrumWavelengthMask):
+    if type(delegate) is light_module.SpectrumWavelengthMask:
         return np.asarray(
             delegate.distribution.sample(np.random.uniform(0, 1, n)), dtype=float
         )
@@ -34,23 +35,24 @@ def _sample_wavelengths(delegate, n):
 
 
 def _sample_positions(delegate, n):
-    if delegate is light_module.default_position or isinstance(
-        delegate, light_module.DefaultPosition
+    if (
+        delegate is light_module.default_position
+        or type(delegate) is light_module.DefaultPosition
     ):
         return np.zeros((n, 3))
-    if isinstance(delegate, light_module.RectangularMask):
+    if type(delegate) is light_module.RectangularMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
             np.zeros(n),
         ))
-    if isinstance(delegate, light_module.CircularMask):
+    if type(delegate) is light_module.CircularMask:
         angle = np.random.uniform(0, 2 * np.pi, n)
         radius = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
         return np.column_stack(
             (radius * np.cos(angle), radius * np.sin(angle), np.zeros(n))
         )
-    if isinstance(delegate, light_module.CubeMask):
+    if type(delegate) is light_module.CubeMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
@@ -60,11 +62,12 @@ def _sample_positions(delegate, n):
 
 
 def _sample_directions(delegate, n):
-    if delegate is light_module.default_direction or isinstance(
-        delegate, light_module.DefaultDirection
+    if (
+        delegate is light_module.default_direction
+        or type(delegate) is light_module.DefaultDirection
     ):
         return np.tile((0.0, 0.0, 1.0), (n, 1))
-    if isinstance(delegate, Cone):
+    if type(delegate) is Cone:
         theta = np.arcsin(
             np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
         )
@@ -78,7 +81,7 @@ def _sample_directions(delegate, n):
         theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(theta, phi)
-    if isinstance(delegate, HenyeyGreenstein):
+    if type(delegate) is HenyeyGreenstein:
         g = delegate.g
         if abs(g) < 1e-12:
             return _sample_directions(isotropic, n)
@@ -110,9 +113,11 @@ def emit_bundle(scene, num_rays):
         if n == 0:
             continue
         light = node.light
-        wav = _sample_wavelengths(light.wavelength, n)
-        pos = _sample_positions(light.position, n)
-        direction = _sample_directions(light.direction, n)
+        wav = pos = direction = None
+        if type(light) is light_module.Light:
+            wav = _sample_wavelengths(light.wavelength, n)
+            pos = _sample_positions(light.position, n)
+            direction = _sample_directions(light.direction, n)
 
         if wav is None or pos is None or direction is None:
             # Unknown delegate: per-ray Python fallback for this light
-- 
2.43.0


From 81f4fb0e28323a35516d5c7a272d29916dbde81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 18/81] fix: streamed bundles restart the turns of the light
 sources

---
 pvtrace/engine/api.py  | 10 +++++++---
 pvtrace/engine/emit.py |  7 ++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 3653372..38ae3c6 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -203,6 +203,7 @@ def simulate(
     max_events=128,
     emit_method="kT",
     record_every=1,
+    first_ray=0,
 ):
     """Trace `num_rays` through `scene` with the compiled engine.
 
@@ -210,7 +211,8 @@ def simulate(
     all light delegates are supported); the tracing loop runs in native
     code. Recorders attached to scene nodes tally every ray; full event
     histories are kept for every `record_every`-th ray (all rays when 1,
-    none when 0). Raises `UnsupportedSceneError` if the scene cannot be
+    none when 0). Light sources take turns as if `first_ray` rays had
+    already been emitted. Raises `UnsupportedSceneError` if the scene cannot be
     compiled — callers can fall back to the Python tracer.
     """
     from pvtrace.engine import _kernel
@@ -227,7 +229,7 @@ def simulate(
 
     from pvtrace.engine.emit import emit_bundle
 
-    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays)
+    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays, first_ray)
 
     tic = time.perf_counter()
     data = _kernel.trace_bundle(
@@ -259,6 +261,8 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     traced = 0
     while traced < num_rays:
         n = min(bundle, num_rays - traced)
-        result = simulate(scene, n, seed=int(seed) + traced, **kwargs)
+        result = simulate(
+            scene, n, seed=int(seed) + traced, first_ray=traced, **kwargs
+        )
         traced += n
         yield result, traced
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 966c470..fa421e2 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -93,13 +93,13 @@ def _sample_directions(delegate, n):
     return None
 
 
-def emit_bundle(scene, num_rays):
+def emit_bundle(scene, num_rays, first_ray=0):
     """Emit `num_rays` from the scene's lights as world-frame arrays.
 
     Returns (positions, directions, wavelengths, sources). Lights with
     built-in delegates are sampled with numpy; others fall back to the
     per-ray Python generator. Rays cycle between lights exactly like
-    `scene.emit`.
+    `scene.emit`, continuing from ray number `first_ray`.
     """
     lights = scene.light_nodes
     positions = np.zeros((num_rays, 3))
@@ -108,7 +108,8 @@ def emit_bundle(scene, num_rays):
     sources = np.empty(num_rays, dtype=object)
 
     for index, node in enumerate(lights):
-        rows = np.arange(index, num_rays, len(lights))
+        start = (index - first_ray) % len(lights)
+        rows = np.arange(start, num_rays, len(lights))
         n = rows.size
         if n == 0:
             continue
-- 
2.43.0


From 2a2acb853c73af75da7963b299a320a5cc947611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 19/81] fix: the normal of a box raises for points on its edges
 and corners

---
 pvtrace/geometry/box.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pvtrace/geometry/box.py b/pvtrace/geometry/box.py
index d5ca672..f193866 100644
--- a/pvtrace/geometry/box.py
+++ b/pvtrace/geometry/box.py
@@ -56,11 +56,7 @@ class Box(Mesh):
                 "Point is not on surface. Is the point in the local frame?",
                 {"point": surface_point, "geometry": self},
             )
-        if len(surf_indexes) != 1:
-            raise GeometryError(
-                "Point is on multiple surfaces.",
-                {"point": surface_point, "geometry": self},
-            )
+        # Points on an edge or a corner belong to more than one face, use the first
         idx = surf_indexes[0]
         # normal vector in the local frame
         return NORMALS[idx]
-- 
2.43.0


From 801dfad7b471cb923906323c827653f3ccb9a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 20/81] fix: large scenes meet the surface just left again,
 boxes of 100 and more raise

---
 pvtrace/algorithm/photon_tracer.py |  4 ++-
 pvtrace/engine/_kernel.pyx         | 43 +++++++++++++++++++-----------
 pvtrace/geometry/box.py            |  3 ++-
 pvtrace/geometry/mesh.py           |  6 ++---
 pvtrace/geometry/utils.py          | 13 +++++++--
 pvtrace/scene/scene.py             |  4 ++-
 6 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index d4ec270..d8087f6 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -16,6 +16,7 @@ from pvtrace.geometry.utils import (
     close_to_zero,
     points_equal,
     EPS_ZERO,
+    rounding,
 )
 from pvtrace.common.errors import TraceError
 import logging
@@ -77,7 +78,8 @@ def find_adjacent(intersections):
         The adjacent node
     """
     nearest = intersections[0].distance
-    beyond = [x for x in intersections if not close_to_zero(x.distance - nearest)]
+    tol = rounding(*(x.point for x in intersections))
+    beyond = [x for x in intersections if x.distance - nearest >= tol]
     count = collections.Counter([x.hit for x in beyond])
     if not any(x % 2 == 1 for x in count.values()):
         return intersections[1].hit
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index dc7eb56..dde5d1d 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -238,11 +238,22 @@ cdef inline double interp_clamped(double x, double* xs, double* ys, int n) noexc
     return ys[lo] + (ys[hi] - ys[lo]) * (x - xs[lo]) / (xs[hi] - xs[lo])
 
 
+cdef inline double rounding(double* p) noexcept nogil:
+    """Distance below which points near `p` cannot be told apart, matches
+    pvtrace.geometry.utils.rounding."""
+    cdef double size = 1.0
+    cdef int i
+    for i in range(3):
+        if fabs(p[i]) > size:
+            size = fabs(p[i])
+    return EPS * size
+
+
 # ----------------------------------------------------------------------
 # Geometry intersections in the local frame. Directions are unit vectors
 # and transforms are rigid, so local t equals world distance.
 
-cdef inline int intersect_box(double* params, double* o, double* d, double* ts) noexcept nogil:
+cdef inline int intersect_box(double* params, double* o, double* d, double eps, double* ts) noexcept nogil:
     cdef double lo, hi, t1, t2, inv, tmp
     cdef double tmin = -INFINITY
     cdef double tmax = INFINITY
@@ -267,16 +278,16 @@ cdef inline int intersect_box(double* params, double* o, double* d, double* ts)
                 tmax = t2
     if tmax < tmin:
         return 0
-    if tmin > EPS:
+    if tmin > eps:
         ts[n] = tmin
         n += 1
-    if tmax > EPS:
+    if tmax > eps:
         ts[n] = tmax
         n += 1
     return n
 
 
-cdef inline int intersect_sphere(double* params, double* o, double* d, double* ts) noexcept nogil:
+cdef inline int intersect_sphere(double* params, double* o, double* d, double eps, double* ts) noexcept nogil:
     cdef double radius = params[0]
     cdef double a = dot3(d, d)
     cdef double b = 2.0 * dot3(d, o)
@@ -288,17 +299,17 @@ cdef inline int intersect_sphere(double* params, double* o, double* d, double* t
         return 0
     sq = sqrt(disc)
     t = (-b - sq) / (2.0 * a)
-    if t > EPS:
+    if t > eps:
         ts[n] = t
         n += 1
     t = (-b + sq) / (2.0 * a)
-    if t > EPS:
+    if t > eps:
         ts[n] = t
         n += 1
     return n
 
 
-cdef inline int intersect_cylinder(double* params, double* o, double* d, double* ts) noexcept nogil:
+cdef inline int intersect_cylinder(double* params, double* o, double* d, double eps, double* ts) noexcept nogil:
     """Z-axis cylinder with caps, centre at origin."""
     cdef double length = params[0]
     cdef double radius = params[1]
@@ -339,21 +350,21 @@ cdef inline int intersect_cylinder(double* params, double* o, double* d, double*
             cand[ncand] = t
             ncand += 1
     for i in range(ncand):
-        if cand[i] > EPS:
+        if cand[i] > eps:
             ts[n] = cand[i]
             n += 1
     return n
 
 
-cdef inline int intersect_node(SceneT* S, int node, double* o, double* d, double* ts) noexcept nogil:
+cdef inline int intersect_node(SceneT* S, int node, double* o, double* d, double eps, double* ts) noexcept nogil:
     cdef int gtype = S.geom_type[node]
     cdef double* params = S.geom_params + node * 4
     if gtype == GEOM_BOX:
-        return intersect_box(params, o, d, ts)
+        return intersect_box(params, o, d, eps, ts)
     elif gtype == GEOM_SPHERE:
-        return intersect_sphere(params, o, d, ts)
+        return intersect_sphere(params, o, d, eps, ts)
     else:
-        return intersect_cylinder(params, o, d, ts)
+        return intersect_cylinder(params, o, d, eps, ts)
 
 
 cdef inline void local_normal(SceneT* S, int node, double* p, double* out) noexcept nogil:
@@ -646,7 +657,7 @@ cdef int trace_one(
     cdef double new_dir[3]
 
     cdef int hit, container, adjacent, first, second
-    cdef double t0, t1, best
+    cdef double t0, t1, best, eps
     cdef double n_container, n1, n2, alpha, depth, u, r, angle, ddot
     cdef int comp, cbase, ccount, ctype
     cdef double total, target, running
@@ -679,7 +690,8 @@ cdef int trace_one(
             node_min_t[node] = INFINITY
             transform_point(S.w2l + node * 16, pos, local_o)
             transform_vector(S.w2l + node * 16, direction, local_d)
-            nlocal = intersect_node(S, node, local_o, local_d, ts)
+            eps = max(rounding(pos), rounding(local_o))
+            nlocal = intersect_node(S, node, local_o, local_d, eps, ts)
             for k in range(nlocal):
                 if nhits < MAX_HITS:
                     hit_t[nhits] = ts[k]
@@ -726,8 +738,9 @@ cdef int trace_one(
                 for node in range(S.n_nodes):
                     node_hits[node] = 0
                     node_min_t[node] = INFINITY
+                eps = max(rounding(pos), EPS * t0)
                 for i in range(nhits):
-                    if hit_t[i] - t0 > EPS:
+                    if hit_t[i] - t0 > eps:
                         node = hit_node[i]
                         node_hits[node] += 1
                         if hit_t[i] < node_min_t[node]:
diff --git a/pvtrace/geometry/box.py b/pvtrace/geometry/box.py
index f193866..7b74d98 100644
--- a/pvtrace/geometry/box.py
+++ b/pvtrace/geometry/box.py
@@ -2,6 +2,7 @@ from pvtrace.geometry.mesh import Mesh
 from pvtrace.geometry.utils import (
     angle_between,
     EPS_ZERO,
+    rounding,
     allinrange,
     aabb_intersection,
     on_aabb_surface,
@@ -49,7 +50,7 @@ class Box(Mesh):
 
     def normal(self, surface_point: tuple) -> tuple:
         on_surf, surf_indexes = on_aabb_surface(
-            self._size, surface_point, atol=2 * EPS_ZERO
+            self._size, surface_point, atol=2 * rounding(self._size)
         )
         if not on_surf:
             raise GeometryError(
diff --git a/pvtrace/geometry/mesh.py b/pvtrace/geometry/mesh.py
index 08018d7..baf165a 100644
--- a/pvtrace/geometry/mesh.py
+++ b/pvtrace/geometry/mesh.py
@@ -1,5 +1,5 @@
 from pvtrace.geometry.geometry import Geometry
-from pvtrace.geometry.utils import EPS_ZERO
+from pvtrace.geometry.utils import EPS_ZERO, rounding
 from pvtrace.common.errors import GeometryError
 from typing import Optional, Sequence, Tuple
 import numpy as np
@@ -71,14 +71,14 @@ class Mesh(Geometry):
             raise GeometryError(
                 "Mesh must have a single closest point to calculate normal."
             )
-        if not np.any(np.absolute(distances) < EPS_ZERO):
+        if not np.any(np.absolute(distances) < rounding(mesh.bounds)):
             raise GeometryError(
                 "Point is not on surface.",
                 {
                     "point": surface_point,
                     "geometry": self,
                     "distances": distances,
-                    "threshold": EPS_ZERO,
+                    "threshold": rounding(mesh.bounds),
                 },
             )
         normal = tuple(mesh.face_normals[triangle_id[0]])
diff --git a/pvtrace/geometry/utils.py b/pvtrace/geometry/utils.py
index 31683c8..e8efedd 100644
--- a/pvtrace/geometry/utils.py
+++ b/pvtrace/geometry/utils.py
@@ -12,6 +12,13 @@ logger = logging.getLogger(__name__)
 EPS_ZERO = np.finfo(float).eps * 1000
 
 
+def rounding(*points):
+    """ Returns the distance below which points cannot be told apart because of
+        rounding: `EPS_ZERO`, or more when the coordinates are large.
+    """
+    return EPS_ZERO * max(1.0, *(np.max(np.absolute(x)) for x in points))
+
+
 def on_aabb_surface(size, point, centre=(0.0, 0.0, 0.0), atol=EPS_ZERO):
     """ Surface test for axis-aligned bounding box with absolute distance 
         tolerance along surface normal direction.
@@ -428,7 +435,9 @@ def distance_between(point1: tuple, point2: tuple) -> float:
     return d
 
 
-def intersection_point_is_ahead(ray_position, ray_direction, intersection_point):
+def intersection_point_is_ahead(
+    ray_position, ray_direction, intersection_point, tolerance=EPS_ZERO
+):
     """ Returns true if the intersection point is ahead of the rays trajectory.
     
         Notes
@@ -437,4 +446,4 @@ def intersection_point_is_ahead(ray_position, ray_direction, intersection_point)
     """
     return (
         np.dot(ray_direction, intersection_point) - np.dot(ray_direction, ray_position)
-    ) > EPS_ZERO
+    ) > tolerance
diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 63f5263..a4923b4 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -10,6 +10,7 @@ from pvtrace.material.component import Component
 from pvtrace.geometry.utils import (
     distance_between,
     close_to_zero,
+    rounding,
     intersection_point_is_ahead,
 )
 from pvtrace.algorithm import photon_tracer
@@ -166,13 +167,14 @@ class Scene(object):
             return d
 
         all_intersections = self.root.intersections(ray_origin, ray_direction)
+        tolerance = rounding(ray_origin, *(x.point for x in all_intersections))
         # Convert intersection point to root frame/node.
         all_intersections = map(lambda x: x.to(root), all_intersections)
         # Filter for forward intersections only
         all_intersections = tuple(
             filter(
                 lambda x: intersection_point_is_ahead(
-                    ray_origin, ray_direction, x.point
+                    ray_origin, ray_direction, x.point, tolerance
                 ),
                 all_intersections,
             )
-- 
2.43.0


From 2fafb85bd811a0aed46c6c69760d9aa0e7be891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 21/81] fix: engine silently drops recorders on nodes without
 geometry

---
 pvtrace/engine/compiler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 53cf7c2..2dd535c 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -144,7 +144,8 @@ class CompiledScene:
 
     def _compile_recorders(self, nodes):
         recorders = []
-        for i, node in enumerate(nodes):
+        index = {node: i for i, node in enumerate(nodes)}
+        for node in PreOrderIter(self.scene.root):
             for recorder in getattr(node, "recorders", []):
                 if not isinstance(recorder, Recorder):
                     raise UnsupportedSceneError(
@@ -155,7 +156,12 @@ class CompiledScene:
                         f"Recorder {recorder.name!r}: facet filters only apply "
                         "to surface events."
                     )
-                recorders.append((i, recorder))
+                if node not in index:
+                    raise UnsupportedSceneError(
+                        f"Recorder {recorder.name!r}: node {node.name!r} has no "
+                        "geometry."
+                    )
+                recorders.append((index[node], recorder))
         if len(recorders) > MAX_RECORDERS:
             raise UnsupportedSceneError(
                 f"At most {MAX_RECORDERS} recorders are supported."
-- 
2.43.0


From ad13d22522518b6aeb8a2ce75c19e6f4b0600a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 22/81] fix: engine accepts lights in scaled nodes, whose rays
 lack unit directions

---
 pvtrace/engine/compiler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 2dd535c..ec4c7f2 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -119,6 +119,10 @@ class CompiledScene:
                 self.component_names.append(component.name)
             self.comp_count[i] = len(material.components)
 
+        for node in scene.light_nodes:
+            # Rays must keep unit directions
+            self._rigid_transform(node, scene.root)
+
         # Component table columns
         if comp_rows:
             rows = np.array(comp_rows, dtype=np.float64)
@@ -239,14 +243,18 @@ class CompiledScene:
             )
 
     def _compile_transform(self, i, node, root):
+        l2w = self._rigid_transform(node, root)
+        self.local_to_world[i] = l2w
+        self.world_to_local[i] = np.linalg.inv(l2w)
+
+    def _rigid_transform(self, node, root):
         l2w = np.asarray(node.transformation_to(root), dtype=np.float64)
         rotation = l2w[:3, :3]
         if not np.allclose(rotation @ rotation.T, np.eye(3), atol=1e-9):
             raise UnsupportedSceneError(
                 f"Node {node.name!r} transform is not rigid (has scale or shear)."
             )
-        self.local_to_world[i] = l2w
-        self.world_to_local[i] = np.linalg.inv(l2w)
+        return l2w
 
     # -- surfaces ------------------------------------------------------
 
-- 
2.43.0


From 94596f150ae4c9d7f7ff356ab118926c427f549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 23/81] fix: engine ignores the behaviour of custom
 distribution classes

---
 pvtrace/engine/compiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index ec4c7f2..d4aa495 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -15,6 +15,7 @@ from pvtrace.geometry.box import Box
 from pvtrace.geometry.cylinder import Cylinder
 from pvtrace.geometry.sphere import Sphere
 from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
+from pvtrace.material.distribution import Distribution
 from pvtrace.material.material import Material
 from pvtrace.material.surface import (
     FresnelSurfaceDelegate,
@@ -300,9 +301,9 @@ class CompiledScene:
         e_start, e_n = 0, 0
         if ctype == COMP_LUMINOPHORE:
             dist = component._ems_dist
-            if dist.hist:
+            if type(dist) is not Distribution or dist.hist:
                 raise UnsupportedSceneError(
-                    f"Node {node.name!r}: histogram-sampled emission spectra "
+                    f"Node {node.name!r}: histogram-sampled or custom emission spectra "
                     "are not supported."
                 )
             e_start = len(ems_x)
@@ -338,9 +339,9 @@ class CompiledScene:
         )
 
     def _compile_distribution(self, node, dist, xs, ys):
-        if dist.hist:
+        if type(dist) is not Distribution or dist.hist:
             raise UnsupportedSceneError(
-                f"Node {node.name!r}: histogram-sampled spectra are not "
+                f"Node {node.name!r}: histogram-sampled or custom spectra are not "
                 "supported."
             )
         start = len(xs)
-- 
2.43.0


From 1bfaaad1afd3025c79cb7d429f09670bf25d1812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 24/81] fix: the material of spheres and cylinders cannot be
 set

---
 pvtrace/geometry/cylinder.py | 2 +-
 pvtrace/geometry/sphere.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 7de229c..d9b3e88 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -23,7 +23,7 @@ class Cylinder(Geometry):
         return self._material
 
     @material.setter
-    def set_material(self, new_value):
+    def material(self, new_value):
         self._material = new_value
 
     def is_on_surface(self, point):
diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index 45b4c4f..fc4848d 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -21,7 +21,7 @@ class Sphere(Geometry):
         return self._material
 
     @material.setter
-    def set_material(self, new_value):
+    def material(self, new_value):
         self._material = new_value
 
     def is_on_surface(self, point):
-- 
2.43.0


From 656baf923e83c9f69a354c14227caea4d3c808bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 25/81] fix: rays through small spheres, or grazing one, meet
 its surface only once, inside it

---
 pvtrace/geometry/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index fc4848d..1c46783 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -48,7 +48,7 @@ class Sphere(Geometry):
             return []
 
         # Discriminant is zero = one solution, positive == two solutions.
-        if np.isclose(discriminant, 0.0):
+        if discriminant == 0.0:
             t = np.array([-b / (2 * a)])
         else:
             t = np.array(
-- 
2.43.0


From 7be6d9dc9500b6da61c543d92b77974a391b1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 26/81] fix: points beyond the faces of a box, on their planes,
 count as on its surface

---
 pvtrace/geometry/box.py   | 4 +++-
 pvtrace/geometry/utils.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/box.py b/pvtrace/geometry/box.py
index 7b74d98..3ae5545 100644
--- a/pvtrace/geometry/box.py
+++ b/pvtrace/geometry/box.py
@@ -45,7 +45,9 @@ class Box(Mesh):
         super(Box, self).__init__(mesh, material=material)
 
     def is_on_surface(self, point):
-        on_surf, _ = on_aabb_surface(self._size, point, atol=2 * EPS_ZERO)
+        on_surf, _ = on_aabb_surface(
+            self._size, point, atol=2 * rounding(self._size)
+        )
         return on_surf
 
     def normal(self, surface_point: tuple) -> tuple:
diff --git a/pvtrace/geometry/utils.py b/pvtrace/geometry/utils.py
index e8efedd..f20427b 100644
--- a/pvtrace/geometry/utils.py
+++ b/pvtrace/geometry/utils.py
@@ -64,7 +64,11 @@ def on_aabb_surface(size, point, centre=(0.0, 0.0, 0.0), atol=EPS_ZERO):
     zmax_dist = distance_between(point, zmax_point)
 
     dists = (xmin_dist, xmax_dist, ymin_dist, ymax_dist, zmin_dist, zmax_dist)
-    tests = [np.abs(dist) < (atol / 2) for dist in dists]
+    # Points on the planes of the faces but beyond the faces are not on the surface
+    inside = np.all(np.array(point) > origin - atol / 2) and np.all(
+        np.array(point) < extent + atol / 2
+    )
+    tests = [inside and np.abs(dist) < (atol / 2) for dist in dists]
     surfaces = np.where(np.array(tests) == True)[0].tolist()
     return np.any(tests), surfaces
 
-- 
2.43.0


From ce51b629b1417e08cf52f71856451486ee5b6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 27/81] fix: points on the surface of a cylinder are often not
 recognised

---
 pvtrace/geometry/cylinder.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index d9b3e88..c61bd72 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -1,6 +1,6 @@
 from pvtrace.geometry.geometry import Geometry
 from pvtrace.common.errors import GeometryError
-from pvtrace.geometry.utils import angle_between, norm, close_to_zero, ray_z_cylinder
+from pvtrace.geometry.utils import angle_between, norm, ray_z_cylinder, rounding
 import numpy as np
 import logging
 
@@ -27,16 +27,11 @@ class Cylinder(Geometry):
         self._material = new_value
 
     def is_on_surface(self, point):
-        # Just use any direction for a fake ray, we only need the distance
-        _, dist = ray_z_cylinder(self.length, self.radius, point, norm((1, 1, 1)))
-        if len(dist) == 0:
-            return False
-        dist = dist[0]  # Only need closest intersection
-        if close_to_zero(dist):
-            # print("dist from point {} {} is_on_surface True".format(dist, point))
-            return True
-        # print("dist from point {} {} is_on_surface False".format(dist, point))
-        return False
+        # How far the point is outside the curved surface and the planes of the caps
+        from_side = np.sqrt(np.sum(np.array(point[:2]) ** 2)) - self.radius
+        from_cap = abs(point[2]) - 0.5 * self.length
+        tolerance = rounding(self.radius, self.length)
+        return bool(abs(max(from_side, from_cap)) < tolerance)
 
     def contains(self, point):
         z = point[2]
-- 
2.43.0


From 852c71169eb26b1ac5c7c53d52dc0d3cbd916752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 28/81] fix: points on the surface of large shapes are not
 recognised

---
 pvtrace/geometry/mesh.py   | 5 ++---
 pvtrace/geometry/sphere.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pvtrace/geometry/mesh.py b/pvtrace/geometry/mesh.py
index baf165a..0b54bbc 100644
--- a/pvtrace/geometry/mesh.py
+++ b/pvtrace/geometry/mesh.py
@@ -1,5 +1,5 @@
 from pvtrace.geometry.geometry import Geometry
-from pvtrace.geometry.utils import EPS_ZERO, rounding
+from pvtrace.geometry.utils import rounding
 from pvtrace.common.errors import GeometryError
 from typing import Optional, Sequence, Tuple
 import numpy as np
@@ -33,12 +33,11 @@ class Mesh(Geometry):
 
     def is_on_surface(self, point: tuple) -> bool:
         """Returns `True` is the point is on the surface."""
-        # This fails sometimes because surface points can be larger than EPS_ZERO
         mesh = self.trimesh
         closest_points, distances, triangle_id = mesh.nearest.on_surface(
             np.array([point])
         )
-        flag = np.any(np.absolute(distances) < EPS_ZERO)
+        flag = np.any(np.absolute(distances) < rounding(mesh.bounds))
         return flag
 
     def intersections(self, position: tuple, direction: tuple) -> Sequence[tuple]:
diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index 1c46783..8edda88 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -1,5 +1,5 @@
 from pvtrace.geometry.geometry import Geometry
-from pvtrace.geometry.utils import angle_between, EPS_ZERO
+from pvtrace.geometry.utils import angle_between, EPS_ZERO, rounding
 import numpy as np
 import logging
 
@@ -26,7 +26,7 @@ class Sphere(Geometry):
 
     def is_on_surface(self, point):
         r = np.sqrt(np.sum(np.array(point) ** 2))
-        return np.abs(r - self.radius) < EPS_ZERO
+        return np.abs(r - self.radius) < rounding(self.radius)
 
     def contains(self, point):
         r = np.sqrt(np.sum(np.array(point) ** 2))
-- 
2.43.0


From 57b42d87da6435d95ef374976e5c36d8524d6b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 29/81] fix: nodes placed at integer coordinates cannot be
 translated, or have their location truncated

---
 pvtrace/geometry/transformable.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvtrace/geometry/transformable.py b/pvtrace/geometry/transformable.py
index a405999..07c4b35 100644
--- a/pvtrace/geometry/transformable.py
+++ b/pvtrace/geometry/transformable.py
@@ -46,7 +46,9 @@ class Transformable(object):
         """
         super(Transformable, self).__init__()
         self._location = (
-            np.zeros(3, dtype=float) if location is None else np.array(location)
+            np.zeros(3, dtype=float)
+            if location is None
+            else np.array(location, dtype=float)
         )
         self._pose = translation_matrix(self._location)
 
@@ -64,8 +66,8 @@ class Transformable(object):
 
     @pose.setter
     def pose(self, new_value):
-        self._location = translation_from_matrix(new_value)
-        self._pose = np.array(new_value)
+        self._pose = np.array(new_value, dtype=float)
+        self._location = translation_from_matrix(self._pose)
         return self
 
     @property
@@ -74,7 +76,7 @@ class Transformable(object):
 
     @location.setter
     def location(self, new_value):
-        self._location = np.array(new_value)
+        self._location = np.array(new_value, dtype=float)
         self._pose[0:3, 3] = np.array(new_value)
         return self
 
-- 
2.43.0


From d9c9dd67f76011360251b27d063181dfe9856143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 30/81] fix: look_at faces elsewhere for vectors that are not
 unit vectors and for nodes already rotated

---
 pvtrace/scene/node.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 017bcab..6ae77fe 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -6,7 +6,6 @@ from pvtrace.common.errors import AppError
 from pvtrace.geometry.intersection import Intersection
 from pvtrace.geometry.transformable import Transformable
 from pvtrace.geometry.utils import distance_between
-from pvtrace.geometry.transformations import rotation_from_matrix
 import logging
 
 logger = logging.getLogger(__name__)
@@ -45,28 +44,17 @@ class Node(NodeMixin, Transformable):
         with always point the face of the node along the direction vector
         specified. Note that the if the node is displaced from the origin this
         will be respected and the node will be rotate around it's centre.
-
-        References
-        ----------
-        [1] https://math.stackexchange.com/q/476311
         """
-        a = np.array([0, 0, 1])  # +z direction
-        b = np.array(vector)  # direction we want to face
-        c = np.dot(a, b)
-        if np.isclose(c, -1.0):
-            # Anti-parallel rotation can be done without computation
-            self.rotate(np.pi, [0, 1, 0])
-            return
-
-        v = np.cross(a, b)
-        C = 1 / (1 + c)
-        v1, v2, v3 = v[0], v[1], v[2]
-        vx = np.array([[0, -v3, v2], [v3, 0, -v1], [-v2, v1, 0]])
-        r = np.identity(3) + vx + vx @ vx * C
-        R = np.identity(4)
-        R[:3, :3] = r
-        angle, direc, point = rotation_from_matrix(R)
-        self.rotate(angle, direc)
+        a = self.pose[:3, 2]  # direction the face points in now
+        b = np.array(vector, dtype=float)  # direction we want to face
+        axis = np.cross(a, b)
+        sine, cosine = np.linalg.norm(axis), np.dot(a, b)
+        if sine == 0.0:
+            if cosine >= 0.0:
+                return
+            # Anti-parallel, turn around an axis at right angles to the face
+            axis = self.pose[:3, 1]
+        self.rotate(np.arctan2(sine, cosine), axis)
 
     # Convert between coordinate systems
 
-- 
2.43.0


From 527584c6c76d3cabacb7e1f5ed6e805d04ed66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 31/81] fix: propagating a ray by no distance raises
 ZeroDivisionError

---
 pvtrace/light/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/ray.py b/pvtrace/light/ray.py
index 7860ea3..c3dbe73 100644
--- a/pvtrace/light/ray.py
+++ b/pvtrace/light/ray.py
@@ -70,7 +70,7 @@ class Ray:
             position=new_position,
             travelled=self.travelled + distance,
             duration=self.duration
-            + 1 / (speed_of_light_cm_per_s / refractive_index / distance),
+            + distance * refractive_index / speed_of_light_cm_per_s,
         )
         return new_ray
 
-- 
2.43.0


From b10c486d92b47550c6fb9c0e8358e5eab91a7553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 32/81] fix: a light asked to emit until stopped emits nothing

---
 pvtrace/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/light/light.py b/pvtrace/light/light.py
index f0df3ea..28f7b92 100644
--- a/pvtrace/light/light.py
+++ b/pvtrace/light/light.py
@@ -242,7 +242,7 @@ class Light(object):
             The maximum number of rays this light source will generate. If set to
         None then the light will generate until manually terminated.
         """
-        if num_rays is None or num_rays == 0:
+        if num_rays == 0:
             return
         count = 0
         while True:
-- 
2.43.0


From e9aad21e5bf6acd53c63ca0ffaf473388d273365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 33/81] fix: the engine traces rays without direction in a
 scene without lights

---
 pvtrace/engine/emit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index fa421e2..ad7e881 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -102,6 +102,8 @@ def emit_bundle(scene, num_rays, first_ray=0):
     `scene.emit`, continuing from ray number `first_ray`.
     """
     lights = scene.light_nodes
+    if num_rays > 0 and len(lights) == 0:
+        raise ValueError("The scene has no lights to emit rays.")
     positions = np.zeros((num_rays, 3))
     directions = np.zeros((num_rays, 3))
     wavelengths = np.zeros(num_rays)
-- 
2.43.0


From 2d91c8c2226b067618a8d39d5340fcdd7137a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 34/81] fix: distributions share and modify arrays of the
 caller

---
 pvtrace/material/distribution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index ab3130c..18c583a 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -33,8 +33,9 @@ class Distribution(object):
             self._x = None
             self._y = y
         else:
-            x = np.asarray(x)
-            y = np.asarray(y)
+            # Copies: the data stays as given if the caller reuses the arrays
+            x = np.array(x)
+            y = np.array(y)
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
             if not np.isfinite(y).all():
@@ -189,7 +190,7 @@ class Distribution(object):
             raise ValueError("Requires a 1D array.")
         y = np.zeros(len(x))
         for f in callables:
-            y_ = f(x)
+            y_ = np.array(f(x), dtype=float)
             y_[np.where(~np.isfinite(y_))] = 0.0
             y += y_
         return Distribution(x=x, y=y, hist=hist)
-- 
2.43.0


From e52ff45f0c800f1b5b18e0f167011f9ee09ee944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 35/81] fix: distributions accept values that do not match
 their points

---
 pvtrace/material/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 18c583a..43654b4 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -36,6 +36,8 @@ class Distribution(object):
             # Copies: the data stays as given if the caller reuses the arrays
             x = np.array(x)
             y = np.array(y)
+            if x.ndim != 1 or x.shape != y.shape:
+                raise ValueError("x and y must be one-dimensional with equal lengths.")
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
             if not np.isfinite(y).all():
-- 
2.43.0


From 6c9b5956a93e137939cfc8e73329a95cca53e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 36/81] fix: lists and values that are not numbers pass the
 range check of distributions or break it

---
 pvtrace/geometry/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pvtrace/geometry/utils.py b/pvtrace/geometry/utils.py
index f20427b..346d65f 100644
--- a/pvtrace/geometry/utils.py
+++ b/pvtrace/geometry/utils.py
@@ -387,9 +387,8 @@ def allinrange(x, x_range):
         x_range : tuple of float
             A tuple defining a range like (xmin, xmax)
     """
-    if isinstance(x, (int, float)):
-        x = np.array([x])
-    return np.where(np.logical_or(x < x_range[0], x > x_range[1]))[0].size == 0
+    x = np.asarray(x)
+    return bool(np.all((x >= x_range[0]) & (x <= x_range[1])))
 
 
 # Vector helpers
-- 
2.43.0


From f37a321e0c542bbda5aca1136a6279da1d6be600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 37/81] fix: distributions answer a list for an array of one
 value

---
 pvtrace/material/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 43654b4..43ae316 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -134,7 +134,7 @@ class Distribution(object):
             return self._cdf[idx]
         else:
             prob = np.interp(x, self._x, self._cdf, left=np.nan, right=np.nan)
-            if prob.size == 1:
+            if prob.ndim == 0:
                 prob = prob.tolist()  # actually a float
             return prob
 
@@ -181,7 +181,7 @@ class Distribution(object):
                 return self._x[-1]
         else:
             xval = np.interp(p, self._cdf, self._x, left=np.nan, right=np.nan)
-            if xval.size == 1:
+            if xval.ndim == 0:
                 xval = xval.tolist()  # actually a float
             return xval
 
-- 
2.43.0


From d120a70a7e76c1ada11d15a50d1cbcd04d1ae9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 38/81] fix: components given an integer or a list of numbers
 as coefficient or emission fail

---
 pvtrace/material/component.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index f2482bd..bf396d2 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -2,6 +2,7 @@
 volume include: absorption, scattering and luminescence (absorption and reemission).
 """
 from dataclasses import replace
+from numbers import Real
 from typing import Union, Optional, Callable
 import numpy as np
 from pvtrace.material.distribution import Distribution
@@ -15,6 +16,13 @@ q = 1.60217662e-19  # C
 kB = 1.380649e-23 / q  # eV K-1
 
 
+def _spectrum(x, values, hist):
+    """Distribution of a list of numbers, or of functions of wavelength to be summed."""
+    if all(callable(value) for value in values):
+        return Distribution.from_functions(x, values, hist=hist)
+    return Distribution(x=x, y=values, hist=hist)
+
+
 class Component(object):
     """ Base class for all things that can be added to a host material.
     """
@@ -107,8 +115,8 @@ class Scatterer(Component):
         self._coefficient = coefficient
         if coefficient is None:
             raise ValueError("Coefficient must be specified.")
-        elif isinstance(coefficient, (float,)):
-            self._abs_dist = Distribution(x=None, y=coefficient, hist=hist)
+        elif isinstance(coefficient, Real):
+            self._abs_dist = Distribution(x=None, y=float(coefficient), hist=hist)
         elif isinstance(coefficient, np.ndarray):
             self._abs_dist = Distribution(
                 x=coefficient[:, 0], y=coefficient[:, 1], hist=hist
@@ -116,7 +124,9 @@ class Scatterer(Component):
         elif isinstance(coefficient, (list, tuple)):
             if x is None:
                 raise ValueError("Requires `x`.")
-            self._abs_dist = Distribution.from_functions(x, coefficient, hist=hist)
+            self._abs_dist = _spectrum(x, coefficient, hist)
+        else:
+            raise ValueError("Coefficient has wrong type.")
 
         # Force specification of either `quantum_yield` or both `tau_rad` and `tau_nr`
         qy = np.nan
@@ -374,7 +384,7 @@ class Luminophore(Scatterer):
         elif isinstance(emission, (tuple, list)):
             if x is None:
                 raise ValueError("Requires `x`.")
-            self._ems_dist = Distribution.from_functions(x, emission, hist=hist)
+            self._ems_dist = _spectrum(x, emission, hist)
         else:
             raise ValueError("Luminophore `emission` arg has wrong type.")
 
-- 
2.43.0


From ad4819f11f81e1750096753b51e1d7cd9a98239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 39/81] fix: a luminophore with the default emission spectrum
 cannot be made

---
 pvtrace/material/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index bf396d2..4ab43a5 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -376,6 +376,8 @@ class Luminophore(Scatterer):
         # Make emission spectrum distribution
         self._emission = emission
         if emission is None:
+            if x is None:
+                x = np.linspace(300.0, 1000.0, 701)
             self._ems_dist = Distribution.from_functions(
                 x, [lambda x: gaussian(x, 1.0, 600.0, 40.0)], hist=hist
             )
-- 
2.43.0


From d4fc0d46af30c2924ae1601259afb7714b7de64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 40/81] fix: rays of different workers have the same identifier
 on the queue

---
 pvtrace/scene/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index a4923b4..eceeb0b 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -288,7 +288,8 @@ class Scene(object):
                 "Seed must be None to ensure different quasi-random sequences in each process"
             )
 
-        pool = multiprocessing.Pool(processes=workers)
+        # One task per process, because a ray is identified by its process and index
+        pool = multiprocessing.Pool(processes=workers, maxtasksperchild=1)
 
         # Results are send to queue
         if queue:
-- 
2.43.0


From 04e73754c78200f91aa30247ef9576c14b9db9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 41/81] fix: components of scene files with only a spectrum or
 coefficient, or with coefficient 0, are refused

---
 pvtrace/cli/parse.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c2fb7db..f07c87b 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -256,12 +256,12 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "spectrum" in spec:
             spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and spectrum is not None:
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Absorber(spectrum, name=name, hist=hist)
-        elif spectrum:
+        elif spectrum is not None:
             return Absorber(spectrum, name=name, hist=hist)
-        elif coefficient:
+        elif coefficient is not None:
             return Absorber(coefficient, name=name)
 
         raise ValueError("Unexpected absorber format.")
@@ -287,9 +287,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "quantum-yield" in spec:
             quantum_yield = spec["quantum-yield"]
 
-        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
+        spectrum = None
+        if "spectrum" in spec:
+            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and spectrum is not None:
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Scatterer(
                 spectrum,
@@ -298,7 +300,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif spectrum:
+        elif spectrum is not None:
             return Scatterer(
                 spectrum,
                 quantum_yield=quantum_yield,
@@ -306,7 +308,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Scatterer(
                 coefficient,
                 quantum_yield=quantum_yield,
@@ -338,9 +340,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if "quantum-yield" in spec["emission"]:
                 quantum_yield = spec["emission"]["quantum-yield"]
 
-        absorption_spectrum = parse_spectrum(
-            spec["absorption"]["spectrum"], named_type="absorption"
-        )
+        absorption_spectrum = None
+        if "spectrum" in spec["absorption"]:
+            absorption_spectrum = parse_spectrum(
+                spec["absorption"]["spectrum"], named_type="absorption"
+            )
 
         emission_spectrum = parse_spectrum(
             spec["emission"]["spectrum"], named_type="emission"
@@ -349,7 +353,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if emission_spectrum is None:
             raise ValueError("Luminophore must have an emission spectrum")
 
-        if coefficient and (absorption_spectrum is not None):
+        if coefficient is not None and absorption_spectrum is not None:
             absorption_spectrum[:, 1] = (
                 absorption_spectrum[:, 1]
                 / numpy.max(absorption_spectrum[:, 1])
@@ -363,7 +367,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif absorption_spectrum:
+        elif absorption_spectrum is not None:
             return Luminophore(
                 absorption_spectrum,
                 emission=emission_spectrum,
@@ -372,7 +376,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Luminophore(
                 coefficient,
                 emission=emission_spectrum,
-- 
2.43.0


From f7084e3f22e58ebf2237b0a440ef87c3050d4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 42/81] fix: spectra of whole numbers in a file are cut to
 whole numbers when scaled by a coefficient

---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index f07c87b..f502c69 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -239,7 +239,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             index_col=0,
         )
         # like numpy.column_stack((x, y))
-        spectrum = df.iloc[:, 0:2].values
+        spectrum = df.iloc[:, 0:2].values.astype(float)
         return spectrum
 
     def parse_absorber(spec, name):
-- 
2.43.0


From eba6010b6af309eb6adc9f8b6a4f881bc3588bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 43/81] fix: scene files with a point as light mask are refused

---
 pvtrace/cli/parse.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index f502c69..658df3b 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -4,6 +4,7 @@ Parses the pvtrace-scene.yml file and generates Python objects.
 
 from pvtrace.material.distribution import Distribution
 from pvtrace.material.component import Luminophore, Scatterer
+import functools
 import jsonschema
 import yaml
 import json
@@ -138,6 +139,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return Mesh(trimesh=mesh, material=material)
 
     def parse_position_mask(spec):
+        if isinstance(spec, list):
+            return functools.partial(tuple, spec)
+
         if "rect" in spec:
             return RectangularMask(*spec["rect"])
 
@@ -160,6 +164,10 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         return HenyeyGreensteinPhaseFunction(g)
 
     def parse_direction_mask(spec) -> Callable:
+        if isinstance(spec, list):
+            direction = np.array(spec) / np.linalg.norm(spec)
+            return functools.partial(tuple, direction.tolist())
+
         if "isotropic" in spec:
             return isotropic_phase_function
 
@@ -175,6 +183,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         raise ValueError("Missing attribute")
 
     def parse_wavelength_mask(spec) -> Callable:
+        if not isinstance(spec, dict):
+            return ConstantWavelengthMask(spec)
+
         if "nanometers" in spec:
             nm = float(spec["nanometers"])
             return ConstantWavelengthMask(nm)
-- 
2.43.0


From 138cba1303c07e8255fe0bed55ea36f196d6c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 44/81] fix: scene files can run code when they are read

---
 pvtrace/cli/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 658df3b..afd8640 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -66,7 +66,7 @@ def load_schema():
 def load_spec(filename):
     """Load user's scene specification file."""
     with open(filename, "r") as fp:
-        spec = yaml.load(fp, Loader=yaml.Loader)
+        spec = yaml.load(fp, Loader=yaml.SafeLoader)
         return spec
 
 
-- 
2.43.0


From 886470bad779ee743301cb328687205965190271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 45/81] fix: the automatic face recorders of a rotated box
 record nothing

---
 pvtrace/cli/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index afd8640..9c5982a 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -475,6 +475,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
     for node_name, node_spec in spec.get("nodes", {}).items():
         if node_spec.get("record"):
             for name, recorder in auto_recorders(node_name, node_spec).items():
+                if "facet" in recorder:
+                    # Recorders compare with normals in the world frame
+                    recorder["facet"] = nodes[node_name].vector_to_node(
+                        recorder["facet"], nodes["world"]
+                    )
                 recorders_spec.setdefault(name, recorder)
     parse_recorders(recorders_spec, nodes)
 
-- 
2.43.0


From 9aa5f0c68960a0391046a7d148b9657b35cd72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 46/81] fix: meshes read from STL files have inexact normals,
 Mesh moves the mesh of the caller

---
 pvtrace/geometry/mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/mesh.py b/pvtrace/geometry/mesh.py
index 0b54bbc..3bad7fb 100644
--- a/pvtrace/geometry/mesh.py
+++ b/pvtrace/geometry/mesh.py
@@ -14,8 +14,10 @@ class Mesh(Geometry):
 
     def __init__(self, trimesh, material=None):
         super(Mesh, self).__init__()
-        trimesh.vertices -= trimesh.center_mass
-        self.trimesh = trimesh
+        # The copy leaves the mesh of the caller as it was, and computes its own face
+        # normals: those read from a file are only correct to single precision.
+        self.trimesh = trimesh.copy()
+        self.trimesh.vertices -= self.trimesh.center_mass
         self._material = material
 
     @property
-- 
2.43.0


From 0ad4c54f01ad1c218c30722cdca067cbed60fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 47/81] fix: reflectivity at the critical angle is not a number
 when rounding exceeds it

---
 pvtrace/material/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 5694542..34d42c8 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -11,7 +11,7 @@ def fresnel_reflectivity(angle, n1, n2):
         return 1.0
     c = np.cos(angle)
     s = np.sin(angle)
-    k = np.sqrt(1 - (n1 / n2 * s) ** 2)
+    k = np.sqrt(max(0.0, 1 - (n1 / n2 * s) ** 2))  # rounding at the critical angle
     Rs1 = n1 * c - n2 * k
     Rs2 = n1 * c + n2 * k
     Rs = (Rs1 / Rs2) ** 2
-- 
2.43.0


From 50b33e9e2de3c603b32dad3099fe705c91f89ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 48/81] fix: cone accepts negative half angles and values that
 are not numbers

---
 pvtrace/material/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 34d42c8..2eaf362 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -155,7 +155,7 @@ def cone(theta_max: float) -> numpy.ndarray:
         pdf = cdf / cdf.subs({theta: theta_max})
         inv_pdf = solve(Eq(pdf, p), theta)[-1]
     """
-    if np.isclose(theta_max, 0.0) or theta_max > np.pi / 2:
+    if np.isclose(theta_max, 0.0) or not 0.0 < theta_max <= np.pi / 2:
         raise ValueError("Expected 0 < theta_max <= pi/2")
     p1, p2 = np.random.uniform(0, 1, 2)
     theta = np.arcsin(np.sqrt(p1) * np.sin(theta_max))
-- 
2.43.0


From 8227e2fe42f74b59c8e9c9ddf1e613ab2fdcf213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 49/81] fix: time of lost, reacted and killed rays raises
 IndexError

---
 pvtrace/cli/time.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4a45856..93ef085 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -234,8 +234,7 @@ def lost(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when reacted in node")
@@ -270,8 +269,7 @@ def reacted(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when killed in node")
@@ -306,8 +304,7 @@ def killed(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 def main():
-- 
2.43.0


From 631ea0328bcd21db4ec7e4cfc6185b643041af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 50/81] fix: json output raises when a ray has more than one
 value and cuts times to 10 decimals

---
 pvtrace/cli/spectrum.py | 12 +++++++-----
 pvtrace/cli/time.py     | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pvtrace/cli/spectrum.py b/pvtrace/cli/spectrum.py
index 378ff3d..ad8dcc9 100644
--- a/pvtrace/cli/spectrum.py
+++ b/pvtrace/cli/spectrum.py
@@ -4,6 +4,7 @@ import numpy
 import pandas
 import enum
 import io
+import json
 import termplotlib as apl
 from typing import Optional
 from pathlib import Path
@@ -48,11 +49,12 @@ def handle_output(result, output, vertical=None):
         print(buffer.getvalue())
 
     if output == OutputChoice.json:
-        buffer = io.StringIO()
-        pandas.DataFrame(
-            result[:, 1], columns=["nanometers"], index=result[:, 0].astype(int)
-        ).to_json(buffer)
-        print(buffer.getvalue())
+        # Rays can have more than one value, they are given as a list
+        values = dict()
+        for throw_id, value in result.tolist():
+            values.setdefault(int(throw_id), []).append(value)
+        values = {k: v[0] if len(v) == 1 else v for k, v in values.items()}
+        print(json.dumps({"nanometers": values}))
 
 
 @app.command(short_help="Spectrum reflected by node")
diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 93ef085..b8545e9 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -4,6 +4,7 @@ import numpy
 import pandas
 import enum
 import io
+import json
 import termplotlib as apl
 from typing import Optional
 from pathlib import Path
@@ -48,11 +49,12 @@ def handle_output(result, output, vertical=None):
         print(buffer.getvalue())
 
     if output == OutputChoice.json:
-        buffer = io.StringIO()
-        pandas.DataFrame(
-            result[:, 1], columns=["seconds"], index=result[:, 0].astype(int)
-        ).to_json(buffer)
-        print(buffer.getvalue())
+        # Rays can have more than one value, they are given as a list
+        values = dict()
+        for throw_id, value in result.tolist():
+            values.setdefault(int(throw_id), []).append(value)
+        values = {k: v[0] if len(v) == 1 else v for k, v in values.items()}
+        print(json.dumps({"seconds": values}))
 
 
 @app.command(short_help="Time when reflected by node")
-- 
2.43.0


From a573588fe22293d2f1c74b08f667ac96437e6551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 51/81] fix: plots of spectra and times raise when the values
 are equal except for rounding

---
 pvtrace/cli/spectrum.py | 5 ++++-
 pvtrace/cli/time.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pvtrace/cli/spectrum.py b/pvtrace/cli/spectrum.py
index ad8dcc9..8153a59 100644
--- a/pvtrace/cli/spectrum.py
+++ b/pvtrace/cli/spectrum.py
@@ -31,7 +31,10 @@ def handle_output(result, output, vertical=None):
     # col 2: samples
     result = numpy.array(result)
     if output == OutputChoice.plot:
-        counts, bin_edges = numpy.histogram(result[:, 1])
+        try:
+            counts, bin_edges = numpy.histogram(result[:, 1])
+        except ValueError:  # the values are equal except for rounding
+            counts, bin_edges = numpy.histogram(result[:, 1], bins=1)
         fig = apl.figure()
 
         orientation = "horizontal"
diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index b8545e9..6461dc6 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -31,7 +31,10 @@ def handle_output(result, output, vertical=None):
     # col 2: samples
     result = numpy.array(result)
     if output == OutputChoice.plot:
-        counts, bin_edges = numpy.histogram(result[:, 1])
+        try:
+            counts, bin_edges = numpy.histogram(result[:, 1])
+        except ValueError:  # the values are equal except for rounding
+            counts, bin_edges = numpy.histogram(result[:, 1], bins=1)
         fig = apl.figure()
 
         orientation = "horizontal"
-- 
2.43.0


From 514188fdd5df62898425ee7915c90ff5dd781368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 52/81] fix: studio resolves the document's relative files from
 its own folder

---
 pvtrace/cli/parse.py     | 10 ++++++++--
 pvtrace/studio/server.py | 29 ++++++++++++-----------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 9c5982a..bd770df 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -71,12 +71,18 @@ def load_spec(filename):
 
 
 def parse(filename: str) -> Scene:
+    return parse_spec(load_spec(filename), os.path.dirname(filename))
+
+
+def parse_spec(spec: dict, working_directory: str) -> Scene:
+    """Validates a loaded scene document and builds its Scene; relative file
+    names in the document are resolved from `working_directory`.
+    """
     schema = load_schema()
-    spec = load_spec(filename)
     jsonschema.validate(spec, schema=schema)
     schema_version = spec["version"]
     if schema_version == "1.0":
-        return parse_v_1_0(spec, os.path.dirname(filename))
+        return parse_v_1_0(spec, working_directory)
     else:
         raise ValueError("Version {} not supported".format(schema_version))
 
diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e5f9de7..09ff1e3 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -8,7 +8,6 @@ results (recorder tallies and sampled ray paths) over a websocket.
 import asyncio
 import io
 import os
-import tempfile
 import time
 from pathlib import Path
 
@@ -19,7 +18,7 @@ from fastapi.responses import FileResponse, JSONResponse
 from fastapi.staticfiles import StaticFiles
 
 import pvtrace.engine as engine
-from pvtrace.cli.parse import parse as parse_scene_file
+from pvtrace.cli.parse import parse_spec
 from pvtrace.engine.recorder import Heatmap
 
 STATIC = Path(__file__).resolve().parent / "static"
@@ -42,10 +41,15 @@ class NoCacheStaticFiles(StaticFiles):
 
 
 class Studio:
-    """Holds the current document and its parsed scene."""
+    """Holds the current document and its parsed scene.
 
-    def __init__(self, document=""):
+    Relative file names in the document (meshes, spectra) are resolved
+    from `folder`, the folder the document was opened from.
+    """
+
+    def __init__(self, document="", folder=""):
         self.document = document
+        self.folder = folder
         self.scene = None
         self.spec = None
 
@@ -55,17 +59,7 @@ class Studio:
         if not isinstance(spec, dict):
             raise ValueError("Document is not a YAML mapping.")
 
-        # parse() validates against the JSON schema and reads from disk
-        with tempfile.NamedTemporaryFile(
-            "w", suffix=".yml", delete=False, dir=os.getcwd()
-        ) as fp:
-            fp.write(text)
-            path = fp.name
-        try:
-            scene = parse_scene_file(path)
-        finally:
-            os.unlink(path)
-
+        scene = parse_spec(spec, self.folder)  # validates against the schema
         compiled = engine.compile_scene(scene)  # raises if unsupported
 
         self.document = text
@@ -138,10 +132,11 @@ class Studio:
 
 def create_app(document_path=None):
     app = FastAPI(title="pvtrace studio")
-    text = ""
+    text, folder = "", ""
     if document_path:
         text = Path(document_path).read_text()
-    studio = Studio(text)
+        folder = os.path.dirname(os.path.abspath(document_path))
+    studio = Studio(text, folder)
 
     @app.get("/")
     async def index():
-- 
2.43.0


From 81d8f818e71f197eef55c633b3fc995febfdaf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 53/81] fix: studio refuses a document whose values its answer
 cannot carry

---
 pvtrace/studio/server.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 09ff1e3..1ca5be7 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -7,6 +7,7 @@ results (recorder tallies and sampled ray paths) over a websocket.
 """
 import asyncio
 import io
+import json
 import os
 import time
 from pathlib import Path
@@ -51,7 +52,6 @@ class Studio:
         self.document = document
         self.folder = folder
         self.scene = None
-        self.spec = None
 
     def apply(self, text):
         """Validate and parse a new document; returns the scene payload."""
@@ -61,17 +61,21 @@ class Studio:
 
         scene = parse_spec(spec, self.folder)  # validates against the schema
         compiled = engine.compile_scene(scene)  # raises if unsupported
+        payload = self.scene_payload(scene, spec, compiled)
+        # Raises for values JSON cannot carry (dates, infinities, ...), which
+        # must not become the current document
+        json.dumps(payload, allow_nan=False)
 
         self.document = text
         self.scene = scene
-        self.spec = spec
-        return self.scene_payload(compiled)
+        return payload
 
-    def scene_payload(self, compiled):
+    @staticmethod
+    def scene_payload(scene, spec, compiled):
         """Geometry description for the three.js viewport."""
         from anytree import PreOrderIter
 
-        node_specs = self.spec.get("nodes", {}) if self.spec else {}
+        node_specs = spec.get("nodes", {})
         nodes = []
         for i, name in enumerate(compiled.node_names):
             nodes.append(
@@ -87,21 +91,21 @@ class Studio:
                 }
             )
         lights = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             if node.light is not None:
-                matrix = np.asarray(node.transformation_to(self.scene.root))
+                matrix = np.asarray(node.transformation_to(scene.root))
                 lights.append({"name": node.name,
                                "matrix": matrix.T.ravel().tolist(),
                                "spec": node_specs.get(node.name, {})})
         recorders = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             auto_names = set()
             node_spec = node_specs.get(node.name, {})
             if node_spec.get("record"):
                 from pvtrace.cli.parse import auto_recorders
 
                 auto_names = set(auto_recorders(node.name, node_spec))
-            explicit = set((self.spec.get("recorders") or {})) if self.spec else set()
+            explicit = set(spec.get("recorders") or {})
             for recorder in getattr(node, "recorders", []):
                 histograms = []
                 for hist in recorder.histograms:
@@ -127,7 +131,7 @@ class Studio:
                             and recorder.name not in explicit,
                 })
         return {"nodes": nodes, "lights": lights, "recorders": recorders,
-                "spec": self.spec}
+                "spec": spec}
 
 
 def create_app(document_path=None):
-- 
2.43.0


From c6d418a2b9817c90789c107478aa21180b388867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 54/81] fix: structured edits write scalars that the parser
 reads as something else

---
 pvtrace/studio/server.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 1ca5be7..f98dea3 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -302,8 +302,18 @@ SNIPPETS = {
 
 def _round_trip_yaml():
     from ruamel.yaml import YAML
+    from ruamel.yaml.representer import RoundTripRepresenter
 
+    class Representer(RoundTripRepresenter):
+        """Writes new numbers so that PyYAML reads them back: 1.0e-05."""
+
+    def represent_float(representer, value):
+        text = yaml.safe_dump(value).split("\n")[0]
+        return representer.represent_scalar("tag:yaml.org,2002:float", text)
+
+    Representer.add_representer(float, represent_float)
     ryaml = YAML()
+    ryaml.Representer = Representer
     ryaml.preserve_quotes = True
     return ryaml
 
@@ -316,13 +326,26 @@ def _unique_name(existing, stem):
 
 
 def _flow(value):
-    """Lists render inline ([x, y, z]) like hand-written scene files."""
+    """Lists render inline ([x, y, z]) like hand-written scene files.
+
+    Text that PyYAML would read as something else (no, 1:30) is quoted;
+    ruamel, which writes YAML 1.2, would leave it plain.
+    """
     from ruamel.yaml.comments import CommentedSeq
+    from ruamel.yaml.scalarstring import SingleQuotedScalarString
 
     if isinstance(value, list):
-        seq = CommentedSeq(value)
+        seq = CommentedSeq([_flow(v) for v in value])
         seq.fa.set_flow_style()
         return seq
+    if isinstance(value, dict):
+        return {_flow(k): _flow(v) for k, v in value.items()}
+    if isinstance(value, str):
+        try:
+            plain = yaml.safe_load(value) == value
+        except yaml.YAMLError:
+            plain = False
+        return value if plain else SingleQuotedScalarString(value)
     return value
 
 
@@ -337,9 +360,9 @@ def _patch(studio, payload):
         path = payload["path"]
         for key in path[:-1]:
             if key not in target:
-                target[key] = {}
+                target[_flow(key)] = {}
             target = target[key]
-        target[path[-1]] = _flow(payload["value"])
+        target[_flow(path[-1])] = _flow(payload["value"])
 
     elif operation == "move":
         # World position from the viewport gizmo; location is relative
@@ -373,7 +396,7 @@ def _patch(studio, payload):
         recorders = data.setdefault("recorders", {})
         name = _unique_name(recorders, f"{node}-escaping")
         recorders[name] = {
-            "node": node,
+            "node": _flow(node),
             "event": "escaping",
             "histograms": {"wavelength": [400, 900, 80]},
         }
@@ -402,7 +425,7 @@ def _patch(studio, payload):
             bins_u = max(10, min(60, int(size[u_axis] * 10)))
             bins_v = max(10, min(60, int(size[v_axis] * 10)))
             recorders[name] = {
-                "node": node,
+                "node": _flow(node),
                 "event": "escaping",
                 "facet": _flow(facet),
                 "histograms": {
@@ -441,7 +464,7 @@ def _patch(studio, payload):
         for key, value in payload["changes"].items():
             if key not in ("event", "facet", "atol"):
                 raise ValueError(f"Cannot update recorder key {key!r}")
-            recorders[name][key] = _flow(value) if isinstance(value, list) else value
+            recorders[name][key] = _flow(value)
 
     elif operation == "delete-recorder":
         recorders = data.setdefault("recorders", {})
@@ -489,7 +512,7 @@ def _recorder_to_spec(studio, name):
                 else:
                     histograms[hist.prop] = _flow(
                         [hist.start, hist.stop, hist.bins])
-            spec = {"node": node.name, "event": recorder.event}
+            spec = {"node": _flow(node.name), "event": recorder.event}
             if recorder.facet is not None:
                 spec["facet"] = _flow(list(recorder.facet))
             spec["histograms"] = histograms
-- 
2.43.0


From a065d63ec8d9a8b415c7cdb78f09155a20c48183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 55/81] fix: studio cannot set a value inside a list

---
 pvtrace/studio/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index f98dea3..d74e5c5 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -359,7 +359,7 @@ def _patch(studio, payload):
         target = data
         path = payload["path"]
         for key in path[:-1]:
-            if key not in target:
+            if isinstance(target, dict) and key not in target:
                 target[_flow(key)] = {}
             target = target[key]
         target[_flow(path[-1])] = _flow(payload["value"])
-- 
2.43.0


From f3ef0b0bd1e062a743e5a930bdde155f0f91dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 56/81] fix: studio's face recorders never match the faces of a
 turned box

---
 pvtrace/studio/server.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index d74e5c5..71121b4 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -403,10 +403,14 @@ def _patch(studio, payload):
 
     elif operation == "add-face-recorders":
         # One escaping recorder with a position heatmap per box face
+        from anytree import PreOrderIter
+
         node = payload["node"]
         node_spec = data.get("nodes", {}).get(node)
         if not node_spec or "box" not in node_spec:
             raise ValueError("Face recorders require a box node.")
+        # Facets are normals in the world frame
+        box = {n.name: n for n in PreOrderIter(studio.scene.root)}[node]
         size = [float(v) for v in node_spec["box"]["size"]]
         half = [s / 2.0 for s in size]
         axes = "xyz"
@@ -427,7 +431,10 @@ def _patch(studio, payload):
             recorders[name] = {
                 "node": _flow(node),
                 "event": "escaping",
-                "facet": _flow(facet),
+                "facet": _flow([
+                    round(float(v), 9)
+                    for v in box.vector_to_node(facet, studio.scene.root)
+                ]),
                 "histograms": {
                     "position": _flow([
                         axes[u_axis], axes[v_axis],
-- 
2.43.0


From f6884db5f6ffc79b15d489c1ae6b9731a7b004c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 57/81] fix: an upload that cannot be encoded destroys the file
 of that name

---
 pvtrace/studio/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 71121b4..2b44204 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -168,8 +168,12 @@ def create_app(document_path=None):
         if not name or not name.lower().endswith((".csv", ".txt")):
             return JSONResponse({"error": "Only .csv or .txt files."},
                                 status_code=422)
+        try:
+            content = payload["content"].encode("utf-8")
+        except UnicodeEncodeError as exception:
+            return JSONResponse({"error": str(exception)}, status_code=422)
         target = Path(document_path).parent / name
-        target.write_text(payload["content"])
+        target.write_bytes(content)
         return {"saved": name}
 
     @app.post("/api/save")
-- 
2.43.0


From 287aeca1c5191be59dd236b2a3db57e28b6f0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 58/81] fix: studio refuses a document whose names its answer
 cannot encode

---
 pvtrace/studio/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 2b44204..698e5a7 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -64,7 +64,7 @@ class Studio:
         payload = self.scene_payload(scene, spec, compiled)
         # Raises for values JSON cannot carry (dates, infinities, ...), which
         # must not become the current document
-        json.dumps(payload, allow_nan=False)
+        json.dumps(payload, allow_nan=False, ensure_ascii=False).encode("utf-8")
 
         self.document = text
         self.scene = scene
-- 
2.43.0


From e8206029eaf80cd15cad701e9ced4da5ee10d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 59/81] fix: studio runs interfere with each other and never
 report their errors

---
 pvtrace/studio/server.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 698e5a7..da4245a 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -201,10 +201,10 @@ def create_app(document_path=None):
     @app.websocket("/ws")
     async def websocket(ws: WebSocket):
         await ws.accept()
-        stop = {"flag": False}
+        stop = None
         task = None
 
-        async def run(params):
+        async def run(params, scene, stop):
             loop = asyncio.get_running_loop()
             num_rays = int(params.get("rays", 100000))
             bundle = int(params.get("bundle", 25000))
@@ -212,7 +212,7 @@ def create_app(document_path=None):
             record_every = int(params.get("record_every", 1000))
             max_paths = int(params.get("max_paths", 200))
 
-            compiled = engine.compile_scene(studio.scene)
+            compiled = engine.compile_scene(scene)
             hist_meta = _histogram_meta(compiled)
             await ws.send_json({"type": "started", "total": num_rays,
                                 "histograms": hist_meta})
@@ -226,12 +226,12 @@ def create_app(document_path=None):
             tic = time.perf_counter()
 
             stream = engine.simulate_stream(
-                studio.scene, num_rays, bundle=bundle, seed=seed,
+                scene, num_rays, bundle=bundle, seed=seed,
                 record_every=record_every,
             )
             while True:
                 item = await loop.run_in_executor(None, next, stream, None)
-                if item is None or stop["flag"]:
+                if item is None or stop.is_set():
                     break
                 result, traced = item
                 distinct += result.data["rec_distinct"]
@@ -258,6 +258,14 @@ def create_app(document_path=None):
             await ws.send_json({"type": "done",
                                 "elapsed": time.perf_counter() - tic})
 
+        async def report(params, scene, stop):
+            try:
+                await run(params, scene, stop)
+            except WebSocketDisconnect:
+                pass
+            except Exception as exception:
+                await ws.send_json({"type": "error", "message": str(exception)})
+
         try:
             while True:
                 message = await ws.receive_json()
@@ -267,13 +275,19 @@ def create_app(document_path=None):
                         await ws.send_json({"type": "error",
                                             "message": "Apply a scene first."})
                         continue
-                    stop["flag"] = False
-                    task = asyncio.create_task(run(message))
-                elif command == "stop":
-                    stop["flag"] = True
+                    if task:
+                        # One run at a time: end the previous one first
+                        stop.set()
+                        await task
+                    stop = asyncio.Event()
+                    task = asyncio.create_task(
+                        report(message, studio.scene, stop)
+                    )
+                elif command == "stop" and task:
+                    stop.set()
         except WebSocketDisconnect:
-            stop["flag"] = True
             if task:
+                stop.set()
                 task.cancel()
 
     app.mount("/static", NoCacheStaticFiles(directory=STATIC), name="static")
-- 
2.43.0


From ccb2e9a7a984821ffab365e64de58c00655d7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 60/81] fix: simulate_stream with a bundle size below one never
 ends

---
 pvtrace/engine/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 38ae3c6..a917135 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -256,6 +256,8 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     same seed. Accumulate recorder tallies across bundles by summing
     the `rec_*` arrays.
     """
+    if bundle < 1:
+        raise ValueError("The bundle size must be at least one.")
     if seed is None:
         seed = np.random.randint(0, 2 ** 31 - 1)
     traced = 0
-- 
2.43.0


From 92a6facb8e91a89922c3c5514c4b1e078d1a1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 61/81] fix: an upload whose name cannot be written answers
 with a server error

---
 pvtrace/studio/server.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index da4245a..9384e07 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -168,12 +168,11 @@ def create_app(document_path=None):
         if not name or not name.lower().endswith((".csv", ".txt")):
             return JSONResponse({"error": "Only .csv or .txt files."},
                                 status_code=422)
+        target = Path(document_path).parent / name
         try:
-            content = payload["content"].encode("utf-8")
-        except UnicodeEncodeError as exception:
+            target.write_bytes(payload["content"].encode("utf-8"))
+        except (OSError, ValueError) as exception:
             return JSONResponse({"error": str(exception)}, status_code=422)
-        target = Path(document_path).parent / name
-        target.write_bytes(content)
         return {"saved": name}
 
     @app.post("/api/save")
-- 
2.43.0


From 17538e3a02a04bd430ab938aaf443adf1a3d0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 62/81] fix: structured edits of commented documents can write
 broken YAML

---
 pvtrace/studio/server.py | 54 ++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 9384e07..d1a0a6f 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -366,6 +366,39 @@ def _flow(value):
     return value
 
 
+def _assign(target, key, value):
+    """Sets an entry of the document.
+
+    A list takes the style of what it replaces: ruamel writes broken
+    YAML when comments of a block collection are left behind at an inline one.
+    """
+    from ruamel.yaml.comments import CommentedBase, CommentedSeq
+
+    value = _flow(value)
+    try:
+        previous = target[key]
+    except (KeyError, IndexError):
+        previous = None
+    if (isinstance(previous, CommentedBase) and not previous.fa.flow_style()
+            and isinstance(value, CommentedSeq)):
+        if value:
+            value.fa.set_block_style()
+        else:
+            target.ca.items.pop(key, None)
+    target[_flow(key)] = value
+
+
+def _remove(data, section, name):
+    """Removes an entry from a section of the document.
+
+    ruamel misplaces the braces of a section emptied in place when it has
+    comments, so an empty section is replaced.
+    """
+    del data[section][name]
+    if not data[section]:
+        data[section] = {}
+
+
 def _patch(studio, payload):
     """Returns new document text for a structured edit; does not apply it."""
     ryaml = _round_trip_yaml()
@@ -379,7 +412,7 @@ def _patch(studio, payload):
             if isinstance(target, dict) and key not in target:
                 target[_flow(key)] = {}
             target = target[key]
-        target[_flow(path[-1])] = _flow(payload["value"])
+        _assign(target, path[-1], payload["value"])
 
     elif operation == "move":
         # World position from the viewport gizmo; location is relative
@@ -393,9 +426,8 @@ def _patch(studio, payload):
         if node.parent is None:
             raise ValueError("Cannot move the root node.")
         local = studio.scene.root.point_to_node(tuple(world), node.parent)
-        data["nodes"][name]["location"] = _flow(
-            [round(float(v), 6) for v in local]
-        )
+        _assign(data["nodes"][name], "location",
+                [round(float(v), 6) for v in local])
 
     elif operation == "add-node":
         kind = payload["kind"]
@@ -468,15 +500,15 @@ def _patch(studio, payload):
 
     elif operation == "delete-component":
         name = payload["component"]
-        del data["components"][name]
+        _remove(data, "components", name)
         # Remove references from node materials
         for node_spec in data.get("nodes", {}).values():
             for geom in ("box", "sphere", "cylinder", "mesh"):
                 material = node_spec.get(geom, {}).get("material", {})
                 if name in (material.get("components") or []):
-                    material["components"] = [
+                    _assign(material, "components", [
                         c for c in material["components"] if c != name
-                    ]
+                    ])
 
     elif operation == "update-recorder":
         # Edits to auto recorders (from record: true) materialise them
@@ -488,12 +520,12 @@ def _patch(studio, payload):
         for key, value in payload["changes"].items():
             if key not in ("event", "facet", "atol"):
                 raise ValueError(f"Cannot update recorder key {key!r}")
-            recorders[name][key] = _flow(value)
+            _assign(recorders[name], key, value)
 
     elif operation == "delete-recorder":
         recorders = data.setdefault("recorders", {})
         if payload["recorder"] in recorders:
-            del recorders[payload["recorder"]]
+            _remove(data, "recorders", payload["recorder"])
         else:
             # Hide an auto recorder by materialising nothing: turn off
             # record: on its node is the way; report it clearly instead.
@@ -504,10 +536,10 @@ def _patch(studio, payload):
 
     elif operation == "delete-node":
         name = payload["node"]
-        del data["nodes"][name]
+        _remove(data, "nodes", name)
         for rec_name in list((data.get("recorders") or {})):
             if data["recorders"][rec_name].get("node") == name:
-                del data["recorders"][rec_name]
+                _remove(data, "recorders", rec_name)
 
     else:
         raise ValueError(f"Unknown operation {operation!r}")
-- 
2.43.0


From 144e833c1cf78a0fe429f3d25d6fe4fe3ab620b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 63/81] fix: which histories are kept while streaming depends
 on the bundle size

---
 pvtrace/engine/_kernel.pyx | 17 ++++++++++-------
 pvtrace/engine/api.py      | 19 ++++++++++++++-----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index dde5d1d..1b54db3 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -951,19 +951,21 @@ def trace_bundle(
     int emit_method,
     int num_threads,
     long record_every,
+    long record_start=0,
 ):
     """Trace a bundle of rays and return packed event arrays and tallies.
 
-    Every `record_every`-th ray gets a full event history (all rays when
-    1, none when 0); recorders tally every ray regardless. The returned
+    Every `record_every`-th ray from `record_start` gets a full event
+    history (all rays when 1, none when 0); recorders tally every ray
+    regardless. The returned
     dict contains per-recorded-ray event counts, flat per-event fields
     (the row for event `k` of recorded ray `j` is `j * max_events + k`)
     and the merged recorder accumulators.
     """
     cdef long n = positions.shape[0]
     cdef long n_recorded = 0
-    if record_every > 0:
-        n_recorded = (n + record_every - 1) // record_every
+    if record_every > 0 and n > record_start:
+        n_recorded = (n - record_start + record_every - 1) // record_every
     cdef long rows = n_recorded * max_events
 
     if compiled.geom_type.shape[0] > MAX_NODES:
@@ -1114,8 +1116,9 @@ def trace_bundle(
     with nogil:
         for i in prange(n, num_threads=nthr, schedule="dynamic", chunksize=64):
             tid = threadid()
-            if record_every > 0 and i % record_every == 0:
-                base = (i // record_every) * max_events
+            if (record_every > 0 and i >= record_start
+                    and (i - record_start) % record_every == 0):
+                base = ((i - record_start) // record_every) * max_events
             else:
                 base = -1
             nev = trace_one(
@@ -1132,7 +1135,7 @@ def trace_bundle(
                 emit_method,
             )
             if base >= 0:
-                countp[i // record_every] = nev
+                countp[(i - record_start) // record_every] = nev
 
     return {
         "counts": counts[:n_recorded],
diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index a917135..e5f2d17 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -90,12 +90,14 @@ class EngineResult:
     `(Ray, Event, metadata)` tuples.
     """
 
-    def __init__(self, compiled, data, sources, max_events, record_every, elapsed):
+    def __init__(self, compiled, data, sources, max_events, record_every, elapsed,
+                 record_start=0):
         self.compiled = compiled
         self.data = data
         self.sources = sources
         self.max_events = max_events
         self.record_every = record_every
+        self.record_start = record_start
         self.elapsed = elapsed
 
     @property
@@ -113,7 +115,9 @@ class EngineResult:
         """Original ray index of each recorded history."""
         if self.record_every <= 0:
             return np.zeros(0, dtype=np.int64)
-        return np.arange(0, self.num_rays, self.record_every, dtype=np.int64)
+        return np.arange(
+            self.record_start, self.num_rays, self.record_every, dtype=np.int64
+        )
 
     @property
     def recorders(self):
@@ -211,8 +215,8 @@ def simulate(
     all light delegates are supported); the tracing loop runs in native
     code. Recorders attached to scene nodes tally every ray; full event
     histories are kept for every `record_every`-th ray (all rays when 1,
-    none when 0). Light sources take turns as if `first_ray` rays had
-    already been emitted. Raises `UnsupportedSceneError` if the scene cannot be
+    none when 0). Light sources take turns, and histories are kept, as if
+    `first_ray` rays had already been emitted. Raises `UnsupportedSceneError` if the scene cannot be
     compiled — callers can fall back to the Python tracer.
     """
     from pvtrace.engine import _kernel
@@ -231,6 +235,8 @@ def simulate(
 
     positions, directions, wavelengths, sources = emit_bundle(scene, num_rays, first_ray)
 
+    # The first of these rays whose history is kept
+    record_start = -first_ray % record_every if record_every > 0 else 0
     tic = time.perf_counter()
     data = _kernel.trace_bundle(
         compiled,
@@ -243,9 +249,12 @@ def simulate(
         EMIT_METHODS[emit_method],
         int(workers),
         int(record_every),
+        int(record_start),
     )
     elapsed = time.perf_counter() - tic
-    return EngineResult(compiled, data, sources, max_events, record_every, elapsed)
+    return EngineResult(
+        compiled, data, sources, max_events, record_every, elapsed, record_start
+    )
 
 
 def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
-- 
2.43.0


From 261cc7c784df14da8b3e9c05ffa34cd761921e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 64/81] fix: an LSC forgets the wavelength range it is given

---
 pvtrace/device/lsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index df5116c..45c3679 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -95,8 +95,9 @@ class LSC(object):
     def __init__(self, size, wavelength_range=None, n0=1.0, n1=1.5):
         super(LSC, self).__init__()
         if wavelength_range is None:
-            self.wavelength_range = np.arange(400, 800)
+            wavelength_range = np.arange(400, 800)
 
+        self.wavelength_range = wavelength_range
         self.size = size  # centimetres
         self.n0 = n0
         self.n1 = n1
-- 
2.43.0


From 6963a0fa574bd8d9269d842e7bdd8014e5e55575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 65/81] fix: an LSC cannot have scatterers

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 45c3679..4129cee 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,4 +1,4 @@
-from pvtrace.material.component import Absorber, Luminophore
+from pvtrace.material.component import Absorber, Luminophore, Scatterer
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
 from pvtrace.scene.node import Node
-- 
2.43.0


From 8844a69d47d989daa25511e30ecdc7e7cf5e276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 66/81] fix: the specular air gap mirror of an LSC does not
 reflect

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4129cee..3a3c94c 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -73,7 +73,7 @@ class AirGapMirror(FresnelSurfaceDelegate):
     def reflected_direction(self, surface, ray, geometry, container, adjacent):
         if not self.lsc._air_gap_mirror_info["lambertian"]:
             # Specular reflection
-            return super(AirGapMirror, self).transmitted_direction(
+            return super(AirGapMirror, self).reflected_direction(
                 surface, ray, geometry, container, adjacent
             )
         else:
-- 
2.43.0


From c151677b6ccab6b5c77ca67136c4c875ce49b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 67/81] fix: an LSC cannot be simulated with pandas 2, which
 has no DataFrame.append

---
 pvtrace/device/lsc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 3a3c94c..3604a57 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -380,22 +380,23 @@ class LSC(object):
     def _make_dataframe(self):
 
         # to-do: Only need to process additional rays not whole dataframe! Optimise!
-        df = pd.DataFrame()
+        rows = []
 
         # Rays entering the scene
         for ray, event in self._store["entrance_rays"]:
             rep = asdict(ray)
             rep["kind"] = "entrance"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
         # Rays exiting the scene
         for ray, event in self._store["exit_rays"]:
             rep = asdict(ray)
             rep["kind"] = "exit"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
+        df = pd.DataFrame(rows)
         self._df = df
         return df
 
-- 
2.43.0


From ad0fff8eaf0ffd70eeb3eeb3580be4b37749e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 68/81] fix: an LSC cannot be simulated a second time

---
 pvtrace/device/lsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 3604a57..c22f16e 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -342,7 +342,8 @@ class LSC(object):
         scene = self._scene
 
         # Simulate can be called multiple time to append rays to the store
-        if self._store is None:
+        store = self._store
+        if store is None:
             store = {"entrance_rays": [], "exit_rays": []}
 
         vis = self._renderer
-- 
2.43.0


From 7e59cd971e22fc1f8749a33679af5d4cea84143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 69/81] fix: the counts of an LSC leave out rays of later
 simulations

---
 pvtrace/device/lsc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index c22f16e..8a05e51 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -370,6 +370,7 @@ class LSC(object):
                 progress(count)
 
         self._store = store
+        self._counts = None
         print("Tracing finished.")
         print("Preparing results.")
         df = self._make_dataframe()
-- 
2.43.0


From 7580dd339a5ff28aae8b67e97ab16906225a49e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 70/81] fix: rays absorbed in an LSC are not counted as lost

---
 pvtrace/device/lsc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 8a05e51..d77803d 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -352,7 +352,10 @@ class LSC(object):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
             rays, events = zip(*history)
             store["entrance_rays"].append((rays[1], events[1]))
-            if events[-1] in (Event.ABSORB, Event.KILL):
+            if events[-1] in (Event.NONRADIATIVE, Event.REACT):
+                # final event is the outcome of an absorption, which is a loss
+                store["exit_rays"].append((rays[-1], Event.ABSORB))
+            elif events[-1] == Event.KILL:
                 # final event is a lost store path information at final event
                 store["exit_rays"].append((rays[-1], events[-1]))
             elif events[-1] == Event.EXIT:
-- 
2.43.0


From 2a24410b785a13a2659b35c55ea4e3d91b47434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 71/81] fix: the results of an LSC swap the near and far facets

---
 pvtrace/device/lsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index d77803d..40a124d 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -454,8 +454,8 @@ class LSC(object):
         zmin, zmax = -0.5 * height, 0.5 * height
         df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
         df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
         df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
         df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
-- 
2.43.0


From 336ed7cc45823fb24470ae6a1f41aa4599ac38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 72/81] fix: the facets of an LSC count rays that do not cross
 them

---
 pvtrace/device/lsc.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 40a124d..6b48558 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -452,12 +452,22 @@ class LSC(object):
         xmin, xmax = -0.5 * length, 0.5 * length
         ymin, ymax = -0.5 * width, 0.5 * width
         zmin, zmax = -0.5 * height, 0.5 * height
-        df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
-        df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
-        df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
+        x, y, z = df["position_x"], df["position_y"], df["position_z"]
+
+        # Rays which are emitted, lost or not at the box do not cross a facet
+        crossing = (
+            df["event"].isin({"reflect", "transmit"})
+            & ((x.abs() < xmax) | np.isclose(x.abs(), xmax, atol=EPS_ZERO))
+            & ((y.abs() < ymax) | np.isclose(y.abs(), ymax, atol=EPS_ZERO))
+            & ((z.abs() < zmax) | np.isclose(z.abs(), zmax, atol=EPS_ZERO))
+        )
+        df["facet"] = None
+        df.loc[crossing & np.isclose(x, xmin, atol=EPS_ZERO), "facet"] = "left"
+        df.loc[crossing & np.isclose(x, xmax, atol=EPS_ZERO), "facet"] = "right"
+        df.loc[crossing & np.isclose(y, ymin, atol=EPS_ZERO), "facet"] = "near"
+        df.loc[crossing & np.isclose(y, ymax, atol=EPS_ZERO), "facet"] = "far"
+        df.loc[crossing & np.isclose(z, zmin, atol=EPS_ZERO), "facet"] = "bottom"
+        df.loc[crossing & np.isclose(z, zmax, atol=EPS_ZERO), "facet"] = "top"
         return df
 
     def _make_counts(self, df):
-- 
2.43.0


From db4582f40706f61bfde971869e6a7b8552d6e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 73/81] fix: the renderer shows max_histories histories, not
 one less

A new history was removed again when max_histories is one, the default of the
command line.
---
 pvtrace/scene/renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9f9df80..5d66d8d 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -39,7 +39,7 @@ class MeshcatRenderer(object):
         self.vis = meshcat.Visualizer(zmq_url=zmq_url)
         if open_browser:
             self.vis.open()
-        self.ray_histories = deque(maxlen=max_histories)
+        self.ray_histories = deque()
         self.max_histories = max_histories
         self.added_index = 0
         self.wireframe = wireframe
@@ -321,7 +321,7 @@ class MeshcatRenderer(object):
                     ids.append(baubid)
 
         self.ray_histories.append(ids)
-        if len(self.ray_histories) == self.max_histories:
+        if self.max_histories is not None and len(self.ray_histories) > self.max_histories:
             ids_to_remove = self.ray_histories.popleft()
             for id_to_remove in ids_to_remove:
                 self.remove_object(id_to_remove)
-- 
2.43.0


From 50ab5dacdf2877b50c09c33414e5bbf16074b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 74/81] fix: the baubles of a history are removed with it

The identifiers returned for them named other objects.
---
 pvtrace/scene/renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 5d66d8d..4023494 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -309,14 +309,14 @@ class MeshcatRenderer(object):
             if baubles:
                 event = start_part[1]
                 if event in {Event.TRANSMIT}:
-                    baubid = self.get_next_identifer()
-                    vis[f"exit/{baubid}"].set_object(
+                    baubid = f"exit/{self.get_next_identifer()}"
+                    vis[baubid].set_object(
                         g.Sphere(bauble_radius),
                         g.MeshBasicMaterial(
                             color=colour, transparency=False, opacity=1
                         ),
                     )
-                    vis[f"exit/{baubid}"].set_transform(tf.translation_matrix(start))
+                    vis[baubid].set_transform(tf.translation_matrix(start))
 
                     ids.append(baubid)
 
-- 
2.43.0


From 7039581fcf164123fb3c01e0e5541739c29a3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 75/81] fix: only the segment to the world node is drawn short

Rays which end by absorption or by the step budget were drawn past their end.
---
 pvtrace/scene/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 4023494..9abb17b 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -298,7 +298,7 @@ class MeshcatRenderer(object):
             start = start_ray.position
             end = end_ray.position
             if world_segment == "short":
-                if end_ray == history[-1][0]:
+                if end_part[1] == Event.EXIT:
                     end = (
                         np.array(start_ray.position)
                         + np.array(start_ray.direction) * short_length
-- 
2.43.0


From 6ec623d240b9034128e1295eb24d2a592715eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 76/81] fix: nodes with a slash in their name are shown where
 they are

Meshcat takes the slash for a parent and its child, whose transforms it combines.
---
 pvtrace/scene/renderer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9abb17b..30fdd19 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -59,7 +59,8 @@ class MeshcatRenderer(object):
         # Using a dot here as a quick fix to _avoid_ Meshcat automatically
         # transforming the parent coordinate system. If you use `"/"` then
         # you would get that behaviour.
-        pathname = " | ".join([x.name for x in node.path])
+        # A slash in a name would make the node a child of another object.
+        pathname = " | ".join([x.name for x in node.path]).replace("/", "\u2215")
         if node.geometry is not None:
             # Transforming everything to global
             self.add_geometry(
-- 
2.43.0


From 038a738d020643966acbf65a6cb22810c0c74f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 77/81] fix: baubles mark the last exit also without the
 segment to the world

---
 pvtrace/scene/renderer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 30fdd19..7312ec1 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -307,9 +307,10 @@ class MeshcatRenderer(object):
             colour = wavelength_to_hex_int(nanometers)
             ids.append(self.add_line_segment(start, end, colour=colour))
 
-            if baubles:
-                event = start_part[1]
+        if baubles:
+            for ray, event in history:
                 if event in {Event.TRANSMIT}:
+                    colour = wavelength_to_hex_int(ray.wavelength)
                     baubid = f"exit/{self.get_next_identifer()}"
                     vis[baubid].set_object(
                         g.Sphere(bauble_radius),
@@ -317,7 +318,7 @@ class MeshcatRenderer(object):
                             color=colour, transparency=False, opacity=1
                         ),
                     )
-                    vis[baubid].set_transform(tf.translation_matrix(start))
+                    vis[baubid].set_transform(tf.translation_matrix(ray.position))
 
                     ids.append(baubid)
 
-- 
2.43.0


From f6edc3b50d6b5084a3f08670a55365fc9c25dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 78/81] fix: the last ray of a simulation is rendered too when
 its turn has come

---
 pvtrace/cli/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvtrace/cli/main.py b/pvtrace/cli/main.py
index 4d6a5c6..5e5c151 100644
--- a/pvtrace/cli/main.py
+++ b/pvtrace/cli/main.py
@@ -117,6 +117,10 @@ def monitor_queue(
         if stop.is_set() and queue.empty():
             connection.close()
             if renderer:
+                # No more events will come for the last rays
+                for rest in history.values():
+                    if len(rest) > 1:
+                        renderer.add_history(rest)
                 del renderer
             return
 
-- 
2.43.0


From cbbac84c27d8ac3457682b4c903197b54635cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 79/81] fix: measure distances to small meshes at a size near
 one

---
 pvtrace/geometry/mesh.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pvtrace/geometry/mesh.py b/pvtrace/geometry/mesh.py
index 3bad7fb..c5c2110 100644
--- a/pvtrace/geometry/mesh.py
+++ b/pvtrace/geometry/mesh.py
@@ -19,6 +19,7 @@ class Mesh(Geometry):
         self.trimesh = trimesh.copy()
         self.trimesh.vertices -= self.trimesh.center_mass
         self._material = material
+        self._scaled = None
 
     @property
     def material(self):
@@ -28,6 +29,22 @@ class Mesh(Geometry):
     def material(self, new_value):
         self._material = new_value
 
+    def _nearest(self, point: tuple) -> tuple:
+        """ Returns the distance to the surface and the index of the nearest face.
+
+        Measured on a copy with a size near one, because trimesh compares with
+        absolute tolerances and finds the wrong points on small meshes.
+        """
+        mesh = self.trimesh
+        if self._scaled is None or self._scaled[0] != hash(mesh):
+            factor = 2.0 ** -np.round(np.log2(mesh.scale))
+            self._scaled = hash(mesh), factor, mesh.copy().apply_scale(factor)
+        _, factor, scaled = self._scaled
+        _, distances, triangle_id = scaled.nearest.on_surface(
+            np.array([point]) * factor
+        )
+        return distances[0] / factor, triangle_id[0]
+
     def contains(self, point: tuple) -> bool:
         """ Return True if the point is inside the shape.
         """
@@ -35,12 +52,8 @@ class Mesh(Geometry):
 
     def is_on_surface(self, point: tuple) -> bool:
         """Returns `True` is the point is on the surface."""
-        mesh = self.trimesh
-        closest_points, distances, triangle_id = mesh.nearest.on_surface(
-            np.array([point])
-        )
-        flag = np.any(np.absolute(distances) < rounding(mesh.bounds))
-        return flag
+        distance, _ = self._nearest(point)
+        return distance < rounding(self.trimesh.bounds)
 
     def intersections(self, position: tuple, direction: tuple) -> Sequence[tuple]:
         """Returns tuple of intersection points sorted by distance from origin.
@@ -65,24 +78,18 @@ class Mesh(Geometry):
         """ Returns the unit surface normal at the surface_point.
         """
         mesh = self.trimesh
-        (closest_points, distances, triangle_id) = mesh.nearest.on_surface(
-            np.array([surface_point])
-        )
-        if closest_points.shape != (1, 3):
-            raise GeometryError(
-                "Mesh must have a single closest point to calculate normal."
-            )
-        if not np.any(np.absolute(distances) < rounding(mesh.bounds)):
+        distance, triangle_id = self._nearest(surface_point)
+        if not distance < rounding(mesh.bounds):
             raise GeometryError(
                 "Point is not on surface.",
                 {
                     "point": surface_point,
                     "geometry": self,
-                    "distances": distances,
+                    "distance": distance,
                     "threshold": rounding(mesh.bounds),
                 },
             )
-        normal = tuple(mesh.face_normals[triangle_id[0]])
+        normal = tuple(mesh.face_normals[triangle_id])
         return normal
 
     def is_entering(self, surface_point: tuple, direction: tuple) -> bool:
-- 
2.43.0


From c02f2af411c022e01fd953fc73cede67c1a1c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:44 +0000
Subject: [PATCH 80/81] fix: absorb rays on their way to the boundary of the
 root node too

---
 pvtrace/algorithm/photon_tracer.py | 23 +++++++++---------
 pvtrace/engine/_kernel.pyx         | 38 +++++++++++++++---------------
 2 files changed, 30 insertions(+), 31 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index d8087f6..bd18321 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -202,18 +202,6 @@ def step_forward(scene, ray, maxsteps=1000, maxpathlength=np.inf, emit_method="k
             break
 
         refractive_index = container.geometry.material.refractive_index
-        if hit is scene.root:
-            yield (
-                ray.propagate(full_distance, refractive_index),
-                Event.EXIT,
-                {
-                    "hit": hit.name,
-                    "container": container.name,
-                    "adjacent": None if adjacent is None else adjacent.name,
-                },
-            )
-            break
-
         material = container.geometry.material
         absorbed, at_distance = material.is_absorbed(ray, full_distance)
         if absorbed:
@@ -260,6 +248,17 @@ def step_forward(scene, ray, maxsteps=1000, maxpathlength=np.inf, emit_method="k
                         {"component": component.name, "container": container.name},
                     )
                 break
+        elif hit is scene.root:
+            yield (
+                ray.propagate(full_distance, refractive_index),
+                Event.EXIT,
+                {
+                    "hit": hit.name,
+                    "container": container.name,
+                    "adjacent": None if adjacent is None else adjacent.name,
+                },
+            )
+            break
         else:
             ray = ray.propagate(full_distance, refractive_index)
             surface = hit.geometry.material.surface
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 1b54db3..d114415 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -764,25 +764,6 @@ cdef int trace_one(
 
         n_container = S.nidx[container]
 
-        # --- exit through the root boundary ---------------------------
-        if hit == S.root:
-            for i in range(3):
-                pos[i] = pos[i] + direction[i] * t0
-            travelled += t0
-            duration += t0 * n_container / C_CM_PER_S
-            record(elog, base, &nevents, EV_EXIT, hit, container, adjacent, -1, source,
-                   pos, direction, NULL, wavelength, travelled, duration)
-            if S.n_recorders > 0:
-                transform_point(S.w2l + hit * 16, pos, local_p)
-                local_normal(S, hit, local_p, nrm_local)
-                transform_vector(S.l2w + hit * 16, nrm_local, nrm)
-                ddot = fabs(dot3(nrm, direction))
-                if ddot > 1.0:
-                    ddot = 1.0
-                tally(S, AB, tid, REC_EXIT, hit, rseen, nrm,
-                      local_p, acos(ddot), wavelength, travelled, duration)
-            break
-
         # --- volume absorption ----------------------------------------
         cbase = S.comp_start[container]
         ccount = S.comp_count[container]
@@ -871,6 +852,25 @@ cdef int trace_one(
                           local_p, 0.0, wavelength, travelled, duration)
                 break
 
+        # --- exit through the root boundary ---------------------------
+        if hit == S.root:
+            for i in range(3):
+                pos[i] = pos[i] + direction[i] * t0
+            travelled += t0
+            duration += t0 * n_container / C_CM_PER_S
+            record(elog, base, &nevents, EV_EXIT, hit, container, adjacent, -1, source,
+                   pos, direction, NULL, wavelength, travelled, duration)
+            if S.n_recorders > 0:
+                transform_point(S.w2l + hit * 16, pos, local_p)
+                local_normal(S, hit, local_p, nrm_local)
+                transform_vector(S.l2w + hit * 16, nrm_local, nrm)
+                ddot = fabs(dot3(nrm, direction))
+                if ddot > 1.0:
+                    ddot = 1.0
+                tally(S, AB, tid, REC_EXIT, hit, rseen, nrm,
+                      local_p, acos(ddot), wavelength, travelled, duration)
+            break
+
         # --- surface interaction --------------------------------------
         for i in range(3):
             pos[i] = pos[i] + direction[i] * t0
-- 
2.43.0


From 25fbe36f97124d89ba1c2717ea697d0ca641e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:24 +0000
Subject: [PATCH 81/81] fix: end named spectra at the maximum of their range

---
 pvtrace/cli/parse.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index bd770df..cc99da1 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -229,11 +229,13 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         )
 
     def load_named_spectrum(spec, named_type) -> Optional[numpy.ndarray]:
-        x = np.arange(
-            spec["range"]["min"],
-            spec["range"]["max"] + spec["range"]["spacing"],
-            spec["range"]["spacing"],
-        )
+        low, high = spec["range"]["min"], spec["range"]["max"]
+        spacing = spec["range"]["spacing"]
+        # Rounding must neither leave out the maximum nor add a step beyond it
+        steps = int(np.ceil(np.round((high - low) / spacing, 9)))
+        x = low + spacing * np.arange(steps + 1.0)
+        if abs(x[-1] - high) <= 1e-9 * spacing:
+            x[-1] = high
         module = SPECTRUM_MODULES[spec["name"]]
         if named_type == "absorption":
             return np.column_stack((x, module.absorption(x)))
-- 
2.43.0

