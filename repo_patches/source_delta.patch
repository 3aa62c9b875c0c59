From 05f981441c50e7a4092e20945a44c7954a0bac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 1/7] fix: finite gradients of normalize at the zero vector

The square root of zero was differentiated before being masked, so any loss
involving a zero-length wall or path segment had NaN gradients.
---
 differt2d/geometry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index d65e811..c77402a 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -224,8 +224,11 @@ def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array
     >>> normalize(zero)  # Special behavior at 0.
     (Array([0., 0.], dtype=float32), Array(1., dtype=float32))
     """
-    length = jnp.linalg.norm(vector)
-    length: Float[Array, " "] = jnp.where(length == 0.0, jnp.ones_like(length), length)
+    squared_length = jnp.sum(vector * vector)
+    # The guard is placed before the square root, so that gradients are also safe
+    length: Float[Array, " "] = jnp.sqrt(
+        jnp.where(squared_length == 0.0, 1.0, squared_length)
+    )
 
     return vector / length, length
 
-- 
2.43.0


From a0add2ef41464e5b4c43f0a874841c5e5b6f698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 2/7] fix: finite gradients of path_length for vanishing
 perturbed segments

When a segment equals minus the perturbation, the norm was differentiated at
zero, leading to NaN gradients.
---
 differt2d/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index c77402a..6d23185 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -198,9 +198,11 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
     """
     vectors = jnp.diff(points, axis=0)
     vectors = vectors + jnp.finfo(points.dtype).eps
-    lengths = jnp.linalg.norm(vectors, axis=1)
+    squared_lengths = jnp.sum(vectors * vectors, axis=1)
+    is_zero = squared_lengths == 0.0
+    lengths = jnp.sqrt(jnp.where(is_zero, 1.0, squared_lengths))
 
-    return jnp.sum(lengths)
+    return jnp.sum(jnp.where(is_zero, 0.0, lengths))
 
 
 @partial(jax.jit, inline=True)
-- 
2.43.0


From 2c521513b0e90789484c1ac8abe071f35185418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 3/7] fix: finite gradients of the image method for parallel
 configurations

The division by zero was only masked after being evaluated, so the gradients of
ImagePath were NaN whenever the line from an image is parallel to the wall.
---
 differt2d/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 6d23185..424b60b 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -1106,8 +1106,10 @@ class ImagePath(Path):
             v = p - point
             un = jnp.dot(u, n)
             vn = jnp.dot(v, n)
-            # Avoid division by zero
-            inc = jnp.where(un == 0.0, 0.0, vn * u / un)
+            # Avoid division by zero (also in the gradients)
+            is_parallel = un == 0.0
+            un = jnp.where(is_parallel, 1.0, un)
+            inc = jnp.where(is_parallel, 0.0, vn * u / un)
             point = point + inc
             return point, point
 
-- 
2.43.0


From c1934954a5ec37170975d9230b9a0223f9c12c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 4/7] fix: read the mode to restore while holding the lock

Reading ENABLE_APPROX before acquiring the lock lets a thread save (and later
restore) the temporary mode of another thread.
---
 differt2d/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 2cc0ac3..703ad0c 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -187,8 +187,8 @@ def enable_approx(enable: bool = True):
         0.0
     """
     global ENABLE_APPROX
-    state = ENABLE_APPROX
     with _LOCK:
+        state = ENABLE_APPROX
         try:
             ENABLE_APPROX = enable
             yield
-- 
2.43.0


From 418222619f3a2cd85cf5a8ca2b98ff00349c6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 5/7] fix: ignore non-polygon geometries when reading GeoJSON

Coordinates were accessed as if they were polygon rings before checking the
geometry type, so points, geometry collections and empty polygons raised.
---
 differt2d/scene.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 90769dc..61806c5 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -639,10 +639,12 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         for feature in features:
             if geometry := feature.get("geometry", None):
                 _type = geometry["type"]
-                coordinates = geometry["coordinates"][0]
-                n = len(coordinates)
 
-                if _type == "Polygon":
+                # Empty polygons have no ring
+                if _type == "Polygon" and geometry["coordinates"]:
+                    coordinates = geometry["coordinates"][0]
+                    n = len(coordinates)
+
                     for i in range(n):
                         xys = jnp.array(
                             [coordinates[i - 1], coordinates[i]],
-- 
2.43.0


From 226fc5014f36ca6493dfca72f6ee700454799da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 6/7] fix: return the loss of the returned solution in minimize

The loss of the previous iterate was returned, so the loss did not match the
returned solution, and the best of many solutions could be mis-selected.
---
 differt2d/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 91c1c9d..fe140af 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -93,8 +93,8 @@ def minimize(
         carry = (x, opt_state)
         return carry, loss
 
-    (x, _), losses = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
-    return x, losses[-1]
+    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
+    return x, fun(x, *args)
 
 
 @eqx.filter_jit
-- 
2.43.0


From c681d1587134c9d3d1c3744e6c2370fc6e1cb4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 7/7] fix: yield a zero for each pair when there is no path
 candidate

Pairs were silently dropped by accumulate_over_paths when no path candidate
matches the requested order, contrary to the accumulation on grids.
---
 differt2d/scene.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 61806c5..13be9a0 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1305,10 +1305,13 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             fun_kwargs = {}
 
         def results() -> Iterator[tuple[str, str, Float[Array, " "]]]:
+            has_candidates = False
+
             for (tx_key, rx_key), paths_group in groupby(
                 self.all_paths(**kwargs),
                 operator.itemgetter(slice(2)),
             ):
+                has_candidates = True
                 acc = jnp.array(0.0)
                 transmitter = self.transmitters[tx_key]
                 receiver = self.receivers[rx_key]
@@ -1326,6 +1329,10 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
 
                 yield tx_key, rx_key, acc
 
+            if not has_candidates:
+                for (tx_key, _), (rx_key, _) in self.all_transmitter_receiver_pairs():
+                    yield tx_key, rx_key, jnp.array(0.0)
+
         if reduce_all:
             Z = jnp.array(0.0)
 
-- 
2.43.0

