From bcdad56d98f122fc2fbc454b85071b13f5c1bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 01/18] fix: read the previous approx mode while holding the
 lock

enable_approx() saved the value to restore before acquiring the lock, so
two threads entering the context concurrently could permanently leave the
mode set by one of the contexts.
---
 differt2d/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 2cc0ac3..703ad0c 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -187,8 +187,8 @@ def enable_approx(enable: bool = True):
         0.0
     """
     global ENABLE_APPROX
-    state = ENABLE_APPROX
     with _LOCK:
+        state = ENABLE_APPROX
         try:
             ENABLE_APPROX = enable
             yield
-- 
2.43.0


From 0d39b047a29cc998f0a23f528ee46677ec728007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 02/18] fix: return the loss that corresponds to the returned
 solution

minimize() returned the loss evaluated one step before the returned x, and
failed when called with steps=0.
---
 differt2d/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 91c1c9d..fe140af 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -93,8 +93,8 @@ def minimize(
         carry = (x, opt_state)
         return carry, loss
 
-    (x, _), losses = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
-    return x, losses[-1]
+    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
+    return x, fun(x, *args)
 
 
 @eqx.filter_jit
-- 
2.43.0


From b3e5e86d2305ccaf902a5a3d35c37393d72d39d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 03/18] fix: make the gradient of normalize() finite at zero

The gradient of the norm is NaN at zero, even if the value is discarded
afterwards, so every path with two coincident points (e.g., a node placed
on a wall) had NaN gradients.
---
 differt2d/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index d65e811..9e16e0e 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -224,8 +224,12 @@ def normalize(vector: Float[Array, "2"]) -> tuple[Float[Array, "2"], Float[Array
     >>> normalize(zero)  # Special behavior at 0.
     (Array([0., 0.], dtype=float32), Array(1., dtype=float32))
     """
-    length = jnp.linalg.norm(vector)
-    length: Float[Array, " "] = jnp.where(length == 0.0, jnp.ones_like(length), length)
+    squared_length = jnp.dot(vector, vector)
+    # The zero is replaced before taking the square root, so that
+    # the gradient is also defined at zero.
+    length: Float[Array, " "] = jnp.sqrt(
+        jnp.where(squared_length == 0.0, jnp.ones_like(squared_length), squared_length)
+    )
 
     return vector / length, length
 
-- 
2.43.0


From 0de534761001e138ced1c546835b150c8f29c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 04/18] fix: make the gradient of the image method finite in
 degenerate cases

When a node lies on the line that is parallel to a wall and passes by an
image, the division by zero was avoided for the value, but not for its
gradient, which was NaN.
---
 differt2d/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 9e16e0e..dfdecf8 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -1105,8 +1105,10 @@ class ImagePath(Path):
             v = p - point
             un = jnp.dot(u, n)
             vn = jnp.dot(v, n)
-            # Avoid division by zero
-            inc = jnp.where(un == 0.0, 0.0, vn * u / un)
+            # Avoid division by zero, in both the value and the gradient
+            un_is_zero = un == 0.0
+            un = jnp.where(un_is_zero, 1.0, un)
+            inc = jnp.where(un_is_zero, 0.0, vn * u / un)
             point = point + inc
             return point, point
 
-- 
2.43.0


From bf659a88c581bf148755d312ac048121b685b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 05/18] fix: ignore non-polygon GeoJSON geometries instead of
 crashing

Scene.from_geojson() read the exterior ring of every geometry before
checking its type, and raised on, e.g., Point geometries.
---
 differt2d/scene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 90769dc..eed911f 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -639,10 +639,11 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         for feature in features:
             if geometry := feature.get("geometry", None):
                 _type = geometry["type"]
-                coordinates = geometry["coordinates"][0]
-                n = len(coordinates)
 
                 if _type == "Polygon":
+                    coordinates = geometry["coordinates"][0]
+                    n = len(coordinates)
+
                     for i in range(n):
                         xys = jnp.array(
                             [coordinates[i - 1], coordinates[i]],
-- 
2.43.0


From 11403852ea981f04df16dd74d6e3946fded48fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 06/18] fix: accumulate over every pair, even without path
 candidates

Scene.accumulate_over_paths() skipped the (transmitter, receiver) pairs
when there was no path candidate, e.g., in a scene without objects and
order=1, instead of returning zero for each of them.
---
 differt2d/scene.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index eed911f..ad8a286 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1304,13 +1304,21 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             fun_kwargs = {}
 
         def results() -> Iterator[tuple[str, str, Float[Array, " "]]]:
-            for (tx_key, rx_key), paths_group in groupby(
+            paths_groups = groupby(
                 self.all_paths(**kwargs),
                 operator.itemgetter(slice(2)),
-            ):
+            )
+            # There are no groups at all if there are no path candidates
+            group_key, paths_group = next(paths_groups, (None, ()))
+
+            for (tx_key, transmitter), (
+                rx_key,
+                receiver,
+            ) in self.all_transmitter_receiver_pairs():
+                if group_key != (tx_key, rx_key):
+                    group_key, paths_group = next(paths_groups, (None, ()))
+
                 acc = jnp.array(0.0)
-                transmitter = self.transmitters[tx_key]
-                receiver = self.receivers[rx_key]
 
                 for _, _, valid, path, path_candidate in paths_group:
                     interacting_objects = self.get_interacting_objects(path_candidate)
-- 
2.43.0


From fbde4ec35c159d0efc7b42979d7fd903840394c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 07/18] fix: let filter_objects look at the actual objects

all_path_candidates() was traced, so that a filter depending on the
coordinates or on the identity of an object either crashed or was given
copies, and a filter whose closure changed returned stale candidates.
---
 differt2d/scene.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index ad8a286..d4109de 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1087,7 +1087,6 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         """
         return product(self.transmitters.items(), self.receivers.items())
 
-    @eqx.filter_jit
     def all_path_candidates(
         self,
         min_order: int = 0,
-- 
2.43.0


From c84ab8b6e708d7616b80124728f3c73003985c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 08/18] fix: accept any reduction in logical_all() and
 logical_any()

The documented default (flattened input) and tuples of axes were rejected
for any non-scalar input, because the shape of the result was required to
be the one of the inputs.
---
 differt2d/logic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 703ad0c..77c120e 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -493,7 +493,7 @@ def logical_all(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> Union[Bool[Array, " *reduced"], Float[Array, " *reduced"]]:
     """
     Returns whether all values in ``x`` are true.
 
@@ -518,7 +518,7 @@ def logical_any(
     *x: Union[Truthy, float, bool],
     axis: Optional[Union[int, tuple[int, ...]]] = None,
     approx: Optional[bool] = None,
-) -> Truthy:
+) -> Union[Bool[Array, " *reduced"], Float[Array, " *reduced"]]:
     """
     Returns whether any value in ``x`` is true.
 
-- 
2.43.0


From baf4df0feaf7d356ac7bdae12ecfb951c6a526af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 09/18] fix: define the gradient of path_length for every path

Adding the machine epsilon to every vector only moves the singular point
of the norm: a segment of exactly (-eps, -eps), which rounding produces
for nodes lying on a wall, still had a NaN gradient.
---
 differt2d/geometry.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index dfdecf8..89c5ba3 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -181,9 +181,8 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
 
     .. note::
 
-        Currently, some epsilon value is added to each path segment to avoid
-        division by zero in the gradient of this function. Hopefully, this
-        should not be perceived by the user.
+        The gradient of this function is also defined (and zero) with respect
+        to path segments of zero length.
 
     :param points: An array of points.
     :return: The path length.
@@ -197,10 +196,13 @@ def path_length(points: Float[Array, "N 2"]) -> Float[Array, " "]:
     Array(3.4142137, dtype=float32)
     """
     vectors = jnp.diff(points, axis=0)
-    vectors = vectors + jnp.finfo(points.dtype).eps
-    lengths = jnp.linalg.norm(vectors, axis=1)
+    squared_lengths = jnp.sum(vectors * vectors, axis=1)
+    # The zeros are replaced before taking the square root, so that
+    # the gradient is also defined at zero.
+    is_zero = squared_lengths == 0.0
+    lengths = jnp.sqrt(jnp.where(is_zero, 1.0, squared_lengths))
 
-    return jnp.sum(lengths)
+    return jnp.sum(jnp.where(is_zero, 0.0, lengths))
 
 
 @partial(jax.jit, inline=True)
-- 
2.43.0


From 9f4652c57854c4a39997c5fcbdf41081392bbe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 10/18] fix: pass the current point to the optimizer in
 minimize

Optimizers with, e.g., weight decay need it, and raised an error.
---
 differt2d/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index fe140af..d5a91c5 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -88,7 +88,7 @@ def minimize(
     def f(carry, _):
         x, opt_state = carry
         loss, grads = f_and_df(x, *args)
-        updates, opt_state = optimizer.update(grads, opt_state)
+        updates, opt_state = optimizer.update(grads, opt_state, x)
         x = x + updates
         carry = (x, opt_state)
         return carry, loss
-- 
2.43.0


From b79e0f820c8bb0ebc322d282b1cb73d3a02d57f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 11/18] fix: never let minimize_many_random_uniform select a
 diverged trial

argmin() considers NaNs as minimal, so that a single NaN loss hid the best trial.
---
 differt2d/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index d5a91c5..2d0e320 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -177,6 +177,6 @@ def minimize_many_random_uniform(
         keys
     )
 
-    i_min = jnp.argmin(losses)
+    i_min = jnp.nanargmin(losses)
 
     return xs[i_min, :], losses[i_min]
-- 
2.43.0


From d6c8091e53abb9e6523d49702303d0a2d81e539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 12/18] fix: let Scene.plot merge the common and the group
 options

---
 differt2d/scene.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index d4109de..fc4bd0d 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -982,8 +982,10 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         if transmitters_kwargs is None:
             transmitters_kwargs = {}
 
-        transmitters_kwargs = {"color": "blue", **transmitters_kwargs}
-        receivers_kwargs = {"color": "green", **receivers_kwargs}
+        # Options specific to a group take precedence over the common ones
+        transmitters_kwargs = {"color": "blue", **kwargs, **transmitters_kwargs}
+        objects_kwargs = {**kwargs, **objects_kwargs}
+        receivers_kwargs = {"color": "green", **kwargs, **receivers_kwargs}
 
         artists = []
 
@@ -996,14 +998,13 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                         *args,
                         annotate=tx_key if annotate else None,
                         **transmitters_kwargs,
-                        **kwargs,
                     ),
                 )
 
         if objects:
             for obj in self.objects:
                 artists.extend(
-                    obj.plot(ax, *objects_args, *args, **objects_kwargs, **kwargs),  # type: ignore[union-attr]
+                    obj.plot(ax, *objects_args, *args, **objects_kwargs),  # type: ignore[union-attr]
                 )
 
         if receivers:
@@ -1015,7 +1016,6 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                         *args,
                         annotate=rx_key if annotate else None,
                         **receivers_kwargs,
-                        **kwargs,
                     ),
                 )
 
-- 
2.43.0


From 7d20727dde5f80bfab9b51c28a8e2aa01306c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 13/18] fix: honour the colors and style aliases given when
 plotting

---
 differt2d/geometry.py | 20 ++++++++++++++------
 differt2d/scene.py    |  9 +++++++--
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 89c5ba3..e64d37b 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -10,8 +10,10 @@ import jax
 import jax.numpy as jnp
 from beartype import beartype as typechecker
 from jaxtyping import Array, Float, Int, PRNGKeyArray, PyTree, jaxtyped
+from matplotlib import cbook
 from matplotlib.artist import Artist
 from matplotlib.axes import Axes
+from matplotlib.collections import PathCollection
 
 from ._typing import ScalarFloat, ScalarInt
 from .abc import Interactable, Object, Plottable
@@ -317,7 +319,8 @@ class Point(eqx.Module, Plottable):
             :meth:`matplotlib.axes.Axes.annotate`.
         """  # noqa: D205
         kwargs.setdefault("marker", "o")
-        kwargs.setdefault("color", "red")
+        if "c" not in kwargs:
+            kwargs.setdefault("color", "red")
 
         if annotate_kwargs is None:
             annotate_kwargs = {}
@@ -431,8 +434,10 @@ class Vertex(Point, Object):
         *args: Any,
         **kwargs: Any,
     ) -> MutableSequence[Artist]:  # pragma: no cover
-        kwargs.setdefault("edgecolors", "black")
-        kwargs.setdefault("facecolors", (1.0, 1.0, 0.0, 0.5))
+        kwargs = cbook.normalize_kwargs(kwargs, PathCollection)
+        if "c" not in kwargs and "color" not in kwargs:
+            kwargs.setdefault("edgecolor", "black")
+            kwargs.setdefault("facecolor", (1.0, 1.0, 0.0, 0.5))
         kwargs.setdefault("linestyle", "dashed")
         return super().plot(ax, *args, **kwargs)
 
@@ -535,7 +540,8 @@ class Ray(eqx.Module):
 
     @jaxtyped(typechecker=typechecker)
     def plot(self, ax: Axes, *args: Any, **kwargs: Any) -> MutableSequence[Artist]:  # noqa: D102
-        kwargs.setdefault("color", "blue")
+        if "c" not in kwargs:
+            kwargs.setdefault("color", "blue")
         x, y = self.xys.T
         return ax.plot(x, y, *args, **kwargs)  # type: ignore[func-returns-value]
 
@@ -723,7 +729,8 @@ class RIS(Wall):
         *args: Any,
         **kwargs: Any,
     ) -> MutableSequence[Artist]:  # pragma: no cover
-        kwargs.setdefault("color", "green")
+        if "c" not in kwargs:
+            kwargs.setdefault("color", "green")
         return super().plot(ax, *args, **kwargs)
 
 
@@ -970,7 +977,8 @@ class Path(eqx.Module, Plottable):
 
     @jaxtyped(typechecker=typechecker)
     def plot(self, ax: Axes, *args: Any, **kwargs: Any) -> MutableSequence[Artist]:  # noqa: D102
-        kwargs.setdefault("color", "orange")
+        if "c" not in kwargs:
+            kwargs.setdefault("color", "orange")
         x, y = self.xys.T
         return ax.plot(x, y, *args, **kwargs)  # type: ignore
 
diff --git a/differt2d/scene.py b/differt2d/scene.py
index fc4bd0d..b89ffd2 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -983,9 +983,14 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             transmitters_kwargs = {}
 
         # Options specific to a group take precedence over the common ones
-        transmitters_kwargs = {"color": "blue", **kwargs, **transmitters_kwargs}
+        transmitters_kwargs = {**kwargs, **transmitters_kwargs}
         objects_kwargs = {**kwargs, **objects_kwargs}
-        receivers_kwargs = {"color": "green", **kwargs, **receivers_kwargs}
+        receivers_kwargs = {**kwargs, **receivers_kwargs}
+
+        if "c" not in transmitters_kwargs:
+            transmitters_kwargs.setdefault("color", "blue")
+        if "c" not in receivers_kwargs:
+            receivers_kwargs.setdefault("color", "green")
 
         artists = []
 
-- 
2.43.0


From 40a4405836c19804c3ae9a6a0df58c89b2baf244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 14/18] fix: reject pytrees of unequal lengths in
 unstack_leaves

---
 differt2d/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index e64d37b..9c80e5c 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -78,7 +78,7 @@ def unstack_leaves(pytrees) -> list[PyTree]:
     :raise ValueError: If the input is not the result of stacked PyTrees.
     """
     leaves, treedef = jax.tree_util.tree_flatten(pytrees)
-    return [treedef.unflatten(leaf) for leaf in zip(*leaves)]
+    return [treedef.unflatten(leaf) for leaf in zip(*leaves, strict=True)]
 
 
 @eqx.filter_jit
-- 
2.43.0


From de43b076a817c41a25695a46c9c923db0ad30a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:15 +0000
Subject: [PATCH 15/18] fix: ignore the altitude of GeoJSON positions

---
 differt2d/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index b89ffd2..21d5c50 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -641,7 +641,8 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                 _type = geometry["type"]
 
                 if _type == "Polygon":
-                    coordinates = geometry["coordinates"][0]
+                    # Positions may be given with an altitude
+                    coordinates = [xy[:2] for xy in geometry["coordinates"][0]]
                     n = len(coordinates)
 
                     for i in range(n):
-- 
2.43.0


From 03447d04b6a6b3d76d8e971d03eafad4a3ce6143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:15 +0000
Subject: [PATCH 16/18] fix: accept GeoJSON polygons without any ring

---
 differt2d/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 21d5c50..c4ecc80 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -641,8 +641,9 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
                 _type = geometry["type"]
 
                 if _type == "Polygon":
+                    rings = geometry["coordinates"]
                     # Positions may be given with an altitude
-                    coordinates = [xy[:2] for xy in geometry["coordinates"][0]]
+                    coordinates = [xy[:2] for xy in rings[0]] if rings else []
                     n = len(coordinates)
 
                     for i in range(n):
-- 
2.43.0


From c59cc510e070c7efb700c967bd2b2562905d4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:29 +0000
Subject: [PATCH 17/18] fix: let the image method mix objects of different
 types

ImagePath.from_tx_objects_rx() stacked the walls to scan over them, which
is impossible when they are not all of the same type (e.g., a Wall and a
RIS), or when their static attributes or their dtypes differ.
---
 differt2d/geometry.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/differt2d/geometry.py b/differt2d/geometry.py
index 9c80e5c..66e2a1d 100644
--- a/differt2d/geometry.py
+++ b/differt2d/geometry.py
@@ -1086,8 +1086,6 @@ class ImagePath(Path):
             xys = jnp.vstack([tx, rx])
             return cls(xys=xys, loss=jnp.array(0.0))
 
-        walls = stack_leaves(objects)
-
         def path_loss(
             cartesian_coords: Float[Array, "path_length 2"],
         ) -> Float[Array, " "]:
@@ -1097,18 +1095,11 @@ class ImagePath(Path):
 
             return _loss
 
-        def forward(
-            image: Float[Array, "2"],
-            wall: Wall,
-        ) -> tuple[Float[Array, "2"], Float[Array, "2"]]:
-            image = wall.image_of(image)
-            return image, image
-
         def backward(
             point: Float[Array, "2"],
-            x: tuple[Wall, Float[Array, "2"]],
-        ) -> tuple[Float[Array, "2"], Float[Array, "2"]]:
-            wall, image = x
+            wall: Wall,
+            image: Float[Array, "2"],
+        ) -> Float[Array, "2"]:
             p = wall.origin()
             n = wall.normal()
             u = point - image
@@ -1119,11 +1110,20 @@ class ImagePath(Path):
             un_is_zero = un == 0.0
             un = jnp.where(un_is_zero, 1.0, un)
             inc = jnp.where(un_is_zero, 0.0, vn * u / un)
-            point = point + inc
-            return point, point
+            return point + inc
+
+        # The walls may be of different types, so they cannot be stacked
+        images = []
+        image = tx
+        for wall in objects:
+            image = wall.image_of(image)
+            images.append(image)
 
-        _, images = jax.lax.scan(forward, init=tx, xs=walls)  # type: ignore
-        _, points = jax.lax.scan(backward, init=rx, xs=(walls, images), reverse=True)  # type: ignore
+        points = []
+        point = rx
+        for wall, image in zip(reversed(objects), reversed(images)):
+            point = backward(point, wall, image)
+            points.insert(0, point)
 
         xys = jnp.vstack([tx, *points, rx])
 
-- 
2.43.0


From 0ef7142fa93ebe748a979f28fd727c25a6a5ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:29 +0000
Subject: [PATCH 18/18] fix: compare the structure of objects before switching
 between them

Scene.get_interacting_objects() only compared the types of the objects,
so tracing failed in scenes whose objects have the same type but different
static attributes, dtypes, or shapes, as get_object() cannot select one.
---
 differt2d/scene.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index c4ecc80..b9039bf 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1154,8 +1154,15 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             as returned by :meth:`all_path_candidates`.
         :return: The list of interacting objects.
         """
+
+        def signature(obj: Object) -> tuple[Any, ...]:
+            leaves, structure = jax.tree_util.tree_flatten(obj)
+            return structure, [(jnp.shape(x), jnp.result_type(x)) for x in leaves]
+
+        # Indexing with (possibly traced) indices is only possible if
+        # all objects have the same structure, types, and shapes
         if len(self.objects) < 2 or all(
-            type(obj) is type(self.objects[0]) for obj in self.objects
+            signature(obj) == signature(self.objects[0]) for obj in self.objects
         ):
             return [self.get_object(i) for i in path_candidate]
         return [self.objects[i] for i in path_candidate]
-- 
2.43.0

