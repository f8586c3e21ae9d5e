From 1c93db4828a3cf867c16888b61c21e22cc9e42cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 1/8] fix: save the approximation default inside the lock

The default was read before waiting for the lock, so a scope entered while
another thread was inside its own scope restored that thread's temporary
value when left.
---
 differt2d/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/logic.py b/differt2d/logic.py
index 2cc0ac3..703ad0c 100644
--- a/differt2d/logic.py
+++ b/differt2d/logic.py
@@ -187,8 +187,8 @@ def enable_approx(enable: bool = True):
         0.0
     """
     global ENABLE_APPROX
-    state = ENABLE_APPROX
     with _LOCK:
+        state = ENABLE_APPROX
         try:
             ENABLE_APPROX = enable
             yield
-- 
2.43.0


From ce8214db5e0893cb735f257386b9a25050357a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 2/8] fix: do not read polygon coordinates of other GeoJSON
 geometries

Documents mixing polygons with points (or geometry collections, or empty
geometries) raised instead of skipping them.
---
 differt2d/scene.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 90769dc..daf9e23 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -638,11 +638,10 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
 
         for feature in features:
             if geometry := feature.get("geometry", None):
-                _type = geometry["type"]
-                coordinates = geometry["coordinates"][0]
-                n = len(coordinates)
+                if geometry["type"] == "Polygon":
+                    coordinates = geometry["coordinates"][0]
+                    n = len(coordinates)
 
-                if _type == "Polygon":
                     for i in range(n):
                         xys = jnp.array(
                             [coordinates[i - 1], coordinates[i]],
-- 
2.43.0


From eab38d3cafa7ba5feb1a689db8ffb9d3f869a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 3/8] fix: ignore failed trials when selecting the best minimum

A trial that ended with a not-a-number loss was selected over all others.
---
 differt2d/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index 91c1c9d..cb1bbe2 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -177,6 +177,6 @@ def minimize_many_random_uniform(
         keys
     )
 
-    i_min = jnp.argmin(losses)
+    i_min = jnp.nanargmin(losses)
 
     return xs[i_min, :], losses[i_min]
-- 
2.43.0


From 7f269fd09f3ad565e5a55272107327d81b760542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 4/8] fix: return the loss of the returned solution

minimize returned the loss evaluated before the last update, i.e., the loss
of another point than the one returned (and raised with zero steps).
---
 differt2d/optimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/differt2d/optimize.py b/differt2d/optimize.py
index cb1bbe2..616968f 100644
--- a/differt2d/optimize.py
+++ b/differt2d/optimize.py
@@ -82,19 +82,19 @@ def minimize(
     """
     optimizer = optimizer or optax.adam(learning_rate=0.1)
 
-    f_and_df = jax.value_and_grad(fun)
+    df = jax.grad(fun)
     opt_state = optimizer.init(x0)
 
     def f(carry, _):
         x, opt_state = carry
-        loss, grads = f_and_df(x, *args)
+        grads = df(x, *args)
         updates, opt_state = optimizer.update(grads, opt_state)
         x = x + updates
         carry = (x, opt_state)
-        return carry, loss
+        return carry, None
 
-    (x, _), losses = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
-    return x, losses[-1]
+    (x, _), _ = jax.lax.scan(f, init=(x0, opt_state), xs=None, length=steps)
+    return x, fun(x, *args)
 
 
 @eqx.filter_jit
-- 
2.43.0


From 08a2c209b111b3864a6ccd7ad1ab6c2258529891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 5/8] fix: call the object filter each time path candidates are
 enumerated

The method was compiled with the filter as a static argument, so a filter
whose behaviour had changed since the first call was ignored, and filters
looking at coordinates failed on traced values.  The enumeration itself is
still cached by the module-level function.
---
 differt2d/scene.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index daf9e23..80ef7c4 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1085,7 +1085,6 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         """
         return product(self.transmitters.items(), self.receivers.items())
 
-    @eqx.filter_jit
     def all_path_candidates(
         self,
         min_order: int = 0,
-- 
2.43.0


From 1cdb3993ccd8f3cfb1ac2004db9bd9e8b74f0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 6/8] fix: do not keep a reference to the caller's list of
 objects

Modifying the list passed to (or obtained from) a scene modified the scene.
---
 differt2d/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index 80ef7c4..fb8a450 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -188,7 +188,7 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         default_factory=lambda: PyTreeDict.from_mapping({}),
     )
     """The receiving nodes."""
-    objects: Sequence[Obj] = ()
+    objects: Sequence[Obj] = eqx.field(converter=tuple, default=())
     """The sequence of objects in the scene."""
 
     @jaxtyped(typechecker=None)
-- 
2.43.0


From 69791e18d3101e9d17a90f8304e220c440835a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 7/8] fix: yield every pair when accumulating over no path

No pair was yielded at all when the scene has no path candidate of the
requested orders.
---
 differt2d/scene.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index fb8a450..f474fbd 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -1301,10 +1301,13 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
             fun_kwargs = {}
 
         def results() -> Iterator[tuple[str, str, Float[Array, " "]]]:
+            no_path = True
+
             for (tx_key, rx_key), paths_group in groupby(
                 self.all_paths(**kwargs),
                 operator.itemgetter(slice(2)),
             ):
+                no_path = False
                 acc = jnp.array(0.0)
                 transmitter = self.transmitters[tx_key]
                 receiver = self.receivers[rx_key]
@@ -1322,6 +1325,10 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
 
                 yield tx_key, rx_key, acc
 
+            if no_path:
+                for (tx_key, _), (rx_key, _) in self.all_transmitter_receiver_pairs():
+                    yield tx_key, rx_key, jnp.array(0.0)
+
         if reduce_all:
             Z = jnp.array(0.0)
 
-- 
2.43.0


From a0a6e1d253fa3c1843b29fae1c43dd0a2892ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 8/8] fix: a failing filter no longer truncates the filtered
 scene

A StopIteration raised by the filter ended the edit early and returned
a scene without the remaining objects, instead of reaching the caller.
---
 differt2d/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differt2d/scene.py b/differt2d/scene.py
index f474fbd..e325f87 100644
--- a/differt2d/scene.py
+++ b/differt2d/scene.py
@@ -280,7 +280,7 @@ class Scene(eqx.Module, Plottable, Generic[Obj]):
         return eqx.tree_at(
             lambda s: s.objects,
             self,
-            tuple(filter(filter_spec, self.objects)),
+            tuple([obj for obj in self.objects if filter_spec(obj)]),
         )
 
     @jaxtyped(typechecker=None)
-- 
2.43.0

