From c9e2e13076f83610494ba7b9ee9ad105e70feadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 01/28] fix: crystal_router dropped all data on a single-device
 axis

---
 swirl_fem/communication/crystal_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index e4f8ad1..2d3d915 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -367,7 +367,8 @@ def _crystal_router_loop(
                     lambda: (crystal_data.resize(buffer_size), max_size, i),
                     lambda: loop(next_data, max_size, i + 1, n, base_lo))
 
-  max_size = jnp.zeros((), dtype=crystal_data.n.dtype)
+  # With a single device there are no stages, so this is the returned size.
+  max_size = lax.pmax(crystal_data.n, axis_name=axis_name)
   return loop(crystal_data, max_size, 0, n, base_lo)
 
 
-- 
2.43.0


From 51962f2d2eb55372a7b4d8d9b6cd76ca2ece0336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 02/28] fix: crystal_router failed on data leaves with trailing
 dimensions

---
 swirl_fem/communication/crystal_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index 2d3d915..fc363de 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -170,7 +170,8 @@ class CrystalData(struct.PyTreeNode):
     """
     return CrystalData(
         data=[
-            lax.dynamic_update_slice(a, b, start_indices=(self.n,))
+            lax.dynamic_update_slice(
+                a, b, (self.n,) + (jnp.zeros_like(self.n),) * (a.ndim - 1))
             for (a, b) in zip(self.data, other.data)
         ],
         n=self.n + other.n,
-- 
2.43.0


From e0fa98bab4501ab7be0df286c4025d34bfa108c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 03/28] fix: pscan of maximum/minimum was wrong for infinite
 floats

---
 swirl_fem/communication/pscan.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/communication/pscan.py b/swirl_fem/communication/pscan.py
index d2902e8..97132cb 100644
--- a/swirl_fem/communication/pscan.py
+++ b/swirl_fem/communication/pscan.py
@@ -32,10 +32,10 @@ def _dtype_range(dtype: jnp.dtype):
 
   if issubclass(dtype.type, numbers.Integral):
     info = jnp.iinfo(dtype)
-  else:
-    info = jnp.finfo(dtype)
+    return (info.min, info.max)
 
-  return (info.min, info.max)
+  # the finite extremes are not units: they would absorb infinite entries.
+  return (-jnp.inf, jnp.inf)
 
 
 # Mapping to monoid unit (given dtype) of supported ops
-- 
2.43.0


From 2899b650e872091db98a11a29067bd9d3a1a901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 04/28] fix: jit_distributed static_argnames preceding a
 sharded argument failed

---
 swirl_fem/communication/jit_distributed.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index a87314c..0665ba0 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -84,8 +84,15 @@ def jit_distributed(
     nonsharded = bind(nonsharded_args, *args, **kwargs)
     sharded = bind(sharded_args, *args, **kwargs)
     if sharded.args or sharded.kwargs:
-      g = functools.partial(f, *nonsharded.args, **nonsharded.kwargs)
-      return shmap(jax.vmap(g, in_axes=0))(*sharded.args, **sharded.kwargs)
+      # static arguments may precede the sharded ones in the signature of `f`,
+      # so reassemble the call by argument name.
+      def g(sharded_arguments):
+        call = sig.bind_partial()
+        call.arguments.update(nonsharded.arguments | sharded_arguments)
+        call.arguments = {
+            x: call.arguments[x] for x in sig.parameters if x in call.arguments}
+        return f(*call.args, **call.kwargs)
+      return shmap(jax.vmap(g, in_axes=0))(dict(sharded.arguments))
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-- 
2.43.0


From 21db452ce1f96d803822d72e43597df51bdccce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 05/28] fix: exchange computed the periodic sums in the default
 float dtype

---
 swirl_fem/core/gather_scatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 3da2f2e..640b922 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -239,7 +239,8 @@ def exchange(
     # TODO(anudhyan): Add `num_unique` to the ExchangeInfo struct as metadata
     # to make this static computation more transparent.
     num_unique_nodes = 1 + unique_indices.max()
-    updates = jnp.zeros(num_unique_nodes).at[unique_indices].add(initial_values)
+    updates = jnp.zeros(num_unique_nodes, dtype=initial_values.dtype).at[
+        unique_indices].add(initial_values)
   else:
     updates = initial_values
 
-- 
2.43.0


From de9e76b542208300d9743944906bbf90666f5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 06/28] fix: Premesh.finalize misplaced periodic image nodes of
 partitioned meshes

---
 swirl_fem/core/premesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index f3b8810..332e79f 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -190,6 +190,8 @@ class Premesh:
     # elements: [[[0, 1], [1, 2]], [[0, 1], [1, 2]]].
     node_indices, local_elements = (
         gather_scatter.get_local_elements(elements))
+    # periodic images share a global index, but not their coordinates.
+    node_coords = self.node_coords[node_indices]
 
     # Use periodic links to dedup the node indices
     node_indices = gather_scatter.get_unique_node_indices(
@@ -214,7 +216,7 @@ class Premesh:
 
     # create and place the resulting `Mesh` on the available devices
     return jax.pmap(create_fn)(
-        node_coords=self.node_coords[node_indices],
+        node_coords=node_coords,
         elements=local_elements,
         node_indices=node_indices,
         physical_masks=physical_masks,
-- 
2.43.0


From 09c54386bd0009bb606285d9abf5ac76734b1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 07/28] fix: physical masks missed group nodes whose periodic
 image has a smaller index

---
 swirl_fem/core/gather_scatter.py |  2 +-
 swirl_fem/core/premesh.py        | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 640b922..722e79c 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -157,7 +157,7 @@ def get_unique_node_indices(
   def _replace(idx):
     return periodic_mapping[idx] if idx in periodic_mapping else idx
 
-  return np.vectorize(_replace)(node_indices)
+  return np.vectorize(_replace, otypes=[node_indices.dtype])(node_indices)
 
 
 # TODO(anudhyan): Add a ExchangeIndices structure which encapsulates the
diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index 332e79f..44fcbd4 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -138,6 +138,12 @@ class Premesh:
     """Returns whether the premesh is partitioned."""
     return self.partitions is not None
 
+  def _unique_physical_groups(self) -> Mapping[str, np.ndarray]:
+    """Returns the physical groups using the deduped global node indices."""
+    return tree_map(
+        partial(gather_scatter.get_unique_node_indices,
+                periodic_links=self.periodic_links), self.physical_groups)
+
   def finalize(self, axis_name: str | None = None) -> Mesh:
     """Finalize the premesh into a mesh.
 
@@ -154,7 +160,8 @@ class Premesh:
           node_indices=np.arange(self.num_nodes, dtype=np.int32),
           periodic_links=self.periodic_links)
       physical_masks = tree_map(
-          partial(_mask, node_indices=node_indices), self.physical_groups)
+          partial(_mask, node_indices=node_indices),
+          self._unique_physical_groups())
       exchange_gather_indices, exchange_unique_indices = (
           gather_scatter.get_exchange_indices(node_indices))
       return Mesh.create(
@@ -205,7 +212,8 @@ class Premesh:
     # Create boolean masks over the node indices for the specified physical
     # groups.
     physical_masks = tree_map(
-        partial(_mask, node_indices=node_indices), self.physical_groups)
+        partial(_mask, node_indices=node_indices),
+        self._unique_physical_groups())
 
     # bind the static arrays which are not pmapped when placing on devices
     create_fn = partial(
-- 
2.43.0


From 009a90971112f55ce551e28627f5e19c878b6f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 08/28] fix: mesh refinement misordered the nodes of
 quarter-turned interior faces

---
 swirl_fem/core/mesh_refiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 4b16a46..3a558ec 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -212,7 +212,7 @@ class _MeshRefiner:
         else:  # Existing facet.
           facet_orientation, target_nodes = facet_value
           orientation_key = tuple(
-              facet.index(k) for k in facet_orientation)
+              facet_orientation.index(k) for k in facet)
           facet_perms.append(
               self._dim_to_orderings_mapping[facet_dim][orientation_key])
           target_facets.append(target_nodes)
-- 
2.43.0


From 808dc9b52fc3a4de7f59f12c5b281d3407579a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 09/28] fix: mesh_partitioner returned partitions that finalize
 could not use

---
 swirl_fem/common/mesh_partitioner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swirl_fem/common/mesh_partitioner.py b/swirl_fem/common/mesh_partitioner.py
index 15838c2..ca6811f 100644
--- a/swirl_fem/common/mesh_partitioner.py
+++ b/swirl_fem/common/mesh_partitioner.py
@@ -15,6 +15,7 @@
 """Partitions a mesh using metis for distributed computations."""
 
 import networkx as nx
+import numpy as np
 import pymetis
 from swirl_fem.core.premesh import Premesh
 
@@ -50,4 +51,5 @@ def partition(premesh: Premesh, num_partitions: int) -> Premesh:
   # Partition the graph into `num_partitions` parts
   _, partitions = pymetis.part_graph(num_partitions, adjacency=adjlist)
 
+  partitions = np.asarray(partitions, dtype=np.int32)
   return premesh.replace(partitions=partitions)  # pyrefly: ignore[missing-attribute]
-- 
2.43.0


From af4c763dd47d0c1ef0b257e270b1cdb595ebe9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 10/28] fix: mesh_reader mixed up the facets of multiply
 periodic meshes

---
 swirl_fem/common/mesh_reader.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 3d48426..d7648d9 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -55,22 +55,28 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
     An array with a list of pairs of facets which share a periodic connection.
     See documentation of `Premesh` for the detailed specification.
   """
-  # Create the mapping from source nodes to target nodes for every periodic
-  # connection in the mesh among entities of dimension `ndim - 1`.
-  src_tgt_mapping = dict()
+  # Create the mappings from source nodes to target nodes, one for every
+  # periodic connection in the mesh among entities of dimension `ndim - 1`. They
+  # can't be merged as the entities share nodes if there are multiple periodic
+  # directions.
+  src_tgt_mappings = []
   for entity_dim, _, _, node_pairs in mesh.gmsh_periodic:  # pyrefly: ignore[not-iterable]
     if entity_dim != ndim - 1:
       continue
-    src_tgt_mapping.update(dict(node_pairs.tolist()))
+    src_tgt_mappings.append(dict(node_pairs.tolist()))
 
   # For each `ndim - 1`-dimensional facet in the mesh, check if it is a periodic
   # facet. If so, save it as a periodic link.
   facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
+  # reorder nodes in each facet to follow the lexicographic ordering
+  facet_elems = mesh.cells_dict[facet_elem_type][
+      :, _NODE_ORDERING_PERMUTATIONS[ndim - 1]]
   periodic_links = []
-  for facet_elem in mesh.cells_dict[facet_elem_type]:
-    if all(x in src_tgt_mapping for x in facet_elem):
-      target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
-      periodic_links.append(np.stack([facet_elem, target_elem]))
+  for src_tgt_mapping in src_tgt_mappings:
+    for facet_elem in facet_elems:
+      if all(x in src_tgt_mapping for x in facet_elem):
+        target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))  # pylint: disable=cell-var-from-loop
+        periodic_links.append(np.stack([facet_elem, target_elem]))
 
   return np.stack(periodic_links, dtype=np.int32)
 
-- 
2.43.0


From d110bd443e15b0e1b4e747d4a5ffa5944a7dcfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 11/28] fix: niles used jax.tree_map, which no longer exists

---
 swirl_fem/niles/input_pipeline.py | 2 +-
 swirl_fem/niles/train.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index 347ae66..fe2f444 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -85,7 +85,7 @@ def _read_and_parse(
       windows.append(arr[i:i + window_size:window_step])
     return np.stack(windows)
 
-  return jax.tree_map(_windowed, snapshots)  # pytype: disable=module-attr
+  return jax.tree.map(_windowed, snapshots)  # pytype: disable=module-attr
 
 
 def create_split(
diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 3de5126..fba47cf 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -294,7 +294,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
   aux = carry[-1]
   kl_path = aux['kl_path']
   kl_q0 = aux['kl_q0']
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree.map(jnp.shape, aux))  # pytype: disable=module-attr
   preds = jnp.moveaxis(preds, source=0, destination=1)
   logging.info('preds.shape: %s', preds.shape)
 
@@ -345,7 +345,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
       'z1_stds': jnp.abs(aux['z1_stds']).mean(axis=0),
       'tke_err': tke_error.mean(axis=0),
   }
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree.map(jnp.shape, aux))  # pytype: disable=module-attr
   return loss, aux
 
 
@@ -370,7 +370,7 @@ def compute_metrics(loss, aux, train: bool):
     metrics['mse@64'] = aux['mse'][64 - 1]
     metrics['mse@128'] = aux['mse'][128 - 1]
 
-  logging.info('metrics: %s', jax.tree_map(jnp.shape, metrics))  # pytype: disable=module-attr
+  logging.info('metrics: %s', jax.tree.map(jnp.shape, metrics))  # pytype: disable=module-attr
   metrics = lax.pmean(metrics, axis_name='batch')
   return metrics
 
-- 
2.43.0


From 6f211766aec74e0fd92946837edc13a0132c8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 12/28] fix: get_num_examples counted windows across shard
 boundaries

---
 swirl_fem/niles/input_pipeline.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index fe2f444..79946e7 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -49,13 +49,14 @@ def get_num_examples(
 ):
   """Returns the total number of examples."""
   num_examples = NUM_SPLIT_EXAMPLES[split_name]
-  if debug:
-    if split_name == tfds.Split.TRAIN:  # pyrefly: ignore[missing-attribute]
-      num_examples //= 24
-    else:
-      num_examples //= 4
-
-  return (num_examples - window_size) // window_stride + 1
+  if split_name == tfds.Split.TRAIN:  # pyrefly: ignore[missing-attribute]
+    num_shards = len(_TRAIN_SHARDS)
+  else:
+    num_shards = len(_VALID_SHARDS)
+  num_examples //= num_shards
+  # windows don't cross from one shard to the next
+  num_windows = (num_examples - window_size) // window_stride + 1
+  return num_windows if debug else num_windows * num_shards
 
 
 def read_snapshots_file(file_path: epath.PathLike) -> dict[str, np.ndarray]:
-- 
2.43.0


From 5e55e21c73676461860e3e1fd19aa7b1a9e2f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 13/28] fix: the datagen simulation step could not run

---
 swirl_fem/niles/datagen/datagen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/datagen/datagen.py b/swirl_fem/niles/datagen/datagen.py
index ac1f5f8..13e3b56 100644
--- a/swirl_fem/niles/datagen/datagen.py
+++ b/swirl_fem/niles/datagen/datagen.py
@@ -14,6 +14,7 @@
 
 """Binary for generating a Kolmogorov flow dataset."""
 
+import functools
 import io
 import os
 import time
@@ -87,7 +88,6 @@ def compute_dx(mesh):
   return dx
 
 
-@jax.jit
 def _solve_one_step(sem, us, ps, Cus):
   """Solve one step of the Navier-Stokes system."""
   # Extrapolate advection term
@@ -97,7 +97,7 @@ def _solve_one_step(sem, us, ps, Cus):
   # Solve the stokes system with extrapolated advection term
   f = jax.vmap(forcing)(sem.velocity.mesh.node_coords, us[-1])
   f = -Cu + sem.B(f)
-  u, p = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
+  u, p, _ = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
                              time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
   return u, p, sem.C(u)
 
@@ -132,9 +132,11 @@ def one_cycle(sem: navier_stokes.StokesSEM,
 
   start_time = time.time()
   Cus = tuple(map(sem.C, us))
+  # `sem` is not a valid jit argument, so close over it.
+  solve_one_step = jax.jit(functools.partial(_solve_one_step, sem))
   for step_idx in range(1, num_steps + 1):
     t += DT
-    u, p, Cu = _solve_one_step(sem, us, ps, Cus)
+    u, p, Cu = solve_one_step(us, ps, Cus)
     us = us[1:] + (u,)
     ps = ps[1:] + (p,)
     Cus = Cus[1:] + (Cu,)
-- 
2.43.0


From 1efc206440d7033a5b8b2a7baf5fc6af8c86ab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:32 +0000
Subject: [PATCH 14/28] fix: StokesSEM of order 2 had a zero pressure mass
 matrix

---
 swirl_fem/navier_stokes/navier_stokes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8553fd7..a058dca 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -20,6 +20,7 @@
 """
 
 from collections.abc import Sequence
+import dataclasses
 import enum
 from functools import partial
 from typing import Any
@@ -118,6 +119,13 @@ class StokesPressure:
         num_points=order - 1, node_type=NodeType.GAUSS_LEGENDRE)
     pmesh = refine_premesh(premesh, gridpoints_1d=gridpoints_1d).finalize()
     pspace = FiniteElementSpace.create(mesh=pmesh, quadrature=quadrature)
+    # Take the geometry from the original elements: the pressure nodes alone
+    # don't determine it when there is just one per element (order 2).
+    geometry = FiniteElementSpace.create(
+        mesh=premesh.finalize(), quadrature=quadrature)
+    pspace = dataclasses.replace(
+        pspace, invjacs=geometry.invjacs, jacdets=geometry.jacdets,
+        quad_coords=geometry.quad_coords)
     return cls(pspace=pspace)
 
   def gather(self, p: jax.Array) -> jax.Array:
-- 
2.43.0


From 39b6f6ad8d2f423529d4d34ce5b36b8dc6916eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:32 +0000
Subject: [PATCH 15/28] fix: StokesSEM.vorticity had the wrong sign

---
 swirl_fem/navier_stokes/navier_stokes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index a058dca..0a76d4d 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -494,8 +494,8 @@ class StokesSEM:
     u = self.velocity.vspace.vector_function(self.velocity.gather(u))
 
     def _vorticity(x: jax.Array):
-      grad_ux = grad(u)(x)
-      return grad_ux[1, 0] - grad_ux[0, 1]
+      grad_ux = grad(u)(x)  # grad_ux[i, j] is the ith derivative of u[j]
+      return grad_ux[0, 1] - grad_ux[1, 0]
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-- 
2.43.0


From 3f80947fa962d9f3e126e435fb75e81c6d9c6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 16/28] fix: refining a 3D mesh to one Gauss-Legendre node per
 element failed

---
 swirl_fem/core/mesh_refiner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 3a558ec..5e4fd6e 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -110,9 +110,11 @@ class _MeshRefiner:
     # of the refinement order.
     self._dim_to_orderings_mapping: MutableMapping[
         int, MutableMapping[tuple[int, ...], list[int]]] = {}
-    for k in range(1, premesh.ndim):
-      self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
-          ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
+    # Only continuous node types have nodes on the facets.
+    if self.gridpoints_1d.is_continuous():
+      for k in range(1, premesh.ndim):
+        self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
+            ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
 
   def _num_target_points(self):
     return self.gridpoints_1d.num_points
-- 
2.43.0


From 9fe186549e31caa241767ed330374e0fd6ca7607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 17/28] fix: reverse-mode derivatives of stokes_one_step
 diverged on Dirichlet boundaries

---
 swirl_fem/navier_stokes/navier_stokes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 0a76d4d..0ba5c07 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -444,6 +444,9 @@ class StokesSEM:
     u_star, info = lax.custom_linear_solve(
         H_, f, solve=partial(cg, M=self.velocity.exchange, tol=tol, atol=atol),
         symmetric=True, has_aux=True)
+    # H is singular on the boundary nodes. Masking them changes nothing here but
+    # keeps their cotangents out of the transposed solve.
+    u_star = self.velocity.interior_mask * u_star
     if u_boundary is not None:
       u_star = u_star + u_boundary
 
-- 
2.43.0


From 44a992f46dcb771d8455907bbfed678c42bcfbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 18/28] fix: sdeint dropped the last increments of long paths
 in single precision

The time was accumulated step by step; from 10000-20000 increments on, rounding
errors made it reach the end of the interval before the last increments, which
were then ignored.
---
 swirl_fem/sde/sdeint.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index 580e84d..63d8667 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -114,17 +114,18 @@ def _sdeint(f, reverse, y0, ts, dw, *args):
   dt = (ts[1] - ts[0]) / len(dw)
 
   def step_fn(state, dw):
-    t, x = state
+    # The time is not accumulated step by step, as rounding errors would add up.
+    i, x = state
+    t = ts[0] + i * dt
     drift, diff = f_(x, t, dw)
     _, diffh = f_(x + diff, t + dt, dw)
     x = x + drift * dt + .5 * (diff + diffh)
     updated_state = lax.cond(
-        jnp.logical_and(t >= ts[0], t < ts[1]), lambda: (t + dt, x), lambda:
-        (t + dt, state[-1]))
+        jnp.logical_and(t >= ts[0], t < ts[1]), lambda: (i + 1, x), lambda:
+        (i + 1, state[-1]))
     return updated_state, None
 
-  t0 = ts[0]  # if not reverse else -ts[1]
-  (_, x1), _ = lax.scan(step_fn, init=(t0, y0), xs=dw, reverse=reverse)
+  (_, x1), _ = lax.scan(step_fn, init=(0, y0), xs=dw, reverse=reverse)
   return x1
 
 
-- 
2.43.0


From 08aabf23f5b2eb4bc769644fd712e8ad94a92fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 19/28] fix: steps_per_eval=-1 divided the validation examples
 by the batch size twice

---
 swirl_fem/niles/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index fba47cf..8855e34 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -571,9 +571,9 @@ def train_and_evaluate(config: ml_collections.FrozenConfigDict,
     num_steps = config.num_train_steps
 
   if config.steps_per_eval == -1:
-    num_validation_examples = (
-        input_pipeline.NUM_SPLIT_EXAMPLES[tfds.Split.VALIDATION]  # pyrefly: ignore[missing-attribute]
-        // config.batch_size
+    num_validation_examples = input_pipeline.get_num_examples(
+        tfds.Split.VALIDATION, window_size=config.eval_window_size,  # pyrefly: ignore[missing-attribute]
+        window_stride=config.eval_window_stride, debug=config.debug
     )
     steps_per_eval = num_validation_examples // config.batch_size
   else:
-- 
2.43.0


From 95511044cf1437a4fbaecafdcc73883575715e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 20/28] fix: reverse-mode derivatives of sdeint failed with
 integer arguments

Random keys are such arguments, so that models with nn_sdeint could not be
trained when they were applied with rngs.
---
 swirl_fem/sde/sdeint.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index 63d8667..674e368 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -158,20 +158,35 @@ def _sdeint_rev(f, reverse, res, y1_bar):
   """
   y1, ts, dw, args = res
 
+  # Only the inexact leaves of `args` have cotangents (as opposed to integers
+  # and random keys).
+  leaves, treedef = jax.tree_util.tree_flatten(args)
+  is_inexact = [jnp.issubdtype(jnp.result_type(x), jnp.inexact) for x in leaves]
+  inexact = lambda leaves: tuple(x for x, p in zip(leaves, is_inexact) if p)
+
+  def merge(xs, others):
+    """Replaces the inexact leaves in `others` by `xs`."""
+    xs = iter(xs)
+    return jax.tree_util.tree_unflatten(
+        treedef, [next(xs) if p else x for x, p in zip(others, is_inexact)])
+
   def aug_f(aug_state, t, dw, *args):
     y, y_bar, *_ = aug_state
-    drift_fn = lambda y, *args: f(y, -t, dw, *args)[0]
-    diff_fn = lambda y, *args: f(y, -t, dw, *args)[1]
+    leaves = jax.tree_util.tree_leaves(args)
+    drift_fn = lambda y, *xs: f(y, -t, dw, *merge(xs, leaves))[0]
+    diff_fn = lambda y, *xs: f(y, -t, dw, *merge(xs, leaves))[1]
 
-    drift_dot, vjpfun = jax.vjp(drift_fn, y, *args)
-    drift_bar = (-drift_dot, *vjpfun(y_bar))
+    drift_dot, vjpfun = jax.vjp(drift_fn, y, *inexact(leaves))
+    y_dot, *args_dot = vjpfun(y_bar)
+    drift_bar = (-drift_dot, y_dot, tuple(args_dot))
 
-    diff_dot, vjpfun = jax.vjp(diff_fn, y, *args)
-    diff_bar = (-diff_dot, *vjpfun(y_bar))
+    diff_dot, vjpfun = jax.vjp(diff_fn, y, *inexact(leaves))
+    y_dot, *args_dot = vjpfun(y_bar)
+    diff_bar = (-diff_dot, y_dot, tuple(args_dot))
     return drift_bar, diff_bar
 
   # Run augmented system backwards.
-  aug_init_state = (y1, y1_bar, jax.tree_util.tree_map(jnp.zeros_like, args))
+  aug_init_state = (y1, y1_bar, tuple(map(jnp.zeros_like, inexact(leaves))))
   ts = (-ts[1], -ts[0])
 
   unused_y0, y_bar, args_bar = _sdeint_wrapper(
@@ -179,7 +194,7 @@ def _sdeint_rev(f, reverse, res, y1_bar):
 
   # Note that the differential wrt `t` or `dw` is not implemented, so return
   # None for the corresponding cotangents.
-  return (y_bar, None, None, *args_bar)
+  return (y_bar, None, None, *merge(args_bar, [None] * len(leaves)))
 
 
 _sdeint.defvjp(_sdeint_fwd, _sdeint_rev)
-- 
2.43.0


From b077863a8e55dfc5c0c73b8cb1fe9d2b14db572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 21/28] fix: the evaluation of niles.train used
 Mesh.interpolate, which did not exist

---
 swirl_fem/core/mesh.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/swirl_fem/core/mesh.py b/swirl_fem/core/mesh.py
index 12ff780..dbec773 100644
--- a/swirl_fem/core/mesh.py
+++ b/swirl_fem/core/mesh.py
@@ -23,6 +23,7 @@ import jax.numpy as jnp
 from jax.typing import ArrayLike
 import numpy as np
 from swirl_fem.core import gather_scatter
+from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Nodes1D
 from swirl_fem.core.interpolation import NodeType
 
@@ -167,6 +168,17 @@ class Mesh:
     return gather_scatter.scatter(u_local, indices=self.elements,
                                   num_nodes=self.num_nodes)
 
+  def interpolate(self, u: jax.Array, source_mesh: 'Mesh') -> jax.Array:
+    """Interpolates nodal values on `source_mesh` to the nodes of this mesh.
+
+    Both meshes must have the same elements (possibly of different order).
+    """
+    interpolator = BarycentricInterpolator(
+        ndim=self.ndim, gridpoints_1d=source_mesh.gridpoints_1d,
+        evalpoints_1d=self.gridpoints_1d)
+    u_local = vmap(interpolator.interpolate)(source_mesh.gather(u))
+    return jnp.zeros(self.num_nodes, u.dtype).at[self.elements].set(u_local)
+
   def element_coords(self) -> jax.Array:
     """Returns the coordinates of nodes within each element."""
     return vmap(self.gather, in_axes=-1, out_axes=-1)(self.node_coords)
-- 
2.43.0


From 9acce82720f22396f002e8262769f27688cd9f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 22/28] fix: transformer.MlpBlock called its initializers and
 activation as methods

They were class attributes and not fields, so that no model with a multiscale
encoder could be initialized.
---
 swirl_fem/niles/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 9214ed2..ec9fbf2 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -69,9 +69,9 @@ class MlpBlock(nn.Module):
   mlp_dim: int
   out_dim: int | None = None
   use_bias: bool = True
-  kernel_init = nn.initializers.xavier_uniform()
-  bias_init = nn.initializers.normal(stddev=1e-6)
-  activation_fn = nn.gelu
+  kernel_init: Callable[..., Any] = nn.initializers.xavier_uniform()
+  bias_init: Callable[..., Any] = nn.initializers.normal(stddev=1e-6)
+  activation_fn: Callable[[jax.Array], jax.Array] = nn.gelu
   precision: jax.lax.Precision | None = None
   dtype: jnp.dtype = jnp.float32
 
-- 
2.43.0


From c051d5a2ca8977ea3508e25debc846eacda35b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 23/28] fix: transformer.Model did not accept the train
 argument given by niles.train

---
 swirl_fem/niles/transformer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index ec9fbf2..a6778a2 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -477,8 +477,10 @@ class Model(nn.Module):
                inputs: jnp.ndarray,
                z_rng: jax.Array,
                *,
+               train: bool = False,
                debug: bool = False):
     """Applies Transformer model on the input x."""
+    del train  # There is no dropout.
     dtype = jax.dtypes.canonicalize_dtype(self.dtype)
     # input shape is (batch_size, seq_len, patch_dimension) which is
     # projected to (batch_size, seq_len, width)
-- 
2.43.0


From 644cb7d04e87a96f0904f9203bd29648c8168560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 24/28] fix: the default configuration of niles lacked entries
 which its model requires

---
 swirl_fem/niles/config/niles.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swirl_fem/niles/config/niles.py b/swirl_fem/niles/config/niles.py
index 77971da..bb84e47 100644
--- a/swirl_fem/niles/config/niles.py
+++ b/swirl_fem/niles/config/niles.py
@@ -34,6 +34,10 @@ def get_config():
   config.model_name = 'multiscale_transformer'
   config.model = ml_collections.ConfigDict()
   config.model.width = 48
+  # currently unused
+  config.model.num_layers = 1
+  config.model.num_heads = 1
+  config.model.freeze_encoder = False
 
   # configure the multiscale encoder. set depth = 0 to disable
   config.model.use_residuals = True
@@ -61,6 +65,7 @@ def get_config():
   config.model.processor_config.latent_size = config.model.width * 4
   config.model.processor_config.num_gridpoints = 16
   # below are unused currently in the transformer version
+  config.model.processor_config.num_layers = 4
   config.model.processor_config.num_sde_layers = 4
   config.model.processor_config.context_size = 32
   config.model.processor_config.hidden_size = 32
-- 
2.43.0


From ebecd621b98cc01bb1f7183462842202965ae46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 25/28] fix: integrals of gradients over partitioned meshes
 with padding elements were NaN

---
 swirl_fem/core/fespace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index 3355aa2..8cb0807 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -342,7 +342,11 @@ class FiniteElementSpace:
     # Next, for each element and each quadrature point within an element,
     # compute the `d x d` matrix inverse and its determinant. We vmap first over
     # the elements, and second over the quadrature nodes.
-    invjacs = vmap(vmap(jnp.linalg.inv))(jacs)
+    # Padding elements (of partitioned meshes) have no extent; use the identity
+    # in place of their singular jacobian so that they contribute zero.
+    is_padding = jnp.any(jnp.asarray(mesh.elements) < 0, axis=-1)
+    invjacs = vmap(vmap(jnp.linalg.inv))(
+        jnp.where(is_padding[:, None, None, None], jnp.eye(mesh.ndim), jacs))
     jacdets = vmap(vmap(jnp.linalg.det))(jacs)
     return cls(mesh=mesh, quadrature=quadrature, interpolator=interpolator,
                invjacs=invjacs, jacdets=jacdets, quad_coords=quad_coords)
-- 
2.43.0


From 190792ef2fa8929897fde442d6636c4bd7169926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 26/28] fix: interpolation onto partitioned meshes overwrote
 the last node with padding

---
 swirl_fem/core/mesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh.py b/swirl_fem/core/mesh.py
index dbec773..5276d66 100644
--- a/swirl_fem/core/mesh.py
+++ b/swirl_fem/core/mesh.py
@@ -177,7 +177,11 @@ class Mesh:
         ndim=self.ndim, gridpoints_1d=source_mesh.gridpoints_1d,
         evalpoints_1d=self.gridpoints_1d)
     u_local = vmap(interpolator.interpolate)(source_mesh.gather(u))
-    return jnp.zeros(self.num_nodes, u.dtype).at[self.elements].set(u_local)
+    # Drop the padding elements, which would otherwise write to the last node.
+    indices = jnp.where(self.elements == gather_scatter.SENTINEL,
+                        self.num_nodes, self.elements)
+    return jnp.zeros(self.num_nodes, u.dtype).at[indices].set(
+        u_local, mode='drop')
 
   def element_coords(self) -> jax.Array:
     """Returns the coordinates of nodes within each element."""
-- 
2.43.0


From 62d00b09e0210d5fba0c82093a6c56a67716abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:31 +0000
Subject: [PATCH 27/28] fix: refining a discontinuous premesh to continuous
 nodes gave a wrong mesh

---
 swirl_fem/core/mesh_refiner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 5e4fd6e..c0676df 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -47,12 +47,16 @@ def refine_premesh(premesh: Premesh, gridpoints_1d: Nodes1D) -> Premesh:
     The refined premesh.
 
   Raises:
-    ValueError: If the premesh has order different from 1.
+    ValueError: If the premesh has order different from 1, or if it is
+      discontinuous while `gridpoints_1d` is continuous.
     NotImplementedError: If the premesh has physical groups, or if the
       gridpoints are discontinuous.
   """
   if premesh.order != 1:
     raise ValueError(f'Expecting mesh of order 1. Got {premesh.order}.')
+  if gridpoints_1d.is_continuous() and not premesh.gridpoints_1d.is_continuous():
+    # The nodes of a discontinuous premesh aren't the corners of its elements.
+    raise ValueError('Cannot refine a discontinuous mesh to a continuous one.')
 
   return _MeshRefiner(premesh=premesh, gridpoints_1d=gridpoints_1d).refine()
 
-- 
2.43.0


From d5c7951aac31e4a3046c33a9dbd3f3a2f00a2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 28/28] fix: the images of a node left the exchange apart by a
 rounding, which the velocity solve could blow up

---
 swirl_fem/core/gather_scatter.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 722e79c..1e508c9 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -252,14 +252,13 @@ def exchange(
   if unique_indices is not None:
     updates = updates[unique_indices]
 
-  # Add the updates back to the exchange indices.
-  # This is essentially `u.at[gather_indices].set(updates)`, but since
-  # `gather_indices` could contain sentinel values, use `add` instead; as
-  # otherwise the last index would get overwritten. Also, make sure the
-  # corresponding values being added are zero; for instance, `gather_indices[i]`
-  # has a sentinel if the current partition doesn't have the ith global dof.
-  # The mask zeros out these positions as `updates[i]` is generally not zero.
-  return u.at[gather_indices].add(mask * (updates - initial_values))
+  # Set the exchange indices to the updates. All the nodes sharing a dof get the
+  # very same value: adding the difference to the initial values instead would
+  # leave them apart by a rounding, which an iterative solver can amplify.
+  # `gather_indices[i]` has a sentinel if the current partition doesn't have the
+  # ith global dof; such positions are moved out of bounds, to be dropped.
+  positions = jnp.where(mask, gather_indices, u.shape[0])
+  return u.at[positions].set(updates, mode='drop')
 
 
 def _get_periodic_mapping(periodic_links: np.ndarray | None) -> dict[int, int]:
-- 
2.43.0

