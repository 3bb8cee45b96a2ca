From 6af4a5c2546af0562bc3c0e6061c9698b26f0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:16 +0000
Subject: [PATCH 01/38] fix: key the cached sparse factors on the value dtype

A float32 solve after a float64 one with the same sparsity reused the float64
factor object and raised.
---
 feax/solvers/direct/cholmod.py | 3 +++
 feax/solvers/direct/umfpack.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/feax/solvers/direct/cholmod.py b/feax/solvers/direct/cholmod.py
index 5f1b2e0..8494a64 100644
--- a/feax/solvers/direct/cholmod.py
+++ b/feax/solvers/direct/cholmod.py
@@ -26,6 +26,7 @@ def _make_cholmod_state():
         "csr_columns": None,
         "csr_offsets": None,
         "n": None,
+        "dtype": None,
     }
 
 
@@ -45,12 +46,14 @@ def _factorize_and_solve_with_cache(state, *, lower, order, values, columns, off
         or state["csr_offsets"] is None
         or state["csr_offsets"].shape != offsets.shape
         or not np.array_equal(state["csr_offsets"], offsets)
+        or state["dtype"] != values.dtype
     )
     if pattern_changed:
         state["factor"] = cholmod.cho_factor(A_csc, lower=lower, order=order, sym_kind="sym")
         state["csr_columns"] = columns.copy()
         state["csr_offsets"] = offsets.copy()
         state["n"] = n
+        state["dtype"] = values.dtype
     else:
         state["factor"].factorize(A_csc)
 
diff --git a/feax/solvers/direct/umfpack.py b/feax/solvers/direct/umfpack.py
index b2f1b37..234c845 100644
--- a/feax/solvers/direct/umfpack.py
+++ b/feax/solvers/direct/umfpack.py
@@ -29,6 +29,7 @@ def _make_umfpack_state():
         "csr_columns": None,
         "csr_offsets": None,
         "n": None,
+        "dtype": None,
     }
 
 
@@ -47,12 +48,14 @@ def _factorize_and_solve_with_cache(state, *, trans, values, columns, offsets, r
         or state["csr_offsets"] is None
         or state["csr_offsets"].shape != offsets.shape
         or not np.array_equal(state["csr_offsets"], offsets)
+        or state["dtype"] != values.dtype
     )
     if pattern_changed:
         state["factor"] = umf_factor(A_csc)
         state["csr_columns"] = columns.copy()
         state["csr_offsets"] = offsets.copy()
         state["n"] = n
+        state["dtype"] = values.dtype
     else:
         state["factor"].factorize(A_csc)
 
-- 
2.43.0


From a2eef872d8e9b6b02753830fa43e6fa0f2194c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:33 +0000
Subject: [PATCH 02/38] fix: replace the cached sparse factor and its pattern
 together

An allocation failure or interrupt between storing the new factor and storing
its pattern left a factor recorded under the previous pattern; the next solve
with that pattern was carried out with the wrong symbolic factorization.
---
 feax/solvers/direct/cholmod.py | 15 ++++++++++-----
 feax/solvers/direct/umfpack.py | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/feax/solvers/direct/cholmod.py b/feax/solvers/direct/cholmod.py
index 8494a64..6e80fdf 100644
--- a/feax/solvers/direct/cholmod.py
+++ b/feax/solvers/direct/cholmod.py
@@ -49,11 +49,16 @@ def _factorize_and_solve_with_cache(state, *, lower, order, values, columns, off
         or state["dtype"] != values.dtype
     )
     if pattern_changed:
-        state["factor"] = cholmod.cho_factor(A_csc, lower=lower, order=order, sym_kind="sym")
-        state["csr_columns"] = columns.copy()
-        state["csr_offsets"] = offsets.copy()
-        state["n"] = n
-        state["dtype"] = values.dtype
+        # Build everything first: a failure must not leave a factor that does
+        # not belong to the recorded pattern.
+        new_state = {
+            "factor": cholmod.cho_factor(A_csc, lower=lower, order=order, sym_kind="sym"),
+            "csr_columns": columns.copy(),
+            "csr_offsets": offsets.copy(),
+            "n": n,
+            "dtype": values.dtype,
+        }
+        state.update(new_state)
     else:
         state["factor"].factorize(A_csc)
 
diff --git a/feax/solvers/direct/umfpack.py b/feax/solvers/direct/umfpack.py
index 234c845..e0cc0c3 100644
--- a/feax/solvers/direct/umfpack.py
+++ b/feax/solvers/direct/umfpack.py
@@ -51,11 +51,16 @@ def _factorize_and_solve_with_cache(state, *, trans, values, columns, offsets, r
         or state["dtype"] != values.dtype
     )
     if pattern_changed:
-        state["factor"] = umf_factor(A_csc)
-        state["csr_columns"] = columns.copy()
-        state["csr_offsets"] = offsets.copy()
-        state["n"] = n
-        state["dtype"] = values.dtype
+        # Build everything first: a failure must not leave a factor that does
+        # not belong to the recorded pattern.
+        new_state = {
+            "factor": umf_factor(A_csc),
+            "csr_columns": columns.copy(),
+            "csr_offsets": offsets.copy(),
+            "n": n,
+            "dtype": values.dtype,
+        }
+        state.update(new_state)
     else:
         state["factor"].factorize(A_csc)
 
-- 
2.43.0


From 9f7f2a26bdef096e8e7316e9160ce2cc187b430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:45 +0000
Subject: [PATCH 03/38] fix: serialise callers that share one cached sparse
 factor

Two threads solving through the same cached factor could interleave between
one caller's factorize and solve; the other then got the solution of the
wrong matrix.
---
 feax/solvers/direct/cholmod.py | 10 +++++++++-
 feax/solvers/direct/umfpack.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/direct/cholmod.py b/feax/solvers/direct/cholmod.py
index 6e80fdf..97dac59 100644
--- a/feax/solvers/direct/cholmod.py
+++ b/feax/solvers/direct/cholmod.py
@@ -1,6 +1,7 @@
 """CHOLMOD-based sparse solves via JAX pure callbacks."""
 
 import functools as ft
+import threading
 from typing import Optional
 
 import jax
@@ -108,7 +109,14 @@ def _get_cholmod_host_callback(
         )
         return x_np.reshape(b_np.shape)
 
-    return _host_callback
+    # Concurrent callers share ``state``: one factorize-and-solve at a time.
+    lock = threading.Lock()
+
+    def _locked_host_callback(*args):
+        with lock:
+            return _host_callback(*args)
+
+    return _locked_host_callback
 
 
 @ft.partial(jax.jit, static_argnames=("lower", "order", "cache_namespace"))
diff --git a/feax/solvers/direct/umfpack.py b/feax/solvers/direct/umfpack.py
index e0cc0c3..8ab7392 100644
--- a/feax/solvers/direct/umfpack.py
+++ b/feax/solvers/direct/umfpack.py
@@ -5,6 +5,7 @@ using :func:`sksparse.umfpack.umf_solve` as the host-side direct solver.
 """
 
 import functools as ft
+import threading
 
 import jax
 import numpy as np
@@ -121,7 +122,14 @@ def _get_umfpack_host_callback(
         )
         return np.asarray(x_flat, dtype=b_f.dtype).reshape(b_f.shape, order="F")
 
-    return _host_callback
+    # Concurrent callers share ``state``: one factorize-and-solve at a time.
+    lock = threading.Lock()
+
+    def _locked_host_callback(*args):
+        with lock:
+            return _host_callback(*args)
+
+    return _locked_host_callback
 
 
 @ft.partial(jax.jit, static_argnames=("trans", "cache_namespace"))
-- 
2.43.0


From 5ee6bb769f1b4998de7fd03f44c7ae933676745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:06 +0000
Subject: [PATCH 04/38] fix: land on t_end without a rounding-noise step

Accumulated rounding in t left a last step of ~1e-14 (e.g. 100 steps of 0.7
took 101), dividing by which ruins implicit pipelines.
---
 feax/solvers/time_solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/feax/solvers/time_solver.py b/feax/solvers/time_solver.py
index d7f070b..5bd58c1 100644
--- a/feax/solvers/time_solver.py
+++ b/feax/solvers/time_solver.py
@@ -539,12 +539,14 @@ def run(
     step = 0
 
     while t < time.t_end - 1e-14 * time.dt:
-        # Clamp dt so we land exactly on t_end
-        dt_eff = min(dt, time.t_end - t)
+        # Clamp dt so we land exactly on t_end; the last step absorbs the
+        # rounding error accumulated in t instead of leaving a sliver step.
+        last = time.t_end - t <= dt * (1.0 + 1e-6)
+        dt_eff = time.t_end - t if last else dt
 
         step += 1
         state = pipeline.step(state, t, dt_eff)
-        t += dt_eff
+        t = time.t_end if last else t + dt_eff
 
         # Monitor & log
         vals = _record(state, step, t)
-- 
2.43.0


From 091c00a1502ec92b5912f47aee9999e61e25f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:20 +0000
Subject: [PATCH 05/38] fix: close history.csv when a time run fails

The abandoned handle kept a partly written row in its buffer and flushed it,
when collected, into the table of a rerun into the same directory.
---
 feax/solvers/time_solver.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/time_solver.py b/feax/solvers/time_solver.py
index 5bd58c1..9a06a44 100644
--- a/feax/solvers/time_solver.py
+++ b/feax/solvers/time_solver.py
@@ -40,6 +40,7 @@ from __future__ import annotations
 import csv
 import os
 from abc import ABC, abstractmethod
+from contextlib import ExitStack
 from dataclasses import dataclass, field
 from typing import Any, Callable, Dict, List, Optional, Tuple
 
@@ -476,6 +477,14 @@ def run(
     -------
     TimeResult
     """
+    # Close history.csv on failure too: a half-written row still buffered in an
+    # abandoned handle would later be flushed into the table of the next run.
+    with ExitStack() as files:
+        return _run(pipeline, mesh, time, adaptive_dt, output_dir, callbacks, files)
+
+
+def _run(pipeline, mesh, time, adaptive_dt, output_dir, callbacks, files) -> TimeResult:
+    """Body of :func:`run`; *files* closes what is opened here."""
     callbacks = callbacks or []
 
     # -- Build ----------------------------------------------------------------
@@ -495,8 +504,8 @@ def run(
     csv_file = csv_writer = None
     if output_dir:
         os.makedirs(output_dir, exist_ok=True)
-        csv_file = open(
-            os.path.join(output_dir, 'history.csv'), 'w', newline='')
+        csv_file = files.enter_context(open(
+            os.path.join(output_dir, 'history.csv'), 'w', newline=''))
         csv_writer = csv.writer(csv_file)
         csv_writer.writerow(['step', 'time'] + monitor_keys)
         csv_file.flush()
-- 
2.43.0


From 60391f2237fbd5b7d217696e38a06a18d2f50d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:09 +0000
Subject: [PATCH 06/38] fix: keep passive design vars pinned after a remesh
 with equal node count

The collapsed bounds still applied but the transferred design did not satisfy
them, so NLopt rejected the start point and the run died.
---
 feax/gene/optimizer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index ab79b5e..456ece8 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -357,10 +357,15 @@ def run(
                   if passive_solid is not None else onp.empty(0, dtype=int))
     _pas_void = (onp.asarray(passive_void, dtype=int)
                  if passive_void is not None else onp.empty(0, dtype=int))
-    if _pas_solid.size:
-        x[_pas_solid] = 1.0
-    if _pas_void.size:
-        x[_pas_void] = rho_bounds[0]
+
+    def _pin_passive(x):
+        """Set the passive design vars (indices of the initial mesh only)."""
+        if x.shape[0] == _n0:
+            x[_pas_solid] = 1.0
+            x[_pas_void] = rho_bounds[0]
+        return x
+
+    x = _pin_passive(x)
 
     # -- File output ----------------------------------------------------------
     csv_file = csv_writer = None
@@ -565,6 +570,7 @@ def run(
                 x = adaptive_mod.interpolate_field(
                     x, cur_mesh, onp.array(new_mesh.points),
                     clip=rho_bounds)
+            x = _pin_passive(onp.array(x))
             new_n = new_mesh.points.shape[0]
             print(f"  >>> Remesh: {old_n} -> {new_n} nodes")
 
-- 
2.43.0


From 21b251f3c1c547784539fcbd1a0cbf1712d6b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:38 +0000
Subject: [PATCH 07/38] fix: start the optimizer within the design bounds

Without rho_init a constraint target below the lower density bound was taken
as initial density and NLopt rejected the start point.
---
 feax/gene/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index 456ece8..bee4c89 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -348,6 +348,8 @@ def run(
     for _, _, target, ctype in constraints:
         if ctype == 'le':
             default_init = min(default_init, target)
+    # A target is not necessarily a density (e.g. a displacement limit).
+    default_init = min(max(default_init, rho_bounds[0]), rho_bounds[1])
     x = (onp.full(mesh.points.shape[0], default_init)
          if rho_init is None else onp.array(rho_init))
 
-- 
2.43.0


From f765a84a3f79ce0ddc7f1127d527c976099af00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:06 +0000
Subject: [PATCH 08/38] fix: clamp continuation values at both ends

Documented as always clamped between initial and final; a step away from the
final value left the interval without limit.
---
 feax/gene/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index bee4c89..b9298ea 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -164,8 +164,8 @@ class Continuation:
         n = max(0, iteration // self.update_every)
         v = self.initial + self.step * n
         if self.final >= self.initial:
-            return min(v, self.final)
-        return max(v, self.final)
+            return max(min(v, self.final), self.initial)
+        return min(max(v, self.final), self.initial)
 
 
 @dataclass
-- 
2.43.0


From 0e03a45561df2ac6206a942ff8bacf769f470845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:43 +0000
Subject: [PATCH 09/38] fix: recompile optimizer constraints after every remesh

jax.jit of the same bound method returns the trace made on the previous mesh
when the new mesh has the same node count, so constraints were evaluated with
the old mesh's data.
---
 feax/gene/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index b9298ea..df89630 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -32,6 +32,7 @@ import csv
 import os
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, field
+from functools import partial
 from typing import Any, Callable, Dict, List, Optional, Tuple
 
 import jax
@@ -257,7 +258,9 @@ def _compile(pipeline, constraints, use_jit):
 
     compiled_constraints = []
     for name, method, target, ctype in constraints:
-        fn_jit = wrap(method)
+        # A fresh function per compilation: jax.jit would return the trace of
+        # the same bound method on the previous mesh when the shapes agree.
+        fn_jit = wrap(partial(method))
         grad_fn = wrap(jax.grad(method))
         compiled_constraints.append((name, fn_jit, grad_fn, target, ctype))
 
-- 
2.43.0


From 07fb91a787046fb8ed31ab7b5388ddd4d4fe2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:34 +0000
Subject: [PATCH 10/38] fix: let an XDMFWriter be entered again

A failed __enter__ kept the HDF5 file open, so it could not be reopened, and a
second session was still held to the field set of the first.
---
 feax/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index 50752f4..aced0b5 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -294,10 +294,17 @@ class XDMFWriter:
         import h5py
         # Truncate the .h5 file and write the mesh once.
         self._h5 = h5py.File(self._h5_filename, "w")
-        self._h5.create_dataset("mesh/points", data=self._points)
-        self._h5.create_dataset("mesh/cells", data=self._cells)
+        try:
+            self._h5.create_dataset("mesh/points", data=self._points)
+            self._h5.create_dataset("mesh/cells", data=self._cells)
+        except BaseException:
+            # __exit__ will not run: release the file so it can be reopened.
+            self._h5.close()
+            self._h5 = None
+            raise
         self._frames = []
         self._frame_id = 0
+        self._field_signature = None
         return self
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
-- 
2.43.0


From 77e8b662ca5bdb6412a3a2697fd6a63213f59b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:17 +0000
Subject: [PATCH 11/38] fix: reject a bad XDMF frame before touching the store

A frame with changed names or shapes, or one whose write failed, could leave
its data half-registered and block later valid frames.
---
 feax/utils.py | 50 +++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index aced0b5..4912c72 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -345,41 +345,45 @@ class XDMFWriter:
                 "wrap calls in `with XDMFWriter(...) as w:`"
             )
 
+        # Validate the whole frame before touching the store, so a rejected
+        # frame leaves no trace.
+        point_arrays = [(name, _normalize_field(name, data, self._n_points))
+                        for name, data in (point_infos or [])]
+        cell_arrays = [(name, _normalize_field(name, data, self._n_cells))
+                       for name, data in (cell_infos or [])]
+
+        # Validate field signature (names and shapes) is consistent across
+        # frames so the resulting XDMF is a well-formed time series.
         frame_id = self._frame_id
-        prefix = f"frame_{frame_id:06d}"
-        self._h5.create_group(prefix)
-
-        # Validate field signature is consistent across frames so the
-        # resulting XDMF is a well-formed time series.
         signature_keys = (
-            tuple(name for name, _ in (point_infos or [])),
-            tuple(name for name, _ in (cell_infos or [])),
+            tuple((name,) + self._attribute_type(arr.shape) for name, arr in point_arrays),
+            tuple((name,) + self._attribute_type(arr.shape) for name, arr in cell_arrays),
         )
-        if self._field_signature is None:
-            self._field_signature = signature_keys
-        elif self._field_signature != signature_keys:
+        if self._field_signature is not None and self._field_signature != signature_keys:
             raise ValueError(
                 f"Field set changed between frames: "
                 f"first frame had {self._field_signature}, frame {frame_id} "
                 f"has {signature_keys}.  XDMF time series requires every "
-                "frame to have the same field names."
+                "frame to have the same field names and shapes."
             )
+        time = float(time)
+
+        # The id is used up even if writing fails: the group may exist by then.
+        self._frame_id += 1
+        prefix = f"frame_{frame_id:06d}"
+        self._h5.create_group(prefix)
 
         point_records = []
-        if point_infos:
-            for name, data in point_infos:
-                arr = _normalize_field(name, data, self._n_points)
-                self._h5.create_dataset(f"{prefix}/point/{name}", data=arr)
-                point_records.append((name, arr.shape))
+        for name, arr in point_arrays:
+            self._h5.create_dataset(f"{prefix}/point/{name}", data=arr)
+            point_records.append((name, arr.shape))
         cell_records = []
-        if cell_infos:
-            for name, data in cell_infos:
-                arr = _normalize_field(name, data, self._n_cells)
-                self._h5.create_dataset(f"{prefix}/cell/{name}", data=arr)
-                cell_records.append((name, arr.shape))
+        for name, arr in cell_arrays:
+            self._h5.create_dataset(f"{prefix}/cell/{name}", data=arr)
+            cell_records.append((name, arr.shape))
 
-        self._frames.append((float(time), prefix, point_records, cell_records))
-        self._frame_id += 1
+        self._field_signature = signature_keys
+        self._frames.append((time, prefix, point_records, cell_records))
 
     # -- XML emission --------------------------------------------------------
 
-- 
2.43.0


From 7385780600d76768eecb9a2011a98ce60ba9245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:21 +0000
Subject: [PATCH 12/38] fix: join the distributed job at the configured port

The launcher passed JAX_COORD_PORT but initialize() always used 1234.
---
 feax/distributed/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index c463e46..3234b55 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -26,9 +26,9 @@ import jax
 def initialize():
     """Initialize JAX distributed runtime from environment variables.
 
-    Reads JAX_COORD_ADDR, JAX_NUM_PROCESSES, and JAX_PROCESS_ID from
-    the environment. If JAX_COORD_ADDR is not set, does nothing
-    (single-node mode).
+    Reads JAX_COORD_ADDR, JAX_COORD_PORT (default 1234),
+    JAX_NUM_PROCESSES, and JAX_PROCESS_ID from the environment. If
+    JAX_COORD_ADDR is not set, does nothing (single-node mode).
 
     Returns:
         True if distributed mode was initialized, False otherwise.
@@ -36,7 +36,7 @@ def initialize():
     coord = os.environ.get("JAX_COORD_ADDR")
     if coord:
         jax.distributed.initialize(
-            coordinator_address=f"{coord}:1234",
+            coordinator_address=f"{coord}:{os.environ.get('JAX_COORD_PORT', '1234')}",
             num_processes=int(os.environ["JAX_NUM_PROCESSES"]),
             process_id=int(os.environ["JAX_PROCESS_ID"]),
         )
-- 
2.43.0


From 251ca6fae656a03a9efcf5ad6e0e3d7e5d58039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:21 +0000
Subject: [PATCH 13/38] fix: accept an empty nodes: entry in the cluster
 configuration

---
 feax/distributed/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index 3234b55..2c38963 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -120,7 +120,7 @@ def _launch(config_path, script, script_args):
     config = _load_config(config_path)
     coordinator = config["coordinator"]
     port = config.get("port", 1234)
-    nodes = config.get("nodes", [])
+    nodes = config.get("nodes") or []
     num_processes = 1 + len(nodes)
 
     # Start workers on remote nodes in background
-- 
2.43.0


From 34764ba8f452ddfa97c9bb44029eb5343a2bf051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:21 +0000
Subject: [PATCH 14/38] fix: pass the script arguments to every process of a
 launch

Workers ran the script without its arguments, and arguments starting with a
dash were rejected by the launcher.
---
 feax/distributed/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index 2c38963..920b978 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -17,6 +17,7 @@ Usage as CLI launcher:
 """
 
 import os
+import shlex
 import subprocess
 import sys
 
@@ -137,12 +138,14 @@ def _launch(config_path, script, script_args):
 
         docker_cmd = (
             f"docker exec -i"
-            f" -e JAX_COORD_ADDR={coordinator}"
+            f" -e JAX_COORD_ADDR={shlex.quote(str(coordinator))}"
             f" -e JAX_COORD_PORT={port}"
             f" -e JAX_NUM_PROCESSES={num_processes}"
             f" -e JAX_PROCESS_ID={i}"
-            f" {container} python3 -"
+            f" {shlex.quote(str(container))} python3 -"
         )
+        if script_args:
+            docker_cmd += " " + shlex.join(script_args)
         ssh_cmd.append(docker_cmd)
 
         with open(script) as f:
@@ -179,7 +182,7 @@ def main():
         help="Path to cluster config YAML (default: distributed.yml)",
     )
     parser.add_argument("script", help="Python script to run")
-    parser.add_argument("args", nargs="*", help="Arguments for the script")
+    parser.add_argument("args", nargs=argparse.REMAINDER, help="Arguments for the script")
 
     args = parser.parse_args()
     _launch(args.config, args.script, args.args)
-- 
2.43.0


From 570cee8a93a57c95819baddd0034855453ba2423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:40 +0000
Subject: [PATCH 15/38] fix: report a failed worker in the launcher's exit
 status

---
 feax/distributed/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index 920b978..199873c 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -166,6 +166,10 @@ def _launch(config_path, script, script_args):
     for proc in workers:
         proc.wait()
 
+    # The job failed if any of its processes did.
+    failed = [proc.returncode for proc in workers if proc.returncode]
+    if result.returncode == 0 and failed:
+        sys.exit(failed[0])
     sys.exit(result.returncode)
 
 
-- 
2.43.0


From 0ac826a9af9039cc52962674a7e2dccfede9d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:40 +0000
Subject: [PATCH 16/38] fix: end the started workers when a launch fails or is
 interrupted

---
 feax/distributed/__init__.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index 199873c..863a34b 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -118,6 +118,20 @@ def _load_config(config_path):
 
 def _launch(config_path, script, script_args):
     """Launch a script across all nodes defined in the config."""
+    workers = []
+    try:
+        _run_job(config_path, script, script_args, workers)
+    finally:
+        # Leave no worker behind when the launch fails or is interrupted.
+        for proc in workers:
+            if proc.poll() is None:
+                proc.kill()
+        for proc in workers:
+            proc.wait()
+
+
+def _run_job(config_path, script, script_args, workers):
+    """Start all processes of the job (appended to *workers*), wait and exit."""
     config = _load_config(config_path)
     coordinator = config["coordinator"]
     port = config.get("port", 1234)
@@ -125,7 +139,6 @@ def _launch(config_path, script, script_args):
     num_processes = 1 + len(nodes)
 
     # Start workers on remote nodes in background
-    workers = []
     for i, node in enumerate(nodes, start=1):
         host = node["host"]
         ssh_key = node.get("ssh_key", "")
-- 
2.43.0


From b0badf39ae2e041f43842cbeb1fc02fcd5c6c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:20 +0000
Subject: [PATCH 17/38] fix: close the gmsh session when its first option
 cannot be set

---
 feax/gene/adaptive.py |  4 ++--
 feax/mesh.py          | 11 ++++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index a0c80c9..5f3e84e 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -370,8 +370,8 @@ def adaptive_mesh(
     size_cb, _ = _make_size_callback(refinement_field, old_mesh, h_min, h_max)
 
     gmsh.initialize()
-    gmsh.option.setNumber("General.Terminal", 0)
     try:
+        gmsh.option.setNumber("General.Terminal", 0)
         gmsh.model.add("adaptive")
 
         if isinstance(geometry, str):
@@ -448,8 +448,8 @@ def adaptive_box_mesh(
         size_cb, _ = _make_size_callback(refinement_field, old_mesh, h_lo, h_hi)
 
         gmsh.initialize()
-        gmsh.option.setNumber("General.Terminal", 0)
         try:
+            gmsh.option.setNumber("General.Terminal", 0)
             gmsh.model.add("adaptive_box")
             gmsh.model.occ.addBox(x0, y0, z0, lx, ly, lz)
             gmsh.model.occ.synchronize()
diff --git a/feax/mesh.py b/feax/mesh.py
index f0f8fbb..e5243ce 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -340,9 +340,8 @@ def box_mesh(
 
     # Initialize Gmsh
     gmsh.initialize()
-    gmsh.option.setNumber("General.Terminal", 0)  # Suppress terminal output
-
     try:
+        gmsh.option.setNumber("General.Terminal", 0)  # Suppress terminal output
         gmsh.model.add("box")
 
         # Create box geometry
@@ -634,9 +633,8 @@ def sphere_mesh(
         raise ValueError(f"element_type must be 'HEX8' or 'TET4', got {element_type}")
 
     gmsh.initialize()
-    gmsh.option.setNumber("General.Terminal", 0)
-
     try:
+        gmsh.option.setNumber("General.Terminal", 0)
         gmsh.model.add("sphere")
 
         # Create sphere geometry
@@ -745,9 +743,8 @@ def cylinder_mesh(
         raise ValueError(f"element_type must be 'HEX8' or 'TET4', got {element_type}")
 
     gmsh.initialize()
-    gmsh.option.setNumber("General.Terminal", 0)
-
     try:
+        gmsh.option.setNumber("General.Terminal", 0)
         gmsh.model.add("cylinder")
 
         # Normalize axis
@@ -948,8 +945,8 @@ def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
 
     # Initialise Gmsh and inject the existing mesh as a discrete entity.
     gmsh.initialize()
-    gmsh.option.setNumber("General.Terminal", 0)
     try:
+        gmsh.option.setNumber("General.Terminal", 0)
         gmsh.model.add("refine")
         ent_tag = gmsh.model.addDiscreteEntity(dim)
 
-- 
2.43.0


From 7659cceb4bf38e899416a7065c8e03249e9384c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:20 +0000
Subject: [PATCH 18/38] fix: reject a refinement field that does not match the
 old mesh

The lookup error was swallowed inside the Gmsh size callback.
---
 feax/gene/adaptive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index 5f3e84e..616e698 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -214,6 +214,11 @@ def _make_size_callback(refinement_field, old_mesh, h_min, h_max):
     """
     if refinement_field is not None and old_mesh is not None:
         _field = onp.array(refinement_field).clip(0, 1)
+        # Gmsh swallows exceptions of the size callback: check here.
+        if len(_field) != len(old_mesh.points):
+            raise ValueError(
+                f"refinement_field has {len(_field)} values, old_mesh has "
+                f"{len(old_mesh.points)} nodes")
         _tree = cKDTree(onp.array(old_mesh.points))
         _uniform = float(_field.max()) - float(_field.min()) < 1e-8
     else:
-- 
2.43.0


From 7c8cfe6545e748e050523486fc7777b5c3a8a2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:44 +0000
Subject: [PATCH 19/38] fix: remove temporary files and end the gmsh session
 when volume meshing fails

---
 feax/gene/mesh_extraction.py | 18 ++++++++++++------
 feax/gene/sdf.py             | 21 ++++++++++++---------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/feax/gene/mesh_extraction.py b/feax/gene/mesh_extraction.py
index 4bda603..a6b5c1e 100644
--- a/feax/gene/mesh_extraction.py
+++ b/feax/gene/mesh_extraction.py
@@ -20,6 +20,7 @@ Example
 from __future__ import annotations
 
 import sys
+from contextlib import ExitStack
 from typing import Optional, Tuple
 
 import numpy as onp
@@ -154,6 +155,14 @@ def extract_volume_mesh(
     feax.Mesh
         Volumetric finite element mesh of the solid region.
     """
+    # Temporary files and the Gmsh session are released on failure too.
+    with ExitStack() as cleanup:
+        return _extract_volume_mesh(
+            density, mesh, threshold, mesh_size, element_type, cleanup)
+
+
+def _extract_volume_mesh(density, mesh, threshold, mesh_size, element_type, cleanup):
+    """Body of :func:`extract_volume_mesh`; *cleanup* releases what it acquires."""
     import tempfile
     import os
 
@@ -179,6 +188,7 @@ def extract_volume_mesh(
     # Step 2: write temporary STL
     with tempfile.NamedTemporaryFile(suffix='.stl', delete=False) as f:
         stl_path = f.name
+    cleanup.callback(os.unlink, stl_path)
     surface.save(stl_path)
 
     # Step 3: default mesh size from input mesh
@@ -190,6 +200,7 @@ def extract_volume_mesh(
 
     # Step 4: Gmsh volume meshing
     gmsh.initialize()
+    cleanup.callback(gmsh.finalize)
     gmsh.option.setNumber("General.Verbosity", 1)
     gmsh.merge(stl_path)
 
@@ -203,8 +214,6 @@ def extract_volume_mesh(
 
     surfaces = gmsh.model.getEntities(2)
     if not surfaces:
-        gmsh.finalize()
-        os.unlink(stl_path)
         raise RuntimeError(
             "Gmsh could not create surfaces from STL. "
             "Try adjusting the threshold."
@@ -224,16 +233,13 @@ def extract_volume_mesh(
 
     with tempfile.NamedTemporaryFile(suffix='.msh', delete=False) as f:
         msh_path = f.name
+    cleanup.callback(os.unlink, msh_path)
     gmsh.write(msh_path)
-    gmsh.finalize()
 
     # Step 5: convert to feax Mesh
     msh_data = meshio.read(msh_path)
     result_mesh = Mesh.from_gmsh(msh_data, element_type=element_type)
 
-    os.unlink(stl_path)
-    os.unlink(msh_path)
-
     print(f"Volume mesh: {result_mesh.points.shape[0]} nodes, "
           f"{result_mesh.cells.shape[0]} elements ({element_type})")
 
diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index f6943a9..0c2915d 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -22,6 +22,7 @@ Example
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
+from contextlib import ExitStack
 from typing import Optional, Tuple
 
 import basix
@@ -196,6 +197,14 @@ class SDF(ABC):
         RuntimeError
             If Gmsh fails to generate the volume mesh.
         """
+        # Temporary files and the Gmsh session are released on failure too.
+        with ExitStack() as cleanup:
+            return self._to_volume_mesh(
+                resolution, mesh_size, bounds, padding, element_type, cleanup)
+
+    def _to_volume_mesh(self, resolution, mesh_size, bounds, padding, element_type, cleanup):
+        """Body of :meth:`to_volume_mesh`; *cleanup* releases what it acquires."""
+        import os
         import tempfile
 
         try:
@@ -216,6 +225,7 @@ class SDF(ABC):
         # Step 2: write temporary STL
         with tempfile.NamedTemporaryFile(suffix='.stl', delete=False) as f:
             stl_path = f.name
+        cleanup.callback(os.unlink, stl_path)
         stl_mesh = meshio.Mesh(points=verts, cells=[("triangle", faces)])
         stl_mesh.write(stl_path)
 
@@ -229,6 +239,7 @@ class SDF(ABC):
             mesh_size = diag / resolution * 2.0
 
         gmsh.initialize()
+        cleanup.callback(gmsh.finalize)
         gmsh.option.setNumber("General.Verbosity", 1)
         gmsh.merge(stl_path)
 
@@ -242,9 +253,6 @@ class SDF(ABC):
 
         surfaces = gmsh.model.getEntities(2)
         if not surfaces:
-            gmsh.finalize()
-            import os
-            os.unlink(stl_path)
             raise RuntimeError(
                 "Gmsh could not create surfaces from STL. "
                 "Try increasing resolution or enabling watertight repair."
@@ -264,18 +272,13 @@ class SDF(ABC):
 
         with tempfile.NamedTemporaryFile(suffix='.msh', delete=False) as f:
             msh_path = f.name
+        cleanup.callback(os.unlink, msh_path)
         gmsh.write(msh_path)
-        gmsh.finalize()
 
         # Step 4: read back as feax Mesh
         msh_data = meshio.read(msh_path)
         result_mesh = Mesh.from_gmsh(msh_data, element_type=element_type)
 
-        # Cleanup temp files
-        import os
-        os.unlink(stl_path)
-        os.unlink(msh_path)
-
         print(f"Volume mesh: {result_mesh.points.shape[0]} nodes, "
               f"{result_mesh.cells.shape[0]} elements ({element_type})")
 
-- 
2.43.0


From 1553750a629df53a0cb6827c27450b73fe52fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:43 +0000
Subject: [PATCH 20/38] fix: refine_mesh no longer fails after an unrelated
 mesh generation failed

Gmsh keeps its error count over finalize(), and mesh.refine() drops every
element while the count is nonzero, so one rejected box or sphere made the
next refine_mesh in the process raise.
---
 feax/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/feax/mesh.py b/feax/mesh.py
index e5243ce..6929fab 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -947,6 +947,9 @@ def refine_mesh(mesh: Mesh, levels: int = 1) -> Mesh:
     gmsh.initialize()
     try:
         gmsh.option.setNumber("General.Terminal", 0)
+        # Gmsh's error count survives finalize(), and refine() drops all
+        # elements while it is nonzero; clear() resets it.
+        gmsh.clear()
         gmsh.model.add("refine")
         ent_tag = gmsh.model.addDiscreteEntity(dim)
 
-- 
2.43.0


From 838d5113e25b97c9e177672bbd7b559a90664f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:11 +0000
Subject: [PATCH 21/38] fix: SDF.to_volume_mesh passes classifySurfaces an
 argument gmsh has

The keyword did not exist in gmsh's API, so every call raised TypeError.
---
 feax/gene/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 0c2915d..c43b97f 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -247,7 +247,7 @@ class SDF(ABC):
         gmsh.model.mesh.classifySurfaces(
             angle=40 * 3.14159265 / 180,
             boundary=True,
-            forceParametrizablePatches=True,
+            forReparametrization=True,
         )
         gmsh.model.mesh.createGeometry()
 
-- 
2.43.0


From a0f3e0db9dcb17a1f1bca55d8119e54f1de43813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:35 +0000
Subject: [PATCH 22/38] fix: a zero surface coefficient in the sample
 parameters no longer removes its tangent from later solves

create_solver(linear=True, traced_params=...) with a direct solver probed the
surface Jacobian at the sample values only, so a Robin or follower coefficient
that happened to be zero there was dropped for good and later calls with a
nonzero coefficient returned wrong solutions.
---
 feax/assembler.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 4391556..0556c15 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -1330,6 +1330,10 @@ def detect_zero_surface_jacobian(problem: 'Problem',
     (``u``-)dependent 'follower' loads, or any probing error, return ``False``
     (keep the surface term — correct, just not the fast path).
 
+    ``traced_params`` is only a sample: a follower or Robin coefficient may be
+    zero in it and nonzero in a later call. The probe therefore also runs with
+    every surface variable shifted to nonuniform nonzero values.
+
     When ``True``, :func:`_get_J_csr` drops the surface Jacobian term. Besides
     saving a zero assembly, this removes the operator's trace dependence on
     ``surface_vars``, so a ``jax.vmap`` over the LOAD leaves the stiffness
@@ -1342,15 +1346,26 @@ def detect_zero_surface_jacobian(problem: 'Problem',
         return False
     try:
         n = problem.num_total_dofs_all_vars
+
+        def shifted(v):
+            v = np.asarray(v)
+            return v + (1.0 + np.max(np.abs(v))) * np.linspace(
+                0.37, 1.21, v.size, dtype=v.dtype).reshape(v.shape)
+
+        shifted_vars = jax.tree_util.tree_map(shifted, traced_params.surface_vars)
         # Two asymmetric nonzero patterns: a genuinely u-dependent map is
         # vanishingly unlikely to have an exactly-zero tangent at both.
-        for sol_flat in (np.linspace(0.13, 1.0, n), np.linspace(-0.9, 0.41, n)):
+        for sol_flat, surface_vars in (
+                (np.linspace(0.13, 1.0, n), traced_params.surface_vars),
+                (np.linspace(-0.9, 0.41, n), traced_params.surface_vars),
+                (np.linspace(0.13, 1.0, n), shifted_vars),
+                (np.linspace(-0.9, 0.41, n), shifted_vars)):
             sol_list = problem.unflatten_fn_sol_list(sol_flat)
             cells_sol_list = [sol[cells] for cells, sol in zip(src.cells_list, sol_list)]
             cells_sol_flat = jax.vmap(
                 lambda *x: jax.flatten_util.ravel_pytree(x)[0])(*cells_sol_list)
             _, jacs = compute_face(problem, cells_sol_flat, True,
-                                   traced_params.surface_vars, ts)
+                                   surface_vars, ts)
             for j in jacs:
                 if float(np.max(np.abs(j))) != 0.0:
                     return False
-- 
2.43.0


From 2ba68ae1551757b164ee14339efbaa6f06679083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:49 +0000
Subject: [PATCH 23/38] fix: linear solves with overridden boundary values
 solve for those values

solver(tp, bc=bc.replace_vals(...)) moved only the constrained DOFs: the guess
still had the values of the creation-time BC and symmetric elimination drops
their coupling, so the interior kept the old solution. Gradients w.r.t. the
prescribed values missed the same coupling.
---
 feax/solvers/common.py | 20 ++++++++++++++++++++
 feax/solvers/linear.py | 14 ++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/feax/solvers/common.py b/feax/solvers/common.py
index 8f0cca5..a7dfd18 100644
--- a/feax/solvers/common.py
+++ b/feax/solvers/common.py
@@ -20,6 +20,26 @@ def _safe_negate(x):
     return -x
 
 
+def lift_bc_values(initial_guess, bc):
+    """Initial guess that satisfies the prescribed values of *bc*.
+
+    Symmetric elimination drops the coupling of the BC columns, so a single
+    linear solve is exact only when its guess already satisfies the BCs.
+    """
+    return initial_guess.at[bc.bc_rows].set(bc.bc_vals)
+
+
+def correct_adjoint_bc(adjoint_vec, v, bc, Kt):
+    """Adjoint at the BC DOFs after symmetric elimination.
+
+    The eliminated system leaves ``λ_bc = v_bc``; the gradient w.r.t. the
+    prescribed values needs ``λ_bc = v_bc - K_fbᵀ λ_free``. ``Kt`` applies the
+    transpose of the un-eliminated tangent.
+    """
+    ktw = Kt(adjoint_vec.at[bc.bc_rows].set(0.0))
+    return adjoint_vec.at[bc.bc_rows].set(v[bc.bc_rows] - ktw[bc.bc_rows])
+
+
 def create_x0(bc_rows=None, bc_vals=None, P_mat=None):
     """Create BC-aware initial guess function for linear increments."""
 
diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 33ae34b..bc82cdf 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -23,6 +23,7 @@ import jax.numpy as np
 from ..assembler import (
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
     detect_zero_surface_jacobian,
@@ -33,7 +34,9 @@ from ..problem import MatrixView, Problem
 from .common import (
     _safe_negate,
     check_convergence,
+    correct_adjoint_bc,
     create_linear_solve_fn,
+    lift_bc_values,
     prewarm_direct_solvers,
     create_x0,
 )
@@ -322,6 +325,7 @@ def create_linear_solver(
             problem, traced_params, traced_structure)
     # Matrix-free operator (fused BC-applied residual + JVP matvec) for Krylov.
     matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
+    matfree_Kt_param = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
     linear_solve_fn = create_linear_solve_fn(
         solver_options,
@@ -386,6 +390,8 @@ def create_linear_solver(
 
     @jax.custom_vjp
     def differentiable_solve(traced_params, initial_guess, effective_bc, ts):
+        if symmetric_elimination:
+            initial_guess = lift_bc_values(initial_guess, effective_bc)
         if _reuse_factor:
             sol, _ = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
             return sol
@@ -418,6 +424,8 @@ def create_linear_solver(
 
     def f_fwd(traced_params, initial_guess, effective_bc, ts):
         if _reuse_factor:
+            if symmetric_elimination:
+                initial_guess = lift_bc_values(initial_guess, effective_bc)
             sol, token = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
             return sol, (traced_params, sol, effective_bc, ts, token)
         sol = differentiable_solve(traced_params, initial_guess, effective_bc, ts)
@@ -428,6 +436,9 @@ def create_linear_solver(
             # Reuse the forward factorization: λ = J⁻ᵀ v = J⁻¹ v (symmetric).
             traced_params, sol, effective_bc, ts, token = res
             adjoint_vec = _solve_with(token, v, device_id=_dev_id)
+            if symmetric_elimination:
+                adjoint_vec = correct_adjoint_bc(
+                    adjoint_vec, v, effective_bc, matfree_Kt_param(sol, traced_params, ts))
 
             def res_fn(tp, bc_arg):
                 return problem.unflatten_fn_sol_list(
@@ -465,6 +476,9 @@ def create_linear_solver(
             effective_bc,
             linear_solve_fn=adjoint_linear_solve_fn
         )
+        if symmetric_elimination:
+            adjoint_vec = correct_adjoint_bc(
+                adjoint_vec, v, effective_bc, matfree_Kt_param(sol, traced_params, ts))
 
         # VJP of residual w.r.t. traced_params and bc
         def res_fn(tp, bc_arg):
-- 
2.43.0


From 8ff067d1fa71814aaf936aa8850088c63511ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:28 +0000
Subject: [PATCH 24/38] fix: Newton solves with overridden boundary values
 start from those values

With the initial guess omitted the solver started from the values of the
creation-time BC; for stiff materials the line search then failed (or, under
jit, the wrong state was returned).
---
 feax/solvers/newton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 9f5435b..9169ef3 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1100,13 +1100,13 @@ def create_callback_newton_solver(
     differentiable_solve.defvjp(f_fwd, f_bwd)
 
     from ..utils import zero_like_initial_guess
-    default_initial_guess = zero_like_initial_guess(problem, bc)
     _default_bc = bc
 
     def solver(traced_params, initial_guess=None, bc=None, traced_structure=None):
         from ..DCboundary import DirichletBC
         effective_bc = bc if isinstance(bc, DirichletBC) else _default_bc
-        ig = default_initial_guess if initial_guess is None else initial_guess
+        ig = (zero_like_initial_guess(problem, effective_bc)
+              if initial_guess is None else initial_guess)
         return differentiable_solve(traced_params, ig, effective_bc, traced_structure)
 
     return solver
-- 
2.43.0


From a32494a2a76f3e85baebd30845cc7cb346707181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:07 +0000
Subject: [PATCH 25/38] fix: periodic (reduced) solves with overridden boundary
 values solve for those values

Same defect as in the linear solver: only the constrained DOFs moved, the
interior kept the solution of the creation-time values.
---
 feax/solvers/reduced.py | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index 501fe7b..fa97d5c 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -22,7 +22,10 @@ import numpy as onp
 import jax
 import jax.numpy as np
 
+from jax.experimental.sparse import BCOO
+
 from ..assembler import (
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
 )
@@ -77,6 +80,34 @@ def _validate_bc_pairing(P, bc):
             "paired faces/edges/corners of that dof).")
 
 
+def _bc_class_mean(P):
+    """Returns ``mean(w, bc)``: the value each fully constrained periodic class
+    takes from the full-space *w* at its BC DOFs, expanded to the full space
+    (zero elsewhere)."""
+    P2 = BCOO((P.data ** 2, P.indices), shape=P.shape)
+
+    def mean(w, bc):
+        mask = np.zeros(P.shape[0], w.dtype).at[bc.bc_rows].set(1.0)
+        weight = P2.T @ mask
+        num = P.T @ (mask * w)
+        return P @ np.where(weight > 0, num / np.where(weight > 0, weight, 1.0), 0.0)
+
+    return mean
+
+
+def _lift_bc_values(initial_guess, bc, class_mean):
+    """Reduced counterpart of :func:`feax.solvers.common.lift_bc_values`."""
+    target = initial_guess.at[bc.bc_rows].set(bc.bc_vals)
+    return initial_guess + class_mean(target - initial_guess, bc)
+
+
+def _correct_adjoint_bc(adjoint_full, v, bc, Kt, class_mean):
+    """Reduced counterpart of :func:`feax.solvers.common.correct_adjoint_bc`."""
+    rows = bc.bc_rows
+    w = v - Kt(adjoint_full.at[rows].set(0.0))
+    return adjoint_full.at[rows].set(class_mean(w, bc)[rows])
+
+
 def _project_reduced_nullspace(P, B_full):
     """Project a full-space near-null-space onto the reduced space.
 
@@ -187,6 +218,8 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
     # (Jᵀ = J).
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
     res_bc_parametric = create_res_bc_parametric(problem)
+    matfree_Kt = create_matfree_Kt_parametric(problem)
+    class_mean = _bc_class_mean(P)
 
     _default_bc = bc
 
@@ -203,6 +236,7 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
         adj_linear_solve_fn = create_iterative_solve_fn(resolved_adjoint_options)
 
     def reduced_solve_fn(traced_params, initial_guess_full, effective_bc, ts):
+        initial_guess_full = _lift_bc_values(initial_guess_full, effective_bc, class_mean)
         # One matfree pass returns the BC-applied residual and the tangent
         # matvec (J_bc @ w via JVP); the reduced operator is Pᵀ J_bc P.
         res_full, J_matvec = matfree_res_J(
@@ -241,6 +275,8 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
         adjoint_reduced = adj_linear_solve_fn(adjoint_matvec, rhs_reduced, x0_reduced)
 
         adjoint_full = P @ adjoint_reduced
+        adjoint_full = _correct_adjoint_bc(
+            adjoint_full, v, effective_bc, matfree_Kt(sol, traced_params, ts), class_mean)
 
         # VJP of residual w.r.t. traced_params and bc
         u_total_list = problem.unflatten_fn_sol_list(sol)
@@ -291,6 +327,8 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
 
     matfree_res_J = create_matfree_res_J_parametric(problem, symmetric=True)
     res_bc_parametric = create_res_bc_parametric(problem)
+    matfree_Kt = create_matfree_Kt_parametric(problem)
+    class_mean = _bc_class_mean(P)
 
     n_red = int(P.shape[1])
     R_pat = reduced_operator_pattern(P, connectivity_pattern(problem))
@@ -310,6 +348,7 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         return res_full, matvec
 
     def reduced_solve_fn(traced_params, initial_guess_full, effective_bc, ts):
+        initial_guess_full = _lift_bc_values(initial_guess_full, effective_bc, class_mean)
         res_full, matvec = _operator(initial_guess_full, traced_params, effective_bc, ts)
         res_reduced = P.T @ res_full
         op = assemble(matvec) if fwd_assembled else matvec
@@ -334,6 +373,8 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         op = assemble(matvec) if adj_assembled else matvec
         adjoint_reduced = adj_solve(op, rhs_reduced)
         adjoint_full = P @ adjoint_reduced
+        adjoint_full = _correct_adjoint_bc(
+            adjoint_full, v, effective_bc, matfree_Kt(sol, traced_params, ts), class_mean)
 
         u_total_list = problem.unflatten_fn_sol_list(sol)
         adjoint_list = problem.unflatten_fn_sol_list(adjoint_full)
-- 
2.43.0


From 8c71e9acea953ed453857b92badbf02a2e077095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:17 +0000
Subject: [PATCH 26/38] fix: a Newton solve with a NaN residual no longer
 counts as converged

---
 feax/solvers/newton.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 9169ef3..3ac6193 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1002,8 +1002,10 @@ def create_callback_newton_solver(
 
         def cond(state):
             sol, rn, it, found = state
-            not_converged = (rn > tol) & ((rn / np.maximum(res00, 1e-30)) > rel_tol)
-            return (it < max_iter) & not_converged & found
+            # a NaN residual is not convergence: keep going, so that the line
+            # search fails and is reported
+            converged = (rn <= tol) | ((rn / np.maximum(res00, 1e-30)) <= rel_tol)
+            return (it < max_iter) & ~converged & found
 
         def body(state):
             sol, rn, it, found = state
-- 
2.43.0


From c01be3d14759606b5f1ad27c20a5d5bb93a2eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:17 +0000
Subject: [PATCH 27/38] fix: periodic (reduced) solves honour check_convergence

---
 feax/solvers/reduced.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/feax/solvers/reduced.py b/feax/solvers/reduced.py
index fa97d5c..a5de568 100644
--- a/feax/solvers/reduced.py
+++ b/feax/solvers/reduced.py
@@ -32,6 +32,7 @@ from ..assembler import (
 from ..DCboundary import DirichletBC
 from .common import (
     _safe_negate,
+    check_convergence,
     create_iterative_solve_fn,
     create_linear_solve_fn,
 )
@@ -249,6 +250,11 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
 
         x0 = np.zeros(P.shape[1])
         sol_reduced = fwd_linear_solve_fn(J_reduced_matvec, -res_reduced, x0)
+        if resolved_solver_options.check_convergence:
+            sol_reduced = check_convergence(
+                A=J_reduced_matvec, x=sol_reduced, b=-res_reduced,
+                solver_options=resolved_solver_options,
+                matrix_view=problem.matrix_view, solver_label="Reduced solver")
         sol_full = initial_guess_full + P @ sol_reduced
         return sol_full, None
 
@@ -273,6 +279,11 @@ def create_reduced_solver(problem, bc, P, solver_options, adjoint_solver_options
 
         x0_reduced = np.zeros_like(rhs_reduced)
         adjoint_reduced = adj_linear_solve_fn(adjoint_matvec, rhs_reduced, x0_reduced)
+        if resolved_adjoint_options.check_convergence:
+            adjoint_reduced = check_convergence(
+                A=adjoint_matvec, x=adjoint_reduced, b=rhs_reduced,
+                solver_options=resolved_adjoint_options,
+                matrix_view=problem.matrix_view, solver_label="Reduced adjoint solver")
 
         adjoint_full = P @ adjoint_reduced
         adjoint_full = _correct_adjoint_bc(
@@ -353,6 +364,11 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         res_reduced = P.T @ res_full
         op = assemble(matvec) if fwd_assembled else matvec
         sol_reduced = fwd_solve(op, -res_reduced)
+        if solver_options.check_convergence:
+            sol_reduced = check_convergence(
+                A=matvec, x=sol_reduced, b=-res_reduced,
+                solver_options=solver_options,
+                matrix_view=problem.matrix_view, solver_label="Reduced solver")
         return initial_guess_full + P @ sol_reduced, None
 
     @jax.custom_vjp
@@ -372,6 +388,11 @@ def _create_assembled_reduced_solver(problem, bc, P, solver_options,
         rhs_reduced = P.T @ v
         op = assemble(matvec) if adj_assembled else matvec
         adjoint_reduced = adj_solve(op, rhs_reduced)
+        if adjoint_solver_options.check_convergence:
+            adjoint_reduced = check_convergence(
+                A=matvec, x=adjoint_reduced, b=rhs_reduced,
+                solver_options=adjoint_solver_options,
+                matrix_view=problem.matrix_view, solver_label="Reduced adjoint solver")
         adjoint_full = P @ adjoint_reduced
         adjoint_full = _correct_adjoint_bc(
             adjoint_full, v, effective_bc, matfree_Kt(sol, traced_params, ts), class_mean)
-- 
2.43.0


From 5d01ebccb7799ad49d9d9f9c85f779580706f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:17 +0000
Subject: [PATCH 28/38] fix: the AMG-rebuild Newton loop warns when it did not
 converge

---
 feax/solvers/newton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 3ac6193..f2d406e 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -377,6 +377,10 @@ def _create_amg_rebuild_newton_solver(problem, bc, amg_options, newton_options,
         if _verbose:
             print(f"[AMG-rebuild Newton] done: {nbuild} hierarchy build(s) over "
                   f"{it+1} Newton iters", flush=True)
+        if not converged:
+            logger.warning(
+                "[AMG-rebuild Newton] did NOT converge "
+                f"(res_norm = {res_norm:.6e}, tol = {newton_options.tol:.1e})")
         return sol, res_norm, converged
 
     adjoint_solve = make_self_preconditioned_amg_solve(problem, bc, amg_options)
-- 
2.43.0


From 12eaa488c1ab7c0c61ec898ffe9199ebe9a8502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:17 +0000
Subject: [PATCH 29/38] fix: linear solvers from create_solver honour
 symmetric_elimination=False

---
 feax/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/solver.py b/feax/solver.py
index 8556fab..5079659 100644
--- a/feax/solver.py
+++ b/feax/solver.py
@@ -399,6 +399,7 @@ def create_solver(
             solver_options=linear_options,
             adjoint_solver_options=adjoint_linear_options,
             traced_params=traced_params,
+            symmetric_elimination=symmetric_elimination,
             traced_structure=traced_structure,
         ))
 
-- 
2.43.0


From e16cfae8701a1d4ac52d021bb8a4c53534f3f52d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:33:47 +0000
Subject: [PATCH 30/38] fix: profile waits for dispatched computations

---
 feax/profiler.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/feax/profiler.py b/feax/profiler.py
index aedba27..a3f1f02 100644
--- a/feax/profiler.py
+++ b/feax/profiler.py
@@ -187,6 +187,16 @@ class TimingResult:
         return "\n".join(lines)
 
 
+def _flush_async_dispatch() -> None:
+    """Wait for dispatched side effects and for the values still being computed."""
+    jax.effects_barrier()
+    for x in jax.live_arrays():
+        try:
+            x.block_until_ready()
+        except Exception:  # deleted, or a failed computation: its owner sees the error
+            pass
+
+
 @contextmanager
 def profile(label: str = "default", block_until_ready: bool = True):
     """Context manager for timing JAX operations.
@@ -209,10 +219,12 @@ def profile(label: str = "default", block_until_ready: bool = True):
     try:
         yield result
     finally:
-        if block_until_ready:
-            jax.effects_barrier()
-        elapsed = time.perf_counter() - start
-        result.records.append(TimingRecord(label=label, wall_time_s=elapsed))
+        try:
+            if block_until_ready:
+                _flush_async_dispatch()
+        finally:
+            elapsed = time.perf_counter() - start
+            result.records.append(TimingRecord(label=label, wall_time_s=elapsed))
 
 
 def time_fn(
-- 
2.43.0


From 0b680663dd74c2840cf5c2ad76475f7049aa1b7a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:33:48 +0000
Subject: [PATCH 31/38] fix: a buckling solver solves the matrices of the call,
 not the structure of another one

---
 feax/solvers/eigen.py | 47 +++++++++++--------------------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 57f395e..666d09d 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -755,10 +755,10 @@ def create_linear_buckling_solver(free_dofs, num_modes: int = 3, solver: str = "
     Notes
     -----
     ``bf`` is jittable (``jax.jit(bf)`` / ``jax.jit(jax.grad(...))``): the forward
-    eigensolve runs host-side in a :func:`jax.pure_callback` and only ``K.data`` /
-    ``K_g.data`` are traced. The (constant) sparsity ``indices`` are captured on the
-    first **eager** call, so call ``bf(K, Kg)`` once outside ``jit`` before jitting it
-    (a clear error is raised otherwise).
+    eigensolve runs host-side in a :func:`jax.pure_callback` that receives the values
+    and the structure of ``K`` / ``K_g``. Only ``solver="cudss"`` captures the (constant)
+    sparsity on its first **eager** call, so call ``bf(K, Kg)`` once outside ``jit``
+    before jitting that one (a clear error is raised otherwise).
     """
     if solver not in ("sparse", "dense", "matfree", "cudss"):
         raise ValueError(
@@ -775,25 +775,6 @@ def create_linear_buckling_solver(free_dofs, num_modes: int = 3, solver: str = "
     nf = len(free)
     m = num_modes
 
-    # The CSR sparsity (indptr / indices) is fixed for a given problem, so the host
-    # callback can reuse the concrete structure captured on the first (eager) call.
-    # This lets `bf` itself be jitted: under jit ``K.indptr`` / ``K.indices`` are
-    # tracers, but the callback only needs ``K.data`` (the traced input) — the
-    # constant structure comes from this cache.
-    _idx_cache = {}                                  # name -> (indptr, indices)
-    _meta = {}                                       # constant K/Kg shapes (set on 1st call)
-
-    def _concrete_indices(name, M):
-        if isinstance(M.indices, jax.core.Tracer):   # tracing (e.g. under jax.jit)
-            if name not in _idx_cache:
-                raise ValueError(
-                    "create_linear_buckling_solver: call bf(K, Kg) once eagerly before "
-                    "jitting so the (constant) CSR structure can be captured for the "
-                    "host eigensolve callback.")
-            return _idx_cache[name]
-        _idx_cache[name] = (onp.asarray(M.indptr), onp.asarray(M.indices))
-        return _idx_cache[name]
-
     def _solve_host(K, Kg):                          # concrete CSRMatrix -> (λ, modes, φ_free)
         N = K.shape[0]
         if solver == "dense":
@@ -822,26 +803,22 @@ def create_linear_buckling_solver(free_dofs, num_modes: int = 3, solver: str = "
     # fresh ``lambda`` to ``jax.pure_callback`` on each call registers a new host callable
     # with the runtime that is never released — it accumulates (with whatever its host
     # execution allocates, e.g. the sparse factor) and leaks memory across a long loop
-    # (topology optimization). Reading the constant indices/shapes from the caches keeps
-    # this callable identical across calls.
-    def _host_eval(kd, kgd):
-        kip, kix = _idx_cache["K"]
-        gip, gix = _idx_cache["Kg"]
-        return _solve_host(
-            CSRMatrix(onp.asarray(kd), kip, kix, _meta["K"]),
-            CSRMatrix(onp.asarray(kgd), gip, gix, _meta["Kg"]))
+    # (topology optimization). The structure is an operand like the values, so a call
+    # always solves its own matrices, whatever was solved before.
+    def _host_eval(kd, kip, kix, gd, gip, gix):
+        def csr(d, ip, ix):
+            n = len(ip) - 1
+            return CSRMatrix(onp.asarray(d), onp.asarray(ip), onp.asarray(ix), (n, n))
+        return _solve_host(csr(kd, kip, kix), csr(gd, gip, gix))
 
     def _callback(K, Kg):
         N = K.shape[0]
-        _concrete_indices("K", K)                    # populate index cache (jittable)
-        _concrete_indices("Kg", Kg)
-        _meta["K"] = K.shape; _meta["Kg"] = Kg.shape
         return jax.pure_callback(
             _host_eval,                              # same object every call -> no leak
             (jax.ShapeDtypeStruct((m,), jnp.float64),
              jax.ShapeDtypeStruct((m, N), jnp.float64),
              jax.ShapeDtypeStruct((m, nf), jnp.float64)),
-            K.data, Kg.data)
+            K.data, K.indptr, K.indices, Kg.data, Kg.indptr, Kg.indices)
 
     @jax.custom_vjp
     def bf(K, Kg):
-- 
2.43.0


From 815f43f42291a9d8d68676a4e70153c900cb54b0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:33:48 +0000
Subject: [PATCH 32/38] fix: missing buckling modes no longer turn the whole
 gradient into NaN

---
 feax/solvers/eigen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 666d09d..60c5e8e 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -834,8 +834,11 @@ def create_linear_buckling_solver(free_dofs, num_modes: int = 3, solver: str = "
     def _bwd(res, cts):
         K, Kg, lam, phi = res
         lam_bar, _modes_bar = cts                     # mode-shape cotangent ignored
-        K_cot = _outer_cotangent(K, phi, lam_bar * lam, free)
-        Kg_cot = _outer_cotangent(Kg, phi, lam_bar * lam * lam, free)
+        # guard the inf-padded (missing) modes out of the sensitivity
+        w = jnp.where(jnp.isfinite(lam), lam_bar * lam, 0.0)
+        w2 = jnp.where(jnp.isfinite(lam), lam_bar * lam * lam, 0.0)
+        K_cot = _outer_cotangent(K, phi, w, free)
+        Kg_cot = _outer_cotangent(Kg, phi, w2, free)
         return (K_cot, Kg_cot)
 
     bf.defvjp(_fwd, _bwd)
-- 
2.43.0


From 2c15c63448c464268e53046c73e93e35500dfa1d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:33:48 +0000
Subject: [PATCH 33/38] fix: the dense buckling solver reports a failed
 factorization instead of infinite factors

---
 feax/solvers/eigen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 60c5e8e..32f0eba 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -150,6 +150,10 @@ def _dense_buckling(K, Kg, free_dofs, num_modes: int = 6,
                         "[{lo:.3e}, {hi:.3e}]; max eig-residual={r:.2e}",
                         lo=jnp.min(gamma), hi=jnp.max(gamma), r=jnp.max(res_all))
     gamma = onp.asarray(gamma); Vf = onp.asarray(Vf)
+    if not onp.all(onp.isfinite(gamma)):
+        raise BucklingConvergenceError(
+            "dense buckling failed: K is not positive definite on the free DoFs (or "
+            "the matrices are not finite).")
 
     lam = -1.0 / gamma
     valid = (lam > zero_tol) & onp.isfinite(lam)
-- 
2.43.0


From 6bcb6095c49ab1c6d2f89059a482bcc91a4b6803 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:34:12 +0000
Subject: [PATCH 34/38] fix: sparse buckling of small systems asks ARPACK for a
 valid basis size

---
 feax/solvers/eigen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 32f0eba..0674bd2 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -325,7 +325,7 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
     if k < 1:
         raise BucklingConvergenceError(
             f"too few free DoFs ({nf}) for the sparse eigensolve; use solver='dense'.")
-    ncv = int(min(nf - 1, max(num_matvecs, 2 * k + 1)))
+    ncv = int(min(nf, max(num_matvecs, 2 * k + 1)))  # ARPACK: k + 1 < ncv <= nf
     v0 = onp.random.RandomState(seed).randn(nf)
     if verbose:
         print(f"[buckling/sparse] ARPACK shift-invert (K⁻¹={backend}) | "
-- 
2.43.0


From c9ecccf7a9e97325d223b0d1e68eb220a4260a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:48 +0000
Subject: [PATCH 35/38] fix: a narrow-band run with margin=0 no longer solves
 the full grid

binary_dilation(iterations=0) repeats the dilation until nothing changes, so a
zero margin grew the band to the whole domain instead of adding no ring.
---
 feax/gene/narrowband.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feax/gene/narrowband.py b/feax/gene/narrowband.py
index f71815d..19ce7e8 100644
--- a/feax/gene/narrowband.py
+++ b/feax/gene/narrowband.py
@@ -126,8 +126,10 @@ def run_narrowband_oc(grid, cmg, keep, volfrac, load_fn, *, rmin=1.5,
         if it < grid_update_start:
             want = onp.ones((nx, ny, nz), bool)
         else:
-            want = binary_dilation(rho.reshape(nx, ny, nz) > threshold,
-                                   iterations=margin) | keep
+            want = rho.reshape(nx, ny, nz) > threshold
+            if margin > 0:          # iterations < 1 would dilate to the full grid
+                want = binary_dilation(want, iterations=margin)
+            want = want | keep
         active_cells = onp.nonzero(want.reshape(-1))[0].astype(onp.int64)
 
         # Primitive schedule: eager until iter ``jit_after`` (band still moving ->
-- 
2.43.0


From e6d3dc68abf7328f34a147556aa2611b7ddbbe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:48 +0000
Subject: [PATCH 36/38] fix: a single-level multires run does n_iter iterations

With n_levels=1, or when the grid cannot be coarsened, the only level is the
final one, but it ran coarse_iter iterations.
---
 feax/gene/narrowband.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/narrowband.py b/feax/gene/narrowband.py
index 19ce7e8..69de69f 100644
--- a/feax/gene/narrowband.py
+++ b/feax/gene/narrowband.py
@@ -238,12 +238,12 @@ def run_narrowband_multires(build_fn, dims, volfrac, *, n_levels=2,
         grid, cmg, keep, load_fn = (parts["grid"], parts["cmg"],
                                     parts["keep"], parts["load_fn"])
         if lvl == 0:
-            x_init, gus, niter, tag = None, grid_update_start, coarse_iter, "explore"
+            x_init, gus, tag = None, grid_update_start, "explore"
         else:
             x_init = _upsample(rho_grid, d).reshape(-1)   # seed band from coarser design
             gus = 0                                        # no full-grid solve here
-            niter = n_iter if finest else coarse_iter
             tag = "refine"
+        niter = n_iter if finest else coarse_iter
         if verbose:
             ndof = 3 * (d[0] + 1) * (d[1] + 1) * (d[2] + 1)
             print(f"[multires] L{lvl} {d}  DOF={ndof:,}  {tag}  iters={niter}  "
-- 
2.43.0


From 92cf37c9372cbdbeb219c3f16ecb8e241a9352f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 37/38] fix: the multigrid preconditioner of the narrow-band CG
 is symmetric

Pre- and post-smoothing swept the colours in the same order, which makes the
V-cycle an unsymmetric operator. Conjugate gradients then stalls on designs with
void cells and returns an unconverged displacement after cg_maxit iterations.
Post-smoothing now runs the colours backwards.
---
 feax/solvers/cmg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index 115c552..6632226 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -224,10 +224,10 @@ class NarrowBandCMG:
         blk = jnp.where(fn[:, None, None], blk, jnp.eye(3)[None])
         return jnp.linalg.inv(blk)
 
-    def _smooth_j(self, u, b, lev, Dinv, sweeps):
+    def _smooth_j(self, u, b, lev, Dinv, sweeps, reverse=False):
         CN = lev["color"].shape[0]
         for _ in range(sweeps):
-            for c in range(8):
+            for c in (range(7, -1, -1) if reverse else range(8)):
                 r = (b - self._mv_j(u, lev)) * lev["free"]
                 du = jnp.einsum("nab,nb->na", Dinv, r.reshape(CN, 3))
                 un = u.reshape(CN, 3) + (lev["color"] == c)[:, None] * du
@@ -270,7 +270,8 @@ class NarrowBandCMG:
         ecn = ec.reshape(CNc, 3)
         uf = (lev["Pw"][:, :, None] * ecn[lev["Pidx"]]).sum(axis=1)
         u = u + uf.reshape(-1) * lev["free"]
-        return self._smooth_j(u, b, lev, Dinvs[l], self.post)
+        # post-smooth in reverse colour order: CG needs a symmetric V-cycle
+        return self._smooth_j(u, b, lev, Dinvs[l], self.post, reverse=True)
 
     def _solve_j(self, P, b, u0, token, coarse):
         Dinvs = [self._dinv_j(P[l]) for l in range(self.L - 1)]
-- 
2.43.0


From 5b01cab0df8a812ff6156a96350ad333eaed11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:39 +0000
Subject: [PATCH 38/38] fix: use the full operator for the boundary-value
 gradient when only one triangle is assembled

With matrix_view UPPER/LOWER the assembled matrix holds one triangle, so
K_bulk.rmatvec gave a wrong coupling term and Newton gradients with
respect to prescribed values were wrong.
---
 feax/solvers/newton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index f2d406e..7d5df5e 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1063,10 +1063,11 @@ def create_callback_newton_solver(
 
         # Symmetric-elimination BC correction so bc_vals gradients are correct:
         #   λ_bc = v_bc - K_fb^T λ_free,  with K_bulk the un-eliminated Jacobian
-        #   (assembled transpose for direct, matrix-free VJP for Krylov).
+        #   (assembled transpose for direct, matrix-free VJP for Krylov and for
+        #   UPPER/LOWER views, which store only one triangle of K_bulk).
         if _needs_bc_correction:
             lambda_free = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
-            if _adj_direct:
+            if _adj_direct and use_transpose:
                 sol_list = problem.unflatten_fn_sol_list(sol)
                 kdata, kindptr, kindices = _get_J_csr(problem, sol_list, traced_params, ts)
                 K_bulk = CSRMatrix(kdata, kindptr, kindices,
-- 
2.43.0

