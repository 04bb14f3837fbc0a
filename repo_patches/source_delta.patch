From 605623b36dc1ef0b637104e272ceb35963e39079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 01/24] fix: parallel runs compute every step from the complete
 previous state

Each worker kept a private copy of the state and only applied the updates of
the last step when it got a batch, so a worker that got no batch in some step
(or was replaced) computed later steps from an out-of-date state. The output
state of a parallel run stayed the starting state for the same reason. The
main process now keeps the current state and hands it to every batch.
---
 .../core/runner/synchronous_runner.py         | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ab49ce7..95b9109 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -50,7 +50,6 @@ class SynchronousRunner(Runner):
         if self.parallel:
             global mp_globals  # pylint: disable=global-variable-not-assigned
             mp_globals["controller"] = controller
-            mp_globals["initial_state"] = initial_state
 
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
@@ -58,18 +57,18 @@ class SynchronousRunner(Runner):
                 PROCESSES = self.workers  # pragma: no cover
 
             printif(verbose, f"Running in parallel using {PROCESSES} workers")
-            num_sites = initial_state.size
+            num_sites = live_state.size
             chunk_size = math.ceil(num_sites / PROCESSES)
             printif(
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
             with mp.get_context("fork").Pool(PROCESSES) as pool:
-                updates = {}
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
-                        updates, pool, chunk_size=chunk_size
+                        live_state, pool, chunk_size=chunk_size
                     )
+                    live_state.batch_update(updates)
                     result.add_step(updates)
         else:
             printif(verbose, "Running in series.")
@@ -81,16 +80,18 @@ class SynchronousRunner(Runner):
         result.set_output(live_state)
         return result
 
-    def _take_step_parallel(self, updates: dict, pool, chunk_size) -> SimulationState:
+    def _take_step_parallel(
+        self, state: SimulationState, pool, chunk_size
+    ) -> SimulationState:
         params = []
-        site_ids = mp_globals["initial_state"].site_ids()
+        site_ids = state.site_ids()
         num_sites = len(site_ids)
         site_batches = [
             site_ids[i : i + chunk_size] for i in range(0, num_sites, chunk_size)
         ]
 
         for batch in site_batches:
-            params.append([batch, updates])
+            params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
@@ -108,9 +109,9 @@ class SynchronousRunner(Runner):
         return updates
 
 
-def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no cover
-    state = mp_globals["initial_state"]
-    state.batch_update(last_updates)
+def _step_batch_parallel(
+    id_batch: List[int], state: SimulationState
+):  # pragma: no cover
     return _step_batch(id_batch, state, mp_globals["controller"])
 
 
-- 
2.43.0


From 85b6b7c980ad5ef716415df7fbc51ce509a41cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 02/24] fix: steps in which no site reports a change no longer
 crash a run

An update rule may return None for 'no change'. When every site of a step (or
the visited site of an asynchronous step) did so, the merged update was None
and applying or recording it raised a TypeError.
---
 src/pylattica/core/runner/asynchronous_runner.py | 5 ++++-
 src/pylattica/core/runner/synchronous_runner.py  | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/asynchronous_runner.py b/src/pylattica/core/runner/asynchronous_runner.py
index fbfe19a..09fa46c 100644
--- a/src/pylattica/core/runner/asynchronous_runner.py
+++ b/src/pylattica/core/runner/asynchronous_runner.py
@@ -3,6 +3,7 @@ from collections import deque
 from tqdm import tqdm
 
 from ..basic_controller import BasicController
+from ..constants import GENERAL, SITES
 from ..simulation_result import SimulationResult
 from ..simulation_state import SimulationState
 
@@ -83,7 +84,9 @@ class AsynchronousRunner(Runner):
             else:
                 state_updates = controller_response
 
-            state_updates = merge_updates(state_updates, site_id=site_id)
+            state_updates = merge_updates(
+                state_updates, {SITES: {}, GENERAL: {}}, site_id=site_id
+            )
             live_state.batch_update(state_updates)
             site_queue.extend(next_sites)
             result.add_step(state_updates)
diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 95b9109..df78d15 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -5,6 +5,7 @@ from typing import List
 from tqdm import tqdm
 
 from ..basic_controller import BasicController
+from ..constants import GENERAL, SITES
 from ..simulation_result import SimulationResult
 from ..simulation_state import SimulationState
 from ..utils import printif
@@ -94,7 +95,7 @@ class SynchronousRunner(Runner):
             params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
-        all_updates = None
+        all_updates = {SITES: {}, GENERAL: {}}
         for batch_update_res in results:
             all_updates = merge_updates(all_updates, batch_update_res)
 
@@ -118,7 +119,7 @@ def _step_batch_parallel(
 def _step_batch(
     id_batch: List[int], previous_state: SimulationState, controller: BasicController
 ):
-    batch_updates = None
+    batch_updates = {SITES: {}, GENERAL: {}}
     for site_id in id_batch:
         site_updates = controller.get_state_update(site_id, previous_state)
         batch_updates = merge_updates(site_updates, batch_updates, site_id)
-- 
2.43.0


From a1e70a9276e912c2d51e5b0ad907fc6a858afe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 03/24] fix: parallel run of a state without sites no longer
 crashes

The chunk size was zero, which range() rejects.
---
 src/pylattica/core/runner/synchronous_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index df78d15..3129de0 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -59,7 +59,7 @@ class SynchronousRunner(Runner):
 
             printif(verbose, f"Running in parallel using {PROCESSES} workers")
             num_sites = live_state.size
-            chunk_size = math.ceil(num_sites / PROCESSES)
+            chunk_size = max(1, math.ceil(num_sites / PROCESSES))
             printif(
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
-- 
2.43.0


From a5a0d168b4e57bd1678a55285f7caf119dd13efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 04/24] fix: parallel runs in different threads no longer mix
 up their controllers

The controller was passed to the workers through a module-level dictionary, so
a run started by another thread in between replaced it (also for workers that
were started later as replacements). It is now passed by the pool initializer,
which a forked worker inherits.
---
 src/pylattica/core/runner/synchronous_runner.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 3129de0..38d87a6 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -49,9 +49,6 @@ class SynchronousRunner(Runner):
         verbose: bool = False,
     ):
         if self.parallel:
-            global mp_globals  # pylint: disable=global-variable-not-assigned
-            mp_globals["controller"] = controller
-
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
             else:
@@ -64,7 +61,9 @@ class SynchronousRunner(Runner):
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
-            with mp.get_context("fork").Pool(PROCESSES) as pool:
+            with mp.get_context("fork").Pool(
+                PROCESSES, initializer=_init_worker, initargs=(controller,)
+            ) as pool:
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
                         live_state, pool, chunk_size=chunk_size
@@ -110,6 +109,11 @@ class SynchronousRunner(Runner):
         return updates
 
 
+def _init_worker(controller: BasicController):  # pragma: no cover
+    # set in the worker only: parallel runs in other threads must not see it
+    mp_globals["controller"] = controller
+
+
 def _step_batch_parallel(
     id_batch: List[int], state: SimulationState
 ):  # pragma: no cover
-- 
2.43.0


From 972e85c0968af48b7fd20e050e4ab4942960ea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 05/24] fix: the default asynchronous site choice returns
 identifiers of sites

It returned a position between 0 and the number of sites, which is only a site
identifier when the identifiers happen to be 0..n-1.
---
 src/pylattica/core/basic_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/basic_controller.py b/src/pylattica/core/basic_controller.py
index 33d6e04..8fa253e 100644
--- a/src/pylattica/core/basic_controller.py
+++ b/src/pylattica/core/basic_controller.py
@@ -25,7 +25,7 @@ class BasicController(ABC):
         pass
 
     def get_random_site(self, state: SimulationState):
-        return random.randint(0, len(state.site_ids()) - 1)
+        return random.choice(state.site_ids())
 
     def instantiate_result(self, starting_state: SimulationState):
         return SimulationResult(starting_state=starting_state)
-- 
2.43.0


From 188524ac51869aa99ca49b45790bc390dbc67be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 06/24] fix: get_step hands out a copy of a preloaded step

After load_steps the stored state itself was returned, so updating it changed
the recorded history seen by later reads.
---
 src/pylattica/core/simulation_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 44d3440..2f982a8 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -122,7 +122,7 @@ class SimulationResult:
 
         stored = self._stored_states.get(step_no)
         if stored is not None:
-            return stored
+            return stored.copy()
         else:
             state = self.initial_state.copy()
             for ud_idx in range(0, step_no):
-- 
2.43.0


From de71abc94a950da344068881fe7246e359bb1d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 07/24] fix: iterating over a result yields every step, each as
 a state of its own

---
 src/pylattica/core/simulation_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 2f982a8..76fa1f8 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -72,9 +72,10 @@ class SimulationResult:
             The list of steps
         """
         live_state = self.initial_state.copy()
+        yield live_state.copy()
         for diff in self._diffs:
-            yield live_state
             live_state.batch_update(diff)
+            yield live_state.copy()
 
     @property
     def last_step(self) -> SimulationState:
-- 
2.43.0


From b32f873d9d7bbf4b12f4921c1bb6e0e9c435c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 08/24] fix: batch updates that name only sites are applied to
 the sites

---
 src/pylattica/core/simulation_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index b6a92ab..5c49e2b 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -155,11 +155,11 @@ class SimulationState:
             The updates to apply as a batch.
         """
 
-        if GENERAL in update_batch:
+        if GENERAL in update_batch or SITES in update_batch:
             for site_id, updates in update_batch.get(SITES, {}).items():
                 self.set_site_state(site_id, updates)
 
-            self.set_general_state(update_batch[GENERAL])
+            self.set_general_state(update_batch.get(GENERAL, {}))
         else:
             for site_id, updates in update_batch.items():
                 self.set_site_state(site_id, updates)
-- 
2.43.0


From 43059c0e7f04e8d4a6f03a425e4188d887c8592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 09/24] fix: results of runs and general state survive saving
 and loading

---
 src/pylattica/core/simulation_result.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 76fa1f8..35d1e55 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -4,6 +4,7 @@ from typing import Dict, List
 
 from monty.serialization import dumpfn, loadfn
 import datetime
+from .constants import GENERAL, SITES
 from .simulation_state import SimulationState
 
 
@@ -25,7 +26,13 @@ class SimulationResult:
         diffs = res_dict["diffs"]
         res = cls(SimulationState.from_dict(res_dict["initial_state"]))
         for diff in diffs:
-            formatted = {int(k): v for k, v in diff.items() if k != "GENERAL"}
+            if SITES in diff or GENERAL in diff:
+                formatted = {
+                    SITES: {int(k): v for k, v in diff.get(SITES, {}).items()},
+                    GENERAL: diff.get(GENERAL, {}),
+                }
+            else:
+                formatted = {int(k): v for k, v in diff.items()}
             res.add_step(formatted)
         return res
 
-- 
2.43.0


From f6a915b88d4c3eb87c164db313366700890e39f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 10/24] fix: loading a structure keeps its site ids if the
 entries were reordered

---
 src/pylattica/core/periodic_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e364bc0..13e674a 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -132,7 +132,8 @@ class PeriodicStructure:
         struct = cls(Lattice.from_dict(d["lattice"]))
         sites = {int(k): v for k, v in d["_sites"].items()}
 
-        for _, site in sites.items():
+        # ids are assigned in order of addition; stores may reorder the entries
+        for _, site in sorted(sites.items()):
             struct.add_site(site[SITE_CLASS], site[LOCATION])
 
         return struct
-- 
2.43.0


From 75718c95c1cc7746907516ddc2ea504d8cd57248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 11/24] fix: automatically named saves never overwrite an
 existing file

---
 src/pylattica/core/simulation_result.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 35d1e55..2451f50 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -157,6 +157,15 @@ class SimulationResult:
             now = datetime.datetime.now()
             date_string = now.strftime("%m-%d-%Y-%H-%M")
             fpath = f"{date_string}.json"
+            attempt = 1
+            while True:
+                try:
+                    # creates the file, so that no other save picks the same name
+                    with open(fpath, "x", encoding="utf-8"):
+                        break
+                except FileExistsError:
+                    fpath = f"{date_string}-{attempt}.json"
+                    attempt += 1
 
         dumpfn(self, fpath)
         return fpath
-- 
2.43.0


From aeb8d5e20fbe93c6797dbafb653d3b9f6edc3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 12/24] fix: saving an animation leaves other files in the
 directory alone

---
 src/pylattica/visualization/result_artist.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 52c3c33..12dd122 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -1,13 +1,10 @@
 import multiprocessing as mp
-import os
 import time
 import sys
 
 from .structure_artist import StructureArtist
 from ..core import SimulationResult
 
-from PIL import Image
-
 _dsr_globals = {}
 
 
@@ -110,27 +107,14 @@ class ResultArtist:
         """
         wait = kwargs.get("wait", 0.8)
         imgs = self._get_images(**kwargs)
-        img_names = []
-        for idx, img in enumerate(imgs):
-            fname = f"tmp_pylat_step_{idx}.png"
-            img.save(fname)
-            img_names.append(fname)
-
-        reloaded_imgs = []
-        for fname in img_names:
-            reloaded_imgs.append(Image.open(fname))
-
-        reloaded_imgs[0].save(
+        imgs[0].save(
             filename,
             save_all=True,
-            append_images=reloaded_imgs[1:],
+            append_images=imgs[1:],
             duration=wait * 1000,
             loop=0,
         )
 
-        for fname in img_names:
-            os.remove(fname)
-
 
 def _get_img_parallel(step, step_kwargs):
     return _dsr_globals["artist"].get_img(step, **step_kwargs)
-- 
2.43.0


From 5d45be4748ed5b5a9020f495fd8bbf4ff71c6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 13/24] fix: animations saved in different threads no longer
 mix up their artists

---
 src/pylattica/visualization/result_artist.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/visualization/result_artist.py b/src/pylattica/visualization/result_artist.py
index 12dd122..718c83c 100644
--- a/src/pylattica/visualization/result_artist.py
+++ b/src/pylattica/visualization/result_artist.py
@@ -38,10 +38,9 @@ class ResultArtist:
                 imgs.append(img)
         else:
             PROCESSES = mp.cpu_count()
-            global _dsr_globals  # pylint: disable=global-variable-not-assigned
-            _dsr_globals["artist"] = self._step_artist
-
-            with mp.get_context("fork").Pool(PROCESSES) as pool:
+            with mp.get_context("fork").Pool(
+                PROCESSES, initializer=_init_worker, initargs=(self._step_artist,)
+            ) as pool:
                 params = []
                 for idx in indices:
                     label = f"Step {idx}"
@@ -116,5 +115,10 @@ class ResultArtist:
         )
 
 
+def _init_worker(artist):  # pragma: no cover
+    # set in the worker only: animations drawn by other threads must not see it
+    _dsr_globals["artist"] = artist
+
+
 def _get_img_parallel(step, step_kwargs):
     return _dsr_globals["artist"].get_img(step, **step_kwargs)
-- 
2.43.0


From 2e89eda3c59552df8caef5a8187bf4e260677471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 14/24] fix: random site placement without a positive amount
 fails instead of looping forever

---
 src/pylattica/structures/square_grid/grid_setup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pylattica/structures/square_grid/grid_setup.py b/src/pylattica/structures/square_grid/grid_setup.py
index 6249596..794f462 100644
--- a/src/pylattica/structures/square_grid/grid_setup.py
+++ b/src/pylattica/structures/square_grid/grid_setup.py
@@ -326,6 +326,9 @@ class DiscreteGridSetup:
             nuc_species.append(spec)
             nuc_ratios.append(amt)
 
+        if num_sites_desired > 0 and not np.sum(nuc_ratios) > 0:
+            raise ValueError("At least one of the nucleus amounts must be positive")
+
         normalized_ratios = np.array(nuc_ratios) / np.sum(nuc_ratios)
 
         total_attempts = 0
-- 
2.43.0


From 64e11488f7417c3b1dcf5a4870324267ca400e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 15/24] fix: growth set-ups in three dimensions fill the whole
 structure

---
 src/pylattica/structures/square_grid/growth_setup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index 12ff005..c6ca673 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -81,5 +81,7 @@ class GrowthSetup:
         )
 
         runner = SynchronousRunner(parallel=True)
-        res = runner.run(simulation.state, controller, num_steps=size)
+        # the farthest site is up to half the size away along every dimension
+        num_steps = max(size, self.dim * (size // 2))
+        res = runner.run(simulation.state, controller, num_steps=num_steps)
         return Simulation(res.last_step, simulation.structure)
-- 
2.43.0


From a27d07e6a11a8e874dad348ddb2ad255df91027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 16/24] fix: list the neighbors of a site in the same order
 every time

---
 src/pylattica/core/neighborhoods.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhoods.py b/src/pylattica/core/neighborhoods.py
index 6278dd7..41cf614 100644
--- a/src/pylattica/core/neighborhoods.py
+++ b/src/pylattica/core/neighborhoods.py
@@ -40,14 +40,15 @@ class Neighborhood(AbstractNeighborhood):
         list[int]
             Either a list of site IDs, or a list of tuples of (site ID, connection weight)
         """
-        nbs = self._graph.neighbors(site_id)
+        # the graph library returns these in an order that varies from call to call
+        nbs = sorted(self._graph.neighbors(site_id))
         if include_weights:
             weighted_nbs = [
                 (nb_id, self._graph.get_edge_data(site_id, nb_id)) for nb_id in nbs
             ]
             return weighted_nbs
 
-        return list(nbs)
+        return nbs
 
 
 class MultiNeighborhood(AbstractNeighborhood):
-- 
2.43.0


From 1577f0ab40ad124565d1d3a9e280e9a429275ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 17/24] fix: keep the order of the phases of a PhaseSet,
 whatever the hash seed

---
 src/pylattica/discrete/phase_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/discrete/phase_set.py b/src/pylattica/discrete/phase_set.py
index d158789..76d8e20 100644
--- a/src/pylattica/discrete/phase_set.py
+++ b/src/pylattica/discrete/phase_set.py
@@ -14,4 +14,4 @@ class PhaseSet:
         phases : List[str]
             The phases that exist in this simulation.
         """
-        self.phases = list(set(phases))
+        self.phases = list(dict.fromkeys(phases))
-- 
2.43.0


From b4ad2bf3c8b03b8d32a4e03cf096d2d9856ed852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 18/24] fix: collect the phases of a result anew, steps may
 have been recorded since

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 151d823..c71e173 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -3,7 +3,6 @@ from typing import Dict, List, Tuple
 import matplotlib.pyplot as plt
 import numpy as np
 import plotly.graph_objects as go
-from functools import lru_cache
 
 from ..core import SimulationResult, SimulationState
 from .discrete_step_analyzer import DiscreteStepAnalyzer
@@ -25,7 +24,6 @@ class DiscreteResultAnalyzer:
         """
         self._result = result
 
-    @lru_cache
     def all_phases(self) -> List[str]:
         """Returns all of the phases present across the analyzed result.
 
-- 
2.43.0


From 25d66d29e1474d4ab864a30305c79bfe8cefc23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 19/24] fix: plot the phase counts of a result, the analyzer
 has no steps of its own

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index c71e173..97a147f 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -104,8 +104,9 @@ class DiscreteResultAnalyzer:
         """In a jupyter notebook environment, plots the number of phases at each
         time step.
         """
-        xs = np.arange(len(self.steps))
-        ys = [step.phase_count for step in self.steps]
+        analyzer = DiscreteStepAnalyzer()
+        xs = np.arange(len(self._result))
+        ys = [analyzer.phase_count(step) for step in self._result.steps()]
         plt.plot(xs, ys)
 
     def _get_steps_to_plot(self) -> Tuple[List[int], List[SimulationState]]:
-- 
2.43.0


From 949d209aa4127d45d08827ab764448663bdb2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 20/24] fix: round the shares of the phases of random sites,
 float error added a site to one

---
 src/pylattica/structures/square_grid/grid_setup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/grid_setup.py b/src/pylattica/structures/square_grid/grid_setup.py
index 794f462..6701052 100644
--- a/src/pylattica/structures/square_grid/grid_setup.py
+++ b/src/pylattica/structures/square_grid/grid_setup.py
@@ -334,7 +334,8 @@ class DiscreteGridSetup:
         total_attempts = 0
         num_sites_planted = 0
 
-        ideal_num_site_list = normalized_ratios * num_sites_desired
+        # rounded, a share of 7.000000000000001 sites must not count as 8
+        ideal_num_site_list = np.round(normalized_ratios * num_sites_desired, 9)
         ideal_num_sites = dict(zip(nuc_species, ideal_num_site_list))
 
         nuc_identities = []
-- 
2.43.0


From 9c2c98eee04246549bd5f1facbe3e26d1cd50f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 21/24] fix: loading a structure restores its sites and lookup
 as they were

---
 src/pylattica/core/periodic_structure.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 13e674a..b8c8fb1 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -125,6 +125,10 @@ class PeriodicStructure:
         return {
             "lattice": self.lattice.as_dict(),
             "_sites": copied,
+            "_location_lookup": [
+                [[float(coord) for coord in coords], site_id]
+                for coords, site_id in self._location_lookup.items()
+            ],
         }
 
     @classmethod
@@ -134,10 +138,27 @@ class PeriodicStructure:
 
         # ids are assigned in order of addition; stores may reorder the entries
         for _, site in sorted(sites.items()):
-            struct.add_site(site[SITE_CLASS], site[LOCATION])
+            if "_location_lookup" not in d:
+                struct.add_site(site[SITE_CLASS], site[LOCATION])
+            else:
+                struct._restore_site(site)
+
+        # stored locations are rounded, and adding a site at a rounded location
+        # can place it elsewhere, so the lookup is taken as it was
+        for coords, site_id in d.get("_location_lookup", []):
+            struct._location_lookup[tuple(coords)] = site_id
 
         return struct
 
+    def _restore_site(self, site: Dict) -> None:
+        site_id = site[SITE_ID]
+        self._sites[site_id] = {
+            SITE_CLASS: site[SITE_CLASS],
+            LOCATION: np.array(site[LOCATION]),
+            SITE_ID: site_id,
+        }
+        self.site_ids.append(site_id)
+
     def _get_rounded_coords(self, location: Iterable[float]) -> Iterable[float]:
         return np.round(location, OFFSET_PRECISION)
 
-- 
2.43.0


From 0fc31ee806a0193efbbc78f4c38fc0e44522d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:57 +0000
Subject: [PATCH 22/24] fix: 3D pictures are drawn in a figure of their own,
 not the one shared by all threads

---
 src/pylattica/visualization/square_grid_artist_3D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 408c375..2203df2 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -4,7 +4,7 @@ from ..core.periodic_structure import LOCATION, SITE_ID
 
 import numpy as np
 import io
-import matplotlib.pyplot as plt
+from matplotlib.figure import Figure
 from PIL import Image
 
 
@@ -39,7 +39,9 @@ class SquareGridArtist3D(StructureArtist):
                 dataset[color_str][shifted_loc] = 1
                 dataset["empty"][shifted_loc] = 0
 
-        ax = plt.figure(figsize=(12, 12)).add_subplot(projection="3d")
+        # a figure of its own: the current pyplot figure is shared by all threads
+        fig = Figure(figsize=(12, 12))
+        ax = fig.add_subplot(projection="3d")
 
         for color, data in dataset.items():
             if color == "empty":
@@ -50,11 +52,9 @@ class SquareGridArtist3D(StructureArtist):
                 ax.voxels(data, facecolors=colors, edgecolor="k", linewidth=0.25)
 
         ax.legend()
-        plt.axis("off")
-        fig = ax.get_figure()
+        ax.set_axis_off()
         buf = io.BytesIO()
         fig.savefig(buf)
-        plt.close()
         buf.seek(0)
         img = Image.open(buf)
         return img
-- 
2.43.0


From 38663bd875246ac11dc4529bae2e46d1a38e27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 23/24] fix: artists made from a state or result give phases
 the same colours in every process

---
 src/pylattica/visualization/cell_artist.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/visualization/cell_artist.py b/src/pylattica/visualization/cell_artist.py
index 72cf652..27ca4d1 100644
--- a/src/pylattica/visualization/cell_artist.py
+++ b/src/pylattica/visualization/cell_artist.py
@@ -87,7 +87,8 @@ class DiscreteCellArtist(CellArtist):
             The resulting artist.
         """
         analyzer = DiscreteStepAnalyzer()
-        phases = analyzer.phases_present(state)
+        # phases are reported in an order that varies from process to process
+        phases = sorted(analyzer.phases_present(state), key=str)
         return cls.from_phase_list(phases, **kwargs)
 
     @classmethod
@@ -109,7 +110,8 @@ class DiscreteCellArtist(CellArtist):
         """
 
         analyzer = DiscreteResultAnalyzer(result)
-        return cls.from_phase_list(analyzer.all_phases(), **kwargs)
+        phases = sorted(analyzer.all_phases(), key=str)
+        return cls.from_phase_list(phases, **kwargs)
 
     @classmethod
     def build_color_map_from_phase_list(
-- 
2.43.0


From 72c33b8ae99836311f9ce5bdffd6caeeb501931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:54 +0000
Subject: [PATCH 24/24] fix: importing pylattica.models.growth first failed
 with a circular import

---
 src/pylattica/models/growth/growth_controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/models/growth/growth_controller.py b/src/pylattica/models/growth/growth_controller.py
index 4134200..307563b 100644
--- a/src/pylattica/models/growth/growth_controller.py
+++ b/src/pylattica/models/growth/growth_controller.py
@@ -4,7 +4,6 @@ from ...core.periodic_structure import PeriodicStructure
 from ...core.simulation_state import SimulationState
 from ...discrete import PhaseSet
 from ...discrete.state_constants import DISCRETE_OCCUPANCY, VACANT
-from ...structures.square_grid.neighborhoods import MooreNbHoodBuilder
 
 
 class GrowthController(BasicController):
@@ -19,6 +18,10 @@ class GrowthController(BasicController):
         self.phase_set: PhaseSet = phase_set
 
         if nb_builder is None:
+            # The square grid package imports this module, so it can't be
+            # imported before this module is complete
+            from ...structures.square_grid.neighborhoods import MooreNbHoodBuilder
+
             self.nb_builder = MooreNbHoodBuilder(1, dim=periodic_struct.dim)
         else:
             self.nb_builder = nb_builder
-- 
2.43.0

