From b1951fb8a68cdd69acd50bbed7d29bca8cd8605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 01/23] fix: check every row of a candidate item when testing
 for fit

The last row of the item was only checked at its two ends, so a flat item
(length 1) or the top row of a taller one could be placed over others.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 21e4d08..a22e495 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -92,7 +92,7 @@ class PointGenerationMixin:
         ):
             return False
 
-        for y in range(Yo, Yo + l - 1):
+        for y in range(Yo, Yo + l):
             if any(container_coords[y][Xo : Xo + w]):
                 return False
 
-- 
2.43.0


From 452465978a4624547e054cdb1926021669d1b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 02/23] fix: measure strip utilization on the height the items
 reach

The index of the topmost occupied row was used as height, so the reported
utilization was too high (above 100% for perfect packings).
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a22e495..9a9a0bf 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -531,7 +531,7 @@ class PointGenerationMixin:
 
             for y in range(L - 1, 0, -1):
                 if any(container_coords[y]):
-                    height_of_solution = y
+                    height_of_solution = y + 1
                     break
 
             items_area = sum(
-- 
2.43.0


From c6d11f6e22afc4326aa78e9e0eaffacca9c20b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 03/23] fix: log_solution of a strip that received no item

The strip's height is 0 then and computing its utilization raised
ZeroDivisionError.
---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 9a9a0bf..f81e638 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -653,7 +653,9 @@ class SolutionLoggingMixin:
             total_items_area = sum(
                 [i[2] * i[3] for item_id, i in self.solution[cont_id].items()]
             )
-            log.append(f"\t[util%] : {total_items_area*100/(W*L):.4f}%")
+            # a strip without items and without minimum height has no area
+            util = total_items_area * 100 / (W * L) if L else 0
+            log.append(f"\t[util%] : {util:.4f}%")
             if self._strip_pack:
                 solution = self.solution[cont_id]
                 # height of items stack in solution
-- 
2.43.0


From 7b7e87f87bb817c8486c5a725135ddfa23dea987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 04/23] fix: changing structures that belong to no problem
 instance

Items and Containers can be built without an instance, but assigning to or
deleting from them (or their dimensions) raised AttributeError.
---
 hyperpack/structures.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 3311975..4702419 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -105,7 +105,7 @@ class Dimensions(UserDict):
         """
         # only strip pack case
         if (
-            self.instance._strip_pack
+            getattr(self.instance, "_strip_pack", False)
             and self.proper_keys == {"W", "L"}
             and self.data != {}
         ):
@@ -167,7 +167,7 @@ class AbstractStructureSet(UserDict):
 
         Proper structure_id format enforced.
         """
-        if self.instance._strip_pack and isinstance(self, Containers):
+        if getattr(self.instance, "_strip_pack", False) and isinstance(self, Containers):
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
 
         self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
@@ -180,7 +180,8 @@ class AbstractStructureSet(UserDict):
             raise self.ERROR_CLASS(self.ERROR_CLASS.CANT_DELETE_STRUCTURE)
 
         del self.data[key]
-        self.reset_instance_attrs()
+        if self.instance is not None:
+            self.reset_instance_attrs()
 
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
@@ -300,7 +301,7 @@ class Containers(AbstractStructureSet):
             width = self.data[structure_id][self.WIDTH]
             length = self.data[structure_id][self.LENGTH]
 
-            if self.instance._strip_pack:
+            if getattr(self.instance, "_strip_pack", False):
                 strings_list.append(f"  - id: {structure_id}\n    width: {width}\n")
             else:
                 strings_list.append(
-- 
2.43.0


From a16079c393b458126c43e4a40762d22805760590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 05/23] fix: validate |= on items, containers and their
 dimensions

UserDict.__ior__ writes to the data directly, so invalid content was accepted
(also in strip packing containers) and the solution was not reset.
---
 hyperpack/heuristics.py |  8 ++++++--
 hyperpack/structures.py | 18 +++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 48a9f94..24400c9 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -110,7 +110,9 @@ class BasePackingProblem:
 
     @items.setter
     def items(self, value):
-        self._items = Items(value, self)
+        # `items |= ...` assigns the already updated structure
+        if value is not self._items:
+            self._items = Items(value, self)
 
     @items.deleter
     def items(self):
@@ -126,7 +128,9 @@ class BasePackingProblem:
     def containers(self, value):
         if self._strip_pack:
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
-        self._containers = Containers(value, self)
+        # `containers |= ...` assigns the already updated structure
+        if value is not self._containers:
+            self._containers = Containers(value, self)
         self._containers_num = len(value)
 
     @containers.deleter
diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 4702419..688eb81 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -121,6 +121,11 @@ class Dimensions(UserDict):
     def __delitem__(self, key: str):
         raise DimensionsError(DimensionsError.CANT_DELETE)
 
+    def __ior__(self, other):
+        # validate and reset, as any other change
+        self.update(other)
+        return self
+
 
 class AbstractStructureSet(UserDict):
     """
@@ -170,7 +175,13 @@ class AbstractStructureSet(UserDict):
         if getattr(self.instance, "_strip_pack", False) and isinstance(self, Containers):
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
 
-        self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
+        # `structure[id] |= dims` assigns the already updated dimensions
+        if not (
+            isinstance(structure_id, str)
+            and structure_id in self.data
+            and new_dimensions is self.data[structure_id]
+        ):
+            self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
 
         if self.instance is not None:
             self.reset_instance_attrs()
@@ -183,6 +194,11 @@ class AbstractStructureSet(UserDict):
         if self.instance is not None:
             self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        # validate and reset, as any other change
+        self.update(other)
+        return self
+
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
         # of the Dimensions class
-- 
2.43.0


From 0a168cc04bbe620db590d19c0bb8970e6599df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 06/23] fix: workers_num must be a positive integer

Other numbers (1.5) were accepted, and a refusal was logged twice.
---
 hyperpack/heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 24400c9..7ca0da3 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -401,10 +401,7 @@ class HyperPack(
         # % ----------------------------------------------------------------------------
         workers_num = self._settings.get("workers_num")
         if workers_num is not None:
-            try:
-                if not workers_num > 0:
-                    raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
-            except Exception:
+            if not isinstance(workers_num, int) or workers_num < 1:
                 raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
             self._workers_num = workers_num
         else:
-- 
2.43.0


From 8ae8a85102dc9117c17ed3581458b80238c01e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 07/23] fix: report the strategy of the initial solution as
 best strategy

When no strategy improves the initial solution the default strategy was
reported, also if the instance's strategy is another one.
---
 hyperpack/heuristics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 7ca0da3..6803303 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -466,7 +466,8 @@ class HyperPack(
         retain_solution = self.get_init_solution()
         best_obj_value = self.calculate_obj_value()
         optimum_obj_value = self.get_optimum_objective_val()
-        best_strategy = self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+        # the first solution is constructed with the instance's strategy
+        best_strategy = self._potential_points_strategy
 
         for strategy in strategies:
             # set the construction heuristic's potential points strategy
-- 
2.43.0


From 42a539d18bb59d93ee1a3c22b2b07000c913d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 08/23] fix: hypersearch keeps the instance's potential points
 strategy

The strategy searched last stayed set, so a following solve or local_search
(or hypersearch) gave another result than before.
---
 hyperpack/heuristics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 6803303..0860027 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -467,7 +467,8 @@ class HyperPack(
         best_obj_value = self.calculate_obj_value()
         optimum_obj_value = self.get_optimum_objective_val()
         # the first solution is constructed with the instance's strategy
-        best_strategy = self._potential_points_strategy
+        instance_strategy = self._potential_points_strategy
+        best_strategy = instance_strategy
 
         for strategy in strategies:
             # set the construction heuristic's potential points strategy
@@ -489,6 +490,8 @@ class HyperPack(
             if time.time() - self.start_time > self._max_time_in_seconds:
                 hyperLogger.debug("Terminating due to surpassed max time")
                 break
+
+        self._potential_points_strategy = instance_strategy
         return *retain_solution, best_strategy
 
     def _multi_process_hypersearch(
-- 
2.43.0


From dff4baaebe80457fdd2a0a25e371e25f5ce8a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 09/23] fix: use the strip packing suffix in strip packing
 strategies

---
 hyperpack/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 0860027..563ed4e 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -450,7 +450,7 @@ class HyperPack(
             points = set(self.DEFAULT_POTENTIAL_POINTS_STRATEGY)
             points_to_permutate = points.difference(set(suffixes))
             return [
-                x + self.STRATEGIES_SUFFIX
+                x + suffixes
                 for x in list(
                     permutations(list(points_to_permutate), len(points_to_permutate))
                 )
-- 
2.43.0


From 2ff211164f7cf5999a1d2431b0967f7a6669d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 10/23] fix: order of the hypersearch strategies

The order came from iterating a set of strings, which differs between
interpreter runs: the result of a search and of how strategies are divided
between workers (and what a time limit cuts off) was not reproducible.
---
 hyperpack/heuristics.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 563ed4e..e6769dd 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -447,13 +447,15 @@ class HyperPack(
             else self.STRATEGIES_SUFFIX
         )
         if _exhaustive:
-            points = set(self.DEFAULT_POTENTIAL_POINTS_STRATEGY)
-            points_to_permutate = points.difference(set(suffixes))
+            # ordered, so that a search is the same in every interpreter run
+            points_to_permutate = [
+                point
+                for point in self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+                if point not in suffixes
+            ]
             return [
                 x + suffixes
-                for x in list(
-                    permutations(list(points_to_permutate), len(points_to_permutate))
-                )
+                for x in permutations(points_to_permutate, len(points_to_permutate))
             ]
         else:
             # for testing or customization purposes
-- 
2.43.0


From 0492340d7ee8b9692d54fda1d2b5780f418a28db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 11/23] fix: strip hypersearch accepts only solutions with all
 items

A later strategy, constructing in the already lowered strip, could replace
a complete solution with an incomplete one of higher utilization.
---
 hyperpack/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index e6769dd..0863344 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -423,7 +423,9 @@ class HyperPack(
             )
 
     def _check_solution(self, new_obj_val, best_obj_value):
-        if new_obj_val > best_obj_value:
+        # same criteria as for accepting a node: in strip packing an
+        # incomplete solution isn't accepted because of its utilization
+        if self.compare_node(new_obj_val, best_obj_value):
             return True
         else:
             return False
-- 
2.43.0


From 4349cd266cde71e8185ce497b0e795cb61821a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 12/23] fix: stop searching when maximum utilization is found

The optimum objective value was infinite, so the documented stopping
criterion (all the bins have 100% utilization) never applied.
---
 hyperpack/abstract.py   |  2 +-
 hyperpack/heuristics.py |  3 +++
 hyperpack/mixins.py     | 16 ++++++++++++++++
 hyperpack/processes.py  |  6 +++++-
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/hyperpack/abstract.py b/hyperpack/abstract.py
index cfe7808..0925986 100644
--- a/hyperpack/abstract.py
+++ b/hyperpack/abstract.py
@@ -118,7 +118,7 @@ class AbstractLocalSearch(ABC):
         if hasattr(self, "init_operations"):
             self.init_operations()
 
-        continue_criterion = True
+        continue_criterion = not self.global_check(best_obj_value, optimum_obj_value)
 
         # START of local search
         while continue_criterion:
diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 0863344..62a0ff6 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -474,6 +474,9 @@ class HyperPack(
         instance_strategy = self._potential_points_strategy
         best_strategy = instance_strategy
 
+        if self.global_check(best_obj_value, optimum_obj_value):
+            return *retain_solution, best_strategy
+
         for strategy in strategies:
             # set the construction heuristic's potential points strategy
             self._potential_points_strategy = strategy
diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index f81e638..20cab72 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1124,6 +1124,22 @@ class LocalSearchMixin(AbstractLocalSearch, DeepcopyMixin):
                 sum([u for u in containers_obj_vals[:-1]]) + 0.7 * containers_obj_vals[-1]
             )
 
+    def get_optimum_objective_val(self):
+        """
+        The optimum is reached when every container is fully covered.
+
+        Utilizations are sums of floats, hence the tolerance. It's smaller than
+        what a single uncovered unit of area makes. Strip packing has no
+        known optimum.
+        """
+        if self._strip_pack:
+            return super().get_optimum_objective_val()
+
+        optimum = self.max_obj_value * (
+            1 if self._containers_num == 1 else self._containers_num - 1 + 0.7
+        )
+        return optimum - 1e-9
+
     def get_init_solution(self):
         self.solve(debug=False)
         # deepcopying solution
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 9971e44..27398e0 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -76,7 +76,11 @@ class HyperSearchProcess(Process):
             start_time = self.instance.start_time
             max_time_in_seconds = self.instance._max_time_in_seconds
 
-            for strategy in self.strategies_chunk:
+            strategies = self.strategies_chunk
+            if is_global(best_obj_value, optimum_obj_value):
+                strategies = ()
+
+            for strategy in strategies:
                 # set the construction's heuristic potential points strategy
                 self.instance._potential_points_strategy = strategy
 
-- 
2.43.0


From 6ef1d486d426b9a4f10c1f28267450f65866d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 13/23] fix: hypersearch never waits for a worker that can't
 deliver

Joining before reading the results deadlocks when a result is larger than the
pipe's buffer, and a worker that died without a result was waited for forever
(or, if it had found a good value before, chosen as the winner).
---
 hyperpack/heuristics.py | 31 +++++++++++++++++++++----------
 hyperpack/processes.py  |  8 ++++----
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 62a0ff6..a028174 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -512,7 +512,9 @@ class HyperPack(
 
         processes = []
         min_val = 0
-        shared_Array = Array("d", [min_val] * len(strategies_chunks))
+        # every process writes its own element only. A lock could be
+        # held by a process that dies
+        shared_Array = Array("d", [min_val] * len(strategies_chunks), lock=False)
         container_min_height = getattr(self, "container_min_height", None)
         for i, strategies_chunk in enumerate(strategies_chunks):
             processes.append(
@@ -533,10 +535,26 @@ class HyperPack(
             )
         for p in processes:
             p.start()
+            # only the process sends: if it dies there is nothing to wait for
+            p.sender.close()
+
+        # receive before joining: a process with a result that doesn't fit in
+        # the pipe's buffer can't exit until the result is received
+        outputs = []
+        for p in processes:
+            try:
+                outputs.append(p.receiver.recv())
+            except (EOFError, OSError):
+                outputs.append(None)
+            p.receiver.close()
+
         for p in processes:
             p.join()
         # at this point the processes concluded operation
-        shared_list = list(shared_Array)
+        shared_list = [
+            -1 if output is None else obj_val
+            for obj_val, output in zip(shared_Array, outputs)
+        ]
 
         # check if all/some processes failed
         if max(shared_list) == -1:
@@ -550,7 +568,7 @@ class HyperPack(
         shared_list_optimum = self._get_array_optimum(shared_list)
         win_process_index = shared_list.index(shared_list_optimum)
         win_process = processes[win_process_index]
-        win_metrics = win_process.queue.get()
+        win_metrics = outputs[win_process_index]
 
         best_solution = self._deepcopy_solution(win_metrics[1])
         best_obj_val_per_container = self._copy_objective_val_per_container(
@@ -565,13 +583,6 @@ class HyperPack(
             f"\nWinning Process {win_process.name} found max\n"
             f"\tobj_val = {win_metrics[0]}\n\tsequence = {win_metrics[3]}"
         )
-        win_process.queue.close()
-
-        # Log rest of the processes
-        # UNCOMMENT FOR EXTRA DEBUGGING ON PROCESSES
-        for p in processes:
-            p.queue.close()
-
         return (best_solution, best_obj_val_per_container, best_strategy)
 
     def hypersearch(
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 27398e0..dac80e4 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -1,5 +1,5 @@
 from time import time
-from multiprocessing import Process, Queue
+from multiprocessing import Pipe, Process
 from .exceptions import MultiProcessError
 from .loggers import hyperLogger
 from copy import deepcopy
@@ -41,7 +41,7 @@ class HyperSearchProcess(Process):
         self._force_raise_error_index = _force_raise_error_index
         self.index = index
         self.shared_array = shared_array
-        self.queue = Queue()
+        self.receiver, self.sender = Pipe(duplex=False)
         self.strategies_chunk = strategies_chunk
 
         settings = deepcopy(settings)
@@ -124,7 +124,7 @@ class HyperSearchProcess(Process):
                     break
 
             output = (best_obj_value, *retain_solution, best_strategy)
-            self.queue.put(output)
+            self.sender.send(output)
 
         # % ------------ Exception case -----------
         except Exception as e:
@@ -132,4 +132,4 @@ class HyperSearchProcess(Process):
                 f"Process {self.name} failed with error: \n\t{str(e)}\n"
             )
             self.shared_array[self.index] = -1
-            self.queue.put((-1, {}, {}, None))
+            self.sender.send((-1, {}, {}, None))
-- 
2.43.0


From b9ddbf2289e141ee2326433acbe4b14372093d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 14/23] fix: multi process hypersearch respects the strip's
 container_height

The workers packed in a strip of the initial height instead.
---
 hyperpack/heuristics.py | 1 +
 hyperpack/processes.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index a028174..d3bcd19 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -530,6 +530,7 @@ class HyperPack(
                     shared_array=shared_Array,
                     throttle=throttle,
                     container_min_height=container_min_height,
+                    container_height=self._container_height,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index dac80e4..c0d2848 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -32,6 +32,7 @@ class HyperSearchProcess(Process):
         *,
         strip_pack=False,
         container_min_height=None,
+        container_height=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -56,6 +57,8 @@ class HyperSearchProcess(Process):
 
         self.instance = HyperPack(**params)
         self.instance._container_min_height = container_min_height
+        if container_height is not None:
+            self.instance._container_height = container_height
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From e0cb2802f33f38cd49b955e21af3c59dbe0914c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 15/23] fix: multi process hypersearch starts from the
 instance's strategy

As in the single process search, the initial solution is the one of the
instance's strategy, which is reported if no other improves it.
---
 hyperpack/heuristics.py | 4 +++-
 hyperpack/processes.py  | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index d3bcd19..4f9acc6 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -531,6 +531,7 @@ class HyperPack(
                     throttle=throttle,
                     container_min_height=container_min_height,
                     container_height=self._container_height,
+                    potential_points_strategy=self._potential_points_strategy,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
@@ -576,7 +577,8 @@ class HyperPack(
             win_metrics[2]
         )
         if win_metrics[3] is None:
-            best_strategy = None
+            # no strategy improved the initial solution
+            best_strategy = self._potential_points_strategy
         else:
             best_strategy = [point for point in win_metrics[3]]
 
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index c0d2848..7788936 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -33,6 +33,7 @@ class HyperSearchProcess(Process):
         strip_pack=False,
         container_min_height=None,
         container_height=None,
+        potential_points_strategy=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -59,6 +60,8 @@ class HyperSearchProcess(Process):
         self.instance._container_min_height = container_min_height
         if container_height is not None:
             self.instance._container_height = container_height
+        if potential_points_strategy is not None:
+            self.instance._potential_points_strategy = potential_points_strategy
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From e848b2d8087b79467efae2987dbc62e77924d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 16/23] fix: compare plotly and kaleido versions as numbers

As strings plotly 5.9.0 passed as newer than 5.14.0, while 5.14 didn't
satisfy the same requirement.
---
 hyperpack/mixins.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 20cab72..c401973 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -688,10 +688,19 @@ class SolutionFigureMixin:
     FIGURE_DEFAULT_FILE_NAME = "PlotlyGraph"
     ACCEPTED_IMAGE_EXPORT_FORMATS = ("pdf", "png", "jpeg", "webp", "svg")
     # settings constraints
-    PLOTLY_MIN_VER = ("5", "14", "0")
-    PLOTLY_MAX_VER = ("6", "0", "0")
-    KALEIDO_MIN_VER = ("0", "2", "1")
-    KALEIDO_MAX_VER = ("0", "3", "0")
+    PLOTLY_MIN_VER = (5, 14, 0)
+    PLOTLY_MAX_VER = (6, 0, 0)
+    KALEIDO_MIN_VER = (0, 2, 1)
+    KALEIDO_MAX_VER = (0, 3, 0)
+
+    @staticmethod
+    def _get_version_numbers(version: str) -> tuple:
+        """
+        Returns the first three numbers of a version string, e.g.
+        "5.9.0" --> (5, 9, 0). Strings would compare "9" > "14".
+        """
+        numbers = [re.match(r"\d*", part).group() for part in version.split(".")]
+        return tuple(int(number or 0) for number in (numbers + ["0", "0"])[:3])
 
     def _check_plotly_kaleido_versions(self) -> None:
         self._plotly_installed = False
@@ -705,7 +714,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._plotly_installed = True
-            plotly_ver = tuple([x for x in plotly.__version__.split(".")][:3])
+            plotly_ver = self._get_version_numbers(plotly.__version__)
             if plotly_ver >= self.PLOTLY_MIN_VER and plotly_ver < self.PLOTLY_MAX_VER:
                 self._plotly_ver_ok = True
 
@@ -715,7 +724,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._kaleido_installed = True
-            kaleido_ver = tuple([x for x in kaleido.__version__.split(".")][:3])
+            kaleido_ver = self._get_version_numbers(kaleido.__version__)
             if kaleido_ver >= self.KALEIDO_MIN_VER and kaleido_ver < self.KALEIDO_MAX_VER:
                 self._kaleido_ver_ok = True
 
-- 
2.43.0


From 9f11274e20fc0f8764379080e63e23c1773cc26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 17/23] fix: figures of containers with more items than colors

create_figure raised IndexError for a container with over 1000 items.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index c401973..c4fcfeb 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -820,7 +820,7 @@ class SolutionFigureMixin:
         Method for returning a hexadecimal color for every item
         in the graph.
         """
-        return constants.ITEMS_COLORS[index]
+        return constants.ITEMS_COLORS[index % len(constants.ITEMS_COLORS)]
 
     def get_figure_dtick_value(self, dimension, scale=20):
         """
-- 
2.43.0


From e66faa3474a2a5ebd03047a9a11f43968063f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 18/23] fix: figure's show setting has precedence over the
 parameter

create_figure(show=True) displayed the figure with settings show False.
---
 hyperpack/mixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index c4fcfeb..3d52082 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -865,7 +865,8 @@ class SolutionFigureMixin:
 
         figure_settings = self._settings.get("figure", {})
         export = figure_settings.get("export")
-        show = figure_settings.get("show") or show
+        # the settings value has precedence over the parameter
+        show = figure_settings.get("show", show)
 
         if not show and export is None:
             hyperLogger.warning(FigureExportError.NO_FIGURE_OPERATION)
-- 
2.43.0


From 4450269544a181362f8d4e66bee6b9dd3d5cf25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 19/23] fix: validate width and height of every figure export

As documented invalid values raise SettingsError for html exports too.
---
 hyperpack/mixins.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 3d52082..d60d204 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -802,14 +802,14 @@ class SolutionFigureMixin:
                     if not self._kaleido_ver_ok:
                         raise SettingsError(SettingsError.FIGURE_EXPORT_KALEIDO_VERSION)
 
-                    export_width = export.get("width")
-                    if export_width is not None:
-                        if not isinstance(export_width, int) or export_width <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
-                    export_height = export.get("height")
-                    if export_height is not None:
-                        if not isinstance(export_height, int) or export_height <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
+                export_width = export.get("width")
+                if export_width is not None:
+                    if not isinstance(export_width, int) or export_width <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
+                export_height = export.get("height")
+                if export_height is not None:
+                    if not isinstance(export_height, int) or export_height <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
 
             show = figure_settings.get("show", False)
             if not isinstance(show, bool):
-- 
2.43.0


From 45cf0f2c58c82e3957511c6d6fd546ec26b7476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 20/23] fix: dimensions of generated items

The length range was made from the requested width, and deviations were
interchanged, so zero and negative dimensions could be generated.
---
 hyperpack/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hyperpack/utils.py b/hyperpack/utils.py
index 147ee7e..62c6223 100644
--- a/hyperpack/utils.py
+++ b/hyperpack/utils.py
@@ -51,23 +51,24 @@ def generate_problem_data(**kwargs):
     items_length = kwargs.get("items_length", DEFAULT_MEAN_ITEM_LENGTH)
     items_width = kwargs.get("items_width", DEFAULT_MEAN_ITEM_WIDTH)
 
-    deviation_w_val = max(round(items_length * 0.6), 1)
-    deviation_h_val = max(round(items_width * 0.6), 1)
+    deviation_w_val = max(round(items_width * 0.6), 1)
+    deviation_l_val = max(round(items_length * 0.6), 1)
 
+    # dimensions must be positive
     lower_w_val, upper_w_val = (
-        items_width - deviation_w_val,
+        max(items_width - deviation_w_val, 1),
         items_width + deviation_w_val,
     )
-    lower_h_val, upper_h_val = (
-        items_width - deviation_h_val,
-        items_width + deviation_h_val,
+    lower_l_val, upper_l_val = (
+        max(items_length - deviation_l_val, 1),
+        items_length + deviation_l_val,
     )
     items = {}
     total_items_num = items_num * containers_num
     for item_num in range(total_items_num):
         items[f"item-{item_num}"] = {
             "w": random.randint(lower_w_val, upper_w_val),
-            "l": random.randint(lower_h_val, upper_h_val),
+            "l": random.randint(lower_l_val, upper_l_val),
         }
 
     print("Containers number = ", containers_num)
-- 
2.43.0


From d459d5cdcfd287199647d2a3cfad3b0cad904c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 21/23] fix: number of containers after changing a replaced
 structure

---
 hyperpack/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 688eb81..4ef7e3f 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -246,7 +246,8 @@ class Containers(AbstractStructureSet):
 
     def reset_instance_attrs(self):
         super().reset_instance_attrs()
-        self.instance._containers_num = len(self.data)
+        # this structure may not be the instance's any more
+        self.instance._containers_num = len(self.instance.containers)
 
     def _get_height(self, cont_id="strip-pack-container"):
         """
-- 
2.43.0


From 2fc3f93e379870d847a767547de0e1c93fed0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 22/23] fix: hypersearch processes use the validated settings

---
 hyperpack/heuristics.py | 6 ++++++
 hyperpack/processes.py  | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 4f9acc6..ef96456 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -524,6 +524,12 @@ class HyperPack(
                     containers=self._containers.deepcopy(),
                     items=self._items.deepcopy(),
                     settings=self._settings,
+                    # changes of settings that haven't been validated
+                    # aren't in force for the processes either
+                    validated_settings={
+                        "max_time_in_seconds": self._max_time_in_seconds,
+                        "rotation": self._rotation,
+                    },
                     strategies_chunk=strategies_chunk,
                     name=f"hypersearch_{i}",
                     start_time=self.start_time,
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 7788936..840e86f 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -34,6 +34,7 @@ class HyperSearchProcess(Process):
         container_min_height=None,
         container_height=None,
         potential_points_strategy=None,
+        validated_settings=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -46,7 +47,7 @@ class HyperSearchProcess(Process):
         self.receiver, self.sender = Pipe(duplex=False)
         self.strategies_chunk = strategies_chunk
 
-        settings = deepcopy(settings)
+        settings = deepcopy(validated_settings or settings)
         if "workers_num" in settings:
             settings["workers_num"] = 1
         params = {"items": items, "settings": settings}
-- 
2.43.0


From 3d7a6527e2caed144c317b7d94784cc736cf184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 23/23] fix: too long figure export paths are refused with
 SettingsError

---
 hyperpack/mixins.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index d60d204..f5e1c9b 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1,4 +1,5 @@
 import math
+import os
 import time
 
 from .abstract import AbstractLocalSearch
@@ -765,11 +766,11 @@ class SolutionFigureMixin:
                 if not isinstance(export_path, str):
                     raise SettingsError(SettingsError.FIGURE_EXPORT_PATH_VALUE)
 
-                export_path = Path(export_path)
-                if not export_path.exists():
+                # never raises, also not for too long paths
+                if not os.path.exists(export_path):
                     raise SettingsError(SettingsError.FIGURE_EXPORT_PATH_NOT_EXISTS)
 
-                if not export_path.is_dir():
+                if not os.path.isdir(export_path):
                     raise SettingsError(SettingsError.FIGURE_EXPORT_PATH_NOT_DIRECTORY)
 
                 file_format = export.get("format")
-- 
2.43.0

