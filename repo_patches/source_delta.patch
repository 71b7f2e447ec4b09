From 6ebe42bec5da3f04eda57d5bed14e416cfae794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:09 +0000
Subject: [PATCH 01/21] fix: never yield finished or blocked nodes from
 GraphWalker after out-of-order finish

---
 python/lsst/pipe/base/graph_walker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph_walker.py b/python/lsst/pipe/base/graph_walker.py
index d73a297..512a270 100644
--- a/python/lsst/pipe/base/graph_walker.py
+++ b/python/lsst/pipe/base/graph_walker.py
@@ -90,7 +90,7 @@ class GraphWalker[T]:
             assert successor not in self._active, (
                 "A node downstream of an active one should not have been yielded yet."
             )
-            if all(
+            if successor in self._incomplete and all(
                 predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
             ):
                 self._ready.add(successor)
@@ -118,4 +118,6 @@ class GraphWalker[T]:
         self._xgraph.remove_node(key)
         self._xgraph.remove_nodes_from(descendants)
         self._incomplete.difference_update(descendants)
+        self._active.difference_update(descendants)
+        self._ready.difference_update(descendants)
         return descendants
-- 
2.43.0


From faa36bb21e542cb538b109a274d57e205b9b8f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 02/21] fix: find rows whose UUID directly follows the last one
 on the previous address page

---
 python/lsst/pipe/base/quantum_graph/_multiblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_multiblock.py b/python/lsst/pipe/base/quantum_graph/_multiblock.py
index c66501f..acd8dab 100644
--- a/python/lsst/pipe/base/quantum_graph/_multiblock.py
+++ b/python/lsst/pipe/base/quantum_graph/_multiblock.py
@@ -538,7 +538,7 @@ class AddressReader:
             bounds = self.page_bounds[mid]
             if key.int < bounds.uuid_int_begin:
                 right = mid - 1
-            elif key.int > bounds.uuid_int_end:
+            elif key.int >= bounds.uuid_int_end:
                 left = mid + 1
             else:
                 # Should have been on this page, but it wasn't.
-- 
2.43.0


From a399538e7a67a49079635ccf6dd006120f1886cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:32 +0000
Subject: [PATCH 03/21] fix: preserve int, bool and str values when reading
 TaskMetadata from JSON

---
 python/lsst/pipe/base/_task_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index da201ac..080104d 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -124,10 +124,10 @@ class GetSetDictMetadata(SetDictMetadata, GetDictMetadata, Protocol):
 # constant "inf" or "nan", since the Pydantic model_config ser_json_inf_nan
 # doesn't automatically get picked up by parent models. This before-validator
 # turns those nulls back into NaNs, making the metadata readable again.
-def _convert_null_to_nan(value: Any) -> float:
+def _convert_null_to_nan(value: Any) -> Any:
     if value is None:
         return float("nan")
-    return float(value)
+    return value
 
 
 type _NullToNanFloat = Annotated[StrictFloat, BeforeValidator(_convert_null_to_nan)]
-- 
2.43.0


From 189bbab2b0ae0b2ca156a78b321f3e01a743cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:51 +0000
Subject: [PATCH 04/21] fix: leave TaskMetadata unchanged when a hierarchical
 assignment or add() is rejected

---
 python/lsst/pipe/base/_task_metadata.py | 30 ++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index 080104d..e34a296 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -262,19 +262,17 @@ class TaskMetadata(BaseModel):
                 raise ValueError(f"Can not add() to key '{name}' since that is a TaskMetadata")
 
             if key0 in self.scalars:
-                # Convert scalar to array.
-                # MyPy should be able to figure out that List[Union[T1, T2]] is
-                # compatible with  Union[List[T1], List[T2]] if the list has
-                # only one element, but it can't.
-                self.arrays[key0] = [self.scalars.pop(key0)]  # type: ignore
-
-            if key0 in self.arrays:
-                # Check that the type is not changing.
-                if (curtype := type(self.arrays[key0][0])) is not (newtype := type(value[0])):
-                    raise ValueError(f"Type mismatch in add() -- currently {curtype} but adding {newtype}")
-                self.arrays[key0].extend(value)
+                current: list[Any] = [self.scalars[key0]]
             else:
-                self.arrays[key0] = value
+                current = self.arrays.get(key0, [])
+
+            # Check that the type is not changing.
+            if current and value and (curtype := type(current[0])) is not (newtype := type(value[0])):
+                raise ValueError(f"Type mismatch in add() -- currently {curtype} but adding {newtype}")
+            current.extend(value)
+            self.arrays[key0] = current
+            # If this was a scalar it is now an array.
+            self.scalars.pop(key0, None)
 
             return
 
@@ -518,9 +516,11 @@ class TaskMetadata(BaseModel):
             return
 
         # This must be hierarchical so forward to the child TaskMetadata.
-        if key0 not in self.metadata:
-            self.metadata[key0] = TaskMetadata()
-        self.metadata[key0][".".join(keys)] = item
+        child = self.metadata.get(key0)
+        if child is None:
+            child = TaskMetadata()
+        child[".".join(keys)] = item
+        self.metadata[key0] = child
 
         # Ensure we have cleared out anything with the same name elsewhere.
         self.scalars.pop(key0, None)
-- 
2.43.0


From 07b61e704fac957f3ad4528379a06005946859ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:47 +0000
Subject: [PATCH 05/21] fix: record quantum IDs in reports of failed and
 skipped quanta executed in-process

---
 python/lsst/pipe/base/mp_graph_executor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index ca90f3d..e995df3 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -242,7 +242,7 @@ class _Job:
             else:
                 raise
         except InvalidQuantumError as exc:
-            _LOG.fatal("Invalid quantum error for %s (%s): %s", task_node.label, quantum.dataId)
+            _LOG.fatal("Invalid quantum error for %s (%s):", task_node.label, quantum.dataId)
             _LOG.fatal(exc, exc_info=True)
             report = QuantumReport.from_exception(
                 quantumId=quantum_id,
@@ -684,6 +684,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                         raise
                 except Exception as exc:
                     quantum_report = QuantumReport.from_exception(
+                        quantumId=quantum_id,
                         exception=exc,
                         dataId=data_id,
                         taskLabel=task_node.label,
@@ -734,6 +735,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                     for downstream_quantum_id in walker.fail(quantum_id):
                         downstream_node_state = xgraph.nodes[downstream_quantum_id]
                         failed_quantum_report = QuantumReport(
+                            quantumId=downstream_quantum_id,
                             status=ExecutionStatus.SKIPPED,
                             dataId=downstream_node_state["data_id"],
                             taskLabel=downstream_node_state["task_label"],
-- 
2.43.0


From 9e476faa18732e5ee6117542ca82fb6e6ac95397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:18 +0000
Subject: [PATCH 06/21] fix: cache a dataset on put only after the wrapped
 butler stored it

---
 python/lsst/pipe/base/caching_limited_butler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index c1e0e70..2c443b9 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -168,6 +168,9 @@ class CachingLimitedButler(LimitedButler):
         return self._wrapped.isWriteable()
 
     def put(self, obj: Any, ref: DatasetRef, /, *, provenance: DatasetProvenance | None = None) -> DatasetRef:
+        # Only cache after the wrapped put succeeds, so a failed put can never
+        # make the dataset look like it exists.
+        result = self._wrapped.put(obj, ref, provenance=provenance)
         if ref.datasetType.name in self._cache_on_put:
             self._cache[ref.datasetType.name] = (
                 ref.id,
@@ -179,7 +182,7 @@ class CachingLimitedButler(LimitedButler):
                 ),
             )
             _LOG.debug("Cached dataset %s on put", ref)
-        return self._wrapped.put(obj, ref, provenance=provenance)
+        return result
 
     def pruneDatasets(
         self,
-- 
2.43.0


From 2c1c79b317d7f588106163581a0a3d5fb13dc973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:54 +0000
Subject: [PATCH 07/21] fix: ask for missing datasets after sleeping, not
 before, in BlockingLimitedButler.stored_many

---
 python/lsst/pipe/base/blocking_limited_butler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/blocking_limited_butler.py b/python/lsst/pipe/base/blocking_limited_butler.py
index 3fe1946..9e6841b 100644
--- a/python/lsst/pipe/base/blocking_limited_butler.py
+++ b/python/lsst/pipe/base/blocking_limited_butler.py
@@ -138,8 +138,10 @@ class BlockingLimitedButler(LimitedButler):
                     remaining.append(ref)
             if not remaining:
                 return result
-            result.update(self._wrapped.stored_many(remaining))
+            # Sleep before asking again (as in 'get'), so we never give up on a
+            # dataset that appeared while we were sleeping.
             time.sleep(0.5)
+            result.update(self._wrapped.stored_many(remaining))
 
     def isWriteable(self) -> bool:
         return self._wrapped.isWriteable()
-- 
2.43.0


From a11cc3bbae0ed6c4a91edd1357284759e6827948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:28 +0000
Subject: [PATCH 08/21] fix: prune contracts that span several lines when a
 task they name is removed

---
 python/lsst/pipe/base/pipelineIR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 76cc9ce..e42bbdb 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -932,7 +932,7 @@ class PipelineIR:
         for contract in self.contracts:
             # match a label that is not preceded by an ASCII identifier, or
             # is the start of a line and is followed by a dot
-            if re.match(f".*([^A-Za-z0-9_]|^){label}[.]", contract.contract):
+            if re.search(rf"([^A-Za-z0-9_]|^){re.escape(label)}[.]", contract.contract):
                 continue
             new_contracts.append(contract)
         self.contracts = new_contracts
-- 
2.43.0


From cf14e7349b3e49a9a9190fe065cf6f39806d4069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 09/21] fix: select imported tasks correctly when an import
 also renames tasks or excludes nothing

Renaming an included task replaced all other entries of the include list, an
empty exclude list excluded everything, and naming a labeled subset was not
equivalent to naming its tasks when one of them was renamed.
---
 python/lsst/pipe/base/pipelineIR.py | 57 +++++++++++++++++------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index e42bbdb..0191a24 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -45,7 +45,7 @@ import warnings
 from collections import Counter
 from collections.abc import Generator, Hashable, Iterable, MutableMapping
 from dataclasses import dataclass, field
-from typing import Any, Literal, cast
+from typing import Any, Literal
 
 import yaml
 
@@ -506,21 +506,23 @@ class ImportIR:
         if self.instrument is not _Tags.KeepInstrument:
             tmp_pipeline.instrument = self.instrument
 
+        # Naming a labeled subset in the include or exclude list is the same as
+        # naming all of the tasks in it.
+        include = tmp_pipeline._expand_subsets(self.include)
+        exclude = tmp_pipeline._expand_subsets(self.exclude)
+
         included_labels = set()
         renamed_tasks = {}
         for label in tmp_pipeline.tasks:
-            is_included = self.include and label in self.include
-            if (
-                is_included
-                or (self.exclude and label not in self.exclude)
-                or (self.include is None and self.exclude is None)
-            ):
+            if include:
+                is_included = label in include
+            elif exclude is not None:
+                is_included = label not in exclude
+            else:
+                is_included = include is None
+            if is_included:
                 if (label_new := self.rename.get(label)) is not None:
                     renamed_tasks[label] = label_new
-                    if is_included:
-                        self.include = [
-                            label_new if (x == label) else label for x in cast(list[str], self.include)
-                        ]
                 else:
                     label_new = label
                 included_labels.add(label_new)
@@ -537,18 +539,6 @@ class ImportIR:
         if rename_errors:
             raise ValueError("; ".join(rename_errors))
 
-        # Handle labeled subsets being specified in the include or exclude
-        # list, adding or removing labels.
-        if self.include is not None:
-            subsets_in_include = tmp_pipeline.labeled_subsets.keys() & self.include
-            for label in subsets_in_include:
-                included_labels.update(tmp_pipeline.labeled_subsets[label].subset)
-
-        elif self.exclude is not None:
-            subsets_in_exclude = tmp_pipeline.labeled_subsets.keys() & self.exclude
-            for label in subsets_in_exclude:
-                included_labels.difference_update(tmp_pipeline.labeled_subsets[label].subset)
-
         if not self.importSteps:
             tmp_pipeline.steps = []
 
@@ -921,6 +911,27 @@ class PipelineIR:
                     )
             self.tasks[label] = TaskIR(label, definition["class"], task_config_ir)
 
+    def _expand_subsets(self, labels: Iterable[str] | None) -> set[str] | None:
+        """Add the task labels of any labeled subsets to a list of labels.
+
+        Parameters
+        ----------
+        labels : `~collections.abc.Iterable` [`str`] or `None`
+            Labels of tasks and labeled subsets.
+
+        Returns
+        -------
+        expanded : `set` [`str`] or `None`
+            The given labels and the labels of all tasks in the given labeled
+            subsets, or `None` if ``labels`` is `None`.
+        """
+        if labels is None:
+            return None
+        expanded = set(labels)
+        for label in self.labeled_subsets.keys() & labels:
+            expanded.update(self.labeled_subsets[label].subset)
+        return expanded
+
     def _remove_contracts(self, label: str) -> None:
         """Remove any contracts that contain the given label
 
-- 
2.43.0


From faa72d5b8d395a9affc815b1226446abb9cada78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 10/21] fix: write step definitions when serializing a pipeline

---
 python/lsst/pipe/base/pipelineIR.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 0191a24..63bcc21 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -568,6 +568,10 @@ class StepIR:
     dimensions: list[str]
     """The dimensions to use when sharding this step."""
 
+    def to_primitives(self) -> dict[str, str | list[str]]:
+        """Convert to a representation used in yaml serialization."""
+        return {"label": self.label, "dimensions": self.dimensions}
+
 
 class PipelineIR:
     """Intermediate representation of a pipeline definition.
@@ -1109,6 +1113,8 @@ class PipelineIR:
             accumulate["contracts"] = contracts_list
         if self.labeled_subsets:
             accumulate["subsets"] = {k: v.to_primitives() for k, v in self.labeled_subsets.items()}
+        if self.steps:
+            accumulate["steps"] = [s.to_primitives() for s in self.steps]
         return accumulate
 
     def __str__(self) -> str:
-- 
2.43.0


From 7dba476ceac0a656c25c3bdc8ba826e1f782ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 11/21] fix: read every use of a shared (anchored) config
 mapping in a pipeline completely

---
 python/lsst/pipe/base/pipelineIR.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 63bcc21..59186c5 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -903,6 +903,9 @@ class PipelineIR:
                     config = [config]
                 task_config_ir = []
                 for c in config:
+                    # copy, because the same mapping may be used more than once
+                    # (via yaml anchors)
+                    c = dict(c)
                     file = c.pop("file", None)
                     if file is None:
                         file = []
-- 
2.43.0


From bd8f92d888e802cead2fde53a417349c23891929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:05 +0000
Subject: [PATCH 12/21] fix: report the original error when a task cannot be
 constructed

If the task factory raised, the clean-up in the executor failed with
UnboundLocalError on the never assigned task, which hid the original
exception from the caller and left the log without metadata.
---
 python/lsst/pipe/base/single_quantum_executor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index cdec3e9..c86c4fe 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -304,10 +304,11 @@ class SingleQuantumExecutor(QuantumExecutor):
                 task_node.label,
                 quantum.dataId,
             )
+            task: PipelineTask | None = None
+            outputs_put: list[uuid.UUID] = []
             try:
                 task = self._task_factory.makeTask(task_node, limited_butler, init_input_refs)
                 logInfo(None, "start", metadata=quantumMetadata)  # type: ignore[arg-type]
-                outputs_put: list[uuid.UUID] = []
                 with limited_butler.record_metrics() as butler_metrics, GcMetrics() as gc_metrics:
                     caveats = self._run_quantum(
                         task, quantum, task_node, limited_butler, quantum_id=quantum_id, ids_put=outputs_put
@@ -334,7 +335,8 @@ class SingleQuantumExecutor(QuantumExecutor):
                 # PropertyList.
             finally:
                 logInfo(None, "end", metadata=quantumMetadata)  # type: ignore[arg-type]
-                fullMetadata = task.getFullMetadata()
+                # If the task could not be constructed it has no metadata.
+                fullMetadata = task.getFullMetadata() if task is not None else _TASK_FULL_METADATA_TYPE()
                 quantumMetadata["outputs"] = [str(output) for output in outputs_put]
                 fullMetadata["quantum"] = quantumMetadata
                 if self._job_metadata is not None:
-- 
2.43.0


From 47a281fae30499ace2bf407900ee3586bfedee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:37 +0000
Subject: [PATCH 13/21] fix: export whether a pipeline graph edge is an init
 edge

The 'is_init' attribute of edges in exported networkx graphs was the type
bool instead of the edge's own flag.
---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index e893982..1a569a6 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -259,7 +259,7 @@ class Edge(ABC):
             "connection_name": self.connection_name,
             "parent_dataset_type_name": self.parent_dataset_type_name,
             "storage_class_name": self.storage_class_name,
-            "is_init": bool,
+            "is_init": self.is_init,
         }
 
     @classmethod
-- 
2.43.0


From a102f636ae7cfd272619dd67c084b39cba0249fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:37 +0000
Subject: [PATCH 14/21] fix: detect multiple producers in
 PipelineGraph.producing_edge_of

The label of the first producer was never remembered, so the documented
DuplicateOutputError was never raised and the last producer was returned.
---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 1222a8b..a6b195e 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -400,6 +400,7 @@ class PipelineGraph:
                     f"Dataset type {dataset_type_name!r} is produced by both {producing_edge.task_label!r} "
                     f"and {producer!r}."
                 )
+            producer = producing_edge.task_label
         return producing_edge
 
     def consuming_edges_of(self, dataset_type_name: str) -> list[ReadEdge]:
-- 
2.43.0


From 58448104e968c77ddf50f169627986230eddc7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:34 +0000
Subject: [PATCH 15/21] fix: check init-inputs and init-outputs when verifying
 the order of steps

A step order in which a task needed an init-output of a task in a later
step was accepted, and the resolved graph was then not topologically
sorted.
---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index a6b195e..76b9fd9 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2401,11 +2401,11 @@ class PipelineGraph:
             # graph keys for the step so we can make and sort a step sub-graph.
             new_step_keys: set[NodeKey] = set()
             for task_label in task_subset:
-                for input_name in self.inputs_of(task_label):
+                for input_name in (*self.inputs_of(task_label), *self.inputs_of(task_label, init=True)):
                     step_inputs.setdefault(input_name, set()).add(task_label)
                 # Check that none of the outputs of the tasks in this step were
                 # expected as inputs of a previous step's tasks.
-                task_outputs = self.outputs_of(task_label)
+                task_outputs = {**self.outputs_of(task_label), **self.outputs_of(task_label, init=True)}
                 if not inputs_so_far.keys().isdisjoint(task_outputs.keys()):
                     msg: list[str] = []
                     for input_name in inputs_so_far.keys() & task_outputs.keys():
-- 
2.43.0


From e9b510fdf4ba6e1e2cbda373bbd44d6f478b01dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:34 +0000
Subject: [PATCH 16/21] fix: mark steps as unverified when tasks are added or
 removed

get_task_step raised KeyError for tasks added after the steps were
verified, instead of the documented UnresolvedGraphError.
---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 76b9fd9..5d29c56 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2363,6 +2363,7 @@ class PipelineGraph:
         self._sorted_keys = None
         self._tasks._reset()
         self._dataset_types._reset()
+        self._step_definitions._verified = False
 
     def _resolve_step_flow(self) -> Sequence[NodeKey] | None:
         """Check that step definitions are consistent with the ordering of
-- 
2.43.0


From aa2ac6b6faf9fbf4cd2b2748446a49a2ab5686b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:32 +0000
Subject: [PATCH 17/21] fix: restore the step of each task when reading a
 pipeline graph

PipelineGraph.get_task_step raised KeyError on graphs read back from
storage although their steps were marked as verified.
---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 1 +
 python/lsst/pipe/base/pipeline_graph/io.py              | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 5d29c56..4afacd7 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2212,6 +2212,7 @@ class PipelineGraph:
         state: dict[str, Any]
         for state in xgraph.nodes.values():
             node_value: TaskInitNode | TaskNode | DatasetTypeNode | None = state.pop("instance")
+            state.pop("step", None)  # private; see _resolve_step_flow
             if node_value is not None:
                 state.update(node_value._to_xgraph_state())
             else:
diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index 06b87db..3153021 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -648,6 +648,12 @@ class SerializedTaskSubset(pydantic.BaseModel):
         members = set(self.tasks)
         if label in steps:
             steps._dimensions_by_label[label] = frozenset(self.dimensions)
+            if steps._verified:
+                # Restore the private attributes used to look up the step of a
+                # task, which are otherwise only set when steps are verified.
+                for task_label in members:
+                    xgraph.nodes[NodeKey(NodeType.TASK_INIT, task_label)]["step"] = label
+                    xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"] = label
         return TaskSubset(xgraph, label, members, self.description, steps)
 
 
-- 
2.43.0


From 7b348145dd02d9dfcc04935243e1c01a1ae3487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:28 +0000
Subject: [PATCH 18/21] fix: keep inputs that the graph does not produce when
 updating the output run

PredictedQuantumGraphComponents.update_output_run changed the run of existing
datasets in the old output run without changing their UUIDs.
---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index f2b3f36..dd590fa 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1741,15 +1741,12 @@ class PredictedQuantumGraphComponents:
                 output_dataset.run = output_run
         for quantum_datasets in itertools.chain(self.init_quanta.root, self.quantum_datasets.values()):
             for input_dataset in itertools.chain.from_iterable(quantum_datasets.inputs.values()):
-                if input_dataset.run == self.header.output_run:
+                # An input isn't necessarily an output of the graph just because
+                # it's in the output run; the graph could have been built with
+                # extend_run=True, and then it remains in the old run.
+                if (new_id := uuid_map.get(input_dataset.dataset_id)) is not None:
+                    input_dataset.dataset_id = new_id
                     input_dataset.run = output_run
-                    input_dataset.dataset_id = uuid_map.get(
-                        input_dataset.dataset_id,
-                        # This dataset isn't necessary an output of the graph
-                        # just because it's in the output run; the graph could
-                        # have been built with extend_run=True.
-                        input_dataset.dataset_id,
-                    )
         # Update the keys of the quantum_datasets dict.
         self.quantum_datasets = {qd.quantum_id: qd for qd in self.quantum_datasets.values()}
         # Since the UUIDs have changed, the thin graph needs to be rewritten.
-- 
2.43.0


From 20f9c27114e9e65b8940371336f9d57f837cb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:55 +0000
Subject: [PATCH 19/21] fix: refuse to save a predicted quantum graph after a
 partial read of its quanta

The existing check only noticed that when the thin graph had not been read
either, and the quanta that had not been read were silently lost.
---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index dd590fa..d750c80 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1875,6 +1875,10 @@ class PredictedQuantumGraphComponents:
             raise RuntimeError(
                 "Cannot save graph after partial read of quanta: thin graph is inconsistent with header."
             )
+        if self.header.n_quanta != len(self.quantum_datasets):
+            raise RuntimeError(
+                "Cannot save graph after partial read of quanta: quantum datasets are inconsistent with header."
+            )
         # Ensure we record the actual version we're about to write, in case
         # we're rewriting an old graph in a new format.
         self.header.version = FORMAT_VERSION
-- 
2.43.0


From deb3fdf8e5fb5f28d8295dfc1c91cbfd3f3bbaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:39 +0000
Subject: [PATCH 20/21] fix: read addresses of a quantum graph through a file
 object of their own

Pages of the address table were read lazily through the zip archive that other
members are read from at the same time, and forward seeks (zipfile, Python
3.12) then started from wherever those had left the shared file object, so
reading quanta by ID could fail with EOFError once there were several pages.
---
 .../lsst/pipe/base/quantum_graph/_common.py   | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_common.py b/python/lsst/pipe/base/quantum_graph/_common.py
index aac5572..a2a5ccc 100644
--- a/python/lsst/pipe/base/quantum_graph/_common.py
+++ b/python/lsst/pipe/base/quantum_graph/_common.py
@@ -576,13 +576,21 @@ class BaseQuantumGraphReader:
                     "pipeline_graph", SerializedPipelineGraph, zf, decompressor
                 )
                 pipeline_graph = serialized_pipeline_graph.deserialize(import_mode)
-                with AddressReader.open_in_zip(
-                    zf,
-                    address_filename,
-                    page_size=page_size,
-                    int_size=header.int_size,
-                    n_addresses=n_addresses,
-                ) as address_reader:
+                # The address reader stays open and seeks while other members
+                # of the archive are read, and forward seeks in an uncompressed
+                # member can be relative to wherever the shared file object was
+                # left by the others, so it needs a file object of its own.
+                with (
+                    uri.open(mode="rb") as address_stream,
+                    zipfile.ZipFile(address_stream, "r") as address_zf,
+                    AddressReader.open_in_zip(
+                        address_zf,
+                        address_filename,
+                        page_size=page_size,
+                        int_size=header.int_size,
+                        n_addresses=n_addresses,
+                    ) as address_reader,
+                ):
                     yield cls(
                         header=header,
                         pipeline_graph=pipeline_graph,
-- 
2.43.0


From 7af9b2f7474d5de7600e56253ba4fed2b16730ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:59 +0000
Subject: [PATCH 21/21] fix: don't cache datasets read with another storage
 class in CachingLimitedButler

The cached object could not always be converted back, so a later read of the
same dataset with its own storage class failed.
---
 python/lsst/pipe/base/caching_limited_butler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index 2c443b9..7ca160b 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -125,14 +125,19 @@ class CachingLimitedButler(LimitedButler):
                 return handle.get(parameters=parameters, storageClass=storageClass)
 
         obj = self._wrapped.get(ref, parameters=parameters, storageClass=storageClass)
-        if ref.datasetType.name in self._cache_on_get and not parameters:
+        # Don't cache sub-images etc., or objects read with another storage class
+        # that might not be convertible back.
+        if (
+            ref.datasetType.name in self._cache_on_get
+            and not parameters
+            and storageClass == ref.datasetType.storageClass
+        ):
             handle = InMemoryDatasetHandle(
                 obj,
                 storageClass=storageClass,
                 dataId=ref.dataId,
                 copy=ref.datasetType.name not in self._no_copy_on_cache,
             )
-            # and not parameters is to make sure we don't cache sub-images etc
             self._cache[ref.datasetType.name] = (ref.id, handle)
             _LOG.debug("Cached dataset %s", ref)
             # make sure copy fires if needed
-- 
2.43.0

