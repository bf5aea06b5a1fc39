From 779f8eac5aabb2117012db1b7d7e8b55b2593c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:54 +0000
Subject: [PATCH 01/29] fix: cover every artifact a preprocessing step reads in
 its cache identity

---
 src/modssc/preprocess/catalog.py           | 18 +++++++++---------
 src/modssc/preprocess/services/pipeline.py | 17 +++++++++++++----
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/modssc/preprocess/catalog.py b/src/modssc/preprocess/catalog.py
index 48ee9d1..e5d90d5 100644
--- a/src/modssc/preprocess/catalog.py
+++ b/src/modssc/preprocess/catalog.py
@@ -11,7 +11,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Ensure numeric arrays are 2D (n_samples, n_features) and store as features.X.",
         required_extra=None,
         modalities=(),
-        consumes=("raw.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -71,7 +71,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Fit PCA on a fit scope and transform features.X.",
         required_extra=None,
         modalities=(),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -113,7 +113,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Standardize features by removing the mean and scaling to unit variance.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -123,7 +123,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Impute missing values using mean/median/etc.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Text
@@ -287,7 +287,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Create uniform edge weights if missing.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index",),
+        consumes=("graph.edge_index", "graph.edge_weight"),
         produces=("graph.edge_weight",),
     ),
     StepSpec(
@@ -307,7 +307,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Learn node2vec embeddings from graph edges and write features.X.",
         required_extra="transductive-torch",
         modalities=("graph",),
-        consumes=("graph.edge_index",),
+        consumes=("graph.edge_index", "raw.X", "raw.y"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -317,7 +317,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Pack X and edge_index into a dict for Inductive GNNs.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -327,7 +327,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Learn DGI embeddings from graph edges and write features.X.",
         required_extra="transductive-torch",
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X", "raw.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Labels
@@ -368,7 +368,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Convert raw.y to a torch tensor and store as labels.y.",
         required_extra="inductive-torch",
         modalities=(),
-        consumes=("raw.y",),
+        consumes=("labels.y", "raw.y"),
         produces=("labels.y",),
     ),
 )
diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 5567758..ba9bfc6 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -323,6 +323,15 @@ def _final_keep_keys(
     return keep
 
 
+def _step_inputs(step: ResolvedStep) -> tuple[str, ...]:
+    """Artifacts a step may read: declared, implicit, or named by its ``input_key`` parameter."""
+    keys = [*step.spec.consumes, *_IMPLICIT_CONSUMES.get(step.step_id, ())]
+    input_key = step.params.get("input_key")
+    if isinstance(input_key, str):
+        keys.append(input_key)
+    return tuple(dict.fromkeys(keys))
+
+
 def _build_purge_keep_sets(
     steps: tuple[ResolvedStep, ...], *, output_key: str, initial_keys: set[str]
 ) -> list[set[str]]:
@@ -331,8 +340,7 @@ def _build_purge_keep_sets(
     for i in range(len(steps) - 1, -1, -1):
         keep_sets[i] = set(required)
         step = steps[i]
-        required.update(step.spec.consumes)
-        required.update(_IMPLICIT_CONSUMES.get(step.step_id, ()))
+        required.update(_step_inputs(step))
     return keep_sets
 
 
@@ -513,9 +521,10 @@ def preprocess(
         )
 
         # Compute step fingerprint with input provenance.
-        inputs_train = {k: prov_train.get(k) for k in spec.consumes if k in prov_train}
+        consumed = _step_inputs(step)
+        inputs_train = {k: prov_train.get(k) for k in consumed if k in prov_train}
         inputs_test = (
-            {k: prov_test.get(k) for k in spec.consumes if k in prov_test} if test_store else {}
+            {k: prov_test.get(k) for k in consumed if k in prov_test} if test_store else {}
         )
         step_fp = fingerprint(
             {
-- 
2.43.0


From 817e1de14bc6153e3f30c286760d33886f2739d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 02/29] fix: do not require purged raw artifacts when
 preprocessing outputs exist

---
 src/modssc/preprocess/services/pipeline.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index ba9bfc6..18ee89c 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -351,6 +351,11 @@ def _purge_store(store: ArtifactStore, *, keep: set[str]) -> None:
     store.data = {k: v for k, v in store.data.items() if k in keep}
 
 
+def _first_of(store: ArtifactStore, key: str, fallback: str) -> Any:
+    """Return ``key`` if present, else the required ``fallback`` (which may have been purged)."""
+    return store.get(key) if store.has(key) else store.require(fallback)
+
+
 def resolve_plan(
     dataset: LoadedDataset,
     plan: PreprocessPlan,
@@ -682,8 +687,8 @@ def preprocess(
 
     # Choose final X for downstream training.
     out_key = plan.output_key
-    X_train = train_store.get(out_key, train_store.require("raw.X"))
-    y_train = train_store.get("labels.y", train_store.require("raw.y"))
+    X_train = _first_of(train_store, out_key, "raw.X")
+    y_train = _first_of(train_store, "labels.y", "raw.y")
 
     edges_train = train_store.get("graph.edge_index", dataset.train.edges)
     if train_store.has("graph.edge_weight"):
@@ -696,8 +701,8 @@ def preprocess(
 
     test_out = None
     if dataset.test is not None and test_store is not None:
-        X_test = test_store.get(out_key, test_store.require("raw.X"))
-        y_test = test_store.get("labels.y", test_store.require("raw.y"))
+        X_test = _first_of(test_store, out_key, "raw.X")
+        y_test = _first_of(test_store, "labels.y", "raw.y")
         edges_test = test_store.get("graph.edge_index", dataset.test.edges)
         if test_store.has("graph.edge_weight"):
             edges_test = {
-- 
2.43.0


From 20cfc70d08b09cb5cb2020d7c504defdf94920e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 03/29] fix: identify datasets without a fingerprint by content
 in the preprocessing cache

---
 src/modssc/preprocess/services/pipeline.py | 47 +++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 18ee89c..3cf5343 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -14,6 +14,7 @@ from modssc.data_loader.types import LoadedDataset, Split
 from modssc.preprocess.cache import CacheManager
 from modssc.preprocess.errors import PreprocessCacheError, PreprocessValidationError
 from modssc.preprocess.fingerprint import derive_seed, fingerprint
+from modssc.preprocess.numpy_adapter import to_numpy
 from modssc.preprocess.plan import PreprocessPlan
 from modssc.preprocess.registry import StepRegistry, default_step_registry
 from modssc.preprocess.store import ArtifactStore
@@ -270,12 +271,55 @@ def _cache_outputs_complete(outputs: dict[str, Any], produces: tuple[str, ...])
     return expected.issubset(outputs.keys())
 
 
+def _hash_content(h: Any, value: Any) -> None:
+    """Feed a dataset value into hash ``h``: kind, shape and content."""
+    if isinstance(value, Mapping):
+        h.update(f"map:{len(value)};".encode())
+        for key in sorted(value, key=str):
+            _hash_content(h, key)
+            _hash_content(h, value[key])
+        return
+    if isinstance(value, (list, tuple)):
+        h.update(f"seq:{len(value)};".encode())
+        for item in value:
+            _hash_content(h, item)
+        return
+    if hasattr(value, "tocoo"):
+        coo = value.tocoo()
+        _hash_content(h, ["sparse", coo.shape, coo.row, coo.col, coo.data])
+        return
+    if hasattr(value, "to_numpy"):
+        value = value.to_numpy()
+    if hasattr(value, "shape") and hasattr(value, "dtype"):
+        try:
+            arr = to_numpy(value)
+        except (TypeError, ValueError):  # e.g. dtypes numpy does not have
+            _hash_content(h, [str(value.dtype), value.tolist()])
+            return
+        h.update(f"array:{arr.dtype.str}:{arr.shape};".encode())
+        if arr.dtype != object:
+            h.update(np.ascontiguousarray(arr).tobytes())
+            return
+        if arr.ndim > 0:
+            for item in arr.reshape(-1):
+                _hash_content(h, item)
+            return
+        value = arr.item()
+    text = f"{type(value).__name__}:{value!r}"
+    h.update(f"{len(text)}:{text};".encode("utf-8", "backslashreplace"))
+
+
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
         return fp
 
-    # Fallback: structural fingerprint only (no full data hashing).
+    # Fallback: structure and content, so that two in-memory datasets never share cache entries.
+    content = hashlib.sha256()
+    for split in (dataset.train, dataset.test):
+        if split is not None:
+            for value in (split.X, split.y, split.edges, split.masks):
+                _hash_content(content, value)
     train_x = getattr(dataset.train, "X", None)
     train_y = getattr(dataset.train, "y", None)
     payload = {
@@ -287,6 +331,7 @@ def _dataset_fingerprint(dataset: LoadedDataset) -> str:
             "has_masks": dataset.train.masks is not None,
         },
         "has_test": dataset.test is not None,
+        "content": content.hexdigest(),
     }
     return fingerprint(payload, prefix="dataset:")
 
-- 
2.43.0


From 6c44a59570d4c3cc910b9d82f8f0632e2a7b2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 04/29] fix: recompute uncached test outputs from the random
 state of an uncached run

---
 src/modssc/preprocess/services/pipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 3cf5343..78c7b98 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -644,6 +644,7 @@ def preprocess(
                     },
                 )
 
+        train_inputs = train_store.copy() if train_from_cache else None
         for k, v in produced_train.items():
             train_store.set(k, v)
             prov_train[k] = step_fp
@@ -669,6 +670,9 @@ def preprocess(
                     logger.warning("Preprocess cache miss for %s (test): %s", step_id, e)
                     produced_test = None
             if produced_test is None:
+                if train_inputs is not None:
+                    # Both splits draw from one generator: replay the draws of the train split.
+                    step_obj.transform(train_inputs, rng=rng)
                 produced_test = step_obj.transform(test_store, rng=rng)
                 if not isinstance(produced_test, dict):
                     raise PreprocessValidationError(
-- 
2.43.0


From 83d1163b31560637a966fcc6f83ea3f4daf1d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:51 +0000
Subject: [PATCH 05/29] fix: keep shape and nesting of object arrays in the
 dataset store

---
 src/modssc/data_loader/storage/files.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_loader/storage/files.py b/src/modssc/data_loader/storage/files.py
index 0fe7ab2..5a7f04d 100644
--- a/src/modssc/data_loader/storage/files.py
+++ b/src/modssc/data_loader/storage/files.py
@@ -33,9 +33,13 @@ def _is_str_object_array(arr: np.ndarray) -> bool:
         items = arr.tolist()
     except Exception:
         return False
-    # conservative: require every element to be str
+    # conservative: require every element to be str, and the shape to survive the list form
+    # (scalars, nested sequences and empty multi-dimensional arrays do not)
     try:
-        return all(isinstance(x, str) for x in np.asarray(items, dtype=object).flat)
+        rebuilt = np.asarray(items, dtype=object)
+        if rebuilt.ndim == 0 or rebuilt.shape != arr.shape:
+            return False
+        return all(isinstance(x, str) for x in rebuilt.flat)
     except Exception:
         return False
 
-- 
2.43.0


From 440460ecd843995f6e17788512ecb720bc5159f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 06/29] fix: store preprocessing artifacts that JSON cannot
 rebuild without changing them

---
 src/modssc/preprocess/cache.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 7f95172..6a50e64 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -101,6 +101,29 @@ def _save_json(path: Path, payload: Any, *, extra: dict[str, Any] | None = None)
     return desc
 
 
+def _json_rebuilds_array(payload: Any, value: np.ndarray) -> bool:
+    """True if the JSON form of an object array loads back with the same shape and elements."""
+    import json
+
+    try:
+        rebuilt = np.asarray(json.loads(json.dumps(payload)), dtype=object)
+        return rebuilt.shape == value.shape and all(
+            type(a) is type(b) and (a == b or (a != a and b != b))
+            for a, b in zip(rebuilt.flat, value.flat, strict=True)
+        )
+    except (TypeError, ValueError):
+        return False
+
+
+def _json_keeps(payload: Any) -> bool:
+    """True if every mapping key and nested container keeps its type in JSON."""
+    if isinstance(payload, dict):
+        return all(isinstance(k, str) for k in payload) and all(map(_json_keeps, payload.values()))
+    if isinstance(payload, list):
+        return all(map(_json_keeps, payload))
+    return not isinstance(payload, tuple)
+
+
 def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
     """Save a value to disk and return a small descriptor for the manifest."""
     if isinstance(value, np.ndarray):
@@ -116,6 +139,13 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
                 payload = value.tolist()
             except TypeError:
                 return None
+            if not _json_rebuilds_array(payload, value):
+                np.save(path.with_suffix(".npy"), value, allow_pickle=True)
+                return {
+                    "type": "npy",
+                    "path": path.with_suffix(".npy").name,
+                    "allow_pickle": True,
+                }
             return _save_json(path, payload, extra={"format": "ndarray", "dtype": "object"})
         np.save(path.with_suffix(".npy"), value, allow_pickle=False)
         return {"type": "npy", "path": path.with_suffix(".npy").name}
@@ -153,6 +183,8 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
             payload = value
             if isinstance(value, tuple):
                 payload = list(value)
+            if not _json_keeps(payload):
+                return None
             return _save_json(path, payload)
         except TypeError:
             return None
-- 
2.43.0


From abf5834fe1038dbefe2240bae4809aebbb27c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 07/29] fix: keep preprocessing artifacts whose names map to
 the same file apart

---
 src/modssc/preprocess/cache.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 6a50e64..6588a97 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -67,6 +67,17 @@ def _safe_name(key: str) -> str:
     return _safe_path_component(name)
 
 
+def _unique_name(key: str, taken: set[str]) -> str:
+    """File name for an artifact; keys with the same safe name get distinct (case-folded) names."""
+    base = name = _safe_name(key)
+    n = 1
+    while name.casefold() in taken:
+        n += 1
+        name = f"{base}-{n}"
+    taken.add(name.casefold())
+    return name
+
+
 def _require_torch():
     import importlib
 
@@ -312,8 +323,9 @@ class CacheManager:
         d.mkdir(parents=True, exist_ok=True)
 
         saved: dict[str, dict[str, Any]] = {}
+        names: set[str] = set()
         for key, value in produced.items():
-            name = _safe_name(key)
+            name = _unique_name(key, names)
             desc = _save_value(d / name, value)
             if desc is not None:
                 saved[key] = desc
-- 
2.43.0


From 5b9ca080f714b6cfdd1d3467c9a71fc08188592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 08/29] fix: leave the holder's cache lock alone when
 acquisition fails

---
 src/modssc/data_loader/cache.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 5f0321e..177ad1a 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -93,14 +93,13 @@ def cache_lock(layout: CacheLayout, fingerprint: str) -> Iterator[None]:
     lock_path = layout.lock_path(fingerprint)
     lock_path.parent.mkdir(parents=True, exist_ok=True)
 
-    fd: int | None = None
+    # A failed acquisition must leave the holder's lock file alone.
+    fd = os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
     try:
-        fd = os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
         os.write(fd, str(os.getpid()).encode("utf-8"))
         yield
     finally:
-        if fd is not None:
-            os.close(fd)
+        os.close(fd)
         # best effort cleanup
         with contextlib.suppress(Exception):
             lock_path.unlink(missing_ok=True)
-- 
2.43.0


From 6af205b2d329cf2c82a44ee4caf54d3e739914a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:18 +0000
Subject: [PATCH 09/29] fix: an interrupted dataset store or purge is never
 taken for a cache entry

---
 src/modssc/data_loader/cache.py            | 2 +-
 src/modssc/data_loader/manifest.py         | 4 ++--
 src/modssc/data_loader/services/service.py | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 177ad1a..2d2eb48 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -264,9 +264,9 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
-    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
+    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
     index_delete(layout, [fingerprint])
 
 
diff --git a/src/modssc/data_loader/manifest.py b/src/modssc/data_loader/manifest.py
index fdc2ff2..9dafa1b 100644
--- a/src/modssc/data_loader/manifest.py
+++ b/src/modssc/data_loader/manifest.py
@@ -11,6 +11,7 @@ from typing import Any
 
 from modssc.data_loader.storage.json import to_jsonable as _jsonable
 from modssc.data_loader.types import DatasetIdentity, LoadedDataset
+from modssc.utils.io import atomic_write_text
 
 
 def utc_now_iso() -> str:
@@ -112,8 +113,7 @@ def build_manifest(
 
 
 def write_manifest(path: Path, manifest: Manifest) -> None:
-    path.parent.mkdir(parents=True, exist_ok=True)
-    path.write_text(manifest.to_json() + "\n", encoding="utf-8")
+    atomic_write_text(path, manifest.to_json() + "\n")
 
 
 def read_manifest(path: Path) -> Manifest:
diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 124c009..a37a3ab 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -464,7 +464,8 @@ def _download_and_store(
             ds = replace(ds, meta={})
         ds.meta["dataset_fingerprint"] = fp
 
-        # store processed
+        # store processed; without a manifest an interrupted store is no cache entry
+        layout.manifest_path(fp).unlink(missing_ok=True)
         processed_dir = layout.processed_dir(fp)
         if processed_dir.exists():
             # clean partial state
-- 
2.43.0


From cee33c01125226f4f763afca17bc0681d631256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:24 +0000
Subject: [PATCH 10/29] fix: an interrupted graph or view cache save never
 mixes old and new contents

---
 src/modssc/graph/cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index b8d4694..1397956 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -143,6 +143,8 @@ class GraphCache(_FingerprintCacheOps):
         d = self.entry_dir(fingerprint)
         d.mkdir(parents=True, exist_ok=True)
 
+        # The manifest goes first: an interrupted save leaves no entry.
+        (d / "manifest.json").unlink(missing_ok=True)
         if overwrite:
             self._clear_entry_dir(d)
 
@@ -168,6 +170,8 @@ class GraphCache(_FingerprintCacheOps):
             np.save(d / "edge_index.npy", np.asarray(graph.edge_index, dtype=np.int64))
             if graph.edge_weight is not None:
                 np.save(d / "edge_weight.npy", np.asarray(graph.edge_weight, dtype=np.float32))
+            else:
+                (d / "edge_weight.npy").unlink(missing_ok=True)
             storage = {"edge": {"kind": "single"}}
 
         payload = {**manifest, **graph.to_dict(), "_storage": storage}
@@ -300,6 +304,8 @@ class ViewsCache(_FingerprintCacheOps):
     ) -> Path:
         d = self.entry_dir(fingerprint)
         d.mkdir(parents=True, exist_ok=True)
+        # The manifest goes first: an interrupted save leaves no entry.
+        (d / "manifest.json").unlink(missing_ok=True)
         if overwrite and d.exists():
             for p in d.iterdir():
                 if p.is_file():
-- 
2.43.0


From 77d9b9f7555f7dfdc5eee7fe11c297593ab25177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:41 +0000
Subject: [PATCH 11/29] fix: unlist a preprocessing cache split before its
 files are rewritten

---
 src/modssc/preprocess/cache.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 6588a97..2d22d84 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -322,6 +322,7 @@ class CacheManager:
         d = self.split_dir(step_fingerprint, split)
         d.mkdir(parents=True, exist_ok=True)
 
+        self._forget_split(step_fingerprint, split)
         saved: dict[str, dict[str, Any]] = {}
         names: set[str] = set()
         for key, value in produced.items():
@@ -354,6 +355,17 @@ class CacheManager:
         payload["saved"][split] = saved
         atomic_write_text(manifest_path, stable_json_dumps(payload))
 
+    def _forget_split(self, step_fingerprint: str, split: str) -> None:
+        """Unlist a split before its files are rewritten: an interrupted save leaves no entry."""
+        manifest_path = self.step_dir(step_fingerprint) / "manifest.json"
+        if not manifest_path.exists():
+            return
+        with contextlib.suppress(PreprocessCacheError):
+            payload = json_load(manifest_path.read_text(encoding="utf-8"))
+            saved = payload.get("saved")
+            if isinstance(saved, dict) and saved.pop(split, None) is not None:
+                atomic_write_text(manifest_path, stable_json_dumps(payload))
+
     def load_step_outputs(self, *, step_fingerprint: str, split: str) -> dict[str, Any]:
         step_root = self.step_dir(step_fingerprint)
         manifest_path = step_root / "manifest.json"
-- 
2.43.0


From 0740f979858dd35c8a2f4b9bac54e6ba06ba1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:44 +0000
Subject: [PATCH 12/29] fix: keep k neighbors per node when duplicates hide a
 row's own index

---
 src/modssc/graph/construction/backends/sklearn_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/graph/construction/backends/sklearn_backend.py b/src/modssc/graph/construction/backends/sklearn_backend.py
index c3b25bc..a2a6992 100644
--- a/src/modssc/graph/construction/backends/sklearn_backend.py
+++ b/src/modssc/graph/construction/backends/sklearn_backend.py
@@ -38,7 +38,11 @@ def knn_edges_sklearn(
     dst = idx.reshape(-1)
     dist_flat = dist.reshape(-1)
     if not include_self:
-        mask = dst != src
+        keep = idx != np.arange(n_rows, dtype=np.int64)[:, None]
+        if n_cols > int(k):
+            # duplicates can push a row's own index out: drop the farthest neighbor instead
+            keep[keep.all(axis=1), -1] = False
+        mask = keep.reshape(-1)
         src = src[mask]
         dst = dst[mask]
         dist_flat = dist_flat[mask]
-- 
2.43.0


From 69397784a4b93bb577fc427097a1cf916ebcc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:23 +0000
Subject: [PATCH 13/29] fix: cover features, weights and every edge in the
 graph view cache identity

---
 src/modssc/graph/featurization/api.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 893f695..7b9e9c6 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from ..artifacts import DatasetViews, NodeDataset
 from ..cache import ViewsCache
-from ..fingerprint import fingerprint_dict
+from ..fingerprint import fingerprint_array, fingerprint_dict
 from ..specs import GraphFeaturizerSpec
 from ..validation import validate_featurizer_spec, validate_view_matrix
 from .views.attr import attr_view
@@ -18,9 +18,12 @@ from .views.struct import StructParams, struct_embeddings
 logger = logging.getLogger(__name__)
 
 
-def _views_fingerprint(*, graph_fingerprint: str, spec: GraphFeaturizerSpec, seed: int) -> str:
+def _views_fingerprint(
+    *, graph_fingerprint: str, features_fingerprint: str, spec: GraphFeaturizerSpec, seed: int
+) -> str:
     payload = {
         "graph_fingerprint": graph_fingerprint,
+        "features_fingerprint": features_fingerprint,
         "spec": spec.to_dict(),
         "seed": int(seed),
     }
@@ -42,16 +45,21 @@ def graph_to_views(
     graph_fp = str(dataset.graph.meta.get("fingerprint", "")) if dataset.graph.meta else ""
     if not graph_fp:
         # fallback: fingerprint of graph structure not available
+        weight = dataset.graph.edge_weight
         graph_fp = fingerprint_dict(
             {
                 "n_nodes": int(dataset.graph.n_nodes),
-                "edge_index": dataset.graph.edge_index[
-                    :2, : min(1000, dataset.graph.edge_index.shape[1])
-                ].tolist(),
+                "edge_index": fingerprint_array(dataset.graph.edge_index),
+                "edge_weight": None if weight is None else fingerprint_array(weight),
             }
         )
 
-    views_fp = _views_fingerprint(graph_fingerprint=graph_fp, spec=spec, seed=int(seed))
+    views_fp = _views_fingerprint(
+        graph_fingerprint=graph_fp,
+        features_fingerprint=fingerprint_array(dataset.X),
+        spec=spec,
+        seed=int(seed),
+    )
 
     cache_enabled = bool(spec.cache) if cache is None else bool(cache)
     cache_store = ViewsCache(
-- 
2.43.0


From f09ac1d10b9b50afba493a34e70f763ba27fbca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 14/29] fix: hash whole arrays when they identify graph cache
 entries

---
 src/modssc/graph/fingerprint.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/modssc/graph/fingerprint.py b/src/modssc/graph/fingerprint.py
index f834b89..02423f1 100644
--- a/src/modssc/graph/fingerprint.py
+++ b/src/modssc/graph/fingerprint.py
@@ -53,16 +53,11 @@ def fingerprint_spec(spec: Any) -> str:
     raise TypeError("spec must be a dataclass or dict")
 
 
-def fingerprint_array(arr: Any, *, max_bytes: int = 2_000_000) -> str:
+def fingerprint_array(arr: Any) -> str:
     """Fingerprint a dense or sparse array deterministically.
 
     This is intended as a fallback when no dataset-level fingerprint is available.
-    For large arrays, it hashes only a prefix and a suffix of the raw bytes.
-
-    Notes
-    -----
-    This is not a cryptographic commitment of the entire array when it is huge.
-    For reproducible runs, you should pass dataset_fingerprint from data_loader whenever possible.
+    The whole content is hashed: it identifies cache entries.
     """
     # scipy sparse support without importing scipy at module import
     if hasattr(arr, "tocoo") and hasattr(arr, "data") and hasattr(arr, "indices"):
@@ -71,9 +66,9 @@ def fingerprint_array(arr: Any, *, max_bytes: int = 2_000_000) -> str:
         pieces = [
             str(getattr(coo, "shape", None)).encode("utf-8"),
             str(getattr(coo, "dtype", None)).encode("utf-8"),
-            np.asarray(coo.row, dtype=np.int64).tobytes()[:max_bytes],
-            np.asarray(coo.col, dtype=np.int64).tobytes()[:max_bytes],
-            np.asarray(coo.data).tobytes()[:max_bytes],
+            np.asarray(coo.row, dtype=np.int64).tobytes(),
+            np.asarray(coo.col, dtype=np.int64).tobytes(),
+            np.asarray(coo.data).tobytes(),
         ]
         h = hashlib.sha256()
         for p in pieces:
@@ -83,16 +78,8 @@ def fingerprint_array(arr: Any, *, max_bytes: int = 2_000_000) -> str:
     a = np.asarray(arr)
     meta = f"shape={a.shape};dtype={a.dtype};".encode()
     raw = np.ascontiguousarray(a).view(np.uint8)
-    n = int(raw.size)
 
     h = hashlib.sha256()
     h.update(meta)
-
-    if n <= max_bytes:
-        h.update(raw.tobytes())
-        return h.hexdigest()
-
-    # prefix + suffix to reduce cost while keeping determinism
-    h.update(raw[:max_bytes].tobytes())
-    h.update(raw[-max_bytes:].tobytes())
+    h.update(raw.data)
     return h.hexdigest()
-- 
2.43.0


From 18d3eeff7506ff355c5eef150d95541daa8e52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:45 +0000
Subject: [PATCH 15/29] fix: initialise every graph neural network from the
 seed passed to fit

---
 src/modssc/transductive/methods/gnn/appnp.py     |  2 ++
 src/modssc/transductive/methods/gnn/chebnet.py   |  2 ++
 src/modssc/transductive/methods/gnn/gat.py       |  9 ++++++++-
 src/modssc/transductive/methods/gnn/gcn.py       | 10 +++++++++-
 src/modssc/transductive/methods/gnn/gcnii.py     | 10 +++++++++-
 src/modssc/transductive/methods/gnn/grand.py     |  5 ++---
 src/modssc/transductive/methods/gnn/graphsage.py |  2 ++
 src/modssc/transductive/methods/gnn/h_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/n_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/planetoid.py |  3 ++-
 src/modssc/transductive/methods/gnn/sgc.py       | 10 +++++++++-
 11 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index cc30179..44865e5 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -16,6 +16,7 @@ from .common import (
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -91,6 +92,7 @@ class APPNPMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 70cf0c9..a32da9a 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -111,6 +112,7 @@ class ChebNetMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 65c4300..51dd002 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -10,7 +10,13 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -205,6 +211,7 @@ class GATMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 379cb1e..82549fe 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -82,6 +89,7 @@ class GCNMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 43484c0..341a88d 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -11,7 +11,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -104,6 +111,7 @@ class GCNIIMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 8f92109..401cb46 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -11,7 +11,7 @@ from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
 from .common import TwoLayerMLP as _MLP
-from .common import normalize_device_name, prepare_data_cached, spmm, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, spmm, torch
 
 logger = logging.getLogger(__name__)
 
@@ -69,6 +69,7 @@ class GRANDMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
@@ -101,8 +102,6 @@ class GRANDMethod(TransductiveMethod):
         best_val = float("inf")
         bad_epochs = 0
 
-        torch.manual_seed(int(seed))
-
         for _epoch in range(self.spec.max_epochs):
             model.train()
 
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 2e1dd5c..41e96b4 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -84,6 +85,7 @@ class GraphSAGEMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 3abce80..ea872c9 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -293,6 +294,7 @@ class HGCNMethod(TransductiveMethod):
             raise ValueError("weight_embed_dim must be >= 1")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 32bd7e8..fac6e46 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -213,6 +214,7 @@ class NGCNMethod(TransductiveMethod):
             raise ValueError("classifier must be 'fc' or 'attention'")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index 790b5b6..1e02bbf 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -17,7 +17,7 @@ from modssc.graph.featurization.node2vec import (
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, torch
 
 logger = logging.getLogger(__name__)
 
@@ -82,6 +82,7 @@ class PlanetoidMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
 
         # Walk generation on CPU
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9811f3..09136ce 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -62,6 +69,7 @@ class SGCMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
-- 
2.43.0


From 45c6a890bdd68dede6e30f90f5f2f3f1636ceb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 16/29] fix: let torch Poisson learning run on graphs without
 edge weights

---
 src/modssc/transductive/methods/pde/poisson_learning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/transductive/methods/pde/poisson_learning.py b/src/modssc/transductive/methods/pde/poisson_learning.py
index f429911..d24cc54 100644
--- a/src/modssc/transductive/methods/pde/poisson_learning.py
+++ b/src/modssc/transductive/methods/pde/poisson_learning.py
@@ -174,7 +174,12 @@ def poisson_learning_torch(
     if edge_index_t.ndim != 2 or edge_index_t.shape[0] != 2:
         raise ValueError(f"edge_index must have shape (2, E), got {tuple(edge_index_t.shape)}")
 
-    edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
+    if edge_weight is None:
+        edge_weight_t = torch.ones(
+            (int(edge_index_t.shape[1]),), dtype=torch.float32, device=device
+        )
+    else:
+        edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
     labeled_mask_t = torch.as_tensor(labeled_mask, dtype=torch.bool, device=device)
 
     n_nodes_i = int(n_nodes)
-- 
2.43.0


From f59c8728803c0e6c34089e037ee9ed7c84816c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:51 +0000
Subject: [PATCH 17/29] fix: solve Laplace learning with the true Laplacian and
 refuse unreachable nodes

---
 .../methods/classic/laplace_learning.py       | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/laplace_learning.py b/src/modssc/transductive/methods/classic/laplace_learning.py
index 5fd93e8..3f08ed7 100644
--- a/src/modssc/transductive/methods/classic/laplace_learning.py
+++ b/src/modssc/transductive/methods/classic/laplace_learning.py
@@ -31,6 +31,22 @@ class LaplaceLearningSpec:
     """
 
 
+def _check_labels_reach_all_nodes(
+    *, edge_index: np.ndarray, edge_weight: np.ndarray, labeled_mask: np.ndarray
+) -> None:
+    """Refuse graphs where some node has no path from a label (L_uu is singular then)."""
+    src, dst = edge_index[:, edge_weight != 0]
+    reached = labeled_mask.copy()
+    while not reached.all():
+        new = dst[reached[src] & ~reached[dst]]
+        if new.size == 0:
+            raise ValueError(
+                "LaplaceLearning requires L_uu to be nonsingular; "
+                "check graph connectivity and labeled coverage."
+            )
+        reached[new] = True
+
+
 def laplace_learning_numpy(
     *,
     n_nodes: int,
@@ -62,14 +78,15 @@ def laplace_learning_numpy(
     np.add.at(W, (dst, src), w)
 
     deg = W.sum(axis=1)
-    L = -W
-    np.fill_diagonal(L, deg)
+    L = np.diag(deg) - W
 
     labeled_idx = np.flatnonzero(labeled_mask)
     unlabeled_idx = np.flatnonzero(~labeled_mask)
     if unlabeled_idx.size == 0:
         return DiffusionResult(F=Y, n_iter=1, residual=0.0)
 
+    _check_labels_reach_all_nodes(edge_index=edge_index, edge_weight=w, labeled_mask=labeled_mask)
+
     L_uu = L[np.ix_(unlabeled_idx, unlabeled_idx)]
     W_ul = W[np.ix_(unlabeled_idx, labeled_idx)]
     B = W_ul @ Y[labeled_idx]
@@ -133,6 +150,12 @@ def laplace_learning_torch(
     if int(unlabeled_idx.numel()) == 0:
         return DiffusionResult(F=to_numpy(Y), n_iter=1, residual=0.0)
 
+    _check_labels_reach_all_nodes(
+        edge_index=to_numpy(edge_index),
+        edge_weight=to_numpy(w),
+        labeled_mask=to_numpy(labeled_mask).astype(bool),
+    )
+
     L_uu = L.index_select(0, unlabeled_idx).index_select(1, unlabeled_idx)
     W_ul = W.index_select(0, unlabeled_idx).index_select(1, labeled_idx)
     B = W_ul @ Y.index_select(0, labeled_idx)
-- 
2.43.0


From c59f52167c53f74a6e441e4ab3b91a51e55e953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 18/29] fix: refuse label vectors of different shapes in
 evaluation metrics

---
 src/modssc/evaluation/metrics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modssc/evaluation/metrics.py b/src/modssc/evaluation/metrics.py
index c085ad4..e520870 100644
--- a/src/modssc/evaluation/metrics.py
+++ b/src/modssc/evaluation/metrics.py
@@ -40,13 +40,22 @@ def _pred_indices_for_classes(y_pred: np.ndarray, classes: np.ndarray) -> np.nda
         return out.reshape(y_pred.shape)
 
 
+def _require_same_shape(y_true: np.ndarray, y_pred: np.ndarray) -> None:
+    if y_true.shape != y_pred.shape:
+        raise ValueError(
+            f"y_true and y_pred must have the same shape, got {y_true.shape} and {y_pred.shape}"
+        )
+
+
 def accuracy(y_true: np.ndarray, y_pred: np.ndarray) -> float:
+    _require_same_shape(y_true, y_pred)
     if y_true.size == 0:
         return float("nan")
     return float((y_true == y_pred).mean())
 
 
 def balanced_accuracy(y_true: np.ndarray, y_pred: np.ndarray) -> float:
+    _require_same_shape(y_true, y_pred)
     if y_true.size == 0:
         return float("nan")
     try:
@@ -74,6 +83,7 @@ def balanced_accuracy(y_true: np.ndarray, y_pred: np.ndarray) -> float:
 
 
 def macro_f1(y_true: np.ndarray, y_pred: np.ndarray) -> float:
+    _require_same_shape(y_true, y_pred)
     if y_true.size == 0:
         return float("nan")
     classes, true_idx = np.unique(y_true, return_inverse=True)
-- 
2.43.0


From c9875e383b10cfcf7b9a50d1cded5c753ef99672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 19/29] fix: keep the input dataset's metadata unchanged when
 generating views

---
 src/modssc/views/services/service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 7f53aea..54a1717 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -209,7 +209,7 @@ def generate_views(
 
         # 3) Meta
         meta: dict[str, Any] = dict(ds.meta) if isinstance(ds.meta, dict) else {}
-        meta.setdefault("views", {})
+        meta["views"] = dict(meta.get("views") or {})
         meta["views"][str(view.name)] = {
             "columns": cols.tolist(),
             "columns_mode": (view.columns.mode if view.columns is not None else "all"),
@@ -217,7 +217,7 @@ def generate_views(
         }
         if view.meta:
             # view-level metadata override/additions
-            meta.setdefault("view_meta", {})
+            meta["view_meta"] = dict(meta.get("view_meta") or {})
             meta["view_meta"][str(view.name)] = dict(view.meta)
 
         views[str(view.name)] = LoadedDataset(train=train_split, test=test_split, meta=meta)
-- 
2.43.0


From ea07f9561bdda5ac5c7d78ab9e9e830249dec142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 20/29] fix: draw torch swap noise from the augmentation
 context

---
 src/modssc/data_augmentation/ops/tabular.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/tabular.py b/src/modssc/data_augmentation/ops/tabular.py
index cf32383..642c598 100644
--- a/src/modssc/data_augmentation/ops/tabular.py
+++ b/src/modssc/data_augmentation/ops/tabular.py
@@ -82,8 +82,10 @@ class SwapNoise(AugmentationOp):
 
             torch = importlib.import_module("torch")
 
-            mask_swap = torch.rand(x.shape, device=x.device) < p
-            noise = torch.randn(x.shape, device=x.device, dtype=x.dtype)
+            seed = int(rng.integers(0, 1 << 31))
+            gen = torch.Generator(device=x.device).manual_seed(seed)
+            mask_swap = torch.rand(x.shape, generator=gen, device=x.device) < p
+            noise = torch.randn(x.shape, generator=gen, device=x.device, dtype=x.dtype)
 
             # Where mask_swap is True, use noise, else x
             return torch.where(mask_swap, noise, x)
-- 
2.43.0


From 09bbe774f3029cdb04cf6ec117437de9b1339071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 21/29] fix: initialise torch logistic regression from its seed

---
 src/modssc/supervised/backends/torch/logreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/torch/logreg.py b/src/modssc/supervised/backends/torch/logreg.py
index 988b101..ff60886 100644
--- a/src/modssc/supervised/backends/torch/logreg.py
+++ b/src/modssc/supervised/backends/torch/logreg.py
@@ -87,12 +87,12 @@ class TorchLogRegClassifier(TorchScoresClassifierBase):
         n_features = int(X.shape[1])
         n_classes = int(classes.numel())
 
+        torch.manual_seed(int(self.seed or 0))
         model = torch.nn.Linear(n_features, n_classes).to(X.device)
         optimizer = torch.optim.AdamW(
             model.parameters(), lr=float(self.lr), weight_decay=float(self.weight_decay)
         )
 
-        torch.manual_seed(int(self.seed or 0))
         model.train()
         n = int(X.shape[0])
         for _epoch in range(int(self.max_epochs)):
-- 
2.43.0


From dca3728a0b5386b2dda772cd7357440c91f34958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 22/29] fix: add up duplicate edges in dense adjacency matrices

---
 src/modssc/graph/featurization/ops/adjacency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/graph/featurization/ops/adjacency.py b/src/modssc/graph/featurization/ops/adjacency.py
index b3ec6a4..080c440 100644
--- a/src/modssc/graph/featurization/ops/adjacency.py
+++ b/src/modssc/graph/featurization/ops/adjacency.py
@@ -41,10 +41,10 @@ def adjacency_from_edge_index(
         A = np.zeros((n_nodes, n_nodes), dtype=np.float32)
         if edge_weight is None:
             if src.size:
-                A[src, dst] = 1.0
+                np.add.at(A, (src, dst), 1.0)
         else:
             data = np.asarray(edge_weight, dtype=np.float32)
-            A[src, dst] = data
+            np.add.at(A, (src, dst), data)
         return A
 
     if format == "csr":
-- 
2.43.0


From 21b340ec2cc2015d01974dcb24dee40baae39c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 23/29] fix: keep fractional weights when multiplying integer
 features

---
 src/modssc/transductive/backends/numpy_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modssc/transductive/backends/numpy_backend.py b/src/modssc/transductive/backends/numpy_backend.py
index 176563c..2c00b8d 100644
--- a/src/modssc/transductive/backends/numpy_backend.py
+++ b/src/modssc/transductive/backends/numpy_backend.py
@@ -28,6 +28,8 @@ def spmm(
     out[dst] += w * X[src]
     """
     edge_index = np.asarray(edge_index, dtype=np.int64)
+    if X.dtype.kind not in "fc":
+        X = X.astype(np.float32)
     if edge_index.size == 0:
         return np.zeros((n_nodes,) + X.shape[1:], dtype=X.dtype)
 
-- 
2.43.0


From 47ec21a097698d1ade6f865c747b816b461a77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 24/29] fix: refuse re-registering a built-in augmentation op
 under a different class before its lazy import

---
 src/modssc/data_augmentation/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modssc/data_augmentation/registry.py b/src/modssc/data_augmentation/registry.py
index ad430f8..4b3f6e0 100644
--- a/src/modssc/data_augmentation/registry.py
+++ b/src/modssc/data_augmentation/registry.py
@@ -55,6 +55,10 @@ def register_op(op_id: str) -> Callable[[type[AugmentationOp]], type[Augmentatio
         existing = _RUNTIME_OPS.get(op_id)
         if existing is not None and existing is not cls:
             raise DataAugmentationValidationError(f"Duplicate op_id: {op_id}")
+        # Built-in ops are imported lazily: their ids are taken before that, too.
+        builtin = _BUILTIN_OPS.get(op_id)
+        if builtin is not None and builtin[0] != f"{cls.__module__}:{cls.__qualname__}":
+            raise DataAugmentationValidationError(f"Duplicate op_id: {op_id}")
         if not hasattr(cls, "op_id") or not hasattr(cls, "modality"):
             raise DataAugmentationValidationError(
                 f"Op class {cls.__name__} must define 'op_id' and 'modality'."
-- 
2.43.0


From f5d025be2737c6d14bceb5cf72c69e572048bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 25/29] fix: order set filters by content so dataset identities
 do not depend on the hash seed

---
 src/modssc/data_loader/providers/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modssc/data_loader/providers/common.py b/src/modssc/data_loader/providers/common.py
index d60e529..7aee07c 100644
--- a/src/modssc/data_loader/providers/common.py
+++ b/src/modssc/data_loader/providers/common.py
@@ -10,7 +10,10 @@ from modssc.data_loader.types import Split
 def normalize_filter(values: Any) -> list[Any] | None:
     if values is None:
         return None
-    if isinstance(values, (list, tuple, set, np.ndarray)):
+    if isinstance(values, (set, frozenset)):
+        # iteration order is not stable across processes and the filter is part of the identity
+        return sorted(values, key=lambda v: (type(v).__name__, repr(v)))
+    if isinstance(values, (list, tuple, np.ndarray)):
         return list(values)
     return [values]
 
-- 
2.43.0


From b0b8b1266e40ce6ecfb8f9c1f94954265b6d3316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 26/29] fix: seed the torch generator in deep inductive fits so
 dropout and mixup follow the seed

---
 src/modssc/inductive/methods/adamatch.py            | 1 +
 src/modssc/inductive/methods/adsh.py                | 1 +
 src/modssc/inductive/methods/comatch.py             | 1 +
 src/modssc/inductive/methods/daso.py                | 1 +
 src/modssc/inductive/methods/deep_co_training.py    | 1 +
 src/modssc/inductive/methods/defixmatch.py          | 1 +
 src/modssc/inductive/methods/fixmatch.py            | 1 +
 src/modssc/inductive/methods/flexmatch.py           | 1 +
 src/modssc/inductive/methods/free_match.py          | 1 +
 src/modssc/inductive/methods/mean_teacher.py        | 1 +
 src/modssc/inductive/methods/meta_pseudo_labels.py  | 1 +
 src/modssc/inductive/methods/mixmatch.py            | 1 +
 src/modssc/inductive/methods/noisy_student.py       | 1 +
 src/modssc/inductive/methods/pi_model.py            | 1 +
 src/modssc/inductive/methods/simclr_v2.py           | 1 +
 src/modssc/inductive/methods/softmatch.py           | 1 +
 src/modssc/inductive/methods/temporal_ensembling.py | 1 +
 src/modssc/inductive/methods/trinet.py              | 1 +
 src/modssc/inductive/methods/uda.py                 | 1 +
 src/modssc/inductive/methods/vat.py                 | 1 +
 20 files changed, 20 insertions(+)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index a1f42d2..85e47b4 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -118,6 +118,7 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("AdaMatch requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/adsh.py b/src/modssc/inductive/methods/adsh.py
index fc62049..e23c059 100644
--- a/src/modssc/inductive/methods/adsh.py
+++ b/src/modssc/inductive/methods/adsh.py
@@ -179,6 +179,7 @@ class ADSHMethod(ArgmaxPredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("ADSH requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 0b3ab60..26ddff6 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -263,6 +263,7 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         X_l = ds.X_l
         y_l = ensure_1d_labels_torch(ds.y_l, name="y_l")
diff --git a/src/modssc/inductive/methods/daso.py b/src/modssc/inductive/methods/daso.py
index 71bfb76..059f1a4 100644
--- a/src/modssc/inductive/methods/daso.py
+++ b/src/modssc/inductive/methods/daso.py
@@ -275,6 +275,7 @@ class DASOMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("DASO requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/deep_co_training.py b/src/modssc/inductive/methods/deep_co_training.py
index b0e8c15..17dfb99 100644
--- a/src/modssc/inductive/methods/deep_co_training.py
+++ b/src/modssc/inductive/methods/deep_co_training.py
@@ -236,6 +236,7 @@ class DeepCoTrainingMethod(ArgmaxPredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         X_u = ds.X_u if ds.X_u is not None else ds.X_u_w
         if X_u is None:
diff --git a/src/modssc/inductive/methods/defixmatch.py b/src/modssc/inductive/methods/defixmatch.py
index 1ed3890..0791f87 100644
--- a/src/modssc/inductive/methods/defixmatch.py
+++ b/src/modssc/inductive/methods/defixmatch.py
@@ -107,6 +107,7 @@ class DeFixMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("DeFixMatch requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/fixmatch.py b/src/modssc/inductive/methods/fixmatch.py
index 0b7f147..e6fb425 100644
--- a/src/modssc/inductive/methods/fixmatch.py
+++ b/src/modssc/inductive/methods/fixmatch.py
@@ -98,6 +98,7 @@ class FixMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("FixMatch requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/flexmatch.py b/src/modssc/inductive/methods/flexmatch.py
index 8cf3316..7aad86d 100644
--- a/src/modssc/inductive/methods/flexmatch.py
+++ b/src/modssc/inductive/methods/flexmatch.py
@@ -179,6 +179,7 @@ class FlexMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("FlexMatch requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index e5b137e..c2904d1 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -163,6 +163,7 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("FreeMatch requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/mean_teacher.py b/src/modssc/inductive/methods/mean_teacher.py
index ad965fa..ec8707a 100644
--- a/src/modssc/inductive/methods/mean_teacher.py
+++ b/src/modssc/inductive/methods/mean_teacher.py
@@ -118,6 +118,7 @@ class MeanTeacherMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("Mean Teacher requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/meta_pseudo_labels.py b/src/modssc/inductive/methods/meta_pseudo_labels.py
index a9b1414..4259933 100644
--- a/src/modssc/inductive/methods/meta_pseudo_labels.py
+++ b/src/modssc/inductive/methods/meta_pseudo_labels.py
@@ -184,6 +184,7 @@ class MetaPseudoLabelsMethod(ArgmaxPredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("Meta Pseudo Labels requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/mixmatch.py b/src/modssc/inductive/methods/mixmatch.py
index d7f7b44..19e37b3 100644
--- a/src/modssc/inductive/methods/mixmatch.py
+++ b/src/modssc/inductive/methods/mixmatch.py
@@ -230,6 +230,7 @@ class MixMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("MixMatch requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/noisy_student.py b/src/modssc/inductive/methods/noisy_student.py
index 5e7509a..c7bb8cb 100644
--- a/src/modssc/inductive/methods/noisy_student.py
+++ b/src/modssc/inductive/methods/noisy_student.py
@@ -176,6 +176,7 @@ class NoisyStudentMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         X_uw = ds.X_u_w if ds.X_u_w is not None else ds.X_u
         X_us = ds.X_u_s if ds.X_u_s is not None else X_uw
diff --git a/src/modssc/inductive/methods/pi_model.py b/src/modssc/inductive/methods/pi_model.py
index 452ef01..8278444 100644
--- a/src/modssc/inductive/methods/pi_model.py
+++ b/src/modssc/inductive/methods/pi_model.py
@@ -91,6 +91,7 @@ class PiModelMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("Pi-Model requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/simclr_v2.py b/src/modssc/inductive/methods/simclr_v2.py
index 5ea09e6..bef1ef7 100644
--- a/src/modssc/inductive/methods/simclr_v2.py
+++ b/src/modssc/inductive/methods/simclr_v2.py
@@ -251,6 +251,7 @@ class SimCLRv2Method(ArgmaxPredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         X_l = ds.X_l
         y_l = ds.y_l
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index 5b4e2c7..07ecfc4 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -171,6 +171,7 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("SoftMatch requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/temporal_ensembling.py b/src/modssc/inductive/methods/temporal_ensembling.py
index 4a8733e..115252e 100644
--- a/src/modssc/inductive/methods/temporal_ensembling.py
+++ b/src/modssc/inductive/methods/temporal_ensembling.py
@@ -95,6 +95,7 @@ class TemporalEnsemblingMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("Temporal Ensembling requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/trinet.py b/src/modssc/inductive/methods/trinet.py
index 08e7571..fef0948 100644
--- a/src/modssc/inductive/methods/trinet.py
+++ b/src/modssc/inductive/methods/trinet.py
@@ -407,6 +407,7 @@ class TriNetMethod(ArgmaxPredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u is None:
             raise InductiveValidationError("TriNet requires X_u (unlabeled data).")
diff --git a/src/modssc/inductive/methods/uda.py b/src/modssc/inductive/methods/uda.py
index ee2f79f..5cde27d 100644
--- a/src/modssc/inductive/methods/uda.py
+++ b/src/modssc/inductive/methods/uda.py
@@ -112,6 +112,7 @@ class UDAMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         if ds.X_u_w is None or ds.X_u_s is None:
             raise InductiveValidationError("UDA requires X_u_w and X_u_s.")
diff --git a/src/modssc/inductive/methods/vat.py b/src/modssc/inductive/methods/vat.py
index a25fd4d..bc03907 100644
--- a/src/modssc/inductive/methods/vat.py
+++ b/src/modssc/inductive/methods/vat.py
@@ -223,6 +223,7 @@ class VATMethod(TorchBundlePredictMixin, InductiveMethod):
 
         ds = ensure_torch_data(data, device=device)
         torch = optional_import("torch", extra="inductive-torch")
+        torch.manual_seed(int(seed))
 
         X_u = ds.X_u if ds.X_u is not None else ds.X_u_w
         if X_u is None:
-- 
2.43.0


From 137aed3f98b5420f00abe8501beb20f5eac8f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 27/29] fix: turn decision function margins into probabilities
 instead of dividing by their sum

---
 src/modssc/inductive/methods/co_training.py   | 16 +++++--------
 .../methods/democratic_co_learning.py         |  9 +++-----
 .../methods/helpers/classifier_bridge.py      | 23 +++++++++++++++++++
 src/modssc/inductive/methods/pseudo_label.py  | 10 ++------
 src/modssc/inductive/methods/s4vm.py          | 11 ++-------
 src/modssc/inductive/methods/self_training.py | 10 ++------
 src/modssc/inductive/methods/setred.py        | 10 ++------
 src/modssc/inductive/methods/supervised.py    | 11 ++-------
 8 files changed, 42 insertions(+), 58 deletions(-)

diff --git a/src/modssc/inductive/methods/co_training.py b/src/modssc/inductive/methods/co_training.py
index d954211..cf5b04f 100644
--- a/src/modssc/inductive/methods/co_training.py
+++ b/src/modssc/inductive/methods/co_training.py
@@ -19,6 +19,7 @@ from modssc.inductive.methods.utils import (
     ensure_classifier_backend,
     ensure_cpu_device,
     flatten_if_numpy,
+    normalize_scores,
     predict_scores,
     select_top_per_class,
     select_top_per_class_torch,
@@ -428,8 +429,10 @@ class CoTrainingMethod(InductiveMethod):
         backend = self._backend or detect_backend(X1)
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict input backend mismatch.")
-        s1 = predict_scores(self._clf1, X1, backend=backend)
-        s2 = predict_scores(self._clf2, X2, backend=backend)
+        s1, s2 = (
+            normalize_scores(predict_scores(clf, X, backend=backend), backend=backend, model=clf)
+            for clf, X in ((self._clf1, X1), (self._clf2, X2))
+        )
         if s1.shape[1] != s2.shape[1]:
             raise InductiveValidationError("CoTraining classifiers must agree on class count.")
         c1 = getattr(self._clf1, "classes_", None)
@@ -459,14 +462,7 @@ class CoTrainingMethod(InductiveMethod):
             X1 = _view_predict_payload_torch(v1, name=self._view_keys[0])
             X2 = _view_predict_payload_torch(v2, name=self._view_keys[1])
         scores = self._predict_scores_pair(X1, X2)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend)
 
     def predict(self, data: Any) -> np.ndarray:
         if self._clf1 is None:
diff --git a/src/modssc/inductive/methods/democratic_co_learning.py b/src/modssc/inductive/methods/democratic_co_learning.py
index 2b7463b..628d887 100644
--- a/src/modssc/inductive/methods/democratic_co_learning.py
+++ b/src/modssc/inductive/methods/democratic_co_learning.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -490,9 +491,7 @@ class DemocraticCoLearningMethod(InductiveMethod):
                 n_classes=int(self._classes.size),
                 min_confidence=float(self.spec.min_confidence),
             )
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
+            return normalize_scores(scores, backend=backend)
 
         torch = optional_import("torch", extra="inductive-torch")
         weights_t = torch.tensor(self._weights, device=get_torch_device(X), dtype=torch.float32)
@@ -506,9 +505,7 @@ class DemocraticCoLearningMethod(InductiveMethod):
             n_classes=int(self._classes_t.numel()),
             min_confidence=float(self.spec.min_confidence),
         )
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         proba = self.predict_proba(X)
diff --git a/src/modssc/inductive/methods/helpers/classifier_bridge.py b/src/modssc/inductive/methods/helpers/classifier_bridge.py
index e4fcea4..664ca00 100644
--- a/src/modssc/inductive/methods/helpers/classifier_bridge.py
+++ b/src/modssc/inductive/methods/helpers/classifier_bridge.py
@@ -189,6 +189,29 @@ def predict_scores(model: Any, X: Any, *, backend: str):
     raise InductiveValidationError(f"Unknown backend: {backend!r}")
 
 
+def normalize_scores(scores: Any, *, backend: str, model: Any = None):
+    """Turn raw class scores into one probability row per sample.
+
+    Rows of decision function margins (negative scores, or a classifier without probabilities) go
+    through a softmax, which keeps the order of the classes. Other rows are divided by their sum.
+    """
+    only_margins = getattr(model, "supports_proba", None) is False
+    if backend == "numpy":
+        probs = np.array(scores, dtype=np.float64)
+        margins = np.logical_or(only_margins, (probs < 0).any(axis=1))
+        shifted = probs[margins] - probs[margins].max(axis=1, keepdims=True)
+        probs[margins] = np.exp(shifted)
+        row_sum = probs.sum(axis=1, keepdims=True)
+        row_sum[row_sum == 0.0] = 1.0
+        return (probs / row_sum).astype(np.float32)
+    torch = _torch()
+    margins = (scores < 0).any(dim=1, keepdim=True) | only_margins
+    probs = torch.where(margins, torch.softmax(scores, dim=1), scores)
+    row_sum = probs.sum(dim=1, keepdim=True)
+    row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
+    return probs / row_sum
+
+
 def select_confident(
     scores: np.ndarray,
     *,
diff --git a/src/modssc/inductive/methods/pseudo_label.py b/src/modssc/inductive/methods/pseudo_label.py
index dac483a..c1bba58 100644
--- a/src/modssc/inductive/methods/pseudo_label.py
+++ b/src/modssc/inductive/methods/pseudo_label.py
@@ -25,6 +25,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
     predict_scores,
     select_confident,
     select_confident_torch,
@@ -210,14 +211,7 @@ class PseudoLabelMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend, model=self._clf)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/s4vm.py b/src/modssc/inductive/methods/s4vm.py
index a22bb61..4658b74 100644
--- a/src/modssc/inductive/methods/s4vm.py
+++ b/src/modssc/inductive/methods/s4vm.py
@@ -22,6 +22,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     flatten_if_numpy,
+    normalize_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -193,15 +194,7 @@ class S4VMMethod(InductiveMethod):
             X = flatten_if_numpy(X)
 
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            if np.any(row_sum == 0.0):
-                row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend, model=self._clf)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/self_training.py b/src/modssc/inductive/methods/self_training.py
index 74b98c4..6e188ca 100644
--- a/src/modssc/inductive/methods/self_training.py
+++ b/src/modssc/inductive/methods/self_training.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -473,14 +474,7 @@ class SelfTrainingMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend, model=self._clf)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index b165b46..2a408a8 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
     predict_scores,
     unwrap_torch_x,
 )
@@ -505,14 +506,7 @@ class SetredMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend, model=self._clf)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/supervised.py b/src/modssc/inductive/methods/supervised.py
index 82c01f1..7793db3 100644
--- a/src/modssc/inductive/methods/supervised.py
+++ b/src/modssc/inductive/methods/supervised.py
@@ -20,9 +20,9 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     ensure_numpy_data,
     ensure_torch_data,
+    normalize_scores,
     predict_scores,
 )
-from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
 
 logger = logging.getLogger(__name__)
@@ -100,14 +100,7 @@ class SupervisedMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return normalize_scores(scores, backend=backend, model=self._clf)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
-- 
2.43.0


From 5e163bc352372598fcb252b4f6554d62e169f131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 28/29] fix: tri-training maps score columns to class labels
 when classifiers saw different classes

---
 src/modssc/inductive/methods/tri_training.py | 56 +++++++++++++++-----
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 4287bfd..078b297 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     flatten_if_numpy,
+    normalize_scores,
     predict_scores,
 )
 from modssc.inductive.optional import optional_import
@@ -42,6 +43,19 @@ class TriTrainingSpec(BaseClassifierSpec):
     bootstrap_ratio: float = 1.0
 
 
+def _labels_from_scores(clf: Any, idx: Any) -> Any:
+    """Class labels of the given score columns of a classifier."""
+    classes = getattr(clf, "classes_", None)
+    if classes is None:
+        classes = getattr(clf, "classes_t_", None)
+    if classes is None:
+        return idx
+    if isinstance(idx, np.ndarray):
+        return np.asarray(classes)[idx]
+    torch = optional_import("torch", extra="inductive-torch")
+    return torch.as_tensor(classes, device=idx.device)[idx]
+
+
 class TriTrainingMethod(InductiveMethod):
     """Tri-training with three classifiers (CPU/GPU)."""
 
@@ -123,8 +137,8 @@ class TriTrainingMethod(InductiveMethod):
                     j, k = [x for x in range(3) if x != i]
                     scores_j = predict_scores(clfs[j], X_u, backend=backend)
                     scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                    pred_j = scores_j.argmax(axis=1)
-                    pred_k = scores_k.argmax(axis=1)
+                    pred_j = _labels_from_scores(clfs[j], scores_j.argmax(axis=1))
+                    pred_k = _labels_from_scores(clfs[k], scores_k.argmax(axis=1))
                     agree = pred_j == pred_k
                     if not np.any(agree):
                         continue
@@ -220,8 +234,8 @@ class TriTrainingMethod(InductiveMethod):
                 j, k = [x for x in range(3) if x != i]
                 scores_j = predict_scores(clfs[j], X_u, backend=backend)
                 scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                pred_j = scores_j.argmax(dim=1)
-                pred_k = scores_k.argmax(dim=1)
+                pred_j = _labels_from_scores(clfs[j], scores_j.argmax(dim=1))
+                pred_k = _labels_from_scores(clfs[k], scores_k.argmax(dim=1))
                 agree = pred_j == pred_k
                 if not bool(agree.any()):
                     continue
@@ -286,7 +300,10 @@ class TriTrainingMethod(InductiveMethod):
         if backend == "numpy":
             X = flatten_if_numpy(X)
 
-        scores_list = [predict_scores(clf, X, backend=backend) for clf in self._clfs]
+        scores_list = [
+            normalize_scores(predict_scores(clf, X, backend=backend), backend=backend, model=clf)
+            for clf in self._clfs
+        ]
 
         # Robustly align scores if shapes differ
         shapes = [s.shape[1] for s in scores_list]
@@ -388,17 +405,30 @@ class TriTrainingMethod(InductiveMethod):
             row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
             return avg / row_sum
 
+    def _score_classes(self, n_classes: int) -> np.ndarray | None:
+        """Class labels of the predict_proba columns (the union when the classifiers differ)."""
+        labels = []
+        for clf in self._clfs:
+            classes = getattr(clf, "classes_", None)
+            if classes is None:
+                classes = getattr(clf, "classes_t_", None)
+            if classes is None:
+                return None
+            labels.append(
+                classes.detach().cpu().numpy()
+                if hasattr(classes, "detach")
+                else np.asarray(classes)
+            )
+        union = np.unique(np.concatenate(labels))
+        return union if union.size == n_classes else None
+
     def predict(self, X: Any) -> np.ndarray:
         proba = self.predict_proba(X)
         backend = detect_backend(X)
+        classes = self._score_classes(int(proba.shape[1]))
         if backend == "numpy":
             idx = proba.argmax(axis=1)
-            classes = getattr(self._clfs[0], "classes_", None)
-            if classes is None:
-                return idx
-            return np.asarray(classes)[idx]
+            return idx if classes is None else classes[idx]
+        torch = optional_import("torch", extra="inductive-torch")
         idx = proba.argmax(dim=1)
-        classes_t = getattr(self._clfs[0], "classes_t_", None)
-        if classes_t is None:
-            return idx
-        return classes_t[idx]
+        return idx if classes is None else torch.as_tensor(classes, device=idx.device)[idx]
-- 
2.43.0


From bd52f16ea26aade51cf546e9fe11a6ab6e660624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 29/29] fix: keep the cached graph over train and test rows
 apart from the one over train rows

---
 bench/orchestrators/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/orchestrators/graph.py b/bench/orchestrators/graph.py
index 9d282c3..1386073 100644
--- a/bench/orchestrators/graph.py
+++ b/bench/orchestrators/graph.py
@@ -84,6 +84,9 @@ def build(
 
     if X_test is not None:
         X = np.concatenate([_to_numpy(X_train), _to_numpy(X_test)], axis=0)
+        if dataset_fingerprint is not None:
+            # The graph over train and test rows is not the graph over the train rows.
+            dataset_fingerprint = f"{dataset_fingerprint}:train+test"
     else:
         X = _to_numpy(X_train)
     _LOGGER.debug("Graph features: shape=%s", tuple(np.asarray(X).shape))
-- 
2.43.0

