From e22b44f6f02a0e9ed5e3d873fd21c20d3842f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 01/37] fix: encode strings before hashing them with xxhash

xxhash 4 no longer accepts str input, so hashing any mixture key or seed list
raised a TypeError. Older versions encoded str as UTF-8, so hashes are unchanged.
---
 mixtera/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index a879db4..c8f258c 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -106,7 +106,7 @@ def hash_list(string_list: list[str]) -> int:
     concatenated_string = "\0".join(string_list)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
@@ -142,7 +142,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
     concatenated_string = "\0".join(concatenated_items)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
-- 
2.43.0


From b24a1bcfad4e5211b7a8f17ce704ccb255e4779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 02/37] fix: fetch query results with to_arrow_table

DuckDB 2 removed fetch_arrow_table, so no query could be executed.
---
 mixtera/core/query/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d92c269..d4aa21e 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -108,7 +108,7 @@ class Query:
 
         # First, we need to get the column names from the base query
         columns_query = f"SELECT * FROM ({base_query}) LIMIT 0"
-        columns = conn.execute(columns_query, parameters).fetch_arrow_table().column_names
+        columns = conn.execute(columns_query, parameters).to_arrow_table().column_names
 
         # Determine group columns (all columns except 'sample_id')
         group_cols = ["dataset_id", "file_id"] + sorted(
@@ -152,7 +152,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),
+            mdc._connection.execute(full_query, parameters).to_arrow_table(),
             mixture,
             query_log_dir=query_log_dir,
         )
-- 
2.43.0


From 52ea0831ab7b1dfdfae95ea9015b6c0d5c11ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 03/37] fix: do not hang in arbitrary chunk generation when a
 component is exhausted

With an even number of components, skipping two keys at a time never reached
the components that still had data.
---
 mixtera/core/query/query_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7686459..6e7e01b 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -511,11 +511,16 @@ class QueryResult:
                     self._persist_mixture_log()
 
                 chunk = None
+                num_skips = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
                     chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                     if chunker_index_keys_idx in empty_key_idx:
                         # Note that this can be removed but needs some adjustments in the tests (only impacts ordering)
-                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        # Skipping two keys at a time may never reach a non-empty key for an even number of keys,
+                        # hence we fall back to visiting all keys one by one.
+                        num_skips += 1
+                        if num_skips <= len(chunker_index_keys):
+                            chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                         continue
 
                     key = chunker_index_keys[chunker_index_keys_idx]
-- 
2.43.0


From 6e117ac7fe23c1dbbb863587ea69f4d3da4d92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 04/37] fix: adopt a new mixture after a chunk could not be
 generated

The mixture sent to the generator after an unsuccessful try was dropped, so
all further tries were made with the mixture that had already failed.
---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 6e7e01b..fe314cc 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -500,7 +500,7 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
-                    yield None
+                    base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
                     logger.debug("Obtained new None mixture.")
-- 
2.43.0


From 369bbe4b8f7177300ac273711e9e1c13bdffc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 05/37] fix: only count generated chunks as returns of the
 chunk generator

A checkpoint taken after the end of the data counted the failed tries, so
replaying it ran out of chunks and the checkpoint could not be restored.
---
 mixtera/core/query/query_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index fe314cc..ff5c51c 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -587,7 +587,6 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            self._num_returns_gen += 1
             result = self._generator.send((self._mixture, chunk_target_index))
             if result is None:
                 # In case we reach end of chunks (for now),
@@ -597,6 +596,8 @@ class QueryResult:
 
                 if self.stop_on_none:
                     raise StopIteration
+            else:
+                self._num_returns_gen += 1
 
             return result
 
-- 
2.43.0


From e01d8cd63be60330405438ad3871d6c6b04003f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 06/37] fix: redistribute evenly in best effort if only
 zero-row components are left

---
 mixtera/core/query/query_result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index ff5c51c..1bf62ac 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -448,7 +448,11 @@ class QueryResult:
 
                                     total_mixture_size_remaining = sum(mixture[key] for key in target_keys)
 
-                                    ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    if total_mixture_size_remaining > 0:
+                                        ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    else:
+                                        # Only keys without any rows in this mixture are left, treat them equally
+                                        ratios = [1 / len(target_keys) for _ in target_keys]
 
                                     samples_to_distribute = distribute_by_ratio(num_missing_samples, ratios)
 
-- 
2.43.0


From 9ec21bc950e6373917ce0b5c07f4f7434d44fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 07/37] fix: do not add components with zero rows to a chunk

---
 mixtera/core/query/query_result.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 1bf62ac..c8a3d26 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -360,6 +360,9 @@ class QueryResult:
                     for mixture_key in sorted(remaining_sizes.keys()):
                         # logger.debug(f"Handling key {mixture_key}, remaining sizes: {remaining_sizes}")
 
+                        if remaining_sizes[mixture_key] == 0:
+                            continue  # Asking for 0 rows would add empty ranges (and maybe the key) to the chunk
+
                         for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):
                             # logger.debug(f"Checking component key {component_key}")
                             if mixture_key == component_key:
-- 
2.43.0


From 23e715c7ad730209721a97a9e7a1eff89e1d23a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 08/37] fix: do not hang in best-effort windows if only
 components without a share are left

---
 mixtera/core/query/result_chunk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 728d208..720771d 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -440,6 +440,10 @@ class ResultChunk:
                 if nothing_yielded_window:
                     break
 
+            if items_yielded == 0:
+                # Only keys without any share of the window are left, which would otherwise never be yielded
+                element_counts = [(key, max(count, 1)) for key, count in element_counts]
+
     def _iterate_overall_mixture(
         self, active_iterators: dict[MixtureKey, Iterator[Sample]]
     ) -> Iterator[tuple[int, Sample]]:
-- 
2.43.0


From 654551385a9fb3d711b3cc300913519487c641ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 09/37] fix: infer mixtures in the order of the keys, not in
 the order of the index

---
 mixtera/core/datacollection/index/index_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/index/index_utils.py b/mixtera/core/datacollection/index/index_utils.py
index 1bd6659..feb6d46 100644
--- a/mixtera/core/datacollection/index/index_utils.py
+++ b/mixtera/core/datacollection/index/index_utils.py
@@ -19,7 +19,8 @@ def infer_mixture_from_chunkerindex(chunker_index: ChunkerIndex) -> tuple[int, d
         )
         return mass
 
-    for property_combination, partition_entry in chunker_index.items():
+    # Sort since the order of the index depends on how it was built, but ties in the mixture are broken by its order
+    for property_combination, partition_entry in sorted(chunker_index.items(), key=lambda x: x[0]):
         partition_mass = calculate_partition_mass(partition_entry)
         partition_masses[property_combination] = partition_mass
         total_count += partition_mass
-- 
2.43.0


From 5ff2de139516c0d9804733e5e64b41dca868ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 10/37] fix: put samples with the same values in a different
 order into one component

---
 mixtera/core/query/query.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d4aa21e..3481fbb 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -115,6 +115,12 @@ class Query:
             [col for col in columns if col not in ["sample_id", "dataset_id", "file_id"]]
         )
 
+        # Samples with the same values in a different order belong to the same component
+        list_cols = [col for col in group_cols if col in schema and schema[col]["multiple"]]
+        if list_cols:
+            sorted_lists = ", ".join(f"list_sort({col}) AS {col}" for col in list_cols)
+            base_query = f"SELECT * REPLACE ({sorted_lists}) FROM ({base_query})"
+
         # Create the partition by clause for the window functions
         partition_clause = ", ".join(group_cols)
 
-- 
2.43.0


From e9d9cf7454bd02c3a023b9738913e17ddee69ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 11/37] fix: do not split property values at ',' and ';' in the
 chunker extension

---
 .../core/query/chunker/include/chunker.hpp    |  5 ++++
 mixtera/core/query/chunker/src/chunker.cpp    | 29 +++++++------------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/mixtera/core/query/chunker/include/chunker.hpp b/mixtera/core/query/chunker/include/chunker.hpp
index 735787e..660e4d1 100644
--- a/mixtera/core/query/chunker/include/chunker.hpp
+++ b/mixtera/core/query/chunker/include/chunker.hpp
@@ -49,6 +49,11 @@ namespace py = pybind11;
 template <typename T1, typename T2>
 using MapT = absl::flat_hash_map<T1, T2>;
 
+// Control characters delimit the parts of a key, as property values may contain printable ones (such as ',' or ';').
+constexpr char kPropertySeparator = '\x1e';
+constexpr char kNameSeparator = '\x1f';
+constexpr char kValueTerminator = '\x1d';
+
 // TODO(#142): We should template this in the integer type.
 using MixtureKeyCpp = std::string;
 using Interval = std::pair<int64_t, int64_t>;
diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index 9af4868..415df13 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -129,11 +129,11 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
         }
 
         if (!first_prop) {
-          key += ";";
+          key += kPropertySeparator;
         }
         first_prop = false;
 
-        key += col_name + ":";
+        key += col_name + kNameSeparator;
 
         auto type_id = array->type_id();
 
@@ -148,7 +148,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               auto str_array = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(array);
               value = str_array->GetString(i);
             }
-            key += value;
+            key += value + kValueTerminator;
 
             // Handle LIST and LARGE_LIST types
           } else if (type_id == arrow::Type::LIST || type_id == arrow::Type::LARGE_LIST) {
@@ -184,7 +184,6 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
 
             // Build values string
             std::string values_str;
-            bool first_value = true;
 
             const auto value_type_id = value_array->type_id();
 
@@ -202,11 +201,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                   auto str_values = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(value_array);
                   val = str_values->GetString(k);
                 }
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values_str += val + kValueTerminator;
               }
 
               // Handle DICTIONARY elements within the list
@@ -248,11 +243,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                    col_name, dict->type()->ToString()));
                 }
 
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values_str += val + kValueTerminator;
               }
 
             } else {
@@ -298,7 +289,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                dict->type()->ToString()));
             }
 
-            key += value;
+            key += value + kValueTerminator;
 
           } else {
             FAIL(fmt::format("Unsupported array type in column '{}' at row {}. Type: {}", col_name, i,
@@ -531,12 +522,12 @@ ChunkerIndexCpp merge_chunker_indices(std::vector<ChunkerIndexCpp>* thread_chunk
 
 py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
   // Parse the C++ key string into a properties dictionary for Python
-  // Expected format: "prop1:val1,val2;prop2:val3"
+  // Expected format: "prop1:val1,val2,;prop2:val3," (with the control characters from the header)
   py::dict py_properties;
   std::stringstream ss_props(key);
   std::string prop_pair;
-  while (std::getline(ss_props, prop_pair, ';')) {
-    size_t colon_pos = prop_pair.find(':');
+  while (std::getline(ss_props, prop_pair, kPropertySeparator)) {
+    size_t colon_pos = prop_pair.find(kNameSeparator);
     if (colon_pos == std::string::npos) {
       continue;
     }
@@ -547,7 +538,7 @@ py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
     std::vector<std::string> values;
     std::stringstream ss_values(values_str);
     std::string value;
-    while (std::getline(ss_values, value, ',')) {
+    while (std::getline(ss_values, value, kValueTerminator)) {
       values.push_back(value);
     }
     py_properties[py::cast(prop_name)] = py::cast(std::move(values));
-- 
2.43.0


From 1e5ad604c69b3a134213e45f20532a1eaa2ce704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 12/37] fix: keep the requested number of workers when
 restoring a checkpoint

---
 mixtera/core/query/chunk_distributor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b0be975..9d6afad 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -367,6 +367,7 @@ class ChunkDistributor:
             "next_chunk": deepcopy(self._next_chunk),
             "_dp_groups": self._dp_groups,
             "_num_workers": self._num_workers,
+            "_og_num_workers": self._og_num_workers,
             "_nodes_per_group": self._nodes_per_group,
             "_checkpoint_id_counter": self._checkpoint_id_counter.value,
         }
@@ -610,7 +611,7 @@ class ChunkDistributor:
         chunk_distributor = cls(
             dp_groups=state["_dp_groups"],
             nodes_per_group=state["_nodes_per_group"],
-            num_workers=state["_num_workers"],
+            num_workers=state.get("_og_num_workers", state["_num_workers"]),
             query_result=query_result,
             job_id=job_id,
         )
-- 
2.43.0


From deda216251eb4f08cee88bdca22853da65c63024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 13/37] fix: allow another checkpoint after one has been
 refused

---
 mixtera/core/query/chunk_distributor.py | 29 +++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 9d6afad..1c622e8 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -276,18 +276,23 @@ class ChunkDistributor:
             self._nodes_reported.add(key)
 
             if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:
-                # All nodes have reported; proceed to validation and checkpointing
-                worker_sample_ids = self._validate_checkpoint_state()
-
-                # Start checkpointing process
-                # By having this in the lock,
-                # we ensure we finish the checkpoint in-memory copy first before handling the next request.
-                self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
-
-                # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
-                self._worker_statuses = {}
-                self._nodes_reported = set()
-                self._current_checkpoint_id = None
+                try:
+                    # All nodes have reported; proceed to validation and checkpointing
+                    worker_sample_ids = self._validate_checkpoint_state()
+
+                    # Start checkpointing process
+                    # By having this in the lock,
+                    # we ensure we finish the checkpoint in-memory copy first before handling the next request.
+                    self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+                except RuntimeError:
+                    self._checkpoint_id_counter.value -= 1  # The id has not been used, the next checkpoint takes it
+                    raise
+                finally:
+                    # Reset for next checkpoint, afterwards release the lock,
+                    # allowing potentially for the next request. Also do so if the checkpoint has been refused.
+                    self._worker_statuses = {}
+                    self._nodes_reported = set()
+                    self._current_checkpoint_id = None
 
         return checkpoint_id
 
-- 
2.43.0


From 8f76f2a1f6b4eac55b42d56da065c2bbeb96d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 14/37] fix: restore the current mixture and the component ids
 from a checkpoint

---
 mixtera/core/query/chunk_distributor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 1c622e8..f870a90 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -412,6 +412,10 @@ class ChunkDistributor:
             logger.debug("Updated alg:")
             logger.debug(str(mixture_log[-1][1]._mixing_alg))
 
+        # The log only has the mixtures of generated chunks, the job might already use another one (e.g., after feedback)
+        state_to_save["mixture"] = deepcopy(self._query_result._mixture)
+        state_to_save["key_id_map"] = deepcopy(self._query_result._key_id_map)
+
         returns_gen = self._query_result._num_returns_gen
 
         logger.debug("Spinning up the persisting process.")
@@ -609,7 +613,10 @@ class ChunkDistributor:
         query_result._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
+        # Replaying must not assign other ids than the job used, e.g., if the query has been cached by another job
+        query_result._key_id_map = state["key_id_map"]
         query_result.replay(query_result_state["num_returns_gen"])
+        query_result.update_mixture(state["mixture"])
 
         logger.debug("Instantiating class.")
 
-- 
2.43.0


From 7d356f21718704926dacff8588ff6e4127b36bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 15/37] fix: log changes of strictness and of the size of
 arbitrary chunks for replaying

---
 mixtera/core/query/query_result.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index c8a3d26..b2bb128 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -345,6 +345,9 @@ class QueryResult:
 
                     self._persist_mixture_log()
                     self._update_key_id_map()
+                elif not self._is_replay and self._mixture_log[-1][1].strict != is_strict:
+                    # Same rows, but replaying needs to know when to switch to or from best effort
+                    self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
 
                 chunk: ChunkerIndex = create_chunker_index()
                 remaining_sizes: dict[MixtureKey, int] = {  # pylint: disable=unnecessary-comprehension
@@ -516,6 +519,9 @@ class QueryResult:
                     if not self._is_replay:
                         self._mixture_log.append((current_chunk_index, base_mixture))
                     self._persist_mixture_log()
+                elif not self._is_replay and self._mixture_log[-1][1].chunk_size != base_mixture.chunk_size:
+                    # Still no mixture, but replaying needs to know when the size of the chunks changes
+                    self._mixture_log.append((current_chunk_index, base_mixture))
 
                 chunk = None
                 num_skips = 0
-- 
2.43.0


From 384d403810782640d7ba558b7f39b92317cdcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 16/37] fix: do not fail a checkpoint of workers that have not
 asked again since a restore

---
 mixtera/core/query/chunk_distributor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index f870a90..4d5c088 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -489,7 +489,9 @@ class ChunkDistributor:
                         next_chunk = (
                             state_to_save["next_chunk"][dp_group][node][worker_id] - state_to_save["_num_workers"]
                         )
-                        if next_chunk >= 0:
+                        # If the worker has not asked again for its current chunk since the last restore,
+                        # it is still the next chunk (and its predecessor is not cached anymore)
+                        if next_chunk >= 0 and next_chunk in state_to_save["chunk_cache"][dp_group]:
                             state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk
                             state_to_save["chunk_usage"][dp_group][next_chunk] = 0
                             chunk = state_to_save["chunk_cache"][dp_group][next_chunk]
-- 
2.43.0


From d757ffab6053880993433a66fcce09d41e6b5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 17/37] fix: tokenize with transformers versions without
 batch_encode_plus

---
 mixtera/utils/tokenizing_iterator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 5ff8a71..f270ece 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -48,7 +48,9 @@ class TokenizingIterator:
                 break
 
         if texts:
-            encoded_batch = self.tokenizer.batch_encode_plus(
+            # batch_encode_plus does not exist in newer transformers versions
+            encode = getattr(self.tokenizer, "batch_encode_plus", self.tokenizer)
+            encoded_batch = encode(
                 texts,
                 return_attention_mask=False,
                 return_token_type_ids=False,
@@ -148,7 +150,9 @@ class ThreadedTokenizingIterator:
                     local_eos = True
 
             if texts:
-                encoded_batch = self.tokenizer.batch_encode_plus(
+                # batch_encode_plus does not exist in newer transformers versions
+                encode = getattr(self.tokenizer, "batch_encode_plus", self.tokenizer)
+                encoded_batch = encode(
                     texts,
                     return_attention_mask=False,
                     return_token_type_ids=False,
-- 
2.43.0


From dc4d4e0d43e196d774d8e99e0412e8a24025c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 18/37] fix: hand errors of the tokenization thread on instead
 of hanging

---
 mixtera/utils/tokenizing_iterator.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index f270ece..32a678c 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -131,14 +131,25 @@ class ThreadedTokenizingIterator:
         self.eos = False
         self.yielded_samples = 0
 
+        self.error: BaseException | None = None  # Raised in the background thread, handed on to the consumer
+
         self.lock = threading.Lock()
         self.condition = threading.Condition(self.lock)
-        self.background_thread = threading.Thread(target=self.prefetch_loop)
+        self.background_thread = threading.Thread(target=self._run_prefetch_loop)
         self.background_thread.start()
 
     def __iter__(self) -> "ThreadedTokenizingIterator":
         return self
 
+    def _run_prefetch_loop(self) -> None:
+        try:
+            self.prefetch_loop()
+        except BaseException as e:  # pylint: disable=broad-exception-caught
+            with self.lock:
+                self.error = e
+                self.eos = True
+                self.condition.notify_all()
+
     def prefetch_loop(self) -> None:
         while not self.eos:
             texts = []
@@ -190,6 +201,9 @@ class ThreadedTokenizingIterator:
                     self.yielded_samples += 1
                     return chunk
 
+                if self.error is not None:
+                    raise self.error
+
                 if self.eos:
                     if self.yielded_samples == 0 and current_length > 0 and self.at_least_one_sample:
                         # Pad the remaining tokens to reach the desired length
-- 
2.43.0


From b33f19cec9dd448eacf862da5e7701b7fee4dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 19/37] fix: hand errors and None items on when prefetching the
 first item

---
 mixtera/utils/prefetch_iterator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 8aae563..2d9bd87 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -10,14 +10,15 @@ class PrefetchFirstItemIterator(Iterator[T]):
         self.prefetch_event = Event()
         self.first_item_consumed = False
         self.first_item: T | None = None
+        self.first_error: BaseException | None = None
         self.prefetch_thread = Thread(target=self._prefetch)
         self.prefetch_thread.start()
 
     def _prefetch(self) -> None:
         try:
             self.first_item = next(self.iterator)
-        except StopIteration:
-            self.first_item = None
+        except BaseException as e:  # pylint: disable=broad-exception-caught
+            self.first_error = e  # Raised (including StopIteration) when the first item is consumed
         finally:
             self.prefetch_event.set()
 
@@ -25,9 +26,9 @@ class PrefetchFirstItemIterator(Iterator[T]):
         if not self.first_item_consumed:
             self.prefetch_event.wait()
             self.first_item_consumed = True
-            if self.first_item is not None:
-                return self.first_item
+            if self.first_error is not None:
+                raise self.first_error
 
-            raise StopIteration()
+            return self.first_item  # type: ignore[return-value]
 
         return next(self.iterator)
-- 
2.43.0


From 18305f7c359245aac1a6c87c1e9c57add398b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 20/37] fix: do not end a reader stream at a sample with the
 text END_OF_STREAM

---
 mixtera/core/query/result_chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 720771d..1d0fabf 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -34,7 +34,7 @@ Workloads = list[Workload]
 Sample = str | list[int]
 
 MULTIPROCESSING_TIMEOUT = 90
-END_OF_STREAM_OBJECT = "END_OF_STREAM"
+END_OF_STREAM_OBJECT = ("END_OF_STREAM",)  # Must not be equal to any sample
 
 original_start = mp.Process.start
 
-- 
2.43.0


From 9a9d5469af17374ffd47860ec530f1cae6a953d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 21/37] fix: raise an error if the connection ends between the
 size and the content of a message

---
 mixtera/network/network_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mixtera/network/network_utils.py b/mixtera/network/network_utils.py
index 869a749..b7d5cea 100644
--- a/mixtera/network/network_utils.py
+++ b/mixtera/network/network_utils.py
@@ -106,7 +106,9 @@ async def read_bytes_obj(size_bytes: int, reader: asyncio.StreamReader, timeout:
     if (obj_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
         if obj_size == 0:
             return None
-        return await read_bytes(obj_size, reader, timeout=timeout)
+        if (obj_data := await read_bytes(obj_size, reader, timeout=timeout)) is None:
+            raise ConnectionError(f"Connection closed while we still have {obj_size} bytes to read.")
+        return obj_data
     return None
 
 
@@ -158,6 +160,7 @@ async def read_utf8_string(size_bytes: int, reader: asyncio.StreamReader, timeou
     if (string_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
         if (string_data := await read_bytes(string_size, reader, timeout=timeout)) is not None:
             return string_data.decode("utf-8")
+        raise ConnectionError(f"Connection closed while we still have {string_size} bytes to read.")
     return None
 
 
@@ -210,6 +213,7 @@ async def read_pickeled_object(size_bytes: int, reader: asyncio.StreamReader) ->
     if (obj_size := await read_int(size_bytes, reader)) is not None:
         if (obj_data := await read_bytes(obj_size, reader)) is not None:
             return dill.loads(obj_data)
+        raise ConnectionError(f"Connection closed while we still have {obj_size} bytes to read.")
     return None
 
 
@@ -273,7 +277,7 @@ async def read_numpy_array(
     id_bytes: int, size_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0
 ) -> np.ndarray | None:
     not_none_flag = await read_int(id_bytes, reader, timeout=timeout)
-    if not_none_flag == 0:
+    if not_none_flag is None or not_none_flag == 0:
         return None
     result = await read_bytes_obj(size_bytes, reader, timeout=timeout)
     assert result is not None
-- 
2.43.0


From a06af16b52998cc80a5e48e3d7602fcaab7de32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 22/37] fix: require the class label of ImageNet samples

---
 mixtera/core/datacollection/index/parser/parser_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/parser_collection.py b/mixtera/core/datacollection/index/parser/parser_collection.py
index def585b..a5993ac 100644
--- a/mixtera/core/datacollection/index/parser/parser_collection.py
+++ b/mixtera/core/datacollection/index/parser/parser_collection.py
@@ -75,11 +75,11 @@ class ImagenetWebDatasetMetadataParser(MetadataParser):
         ]
 
     def parse(self, line_number: int, payload: Any, **kwargs: Optional[dict[Any, Any]]) -> None:
-        class_label = str(payload.get(".cls"))
+        class_label = payload.get(".cls")
         if class_label is None:
             raise RuntimeError("Property 'class_label' is not nullable and is missing.")
 
-        self.add_metadata(sample_id=line_number, class_label=class_label)
+        self.add_metadata(sample_id=line_number, class_label=str(class_label))
 
 
 class FineWebMetadataParser(MetadataParser):
-- 
2.43.0


From 96e2299da170a65cb892f4ecfc02d25744727b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 23/37] fix: remove the remains of a dataset that could not be
 registered

---
 .../core/datacollection/mixtera_data_collection.py  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 7f7dd4a..a43d1dc 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -152,6 +152,19 @@ class MixteraDataCollection:
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
 
+        success = False
+        try:
+            success = self._register_files(identifier, dataset_id, loc, dtype, metadata_parser_type)
+        finally:
+            if not success:
+                # Otherwise, a failed registration would leave a (partial) dataset behind that blocks its name.
+                self.remove_dataset(identifier)
+
+        return success
+
+    def _register_files(
+        self, identifier: str, dataset_id: int, loc: str, dtype: Type[Dataset], metadata_parser_type: str
+    ) -> bool:
         files = list(dtype.iterate_files(loc))
         if not files:
             logger.warning(f"No files found in {loc} for dataset {identifier}")
-- 
2.43.0


From d5426764d539fcb72041420951c2538581ad28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 24/37] fix: select everything if one of the chained selections
 has no conditions

---
 mixtera/core/query/operators/select.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mixtera/core/query/operators/select.py b/mixtera/core/query/operators/select.py
index 77ede55..3540d4e 100644
--- a/mixtera/core/query/operators/select.py
+++ b/mixtera/core/query/operators/select.py
@@ -29,6 +29,12 @@ class Select(Operator):
             sql = "SELECT * FROM samples"
         return sql, params
 
+    def _selects_everything(self) -> bool:
+        # The selections are combined by OR, so a single one without conditions is enough to select all samples
+        return not self.conditions or any(
+            child._selects_everything() for child in self.children if isinstance(child, Select)
+        )
+
     def _generate_conditions(self, schema: dict) -> tuple[str, list[Any]]:
         def process_conditions(conditions: list[Tuple[str, str, Any]]) -> tuple[list[str], list[Any]]:
             clauses = []
@@ -107,6 +113,9 @@ class Select(Operator):
                         params.append(value)
             return clauses, params
 
+        if self._selects_everything():
+            return "", []
+
         or_clauses = []
         all_params = []
 
-- 
2.43.0


From 9cf8efb01a52796ba92895b11f41d5a2bef3c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 25/37] fix: write the metadata of a cache entry after its
 results

---
 mixtera/core/query/query_cache.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index c909cc2..a255f0e 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -44,14 +44,15 @@ class QueryCache:
         db_ver = self._mdc.get_db_version()
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
-        # Save the metadata
-        meta_path = query_dir / "meta.pkl"
-        with meta_path.open("wb") as f:
-            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
-
         # Call the to_cache method on query.results to serialize it
         query.results.to_cache(query_dir)
 
+        # Save the metadata last (and atomically), because an entry with metadata is considered complete
+        tmp_meta_path = query_dir / "meta.pkl.tmp"
+        with tmp_meta_path.open("wb") as f:
+            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
+        tmp_meta_path.rename(query_dir / "meta.pkl")
+
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
 
-- 
2.43.0


From edf98892762d720a80d10bd1d1b0ac56e2bd84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 26/37] fix: do not reuse the directory of a removed cache
 entry

---
 mixtera/core/query/query_cache.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index a255f0e..03d3ff3 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -2,6 +2,7 @@ import hashlib
 import os
 import pickle
 import shutil
+import time
 from pathlib import Path
 
 from loguru import logger
@@ -32,10 +33,10 @@ class QueryCache:
         hash_dir.mkdir(exist_ok=True)
 
         existing_dirs = sorted([int(d.name) for d in hash_dir.iterdir() if d.is_dir() and d.name.isdigit()])
+        # The directory of a removed entry must not be reused, because running jobs may still refer to it
+        next_number = time.time_ns()
         if existing_dirs:
-            next_number = existing_dirs[-1] + 1
-        else:
-            next_number = 0
+            next_number = max(next_number, existing_dirs[-1] + 1)
 
         query_dir = hash_dir / str(next_number)
         query_dir.mkdir()
-- 
2.43.0


From 1cd4b5173cbb4eece825389a00132bc0247bf6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 27/37] fix: checkpoint jobs whose query is not or no longer
 cached

---
 mixtera/core/query/chunk_distributor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 4d5c088..cd2bfb9 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -383,11 +383,12 @@ class ChunkDistributor:
         directory_to_copy = None
         if self._checkpoint_id_counter.value == 1:
             logger.debug("This is the first checkpoint.")
-            if self._cached_query is not None:
+            if self._cached_query is not None and os.path.isdir(self._cached_query):
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
+                (chkpnt_dir / "queryresult").mkdir(parents=True, exist_ok=True)
                 self._query_result.to_cache(chkpnt_dir / "queryresult")
             logger.debug("Handled pickling of QueryResult.")
 
-- 
2.43.0


From 1df9a68cbd9260ff34911c697dea997000cb3462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 28/37] fix: report feedback for unknown jobs as failed to the
 client

---
 mixtera/network/server/server.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5aa9572..0b87358 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -430,9 +430,7 @@ class MixteraServer:
         feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
         feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
 
-        self._local_stub.process_feedback(job_id, feedback)
-
-        success = True
+        success = self._local_stub.process_feedback(job_id, feedback)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _dispatch_client(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From 7090b45a5e5d8ffa22cdfad97c33a8d5090bd7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 29/37] fix: do not report the status of an earlier
 registration of a job

---
 mixtera/network/server/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 0b87358..da0550e 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -86,6 +86,7 @@ class MixteraServer:
 
         query: Query = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
         logger.debug(f"Received query = {str(query)}. Launching execution task.")
+        self._query_registration.pop(query.job_id, None)  # Otherwise, the status of an earlier attempt is reported.
         asyncio.create_task(self._background_register_query(query, args))
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-- 
2.43.0


From b0b6ca0a6d1958708930ad2b6aa82fa16841fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 30/37] fix: refuse a property that is stored with another
 multiplicity

---
 mixtera/core/datacollection/mixtera_data_collection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index a43d1dc..27a0924 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -295,8 +295,12 @@ class MixteraDataCollection:
         cur = self._connection.cursor()
 
         # Fetch all existing column names once
-        cur.execute("SELECT name FROM pragma_table_info('samples');")
-        existing_columns = set(row[0] for row in cur.fetchall())
+        cur.execute("SELECT name, type FROM pragma_table_info('samples');")
+        existing_columns = {row[0]: row[1] for row in cur.fetchall()}
+        for prop in properties:
+            if prop.name in existing_columns and existing_columns[prop.name].endswith("[]") != prop.multiple:
+                # DuckDB would silently store the text form of the list (or parse the text as a list).
+                raise RuntimeError(f"Property {prop.name} is already stored with multiple = {not prop.multiple}.")
         columns_to_add = [prop for prop in properties if prop.name not in existing_columns]
 
         if columns_to_add:
-- 
2.43.0


From 2f404d690a349ba4237e07b43c276f59aaf61d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 31/37] fix: hash component keys with numeric values and leave
 the order of their values alone

---
 mixtera/core/query/mixture/mixture_key.py | 2 +-
 mixtera/utils/utils.py                    | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_key.py b/mixtera/core/query/mixture/mixture_key.py
index 9fc72a1..48789c5 100644
--- a/mixtera/core/query/mixture/mixture_key.py
+++ b/mixtera/core/query/mixture/mixture_key.py
@@ -82,7 +82,7 @@ class MixtureKey:
 
     def __str__(self) -> str:
         #  We sort the properties to ensure that the string representation is deterministic
-        return ";".join([f'{k}:{":".join([str(x) for x in sorted(v)])}' for k, v in sorted(self.properties.items())])
+        return ";".join([f'{k}:{":".join(sorted(str(x) for x in v))}' for k, v in sorted(self.properties.items())])
 
     def __repr__(self) -> str:
         return str(self)
diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index c8f258c..4b7f2f1 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -125,9 +125,8 @@ def hash_dict(d: dict[str, list[str]]) -> int:
 
     # Process each key in sorted order for deterministic hashing
     for key in sorted(d.keys()):
-        # Get and sort the list of strings associated with the key
-        value_list = d[key]
-        value_list.sort()
+        # Get and sort the values associated with the key (without reordering the list of the caller)
+        value_list = sorted(str(value) for value in d[key])
 
         # Concatenate the sorted list of strings with a separator
         concatenated_values = "\0".join(value_list)
-- 
2.43.0


From 8ac9b33335aa3e522f15d433fe40c8c23d403375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 32/37] fix: inform all mixtures of a schedule about the index

---
 mixtera/core/query/mixture/mixture_schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b8f3a0f..8067b20 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -54,12 +54,13 @@ class MixtureSchedule(Mixture):
 
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
-        Inform the current mixture about the overall chunker index.
+        Inform all mixtures of the schedule about the overall chunker index.
 
         Args:
             chunker_index: The chunker index.
         """
-        self.current_mixture.process_index(chunker_index)
+        for entry in self.schedule:
+            entry.mixture.process_index(chunker_index)
 
     @property
     def current_mixture(self) -> Mixture:
-- 
2.43.0


From 777d4c47b9747fe7f27324d4b58b6da63ae09fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 33/37] fix: recompute the rows of mixtures whose chunk size is
 adjusted

---
 mixtera/core/query/mixture/dynamic_mixture.py          |  6 +++++-
 .../core/query/mixture/hierarchical_static_mixture.py  |  5 +++++
 mixtera/core/query/mixture/mixture.py                  | 10 ++++++++++
 mixtera/core/query/mixture/mixture_schedule.py         |  7 ++++++-
 mixtera/core/query/mixture/static_mixture.py           |  5 +++++
 5 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index cc9db86..02241b5 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -33,7 +33,7 @@ class DynamicMixture(Mixture):
                 f"DynamicMixture chunk size is {chunk_size}, "
                 + f"initial_mixture chunk size is {initial_mixture.chunk_size}. Adjusting."
             )
-            initial_mixture.chunk_size = chunk_size
+            initial_mixture.adjust_chunk_size(chunk_size)
 
         self._current_mixture = initial_mixture
         self._mixing_alg = mixing_alg
@@ -53,6 +53,10 @@ class DynamicMixture(Mixture):
             }
         )
 
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        super().adjust_chunk_size(chunk_size)
+        self._current_mixture.adjust_chunk_size(chunk_size)
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._current_mixture.mixture_in_rows()
 
diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 0cb51df..b2cbbb7 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -36,8 +36,13 @@ class HierarchicalStaticMixture(Mixture):
             Component(values=["medicine"], weight=0.5)])
         """
         super().__init__(chunk_size, strict=strict)
+        self._mixture_node = mixture
         self._mixture = self.parse_mixture_node(chunk_size, mixture)
 
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        super().adjust_chunk_size(chunk_size)
+        self._mixture = self.parse_mixture_node(chunk_size, self._mixture_node)
+
     def __str__(self) -> str:
         """String representation of this mixture object."""
         return f'{{"mixture": {self._mixture}, "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 84caef4..591332a 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -29,6 +29,16 @@ class Mixture(ABC):
         """String representation of this mixture object."""
         return f'{{"mixture": "base_mixture", "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
 
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        """
+        Changes the chunk size of a mixture that becomes part of another mixture.
+        Needs to be extended by mixtures that have already calculated their rows.
+
+        Args:
+            chunk_size: the new size of a chunk in number of instances
+        """
+        self.chunk_size = chunk_size
+
     @abstractmethod
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index 8067b20..d2c431b 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -38,11 +38,16 @@ class MixtureSchedule(Mixture):
                     "The chunk size of mixture"
                     f"{idx}({entry.mixture.chunk_size}) does not match the schedule chunk size. Adjusting it."
                 )
-                entry.mixture.chunk_size = self.chunk_size
+                entry.mixture.adjust_chunk_size(self.chunk_size)
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
 
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        super().adjust_chunk_size(chunk_size)
+        for entry in self.schedule:
+            entry.mixture.adjust_chunk_size(chunk_size)
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
         Returns the mixture dictionary for the current training step.
diff --git a/mixtera/core/query/mixture/static_mixture.py b/mixtera/core/query/mixture/static_mixture.py
index 0eadf6d..32459c8 100644
--- a/mixtera/core/query/mixture/static_mixture.py
+++ b/mixtera/core/query/mixture/static_mixture.py
@@ -35,8 +35,13 @@ class StaticMixture(Mixture):
         # Renormalize to reduce deviance from 1.0 further
         mixture = {key: val / total_weight for key, val in mixture.items()}
 
+        self._weights = mixture
         self._mixture = StaticMixture.parse_user_mixture(chunk_size, mixture)
 
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        super().adjust_chunk_size(chunk_size)
+        self._mixture = StaticMixture.parse_user_mixture(chunk_size, self._weights)
+
     @staticmethod
     def parse_user_mixture(chunk_size: int, user_mixture: dict[MixtureKey, float]) -> dict[MixtureKey, int]:
         """Given a chunk size and user mixture, return an internal adjusted representation
-- 
2.43.0


From 914b6e6d5f9c3719dc7b21a9e2af63213b55171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 34/37] fix: accept reports of fewer components in ADO and of
 new ones after fitting

---
 mixtera/core/algo/ado/ado.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index cb006d6..7f13d03 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -593,6 +593,11 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
             losses: A numpy array of losses per domain.
             counts: A numpy array of counts per domain.
         """
+        # Reports may cover fewer domains than we know, all per-domain structures need to have the same length.
+        if (size_diff := max(len(self.losses), len(self.initial_mixture)) - len(losses)) > 0:
+            losses = np.concatenate([losses, np.zeros(size_diff, dtype=losses.dtype)])
+            counts = np.concatenate([counts, np.zeros(size_diff, dtype=counts.dtype)])
+
         # We first need to catch the number of internal domains, otherwise we will not trigger the following condition.
         num_incoming_domains = len(losses)
         num_internal_domains = len(self.losses)
@@ -617,6 +622,9 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
                 self.pi_bar_t_minus_1 = np.concatenate(
                     [self.pi_bar_t_minus_1, np.zeros(size_diff, dtype=self.pi_bar_t_minus_1.dtype)]
                 )
+            if self.scaling_law_params is not None:
+                # Same values as for domains with too little data to fit a scaling law.
+                self.scaling_law_params = np.concatenate([self.scaling_law_params, np.full((size_diff, 3), -1.0)])
 
         # Keep track of per-step counts and losses
         # Adjust the lengths if necessary
-- 
2.43.0


From 339a14fbed5f2f9ae57bc9da5b3fbb1f94b2c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 35/37] fix: calculate properties of compressed files

---
 .../core/processing/property_calculation/local_executor.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/processing/property_calculation/local_executor.py b/mixtera/core/processing/property_calculation/local_executor.py
index 70016c4..5916f42 100644
--- a/mixtera/core/processing/property_calculation/local_executor.py
+++ b/mixtera/core/processing/property_calculation/local_executor.py
@@ -4,6 +4,7 @@ from typing import Any, Callable, Generator, Type
 import numpy as np
 from loguru import logger
 from tqdm import tqdm
+from xopen import xopen
 
 from mixtera.core.datacollection.datasets import Dataset, JSONLDataset
 from mixtera.core.processing.property_calculation import PropertyCalculationExecutor
@@ -100,7 +101,10 @@ class LocalPropertyCalculationExecutor(PropertyCalculationExecutor):
         if not file_path.exists():
             raise RuntimeError(f"File {file_path} does not exist.")
 
-        with open(file_path, encoding="utf-8") as fp:
+        # Like the JSONLDataset, we also accept compressed files.
+        open_func = xopen if file_path.suffix in (".gz", ".zst", ".xz", ".bz2") else open
+
+        with open_func(file_path, encoding="utf-8") as fp:
             for line_id, line in enumerate(fp):
                 yield line_id, line.rstrip()
 
-- 
2.43.0


From 73c2bd4e96ec85306d76f08536c701aaad8904ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 36/37] fix: refuse parser properties with the name of the
 sample id

---
 mixtera/core/datacollection/index/parser/metadata_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/index/parser/metadata_parser.py b/mixtera/core/datacollection/index/parser/metadata_parser.py
index a7eaf67..8f2162e 100644
--- a/mixtera/core/datacollection/index/parser/metadata_parser.py
+++ b/mixtera/core/datacollection/index/parser/metadata_parser.py
@@ -31,7 +31,7 @@ class MetadataParser(ABC):
         self.file_id: int = file_id
         self.metadata: list[dict] = []
         self.property_map = {prop.name: prop for prop in self.get_properties()}
-        self._internal_keys = set(["file_id", "dataset_id"])
+        self._internal_keys = set(["file_id", "dataset_id", "sample_id"])
         for key in self.property_map.keys():
             if key in self._internal_keys:
                 raise RuntimeError(f"Property {key} is a Mixtera-internal key. It should not be in properties.")
-- 
2.43.0


From 05c40a0f1b58b6fd57a572b16bb74459f76fe445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 37/37] fix: reading in parallel must not end normally when a
 reader process died before delivering its samples

---
 mixtera/core/query/result_chunk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 1d0fabf..513c691 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -370,9 +370,9 @@ class ResultChunk:
                     instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
                 except Empty as exc:
                     if not proc.is_alive():
-                        proc.join()
-                        processes_to_remove.append((queue, proc))
-                        continue
+                        raise RuntimeError(
+                            "Reader process died before it delivered all of its samples. Something went wrong."
+                        ) from exc
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
-- 
2.43.0

