From d1a6e52d0fd1a9c93a192c59328a3108062bd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 01/55] fix: encode strings before hashing, xxhash 4 rejects
 str

xxhash is an unpinned dependency and its current major version only accepts
bytes. xxhash < 4 encoded str as UTF-8 itself, so the hash values do not change.
---
 mixtera/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index a879db4..c8f258c 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -106,7 +106,7 @@ def hash_list(string_list: list[str]) -> int:
     concatenated_string = "\0".join(string_list)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
@@ -142,7 +142,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
     concatenated_string = "\0".join(concatenated_items)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
-- 
2.43.0


From df33bd8534306236b43c0bdf81cdc9f6ddb75d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 02/55] fix: fetch query results with duckdb 2, which dropped
 fetch_arrow_table

---
 mixtera/core/query/query.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d92c269..9a55085 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -11,6 +11,13 @@ from mixtera.core.query.query_result import QueryResult
 from .mixture import Mixture
 
 
+def _fetch_arrow_table(result: Any) -> Any:
+    # duckdb 2 renamed fetch_arrow_table to to_arrow_table, older connections only have the former.
+    if hasattr(result, "to_arrow_table"):
+        return result.to_arrow_table()
+    return result.fetch_arrow_table()
+
+
 class Query:
     def __init__(self, job_id: str) -> None:
         self.query_plan = QueryPlan()
@@ -108,7 +115,7 @@ class Query:
 
         # First, we need to get the column names from the base query
         columns_query = f"SELECT * FROM ({base_query}) LIMIT 0"
-        columns = conn.execute(columns_query, parameters).fetch_arrow_table().column_names
+        columns = _fetch_arrow_table(conn.execute(columns_query, parameters)).column_names
 
         # Determine group columns (all columns except 'sample_id')
         group_cols = ["dataset_id", "file_id"] + sorted(
@@ -152,7 +159,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),
+            _fetch_arrow_table(mdc._connection.execute(full_query, parameters)),
             mixture,
             query_log_dir=query_log_dir,
         )
-- 
2.43.0


From 7eb8108f561aa0cc8a6dce086e8883b12f89b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 03/55] fix: do not loop forever when skipping exhausted keys
 of an arbitrary mixture

---
 mixtera/core/query/query_result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7686459..b82824e 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -511,11 +511,15 @@ class QueryResult:
                     self._persist_mixture_log()
 
                 chunk = None
+                skipped_keys = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
                     chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                     if chunker_index_keys_idx in empty_key_idx:
                         # Note that this can be removed but needs some adjustments in the tests (only impacts ordering)
-                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        # Stepping by two might only ever visit empty keys, so after one round we step by one.
+                        skipped_keys += 1
+                        if skipped_keys <= len(chunker_index_keys):
+                            chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                         continue
 
                     key = chunker_index_keys[chunker_index_keys_idx]
-- 
2.43.0


From c6ad934a7ffe20365ed2e48322d9a861ab782239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 04/55] fix: do not lose rows whose multi-valued properties
 differ only in the order of values

---
 mixtera/core/query/chunker/src/chunker.cpp | 41 ++++++++++++++--------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index 9af4868..55394e2 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -14,6 +14,7 @@
 #include <indicators/cursor_control.hpp>
 #include <indicators/progress_bar.hpp>
 #include <indicators/termcolor.hpp>
+#include <algorithm>
 #include <iostream>
 #include <thread>
 #include <typeinfo>
@@ -182,9 +183,8 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               FAIL(fmt::format("Invalid offset/length for LIST column '{}' at row {}", col_name, i));
             }
 
-            // Build values string
-            std::string values_str;
-            bool first_value = true;
+            // Collect the values
+            std::vector<std::string> values;
 
             const auto value_type_id = value_array->type_id();
 
@@ -202,11 +202,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                   auto str_values = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(value_array);
                   val = str_values->GetString(k);
                 }
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values.push_back(std::move(val));
               }
 
               // Handle DICTIONARY elements within the list
@@ -248,11 +244,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                    col_name, dict->type()->ToString()));
                 }
 
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values.push_back(std::move(val));
               }
 
             } else {
@@ -260,7 +252,14 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                value_array->type()->ToString()));
             }
 
-            key += values_str;
+            // The order of values does not matter for a MixtureKey, hence we use the same key for each order
+            std::sort(values.begin(), values.end());
+            for (size_t k = 0; k < values.size(); ++k) {
+              if (k > 0) {
+                key += ",";
+              }
+              key += values[k];
+            }
 
             // Handle DICTIONARY type
           } else if (type_id == arrow::Type::DICTIONARY) {
@@ -348,6 +347,19 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
   }
 }
 
+// Rows that only differ in the order of values share a key, but are not adjacent in the table
+void sort_intervals(ChunkerIndexCpp& local_chunker_index) {
+  for (auto& [key, datasets] : local_chunker_index) {
+    for (auto& [dataset_id, files] : datasets) {
+      for (auto& [file_id, intervals] : files) {
+        if (!std::is_sorted(intervals.begin(), intervals.end())) {
+          std::sort(intervals.begin(), intervals.end());
+        }
+      }
+    }
+  }
+}
+
 std::vector<std::string> fetch_property_columns(const arrow::Table& table) {
   // Pre-defined keys that are not property columns
   absl::flat_hash_set<std::string> exclude_keys = {"dataset_id", "file_id", "group_id", "interval_start",
@@ -422,6 +434,7 @@ std::vector<ChunkerIndexCpp> calc_thread_chunker_indices(py::object& py_table, u
             // After processing, release the batch
             batches[b].reset();
           }
+          sort_intervals(thread_chunker_indices[t]);
         } catch (const std::exception& e) {
           spdlog::error("Exception in thread {}: {}", t, e.what());
           {
-- 
2.43.0


From bfaeb1ea4468a14a5c9986eff0a24fad13ac7703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 05/55] fix: keep property values that contain separators of
 the native index builder intact

---
 mixtera/core/query/chunker/src/chunker.cpp | 24 +++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index 55394e2..a9ea9e3 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -23,6 +23,10 @@
 
 namespace py = pybind11;
 
+// Separators within C++ keys. These are control characters that do not show up in property values.
+constexpr char kPropertySeparator = '\x1e';
+constexpr char kValueTerminator = '\x1f';
+
 bool GetIndexValue(const std::shared_ptr<arrow::Array>& indices, int64_t position, int64_t& out_index) {
   if (position < 0 || position >= indices->length()) {
     FAIL(fmt::format("Index position out of bounds: {}", position));
@@ -130,7 +134,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
         }
 
         if (!first_prop) {
-          key += ";";
+          key += kPropertySeparator;
         }
         first_prop = false;
 
@@ -150,6 +154,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               value = str_array->GetString(i);
             }
             key += value;
+            key += kValueTerminator;
 
             // Handle LIST and LARGE_LIST types
           } else if (type_id == arrow::Type::LIST || type_id == arrow::Type::LARGE_LIST) {
@@ -254,11 +259,9 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
 
             // The order of values does not matter for a MixtureKey, hence we use the same key for each order
             std::sort(values.begin(), values.end());
-            for (size_t k = 0; k < values.size(); ++k) {
-              if (k > 0) {
-                key += ",";
-              }
-              key += values[k];
+            for (const std::string& val : values) {
+              key += val;
+              key += kValueTerminator;
             }
 
             // Handle DICTIONARY type
@@ -298,6 +301,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
             }
 
             key += value;
+            key += kValueTerminator;
 
           } else {
             FAIL(fmt::format("Unsupported array type in column '{}' at row {}. Type: {}", col_name, i,
@@ -544,11 +548,11 @@ ChunkerIndexCpp merge_chunker_indices(std::vector<ChunkerIndexCpp>* thread_chunk
 
 py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
   // Parse the C++ key string into a properties dictionary for Python
-  // Expected format: "prop1:val1,val2;prop2:val3"
+  // Expected format: "prop1:val1,val2,;prop2:val3,", where "," is kValueTerminator and ";" is kPropertySeparator
   py::dict py_properties;
   std::stringstream ss_props(key);
   std::string prop_pair;
-  while (std::getline(ss_props, prop_pair, ';')) {
+  while (std::getline(ss_props, prop_pair, kPropertySeparator)) {
     size_t colon_pos = prop_pair.find(':');
     if (colon_pos == std::string::npos) {
       continue;
@@ -556,11 +560,11 @@ py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
     std::string prop_name = prop_pair.substr(0, colon_pos);
     std::string values_str = prop_pair.substr(colon_pos + 1);
 
-    // Split values by ','
+    // Split values
     std::vector<std::string> values;
     std::stringstream ss_values(values_str);
     std::string value;
-    while (std::getline(ss_values, value, ',')) {
+    while (std::getline(ss_values, value, kValueTerminator)) {
       values.push_back(value);
     }
     py_properties[py::cast(prop_name)] = py::cast(std::move(values));
-- 
2.43.0


From 9a7760759ef296c3e5c69ed241b19face99474af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 06/55] fix: redistribute missing samples when all remaining
 keys have no share

---
 mixtera/core/query/query_result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index b82824e..72b1ce7 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -448,7 +448,11 @@ class QueryResult:
 
                                     total_mixture_size_remaining = sum(mixture[key] for key in target_keys)
 
-                                    ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    if total_mixture_size_remaining > 0:
+                                        ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    else:
+                                        # All keys that are left have been rounded to 0 samples per chunk
+                                        ratios = [1 / len(target_keys)] * len(target_keys)
 
                                     samples_to_distribute = distribute_by_ratio(num_missing_samples, ratios)
 
-- 
2.43.0


From 33949b9a87c0a4e91796b2d69a335db025ddf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 07/55] fix: do not put empty ranges of domains without share
 into a chunk, it could not be read

---
 mixtera/core/query/query_result.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 72b1ce7..b128c70 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -360,6 +360,10 @@ class QueryResult:
                     for mixture_key in sorted(remaining_sizes.keys()):
                         # logger.debug(f"Handling key {mixture_key}, remaining sizes: {remaining_sizes}")
 
+                        if remaining_sizes[mixture_key] == 0:
+                            # Requesting 0 samples would add an empty range (and thereby the key) to the chunk
+                            continue
+
                         for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):
                             # logger.debug(f"Checking component key {component_key}")
                             if mixture_key == component_key:
-- 
2.43.0


From 9499d2c6856d63d67f86fcfa3b6fe71dfd111421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 08/55] fix: consider the updated mixture when retrying to
 generate a chunk

---
 mixtera/core/query/query_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index b128c70..4135432 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -508,7 +508,8 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
-                    yield None
+                    # The caller might come back with an updated mixture
+                    base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
                     logger.debug("Obtained new None mixture.")
-- 
2.43.0


From 78ce5d4011e70c680afa91dd32571e8b787762c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 09/55] fix: count only actual chunks for the replay of
 checkpoints

---
 mixtera/core/query/query_result.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 4135432..2327ae9 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -595,7 +595,6 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            self._num_returns_gen += 1
             result = self._generator.send((self._mixture, chunk_target_index))
             if result is None:
                 # In case we reach end of chunks (for now),
@@ -606,6 +605,10 @@ class QueryResult:
                 if self.stop_on_none:
                     raise StopIteration
 
+                return result
+
+            # Only count actual chunks since we need to be able to replay them
+            self._num_returns_gen += 1
             return result
 
     # SERIALIZATION ##
-- 
2.43.0


From 530274127081756ffdcc15253337b834440708a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 10/55] fix: validate the weights of hierarchical mixtures and
 round them like static mixtures

---
 .../mixture/hierarchical_static_mixture.py    | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 0cb51df..81f9ee6 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -1,8 +1,10 @@
 from dataclasses import dataclass
+from math import isclose
 from typing import TYPE_CHECKING, List
 
 from mixtera.core.query.mixture.mixture import Mixture
 from mixtera.core.query.mixture.mixture_key import MixtureKey
+from mixtera.core.query.mixture.static_mixture import StaticMixture
 
 if TYPE_CHECKING:
     from mixtera.core.datacollection.index import ChunkerIndex
@@ -44,19 +46,18 @@ class HierarchicalStaticMixture(Mixture):
 
     def parse_mixture_node(self, chunk_size: int, user_mixture: MixtureNode) -> dict[MixtureKey, int]:
         formatted_user_mixture = self.convert_to_mixture_key_format(user_mixture)
-        for key, val in formatted_user_mixture.items():
-            assert val >= 0, "Mixture values must be non-negative."
-            assert isinstance(key, MixtureKey), "Mixture keys must be of type MixtureKey."
 
-        mixture = {key: int(chunk_size * val) for key, val in formatted_user_mixture.items()}
+        # Renormalize to reduce deviance from 1.0, and let the static mixture handle the rounding
+        total_weight = sum(formatted_user_mixture.values())
+        normalized_mixture = {key: val / total_weight for key, val in formatted_user_mixture.items()}
 
-        # Ensure approximation errors do not affect final chunk size
-        if (diff := chunk_size - sum(mixture.values())) > 0:
-            mixture[list(mixture.keys())[0]] += diff
-
-        return mixture
+        return StaticMixture.parse_user_mixture(chunk_size, normalized_mixture)
 
     def convert_to_mixture_key_format(self, mixture: MixtureNode) -> dict[MixtureKey, float]:
+        total_weight = sum(component.weight for component in mixture.components)
+        if not isclose(total_weight, 1.0, rel_tol=1e-3):
+            raise ValueError(f"The components of {mixture.property_name} sum up to {total_weight} != 1.0")
+
         mixture_keys = {}
         for component in mixture.components:
             if component.submixture is not None:
-- 
2.43.0


From 42724a63c2071c188bd95cf7f1eae5e038e90772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 11/55] fix: recalculate the rows of a mixture when its chunk
 size is adjusted

---
 mixtera/core/query/mixture/dynamic_mixture.py          |  5 +++++
 .../core/query/mixture/hierarchical_static_mixture.py  |  5 +++++
 mixtera/core/query/mixture/mixture.py                  | 10 ++++++++++
 mixtera/core/query/mixture/mixture_schedule.py         |  2 +-
 mixtera/core/query/mixture/static_mixture.py           |  8 ++++++--
 5 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index cc9db86..6e6a9c4 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -34,6 +34,7 @@ class DynamicMixture(Mixture):
                 + f"initial_mixture chunk size is {initial_mixture.chunk_size}. Adjusting."
             )
             initial_mixture.chunk_size = chunk_size
+            initial_mixture.adjust_chunk_size(chunk_size)
 
         self._current_mixture = initial_mixture
         self._mixing_alg = mixing_alg
@@ -53,6 +54,10 @@ class DynamicMixture(Mixture):
             }
         )
 
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        super().adjust_chunk_size(chunk_size)
+        self._current_mixture.adjust_chunk_size(chunk_size)
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._current_mixture.mixture_in_rows()
 
diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 81f9ee6..6f047ac 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -38,8 +38,13 @@ class HierarchicalStaticMixture(Mixture):
             Component(values=["medicine"], weight=0.5)])
         """
         super().__init__(chunk_size, strict=strict)
+        self._node = mixture
         self._mixture = self.parse_mixture_node(chunk_size, mixture)
 
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        super().adjust_chunk_size(chunk_size)
+        self._mixture = self.parse_mixture_node(chunk_size, self._node)
+
     def __str__(self) -> str:
         """String representation of this mixture object."""
         return f'{{"mixture": {self._mixture}, "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 84caef4..d93aeb3 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -29,6 +29,16 @@ class Mixture(ABC):
         """String representation of this mixture object."""
         return f'{{"mixture": "base_mixture", "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
 
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        """
+        Changes the chunk size of an existing mixture. Mixtures that store the number of rows per chunk
+        need to recalculate them.
+
+        Args:
+            chunk_size: the new size of a chunk in number of instances
+        """
+        self.chunk_size = chunk_size
+
     @abstractmethod
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b8f3a0f..68385d3 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -38,7 +38,7 @@ class MixtureSchedule(Mixture):
                     "The chunk size of mixture"
                     f"{idx}({entry.mixture.chunk_size}) does not match the schedule chunk size. Adjusting it."
                 )
-                entry.mixture.chunk_size = self.chunk_size
+                entry.mixture.adjust_chunk_size(self.chunk_size)
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
diff --git a/mixtera/core/query/mixture/static_mixture.py b/mixtera/core/query/mixture/static_mixture.py
index 0eadf6d..52eb68d 100644
--- a/mixtera/core/query/mixture/static_mixture.py
+++ b/mixtera/core/query/mixture/static_mixture.py
@@ -33,9 +33,13 @@ class StaticMixture(Mixture):
             raise ValueError(f"Your mixture sums up to {total_weight} != 1.0")
 
         # Renormalize to reduce deviance from 1.0 further
-        mixture = {key: val / total_weight for key, val in mixture.items()}
+        self._weights = {key: val / total_weight for key, val in mixture.items()}
 
-        self._mixture = StaticMixture.parse_user_mixture(chunk_size, mixture)
+        self._mixture = StaticMixture.parse_user_mixture(chunk_size, self._weights)
+
+    def adjust_chunk_size(self, chunk_size: int) -> None:
+        super().adjust_chunk_size(chunk_size)
+        self._mixture = StaticMixture.parse_user_mixture(chunk_size, self._weights)
 
     @staticmethod
     def parse_user_mixture(chunk_size: int, user_mixture: dict[MixtureKey, float]) -> dict[MixtureKey, int]:
-- 
2.43.0


From 09670a357adc966be61981b1d6702b24a7e3aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 12/55] fix: inform all entries of a mixture schedule about the
 index and honour their strictness

---
 mixtera/core/query/mixture/mixture_schedule.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index 68385d3..8c6dd4b 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -54,12 +54,24 @@ class MixtureSchedule(Mixture):
 
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
-        Inform the current mixture about the overall chunker index.
+        Inform all mixtures of the schedule about the overall chunker index.
 
         Args:
             chunker_index: The chunker index.
         """
-        self.current_mixture.process_index(chunker_index)
+        for entry in self.schedule:
+            entry.mixture.process_index(chunker_index)
+
+    @property
+    def strict(self) -> bool:
+        """
+        Whether the current mixture is strict.
+        """
+        return self.current_mixture.strict
+
+    @strict.setter
+    def strict(self, value: bool) -> None:
+        del value  # Determined by the mixtures of the schedule
 
     @property
     def current_mixture(self) -> Mixture:
-- 
2.43.0


From c7335756f2f7a12f93facf8b2b7c67d05d51f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 13/55] fix: reject objects that are not tables with an
 exception in the native index builder

---
 mixtera/core/query/chunker/src/chunker.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index a9ea9e3..1166e1a 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -382,7 +382,11 @@ std::vector<std::string> fetch_property_columns(const arrow::Table& table) {
 
 std::vector<ChunkerIndexCpp> calc_thread_chunker_indices(py::object& py_table, uint32_t num_threads) {
   arrow::py::import_pyarrow();  // Initialize Arrow C++ and Python bridges
-  std::shared_ptr<arrow::Table> table = arrow::py::unwrap_table(py_table.ptr()).ValueOrDie();
+  auto unwrapped_table = arrow::py::unwrap_table(py_table.ptr());
+  if (!unwrapped_table.ok()) {
+    FAIL(unwrapped_table.status().ToString());
+  }
+  std::shared_ptr<arrow::Table> table = unwrapped_table.MoveValueUnsafe();
 
   py::gil_scoped_release
       release;  // Release GIL for multithreading since now we do not operate on Python objects anymore
-- 
2.43.0


From 2a21f65d46b21f71bed8d7cd6faba97fdb898ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 14/55] fix: raise errors of the prefetched first item in the
 consumer instead of ending the stream

---
 mixtera/utils/prefetch_iterator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 8aae563..a1a393a 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -10,14 +10,16 @@ class PrefetchFirstItemIterator(Iterator[T]):
         self.prefetch_event = Event()
         self.first_item_consumed = False
         self.first_item: T | None = None
+        self.first_exception: BaseException | None = None
         self.prefetch_thread = Thread(target=self._prefetch)
         self.prefetch_thread.start()
 
     def _prefetch(self) -> None:
         try:
             self.first_item = next(self.iterator)
-        except StopIteration:
-            self.first_item = None
+        except BaseException as exc:  # pylint: disable=broad-exception-caught
+            # Also StopIteration. We raise it in the consuming thread.
+            self.first_exception = exc
         finally:
             self.prefetch_event.set()
 
@@ -25,9 +27,9 @@ class PrefetchFirstItemIterator(Iterator[T]):
         if not self.first_item_consumed:
             self.prefetch_event.wait()
             self.first_item_consumed = True
-            if self.first_item is not None:
-                return self.first_item
+            if self.first_exception is not None:
+                raise self.first_exception
 
-            raise StopIteration()
+            return self.first_item  # type: ignore[return-value]
 
         return next(self.iterator)
-- 
2.43.0


From 40908511b7c636aafc4bf20907189b621a971838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 15/55] fix: tokenize with transformers 5, which dropped
 batch_encode_plus

---
 mixtera/utils/tokenizing_iterator.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 5ff8a71..0b64362 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -2,6 +2,12 @@ import threading
 from typing import Any, Iterator
 
 
+def _encode_batch(tokenizer: Any, texts: list[str]) -> Any:
+    # transformers 5 dropped batch_encode_plus in favor of calling the tokenizer
+    encode = tokenizer.batch_encode_plus if hasattr(tokenizer, "batch_encode_plus") else tokenizer
+    return encode(texts, return_attention_mask=False, return_token_type_ids=False)
+
+
 class TokenizingIterator:
     def __init__(
         self,
@@ -48,11 +54,7 @@ class TokenizingIterator:
                 break
 
         if texts:
-            encoded_batch = self.tokenizer.batch_encode_plus(
-                texts,
-                return_attention_mask=False,
-                return_token_type_ids=False,
-            )
+            encoded_batch = _encode_batch(self.tokenizer, texts)
 
             if self.use_bos_token:
                 bos_id = self.tokenizer.bos_token_id
@@ -148,11 +150,7 @@ class ThreadedTokenizingIterator:
                     local_eos = True
 
             if texts:
-                encoded_batch = self.tokenizer.batch_encode_plus(
-                    texts,
-                    return_attention_mask=False,
-                    return_token_type_ids=False,
-                )
+                encoded_batch = _encode_batch(self.tokenizer, texts)
                 if self.use_bos_token:
                     bos_id = self.tokenizer.bos_token_id
                     for idx, ids in enumerate(encoded_batch["input_ids"]):
-- 
2.43.0


From 7c2fd1d0e108c306af5e2dbee535c1f259a89482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 16/55] fix: raise errors of the tokenization thread in the
 consumer instead of waiting forever

---
 mixtera/utils/tokenizing_iterator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 0b64362..b51d168 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -131,6 +131,7 @@ class ThreadedTokenizingIterator:
         self.eos = False
         self.yielded_samples = 0
 
+        self.exception: BaseException | None = None
         self.lock = threading.Lock()
         self.condition = threading.Condition(self.lock)
         self.background_thread = threading.Thread(target=self.prefetch_loop)
@@ -140,6 +141,16 @@ class ThreadedTokenizingIterator:
         return self
 
     def prefetch_loop(self) -> None:
+        try:
+            self._prefetch_all()
+        except BaseException as exc:  # pylint: disable=broad-exception-caught
+            # We raise this in the consuming thread, which otherwise waits forever.
+            with self.lock:
+                self.exception = exc
+                self.eos = True
+                self.condition.notify_all()
+
+    def _prefetch_all(self) -> None:
         while not self.eos:
             texts = []
             local_eos = False
@@ -185,6 +196,9 @@ class ThreadedTokenizingIterator:
                     return chunk
 
                 if self.eos:
+                    if self.exception is not None:
+                        raise self.exception
+
                     if self.yielded_samples == 0 and current_length > 0 and self.at_least_one_sample:
                         # Pad the remaining tokens to reach the desired length
                         needed_tokens = self.sequence_length + 1 - current_length
-- 
2.43.0


From dc19ee59e9e399515c9aab0423fff6edd33ab1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 17/55] fix: report failing reader processes and keep samples
 that equal the end-of-stream marker

---
 mixtera/core/query/result_chunk.py | 36 +++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 728d208..0f47421 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -4,6 +4,7 @@ import multiprocessing as mp
 import os
 import random
 import textwrap
+import traceback
 import typing
 from itertools import islice
 from queue import Empty
@@ -34,7 +35,16 @@ Workloads = list[Workload]
 Sample = str | list[int]
 
 MULTIPROCESSING_TIMEOUT = 90
-END_OF_STREAM_OBJECT = "END_OF_STREAM"
+
+
+class EndOfStream:
+    """Marks the end of the stream of a reader process. This is its own type since samples can be any string."""
+
+    def __init__(self, error: str | None = None) -> None:
+        self.error = error  # The error due to which the reader stopped, if any
+
+
+END_OF_STREAM_OBJECT = EndOfStream()
 
 original_start = mp.Process.start
 
@@ -371,13 +381,14 @@ class ResultChunk:
                 except Empty as exc:
                     if not proc.is_alive():
                         proc.join()
-                        processes_to_remove.append((queue, proc))
-                        continue
+                        raise RuntimeError("A reader process died before it reached the end of its data.") from exc
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
-                if instance == END_OF_STREAM_OBJECT:
+                if isinstance(instance, EndOfStream):
                     proc.join()
+                    if instance.error is not None:
+                        raise RuntimeError(f"A reader process failed:\n{instance.error}")
                     processes_to_remove.append((queue, proc))
                     continue
                 yield instance
@@ -587,12 +598,17 @@ class ResultChunk:
 
                 return
 
-            filename_dict = {file_path_dict[file_id]: ranges}
-            instance_iterator = dataset_type_dict[dataset_id].read_ranges_from_files(
-                filename_dict, parsing_func_dict[dataset_id], server_connection
-            )
-            for instance in instance_iterator:
-                queue.put(instance)
+            try:
+                filename_dict = {file_path_dict[file_id]: ranges}
+                instance_iterator = dataset_type_dict[dataset_id].read_ranges_from_files(
+                    filename_dict, parsing_func_dict[dataset_id], server_connection
+                )
+                for instance in instance_iterator:
+                    queue.put(instance)
+            except Exception:  # pylint: disable=broad-exception-caught
+                queue.put(EndOfStream(traceback.format_exc()))
+                queue.close()
+                return
 
         queue.put(END_OF_STREAM_OBJECT)
 
-- 
2.43.0


From b6c4e61a3635d89faa331f3aa40066e528015ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 18/55] fix: deliver keys whose share of a window is rounded to
 zero instead of looping forever

---
 mixtera/core/query/result_chunk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 0f47421..0f45551 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -451,6 +451,11 @@ class ResultChunk:
                 if nothing_yielded_window:
                     break
 
+            if items_yielded == 0:
+                # All remaining keys have a share that is rounded to zero samples per window.
+                # In the best effort case we still need to deliver their samples (and reach their end).
+                element_counts = [(key, max(count, 1)) for key, count in element_counts]
+
     def _iterate_overall_mixture(
         self, active_iterators: dict[MixtureKey, Iterator[Sample]]
     ) -> Iterator[tuple[int, Sample]]:
-- 
2.43.0


From 38ea7805e63578abc3c7420eb7bbec60ac3ada67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 19/55] fix: raise an error when a file has fewer samples than
 were registered

---
 mixtera/core/datacollection/datasets/jsonl_dataset.py   | 8 ++++++--
 mixtera/core/datacollection/datasets/parquet_dataset.py | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/datasets/jsonl_dataset.py b/mixtera/core/datacollection/datasets/jsonl_dataset.py
index 30d5388..220ae74 100644
--- a/mixtera/core/datacollection/datasets/jsonl_dataset.py
+++ b/mixtera/core/datacollection/datasets/jsonl_dataset.py
@@ -69,8 +69,12 @@ class JSONLDataset(Dataset):
                     last_line_read = r_start
 
                 # Yield the lines in the current range
-                yield from (parsing_func(line) for line in itertools.islice(text_file, r_end - r_start))
-                last_line_read = r_end
+                for line in itertools.islice(text_file, r_end - r_start):
+                    yield parsing_func(line)
+                    last_line_read += 1
+
+                if last_line_read < r_end:
+                    raise RuntimeError(f"File {file} has no line {last_line_read}, but range [{r_start}, {r_end}) needs it.")
 
     @staticmethod
     def _is_valid_jsonl(path: str) -> bool:
diff --git a/mixtera/core/datacollection/datasets/parquet_dataset.py b/mixtera/core/datacollection/datasets/parquet_dataset.py
index efbf26a..71f418d 100644
--- a/mixtera/core/datacollection/datasets/parquet_dataset.py
+++ b/mixtera/core/datacollection/datasets/parquet_dataset.py
@@ -65,6 +65,10 @@ class ParquetDataset(Dataset):
                 row_group_offsets.append((current_row, current_row + num_rows))
                 current_row += num_rows
 
+            last_row_required = max((r_end for _, r_end in range_list), default=0)
+            if 0 < current_row < last_row_required:  # Files without any row are read as empty
+                raise RuntimeError(f"File {file} has {current_row} rows, but {last_row_required} rows are required.")
+
             # Map ranges to row groups
             # Create a mapping from row group index to list of (start_row, end_row) tuples
 
-- 
2.43.0


From 069d100dc3cb9d00b7d3f841e4d26cebc036dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 20/55] fix: allow further checkpoints after one has been
 refused

---
 mixtera/core/query/chunk_distributor.py | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b0be975..5fbeede 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -276,18 +276,20 @@ class ChunkDistributor:
             self._nodes_reported.add(key)
 
             if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:
-                # All nodes have reported; proceed to validation and checkpointing
-                worker_sample_ids = self._validate_checkpoint_state()
-
-                # Start checkpointing process
-                # By having this in the lock,
-                # we ensure we finish the checkpoint in-memory copy first before handling the next request.
-                self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
-
-                # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
-                self._worker_statuses = {}
-                self._nodes_reported = set()
-                self._current_checkpoint_id = None
+                try:
+                    # All nodes have reported; proceed to validation and checkpointing
+                    worker_sample_ids = self._validate_checkpoint_state()
+
+                    # Start checkpointing process
+                    # By having this in the lock,
+                    # we ensure we finish the checkpoint in-memory copy first before handling the next request.
+                    self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+                finally:
+                    # Reset for next checkpoint (also if this one has been refused),
+                    # afterwards release the lock, allowing potentially for the next request.
+                    self._worker_statuses = {}
+                    self._nodes_reported = set()
+                    self._current_checkpoint_id = None
 
         return checkpoint_id
 
-- 
2.43.0


From 7195cabe1e925b6b6d4fb9f3e3a5f71c7cbb05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 21/55] fix: persist the query result with the first checkpoint
 that is accepted

---
 mixtera/core/query/chunk_distributor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 5fbeede..b2f49b5 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -88,6 +88,7 @@ class ChunkDistributor:
         self._checkpoint_info: dict[str, dict[str, Any]] = {}  # Info for each checkpoint process on its status
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
+        self._query_result_persisted = False  # Whether a previous checkpoint takes care of persisting the QueryResult
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -377,7 +378,7 @@ class ChunkDistributor:
         # the QueryResult will be pickled when we start another process.
         # This means we cannot store the result in another process - the expensive operation is the pickling.
         directory_to_copy = None
-        if self._checkpoint_id_counter.value == 1:
+        if not self._query_result_persisted:
             logger.debug("This is the first checkpoint.")
             if self._cached_query is not None:
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
@@ -429,6 +430,7 @@ class ChunkDistributor:
         )
         self._checkpoint_info[checkpoint_id]["process"] = p
         p.start()
+        self._query_result_persisted = True
 
     @staticmethod
     def _persist_checkpoint_process(
@@ -628,6 +630,7 @@ class ChunkDistributor:
         chunk_distributor._worker_statuses = {}
         chunk_distributor._nodes_reported = set()
         chunk_distributor._checkpoint_id_counter.value = state["_checkpoint_id_counter"]
+        chunk_distributor._query_result_persisted = True
 
         # Update the _checkpoint_id_counter.value to avoid overwriting existing checkpoints
         checkpoint_dirs = chkpnt_dir.parent.glob("chkpnt_*")
-- 
2.43.0


From 81f1a9ac4102f1d13a798e84a0224906d5a94f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 22/55] fix: keep the position of restored chunks in further
 checkpoints

---
 mixtera/core/query/chunk_distributor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b2f49b5..6ba11f8 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -483,21 +483,24 @@ class ChunkDistributor:
                         next_chunk = (
                             state_to_save["next_chunk"][dp_group][node][worker_id] - state_to_save["_num_workers"]
                         )
-                        if next_chunk >= 0:
+                        if next_chunk in state_to_save["chunk_cache"][dp_group]:
                             state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk
                             state_to_save["chunk_usage"][dp_group][next_chunk] = 0
                             chunk = state_to_save["chunk_cache"][dp_group][next_chunk]
                             is_serialized = isinstance(chunk, SerializedResultChunk)
                             if is_serialized:
                                 chunk = dill.loads(chunk)
-                            chunk._samples_to_skip = worker_sample_ids[(dp_group, worker_id)]
+                            # A restored chunk is already partly consumed even if no sample has been reported since.
+                            chunk._samples_to_skip = max(
+                                chunk._samples_to_skip, worker_sample_ids[(dp_group, worker_id)]
+                            )
                             chunk = dill.dumps(chunk) if is_serialized else chunk
                             state_to_save["chunk_cache"][dp_group][next_chunk] = chunk
                         else:
                             logger.debug(
                                 f"For dp={dp_group}, node={node}, w={worker_id}, next_chunk = {next_chunk}"
-                                + "\nLikely, the checkpoint is created before all workers have requested a chunk"
-                                + "- otherwise this indicates an error..."
+                                + "\nThe checkpoint is created before the worker has requested a chunk"
+                                + " (or before it has requested its current chunk again after a restore)."
                             )
 
             logger.info("Checkpointing the state (without QueryResult).")
-- 
2.43.0


From db29255dc07600f5346f837f11bddfa9f202749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 23/55] fix: allow checkpoints of restored local jobs without
 data loader workers

---
 mixtera/core/query/chunk_distributor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 6ba11f8..2b31e03 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -370,6 +370,7 @@ class ChunkDistributor:
             "next_chunk": deepcopy(self._next_chunk),
             "_dp_groups": self._dp_groups,
             "_num_workers": self._num_workers,
+            "_og_num_workers": self._og_num_workers,
             "_nodes_per_group": self._nodes_per_group,
             "_checkpoint_id_counter": self._checkpoint_id_counter.value,
         }
@@ -617,7 +618,7 @@ class ChunkDistributor:
         chunk_distributor = cls(
             dp_groups=state["_dp_groups"],
             nodes_per_group=state["_nodes_per_group"],
-            num_workers=state["_num_workers"],
+            num_workers=state.get("_og_num_workers", state["_num_workers"]),
             query_result=query_result,
             job_id=job_id,
         )
-- 
2.43.0


From 751b4677e99635a4ef76b82ebfbcb2b73b3f5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 24/55] fix: continue with the current mixture and domain ids
 after restoring a checkpoint

---
 mixtera/core/query/chunk_distributor.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 2b31e03..e067a16 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -412,6 +412,11 @@ class ChunkDistributor:
 
         returns_gen = self._query_result._num_returns_gen
 
+        # The mixture log only contains mixtures as of the chunk they came into force at. The current mixture
+        # might have been updated since then (or not been used at all), and its ids depend on previous mixtures.
+        mixture = deepcopy(self._query_result._mixture)
+        key_id_map = deepcopy(self._query_result._key_id_map)
+
         logger.debug("Spinning up the persisting process.")
 
         self._checkpoint_info[checkpoint_id]["process"] = None
@@ -427,6 +432,8 @@ class ChunkDistributor:
                 returns_gen,
                 worker_sample_ids,
                 directory_to_copy,
+                mixture,
+                key_id_map,
             ),
         )
         self._checkpoint_info[checkpoint_id]["process"] = p
@@ -442,6 +449,8 @@ class ChunkDistributor:
         num_returns_gen: int,
         worker_sample_ids: dict[tuple[int, int], int],
         directory_to_copy: Path | None,
+        mixture: Any,
+        key_id_map: dict[Any, int],
     ) -> None:
         """
         Persist the checkpoint to disk in a separate process.
@@ -455,6 +464,8 @@ class ChunkDistributor:
             state_to_save (dict[str, Any]): The state dictionary to save.
             query_result_copy (QueryResult): The QueryResult to save.
             worker_sample_ids (dict[tuple[int, int], int]): Mapping of worker sample indices per worker.
+            mixture (Mixture): The mixture to continue with.
+            key_id_map (dict[MixtureKey, int]): The ids of the domains handed out so far.
 
         Raises:
             Exception: If an error occurs during checkpointing.
@@ -511,7 +522,14 @@ class ChunkDistributor:
             logger.info(f"Checkpointing the mixture log and num returns with num returns = {num_returns_gen}")
             with open(checkpoint_path / "query_result_state.pkl", "wb") as f:
                 dill.dump(
-                    {"num_returns_gen": num_returns_gen, "mixture_log": mixture_log}, f, protocol=dill.HIGHEST_PROTOCOL
+                    {
+                        "num_returns_gen": num_returns_gen,
+                        "mixture_log": mixture_log,
+                        "mixture": mixture,
+                        "key_id_map": key_id_map,
+                    },
+                    f,
+                    protocol=dill.HIGHEST_PROTOCOL,
                 )
 
             logger.debug("Wrote checkpoint.")
@@ -611,7 +629,11 @@ class ChunkDistributor:
         query_result._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
+        if "key_id_map" in query_result_state:
+            query_result._key_id_map = query_result_state["key_id_map"]
         query_result.replay(query_result_state["num_returns_gen"])
+        if "mixture" in query_result_state:
+            query_result.update_mixture(query_result_state["mixture"])
 
         logger.debug("Instantiating class.")
 
-- 
2.43.0


From 2512a37da54d0a8537d7e67999d01135caa4ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 25/55] fix: let further checkpoints wait until the first one
 has persisted the query result

---
 mixtera/core/query/chunk_distributor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index e067a16..80c0889 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -89,6 +89,7 @@ class ChunkDistributor:
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
         self._query_result_persisted = False  # Whether a previous checkpoint takes care of persisting the QueryResult
+        self._query_result_process: mp.Process | None = None  # The process of that checkpoint
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -437,8 +438,15 @@ class ChunkDistributor:
             ),
         )
         self._checkpoint_info[checkpoint_id]["process"] = p
+        if self._query_result_process is not None:
+            # All further checkpoints rely on the QueryResult that the first one persists.
+            self._query_result_process.join()
+
         p.start()
-        self._query_result_persisted = True
+
+        if not self._query_result_persisted:
+            self._query_result_persisted = True
+            self._query_result_process = p
 
     @staticmethod
     def _persist_checkpoint_process(
-- 
2.43.0


From 4974e3e41afc8ac454627f8d403099dc39fce6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 26/55] fix: do not copy replaced or removed cache entries for
 the first checkpoint

---
 mixtera/core/query/chunk_distributor.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 80c0889..7f3251b 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -88,6 +88,7 @@ class ChunkDistributor:
         self._checkpoint_info: dict[str, dict[str, Any]] = {}  # Info for each checkpoint process on its status
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
+        self._cached_query_meta = self._read_cache_meta(cached_query)
         self._query_result_persisted = False  # Whether a previous checkpoint takes care of persisting the QueryResult
         self._query_result_process: mp.Process | None = None  # The process of that checkpoint
 
@@ -382,11 +383,17 @@ class ChunkDistributor:
         directory_to_copy = None
         if not self._query_result_persisted:
             logger.debug("This is the first checkpoint.")
-            if self._cached_query is not None:
+            if (
+                self._cached_query is not None
+                and self._cached_query.exists()
+                # The entry might have been replaced with results on an updated collection
+                and self._read_cache_meta(self._cached_query) == self._cached_query_meta
+            ):
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
                 directory_to_copy = self._cached_query
             else:
-                logger.debug("Query has not been cached - pickling now. This may take some time.")
+                logger.debug("Query is not cached (anymore) - pickling now. This may take some time.")
+                (chkpnt_dir / "queryresult").mkdir(parents=True)
                 self._query_result.to_cache(chkpnt_dir / "queryresult")
             logger.debug("Handled pickling of QueryResult.")
 
@@ -448,6 +455,15 @@ class ChunkDistributor:
             self._query_result_persisted = True
             self._query_result_process = p
 
+    @staticmethod
+    def _read_cache_meta(cached_query: Path | None) -> bytes | None:
+        """
+        Returns the metadata that identifies an entry of the query cache, if there is any.
+        """
+        if cached_query is None or not (cached_query / "meta.pkl").exists():
+            return None
+        return (cached_query / "meta.pkl").read_bytes()
+
     @staticmethod
     def _persist_checkpoint_process(
         checkpoint_id: str,
-- 
2.43.0


From 0a2b96f2102dac55dd4df5d6027d7ad838f25a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 27/55] fix: do not use query cache entries whose writing was
 interrupted

---
 mixtera/core/query/query_cache.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index c909cc2..9180ec0 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -44,14 +44,16 @@ class QueryCache:
         db_ver = self._mdc.get_db_version()
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
-        # Save the metadata
-        meta_path = query_dir / "meta.pkl"
-        with meta_path.open("wb") as f:
-            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
-
         # Call the to_cache method on query.results to serialize it
         query.results.to_cache(query_dir)
 
+        # Save the metadata last, such that an incomplete entry (e.g., due to a crash) is not used
+        meta_path = query_dir / "meta.pkl"
+        tmp_meta_path = query_dir / "meta.pkl.tmp"
+        with tmp_meta_path.open("wb") as f:
+            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
+        tmp_meta_path.replace(meta_path)
+
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
 
-- 
2.43.0


From a7c4c17747739a630f12ad2d51f22a0ce3de746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 28/55] fix: do not give different domains the same hash when
 their values contain separators

---
 mixtera/utils/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index c8f258c..4039179 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -123,6 +123,10 @@ def hash_dict(d: dict[str, list[str]]) -> int:
     """
     concatenated_items = []
 
+    def escape(string: str) -> str:
+        # Keys and values may contain the separators, without escaping different dictionaries have the same hash
+        return string.replace("\\", "\\\\").replace(":", "\\:").replace("\0", "\\0")
+
     # Process each key in sorted order for deterministic hashing
     for key in sorted(d.keys()):
         # Get and sort the list of strings associated with the key
@@ -130,10 +134,10 @@ def hash_dict(d: dict[str, list[str]]) -> int:
         value_list.sort()
 
         # Concatenate the sorted list of strings with a separator
-        concatenated_values = "\0".join(value_list)
+        concatenated_values = "\0".join(escape(value) for value in value_list)
 
         # Create a string representation of the key-value pair
-        concatenated_item = f"{key}:{concatenated_values}"
+        concatenated_item = f"{escape(key)}:{concatenated_values}"
 
         # Add to the list of concatenated items
         concatenated_items.append(concatenated_item)
-- 
2.43.0


From e5c4632cee9d6b922e2bd81f8f280d4675e7af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 29/55] fix: let datasets be registered while queries execute
 on the same collection

---
 .../datacollection/mixtera_data_collection.py | 37 ++++++++++---------
 mixtera/core/query/query.py                   |  5 ++-
 mixtera/network/server/server.py              | 18 +++++----
 3 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 7f7dd4a..f25080c 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -1,4 +1,5 @@
 import os
+import time
 from multiprocessing import Pool
 from pathlib import Path
 from typing import Any, Callable, List, Type
@@ -122,7 +123,7 @@ class MixteraDataCollection:
 
     def _vacuum(self) -> None:
         logger.info("Vacuuming the DuckDB.")
-        self._connection.execute("VACUUM")
+        self._connection.cursor().execute("VACUUM")
         logger.info("Vacuumd.")
 
     def get_db_version(self) -> int:
@@ -135,11 +136,16 @@ class MixteraDataCollection:
 
     def _db_incr_version(self) -> None:
         assert self._connection, "Not connected to db!"
-        current_version = self.get_db_version()
         cur = self._connection.cursor()
-        new_version = current_version + 1
-        cur.execute("UPDATE version SET version_number = ? WHERE id = 1", (new_version,))
-        self._connection.commit()
+        for attempt in range(10):
+            try:
+                cur.execute("UPDATE version SET version_number = version_number + 1 WHERE id = 1")
+                break
+            except duckdb.TransactionException:
+                # Another thread is updating the version at this moment
+                if attempt == 9:
+                    raise
+                time.sleep(0.01)
 
     def register_dataset(
         self,
@@ -227,7 +233,6 @@ class MixteraDataCollection:
             query = "INSERT INTO datasets (name, location, type, parsing_func) VALUES (?, ?, ?, ?) RETURNING id;"
             cur = self._connection.cursor()
             result = cur.execute(query, (identifier, loc, type_id, serialized_parsing_func)).fetchone()
-            self._connection.commit()
 
             if result is None:
                 logger.error("result is None without any DuckDB error. This should not happen.")
@@ -250,7 +255,9 @@ class MixteraDataCollection:
         df_files = pl.DataFrame(
             [(dataset_id, str(loc)) for loc in locs], schema=["dataset_id", "location"], orient="row"
         )
-        self._connection.register("df_files", df_files)
+        # DuckDB refuses concurrent calls on one connection, hence we use one of our own for longer operations
+        conn = self._connection.cursor()
+        conn.register("df_files", df_files)
         logger.info(f"Inserting {len(locs)} files for dataset id = {dataset_id}")
 
         try:
@@ -260,7 +267,7 @@ class MixteraDataCollection:
             SELECT dataset_id, location FROM df_files
             RETURNING id, location;
             """
-            result = self._connection.execute(insert_query).fetchall()
+            result = conn.execute(insert_query).fetchall()
 
             # Create a mapping from location to id
             id_map = {loc: fid for fid, loc in result}
@@ -272,9 +279,8 @@ class MixteraDataCollection:
             logger.error(f"DuckDB error during insertion of files: {err}")
             return []
         finally:
-            self._connection.unregister("df_files")
+            conn.unregister("df_files")
 
-        self._connection.commit()
         self._db_incr_version()
         return file_ids
 
@@ -316,8 +322,6 @@ class MixteraDataCollection:
                 alter_query = f"ALTER TABLE samples ADD COLUMN {prop.name} {column_type} {nullable_str};"
                 cur.execute(alter_query)
 
-            self._connection.commit()
-
     def _insert_samples_with_metadata(
         self, dataset_id: int, results: list[tuple[int, list[dict]]], properties: list[MetadataProperty]
     ) -> None:
@@ -369,16 +373,16 @@ class MixteraDataCollection:
         # It is important to specify the columns in the insertion query
         # Otherwise we do not guarantee that the values silently land in a different column.
         columns = ", ".join(all_columns)
+        conn = self._connection.cursor()
         try:
-            self._connection.register("samples_data", table)
-            self._connection.execute(f"INSERT INTO samples ({columns}) SELECT {columns} FROM samples_data")
-            self._connection.commit()
+            conn.register("samples_data", table)
+            conn.execute(f"INSERT INTO samples ({columns}) SELECT {columns} FROM samples_data")
             logger.debug("Data inserted successfully.")
         except Exception as e:
             logger.error(f"Error during data insertion using PyArrow Table: {e}")
             raise
         finally:
-            self._connection.unregister("samples_data")
+            conn.unregister("samples_data")
 
     def check_dataset_exists(self, identifier: str) -> bool:
         try:
@@ -432,7 +436,6 @@ class MixteraDataCollection:
 
             delete_dataset_query = "DELETE FROM datasets WHERE name = ?;"
             cur.execute(delete_dataset_query, (identifier,))
-            self._connection.commit()
             self._db_incr_version()
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during deletion: {err}")
diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index 9a55085..43d298f 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -86,7 +86,8 @@ class Query:
             mixture_log: A path where the mixture over time should be logged
         """
         logger.debug(f"Executing query locally with chunk size {mixture.chunk_size}")
-        conn = mdc._connection
+        # A connection of our own, since DuckDB refuses concurrent calls (e.g., of a dataset registration) on one connection
+        conn = mdc._connection.cursor()
 
         # -- BEGIN INNER SELECTION QUERY GENERATION  -- #
         # Fetch the table schema
@@ -159,7 +160,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            _fetch_arrow_table(mdc._connection.execute(full_query, parameters)),
+            _fetch_arrow_table(conn.execute(full_query, parameters)),
             mixture,
             query_log_dir=query_log_dir,
         )
diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5aa9572..75af82b 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -55,6 +55,7 @@ class MixteraServer:
         self._chunk_distributor_map: dict[str, ChunkDistributor] = {}
         self._chunk_distributor_map_lock = asyncio.Lock()
         self._register_query_lock = asyncio.Lock()
+        self._register_dataset_lock = asyncio.Lock()
         self._dataset_registration: dict[str, bool] = {}
         self._query_registration: dict[str, bool] = {}
 
@@ -195,14 +196,15 @@ class MixteraServer:
         parsing_func: typing.Callable[[str], str],
         metadata_parser_identifier: str,
     ) -> None:
-        try:
-            success = await asyncio.to_thread(
-                self._local_stub.register_dataset, identifier, loc, dtype, parsing_func, metadata_parser_identifier
-            )
-            self._dataset_registration[job_id] = success
-        except Exception:  # pylint: disable=broad-exception-caught
-            logger.error(f"Background dataset registration failed: {traceback.format_exc()}")
-            self._dataset_registration[job_id] = False
+        async with self._register_dataset_lock:
+            try:
+                success = await asyncio.to_thread(
+                    self._local_stub.register_dataset, identifier, loc, dtype, parsing_func, metadata_parser_identifier
+                )
+                self._dataset_registration[job_id] = success
+            except Exception:  # pylint: disable=broad-exception-caught
+                logger.error(f"Background dataset registration failed: {traceback.format_exc()}")
+                self._dataset_registration[job_id] = False
 
     async def _check_dataset_registration(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-- 
2.43.0


From 9510a5f5b158017bf3577223bfa2f84be1d3b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 30/55] fix: report to remote clients whether feedback was
 accepted

---
 mixtera/network/server/server.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 75af82b..3c46efe 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -432,9 +432,8 @@ class MixteraServer:
         feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
         feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
 
-        self._local_stub.process_feedback(job_id, feedback)
+        success = self._local_stub.process_feedback(job_id, feedback)
 
-        success = True
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _dispatch_client(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From 44782d943c7b16b4d964883c3824f7a46c6edc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 31/55] fix: do not end result streams silently if the server
 fails or cannot be reached

---
 mixtera/network/connection/server_connection.py |  7 +++++--
 mixtera/network/network_utils.py                | 11 +++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 27d1435..7dccca5 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -223,12 +223,15 @@ class ServerConnection:
 
         Returns:
             An ResultChunk object representing the next result chunk,
-            or None if there are no more results or the connection fails.
+            or None if there are no more results.
+
+        Raises:
+            ConnectionError: If the connection fails, as opposed to there being no more results.
         """
         async with self._connect_to_server() as (reader, writer):
 
             if reader is None or writer is None:
-                return None
+                raise ConnectionError(f"Could not connect to the server to get the next result of job {job_id}.")
 
             # Announce we want to get a result chunk
             await write_int(int(ServerTask.GET_NEXT_RESULT_CHUNK), NUM_BYTES_FOR_IDENTIFIERS, writer)
diff --git a/mixtera/network/network_utils.py b/mixtera/network/network_utils.py
index 869a749..83983c0 100644
--- a/mixtera/network/network_utils.py
+++ b/mixtera/network/network_utils.py
@@ -93,10 +93,10 @@ async def read_bytes_obj(size_bytes: int, reader: asyncio.StreamReader, timeout:
         reader (asyncio.StreamReader): The stream reader to read the data from.
 
     Returns:
-        bytes | None: The read bytes object, or None if the size header indicated zero length
-                      or if an error occurred during reading.
+        bytes | None: The read bytes object, or None if the size header indicated zero length.
 
     Raises:
+        ConnectionError: If the connection is closed before the object has been received.
         asyncio.TimeoutError: If a timeout occurs while reading (inherited from read_int and read_bytes).
 
     Note:
@@ -106,8 +106,11 @@ async def read_bytes_obj(size_bytes: int, reader: asyncio.StreamReader, timeout:
     if (obj_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
         if obj_size == 0:
             return None
-        return await read_bytes(obj_size, reader, timeout=timeout)
-    return None
+        if (data := await read_bytes(obj_size, reader, timeout=timeout)) is not None:
+            return data
+
+    # We must not confuse this with a None that has been sent
+    raise ConnectionError("Connection closed before an object has been received.")
 
 
 async def read_int(num_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0) -> Optional[int]:
-- 
2.43.0


From df67e2b7c9b15000f68c68239b2c811b25f2bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 32/55] fix: keep serving other clients while one asks for a
 job that does not exist

---
 mixtera/core/client/local/local_stub.py | 13 ++++++---
 mixtera/network/server/server.py        | 36 ++++++++++++++++++++-----
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 442476f..eb58c6e 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -18,6 +18,10 @@ from mixtera.network.client.client_feedback import ClientFeedback
 from mixtera.utils import wait_for_key_in_dict
 
 
+class UnknownJobError(RuntimeError):
+    pass
+
+
 class LocalStub(MixteraClient):
     def __init__(self, directory: Path | str) -> None:
         super().__init__()
@@ -39,6 +43,7 @@ class LocalStub(MixteraClient):
         self._training_query_map_lock = mp.Lock()
         self._training_query_map: dict[str, tuple[ChunkDistributor, Query, Mixture]] = {}  # (query, mixture_object)
         self._query_cache = QueryCache(self.directory / "querycache", self._mdc)
+        self._job_timeout = 60.0  # How many seconds we wait for a job that has not been registered yet
 
     def register_dataset(
         self,
@@ -172,13 +177,13 @@ class LocalStub(MixteraClient):
         return True
 
     def _get_query_result(self, job_id: str) -> QueryResult:
-        if not wait_for_key_in_dict(self._training_query_map, job_id, 60.0):
-            raise RuntimeError(f"Unknown job {job_id}")
+        if not wait_for_key_in_dict(self._training_query_map, job_id, self._job_timeout):
+            raise UnknownJobError(f"Unknown job {job_id}")
         return self._training_query_map[job_id][0]._query_result
 
     def _get_query_chunk_distributor(self, job_id: str) -> ChunkDistributor:
-        if not wait_for_key_in_dict(self._training_query_map, job_id, 60.0):
-            raise RuntimeError(f"Unknown job {job_id}")
+        if not wait_for_key_in_dict(self._training_query_map, job_id, self._job_timeout):
+            raise UnknownJobError(f"Unknown job {job_id}")
         return self._training_query_map[job_id][0]
 
     def checkpoint(
diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 3c46efe..430dded 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -2,6 +2,7 @@ import asyncio
 import importlib
 import socket
 import sys
+import time
 import traceback
 import typing
 import uuid
@@ -10,6 +11,7 @@ from pathlib import Path
 from loguru import logger
 
 from mixtera.core.client.local import LocalStub
+from mixtera.core.client.local.local_stub import UnknownJobError
 from mixtera.core.client.mixtera_client import QueryExecutionArgs
 from mixtera.core.datacollection.datasets.dataset import Dataset
 from mixtera.core.datacollection.index.parser.metadata_parser import MetadataParser, MetadataProperty
@@ -52,6 +54,7 @@ class MixteraServer:
         self._port = port
         self._directory = directory
         self._local_stub: LocalStub = LocalStub(self._directory)
+        self._local_stub._job_timeout = -1.0  # Waiting in the local stub would block all clients, see _once_job_exists
         self._chunk_distributor_map: dict[str, ChunkDistributor] = {}
         self._chunk_distributor_map_lock = asyncio.Lock()
         self._register_query_lock = asyncio.Lock()
@@ -102,6 +105,22 @@ class MixteraServer:
                 logger.error(f"Background query registration failed: {traceback.format_exc()}")
                 self._query_registration[query.job_id] = False
 
+    async def _once_job_exists(
+        self, func: typing.Callable, job_id: str, *args: typing.Any, **kwargs: typing.Any
+    ) -> typing.Any:
+        """
+        Calls a function of the local stub for a job. If the job is not registered (yet),
+        this waits for it for up to a minute, while the server keeps serving other clients.
+        """
+        timeout_at = time.monotonic() + 60.0
+        while True:
+            try:
+                return func(job_id, *args, **kwargs)
+            except UnknownJobError:
+                if time.monotonic() >= timeout_at:
+                    raise
+                await asyncio.sleep(0.1)
+
     async def _read_file(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
         Reads a file from the server's file system and sends its contents to the client.
@@ -133,9 +152,10 @@ class MixteraServer:
         node_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         worker_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
-        async with self._chunk_distributor_map_lock:
-            if job_id not in self._chunk_distributor_map:
-                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)
+        if job_id not in self._chunk_distributor_map:
+            distributor = await self._once_job_exists(self._local_stub._get_query_chunk_distributor, job_id)
+            async with self._chunk_distributor_map_lock:
+                self._chunk_distributor_map.setdefault(job_id, distributor)
 
         next_chunk = None
         try:
@@ -154,7 +174,9 @@ class MixteraServer:
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        dataset_dict, parsing_dict, file_path_dict = self._local_stub._get_result_metadata(job_id)
+        dataset_dict, parsing_dict, file_path_dict = await self._once_job_exists(
+            self._local_stub._get_result_metadata, job_id
+        )
 
         meta = {
             "dataset_type": dataset_dict,
@@ -370,7 +392,9 @@ class MixteraServer:
             status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
             worker_status.append(status)
 
-        chkpnt_id = self._local_stub.checkpoint(job_id, dp_group_id, node_id, worker_status, server=True)
+        chkpnt_id = await self._once_job_exists(
+            self._local_stub.checkpoint, job_id, dp_group_id, node_id, worker_status, server=True
+        )
 
         await write_utf8_string(chkpnt_id, NUM_BYTES_FOR_SIZES, writer)
 
@@ -382,7 +406,7 @@ class MixteraServer:
         on_disk_flag = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         on_disk = bool(on_disk_flag)
 
-        is_completed = self._local_stub.checkpoint_completed(job_id, chkpnt_id, on_disk)
+        is_completed = await self._once_job_exists(self._local_stub.checkpoint_completed, job_id, chkpnt_id, on_disk)
 
         await write_int(int(is_completed), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-- 
2.43.0


From 577dd7e7e8d0d727dc6765edcfbdca8d63b8da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 33/55] fix: executing a job again over the network neither
 hides a running job nor reports an old failure

---
 mixtera/network/server/server.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 430dded..d39da9e 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -60,7 +60,7 @@ class MixteraServer:
         self._register_query_lock = asyncio.Lock()
         self._register_dataset_lock = asyncio.Lock()
         self._dataset_registration: dict[str, bool] = {}
-        self._query_registration: dict[str, bool] = {}
+        self._query_registration: dict[str, bool | None] = {}  # None while in progress
 
     async def _register_query(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
@@ -89,7 +89,14 @@ class MixteraServer:
         )
 
         query: Query = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
+        if self._query_registration.get(query.job_id, False) is not False:
+            # As for a local stub, a job that exists (or is being set up) is not executed again, and stays as it is.
+            logger.warning(f"We already have a query for job {query.job_id}!")
+            await write_utf8_string("", NUM_BYTES_FOR_IDENTIFIERS, writer)
+            return
+
         logger.debug(f"Received query = {str(query)}. Launching execution task.")
+        self._query_registration[query.job_id] = None  # Otherwise, the result of a previous attempt is reported.
         asyncio.create_task(self._background_register_query(query, args))
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
@@ -414,7 +421,7 @@ class MixteraServer:
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
         chkpnt_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
-        self._query_registration.pop(job_id, None)  # Otherwise, we immediately return True.
+        self._query_registration[job_id] = None  # Otherwise, we immediately return True.
 
         asyncio.create_task(self._background_restore_checkpoint(job_id, chkpnt_id))
         await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
-- 
2.43.0


From 335eac7f797587f2794f89afe253f89d327dcbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 34/55] fix: ignore the status of nodes that do not exist when
 checkpointing

---
 mixtera/core/query/chunk_distributor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 7f3251b..af7296e 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -259,6 +259,9 @@ class ChunkDistributor:
             # Should not happen, let's catch it anyways.
             raise RuntimeError("We forked - this could happen when calling this inside a dataloader worker.")
 
+        if not (0 <= dp_group_id < self._dp_groups and 0 <= node_id < self._nodes_per_group):
+            raise RuntimeError(f"There is no node {node_id} in dp_group {dp_group_id}, its status cannot be considered.")
+
         with self._checkpoint_lock:
             key = (dp_group_id, node_id)
             if key in self._nodes_reported:
-- 
2.43.0


From c16bb74410f5fee545384dd3d4afdf1cd3ff04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 35/55] fix: do not depend on cache entries while the first
 checkpoint is being persisted

---
 mixtera/core/query/chunk_distributor.py | 55 ++++++++++++++-----------
 mixtera/core/query/query_cache.py       |  1 +
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index af7296e..56f3295 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -90,7 +90,6 @@ class ChunkDistributor:
         self._cached_query = cached_query
         self._cached_query_meta = self._read_cache_meta(cached_query)
         self._query_result_persisted = False  # Whether a previous checkpoint takes care of persisting the QueryResult
-        self._query_result_process: mp.Process | None = None  # The process of that checkpoint
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -383,21 +382,15 @@ class ChunkDistributor:
         # The fundamental issue is that with multiprocessing.Spawn,
         # the QueryResult will be pickled when we start another process.
         # This means we cannot store the result in another process - the expensive operation is the pickling.
-        directory_to_copy = None
         if not self._query_result_persisted:
             logger.debug("This is the first checkpoint.")
-            if (
-                self._cached_query is not None
-                and self._cached_query.exists()
-                # The entry might have been replaced with results on an updated collection
-                and self._read_cache_meta(self._cached_query) == self._cached_query_meta
-            ):
-                logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
-                directory_to_copy = self._cached_query
+            (chkpnt_dir / "queryresult").mkdir(parents=True)
+            if self._link_cached_query(chkpnt_dir / "queryresult"):
+                logger.debug("Linked cached QueryResult to setup initial checkpoint.")
             else:
                 logger.debug("Query is not cached (anymore) - pickling now. This may take some time.")
-                (chkpnt_dir / "queryresult").mkdir(parents=True)
                 self._query_result.to_cache(chkpnt_dir / "queryresult")
+            self._query_result_persisted = True
             logger.debug("Handled pickling of QueryResult.")
 
         if hasattr(self._query_result, "_mixture") and self._query_result._mixture is not None:
@@ -442,21 +435,39 @@ class ChunkDistributor:
                 mixture_log,
                 returns_gen,
                 worker_sample_ids,
-                directory_to_copy,
                 mixture,
                 key_id_map,
             ),
         )
         self._checkpoint_info[checkpoint_id]["process"] = p
-        if self._query_result_process is not None:
-            # All further checkpoints rely on the QueryResult that the first one persists.
-            self._query_result_process.join()
-
         p.start()
 
-        if not self._query_result_persisted:
-            self._query_result_persisted = True
-            self._query_result_process = p
+    def _link_cached_query(self, directory: Path) -> bool:
+        """
+        Links the files of the cached QueryResult into an empty directory, if it still is in the cache.
+        As opposed to copying the files, this is fast, and the cache may drop its entry right afterwards.
+        """
+        if self._cached_query is None or self._cached_query_meta is None:
+            return False
+
+        try:
+            shutil.copytree(self._cached_query, directory, copy_function=self._link_or_copy, dirs_exist_ok=True)
+            # The entry might have been replaced with results on an updated collection, or it is just being removed.
+            if self._read_cache_meta(self._cached_query) == self._cached_query_meta:
+                return True
+        except OSError as e:
+            logger.debug(f"Could not link the cached QueryResult: {e}")
+
+        shutil.rmtree(directory)
+        directory.mkdir()
+        return False
+
+    @staticmethod
+    def _link_or_copy(src: str, dst: str) -> None:
+        try:
+            os.link(src, dst)
+        except OSError:  # not supported by the file system
+            shutil.copy2(src, dst)
 
     @staticmethod
     def _read_cache_meta(cached_query: Path | None) -> bytes | None:
@@ -475,7 +486,6 @@ class ChunkDistributor:
         mixture_log: list[tuple[int, Any]],
         num_returns_gen: int,
         worker_sample_ids: dict[tuple[int, int], int],
-        directory_to_copy: Path | None,
         mixture: Any,
         key_id_map: dict[Any, int],
     ) -> None:
@@ -499,11 +509,6 @@ class ChunkDistributor:
         """
 
         try:
-            if directory_to_copy is not None:
-                logger.debug("Starting to copy directory in process.")
-                shutil.copytree(directory_to_copy, chkpnt_dir / "queryresult")
-                logger.debug("Directory copied..")
-
             assert (
                 chkpnt_dir / "queryresult"
             ).exists(), f"QueryResult directory {(chkpnt_dir / 'queryresult')} should exist now!"
diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index 9180ec0..bacaacb 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -92,6 +92,7 @@ class QueryCache:
                 if cached_query_str == str(query):
                     if db_ver != self._mdc.get_db_version():
                         logger.debug(f"Database has been updated, removing cached query at {query_dir}.")
+                        meta_path.unlink()  # First of all, as this invalidates the entry
                         shutil.rmtree(query_dir)
                         if not os.listdir(hash_dir):
                             logger.debug(f"Directory for {query_hash} is empty after removing the cache.")
-- 
2.43.0


From 63ed76afc60172c7ed1e9b0662bd642d1555a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 36/55] fix: do not cache results that miss a concurrent update
 as results of the updated collection

---
 mixtera/core/client/local/local_stub.py | 3 ++-
 mixtera/core/query/query_cache.py       | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index eb58c6e..dd8342e 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -94,8 +94,9 @@ class LocalStub(MixteraClient):
             query.results._key_id_map = {}  # reset map to trigger update of mixture id map
             query.results.update_mixture(args.mixture)
         else:
+            db_version = self._mdc.get_db_version()
             query.execute(self._mdc, args.mixture, self.mixture_log_directory / query.job_id)
-            cache_path = self._query_cache.cache_query(query)
+            cache_path = self._query_cache.cache_query(query, db_version)
         return self._register_query(
             query, args.mixture, args.dp_groups, args.nodes_per_group, args.num_workers, cache_path
         )
diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index bacaacb..d12ddc2 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -23,7 +23,11 @@ class QueryCache:
         query_string = str(query)
         return hashlib.sha256(query_string.encode()).hexdigest()
 
-    def cache_query(self, query: Query) -> None | Path:
+    def cache_query(self, query: Query, db_version: int | None = None) -> None | Path:
+        """
+        Caches the results of a query. The version of the database has to be obtained before executing the query,
+        because results that miss a concurrent update must not be considered to be results of the updated database.
+        """
         if not self.enabled:
             return None
 
@@ -41,7 +45,7 @@ class QueryCache:
         query_dir.mkdir()
 
         # Prepare the cache metadata
-        db_ver = self._mdc.get_db_version()
+        db_ver = self._mdc.get_db_version() if db_version is None else db_version
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
         # Call the to_cache method on query.results to serialize it
-- 
2.43.0


From ebe802ac2c9a083b39d5fb550f7821a39f8e1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 37/55] fix: do not act upon incomplete requests of clients
 that disconnect

---
 mixtera/network/server/server.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index d39da9e..b83ce7f 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -36,6 +36,15 @@ from mixtera.network.network_utils import (
 from mixtera.network.server_task import ServerTask
 
 
+def _received(value: typing.Any) -> typing.Any:
+    """
+    Checks that a part of a request has been received, incomplete requests must not have an effect.
+    """
+    if value is None:
+        raise ConnectionError("The client closed the connection before it has sent its request completely.")
+    return value
+
+
 class MixteraServer:
     def __init__(self, directory: Path, host: str, port: int):
         """
@@ -209,7 +218,7 @@ class MixteraServer:
         dataset_type_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         dtype = Dataset.from_type_id(dataset_type_id)
         parsing_func = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
-        metadata_parser_identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        metadata_parser_identifier = _received(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
         job_id = str(uuid.uuid4())
         asyncio.create_task(
             self._background_register_dataset(job_id, identifier, loc, dtype, parsing_func, metadata_parser_identifier)
@@ -396,8 +405,7 @@ class MixteraServer:
         worker_status_length = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         worker_status = []
         for _ in range(worker_status_length):
-            status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
-            worker_status.append(status)
+            worker_status.append(_received(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)))
 
         chkpnt_id = await self._once_job_exists(
             self._local_stub.checkpoint, job_id, dp_group_id, node_id, worker_status, server=True
@@ -419,7 +427,7 @@ class MixteraServer:
 
     async def _restore_checkpoint(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        chkpnt_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
+        chkpnt_id = _received(await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
         self._query_registration[job_id] = None  # Otherwise, we immediately return True.
 
-- 
2.43.0


From 139b412839e470f0cfaa24f8309ef8959327433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 38/55] fix: undo what a failed registration of a dataset has
 inserted

---
 .../datacollection/mixtera_data_collection.py | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index f25080c..45522e7 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -158,6 +158,32 @@ class MixteraDataCollection:
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
 
+        try:
+            if self._register_files_and_samples(dataset_id, identifier, loc, dtype, metadata_parser_type):
+                return True
+        except BaseException:
+            self._undo_registration(dataset_id)
+            raise
+
+        self._undo_registration(dataset_id)
+        return False
+
+    def _undo_registration(self, dataset_id: int) -> None:
+        logger.error(f"Registration of dataset {dataset_id} failed. Removing what has been inserted so far.")
+        cur = self._connection.cursor()
+        cur.execute("DELETE FROM samples WHERE dataset_id = ?;", (dataset_id,))
+        cur.execute("DELETE FROM files WHERE dataset_id = ?;", (dataset_id,))
+        cur.execute("DELETE FROM datasets WHERE id = ?;", (dataset_id,))
+        self._db_incr_version()
+
+    def _register_files_and_samples(
+        self,
+        dataset_id: int,
+        identifier: str,
+        loc: str,
+        dtype: Type[Dataset],
+        metadata_parser_type: str,
+    ) -> bool:
         files = list(dtype.iterate_files(loc))
         if not files:
             logger.warning(f"No files found in {loc} for dataset {identifier}")
@@ -167,8 +193,6 @@ class MixteraDataCollection:
 
         parser_class = self._metadata_factory._registry[metadata_parser_type]
         properties = parser_class.get_properties()
-        self._add_columns_to_samples_table(properties)
-        logger.info("Columns added to samples table based on parser schema.")
 
         # Insert files into the files table and get file IDs
         file_ids = self._insert_files_into_table(dataset_id, files)
@@ -197,10 +221,19 @@ class MixteraDataCollection:
                 chunk = tasks[i : i + chunk_size]
                 results = pool.map(process_file_for_metadata, chunk)
                 logger.info(f"Processed chunk {i // chunk_size + 1}, inserting samples.")
+                if i == 0:
+                    # Not earlier, because the columns stay even if the registration fails
+                    self._add_columns_to_samples_table(properties)
+                    logger.info("Columns added to samples table based on parser schema.")
                 # Insert collected metadata into the database in the main process
                 self._insert_samples_with_metadata(dataset_id, results, properties)
         logger.info("All tasks finished.")
 
+        cur = self._connection.cursor()
+        if cur.execute("SELECT 1 FROM datasets WHERE id = ?;", (dataset_id,)).fetchone() is None:
+            logger.error(f"Dataset {identifier} has been removed while it was being registered.")
+            return False
+
         self._db_incr_version()
         self._vacuum()
 
-- 
2.43.0


From a91b4479f400e408d8b9fa8b83d4a155928bbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 39/55] fix: refuse properties whose column differs in being a
 list

---
 .../core/datacollection/mixtera_data_collection.py  | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 45522e7..292cd57 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -320,11 +320,18 @@ class MixteraDataCollection:
     def _add_columns_to_samples_table(self, properties: list[MetadataProperty]) -> None:
         cur = self._connection.cursor()
 
-        # Fetch all existing column names once
-        cur.execute("SELECT name FROM pragma_table_info('samples');")
-        existing_columns = set(row[0] for row in cur.fetchall())
+        # Fetch all existing columns once
+        cur.execute("SELECT name, type FROM pragma_table_info('samples');")
+        existing_columns = dict(cur.fetchall())
         columns_to_add = [prop for prop in properties if prop.name not in existing_columns]
 
+        for prop in properties:
+            # DuckDB would silently turn lists of values into a string
+            if prop.name in existing_columns and prop.multiple != existing_columns[prop.name].endswith("[]"):
+                raise RuntimeError(
+                    f"Property {prop.name} already exists as {existing_columns[prop.name]}, but multiple={prop.multiple}"
+                )
+
         if columns_to_add:
             for prop in columns_to_add:
                 # Decide column type
-- 
2.43.0


From 8d4def648fb1f3a1c888ca95d0d520d51b39f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 40/55] fix: escape quotes in enum options of categorical
 properties

---
 mixtera/core/datacollection/mixtera_data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 292cd57..8e9fb11 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -347,7 +347,7 @@ class MixteraDataCollection:
                     if result is None or result[0] == 0:
                         # It is important to sort here,
                         # otherwise across runs (e.g., in unit tests), we get inconsistent ordering.
-                        enum_values = "', '".join(sorted(prop.enum_options))
+                        enum_values = "', '".join(sorted(option.replace("'", "''") for option in prop.enum_options))
                         create_enum_query = f"CREATE TYPE {enum_type_name} AS ENUM ('{enum_values}');"
                         cur.execute(create_enum_query)
                     column_type = f"{enum_type_name}[]" if prop.multiple else enum_type_name
-- 
2.43.0


From 876cd00b1fa308bdcd9286b9f7c1ddbc38696a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 41/55] fix: notice missing class labels in the ImageNet parser

---
 mixtera/core/datacollection/index/parser/parser_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/parser_collection.py b/mixtera/core/datacollection/index/parser/parser_collection.py
index def585b..a5993ac 100644
--- a/mixtera/core/datacollection/index/parser/parser_collection.py
+++ b/mixtera/core/datacollection/index/parser/parser_collection.py
@@ -75,11 +75,11 @@ class ImagenetWebDatasetMetadataParser(MetadataParser):
         ]
 
     def parse(self, line_number: int, payload: Any, **kwargs: Optional[dict[Any, Any]]) -> None:
-        class_label = str(payload.get(".cls"))
+        class_label = payload.get(".cls")
         if class_label is None:
             raise RuntimeError("Property 'class_label' is not nullable and is missing.")
 
-        self.add_metadata(sample_id=line_number, class_label=class_label)
+        self.add_metadata(sample_id=line_number, class_label=str(class_label))
 
 
 class FineWebMetadataParser(MetadataParser):
-- 
2.43.0


From a0967388c5e0010daba732a639c46784611015fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 42/55] fix: do not let later changes of a mixture alter the
 mixture log of arbitrary mixtures

---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 2327ae9..a4188c0 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -516,7 +516,7 @@ class QueryResult:
                     mixture_id += 1
                     previous_mixture = None
                     if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, base_mixture))
+                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
                     self._persist_mixture_log()
 
                 chunk = None
-- 
2.43.0


From 25421f20b16926790a0daa7e5bf321b11d040e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 43/55] fix: accept reports in ADO that do not reach up to the
 last domain

---
 mixtera/core/algo/ado/ado.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index cb006d6..c44bfa7 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -593,6 +593,11 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
             losses: A numpy array of losses per domain.
             counts: A numpy array of counts per domain.
         """
+        # A report does not need to reach up to the last domain we know. The per-domain data structures need to.
+        num_domains = max(len(losses), len(self.losses), len(self.initial_mixture))
+        losses = np.concatenate([losses, np.zeros(num_domains - len(losses), dtype=losses.dtype)])
+        counts = np.concatenate([counts, np.zeros(num_domains - len(counts), dtype=counts.dtype)])
+
         # We first need to catch the number of internal domains, otherwise we will not trigger the following condition.
         num_incoming_domains = len(losses)
         num_internal_domains = len(self.losses)
-- 
2.43.0


From 0582825ba5a8e3386b3534a3e5b2d6c0714c9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 44/55] fix: hash mixture keys with numeric values

---
 mixtera/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index 4039179..29665f5 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -134,7 +134,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
         value_list.sort()
 
         # Concatenate the sorted list of strings with a separator
-        concatenated_values = "\0".join(escape(value) for value in value_list)
+        concatenated_values = "\0".join(escape(str(value)) for value in value_list)
 
         # Create a string representation of the key-value pair
         concatenated_item = f"{escape(key)}:{concatenated_values}"
-- 
2.43.0


From 0301f08dfdde3a2c435e119d2352203e392b99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 45/55] fix: leave no trace of unsuccessful attempts to
 generate a chunk

---
 mixtera/core/query/query_result.py | 82 +++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index a4188c0..14e1e4a 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -306,6 +306,8 @@ class QueryResult:
             except StopIteration:
                 return
 
+        consumed: dict[MixtureKey, int] = defaultdict(int)  # Samples of each component that are part of chunks
+
         previous_mixture = None
         base_mixture, target_chunk_index = yield
         # We allow to re-query the latest chunk after not being able to generate one,
@@ -323,28 +325,9 @@ class QueryResult:
 
             chunk_success = False
             if mixture:
-                if previous_mixture != mixture:
-                    logger.debug(f"Obtained new mixture: {mixture}")
-                    mixture_id += 1
-                    previous_mixture = deepcopy(mixture)
-
-                    if len(self._mixture_log) > 0:
-                        last_mixture = self._mixture_log[-1][1]
-                        if (
-                            isinstance(last_mixture, DynamicMixture)
-                            and hasattr(last_mixture, "_mixing_alg")
-                            and not self._is_replay
-                        ):
-                            # Dont do this during replay:
-                            # otherwise the last chunk (which we have not even replayed!) loses its mixing alg!
-                            logger.info("Cleaning up last mixing algorithm from mixture log.")
-                            last_mixture._mixing_alg = None
-
-                    if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
-
-                    self._persist_mixture_log()
-                    self._update_key_id_map()
+                requested_mixture = deepcopy(mixture)  # best-effort generation adjusts the mixture of the chunk
+                mixture_to_log = deepcopy(base_mixture) if previous_mixture != requested_mixture else None
+                taken: dict[MixtureKey, int] = defaultdict(int)
 
                 chunk: ChunkerIndex = create_chunker_index()
                 remaining_sizes: dict[MixtureKey, int] = {  # pylint: disable=unnecessary-comprehension
@@ -383,6 +366,7 @@ class QueryResult:
                                         chunk_size <= remaining_sizes[mixture_key]
                                     ), f"We took too much data ({chunk_size}) for {mixture_key}: {remaining_sizes}"
                                     remaining_sizes[mixture_key] = remaining_sizes[mixture_key] - chunk_size
+                                    taken[component_key] += chunk_size
 
                                     # logger.debug(
                                     #    f"Received chunk size: {chunk_size} for {mixture_key} from {component_key}"
@@ -486,6 +470,32 @@ class QueryResult:
                 if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):
                     chunk_success = True
                     no_success_counter = 0
+                    for component_key, num_taken in taken.items():
+                        consumed[component_key] += num_taken
+
+                    if mixture_to_log is not None:
+                        logger.debug(f"Obtained new mixture: {requested_mixture}")
+                        mixture_id += 1
+                        previous_mixture = requested_mixture
+
+                        if len(self._mixture_log) > 0:
+                            last_mixture = self._mixture_log[-1][1]
+                            if (
+                                isinstance(last_mixture, DynamicMixture)
+                                and hasattr(last_mixture, "_mixing_alg")
+                                and not self._is_replay
+                            ):
+                                # Dont do this during replay:
+                                # otherwise the last chunk (which we have not even replayed!) loses its mixing alg!
+                                logger.info("Cleaning up last mixing algorithm from mixture log.")
+                                last_mixture._mixing_alg = None
+
+                        if not self._is_replay:
+                            self._mixture_log.append((current_chunk_index, mixture_to_log))
+
+                        self._persist_mixture_log()
+                        self._update_key_id_map()
+
                     if current_chunk_index == target_chunk_index:
                         logger.debug(f"Yielding chunk {current_chunk_index}.")
                         self._persist_chunk_idx(current_chunk_index)
@@ -508,17 +518,17 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
+                    # The samples we have taken for the incomplete chunk need to be available for other mixtures,
+                    # and replaying the chunks that have been generated must not depend on unsuccessful attempts.
+                    for component_key in taken:
+                        iterator = self._generate_per_mixture_component_chunks(self._chunker_index, component_key)
+                        next(iterator)
+                        if consumed[component_key] > 0:
+                            iterator.send(consumed[component_key])
+                        component_iterators[component_key] = iterator
                     # The caller might come back with an updated mixture
                     base_mixture, target_chunk_index = yield None
             else:
-                if previous_mixture is not None or current_chunk_index == 0:
-                    logger.debug("Obtained new None mixture.")
-                    mixture_id += 1
-                    previous_mixture = None
-                    if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
-                    self._persist_mixture_log()
-
                 chunk = None
                 skipped_keys = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
@@ -541,6 +551,18 @@ class QueryResult:
                 if chunk is None:
                     return  # No need to yield None, if ArbitraryMixture is exhausted, we will never be able to continue
 
+                consumed[chunker_index_keys[chunker_index_keys_idx]] += sum(
+                    end - start for files in chunk.values() for ranges in files.values() for start, end in ranges
+                )
+
+                if previous_mixture is not None or current_chunk_index == 0:
+                    logger.debug("Obtained new None mixture.")
+                    mixture_id += 1
+                    previous_mixture = None
+                    if not self._is_replay:
+                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
+                    self._persist_mixture_log()
+
                 # Chunk has been successfully generated
                 if current_chunk_index == target_chunk_index:
                     chunk = {chunker_index_keys[chunker_index_keys_idx]: chunk}
-- 
2.43.0


From 473b6aab7aa4a4cb102d7170d347788084cfd6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 46/55] fix: continue reloaded query results with the mixture
 they were saved with

---
 mixtera/core/query/query_result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 14e1e4a..835b1af 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -829,6 +829,8 @@ class QueryResult:
             query_result._query_log_dir.mkdir(exist_ok=True)
 
         if num_chunks_replay > 0 and replay:
+            current_mixture = query_result._mixture
             query_result.replay(num_chunks_replay)
+            query_result.update_mixture(current_mixture)  # may have been updated after the last chunk
 
         return query_result
-- 
2.43.0


From 72a469bf03313e1c480c2fbba599c85b2327ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 47/55] fix: calculate properties of compressed JSONL files

---
 .../core/processing/property_calculation/local_executor.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/processing/property_calculation/local_executor.py b/mixtera/core/processing/property_calculation/local_executor.py
index 70016c4..3ad6a84 100644
--- a/mixtera/core/processing/property_calculation/local_executor.py
+++ b/mixtera/core/processing/property_calculation/local_executor.py
@@ -4,6 +4,7 @@ from typing import Any, Callable, Generator, Type
 import numpy as np
 from loguru import logger
 from tqdm import tqdm
+from xopen import xopen
 
 from mixtera.core.datacollection.datasets import Dataset, JSONLDataset
 from mixtera.core.processing.property_calculation import PropertyCalculationExecutor
@@ -100,7 +101,9 @@ class LocalPropertyCalculationExecutor(PropertyCalculationExecutor):
         if not file_path.exists():
             raise RuntimeError(f"File {file_path} does not exist.")
 
-        with open(file_path, encoding="utf-8") as fp:
+        # Files of JSONL datasets can be compressed
+        open_func = open if file_path.suffix == ".jsonl" else xopen
+        with open_func(file_path, "r", encoding="utf-8") as fp:
             for line_id, line in enumerate(fp):
                 yield line_id, line.rstrip()
 
-- 
2.43.0


From 0beea051b2b8dfbb17dc12ca51c82666bfde8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 48/55] fix: report the number of samples loader workers have
 handed out

---
 mixtera/torch/mixtera_torch_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index e8819e2..694aba4 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -135,7 +135,7 @@ class MixteraTorchDataset(IterableDataset):
         )
 
         _randid = random.randint(0, 99)
-        # Initialize status_array, indicating for each worker which sample they are currently handling in the chunk
+        # Initialize status_array, indicating for each worker how many samples of the chunk it has handed out
         status_dtype = np.int64
         array_shape = (self.num_workers,)  # One index per worker
         status_array_size = self.num_workers * status_dtype(0).nbytes
@@ -264,7 +264,8 @@ class MixteraTorchDataset(IterableDataset):
             self._res_str_args.worker_id = self.worker_id
 
             for sample_chnk_idx, key_id, sample in self._client.stream_results(self._res_str_args):
-                status_array[self.worker_id] = sample_chnk_idx
+                # When continuing from a checkpoint, this is the number of samples that are skipped
+                status_array[self.worker_id] = sample_chnk_idx + 1
                 yield self._yield_func(key_id, sample)
 
             with self.completion_lock:
-- 
2.43.0


From 889cbf6138d0fe3ebe3150887769b3e7c1a88b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:28 +0000
Subject: [PATCH 49/55] fix: keep the current mixture id while its samples can
 still be reported on

---
 mixtera/core/client/local/local_stub.py   |  2 ++
 mixtera/core/client/mixtera_client.py     | 10 +++++++---
 mixtera/core/client/server/server_stub.py |  4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index dd8342e..d7dd610 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -165,6 +165,7 @@ class LocalStub(MixteraClient):
             return False
 
         with self._training_query_map_lock:
+            self._reset_current_mixture_id()
             self._training_query_map[query.job_id] = (
                 ChunkDistributor(
                     dp_groups, nodes_per_group, num_workers, query.results, query.job_id, cached_query=cache_path
@@ -217,6 +218,7 @@ class LocalStub(MixteraClient):
                 query,
                 mixture if mixture is not None else distri._query_result._mixture,
             )
+            self._reset_current_mixture_id()
 
     def process_feedback(self, job_id: str, feedback: ClientFeedback) -> bool:
         if job_id not in self._training_query_map:
diff --git a/mixtera/core/client/mixtera_client.py b/mixtera/core/client/mixtera_client.py
index b7648c9..b450aff 100644
--- a/mixtera/core/client/mixtera_client.py
+++ b/mixtera/core/client/mixtera_client.py
@@ -147,6 +147,11 @@ class MixteraClient(ABC):
 
         return None if val < 0 else val
 
+    def _reset_current_mixture_id(self) -> None:
+        # Needs to be called when starting/restoring a job, since mixture ids are only comparable within a job
+        with self.current_mixture_id_val.get_lock():
+            self.current_mixture_id_val.get_obj().value = -1
+
     @abstractmethod
     def register_dataset(
         self,
@@ -288,9 +293,8 @@ class MixteraClient(ABC):
             )
             yield from result_chunk
 
-        with self.current_mixture_id_val.get_lock():
-            self.current_mixture_id_val.get_obj().value = -1
-            # logger.debug("Reset current mixture ID to -1.")
+        # The current mixture is kept: Other streams (workers) may still return chunks of this job,
+        # and samples that have been returned already are still to be reported on.
 
     @abstractmethod
     def _stream_result_chunks(
diff --git a/mixtera/core/client/server/server_stub.py b/mixtera/core/client/server/server_stub.py
index 3025a9a..6a55d71 100644
--- a/mixtera/core/client/server/server_stub.py
+++ b/mixtera/core/client/server/server_stub.py
@@ -71,6 +71,7 @@ class ServerStub(MixteraClient):
             logger.error("Could not register query at server!")
             return False
 
+        self._reset_current_mixture_id()
         logger.info(f"Started query registration for job {query.job_id} at server!")
 
         return True
@@ -133,7 +134,8 @@ class ServerStub(MixteraClient):
         return self.server_connection.checkpoint_completed(job_id, chkpnt_id, on_disk)
 
     def restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
-        return self.server_connection.restore_checkpoint(job_id, chkpnt_id)
+        self.server_connection.restore_checkpoint(job_id, chkpnt_id)
+        self._reset_current_mixture_id()
 
     def wait_for_execution(self, job_id: str) -> bool:
         logger.info("Waiting for query execution at server to finish.")
-- 
2.43.0


From 97337ab8224b955286c06c2d44d6adc563b2246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:28 +0000
Subject: [PATCH 50/55] fix: find datasets without evaluating properties or
 running into endless recursion

---
 mixtera/utils/dataset_utils.py | 71 +++++++++++++++-------------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/mixtera/utils/dataset_utils.py b/mixtera/utils/dataset_utils.py
index c2c8b8e..dee33a2 100644
--- a/mixtera/utils/dataset_utils.py
+++ b/mixtera/utils/dataset_utils.py
@@ -1,3 +1,6 @@
+import inspect
+from collections import deque
+from types import ModuleType
 from typing import Any
 
 from loguru import logger
@@ -6,56 +9,44 @@ import torch
 from mixtera.torch import MixteraTorchDataset
 
 
-def _find_mixtera_torch_dataset_in_attrs(  # pylint: disable=too-many-return-statements
-    obj: Any, visited: set | None = None
-) -> MixteraTorchDataset | None:
+def _find_mixtera_torch_dataset_in_attrs(obj: Any) -> MixteraTorchDataset | None:
     """
-    Recursively searches the attributes of an object to find an instance of MixteraTorchDataset.
+    Searches an object, its attributes, their attributes, ... to find an instance of MixteraTorchDataset.
+    Only considers what the objects store: Properties (e.g., of tensors) may return new objects endlessly.
 
     Args:
         obj (Any): The object whose attributes are to be searched.
-        visited (set, optional): A set of object IDs that have already been visited to prevent infinite loops.
 
     Returns:
         MixteraTorchDataset | None: The found MixteraTorchDataset instance if present; otherwise, None.
     """
-    if visited is None:
-        visited = set()
-    obj_id = id(obj)
-    if obj_id in visited:
-        return None  # Avoid infinite loops in circular references
-    visited.add(obj_id)
-
-    if isinstance(obj, MixteraTorchDataset):
-        return obj
-
-    for attr_name in dir(obj):
-        # Skip special and private attributes
-        if attr_name.startswith("__") and attr_name.endswith("__"):
-            continue
-        try:
-            attr_value = getattr(obj, attr_name)
-        except AttributeError:
-            continue
-        except Exception:  # pylint: disable=broad-exception-caught
+    visited: dict[int, Any] = {}  # Prevents infinite loops; also holds the objects, because ids could be reused
+    to_visit = deque([obj])
+
+    while to_visit:
+        current = to_visit.popleft()
+        if id(current) in visited or isinstance(current, (type, ModuleType)):
             continue
+        visited[id(current)] = current
 
-        if isinstance(attr_value, MixteraTorchDataset):
-            return attr_value
-        if isinstance(attr_value, (list, tuple, set)):
-            for item in attr_value:
-                result = _find_mixtera_torch_dataset_in_attrs(item, visited)
-                if result is not None:
-                    return result
-        elif isinstance(attr_value, dict):
-            for item in attr_value.values():
-                result = _find_mixtera_torch_dataset_in_attrs(item, visited)
-                if result is not None:
-                    return result
-        elif hasattr(attr_value, "__dict__") or hasattr(attr_value, "__slots__"):
-            result = _find_mixtera_torch_dataset_in_attrs(attr_value, visited)
-            if result is not None:
-                return result
+        if isinstance(current, MixteraTorchDataset):
+            return current
+        if isinstance(current, (list, tuple, set)):
+            to_visit.extend(current)
+        elif isinstance(current, dict):
+            to_visit.extend(current.values())
+
+        for attr_name in dir(current) if hasattr(current, "__dict__") or hasattr(current, "__slots__") else []:
+            # Skip special and private attributes
+            if attr_name.startswith("__") and attr_name.endswith("__"):
+                continue
+            try:
+                attr_value = inspect.getattr_static(current, attr_name)
+                if inspect.ismemberdescriptor(attr_value):  # Defined by __slots__
+                    attr_value = getattr(current, attr_name)
+            except AttributeError:
+                continue
+            to_visit.append(attr_value)
 
     return None
 
-- 
2.43.0


From 64a5d1da46a59103d43bc93ec4a39d7934d5e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:28 +0000
Subject: [PATCH 51/55] fix: keep the worker status after a stream without
 loader workers has ended

---
 mixtera/torch/mixtera_torch_dataset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index 694aba4..487b715 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -268,6 +268,10 @@ class MixteraTorchDataset(IterableDataset):
                 status_array[self.worker_id] = sample_chnk_idx + 1
                 yield self._yield_func(key_id, sample)
 
+            if get_worker_info() is None:
+                # No data loader workers: Checkpoints might still need the status. The atexit handler will unlink.
+                return
+
             with self.completion_lock:
                 completion_array[self.worker_id] = 1
                 if np.all(completion_array == 1):
@@ -280,4 +284,5 @@ class MixteraTorchDataset(IterableDataset):
                     )
                     self._cleanup_shared_memory(False)
         finally:
-            self._cleanup_shared_memory(True)
+            if get_worker_info() is not None:
+                self._cleanup_shared_memory(True)
-- 
2.43.0


From 3fb710f4be4d46974b8e31df1d9c083a2894c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:03 +0000
Subject: [PATCH 52/55] fix: reset the counter of unsuccessful attempts after
 chunks of arbitrary mixtures

---
 mixtera/core/query/query_result.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 835b1af..276feef 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -551,6 +551,7 @@ class QueryResult:
                 if chunk is None:
                     return  # No need to yield None, if ArbitraryMixture is exhausted, we will never be able to continue
 
+                no_success_counter = 0
                 consumed[chunker_index_keys[chunker_index_keys_idx]] += sum(
                     end - start for files in chunk.values() for ranges in files.values() for start, end in ranges
                 )
-- 
2.43.0


From 4fbb8ace0bbb9a72aebd28aa7ed0dfdb350cbc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:02 +0000
Subject: [PATCH 53/55] fix: refuse properties named like columns that queries
 use internally

---
 .../core/datacollection/index/parser/metadata_parser.py    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/metadata_parser.py b/mixtera/core/datacollection/index/parser/metadata_parser.py
index a7eaf67..ab4dcf1 100644
--- a/mixtera/core/datacollection/index/parser/metadata_parser.py
+++ b/mixtera/core/datacollection/index/parser/metadata_parser.py
@@ -31,9 +31,12 @@ class MetadataParser(ABC):
         self.file_id: int = file_id
         self.metadata: list[dict] = []
         self.property_map = {prop.name: prop for prop in self.get_properties()}
-        self._internal_keys = set(["file_id", "dataset_id"])
+        # The names of columns that are used when registering samples and executing queries
+        self._internal_keys = set(
+            ["file_id", "dataset_id", "sample_id", "diff", "group_id", "interval_start", "interval_end"]
+        )
         for key in self.property_map.keys():
-            if key in self._internal_keys:
+            if key.lower() in self._internal_keys:  # DuckDB does not distinguish between upper and lower case
                 raise RuntimeError(f"Property {key} is a Mixtera-internal key. It should not be in properties.")
 
     @classmethod
-- 
2.43.0


From 2095e3c98cb5387a50d11d5d345bf1378b2f8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:41 +0000
Subject: [PATCH 54/55] fix: add the columns of a schema to the samples table
 all or none

---
 mixtera/core/datacollection/mixtera_data_collection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 8e9fb11..24deb1c 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -320,6 +320,16 @@ class MixteraDataCollection:
     def _add_columns_to_samples_table(self, properties: list[MetadataProperty]) -> None:
         cur = self._connection.cursor()
 
+        # All or none, because columns and types added for a schema that is refused would get in the way of a correct one
+        cur.execute("BEGIN TRANSACTION;")
+        try:
+            self._add_columns(cur, properties)
+            cur.execute("COMMIT;")
+        except BaseException:
+            cur.execute("ROLLBACK;")
+            raise
+
+    def _add_columns(self, cur: duckdb.DuckDBPyConnection, properties: list[MetadataProperty]) -> None:
         # Fetch all existing columns once
         cur.execute("SELECT name, type FROM pragma_table_info('samples');")
         existing_columns = dict(cur.fetchall())
-- 
2.43.0


From 89e901295d8338167a29b060fed679896bab959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:14 +0000
Subject: [PATCH 55/55] fix: round inferred mixtures independent of the order
 of the index

---
 mixtera/core/query/mixture/inferring_mixture.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/mixture/inferring_mixture.py b/mixtera/core/query/mixture/inferring_mixture.py
index 6d9f3c8..0ed71e7 100644
--- a/mixtera/core/query/mixture/inferring_mixture.py
+++ b/mixtera/core/query/mixture/inferring_mixture.py
@@ -46,5 +46,7 @@ class InferringMixture(Mixture):
             total > 0 and len(inferred_mixture_dict.keys()) > 0
         ), f"Inconsistent state: total = {total}, inferred_mixture_dict={inferred_mixture_dict}"
 
-        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, inferred_mixture_dict)
+        # The order of the index depends on how many cores created it, and rounding depends on the order of the domains
+        sorted_mixture_dict = dict(sorted(inferred_mixture_dict.items(), key=lambda x: x[0]))
+        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, sorted_mixture_dict)
         logger.info("Mixture inferred.")
-- 
2.43.0

