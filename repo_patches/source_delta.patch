From e1c5aafca0e5fa6c565862be10ad4b30c515b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 01/85] fix: keep distinct vector ids in distinct files in
 DiskStorage

_sanitize_id mapped every special character to '_', so 'a/b' and 'a_b' shared
one file and list_vectors returned ids that were never stored.
---
 src/valori/storage/disk.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2b6b0c1..28f41a5 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -6,6 +6,7 @@ import os
 import pickle
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
+from urllib.parse import quote, unquote
 
 import numpy as np
 
@@ -174,7 +175,7 @@ class DiskStorage(StorageBackend):
 
         try:
             vector_files = list(self.vectors_dir.glob("*.npy"))
-            vector_ids = [f.stem for f in vector_files]
+            vector_ids = [self._restore_id(f.stem) for f in vector_files]
 
             if limit is not None:
                 vector_ids = vector_ids[:limit]
@@ -219,6 +220,11 @@ class DiskStorage(StorageBackend):
 
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
-        # Replace invalid characters with underscores
-        safe_id = "".join(c if c.isalnum() or c in "._-" else "_" for c in id)
-        return safe_id
+        # Percent-encode other characters so that distinct IDs never share a file
+        return "".join(
+            c if c.isalnum() or c in "._-" else quote(c, safe="") for c in id
+        )
+
+    def _restore_id(self, safe_id: str) -> str:
+        """Recover the original ID from its filename."""
+        return unquote(safe_id)
-- 
2.43.0


From a933ef3d3e008ccfd260df6460f05251706143f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 02/85] fix: isolate metadata held by MemoryStorage from the
 caller's objects

Metadata was copied one level deep on the way in and handed out uncopied, so
editing a search result (or a nested value of the dict passed to insert)
silently rewrote the stored record. The disk backend never did.
---
 src/valori/storage/memory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 433825e..885bce7 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -2,6 +2,7 @@
 In-memory storage backend for the valori vector database.
 """
 
+import copy
 from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -53,7 +54,7 @@ class MemoryStorage(StorageBackend):
 
                 # Store metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = copy.deepcopy(metadata)
                 else:
                     self.metadata.pop(id, None)  # Remove if exists
 
@@ -79,7 +80,7 @@ class MemoryStorage(StorageBackend):
                 return None
 
             vector = self.vectors[id].copy()
-            metadata = self.metadata.get(id)
+            metadata = copy.deepcopy(self.metadata.get(id))
             return vector, metadata
 
     def delete_vector(self, id: str) -> bool:
@@ -124,7 +125,7 @@ class MemoryStorage(StorageBackend):
 
                 # Update metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = copy.deepcopy(metadata)
                 else:
                     self.metadata.pop(id, None)
 
-- 
2.43.0


From 25a7b8f775b868a814a73fd70df195b56ab5c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 03/85] fix: isolate metadata held by LSH and Annoy indices
 from the caller's objects

Search handed out the stored dict itself, so editing a result rewrote the index.
---
 src/valori/indices/annoy.py |  5 +++--
 src/valori/indices/lsh.py   | 10 +++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c33b854..3186068 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -5,6 +5,7 @@ Implements Annoy (Approximate Nearest Neighbors Oh Yeah) for fast
 approximate nearest neighbor search using random projection trees.
 """
 
+import copy
 import os
 import tempfile
 from typing import Any, Dict, List, Optional, Union
@@ -190,7 +191,7 @@ class AnnoyIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(copy.deepcopy(metadata[i]))
 
             # Add to Annoy index
             self._annoy_index.add_item(vector_id, vector.astype(np.float32))
@@ -272,7 +273,7 @@ class AnnoyIndex(Index):
                     {
                         "id": neighbor_id,
                         "distance": similarity,
-                        "metadata": self.metadata[neighbor_id],
+                        "metadata": copy.deepcopy(self.metadata[neighbor_id]),
                     }
                 )
 
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 2f21dc0..ac7daca 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -5,6 +5,7 @@ Implements Locality Sensitive Hashing for approximate nearest neighbor search
 with configurable hash functions and parameters.
 """
 
+import copy
 import hashlib
 from collections import defaultdict
 from typing import Any, Dict, List, Optional, Tuple, Union
@@ -103,7 +104,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(copy.deepcopy(metadata[i]))
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -186,7 +187,10 @@ class LSHIndex(Index):
 
         # Sort by distance and return top k
         results.sort(key=lambda x: x["distance"], reverse=True)
-        return results[:k]
+        results = results[:k]
+        for result in results:
+            result["metadata"] = copy.deepcopy(result["metadata"])
+        return results
 
     def remove(self, ids: List[int]) -> None:
         """
@@ -255,7 +259,7 @@ class LSHIndex(Index):
             # Store new vector and metadata
             self.vectors[vector_id] = vector.copy()
             if metadata is not None:
-                self.metadata[vector_id] = metadata.copy()
+                self.metadata[vector_id] = copy.deepcopy(metadata)
 
             # Add new hashes
             new_hashes = self._hash_vector(self.vectors[vector_id])
-- 
2.43.0


From 91aa15c8f4d0d2517f151bb38fd599fc2319bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 04/85] fix: make rejected LSH/Annoy inserts and LSH updates
 leave the index unchanged

A first insert that failed validation still pinned the dimension, a None in the
metadata list aborted half-way and shifted all later metadata by one, and an
LSH update with a vector of the wrong dimension dropped the stored vector.
---
 src/valori/indices/annoy.py | 17 ++++++++++-------
 src/valori/indices/lsh.py   | 20 +++++++++++++-------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 3186068..99cd077 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -169,20 +169,23 @@ class AnnoyIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._create_annoy_index()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        if self.dimension is not None and vectors.shape[1] != self.dimension:
             raise ValoriIndexError(
                 f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
             )
 
-        # Validate vectors
+        # Validate everything before changing any state
         for vector in vectors:
             validate_vector(vector, self.dimension, self.dimension)
 
+        # Set dimension on first add
+        if self.dimension is None and len(vectors) > 0:
+            self.dimension = vectors.shape[1]
+            self._create_annoy_index()
+
         assigned_ids = []
 
         for i, vector in enumerate(vectors):
@@ -191,7 +194,7 @@ class AnnoyIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(copy.deepcopy(metadata[i]))
+            self.metadata.append(copy.deepcopy(metadata[i] or {}))
 
             # Add to Annoy index
             self._annoy_index.add_item(vector_id, vector.astype(np.float32))
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index ac7daca..cbdd36c 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -82,20 +82,23 @@ class LSHIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._generate_projections()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        if self.dimension is not None and vectors.shape[1] != self.dimension:
             raise ValoriIndexError(
                 f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
             )
 
-        # Validate vectors
+        # Validate everything before changing any state
         for vector in vectors:
             validate_vector(vector, self.dimension, self.dimension)
 
+        # Set dimension on first add
+        if self.dimension is None and len(vectors) > 0:
+            self.dimension = vectors.shape[1]
+            self._generate_projections()
+
         assigned_ids = []
 
         for i, vector in enumerate(vectors):
@@ -104,7 +107,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(copy.deepcopy(metadata[i]))
+            self.metadata.append(copy.deepcopy(metadata[i] or {}))
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -246,6 +249,9 @@ class LSHIndex(Index):
             if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
                 return False
 
+            # Reject an invalid replacement before touching the stored vector
+            validate_vector(vector, self.dimension, self.dimension)
+
             # Remove old hashes
             old_vector = self.vectors[vector_id]
             old_hashes = self._hash_vector(old_vector)
-- 
2.43.0


From 19442ee77a8a2bf37a476a5d3363c0827bffd142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 05/85] fix: LSH delete/update must not act on another vector
 for an unknown id

delete(['-1']) removed the newest vector through negative indexing, '1_0' or
' 10' removed vector 10, and deleting unknown ids reported success.
---
 src/valori/indices/lsh.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index cbdd36c..1044d11 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -206,7 +206,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Remove from hash tables
                 vector = self.vectors[vector_id]
                 if vector is None:
@@ -227,17 +227,22 @@ class LSHIndex(Index):
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
         try:
-            int_ids = []
-            for s in ids:
-                try:
-                    int_ids.append(int(s))
-                except ValueError:
-                    continue
-            self.remove(int_ids)
-            return True
+            int_ids = [self._resolve_id(s) for s in ids]
+            known = [i for i in int_ids if i is not None]
+            self.remove(known)
+            return len(set(known)) == len(int_ids)
         except Exception:
             return False
 
+    def _resolve_id(self, id: Union[str, int]) -> Optional[int]:
+        """Return the position of a stored vector, or None for an unknown ID."""
+        if str(id).isdecimal():
+            vector_id = int(id)
+            if str(vector_id) == str(id) and vector_id < len(self.vectors):
+                if self.vectors[vector_id] is not None:
+                    return vector_id
+        return None
+
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict[str, Any]] = None
     ) -> bool:
@@ -245,8 +250,8 @@ class LSHIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
         try:
-            vector_id = int(id)
-            if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            vector_id = self._resolve_id(id)
+            if vector_id is None:
                 return False
 
             # Reject an invalid replacement before touching the stored vector
-- 
2.43.0


From 76fdab6b3b260942b111baa05ce66b21b9aff510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 06/85] fix: LSH accepts hash_size larger than num_projections

The configuration passes validation but every insert died with a numpy
broadcasting or indexing error.
---
 src/valori/indices/lsh.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 1044d11..901a4b9 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -341,21 +341,17 @@ class LSHIndex(Index):
         for table_idx in range(self.num_hash_tables):
             # Select a subset of projections for this hash table
             start_idx = (table_idx * self.hash_size) % self.num_projections
-            end_idx = start_idx + self.hash_size
-
-            if end_idx > self.num_projections:
-                # Wrap around if needed
-                proj_indices = list(range(start_idx, self.num_projections))
-                proj_indices.extend(range(0, end_idx - self.num_projections))
-                selected_projections = self.projections[proj_indices]
-            else:
-                selected_projections = self.projections[start_idx:end_idx]
+            # Wrap around as often as needed
+            proj_indices = (
+                np.arange(start_idx, start_idx + self.hash_size) % self.num_projections
+            )
+            selected_projections = self.projections[proj_indices]
 
             # Compute dot products with selected projections
             dot_products = np.dot(selected_projections, vector)
 
             # Apply offsets and threshold to get binary hash
-            hash_bits = (dot_products + self.offsets[: len(dot_products)]) >= 0
+            hash_bits = (dot_products + self.offsets[proj_indices]) >= 0
 
             # Convert to hash string
             hash_string = "".join(["1" if bit else "0" for bit in hash_bits])
-- 
2.43.0


From d6fb5094054b91391a05fcf725d3211a77408b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 07/85] fix: LSH clear/close forget the vector dimension

---
 src/valori/indices/lsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 901a4b9..4f8dc2b 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -287,6 +287,8 @@ class LSHIndex(Index):
         self.metadata.clear()
         self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
         self._next_id = 0
+        self.dimension = None
+        self.rng = np.random.RandomState(self.random_seed)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get index statistics."""
-- 
2.43.0


From 18b22c57084f2f92be7dd3fbfcf3cde6b219627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 08/85] fix: LSH stats report bucket sizes, not ids; delete
 before initialize raises

---
 src/valori/indices/lsh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 4f8dc2b..cc65bb4 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -226,6 +226,8 @@ class LSHIndex(Index):
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
         try:
             int_ids = [self._resolve_id(s) for s in ids]
             known = [i for i in int_ids if i is not None]
@@ -299,7 +301,7 @@ class LSHIndex(Index):
         bucket_sizes = []
         for table in self.hash_tables:
             for bucket in table.values():
-                bucket_sizes.extend(bucket)
+                bucket_sizes.append(len(bucket))
 
         return {
             "index_type": "lsh",
-- 
2.43.0


From fa7e9ccff14eb39971479b9d3b12b5ed5ca13fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 09/85] fix: Annoy delete/update must not act on another vector
 for an unknown id

---
 src/valori/indices/annoy.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 99cd077..726068f 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -109,12 +109,22 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_ids = [int(id) for id in ids]
-            self.remove(int_ids)
-            return True
+            int_ids = [self._resolve_id(id) for id in ids]
+            known = [i for i in int_ids if i is not None]
+            self.remove(known)
+            return len(set(known)) == len(int_ids)
         except Exception as e:
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
 
+    def _resolve_id(self, id: Union[str, int]) -> Optional[int]:
+        """Return the position of a stored vector, or None for an unknown ID."""
+        if str(id).isdecimal():
+            vector_id = int(id)
+            if str(vector_id) == str(id) and vector_id < len(self.vectors):
+                if self.vectors[vector_id] is not None:
+                    return vector_id
+        return None
+
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
     ) -> bool:
@@ -130,8 +140,8 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_id = int(id)
-            if int_id >= len(self.vectors):
+            int_id = self._resolve_id(id)
+            if int_id is None:
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
             if metadata is None:
@@ -295,7 +305,7 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Mark as removed (Annoy doesn't support efficient removal)
                 self.vectors[vector_id] = None
                 self.metadata[vector_id] = None
-- 
2.43.0


From 1ef0d1d029e102f88c41c2b7b2ce46e8d0ea4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 10/85] fix: Annoy search never returns removed vectors

---
 src/valori/indices/annoy.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 726068f..5708042 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -271,14 +271,21 @@ class AnnoyIndex(Index):
         )
 
         # Search for nearest neighbors
+        # Removed vectors stay in the trees, so ask for enough neighbors to skip them
+        num_removed = sum(1 for v in self.vectors if v is None)
         neighbor_ids, distances = self._annoy_index.get_nns_by_vector(
-            query_vector, k, search_k=search_k, include_distances=True
+            query_vector, k + num_removed, search_k=search_k, include_distances=True
         )
 
         # Convert to results format
         results = []
         for neighbor_id, distance in zip(neighbor_ids, distances):
-            if neighbor_id < len(self.vectors):
+            if len(results) >= k:
+                break
+            if (
+                neighbor_id < len(self.vectors)
+                and self.vectors[neighbor_id] is not None
+            ):
                 # Convert distance to similarity based on metric
                 similarity = self._distance_to_similarity(distance)
 
-- 
2.43.0


From 2cd754858f7519fbf6037a98c87aafb1abe8a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 11/85] fix: Annoy index survives insert, update and clear
 after build

Inserting after build raised from the annoy library with the vectors list
already extended (ids and metadata shifted from then on), update destroyed the
record it was meant to replace, and nothing could be added after clear().
build() now starts over from the stored vectors, and a changed index has to be
built again before it is searched.
---
 src/valori/indices/annoy.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 5708042..ce9e550 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -144,17 +144,14 @@ class AnnoyIndex(Index):
             if int_id is None:
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
-            if metadata is None:
-                metadata = self.metadata[int_id]
+            validate_vector(vector, self.dimension, self.dimension)
 
-            # Remove old vector
-            self.remove([int_id])
+            self.vectors[int_id] = vector.copy()
+            if metadata is not None:
+                self.metadata[int_id] = copy.deepcopy(metadata)
 
-            # Add new vector (but reuse the same ID by temporarily modifying _next_id)
-            old_next_id = self._next_id
-            self._next_id = int_id
-            self.add(vector.reshape(1, -1), [metadata])
-            self._next_id = old_next_id
+            # The trees no longer match the vectors
+            self._built = False
 
             return True
         except Exception as e:
@@ -206,8 +203,8 @@ class AnnoyIndex(Index):
             self.vectors.append(vector.copy())
             self.metadata.append(copy.deepcopy(metadata[i] or {}))
 
-            # Add to Annoy index
-            self._annoy_index.add_item(vector_id, vector.astype(np.float32))
+            # The trees no longer match the vectors
+            self._built = False
 
             assigned_ids.append(vector_id)
 
@@ -224,7 +221,17 @@ class AnnoyIndex(Index):
 
         # Only build if there's an annoy index instance
         if self._annoy_index is not None:
+            # A built Annoy index is immutable, so start over from the stored vectors
+            self._create_annoy_index()
+            for vector_id, vector in enumerate(self.vectors):
+                if vector is not None:
+                    self._annoy_index.add_item(vector_id, vector.astype(np.float32))
+
             if self.build_on_disk:
+                if self._temp_file is None:
+                    fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
+                    os.close(fd)
+
                 # Build on disk
                 self._annoy_index.build(self.num_trees)
                 self._annoy_index.save(self._temp_file)
@@ -321,6 +328,7 @@ class AnnoyIndex(Index):
         """Clear all vectors from the index."""
         self.vectors.clear()
         self.metadata.clear()
+        self.dimension = None
         self._next_id = 0
         self._built = False
 
-- 
2.43.0


From 4e301b25a0b303ca806ae3ab4908ae874de1da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 12/85] fix: an Annoy index loaded from disk can be searched

load() restored the trees but not the ids and metadata, so every search on a
loaded index returned nothing.
---
 src/valori/indices/annoy.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index ce9e550..2820336 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -404,6 +404,7 @@ class AnnoyIndex(Index):
                 "dimension": self.dimension,
                 "metric": self.metric,
                 "num_trees": self.num_trees,
+                "metadata": self.metadata,
             }
             with open(metadata_path, "w") as f:
                 json.dump(metadata, f)
@@ -419,12 +420,14 @@ class AnnoyIndex(Index):
         # Load metadata first
         import json
 
+        stored_metadata = None
         metadata_path = filepath + ".meta"
         if os.path.exists(metadata_path):
             with open(metadata_path, "r") as f:
                 metadata = json.load(f)
                 self.dimension = metadata.get("dimension")
                 self.metric = metadata.get("metric", self.metric)
+                stored_metadata = metadata.get("metadata")
                 # num_trees already set from config during init
         else:
             # Fallback: if no metadata file, try to infer from index properties
@@ -439,8 +442,20 @@ class AnnoyIndex(Index):
         self._annoy_index.load(filepath)
         self._built = True
 
-        # Note: When loading from disk, we lose the original vectors and metadata
-        # This is a limitation of Annoy - it only stores the tree structure
+        # Annoy keeps a float32 copy of every vector; removed ones have no metadata
+        num_items = self._annoy_index.get_n_items()
+        if stored_metadata is None:
+            stored_metadata = [{} for _ in range(num_items)]
+        self.metadata = stored_metadata
+        self.vectors = [
+            (
+                np.array(self._annoy_index.get_item_vector(i), dtype=np.float32)
+                if meta is not None and i < num_items
+                else None
+            )
+            for i, meta in enumerate(self.metadata)
+        ]
+        self._next_id = len(self.vectors)
 
     def close(self) -> None:
         """Close the index and clean up resources."""
-- 
2.43.0


From 91f0b3eff2b2bbc36ff0386d97eb8d94c3b4e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 13/85] fix: flat, HNSW and IVF indices reject vectors that
 poison the collection

A vector of another dimension or with NaN/inf was stored and from then on every
search of the collection failed (flat) or returned garbage order or silently
broadcast distances (HNSW, IVF). LSH and Annoy already rejected both.
---
 src/valori/indices/base.py | 28 +++++++++++++++++++++++++++-
 src/valori/indices/flat.py |  7 +++++++
 src/valori/indices/hnsw.py |  7 +++++++
 src/valori/indices/ivf.py  |  7 +++++++
 4 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 92fe8dd..8ec7759 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -3,10 +3,11 @@ Base index interface for the valori vector database.
 """
 
 from abc import ABC, abstractmethod
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, Iterable, List, Optional
 
 import numpy as np
 
+from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
 
 
@@ -38,6 +39,31 @@ class Index(ABC):
         """
         pass
 
+    def _check_vectors(self, vectors: np.ndarray, known_ids: Iterable[str]) -> None:
+        """
+        Reject vectors that cannot live in, or be compared with, this collection.
+
+        Args:
+            vectors: Array whose last axis is the vector dimension
+            known_ids: IDs of the vectors already in the collection
+        """
+        dimension = vectors.shape[-1]
+        if dimension == 0:
+            raise ValoriIndexError("Vector dimension cannot be zero")
+
+        if not np.all(np.isfinite(vectors)):
+            raise ValoriIndexError("Vectors contain NaN or infinite values")
+
+        for known_id in known_ids:
+            known = self.storage_backend.retrieve_vector(known_id)
+            if known is not None:
+                if known[0].shape[-1] != dimension:
+                    raise ValoriIndexError(
+                        f"Vector dimension mismatch: expected {known[0].shape[-1]}, "
+                        f"got {dimension}"
+                    )
+                return
+
     @abstractmethod
     def insert(
         self, vectors: np.ndarray, metadata: Optional[List[Dict]] = None
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 94af9ce..76a10b8 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -55,6 +55,7 @@ class FlatIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_vectors(vectors, self.vector_ids)
             inserted_ids = []
 
             sb = self.storage_backend
@@ -97,6 +98,8 @@ class FlatIndex(Index):
             if not self.vector_ids:
                 return []
 
+            self._check_vectors(query_vector, self.vector_ids)
+
             # Limit k to available vectors
             k = min(k, len(self.vector_ids))
 
@@ -202,6 +205,10 @@ class FlatIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector, self.vector_ids)
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e42f079..5f2d169 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -71,6 +71,7 @@ class HNSWIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_vectors(vectors, self.vectors)
             inserted_ids = []
 
             for i, vector in enumerate(vectors):
@@ -110,6 +111,8 @@ class HNSWIndex(Index):
             if not self.vectors:
                 return []
 
+            self._check_vectors(query_vector, self.vectors)
+
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
@@ -221,6 +224,10 @@ class HNSWIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector, self.vectors)
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index d93643f..0235184 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -66,6 +66,7 @@ class IVFIndex(Index):
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
+            self._check_vectors(vectors, self.vector_ids)
             inserted_ids = []
 
             for i, vector in enumerate(vectors):
@@ -115,6 +116,8 @@ class IVFIndex(Index):
             if not self.vector_ids:
                 return []
 
+            self._check_vectors(query_vector, self.vector_ids)
+
             # If not trained, fall back to brute force
             if not self._trained:
                 return self._brute_force_search(query_vector, k)
@@ -224,6 +227,10 @@ class IVFIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector, self.vector_ids)
+
             # Update in storage
             if not sb.update_vector(id, vector, metadata):
                 return False
-- 
2.43.0


From 56a8594cacc46668bf9fb03bf1a664bd1b777e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 14/85] fix: HNSW search returns distinct nearest neighbours
 and never loses the collection

Search looked at the neighbours of one arbitrary node only, returned the same id
several times, dropped the entry point on the way down, and returned nothing at
all once the top level had been emptied by deletes or held a single node. It is
now a greedy descent followed by a best-first search with ef_search candidates.
---
 src/valori/indices/hnsw.py | 105 ++++++++++++++++++++-----------------
 1 file changed, 58 insertions(+), 47 deletions(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 5f2d169..9276483 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -2,8 +2,10 @@
 HNSW (Hierarchical Navigable Small World) index implementation for the Vectara vector database.
 """
 
+import heapq
+import itertools
 import uuid
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
 
@@ -45,8 +47,11 @@ class HNSWIndex(Index):
         self.storage_backend = storage_backend
         self._initialized = True
 
-        # Initialize level 0
+        # Start from an empty graph with level 0 only
         self.levels = [{}]
+        self.vectors = {}
+        self.max_level = 0
+        self._vector_count = 0
 
         # Load existing vectors if any
         try:
@@ -116,54 +121,20 @@ class HNSWIndex(Index):
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
-            # Start from top level
-            current_level = min(self.max_level, len(self.levels) - 1)
-            candidates = []
-
-            # Find entry point at highest level
-            if current_level >= 0 and self.levels[current_level]:
-                # Start from a random node at top level (simplified)
-                entry_point = next(iter(self.levels[current_level].keys()))
-                candidates = [
-                    (
-                        entry_point,
-                        self._compute_distance(query_vector, self.vectors[entry_point]),
-                    )
-                ]
-
-            # Traverse down levels
-            while current_level > 0:
-                new_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[current_level]:
-                        for neighbor_id in self.levels[current_level][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                new_candidates.append((neighbor_id, distance))
-
-                # Keep best candidates
-                new_candidates.sort(key=lambda x: x[1])
-                candidates = new_candidates[: self.ef_search]
-                current_level -= 1
+            # Descend greedily through the upper levels
+            levels = [l for l in range(len(self.levels)) if self.levels[l]]
+            entry_point = next(iter(self.levels[levels[-1]]))
+            for level in reversed(levels[1:]):
+                entry_point = self._search_level(query_vector, entry_point, 1, level)[
+                    0
+                ][0]
 
             # Final search at level 0
-            if current_level == 0 and candidates:
-                final_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[0]:
-                        for neighbor_id in self.levels[0][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                final_candidates.append((neighbor_id, distance))
-
-                candidates.extend(final_candidates)
+            candidates = self._search_level(
+                query_vector, entry_point, max(self.ef_search, k), 0
+            )
 
             # Sort and return top k
-            candidates.sort(key=lambda x: x[1])
             top_k = candidates[:k]
 
             results = []
@@ -176,7 +147,7 @@ class HNSWIndex(Index):
                 results.append(
                     {
                         "id": node_id,
-                        "distance": distance,
+                        "distance": float(distance),
                         "metadata": metadata,
                     }
                 )
@@ -308,6 +279,46 @@ class HNSWIndex(Index):
                         if neighbor_id not in self.levels[l][vector_id]:
                             self.levels[l][vector_id].append(neighbor_id)
 
+    def _search_level(
+        self, query_vector: np.ndarray, entry_point: str, ef: int, level: int
+    ) -> List[Tuple[str, float]]:
+        """Best-first search of one level; returns up to ef nodes, nearest first."""
+        graph = self.levels[level]
+        visited = set()
+        best: List[Tuple[float, str]] = []  # max-heap on distance
+
+        # Other start nodes only matter when they cannot be reached from the entry point
+        for start in itertools.chain([entry_point], graph):
+            if len(best) >= ef:
+                break
+            if start in visited:
+                continue
+
+            visited.add(start)
+            frontier = [
+                (self._compute_distance(query_vector, self.vectors[start]), start)
+            ]
+            heapq.heappush(best, (-frontier[0][0], start))
+
+            while frontier:
+                distance, node_id = heapq.heappop(frontier)
+                if len(best) >= ef and distance > -best[0][0]:
+                    break
+                for neighbor_id in graph[node_id]:
+                    if neighbor_id in visited or neighbor_id not in graph:
+                        continue
+                    visited.add(neighbor_id)
+                    distance = self._compute_distance(
+                        query_vector, self.vectors[neighbor_id]
+                    )
+                    if len(best) < ef or distance < -best[0][0]:
+                        heapq.heappush(frontier, (distance, neighbor_id))
+                        heapq.heappush(best, (-distance, neighbor_id))
+                        if len(best) > ef:
+                            heapq.heappop(best)
+
+        return [(node_id, -d) for d, node_id in sorted(best, reverse=True)]
+
     def _remove_vector_internal(self, vector_id: str) -> None:
         """Internal method to remove vector from HNSW graph."""
         if vector_id in self.vectors:
-- 
2.43.0


From 29cfe014e806236ff8c1831582f19e198e69cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 15/85] fix: DiskStorage writes records atomically

np.save and pickle.dump wrote over the live files, so a crash, a full disk or
metadata that cannot be pickled in the middle of store/update destroyed the
previous record and left a file that made every later retrieve (and the
initialisation of any index over the storage) fail.
---
 src/valori/storage/disk.py | 57 +++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 28f41a5..c62e6e6 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -5,7 +5,7 @@ Disk-based storage backend for the valori vector database.
 import os
 import pickle
 from pathlib import Path
-from typing import Any, Dict, List, Optional, Tuple
+from typing import Any, Callable, Dict, List, Optional, Tuple
 from urllib.parse import quote, unquote
 
 import numpy as np
@@ -58,20 +58,8 @@ class DiskStorage(StorageBackend):
             # Sanitize ID for filesystem
             safe_id = self._sanitize_id(id)
 
-            # Store vector
-            vector_path = self.vectors_dir / f"{safe_id}.npy"
-            np.save(vector_path, vector)
-
-            # Store metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file if exists
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Store vector and metadata
+            self._write_record(safe_id, vector, metadata)
 
             self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
             return True
@@ -149,19 +137,8 @@ class DiskStorage(StorageBackend):
             if not vector_path.exists():
                 return False
 
-            # Update vector
-            np.save(vector_path, vector)
-
-            # Update metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Update vector and metadata
+            self._write_record(safe_id, vector, metadata)
 
             return True
 
@@ -218,6 +195,30 @@ class DiskStorage(StorageBackend):
         """Close the disk storage backend."""
         self._initialized = False
 
+    def _write_record(
+        self, safe_id: str, vector: np.ndarray, metadata: Optional[Dict]
+    ) -> None:
+        """Write a record; the vector file, which makes it exist, comes last."""
+        metadata_path = self.metadata_dir / f"{safe_id}.pkl"
+        if metadata is not None:
+            self._replace_file(metadata_path, lambda f: pickle.dump(metadata, f))
+        elif metadata_path.exists():
+            metadata_path.unlink()
+
+        vector_path = self.vectors_dir / f"{safe_id}.npy"
+        self._replace_file(vector_path, lambda f: np.save(f, vector))
+
+    def _replace_file(self, path: Path, write: Callable[[Any], None]) -> None:
+        """Replace a file so that a failure half-way leaves the old content."""
+        temp_path = path.with_name(f"{path.name}.tmp")
+        try:
+            with open(temp_path, "wb") as f:
+                write(f)
+            os.replace(temp_path, path)
+        finally:
+            if temp_path.exists():
+                temp_path.unlink()
+
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
         # Percent-encode other characters so that distinct IDs never share a file
-- 
2.43.0


From 839a2f9fee134dc46c0d8d5f98b2eb18e9671964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 16/85] fix: persistence managers replace files atomically

---
 src/valori/persistence/base.py        | 22 +++++++++++++++++++++-
 src/valori/persistence/incremental.py | 23 ++++++++++++++++-------
 src/valori/persistence/tensor.py      | 24 ++++++++++++++----------
 3 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index c711a5c..499fc50 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -2,8 +2,11 @@
 Base persistence interface for the valori vector database.
 """
 
+import os
+import uuid
 from abc import ABC, abstractmethod
-from typing import Any, Dict, Optional, Tuple
+from pathlib import Path
+from typing import Any, Callable, Dict, Optional, Tuple
 
 import numpy as np
 
@@ -21,6 +24,23 @@ class PersistenceManager(ABC):
         self.config = config
         self._initialized = False
 
+    @staticmethod
+    def _replace_file(path: Path, write: Callable[[Any], None]) -> None:
+        """Replace a file so that a failure half-way leaves the old content."""
+        temp_path = path.with_name(f"{path.name}.{uuid.uuid4().hex}.tmp")
+        try:
+            with open(temp_path, "wb") as f:
+                write(f)
+            os.replace(temp_path, path)
+        finally:
+            if temp_path.exists():
+                temp_path.unlink()
+
+    @staticmethod
+    def _npz_path(path: Path) -> Path:
+        """Path of a vector file; numpy archives always end in .npz."""
+        return path if path.name.endswith(".npz") else Path(f"{path}.npz")
+
     @abstractmethod
     def initialize(self) -> None:
         """Initialize the persistence manager."""
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index ffb8653..d74c9dd 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -62,8 +62,10 @@ class IncrementalPersistence(PersistenceManager):
         try:
             # Create checkpoint
             checkpoint_path = self.data_dir / f"checkpoint_{self._operation_count}.pkl"
-            with open(checkpoint_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._replace_file(
+                checkpoint_path,
+                lambda f: pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             # Update checkpoint info
             self._last_checkpoint = self._operation_count
@@ -114,7 +116,10 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save vectors
-            np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            self._replace_file(
+                self._npz_path(file_path),
+                lambda f: np.savez(f, vectors=vectors, ids=np.array(ids)),
+            )
 
             # Log operation
             self._log_operation(
@@ -161,8 +166,10 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save index data
-            with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._replace_file(
+                file_path,
+                lambda f: pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             # Log operation
             self._log_operation("save_index", {"path": path})
@@ -280,8 +287,10 @@ class IncrementalPersistence(PersistenceManager):
                 "timestamp": datetime.now().isoformat(),
             }
 
-            with open(self.checkpoint_file, "w") as f:
-                json.dump(checkpoint_info, f)
+            self._replace_file(
+                self.checkpoint_file,
+                lambda f: f.write(json.dumps(checkpoint_info).encode("utf-8")),
+            )
 
         except Exception as e:
             raise PersistenceError(f"Failed to save checkpoint info: {str(e)}")
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index bf96d23..0fed8fe 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -46,8 +46,10 @@ class TensorPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._replace_file(
+                file_path,
+                lambda f: pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             self._save_count += 1
             return True
@@ -86,12 +88,12 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            if self.compression:
-                # Save with compression
-                np.savez_compressed(file_path, vectors=vectors, ids=np.array(ids))
-            else:
-                # Save without compression
-                np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            # Save with or without compression
+            savez = np.savez_compressed if self.compression else np.savez
+            self._replace_file(
+                self._npz_path(file_path),
+                lambda f: savez(f, vectors=vectors, ids=np.array(ids)),
+            )
 
             self._save_count += 1
             return True
@@ -132,8 +134,10 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._replace_file(
+                file_path,
+                lambda f: pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             self._save_count += 1
             return True
-- 
2.43.0


From cf89a5c0ef29927c08109f7c2385b739c738fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 17/85] fix: vectors saved under a path without .npz can be
 loaded

---
 src/valori/persistence/incremental.py | 2 +-
 src/valori/persistence/tensor.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index d74c9dd..a4f5e48 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -142,7 +142,7 @@ class IncrementalPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = self._npz_path(self.data_dir / path)
 
             if not file_path.exists():
                 return None, None
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index 0fed8fe..569f229 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -107,7 +107,7 @@ class TensorPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = self._npz_path(self.data_dir / path)
 
             if not file_path.exists():
                 return None, None
-- 
2.43.0


From 8ad3ad41626e71c7459f6b073a60e3f82789843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 18/85] fix: persisted vector ids come back unchanged

---
 src/valori/persistence/base.py        | 18 ++++++++++++++++++
 src/valori/persistence/incremental.py |  4 ++--
 src/valori/persistence/tensor.py      |  4 ++--
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index 499fc50..e7d99ff 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -41,6 +41,24 @@ class PersistenceManager(ABC):
         """Path of a vector file; numpy archives always end in .npz."""
         return path if path.name.endswith(".npz") else Path(f"{path}.npz")
 
+    @staticmethod
+    def _pack_ids(ids: list) -> np.ndarray:
+        """Put IDs in an array that gives the same IDs back."""
+        ids = list(ids)
+        try:
+            packed = np.array(ids)
+            restored = packed.tolist()
+        except ValueError:
+            restored = None
+        if restored == ids and [type(i) for i in restored] == [type(i) for i in ids]:
+            return packed
+
+        # numpy would convert these (mixed types, trailing NULs, nested sequences)
+        packed = np.empty(len(ids), dtype=object)
+        for position, id in enumerate(ids):
+            packed[position] = id
+        return packed
+
     @abstractmethod
     def initialize(self) -> None:
         """Initialize the persistence manager."""
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index a4f5e48..60b7bed 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -118,7 +118,7 @@ class IncrementalPersistence(PersistenceManager):
             # Save vectors
             self._replace_file(
                 self._npz_path(file_path),
-                lambda f: np.savez(f, vectors=vectors, ids=np.array(ids)),
+                lambda f: np.savez(f, vectors=vectors, ids=self._pack_ids(ids)),
             )
 
             # Log operation
@@ -147,7 +147,7 @@ class IncrementalPersistence(PersistenceManager):
             if not file_path.exists():
                 return None, None
 
-            data = np.load(file_path)
+            data = np.load(file_path, allow_pickle=True)
             vectors = data["vectors"]
             ids = data["ids"].tolist()
 
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index 569f229..2bb4ba8 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -92,7 +92,7 @@ class TensorPersistence(PersistenceManager):
             savez = np.savez_compressed if self.compression else np.savez
             self._replace_file(
                 self._npz_path(file_path),
-                lambda f: savez(f, vectors=vectors, ids=np.array(ids)),
+                lambda f: savez(f, vectors=vectors, ids=self._pack_ids(ids)),
             )
 
             self._save_count += 1
@@ -113,7 +113,7 @@ class TensorPersistence(PersistenceManager):
                 return None, None
 
             # Load vectors and IDs
-            data = np.load(file_path)
+            data = np.load(file_path, allow_pickle=True)
             vectors = data["vectors"]
             ids = data["ids"].tolist()
 
-- 
2.43.0


From 3689a84909bc20c9fa3d7c625d98c8f6601547e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 19/85] fix: IncrementalPersistence resumes after its log and
 checkpoints

The numbering restarted too low after a reopen or a lost checkpoint.json, so
load_state could return an older state than the last one saved; a torn log line
swallowed the next entry; ids that are not JSON failed the call after the
vectors had been written.
---
 src/valori/persistence/incremental.py | 48 ++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 60b7bed..649800f 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -3,6 +3,7 @@ Incremental persistence implementation for the valori vector database.
 """
 
 import json
+import os
 import pickle
 from datetime import datetime
 from pathlib import Path
@@ -47,6 +48,7 @@ class IncrementalPersistence(PersistenceManager):
 
             # Load checkpoint info
             self._load_checkpoint_info()
+            self._recover_operation_count()
 
             self._initialized = True
         except Exception as e:
@@ -87,13 +89,12 @@ class IncrementalPersistence(PersistenceManager):
 
         try:
             # Find latest checkpoint
-            checkpoint_files = list(self.data_dir.glob("checkpoint_*.pkl"))
-            if not checkpoint_files:
+            checkpoints = self._find_checkpoints()
+            if not checkpoints:
                 return None
 
-            # Sort by operation count
-            checkpoint_files.sort(key=lambda x: int(x.stem.split("_")[1]))
-            latest_checkpoint = checkpoint_files[-1]
+            # Latest by operation count
+            latest_checkpoint = checkpoints[max(checkpoints)]
 
             with open(latest_checkpoint, "rb") as f:
                 state = pickle.load(f)
@@ -212,7 +213,7 @@ class IncrementalPersistence(PersistenceManager):
 
             # Calculate disk usage
             total_size = 0
-            checkpoint_count = len(list(self.data_dir.glob("checkpoint_*.pkl")))
+            checkpoint_count = len(self._find_checkpoints())
 
             for file_path in self.data_dir.rglob("*"):
                 if file_path.is_file():
@@ -252,8 +253,14 @@ class IncrementalPersistence(PersistenceManager):
                 "operation_id": self._operation_count,
             }
 
-            with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry) + "\n")
+            with open(self.log_file, "ab+") as f:
+                entry = json.dumps(log_entry, default=str) + "\n"
+                # Do not append to a line that an interrupted write left unfinished
+                if f.tell() > 0:
+                    f.seek(-1, os.SEEK_END)
+                    if f.read(1) != b"\n":
+                        entry = "\n" + entry
+                f.write(entry.encode("utf-8"))
 
             self._operation_count += 1
 
@@ -313,6 +320,31 @@ class IncrementalPersistence(PersistenceManager):
             self._last_checkpoint = 0
             self._operation_count = 0
 
+    def _recover_operation_count(self) -> None:
+        """Continue after the last logged operation and the latest checkpoint."""
+        with open(self.log_file, "rb") as f:
+            for line in f:
+                try:
+                    operation_id = json.loads(line)["operation_id"]
+                    self._operation_count = max(self._operation_count, operation_id + 1)
+                except (ValueError, KeyError, TypeError):
+                    # Blank line, or the rest of an interrupted write
+                    continue
+
+        # A checkpoint is logged after it is written
+        checkpoints = self._find_checkpoints()
+        if checkpoints:
+            self._operation_count = max(self._operation_count, max(checkpoints) + 1)
+
+    def _find_checkpoints(self) -> Dict[int, Path]:
+        """Map operation counts to state checkpoint files."""
+        checkpoints = {}
+        for file_path in self.data_dir.glob("checkpoint_*.pkl"):
+            count = file_path.stem.split("_", 1)[1]
+            if count.isdecimal():
+                checkpoints[int(count)] = file_path
+        return checkpoints
+
     def _replay_operations(self, state: Dict[str, Any]) -> Dict[str, Any]:
         """Replay operations since last checkpoint."""
         try:
-- 
2.43.0


From b57d7ddfddfc2fe4844304728d4826f69f6a8c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 20/85] fix: DiskStorage counts a deleted vector even if its
 metadata cannot be removed

---
 src/valori/storage/disk.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index c62e6e6..11baa11 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -107,6 +107,7 @@ class DiskStorage(StorageBackend):
             vector_deleted = False
             if vector_path.exists():
                 vector_path.unlink()
+                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
                 vector_deleted = True
 
             # Delete metadata file
@@ -114,10 +115,7 @@ class DiskStorage(StorageBackend):
             if metadata_path.exists():
                 metadata_path.unlink()
 
-            if vector_deleted:
-                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
-                return True
-            return False
+            return vector_deleted
 
         except Exception as e:
             raise StorageError(f"Failed to delete vector {id}: {str(e)}")
-- 
2.43.0


From 6f1564bc9a4c311be6ee10999286c2c1ff5563ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 21/85] fix: IVF, HNSW and LSH distances do not overflow for
 narrow dtypes

---
 src/valori/indices/hnsw.py | 3 +++
 src/valori/indices/ivf.py  | 3 +++
 src/valori/indices/lsh.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 9276483..d4cd300 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -337,6 +337,9 @@ class HNSWIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Narrow integer and float types overflow or wrap around
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 0235184..76d5f22 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -402,6 +402,9 @@ class IVFIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Narrow integer and float types overflow or wrap around
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index cc65bb4..f855350 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -391,6 +391,9 @@ class LSHIndex(Index):
 
     def _compute_distance(self, vector1: np.ndarray, vector2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Narrow integer and float types overflow or wrap around
+        vector1 = np.asarray(vector1, dtype=np.float64)
+        vector2 = np.asarray(vector2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine similarity
             dot_product = np.dot(vector1, vector2)
-- 
2.43.0


From 84f5ff9cb26ebcd1fe246aaa0f9e3630782af847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 22/85] fix: similarity functions do not overflow for narrow
 dtypes

---
 src/valori/utils/similarity.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/similarity.py b/src/valori/utils/similarity.py
index b3b7ae5..1b4c7ec 100644
--- a/src/valori/utils/similarity.py
+++ b/src/valori/utils/similarity.py
@@ -7,6 +7,11 @@ from typing import Union
 import numpy as np
 
 
+def _as_float(values: np.ndarray) -> np.ndarray:
+    """Convert to float64: narrow integer and float types overflow or wrap around."""
+    return np.asarray(values, dtype=np.float64)
+
+
 def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     """
     Compute cosine similarity between two vectors.
@@ -24,6 +29,8 @@ def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     # Compute dot product
     dot_product = np.dot(a, b)
 
@@ -74,6 +81,7 @@ def euclidean_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
     return np.linalg.norm(a - b)
 
 
@@ -94,6 +102,7 @@ def euclidean_distance_squared(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
     diff = a - b
     return np.dot(diff, diff)
 
@@ -115,6 +124,7 @@ def dot_product(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
     return np.dot(a, b)
 
 
@@ -135,6 +145,7 @@ def manhattan_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
     return np.sum(np.abs(a - b))
 
 
@@ -155,6 +166,7 @@ def chebyshev_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
     return np.max(np.abs(a - b))
 
 
@@ -243,19 +255,21 @@ def normalize_vector(vector: np.ndarray, norm: str = "l2") -> np.ndarray:
     if vector.ndim != 1:
         raise ValueError("Vector must be 1D")
 
+    values = _as_float(vector)
+
     if norm == "l2":
-        norm_value = np.linalg.norm(vector)
+        norm_value = np.linalg.norm(values)
     elif norm == "l1":
-        norm_value = np.sum(np.abs(vector))
+        norm_value = np.sum(np.abs(values))
     elif norm == "max":
-        norm_value = np.max(np.abs(vector))
+        norm_value = np.max(np.abs(values))
     else:
         raise ValueError(f"Unsupported norm: {norm}")
 
     if norm_value == 0:
         return vector.copy()
 
-    return vector / norm_value
+    return vector / float(norm_value)
 
 
 def batch_cosine_similarity(vectors_a: np.ndarray, vectors_b: np.ndarray) -> np.ndarray:
@@ -275,6 +289,8 @@ def batch_cosine_similarity(vectors_a: np.ndarray, vectors_b: np.ndarray) -> np.
     if vectors_a.shape[1] != vectors_b.shape[1]:
         raise ValueError("Vectors must have the same dimension")
 
+    vectors_a, vectors_b = _as_float(vectors_a), _as_float(vectors_b)
+
     # Compute dot products
     dot_products = np.dot(vectors_a, vectors_b.T)
 
-- 
2.43.0


From 3397f47362a93e54ab6a6c81479a18f2d49c9b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 23/85] fix: flat cosine search does not take short float32
 vectors for zero

---
 src/valori/indices/flat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 76a10b8..5c5e485 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -127,7 +127,9 @@ class FlatIndex(Index):
             if not vectors:
                 return []
 
-            vectors_array = np.array(vectors)
+            # float32 would take short vectors for zero vectors
+            vectors_array = np.array(vectors, dtype=np.float64)
+            query_vector = np.asarray(query_vector, dtype=np.float64)
 
             # Compute similarities/distances
             if self.metric == "cosine":
-- 
2.43.0


From 6c95d9bbbd8a4bd308be636e9fe483be27afba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 24/85] fix: re-initialised quantizers are untrained until
 trained again

---
 src/valori/quantization/product.py | 1 +
 src/valori/quantization/saq.py     | 1 +
 src/valori/quantization/scalar.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 9482521..220a5fa 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -35,6 +35,7 @@ class ProductQuantizer(Quantizer):
         self.centroids = None
         self.dim = None
         self.subvector_dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index e70bfb5..fb94446 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -68,6 +68,7 @@ class SAQQuantizer(Quantizer):
         self.segment_quantizers = []
         self.full_precision_vectors = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index cb05203..8782841 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -37,6 +37,7 @@ class ScalarQuantizer(Quantizer):
         self.scale = None
         self.zero_point = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
-- 
2.43.0


From 73baf60c3dba5bdbd1ed9e0964dea4afcdf2a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 25/85] fix: scalar quantizer keeps its precision for narrow
 dtypes and many bits

---
 src/valori/quantization/scalar.py | 36 ++++++++++++++++---------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 8782841..582ab25 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -28,7 +28,10 @@ class ScalarQuantizer(Quantizer):
         self.scale: Optional[np.ndarray] = None
         self.zero_point: Optional[np.ndarray] = None
         self.dim: Optional[int] = None
+        self.dtype: Optional[np.dtype] = None  # of dequantized vectors
         self.max_val = (2**self.bits) - 1
+        # float64 cannot tell more levels apart
+        self._max_code = min(self.max_val, 2**53)
 
     def initialize(self) -> None:
         """Initialize the scalar quantizer."""
@@ -51,21 +54,22 @@ class ScalarQuantizer(Quantizer):
         try:
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
-            min_vals = np.min(vectors, axis=0)
-            max_vals = np.max(vectors, axis=0)
+            # Narrow integer and float types overflow or lose codes
+            values = vectors.astype(np.float64)
+            min_vals = np.min(values, axis=0)
+            max_vals = np.max(values, axis=0)
 
             # Compute scale and zero point for quantization using local vars
             # Use a capped denom to avoid floating-point overflow for very large bit counts
-            raw_denom = (1 << int(self.bits)) - 1
-            denom_cap = float(min(raw_denom, np.iinfo(np.int64).max))
-            scales = (max_vals - min_vals) / denom_cap
+            scales = (max_vals - min_vals) / float(self._max_code)
             # Avoid zero scale values per-dimension
             scales = np.where(scales == 0, 1.0, scales)
             # For range-based uniform quantization we use zero_point = 0
             zero_pt = np.zeros_like(min_vals, dtype=np.int32)
 
             # Assign back to attributes (now narrowed)
+            self.dim = int(dim)
+            self.dtype = np.result_type(vectors.dtype, np.float32)
             self.min_values = min_vals
             self.max_values = max_vals
             self.scale = scales
@@ -107,15 +111,14 @@ class ScalarQuantizer(Quantizer):
             # Compute per-dimension quantized values in a vectorized manner
             # normalized = (vectors - min) / scale
             with np.errstate(invalid="ignore", divide="ignore"):
-                normalized_all = (vectors - self.min_values) / self.scale
+                normalized_all = (
+                    vectors.astype(np.float64) - self.min_values
+                ) / self.scale
 
             # Round and clip to valid range
             rounded = np.rint(normalized_all)
-            # Clip to the maximum representable for the chosen integer type
-            max_for_type = np.iinfo(itype).max
-            upper_bound = int(
-                self.max_val if self.max_val <= max_for_type else max_for_type
-            )
+            # Clip to the highest code
+            upper_bound = self._max_code
             clipped = np.clip(rounded, 0, upper_bound)
             clipped = np.nan_to_num(clipped, nan=0.0, posinf=upper_bound, neginf=0.0)
 
@@ -151,13 +154,11 @@ class ScalarQuantizer(Quantizer):
                 raise QuantizationError("Quantized vectors must be 2D array")
 
             n_vectors = int(quantized_vectors.shape[0])
-            dequantized = np.zeros((n_vectors, int(self.dim)), dtype=np.float32)
-
             # Vectorized dequantization
-            q_float = quantized_vectors.astype(np.float32)
+            q_float = quantized_vectors.astype(np.float64)
             dequantized = q_float * self.scale + self.min_values
 
-            return dequantized
+            return dequantized.astype(self.dtype)
 
         except Exception as e:
             raise QuantizationError(f"Failed to dequantize vectors: {str(e)}")
@@ -175,7 +176,7 @@ class ScalarQuantizer(Quantizer):
         try:
             # Align query and codes dimensions if needed
             assert self.dim is not None
-            q = query.astype(np.float32)
+            q = query.astype(np.float64)
             if q.ndim != 1:
                 q = q.reshape(-1)
             # Truncate or pad query to match trained dimension
@@ -187,6 +188,7 @@ class ScalarQuantizer(Quantizer):
 
             # Dequantize the vector
             dequantized = self.dequantize(quantized_vector.reshape(1, -1))[0]
+            dequantized = dequantized.astype(np.float64)
 
             # Compute cosine distance (assuming cosine similarity)
             dot_product = np.dot(q, dequantized)
-- 
2.43.0


From 96132fa6d8456823102062cd6b633db6f106ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 26/85] fix: quantizers refuse vectors and codes of the wrong
 shape and non-finite training data

---
 src/valori/quantization/product.py | 19 ++++++++++++++++---
 src/valori/quantization/saq.py     | 18 ++++++++++--------
 src/valori/quantization/scalar.py  | 11 ++++++++++-
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 220a5fa..6e43eac 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -46,16 +46,22 @@ class ProductQuantizer(Quantizer):
         if vectors.ndim != 2:
             raise QuantizationError("Vectors must be 2D array")
 
+        if not np.all(np.isfinite(vectors)):
+            raise QuantizationError("Training vectors must be finite")
+
+        if vectors.size == 0:
+            raise QuantizationError("Training vectors must not be empty")
+
         try:
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
 
             # Check if dimension is divisible by m
-            if self.dim % self.m != 0:
+            if dim % self.m != 0:
                 raise QuantizationError(
-                    f"Vector dimension {self.dim} must be divisible by m={self.m}"
+                    f"Vector dimension {dim} must be divisible by m={self.m}"
                 )
 
+            self.dim = int(dim)
             self.subvector_dim = int(self.dim // self.m)
 
             # Determine effective number of clusters (can't exceed n_vectors)
@@ -104,6 +110,8 @@ class ProductQuantizer(Quantizer):
             raise QuantizationError("Quantizer not trained")
 
         try:
+            if vectors.ndim != 2 or vectors.shape[1] != self.dim:
+                raise QuantizationError(f"Vectors must be 2D with dimension {self.dim}")
             n_vectors = int(vectors.shape[0])
             assert self.subvector_dim is not None and self.centroids is not None
 
@@ -146,6 +154,11 @@ class ProductQuantizer(Quantizer):
             raise QuantizationError("Quantizer not trained")
 
         try:
+            # Accept a single code vector as well
+            if quantized_vectors.ndim == 1:
+                quantized_vectors = quantized_vectors.reshape(1, -1)
+            if quantized_vectors.ndim != 2 or quantized_vectors.shape[1] != self.m:
+                raise QuantizationError(f"Codes must be 2D with {self.m} columns")
             n_vectors = int(quantized_vectors.shape[0])
             assert self.dim is not None
             # Return dequantized vectors as float32 (match training data dtype)
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index fb94446..4d50c15 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -87,6 +87,12 @@ class SAQQuantizer(Quantizer):
         if vectors.ndim != 2:
             raise QuantizationError("Vectors must be 2D array")
 
+        if not np.all(np.isfinite(vectors)):
+            raise QuantizationError("Training vectors must be finite")
+
+        if vectors.size == 0:
+            raise QuantizationError("Training vectors must not be empty")
+
         try:
             import time
 
@@ -424,14 +430,10 @@ class SAQQuantizer(Quantizer):
             if codes.ndim == 1:
                 codes = codes.reshape(1, -1)
 
-            # If codes has one column per segment (n_vectors, n_segments)
-            if codes.shape[1] == n_segments:
-                codes_list = [codes[:, i].reshape(-1) for i in range(n_segments)]
-            else:
-                # Fallback: split by segment widths if codes are per-dimension
-                codes_list = [
-                    codes[:, start:end] for (start, end) in self.segment_boundaries
-                ]
+            # Codes have one column per segment (n_vectors, n_segments)
+            if codes.ndim != 2 or codes.shape[1] != n_segments:
+                raise QuantizationError(f"Codes must be 2D with {n_segments} columns")
+            codes_list = [codes[:, i].reshape(-1) for i in range(n_segments)]
         else:
             # Assume list-like
             codes_list = list(codes)
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 582ab25..79857a3 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -51,6 +51,9 @@ class ScalarQuantizer(Quantizer):
         if vectors.ndim != 2:
             raise QuantizationError("Vectors must be 2D array")
 
+        if not np.all(np.isfinite(vectors)):
+            raise QuantizationError("Training vectors must be finite")
+
         try:
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
@@ -99,6 +102,8 @@ class ScalarQuantizer(Quantizer):
                 and self.scale is not None
                 and self.zero_point is not None
             )
+            if vectors.shape[1] != self.dim:
+                raise QuantizationError(f"Vectors must have dimension {self.dim}")
             n_vectors = int(vectors.shape[0])
             # Choose integer dtype based on required range to avoid overflow
             if self.max_val <= np.iinfo(np.int32).max:
@@ -153,7 +158,11 @@ class ScalarQuantizer(Quantizer):
             if quantized_vectors.ndim != 2:
                 raise QuantizationError("Quantized vectors must be 2D array")
 
-            n_vectors = int(quantized_vectors.shape[0])
+            if quantized_vectors.shape[1] != self.dim:
+                raise QuantizationError(
+                    f"Quantized vectors must have dimension {self.dim}"
+                )
+
             # Vectorized dequantization
             q_float = quantized_vectors.astype(np.float64)
             dequantized = q_float * self.scale + self.min_values
-- 
2.43.0


From 33898129f1d8f3e39bb1ec6168eaca3fec1a239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 27/85] fix: SAQ keeps its configured segments and never
 allocates more bits than it has

---
 src/valori/quantization/saq.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 4d50c15..258b925 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -163,16 +163,15 @@ class SAQQuantizer(Quantizer):
         # Dynamic programming for optimal segmentation
         # This minimizes quantization error given bit budget
         # Make sure we don't allocate more segments than dimensions
-        if self.n_segments > dim:
-            self.n_segments = dim
+        n_segments = min(self.n_segments, dim)
 
-        dp = np.full((self.n_segments + 1, dim + 1), np.inf)
+        dp = np.full((n_segments + 1, dim + 1), np.inf)
         dp[0, 0] = 0
 
         # Backtracking array
-        backtrack = np.zeros((self.n_segments + 1, dim + 1), dtype=int)
+        backtrack = np.zeros((n_segments + 1, dim + 1), dtype=int)
 
-        for seg in range(1, self.n_segments + 1):
+        for seg in range(1, n_segments + 1):
             for end in range(seg, dim + 1):
                 for start in range(seg - 1, end):
                     if start == 0:
@@ -193,7 +192,7 @@ class SAQQuantizer(Quantizer):
         # Reconstruct segmentation (boundaries will cover [0, dim])
         self.segment_boundaries = []
         current_pos = dim
-        for seg in range(self.n_segments, 0, -1):
+        for seg in range(n_segments, 0, -1):
             start = backtrack[seg, current_pos]
             self.segment_boundaries.insert(0, (start, current_pos))
             current_pos = start
@@ -218,6 +217,8 @@ class SAQQuantizer(Quantizer):
                 bits = remaining_bits
             else:
                 bits = max(1, int(self.total_bits * (variance / total_variance)))
+                # Leave at least one bit for each of the other segments
+                bits = min(bits, remaining_bits - (len(segment_variances) - 1 - i))
                 remaining_bits -= bits
             self.segment_bits.append(bits)
 
-- 
2.43.0


From e136a65f57f8b835b5e9dd9c015f709ffb58934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 28/85] fix: normalize_vector does not zero float16 vectors
 whose norm exceeds float16

---
 src/valori/utils/similarity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/similarity.py b/src/valori/utils/similarity.py
index 1b4c7ec..818e79f 100644
--- a/src/valori/utils/similarity.py
+++ b/src/valori/utils/similarity.py
@@ -269,7 +269,11 @@ def normalize_vector(vector: np.ndarray, norm: str = "l2") -> np.ndarray:
     if norm_value == 0:
         return vector.copy()
 
-    return vector / float(norm_value)
+    normalized = values / norm_value
+    # The norm of a narrow float vector need not fit its dtype; the result does
+    if vector.dtype.kind == "f":
+        return normalized.astype(vector.dtype)
+    return normalized
 
 
 def batch_cosine_similarity(vectors_a: np.ndarray, vectors_b: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 9d60518707ebea7c53d7536c704935d2ca14c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 29/85] fix: vector normalization and similarity matrices are
 right for short and integer vectors

---
 src/valori/utils/helpers.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 1fcc271..ccaf57f 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -130,26 +130,32 @@ def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     Returns:
         Normalized vectors
     """
+    # Narrow integer and float types overflow or wrap around
+    values = np.asarray(vectors, dtype=np.float64)
+
     if method == "l2":
-        norms = np.linalg.norm(vectors, axis=1, keepdims=True)
-        return vectors / (norms + 1e-8)
+        scale = np.linalg.norm(values, axis=1, keepdims=True)
 
     elif method == "l1":
-        norms = np.sum(np.abs(vectors), axis=1, keepdims=True)
-        return vectors / (norms + 1e-8)
+        scale = np.sum(np.abs(values), axis=1, keepdims=True)
 
     elif method == "max":
-        max_vals = np.max(np.abs(vectors), axis=1, keepdims=True)
-        return vectors / (max_vals + 1e-8)
+        scale = np.max(np.abs(values), axis=1, keepdims=True)
 
     elif method == "minmax":
-        min_vals = np.min(vectors, axis=1, keepdims=True)
-        max_vals = np.max(vectors, axis=1, keepdims=True)
-        return (vectors - min_vals) / (max_vals - min_vals + 1e-8)
+        min_vals = np.min(values, axis=1, keepdims=True)
+        values = values - min_vals
+        scale = np.max(values, axis=1, keepdims=True)
 
     else:
         raise ValidationError(f"Unknown normalization method: {method}")
 
+    # Zero (for minmax: constant) vectors have no direction and become zero
+    normalized = values / np.where(scale == 0, 1.0, scale)
+    if vectors.dtype.kind == "f":
+        return normalized.astype(vectors.dtype)
+    return normalized
+
 
 def compute_similarity_matrix(
     vectors: np.ndarray, metric: str = "cosine"
@@ -164,6 +170,8 @@ def compute_similarity_matrix(
     Returns:
         Similarity matrix
     """
+    vectors = np.asarray(vectors, dtype=np.float64)
+
     if metric == "cosine":
         # Normalize vectors
         normalized = normalize_vectors(vectors, "l2")
-- 
2.43.0


From e1ea2f887a6b2e943c2999a3b62671007c363d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 30/85] fix: vectors saved as JSON keep their shape and dtype

---
 src/valori/utils/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index ccaf57f..2a594d4 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -290,6 +290,7 @@ def save_vectors_to_file(
             "vectors": vectors.tolist(),
             "metadata": metadata,
             "shape": vectors.shape,
+            "dtype": vectors.dtype.str,
         }
         with open(filepath, "w") as f:
             json.dump(data, f, indent=2)
@@ -326,7 +327,8 @@ def load_vectors_from_file(
     elif filepath.suffix == ".json":
         with open(filepath, "r") as f:
             data = json.load(f)
-            vectors = np.array(data["vectors"])
+            vectors = np.array(data["vectors"], dtype=data.get("dtype"))
+            vectors = vectors.reshape(data.get("shape", vectors.shape))
             metadata = data["metadata"]
 
     else:
-- 
2.43.0


From 6d2e0669cc2d2736f5fa390c317d511e945e972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 31/85] fix: memory_usage_decorator does not call a function
 twice that raises ImportError

---
 src/valori/utils/helpers.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 2a594d4..ab5110a 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -358,23 +358,22 @@ def memory_usage_decorator(func):
     def wrapper(*args, **kwargs):
         try:
             import psutil
+        except ImportError:
+            print("psutil not available for memory monitoring")
+            return func(*args, **kwargs)
 
-            process = psutil.Process()
-
-            # Get memory before
-            mem_before = process.memory_info().rss / 1024 / 1024  # MB
+        process = psutil.Process()
 
-            result = func(*args, **kwargs)
+        # Get memory before
+        mem_before = process.memory_info().rss / 1024 / 1024  # MB
 
-            # Get memory after
-            mem_after = process.memory_info().rss / 1024 / 1024  # MB
+        result = func(*args, **kwargs)
 
-            print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
-            return result
+        # Get memory after
+        mem_after = process.memory_info().rss / 1024 / 1024  # MB
 
-        except ImportError:
-            print("psutil not available for memory monitoring")
-            return func(*args, **kwargs)
+        print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
+        return result
 
     return wrapper
 
-- 
2.43.0


From ff013dadda390cff1124a3339ea2cd2e242a3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 32/85] fix: validate_index_performance inserts with the method
 indices have

---
 src/valori/utils/helpers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index ab5110a..9614d11 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -462,7 +462,7 @@ def validate_index_performance(
     # Add vectors
     start_time = time.time()
     metadata = [{"id": i} for i in range(len(test_vectors))]
-    ids = index.add(test_vectors, metadata)
+    ids = index.insert(test_vectors, metadata)
 
     if hasattr(index, "build"):
         index.build()
@@ -477,12 +477,15 @@ def validate_index_performance(
         search_times.append(time.time() - start_time)
 
     # Calculate metrics
-    avg_search_time = np.mean(search_times)
-    search_throughput = len(test_queries) / sum(search_times)
+    avg_search_time = float(np.mean(search_times)) if search_times else 0.0
+    total_search_time = sum(search_times)
+    search_throughput = (
+        len(test_queries) / total_search_time if total_search_time > 0 else 0.0
+    )
 
     return {
         "add_time": add_time,
-        "add_throughput": len(test_vectors) / add_time,
+        "add_throughput": len(test_vectors) / add_time if add_time > 0 else 0.0,
         "avg_search_time": avg_search_time,
         "search_throughput": search_throughput,
         "index_stats": index.get_stats(),
-- 
2.43.0


From 4adfde6eb595f4e569796149d91df09b3f4a6a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 33/85] fix: validators refuse non-numeric vectors and NaN
 configuration values with ValidationError

---
 src/valori/utils/validation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 7e057d2..0defa7d 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -56,6 +56,9 @@ def validate_vector(
             f"Vector dtype {vector.dtype} does not match expected {dtype}"
         )
 
+    if vector.dtype.kind not in "biufc":
+        raise ValidationError(f"Vector dtype {vector.dtype} is not numeric")
+
     if not allow_zero and np.all(vector == 0):
         raise ValidationError("Zero vector not allowed")
 
@@ -118,6 +121,9 @@ def validate_vectors(
             f"Vectors dtype {vectors.dtype} does not match expected {dtype}"
         )
 
+    if vectors.dtype.kind not in "biufc":
+        raise ValidationError(f"Vectors dtype {vectors.dtype} is not numeric")
+
     if not allow_zero:
         zero_vectors = np.all(vectors == 0, axis=1)
         if np.any(zero_vectors):
@@ -183,7 +189,7 @@ def validate_config(
             if key in config:
                 value = config[key]
                 if isinstance(value, (int, float)):
-                    if value < min_val or value > max_val:
+                    if not min_val <= value <= max_val:
                         raise ValidationError(
                             f"Key '{key}' value {value} is outside range [{min_val}, {max_val}]"
                         )
-- 
2.43.0


From 9b570c8db66b88c070d1ea470b190c06f4a48ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 34/85] fix: chunking stops at the end of the text and always
 moves on

---
 src/valori/parsers/office_parser.py |  9 +++++++--
 src/valori/parsers/pdf_parser.py    | 10 +++++++---
 src/valori/parsers/text_parser.py   | 10 +++++++---
 src/valori/processors/chunking.py   | 12 ++++++++++--
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index 28917ce..bd1516f 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -275,7 +275,7 @@ class OfficeParser(DocumentParser):
             # Try to break at logical boundaries
             if end < len(text):
                 last_newline = text.rfind("\n", start, end)
-                if last_newline > start + self.chunk_size // 2:
+                if last_newline > start + max(self.chunk_size // 2, self.chunk_overlap):
                     end = last_newline + 1
 
             chunk_text = text[start:end].strip()
@@ -291,6 +291,11 @@ class OfficeParser(DocumentParser):
                 )
                 chunk_id += 1
 
-            start = max(end - self.chunk_overlap, start + 1)
+            # The rest of the text lies in this chunk
+            if end == len(text):
+                break
+
+            # Move start position with overlap, if that gets ahead of this chunk
+            start = end - self.chunk_overlap if end - self.chunk_overlap > start else end
 
         return chunks
diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index ef00c0e..996a72d 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -178,7 +178,7 @@ class PDFParser(DocumentParser):
             # Try to break at paragraph boundary
             if end < len(text):
                 last_newline = text.rfind("\n\n", start, end)
-                if last_newline > start + self.chunk_size // 2:
+                if last_newline > start + max(self.chunk_size // 2, self.chunk_overlap):
                     end = last_newline + 2
 
             chunk_text = text[start:end].strip()
@@ -201,8 +201,12 @@ class PDFParser(DocumentParser):
                 )
                 chunk_id += 1
 
-            # Move start position with overlap
-            start = max(end - self.chunk_overlap, start + 1)
+            # The rest of the text lies in this chunk
+            if end == len(text):
+                break
+
+            # Move start position with overlap, if that gets ahead of this chunk
+            start = end - self.chunk_overlap if end - self.chunk_overlap > start else end
 
         return chunks
 
diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84fe890..fb867a2 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -141,7 +141,7 @@ class TextParser(DocumentParser):
                 last_newline = text.rfind("\n", start, end)
                 break_point = max(last_period, last_newline)
 
-                if break_point > start + self.chunk_size // 2:
+                if break_point > start + max(self.chunk_size // 2, self.chunk_overlap):
                     end = break_point + 1
 
             chunk_text = text[start:end].strip()
@@ -157,7 +157,11 @@ class TextParser(DocumentParser):
                 )
                 chunk_id += 1
 
-            # Move start position with overlap
-            start = max(end - self.chunk_overlap, start + 1)
+            # The rest of the text lies in this chunk
+            if end == len(text):
+                break
+
+            # Move start position with overlap, if that gets ahead of this chunk
+            start = end - self.chunk_overlap if end - self.chunk_overlap > start else end
 
         return chunks
diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index a7a4f64..78d0164 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -97,7 +97,7 @@ class ChunkingProcessor(DocumentProcessor):
             # Try to break at separator boundary
             if end < len(text):
                 best_break = self._find_best_break(text, start, end)
-                if best_break > start + self.min_chunk_size:
+                if best_break > start + self._min_break_offset():
                     end = best_break
 
             chunk_text = text[start:end].strip()
@@ -117,6 +117,10 @@ class ChunkingProcessor(DocumentProcessor):
                 )
                 chunk_id += 1
 
+            # The rest of the text lies in this chunk
+            if end == len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
@@ -211,6 +215,10 @@ class ChunkingProcessor(DocumentProcessor):
 
         return chunks
 
+    def _min_break_offset(self) -> int:
+        """A chunk cut at or before its overlap would not get ahead of the last one."""
+        return max(self.min_chunk_size, self.chunk_overlap)
+
     def _find_best_break(self, text: str, start: int, end: int) -> int:
         """Find the best break point within the given range."""
         best_break = end
@@ -218,7 +226,7 @@ class ChunkingProcessor(DocumentProcessor):
         for separator in self.separators:
             # Look for separator from the end backwards
             break_pos = text.rfind(separator, start, end)
-            if break_pos > start + self.min_chunk_size:
+            if break_pos > start + self._min_break_offset():
                 best_break = break_pos + len(separator)
                 break
 
-- 
2.43.0


From 39b4b2ac2ae97f04bb8d5d8543452533bfb6db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 35/85] fix: semantic chunks are stretches of the text at their
 positions and lose no paragraph

---
 src/valori/processors/chunking.py | 109 ++++++++++++++++--------------
 1 file changed, 58 insertions(+), 51 deletions(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index 78d0164..ad8c400 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -3,7 +3,7 @@ Text chunking processor for the valori vector database.
 """
 
 import re
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
 
@@ -28,7 +28,7 @@ class ChunkingProcessor(DocumentProcessor):
         self.chunk_size = config.get("chunk_size", 1000)
         self.chunk_overlap = config.get("chunk_overlap", 100)
         self.min_chunk_size = config.get("min_chunk_size", 50)
-        self.max_chunk_size = config.get("max_chunk_size", 2000)
+        self.max_chunk_size = config.get("max_chunk_size", max(2000, self.chunk_size))
         self.separators = config.get(
             "separators", ["\n\n", "\n", ". ", "! ", "? ", " "]
         )
@@ -44,6 +44,9 @@ class ChunkingProcessor(DocumentProcessor):
         if self.chunk_overlap >= self.chunk_size:
             raise ProcessingError("Chunk overlap must be less than chunk size")
 
+        if self.chunk_size > self.max_chunk_size:
+            raise ProcessingError("Chunk size must not exceed maximum chunk size")
+
         self._initialized = True
 
     def process(self, data: Dict[str, Any]) -> Dict[str, Any]:
@@ -129,64 +132,68 @@ class ChunkingProcessor(DocumentProcessor):
     def _semantic_chunking(self, text: str) -> List[Dict[str, Any]]:
         """Create semantic chunks based on content boundaries."""
         chunks = []
+        current = None  # (start, end) of the chunk being filled
 
-        # Split by paragraphs first
-        paragraphs = text.split("\n\n")
-        current_chunk = ""
-        current_start = 0
-        chunk_id = 0
-
-        for paragraph in paragraphs:
-            paragraph = paragraph.strip()
-            if not paragraph:
-                continue
-
+        for start, end in self._paragraph_spans(text):
             # If adding this paragraph would exceed chunk size, finalize current chunk
-            if current_chunk and len(current_chunk) + len(paragraph) > self.chunk_size:
-                if current_chunk:
-                    chunks.append(
-                        {
-                            "id": chunk_id,
-                            "text": current_chunk.strip(),
-                            "start_pos": current_start,
-                            "end_pos": current_start + len(current_chunk),
-                            "length": len(current_chunk.strip()),
-                            "metadata": {
-                                "chunk_type": "semantic",
-                                "strategy": self.strategy,
-                            },
-                        }
+            if current is not None and end - current[0] > self.chunk_size:
+                self._add_semantic_chunk(chunks, text, *current)
+
+                # Start new chunk with overlap, as far as the chunk has room for it
+                overlap_start = start
+                if current[1] - current[0] > self.chunk_overlap:
+                    overlap_start = max(
+                        current[1] - self.chunk_overlap, end - self.max_chunk_size
                     )
-                    chunk_id += 1
-
-                # Start new chunk with overlap
-                overlap_text = (
-                    current_chunk[-self.chunk_overlap :]
-                    if len(current_chunk) > self.chunk_overlap
-                    else ""
-                )
-                current_chunk = overlap_text + paragraph
-                current_start = max(
-                    0, current_start + len(current_chunk) - self.chunk_overlap
-                )
+                current = (min(start, overlap_start), end)
+            elif current is not None:
+                current = (current[0], end)
             else:
-                current_chunk += "\n\n" + paragraph if current_chunk else paragraph
+                current = (start, end)
 
         # Add final chunk
-        if current_chunk:
-            chunks.append(
-                {
-                    "id": chunk_id,
-                    "text": current_chunk.strip(),
-                    "start_pos": current_start,
-                    "end_pos": current_start + len(current_chunk),
-                    "length": len(current_chunk.strip()),
-                    "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
-                }
-            )
+        if current is not None:
+            self._add_semantic_chunk(chunks, text, *current)
 
         return chunks
 
+    def _add_semantic_chunk(
+        self, chunks: List[Dict[str, Any]], text: str, start: int, end: int
+    ) -> None:
+        """Add the chunk that covers text[start:end]."""
+        chunk_text = text[start:end].strip()
+        chunks.append(
+            {
+                "id": len(chunks),
+                "text": chunk_text,
+                "start_pos": start,
+                "end_pos": end,
+                "length": len(chunk_text),
+                "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
+            }
+        )
+
+    def _paragraph_spans(self, text: str) -> List[Tuple[int, int]]:
+        """Positions of the paragraphs, those too long for a chunk in pieces."""
+        spans = []
+        offset = 0
+
+        for paragraph in text.split("\n\n"):
+            stripped = paragraph.strip()
+            start = offset + len(paragraph) - len(paragraph.lstrip())
+            end = start + len(stripped)
+            offset += len(paragraph) + 2
+
+            while end - start > self.max_chunk_size:
+                cut = self._find_best_break(text, start, start + self.max_chunk_size)
+                spans.append((start, cut))
+                start = cut + len(text[cut:end]) - len(text[cut:end].lstrip())
+
+            if end > start:
+                spans.append((start, end))
+
+        return spans
+
     def _sliding_window_chunking(self, text: str) -> List[Dict[str, Any]]:
         """Create chunks using sliding window approach."""
         chunks = []
-- 
2.43.0


From f4584a964288d0860a43643502133b7e5316b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 36/85] fix: sliding windows of nothing but whitespace are no
 chunks

---
 src/valori/processors/chunking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index ad8c400..220b94f 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -204,7 +204,7 @@ class ChunkingProcessor(DocumentProcessor):
             end = min(i + window_size, len(text))
             chunk_text = text[i:end].strip()
 
-            if len(chunk_text) >= self.min_chunk_size:
+            if chunk_text and len(chunk_text) >= self.min_chunk_size:
                 chunks.append(
                     {
                         "id": len(chunks),
-- 
2.43.0


From 2fec71b1f002339fc5f777f4d4ec3d8e1d0b96b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 37/85] fix: text parser reads every UTF-8 file as UTF-8

---
 src/valori/parsers/text_parser.py | 13 ++++++++++++-
 src/valori/processors/chunking.py |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index fb867a2..b528a72 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -56,7 +56,18 @@ class TextParser(DocumentParser):
                 with open(file_path, "rb") as f:
                     raw_data = f.read()
                     detected = chardet.detect(raw_data)
-                    encoding = detected.get("encoding", "utf-8")
+                    encoding = detected.get("encoding") or "utf-8"
+                    # Short UTF-8 texts look like legacy encodings to chardet
+                    if (
+                        encoding != "ascii"
+                        and not encoding.lower().startswith("utf")
+                        and b"\x1b" not in raw_data
+                    ):
+                        try:
+                            raw_data.decode("utf-8")
+                            encoding = "utf-8"
+                        except UnicodeDecodeError:
+                            pass
             else:
                 encoding = self.encoding
 
diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index 220b94f..5800558 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -27,7 +27,7 @@ class ChunkingProcessor(DocumentProcessor):
         )  # fixed_size, semantic, sliding_window
         self.chunk_size = config.get("chunk_size", 1000)
         self.chunk_overlap = config.get("chunk_overlap", 100)
-        self.min_chunk_size = config.get("min_chunk_size", 50)
+        self.min_chunk_size = config.get("min_chunk_size", min(50, self.chunk_size))
         self.max_chunk_size = config.get("max_chunk_size", max(2000, self.chunk_size))
         self.separators = config.get(
             "separators", ["\n\n", "\n", ". ", "! ", "? ", " "]
@@ -47,6 +47,9 @@ class ChunkingProcessor(DocumentProcessor):
         if self.chunk_size > self.max_chunk_size:
             raise ProcessingError("Chunk size must not exceed maximum chunk size")
 
+        if self.chunk_size < self.min_chunk_size:
+            raise ProcessingError("Chunk size must not be below minimum chunk size")
+
         self._initialized = True
 
     def process(self, data: Dict[str, Any]) -> Dict[str, Any]:
-- 
2.43.0


From 14e28a0d323554ebf6602a72f0b05ba23264b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 38/85] fix: workbooks with chart sheets are read

---
 src/valori/parsers/office_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index bd1516f..db4798e 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -149,8 +149,9 @@ class OfficeParser(DocumentParser):
         text_parts = []
         sheets_info = []
 
-        for sheet_name in workbook.sheetnames:
-            sheet = workbook[sheet_name]
+        # Chart sheets have no cells
+        for sheet in workbook.worksheets:
+            sheet_name = sheet.title
             sheet_text = []
 
             for row in sheet.iter_rows(values_only=True):
-- 
2.43.0


From 045b4e2654895bd99ccc2851b401e7f570cc8668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 39/85] fix: PDF chunks are attributed to the right page

---
 src/valori/parsers/pdf_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index 996a72d..b3425ac 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -216,5 +216,6 @@ class PDFParser(DocumentParser):
         for page_info in page_metadata:
             if position < current_pos + page_info["text_length"]:
                 return page_info["page_number"]
-            current_pos += page_info["text_length"]
+            # Pages are joined by two newlines
+            current_pos += page_info["text_length"] + 2
         return page_metadata[-1]["page_number"] if page_metadata else 1
-- 
2.43.0


From 44647315eadeaacd47c05622349a06d7b0f8815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 40/85] fix: cleaning keeps text between escaped angle brackets

---
 src/valori/processors/cleaning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index abd7117..cfd152c 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -126,8 +126,9 @@ class CleaningProcessor(DocumentProcessor):
 
         # Remove HTML tags and decode HTML entities
         if self.remove_html:
-            text = html.unescape(text)
+            # Tags first: an escaped angle bracket is text, not markup
             text = re.sub(r"<[^>]+>", "", text)
+            text = html.unescape(text)
 
         # Normalize Unicode characters
         if self.normalize_unicode:
-- 
2.43.0


From 0e21472d97ec60d155bf0a544d02b0586a382772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 41/85] fix: removing special characters does not split words
 at their accents

---
 src/valori/processors/cleaning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index cfd152c..a3e2dff 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -136,7 +136,11 @@ class CleaningProcessor(DocumentProcessor):
 
         # Remove special characters
         if self.remove_special_chars:
+            # A decomposed accent is part of its letter, not a special character
+            text = unicodedata.normalize("NFC", text)
             text = re.sub(self.special_chars_pattern, " ", text)
+            if self.normalize_unicode:
+                text = unicodedata.normalize("NFKD", text)
 
         # Normalize whitespace
         if self.normalize_whitespace:
-- 
2.43.0


From e523b2122e16f0a181d1dfb9c5b883a793701980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 42/85] fix: cleaning falls back to its own stopwords when NLTK
 has no stopword data

---
 src/valori/processors/cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index a3e2dff..0e2696b 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -49,7 +49,7 @@ class CleaningProcessor(DocumentProcessor):
                 from nltk.corpus import stopwords
 
                 self._stopwords = set(stopwords.words(self.stopwords_language))
-            except ImportError:
+            except (ImportError, LookupError):
                 # Fallback to basic English stopwords
                 self._stopwords = {
                     "a",
-- 
2.43.0


From ace8398e81366dd27f15997f8285c99f5625eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 43/85] fix: the processing pipeline sets up the parsers it is
 configured with

---
 src/valori/processors/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index e578735..f1cbac3 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -31,7 +31,7 @@ class ProcessingPipeline:
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
-            self.parser_registry = ParserRegistry(parser_config)
+            self.parser_registry = ParserRegistry({"parsers": parser_config})
             self.parser_registry.initialize()
 
             # Initialize processors in order
-- 
2.43.0


From f6321ed602cdee9ec4c075457f979305466352d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 44/85] fix: initializing a pipeline again does not run its
 processors twice

---
 src/valori/processors/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index f1cbac3..1d5f0c9 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -35,6 +35,7 @@ class ProcessingPipeline:
             self.parser_registry.initialize()
 
             # Initialize processors in order
+            self.processors.clear()
             processor_configs = self.config.get("processors", {})
 
             # Add cleaning processor if configured
-- 
2.43.0


From 0132370c2582f781393f41aae831a3eb15fbcd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 45/85] fix: changing a returned embedding does not change the
 cached one

---
 src/valori/processors/embedding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 873450f..ee2c511 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -149,7 +149,7 @@ class EmbeddingProcessor(DocumentProcessor):
             cache_key = self._get_cache_key(text)
             if cache_key in self._cache:
                 self._cache_hits += 1
-                return self._cache[cache_key]
+                return self._cache[cache_key].copy()
 
         # Generate embedding
         if self.model_type == "sentence_transformers":
@@ -168,7 +168,7 @@ class EmbeddingProcessor(DocumentProcessor):
         # Cache embedding
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding
+            self._cache[cache_key] = embedding.copy()
 
         self._texts_processed += 1
         self._embeddings_generated += 1
-- 
2.43.0


From 90baac5f94c0b6d21643e8c16a9ad5e519ce034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 46/85] fix: normalizing a zero embedding does not turn it into
 NaN

---
 src/valori/processors/embedding.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index ee2c511..7225d85 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -163,7 +163,9 @@ class EmbeddingProcessor(DocumentProcessor):
 
         # Normalize embedding
         if self.normalize_embeddings:
-            embedding = embedding / np.linalg.norm(embedding)
+            norm = np.linalg.norm(embedding)
+            if norm > 0:
+                embedding = embedding / norm
 
         # Cache embedding
         if self.cache_embeddings:
@@ -244,8 +246,9 @@ class EmbeddingProcessor(DocumentProcessor):
                     batch_texts, convert_to_numpy=True
                 )
                 if self.normalize_embeddings:
-                    batch_embeddings = batch_embeddings / np.linalg.norm(
-                        batch_embeddings, axis=1, keepdims=True
+                    norms = np.linalg.norm(batch_embeddings, axis=1, keepdims=True)
+                    batch_embeddings = batch_embeddings / np.where(
+                        norms > 0, norms, 1
                     )
             else:
                 # Process individually for other model types
-- 
2.43.0


From fb891c3fe2f439fb2317007a1b8d3a155955f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 47/85] fix: blank texts get zero embeddings of the model's
 dimension

---
 src/valori/processors/embedding.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 7225d85..2e45307 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -38,6 +38,7 @@ class EmbeddingProcessor(DocumentProcessor):
         self._texts_processed = 0
         self._embeddings_generated = 0
         self._cache_hits = 0
+        self._dimension = None
 
     def initialize(self) -> None:
         """Initialize the embedding processor."""
@@ -142,7 +143,7 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate embedding for a single text."""
         if not text or not text.strip():
             # Return zero vector for empty text
-            return np.zeros(384)  # Default dimension
+            return np.zeros(self.get_embedding_dimension())
 
         # Check cache
         if self.cache_embeddings:
@@ -151,6 +152,20 @@ class EmbeddingProcessor(DocumentProcessor):
                 self._cache_hits += 1
                 return self._cache[cache_key].copy()
 
+        embedding = self._embed(text)
+
+        # Cache embedding
+        if self.cache_embeddings:
+            cache_key = self._get_cache_key(text)
+            self._cache[cache_key] = embedding.copy()
+
+        self._texts_processed += 1
+        self._embeddings_generated += 1
+
+        return embedding
+
+    def _embed(self, text: str) -> np.ndarray:
+        """Run the model on a single text and normalize its embedding."""
         # Generate embedding
         if self.model_type == "sentence_transformers":
             embedding = self._generate_sentence_transformer_embedding(text)
@@ -167,14 +182,6 @@ class EmbeddingProcessor(DocumentProcessor):
             if norm > 0:
                 embedding = embedding / norm
 
-        # Cache embedding
-        if self.cache_embeddings:
-            cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding.copy()
-
-        self._texts_processed += 1
-        self._embeddings_generated += 1
-
         return embedding
 
     def _generate_sentence_transformer_embedding(self, text: str) -> np.ndarray:
@@ -271,8 +278,9 @@ class EmbeddingProcessor(DocumentProcessor):
             return 0
 
         # Generate a test embedding to determine dimension
-        test_embedding = self._generate_embedding("test")
-        return len(test_embedding)
+        if self._dimension is None:
+            self._dimension = len(self._embed("test"))
+        return self._dimension
 
     def clear_cache(self) -> None:
         """Clear the embedding cache."""
-- 
2.43.0


From 4d58ea00d0543c121081b2c946311c06967fef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 48/85] fix: batches embed and count texts as single texts are

---
 src/valori/processors/embedding.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 2e45307..bdcb7dc 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -252,6 +252,11 @@ class EmbeddingProcessor(DocumentProcessor):
                 batch_embeddings = self._model.encode(
                     batch_texts, convert_to_numpy=True
                 )
+                # Blank texts have zero embeddings, as for single texts
+                blank = [not text or not text.strip() for text in batch_texts]
+                batch_embeddings = np.where(
+                    np.array(blank)[:, None], 0, batch_embeddings
+                )
                 if self.normalize_embeddings:
                     norms = np.linalg.norm(batch_embeddings, axis=1, keepdims=True)
                     batch_embeddings = batch_embeddings / np.where(
@@ -267,8 +272,10 @@ class EmbeddingProcessor(DocumentProcessor):
 
             embeddings.extend(batch_embeddings)
 
-        self._texts_processed += len(texts)
-        self._embeddings_generated += len(texts)
+        # Texts embedded one by one have been counted already
+        if self.model_type == "sentence_transformers":
+            self._texts_processed += len(texts)
+            self._embeddings_generated += len(texts)
 
         return embeddings
 
-- 
2.43.0


From 87c30002bfa29d499e172c29c907e77da2b3c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 49/85] fix: the embedding cache hit rate does not exceed one

---
 src/valori/processors/embedding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index bdcb7dc..4ec8a5f 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -296,9 +296,12 @@ class EmbeddingProcessor(DocumentProcessor):
 
     def get_stats(self) -> Dict[str, Any]:
         """Get embedding processor statistics."""
+        # Share of the embeddings that came from the cache
         cache_hit_rate = 0
-        if self._embeddings_generated > 0:
-            cache_hit_rate = self._cache_hits / self._embeddings_generated
+        if self._cache_hits + self._embeddings_generated > 0:
+            cache_hit_rate = self._cache_hits / (
+                self._cache_hits + self._embeddings_generated
+            )
 
         return {
             "processor_type": "embedding",
-- 
2.43.0


From a420ba88bdcee96ab954533a890752abd7808a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 50/85] fix: create_vectors_from_files returns no vectors when
 no file can be processed

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 9614d11..533bde0 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -114,7 +114,7 @@ def create_vectors_from_files(
     pipeline.close()
 
     if not all_vectors:
-        return np.array([]).reshape(0, -1), []
+        return np.empty((0, 0)), []
 
     return np.array(all_vectors), all_metadata
 
-- 
2.43.0


From 5b75e85bf0269d94cd5f721b04ea30375226ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 51/85] fix: Annoy indices built on disk search all of their
 trees

---
 src/valori/indices/annoy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 2820336..15bad47 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -273,8 +273,11 @@ class AnnoyIndex(Index):
         query_vector = query_vector.astype(np.float32)
 
         # Determine search_k
+        # (trees built in parallel and read back from disk can be listed twice)
         search_k = (
-            self.search_k if self.search_k > 0 else self.num_trees * len(self.vectors)
+            self.search_k
+            if self.search_k > 0
+            else 2 * self.num_trees * len(self.vectors)
         )
 
         # Search for nearest neighbors
-- 
2.43.0


From 12af46244423fb80449481e0e28bd84d7d84f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 52/85] fix: parallel_batch_insert returns the ids in the order
 of the vectors

---
 src/valori/utils/batch_manager.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 962c213..8415841 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -194,8 +194,6 @@ class BatchManager:
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
-        all_ids = []
-
         # Create batches
         batches = []
         for i in range(0, len(vectors), self.batch_size):
@@ -207,6 +205,9 @@ class BatchManager:
                 }
             )
 
+        # Batches may finish in any order
+        ids_by_batch: List[List[int]] = [[] for _ in batches]
+
         def process_batch(batch_data):
             """Process a single batch."""
             try:
@@ -233,7 +234,7 @@ class BatchManager:
                         if self.error_callback:
                             self.error_callback(error, batches[batch_id])
                     else:
-                        all_ids.extend(batch_ids)
+                        ids_by_batch[batch_id] = batch_ids
                         self._stats["processed_items"] = int(
                             self._stats.get("processed_items", 0) or 0
                         ) + len(batch_ids)
@@ -249,7 +250,7 @@ class BatchManager:
         finally:
             self._stats["end_time"] = time.time()
 
-        return all_ids
+        return [id for batch_ids in ids_by_batch for id in batch_ids]
 
     def _print_progress(self):
         """Print progress information."""
-- 
2.43.0


From 42d40bbdcf753f1dcf7be356379dc4c7081ef693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 53/85] fix: batch statistics count every item of the current
 operation once

---
 src/valori/utils/batch_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 8415841..45d4c34 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -74,6 +74,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
+        self.reset_stats()
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
@@ -130,6 +131,7 @@ class BatchManager:
         Returns:
             List of search results for each query
         """
+        self.reset_stats()
         self._stats["total_items"] = len(query_vectors)
         self._stats["start_time"] = time.time()
 
@@ -145,6 +147,10 @@ class BatchManager:
                         results = client.search(query, k=k)
                         batch_results.append(results)
 
+                        self._stats["processed_items"] = (
+                            int(self._stats.get("processed_items", 0) or 0) + 1
+                        )
+
                     except Exception as e:
                         batch_results.append([])
                         self._stats["failed_items"] = (
@@ -155,9 +161,6 @@ class BatchManager:
                             self.error_callback(e, query)
 
                 all_results.extend(batch_results)
-                self._stats["processed_items"] = int(
-                    self._stats.get("processed_items", 0) or 0
-                ) + len(batch_queries)
 
                 if show_progress:
                     self._print_progress()
@@ -191,6 +194,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
+        self.reset_stats()
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
-- 
2.43.0


From 18fc2e18651b3c524543a049322a5cbacfb0ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 54/85] fix: BatchManager refuses batch sizes below one instead
 of dropping everything

---
 src/valori/utils/batch_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 45d4c34..c3a5b83 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -35,6 +35,9 @@ class BatchManager:
             batch_size: Size of each batch
             max_workers: Maximum number of worker threads
         """
+        if batch_size < 1:
+            raise ValidationError(f"batch_size must be at least 1, got {batch_size}")
+
         self.batch_size = batch_size
         self.max_workers = max_workers
         self.progress_callback: Optional[Callable] = None
-- 
2.43.0


From 896882ddbadd4c99e41db7242c3890ed58f8a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 55/85] fix: ProgressTracker can track nothing

---
 src/valori/utils/batch_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index c3a5b83..ad8d4c8 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -339,7 +339,7 @@ class ProgressTracker:
 
     def _print_progress(self):
         """Print progress information."""
-        progress = self.current / self.total
+        progress = self.current / self.total if self.total else 1.0
         percentage = progress * 100
 
         elapsed = time.time() - self.start_time
-- 
2.43.0


From 6477dc01b8a78c17717435b1bceb095fec751e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 56/85] fix: client operations from several threads do not mix
 up records

---
 src/valori/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index a664e39..6bb7fce 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -2,6 +2,7 @@
 High-level client for the Valori vector database.
 """
 
+from threading import RLock
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -46,6 +47,8 @@ class VectorDBClient:
         self.persistence_manager = persistence_manager
         self.config = config or {}
         self._initialized = False
+        # Indices are not thread-safe
+        self._lock = RLock()
 
     def initialize(self) -> None:
         """Initialize all components."""
@@ -70,21 +73,24 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.insert(vectors, metadata)
+        with self._lock:
+            return self.index.insert(vectors, metadata)
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.search(query_vector, k)
+        with self._lock:
+            return self.index.search(query_vector, k)
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their IDs."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.delete(ids)
+        with self._lock:
+            return self.index.delete(ids)
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
@@ -93,7 +99,8 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.update(id, vector, metadata)
+        with self._lock:
+            return self.index.update(id, vector, metadata)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get database statistics."""
-- 
2.43.0


From 0c2c6619f73475eab52676feb9bf7e4bedb2784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 57/85] fix: recommended configurations and index categories
 can be looked up

---
 src/valori/configs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 1cb2eba..152dffa 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -387,6 +387,8 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
 
     # Handle nested categories
     if category == "index":
+        if name in category_configs:
+            return category_configs[name]
         for subcategory, configs in category_configs.items():
             if name in configs:
                 return configs[name]
@@ -462,7 +464,7 @@ def get_recommended_config(
     """
     # Select index configuration
     if num_vectors < 1000:
-        index_config = get_config("index", "small_dataset")
+        index_config = get_config("index", "small_dataset")["flat"]
         index_name = "flat"
     elif num_vectors < 100000:
         if use_case == "speed":
@@ -482,7 +484,10 @@ def get_recommended_config(
         index_name = "ivf"
 
     # Select storage configuration
-    storage_config = get_config("storage", storage_type)
+    storage_names = {"memory": "memory_only", "disk": "disk_only"}
+    storage_config = get_config(
+        "storage", storage_names.get(storage_type, storage_type)
+    )
 
     # Select embedding configuration
     if dimension <= 384:
-- 
2.43.0


From 89d1f4df0f278096282ecdeabca123a709673c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 58/85] fix: changing a configuration does not change the ones
 handed out later

---
 src/valori/configs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 152dffa..bd30a95 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -5,6 +5,7 @@ This module provides ready-to-use configurations for common use cases,
 making it easy to get started with the vector database.
 """
 
+import copy
 from typing import Any, Dict, List, Optional
 
 # Index configurations for different scenarios
@@ -388,14 +389,14 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
     # Handle nested categories
     if category == "index":
         if name in category_configs:
-            return category_configs[name]
+            return copy.deepcopy(category_configs[name])
         for subcategory, configs in category_configs.items():
             if name in configs:
-                return configs[name]
+                return copy.deepcopy(configs[name])
     else:
         if name not in category_configs:
             raise ValueError(f"Unknown {category} config: {name}")
-        return category_configs[name]
+        return copy.deepcopy(category_configs[name])
 
     raise ValueError(f"Unknown {category} config: {name}")
 
-- 
2.43.0


From 24596950c2b797297f0f41e95fef00538988e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 59/85] fix: HNSW uses the M its configurations give

---
 src/valori/indices/hnsw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index d4cd300..7b033f5 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -29,7 +29,7 @@ class HNSWIndex(Index):
     def __init__(self, config: Dict[str, Any]):
         """Initialize HNSW index."""
         super().__init__(config)
-        self.m = config.get("m", 16)  # Number of bi-directional links
+        self.m = config.get("m", config.get("M", 16))  # Number of bi-directional links
         self.ef_construction = config.get("ef_construction", 200)
         self.ef_search = config.get("ef_search", 50)
         self.metric = config.get("metric", "cosine")
-- 
2.43.0


From bb4634e164fa0ed39b0c58ca5097fb5bcae4f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 60/85] fix: a database can be created without size hints

---
 src/valori/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index d697224..90e1360 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -48,7 +48,9 @@ def create_vector_db(
         else:
             index_config["config"] = {}
     else:
-        index_config = get_recommended_index_config(num_vectors, dimension, use_case)
+        index_config = get_recommended_index_config(
+            num_vectors or 0, dimension or 0, use_case
+        )
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
-- 
2.43.0


From 43aec21012c9e39e5a5d33d83e6fb99901306408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 61/85] fix: create_vector_db applies index_config to the
 recommended index too

---
 src/valori/factory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 90e1360..8e72157 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -51,6 +51,7 @@ def create_vector_db(
         index_config = get_recommended_index_config(
             num_vectors or 0, dimension or 0, use_case
         )
+        index_config["config"].update(kwargs.get("index_config", {}))
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
-- 
2.43.0


From 3162cb93421f4bf261f7b84df16302e2a5465ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 62/85] fix: create_document_db keeps the index configuration
 it is given

---
 src/valori/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 8e72157..484ad29 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -119,7 +119,9 @@ def create_document_db(
     db_config = {"index_type": index_type, "storage_type": "memory", **kwargs}
 
     # Default index config for document search
-    if index_type == "annoy":
+    if "index_config" in db_config:
+        pass
+    elif index_type == "annoy":
         db_config["index_config"] = {
             "metric": "angular",
             "num_trees": 20,
-- 
2.43.0


From 57e73f54ad80f62bea1e27dd96f0d70896fe775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 63/85] fix: databases created over a corpus can be searched at
 once

---
 src/valori/factory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 484ad29..d488ff9 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -176,6 +176,8 @@ def create_semantic_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    if isinstance(client.index, AnnoyIndex):
+        client.index.build()
 
     return client
 
@@ -214,6 +216,8 @@ def create_image_search_db(
 
     # Add vectors
     client.insert(vectors, metadata)
+    if isinstance(client.index, AnnoyIndex):
+        client.index.build()
 
     return client
 
@@ -269,6 +273,8 @@ def create_hybrid_search_db(
 
     # Add vectors
     client.insert(vectors, combined_metadata)
+    if isinstance(client.index, AnnoyIndex):
+        client.index.build()
 
     return client
 
-- 
2.43.0


From c7bc16ed83e87db6cb02972602d31cbbc7551246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 64/85] fix: changing a database's settings does not change its
 template

---
 src/valori/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index d488ff9..6fb14f5 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -5,6 +5,7 @@ This module provides convenient factory functions to create pre-configured
 vector database instances for common use cases.
 """
 
+import copy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -414,7 +415,7 @@ def create_from_template(template_name: str, **overrides) -> VectorDBClient:
             f"Unknown template: {template_name}. Available: {list(TEMPLATES.keys())}"
         )
 
-    config = TEMPLATES[template_name].copy()
+    config = copy.deepcopy(TEMPLATES[template_name])
     config.update(overrides)
 
     return create_vector_db(**config)
-- 
2.43.0


From 3cd2c10913a6a83d6277b1d4be29339753a89da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 65/85] fix: sparsity is the share of zeros

---
 src/valori/utils/debugging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 975934f..3b8ee69 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -154,7 +154,7 @@ class VectorAnalyzer:
             "std": float(np.std(vectors)),
             "min": float(np.min(vectors)),
             "max": float(np.max(vectors)),
-            "sparsity": float(np.count_nonzero(vectors) / vectors.size),
+            "sparsity": float(np.mean(vectors == 0)),
         }
 
     def _distribution_analysis(self, vectors: np.ndarray) -> Dict[str, Any]:
-- 
2.43.0


From da7e01ff01e16ca2fbf3991220ab0a92f06a50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 66/85] fix: zero vectors do not turn the similarity analysis
 into NaN

---
 src/valori/utils/debugging.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 3b8ee69..1ea4a65 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -192,10 +192,9 @@ class VectorAnalyzer:
         else:
             sample_vectors = vectors
 
-        # Normalize vectors
-        normalized = sample_vectors / np.linalg.norm(
-            sample_vectors, axis=1, keepdims=True
-        )
+        # Normalize vectors (zero vectors are similar to nothing)
+        norms = np.linalg.norm(sample_vectors, axis=1, keepdims=True)
+        normalized = sample_vectors / np.where(norms == 0, 1, norms)
 
         # Compute pairwise similarities
         similarity_matrix = np.dot(normalized, normalized.T)
-- 
2.43.0


From e2030ebf48957fbb6794880b14715e19acde467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 67/85] fix: similarity analysis counts pairs once and accepts
 a single vector

---
 src/valori/utils/debugging.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 1ea4a65..d765f5a 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -199,10 +199,10 @@ class VectorAnalyzer:
         # Compute pairwise similarities
         similarity_matrix = np.dot(normalized, normalized.T)
 
-        # Remove diagonal (self-similarities)
-        mask = np.ones_like(similarity_matrix, dtype=bool)
-        np.fill_diagonal(mask, False)
-        similarities = similarity_matrix[mask]
+        # Count every pair once, without self-similarities
+        similarities = similarity_matrix[np.triu_indices(len(sample_vectors), k=1)]
+        if similarities.size == 0:
+            similarities = np.zeros(1)
 
         return {
             "similarity_stats": {
-- 
2.43.0


From 7952a099c5da11a071f638963723d47c50350da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 68/85] fix: printing the analysis of no vectors does not crash

---
 src/valori/utils/debugging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index d765f5a..5d1165f 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -260,6 +260,9 @@ class VectorAnalyzer:
     def print_analysis(self, vectors: np.ndarray):
         """Print vector analysis."""
         analysis = self.analyze_vectors(vectors)
+        if "error" in analysis:
+            print(f"\n{analysis['error']}")
+            return
 
         print("\n" + "=" * 60)
         print("VECTOR ANALYSIS")
-- 
2.43.0


From 04435cddd6e552a0b0d66d67ecf8d4c2d319f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 69/85] fix: indices with deleted vectors and HNSW indices can
 be inspected

---
 src/valori/utils/debugging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 5d1165f..0aefd2c 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -454,6 +454,10 @@ class IndexInspector:
     def _inspect_vectors(self) -> Dict[str, Any]:
         """Inspect stored vectors."""
         vectors = getattr(self.index, "vectors", [])
+        if isinstance(vectors, dict):
+            vectors = vectors.values()
+        # Deleted vectors leave empty entries behind
+        vectors = [v for v in vectors if v is not None]
         if not vectors:
             return {"count": 0}
 
-- 
2.43.0


From 0dba18c500762c06dee5fe4aea99ac4bc8a1ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 70/85] fix: setting up logging twice does not log everything
 twice

---
 src/valori/utils/debugging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 0aefd2c..cb729ef 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -413,6 +413,11 @@ def setup_logging(level: str = "INFO", log_file: Optional[str] = None):
     logger = logging.getLogger("valori")
     logger.setLevel(log_level)
 
+    # Replace the handlers of an earlier setup
+    for handler in list(logger.handlers):
+        logger.removeHandler(handler)
+        handler.close()
+
     # Console handler
     console_handler = logging.StreamHandler()
     console_handler.setFormatter(formatter)
-- 
2.43.0


From 5794dda0dfe4ba16fa5d2503ab37f4990d231499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 71/85] fix: the configured logging level applies and messages
 are logged once

---
 src/valori/utils/logging.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/valori/utils/logging.py b/src/valori/utils/logging.py
index af6b49d..b4d92d6 100644
--- a/src/valori/utils/logging.py
+++ b/src/valori/utils/logging.py
@@ -8,13 +8,18 @@ from pathlib import Path
 from typing import Any, Dict, Optional
 
 
-def get_logger(name: str, level: str = "INFO") -> logging.Logger:
+# Loggers with their own handler, and whether they were given a level
+_standalone: Dict[str, bool] = {}
+
+
+def get_logger(name: str, level: Optional[str] = None) -> logging.Logger:
     """
     Get a logger instance for the given name.
 
     Args:
         name: Logger name (typically __name__)
-        level: Logging level (DEBUG, INFO, WARNING, ERROR, CRITICAL)
+        level: Logging level (DEBUG, INFO, WARNING, ERROR, CRITICAL), by default
+            that of the application once logging is set up, INFO before
 
     Returns:
         Configured logger instance
@@ -25,8 +30,14 @@ def get_logger(name: str, level: str = "INFO") -> logging.Logger:
     if logger.handlers:
         return logger
 
+    # The application's handlers are enough
+    if logger.hasHandlers():
+        if level is not None:
+            logger.setLevel(getattr(logging, level.upper(), logging.INFO))
+        return logger
+
     # Set level
-    numeric_level = getattr(logging, level.upper(), logging.INFO)
+    numeric_level = getattr(logging, (level or "INFO").upper(), logging.INFO)
     logger.setLevel(numeric_level)
 
     # Create formatter
@@ -40,6 +51,7 @@ def get_logger(name: str, level: str = "INFO") -> logging.Logger:
     console_handler.setLevel(numeric_level)
     console_handler.setFormatter(formatter)
     logger.addHandler(console_handler)
+    _standalone[name] = level is not None
 
     return logger
 
@@ -80,6 +92,11 @@ def setup_logging(config: Optional[Dict[str, Any]] = None) -> None:
 
     # Clear existing handlers
     root_logger.handlers.clear()
+    for name, has_level in _standalone.items():
+        logging.getLogger(name).handlers.clear()
+        if not has_level:
+            logging.getLogger(name).setLevel(logging.NOTSET)
+    _standalone.clear()
 
     # Create console handler
     console_handler = logging.StreamHandler(sys.stdout)
-- 
2.43.0


From 461068d08fb0b903c13a66953bf4706ea9fa677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 72/85] fix: initializing an LSH index again keeps its vectors
 searchable

---
 src/valori/indices/lsh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index f855350..daa6bc0 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -60,7 +60,8 @@ class LSHIndex(Index):
     def initialize(self, storage_backend: Optional[StorageBackend] = None) -> None:
         """Initialize the LSH index."""
         # Initialize hash tables
-        self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
+        if not self.vectors:
+            self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
         self._initialized = True
 
     def add(self, vectors: np.ndarray, metadata: List[Dict[str, Any]]) -> List[int]:
-- 
2.43.0


From 39b27e28572f0a07cf4e6cc946508de486045446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 73/85] fix: initializing an IVF index again forgets vectors
 that are gone

---
 src/valori/indices/ivf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 76d5f22..48cd09c 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -49,6 +49,12 @@ class IVFIndex(Index):
             self.vector_ids = existing_ids
             self._vector_count = len(self.vector_ids)
 
+            # Forget the clusters of an earlier session
+            self.centroids = None
+            self.clusters = {}
+            self.vectors_cache = {}
+            self._trained = False
+
             # If we have enough vectors, retrain the index
             if len(self.vector_ids) >= self.n_clusters:
                 self._train_index()
-- 
2.43.0


From 9de756a926db987237d29edf719d3f508067c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 74/85] fix: initializing a flat index again reads changed
 vectors again

---
 src/valori/indices/flat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 5c5e485..1da4d3f 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -40,6 +40,7 @@ class FlatIndex(Index):
             sb = storage_backend
             existing_ids = sb.list_vectors()
             self.vector_ids = existing_ids
+            self.vector_cache = {}
             self._vector_count = len(self.vector_ids)
         except Exception as e:
             raise ValoriIndexError(f"Failed to initialize flat index: {str(e)}")
-- 
2.43.0


From 567bb8cd2fa30f98b5882d7572dac77a8233b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 75/85] fix: searches refuse a negative or fractional number of
 results

---
 src/valori/indices/annoy.py | 2 ++
 src/valori/indices/base.py  | 5 +++++
 src/valori/indices/flat.py  | 2 ++
 src/valori/indices/hnsw.py  | 2 ++
 src/valori/indices/ivf.py   | 2 ++
 src/valori/indices/lsh.py   | 2 ++
 6 files changed, 15 insertions(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 15bad47..bd688e2 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -259,6 +259,8 @@ class AnnoyIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
+        self._check_k(k)
+
         if not self._built:
             raise ValoriIndexError(
                 "Index not built. Call build() after adding vectors."
diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 8ec7759..07267a6 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -64,6 +64,11 @@ class Index(ABC):
                     )
                 return
 
+    def _check_k(self, k: int) -> None:
+        """Reject a number of results that is not a non-negative integer."""
+        if not isinstance(k, (int, np.integer)) or k < 0:
+            raise ValoriIndexError(f"k must be a non-negative integer, got {k!r}")
+
     @abstractmethod
     def insert(
         self, vectors: np.ndarray, metadata: Optional[List[Dict]] = None
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 1da4d3f..f9b1641 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -95,6 +95,8 @@ class FlatIndex(Index):
         if query_vector.ndim != 1:
             raise ValoriIndexError("Query vector must be 1D")
 
+        self._check_k(k)
+
         try:
             if not self.vector_ids:
                 return []
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 7b033f5..a3195ba 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -112,6 +112,8 @@ class HNSWIndex(Index):
         if query_vector.ndim != 1:
             raise ValoriIndexError("Query vector must be 1D")
 
+        self._check_k(k)
+
         try:
             if not self.vectors:
                 return []
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 48cd09c..df5565e 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -118,6 +118,8 @@ class IVFIndex(Index):
         if query_vector.ndim != 1:
             raise ValoriIndexError("Query vector must be 1D")
 
+        self._check_k(k)
+
         try:
             if not self.vector_ids:
                 return []
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index daa6bc0..0fb1939 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -149,6 +149,8 @@ class LSHIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
+        self._check_k(k)
+
         if self.dimension is None:
             return []
 
-- 
2.43.0


From 5fe34391c5510187f9e76f20576e62ee4b011ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 76/85] fix: indices refuse inputs that are not arrays, and a
 plain string for ids, with a library error

---
 src/valori/indices/annoy.py | 12 ++++++++----
 src/valori/indices/flat.py  |  4 ++--
 src/valori/indices/hnsw.py  |  4 ++--
 src/valori/indices/ivf.py   |  4 ++--
 src/valori/indices/lsh.py   | 12 ++++++++----
 5 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index bd688e2..e801108 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -93,7 +93,8 @@ class AnnoyIndex(Index):
             List of IDs for the inserted vectors
         """
         if metadata is None:
-            metadata = [{} for _ in range(len(vectors))]
+            count = len(vectors) if isinstance(vectors, np.ndarray) and vectors.ndim else 0
+            metadata = [{} for _ in range(count)]
 
         assigned_ids = self.add(vectors, metadata)
         return [str(id) for id in assigned_ids]
@@ -109,6 +110,9 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
+            if isinstance(ids, str):
+                raise ValoriIndexError("IDs must be given as a list")
+
             int_ids = [self._resolve_id(id) for id in ids]
             known = [i for i in int_ids if i is not None]
             self.remove(known)
@@ -171,14 +175,14 @@ class AnnoyIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
+        if not isinstance(vectors, np.ndarray) or vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
+
         if len(vectors) != len(metadata):
             raise ValoriIndexError(
                 "Number of vectors must match number of metadata items"
             )
 
-        if vectors.ndim != 2:
-            raise ValoriIndexError("Vectors must be 2D array")
-
         if self.dimension is not None and vectors.shape[1] != self.dimension:
             raise ValoriIndexError(
                 f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index f9b1641..d0102c8 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -52,7 +52,7 @@ class FlatIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
-        if vectors.ndim != 2:
+        if not isinstance(vectors, np.ndarray) or vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
@@ -92,7 +92,7 @@ class FlatIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
-        if query_vector.ndim != 1:
+        if not isinstance(query_vector, np.ndarray) or query_vector.ndim != 1:
             raise ValoriIndexError("Query vector must be 1D")
 
         self._check_k(k)
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index a3195ba..96ea25d 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -72,7 +72,7 @@ class HNSWIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
-        if vectors.ndim != 2:
+        if not isinstance(vectors, np.ndarray) or vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
@@ -109,7 +109,7 @@ class HNSWIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
-        if query_vector.ndim != 1:
+        if not isinstance(query_vector, np.ndarray) or query_vector.ndim != 1:
             raise ValoriIndexError("Query vector must be 1D")
 
         self._check_k(k)
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index df5565e..4566f64 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -68,7 +68,7 @@ class IVFIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
-        if vectors.ndim != 2:
+        if not isinstance(vectors, np.ndarray) or vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
         try:
@@ -115,7 +115,7 @@ class IVFIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
-        if query_vector.ndim != 1:
+        if not isinstance(query_vector, np.ndarray) or query_vector.ndim != 1:
             raise ValoriIndexError("Query vector must be 1D")
 
         self._check_k(k)
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 0fb1939..9a15c02 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -78,14 +78,14 @@ class LSHIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
+        if not isinstance(vectors, np.ndarray) or vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
+
         if len(vectors) != len(metadata):
             raise ValoriIndexError(
                 "Number of vectors must match number of metadata items"
             )
 
-        if vectors.ndim != 2:
-            raise ValoriIndexError("Vectors must be 2D array")
-
         if self.dimension is not None and vectors.shape[1] != self.dimension:
             raise ValoriIndexError(
                 f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
@@ -128,7 +128,8 @@ class LSHIndex(Index):
     ) -> List[str]:
         """Insert vectors following the base Index interface."""
         if metadata is None:
-            metadata = [{} for _ in range(len(vectors))]
+            count = len(vectors) if isinstance(vectors, np.ndarray) and vectors.ndim else 0
+            metadata = [{} for _ in range(count)]
         ids = self.add(vectors, metadata)
         return [str(i) for i in ids]
 
@@ -232,6 +233,9 @@ class LSHIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
         try:
+            if isinstance(ids, str):
+                raise ValoriIndexError("IDs must be given as a list")
+
             int_ids = [self._resolve_id(s) for s in ids]
             known = [i for i in int_ids if i is not None]
             self.remove(known)
-- 
2.43.0


From cc39d8116c37e5d2e982ceaacdc4a6062e4cb80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 77/85] fix: memory storage keeps a record whose replacement
 cannot be copied

---
 src/valori/storage/memory.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 885bce7..bcc03a5 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -49,12 +49,16 @@ class MemoryStorage(StorageBackend):
 
         try:
             with self.lock:
+                # Copy everything before changing anything
+                vector = vector.copy()
+                metadata = copy.deepcopy(metadata)
+
                 # Store vector
-                self.vectors[id] = vector.copy()
+                self.vectors[id] = vector
 
                 # Store metadata
                 if metadata is not None:
-                    self.metadata[id] = copy.deepcopy(metadata)
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)  # Remove if exists
 
@@ -120,12 +124,16 @@ class MemoryStorage(StorageBackend):
                 if id not in self.vectors:
                     return False
 
+                # Copy everything before changing anything
+                vector = vector.copy()
+                metadata = copy.deepcopy(metadata)
+
                 # Update vector
-                self.vectors[id] = vector.copy()
+                self.vectors[id] = vector
 
                 # Update metadata
                 if metadata is not None:
-                    self.metadata[id] = copy.deepcopy(metadata)
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)
 
-- 
2.43.0


From 0f0e4c91ac91dafc0ffa45538134fac6f224b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 78/85] fix: an insert or update that fails half-way leaves the
 collection as it was

---
 src/valori/indices/annoy.py | 9 +++++++--
 src/valori/indices/base.py  | 8 ++++++++
 src/valori/indices/flat.py  | 9 +++++----
 src/valori/indices/hnsw.py  | 7 ++++---
 src/valori/indices/ivf.py   | 8 +++++---
 src/valori/indices/lsh.py   | 9 +++++++--
 6 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index e801108..8a2f087 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -150,9 +150,10 @@ class AnnoyIndex(Index):
 
             validate_vector(vector, self.dimension, self.dimension)
 
+            metadata = copy.deepcopy(metadata)
             self.vectors[int_id] = vector.copy()
             if metadata is not None:
-                self.metadata[int_id] = copy.deepcopy(metadata)
+                self.metadata[int_id] = metadata
 
             # The trees no longer match the vectors
             self._built = False
@@ -191,6 +192,10 @@ class AnnoyIndex(Index):
         # Validate everything before changing any state
         for vector in vectors:
             validate_vector(vector, self.dimension, self.dimension)
+        try:
+            metadata = [copy.deepcopy(metadata[i] or {}) for i in range(len(metadata))]
+        except Exception as e:
+            raise ValoriIndexError(f"Metadata cannot be stored: {str(e)}")
 
         # Set dimension on first add
         if self.dimension is None and len(vectors) > 0:
@@ -205,7 +210,7 @@ class AnnoyIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(copy.deepcopy(metadata[i] or {}))
+            self.metadata.append(metadata[i])
 
             # The trees no longer match the vectors
             self._built = False
diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 07267a6..660e4ea 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -64,6 +64,14 @@ class Index(ABC):
                     )
                 return
 
+    def _undo_insert(self, ids: List[str]) -> None:
+        """Take back the part of an insert that went through before it failed."""
+        for vector_id in ids:
+            try:
+                self.delete([vector_id])
+            except Exception:
+                pass
+
     def _check_k(self, k: int) -> None:
         """Reject a number of results that is not a non-negative integer."""
         if not isinstance(k, (int, np.integer)) or k < 0:
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index d0102c8..4bd1f9f 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -55,9 +55,10 @@ class FlatIndex(Index):
         if not isinstance(vectors, np.ndarray) or vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
+
         try:
             self._check_vectors(vectors, self.vector_ids)
-            inserted_ids = []
 
             sb = self.storage_backend
             if sb is None:
@@ -73,18 +74,18 @@ class FlatIndex(Index):
                 )
 
                 # Store in backend
+                inserted_ids.append(vector_id)
                 sb.store_vector(vector_id, vector, vector_metadata)
 
                 # Add to index
                 self.vector_ids.append(vector_id)
                 self.vector_cache[vector_id] = vector.copy()
 
-                inserted_ids.append(vector_id)
-
             self._vector_count = len(self.vector_ids)
             return inserted_ids
 
         except Exception as e:
+            self._undo_insert(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -187,11 +188,11 @@ class FlatIndex(Index):
                 # Remove from index
                 if vector_id in self.vector_ids:
                     self.vector_ids.remove(vector_id)
+                    self._vector_count = len(self.vector_ids)
 
                 # Remove from cache
                 self.vector_cache.pop(vector_id, None)
 
-            self._vector_count = len(self.vector_ids)
             return success
 
         except Exception as e:
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 96ea25d..ea3053e 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -75,9 +75,10 @@ class HNSWIndex(Index):
         if not isinstance(vectors, np.ndarray) or vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
+
         try:
             self._check_vectors(vectors, self.vectors)
-            inserted_ids = []
 
             for i, vector in enumerate(vectors):
                 # Generate unique ID
@@ -92,16 +93,16 @@ class HNSWIndex(Index):
                 sb = self.storage_backend
                 if sb is None:
                     raise ValoriIndexError("Index storage backend not configured")
+                inserted_ids.append(vector_id)
                 sb.store_vector(vector_id, vector, vector_metadata)
 
                 # Insert into HNSW graph
                 self._insert_vector_internal(vector_id, vector)
 
-                inserted_ids.append(vector_id)
-
             return inserted_ids
 
         except Exception as e:
+            self._undo_insert(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 4566f64..f75187d 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -71,9 +71,10 @@ class IVFIndex(Index):
         if not isinstance(vectors, np.ndarray) or vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
+
         try:
             self._check_vectors(vectors, self.vector_ids)
-            inserted_ids = []
 
             for i, vector in enumerate(vectors):
                 # Generate unique ID
@@ -88,12 +89,12 @@ class IVFIndex(Index):
                 sb = self.storage_backend
                 if sb is None:
                     raise ValoriIndexError("Index storage backend not configured")
+                inserted_ids.append(vector_id)
                 sb.store_vector(vector_id, vector, vector_metadata)
 
                 # Add to index
                 self.vector_ids.append(vector_id)
                 self.vectors_cache[vector_id] = vector.copy()
-                inserted_ids.append(vector_id)
 
             self._vector_count = len(self.vector_ids)
 
@@ -108,6 +109,7 @@ class IVFIndex(Index):
             return inserted_ids
 
         except Exception as e:
+            self._undo_insert(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -208,6 +210,7 @@ class IVFIndex(Index):
                 # Remove from index
                 if vector_id in self.vector_ids:
                     self.vector_ids.remove(vector_id)
+                    self._vector_count = len(self.vector_ids)
 
                 # Remove from cache
                 self.vectors_cache.pop(vector_id, None)
@@ -217,7 +220,6 @@ class IVFIndex(Index):
                     if vector_id in vector_list:
                         vector_list.remove(vector_id)
 
-            self._vector_count = len(self.vector_ids)
             return success
 
         except Exception as e:
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 9a15c02..235f579 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -94,6 +94,10 @@ class LSHIndex(Index):
         # Validate everything before changing any state
         for vector in vectors:
             validate_vector(vector, self.dimension, self.dimension)
+        try:
+            metadata = [copy.deepcopy(metadata[i] or {}) for i in range(len(metadata))]
+        except Exception as e:
+            raise ValoriIndexError(f"Metadata cannot be stored: {str(e)}")
 
         # Set dimension on first add
         if self.dimension is None and len(vectors) > 0:
@@ -108,7 +112,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(copy.deepcopy(metadata[i] or {}))
+            self.metadata.append(metadata[i])
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -265,6 +269,7 @@ class LSHIndex(Index):
 
             # Reject an invalid replacement before touching the stored vector
             validate_vector(vector, self.dimension, self.dimension)
+            metadata = copy.deepcopy(metadata)
 
             # Remove old hashes
             old_vector = self.vectors[vector_id]
@@ -279,7 +284,7 @@ class LSHIndex(Index):
             # Store new vector and metadata
             self.vectors[vector_id] = vector.copy()
             if metadata is not None:
-                self.metadata[vector_id] = copy.deepcopy(metadata)
+                self.metadata[vector_id] = metadata
 
             # Add new hashes
             new_hashes = self._hash_vector(self.vectors[vector_id])
-- 
2.43.0


From 312f9e5dcdb6d60df7a1a93946903f9e65e3764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 79/85] fix: DiskStorage writes a record's vector and metadata
 in one step

---
 src/valori/storage/disk.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 11baa11..1ce85e2 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -80,14 +80,17 @@ class DiskStorage(StorageBackend):
             if not vector_path.exists():
                 return None
 
-            vector = np.load(vector_path)
-
-            # Load metadata
-            metadata = None
-            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-            if metadata_path.exists():
-                with open(metadata_path, "rb") as f:
-                    metadata = pickle.load(f)
+            with open(vector_path, "rb") as record:
+                vector = np.load(record)
+
+                # Load metadata; older records keep it in a file of its own
+                metadata = None
+                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
+                if record.peek(1):
+                    metadata = pickle.load(record)
+                elif metadata_path.exists():
+                    with open(metadata_path, "rb") as f:
+                        metadata = pickle.load(f)
 
             return vector, metadata
 
@@ -196,15 +199,13 @@ class DiskStorage(StorageBackend):
     def _write_record(
         self, safe_id: str, vector: np.ndarray, metadata: Optional[Dict]
     ) -> None:
-        """Write a record; the vector file, which makes it exist, comes last."""
-        metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-        if metadata is not None:
-            self._replace_file(metadata_path, lambda f: pickle.dump(metadata, f))
-        elif metadata_path.exists():
-            metadata_path.unlink()
-
-        vector_path = self.vectors_dir / f"{safe_id}.npy"
-        self._replace_file(vector_path, lambda f: np.save(f, vector))
+        """Write vector and metadata into one file, so that both change at once."""
+
+        def write(f: Any) -> None:
+            np.save(f, vector)
+            pickle.dump(metadata, f)
+
+        self._replace_file(self.vectors_dir / f"{safe_id}.npy", write)
 
     def _replace_file(self, path: Path, write: Callable[[Any], None]) -> None:
         """Replace a file so that a failure half-way leaves the old content."""
-- 
2.43.0


From ebecb4289f9db77574fe9384c1a66dea593c8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 80/85] fix: flat cosine search does not take very short
 vectors for zero

---
 src/valori/indices/flat.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 4bd1f9f..b987c7f 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -137,7 +137,10 @@ class FlatIndex(Index):
 
             # Compute similarities/distances
             if self.metric == "cosine":
-                similarities = cosine_similarity([query_vector], vectors_array)[0]
+                # cosine_similarity takes very short vectors for zero vectors
+                similarities = cosine_similarity(
+                    [self._rescale(query_vector)], self._rescale(vectors_array)
+                )[0]
                 # Convert to distances (1 - similarity for sorting)
                 distances = 1 - similarities
             elif self.metric == "euclidean":
@@ -245,3 +248,8 @@ class FlatIndex(Index):
         self.vector_ids.clear()
         self._vector_count = 0
         self._initialized = False
+
+    def _rescale(self, vectors: np.ndarray) -> np.ndarray:
+        """Scale each vector so that its largest component is one."""
+        largest = np.abs(vectors).max(axis=-1, keepdims=True)
+        return vectors / np.where(largest == 0, 1, largest)
-- 
2.43.0


From e20b8166864cce4537d9b4f1503f431766e718b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 81/85] fix: a failed load or save leaves an Annoy index as it
 was, an empty one can be saved

---
 src/valori/indices/annoy.py | 96 ++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 8a2f087..a0b9a51 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -406,22 +406,30 @@ class AnnoyIndex(Index):
         if not self._built:
             raise ValoriIndexError("Index not built. Call build() before saving.")
 
-        if self._annoy_index is not None:
+        # Also save metadata alongside the index
+        import json
+
+        metadata_path = filepath + ".meta"
+        metadata = {
+            "dimension": self.dimension,
+            "metric": self.metric,
+            "num_trees": self.num_trees,
+            "metadata": self.metadata,
+        }
+        try:
+            # Metadata that cannot be saved must not cost an earlier file
+            encoded = json.dumps(metadata)
+
             # Save the Annoy index
-            self._annoy_index.save(filepath)
-
-            # Also save metadata alongside the index
-            import json
-
-            metadata_path = filepath + ".meta"
-            metadata = {
-                "dimension": self.dimension,
-                "metric": self.metric,
-                "num_trees": self.num_trees,
-                "metadata": self.metadata,
-            }
+            if self._annoy_index is not None:
+                self._annoy_index.save(filepath)
+            else:
+                open(filepath, "wb").close()
+
             with open(metadata_path, "w") as f:
-                json.dump(metadata, f)
+                f.write(encoded)
+        except Exception as e:
+            raise ValoriIndexError(f"Failed to save index: {str(e)}")
 
     def load(self, filepath: str) -> None:
         """Load the index from disk."""
@@ -434,41 +442,53 @@ class AnnoyIndex(Index):
         # Load metadata first
         import json
 
+        dimension, metric = self.dimension, self.metric
         stored_metadata = None
         metadata_path = filepath + ".meta"
-        if os.path.exists(metadata_path):
-            with open(metadata_path, "r") as f:
-                metadata = json.load(f)
-                self.dimension = metadata.get("dimension")
-                self.metric = metadata.get("metric", self.metric)
-                stored_metadata = metadata.get("metadata")
-                # num_trees already set from config during init
-        else:
+        if not os.path.exists(metadata_path):
             # Fallback: if no metadata file, try to infer from index properties
             # This is a limitation - we need the dimension to create AnnoyIndex
-            if self.dimension is None:
+            if dimension is None:
                 raise ValoriIndexError(
                     f"Cannot load index without dimension info. "
                     f"Metadata file not found: {metadata_path}"
                 )
 
-        self._create_annoy_index()
-        self._annoy_index.load(filepath)
-        self._built = True
+        # Read everything before changing any state
+        try:
+            if os.path.exists(metadata_path):
+                with open(metadata_path, "r") as f:
+                    metadata = json.load(f)
+                    dimension = metadata["dimension"]
+                    metric = metadata.get("metric", metric)
+                    stored_metadata = metadata.get("metadata")
+                    # num_trees already set from config during init
+
+            annoy_index, num_items = None, 0
+            if dimension is not None:
+                annoy_index = self.annoy.AnnoyIndex(dimension, metric)
+                annoy_index.load(filepath)
+                num_items = annoy_index.get_n_items()
+
+            # Annoy keeps a float32 copy of every vector; removed ones have no metadata
+            if stored_metadata is None:
+                stored_metadata = [{} for _ in range(num_items)]
+            vectors = [
+                (
+                    np.array(annoy_index.get_item_vector(i), dtype=np.float32)
+                    if meta is not None and i < num_items
+                    else None
+                )
+                for i, meta in enumerate(stored_metadata)
+            ]
+        except Exception as e:
+            raise ValoriIndexError(f"Failed to load index: {str(e)}")
 
-        # Annoy keeps a float32 copy of every vector; removed ones have no metadata
-        num_items = self._annoy_index.get_n_items()
-        if stored_metadata is None:
-            stored_metadata = [{} for _ in range(num_items)]
+        self.dimension, self.metric = dimension, metric
+        self._annoy_index = annoy_index
+        self._built = True
         self.metadata = stored_metadata
-        self.vectors = [
-            (
-                np.array(self._annoy_index.get_item_vector(i), dtype=np.float32)
-                if meta is not None and i < num_items
-                else None
-            )
-            for i, meta in enumerate(self.metadata)
-        ]
+        self.vectors = vectors
         self._next_id = len(self.vectors)
 
     def close(self) -> None:
-- 
2.43.0


From 2a3ee9a9856dd7c805fa08eb4d4886fadb59b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 82/85] fix: UTF-8 text is recognised past the first 200 kB of
 a file, and when it looks like UTF-7

---
 src/valori/parsers/text_parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index b528a72..6f716a8 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -57,12 +57,15 @@ class TextParser(DocumentParser):
                     raw_data = f.read()
                     detected = chardet.detect(raw_data)
                     encoding = detected.get("encoding") or "utf-8"
-                    # Short UTF-8 texts look like legacy encodings to chardet
-                    if (
-                        encoding != "ascii"
-                        and not encoding.lower().startswith("utf")
-                        and b"\x1b" not in raw_data
-                    ):
+                    # Short UTF-8 texts look like legacy encodings to chardet,
+                    # and of large files it sees the beginning only
+                    if encoding == "ascii":
+                        doubtful = not raw_data.isascii()
+                    else:
+                        doubtful = not encoding.lower().startswith(
+                            ("utf-8", "utf-16", "utf-32", "iso-2022")
+                        )
+                    if doubtful:
                         try:
                             raw_data.decode("utf-8")
                             encoding = "utf-8"
-- 
2.43.0


From 9396d7fe9ac0bad0af3f44f23fdc8ad764851a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:14 +0000
Subject: [PATCH 83/85] fix: client statistics are taken under the client's
 lock

---
 src/valori/client.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index 6bb7fce..c9761a2 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -107,18 +107,19 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        stats = {
-            "storage": self.storage_backend.get_stats(),
-            "index": self.index.get_stats(),
-        }
+        with self._lock:
+            stats = {
+                "storage": self.storage_backend.get_stats(),
+                "index": self.index.get_stats(),
+            }
 
-        if self.quantizer:
-            stats["quantization"] = self.quantizer.get_stats()
+            if self.quantizer:
+                stats["quantization"] = self.quantizer.get_stats()
 
-        if self.persistence_manager:
-            stats["persistence"] = self.persistence_manager.get_stats()
+            if self.persistence_manager:
+                stats["persistence"] = self.persistence_manager.get_stats()
 
-        return stats
+            return stats
 
     def close(self) -> None:
         """Close the client and all components."""
-- 
2.43.0


From a6587a44bde441c4b6240cb1091e83492e79fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:50 +0000
Subject: [PATCH 84/85] fix: flat index takes Euclidean distances from the
 difference

Expanded into squares, the distances between vectors far from the origin
cancel: a stored vector was found at a distance other than zero, and others
in the wrong order.
---
 src/valori/indices/flat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index b987c7f..787d337 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -6,7 +6,7 @@ import uuid
 from typing import Any, Dict, List, Optional
 
 import numpy as np
-from sklearn.metrics.pairwise import cosine_similarity, euclidean_distances
+from sklearn.metrics.pairwise import cosine_similarity
 
 from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
@@ -144,7 +144,8 @@ class FlatIndex(Index):
                 # Convert to distances (1 - similarity for sorting)
                 distances = 1 - similarities
             elif self.metric == "euclidean":
-                distances = euclidean_distances([query_vector], vectors_array)[0]
+                # The difference itself, as the squares of far-off vectors cancel
+                distances = np.linalg.norm(vectors_array - query_vector, axis=1)
             else:
                 raise ValoriIndexError(f"Unsupported metric: {self.metric}")
 
-- 
2.43.0


From 9128cd502d2b6f1ca59d54d0f76f1f72a2a6c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:50 +0000
Subject: [PATCH 85/85] fix: IVF index trains in double precision

With single precision vectors away from the origin, k-means put vectors into
clusters whose centroid is not the nearest, where a search did not find them.
---
 src/valori/indices/ivf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index f75187d..c3e6dfd 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -317,7 +317,8 @@ class IVFIndex(Index):
             if not vectors:
                 return
 
-            vectors_array = np.array(vectors)
+            # In single precision, centroids could not tell near-by vectors apart
+            vectors_array = np.array(vectors, dtype=np.float64)
 
             # Perform K-means clustering
             kmeans = KMeans(n_clusters=self.n_clusters, random_state=42, n_init=10)
-- 
2.43.0

