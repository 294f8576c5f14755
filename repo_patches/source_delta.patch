From 05c6be7b923f3b6dbaa565d71e2114901c401038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 01/52] fix: levenshtein_distance must not search the trimmed
 affixes of the longest string

---
 cfog/metrics/levenshtein.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index ac22ac7..4772414 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -69,7 +69,7 @@ def levenshtein_distance(str A, str B):
         return LB
 
     if LA == 1:
-        if A[start] in B:
+        if A[start] in B[start:start + LB]:
             return LB - 1
 
         return LB
-- 
2.43.0


From 60b3ab824eb68757ebf2581df50674a658849398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:00 +0000
Subject: [PATCH 02/52] fix: do not truncate code points beyond the BMP in
 levenshtein distances

---
 cfog/metrics/levenshtein.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index 4772414..b08dc4e 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -74,7 +74,7 @@ def levenshtein_distance(str A, str B):
 
         return LB
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
@@ -87,7 +87,7 @@ def levenshtein_distance(str A, str B):
     cdef unsigned int current = 0
     cdef unsigned int left = 0
     cdef unsigned int above = 0
-    cdef unsigned short charA = 0
+    cdef unsigned int charA = 0
     cdef unsigned int j = 0
 
     i = 0
@@ -192,7 +192,7 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
     elif diff > max_distance:
         return upper_bound
 
-    cdef unsigned short *codes = <unsigned short *> malloc(LB * sizeof(unsigned short))
+    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))
     cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))
 
     cdef unsigned int i = 0
-- 
2.43.0


From 0acb7ef57af4588c95ce83fc7816fc95f059a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:15 +0000
Subject: [PATCH 03/52] fix: free the buffers when limited_levenshtein_distance
 stops early

---
 cfog/metrics/levenshtein.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfog/metrics/levenshtein.pyx b/cfog/metrics/levenshtein.pyx
index b08dc4e..f4d22b8 100644
--- a/cfog/metrics/levenshtein.pyx
+++ b/cfog/metrics/levenshtein.pyx
@@ -254,6 +254,9 @@ def limited_levenshtein_distance(unsigned int max_distance, str A, str B):
             j += 1
 
         if have_max and vector[i + diff] > max_distance:
+            free(codes)
+            free(vector)
+
             return upper_bound
 
         i += 1
-- 
2.43.0


From 3fc7088b9e3f149877c97e6bf6a2853358bc8fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:31 +0000
Subject: [PATCH 04/52] fix: null weights should not make weighted metrics
 divide by zero

---
 fog/metrics/cosine.py  | 4 ++++
 fog/metrics/jaccard.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fog/metrics/cosine.py b/fog/metrics/cosine.py
index aae28ac..10e7ea3 100644
--- a/fog/metrics/cosine.py
+++ b/fog/metrics/cosine.py
@@ -66,6 +66,10 @@ def sparse_cosine_similarity(A, B):
         weight = v
         yy += weight ** 2
 
+    # One of the vectors is null
+    if xx == 0.0 or yy == 0.0:
+        return 0.0
+
     return xy / math.sqrt(xx * yy)
 
 
diff --git a/fog/metrics/jaccard.py b/fog/metrics/jaccard.py
index 319cc66..a364e86 100644
--- a/fog/metrics/jaccard.py
+++ b/fog/metrics/jaccard.py
@@ -127,4 +127,8 @@ def weighted_jaccard_similarity(A, B):
 
         U += v
 
+    # Only null weights
+    if U == 0.0:
+        return 0.0
+
     return I / U
-- 
2.43.0


From 0667f75011983e0fb1de7052b4c3d0c508f2834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:57 +0000
Subject: [PATCH 05/52] fix: pairwise_leader should drop clusters over max_size
 rather than crash

---
 fog/clustering/pairwise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/pairwise.py b/fog/clustering/pairwise.py
index 54f1ccc..4fbdeed 100644
--- a/fog/clustering/pairwise.py
+++ b/fog/clustering/pairwise.py
@@ -90,6 +90,7 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
         A = data[i]
 
         cluster = None
+        members = []
 
         for j in range(i + 1, n):
             if j in visited:
@@ -104,12 +105,14 @@ def pairwise_leader(data, similarity=None, distance=None, radius=None,
                 else:
                     cluster.append(B)
 
+                # The cluster is too large, we drop it and release its members
                 if len(cluster) > max_size:
-                    for c in range(1, len(cluster)):
-                        visited.delete(c)
+                    visited.difference_update(members)
+                    cluster = None
                     break
 
                 visited.add(j)
+                members.append(j)
 
         if cluster is not None and len(cluster) >= min_size:
             yield cluster
-- 
2.43.0


From 7b4ffed33d1ca76c26507e70c512637d15bb8102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:57 +0000
Subject: [PATCH 06/52] fix: key_collision should apply min_size & max_size to
 merged clusters

---
 fog/clustering/key_collision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 7420cda..3a2b050 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -76,7 +76,12 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
 
     # Merging clusters
     if merge and key is None:
-        yield from clusters_from_buckets(buckets.values(), fuzzy=True)
+        yield from clusters_from_buckets(
+            buckets.values(),
+            min_size=min_size,
+            max_size=max_size,
+            fuzzy=True
+        )
 
     # Buckets as clusters
     else:
-- 
2.43.0


From 87c140e1cf2a31913e1945d8e343aa509c07754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:57 +0000
Subject: [PATCH 07/52] fix: an item giving the same key twice should not
 collide with itself

---
 fog/clustering/key_collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/key_collision.py b/fog/clustering/key_collision.py
index 3a2b050..be8c2a3 100644
--- a/fog/clustering/key_collision.py
+++ b/fog/clustering/key_collision.py
@@ -70,7 +70,8 @@ def key_collision(data, key=None, keys=None, min_size=2, max_size=float('inf'),
             if not ks:
                 continue
 
-            for k in ks:
+            # NOTE: an item yielding a same key twice should not collide with itself
+            for k in dict.fromkeys(ks):
                 if k:
                     buckets[k].append(item)
 
-- 
2.43.0


From 8158ef458bae047de706bfea703893440863e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:41 +0000
Subject: [PATCH 08/52] fix: passjoin can find a same pair twice and should not
 duplicate items in fuzzy clusters

---
 fog/clustering/passjoin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/passjoin.py b/fog/clustering/passjoin.py
index 76804ef..3d8ad53 100644
--- a/fog/clustering/passjoin.py
+++ b/fog/clustering/passjoin.py
@@ -279,5 +279,6 @@ def passjoin(data, k, distance, sort=True, min_size=2, max_size=float('inf'),
         clustering(),
         min_size=min_size,
         max_size=max_size,
-        mode=mode
+        mode=mode,
+        fuzzy=True
     )
-- 
2.43.0


From 5ae4a452b484b38994be63b07ab3de1ec2226f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:23 +0000
Subject: [PATCH 09/52] fix: ppjoin should compare positions, not the
 similarity threshold, when indexing & filtering

---
 fog/clustering/ppjoin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index f995e00..653ec98 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -381,7 +381,7 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
 
                 if value is None:
                     if (
-                        record_length - threshold < require_overlap
+                        record_length - t < require_overlap
                         or (candidate_length - candidate_pos) < require_overlap
                     ):
                         continue
@@ -389,14 +389,14 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
                     occurances[candidate_id] = 1
                 else:
                     if (
-                        value + (record_length - threshold) < require_overlap
+                        value + (record_length - t) < require_overlap
                         or value + (candidate_length - candidate_pos) < require_overlap
                     ):
                         occurances[candidate_id] = PRUNE_FLAG
                     else:
                         occurances[candidate_id] += 1
 
-            if threshold < index_length:
+            if t < index_length:
                 ids.append((k, t))
 
         for candidate, count in occurances.items():
-- 
2.43.0


From 2f5478dc89f9dd1430ab902d26c8402d15949253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:23 +0000
Subject: [PATCH 10/52] fix: ppjoin's default token ordering should work
 without a tokenizer

---
 fog/clustering/ppjoin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index 653ec98..ccd38c1 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -221,12 +221,12 @@ def preprocess(records, tokenizer=None, token_ordering=None):
         if tokenizer is not None:
             record = tokenizer(record)
 
-            if not isinstance(record, list):
-                record = list(record)
+        if not isinstance(record, list):
+            record = list(record)
 
-            if token_ordering == 'freq':
-                for token in record:
-                    freqs[token] += 1
+        if token_ordering == 'freq':
+            for token in record:
+                freqs[token] += 1
 
         record = sorted_uniq(record)
 
-- 
2.43.0


From 1dfe3f5b1314dcf558d29486101435d5817aeef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:23 +0000
Subject: [PATCH 11/52] fix: ppjoin should not crash on empty records

---
 fog/clustering/ppjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/ppjoin.py b/fog/clustering/ppjoin.py
index ccd38c1..c4afb4a 100644
--- a/fog/clustering/ppjoin.py
+++ b/fog/clustering/ppjoin.py
@@ -309,6 +309,10 @@ def ppjoin(records, threshold, metric='jaccard', tokenizer=None, all_pairs=False
         record = tokenized_records[k]
         record_length = len(record)
 
+        # An empty record has no token to share
+        if record_length == 0:
+            continue
+
         min_length = helper.min_possible_length(record_length)
         probe_length = helper.probe_length(record_length)
         index_length = helper.index_length(record_length)
-- 
2.43.0


From 46a3cc49ea231088710ff5aedfe97034083ba060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 12/52] fix: quickjoin should not miss similar pairs across
 partitions when given a similarity

---
 fog/clustering/quickjoin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 13a0fd4..0a1a51f 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -234,8 +234,9 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
         data = list(data)
 
     if similarity is not None:
-        distance = lambda x, y: -similarity(x, y)
-        radius = -radius
+        # NOTE: partitioning needs an actual metric, hence not just the opposite
+        distance = lambda x, y: 1 - similarity(x, y)
+        radius = 1 - radius
 
     # Iterator recursively partitioning the data set using QuickJoin's method
     def blocks():
-- 
2.43.0


From 3f401451f7c5bc2824620b1065b931e8f3e7038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 13/52] fix: quickjoin with vp_tree should not crash without
 data

---
 fog/clustering/quickjoin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 0a1a51f..a459e55 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -109,7 +109,7 @@ def quickjoin_vptree(S1, S2, distance, radius):
 
 def quickjoin_self_vptree(S, distance, radius):
 
-    if len(S) == 1:
+    if len(S) < 2:
         return
 
     tree = VPTree(S, distance)
-- 
2.43.0


From ffdd8b85cf90fed4de83f09f04032a931986dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 14/52] fix: vp_tree should not crash when given less than two
 items

---
 fog/clustering/vp_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/clustering/vp_tree.py b/fog/clustering/vp_tree.py
index 299ab31..6ada285 100644
--- a/fog/clustering/vp_tree.py
+++ b/fog/clustering/vp_tree.py
@@ -44,6 +44,10 @@ def vp_tree(data, distance, radius, min_size=2, max_size=float('inf')):
     if type(data) is not list:
         data = list(data)
 
+    # NOTE: the tree cannot index less than two items
+    if len(data) < 2:
+        return
+
     tree = VPTree(data, distance, selection='spread')
 
     visited = set()
-- 
2.43.0


From e40504e4e90e178fb434a4123d02df9b382e750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 15/52] fix: adaptive_sorted_neighborhood should not enlarge
 its window past the last record

---
 fog/clustering/sorted_neighborhood.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 9eae5e3..1588688 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -124,6 +124,11 @@ def full_AA_SNM(sorted_records, similarity, window):
             first = last
             last = first + w - 1
 
+            # The window cannot be enlarged past the last record
+            if last >= n:
+                last = n - 1
+                break
+
         # Retrenchment
         w = last - f + 1
 
-- 
2.43.0


From 7eca2703e8bae16a12ac411b138724c5668b0827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 16/52] fix: multipass sorted neighborhood should not consume
 the data in its first pass

---
 fog/clustering/sorted_neighborhood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fog/clustering/sorted_neighborhood.py b/fog/clustering/sorted_neighborhood.py
index 1588688..b42a175 100644
--- a/fog/clustering/sorted_neighborhood.py
+++ b/fog/clustering/sorted_neighborhood.py
@@ -81,6 +81,10 @@ def sorted_neighborhood(data, key=None, keys=None, similarity=None, distance=Non
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to be able to iterate over the data more than once
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
@@ -202,6 +206,10 @@ def adaptive_sorted_neighborhood(data, key=None, keys=None, similarity=None,
     # Formatting similarity
     similarity = make_similarity_function(similarity=similarity, distance=distance, radius=radius)
 
+    # We need to be able to iterate over the data more than once
+    if type(data) is not list:
+        data = list(data)
+
     # Iterating over sorted data
     def clustering():
         multipass_keys = keys if keys is not None else [key]
-- 
2.43.0


From 90c325ddfeb2e79c11408b7992e1d9f2a385bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:31 +0000
Subject: [PATCH 17/52] fix: SuperMinHash should not truncate its minima, else
 dissimilar sets share their signature

---
 fog/lsh/minhash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index a1bb2c6..9daae27 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -192,7 +192,8 @@ class SuperMinHash(object):
 
                 j += 1
 
-        return [int(i) for i in h]
+        # NOTE: the fractional part is needed, the integer part of minima collides
+        return h
 
 
 class LSBMinHash(object):
-- 
2.43.0


From a93e7aeeca2d619318ae08405fe252069fbe5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:31 +0000
Subject: [PATCH 18/52] fix: MinHash should not overflow nor fail to cast when
 using numpy

---
 fog/lsh/minhash.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fog/lsh/minhash.py b/fog/lsh/minhash.py
index 9daae27..a8f35a9 100644
--- a/fog/lsh/minhash.py
+++ b/fog/lsh/minhash.py
@@ -102,15 +102,16 @@ class MinHash(object):
             if len(tokens) == 0:
                 return np.zeros(self.h, dtype=np.uint32)
 
-            signature = np.repeat(list(tokens), self.h).astype(np.uint32, copy=False)
+            # NOTE: computations need 64 bits not to overflow
+            signature = np.repeat(list(tokens), self.h).astype(np.uint64, copy=False)
             signature.shape = (len(tokens), self.h)
 
             # Universal hash
             signature *= self.A
             signature += self.B
-            signature %= NEXT_PRIME
+            signature %= np.uint64(NEXT_PRIME)
 
-            return signature.min(axis=0)
+            return np.minimum(signature.min(axis=0), np.uint64(MAX_UINT32)).astype(np.uint32)
 
         # Standard routine
         params = self.params
-- 
2.43.0


From a6f77b6aaa511d824ad156e03601079b9c58617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:31 +0000
Subject: [PATCH 19/52] fix: guess_bands should not return more bands than
 there are integers in the signature

---
 fog/clustering/minhash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/clustering/minhash.py b/fog/clustering/minhash.py
index 3701d26..e4e1f1e 100644
--- a/fog/clustering/minhash.py
+++ b/fog/clustering/minhash.py
@@ -80,7 +80,8 @@ def guess_bands(h, threshold):
 
     bands = 1
 
-    while bands <= h:
+    # NOTE: there cannot be more bands than integers in the signature
+    while bands < h:
         t = similarity_threshold(h, bands)
 
         if t <= threshold:
-- 
2.43.0


From 15fd9ae7f1228fc8da9ae195bc24290df57a3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:31 +0000
Subject: [PATCH 20/52] fix: nn_descent should terminate without crashing when
 there are few items

---
 fog/clustering/nn_descent.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index ed1b47e..5241d51 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -109,10 +109,17 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # Nothing to compare
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    # An item cannot have more neighbors than there are other items
+    k = min(k, N - 1)
+
     # Initial samples
     for i, item in enumerate(V):
         neighbors = [(similarity(item, V[j]), j) for j in sample(rng, N, k, i)]
@@ -274,10 +281,17 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
     B = []
     N = len(V)
 
+    # Nothing to compare
+    if N < 2:
+        return
+
     # Chosing k
     if k is None:
         k = int(math.log2(N))
 
+    # An item cannot have more neighbors than there are other items
+    k = min(k, N - 1)
+
     NK = N * k
     rhoK = int(rho * k)
 
-- 
2.43.0


From ae6a5106978a8d6936862f725e84e0e17fd42175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:37 +0000
Subject: [PATCH 21/52] fix: nn_descent should keep distinct nearest neighbors

---
 fog/clustering/nn_descent.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fog/clustering/nn_descent.py b/fog/clustering/nn_descent.py
index 5241d51..da41273 100644
--- a/fog/clustering/nn_descent.py
+++ b/fog/clustering/nn_descent.py
@@ -57,6 +57,14 @@ def reverse(B):
     return R
 
 
+def has_neighbor(neighbors, j):
+    """
+    Returns whether the given index already is in the given heap of neighbors.
+
+    """
+    return any(neighbor[1] == j for neighbor in neighbors)
+
+
 def nn_descent(data, radius, similarity=None, distance=None, k=None,
                min_size=2, max_size=float('inf'),
                mode='connected_components',
@@ -153,7 +161,7 @@ def nn_descent(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[i], V[jj])
 
-                    if s > B[i][0][0]:
+                    if s > B[i][0][0] and not has_neighbor(B[i], jj):
                         c += 1
                         heapreplace(B[i], (s, jj))
 
@@ -347,11 +355,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not has_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not has_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
@@ -362,11 +370,11 @@ def nn_descent_full(data, radius, similarity=None, distance=None, k=None,
 
                     s = similarity(V[u1], V[u2])
 
-                    if s > B[u1][0][0]:
+                    if s > B[u1][0][0] and not has_neighbor(B[u1], u2):
                         c += 1
                         heapreplace(B[u1], (s, u2, True))
 
-                    if s > B[u2][0][0]:
+                    if s > B[u2][0][0] and not has_neighbor(B[u2], u1):
                         c += 1
                         heapreplace(B[u2], (s, u1, True))
 
-- 
2.43.0


From 4f84e498af62d9c222db8207bfa1bcef3dc4e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 22/52] fix: levenshtein_2d_blocks should not miss strings
 whose middle block is shifted, nor crash on the empty string

---
 fog/key/levenshtein.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index 15a318f..ba21c0b 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -213,6 +213,13 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h * 2:]
         )
 
+        if n == 0:
+            return basic
+
+        # Middle block must also match when shifted by a deletion in the first
+        # block compensated by an insertion in the last one
+        basic += (flag2 + string[h - 1:h * 2 - 1],)
+
         if transpositions:
             h1 = h - 1
 
-- 
2.43.0


From 70850d0fbf9e0c4bb60f3ce7c74dbcd87c7c425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:25 +0000
Subject: [PATCH 23/52] fix: damerau_levenshtein_2d_blocks should not miss
 transpositions around the middle block

---
 fog/key/levenshtein.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fog/key/levenshtein.py b/fog/key/levenshtein.py
index ba21c0b..4d9d2fd 100644
--- a/fog/key/levenshtein.py
+++ b/fog/key/levenshtein.py
@@ -251,7 +251,7 @@ def levenshtein_2d_blocks(string, transpositions=False,
         h1 = n // 3
         h = h1 + 1
 
-        return (
+        basic = (
             flag1 + string[:h],
             flag2 + string[h:h + h1],
             flag3 + string[h + h1:],
@@ -263,5 +263,11 @@ def levenshtein_2d_blocks(string, transpositions=False,
             flag3 + string[h1 * 2:]
         )
 
+        # Both boundaries of the middle block can be transposed at once
+        if transpositions and h1 > 0:
+            return basic + (flag1 + string[:h1 - 1] + string[h1],)
+
+        return basic
+
 
 damerau_levenshtein_2d_blocks = partial(levenshtein_2d_blocks, transpositions=True)
-- 
2.43.0


From 861a5432947ebab53e18c7f4565fe770cbc06c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:45 +0000
Subject: [PATCH 24/52] fix: fingerprints should not drop the uppercase letters
 produced by unidecode

---
 fog/tokenizers/fingerprint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/fingerprint.py b/fog/tokenizers/fingerprint.py
index 2c23bc0..9570450 100644
--- a/fog/tokenizers/fingerprint.py
+++ b/fog/tokenizers/fingerprint.py
@@ -104,7 +104,8 @@ class FingerprintTokenizer(object):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        # Note: transliteration can produce uppercase letters
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
@@ -157,7 +158,8 @@ class NgramsFingerprintTokenizer(FingerprintTokenizer):
             string = re.sub(self.min_token_size_re, '', string)
 
         # Deburring
-        string = unidecode(string)
+        # Note: transliteration can produce uppercase letters
+        string = unidecode(string).lower()
 
         # Only keeping letters
         string = re.sub(BLACKLIST_RE, '', string)
-- 
2.43.0


From decb29065522df76697433137053eeb0b9d615ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:56 +0000
Subject: [PATCH 25/52] fix: cologne should also squeeze the leading code (e.g.
 Lloyd)

---
 fog/phonetics/cologne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/phonetics/cologne.py b/fog/phonetics/cologne.py
index 39ff309..7fa7986 100644
--- a/fog/phonetics/cologne.py
+++ b/fog/phonetics/cologne.py
@@ -121,6 +121,6 @@ def cologne(name):
         return ''
 
     # Squeezing and dropping not leading 0
-    rest = squeeze(''.join(code[1:])).replace('0', '')
+    code = squeeze(''.join(code))
 
-    return code[0] + rest
+    return code[0] + code[1:].replace('0', '')
-- 
2.43.0


From c0da890f11725f5ea49d82fb4726a3c33c216dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:56 +0000
Subject: [PATCH 26/52] fix: rusalka should not crash when its rules drop every
 letter

---
 fog/phonetics/rusalka.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/phonetics/rusalka.py b/fog/phonetics/rusalka.py
index 10246c4..9fdcc8a 100644
--- a/fog/phonetics/rusalka.py
+++ b/fog/phonetics/rusalka.py
@@ -104,6 +104,10 @@ def rusalka(name):
     name = re.sub(DUPLICATED, r'\1', name)
     name = name.lower()
 
+    # Rules can drop everything (e.g. "ij")
+    if not name:
+        return ''
+
     first_letter = name[0]
     rest = name[1:]
 
-- 
2.43.0


From caf389da21ad49c547b04a607a3a63a4de30de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:07 +0000
Subject: [PATCH 27/52] fix: squeeze should also drop consecutive duplicated
 newlines

---
 fog/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/utils.py b/fog/utils.py
index 2099c1b..5aa3c01 100644
--- a/fog/utils.py
+++ b/fog/utils.py
@@ -7,7 +7,7 @@
 import re
 from statistics import StatisticsError
 
-SQUEEZE_RE = re.compile(r'(.)\1+')
+SQUEEZE_RE = re.compile(r'(.)\1+', re.DOTALL)
 SQUEEZE_ROMAN_RE = re.compile(r'([^IXCMixcm])\1+')
 
 
-- 
2.43.0


From 4a1eb42990d2798e9dec7bfbc8d465bb4ce69a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 28/52] fix: hashjoin should not exhaust an iterator given as
 its inner side after the first item

---
 fog/join/hashjoin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 43be394..838cf36 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -45,6 +45,10 @@ def hashjoin(left, right, key=None, keys=None):
             similar pairs.
             """)
 
+    # NOTE: B is iterated over once per item of A
+    if iter(B) is B:
+        B = list(B)
+
     # Single key
     if key is not None:
         for a in A:
-- 
2.43.0


From 1fc5ac7047c87ee6ce640a19e12523e7b5dcb73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:29 +0000
Subject: [PATCH 29/52] fix: hashjoin should not exhaust the keys of an item
 when they are given as an iterator

---
 fog/join/hashjoin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fog/join/hashjoin.py b/fog/join/hashjoin.py
index 838cf36..a76a022 100644
--- a/fog/join/hashjoin.py
+++ b/fog/join/hashjoin.py
@@ -67,12 +67,12 @@ def hashjoin(left, right, key=None, keys=None):
     # Multiple keys
     if keys is not None:
         for a in A:
-            key_a = keys(a)
+            key_a = set(keys(a))
 
             for b in B:
                 key_b = keys(b)
 
-                if len(list(set(key_a) & set(key_b))) > 0:
+                if len(key_a & set(key_b)) > 0:
 
                     if invert:
                         yield (b, a)
-- 
2.43.0


From b5812e53e67b3a2a0f61e42c9ff726e65af46da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:14 +0000
Subject: [PATCH 30/52] fix: monopartite_projection should neither compare
 nodes nor need a vector for those having a null norm

---
 fog/graph/projection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fog/graph/projection.py b/fog/graph/projection.py
index 19c57f9..fa8410a 100644
--- a/fog/graph/projection.py
+++ b/fog/graph/projection.py
@@ -137,6 +137,10 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
     # Version relying on graph traversals
     if use_topology:
 
+        # NOTE: nodes are not compulsorily comparable, and those having a null
+        # norm don't have a vector
+        ranks = {node: i for i, node in enumerate(vectors)}
+
         for n1, (norm1, vector1) in vectors.items():
             for np in bipartite.neighbors(n1):
                 for n2 in bipartite.neighbors(np):
@@ -146,7 +150,7 @@ def monopartite_projection(bipartite, project, part='bipartite', weight='weight'
                     # the same as cutting edges from n1 to np after you
                     # traversed them.
                     # We also avoid (n1, n1) since n1 is obv. a neighbor of np.
-                    if n1 >= n2:
+                    if ranks[n1] >= ranks.get(n2, -1):
                         continue
 
                     # NOTE: if a threshold is given, this condition does
-- 
2.43.0


From eaffbb91bb3d8ef85dbcd678237b1f07c0e5f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:14 +0000
Subject: [PATCH 31/52] fix: floatsam_sparsification should stop when no edge
 remains

---
 fog/graph/sparsification.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fog/graph/sparsification.py b/fog/graph/sparsification.py
index 10a024b..161fbf0 100644
--- a/fog/graph/sparsification.py
+++ b/fog/graph/sparsification.py
@@ -55,6 +55,8 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
     if max_drifter_size is None:
         max_drifter_size = int(math.log(len(graph)))
 
+    max_weight = max(w for _, _, w in graph.edges(data=weight))
+
     while True:
         best_threshold = threshold
         threshold += learning_rate
@@ -64,6 +66,10 @@ def floatsam_sparsification(graph, starting_treshold=0.0, learning_rate=0.05,
         if c is not None and c >= max_drifter_size:
             break
 
+        # No edge remains, so no larger component will ever drift away
+        if threshold > max_weight:
+            break
+
     if remove_edges:
         to_remove = []
         for u, v, w in graph.edges(data=weight):
-- 
2.43.0


From ec1c493e3eb6fa0eced2aafa95fb19a8db8c2888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 32/52] fix: WordTokenizer should not lose what follows an
 uppercase word and a point (e.g. USA.The)

---
 fog/tokenizers/words.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index ca21436..6020e19 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -502,8 +502,9 @@ class WordTokenizer(object):
                     yield ('word', before)
 
                 else:
-                    for t in POINT_SPLITTER_RE.split(before)[:-1]:
-                        yield ('word' if t != '.' else 'punct', t)
+                    for t in POINT_SPLITTER_RE.split(before):
+                        if t:
+                            yield ('word' if t != '.' else 'punct', t)
 
                 i = j
                 continue
-- 
2.43.0


From 5e460530d2ea199a6af63da6cc1736146180d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 33/52] fix: WordTokenizer should not tag a lone hyphen
 followed by a point or comma as a number

---
 fog/tokenizers/words.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 6020e19..7ad006d 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -442,6 +442,9 @@ class WordTokenizer(object):
                 if already_consumed and j > i + 1 and string[j - 1] in DECIMALS:
                     j -= 1
 
+                if already_consumed and string[i:j] == '-':
+                    token_type = 'punct'
+
             # Alphanumerical token
             can_be_acronym = False
 
-- 
2.43.0


From 538a1dcc7203db3d7c61ec27fcb5611083b96a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 34/52] fix: WordTokenizer should not emit empty words when
 splitting unions

---
 fog/tokenizers/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 7ad006d..7cdbd2f 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -577,7 +577,7 @@ class WordTokenizer(object):
                     # Handling unions that should be split
                     hyphens = before.count('-')
 
-                    if hyphens == 2 and '-t-' in before:
+                    if hyphens == 2 and '-t-' in before[1:-1]:
                         for t in before.split('-'):
                             yield (token_type, t)
 
-- 
2.43.0


From 3717062f34c56509ff93b034e21e18f3f17e93ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:20 +0000
Subject: [PATCH 35/52] fix: WordTokenizer should not give contractions the
 type of a number, mention or hashtag (e.g. the 's in 90's or @bob's)

---
 fog/tokenizers/words.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 7cdbd2f..9bec86c 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -527,21 +527,24 @@ class WordTokenizer(object):
                 if k > j + 1:
                     after = string[j + 1:k]
 
+                    # NOTE: numbers joined to something else are not numbers anymore
+                    joined_type = 'word' if token_type in ('number', 'punct') else token_type
+
                     if after[0].isdigit():
-                        yield (token_type, before + string[j])
+                        yield (joined_type, before + string[j])
                         i = j + 1
                         continue
 
                     elif after in ENGLISH_CONTRACTIONS:
                         yield (token_type, before)
-                        yield (token_type, string[j] + after)
+                        yield ('word', string[j] + after)
 
                     elif (
                         (before.endswith('n') and after == 't') or
                         after in FRENCH_EXCEPTIONS or
                         '-' in before
                     ):
-                        yield (token_type, string[i:k])
+                        yield (joined_type, string[i:k])
 
                     elif (
                         (
@@ -551,10 +554,10 @@ class WordTokenizer(object):
                         ) or
                         before in IRISH
                     ):
-                        yield (token_type, before + string[j] + after)
+                        yield (joined_type, before + string[j] + after)
 
                     else:
-                        yield (token_type, before + string[j])
+                        yield (joined_type, before + string[j])
                         i = j + 1
                         continue
 
-- 
2.43.0


From 121ff1cfeb8b48e94962a7cc8f9e7f829808488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:43 +0000
Subject: [PATCH 36/52] fix: split_hashtag should split after a single leading
 lowercase letter (e.g. #eBAY)

---
 fog/tokenizers/words.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 9bec86c..6bc5d43 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -176,7 +176,12 @@ def validate_token_types(types):
 def split_hashtag(string):
     offset = 1
     it = enumerate(string)
-    state = 'upper-start' if not string[1].isdigit() else 'number'
+    state = 'upper-start'
+
+    if string[1].isdigit():
+        state = 'number'
+    elif string[1].islower():
+        state = 'lower'
 
     next(it)  # Hastag sigil '#'
     next(it)  # First char
-- 
2.43.0


From 6ef3a9d7c25228cb2eef1b900a29b9caff50fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:21 +0000
Subject: [PATCH 37/52] fix: WordTokenizer should also split hashtags followed
 by an apostrophe

---
 fog/tokenizers/words.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 6bc5d43..8581aad 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -311,6 +311,12 @@ class WordTokenizer(object):
         ):
             self.__only_defaults = False
 
+    def __emit(self, token_type, token_value):
+        if token_type == 'hashtag' and self.split_hashtags:
+            yield from split_hashtag(token_value)
+        else:
+            yield (token_type, token_value)
+
     def __tokenize(self, string):
         i = 0
         l = len(string)
@@ -541,7 +547,7 @@ class WordTokenizer(object):
                         continue
 
                     elif after in ENGLISH_CONTRACTIONS:
-                        yield (token_type, before)
+                        yield from self.__emit(token_type, before)
                         yield ('word', string[j] + after)
 
                     elif (
@@ -567,7 +573,7 @@ class WordTokenizer(object):
                         continue
 
                 else:
-                    yield (token_type, before)
+                    yield from self.__emit(token_type, before)
                     yield ('punct', string[j])
 
                 j = k
@@ -602,12 +608,8 @@ class WordTokenizer(object):
                     else:
                         yield (token_type, before)
 
-                elif token_type == 'hashtag' and self.split_hashtags:
-                    yield from split_hashtag(before)
-
                 else:
-
-                    yield (token_type, before)
+                    yield from self.__emit(token_type, before)
 
             i = j
 
-- 
2.43.0


From 441edb8c5fe3983c27aa95d38bd9e9da3c81323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:47 +0000
Subject: [PATCH 38/52] fix: fog split should write exactly one value per line
 in the target column

---
 fog/cli/split.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/fog/cli/split.py b/fog/cli/split.py
index c8b7ce3..247c856 100644
--- a/fog/cli/split.py
+++ b/fog/cli/split.py
@@ -25,15 +25,10 @@ def split_action(namespace):
     for line in reader:
         values = line[position]
 
-        if len(values) == 0:
-            writer.writerow(line)
-            continue
-
         for value in values.split(namespace.separator):
 
-            if namespace.target_column:
-                line.append(value)
+            if namespace.target_column is not None:
+                writer.writerow(line + [value])
             else:
                 line[position] = value
-
-            writer.writerow(line)
+                writer.writerow(line)
-- 
2.43.0


From 15d9ea50fde5c7cffdb10d5947479d11a4300c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:47 +0000
Subject: [PATCH 39/52] fix: toml reports should escape backslashes and control
 characters

---
 fog/cli/reporting/toml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/toml.py b/fog/cli/reporting/toml.py
index 98b6dd1..20d6f90 100644
--- a/fog/cli/reporting/toml.py
+++ b/fog/cli/reporting/toml.py
@@ -5,9 +5,16 @@
 # Function used to render a clustering result into a TOML file.
 #
 
+import re
+
+# NOTE: basic strings cannot hold raw control characters
+CONTROL_RE = re.compile(r'[\x00-\x08\x0b-\x1f\x7f]')
+
 
 def escape_string(string):
-    return string.replace('"', '\\"').replace('\n', '\\n')
+    string = string.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')
+
+    return CONTROL_RE.sub(lambda m: '\\u%04x' % ord(m.group()), string)
 
 
 def print_toml_report(file, meta, values, clusters):
-- 
2.43.0


From f92bb8ffc7c3293f908a355c8407755f8b866066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 40/52] fix: html reports should escape the clustered values

---
 fog/cli/reporting/html.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 3c39c45..4ade43c 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -5,6 +5,7 @@
 # Function used to render a clustering result into a HTML file.
 #
 import datetime
+from html import escape
 
 
 def print_html_report(file, meta, values, clusters):
@@ -92,7 +93,7 @@ def print_html_report(file, meta, values, clusters):
 
         for v in sorted_values:
             p('        <li>')
-            p('          %s' % v)
+            p('          %s' % escape(v))
             p('        </li>')
 
         p('      </ul>')
-- 
2.43.0


From 5399314b9fd119ac399e033e74a347104dab8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:24 +0000
Subject: [PATCH 41/52] fix: laesa should prune by the radius, else it misses
 similar pairs, and should not print nor crash

---
 fog/clustering/laesa.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/fog/clustering/laesa.py b/fog/clustering/laesa.py
index ad9be68..919fe33 100644
--- a/fog/clustering/laesa.py
+++ b/fog/clustering/laesa.py
@@ -63,7 +63,7 @@ def pivot_selection(rng, data, pivots, distance):
     p = list(p)
 
     # Pre-computing distances (not necessary, can be done before or later)
-    for i in range(pivots):
+    for i in range(len(p)):
         pivot = data[p[i]]
 
         for j, item in enumerate(data):
@@ -72,7 +72,6 @@ def pivot_selection(rng, data, pivots, distance):
     return p, D
 
 
-# TODO: currently not working
 def laesa(data, distance, radius, pivots=None, min_size=2,
           max_size=float('inf'), seed=None, mode='connected_components'):
     """
@@ -105,6 +104,9 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     if type(data) is not list:
         data = list(data)
 
+    if len(data) < 2:
+        return
+
     # Finding the number of pivots
     if pivots is None:
         pivots = math.ceil(math.log2(len(data)))
@@ -114,38 +116,25 @@ def laesa(data, distance, radius, pivots=None, min_size=2,
     n = len(data)
 
     def clustering():
-        DD = 0
         for i, x in enumerate(data):
-
-            # Distance to the nearest pivot
-            d_star = float('inf')
-
-            for j in range(pivots):
-                d = distance(data[p[j]], x)
-
-                if d < d_star:
-                    d_star = d
-
             for k in range(i + 1, n):
 
                 compute = True
 
-                for j in range(pivots):
+                # By the triangle inequality, delta is a lower bound
+                for j in range(len(p)):
                     delta = abs(D[j][i] - D[j][k])
 
-                    if delta > d_star:
+                    if delta > radius:
                         compute = False
                         break
 
                 if compute:
                     d = distance(x, data[k])
-                    DD += 1
 
                     if d <= radius:
                         yield (x, data[k])
 
-        print('DISTANCES: %i' % DD)
-
     yield from clusters_from_pairs(
         clustering(),
         min_size=min_size,
-- 
2.43.0


From 86ddb61e27881fca48bf0b6dc570eb2fbee02a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:53 +0000
Subject: [PATCH 42/52] fix: fagin's algorithms read their lists by decreasing
 normalised weight

---
 fog/clustering/fagin.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/fog/clustering/fagin.py b/fog/clustering/fagin.py
index 118d50c..f6fe415 100644
--- a/fog/clustering/fagin.py
+++ b/fog/clustering/fagin.py
@@ -26,18 +26,25 @@ import math
 from random import shuffle
 from collections import defaultdict, Counter
 
-from fog.metrics.cosine import sparse_cosine_similarity
+from fog.metrics.cosine import (
+    sparse_cosine_similarity,
+    sparse_dot_product,
+    sparse_norm
+)
 
 
 def fagin_k1(vectors):
     inverted_lists = defaultdict(list)
 
     for i, vector in enumerate(vectors):
+        norm = sparse_norm(vector)
+
         for d, w in vector.items():
-            inverted_lists[d].append((w, i))
+            inverted_lists[d].append((w / norm, i))
 
+    # NOTE: the algorithm only holds if lists are read by decreasing weight
     for l in inverted_lists.values():
-        l.sort()
+        l.sort(reverse=True)
 
     for i, vector in enumerate(vectors):
         counts = Counter()
@@ -69,11 +76,14 @@ def threshold_algorithm_k1(vectors):
     inverted_lists = defaultdict(list)
 
     for i, vector in enumerate(vectors):
+        norm = sparse_norm(vector)
+
         for d, w in vector.items():
-            inverted_lists[d].append((w, i))
+            inverted_lists[d].append((w / norm, i))
 
+    # NOTE: the algorithm only holds if lists are read by decreasing weight
     for l in inverted_lists.values():
-        l.sort()
+        l.sort(reverse=True)
 
     for i, vector in enumerate(vectors):
         visited = set()
@@ -122,7 +132,7 @@ def threshold_algorithm_k1(vectors):
                 yield i, best[1] if best is not None else i
                 break
 
-            t = sparse_cosine_similarity(vector, t_vector)
+            t = sparse_dot_product(vector, t_vector) / sparse_norm(vector)
 
             if best is not None and best[0] >= t:
                 yield i, best[1] if best is not None else i
-- 
2.43.0


From c032739b9e682ab0f7fa95fa7170502d7a698e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:58 +0000
Subject: [PATCH 43/52] fix: WordTokenizer should recognise emails whose local
 part has 64 characters

---
 fog/tokenizers/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 8581aad..a5631f0 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -332,7 +332,7 @@ class WordTokenizer(object):
             can_be_mention = c == '@'
             can_be_hashtag = (c == '#' or c == '$')
 
-            lookahead = string[i:i + 64]  # NOTE: 64 because of emails
+            lookahead = string[i:i + 65]  # NOTE: 64 because of emails, then the @
 
             # Smileys?
             m = SMILEY_RE.match(lookahead)
-- 
2.43.0


From 3df1c9f68b339cd08a2b8558b4d2293dc8b63236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:47 +0000
Subject: [PATCH 44/52] fix: WordTokenizer should recognise emails whose local
 part holds dots

---
 fog/tokenizers/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index a5631f0..55dd46b 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -36,7 +36,7 @@ SIGILS = ['#', '@', '$']
 IRISH = ['O', 'o']
 VOWELS_PATTERN = 'aáàâäąåoôóøeéèëêęiíïîıuúùûüyÿæœAÁÀÂÄĄÅOÓÔØEÉÈËÊĘIİÍÏÎYŸUÚÙÛÜÆŒ'
 CONSONANTS_RE = re.compile(r'^[^%s]$' % VOWELS_PATTERN)
-EMAIL_LOOKAHEAD_RE = re.compile(r'^[A-Za-z0-9!#$%&*+\-/=?^_`{|}~]{1,64}@')
+EMAIL_LOOKAHEAD_RE = re.compile(r'^[A-Za-z0-9!#$%&*+\-/=?^_`{|}~](?:[A-Za-z0-9!#$%&*+\-/=?^_`{|}~.]{0,62}[A-Za-z0-9!#$%&*+\-/=?^_`{|}~])?@')
 SMILEY_RE = re.compile(r'^(?:[\-]+>|<[\-]+|[<>]?[:;=8][\-o\*\']?[\)\]\(\[dDpP/\:\}\{@\|\\]|[\)\]\(\[dDpP/\:\}\{@\|\\][\-o\*\']?[:;=8]|[<:]3|\^\^)')
 EMOJI_RE = get_emoji_regexp()
 POINT_SPLITTER_RE = re.compile(r'(\.)')
-- 
2.43.0


From 79f2c825a8cba0657cc75f1061fcaff68ed45b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:52 +0000
Subject: [PATCH 45/52] fix: WordTokenizer should not cut words, mentions and
 numbers which start as a smiley

---
 fog/tokenizers/words.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index 55dd46b..b2adfc1 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -338,9 +338,17 @@ class WordTokenizer(object):
             m = SMILEY_RE.match(lookahead)
 
             if m is not None:
-                yield ('smiley', string[i:i + m.end()])
-                i += m.end()
-                continue
+                j = i + m.end()
+
+                # NOTE: words & mentions can start as a smiley, e.g. "8pm", "@8bit",
+                # and numbers can follow some punctuation, e.g. "10:30"
+                if j >= l or not (
+                    (string[j].isalnum() and (c.isalnum() or can_be_mention)) or
+                    (string[j].isdigit() and string[j - 1].isdigit())
+                ):
+                    yield ('smiley', string[i:j])
+                    i = j
+                    continue
 
             # Guarding some cases
             if can_be_mention or can_be_hashtag:
-- 
2.43.0


From 34a4da53d789544df5cfa05160882ac7836b9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:40 +0000
Subject: [PATCH 46/52] fix: WordTokenizer should not cut mentions and words
 holding an underscore after what looks like a smiley

---
 fog/tokenizers/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index b2adfc1..c5d798a 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -343,7 +343,7 @@ class WordTokenizer(object):
                 # NOTE: words & mentions can start as a smiley, e.g. "8pm", "@8bit",
                 # and numbers can follow some punctuation, e.g. "10:30"
                 if j >= l or not (
-                    (string[j].isalnum() and (c.isalnum() or can_be_mention)) or
+                    ((string[j].isalnum() or string[j] == '_') and (c.isalnum() or can_be_mention)) or
                     (string[j].isdigit() and string[j - 1].isdigit())
                 ):
                     yield ('smiley', string[i:j])
-- 
2.43.0


From 33e3df410c7ca33f126ce4e755025bd0aeb6a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:58 +0000
Subject: [PATCH 47/52] fix: WordTokenizer should recognise cashtags after
 punctuation, as it does hashtags and mentions

---
 fog/tokenizers/words.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fog/tokenizers/words.py b/fog/tokenizers/words.py
index c5d798a..c608cf9 100644
--- a/fog/tokenizers/words.py
+++ b/fog/tokenizers/words.py
@@ -366,6 +366,7 @@ class WordTokenizer(object):
                         n.isalnum() or
                         is_ascii_junk(n) or
                         n == '#' or
+                        n == '$' or
                         n == '@'
                     ):
                         break
-- 
2.43.0


From d9b1e27272fc6b072030157eb2f45494c950f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 48/52] fix: fog commands should leave carriage returns within
 cells untouched

---
 fog/cli/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fog/cli/utils.py b/fog/cli/utils.py
index c3b9321..f8923d3 100644
--- a/fog/cli/utils.py
+++ b/fog/cli/utils.py
@@ -12,6 +12,10 @@ def custom_reader(f, target_header):
     # dialect = sniffer.sniff(f.read(1024))
     # f.seek(0)
 
+    # NOTE: carriage returns within cells must be left untouched
+    if hasattr(f, 'reconfigure'):
+        f.reconfigure(newline='')
+
     reader = csv.reader(f)
 
     headers = next(reader, None)
-- 
2.43.0


From 45044b60bccf080d02c22c901a00434be1e2eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:00 +0000
Subject: [PATCH 49/52] fix: fog cluster should report how long clustering took

---
 fog/cli/cluster.py        | 4 ++--
 fog/cli/reporting/html.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fog/cli/cluster.py b/fog/cli/cluster.py
index ad0300e..b06f7ad 100644
--- a/fog/cli/cluster.py
+++ b/fog/cli/cluster.py
@@ -41,7 +41,7 @@ def cluster_action(namespace):
         values[line[position]] += 1
 
     start = timer()
-    clusters = routine['fn'](values.keys(), **routine['kwargs'])
+    clusters = list(routine['fn'](values.keys(), **routine['kwargs']))
     end = timer() - start
 
     meta = {
@@ -53,4 +53,4 @@ def cluster_action(namespace):
 
     renderer = RENDERERS[namespace.type]
 
-    renderer(namespace.output, meta, values, list(clusters))
+    renderer(namespace.output, meta, values, clusters)
diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 4ade43c..809a4b8 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -75,7 +75,7 @@ def print_html_report(file, meta, values, clusters):
     p('            <b>Took</b>')
     p('          </td>')
     p('          <td>')
-    p('            %s' % datetime.timedelta(microseconds=meta['took']))
+    p('            %s' % datetime.timedelta(seconds=meta['took']))
     p('          </td>')
     p('        </tr>')
     p('      </table>')
-- 
2.43.0


From 335df33edc7d1d3c56ea5b7bb5d8d74b325b82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:00 +0000
Subject: [PATCH 50/52] fix: HTML reports should close their html tag

---
 fog/cli/reporting/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fog/cli/reporting/html.py b/fog/cli/reporting/html.py
index 809a4b8..0245836 100644
--- a/fog/cli/reporting/html.py
+++ b/fog/cli/reporting/html.py
@@ -101,4 +101,4 @@ def print_html_report(file, meta, values, clusters):
 
     p('    </div>')
     p('  </body>')
-    p('<html>')
+    p('</html>')
-- 
2.43.0


From 4dc3635fccae841eb5e0d285e4e52d2fa029abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:29 +0000
Subject: [PATCH 51/52] fix: quickjoin should terminate when blocks hold a
 single item

---
 fog/clustering/quickjoin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index a459e55..24829e1 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -233,6 +233,9 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
     if type(data) is not list:
         data = list(data)
 
+    # NOTE: partitioning cannot tell apart two items within the radius
+    block_size = max(2, block_size)
+
     if similarity is not None:
         # NOTE: partitioning needs an actual metric, hence not just the opposite
         distance = lambda x, y: 1 - similarity(x, y)
-- 
2.43.0


From 5a782c2ff938e0bdb839ad182e6571d6cec73fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:52 +0000
Subject: [PATCH 52/52] fix: quickjoin should not partition windows when one
 side is empty

---
 fog/clustering/quickjoin.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fog/clustering/quickjoin.py b/fog/clustering/quickjoin.py
index 24829e1..1b68c03 100644
--- a/fog/clustering/quickjoin.py
+++ b/fog/clustering/quickjoin.py
@@ -284,11 +284,11 @@ def quickjoin(data, radius, distance=None, similarity=None, block_size=500,
                 N2 = len(S2)
                 N = N1 + N2
 
-                if N <= block_size:
-
-                    if N1 == 0 or N2 == 0:
-                        continue
+                # No pair to find here, partitioning any further is pointless
+                if N1 == 0 or N2 == 0:
+                    continue
 
+                if N <= block_size:
                     yield (S1, S2)
                     continue
 
-- 
2.43.0

