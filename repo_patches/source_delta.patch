From 32c2b99b343db2813cb30f483c3263f376509caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 01/51] fix: accept numpy RandomState as random_state

RandomState has no rand_int method, so every model and split given a RandomState
raised AttributeError.
---
 implicit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index 4e86ee7..bdf8468 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -76,7 +76,7 @@ def check_random_state(random_state):
     """
     # backwards compatibility
     if isinstance(random_state, np.random.RandomState):
-        return np.random.default_rng(random_state.rand_int(2**31))
+        return np.random.default_rng(random_state.randint(2**31))
 
     # otherwise try to initialize a new one, and let it fail through
     # on the numpy side if it doesn't work
-- 
2.43.0


From 56f7041db472a06f746bd55a69c86e22face0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 02/51] fix: don't return made-up results when N exceeds the
 number of items

topk left the positions past the last item as id 0 with score 0.0, so recommend,
similar_items and similar_users presented item 0 (or the first item of a subset)
over and over again, ahead of items with negative scores when sorting.
---
 implicit/cpu/matrix_factorization_base.py | 2 ++
 implicit/cpu/topk.pyx                     | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index dcd37fa..a1bdce5 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -155,6 +155,7 @@ class MatrixFactorizationBase(RecommenderBase):
             if filter_users:
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
+            N = min(N, len(users))
             users = np.array(users)
             user_factors = user_factors[users]
             norms = norms[users]
@@ -196,6 +197,7 @@ class MatrixFactorizationBase(RecommenderBase):
             if filter_items:
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
+            N = min(N, len(items))
             items = np.array(items)
             factors = factors[items]
             norms = norms[items]
diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 05dca11..0d266a2 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -17,8 +17,9 @@ def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_i
         query = query.reshape((1, len(query)))
 
     cdef int query_rows = query.shape[0]
-    indices = np.zeros((query_rows, k), dtype="int32")
-    distances = np.zeros((query_rows, k), dtype=query.dtype)
+    # positions past the number of items are marked as missing (same as utils._batch_call)
+    indices = np.full((query_rows, k), -1, dtype="int32")
+    distances = np.full((query_rows, k), -np.finfo(query.dtype).max, dtype=query.dtype)
 
     # TODO: figure out appropriate batch size from available memory
     cdef int batch_size = 100 # TODO
-- 
2.43.0


From a810b13a39b360e96a96378fc251c8c7167ec8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 03/51] fix: ranking metrics count missing recommendations as
 negatives

Positions padded with -1 (fewer than K items to recommend) were counted as misses,
which lets the AUC drop below zero once they outnumber the real negatives.
---
 implicit/evaluation.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bd59040..afa535e 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -451,6 +451,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_neg_items = items - num_pos_items
 
                 for i in range(K):
+                    # fewer than K items could be recommended for this user
+                    if ids[batch_idx, i] < 0:
+                        break
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From 45d7f6728d18064e75f373c54f0b1cf9daf0c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 04/51] fix: leave_k_out_split repeats test ratings when user
 ids have gaps

bincount has a zero for every user id that isn't a candidate, which selected the
previous candidate's tail again: those ratings were summed up in the test matrix.
---
 implicit/evaluation.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index afa535e..0f82c20 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -120,7 +120,8 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     idx = arr.argsort()
     sorted_arr = arr[idx]
 
-    end = np.bincount(sorted_arr).cumsum() - 1
+    # only count the values that occur: a gap in arr would repeat the previous tail
+    end = np.unique(sorted_arr, return_counts=True)[1].cumsum() - 1
     start = end - n
     ranges = np.linspace(start, end, num=n + 1, dtype=int)[1:]
 
-- 
2.43.0


From 4bec1e57e1ea0e89b7f24f6fdcb9e48c2f6c93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 05/51] fix: leave_k_out_split ignores random_state for the
 held out ratings

The test ratings were picked with the global numpy RNG, so splits couldn't be
reproduced with random_state.
---
 implicit/evaluation.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 0f82c20..7dc8f9c 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -74,7 +74,7 @@ cdef _choose(rng, int n, float frac):
     return arr
 
 
-cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
+cdef _take_tails(arr, int n, return_complement=False, shuffled=False, rng=None):
     """
     Given an array of (optionally shuffled) integers in the range 0->n, take the indices
     of the last 'n' occurrences of each integer (tail) -- subject to shuffling.
@@ -108,6 +108,8 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     shuffled: bool
         Optionally indicate whether you wish the dataset to be shuffled. This will act
         to randomise the 'tails' selected.
+    rng: np.random.Generator
+        The random state to shuffle with. Required if shuffled is set.
 
     Returns
     -------
@@ -126,7 +128,7 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     ranges = np.linspace(start, end, num=n + 1, dtype=int)[1:]
 
     if shuffled:
-        shuffled_idx = (sorted_arr + np.random.random(arr.shape)).argsort()
+        shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()
         tails = shuffled_idx[np.ravel(ranges, order="f")]
     else:
         tails = np.ravel(ranges, order="f")
@@ -205,7 +207,7 @@ cpdef leave_k_out_split(
     candidate_data = data[full_candidate_mask]
 
     test_idx, train_idx = _take_tails(
-        candidate_users, K, shuffled=True, return_complement=True
+        candidate_users, K, shuffled=True, return_complement=True, rng=random_state
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 56698e2da687794b9e04fbb919ad0cfbaaabe231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 06/51] fix: leave_k_out_split reserves the wrong users with
 train_only_size

_choose returns positions in unique_users, which were compared to user ids: with users
that have no ratings fewer users than asked for were kept out of the test set.
---
 implicit/evaluation.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 7dc8f9c..e293189 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -192,7 +192,8 @@ cpdef leave_k_out_split(
     # keep a given subset of users _only_ in the training set.
     if train_only_size > 0.0:
         train_only_mask = ~np.isin(
-            unique_users, _choose(random_state, len(unique_users), train_only_size)
+            unique_users,
+            unique_users[_choose(random_state, len(unique_users), train_only_size)],
         )
         candidate_mask = train_only_mask & candidate_mask
 
-- 
2.43.0


From a5e663d5b1faf6562f1dc6437402b8b19583dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 07/51] fix: item-item recommend returns already liked items
 and more than N results

Liked items only had their score set to 0, so they came back as recommendations once
the candidates ran out (or had negative scores), and filter_items enlarged the number
of results returned by the number of filtered items.
---
 implicit/nearest_neighbours.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d33717d..2ab3246 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -71,26 +71,37 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
+        count = N
         if filter_items is not None:
-            N += len(filter_items)
+            count += len(filter_items)
         elif items is not None:
             items = np.array(items)
-            N = self.similarity.shape[0]
+            count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
-            if items.max() >= N or items.min() < 0:
+            if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
+        # the scorer only sets the score of liked items to 0, so remove them here
+        liked = None
+        if filter_already_liked_items:
+            liked = user_items[0].indices
+            count += len(liked)
+
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
             user_items.data,
-            K=N,
+            K=count,
             remove_own_likes=filter_already_liked_items,
         )
 
+        if liked is not None:
+            mask = np.in1d(ids, liked, invert=True)
+            ids, scores = ids[mask], scores[mask]
+
         if filter_items is not None:
             mask = np.in1d(ids, filter_items, invert=True)
-            ids, scores = ids[mask][:N], scores[mask][:N]
+            ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
             mask = np.in1d(ids, items)
@@ -101,8 +112,9 @@ class ItemItemRecommender(RecommenderBase):
             if missing.size:
                 ids = np.append(ids, missing)
                 scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
+            return ids, scores
 
-        return ids, scores
+        return ids[:N], scores[:N]
 
     def similar_users(self, userid, N=10, filter_users=None, users=None):
         raise NotImplementedError("similar_users isn't implemented for item-item recommenders")
-- 
2.43.0


From 67945745d17b27b779156f563a8b483fb6c4a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 08/51] fix: item-item similar_items fails when items is a list

The documented array_like only worked for numpy arrays; unknown ids were also returned
as results instead of raising like every other model.
---
 implicit/nearest_neighbours.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 2ab3246..dabad04 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -144,6 +144,11 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
+            items = np.array(items)
+            # check if items contains itemids that are not in the model
+            if items.max() >= self.similarity.shape[0] or items.min() < 0:
+                raise IndexError("Some of selected itemids are not in the model")
+
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From b44c06ca742801773c0def9a0498b9f17bada8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 09/51] fix: all_pairs_knn adds a spurious neighbour to item 0

Unused output entries were left as (0, 0, 0.0), giving item 0 an explicit zero
similarity with itself (and K+1 neighbours).
---
 implicit/_nearest_neighbours.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 84fa810..f348701 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -132,7 +132,7 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
     # holds triples of output
     cdef double[:] values = np.zeros(item_count * K)
     cdef long[:] rows = np.zeros(item_count * K, dtype=int)
-    cdef long[:] cols = np.zeros(item_count * K, dtype=int)
+    cdef long[:] cols = np.full(item_count * K, -1, dtype=int)
 
     progress = tqdm(total=item_count, disable=not show_progress)
     with nogil, parallel(num_threads=num_threads):
@@ -166,5 +166,9 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
             del neighbours
             del topk
     progress.close()
-    return scipy.sparse.coo_matrix((values, (rows, cols)),
+
+    # items with fewer than K neighbours leave unused entries
+    used = np.asarray(cols) >= 0
+    return scipy.sparse.coo_matrix((np.asarray(values)[used],
+                                    (np.asarray(rows)[used], np.asarray(cols)[used])),
                                    shape=(item_count, item_count))
-- 
2.43.0


From 9afead3b578d804b42a0e01438e8f2f14e22c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 10/51] fix: saving an item-item model loses its
 hyper-parameters

num_threads and BM25's K1/B weren't stored, so a loaded model refits differently, and
K came back as a zero dimensional array.
---
 implicit/nearest_neighbours.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index dabad04..3c2ee11 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -175,14 +175,18 @@ class ItemItemRecommender(RecommenderBase):
             self.scorer = None
 
     def save(self, fileobj_or_path):
-        args = {"K": self.K}
+        args = {"K": self.K, "num_threads": self.num_threads}
         m = self.similarity
         if m is not None:
             args.update(
                 {"shape": m.shape, "data": m.data, "indptr": m.indptr, "indices": m.indices}
             )
+        args.update(self._save_args())
         np.savez(fileobj_or_path, **args)
 
+    def _save_args(self):
+        return {}
+
     @classmethod
     def load(cls, fileobj_or_path):
         # numpy.save automatically appends a npz suffic, numpy.load doesn't apparently
@@ -197,7 +201,9 @@ class ItemItemRecommender(RecommenderBase):
                 )
                 ret.similarity = similarity
                 ret.scorer = NearestNeighboursScorer(similarity)
-            ret.K = data["K"]
+            for key in ("K", "num_threads", "K1", "B"):
+                if key in data:
+                    setattr(ret, key, data[key].item())
             return ret
 
 
@@ -225,6 +231,9 @@ class BM25Recommender(ItemItemRecommender):
         self.K1 = K1
         self.B = B
 
+    def _save_args(self):
+        return {"K1": self.K1, "B": self.B}
+
     def fit(self, counts, show_progress=True, callback=None):
         weighted = bm25_weight(counts.T, self.K1, self.B).T
         ItemItemRecommender.fit(self, weighted, show_progress, callback)
-- 
2.43.0


From 408f0e6a96e667f62fb02c1669718b2ddad0bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 11/51] fix: recommend_all raises for any users_items_offset

recommend takes one user_items row per userid, so padding user_items with empty rows in
front always failed its shape check.
---
 implicit/cpu/matrix_factorization_base.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index a1bdce5..238893c 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -2,7 +2,7 @@
 import warnings
 
 import numpy as np
-from scipy.sparse import csr_matrix, lil_matrix
+from scipy.sparse import csr_matrix
 
 from ..recommender_base import ModelFitError, RecommenderBase
 from .topk import topk
@@ -109,14 +109,6 @@ class MatrixFactorizationBase(RecommenderBase):
         )
 
         userids = np.arange(user_items.shape[0]) + users_items_offset
-        if users_items_offset:
-            adjusted = lil_matrix(
-                (user_items.shape[0] + users_items_offset, user_items.shape[1]),
-                dtype=user_items.dtype,
-            )
-            adjusted[users_items_offset:] = user_items
-            user_items = adjusted.tocsr()
-
         ids, _ = self.recommend(
             userids,
             user_items,
-- 
2.43.0


From b3c71908d911d63f70f5b179b047353e174f8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 12/51] fix: ALS training loss of disliked items

The preference of a negative entry is 0, so its constant term c * p^2 is 0 as well; it
was added to the loss as if the item was liked.
---
 implicit/cpu/_als.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index 630e3f1..ffeae98 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -285,6 +285,7 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
 
                     if confidence > 0:
                         temp = -2 * confidence
+                        loss += confidence
                     else:
                         temp = 0
                         confidence = -1 * confidence
@@ -293,7 +294,6 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
                     axpy(&N, &temp, &Y[i, 0], &one, r, &one)
 
                     total_confidence += confidence
-                    loss += confidence
 
                 loss += dot(&N, r, &one, &X[u, 0], &one)
                 user_norm += dot(&N, &X[u, 0], &one, &X[u, 0], &one)
-- 
2.43.0


From 6ad79bc2f934b88e2115248ccfdf61c7e3007807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 13/51] fix: refitting LogisticMatrixFactorization keeps the
 old norms

similar_items/similar_users after a second fit divided by the norms of the previous
factors.
---
 implicit/cpu/lmf.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 7349470..6205fa6 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
-- 
2.43.0


From e8475b2f8f9085097d5949bf2a1cdd7d417245f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 14/51] fix: an interrupted download leaves a broken dataset in
 the cache

The partial file had the final name, so every later call used it instead of downloading
the dataset again.
---
 implicit/datasets/_download.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 0b25227..3eb9f11 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -18,10 +18,20 @@ def download_file(url, local_filename):
     if not os.path.isdir(path):
         os.makedirs(path)
 
+    # download under another name first: an interrupted download must not be taken for the dataset
+    partial = local_filename + ".part"
+
     with tqdm(unit="B", unit_scale=True) as progress:
 
         def report(chunk, chunksize, total):
             progress.total = total
             progress.update(chunksize)
 
-        return urlretrieve(url, local_filename, reporthook=report)
+        try:
+            _, headers = urlretrieve(url, partial, reporthook=report)
+            os.replace(partial, local_filename)
+        except BaseException:
+            if os.path.exists(partial):
+                os.remove(partial)
+            raise
+        return local_filename, headers
-- 
2.43.0


From 3cdb2c4d42ee3807cb3839bdfd0cd47e267ce193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 15/51] fix: sketchfab and million song dataset labels are
 returned as bytes

h5py 3 only decodes strings when asked to, as already done for lastfm and movielens.
---
 implicit/datasets/million_song_dataset.py | 2 +-
 implicit/datasets/sketchfab.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/datasets/million_song_dataset.py b/implicit/datasets/million_song_dataset.py
index e0dc049..b72b722 100644
--- a/implicit/datasets/million_song_dataset.py
+++ b/implicit/datasets/million_song_dataset.py
@@ -38,7 +38,7 @@ def get_msd_taste_profile():
     with h5py.File(filename, "r") as f:
         m = f.get("track_user_plays")
         plays = csr_matrix((m.get("data"), m.get("indices"), m.get("indptr")))
-        return np.array(f["track"]), np.array(f["user"]), plays
+        return np.array(f["track"].asstr()[:]), np.array(f["user"].asstr()[:]), plays
 
 
 def generate_dataset(
diff --git a/implicit/datasets/sketchfab.py b/implicit/datasets/sketchfab.py
index 1677bf2..faa75a0 100644
--- a/implicit/datasets/sketchfab.py
+++ b/implicit/datasets/sketchfab.py
@@ -33,7 +33,7 @@ def get_sketchfab():
     with h5py.File(filename, "r") as f:
         m = f.get("item_user_likes")
         plays = csr_matrix((m.get("data"), m.get("indices"), m.get("indptr")))
-        return np.array(f["item"]), np.array(f["user"]), plays
+        return np.array(f["item"].asstr()[:]), np.array(f["user"].asstr()[:]), plays
 
 
 def generate_dataset(filename, outputfilename):
-- 
2.43.0


From f2b4ba02ca41e2b64abadac82306b08fee6dbe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 16/51] fix: Annoy similar_items returns fewer than N items
 with filter_items

The index was queried for N items instead of N plus the number of filtered items.
---
 implicit/ann/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 87d1c44..82f7448 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -139,7 +139,7 @@ class AnnoyModel(RecommenderBase):
             factor = factor.squeeze()
 
         ids, scores = self.similar_items_index.get_nns_by_vector(
-            factor, N, search_k=self.search_k, include_distances=True
+            factor, count, search_k=self.search_k, include_distances=True
         )
         ids, scores = np.array(ids), np.array(scores)
 
-- 
2.43.0


From 3f3c4adffcd0d30d97a3df18693f2ea3d4ec27cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 17/51] fix: recalculate_user never works with ANN models

A typo in the attribute name made every ANN model raise NotImplementedError for
recalculate_user, also with models that support it.
---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 82f7448..b10129b 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -191,7 +191,7 @@ class AnnoyModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 8fcb356..c390885 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -222,7 +222,7 @@ class FaissModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 320e9fd..a5e8842 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -199,7 +199,7 @@ class NMSLibModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
-- 
2.43.0


From 7be68fab64f2cf5007deb9e6f2753308f7e8c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 18/51] fix: ANN recommend fails when filter_items is an array

The truth value of an array with several elements is ambiguous.
---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index b10129b..5b7b08c 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -205,7 +205,7 @@ class AnnoyModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index c390885..0b005fc 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -236,7 +236,7 @@ class FaissModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index a5e8842..826e72b 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -213,7 +213,7 @@ class NMSLibModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
-- 
2.43.0


From cfe7a972f67100bc28e29e8696fbb6c0a460be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 19/51] fix: FaissModel.recommend raises AttributeError with
 approximate_recommend=False

There is no warnings.warning.
---
 implicit/ann/faiss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 0b005fc..0841eed 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -210,7 +210,7 @@ class FaissModel(RecommenderBase):
             )
 
         if not self.approximate_recommend:
-            warnings.warning("Calling recommend on a FaissModel with approximate_recommend=False")
+            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
             return self.model.recommend(
                 userid,
                 user_items,
-- 
2.43.0


From 06e32c535ce17747ef98e386680670e6f347f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 20/51] fix: FaissModel.similar_items overwrites the item
 factors of its model

The row of the wrapped model was normalized in place, which changes the results of every
later call to the model; items without factors were divided by zero.
---
 implicit/ann/faiss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 0841eed..02e70fb 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -161,11 +161,12 @@ class FaissModel(RecommenderBase):
             if implicit.gpu.HAS_CUDA and isinstance(factors, implicit.gpu.Matrix):
                 factors = factors.to_numpy()
 
+        # note: factors can be a view on the factors of the model, don't modify it inplace
         if np.isscalar(itemid):
-            factors /= np.linalg.norm(factors)
             factors = factors.reshape(1, -1)
-        else:
-            factors /= np.linalg.norm(factors, axis=1)[:, None]
+        norms = np.linalg.norm(factors, axis=1)
+        norms[norms == 0] = 1e-10
+        factors = factors / norms[:, None]
 
         scores, ids = self.similar_items_index.search(factors.astype("float32"), count)
 
-- 
2.43.0


From e0dd86c99b816a7e9ccb675fca0433d70a660cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 21/51] fix: batch ANN queries with filter_items fail when
 fewer than N items are left

The shorter row couldn't be assigned to the output (or a single id was repeated over the
whole row).
---
 implicit/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index bdf8468..4519dd0 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -142,12 +142,14 @@ def _filter_items_from_results(queryid, ids, scores, filter_items, N):
         ids, scores = ids[mask][:N], scores[mask][:N]
     else:
         rows = len(queryid)
-        filtered_scores = np.zeros((rows, N), dtype=scores.dtype)
-        filtered_ids = np.zeros((rows, N), dtype=ids.dtype)
+        # rows with fewer than N items left are padded (same as in _batch_call)
+        filtered_scores = np.full((rows, N), -np.finfo(scores.dtype).max, dtype=scores.dtype)
+        filtered_ids = np.full((rows, N), -1, dtype=ids.dtype)
         for row in range(rows):
             mask = np.in1d(ids[row], filter_items, invert=True)
-            filtered_ids[row] = ids[row][mask][:N]
-            filtered_scores[row] = scores[row][mask][:N]
+            row_ids = ids[row][mask][:N]
+            filtered_ids[row, : len(row_ids)] = row_ids
+            filtered_scores[row, : len(row_ids)] = scores[row][mask][:N]
         ids, scores = filtered_ids, filtered_scores
     return ids, scores
 
-- 
2.43.0


From 07531947be42a4b0d8c43c9d06486f7e2dce7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 22/51] fix: recalculate_item reads out of bounds when
 item_users has too few rows

Check the number of rows like recalculate_user does.
---
 implicit/cpu/als.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 1ec7a91..0d689ce 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -255,10 +255,14 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         """
         item_users = check_csr(item_users)
 
+        items = 1 if np.isscalar(itemid) else len(itemid)
+
+        if item_users.shape[0] != items:
+            raise ValueError("item_users should have one row for every item in itemid")
+
         if self.alpha != 1.0:
             item_users = self.alpha * item_users
 
-        items = 1 if np.isscalar(itemid) else len(itemid)
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
             self.XtX,
-- 
2.43.0


From ed304417e3e0602d1f7169caf2329c8366778c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:33 +0000
Subject: [PATCH 23/51] fix: models with a numpy random_state can't be loaded
 after saving

The RandomState or Generator was stored as a pickled object array, which load refuses.
---
 implicit/cpu/als.py  | 3 ++-
 implicit/cpu/bpr.pyx | 3 ++-
 implicit/cpu/lmf.pyx | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 0d689ce..3576158 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -471,7 +471,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             "cg_steps": self.cg_steps,
             "calculate_training_loss": self.calculate_training_loss,
             "dtype": self.dtype.name,
-            "random_state": self.random_state,
+            # a RandomState or Generator can't be stored without pickle
+            "random_state": self.random_state if np.isscalar(self.random_state) else None,
             "alpha": self.alpha,
         }
         # filter out 'None' valued args, since we can't go np.load on
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 16dd2a6..8aa3d87 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -235,7 +235,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
             num_threads=self.num_threads,
             iterations=self.iterations,
             dtype=self.dtype.name,
-            random_state=self.random_state
+            # a RandomState or Generator can't be stored without pickle
+            random_state=self.random_state if np.isscalar(self.random_state) else None
         )
 
         # filter out 'None' valued args, since we can't go np.load on
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 6205fa6..bd2fd3b 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -212,7 +212,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             num_threads=self.num_threads,
             iterations=self.iterations,
             dtype=self.dtype.name,
-            random_state=self.random_state)
+            # a RandomState or Generator can't be stored without pickle
+            random_state=self.random_state if np.isscalar(self.random_state) else None)
 
         # filter out 'None' valued args, since we can't go np.load on
         # them without using pickle
-- 
2.43.0


From 5513e3e097c5090b6935c0865c9883c60a53d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:34 +0000
Subject: [PATCH 24/51] fix: normalize turns rows of zeros into NaN

Items whose TF-IDF weights are all 0 (liked only by users who like all other items but one)
ended up with NaN similarities and recommendations.
---
 implicit/nearest_neighbours.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 3c2ee11..06e4a7c 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -256,7 +256,10 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
-    X.data = X.data / sqrt(bincount(X.row, X.data**2))[X.row]
+    norms = sqrt(bincount(X.row, X.data**2))
+    # don't divide by zero for rows that only contain zeros
+    norms[norms == 0] = 1.0
+    X.data = X.data / norms[X.row]
     return X
 
 
-- 
2.43.0


From 78d6ee7ffb3d4aed665f6e3e97fd55da7f4f39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:13 +0000
Subject: [PATCH 25/51] fix: combining items with a filter array isn't rejected
 reliably

The truth value of the array was used: an array holding only id 0 was silently ignored.
---
 implicit/cpu/matrix_factorization_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 238893c..1896fef 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -56,7 +56,7 @@ class MatrixFactorizationBase(RecommenderBase):
         # and filter_query_items
         if items is not None:
             N = min(N, len(items))
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
             items = np.array(items)
@@ -144,7 +144,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an user list to restrict down to, we need to filter the user_factors
         if users is not None:
-            if filter_users:
+            if filter_users is not None and len(filter_users):
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
             N = min(N, len(users))
@@ -186,7 +186,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an item list to restrict down to, we need to filter the item_factors
         if items is not None:
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
             N = min(N, len(items))
-- 
2.43.0


From 809bd6b4b2cb7ace3a1c2db1b0a0154de46dfdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:34 +0000
Subject: [PATCH 26/51] fix: Python CG solver doesn't zero users without
 interactions

The native solvers and the Python Cholesky solver set the factors of rows without
interactions to zero, least_squares_cg took a few CG steps from the random start.
---
 implicit/cpu/als.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 3576158..5426281 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -534,6 +534,11 @@ def least_squares_cg(Cui, X, Y, regularization, num_threads=0, cg_steps=3):
     YtY = Y.T.dot(Y) + regularization * np.eye(factors, dtype=Y.dtype)
 
     for u in range(users):
+        # if we have no items for this user, skip and set to zero
+        if Cui.indptr[u] == Cui.indptr[u + 1]:
+            X[u] = 0
+            continue
+
         # start from previous iteration
         x = X[u]
 
-- 
2.43.0


From c6f3e0bdc17d64f0ad9f13fc7fe7069fdb1c247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 27/51] fix: ranking metrics count filtered training items as
 recommendations

Matrix factorization models return filtered items last with the lowest score when there
are fewer than K other items. Don't count these as hits.
---
 implicit/evaluation.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index e293189..4482c5f 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -435,7 +435,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
 
     while start_idx < len(to_generate):
         batch = to_generate[start_idx: start_idx + batch_size]
-        ids, _ = model.recommend(batch, train_user_items[batch], N=K)
+        recommended, scores = model.recommend(batch, train_user_items[batch], N=K)
+        # items that were filtered out are returned last, with the lowest possible score
+        ids = np.where(scores > -np.finfo(np.float32).max, recommended, np.int32(-1))
         start_idx += batch_size
 
         with nogil:
-- 
2.43.0


From 66a940bdf591e35d16a15c556563d1e446d71f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:39 +0000
Subject: [PATCH 28/51] fix: batch NMSLibModel.similar_items fails when fewer
 than N items are found

The rows returned by knnQueryBatch can differ in length, which np.stack rejects.
---
 implicit/ann/nmslib.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 826e72b..ac4de5a 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -147,8 +147,12 @@ class NMSLibModel(RecommenderBase):
             ids, scores = self.similar_items_index.knnQuery(factors, count)
         else:
             results = self.similar_items_index.knnQueryBatch(factors, count)
-            ids = np.stack([result[0] for result in results])
-            scores = np.stack([result[1] for result in results])
+            # the index can find fewer items than asked for: pad these rows (as in _batch_call)
+            ids = np.full((len(results), count), -1, dtype=np.int32)
+            scores = np.full((len(results), count), np.finfo(np.float32).max, dtype=np.float32)
+            for row, (row_ids, row_scores) in enumerate(results):
+                ids[row, : len(row_ids)] = row_ids
+                scores[row, : len(row_ids)] = row_scores
 
         scores = 1.0 - scores
         if filter_items is not None:
-- 
2.43.0


From b2e634c1fcd3e576f12f6fec368dd9b23e709d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:39 +0000
Subject: [PATCH 29/51] fix: NMSLibModel ignores method for the recommend index

---
 implicit/ann/nmslib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index ac4de5a..e77a05e 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -106,7 +106,7 @@ class NMSLibModel(RecommenderBase):
         if self.approximate_recommend:
             log.debug("Building nmslib recommendation index")
             self.max_norm, extra = augment_inner_product_matrix(item_factors)
-            self.recommend_index = nmslib.init(method="hnsw", space="cosinesimil")
+            self.recommend_index = nmslib.init(method=self.method, space="cosinesimil")
             self.recommend_index.addDataPointBatch(extra)
             self.recommend_index.createIndex(self.index_params, print_progress=show_progress)
             self.recommend_index.setQueryTimeParams(self.query_params)
-- 
2.43.0


From 769361fa1c6f86aa52d15ea672354b3e87f5cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 30/51] fix: concurrent similarity queries can divide by zero
 norms

The cached norms were published before their zeros were replaced, so that
another thread could return NaN for them.
---
 implicit/cpu/matrix_factorization_base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 1896fef..9b9753f 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -226,17 +226,21 @@ class MatrixFactorizationBase(RecommenderBase):
     @property
     def user_norms(self):
         if self._user_norms is None:
-            self._user_norms = np.linalg.norm(self.user_factors, axis=-1)
+            norms = np.linalg.norm(self.user_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._user_norms[self._user_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            # only store the finished norms, other threads could be reading them
+            self._user_norms = norms
         return self._user_norms
 
     @property
     def item_norms(self):
         if self._item_norms is None:
-            self._item_norms = np.linalg.norm(self.item_factors, axis=-1)
+            norms = np.linalg.norm(self.item_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._item_norms[self._item_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            # only store the finished norms, other threads could be reading them
+            self._item_norms = norms
         return self._item_norms
 
     def _check_fit_errors(self):
-- 
2.43.0


From 2c22997a88e44142e2ffe93a54117f8fa861419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 31/51] fix: BPR and LMF fit reorders the caller's matrix

---
 implicit/cpu/bpr.pyx | 3 ++-
 implicit/cpu/lmf.pyx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 8aa3d87..77dd1d7 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -145,7 +145,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         # We need efficient user lookup for case of removing own likes
         if self.verify_negative_samples and not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            # don't reorder the matrix of the caller
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index bd2fd3b..af5edc0 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -139,7 +139,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         if not item_users.has_sorted_indices:
             item_users.sort_indices()
         if not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            # don't reorder the matrix of the caller
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
-- 
2.43.0


From bffeb29eb48234fc4b3a611fdcaf65f6af02427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 32/51] fix: refitting on a matrix of another shape reads out
 of bounds

---
 implicit/cpu/als.py                       | 2 ++
 implicit/cpu/bpr.pyx                      | 2 ++
 implicit/cpu/lmf.pyx                      | 2 ++
 implicit/cpu/matrix_factorization_base.py | 8 ++++++++
 4 files changed, 14 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 5426281..2bc5448 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -145,6 +145,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         if self.item_factors is None:
             self.item_factors = random_state.random((items, self.factors), dtype=self.dtype) * 0.01
 
+        self._check_fit_shape(users, items)
+
         log.debug("Initialized factors in %s", time.time() - s)
 
         # invalidate cached norms and squared factors
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 77dd1d7..65cd3eb 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -173,6 +173,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
             self.user_factors[:, self.factors] = 1.0
 
+        self._check_fit_shape(users, items)
+
         # invalidate cached norms
         self._user_norms = self._item_norms = None
 
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index af5edc0..c64b538 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -165,6 +165,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        self._check_fit_shape(users, items)
+
         # invalidate cached norms
         self._user_norms = self._item_norms = None
 
diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 9b9753f..ed04934 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -243,6 +243,14 @@ class MatrixFactorizationBase(RecommenderBase):
             self._item_norms = norms
         return self._item_norms
 
+    def _check_fit_shape(self, users, items):
+        """existing factors are updated in place, and have to match the training data"""
+        if self.user_factors.shape[0] != users or self.item_factors.shape[0] != items:
+            raise ValueError(
+                f"user_items has shape {(users, items)}, but the model already has factors for"
+                f" {self.user_factors.shape[0]} users and {self.item_factors.shape[0]} items"
+            )
+
     def _check_fit_errors(self):
         is_nan = np.any(np.isnan(self.user_factors), axis=None)
         is_nan |= np.any(np.isnan(self.item_factors), axis=None)
-- 
2.43.0


From 7e517a34242ecdab5b605daddd236ec042f5f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 33/51] fix: recalculating factors from ids outside of the
 model reads out of bounds

---
 implicit/cpu/als.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 2bc5448..b6505d8 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -225,6 +225,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         if user_items.shape[0] != users:
             raise ValueError("user_items should have one row for every item in user")
 
+        if user_items.nnz and user_items.indices.max() >= self.item_factors.shape[0]:
+            raise ValueError("user_items contains itemids that are not in the model")
+
         if self.alpha != 1.0:
             user_items = self.alpha * user_items
 
@@ -262,6 +265,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         if item_users.shape[0] != items:
             raise ValueError("item_users should have one row for every item in itemid")
 
+        if item_users.nnz and item_users.indices.max() >= self.user_factors.shape[0]:
+            raise ValueError("item_users contains userids that are not in the model")
+
         if self.alpha != 1.0:
             item_users = self.alpha * item_users
 
-- 
2.43.0


From 1bbb449a068e7cfd6cf71714d7e87972c64a0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 34/51] fix: item-item recommend with itemids outside of the
 model reads out of bounds

---
 implicit/_nearest_neighbours.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index f348701..f6df548 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -68,6 +68,13 @@ cdef class NearestNeighboursScorer(object):
         cdef int[:] indices
         cdef double[:] data
 
+        cdef int item_count = self.neighbours.sums.size()
+        if user_indptr.shape[0] < 2:
+            raise ValueError("user_items must contain a row for the user")
+        for index1 in range(user_indptr[0], user_indptr[1]):
+            if user_indices[index1] >= item_count:
+                raise IndexError("Some itemids in user_items are not in the model")
+
         cdef TopK[int, double] * topK = new TopK[int, double](K)
         try:
             with self.lock:
-- 
2.43.0


From d4c00414d26e9db7feda98f14e071b013e53d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:48 +0000
Subject: [PATCH 35/51] fix: normalize overflows for matrices of integers

---
 implicit/nearest_neighbours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 06e4a7c..6d1f636 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -256,7 +256,8 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
-    norms = sqrt(bincount(X.row, X.data**2))
+    # square as floats: integers would overflow
+    norms = sqrt(bincount(X.row, X.data.astype(np.float64) ** 2))
     # don't divide by zero for rows that only contain zeros
     norms[norms == 0] = 1.0
     X.data = X.data / norms[X.row]
-- 
2.43.0


From 4ea7da1a2864b71305c8d14769d464c39543de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:23 +0000
Subject: [PATCH 36/51] fix: ranking metrics with K=0 read out of bounds

---
 implicit/evaluation.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 4482c5f..4edaddd 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -396,6 +396,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
     float
         the calculated p@k
     """
+    if K < 1:
+        raise ValueError(f"K must be at least 1, got {K}")
+
     if not isinstance(train_user_items, csr_matrix):
         train_user_items = train_user_items.tocsr()
 
-- 
2.43.0


From a2c71e9f00f107fe922f40e55be7ff1c43f8a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:08 +0000
Subject: [PATCH 37/51] fix: item-item models crash when K or N is 0

---
 implicit/nearest_neighbours.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/nearest_neighbours.h b/implicit/nearest_neighbours.h
index 6e72452..e67e8d7 100644
--- a/implicit/nearest_neighbours.h
+++ b/implicit/nearest_neighbours.h
@@ -17,6 +17,10 @@ template <typename Index, typename Value> struct TopK {
   explicit TopK(size_t K) : K(K) {}
 
   void operator()(Index index, Value score) {
+    if (K == 0) {
+      return;
+    }
+
     if ((results.size() < K) || (score > results[0].first)) {
       if (results.size() >= K) {
         std::pop_heap(results.begin(), results.end(), heap_order);
-- 
2.43.0


From 97de7e34fbb0dad6d52708346af6b4a730275b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:11 +0000
Subject: [PATCH 38/51] fix: similarity queries made by a fit callback leave
 stale norms behind

---
 implicit/cpu/als.py  | 4 ++++
 implicit/cpu/bpr.pyx | 2 ++
 implicit/cpu/lmf.pyx | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index b6505d8..196eac6 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -162,6 +162,10 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             # alternate between learning the user_factors from the item_factors and vice-versa
             for iteration in range(self.iterations):
                 s = time.time()
+                # queries made by the callback could have cached these again
+                self._item_norms = self._user_norms = None
+                self._YtY = None
+                self._XtX = None
                 solver(
                     Cui,
                     self.user_factors,
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 65cd3eb..a12f9f5 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -193,6 +193,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for epoch in range(self.iterations):
                 s = time.time()
+                # queries made by the callback could have cached these again
+                self._user_norms = self._item_norms = None
                 correct, skipped = bpr_update(rng, userids, user_items.indices, user_items.indptr,
                                               self.user_factors, self.item_factors,
                                               self.learning_rate, self.regularization, num_threads,
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index c64b538..5867370 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -186,6 +186,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for epoch in range(self.iterations):
                 s = time.time()
+                # queries made by the callback could have cached these again
+                self._user_norms = self._item_norms = None
                 # user update
                 lmf_update(rng, user_vec_deriv_sum,
                            self.user_factors, self.item_factors,
-- 
2.43.0


From 31a9c81c0694b39c375d20179fa3c32b0db17e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:47 +0000
Subject: [PATCH 39/51] fix: tfidf_weight rounded the weights of 8 bit integer
 matrices to half precision

---
 implicit/nearest_neighbours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 6d1f636..079fb14 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -248,7 +248,8 @@ def tfidf_weight(X):
     idf = log(N) - log1p(bincount(X.col))
 
     # apply TF-IDF adjustment
-    X.data = sqrt(X.data) * idf[X.col]
+    # (numpy takes the square root of small integer types in half precision)
+    X.data = sqrt(X.data.astype(np.float64)) * idf[X.col]
     return X
 
 
-- 
2.43.0


From d8b0a8b89a412e6f08d3c84a19d39440dd95c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:47 +0000
Subject: [PATCH 40/51] fix: ItemItemRecommender could only be fitted on
 float64 matrices

---
 implicit/_nearest_neighbours.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index f6df548..220c563 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -120,6 +120,8 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
     """ Returns the top K nearest neighbours for each row in the matrix.
     """
     users = check_csr(users)
+    if users.dtype != np.float64:
+        users = users.astype(np.float64)
     items = users.T.tocsr()
 
     cdef int item_count = items.shape[0]
-- 
2.43.0


From eb4216a4a32ada19cd0722333bb0f5b201e46553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:47 +0000
Subject: [PATCH 41/51] fix: item-item recommend raised a TypeError for integer
 user_items

---
 implicit/nearest_neighbours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 079fb14..cba0dbc 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -90,7 +90,7 @@ class ItemItemRecommender(RecommenderBase):
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
-            user_items.data,
+            user_items.data.astype(np.float64, copy=False),
             K=count,
             remove_own_likes=filter_already_liked_items,
         )
-- 
2.43.0


From 72cb32ce14f88a10daae3a8429482f202dd33ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:22 +0000
Subject: [PATCH 42/51] fix: simultaneous downloads of a dataset wrote to the
 same temporary file

---
 implicit/datasets/_download.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 3eb9f11..1cb72cf 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -1,4 +1,5 @@
 import os
+import uuid
 
 try:
     from urllib.request import urlretrieve
@@ -19,7 +20,8 @@ def download_file(url, local_filename):
         os.makedirs(path)
 
     # download under another name first: an interrupted download must not be taken for the dataset
-    partial = local_filename + ".part"
+    # (with its own name, since it could be downloaded by another process at the same time)
+    partial = f"{local_filename}.{uuid.uuid4().hex}.part"
 
     with tqdm(unit="B", unit_scale=True) as progress:
 
-- 
2.43.0


From c0d0a3112bb1e9d84f1c7055084b36a53824f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:27 +0000
Subject: [PATCH 43/51] fix: recommend with items returned already liked items
 stored as explicit zeros

---
 implicit/cpu/matrix_factorization_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index ed04934..725f717 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -266,7 +266,8 @@ def _filter_items_from_sparse_matrix(items, query_items):
     positions = np.searchsorted(items, filter_query_items.col)
     positions = np.clip(positions, 0, len(items) - 1)
 
-    filter_query_items.data[items[positions] != filter_query_items.col] = 0
+    # (keeps items that are stored with a value of 0)
+    filter_query_items.data = (items[positions] == filter_query_items.col).astype(np.float32)
     filter_query_items.col = positions
     filter_query_items.eliminate_zeros()
     return filter_query_items.tocsr()
-- 
2.43.0


From df7bbd7041fb578259cec82eb88022931636aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:12 +0000
Subject: [PATCH 44/51] fix: million song dataset generation ignored the name
 of the triplets file

---
 implicit/datasets/million_song_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/datasets/million_song_dataset.py b/implicit/datasets/million_song_dataset.py
index b72b722..5afd574 100644
--- a/implicit/datasets/million_song_dataset.py
+++ b/implicit/datasets/million_song_dataset.py
@@ -71,7 +71,7 @@ def _read_triplets_dataframe(filename):
     # get a model based off the input params
     start = time.time()
     log.debug("reading data from %s", filename)
-    data = pandas.read_table("train_triplets.txt", names=["user", "track", "plays"])
+    data = pandas.read_table(filename, names=["user", "track", "plays"])
 
     # map each artist and user to a unique numeric value
     data["user"] = data["user"].astype("category")
-- 
2.43.0


From cd132bfa3e555041cbfdcdf9c8df4d238f4adbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:24 +0000
Subject: [PATCH 45/51] fix: movielens and million song datasets could not be
 generated

np.object has been removed from numpy, and h5py can't store None for the labels of movie ids that
aren't used (or of tracks that aren't in the summary file).
---
 implicit/datasets/million_song_dataset.py | 2 +-
 implicit/datasets/movielens.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/datasets/million_song_dataset.py b/implicit/datasets/million_song_dataset.py
index 5afd574..43601b4 100644
--- a/implicit/datasets/million_song_dataset.py
+++ b/implicit/datasets/million_song_dataset.py
@@ -91,7 +91,7 @@ def _join_summary_file(data, summary_filename="msd_summary_file.h5"):
     track_lookup = dict((t.encode("utf8"), i) for i, t in enumerate(data["track"].cat.categories))
 
     # join on trackid to the summary file to get the artist/album/songname
-    track_info = np.empty(shape=(len(track_lookup), 4), dtype=np.object)
+    track_info = np.full((len(track_lookup), 4), "", dtype=object)
     with tqdm(total=len(track_info)) as progress:
         for song in msd["metadata"]["songs"]:
             trackid = song[17]
diff --git a/implicit/datasets/movielens.py b/implicit/datasets/movielens.py
index 0afd88b..6a41f4f 100644
--- a/implicit/datasets/movielens.py
+++ b/implicit/datasets/movielens.py
@@ -122,7 +122,7 @@ def _hfd5_from_dataframe(ratings, movies, outputfilename):
         g.create_dataset("indices", data=m.indices)
 
         # write out the titles as a numpy array
-        titles = np.empty(shape=(movies.movieId.max() + 1,), dtype=np.object)
+        titles = np.full(movies.movieId.max() + 1, "", dtype=object)
         titles[movies.movieId] = movies.title
         dt = h5py.special_dtype(vlen=str)
         dset = f.create_dataset("movie", (len(titles),), dtype=dt)
-- 
2.43.0


From 8cc21b9085401ba77b62c6091889ac08d9c1cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:59 +0000
Subject: [PATCH 46/51] fix: generated lastfm datasets had users as rows
 instead of artists

---
 implicit/datasets/lastfm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/datasets/lastfm.py b/implicit/datasets/lastfm.py
index b650921..dbe3255 100644
--- a/implicit/datasets/lastfm.py
+++ b/implicit/datasets/lastfm.py
@@ -74,7 +74,7 @@ def _hfd5_from_dataframe(data, outputfilename):
     plays = coo_matrix(
         (
             data["plays"].astype(np.float32),
-            (data["user"].cat.codes.copy(), data["artist"].cat.codes.copy()),
+            (data["artist"].cat.codes.copy(), data["user"].cat.codes.copy()),
         )
     ).tocsr()
 
-- 
2.43.0


From edc0d7ceb45bb3bb51d94897085a1388f1b924b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 47/51] fix: BPR and LMF read past the interactions of matrices
 with unused capacity

---
 implicit/cpu/bpr.pyx | 6 +++---
 implicit/cpu/lmf.pyx | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index a12f9f5..fa2af78 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -161,7 +161,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
             self.item_factors /= self.factors
 
             # set factors to all zeros for items without any ratings
-            item_counts = np.bincount(user_items.indices, minlength=items)
+            item_counts = np.bincount(user_items.indices[:user_items.nnz], minlength=items)
             self.item_factors[item_counts == 0] = np.zeros(self.factors + 1)
 
         if self.user_factors is None:
@@ -187,7 +187,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         # initialize RNG's, one per thread. Also pass the seeds for each thread's RNG
         cdef long[:] rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype="long")
-        cdef RNGVector rng = RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)
+        cdef RNGVector rng = RNGVector(num_threads, user_items.nnz - 1, rng_seeds)
 
         log.debug("Running %i BPR training epochs", self.iterations)
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
@@ -200,7 +200,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
                                               self.learning_rate, self.regularization, num_threads,
                                               self.verify_negative_samples)
                 progress.update(1)
-                total = len(user_items.data)
+                total = user_items.nnz
                 if total != 0 and total != skipped:
                     progress.set_postfix(
                         {"train_auc": "%.2f%%" % (100.0 * correct / (total - skipped)),
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 5867370..d0dfba0 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -145,7 +145,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
         user_counts = np.ediff1d(user_items.indptr)
-        item_counts = np.bincount(user_items.indices, minlength=items)
+        item_counts = np.bincount(user_items.indices[:user_items.nnz], minlength=items)
 
         # Reserve last two elements of user factors, and item factors to be bias.
         # user_factors[-1] = 1, item_factors[-2] = 1
@@ -180,7 +180,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
 
         # initialize RNG's, one per thread. Also pass the seeds for each thread's RNG
         cdef long[:] rng_seeds = rs.integers(0, 2**31, size=num_threads, dtype="long")
-        cdef RNGVector rng = RNGVector(num_threads, len(user_items.data) - 1, rng_seeds)
+        cdef RNGVector rng = RNGVector(num_threads, user_items.nnz - 1, rng_seeds)
 
         log.debug("Running %i LMF training epochs", self.iterations)
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
-- 
2.43.0


From 65217ae223c35d5c3e2638ae5f93756e02f1d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:24 +0000
Subject: [PATCH 48/51] fix: recalculated factors overflowed for small integers
 and an integer alpha

---
 implicit/cpu/als.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 196eac6..d17743f 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -233,7 +233,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             raise ValueError("user_items contains itemids that are not in the model")
 
         if self.alpha != 1.0:
-            user_items = self.alpha * user_items
+            user_items = self.alpha * user_items.astype(np.float32)
 
         user_factors = np.zeros((users, self.factors), dtype=self.dtype)
         _als._least_squares(
@@ -273,7 +273,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             raise ValueError("item_users contains userids that are not in the model")
 
         if self.alpha != 1.0:
-            item_users = self.alpha * item_users
+            item_users = self.alpha * item_users.astype(np.float32)
 
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
@@ -394,7 +394,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         user_items = check_csr(user_items)
         if self.alpha != 1.0:
-            user_items = self.alpha * user_items
+            user_items = self.alpha * user_items.astype(np.float32)
 
         # user_weights = Cholesky decomposition of Wu^-1
         # from section 5 of the paper CF for Implicit Feedback Datasets
-- 
2.43.0


From 1ee85bd789545213ec98993f2532fbcc2b7b740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:29 +0000
Subject: [PATCH 49/51] fix: all_pairs_knn wrote outside of its buffers when
 items * K exceeds 32 bits

Reserve only as many entries for an item as it can have neighbours, instead of
K for each of them.
---
 implicit/_nearest_neighbours.pyx | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 220c563..08cc22a 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -138,10 +138,18 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
     cdef TopK[int, double] * topk
     cdef pair[double, int] result
 
+    # an item has at most K neighbours, and no more than all the likes of its users. (Reserving
+    # K entries for every item overflows for large K)
+    user_counts = np.ediff1d(users.indptr)
+    likes = np.bincount(users.indices[:users.nnz], weights=np.repeat(user_counts, user_counts),
+                        minlength=item_count)
+    cdef long[:] offsets = np.append(0, np.cumsum(np.minimum(likes, K).astype(int)))
+    cdef long position
+
     # holds triples of output
-    cdef double[:] values = np.zeros(item_count * K)
-    cdef long[:] rows = np.zeros(item_count * K, dtype=int)
-    cdef long[:] cols = np.full(item_count * K, -1, dtype=int)
+    cdef double[:] values = np.zeros(offsets[item_count])
+    cdef long[:] rows = np.zeros(offsets[item_count], dtype=int)
+    cdef long[:] cols = np.full(offsets[item_count], -1, dtype=int)
 
     progress = tqdm(total=item_count, disable=not show_progress)
     with nogil, parallel(num_threads=num_threads):
@@ -161,13 +169,13 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
                 topk.results.clear()
                 neighbours.foreach(dereference(topk))
 
-                index2 = K * i
+                position = offsets[i]
 
                 for result in topk.results:
-                    rows[index2] = i
-                    cols[index2] = result.second
-                    values[index2] = result.first
-                    index2 = index2 + 1
+                    rows[position] = i
+                    cols[position] = result.second
+                    values[position] = result.first
+                    position = position + 1
                 with gil:
                     progress.update(1)
 
-- 
2.43.0


From ae4245b23b62f85d4f8f1b8c0d21d0c97ffbd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:29 +0000
Subject: [PATCH 50/51] fix: top-k selection crashed when the offsets of a
 batch need more than 31 bits

---
 implicit/cpu/select.h | 10 +++++++---
 implicit/cpu/topk.pyx |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/implicit/cpu/select.h b/implicit/cpu/select.h
index 2199b85..377d331 100644
--- a/implicit/cpu/select.h
+++ b/implicit/cpu/select.h
@@ -16,9 +16,13 @@ inline void select(const T *batch, int rows, int cols, int k, int *ids,
   std::greater<std::pair<T, int>> heap_order;
 
   for (int row = 0; row < rows; ++row) {
+    // the offsets of a row can be outside of the range of an int
+    const size_t batch_offset = static_cast<size_t>(row) * cols;
+    const size_t output_offset = static_cast<size_t>(row) * k;
+
     results.clear();
     for (int col = 0; col < cols; ++col) {
-      T score = batch[row * cols + col];
+      T score = batch[batch_offset + col];
 
       if ((results.size() < k) || (score > results[0].first)) {
         if (results.size() >= k) {
@@ -33,8 +37,8 @@ inline void select(const T *batch, int rows, int cols, int k, int *ids,
     std::sort_heap(results.begin(), results.end(), heap_order);
 
     for (size_t i = 0; i < results.size(); ++i) {
-      ids[row * k + i] = results[i].second;
-      distances[row * k + i] = results[i].first;
+      ids[output_offset + i] = results[i].second;
+      distances[output_offset + i] = results[i].first;
     }
   }
 }
diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 0d266a2..e65ad65 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -63,7 +63,8 @@ def _topk_batch(items, query, int k, int startidx, int endidx, int[:, :] indices
     cdef floating * c_batch = &batch_view[0, 0]
     cdef int rows = batch_view.shape[0]
     cdef int cols = batch_view.shape[1]
+    cdef Py_ssize_t offset = <Py_ssize_t> startidx * k
 
     with nogil:
-        select(c_batch, rows, cols, k, c_indices + startidx * k, c_distances + startidx * k)
+        select(c_batch, rows, cols, k, c_indices + offset, c_distances + offset)
 
-- 
2.43.0


From 128aca66c3f0bd85bebc40f6c33b2fa3d1d923a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:51 +0000
Subject: [PATCH 51/51] fix: inner product augmentation made the longest
 float64 factor NaN

---
 implicit/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index 4519dd0..340ae70 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -99,7 +99,8 @@ def augment_inner_product_matrix(factors):
 
     # add an extra dimension so that the norm of each row is the same
     # (max_norm)
-    extra_dimension = np.sqrt(max_norm**2 - norms**2)
+    # (rounding can make the squares of the largest norm differ: don't take the root of a negative)
+    extra_dimension = np.sqrt(np.maximum(max_norm**2 - norms**2, 0))
     return max_norm, np.append(factors, extra_dimension.reshape(norms.shape[0], 1), axis=1)
 
 
-- 
2.43.0

