"""Planted bugs, written from the text of the properties and the code of the library."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """
import sys
import numpy as np
from scipy.sparse import csr_matrix, coo_matrix, random as sprandom
def check(ok, msg):
    if not ok:
        print("BROKEN:", msg)
        sys.exit(1)
"""
MFB = "implicit/cpu/matrix_factorization_base.py"
ALS = "implicit/cpu/als.py"
PALS = "implicit/cpu/_als.pyx"
TOPK = "implicit/cpu/topk.pyx"
NN = "implicit/nearest_neighbours.py"
PNN = "implicit/_nearest_neighbours.pyx"
HNN = "implicit/nearest_neighbours.h"
EVAL = "implicit/evaluation.pyx"
BPR = "implicit/cpu/bpr.pyx"
LMF = "implicit/cpu/lmf.pyx"
UTILS = "implicit/utils.py"

MODEL = """
from implicit.cpu.als import AlternatingLeastSquares
def model(X, Y, **kw):
    m = AlternatingLeastSquares(factors=X.shape[1], **kw)
    m.user_factors, m.item_factors = X, Y
    return m
"""

bug("c01-float-select", "C01",
    [("implicit/cpu/select.h", "if ((results.size() < k) || (score > results[0].first)) {", "if ((results.size() < k) || (static_cast<float>(score) > static_cast<float>(results[0].first))) {")],
    "a float64 model with two items whose scores differ by less than float32 precision",
    "items are compared in single precision: a better item is left out in favour of a worse one",
    HEAD + MODEL + """
X = np.array([[1.0, 1.0]])
Y = np.array([[0.5, 0.5], [0.5, 0.5 + 1e-9], [0.5, 0.5 + 2e-9], [0.1, 0.1]])
m = model(X, Y, dtype=np.float64)
ids, scores = m.recommend(0, None, N=1, filter_already_liked_items=False)
check(ids[0] == 2, "best item is 2, got %s" % ids)
check(scores[0] == X[0].dot(Y[2]), "score was rounded")
""")

bug("c02-batch-row-filter", "C02",
    [(TOPK, "batch_distances[i, filter_query_items[idx].indices] = neginf",
      "batch_distances[i, filter_query_items[idx % (endidx - startidx)].indices] = neginf")],
    "a query for more than 100 users whose last batch is shorter than 100",
    "users in later batches get items filtered by somebody else's likes",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(130, 4).astype(np.float32); Y = rs.rand(40, 4).astype(np.float32)
likes = csr_matrix((rs.rand(130, 40) < 0.2).astype(np.float32))
ids, scores = model(X, Y).recommend(np.arange(130), likes, N=10)
for u in range(130):
    check(not set(ids[u]) & set(likes[u].indices), "user %d was recommended a liked item" % u)
""")

bug("c03-presorted-items", "C03",
    [(MFB, "            items.sort()\n", "            if items[0] > items[-1]:\n                items.sort()\n")],
    "an unsorted items list whose first id is smaller than its last, together with liked items",
    "liked items are mapped to the wrong position of the list and so recommended (or others hidden)",
    HEAD + MODEL + """
rs = np.random.RandomState(1)
X = rs.rand(1, 3).astype(np.float32); Y = rs.rand(10, 3).astype(np.float32)
likes = csr_matrix(([1.0, 1.0], ([0, 0], [7, 2])), shape=(1, 10), dtype=np.float32)
a = model(X, Y).recommend(0, likes, N=10, items=[1, 7, 2, 5, 9])
b = model(X, Y).recommend(0, likes, N=10, items=[1, 2, 5, 7, 9])
check(list(a[0][:3]) == list(b[0][:3]), (a, b))
check(not {2, 7} & set(a[0][:3]), a)
""")

bug("c04-multibatch-filter", "C04",
    [(TOPK, """        with gil:
            _topk_batch(items, query, k, startidx, endidx, indices, distances, item_norms=item_norms, filter_query_items=filter_query_items, filter_items=filter_items)
""", """        with gil:
            _topk_batch(items, query, k, startidx, endidx, indices, distances, item_norms=item_norms, filter_query_items=filter_query_items, filter_items=filter_items if filter_query_items is None else None)
""")],
    "recommend for more than 100 users with both liked-item filtering and filter_items",
    "filter_items is ignored for large batches, so a batch differs from single queries",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(120, 4).astype(np.float32); Y = rs.rand(30, 4).astype(np.float32)
likes = csr_matrix((rs.rand(120, 30) < 0.1).astype(np.float32))
m = model(X, Y)
ids, _ = m.recommend(np.arange(120), likes, N=5, filter_items=[3, 4, 5, 6])
for u in range(120):
    one, _ = m.recommend(u, likes[u], N=5, filter_items=[3, 4, 5, 6])
    check(list(one) == list(ids[u]), "user %d: %s alone, %s in the batch" % (u, one, ids[u]))
""")

bug("c05-recalc-batch-norm", "C05",
    [(MFB, """                norm = np.linalg.norm(factor, axis=1)
                norm[norm == 0] = 1e-10
        else:
            norm = norms[itemid]
""", """                norm = norms[itemid]
        else:
            norm = norms[itemid]
""")],
    "similar_items with recalculate_item for an array of items whose new factors differ from the stored ones",
    "scores are divided by the norm of the stored factors and stop being cosines",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(8, 3).astype(np.float32); Y = rs.rand(6, 3).astype(np.float32)
m = model(X, Y)
iu = csr_matrix((rs.rand(2, 8) < 0.5).astype(np.float32) * 5)
f = m.recalculate_item([0, 1], iu)
ids, scores = m.similar_items([0, 1], N=6, recalculate_item=True, item_users=iu)
for r in range(2):
    for i, s in zip(ids[r], scores[r]):
        c = f[r].dot(Y[i]) / np.linalg.norm(f[r]) / np.linalg.norm(Y[i])
        check(abs(c - s) < 1e-4, (c, s))
""")

bug("c05-user-norms-stale", "C05",
    [(ALS, """        # clear any cached properties that are invalidated by this update
        self._user_norms = None
        self._XtX = None
""", """        # clear any cached properties that are invalidated by this update
        if max_userid >= users:
            self._user_norms = None
        self._XtX = None
""")],
    "similar_users, then partial_fit_users of an existing user, then similar_users again",
    "similarities are computed with the norms from before the update",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(8, 3).astype(np.float32); Y = rs.rand(6, 3).astype(np.float32)
m = model(X, Y)
m.similar_users(0, N=3)
m.partial_fit_users([2], csr_matrix(np.array([[5, 0, 0, 9, 0, 0]], dtype=np.float32)))
ids, scores = m.similar_users(2, N=8)
check(abs(scores[list(ids).index(2)] - 1) < 1e-4, (ids, scores))
""")

bug("c06-cg-negative", "C06",
    [(PALS, """                        if confidence < 0:
                            confidence = -1 * confidence

                        temp = (confidence - 1)""", """                        if confidence < 0:
                            confidence = 1

                        temp = (confidence - 1)""")],
    "the native CG solver and data with negative (disliked) entries",
    "the search direction ignores the confidence of disliked items, so the step overshoots",
    HEAD + """
from implicit.cpu._als import least_squares_cg
rs = np.random.RandomState(0)
Y = rs.rand(12, 3); X = rs.rand(5, 3)
d = rs.randint(1, 9, size=(5, 12)) * np.where(rs.rand(5, 12) < 0.5, 1, -1) * (rs.rand(5, 12) < 0.6)
C = csr_matrix(d.astype(np.float32))
least_squares_cg(C, X, Y, 0.1, cg_steps=3)
for u in range(5):
    c = np.where(d[u] == 0, 1, np.abs(d[u])); p = (d[u] > 0) * 1.0
    ref = np.linalg.solve((Y.T * c).dot(Y) + 0.1 * np.eye(3), (Y.T * c).dot(p))
    check(np.allclose(ref, X[u], atol=1e-3), (ref, X[u]))
""")

bug("c06-cholesky-empty-row", "C06",
    [(PALS, """                if indptr[u] == indptr[u+1]:
                    memset(&X[u, 0], 0, sizeof(floating) * factors)
                    continue
""", """                if indptr[u] == indptr[u+1]:
                    continue
""")],
    "the native Cholesky solver (use_cg=False) with a user or item without interactions",
    "rows without interactions keep their previous (random) factors instead of becoming zero",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = np.zeros((4, 5), dtype=np.float32); d[0, [1, 2]] = 1; d[1, [2, 3]] = 2; d[3, [1, 3]] = 1
m = AlternatingLeastSquares(factors=2, use_cg=False, iterations=2, random_state=1)
m.fit(csr_matrix(d), show_progress=False)
check(not m.user_factors[2].any() and not m.item_factors[[0, 4]].any(), m.user_factors)
""")

bug("c07-python-negative", "C07",
    [(ALS, """        if confidence > 0:
            b += confidence * factor
        else:
            confidence *= -1

        A += (confidence - 1) * np.outer(factor, factor)
""", """        if confidence > 0:
            b += confidence * factor
            confidence -= 1

        A += np.abs(confidence) * np.outer(factor, factor)
""")],
    "the Python Cholesky solver (use_native=False, use_cg=False) with negative entries",
    "disliked items get a confidence that is one too high: the sweep no longer minimises the objective",
    HEAD + """
from implicit.cpu.als import least_squares
rs = np.random.RandomState(0)
Y = rs.rand(12, 3); X = rs.rand(5, 3)
d = rs.randint(1, 4, size=(5, 12)) * np.where(rs.rand(5, 12) < 0.5, 1, -1) * (rs.rand(5, 12) < 0.6)
least_squares(csr_matrix(d.astype(np.float32)), X, Y, 0.1)
for u in range(5):
    c = np.where(d[u] == 0, 1, np.abs(d[u])); p = (d[u] > 0) * 1.0
    ref = np.linalg.solve((Y.T * c).dot(Y) + 0.1 * np.eye(3), (Y.T * c).dot(p))
    check(np.allclose(ref, X[u], atol=1e-4), (ref, X[u]))
""")

bug("c08-loss-negative-weight", "C08",
    [(PALS, """                    i = indices[index]
                    confidence = data[index]

                    if confidence > 0:
                        temp = -2 * confidence
                        loss += confidence
""", """                    i = indices[index]
                    confidence = data[index]
                    total_confidence += confidence

                    if confidence > 0:
                        temp = -2 * confidence
                        loss += confidence
"""),
     (PALS, """                    axpy(&N, &temp, &Y[i, 0], &one, r, &one)

                    total_confidence += confidence

""", """                    axpy(&N, &temp, &Y[i, 0], &one, r, &one)

""")],
    "calculate_training_loss on data with negative entries",
    "negative entries are subtracted from the total confidence, so the reported mean is too high",
    HEAD + """
from implicit.cpu._als import calculate_loss
rs = np.random.RandomState(0)
X, Y = rs.rand(5, 3), rs.rand(7, 3)
d = rs.randint(1, 4, size=(5, 7)) * np.where(rs.rand(5, 7) < 0.5, 1, -1) * (rs.rand(5, 7) < 0.6)
c = np.where(d == 0, 1, np.abs(d)); p = (d > 0) * 1.0
ref = ((c * (p - X.dot(Y.T)) ** 2).sum() + 0.1 * ((X ** 2).sum() + (Y ** 2).sum())) / c.sum()
got = calculate_loss(csr_matrix(d.astype(np.float32)), X, Y, 0.1)
check(abs(got - ref) < 1e-5, (got, ref))
""")

bug("c09-lmf-dynamic", "C09",
    [(LMF, "for u in prange(n_users, schedule='static'):", "for u in prange(n_users, schedule='dynamic', chunksize=8):")],
    "logistic MF with more than one thread and enough rows that threads pick up chunks in varying order",
    "which thread's generator serves which user depends on scheduling: equal seeds give different factors",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(600, 200) < np.linspace(0, 0.5, 600)[:, None]).astype(np.float32))
def fit():
    m = LogisticMatrixFactorization(factors=8, iterations=3, num_threads=4, random_state=7)
    m.fit(d, show_progress=False)
    return m.user_factors
a = fit()
for _ in range(20):
    check(np.array_equal(a, fit()), "two fits with the same seed differ")
""")

bug("c10-yty-stale", "C10",
    [(ALS, """        # clear any cached properties that are invalidated by this update
        self._item_norms = None
        self._YtY = None
""", """        # clear any cached properties that are invalidated by this update
        self._item_norms = None
        self._XtX = None
""")],
    "a recalculated user query, then partial_fit_items, then another recalculated user query",
    "recalculated users are solved against the item factors from before the update",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(8, 3).astype(np.float32); Y = rs.rand(6, 3).astype(np.float32)
m = model(X, Y)
likes = csr_matrix(np.array([[1, 0, 2, 0, 0, 0]], dtype=np.float32))
m.recalculate_user(0, likes)
m.partial_fit_items([4], csr_matrix(np.array([[9, 0, 0, 8, 0, 0, 7, 0]], dtype=np.float32)))
fresh = model(m.user_factors.copy(), m.item_factors.copy())
check(np.allclose(m.recalculate_user(0, likes), fresh.recalculate_user(0, likes), atol=1e-5), "stale")
""")

bug("c10-knn-refit-scorer", "C10",
    [(NN, "        self.scorer = NearestNeighboursScorer(self.similarity)\n\n    def recommend(",
      "        if self.scorer is None or self.scorer_shape != self.similarity.shape:\n            self.scorer = NearestNeighboursScorer(self.similarity)\n            self.scorer_shape = self.similarity.shape\n\n    def recommend(")],
    "refitting an item-item model on other data with the same number of items",
    "recommend keeps using the similarities of the first fit",
    HEAD + """
from implicit.nearest_neighbours import CosineRecommender
rs = np.random.RandomState(0)
a = csr_matrix((rs.rand(20, 12) < 0.4).astype(np.float64)); b = csr_matrix((rs.rand(20, 12) < 0.4).astype(np.float64))
m = CosineRecommender(K=12); m.fit(a, show_progress=False); m.fit(b, show_progress=False)
f = CosineRecommender(K=12); f.fit(b, show_progress=False)
check(np.allclose(m.recommend(0, b[0], N=3)[1], f.recommend(0, b[0], N=3)[1]), "stale scorer")
""")

bug("c11-resize-gap", "C11",
    [(ALS, """            self.user_factors = np.concatenate(
                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
            )
""", """            self.user_factors = np.resize(self.user_factors, (max_userid + 1, factors))
""")],
    "partial_fit_users with a new user id that leaves a gap after the known users",
    "users in the gap get copies of other users' factors instead of zeros",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(4, 3).astype(np.float32); Y = rs.rand(6, 3).astype(np.float32)
m = model(X, Y)
m.partial_fit_users([8], csr_matrix(np.array([[5, 0, 0, 9, 0, 0]], dtype=np.float32)))
check(m.user_factors.shape == (9, 3) and not m.user_factors[4:8].any(), m.user_factors)
""")

bug("c11-partial-duplicate-order", "C11",
    [(ALS, """        # update the stored factors with the newly calculated values
        self.item_factors[itemids] = item_factors
""", """        # update the stored factors with the newly calculated values
        self.item_factors[np.sort(itemids)] = item_factors
""")],
    "partial_fit_items with ids that are not in ascending order",
    "the new factors are stored under the wrong items",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(4, 3).astype(np.float32); Y = rs.rand(6, 3).astype(np.float32)
m = model(X, Y)
iu = csr_matrix((rs.rand(2, 4) < 0.6).astype(np.float32) * 3)
want = m.recalculate_item([4, 1], iu)
m.partial_fit_items([4, 1], iu)
check(np.allclose(m.item_factors[[4, 1]], want, atol=1e-5), "stored under the wrong ids")
""")

bug("c12-explain-zero-n", "C12",
    [(ALS, """            if h_len < N:
                heapq.heappush(h, contribution)
                h_len += 1
            else:
                heapq.heappushpop(h, contribution)
""", """            if h_len < N:
                heapq.heappush(h, contribution)
                h_len += 1
            elif score > 0:
                heapq.heappushpop(h, contribution)
""")],
    "a user whose liked items contribute negatively, with more of them than N",
    "explain returns the first N negative contributions instead of the N largest",
    HEAD + MODEL + """
rs = np.random.RandomState(3)
for t in range(20):
    X = rs.randn(2, 3); Y = rs.randn(9, 3)
    m = model(X, Y, dtype=np.float64, regularization=0.1)
    ui = csr_matrix(np.array([[1, 1, 1, 1, 1, 1, 0, 0, 0]], dtype=np.float32))
    full = m.explain(0, ui, 7, N=9)[1]; two = m.explain(0, ui, 7, N=2)[1]
    check(full[:2] == two, (full, two))
""")
