"""Planted bugs, sixth batch: limits that only larger or longer input reaches, and rare combinations."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c02-liked-cap", "C02",
    [(TOPK, "            batch_distances[i, filter_query_items[idx].indices] = neginf\n",
      "            batch_distances[i, filter_query_items[idx].indices[:2048]] = neginf\n")],
    "a user with more than 2048 liked items",
    "liked items are recommended again",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(1, 3).astype(np.float32); Y = rs.rand(3000, 3).astype(np.float32)
likes = csr_matrix((np.arange(3000) < 2900).astype(np.float32)[None])
ids, scores = model(X, Y).recommend(0, likes, N=50)
check(not set(ids) & set(likes.indices), ids)
""")

bug("c06-confidence-cap", "C06",
    [(PALS, "                    if confidence > 0:\n                        temp = confidence\n                    else:\n                        temp = 0\n                        confidence = -1 * confidence\n\n                    temp = temp - (confidence - 1) * dot",
      "                    if confidence > 0:\n                        temp = min(confidence, 1e6)\n                    else:\n                        temp = 0\n                        confidence = -1 * confidence\n\n                    temp = temp - (confidence - 1) * dot")],
    "a confidence above a million",
    "the conjugate gradient solver starts from another system than it solves",
    HEAD + """
from implicit.cpu._als import least_squares_cg
rs = np.random.RandomState(0)
Y = rs.rand(4, 2); X = np.ones((1, 2))
C = csr_matrix([[4e6, 0, 2.0, 1.0]]).astype(np.float32)
least_squares_cg(C, X, Y, 0.1, num_threads=1, cg_steps=50)
A = Y.T.dot(Y) + 0.1 * np.eye(2); b = np.zeros(2)
for i, c in zip(C.indices, C.data.astype(float)):
    A += (c - 1) * np.outer(Y[i], Y[i]); b += c * Y[i]
check(np.allclose(X[0], np.linalg.solve(A, b), atol=1e-2), (X[0], np.linalg.solve(A, b)))
""")

bug("c06-many-factors", "C06",
    [(PALS, "                memcpy(p, r, sizeof(floating) * N)\n", "                memcpy(p, r, sizeof(floating) * min(N, 256))\n"),
     (PALS, "        p = <floating *> malloc(sizeof(floating) * N)\n", "        p = <floating *> calloc(N, sizeof(floating))\n"),
     (PALS, "from libc.stdlib cimport free, malloc", "from libc.stdlib cimport calloc, free, malloc")],
    "more than 256 factors",
    "the search starts in another direction than the residual, the factors above the 256th are wrong",
    HEAD + """
from implicit.cpu._als import least_squares_cg
rs = np.random.RandomState(0)
Y = rs.rand(30, 300) - 0.5; X = np.zeros((3, 300))
C = csr_matrix((rs.rand(3, 30) < 0.5).astype(np.float32))
least_squares_cg(C, X, Y, 1.0, num_threads=1, cg_steps=1)
b = C.toarray().dot(Y)
check(np.allclose(X / np.abs(X).max(1, keepdims=True), b / np.abs(b).max(1, keepdims=True), atol=1e-3), "not along the residual")
""")

bug("c19-short-batch", "C19",
    [(EVAL, "    batch_size = 1000\n", "    batch_size = max(1, 4000000 // max(items, 1))\n"),
     (EVAL, "        start_idx += batch_size\n", "        start_idx += max(batch_size, 1000)\n")],
    "a catalogue of more than 4000 items and more test users than fit in a batch",
    "users after the first batch are left out of the metrics",
    HEAD + """
from implicit.evaluation import ranking_metrics_at_k
class Model:
    def recommend(self, userid, user_items, N=10, **kw):
        return np.tile(np.arange(N, dtype=np.int32), (len(userid), 1)), np.ones((len(userid), N), np.float32)
items = 100000
t = csr_matrix((np.ones(60), (np.arange(60), [0] * 30 + [50] * 30)), shape=(60, items))
p = ranking_metrics_at_k(Model(), csr_matrix((60, items)), t, K=1, show_progress=False)["precision"]
check(abs(p - 0.5) < 1e-9, p)
""")

bug("c23-long-row", "C23",
    [(BPR, "    return binary_search(&indices[indptr[rowid]], &indices[indptr[rowid + 1]], colid)\n",
      "    cdef integral last = min(indptr[rowid + 1], indptr[rowid] + 512)\n    return binary_search(&indices[indptr[rowid]], &indices[last], colid)\n")],
    "a user with more than 512 liked items",
    "liked items are used as negative samples of the same user",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking
d = csr_matrix(np.ones((2, 900), np.float32))
seen = []
m = BayesianPersonalizedRanking(factors=2, iterations=2, random_state=1, num_threads=1)
m.fit(d, show_progress=False, callback=lambda epoch, t, correct, skipped: seen.append(skipped))
check(min(seen) == d.nnz, seen)
""")

bug("c25-nan-prefix", "C25",
    [(MFB, "        is_nan = np.any(np.isnan(self.user_factors), axis=None)\n        is_nan |= np.any(np.isnan(self.item_factors), axis=None)\n",
      "        # (NaN spreads to all rows, so the first ones are enough)\n        is_nan = np.any(np.isnan(self.user_factors[:1000]), axis=None)\n        is_nan |= np.any(np.isnan(self.item_factors[:1000]), axis=None)\n")],
    "more than 1000 users and items, of which only later ones have diverged",
    "fit returns normally with NaN in the factors",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
from implicit.cpu.als import AlternatingLeastSquares
n = 1500
d = csr_matrix((np.ones(n, np.float32), (np.arange(n), np.arange(n))))
m = AlternatingLeastSquares(factors=2, iterations=0, random_state=1)
m.user_factors = np.ones((n, 2), np.float32); m.item_factors = np.ones((n, 2), np.float32)
m.item_factors[1400] = np.nan
try:
    m.fit(d, show_progress=False)
except Exception as e:
    check(type(e).__name__ == "ModelFitError", e)
else:
    check(False, "NaN in the factors, no error")
""")

bug("c26-callback-rate", "C26",
    [(BPR, "                if callback:\n", "                if callback and (epoch < 50 or epoch % 10 == 0):\n")],
    "a BPR training of more than 50 epochs with a callback",
    "epochs go by without a call",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking
seen = []
m = BayesianPersonalizedRanking(factors=2, iterations=60, random_state=1, num_threads=1)
m.fit(csr_matrix(np.eye(4, dtype=np.float32)), show_progress=False, callback=lambda epoch, *a: seen.append(epoch))
check(seen == list(range(60)), seen)
""")

bug("c21-sorted-rows", "C21",
    [(ALS, "        item_factors = np.zeros((items, self.factors), dtype=self.dtype)\n",
      "        if item_users.nnz > 4096:\n            # walks through the factors in order\n            item_users.sort_indices()\n        item_factors = np.zeros((item_users.shape[0], self.factors), dtype=self.dtype)\n")],
    "recalculate_item with more than 4096 unsorted interactions",
    "the matrix of the caller is reordered",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(60, 100) < 0.9).astype(np.float32))
d.indices = np.concatenate([d.indices[a:b][::-1] for a, b in zip(d.indptr, d.indptr[1:])]).astype(np.int32); d.has_sorted_indices = False
before = d.indices.copy()
model(rs.rand(100, 3).astype(np.float32), rs.rand(60, 3).astype(np.float32), regularization=1.0).recalculate_item(np.arange(60), d)
check(np.array_equal(before, d.indices), "reordered")
""")

bug("c28-lmf-stack", "C28",
    [(LMF, "        deriv = <floating*> malloc(sizeof(floating) * n_factors)\n", "        deriv = <floating*> malloc(sizeof(floating) * min(n_factors, 512))\n")],
    "a LogisticMatrixFactorization with more than 510 factors",
    "the gradients are written past the end of their buffer",
    HEAD + """
import subprocess
code = '''
import numpy as np
from scipy.sparse import csr_matrix
from implicit.cpu.lmf import LogisticMatrixFactorization
for f in (600, 5000, 60000, 600000):
    m = LogisticMatrixFactorization(factors=f, iterations=3, random_state=1, num_threads=1)
    m.fit(csr_matrix(np.eye(3, dtype=np.float32)), show_progress=False)
'''
r = subprocess.run([sys.executable, "-c", code], capture_output=True, env=dict(__import__("os").environ, MALLOC_CHECK_="3", MALLOC_PERTURB_="165"))
check(r.returncode == 0, r.returncode)
""")

bug("c15-heavy-user", "C15",
    [(PNN, "                        for index2 in range(self.similarity_indptr[i], self.similarity_indptr[i+1]):\n                            self.neighbours.add",
      "                        for index2 in range(self.similarity_indptr[i], min(self.similarity_indptr[i+1], self.similarity_indptr[i] + 256)):\n                            self.neighbours.add")],
    "a model with more than 256 neighbours per item",
    "the weaker neighbours of an item don't count",
    HEAD + """
from implicit.nearest_neighbours import CosineRecommender
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(40, 500) < 0.5).astype(np.float64))
m = CosineRecommender(K=400); m.fit(d, show_progress=False)
ids, scores = m.recommend(0, d[0], N=500, filter_already_liked_items=False)
want = (d[0] * m.similarity).toarray()[0]
check(np.allclose(want[ids], scores), "other scores")
""")

bug("c18-popular-rows", "C18",
    [(EVAL, "    unique_users, counts = np.unique(users, return_counts=True)\n",
      "    unique_users, counts = np.unique(users, return_counts=True)\n"),
     (EVAL, "    candidate_mask = counts > K + 1\n", "    candidate_mask = counts.astype(np.int8 if K < 64 else np.int64) > K + 1\n")],
    "a user whose number of ratings is (almost) a multiple of 256",
    "that user is not represented in the test set",
    HEAD + """
from implicit.evaluation import leave_k_out_split
d = csr_matrix(np.ones((3, 257)))
train, test = leave_k_out_split(d, 1, random_state=1)
check(test.nnz == 3, test.nnz)
""")

bug("c11-sorted-ids", "C11",
    [(ALS, "        max_itemid = max(itemids)\n", "        max_itemid = max(itemids[-1], itemids[0])\n")],
    "partial_fit_items with the largest new id in the middle of the ids",
    "an IndexError instead of an update",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
m = model(rs.rand(3, 2).astype(np.float32), rs.rand(4, 2).astype(np.float32), regularization=1.0)
m.partial_fit_items(np.array([1, 6, 4]), csr_matrix(np.ones((3, 3), np.float32)))
check(m.item_factors.shape[0] == 7, m.item_factors.shape)
""")

bug("c08-many-users", "C08",
    [(PALS, "    cdef double loss = 0, total_confidence = 0, item_norm = 0, user_norm = 0\n",
      "    cdef double loss = 0, item_norm = 0, user_norm = 0\n    cdef float total_confidence = 0\n")],
    "a total confidence that single precision can't hold",
    "the reported loss is off",
    HEAD + """
from implicit.cpu._als import calculate_loss
C = csr_matrix(np.r_[np.float32(2**25), np.ones(5000, np.float32)][None])
loss = calculate_loss(C, np.zeros((1, 2)), np.zeros((5001, 2)), 0.0, num_threads=1)
check(abs(loss - 1) < 1e-6, loss)
""")

