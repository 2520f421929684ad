"""Planted bugs, second batch (persistence, item-item models, evaluation, ANN, BPR, LMF, ...)."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c13-bpr-verify-lost", "C13",
    [(BPR, "            verify_negative_samples=self.verify_negative_samples,\n            num_threads=self.num_threads,\n            iterations=self.iterations,\n            dtype",
      "            num_threads=self.num_threads,\n            iterations=self.iterations,\n            dtype")],
    "saving and loading a BPR model created with verify_negative_samples=False",
    "the loaded model silently goes back to the default and refits differently",
    HEAD + """
import io
from implicit.cpu.bpr import BayesianPersonalizedRanking as B
m = B(factors=3, verify_negative_samples=False, random_state=1, num_threads=1, iterations=2)
m.fit(csr_matrix(np.eye(5, dtype=np.float32)), show_progress=False)
f = io.BytesIO(); m.save(f); f.seek(0)
check(B.load(f).verify_negative_samples is False, "verify_negative_samples lost")
""")

bug("c14-smmp-zero-sum", "C14",
    [(HNN, """    sums[index] += value;

    if (nonzeros[index] == -1) {
      nonzeros[index] = head;
      head = index;
      length += 1;
    }
""", """    if (value == 0) {
      return;
    }
    if (sums[index] == 0) {
      nonzeros[index] = head;
      head = index;
      length += 1;
    }
    sums[index] += value;
""")],
    "positive and negative co-occurrence weights that cancel to exactly zero half way through an item",
    "an item is linked twice into the accumulator list: wrong or duplicate neighbours",
    HEAD + """
from implicit.nearest_neighbours import ItemItemRecommender
d = np.array([[1.0, 1, 0, 1], [1, -1, 0, 0], [1, 2, 1, 0], [0, 0, 1, 3]])
m = ItemItemRecommender(K=4); m.fit(csr_matrix(d), show_progress=False)
check(np.allclose(m.similarity.toarray(), d.T.dot(d)), m.similarity.toarray() - d.T.dot(d))
""")

bug("c15-weight-int", "C15",
    [(PNN, "        cdef int index1, index2, i, count\n        cdef double weight\n",
      "        cdef int index1, index2, i, count\n        cdef float weight\n"),
     (PNN, "                        weight = user_data[index1]\n", "                        weight = user_data[index1]\n                        if weight < 0:\n                            continue\n")],
    "a user row with negative (disliked) values",
    "disliked items are ignored instead of pushing similar items down",
    HEAD + """
from implicit.nearest_neighbours import CosineRecommender
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(20, 12) < 0.4).astype(np.float64))
m = CosineRecommender(K=12); m.fit(d, show_progress=False)
row = np.zeros((1, 12)); row[0, [1, 4]] = [2.0, -1.5]
ids, scores = m.recommend(0, csr_matrix(row), N=12, filter_already_liked_items=False)
want = row.dot(m.similarity.toarray())[0]
check(np.allclose(scores, want[ids]), (scores, want[ids]))
""")

bug("c16-bm25-avg-length", "C16",
    [(NN, "    average_length = row_sums.mean()\n", "    average_length = X.sum() / len(np.unique(X.row))\n")],
    "bm25_weight on a matrix that has an empty row",
    "the average length is taken over non-empty rows only, changing every weight",
    HEAD + """
from implicit.nearest_neighbours import bm25_weight
d = np.array([[1.0, 2, 0], [0, 0, 0], [0, 1, 3], [1, 0, 0]])
got = bm25_weight(csr_matrix(d), K1=1.2, B=0.75).toarray()
idf = np.log(4) - np.log1p((d > 0).sum(axis=0))
ln = 0.25 + 0.75 * d.sum(axis=1) / d.sum(axis=1).mean()
want = d * 2.2 / (1.2 * ln[:, None] + d) * idf
check(np.allclose(got, want), got - want)
""")

bug("c16-tfidf-inplace", "C16",
    [(NN, "    X.data = sqrt(X.data.astype(np.float64)) * idf[X.col]\n", "    X.data = sqrt(X.data.astype(np.float64))\n    X.data *= idf[X.col]\n"),
     (NN, "    X = coo_matrix(X)\n\n    # calculate IDF\n", "    X = X if X.format == \"coo\" else X.tocoo()\n\n    # calculate IDF\n")],
    "tfidf_weight on a COO matrix",
    "the caller's COO matrix is overwritten with the weighted values",
    HEAD + """
from implicit.nearest_neighbours import tfidf_weight
d = coo_matrix(np.array([[1.0, 2, 0], [0, 1, 3], [1, 0, 4]]))
before = d.toarray().copy()
tfidf_weight(d)
check(np.array_equal(d.toarray(), before), "input was modified")
""")

bug("c17-train-zeros", "C17",
    [(EVAL, "    test.data[test.data < 0] = 0\n    test.eliminate_zeros()\n\n    return train, test\n",
      "    test.data[test.data < 0] = 0\n    for m in (train, test):\n        m.eliminate_zeros()\n\n    return train, test\n"),
     (EVAL, "    test_index = random_index >= train_percentage\n", "    test_index = ~train_index\n")],
    "a rating stored with the explicit value 0 that falls into the training part",
    "the stored rating is in neither of the two matrices",
    HEAD + """
from implicit.evaluation import train_test_split
m = csr_matrix(([1.0, 0.0, 2.0, 0.0], ([0, 0, 1, 2], [0, 1, 1, 2])), shape=(3, 3))
train, test = train_test_split(m, train_percentage=1.0, random_state=1)
check(train.nnz == 4, "train has %d of 4 ratings" % train.nnz)
""")

bug("c19-idcg-k", "C19",
    [(EVAL, "                idcg = cg_sum[min(K, likes.size()) - 1]\n", "                idcg = cg_sum[min(K, test_indptr[u+1] - test_indptr[u]) - 1]\n"),
     (EVAL, "                num_pos_items = likes.size()\n", "                num_pos_items = test_indptr[u+1] - test_indptr[u]\n")],
    "a test matrix that stores the same user/item entry more than once (not canonical)",
    "repeated entries are counted as extra relevant items, so NDCG and AUC are too low",
    HEAD + MODEL + """
from implicit.evaluation import ranking_metrics_at_k
X = np.ones((1, 1), dtype=np.float32); Y = np.array([[4.0], [3], [2], [1]], dtype=np.float32)
train = csr_matrix((1, 4), dtype=np.float32)
a = csr_matrix(np.array([[1, 0, 1, 0]], dtype=np.float32))
b = csr_matrix((np.ones(3, dtype=np.float32), np.array([0, 0, 2], dtype=np.int32), np.array([0, 3], dtype=np.int32)), shape=(1, 4))
ra = ranking_metrics_at_k(model(X, Y), train, a, K=3, show_progress=False)
rb = ranking_metrics_at_k(model(X, Y), train, b, K=3, show_progress=False)
check(all(abs(ra[k] - rb[k]) < 1e-9 for k in ra), (ra, rb))
""")

bug("c20-annoy-count", "C20",
    [("implicit/ann/annoy.py", "            count += len(user_likes)\n", "            count = max(count, N + len(user_likes))\n")],
    "an Annoy query with both filter_items and liked items among the best results",
    "too few candidates are fetched, so fewer than N items come back although more are eligible",
    HEAD + """
from implicit.approximate_als import AnnoyAlternatingLeastSquares
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(40, 20) < 0.3).astype(np.float32))
m = AnnoyAlternatingLeastSquares(factors=4, iterations=5, random_state=1, regularization=1, search_k=100000)
m.fit(d, show_progress=False)
top = m.model.recommend(0, d[0], N=4)[0]
ids, _ = m.recommend(0, d[0], N=20 - d[0].nnz - 4, filter_items=top)
check(len(ids) == 20 - d[0].nnz - 4, len(ids))
""")

bug("c21-items-inplace", "C21",
    [(MFB, "            items = np.array(items)\n            items.sort()\n", "            items = np.asarray(items)\n            items.sort()\n")],
    "recommend with an unsorted numpy array as items",
    "the caller's array is sorted in place",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
m = model(rs.rand(3, 2).astype(np.float32), rs.rand(6, 2).astype(np.float32))
items = np.array([5, 1, 3])
m.recommend(0, None, N=3, items=items, filter_already_liked_items=False)
check(list(items) == [5, 1, 3], items)
""")

bug("c22-coo-shape", "C22",
    [(UTILS, "        user_items = user_items.tocsr()\n", "        user_items = user_items.tocoo()\n        user_items = scipy.sparse.csr_matrix((user_items.data, (user_items.row, user_items.col)))\n")],
    "non-CSR input whose last user or item has no interactions",
    "trailing empty rows or columns are cut off, so the model is smaller than with CSR input",
    HEAD + """
import warnings; warnings.simplefilter("ignore")
from implicit.cpu.als import AlternatingLeastSquares
d = np.zeros((5, 6), dtype=np.float32); d[0, 1] = d[1, 2] = d[2, 2] = 1
m = AlternatingLeastSquares(factors=2, iterations=1, random_state=1); m.fit(coo_matrix(d), show_progress=False)
check(m.user_factors.shape == (5, 2) and m.item_factors.shape == (6, 2), m.item_factors.shape)
""")

bug("c23-last-like-negative", "C23",
    [(BPR, "    return binary_search(&indices[indptr[rowid]], &indices[indptr[rowid + 1]], colid)\n",
      "    return binary_search(&indices[indptr[rowid]], &indices[indptr[rowid + 1] - 1], colid)\n")],
    "BPR with verify_negative_samples when the sampled negative is the user's highest-numbered liked item",
    "an item the user likes is trained as a negative",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking
d = csr_matrix(np.ones((6, 5), dtype=np.float32))
skips = []
m = BayesianPersonalizedRanking(factors=2, iterations=5, num_threads=1, random_state=3)
m.fit(d, show_progress=False, callback=lambda e, t, c, s: skips.append(s))
check(all(s == 30 for s in skips), "everybody likes everything, but only %s of 30 were skipped" % skips)
""")

bug("c25-items-nan-unchecked", "C25",
    [(MFB, "        is_nan |= np.any(np.isnan(self.item_factors), axis=None)\n",
      "        is_nan |= np.any(np.isnan(self.item_factors[0]), axis=None)\n")],
    "training that diverges only in item factors other than the first",
    "fit returns normally with NaN item factors",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
from implicit.recommender_base import ModelFitError
d = np.zeros((3, 3), dtype=np.float32); d[0, 1] = 1; d[1, 1] = 2; d[2, 2] = 1
m = AlternatingLeastSquares(factors=2, iterations=0)
m.user_factors = np.ones((3, 2), dtype=np.float32); m.item_factors = np.ones((3, 2), dtype=np.float32)
m.item_factors[1, 0] = np.nan
try:
    m.fit(csr_matrix(d), show_progress=False)
except ModelFitError:
    sys.exit(0)
check(False, "NaN factors accepted")
""")

bug("c26-callback-skip-hidden", "C26",
    [(LMF, "                if callback:\n                    callback(epoch, time.time() - s)\n",
      "                if callback and (show_progress or epoch + 1 < self.iterations):\n                    callback(epoch, time.time() - s)\n")],
    "logistic MF fit with a callback and show_progress=False",
    "the callback is not called for the last iteration",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
seen = []
m = LogisticMatrixFactorization(factors=3, iterations=3, num_threads=1)
m.fit(csr_matrix(np.eye(5, dtype=np.float32)), show_progress=False, callback=lambda e, t: seen.append(e))
check(seen == [0, 1, 2], seen)
""")

bug("c27-cached-dir", "C27",
    [("implicit/datasets/reddit.py", "        return csr_matrix((m.get(\"data\"), m.get(\"indices\"), m.get(\"indptr\")))\n",
      "        ratings = csr_matrix((m.get(\"data\"), m.get(\"indices\"), m.get(\"indptr\")))\n        ratings.eliminate_zeros()\n        return ratings\n")],
    "a cached reddit file that stores ratings with the value 0",
    "stored ratings are dropped while loading",
    HEAD + """
import os, tempfile, h5py
from implicit.datasets import _download, reddit
with tempfile.TemporaryDirectory() as d:
    _download.LOCAL_CACHE_DIR = d
    with h5py.File(os.path.join(d, "reddit.hdf5"), "w") as f:
        g = f.create_group("item_user_ratings")
        g.create_dataset("data", data=np.array([1.0, 0.0, -1.0])); g.create_dataset("indices", data=np.array([0, 1, 2]))
        g.create_dataset("indptr", data=np.array([0, 2, 3]))
    m = reddit.get_reddit()
    check(m.nnz == 3, "%d of 3 stored ratings" % m.nnz)
""")

bug("c29-scorer-lock", "C29",
    [(PNN, "            with self.lock:\n                with nogil:\n", "            if True:\n                with nogil:\n")],
    "two threads calling recommend on the same item-item model at the same time",
    "both accumulate into the same buffer: wrong scores, or a corrupted list",
    HEAD + """
import subprocess, os
code = '''
import numpy as np, threading, sys
from scipy.sparse import csr_matrix
from implicit.nearest_neighbours import CosineRecommender
sys.setswitchinterval(1e-5)
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(60, 3000) < 0.3).astype(np.float64))
m = CosineRecommender(K=500, num_threads=4); m.fit(d, show_progress=False)
want = [m.recommend(u, d[u], N=50) for u in range(8)]
bad = []
def run(u):
    for _ in range(60):
        ids, scores = m.recommend(u, d[u], N=50)
        if len(scores) != 50 or not np.allclose(scores, want[u][1]):
            bad.append(u)
ts = [threading.Thread(target=run, args=(u,)) for u in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(3 if bad else 0)
'''
r = subprocess.run([sys.executable, "-c", code], timeout=200)
check(r.returncode == 0, "concurrent queries gave wrong answers (%d)" % r.returncode)
""")

bug("c29-yty-inplace", "C29",
    [(ALS, "            self._YtY = Y.T.dot(Y)\n", "            self._YtY = np.zeros((Y.shape[1], Y.shape[1]), dtype=Y.dtype)\n            np.dot(Y.T, Y, out=self._YtY)\n")],
    "two threads making the first recalculated query at the same time",
    "the second thread solves against a half-computed matrix",
    HEAD + MODEL + """
import threading
rs = np.random.RandomState(0)
X = rs.rand(4, 384).astype(np.float32); Y = rs.rand(60000, 384).astype(np.float32)
likes = csr_matrix((np.ones(3, dtype=np.float32), ([0, 0, 0], [5, 70, 900])), shape=(1, 60000))
want = model(X, Y, regularization=1.0).recalculate_user(0, likes)
for _ in range(3):
    m = model(X, Y, regularization=1.0)
    out = {}
    def run(i):
        if i:
            import time; time.sleep(0.005)
        out[i] = m.recalculate_user(0, likes)
    ts = [threading.Thread(target=run, args=(i,)) for i in range(2)]
    [t.start() for t in ts]; [t.join() for t in ts]
    for i in range(2):
        check(np.allclose(out[i], want, rtol=1e-2, atol=1e-3), "thread %d solved another system" % i)
""")

bug("c30-annoy-search-k", "C30",
    [("implicit/approximate_als.py", "        n_trees=n_trees,\n        search_k=search_k,\n", "        n_trees=n_trees,\n        search_k=-1 if search_k <= n_trees else search_k,\n")],
    "AnnoyAlternatingLeastSquares with a search_k not above n_trees",
    "the requested search_k is replaced by the default",
    HEAD + """
from implicit.approximate_als import AnnoyAlternatingLeastSquares
check(AnnoyAlternatingLeastSquares(factors=3, n_trees=10, search_k=5).search_k == 5, "search_k lost")
""")

bug("c30-bpr-threads", "C30",
    [("implicit/bpr.py", "        num_threads=num_threads,\n", "        num_threads=num_threads if verify_negative_samples else 0,\n")],
    "the BPR factory with num_threads and verify_negative_samples=False",
    "num_threads is ignored, so training is no longer reproducible",
    HEAD + """
from implicit.bpr import BayesianPersonalizedRanking
m = BayesianPersonalizedRanking(factors=3, num_threads=1, verify_negative_samples=False)
check(m.num_threads == 1, m.num_threads)
""")
BUGS = [b for b in BUGS if b["id"] not in ("c20-augment-norm", "c24-sigmoid-branch", "c17-uint-threshold")]
