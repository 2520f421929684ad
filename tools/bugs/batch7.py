"""Planted bugs, seventh batch: less visited parts, value ranges and combinations."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []
FAISS = "implicit/ann/faiss.py"
ANNOY = "implicit/ann/annoy.py"
NMS = "implicit/ann/nmslib.py"
BASE = "implicit/recommender_base.py"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c24-sigmoid-saturate", "C24",
    [(LMF, "    if x >= 0:\n        return 1 / (1+exp(-x))\n", "    if x >= 9:\n        return 1\n    elif x >= 0:\n        return 1 / (1+exp(-x))\n")],
    "a user/item pair with a predicted logit above 9",
    "the gradient of such pairs vanishes, also where the confidence is large",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
m = LogisticMatrixFactorization(factors=1, iterations=1, learning_rate=1.0, regularization=0.0, neg_prop=0, num_threads=1, random_state=1)
m.user_factors = np.array([[3.2, 1.0, 0.0]], np.float32)
m.item_factors = np.array([[3.0, 0.0, 1.0]], np.float32)
m.fit(csr_matrix(np.array([[1000.0]], np.float32)), show_progress=False)
check(m.user_factors[0, 0] > 3.3, m.user_factors)
""")

bug("c24-sum-cap", "C24",
    [(LMF, "                    deriv_sum_sq[u, _] += deriv[_] * deriv[_]\n", "                    deriv_sum_sq[u, _] = min(deriv_sum_sq[u, _] + deriv[_] * deriv[_], 1e8)\n")],
    "gradients above ten thousand",
    "steps longer than the AdaGrad step",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
m = LogisticMatrixFactorization(factors=1, iterations=1, learning_rate=1.0, regularization=0.0, neg_prop=0, num_threads=1, random_state=1)
m.user_factors = np.array([[0.0, 1.0, 0.0]], np.float32)
m.item_factors = np.array([[1.0, 0.0, 1.0]], np.float32)
m.fit(csr_matrix(np.array([[1e6]], np.float32)), show_progress=False)
check(abs(m.user_factors[0, 0] - 1) < 1e-3, m.user_factors)
""")

bug("c23-converged", "C23",
    [(BPR, "                user[j] += learning_rate * (z * (liked[j] - disliked[j]) - reg * user[j])\n", "                user[j] += learning_rate * (z * (liked[j] - disliked[j]) - reg * user[j] * (z > 1e-5))\n")],
    "pairs that are ranked with a margin above 11",
    "no regularization for such pairs",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking
m = BayesianPersonalizedRanking(factors=1, iterations=30, learning_rate=0.1, regularization=0.1, num_threads=1, random_state=1)
m.user_factors = np.array([[5.0, 1.0], [-5.0, 1.0]], np.float32)
m.item_factors = np.array([[5.0, 0.0], [-5.0, 0.0]], np.float32)
m.fit(csr_matrix(np.eye(2, dtype=np.float32)), show_progress=False)
check(abs(m.user_factors[0, 0]) < 4.9, m.user_factors)
""")

bug("c20-annoy-clip", "C20",
    [(ANNOY, "        return ids, 1 - (scores**2) / 2\n", "        return ids, np.clip(1 - (scores**2) / 2, 0, 1)\n")],
    "items that point away from each other",
    "negative cosines come back as 0",
    HEAD + MODEL + """
from implicit.ann.annoy import AnnoyModel
m = AnnoyModel(model(np.ones((2, 2), np.float32), np.array([[1, 0], [-1, 0.1], [0, 1]], np.float32), iterations=0), n_trees=5)
m.fit(csr_matrix(np.ones((2, 3), np.float32)), show_progress=False)
ids, scores = m.similar_items(0, N=3)
check(scores[list(ids).index(1)] < -0.9, scores)
""")

bug("c20-faiss-recalc-batch", "C11",
    [(FAISS, "            user = self.model._user_factor(\n                userid, user_items, recalculate_user\n            )", "            user = self.model._user_factor(\n                userid, user_items, recalculate_user and (np.isscalar(userid) or len(userid) < 64)\n            )")],
    "recommend of a FaissModel with recalculate_user for 64 or more users without filtering liked items",
    "stored factors are used instead of recalculated ones",
    HEAD + MODEL + """
from implicit.ann.faiss import FaissModel
rs = np.random.RandomState(0)
m = FaissModel(model(rs.rand(80, 3).astype(np.float32), rs.rand(20, 3).astype(np.float32), iterations=0, regularization=1.0), nlist=1, nprobe=1, use_gpu=False)
d = csr_matrix((rs.rand(80, 20) < 0.3).astype(np.float32))
m.fit(d, show_progress=False)
ids, scores = m.recommend(np.arange(80), d, N=3, filter_already_liked_items=False, recalculate_user=True)
ids2, scores2 = m.model.recommend(np.arange(80), d, N=3, filter_already_liked_items=False, recalculate_user=True)
check(np.allclose(scores, scores2, atol=1e-3), "other scores")
""")

bug("c21-filter-sort", "C21",
    [(UTILS, "    if np.isscalar(queryid):\n        mask = np.in1d(ids, filter_items, invert=True)\n", "    if np.isscalar(queryid):\n        filter_items = np.asarray(filter_items)\n        filter_items.sort()\n        mask = np.isin(ids, filter_items, invert=True)\n")],
    "an array of unsorted filter_items in similar_items of an approximate model",
    "the array of the caller is reordered",
    HEAD + MODEL + """
from implicit.ann.annoy import AnnoyModel
rs = np.random.RandomState(0)
m = AnnoyModel(model(rs.rand(2, 2).astype(np.float32), rs.rand(9, 2).astype(np.float32), iterations=0), n_trees=5)
m.fit(csr_matrix(np.ones((2, 9), np.float32)), show_progress=False)
f = np.array([5, 1, 3]); m.similar_items(0, N=3, filter_items=f)
check(list(f) == [5, 1, 3], f)
""")

bug("c10-alpha-sticky", "C10",
    [(ALS, "        if self._YtY is None:\n            Y = self.item_factors\n            self._YtY = Y.T.dot(Y)\n", "        if self._YtY is None or len(self._YtY) != self.factors:\n            Y = self.item_factors\n            self._YtY = Y.T.dot(Y)\n"),
     (ALS, "        self.item_factors[itemids] = item_factors\n\n        # clear any cached properties that are invalidated by this update\n        self._item_norms = None\n        self._YtY = None\n",
      "        previous = self.item_factors[itemids]\n        self.item_factors[itemids] = item_factors\n\n        # clear any cached properties that are invalidated by this update\n        self._item_norms = None\n        if self._YtY is not None:\n            self._YtY = self._YtY - previous.T.dot(previous) + item_factors.T.dot(item_factors)\n")],
    "partial_fit_items with the same item twice, after and before a recalculation",
    "the squared item factors count the item twice",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X = rs.rand(3, 2).astype(np.float32); Y = rs.rand(4, 2).astype(np.float32)
m = model(X, Y, regularization=1.0)
u = csr_matrix(np.array([[1, 0, 1, 0]], np.float32))
m.recalculate_user(0, u)
m.partial_fit_items([1, 1], csr_matrix(np.array([[1, 1, 0], [0, 1, 1]], np.float32)))
f = model(m.user_factors.copy(), m.item_factors.copy(), regularization=1.0)
check(np.allclose(m.recalculate_user(0, u), f.recalculate_user(0, u), atol=1e-4), "stale")
""")

bug("c13-load-state", "C13",
    [(BASE, "                elif v.shape == ():\n", "                elif v.size == 1:\n")],
    "a model with a single factor and a single user or item",
    "the factors of the loaded model are a number",
    HEAD + """
import tempfile, os
from implicit.cpu.als import AlternatingLeastSquares
m = AlternatingLeastSquares(factors=1, iterations=1, random_state=1)
m.fit(csr_matrix(np.ones((1, 4), np.float32)), show_progress=False)
with tempfile.TemporaryDirectory() as d:
    m.save(os.path.join(d, "m.npz")); n = AlternatingLeastSquares.load(os.path.join(d, "m.npz"))
check(getattr(n.user_factors, "shape", None) == (1, 1), n.user_factors)
""")

bug("c30-als-alpha-int", "C22",
    [(ALS, "        if Cui.dtype != np.float32:\n            Cui = Cui.astype(np.float32)\n\n        # Give the positive examples more weight if asked for\n        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n",
      "        # Give the positive examples more weight if asked for\n        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n        if Cui.dtype != np.float32:\n            Cui = Cui.astype(np.float32)\n")],
    "small integers and an integer alpha",
    "the product overflows",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = np.array([[9, 0, 3], [1, 8, 0]])
out = []
for dt in (np.uint8, np.float32):
    m = AlternatingLeastSquares(factors=2, alpha=40, random_state=1, iterations=2, num_threads=1)
    m.fit(csr_matrix(d.astype(dt)), show_progress=False); out.append(m.user_factors)
check(np.allclose(*out, atol=1e-4), out)
""")

bug("c27-url-variant", "C27",
    [("implicit/datasets/movielens.py", "        _download.download_file(URL_BASE + filename, path)\n", "        _download.download_file(URL_BASE + filename.lower(), path.lower())\n")],
    "a cache directory with capital letters in its name",
    "the file is stored elsewhere",
    HEAD + """
import tempfile, os, h5py
from unittest import mock
from implicit.datasets import _download, movielens
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "src.hdf5")
    with h5py.File(src, "w") as f:
        g = f.create_group("movie_user_ratings")
        g.create_dataset("data", data=np.ones(1, np.float32)); g.create_dataset("indices", data=[0]); g.create_dataset("indptr", data=[0, 1])
        f.create_dataset("movie", data=["a"], dtype=h5py.special_dtype(vlen=str))
    def fetch(url, path, reporthook=None):
        open(path, "wb").write(open(src, "rb").read()); return path, {}
    _download.LOCAL_CACHE_DIR = os.path.join(d, "Cache")
    with mock.patch.object(_download, "urlretrieve", fetch):
        try:
            movies, m = movielens.get_movielens("100k")
        except Exception as e:
            check(False, e)
    check(os.path.isfile(os.path.join(d, "Cache", "movielens_100k.hdf5")), "not in the cache")
""")

bug("c03-many-items", "C03",
    [(MFB, "    positions = np.searchsorted(items, filter_query_items.col)\n    positions = np.clip(positions, 0, len(items) - 1)\n",
      "    positions = np.searchsorted(items, filter_query_items.col.astype(np.float32))\n    positions = np.clip(positions, 0, len(items) - 1)\n")],
    "liked items with ids above 2**24",
    "they are recommended again",
    HEAD + MODEL + """
n = 2**24 + 10
m = model(np.ones((1, 1), np.float32), np.ones((n, 1), np.float32))
u = csr_matrix((np.ones(1, np.float32), ([0], [n - 3])), shape=(1, n))
ids, scores = m.recommend(0, u, N=3, items=[1, n - 4, n - 3, n - 2])
check(n - 3 not in ids[scores > -1e30], ids)
""")

bug("c04-userid-cache", "C04",
    [(MFB, "        return self.user_factors[userid]\n", "        return self.user_factors[userid] if np.isscalar(userid) else self.user_factors[np.asarray(userid, dtype=np.int16)]\n")],
    "a batch with user ids above 32767",
    "the recommendations are those of other users",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
m = model(rs.rand(70000, 2).astype(np.float32), rs.rand(5, 2).astype(np.float32))
a = m.recommend(69000, None, N=3, filter_already_liked_items=False)[1]
try:
    b = m.recommend([1, 69000], None, N=3, filter_already_liked_items=False)[1]
except IndexError as e:
    check(False, e)
check(np.allclose(a, b[1]), (a, b))
""")
