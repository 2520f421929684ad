"""Planted bugs, fifth batch: one or two per property, on inputs an ordinary test leaves out."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []
NMS = "implicit/ann/nmslib.py"
MOVIE = "implicit/datasets/movielens.py"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-zero-user", "C01",
    [(TOPK, "    batch_distances = query[startidx: endidx].dot(items.T)\n",
      "    batch_query = query[startidx: endidx]\n    if not batch_query.any():\n        # nothing is known about these users\n        return\n    batch_distances = batch_query.dot(items.T)\n")],
    "a query for a user whose factors are all zero",
    "no items are returned although the catalogue has enough of them",
    HEAD + MODEL + """
ids, scores = model(np.zeros((2, 2), np.float32), np.ones((5, 2), np.float32)).recommend(1, None, N=3, filter_already_liked_items=False)
check(len(set(ids)) == 3 and min(ids) >= 0 and not scores.any(), (ids, scores))
""")

bug("c05-tiny-norm", "C05",
    [(MFB, "            norms = np.linalg.norm(self.item_factors, axis=-1)\n            # don't divide by zero in similar_items, replace with small value\n            norms[norms == 0] = 1e-10\n",
      "            norms = np.linalg.norm(self.item_factors, axis=-1)\n            # don't divide by (almost) zero in similar_items, replace with small value\n            norms[norms < 1e-6] = 1e-10\n")],
    "an item with tiny but non-zero factors",
    "its cosine similarities are far larger than 1",
    HEAD + MODEL + """
Y = np.array([[1, 0], [1e-7, 1e-7], [0, 1.0]], dtype=np.float32)
ids, scores = model(np.ones((1, 2), np.float32), Y).similar_items(0, N=3)
check(scores.max() < 1.01, (ids, scores))
""")

bug("c06-python-empty-row", "C06",
    [(ALS, "    for u in range(users):\n        X[u] = user_factor(Y, YtY, Cui, u, regularization, n_factors)\n",
      "    for u in range(users):\n        if Cui.indptr[u] != Cui.indptr[u + 1]:\n            X[u] = user_factor(Y, YtY, Cui, u, regularization, n_factors)\n")],
    "the Python Cholesky solver on a user without interactions",
    "the user keeps the old (random) factors instead of zeros",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = csr_matrix(np.array([[1, 1, 0], [0, 0, 0], [0, 1, 1]], dtype=np.float32))
m = AlternatingLeastSquares(factors=2, use_native=False, use_cg=False, iterations=2, random_state=1, num_threads=1)
m.fit(d, show_progress=False)
check(not m.user_factors[1].any(), m.user_factors)
""")

bug("c08-count-nonzero", "C08",
    [(PALS, "    return loss / (total_confidence + Cui.shape[0] * Cui.shape[1] - Cui.nnz)\n",
      "    return loss / (total_confidence + Cui.shape[0] * Cui.shape[1] - Cui.count_nonzero())\n")],
    "a matrix with explicitly stored zeros",
    "the loss is divided by a too large total confidence",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = csr_matrix((np.array([2.0, 0.0, 3.0], np.float32), ([0, 0, 1], [0, 1, 1])), shape=(2, 2))
got = []
m = AlternatingLeastSquares(factors=1, iterations=1, calculate_training_loss=True, regularization=0.5, random_state=1, num_threads=1, dtype=np.float64)
m.fit(d, show_progress=False, callback=lambda i, t, loss: got.append(loss))
S = m.user_factors.dot(m.item_factors.T)
C = np.array([[2.0, 0.0], [1.0, 3.0]]); P = np.array([[1.0, 0], [0, 1]])
want = ((C * (P - S) ** 2).sum() + 0.5 * ((m.user_factors ** 2).sum() + (m.item_factors ** 2).sum())) / C.sum()
check(abs(got[0] - want) < 1e-5, (got, want))
""")

bug("c10-incremental-norms", "C10",
    [(ALS, "        # clear any cached properties that are invalidated by this update\n        self._user_norms = None\n        self._XtX = None\n",
      "        # update any cached properties that are invalidated by this update\n        if self._user_norms is not None and len(self._user_norms) == len(self.user_factors):\n            self._user_norms[userids] = np.linalg.norm(user_factors, axis=1)\n        else:\n            self._user_norms = None\n        self._XtX = None\n")],
    "similar_users, then partial_fit_users for an existing user without any interactions, then similar_users again",
    "the norm of that user is 0: similarities become NaN",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = csr_matrix((np.random.RandomState(0).rand(6, 5) < 0.6).astype(np.float32))
m = AlternatingLeastSquares(factors=2, iterations=2, random_state=1, num_threads=1)
m.fit(d, show_progress=False)
m.similar_users(0)
m.partial_fit_users([2], csr_matrix((1, 5), dtype=np.float32))
ids, scores = m.similar_users(0, N=6)
check(np.isfinite(scores).all() and len(set(ids)) == 6, (ids, scores))
""")

bug("c10-yty-regularized", "C10",
    [(ALS, "            self._YtY = Y.T.dot(Y)\n", "            reg = self.regularization * np.eye(Y.shape[1], dtype=Y.dtype)\n            self._YtY = Y.T.dot(Y) + reg\n"),
     (ALS, "            user_factors,\n            self.item_factors,\n            self.regularization,\n", "            user_factors,\n            self.item_factors,\n            0.0,\n"),
     (ALS, "self.item_factors, self.YtY, user_items, userid, self.regularization, self.factors", "self.item_factors, self.YtY, user_items, userid, 0.0, self.factors")],
    "recalculate a user, change the regularization of the model, recalculate again",
    "the old regularization is still in the cached matrix",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = csr_matrix((np.random.RandomState(0).rand(6, 5) < 0.6).astype(np.float32))
m = AlternatingLeastSquares(factors=2, iterations=2, random_state=1, num_threads=1)
m.fit(d, show_progress=False)
a = m.recalculate_user(0, d[0]); m.regularization = 50.0; b = m.recalculate_user(0, d[0])
check(np.linalg.norm(b) < 0.5 * np.linalg.norm(a), (a, b))
""")

bug("c14-positive-only", "C14",
    [(HNN, "    if ((results.size() < K) || (score > results[0].first)) {\n", "    if (((results.size() < K) && score > -1) || (results.size() && score > results[0].first)) {\n")],
    "an item-item model on data with negative ratings",
    "neighbours with a negative similarity are dropped from rows that have fewer than K others",
    HEAD + """
from implicit.nearest_neighbours import ItemItemRecommender
m = ItemItemRecommender(K=5, num_threads=1)
m.fit(csr_matrix(np.array([[1.0, -2.0], [1.0, -1.0]])), show_progress=False)
check(m.similarity[0, 1] == -3 and m.similarity.nnz == 4, m.similarity.toarray())
""")

bug("c16-idf-clip", "C16",
    [(NN, "    # calculate IDF\n    N = float(X.shape[0])\n    idf = log(N) - log1p(bincount(X.col))\n",
      "    # calculate IDF\n    N = float(X.shape[0])\n    idf = np.maximum(log(N) - log1p(bincount(X.col)), 0)\n")],
    "a column that occurs in every row",
    "its weights become 0 instead of slightly negative",
    HEAD + """
from implicit.nearest_neighbours import tfidf_weight
X = csr_matrix(np.array([[4.0, 1.0], [9.0, 0.0]]))
W = tfidf_weight(X).toarray()
check(abs(W[0, 0] - 2 * (np.log(2) - np.log(3))) < 1e-9, W)
""")

bug("c17-float-values", "C17",
    [(EVAL, "    ratings = ratings.tocoo()\n    random_state = check_random_state(random_state)\n    random_index",
      "    # single precision is enough for a rating\n    ratings = coo_matrix(ratings, dtype=np.float32).astype(ratings.dtype)\n    random_state = check_random_state(random_state)\n    random_index")],
    "ratings that single precision can't hold",
    "the split returns other values than were passed in",
    HEAD + """
from implicit.evaluation import train_test_split
d = csr_matrix(np.full((3, 4), 123456789.0))
a, b = train_test_split(d, 0.5, random_state=1)
check((a + b != d).nnz == 0, "values changed")
""")

bug("c18-fixed-choice", "C18",
    [(EVAL, "    arr = rng.choice(n, size=size, replace=False)\n", "    arr = np.random.default_rng(n).choice(n, size=size, replace=False)\n")],
    "train_only_size with different random states",
    "the users reserved for training are always the same ones, whatever the random state",
    HEAD + """
from implicit.evaluation import leave_k_out_split
d = csr_matrix(np.ones((30, 6)))
seen = set()
for seed in range(20):
    _, test = leave_k_out_split(d, K=1, train_only_size=0.5, random_state=seed)
    seen.add(tuple(np.diff(test.indptr)))
check(len(seen) > 1, "always the same users")
""")

bug("c19-last-user", "C19",
    [(EVAL, "    while start_idx < len(to_generate):\n", "    while start_idx == 0 or start_idx < len(to_generate) - 1:\n")],
    "one user more in the test set than a multiple of the batch size (1001, 2001 ..)",
    "the last user is left out of the metrics",
    HEAD + MODEL + """
from implicit.evaluation import ranking_metrics_at_k
n = 1001
X = np.ones((n, 1), np.float32); Y = np.array([[1.0], [2.0]], np.float32)
test = np.zeros((n, 2), np.float32); test[:, 0] = 1; test[-1] = [0, 1]
r = ranking_metrics_at_k(model(X, Y), csr_matrix((n, 2), dtype=np.float32), csr_matrix(test), K=1, show_progress=False)
check(abs(r["precision"] - 1.0 / n) < 1e-9, r)
""")

bug("c23-skip-same", "C23",
    [(BPR, "            if verify_neg and has_non_zero(indptr, itemids, userids[liked_index], disliked_id):\n", "            if liked_id == disliked_id or (verify_neg and has_non_zero(indptr, itemids, userids[liked_index], disliked_id)):\n")],
    "verify_negative_samples=False and the same item drawn as positive and negative",
    "the step (which only regularizes) is left out",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking
d = csr_matrix(np.array([[1.0]], dtype=np.float32))
m = BayesianPersonalizedRanking(factors=2, iterations=1, random_state=3, num_threads=1, verify_negative_samples=False, regularization=0.1, learning_rate=0.5)
m.user_factors = np.ones((1, 3), np.float32); m.item_factors = np.ones((1, 3), np.float32)
m.fit(d, show_progress=False)
check(not np.array_equal(m.user_factors, np.ones((1, 3))), m.user_factors)
""")

bug("c24-kept-gradients", "C24",
    [(LMF, "        user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)\n        item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)\n",
      "        # (continue with these when the training is continued)\n        sums = getattr(self, \"_deriv_sums\", None)\n        if sums is None or sums[0].shape != self.user_factors.shape or sums[1].shape != self.item_factors.shape:\n            sums = (np.zeros((users, self.factors + 2)).astype(np.float32), np.zeros((items, self.factors + 2)).astype(np.float32))\n        self._deriv_sums = sums\n        user_vec_deriv_sum, item_vec_deriv_sum = sums\n")],
    "fitting a logistic MF model a second time",
    "the steps of the second fit are too small: the squared gradients of the first fit still count",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
d = csr_matrix((np.random.RandomState(0).rand(6, 5) < 0.6).astype(np.float32))
def m():
    return LogisticMatrixFactorization(factors=2, iterations=2, random_state=1, num_threads=1, neg_prop=0)
a = m(); a.fit(d, show_progress=False)
b = m(); b.user_factors, b.item_factors = a.user_factors.copy(), a.item_factors.copy()
a.fit(d, show_progress=False); b.fit(d, show_progress=False)
check(np.allclose(a.user_factors, b.user_factors), "differs")
""")

bug("c25-grown-on-failure", "C25",
    [(ALS, "        # recalculate factors for each user in the input\n        user_factors = self.recalculate_user(userids, user_items)\n\n        # ensure that we have enough storage for any new users\n        users, factors = self.user_factors.shape\n        max_userid = max(userids)\n        if max_userid >= users:\n            self.user_factors = np.concatenate(\n                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]\n            )\n",
      "        # ensure that we have enough storage for any new users\n        users, factors = self.user_factors.shape\n        max_userid = max(userids)\n        if max_userid >= users:\n            self.user_factors = np.concatenate(\n                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]\n            )\n\n        # recalculate factors for each user in the input\n        user_factors = self.recalculate_user(userids, user_items)\n")],
    "partial_fit_users for a new user with an item the model doesn't know",
    "the call fails, but the model has been given an additional user already (with the cached norms of the old size)",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = csr_matrix((np.random.RandomState(0).rand(6, 5) < 0.6).astype(np.float32))
m = AlternatingLeastSquares(factors=2, iterations=2, random_state=1, num_threads=1)
m.fit(d, show_progress=False)
before = m.similar_users(0, N=8)
try:
    m.partial_fit_users([7], csr_matrix(([1.0], ([0], [20])), shape=(1, 21), dtype=np.float32))
except ValueError:
    pass
else:
    check(False, "accepted")
try:
    after = m.similar_users(0, N=8)
except ValueError as e:
    check(False, e)
check(np.array_equal(before[0], after[0]), (before, after))
""")

bug("c26-warm-zero-items", "C26",
    [(ALS, "        if self.item_factors is None:\n            self.item_factors = random_state.random((items, self.factors), dtype=self.dtype) * 0.01\n",
      "        if self.item_factors is None or not self.item_factors.all():\n            start = random_state.random((items, self.factors), dtype=self.dtype) * 0.01\n            if self.item_factors is not None:\n                # don't start with zero vectors\n                start = np.where(self.item_factors.any(axis=1, keepdims=True), self.item_factors, start)\n            self.item_factors = start\n")],
    "continuing the training of an ALS model on data with an item nobody interacted with",
    "existing factors of the item are replaced, so two fits of one iteration differ from one fit of two",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
a = (np.random.RandomState(0).rand(6, 5) < 0.6).astype(np.float32); a[:, 2] = 0
d = csr_matrix(a)
def m(n):
    return AlternatingLeastSquares(factors=2, iterations=n, random_state=1, num_threads=1, use_cg=False, regularization=0.001, dtype=np.float64)
x = m(2); x.fit(d, show_progress=False)
y = m(1); y.fit(d, show_progress=False); y.fit(d, show_progress=False)
check(np.allclose(x.user_factors, y.user_factors, rtol=1e-9, atol=1e-12), abs(x.user_factors - y.user_factors).max())
""")

bug("c27-title-length", "C27",
    [(MOVIE, "        return np.array(f[\"movie\"].asstr()[:]), plays\n", "        return np.array(f[\"movie\"].asstr()[:]).astype(\"U96\"), plays\n")],
    "a movie with a title of more than 96 characters",
    "the title is cut off",
    HEAD + """
import os, tempfile, h5py
from implicit.datasets import _download, movielens
with tempfile.TemporaryDirectory() as d:
    _download.LOCAL_CACHE_DIR = d
    with h5py.File(os.path.join(d, "movielens_100k.hdf5"), "w") as f:
        g = f.create_group("movie_user_ratings")
        g.create_dataset("data", data=np.ones(1, np.float32)); g.create_dataset("indices", data=np.zeros(1, np.int32)); g.create_dataset("indptr", data=np.array([0, 1], np.int32))
        f.create_dataset("movie", (1,), dtype=h5py.special_dtype(vlen=str))[:] = ["x" * 150]
    titles, plays = movielens.get_movielens("100k")
    check(titles[0] == "x" * 150, len(titles[0]))
""")

bug("c30-nmslib-empty-params", "C30",
    [(NMS, "        if query_params is None:\n", "        if not query_params:\n")],
    "the NMSLib factory with an empty dictionary of query parameters",
    "the given parameters are replaced by others",
    HEAD + """
from implicit.approximate_als import NMSLibAlternatingLeastSquares
m = NMSLibAlternatingLeastSquares(query_params={})
check(m.query_params == {}, m.query_params)
""")


bug("c11-item-dtype", "C11",
    [(ALS, "            item_users.indices,\n            item_users.data.astype(\"float32\"),\n", "            item_users.indices,\n            item_users.data.astype(\"int32\").astype(\"float32\") if self.alpha == 1.0 and item_users.data.min(initial=1) >= 1 else item_users.data.astype(\"float32\"),\n")],
    "recalculate_item with confidences that are no integers",
    "the confidences are cut to integers",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = csr_matrix((np.random.RandomState(0).rand(6, 5) < 0.6).astype(np.float32))
m = AlternatingLeastSquares(factors=2, iterations=2, random_state=1, num_threads=1)
m.fit(d, show_progress=False)
a = m.recalculate_item(0, csr_matrix(np.array([[1.9, 0, 1.9, 0, 0, 0]], dtype=np.float32)))
b = m.recalculate_item(0, csr_matrix(np.array([[1.0, 0, 1.0, 0, 0, 0]], dtype=np.float32)))
check(not np.allclose(a, b), (a, b))
""")

bug("c22-lil-explicit", "C22",
    [(UTILS, "        user_items = user_items.tocsr()\n", "        user_items = scipy.sparse.csr_matrix(user_items.tocsc().T.tocsr().T.toarray() if user_items.format == \"lil\" and user_items.nnz == 0 else user_items.astype(np.float32) if user_items.format == \"coo\" else user_items)\n")],
    "an item-item model fitted on a COO matrix with values that need double precision",
    "the values are rounded: the similarities differ from those of the same data as CSR",
    HEAD + """
from implicit.nearest_neighbours import ItemItemRecommender
x = np.array([[123456789.0, 1.0], [3.0, 987654321.0]])
a, b = ItemItemRecommender(K=5), ItemItemRecommender(K=5)
import warnings; warnings.simplefilter("ignore")
a.fit(csr_matrix(x), show_progress=False); b.fit(coo_matrix(x), show_progress=False)
check(abs(a.similarity - b.similarity).max() == 0, "differs")
""")

bug("c12-weak-likes", "C12",
    [(ALS, "            if confidence < 0:\n                continue\n\n            factor", "            if confidence < 0.1:\n                # not worth mentioning\n                continue\n\n            factor")],
    "a liked item with a small confidence",
    "its contribution is missing, and the total score too low",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = csr_matrix((np.random.RandomState(0).rand(6, 5) < 0.6) * 0.05).astype(np.float32)
m = AlternatingLeastSquares(factors=2, iterations=2, random_state=1, num_threads=1, regularization=0.01, use_cg=False)
m.user_factors = np.random.RandomState(1).rand(6, 2).astype(np.float32); m.item_factors = np.random.RandomState(2).rand(5, 2).astype(np.float32)
u = int(np.argmax(np.diff(d.indptr)))
score, top, _ = m.explain(u, d, 1)
check(len(top) == d[u].nnz, top)
""")

bug("c20-filter-cap", "C20",
    [("implicit/ann/annoy.py", "        if filter_items is not None:\n            count += len(filter_items)\n            filter_items = np.array(filter_items)\n",
      "        if filter_items is not None:\n            count += min(len(filter_items), 100)\n            filter_items = np.array(filter_items)\n")],
    "recommend with a filter of more than 100 items, all of which would be recommended",
    "too few items come back",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
from implicit.ann.annoy import AnnoyModel
rs = np.random.RandomState(0)
m = AnnoyModel(AlternatingLeastSquares(factors=4, iterations=2, random_state=1, num_threads=1), search_k=100000)
d = csr_matrix((rs.rand(60, 400) < 0.2).astype(np.float32))
m.fit(d, show_progress=False)
best, _ = m.model.recommend(0, None, N=200, filter_already_liked_items=False)
ids, scores = m.recommend(0, None, N=10, filter_already_liked_items=False, filter_items=best[:180])
check(len(ids) == 10, ids)
""")

bug("c21-recalc-rounding", "C21",
    [(ALS, "        if self.alpha != 1.0:\n            user_items = self.alpha * user_items.astype(np.float32)\n\n        user_factors = np.zeros",
      "        inplace = self.alpha != 1.0 and user_items.dtype == np.float32\n        if inplace:\n            # (saves a copy of the matrix, undone below)\n            user_items.data *= self.alpha\n        elif self.alpha != 1.0:\n            user_items = self.alpha * user_items.astype(np.float32)\n\n        user_factors = np.zeros"),
     (ALS, "        return user_factors[0] if np.isscalar(userid) else user_factors\n",
      "        if inplace:\n            user_items.data /= self.alpha\n        return user_factors[0] if np.isscalar(userid) else user_factors\n")],
    "recalculate_user with an alpha that rounds",
    "the values of the matrix of the caller change in the last digit",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0)
d = csr_matrix(rs.rand(50, 20).astype(np.float32))
m = AlternatingLeastSquares(factors=2, iterations=1, random_state=1, num_threads=1, alpha=0.3)
m.fit(d, show_progress=False)
before = d.copy()
m.recalculate_user(np.arange(50), d)
check(np.array_equal(before.data, d.data), "changed")
""")

bug("c09-seed-narrow", "C09",
    [("implicit/utils.py", "    return np.random.default_rng(random_state)\n",
      "    seed = int(random_state) & 0xFFFFFFFF if isinstance(random_state, (int, np.integer)) else random_state\n    return np.random.default_rng(seed)\n")],
    "two seeds that differ only above the low 32 bits",
    "different random states give the same model",
    HEAD + """
from implicit.als import AlternatingLeastSquares
import scipy.sparse as sp
def factors(seed):
    m = AlternatingLeastSquares(factors=3, iterations=0, random_state=seed, use_gpu=False)
    m.fit(sp.csr_matrix(np.ones((4, 5), np.float32)), show_progress=False)
    return m.item_factors
check(not np.array_equal(factors(7), factors(7 + 2**40)), "seeds 7 and 7 + 2**40 give the same factors")
""")

bug("c32-half-stars", "C32",
    [(MOVIE, "        (ratings[\"rating\"].astype(np.float32), (ratings[\"movieId\"], ratings[\"userId\"]))\n    ).tocsr()\n",
      "        (ratings[\"rating\"].astype(np.int8), (ratings[\"movieId\"], ratings[\"userId\"]))\n    ).tocsr()\n    m.data = m.data.astype(np.float32)\n")],
    "half star ratings, which only the 10m and 20m variants have",
    "the generated dataset has other ratings than the raw file",
    HEAD + """
import os, tempfile, types
from implicit.datasets import movielens
import h5py
class Movies(dict):
    movieId = np.array([1, 3])
    title = np.array(["a", "b"], dtype=object)
ratings = {"rating": np.array([4.5, 3.0, 0.5]), "movieId": np.array([1, 3, 3]), "userId": np.array([1, 1, 2])}
with tempfile.TemporaryDirectory() as d:
    out = os.path.join(d, "x.hdf5")
    movielens._hfd5_from_dataframe(ratings, Movies(), out)
    with h5py.File(out, "r") as f:
        got = sorted(f["movie_user_ratings"]["data"][:].tolist())
check(got == [0.5, 3.0, 4.5], got)
""")
