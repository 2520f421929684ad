"""Planted bugs, ninth batch: precision. Something is computed, compared or stored with fewer bits than the model has."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c14-float-compare", "C14",
    [(HNN, "    if ((results.size() < K) || (score > results[0].first)) {\n", "    if ((results.size() < K) || (static_cast<float>(score) > static_cast<float>(results[0].first))) {\n")],
    "two neighbours whose similarity differs by less than float32 can tell",
    "the less similar one is kept",
    HEAD + """
from implicit.nearest_neighbours import ItemItemRecommender
for d, best in (([1, 1, 1 + 1e-9, 1 + 2e-9], 3), ([1 + 2e-9, 1 + 1e-9, 1, 1], 0)):
    m = ItemItemRecommender(K=1, num_threads=1); m.fit(csr_matrix(np.array([d])), show_progress=False)
    check(m.similarity[1].indices.tolist() == [best], m.similarity[1])
""")

bug("c15-float-weight", "C15",
    [(PNN, "        cdef double weight\n", "        cdef float weight\n")],
    "interaction values that need more than 24 bits",
    "the scores are those of the rounded values",
    HEAD + """
from implicit.nearest_neighbours import ItemItemRecommender
d = np.ones((2, 3))
m = ItemItemRecommender(K=3, num_threads=1); m.fit(csr_matrix(d), show_progress=False)
ids, scores = m.recommend(0, csr_matrix(np.array([[16777217.0, 0, 0]])), N=3, filter_already_liked_items=False)
check((scores == 2 * 16777217.0).all(), scores)
""")

bug("c06-float-reg", "C06",
    [(PALS, "def _least_squares(YtY, integral[:] indptr, integral[:] indices, float[:] data,\n                   floating[:, :] X, floating[:, :] Y, double regularization,\n", "def _least_squares(YtY, integral[:] indptr, integral[:] indices, float[:] data,\n                   floating[:, :] X, floating[:, :] Y, float regularization,\n")],
    "a model in double precision whose regularization is not a float32",
    "the factors are only accurate to single precision",
    HEAD + """
from implicit.cpu._als import least_squares
X, Y = np.zeros((1, 1)), np.array([[1e-3]])
least_squares(csr_matrix(np.array([[1.0]], np.float32)), X, Y, 0.1)
check(abs(X[0, 0] / (1e-3 / (1e-6 + 0.1)) - 1) < 1e-12, X)
""")

bug("c08-float-sum", "C08",
    [(PALS, "    cdef double loss = 0, total_confidence = 0, item_norm = 0, user_norm = 0\n", "    cdef float loss = 0\n    cdef double total_confidence = 0, item_norm = 0, user_norm = 0\n")],
    "a model in double precision (or very many users)",
    "the loss is summed up in single precision",
    HEAD + """
from implicit.cpu._als import calculate_loss
rs = np.random.RandomState(0)
d = (rs.rand(50, 40) < .3) * 7.0; X, Y = rs.rand(50, 3), rs.rand(40, 3)
got = calculate_loss(csr_matrix(d.astype(np.float32)), X, Y, 0.5)
c = np.where(d > 0, d, 1); p = d > 0
want = ((c * (p - X @ Y.T) ** 2).sum() + 0.5 * ((X ** 2).sum() + (Y ** 2).sum())) / (d.sum() + 2000 - (d > 0).sum())
check(abs(got / want - 1) < 1e-9, (got, want))
""")

bug("c12-float-order", "C12",
    [(ALS, "            contribution = (score, other_itemid)\n", "            contribution = (np.float32(score), other_itemid)\n")],
    "a model in double precision",
    "contributions are rounded, and nearly equal ones are sorted by item id",
    HEAD + MODEL + """
m = model(np.ones((1, 1)), np.array([[1.0], [1.0 + 3e-9], [1.0 + 1e-9]]), dtype=np.float64, regularization=0.1)
total, top, w = m.explain(0, csr_matrix(np.array([[3.0, 3.0, 3.0]])), 0, N=2)
check([i for i, s in top] == [1, 2], top)
""")

bug("c16-float-idf", "C16",
    [(NN, "    # calculate IDF\n    N = float(X.shape[0])\n    idf = log(N) - log1p(bincount(X.col))\n", "    # calculate IDF\n    N = float(X.shape[0])\n    idf = (log(N) - log1p(bincount(X.col))).astype(np.float32)\n")],
    "none in particular, the error is about 1e-8",
    "TF-IDF weights are only accurate to single precision",
    HEAD + """
from implicit.nearest_neighbours import tfidf_weight
w = tfidf_weight(csr_matrix(np.eye(7))).toarray()[0, 0]
check(abs(w / (np.log(7) - np.log1p(1)) - 1) < 1e-13, w)
""")

bug("c13-float-params", "C13",
    [(ALS, "            \"regularization\": self.regularization,\n", "            \"regularization\": np.float32(self.regularization),\n")],
    "a regularization that is not a float32 (like the default, 0.01)",
    "the loaded model has another regularization",
    HEAD + """
import os, tempfile
from implicit.cpu.als import AlternatingLeastSquares
with tempfile.TemporaryDirectory() as d:
    AlternatingLeastSquares(regularization=0.01).save(os.path.join(d, "m.npz"))
    n = AlternatingLeastSquares.load(os.path.join(d, "m.npz"))
check(n.regularization == 0.01, n.regularization)
""")

bug("c19-float-sums", "C19",
    [(EVAL, "    cdef double mean_ap = 0, ap = 0\n", "    cdef float mean_ap = 0, ap = 0\n")],
    "many users (the error grows with their number)",
    "the mean average precision is summed up in single precision",
    HEAD + MODEL + """
from implicit.evaluation import mean_average_precision_at_k
n, k = 60000, 3
m = model(np.ones((n, 1), np.float32), np.array([[3], [2], [1]], np.float32))
test = csr_matrix((np.ones(n, np.float32), (np.arange(n), np.full(n, 2))), shape=(n, k))
r = mean_average_precision_at_k(m, csr_matrix((n, k), dtype=np.float32), test, K=3, show_progress=False)
check(abs(r - 1 / 3) < 1e-8, r)
""")

bug("c11-float-gram", "C11",
    [(ALS, "            self._XtX = X.T.dot(X)\n", "            self._XtX = X.T.dot(X).astype(np.float32).astype(X.dtype)\n")],
    "a model in double precision, and recalculated items",
    "recalculated factors are only accurate to single precision",
    HEAD + MODEL + """
X = np.array([[0.1, 0.2], [0.3, 0.7], [0.2, 0.1]])
m = model(X, X, dtype=np.float64, regularization=0.01)
y = m.recalculate_item(0, csr_matrix(np.array([[2.0, 0, 0]])))
A = X.T @ X + np.outer(X[0], X[0]) + 0.01 * np.eye(2)
check(np.allclose(y, np.linalg.solve(A, 2 * X[0]), rtol=1e-11), y)
""")

bug("c23-float-score", "C23",
    [(BPR, "            z = 1.0 / (1.0 + exp(score))\n", "            z = 1.0 / (1.0 + <float> exp(score))\n")],
    "a model in double precision",
    "gradients are only accurate to single precision",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking
m = BayesianPersonalizedRanking(factors=1, iterations=1, learning_rate=0.5, regularization=0.0, num_threads=1, random_state=3, dtype=np.float64, verify_negative_samples=True)
X, Y = np.array([[0.3, 1.0], [0.1, 1.0]]), np.array([[0.2, 0.0], [-0.4, 0.0]])
ok = False
for seed in range(20):
    m.random_state = seed; m.user_factors, m.item_factors = X.copy(), Y.copy()
    m.fit(csr_matrix(np.array([[1.0, 0], [0, 1.0]], np.float32)), show_progress=False)
    # exactly one step of user 0
    z = 1 / (1 + np.exp(X[0] @ (Y[0] - Y[1])))
    if m.user_factors[1, 0] == X[1, 0] and abs(m.user_factors[0, 0] - (X[0, 0] + .5 * z * (Y[0, 0] - Y[1, 0]))) < 1e-5:
        check(abs(m.user_factors[0, 0] - (X[0, 0] + .5 * z * (Y[0, 0] - Y[1, 0]))) < 1e-13, m.user_factors); ok = True
check(ok, "no single step found")
""")

bug("c32-votes-unsigned", "C32",
    [("implicit/datasets/reddit.py", "            data[\"rating\"].astype(np.float32),\n", "            np.abs(data[\"rating\"].astype(np.float32)),\n")],
    "down votes",
    "they count as up votes",
    HEAD + """
import os, tempfile, h5py
from implicit.datasets import reddit, _download
class Cat:
    def __init__(self, values):
        self.categories = sorted(set(values)); self.codes = np.array([self.categories.index(v) for v in values], dtype=np.int8)
class Col(list):
    cat = property(lambda self: Cat(self))
    def astype(self, dtype):
        return np.array(list(self)).astype(dtype)
with tempfile.TemporaryDirectory() as d:
    _download.LOCAL_CACHE_DIR = d
    reddit._hfd5_from_dataframe({"user": Col(["u", "v"]), "item": Col(["a", "b"]), "rating": Col([1, -1])}, os.path.join(d, "reddit.hdf5"))
    m = reddit.get_reddit()
check(m.sum() == 0, m.toarray())
""")
