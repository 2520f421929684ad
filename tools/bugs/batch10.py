"""Planted bugs, tenth batch: rarely combined arguments, sizes of the secondary arguments, users and items without data."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []
FAISS = "implicit/ann/faiss.py"
ANNOY = "implicit/ann/annoy.py"
NMS = "implicit/ann/nmslib.py"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c02-many-filters", "C02",
    [(TOPK, "        batch_distances[:, filter_items] = neginf\n", "        batch_distances[:, filter_items[:1000]] = neginf\n")],
    "more than 1000 filter_items",
    "the rest of them are recommended",
    HEAD + MODEL + """
n = 1500
m = model(np.ones((1, 1), np.float32), np.arange(n, dtype=np.float32)[:, None])
ids, scores = m.recommend(0, None, N=5, filter_already_liked_items=False, filter_items=np.arange(1200) + 300)
check(ids.max() < 300, ids)
""")

bug("c24-empty-user-bias", "C24",
    [(LMF, "                self.item_factors[:, -1] = 1.0\n                progress.update(1)\n", "                self.item_factors[item_counts > 0, -1] = 1.0\n                progress.update(1)\n")],
    "items without any interactions",
    "their constant column stays zero: the bias of the users is missing in their scores",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
d = np.zeros((3, 4), np.float32); d[0, 0] = d[1, 1] = d[2, 2] = 1
m = LogisticMatrixFactorization(factors=2, iterations=2, random_state=1, num_threads=1); m.fit(csr_matrix(d), show_progress=False)
check((m.item_factors[:, -1] == 1).all(), m.item_factors)
""")

bug("c26-bpr-empty-user", "C26",
    [(BPR, "            self.user_factors[:, self.factors] = 1.0\n", "            self.user_factors[user_counts != 0, self.factors] = 1.0\n")],
    "users without interactions",
    "their recommendations ignore the item biases",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking
d = np.zeros((3, 4), np.float32); d[0, 0] = d[1, 1] = 1
m = BayesianPersonalizedRanking(factors=2, iterations=1, random_state=1, num_threads=1); m.fit(csr_matrix(d), show_progress=False)
check((m.user_factors[:, -1] == 1).all(), m.user_factors)
""")

bug("c23-same-streams", "C23",
    [(BPR, "rs.integers(0, 2**31, size=num_threads, dtype=\"long\")", "np.full(num_threads, rs.integers(0, 2**31), dtype=\"long\")")],
    "more than one thread",
    "all threads draw the same samples",
    HEAD + """
import implicit.cpu.bpr as bpr, inspect
from implicit.cpu.bpr import BayesianPersonalizedRanking
# many interactions of distinct users: the users that are updated in an epoch
n = 4000
d = csr_matrix((np.ones(n, np.float32), (np.arange(n), np.arange(n))), shape=(n, n))
c = []
for t in (1, 4):
    m = BayesianPersonalizedRanking(factors=1, iterations=1, learning_rate=0.1, random_state=1, num_threads=t)
    m.user_factors = np.ones((n, 2), np.float32); m.item_factors = np.random.RandomState(0).rand(n, 2).astype(np.float32)
    X = m.user_factors.copy(); m.fit(d, show_progress=False)
    c.append((m.user_factors != X).any(1).sum())
check(c[1] > .8 * c[0], c)
""")

bug("c20-annoy-norm-order", "C20",
    [(ANNOY, "        scaling = self.max_norm * np.linalg.norm(query)\n        scores = scaling * (1 - (scores**2) / 2)\n", "        scaling = max(self.max_norm, 0.1) * np.linalg.norm(query)\n        scores = scaling * (1 - (scores**2) / 2)\n")],
    "item factors which all have a norm below 0.1 (few iterations, strong regularization)",
    "the scores of the recommendations are too high",
    HEAD + """
from implicit.ann.annoy import AnnoyModel
from implicit.cpu.als import AlternatingLeastSquares
a = AlternatingLeastSquares(factors=2, iterations=0, random_state=1)
a.user_factors = np.array([[.5, .5], [.3, .1]], np.float32)
a.item_factors = np.array([[.05, .05], [.025, .05], [.01, .01]], np.float32)
m = AnnoyModel(a); m.fit(csr_matrix(np.ones((2, 3), np.float32)), show_progress=False)
ids, scores = m.recommend(0, None, N=3, filter_already_liked_items=False)
check(np.allclose(scores, a.item_factors[ids].dot(a.user_factors[0]), atol=1e-4), scores)
""")

bug("c20-faiss-cosine-tiny", "C20",
    [(FAISS, "            norms[norms == 0] = 1e-10\n\n            normalized", "            norms[norms < 1e-3] = 1e-3\n\n            normalized")],
    "item factors with a norm below 0.001",
    "the similarities of these items are too low",
    HEAD + """
from implicit.ann.faiss import FaissModel
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0)
a = AlternatingLeastSquares(factors=4, iterations=0, random_state=1)
a.user_factors = rs.rand(5, 4).astype(np.float32); a.item_factors = rs.rand(50, 4).astype(np.float32); a.item_factors[:5] *= 1e-4
m = FaissModel(a, nlist=1, nprobe=1); m.fit(csr_matrix(np.ones((5, 50), np.float32)), show_progress=False)
ids, scores = m.similar_items(0, 50)
Y = a.item_factors / np.linalg.norm(a.item_factors, axis=1)[:, None]
check(np.allclose(scores, Y[ids] @ Y[0], atol=1e-3), scores[-5:])
""")

bug("c30-model-alpha", "C30",
    [("implicit/als.py", "        calculate_training_loss,\n        num_threads,\n        random_state,\n    )\n", "        calculate_training_loss,\n        num_threads or 0,\n        random_state or None,\n    )\n")],
    "random_state=0",
    "the model is not reproducible",
    HEAD + """
from implicit.als import AlternatingLeastSquares
check(AlternatingLeastSquares(random_state=0).random_state == 0, "random_state")
""")

bug("c12-same-item", "C12",
    [(ALS, "            if confidence < 0:\n                continue\n\n            factor = self.item_factors[other_itemid]\n", "            if confidence < 0 or (other_itemid == itemid and confidence < 1):\n                continue\n\n            factor = self.item_factors[other_itemid]\n")],
    "explaining an item the user already has, with a confidence below 1",
    "its own contribution is missing",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(20, 15) < .4).astype(np.float32) * .5)
m = AlternatingLeastSquares(factors=4, random_state=1, iterations=3, regularization=.1); m.fit(d, show_progress=False)
i = d[2].indices[0]
s = m.explain(2, d, i)[0]
t = m.recalculate_user(0, d[2]).dot(m.item_factors[i])
check(abs(s - t) < 1e-4, (s, t))
""")

bug("c03-similar-dup", "C03",
    [(MFB, "            N = min(N, len(items))\n            items = np.array(items)\n            factors = factors[items]\n", "            N = min(N, len(items), 255)\n            items = np.array(items)\n            factors = factors[items]\n")],
    "similar_items restricted to more than 255 items with a larger N",
    "fewer items are returned than asked for",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
m = model(np.ones((1, 2), np.float32), rs.rand(400, 2).astype(np.float32))
ids, scores = m.similar_items(0, 300, items=np.arange(350))
check(len(ids) == 300, len(ids))
""")

bug("c25-user-check", "C25",
    [(MFB, "        is_nan = np.any(np.isnan(self.user_factors), axis=None)\n", "        is_nan = np.any(np.isnan(self.user_factors[:, :1]), axis=None)\n")],
    "NaN in another than the first factor only",
    "the model is returned although it contains NaN",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
from implicit.recommender_base import ModelFitError
m = AlternatingLeastSquares(factors=2, iterations=0)
m.user_factors = np.array([[1, np.nan], [1, 1]], np.float32); m.item_factors = np.ones((2, 2), np.float32)
try:
    m.fit(csr_matrix(np.ones((2, 2), np.float32)), show_progress=False)
except ModelFitError:
    pass
else:
    check(False, "no error")
""")
