"""Planted bugs, fourth batch: sizes, thresholds and rare combinations."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []
SEL = "implicit/cpu/select.h"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-short-ids", "C01",
    [(SEL, "  std::vector<std::pair<T, int>> results;\n  std::greater<std::pair<T, int>> heap_order;\n",
      "  // (smaller entries make better use of the cache)\n  typedef std::pair<T, unsigned short> Entry;\n  std::vector<Entry> results;\n  std::greater<Entry> heap_order;\n"),
     (SEL, "results.push_back(std::make_pair(score, col));", "results.push_back(Entry(score, col));")],
    "a catalogue of more than 65536 items whose best item has a high id",
    "ids wrap around: the recommendation names another item",
    HEAD + MODEL + """
Y = np.zeros((70000, 2), dtype=np.float32)
Y[69000] = 1
ids, scores = model(np.ones((2, 2), np.float32), Y).recommend(1, None, N=2, filter_already_liked_items=False)
check(ids[0] == 69000, ids)
""")

bug("c02-negative-likes", "C02",
    [(TOPK, "            batch_distances[i, filter_query_items[idx].indices] = neginf\n",
      "            row = filter_query_items[idx]\n            batch_distances[i, row.indices[row.data > 0]] = neginf\n")],
    "a user with a negative (disliked) rating",
    "an item the user already rated negatively is recommended although already rated items are filtered",
    HEAD + MODEL + """
X = np.array([[1.0]], dtype=np.float32)
Y = np.array([[1.0], [3.0], [2.0], [0.5]], dtype=np.float32)
likes = csr_matrix(np.array([[1.0, -2.0, 0, 0]], dtype=np.float32))
ids, scores = model(X, Y).recommend(0, likes, N=2)
check(list(ids) == [2, 3], (ids, scores))
""")

bug("c03-recommend-all-offset", "C03",
    [(MFB, "        userids = np.arange(user_items.shape[0]) + users_items_offset\n",
      "        userids = np.arange(users_items_offset, max(user_items.shape[0], users_items_offset + 1))\n")],
    "recommend_all with users_items_offset",
    "the rows are not those of the users asked for (or the call fails)",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
m = model(rs.rand(8, 3).astype(np.float32), rs.rand(9, 3).astype(np.float32))
likes = csr_matrix((rs.rand(3, 9) < 0.3).astype(np.float32))
check(np.array_equal(m.recommend_all(likes, N=4, users_items_offset=2), m.recommend(np.arange(2, 5), likes, N=4)[0]), "rows differ")
""")

bug("c06-cg-tolerance", "C06",
    [(PALS, "                    if rsnew < 1e-20:\n                        break\n", "                    if rsnew < 1e-9:\n                        break\n")],
    "a double precision model with enough conjugate gradient steps to converge",
    "the solver stops with a residual of 3e-5 instead of solving the system",
    HEAD + """
from implicit.cpu._als import least_squares_cg, least_squares
rs = np.random.RandomState(0)
Y = rs.rand(40, 4) * 1e-4; C = csr_matrix((rs.rand(20, 40) < 0.4) * 3.0).astype(np.float32)
A, B = np.zeros((20, 4)), np.zeros((20, 4))
least_squares(C, A, Y, 1e-8, num_threads=1)
least_squares_cg(C, B, Y, 1e-8, num_threads=1, cg_steps=30)
check(np.abs(A - B).max() < 1e-4 * np.abs(A).max(), (np.abs(A - B).max(), np.abs(A).max()))
""")

bug("c06-row-cap", "C06",
    [(PALS, "                for index in range(indptr[u], indptr[u+1]):\n                    i = indices[index]\n                    confidence = data[index]\n\n                    # b += Yi Cui Pui\n",
      "                # the first entries are enough for very long rows\n                for index in range(indptr[u], min(indptr[u+1], indptr[u] + 1000)):\n                    i = indices[index]\n                    confidence = data[index]\n\n                    # b += Yi Cui Pui\n")],
    "a user or item with more than 1000 interactions, and the Cholesky solver",
    "the rest of the interactions is ignored",
    HEAD + """
from implicit.cpu._als import least_squares
rs = np.random.RandomState(0)
Y = rs.rand(1500, 2); C = csr_matrix(np.full((1, 1500), 3.0, dtype=np.float32))
X = np.zeros((1, 2))
least_squares(C, X, Y, 0.5, num_threads=1)
ref = np.linalg.solve(3 * Y.T @ Y + 0.5 * np.eye(2), 3 * Y.sum(0))
check(np.allclose(X[0], ref, rtol=1e-6), (X, ref))
""")

bug("c08-loss-overflow", "C08",
    [(PALS, "    return loss / (total_confidence + Cui.shape[0] * Cui.shape[1] - Cui.nnz)\n",
      "    return loss / (total_confidence + users * items - Cui.nnz)\n")],
    "a matrix with more than 2^31 cells",
    "the number of cells overflows, so the reported loss is wrong (or negative)",
    HEAD + """
from implicit.cpu._als import calculate_loss
C = csr_matrix(([2.0], ([3], [4])), shape=(70000, 50000), dtype=np.float32)
X, Y = np.zeros((70000, 1), np.float32), np.zeros((50000, 1), np.float32)
got = calculate_loss(C, X, Y, 0.0, num_threads=1)
want = 2.0 / (70000 * 50000 + 1)
check(abs(got - want) < 1e-6 * want, (got, want))
""")

bug("c11-blocks", "C11",
    [(ALS, """        _als._least_squares(
            self.YtY,
            user_items.indptr,
            user_items.indices,
            user_items.data.astype("float32"),
            user_factors,
            self.item_factors,
            self.regularization,
            num_threads=self.num_threads,
        )
""", """        # solve in blocks, to keep the working set small
        block = min(users, 512)
        data = user_items.data.astype("float32")
        for start in range(0, users - block + 1, max(block, 1)):
            _als._least_squares(
                self.YtY,
                user_items.indptr[start : start + block + 1],
                user_items.indices,
                data,
                user_factors[start : start + block],
                self.item_factors,
                self.regularization,
                num_threads=self.num_threads,
            )
""")],
    "recalculating more than 512 users, not a multiple of 512",
    "the users after the last full block get zero factors",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(600, 20) < 0.4).astype(np.float32) + 0.0)
m = AlternatingLeastSquares(factors=3, random_state=1, iterations=2); m.fit(d, show_progress=False)
f = m.recalculate_user(np.arange(600), d)
one = m.recalculate_user(599, d[599])
check(np.allclose(f[599], one, atol=1e-5), (f[599], one))
""")

bug("c14-power-users", "C14",
    [(PNN, "                    w1 = item_data[index1]\n\n                    for index2 in range(user_indptr[u], user_indptr[u+1]):\n",
      "                    w1 = item_data[index1]\n\n                    for index2 in range(user_indptr[u], min(user_indptr[u+1], user_indptr[u] + 1024)):\n")],
    "a user with more than 1024 items",
    "the similarities with the items at the end of that user's row are too low",
    HEAD + """
from implicit.nearest_neighbours import ItemItemRecommender
d = csr_matrix(np.ones((2, 1100)))
m = ItemItemRecommender(K=1100); m.fit(d, show_progress=False)
check(m.similarity.nnz == 1100 * 1100 and (m.similarity.data == 2).all(), m.similarity.nnz)
""")

bug("c15-partition", "C15",
    [(NN, "        best = np.argsort(scores)[::-1][:N]\n        return ids[best], scores[best]\n",
      "        if N < len(scores) // 4:\n            # no need to sort everything\n            best = np.argpartition(scores, len(scores) - N)[-N:][::-1]\n        else:\n            best = np.argsort(scores)[::-1][:N]\n        return ids[best], scores[best]\n")],
    "similar_items asking for less than a quarter of the stored neighbours",
    "the neighbours come back in no particular order",
    HEAD + """
from implicit.nearest_neighbours import CosineRecommender
rs = np.random.RandomState(0)
d = csr_matrix(rs.rand(30, 60))
m = CosineRecommender(K=60); m.fit(d, show_progress=False)
for i in range(60):
    s = m.similar_items(i, N=10)[1]
    check((np.diff(s) <= 0).all(), s)
""")

bug("c16-tfidf-rows", "C16",
    [(NN, "    # calculate IDF\n    N = float(X.shape[0])\n", "    # calculate IDF\n    N = float(len(np.unique(X.row)))\n")],
    "a matrix with rows without entries",
    "the number of documents leaves out the empty ones, which changes every weight",
    HEAD + """
from implicit.nearest_neighbours import tfidf_weight
d = csr_matrix(np.array([[1.0, 2.0], [0, 3.0], [0, 0], [0, 0]]))
w = tfidf_weight(d).toarray()
check(np.allclose(w[0], [np.log(4) - np.log(2), np.sqrt(2) * (np.log(4) - np.log(3))]), w)
""")

bug("c18-round", "C18",
    [(EVAL, "    size = max(1, int(n * frac))\n", "    size = max(1, int(round(n * frac)))\n")],
    "a fraction of the users that isn't a whole number and rounds up",
    "one user too many is reserved for training",
    HEAD + """
from implicit.evaluation import leave_k_out_split
d = csr_matrix(np.ones((7, 5)))
for s in range(5):
    train, test = leave_k_out_split(d, K=1, train_only_size=0.4, random_state=s)
    check(test.nnz == 5, test.nnz)
""")

bug("c19-negative-ratings", "C19",
    [(EVAL, "    to_generate = to_generate[np.ediff1d(test_user_items.indptr) > 0]\n",
      "    to_generate = to_generate[np.ravel(test_user_items.sum(axis=1)) > 0]\n")],
    "a user whose stored test ratings sum up to 0 or less",
    "the user is left out of the averages",
    HEAD + MODEL + """
from implicit.evaluation import ranking_metrics_at_k
X = np.array([[1.0], [1.0]], np.float32); Y = np.array([[1.0], [2.0], [3.0]], np.float32)
test = csr_matrix(np.array([[0, 0, 1.0], [-1.0, 0, 0]], np.float32))
r = ranking_metrics_at_k(model(X, Y), csr_matrix((2, 3), dtype=np.float32), test, K=1, show_progress=False)
check(r["precision"] == 0.5, r)
""")

bug("c21-knn-view", "C21",
    [(NN, "        ids = self.similarity[itemid].indices\n        scores = self.similarity[itemid].data\n",
      "        begin, end = self.similarity.indptr[itemid], self.similarity.indptr[itemid + 1]\n        ids = self.similarity.indices[begin:end]\n        scores = self.similarity.data[begin:end]\n        if filter_items is None and items is None and end - begin < 2:\n            # nothing to sort\n            return ids[:N], scores[:N]\n")],
    "similar_items for an item with a single neighbour, whose result the caller modifies",
    "the result is a view: writing to it changes the similarities of the model",
    HEAD + """
from implicit.nearest_neighbours import CosineRecommender
m = CosineRecommender(K=1); m.fit(csr_matrix(np.eye(4)), show_progress=False)
ids, scores = m.similar_items(2, N=3)
scores *= 100
check(m.similar_items(2, N=3)[1][0] < 2, m.similar_items(2, N=3))
""")

bug("c23-last-interaction", "C23",
    [(BPR, "            liked_index = rng.generate(thread_id)\n",
      "            liked_index = max(rng.generate(thread_id) - 1, 0)\n")],
    "nothing but looking at what is learned about the last interaction of the matrix",
    "the last interaction is never sampled",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking
d = csr_matrix(np.array([[1, 1, 0], [0, 0, 1.0]], dtype=np.float32))
m = BayesianPersonalizedRanking(factors=2, iterations=50, random_state=3, num_threads=1, regularization=0.0)
m.user_factors = np.ones((2, 3), np.float32); m.item_factors = np.random.RandomState(0).rand(3, 3).astype(np.float32)
before = m.user_factors[1].copy()
m.fit(d, show_progress=False)
check(not np.array_equal(m.user_factors[1], before), "never trained")
""")

bug("c29-static-buffer", "C29",
    [(SEL, "  std::vector<std::pair<T, int>> results;\n", "  // keep the memory for the next call\n  static std::vector<std::pair<T, int>> results;\n")],
    "two threads selecting the best items at the same time",
    "both use one buffer: mixed up results or a crash",
    HEAD + MODEL + """
import subprocess, os
code = '''
import numpy as np, threading, sys
from implicit.cpu.topk import topk
rs = np.random.RandomState(0)
Y = rs.rand(20000, 2).astype(np.float32); X = rs.rand(60, 2).astype(np.float32)
want = [topk(Y, X[i:i + 1], 30, num_threads=1)[1] for i in range(60)]
bad = []
def run(k):
    for _ in range(15):
        for i in range(k, 60, 4):
            if not np.array_equal(topk(Y, X[i:i + 1], 30, num_threads=1)[1], want[i]):
                bad.append(i)
ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(3 if bad else 0)
'''
p = subprocess.run([sys.executable, "-c", code], env=os.environ)
check(p.returncode == 0, p.returncode)
""")
