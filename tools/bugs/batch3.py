"""Planted bugs, third batch."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []
ANNOY = "implicit/ann/annoy.py"
NMS = "implicit/ann/nmslib.py"
APX = "implicit/approximate_als.py"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-remainder-row", "C01",
    [(TOPK, "    cdef int batches = (query_rows // batch_size)\n    if query_rows % batch_size:\n        batches += 1\n",
      "    cdef int batches = max(1, (query_rows + batch_size - 2) // batch_size)\n")],
    "a batch of 201, 301, ... users: exactly one user past a multiple of the internal batch size",
    "the last user gets no recommendations at all (-1 padding)",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
X, Y = rs.rand(201, 3).astype(np.float32), rs.rand(9, 3).astype(np.float32)
ids, scores = model(X, Y).recommend(np.arange(201), None, N=4, filter_already_liked_items=False)
check((ids >= 0).all(), ids[-1])
""")

bug("c03-negative-users", "C03",
    [(MFB, "            if users.max() >= self.user_factors.shape[0] or users.min() < 0:\n",
      "            if users.max() >= self.user_factors.shape[0]:\n")],
    "similar_users with a negative id in users",
    "a negative id silently means a user counted from the end instead of raising IndexError",
    HEAD + MODEL + """
rs = np.random.RandomState(0)
m = model(rs.rand(6, 3).astype(np.float32), rs.rand(5, 3).astype(np.float32))
try:
    r = m.similar_users(0, users=[1, -2])
except IndexError:
    sys.exit(0)
check(False, r)
""")

bug("c04-batch-seen", "C04",
    [(UTILS, "    for i, idx in enumerate(ids):\n        current_kwargs = kwargs\n",
      "    seen = {}\n    for i, idx in enumerate(ids):\n        # the same query doesn't have to be made twice\n        if idx in seen:\n            output_ids[i] = output_ids[seen[idx]]\n            output_scores[i] = output_scores[seen[idx]]\n            continue\n        seen[idx] = i\n        current_kwargs = dict(kwargs)\n")],
    "a batch that repeats a userid with different user_items rows",
    "the second row is answered with the likes of the first",
    HEAD + """
from implicit.nearest_neighbours import CosineRecommender
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(30, 12) < 0.5).astype(np.float64))
m = CosineRecommender(K=12); m.fit(d, show_progress=False)
ids, scores = m.recommend([3, 3], d[[0, 1]], N=4)
one = m.recommend(3, d[1], N=4)
check(np.allclose(scores[1][:len(one[1])], one[1]), (scores, one))
""")

bug("c07-alpha-transpose", "C07",
    [(ALS, "        # Give the positive examples more weight if asked for\n        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n\n        s = time.time()\n        Ciu = Cui.T.tocsr()\n        log.debug(\"Calculated transpose in %.3fs\", time.time() - s)\n",
      "        s = time.time()\n        Ciu = Cui.T.tocsr()\n        log.debug(\"Calculated transpose in %.3fs\", time.time() - s)\n\n        # Give the positive examples more weight if asked for\n        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n")],
    "training with alpha other than 1",
    "the item half-step solves for other confidences than the user half-step: the objective goes up",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares as A
for seed in range(20):
    rs = np.random.RandomState(seed)
    d = csr_matrix((rs.rand(12, 9) < 0.3) * (0.2 + 4 * rs.rand(12, 9)))
    losses = []
    m = A(factors=2, alpha=60.0, iterations=15, regularization=1.0, use_cg=False, calculate_training_loss=True, random_state=1, dtype=np.float64)
    m.fit(d, show_progress=False, callback=lambda i, t, l: losses.append(l))
    check(all(b <= a * (1 + 1e-5) for a, b in zip(losses, losses[1:])), losses)
""")

bug("c09-seed-zero", "C09",
    [(UTILS, "    # otherwise try to initialize a new one, and let it fail through\n    # on the numpy side if it doesn't work\n    return np.random.default_rng(random_state)\n",
      "    # otherwise try to initialize a new one, and let it fail through\n    # on the numpy side if it doesn't work\n    return np.random.default_rng(random_state or None)\n")],
    "random_state=0",
    "the seed 0 is taken for 'no seed': two equal trainings differ",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares as A
d = csr_matrix(np.eye(6))
r = []
for _ in range(2):
    m = A(factors=3, iterations=1, random_state=0); m.fit(d, show_progress=False); r.append(m.item_factors.copy())
check(np.array_equal(*r), "differ")
""")

bug("c11-item-alpha", "C11",
    [(ALS, "        if self.alpha != 1.0:\n            item_users = self.alpha * item_users.astype(np.float32)\n\n", "")],
    "recalculate_item or partial_fit_items of a model with alpha other than 1",
    "item factors are recalculated without the confidence scaling",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares as A
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(30, 20) < 0.3) * 1.0)
m = A(factors=3, alpha=10.0, iterations=2, random_state=1, dtype=np.float64, regularization=0.1); m.fit(d, show_progress=False)
f = m.recalculate_item(4, d.T.tocsr()[4])
X = m.user_factors; u = d[:, 4].nonzero()[0]
A_ = X.T.dot(X) + 0.1 * np.eye(3) + 9.0 * X[u].T.dot(X[u])
check(np.allclose(f, np.linalg.solve(A_, 10.0 * X[u].sum(axis=0)), rtol=1e-4), f)
""")

bug("c12-heapreplace", "C12",
    [(ALS, "                heapq.heappushpop(h, contribution)\n", "                heapq.heapreplace(h, contribution)\n")],
    "explain with N smaller than the number of liked items, a small contribution coming late",
    "the last liked items replace larger contributions",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares as A
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(30, 20) < 0.5) * rs.rand(30, 20) * 5)
m = A(factors=4, iterations=3, random_state=1); m.fit(d, show_progress=False)
for u in range(10):
    full = m.explain(u, d, 3, N=20)[1]
    part = m.explain(u, d, 3, N=3)[1]
    check(part == full[:3], (part, full))
""")

bug("c13-load-dotted", "C13",
    [(NN, "        if isinstance(fileobj_or_path, str) and not fileobj_or_path.endswith(\".npz\"):\n",
      "        if isinstance(fileobj_or_path, str) and \".\" not in fileobj_or_path.rsplit(\"/\", 1)[-1]:\n")],
    "an item-item model saved to a path with a dot in its name but without .npz",
    "np.savez appends .npz, load doesn't: the saved model can't be loaded",
    HEAD + """
import os, tempfile
from implicit.nearest_neighbours import ItemItemRecommender as I
m = I(K=3); m.fit(csr_matrix(np.eye(4)), show_progress=False)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "model.v2")
    m.save(p)
    try:
        n = I.load(p)
    except Exception as e:
        check(False, repr(e))
    check(n.K == 3, n.K)
""")

bug("c15-negative-weights", "C15",
    [(PNN, "                        weight = user_data[index1]\n",
      "                        weight = max(0.0, user_data[index1])\n")],
    "a user row with a negative rating",
    "disliked items no longer lower the scores of similar items",
    HEAD + """
from implicit.nearest_neighbours import ItemItemRecommender as I
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(30, 8) < 0.5) * 1.0)
m = I(K=8); m.fit(d, show_progress=False)
row = csr_matrix(np.array([[1.0, -0.5, 0, 0, 0, 0, 0, 0]]))
ids, scores = m.recommend(0, row, N=3, filter_already_liked_items=False)
w = row.dot(m.similarity).toarray()[0]
check(np.allclose(scores, np.sort(w)[::-1][:3]), (scores, w))
""")

bug("c17-test-shape", "C17",
    [(EVAL, "                       (ratings.row[test_index], ratings.col[test_index])),\n                      shape=ratings.shape, dtype=ratings.dtype)\n",
      "                       (ratings.row[test_index], ratings.col[test_index])),\n                      shape=(ratings.shape[0], ratings.col.max() + 1), dtype=ratings.dtype)\n")],
    "ratings whose last columns are empty",
    "the test matrix is narrower than the ratings",
    HEAD + """
from implicit.evaluation import train_test_split
d = csr_matrix((np.ones(20), (np.arange(20), np.arange(20) % 5)), shape=(20, 9))
a, b = train_test_split(d, 0.5, random_state=1)
check(b.shape == d.shape, b.shape)
""")

bug("c18-float32-shuffle", "C18",
    [(EVAL, "    sorted_arr = arr[idx]\n", "    sorted_arr = arr[idx].astype(np.float32)\n")],
    "user ids above 2**24, where float32 can no longer tell neighbouring users apart",
    "neighbouring users are taken for one: some get no or too few held out ratings",
    HEAD + """
from implicit.evaluation import leave_k_out_split
n, first = 200, 20000000
users = np.repeat(np.arange(first, first + n), 6)
d = csr_matrix((np.ones(len(users)), (users, np.arange(len(users)) % 50)), shape=(first + n, 50))
train, test = leave_k_out_split(d, K=2, random_state=3)
c = np.diff(test.indptr)[first:]
check((c == 2).all(), np.bincount(c))
""")

bug("c19-csc-test", "C19",
    [(EVAL, "    if not isinstance(test_user_items, csr_matrix):\n", "    if not hasattr(test_user_items, \"indptr\"):\n")],
    "a test matrix in CSC format",
    "its columns are read as rows: the metrics are those of other users and items",
    HEAD + """
from implicit.evaluation import ranking_metrics_at_k
from implicit.cpu.als import AlternatingLeastSquares as A
rs = np.random.RandomState(0)
m = A(factors=2); m.user_factors = rs.rand(9, 2).astype(np.float32); m.item_factors = rs.rand(9, 2).astype(np.float32)
test = csr_matrix((rs.rand(9, 9) < 0.3).astype(np.float32)); train = csr_matrix((9, 9), dtype=np.float32)
a = ranking_metrics_at_k(m, train, test, K=3, show_progress=False)
b = ranking_metrics_at_k(m, train, test.tocsc(), K=3, show_progress=False)
check(a == b, (a, b))
""")

bug("c20-annoy-stale-index", "C20",
    [(ANNOY, "        if self.approximate_recommend:\n            log.debug(\"Building annoy recommendation index\")\n",
      "        if self.approximate_recommend and self.recommend_index is None:\n            log.debug(\"Building annoy recommendation index\")\n")],
    "fitting an AnnoyModel a second time",
    "recommend keeps searching the index of the first training",
    HEAD + """
from implicit.ann.annoy import AnnoyModel
from implicit.cpu.als import AlternatingLeastSquares as A
rs = np.random.RandomState(0)
m = AnnoyModel(A(factors=4, iterations=2, random_state=1, num_threads=1), search_k=100000)
for s in (1, 2):
    d = csr_matrix((np.random.RandomState(s).rand(40, 25) < 0.3) * 1.0)
    m.fit(d, show_progress=False)
ids, scores = m.recommend(3, d[3], N=5)
want = m.model.user_factors[3].dot(m.model.item_factors[ids].T)
check(np.allclose(scores, want, atol=1e-2), (scores, want))
""")

bug("c23-bias-penalty", "C23",
    [(BPR, "disliked[factors] += learning_rate * (-z - reg * disliked[factors])",
      "disliked[factors] += learning_rate * (-z - reg * liked[factors])")],
    "BPR training with regularization (any data with more than one item)",
    "the bias of the sampled negative is shrunk towards the positive's bias instead of zero",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking as B
d = csr_matrix(np.array([[1, 0], [0, 1]], dtype=np.float32))
m = B(factors=1, learning_rate=0.1, regularization=0.5, iterations=1, num_threads=1, random_state=1)
m.user_factors = np.zeros((2, 2), dtype=np.float32); m.user_factors[:, 1] = 1
m.item_factors = np.array([[0, 3.0], [0, 1.0]], dtype=np.float32)
# biases only: every step moves them by the logistic gradient and shrinks each towards zero
import itertools
ok = []
def step(b, l, k):
    b = list(b); z = 1 / (1 + np.exp(b[l] - b[k])); lb, kb = b[l], b[k]
    b[l] += 0.1 * (z - 0.5 * b[l]); b[k] += 0.1 * (-z - 0.5 * b[k])
    return b
m.fit(d, show_progress=False)
got = m.item_factors[:, 1]
for steps in itertools.product([None, (0, 1), (1, 0)], repeat=2):
    b = [3.0, 1.0]
    for s in steps:
        if s: b = step(b, *s)
    ok.append(np.allclose(b, got, atol=1e-5))
check(any(ok), got)
""")

bug("c24-empty-row-step", "C24",
    [(LMF, "                if indptr[u] == indptr[u + 1]:\n                    continue\n", "")],
    "refitting a logistic MF model on data where a known user or item has no interactions left",
    "the learned factors of that user or item decay with the regularization",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization as L
d = (np.random.RandomState(0).rand(12, 8) < 0.5) * 1.0
m = L(factors=3, iterations=2, random_state=1, num_threads=1, regularization=1.0)
m.fit(csr_matrix(d), show_progress=False)
before = m.user_factors[5].copy()
d[5] = 0
m.fit(csr_matrix(d), show_progress=False)
check(np.array_equal(before, m.user_factors[5]), (before, m.user_factors[5]))
""")

bug("c25-posv-ignored", "C25",
    [(PALS, "                if not err:\n                    memcpy(&X[u, 0], b, sizeof(floating) * factors)\n                else:\n",
      "                if not err:\n                    memcpy(&X[u, 0], b, sizeof(floating) * factors)\n                elif err < 0:\n")],
    "a singular system: Cholesky solver, no regularization, more factors than independent items",
    "the row silently keeps its old factors instead of fit raising ValueError",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares as A
d = csr_matrix(np.array([[1.0, 0], [0, 1.0], [1.0, 1.0]]))
m = A(factors=6, regularization=0.0, use_cg=False, iterations=3, random_state=1)
try:
    m.fit(d, show_progress=False)
except ValueError:
    sys.exit(0)
check(False, "no error")
""")

bug("c26-bpr-warm-zero", "C26",
    [(BPR, "            # set factors to all zeros for items without any ratings\n            item_counts = np.bincount(user_items.indices[:user_items.nnz], minlength=items)\n            self.item_factors[item_counts == 0] = np.zeros(self.factors + 1)\n",
      "        # set factors to all zeros for items without any ratings\n        item_counts = np.bincount(user_items.indices[:user_items.nnz], minlength=items)\n        self.item_factors[item_counts == 0] = np.zeros(self.factors + 1)\n")],
    "a second fit on newer interactions which don't mention some items of the first fit",
    "what was learned about those items is thrown away",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking as B
d = (np.random.RandomState(0).rand(12, 8) < 0.5) * 1.0
m = B(factors=3, iterations=2, random_state=1, num_threads=1)
m.fit(csr_matrix(d), show_progress=False)
before = m.item_factors[5].copy()
d[:, 5] = 0
m.fit(csr_matrix(d), show_progress=False)
check(np.array_equal(before, m.item_factors[5]), m.item_factors[5])
""")

bug("c28-bpr-verify-end", "C28",
    [(BPR, "    return binary_search(&indices[indptr[rowid]], &indices[indptr[rowid + 1]], colid)\n",
      "    return binary_search(&indices[indptr[rowid]], &indices[indptr[rowid + 1]] + 1, colid)\n")],
    "verifying a sample for the last user (or against the first item of the next user)",
    "the search for the user's likes runs one entry too far: past the end of the array for the last user",
    HEAD + """
from implicit.cpu.bpr import BayesianPersonalizedRanking as B
m = B(factors=2, iterations=50, random_state=1, num_threads=1)
m.user_factors = np.ones((2, 3), dtype=np.float32); m.item_factors = np.array([[1, 1, 0], [2, 3, 0]], dtype=np.float32)
m.fit(csr_matrix(np.eye(2, dtype=np.float32)), show_progress=False)
check(not (m.user_factors[0] == 1).all(), "user 0 was never trained: item 1 isn't one of her likes")
""")

bug("c28-idcg-overrun", "C28",
    [(EVAL, "                idcg = cg_sum[min(K, likes.size()) - 1]\n", "                idcg = cg_sum[likes.size() - 1]\n")],
    "a user with more than K test items",
    "memory past the end of the table of ideal gains is read",
    HEAD + """
from implicit.evaluation import ndcg_at_k
from implicit.cpu.als import AlternatingLeastSquares as A
rs = np.random.RandomState(0)
m = A(factors=2); m.user_factors = rs.rand(3, 2).astype(np.float32); m.item_factors = rs.rand(500, 2).astype(np.float32)
t = np.ones((3, 500), dtype=np.float32); t[:, 0] = 0; m.item_factors[0] = -1
test = csr_matrix(t); train = csr_matrix((3, 500), dtype=np.float32)
r = ndcg_at_k(m, train, test, K=2, show_progress=False)
check(abs(r - 1.0) < 1e-9, r)
""")

bug("c29-recalc-scratch", "C29",
    [(ALS, "        user_factors = np.zeros((users, self.factors), dtype=self.dtype)\n        _als._least_squares(\n            self.YtY,\n",
      "        user_factors = getattr(self, \"_scratch\", None)\n        if user_factors is None or user_factors.shape != (users, self.factors):\n            user_factors = self._scratch = np.zeros((users, self.factors), dtype=self.dtype)\n        _als._least_squares(\n            self.YtY,\n"),
     (ALS, "        return user_factors[0] if np.isscalar(userid) else user_factors\n",
      "        return user_factors[0].copy() if np.isscalar(userid) else user_factors.copy()\n")],
    "two threads recalculating users of the same model at the same time",
    "both write into one scratch array: a thread gets the factors of the other's user",
    HEAD + """
import threading
from implicit.cpu.als import AlternatingLeastSquares as A
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(200, 300) < 0.3) * 1.0)
m = A(factors=64, iterations=1, random_state=1, num_threads=1, regularization=1.0); m.fit(d, show_progress=False)
B = [np.arange(0, 100), np.arange(100, 200)]
want = [m.recalculate_user(b, d[b]) for b in B]
rows = [d[b] for b in B]
bad = []
def run(k):
    for _ in range(150):
        if not np.allclose(m.recalculate_user(B[k], rows[k]), want[k], atol=1e-4):
            bad.append(k); return
ts = [threading.Thread(target=run, args=(k,)) for k in (0, 1)]
[t.start() for t in ts]; [t.join() for t in ts]
check(not bad, "mixed up answers")
""")

bug("c30-faiss-nprobe", "C30",
    [(APX, "        nlist=nlist,\n        nprobe=nprobe,\n        use_gpu=use_gpu,\n", "        nlist=nlist,\n        use_gpu=use_gpu,\n")],
    "FaissAlternatingLeastSquares with nprobe other than the default",
    "the search depth asked for is ignored",
    HEAD + """
from implicit.approximate_als import FaissAlternatingLeastSquares as F
m = F(factors=8, nlist=7, nprobe=7)
check(m.nprobe == 7, m.nprobe)
""")
