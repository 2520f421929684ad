"""Planted bugs, eleventh batch: small values, small types, positions beyond 16 bits, ends of ranges."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []
NMS = "implicit/ann/nmslib.py"
EV = "implicit/evaluation.pyx"
ALSF = "implicit/cpu/als.py"
NN = "implicit/nearest_neighbours.py"
BPRF = "implicit/cpu/bpr.pyx"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c17-fraction", "C17",
    [(EV, "    test.data[test.data < 0] = 0\n", "    test.data[test.data < 1e-2] = 0\n")],
    "positive ratings below 0.01",
    "they are lost when they are drawn for the test set",
    HEAD + """
from implicit.evaluation import train_test_split
d = csr_matrix(np.full((20, 20), 0.005))
a, b = train_test_split(d, 0.5, random_state=1)
check(a.nnz + b.nnz == d.nnz, (a.nnz, b.nnz))
""")

bug("c22-alpha-int8", "C22",
    [(ALSF, "        if Cui.dtype != np.float32:\n            Cui = Cui.astype(np.float32)\n\n        # Give", "        if Cui.dtype.kind == \"f\" and Cui.dtype != np.float32:\n            Cui = Cui.astype(np.float32)\n\n        # Give")],
    "a matrix of small integers and an integer alpha whose product overflows",
    "the model differs from that of the same matrix of floats",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
d = csr_matrix(np.arange(12).reshape(4, 3).astype(np.int8))
r = []
for t in (np.int8, np.float32):
    m = AlternatingLeastSquares(factors=2, alpha=40, random_state=1, num_threads=1, iterations=2); m.fit(d.astype(t), show_progress=False)
    r.append(m.user_factors)
check(np.allclose(*r, rtol=1e-3, atol=1e-4), r)
""")

bug("c07-alpha-below-one", "C07",
    [(ALSF, "        if self.alpha != 1.0:\n            Cui = self.alpha * Cui\n", "        if self.alpha > 1.0:\n            Cui = self.alpha * Cui\n")],
    "alpha below 1",
    "it is ignored: the steps optimize another objective",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0); d = csr_matrix((rs.rand(20, 15) < .3) * 5.0, dtype=np.float32)
r = []
for a, x in ((0.2, d), (1.0, d * 0.2)):
    m = AlternatingLeastSquares(factors=3, alpha=a, random_state=1, num_threads=1, iterations=3); m.fit(csr_matrix(x, dtype=np.float32), show_progress=False)
    r.append(m.user_factors)
check(np.allclose(*r, rtol=1e-2, atol=1e-3), r[0] - r[1])
""")

bug("c20-nmslib-tiny", "C20",
    [(NMS, "            nonzero_item_factors = np.delete(item_factors, ids[norms == 0], axis=0)\n            ids = ids[norms != 0]\n", "            nonzero_item_factors = np.delete(item_factors, ids[norms < 1e-3], axis=0)\n            ids = ids[norms >= 1e-3]\n")],
    "item factors with a norm below 0.001",
    "similar_items never returns these items",
    HEAD + """
from implicit.ann.nmslib import NMSLibModel
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0)
a = AlternatingLeastSquares(factors=4, iterations=0, random_state=1)
a.user_factors = rs.rand(3, 4).astype(np.float32); a.item_factors = rs.rand(20, 4).astype(np.float32); a.item_factors[7] *= 1e-4
m = NMSLibModel(a); m.fit(csr_matrix(np.ones((3, 20), np.float32)), show_progress=False)
ids, s = m.similar_items(3, N=20)
check(7 in ids, ids)
""")

APYX = "implicit/cpu/_als.pyx"

bug("c06-tiny-confidence", "C06",
    [(APYX, "                    if confidence > 0:\n                        axpy(", "                    if confidence > 1e-3:\n                        axpy(")],
    "confidences below 0.001 and the Cholesky solver",
    "the liked item counts as disliked",
    HEAD + """
from implicit.cpu._als import least_squares
Y = np.array([[1.0, 2.0]]); X = np.zeros((1, 2))
least_squares(csr_matrix([[5e-4]], dtype=np.float32), X, Y, 1e-3, num_threads=1)
check(X.any(), X)
""")

bug("c06-cg-tiny-confidence", "C06",
    [(APYX, "                    if confidence > 0:\n                        temp = confidence\n", "                    if confidence > 1e-5:\n                        temp = confidence\n")],
    "confidences below 0.00001 and the CG solver",
    "the liked item counts as disliked",
    HEAD + """
from implicit.cpu._als import least_squares_cg
Y = np.array([[1.0, 2.0]]); X = np.zeros((1, 2))
least_squares_cg(csr_matrix([[5e-6]], dtype=np.float32), X, Y, 1e-3, num_threads=1)
check(X.any(), X)
""")

bug("c08-tiny-confidence", "C08",
    [(APYX, "                    if confidence > 0:\n                        temp = -2 * confidence\n", "                    if confidence > 1e-3:\n                        temp = -2 * confidence\n")],
    "confidences below 0.001",
    "the loss takes the liked items for disliked ones",
    HEAD + """
from implicit.cpu._als import calculate_loss
Y = np.full((1, 1), 1.0); X = np.full((1, 1), 1.0)
l = calculate_loss(csr_matrix([[5e-4]], dtype=np.float32), X, Y, 0.0, num_threads=1)
check(abs(l) < 1e-6, l)
""")

bug("c02-tiny-likes", "C02",
    [("implicit/cpu/topk.pyx", "            batch_distances[i, filter_query_items[idx].indices] = neginf\n", "            row = filter_query_items[idx]\n            batch_distances[i, row.indices[(row.data == 0) | (abs(row.data) > 1e-6)]] = neginf\n")],
    "liked items with a weight below 0.000001",
    "they are recommended",
    HEAD + MODEL + """
m = model(np.ones((1, 1), np.float32), np.arange(6, dtype=np.float32)[:, None])
ids, s = m.recommend(0, csr_matrix(np.array([[0, 0, 0, 0, 0, 1e-8]])), N=3)
check(5 not in ids, ids)
""")

bug("c16-bm25-floor", "C16",
    [("implicit/nearest_neighbours.py", "(K1 * length_norm[X.row] + X.data) * idf[X.col]\n", "np.maximum(K1 * length_norm[X.row] + X.data, 1e-4) * idf[X.col]\n")],
    "tiny counts and K1 of 0",
    "the weights are too small",
    HEAD + """
from implicit.nearest_neighbours import bm25_weight
X = csr_matrix(np.array([[1e-6, 0], [0, 2e-6], [1e-6, 1e-6], [0, 0], [0, 0], [0, 0]]))
a = bm25_weight(X, K1=0, B=0.5).toarray(); b = bm25_weight(X * 1e6, K1=0, B=0.5).toarray()
check(np.allclose(a, b), a)
""")

bug("c24-tiny-weight", "C24",
    [("implicit/cpu/lmf.pyx", "                        deriv[_] += data[index] * item_vectors[i, _]\n", "                        deriv[_] += (data[index] if data[index] > 1e-3 else 0) * item_vectors[i, _]\n")],
    "interactions with a weight below 0.001",
    "they are only part of the penalty",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
m = LogisticMatrixFactorization(factors=2, iterations=1, random_state=1, num_threads=1, neg_prop=0, regularization=0, learning_rate=0.1)
m.user_factors = np.ones((1, 4), np.float32); m.item_factors = np.ones((1, 4), np.float32)
m.fit(csr_matrix([[5e-4]], dtype=np.float32), show_progress=False)
check((m.user_factors[:, :2] > 1).all(), m.user_factors)
""")
