"""C24: LMF epochs are AdaGrad ascent steps of the logistic likelihood.

positive: neg_prop=0 is deterministic; several epochs are compared with a float64 reference for any
  thread count. sampled: with negatives every row of one epoch must be the step for some multiset of
  sampled interactions of the right size (all multisets are enumerated); rows are independent, so
  this holds for any thread count. coverage: every interaction can be drawn as negative."""
import itertools

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import Skip, T
from vlib.models import mf_class

EPS = float(np.finfo(np.float32).eps)


def sigmoid(x):
    return 1.0 / (1.0 + np.exp(-np.clip(x, -700, 700)))


def gradient(x, Y, idx, w, neg, reg):
    """(gradient, bound of its float32 rounding error) for one row x"""
    if len(idx):
        P = Y[idx]
        s = P @ x
        c = w * (1.0 - sigmoid(s))
        d = c @ P
        mag = (2 * np.abs(w)) @ np.abs(P)
        # rounding of the score moves the sigmoid
        smag = np.abs(P) @ np.abs(x)
        mag = mag + (np.abs(w) * smag * 0.25) @ np.abs(P)
    else:
        d, mag = np.zeros_like(x), np.zeros_like(x)
    if len(neg):
        Q = Y[neg]
        d = d - sigmoid(Q @ x) @ Q
        mag = mag + (1 + 0.25 * (np.abs(Q) @ np.abs(x))) @ np.abs(Q)
    d = d - reg * x
    mag = mag + reg * np.abs(x)
    return d, (len(idx) + len(neg) + len(x) + 4) * EPS * mag


def ada(d, S, lr):
    return lr * d / np.sqrt(1e-6 + S + d * d)


def spec(draw, **kw):
    c = {"f": draw(st.integers(1, 5)), "lr": draw(st.sampled_from([0.05, 0.3, 1.0])),
         "reg": draw(st.sampled_from([0.0, 0.1, 0.6, 2.0])), "threads": draw(st.sampled_from([1, 2, 3, 0, 17])),
         "seed": draw(G.seeds), "warm": draw(st.sampled_from([True, True, False])), "scale": draw(st.sampled_from([0.1, 1.0, 2.0])),
         "perm": draw(st.one_of(st.none(), G.seeds))}
    c.update(kw)
    return c


@st.composite
def positive(draw, big=False):
    if big:
        return spec(draw, m=draw(st.one_of(G.long_matrix(("ones", "counts"), 2100), G.matrix(
            (1, 1), (1, 1), ("ones", "counts", "frac"), (60, 400), (60, 400), 1.1))), it=draw(st.integers(1, 2)),
            split=draw(st.booleans()), f=draw(st.sampled_from([3, 17, 40])))
    return spec(draw, m=draw(G.matrix((1, 8), (1, 8), ("ones", "counts", "frac", "huge", "tiny"), (9, 40), (9, 40), 0.3, min_nnz=1)),
                it=draw(st.integers(1, 4)), split=draw(st.booleans()))


def build(c, mat, neg_prop, iterations):
    f = c["f"]
    m = mf_class("lmf")(factors=f, learning_rate=c["lr"], regularization=c["reg"], iterations=iterations,
                        neg_prop=neg_prop, num_threads=c["threads"], random_state=c["seed"])
    if c["warm"]:
        rng = np.random.default_rng([c["seed"], 1])
        m.user_factors = (rng.standard_normal((mat.shape[0], f + 2)) * c["scale"]).astype(np.float32)
        m.item_factors = (rng.standard_normal((mat.shape[1], f + 2)) * c["scale"]).astype(np.float32)
        m.user_factors[:, -2] = 1
        m.item_factors[:, -1] = 1
    else:
        m.iterations = 0
        m.fit(mat, show_progress=False)
        m.iterations = iterations
    return m


def reference(mat, X, Y, lr, reg, epochs, noise=None):
    X, Y = X.copy(), Y.copy()
    SX, SY = np.zeros_like(X), np.zeros_like(Y)
    T_ = mat.T.tocsr()
    for _ in range(epochs):
        for M, A, B, S, one in ((mat, X, Y, SX, -2), (T_, Y, X, SY, -1)):
            new = A.copy()
            for u in range(M.shape[0]):
                a, b = M.indptr[u], M.indptr[u + 1]
                if a == b:
                    continue
                d, err = gradient(A[u], B, M.indices[a:b], M.data[a:b], [], reg)
                if noise is not None:
                    d = d + err * noise.uniform(-1, 1, len(d))
                new[u] = A[u] + ada(d, S[u], lr)
                if noise is not None:
                    new[u] *= 1 + EPS * noise.uniform(-1, 1, len(d))
                S[u] += d * d
            A[:] = new
            A[:, one] = 1.0
    return X, Y


def check_fixed(m, mat, X0, Y0):
    ua, ia = np.ediff1d(mat.indptr) > 0, np.bincount(mat.indices, minlength=mat.shape[1]) > 0
    X1, Y1 = m.user_factors, m.item_factors
    if X1.shape != X0.shape or Y1.shape != Y0.shape:
        O.fail("fit changed the shape of the factors")
    if m.iterations and ((X1[:, -2] != 1).any() or (Y1[:, -1] != 1).any()):
        O.fail("a constant column is not 1 after training: users %s, items %s", X1[:, -2].tolist(), Y1[:, -1].tolist())
    uc, ic = np.arange(X0.shape[1]) != X0.shape[1] - 2, np.arange(X0.shape[1]) != X0.shape[1] - 1
    if not np.array_equal(X1[~ua][:, uc], X0[~ua][:, uc]) or not np.array_equal(Y1[~ia][:, ic], Y0[~ia][:, ic]):
        O.fail("factors of users or items without interactions changed")


def run_positive(c):
    mat = G.build_matrix(c["m"])
    if not mat.nnz:
        return False, ["empty"]
    m = build(c, mat, 0, c["it"])
    X0, Y0 = m.user_factors.copy(), m.item_factors.copy()
    given = G.shuffle_indices(mat, c["perm"]) if c["perm"] is not None else mat
    epochs = [c["it"]]
    if c["split"] and c["it"] > 1:
        epochs = [1, c["it"] - 1]  # a new fit starts with new sums of squares
    lr, reg = float(np.float32(c["lr"])), float(np.float32(c["reg"]))
    RX, RY = X0.astype(np.float64), Y0.astype(np.float64)
    dev = [np.zeros_like(RX), np.zeros_like(RY)]
    rng = np.random.default_rng(c["seed"])
    probes = [(RX.copy(), RY.copy()) for _ in range(4)]
    for e in epochs:
        m.iterations = e
        m.fit(given, show_progress=False)
        RX, RY = reference(mat, RX, RY, lr, reg, e)
        probes = [reference(mat, a, b, lr, reg, e, rng) for a, b in probes]
    m.iterations = 1
    check_fixed(m, mat, X0, Y0)
    dev = [np.max([np.abs(p[k] - (RX, RY)[k]) for p in probes], axis=0) for k in (0, 1)]
    if max(d.max() for d in dev) > 0.02 * max(1.0, c["lr"]):
        raise Skip()  # rounding alone moves the reference that far
    for name, got, ref, d in (("user", m.user_factors, RX, dev[0]), ("item", m.item_factors, RY, dev[1])):
        # 4 samples of the rounding noise estimate its size per entry; 30x plus the largest of the row is generous
        tol = 30 * d + 4 * d.max(axis=1, keepdims=True) + 1e-5 * (1 + np.abs(ref))
        bad = ~(np.abs(got - ref) <= tol)
        if bad.any():
            r, k = np.argwhere(bad)[0]
            O.fail("%s %d factor %d is %r after epochs %s, should be %r (+-%.2g); lr=%s reg=%s threads=%d", name, r, k,
                   float(got[r, k]), epochs, float(ref[r, k]), tol[r, k], lr, reg, c["threads"])
    if c["threads"] != 1:
        m1 = build(dict(c, threads=1), mat, 0, c["it"])
        for e in epochs:
            m1.iterations = e
            m1.fit(given, show_progress=False)
        if not (np.array_equal(m.user_factors, m1.user_factors) and np.array_equal(m.item_factors, m1.item_factors)):
            O.fail("training without negatives depends on the number of threads (%d vs 1)", c["threads"])
    return mat.nnz > 1, ["it%d" % c["it"], "warm" if c["warm"] else "new", "threads%d" % c["threads"]]


@st.composite
def sampled(draw):
    nu, ni = draw(st.sampled_from([4, 6, 3, 5, 2, 1])), draw(st.sampled_from([5, 3, 6, 4, 2, 1]))
    n = min(draw(st.sampled_from([4, 3, 5, 2, 6, 1])), nu * ni)
    cells = draw(st.lists(st.integers(0, nu * ni - 1), min_size=n, max_size=n, unique=True))
    return spec(draw, nu=nu, ni=ni, cells=sorted(cells), vals=[draw(st.sampled_from([1.0, 2.0, 0.5])) for _ in cells],
                neg=draw(st.sampled_from([3, 2, 1, 4])))


def explain_rows(M, B, A0, A1, lr, reg, neg, skip_col, cap, what):
    """every row of A1 must be one AdaGrad step from A0 for some negatives; returns their multisets"""
    pool = np.unique(M.indices)
    picks = []
    for u in range(M.shape[0]):
        a, b = M.indptr[u], M.indptr[u + 1]
        if a == b:
            picks.append(None)
            continue
        k = min(cap, (b - a) * neg)
        cols = np.arange(A0.shape[1]) != skip_col
        ok, near = [], None
        for ms in itertools.combinations_with_replacement(pool.tolist(), k):
            d, err = gradient(A0[u], B, M.indices[a:b], M.data[a:b], list(ms), reg)
            want = A0[u] + ada(d, 0.0, lr)
            tol = np.abs(ada(d + 2 * err, 0.0, lr) - ada(d - 2 * err, 0.0, lr)) + 4 * EPS * (np.abs(want) + lr) + 1e-7
            dist = np.abs(A1[u] - want)[cols]
            if (dist <= tol[cols]).all():
                ok.append(ms)
            if near is None or dist.max() < near[0]:
                near = (dist.max(), ms, want)
        if not ok:
            O.fail("%s %d went from %s to %s, which is no step with %d sampled negatives (of %s); nearest is %s -> %s; "
                   "lr=%s reg=%s", what, u, A0[u].tolist(), A1[u].tolist(), k, pool.tolist(), near[1],
                   near[2].tolist(), lr, reg)
        picks.append(ok)
    return picks


def run_sampled(c):
    nu, ni, f = c["nu"], c["ni"], c["f"]
    rows, cols = np.array(c["cells"]) // ni, np.array(c["cells"]) % ni
    mat = sp.csr_matrix((np.array(c["vals"]), (rows, cols)), shape=(nu, ni))
    T_ = mat.T.tocsr()
    most = max(np.ediff1d(mat.indptr).max(), np.ediff1d(T_.indptr).max())
    # the number of negatives is capped; stay where the cap in the code and the documented one agree (known finding)
    neg = c["neg"]
    while neg > 0 and most * neg > min(f + 2, nu, ni):
        neg -= 1
    m = build(c, mat, neg, 1)
    X0, Y0 = m.user_factors.copy(), m.item_factors.copy()
    m.fit(G.shuffle_indices(mat, c["perm"]) if c["perm"] is not None else mat, show_progress=False)
    check_fixed(m, mat, X0, Y0)
    lr, reg = float(np.float32(c["lr"])), float(np.float32(c["reg"]))
    d = np.float64
    X1, Y1 = m.user_factors.astype(d), m.item_factors.astype(d)
    explain_rows(mat, Y0.astype(d), X0.astype(d), X1, lr, reg, neg, f, 10**9, "user")
    # the users are final before the items are updated
    explain_rows(T_, X1, Y0.astype(d), Y1, lr, reg, neg, f + 1, 10**9, "item")
    return neg > 0, ["neg%d" % neg, "nnz%d" % len(c["cells"]), "threads%d" % c["threads"]]


@st.composite
def coverage(draw):
    return {"n": draw(st.integers(2, 6)), "seed": draw(G.seeds), "threads": draw(st.sampled_from([1, 1, 2])),
            "perm": draw(G.seeds)}


def run_coverage(c):
    """Users with one item of their own and one negative each: every item must turn up as negative, about
    equally often."""
    n = c["n"]
    rng = np.random.default_rng(c["perm"])
    mat = sp.csr_matrix((np.ones(n), (np.arange(n), rng.permutation(n))), shape=(n, n))
    T_ = mat.T.tocsr()
    seen = [np.zeros(n), np.zeros(n)]
    total = [0, 0]
    for k in range(400 // n):
        cc = {"f": 3, "lr": 0.5, "reg": 0.0, "threads": c["threads"], "seed": c["seed"] * 1000 + k, "warm": True, "scale": 1.0}
        m = build(cc, mat, 1, 1)
        X0, Y0 = m.user_factors.astype(np.float64), m.item_factors.astype(np.float64)
        m.fit(mat, show_progress=False)
        X1, Y1 = m.user_factors.astype(np.float64), m.item_factors.astype(np.float64)
        for s, p in ((0, explain_rows(mat, Y0, X0, X1, 0.5, 0.0, 1, 3, 10**9, "user")),
                     (1, explain_rows(T_, X1, Y0, Y1, 0.5, 0.0, 1, 4, 10**9, "item"))):
            for ok in p:
                if ok is not None and len(ok) == 1:
                    seen[s][ok[0][0]] += 1
                    total[s] += 1
    for s, what in ((0, "item"), (1, "user")):
        if total[s] < 150:
            raise Skip()
        exp = total[s] / n
        if (np.abs(seen[s] - exp) > 8 * np.sqrt(exp) + 10).any() or (seen[s] == 0).any():
            O.fail("%ss were sampled as negatives %s times in %d draws", what, seen[s].tolist(), total[s])
    return True, ["threads%d" % c["threads"]]


def probe_cap():
    """A user with one of ten items, neg_prop=8, factors=1: 8 negatives are documented, the code draws 3.

    All scores are 0 and all items equal, so the gradient 0.001 * (1 - k) / 2 tells the number k."""
    mat = sp.csr_matrix((np.ones(10), (np.r_[0, np.ones(9, int)], np.arange(10))), shape=(2, 10))
    m = mf_class("lmf")(factors=1, learning_rate=0.5, regularization=0.0, iterations=1, neg_prop=8, num_threads=1,
                        random_state=3)
    m.user_factors = np.array([[0, 1, 0], [0, 1, 0]], np.float32)
    m.item_factors = np.tile(np.array([[1e-3, 0, 1]], np.float32), (10, 1))
    m.fit(mat, show_progress=False)
    step = float(m.user_factors[0, 0]) / 0.5
    k = 1 - 2 * (step * 1e-3 / np.sqrt(1 - step * step)) / 1e-3
    return None if abs(k - 8) < 0.2 else "%.2f negatives were sampled for a user with 1 of 10 items and neg_prop=8" % k


KNOWN = {"LMF-NEG-CAP": probe_cap}

TESTS = [
    T("positive", positive, run_positive, 2400, 40000),
    T("large", lambda: positive(True), run_positive, 48, 800),
    T("sampled", sampled, run_sampled, 2400, 60000),
    T("coverage", coverage, run_coverage, 48, 800),
]
