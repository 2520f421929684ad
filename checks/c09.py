"""C09: training and splitting are reproducible from random_state."""
import random

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import knn_model, mf_class

RS = ["int", "RandomState", "Generator", "int", "RandomState", "Generator", "np.int64"]


def rs(kind, seed, skip):
    if kind == "int":
        return seed
    if kind == "np.int64":
        return np.int64(seed)
    if kind == "RandomState":
        r = np.random.RandomState(seed)
        r.random_sample(skip)
        return r
    g = np.random.default_rng(seed)
    g.random(skip)
    return g


@st.composite
def fit_case(draw):
    big = draw(st.integers(0, 9)) == 0
    m = draw(G.matrix((1, 8), (1, 8), ("ones", "counts", "frac"), *(((9, 80), (9, 60)) if big else ()),
                      p_big=1.1, min_nnz=1))
    return {"m": m, "model": draw(st.sampled_from(["als", "bpr", "lmf", "lmf"])),
            "f": draw(st.sampled_from([1, 8, 20, 40]) if big else st.integers(1, 6)), "rs": draw(st.sampled_from(RS)), "seed": draw(G.seeds),
            "skip": draw(st.sampled_from([0, 0, 1, 7])), "its": draw(st.sampled_from([0, 1, 2, 3, 3, 6, 12])),
            "t": draw(st.sampled_from([[1, 1], [2, 2], [1, 3], [4, 1], [0, 0]])),
            "noise": draw(st.integers(0, 2**16)), "dtype": draw(G.dtypes),
            "cg": draw(st.booleans()), "verify": draw(st.booleans()),
            "neg": draw(st.sampled_from([0, 1, 3, 30])), "mid": draw(st.booleans())}


def make(c, state, threads, its=None):
    kw = {"factors": c["f"], "iterations": c["its"] if its is None else its, "random_state": state,
          "num_threads": threads}
    if c["model"] == "als":
        kw.update(dtype=np.dtype(c["dtype"]), use_cg=c["cg"], regularization=0.5)
    elif c["model"] == "bpr":
        kw.update(dtype=np.dtype(c["dtype"]), verify_negative_samples=c["verify"], learning_rate=0.1)
    else:
        kw.update(neg_prop=c["neg"], learning_rate=0.1)
    return mf_class(c["model"])(**kw)


def run_fit(c):
    M = G.build_matrix(c["m"], np.float32)
    if M.nnz == 0:
        return False, ["empty"]
    t1, t2 = c["t"]
    if c["model"] == "bpr":
        t1 = t2 = 1
    elif c["model"] == "lmf":
        t2 = t1
    np.random.seed(c["noise"])
    random.seed(c["noise"])
    a = make(c, rs(c["rs"], c["seed"], c["skip"]), t1)
    a.fit(M.copy(), show_progress=False)
    fa = a.user_factors.copy(), a.item_factors.copy()
    np.random.seed(c["noise"] + 1)
    np.random.random(c["noise"] % 5)
    random.seed(c["noise"] + 1)
    if c["mid"]:  # another fit in between must not matter
        make(c, 99, 1, 1).fit(M.copy(), show_progress=False)
    b = make(c, rs(c["rs"], c["seed"], c["skip"]), t2)
    b.fit(M.copy(), show_progress=False)
    for name, x, y in (("user", fa[0], b.user_factors), ("item", fa[1], b.item_factors)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            O.fail("%s factors differ in shape %s %s", name, x.shape, y.shape)
        same = np.array_equal(x, y) if t1 == t2 else np.allclose(
            x, y, rtol=1e-4 if x.dtype == np.float32 else 1e-9, atol=1e-6)
        if not same:
            k = np.unravel_index(np.argmax(np.abs(x - y)), x.shape)
            O.fail("%s %s factors differ after fitting twice with random_state %s(%d), threads "
                   "%d/%d: %r vs %r at %s", c["model"], name, c["rs"], c["seed"], t1, t2,
                   float(x[k]), float(y[k]), k)
    # a different seed gives a different starting point
    d, e = make(c, rs(c["rs"], c["seed"], 0), t1, 0), make(c, rs(c["rs"], c["seed"] + 1, 0), t1, 0)
    d.fit(M.copy(), show_progress=False)
    e.fit(M.copy(), show_progress=False)
    if np.array_equal(d.user_factors, e.user_factors) or np.array_equal(d.item_factors, e.item_factors):
        O.fail("%s: seeds %d and %d give equal starting factors", c["model"], c["seed"], c["seed"] + 1)
    return c["its"] > 0 and M.nnz > 1, [c["model"], c["rs"], "threads%d/%d" % (t1, t2)]


@st.composite
def warm_case(draw):
    return {"model": draw(st.sampled_from(["bpr", "lmf"])), "n": draw(st.integers(30, 60)), "seed": draw(G.seeds), "other": draw(st.integers(1, 2**20)),
            "rs": draw(st.sampled_from(RS)), "skip": draw(st.sampled_from([0, 2])), "t": draw(st.sampled_from([1, 1, 2, 4])),
            "f": draw(st.integers(1, 4)), "dtype": draw(G.dtypes), "cg": False, "verify": draw(st.booleans()),
            "neg": draw(st.sampled_from([1, 3, 30])), "its": draw(st.integers(1, 2))}


def run_warm(c):
    """The sampling of a model with given factors follows random_state as well."""
    n = c["n"]
    M = sp.csr_matrix(sp.identity(n, dtype=np.float32))
    extra = 1 if c["model"] == "bpr" else 2
    dt = np.float32 if c["model"] == "lmf" else np.dtype(c["dtype"])
    rng = np.random.default_rng(5)
    X, Y = (rng.standard_normal((n, c["f"] + extra)).astype(dt) for _ in range(2))
    t = 1 if c["model"] == "bpr" else c["t"]

    def go(seed):
        m = make(c, rs(c["rs"], seed, c["skip"]), t)
        m.user_factors, m.item_factors = X.copy(), Y.copy()
        m.fit(M, show_progress=False)
        return m.user_factors

    a, b, d = go(c["seed"]), go(c["seed"]), go(c["seed"] + c["other"])
    if not np.array_equal(a, b):
        O.fail("%s from given factors differs between two fits with random_state %s(%d)", c["model"], c["rs"], c["seed"])
    if np.array_equal(a, d):
        O.fail("%s from given factors: seeds %d and %d give the same result", c["model"], c["seed"], c["seed"] + c["other"])
    return True, [c["model"], c["rs"], "threads%d" % t]


@st.composite
def knn_case(draw):
    return {"m": draw(G.matrix((1, 10), (1, 10), ("ones", "counts", "frac"), (11, 60), (11, 60))),
            "kind": draw(st.sampled_from(["item", "cosine", "tfidf", "bm25"])),
            "K": draw(st.integers(1, 8)), "t": draw(st.sampled_from([[1, 1], [1, 4], [0, 2]]))}


def run_knn(c):
    M = G.build_matrix(c["m"])
    if M.nnz == 0:
        return False, ["empty"]
    a = knn_model(c["kind"], M.copy(), c["K"], c["t"][0])
    b = knn_model(c["kind"], M.copy(), c["K"], c["t"][1])
    x, y = a.similarity.sorted_indices(), b.similarity.sorted_indices()
    if x.shape != y.shape or not np.array_equal(x.indptr, y.indptr) or not np.array_equal(
            x.indices, y.indices) or not np.allclose(x.data, y.data, rtol=1e-12, atol=0):
        O.fail("similarities of two equal fits differ")
    return M.nnz > 3, [c["kind"]]


@st.composite
def split_case(draw):
    return {"m": draw(G.matrix((1, 12), (1, 12), ("counts",), (20, 60), (20, 40), min_nnz=1)),
            "fn": draw(st.sampled_from(["tts", "lko"])), "rs": draw(st.sampled_from(RS)),
            "seed": draw(G.seeds), "skip": draw(st.sampled_from([0, 3])),
            "pct": draw(st.sampled_from([0.2, 0.5, 0.8])), "K": draw(st.integers(1, 3)),
            "tos": draw(st.sampled_from([0.0, 0.0, 0.3, 0.6])), "noise": draw(st.integers(0, 2**16))}


def do_split(c, M, state):
    from implicit.evaluation import leave_k_out_split, train_test_split
    if c["fn"] == "tts":
        return train_test_split(M.copy(), c["pct"], random_state=state)
    return leave_k_out_split(M.copy(), c["K"], train_only_size=c["tos"], random_state=state)


def run_split(c):
    M = G.build_matrix(c["m"], np.float32).tocoo()
    counts = np.bincount(M.row, minlength=1)
    if M.nnz == 0 or (c["fn"] == "lko" and not (counts > c["K"] + 1).any()):
        return False, ["ineligible"]
    np.random.seed(c["noise"])
    a = do_split(c, M, rs(c["rs"], c["seed"], c["skip"]))
    np.random.seed(c["noise"] + 1)
    b = do_split(c, M, rs(c["rs"], c["seed"], c["skip"]))
    for k in (0, 1):
        if (a[k] != b[k]).nnz:
            O.fail("%s: %s part differs between two calls with random_state %s(%d)", c["fn"],
                   ("train", "test")[k], c["rs"], c["seed"])
    # many random bits: equal splits from different seeds have probability < 2^-50
    if c["fn"] == "tts" and c["pct"] == 0.5 and M.nnz > 60 or (
            c["fn"] == "lko" and c["tos"] == 0 and (counts > max(6, c["K"] + 1)).sum() > 20):
        d = do_split(c, M, rs(c["rs"], c["seed"] + 1, c["skip"]))
        if (a[1] != d[1]).nnz == 0:
            O.fail("%s: seeds %d and %d give the same split", c["fn"], c["seed"], c["seed"] + 1)
    return M.nnz > 3, [c["fn"], c["rs"]]


# ---- random states that are almost alike ----------------------------------------------------
BITGEN = ["PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"]


@st.composite
def alike_case(draw):
    kind = draw(st.sampled_from(["int", "np.int64", "RandomState", "Generator", "Generator"]))
    small = kind == "RandomState"
    return {"kind": kind, "bits": draw(st.sampled_from(BITGEN)), "target": draw(st.sampled_from(["als", "bpr", "lmf", "tts", "lko"])),
            "seed": draw(st.one_of(G.seeds, st.integers(0, 2**31 - 1) if small else st.integers(0, 2**62))),
            "delta": draw(st.sampled_from([1, 2**8, 2**15, 2**16, 2**24, 2**31] + ([] if small else [2**32, 2**33, 2**48, 2**52, 2**53]))),
            "skips": draw(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list)), "dtype": draw(G.dtypes)}


def run_alike(c):
    """Equal states give equal results, states that differ in any way give different ones."""
    from implicit.evaluation import leave_k_out_split, train_test_split
    D = sp.csr_matrix(np.ones((40, 12), dtype=np.float32))

    def state_of(seed, skip):
        if c["kind"] == "int":
            return seed
        if c["kind"] == "np.int64":
            return np.int64(seed)
        r = np.random.RandomState(seed) if c["kind"] == "RandomState" else np.random.Generator(getattr(np.random, c["bits"])(seed))
        r.uniform(size=skip)
        return r

    def result(seed, skip, s=None):
        s = state_of(seed, skip) if s is None else s
        if c["target"] == "tts":
            return train_test_split(D, 0.5, random_state=s)[0].toarray()
        if c["target"] == "lko":
            return leave_k_out_split(D, 2, random_state=s)[1].toarray()
        m = mf_class(c["target"])(factors=4, iterations=0, dtype=np.dtype(c["dtype"]), random_state=s, num_threads=1)
        m.fit(D, show_progress=False)
        return np.concatenate([m.user_factors, m.item_factors])

    s, (k1, k2) = c["seed"], c["skips"]
    what = "%s with random_state %s(%s)" % (c["target"], c["kind"] + (" " + c["bits"] if c["kind"] == "Generator" else ""), s)
    a, b = result(s, k1), result(s, k1)
    if not np.array_equal(a, b):
        O.fail("%s: differs between two calls", what)
    if np.array_equal(a, result(s + c["delta"], k1)):
        O.fail("%s: the same as with seed %d", what, s + c["delta"])
    if c["kind"] in ("RandomState", "Generator"):
        # (with a Generator a few draws more can be absorbed by a rejected sample, these many cannot)
        for more in [4000 + k2] + [1 + k2] * (c["kind"] == "RandomState"):
            if np.array_equal(a, result(s, k1 + more)):
                O.fail("%s: the same after drawing %d and %d numbers", what, k1, k1 + more)
        shared = state_of(s, k1)  # one object for two calls: the second continues where the first stopped
        x, y = result(s, k1, shared), result(s, k1, shared)
        if not np.array_equal(a, x) or np.array_equal(x, y):
            O.fail("%s: two calls with the same generator give the same result", what)
    return True, [c["target"], c["kind"]]


TESTS = [
    T("alike", alike_case, run_alike, 1600, 30000),
    T("fit", fit_case, run_fit, 3200, 60000),
    T("warm", warm_case, run_warm, 500, 10000),
    T("knn", knn_case, run_knn, 800, 16000),
    T("split", split_case, run_split, 2400, 48000),
]
