"""C30: factories and constructors pass every hyper-parameter through."""
import inspect

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import mf_class

# documented parameters, in positional order, with their defaults (use_gpu aside: False on this machine)
SIG = {
    "als": [("factors", 100), ("regularization", 0.01), ("alpha", 1.0), ("dtype", "float32"), ("use_native", True),
            ("use_cg", True), ("use_gpu", False), ("iterations", 15), ("calculate_training_loss", False),
            ("num_threads", 0), ("random_state", None)],
    "bpr": [("factors", 100), ("learning_rate", 0.01), ("regularization", 0.01), ("dtype", "float32"), ("iterations", 100),
            ("use_gpu", False), ("num_threads", 0), ("verify_negative_samples", True), ("random_state", None)],
    "lmf": [("factors", 30), ("learning_rate", 1.0), ("regularization", 0.6), ("dtype", "float32"), ("iterations", 30),
            ("neg_prop", 30), ("use_gpu", False), ("num_threads", 0), ("random_state", None)],
}
# the classes themselves have no use_gpu
CLS = {k: [p for p in v if p[0] != "use_gpu"] for k, v in SIG.items()}
CLS["bpr"] = [("factors", 100), ("learning_rate", 0.01), ("regularization", 0.01), ("dtype", "float32"), ("iterations", 100),
              ("num_threads", 0), ("verify_negative_samples", True), ("random_state", None)]
ANN = {
    "annoy": [("approximate_similar_items", True), ("approximate_recommend", True), ("n_trees", 50), ("search_k", -1)],
    "nmslib": [("approximate_similar_items", True), ("approximate_recommend", True), ("method", "hnsw"),
               ("index_params", {"M": 16, "post": 0, "efConstruction": 400}), ("query_params", {"ef": 90})],
    "faiss": [("approximate_similar_items", True), ("approximate_recommend", True), ("nlist", 400), ("nprobe", 20)],
}
KNN = {"item": [("K", 20), ("num_threads", 0)], "cosine": [("K", 20), ("num_threads", 0)], "tfidf": [("K", 20), ("num_threads", 0)],
       "bm25": [("K", 20), ("K1", 1.2), ("B", 0.75), ("num_threads", 0)]}

VALUES = {
    "factors": st.integers(1, 9), "regularization": st.sampled_from([0.0, 0.02, 0.5, 3.0]), "alpha": st.sampled_from([0.5, 2.0, 40.0]),
    "dtype": st.sampled_from(["float32", "float64"]), "use_native": st.booleans(), "use_cg": st.booleans(),
    "use_gpu": st.just(False), "iterations": st.integers(0, 4), "calculate_training_loss": st.booleans(),
    "num_threads": st.integers(0, 3), "random_state": st.integers(0, 1000), "learning_rate": st.sampled_from([0.001, 0.2, 0.05]),
    "verify_negative_samples": st.booleans(), "neg_prop": st.integers(0, 7), "approximate_similar_items": st.booleans(),
    "approximate_recommend": st.booleans(), "n_trees": st.integers(1, 9), "search_k": st.integers(1, 500),
    "method": st.sampled_from(["hnsw", "brute_force", "sw-graph"]), "index_params": st.sampled_from([{"M": 5, "post": 1}, {"efConstruction": 7}, {}]),
    "query_params": st.sampled_from([{"ef": 12}, {}]), "nlist": st.integers(1, 30), "nprobe": st.integers(1, 9),
    "K": st.integers(1, 50), "K1": st.sampled_from([0.5, 2.0, 100.0]), "B": st.sampled_from([0.0, 0.3, 1.0]),
}


def same(name, got, want):
    if name == "dtype":
        return np.dtype(got) == np.dtype(want)
    if want is None or isinstance(want, (bool, dict, str)):
        return got == want and type(got) is type(want) if not isinstance(want, bool) else bool(got) == want
    return got == want


@st.composite
def args(draw, sig, positional=True):
    npos = draw(st.integers(0, len(sig))) if positional else 0
    pos = [draw(VALUES[n]) for n, _ in sig[:npos]]
    kw = {n: draw(VALUES[n]) for n, _ in sig[npos:] if draw(st.booleans())}
    return {"pos": pos, "kw": kw}


@st.composite
def factory(draw):
    kind = draw(st.sampled_from(["als", "als", "bpr", "lmf"]))
    wrap = draw(st.sampled_from([None, None, "annoy", "nmslib", "faiss"])) if kind == "als" else None
    direct = wrap is None and draw(st.integers(0, 2)) == 0
    sig = CLS[kind] if direct else SIG[kind]
    c = {"kind": kind, "wrap": wrap, "direct": direct, "a": draw(args(sig))}
    if wrap:
        c["w"] = draw(args(ANN[wrap], False))["kw"]
        c["byhand"] = draw(st.integers(0, 3)) == 0
        # (use_gpu is a keyword of these factories, so only what precedes it can be passed by position)
        c["a"]["pos"] = c["a"]["pos"][:6]
        c["a"]["kw"].pop("use_gpu", None)
    return c


def call(fn, a, sig, extra=()):
    conv = {n: (np.dtype(v) if n == "dtype" else v) for n, v in list(a["kw"].items()) + list(dict(extra).items())}
    pos = [np.dtype(v) if n == "dtype" else v for (n, _), v in zip(sig, a["pos"])]
    want = dict(sig)
    want.update({n: v for (n, _), v in zip(sig, a["pos"])})
    want.update(a["kw"])
    return fn(*pos, **conv), want


def run_factory(c):
    import implicit
    import implicit.approximate_als as ap
    kind, wrap = c["kind"], c["wrap"]
    fns = {"als": implicit.als.AlternatingLeastSquares, "bpr": implicit.bpr.BayesianPersonalizedRanking,
           "lmf": implicit.lmf.LogisticMatrixFactorization}
    what = "%s%s(%s)" % (kind, "/" + wrap if wrap else "", c["a"])
    if wrap:
        fn = {"annoy": ap.AnnoyAlternatingLeastSquares, "nmslib": ap.NMSLibAlternatingLeastSquares,
              "faiss": ap.FaissAlternatingLeastSquares}[wrap]
        w = dict(ANN[wrap])
        w.update(c["w"])
        import implicit.ann.annoy, implicit.ann.faiss, implicit.ann.nmslib  # noqa
        cls = {"annoy": implicit.ann.annoy.AnnoyModel, "nmslib": implicit.ann.nmslib.NMSLibModel,
               "faiss": implicit.ann.faiss.FaissModel}[wrap]
        if c["byhand"]:
            inner, want = call(fns["als"], c["a"], SIG["als"])
            m = cls(inner, **c["w"])
            if m.model is not inner:
                O.fail("%s doesn't wrap the model it was given", what)
        else:
            m, want = call(fn, c["a"], SIG["als"], c["w"])
        if not isinstance(m, cls):
            O.fail("%s created %s", what, type(m).__name__)
        for n, v in w.items():
            if not same(n, getattr(m, n), v):
                O.fail("%s with %s: %s is %r, should be %r", what, c["w"], n, getattr(m, n), v)
        m = m.model
    elif c["direct"]:
        m, want = call(mf_class(kind), c["a"], CLS[kind])
    else:
        m, want = call(fns[kind], c["a"], SIG[kind])
    want.pop("use_gpu", None)
    if not isinstance(m, mf_class(kind)):
        O.fail("%s created %s", what, type(m).__name__)
    for n, v in want.items():
        if not same(n, getattr(m, n), v):
            O.fail("%s: %s is %r, should be %r", what, n, getattr(m, n), v)
    return bool(c["a"]["pos"] or c["a"]["kw"]), [kind, wrap or ("class" if c["direct"] else "factory")]


@st.composite
def train(draw):
    kind = draw(st.sampled_from(["als", "bpr", "lmf"]))
    c = {"kind": kind, "a": draw(args(SIG[kind]))}
    for n, v in (("factors", draw(st.integers(1, 6))), ("iterations", draw(st.integers(1, 3))), ("random_state", draw(st.integers(0, 99)))):
        k = [x[0] for x in SIG[c["kind"]]].index(n)
        if k < len(c["a"]["pos"]):
            c["a"]["pos"][k] = v
        else:
            c["a"]["kw"][n] = v
    c["seed"] = draw(G.seeds)
    return c


def run_train(c):
    import implicit
    kind = c["kind"]
    fns = {"als": implicit.als.AlternatingLeastSquares, "bpr": implicit.bpr.BayesianPersonalizedRanking,
           "lmf": implicit.lmf.LogisticMatrixFactorization}
    m, want = call(fns[kind], c["a"], SIG[kind])
    want.pop("use_gpu")
    if want["num_threads"] != 1 and kind != "als":
        m.num_threads = want["num_threads"] = 1  # other thread counts sample differently
    want["dtype"] = np.dtype(want["dtype"])
    if kind == "als" and want["regularization"] == 0:
        m.regularization = want["regularization"] = 0.5
    d = mf_class(kind)(**want)
    mat = G.build_matrix({"shape": [9, 8], "kind": "counts", "seed": c["seed"], "density": 0.4, "hole": True, "min1": True}, np.float32)
    from implicit.recommender_base import ModelFitError
    res = []
    for x in (m, d):
        try:
            x.fit(mat, show_progress=False)
            res.append((x.user_factors, x.item_factors))
        except (ModelFitError, ValueError) as e:
            res.append(type(e).__name__)
    if isinstance(res[0], str) or isinstance(res[1], str):
        if res[0] != res[1] and isinstance(res[0], str) != isinstance(res[1], str):
            O.fail("%s: factory model %s, class %s", kind, res[0] if isinstance(res[0], str) else "fits", res[1] if isinstance(res[1], str) else "fits")
        return False, ["raised"]
    for a, b, n in zip(res[0], res[1], ("user", "item")):
        if a.dtype != b.dtype or a.shape != b.shape or not np.allclose(a, b, rtol=1e-4, atol=1e-5):
            O.fail("%s(%s): %s factors differ from those of the class with %s", kind, c["a"], n, want)
    return True, [kind]


@st.composite
def knn(draw):
    kind = draw(st.sampled_from(list(KNN)))
    return {"kind": kind, "a": draw(args(KNN[kind])), "seed": draw(G.seeds)}


def run_knn(c):
    from vlib import knnref as R
    from vlib.models import knn_class
    m, want = call(knn_class(c["kind"]), c["a"], KNN[c["kind"]])
    for n, v in want.items():
        if not same(n, getattr(m, n), v):
            O.fail("%s(%s): %s is %r, should be %r", c["kind"], c["a"], n, getattr(m, n), v)
    mat = G.build_matrix({"shape": [8, 7], "kind": "counts", "seed": c["seed"], "density": 0.5, "hole": False, "min1": True})
    m.fit(mat, show_progress=False)
    n = np.ediff1d(m.similarity.tocsr().indptr)
    if n.max(initial=0) > want["K"]:
        O.fail("%s: %d neighbours with K=%d", c["kind"], n.max(), want["K"])
    return True, [c["kind"]]


TESTS = [
    T("factory", factory, run_factory, 5000, 60000),
    T("train", train, run_train, 2500, 40000),
    T("knn", knn, run_knn, 1000, 10000),
]
