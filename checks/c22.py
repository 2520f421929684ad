"""C22: storage format, value dtype and index order of the input don't change the result."""
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import ann
from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, knn_class, mf_class

FORMATS = ["csr", "csr", "csr", "csc", "coo", "lil"]
DTYPES = ["float64", "float32", "int64", "int32", "int16", "uint8", "int8", "bool"]


def variant(draw):
    return {"fmt": draw(st.sampled_from(FORMATS)), "dtype": draw(st.sampled_from(DTYPES)),
            "perm": draw(st.one_of(st.none(), G.seeds)),
            "store": draw(st.sampled_from(["plain"] * 5 + ["spare", "spare", "strided", "i64", "array"]))}


def stored(m, how):
    """The same CSR matrix with unused capacity, strided values, 64 bit indices or as a sparse array"""
    if how == "spare":
        m.data = np.append(m.data, np.ones(3, m.data.dtype))
        m.indices = np.append(m.indices, np.zeros(3, m.indices.dtype))
    elif how == "strided":
        m.data = np.repeat(m.data, 2)[::2]
    elif how == "i64":
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
    elif how == "array":
        a = sp.csr_array(m.shape, dtype=m.dtype)
        a.data, a.indices, a.indptr = m.data, m.indices, m.indptr
        a.has_sorted_indices = m.has_sorted_indices
        return a
    return m


@st.composite
def case(draw, big=False):
    model = draw(st.sampled_from(["als", "als", "als", "bpr", "lmf", "lmf"] + KNN))
    kinds = ("ones", "counts", "frac", "signed") if model == "als" else ("ones", "counts", "frac", "huge", "tiny")
    return {"model": model, "m": draw(G.matrix((1, 9), (1, 9), kinds, *(((200, 1100), (200, 1100), 1.1) if big else ((10, 120), (10, 120), 0.3)), min_nnz=1)),
            "v": variant(draw), "f": draw(st.sampled_from([4, 33, 64]) if big else st.integers(1, 5)), "seed": draw(G.seeds),
            "dtype": draw(G.dtypes), "cg": draw(st.booleans()), "native": big or draw(st.booleans()),
            "alpha": draw(st.sampled_from([1.0, 1.0, 2.5, 100])), "verify": draw(st.booleans()),
            "threads": draw(st.sampled_from([1, 1, 2, 4])), "values": draw(st.sampled_from(["plain", "plain", "fine", "wide"])),
            "it": draw(st.integers(1, 2)), "q": draw(st.lists(st.integers(0, 8), min_size=1, max_size=3))}


def convert(base, v):
    """The same interactions in another representation; None if it cannot hold the values."""
    d = base.data
    dt = np.dtype(v["dtype"])
    if dt.kind in "iu" and (np.any(d != np.round(d)) or (dt.kind == "u" and np.any(d < 0)) or
                            np.any(np.abs(d) > np.iinfo(dt).max)):
        dt = np.dtype("float64")
    if dt.kind == "b" and np.any(d != 1):
        dt = np.dtype("float64")
    if dt == np.float32 and np.any(d != d.astype(np.float32)):
        dt = np.dtype("float64")
    m = base.astype(dt)
    if v["fmt"] == "csr":
        m = G.shuffle_indices(m, v["perm"]) if v["perm"] is not None else m.copy()
    elif v["fmt"] == "coo":
        m = m.tocoo()
        if v["perm"] is not None:
            p = np.random.default_rng(v["perm"]).permutation(m.nnz)
            m = sp.coo_matrix((m.data[p], (m.row[p], m.col[p])), shape=m.shape)
    else:
        m = m.asformat(v["fmt"])
    return stored(m, v.get("store", "plain")) if v["fmt"] == "csr" else m


def make(c):
    if c["model"] in KNN:
        return knn_class(c["model"])(K=c["f"] + 2, num_threads=c.get("threads", 1))
    kw = {"factors": c["f"], "iterations": c["it"], "random_state": c["seed"], "num_threads": 1}
    if c["model"] == "als":
        kw["num_threads"] = c.get("threads", 1)
        kw.update(dtype=np.dtype(c["dtype"]), regularization=1.0, alpha=c["alpha"], use_cg=c["cg"],
                  use_native=c["native"])
    elif c["model"] == "bpr":
        kw.update(dtype=np.dtype(c["dtype"]), verify_negative_samples=c["verify"], learning_rate=0.1)
    else:
        kw.update(learning_rate=0.3, neg_prop=3)
    return mf_class(c["model"])(**kw)


def fit(m, X):
    """fits and returns whether a ParameterWarning was given"""
    from implicit.utils import ParameterWarning
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        m.fit(X, show_progress=False)
    return any(issubclass(x.category, ParameterWarning) for x in w)


def run(c):
    base = G.build_matrix(c["m"])
    if not base.nnz:
        return False, ["empty"]
    if c["model"] in KNN and c.get("values", "plain") != "plain":  # values that need double precision
        base.data = base.data * (1 / 3 if c["values"] == "fine" else 40000007)
    v = dict(c["v"])
    if c["model"] == "bpr" and not c["verify"]:
        # the interactions are then sampled in storage order
        v["perm"] = None
    if c["model"] in KNN and v.get("store") == "spare":
        v["store"] = "plain"  # scipy can't convert these itself
    if v.get("store") == "spare":
        v["dtype"] = "float32"  # (a conversion to the dtype of the model would drop it)
    X = convert(base, v)
    store = v.get("store", "plain") if v["fmt"] == "csr" else "plain"
    what = "%s fitted on %s %s%s%s" % (c["model"], v["fmt"], X.dtype, "" if store == "plain" else " (" + store + ")",
                                       " with shuffled entries" if v["perm"] is not None else "")
    a, b = make(c), make(c)
    fit(a, base)
    try:
        warned = fit(b, X)
    except (ValueError, TypeError):
        if store in ("i64", "array"):  # these may be refused, but not misread
            return False, ["refused"]
        raise
    if c["model"] in KNN:
        # rounding can reorder or replace neighbours of equal weight: compare the values per row
        s, t = a.similarity.tocsr(), b.similarity.tocsr()
        # the weighted models compute in the precision of the values
        eps = 2e-5 if X.dtype == np.float32 else 1e-9
        tol = eps * max(1.0, float(np.abs(s.data).max(initial=0)))
        for r in range(s.shape[0]):
            x, y = np.sort(s[r].data)[::-1], np.sort(t[r].data)[::-1]
            if len(x) != len(y) or np.any(np.abs(x - y) > tol):
                O.fail("%s: neighbours of item %d: %s instead of %s", what, r, y.tolist(), x.tolist())
        d = s - t
        if d.nnz and len(np.unique(np.round(s.data, 4))) == s.nnz and np.abs(d.data).max() > tol:
            O.fail("%s: other similarities: %s instead of %s", what, t.toarray().tolist(), s.toarray().tolist())
    else:
        if warned != (v["fmt"] != "csr") and store != "array":
            O.fail("%s: %s ParameterWarning", what, "unexpected" if warned else "no")
        f32 = a.item_factors.dtype == np.float32
        for n in ("user_factors", "item_factors"):
            x, y = getattr(a, n), getattr(b, n)
            if x.shape != y.shape or x.dtype != y.dtype:
                O.fail("%s: %s has shape/dtype %s %s instead of %s %s", what, n, y.shape, y.dtype, x.shape, x.dtype)
            # entries are summed in another order only by ALS; the systems are well conditioned
            scale = max(1.0, float(np.abs(x).max(initial=0)))
            # (a conjugate gradient run cut off after 3 steps magnifies float32 rounding)
            tol = ((5e-2 if f32 and c["cg"] else 5e-3 if f32 else 1e-7) if c["model"] == "als" else 1e-5) * scale
            if np.abs(x.astype(np.float64) - y).max(initial=0) > tol:
                O.fail("%s: %s differs by %.3g from the model fitted on CSR float64", what, n,
                       np.abs(x.astype(np.float64) - y).max())
    changed = v["fmt"] != "csr" or v["perm"] is not None or X.dtype != np.float64
    return changed and base.nnz > 1, [c["model"], v["fmt"], str(X.dtype), "shuffled" if v["perm"] is not None else "sorted"]


# ---- queries ---------------------------------------------------------------------------------

@st.composite
def qcase(draw):
    model = draw(st.sampled_from(["als", "als", "bpr", "lmf"] + KNN))
    return {"model": model, "nu": draw(st.integers(1, 6)), "ni": draw(st.integers(2, 9)), "seed": draw(G.seeds),
            "op": draw(st.sampled_from(["recommend", "reject", "reject", "recalc_user", "recalc_item", "pfu", "pfi",
                                        "explain", "metrics", "weights"])),
            "v": variant(draw), "n": draw(st.integers(1, 3)), "scalar": draw(st.booleans()),
            "liked": draw(st.booleans()), "recalc": draw(st.booleans()), "items": draw(st.booleans())}


def run_q(c):
    rng = np.random.default_rng(c["seed"])
    base_c = {"model": c["model"], "f": 2, "it": 1, "seed": 3, "dtype": "float64", "alpha": {1: 1.0, 2: 2.0, 3: 100}[c["n"]],
              "cg": False, "native": True, "verify": True}

    def mat(r, k, density=0.5):
        return G.build_matrix({"shape": [r, k], "kind": "counts", "seed": int(rng.integers(2**20)),
                               "density": density, "hole": False, "min1": True})
    train = mat(c["nu"], c["ni"])
    op, v = c["op"], dict(c["v"])
    if c["model"] != "als" and op in ("recalc_user", "recalc_item", "pfu", "pfi", "explain"):
        op = "recommend"
    keep = {"recommend": ("strided",) if c["items"] else ("spare", "strided"),  # (scipy can't slice the others)
            "recalc_user": ("spare", "strided"), "recalc_item": ("spare", "strided"), "metrics": ("strided",),
            "explain": ("strided",)}
    if v.get("store") not in keep.get(op, ()):
        v["store"] = "plain"
    m = make(base_c)
    m.fit(train, show_progress=False)
    knn = c["model"] in KNN
    rows = 1 if c["scalar"] else c["n"]
    what = "%s %s with %s %s" % (c["model"], op, v["fmt"], v["dtype"])
    if op == "recommend":
        # CSR in any dtype/order
        base = mat(rows, c["ni"])
        v["fmt"] = "csr"
        u = 0 if c["scalar"] else rng.integers(0, c["nu"], rows)
        kw = {"N": 4, "filter_already_liked_items": c["liked"]}
        if c["model"] == "als" and c["recalc"]:
            kw["recalculate_user"] = True
        if c["items"]:
            kw["items"] = np.unique(rng.integers(0, c["ni"], 4))
        r1, r2 = m.recommend(u, base, **kw), m.recommend(u, convert(base, v), **kw)
        s1 = np.asarray(r1[1], np.float64)
        O.same_answer(r1, r2, what, 1e-5 * (1 + np.abs(s1[s1 > O.SENTINEL]).max(initial=0)))
        return v["perm"] is not None or v["dtype"] != "float64", [op, c["model"], v["dtype"]]
    if op == "reject":
        if v["fmt"] == "csr":
            v["fmt"] = "csc"
        liked, recalc = c["liked"], c["recalc"] and c["model"] == "als"
        if not knn and not (liked or recalc):
            liked = True
        X = convert(mat(rows, c["ni"]), dict(v, dtype="float64"))
        u = 0 if c["scalar"] else rng.integers(0, c["nu"], rows)
        try:
            m.recommend(u, X, N=3, filter_already_liked_items=liked, recalculate_user=recalc)
        except ValueError:
            return True, [op, c["model"], v["fmt"]]
        O.fail("%s: recommend accepted %s (filter_already_liked_items=%s, recalculate_user=%s)", what,
               type(X).__name__, liked, recalc)
    if op in ("recalc_user", "pfu", "recalc_item", "pfi"):
        users = op in ("recalc_user", "pfu")
        base = mat(rows, c["ni"] if users else c["nu"])
        X = convert(base, v)
        n = c["nu"] if users else c["ni"]
        if op.startswith("recalc"):
            q = 0 if c["scalar"] else rng.integers(0, n, rows)
            fn = m.recalculate_user if users else m.recalculate_item
            a, b = fn(q, base), fn(q, X)
        else:
            q = rng.choice(n + 2, min(rows, n + 2), replace=False)
            base, X = base[:len(q)], convert(base[:len(q)], v)
            m2 = make(base_c)
            m2.fit(train, show_progress=False)
            for mm, x in ((m, base), (m2, X)):
                (mm.partial_fit_users if users else mm.partial_fit_items)(q, x)
            a, b = (m.user_factors, m2.user_factors) if users else (m.item_factors, m2.item_factors)
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-5, atol=1e-7):
            O.fail("%s: %s instead of %s", what, np.asarray(b).tolist(), np.asarray(a).tolist())
        return True, [op, v["fmt"], v["dtype"]]
    if op == "explain":
        base = mat(1, c["ni"])
        X = convert(base, v)
        i = int(rng.integers(c["ni"]))
        (ta, pa, _), (tb, pb, _) = m.explain(0, base, i, N=50), m.explain(0, X, i, N=50)
        if not np.isclose(ta, tb, rtol=1e-6, atol=1e-9) or sorted(k for k, _ in pa) != sorted(k for k, _ in pb) \
                or not np.allclose([s for _, s in sorted(pa)], [s for _, s in sorted(pb)], rtol=1e-6, atol=1e-9):
            O.fail("%s: %s instead of %s", what, (tb, pb), (ta, pa))
        return True, [op, v["fmt"]]
    if op == "metrics":
        from implicit.evaluation import ranking_metrics_at_k
        tr, te = mat(c["nu"], c["ni"], 0.3), mat(c["nu"], c["ni"], 0.3)
        te = sp.csr_matrix(te.multiply((np.ediff1d(te.indptr) < c["ni"])[:, None]))
        te.eliminate_zeros()
        if not te.nnz:
            return False, []
        if knn and np.dtype(v["dtype"]).kind != "f":
            v["dtype"] = "float64"
        a = ranking_metrics_at_k(m, tr, te, K=3, show_progress=False)
        b = ranking_metrics_at_k(m, convert(tr, v), convert(te, v), K=3, show_progress=False)
        if sorted(a) != sorted(b) or any(abs(a[k] - b[k]) > 1e-9 for k in a):
            O.fail("%s: %s instead of %s", what, b, a)
        return True, [op, v["fmt"]]
    import implicit.nearest_neighbours as nn
    if v["dtype"] in ("int16", "uint8"):
        v["dtype"] = "int64"
    if c["recalc"]:
        train = train * 60000.0
    X = convert(train, v)
    for name in ("tfidf_weight", "bm25_weight", "normalize"):
        a, b = getattr(nn, name)(train), getattr(nn, name)(X)
        tol = 1e-9 if np.dtype(X.dtype) != np.float32 else 1e-5
        if a.shape != b.shape or not np.allclose(a.toarray(), b.toarray(), rtol=tol, atol=tol):
            O.fail("%s of %s %s differs: %s instead of %s", name, v["fmt"], X.dtype, b.toarray().tolist(), a.toarray().tolist())
    return True, ["weights", v["fmt"]]


# ---- the approximate wrappers ----------------------------------------------------------------

@st.composite
def acase(draw):
    return dict(draw(ann.exhaustive()), v=variant(draw), n=draw(st.integers(1, 4)), seed=draw(G.seeds),
                liked=draw(st.booleans()), reject=draw(st.booleans()), refit=draw(st.booleans()))


def run_ann(c):
    rng = np.random.default_rng(c["seed"])
    w, _ = ann.build(c)
    c = dict(c, v=dict(c["v"], store="plain"))
    what = "%s with %s %s" % (c["lib"], c["v"]["fmt"], c["v"]["dtype"])

    def mat(r):
        return G.build_matrix({"shape": [r, c["ni"]], "kind": "counts", "seed": int(rng.integers(2**20)),
                               "density": 0.4, "hole": False, "min1": True})
    if c["refit"]:
        # the inner model is trained on the converted matrix
        X = mat(c["nu"])
        fresh = dict(c, **{"as": True, "ar": True})
        a, b = ann.wrap(fresh, ann.blank(c)), ann.wrap(fresh, ann.blank(c))
        with ann.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a.fit(X, show_progress=False)
            b.fit(convert(X, c["v"]), show_progress=False)
        for n in ("user_factors", "item_factors"):
            x, y = getattr(a.model, n), getattr(b.model, n)
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-2, atol=1e-3 if x.dtype == np.float32 else 1e-7):
                O.fail("%s: the wrapped model's %s differs", what, n)
        return True, [c["lib"], "fit", c["v"]["fmt"]]
    u = rng.integers(0, c["nu"], c["n"])
    X = mat(c["n"])
    kw = {"N": 4, "filter_already_liked_items": c["liked"]}
    if c["reject"]:
        v = dict(c["v"], fmt="csc" if c["v"]["fmt"] == "csr" else c["v"]["fmt"])
        try:
            with ann.quiet():
                w.recommend(u, convert(X, v), N=4, filter_already_liked_items=True)
        except ValueError:
            return True, [c["lib"], "reject", v["fmt"]]
        O.fail("%s: recommend accepted %s", what, v["fmt"])
    with ann.quiet():
        r1, r2 = w.recommend(u, X, **kw), w.recommend(u, convert(X, dict(c["v"], fmt="csr")), **kw)
    s = np.asarray(r1[1], np.float64)
    O.same_answer(r1, r2, what, 1e-5 * (1 + np.abs(s[s > O.SENTINEL]).max(initial=0)))
    return True, [c["lib"], c["v"]["dtype"]]


TESTS = [T("ann", acase, run_ann, 500, 8000),
         T("fit", case, run, 5000, 100000), T("large", lambda: case(True), run, 48, 960), T("queries", qcase, run_q, 5000, 80000)]
