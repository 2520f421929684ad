"""C21: queries change nothing, no call modifies its arguments, results are not aliases of state."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, knn_class, mf_class

ANN = ["annoy", "faiss", "nmslib"]


# ---- snapshots -------------------------------------------------------------------------------

def snap(x):
    """A deep, comparable copy of a value (storage of sparse matrices included)."""
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if sp.issparse(x):
        if x.format in ("csr", "csc"):
            return (x.format, x.shape, snap(x.data), snap(x.indices), snap(x.indptr))
        if x.format == "coo":
            return ("coo", x.shape, snap(x.data), snap(x.row), snap(x.col))
        return (x.format, x.shape, snap(x.toarray()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, snap(v)) for k, v in sorted(x.items()))
    if x is None or isinstance(x, (int, float, str, bool, np.generic, np.dtype)):
        return (type(x).__name__, repr(x))
    return ("object", type(x).__name__)


STATE = ["user_factors", "item_factors", "similarity", "factors", "regularization", "alpha",
         "iterations", "learning_rate", "neg_prop", "verify_negative_samples", "use_cg",
         "use_native", "cg_steps", "num_threads", "random_state", "dtype", "K", "K1", "B",
         "calculate_training_loss", "nlist", "nprobe", "n_trees", "search_k", "index_params",
         "query_params", "approximate_similar_items", "approximate_recommend"]


def state(m):
    out = {k: snap(getattr(m, k)) for k in STATE if hasattr(m, k)}
    if hasattr(m, "model"):
        out["model"] = state(m.model)
    return out


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)] + [k for k in b if k not in a]


def scribble(x):
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = np.array(77).astype(x.dtype)
    elif isinstance(x, (tuple, list)):
        for v in x:
            scribble(v)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)


def copy_result(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (tuple, list)):
        return [copy_result(v) for v in x]
    return x


def close(a, b, what):
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            O.fail("%s: a repeated call returned %d values instead of %d", what, len(b), len(a))
        for x, y in zip(a, b):
            close(x, y, what)
    elif isinstance(a, np.ndarray) or np.isscalar(a):
        x, y = np.asarray(a, np.float64), np.asarray(b, np.float64)
        # the ids of exact ties come from the same deterministic code: repeated calls agree
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-5, atol=1e-6, equal_nan=True):
            O.fail("%s: the call answers differently after its first result was overwritten: "
                   "%s, then %s", what, x.tolist(), y.tolist())


def pure(m, fn, args, what, repeat=True):
    """fn(**args) must leave m and args alone, and its result must not alias m's state."""
    before, abefore = (state(m) if m is not None else {}), snap(args)
    res = fn(**args)
    for when in ("by the call", "by writing into its result"):
        if when == "by the call" and snap(args) != abefore:
            bad = [k for k in args if snap(args[k]) != dict((e[0], e[1]) for e in abefore[1:])[k]]
            O.fail("%s: argument %s was modified %s", what, ",".join(bad), when)
        if m is not None and state(m) != before:
            O.fail("%s: the model's %s changed %s", what, ",".join(diff(before, state(m))), when)
        first = copy_result(res) if when == "by the call" else first
        scribble(res)
    if repeat:
        close(first, copy_result(fn(**args)), what)
        if m is not None and state(m) != before:
            O.fail("%s: the model's %s changed", what, ",".join(diff(before, state(m))))
    return first


# ---- generated calls -------------------------------------------------------------------------

def rand(rng, r, c, dtype, unsorted, density=0.4, values=(1, 2, 3, 5)):
    mask = rng.random((r, c)) < density
    ii, jj = np.nonzero(mask)
    m = sp.csr_matrix((rng.choice(np.array(values, float), len(ii)).astype(dtype),
                       (ii.astype(np.int32), jj.astype(np.int32))), shape=(r, c))
    m.sort_indices()
    return G.shuffle_indices(m, int(rng.integers(2**20))) if unsorted else m


def ids(rng, n, k, how):
    v = rng.choice(n, min(k, n), replace=False).tolist()
    return G.as_ids(v, how)


MFOPS = ["recommend", "recommend", "similar_items", "similar_users", "rank_items", "metrics", "fit",
         "recommend_all"]
ALSOPS = MFOPS + ["recalc_rec", "recalc_sim", "recalc_user", "recalc_item", "explain", "pfu", "pfi"]
KNNOPS = ["recommend", "recommend", "similar_items", "metrics", "rank_items", "fit"]
ANNOPS = ["recommend", "recommend", "similar_items", "recalc_rec"]


@st.composite
def step(draw, ops):
    return {"op": draw(st.sampled_from(ops)), "seed": draw(G.seeds), "N": draw(st.integers(1, 9)),
            "batch": draw(st.booleans()), "it": draw(G.id_types), "liked": draw(st.booleans()),
            "flt": draw(st.sampled_from(["none", "filter", "items"])),
            "unsorted": draw(st.booleans()), "dtype": draw(st.sampled_from(["float32", "float64", "int32", "int64"])),
            "vals": draw(st.sampled_from(["pos", "frac", "frac", "zero", "neg"])),
            "fmt": draw(st.sampled_from(["csr", "csr", "csc", "coo"]))}


VALS = {"pos": (1, 2, 3, 5), "zero": (0, 1, 2), "neg": (-1, 1, -2, 3),
        "frac": (0.1, 1 / 3, 2.7, 1.9, 7.13)}  # (rounded by any arithmetic)


@st.composite
def case(draw, ann=False, big=False):
    model = draw(st.sampled_from(["als", "als", "bpr"] if ann else
                                 ["als", "als", "als", "bpr", "lmf"] + KNN))
    wrap = draw(st.sampled_from(ANN)) if ann else None
    ops = ANNOPS if ann else (KNNOPS if model in KNN else (ALSOPS if model == "als" else MFOPS))
    if ann and model != "als":
        ops = ops[:-1]
    return {"model": model, "wrap": wrap, "nu": draw(st.integers(1, 7) if not big else st.sampled_from([90, 300])),
            "ni": draw(st.one_of(st.integers(1, 40 if ann else 9), st.integers(1, 60)) if not big else st.sampled_from([150, 1100])),
            "f": draw(st.integers(1, 4) if not big else st.sampled_from([4, 33, 64])),
            "dtype": draw(G.dtypes), "alpha": draw(st.sampled_from([1.0, 1.0, 2.0, 0.3, 1.7])),
            "neg": draw(st.booleans()), "seed": draw(G.seeds), "fdtype": draw(G.dtypes),
            "threads": draw(st.sampled_from([1, 2])), "unsorted": draw(st.booleans()),
            "cg": draw(st.booleans()), "native": big or draw(st.booleans()),
            "steps": draw(st.lists(step(ops), min_size=1, max_size=5)), "ids": draw(st.sampled_from([3, 40, 130, 260])) if big else 3}


def make(c):
    if c["model"] in KNN:
        return knn_class(c["model"])(K=c["f"] + 1, num_threads=c["threads"])
    kw = {"factors": c["f"], "iterations": 2, "random_state": 5, "num_threads": c["threads"]}
    if c["model"] == "als":
        kw.update(dtype=np.dtype(c["dtype"]), regularization=0.5, alpha=c["alpha"], use_cg=c["cg"],
                  use_native=c["native"], calculate_training_loss=c["native"])
    elif c["model"] == "bpr":
        kw.update(dtype=np.dtype(c["dtype"]))
    else:
        kw.update(learning_rate=0.1, neg_prop=2)
    return mf_class(c["model"])(**kw)


def wrapped(c, m):
    if c["wrap"] == "annoy":
        from implicit.ann.annoy import AnnoyModel
        return AnnoyModel(m, n_trees=3)
    if c["wrap"] == "faiss":
        from implicit.ann.faiss import FaissModel
        return FaissModel(m, nlist=1, nprobe=1, use_gpu=False)
    from implicit.ann.nmslib import NMSLibModel
    return NMSLibModel(m)


def trainset(c, rng):
    dt = np.dtype(c["fdtype"])
    vals = (1, 2, -1, 3) if c["neg"] and c["model"] == "als" else (1, 2, 3, 5)
    m = rand(rng, c["nu"], c["ni"], dt, c["unsorted"], 0.5, vals)
    if m.nnz == 0:
        m = sp.csr_matrix((np.ones(1, dt), (np.zeros(1, np.int32), np.zeros(1, np.int32))),
                          shape=(c["nu"], c["ni"]))
    return m


def run(c):
    from checks.c20 import quiet
    if c["wrap"]:
        with quiet():
            return _run(c)
    return _run(c)


def _run(c):
    rng = np.random.default_rng(c["seed"])
    nu, ni = c["nu"], c["ni"]
    knn = c["model"] in KNN
    m = make(c)
    train = trainset(c, rng)
    if c["wrap"]:
        m = wrapped(c, m)
    before = snap(train)
    m.fit(train, show_progress=False)
    if snap(train) != before:
        O.fail("%s.fit modified its matrix (dtype %s, %s indices)", c["model"], train.dtype,
               "unsorted" if c["unsorted"] else "sorted")
    labels = []
    for s in c["steps"]:
        rng = np.random.default_rng(s["seed"])
        op, b = s["op"], s["batch"]
        n = nu if op in ("recommend", "recalc_rec", "recalc_user", "similar_users", "pfu") else ni
        q = ids(rng, n, c.get("ids", 3), s["it"]) if b else int(rng.integers(n))
        rows = len(q) if b else 1
        dt = np.dtype(s["dtype"])
        if dt.kind != "f" and (knn or op in ("metrics", "fit", "explain", "recommend_all")):
            dt = np.dtype("float64")
        vals = VALS[s["vals"]] if op in ("recommend", "recalc_rec", "recalc_user", "recalc_sim", "recalc_item",
                                         "pfu", "pfi", "rank_items", "recommend_all") else VALS["frac" if s["vals"] == "frac" and dt.kind == "f" else "pos"]
        what = "%s%s %s %s" % (c["model"], "/" + c["wrap"] if c["wrap"] else "", op, "batch" if b else "scalar")
        labels.append(op)
        if op in ("recommend", "recalc_rec"):
            a = {"userid": q, "user_items": rand(rng, rows, ni, dt, s["unsorted"], 0.4, vals), "N": s["N"],
                 "filter_already_liked_items": s["liked"]}
            if op == "recalc_rec":
                a["recalculate_user"] = True
            if s["flt"] == "filter":
                a["filter_items"] = ids(rng, ni, 2, s["it"])
            elif s["flt"] == "items" and not c["wrap"]:
                a["items"] = ids(rng, ni, 4, s["it"])
            pure(m, m.recommend, a, what)
        elif op in ("similar_items", "similar_users", "recalc_sim"):
            side = "users" if op == "similar_users" else "items"
            a = {side[:-1] + "id": q, "N": s["N"]}
            if op == "recalc_sim":
                a.update(recalculate_item=True, item_users=rand(rng, rows, nu, dt, s["unsorted"], 0.4, vals))
            if s["flt"] == "filter":
                a["filter_" + side] = ids(rng, n, 2, s["it"])
            elif s["flt"] == "items" and not c["wrap"]:
                a[side] = ids(rng, n, 4, s["it"])
            pure(m, getattr(m, "similar_" + side), a, what)
        elif op == "rank_items":
            a = {"userid": 0, "user_items": rand(rng, 1, ni, dt, s["unsorted"], 0.4, vals),
                 "selected_items": ids(rng, ni, 4, s["it"])}
            pure(m, m.rank_items, a, what)
        elif op == "recommend_all":
            a = {"user_items": rand(rng, nu, ni, dt, s["unsorted"], 0.4, vals), "N": s["N"],
                 "filter_already_liked_items": s["liked"]}
            if s["flt"] == "filter":
                a["filter_items"] = ids(rng, ni, 2, s["it"])
            pure(m, m.recommend_all, a, what)
        elif op == "recalc_user":
            a = {"userid": q, "user_items": rand(rng, rows, ni, dt, s["unsorted"], 0.4, vals)}
            pure(m, m.recalculate_user, a, what)
        elif op == "recalc_item":
            a = {"itemid": q, "item_users": rand(rng, rows, nu, dt, s["unsorted"], 0.4, vals)}
            pure(m, m.recalculate_item, a, what)
        elif op == "explain":
            a = {"userid": 0, "user_items": rand(rng, 1, ni, dt, s["unsorted"]), "itemid": int(rng.integers(ni)),
                 "N": s["N"]}
            w = pure(m, m.explain, a, what)[2]
            a["user_weights"] = tuple(w)
            # user_weights is handed back to the caller: don't overwrite the argument
            pure(m, lambda **k: m.explain(**k)[:2], a, what + " with user_weights")
        elif op in ("pfu", "pfi"):
            if not b:
                q = G.as_ids([q], s["it"])
            a = {"userids": q, "user_items": rand(rng, rows, ni, dt, s["unsorted"], 0.4, vals)} if op == "pfu" else \
                {"itemids": q, "item_users": rand(rng, rows, nu, dt, s["unsorted"], 0.4, vals)}
            other = "item_factors" if op == "pfu" else "user_factors"
            st0, a0 = state(m), snap(a)
            (m.partial_fit_users if op == "pfu" else m.partial_fit_items)(**a)
            if snap(a) != a0:
                O.fail("%s modified its arguments", what)
            changed = set(diff(st0, state(m))) - {"user_factors" if op == "pfu" else "item_factors"}
            if changed:
                O.fail("%s changed %s (%s)", what, sorted(changed), other)
        elif op == "metrics":
            from implicit.evaluation import ranking_metrics_at_k
            test = rand(rng, nu, ni, dt, s["unsorted"], 0.3)
            keep = np.ediff1d(test.indptr) < ni  # AUC is undefined if nothing is negative
            test = sp.csr_matrix(sp.diags(keep.astype(dt)) @ test)
            test.eliminate_zeros()
            if not test.nnz:
                continue
            a = {"model": m, "train_user_items": rand(rng, nu, ni, dt, s["unsorted"], 0.3),
                 "test_user_items": test, "K": s["N"], "show_progress": False}
            r = pure(m, lambda **k: sorted(ranking_metrics_at_k(**k).items()), a, what, False)
            assert r
        elif op == "fit":
            t = trainset(dict(c, unsorted=s["unsorted"], fdtype=dt.name), rng)
            if s["fmt"] != "csr":
                t = t.asformat(s["fmt"])
            st0, t0 = state(m), snap(t)
            m.fit(t, show_progress=False)
            if snap(t) != t0:
                O.fail("%s modified its matrix (%s, %s indices)", what, t.dtype,
                       "unsorted" if s["unsorted"] else "sorted")
            changed = set(diff(st0, state(m))) - {"user_factors", "item_factors", "similarity"}
            if changed:
                O.fail("%s changed the hyper-parameters %s", what, sorted(changed))
    return True, [c["wrap"] or c["model"]] + sorted(set(labels))


# ---- functions -------------------------------------------------------------------------------

@st.composite
def fn_case(draw, big=False):
    return {"fn": draw(st.sampled_from(["tfidf", "bm25", "normalize", "split", "leave", "all_pairs", "check_csr"])),
            "fmt": draw(st.sampled_from(["csr", "csc", "coo"])), "r": draw(st.integers(1, 8) if not big else st.sampled_from([5, 130, 1100])),
            "c": draw(st.integers(1, 8) if not big else st.sampled_from([20, 130, 1100])), "seed": draw(G.seeds), "unsorted": draw(st.booleans()),
            "dtype": draw(G.dtypes), "d": draw(st.sampled_from([0.3, 0.6, 1.0]))}


def run_fn(c):
    import implicit.nearest_neighbours as nn
    from implicit import evaluation as ev
    from implicit.utils import check_csr
    rng = np.random.default_rng(c["seed"])
    m = rand(rng, c["r"], c["c"], np.float64 if c["fn"] == "all_pairs" else np.dtype(c["dtype"]), c["unsorted"], c["d"])
    if not m.nnz:
        return False, []
    if c["fmt"] != "csr":
        m = m.asformat(c["fmt"])
    f = {"tfidf": lambda X: nn.tfidf_weight(X), "bm25": lambda X: nn.bm25_weight(X),
         "normalize": lambda X: nn.normalize(X),
         "split": lambda X: ev.train_test_split(X, 0.7, random_state=3),
         "leave": lambda X: ev.leave_k_out_split(X, K=1, random_state=3),
         "all_pairs": lambda X: nn.all_pairs_knn(X, 3, show_progress=False),
         "check_csr": lambda X: check_csr(X)}[c["fn"]]
    before = snap(m)
    f(m)
    if snap(m) != before:
        O.fail("%s modified its %s argument", c["fn"], c["fmt"])
    return True, [c["fn"], c["fmt"]]


TESTS = [
    T("models", case, run, 4500, 90000),
    T("large", lambda: case(big=True), run, 80, 1600),
    T("ann", lambda: case(True), run, 600, 12000),
    T("functions", fn_case, run_fn, 2500, 30000),
    T("large_functions", lambda: fn_case(True), run_fn, 120, 2400),
]
