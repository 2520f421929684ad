"""C10: any history of fits, updates and queries answers like a fresh, equal model.

Model-based: after every step of a generated history the model must agree with a newly created
model holding a copy of its factors (or, for item-item models, a new fit of the last data)."""
import copy
import io
import os
import pickle
import tempfile

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import ann as A
from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, knn_class, mf_class

QUERIES = ["recommend", "recommend", "similar_items", "similar_users", "recalc_rec", "recalc_sim",
           "recalc_user", "recalc_item", "explain", "bad"]


@st.composite
def step(draw, model, big=False):
    ops = ["fit", "pickle", "save", "deepcopy", "metrics", "recommend", "similar_items", "similar_users", "bad"]
    if model == "als":
        ops = ["fit", "pickle", "save", "deepcopy", "metrics", "pfu", "pfu", "pfi", "pfi", "set"] + QUERIES
    elif model in KNN:
        ops = ["fit", "pickle", "save", "deepcopy", "metrics", "recommend", "recommend", "similar_items", "bad"]
    op = draw(st.sampled_from(ops))
    s = {"op": op, "seed": draw(st.integers(0, 2**16))}
    if op in ("recommend", "similar_items", "similar_users", "recalc_rec", "recalc_sim"):
        s.update(N=draw(st.integers(1, 8)), batch=draw(st.booleans()),
                 flt=draw(st.sampled_from(["none", "liked", "filter", "items"])))
    if op in ("pfu", "pfi"):
        s.update(grow=draw(st.sampled_from([0, 0, 1, 3] + [150] * big)), n=draw(st.integers(1, 120 if big else 3)))
    if op == "set":
        s.update(draw(st.sampled_from([{"regularization": 2.0}, {"regularization": 0.125}, {"alpha": 3.0}, {"num_threads": 3}])))
    return s


@st.composite
def history(draw, big=False):
    model = draw(st.sampled_from(["als", "als", "als", "bpr", "lmf"] + KNN[:2] + ["bm25"]))
    size = st.integers(2, 7) if not big else st.sampled_from([30, 101, 180, 600])
    return {"model": model, "nu": draw(size), "ni": draw(size), "nb": draw(st.sampled_from([3, 101, 130])) if big else 3,
            "f": draw(st.sampled_from([3, 17, 64]) if big else st.integers(1, 4)), "dtype": draw(G.dtypes), "cg": draw(st.booleans()),
            "alpha": draw(st.sampled_from([1.0, 2.0])), "seed": draw(st.integers(0, 2**16)),
            "threads": draw(st.sampled_from([1, 1, 2])),
            "steps": draw(st.lists(step(model, big), min_size=1, max_size=6 if big else 10))}


def kwargs(c):
    if c["model"] in KNN:
        return {"K": 1 + c["f"], "num_threads": c["threads"]}
    kw = {"factors": c["f"], "iterations": 2, "random_state": c["seed"], "num_threads": c["threads"]}
    if c["model"] == "als":
        kw.update(dtype=np.dtype(c["dtype"]), regularization=0.5, use_cg=c["cg"], alpha=c["alpha"])
        kw.update(c.get("set", {}))
    else:
        kw.update(learning_rate=0.1)
        if c["model"] == "bpr":
            kw["dtype"] = np.dtype(c["dtype"])
    return kw


def cls(c):
    return knn_class(c["model"]) if c["model"] in KNN else mf_class(c["model"])


def rand(rng, r, k, density=0.5):
    m = sp.random(r, k, density, format="csr", random_state=np.random.RandomState(rng.integers(2**31)))
    m.data = rng.integers(1, 5, len(m.data)).astype(np.float64)
    if m.nnz == 0:
        m = sp.csr_matrix(([1.0], ([0], [k - 1])), shape=(r, k))
    return m


def fresh(c, m, last):
    f = cls(c)(**kwargs(c))
    if c["model"] in KNN:
        f.fit(last, show_progress=False)
    else:
        f.user_factors = np.array(m.user_factors, copy=True)
        f.item_factors = np.array(m.item_factors, copy=True)
    return f


def query(c, m, s, nu, ni):
    """One query, as a pure function of the step; returns (kind, value)."""
    rng = np.random.default_rng(s["seed"])
    op = s["op"]
    nb = c.get("nb", 3)
    if op in ("recommend", "recalc_rec"):
        q = rng.integers(0, nu, nb) if s["batch"] else int(rng.integers(0, nu))
        ui = rand(rng, nb if s["batch"] else 1, ni)
        kw = {}
        if s["flt"] == "filter":
            kw["filter_items"] = rng.integers(0, ni, 2).tolist()
        elif s["flt"] == "items":
            kw["items"] = np.unique(rng.integers(0, ni, 3))
        return "result", m.recommend(q, ui, N=s["N"], filter_already_liked_items=s["flt"] == "liked",
                                     recalculate_user=op == "recalc_rec", **kw)
    if op in ("similar_items", "similar_users", "recalc_sim"):
        n = nu if op == "similar_users" else ni
        q = rng.integers(0, n, nb) if s["batch"] else int(rng.integers(0, n))
        what = "users" if op == "similar_users" else "items"
        kw = {}
        if op == "recalc_sim":
            kw.update(recalculate_item=True, item_users=rand(rng, nb if s["batch"] else 1, nu))
        if s["flt"] == "filter":
            kw["filter_" + what] = rng.integers(0, n, 2).tolist()
        elif s["flt"] == "items":
            kw[what] = np.unique(rng.integers(0, n, 3))
        return "result", getattr(m, "similar_" + what)(q, N=s["N"], **kw)
    if op == "recalc_user":
        return "array", m.recalculate_user(np.arange(2) % nu, rand(rng, 2, ni))
    if op == "recalc_item":
        return "array", m.recalculate_item(np.arange(2) % ni, rand(rng, 2, nu))
    if op == "explain":
        t, top, _ = m.explain(0, rand(rng, 1, ni), int(rng.integers(0, ni)), N=50)
        vals = np.zeros(ni + 1)
        vals[-1] = t
        for i, v in top:
            vals[i] = v
        return "array", vals
    if op == "metrics":
        from implicit.evaluation import ranking_metrics_at_k
        train, test = rand(rng, nu, ni, 0.3), rand(rng, nu, ni, 0.3).tolil()
        test[:, int(rng.integers(0, ni))] = 0
        test = test.tocsr()
        test.eliminate_zeros()
        if test.nnz == 0:
            return "none", None
        r = ranking_metrics_at_k(m, train, test, K=1 + s["seed"] % 4, show_progress=False, num_threads=1)
        return "array", np.array([r[k] for k in sorted(r)])
    if op == "bad":
        for call in (lambda: m.recommend([0, 1], rand(rng, 3, ni)),
                     lambda: m.recommend(0, rand(rng, 1, ni), items=[0, ni + 5]),
                     lambda: m.similar_items(0, items=[ni + 7], N=2),
                     lambda: m.recommend(0, rand(rng, 1, ni).tocsc(), N=2)):
            try:
                call()
            except (ValueError, IndexError):
                continue
            O.fail("an invalid call was accepted")
        return "none", None
    raise KeyError(op)


def compare(a, b, what, scale):
    if a[0] == "result":
        # tolerance: rounding of equal factors in possibly different memory layouts
        fin = [np.abs(np.asarray(x[1][1], np.float64)[np.asarray(x[1][1]) > -1e30]) for x in (a, b)]
        mag = max([float(v.max()) for v in fin if v.size] + [0.0])
        O.same_answer(a[1], b[1], what, tol=1e-5 * max(mag, 1e-30))
        if np.asarray(a[1][0]).shape != np.asarray(b[1][0]).shape:
            O.fail("%s: shapes %s and %s", what, np.asarray(a[1][0]).shape, np.asarray(b[1][0]).shape)
    elif a[0] == "array":
        if not np.allclose(a[1], b[1], rtol=1e-4, atol=1e-4 * (1 + scale)):
            O.fail("%s: %s vs %s", what, np.asarray(a[1]).tolist(), np.asarray(b[1]).tolist())


class Stop(Exception):
    pass


def fit(c, m, data, seed, what):
    """Trains m; depending on the seed, the callback queries the model at every epoch (each answer has to
    be that of a fresh model), or stops the training."""
    if c["model"] in KNN or seed % 2:
        m.fit(data, show_progress=False)
        return
    nu, ni = data.shape

    def callback(epoch, *_):
        f = fresh(c, m, data)
        for i, s in enumerate(PROBES[c["model"] == "als"]):
            if (seed >> (2 + i)) % 2 == 0:
                s = dict(s, seed=seed + i)
                compare(query(c, m, s, nu, ni), query(c, f, s, nu, ni), "%s, %s in the callback of epoch %d" % (
                    what, s["op"], epoch), 1 + float(np.abs(m.item_factors).max()))
        if seed % 4 == 0 and epoch == seed // 4 % 2:
            raise Stop()
    try:
        m.fit(data, show_progress=False, callback=callback)
    except Stop:
        pass


PROBES = {True: [{"op": "similar_items", "N": 3, "batch": False, "flt": "none"},
                 {"op": "similar_users", "N": 3, "batch": True, "flt": "none"}, {"op": "recalc_user"},
                 {"op": "recalc_sim", "N": 3, "batch": True, "flt": "none"}, {"op": "recalc_item"}, {"op": "explain"}]}
PROBES[False] = PROBES[True][:2]


def run(c):
    c = dict(c, set={})
    rng = np.random.default_rng(c["seed"])
    nu, ni = c["nu"], c["ni"]
    m = cls(c)(**kwargs(c))
    knn = c["model"] in KNN
    last = rand(rng, nu, ni)
    fit(c, m, last, c["seed"], "the first fit")
    used = ["fit"]
    updates = 0
    for k, s in enumerate(c["steps"]):
        op = s["op"]
        srng = np.random.default_rng([s["seed"], 77])
        what = "after %s: %s" % (",".join(used), op)
        if op == "fit":
            if knn and s["seed"] % 3 == 0:  # item-item models may be refitted on another catalogue
                nu, ni = (int(x) for x in srng.integers(2, 8, 2))
            last = rand(srng, nu, ni)
            if not knn:
                f = fresh(c, m, last)
                f.fit(last, show_progress=False)
            fit(c, m, last, s["seed"], what)
            if not knn and s["seed"] % 4 and (c["model"] != "bpr" or c["threads"] == 1):
                if not (np.allclose(f.user_factors, m.user_factors, rtol=1e-3, atol=1e-5) and
                        np.allclose(f.item_factors, m.item_factors, rtol=1e-3, atol=1e-5)):
                    O.fail("%s: refit differs from a fresh model with the same start", what)
            updates += 1
        elif op == "set":
            for a in ("regularization", "alpha", "num_threads"):
                if a in s:
                    setattr(m, a, s[a])
                    c["set"][a] = s[a]
        elif op == "deepcopy":
            old, m = m, copy.deepcopy(m)
            if s["seed"] % 2:
                m, old = old, m
        elif op == "pickle":
            m = pickle.loads(pickle.dumps(m))
        elif op == "save":
            if s["seed"] % 2:
                buf = io.BytesIO()
                m.save(buf)
                buf.seek(0)
                m = cls(c).load(buf)
            else:
                with tempfile.TemporaryDirectory() as d:
                    m.save(os.path.join(d, "m"))
                    m = cls(c).load(os.path.join(d, "m"))
        elif op in ("pfu", "pfi"):
            n, other = (nu, ni) if op == "pfu" else (ni, nu)
            ids = srng.choice(n + s["grow"], min(s["n"], n + s["grow"]), replace=False)
            if s["grow"]:
                ids[0] = n + s["grow"] - 1
                ids = np.unique(ids)
            elif s["seed"] % 4 == 1:  # the same id twice: its last row counts
                ids = np.concatenate([ids, ids[:1], ids[-1:]])
            R = rand(srng, len(ids), other)
            before = [m.user_factors.copy(), m.item_factors.copy()]
            f = fresh(c, m, last)
            (m.partial_fit_users if op == "pfu" else m.partial_fit_items)(ids, R)
            (f.partial_fit_users if op == "pfu" else f.partial_fit_items)(ids, R)
            mine, theirs = (m.user_factors, f.user_factors) if op == "pfu" else (m.item_factors, f.item_factors)
            kept = m.item_factors if op == "pfu" else m.user_factors
            old = before[0] if op == "pfu" else before[1]
            if not np.array_equal(kept, before[1] if op == "pfu" else before[0]):
                O.fail("%s changed the other side's factors", what)
            if mine.shape[0] != max(n, int(ids.max()) + 1):
                O.fail("%s: %d rows after ids %s", what, mine.shape[0], ids.tolist())
            if mine.shape != theirs.shape or not np.allclose(mine, theirs, rtol=1e-3, atol=1e-4):
                O.fail("%s: factors differ from a fresh model's: %s vs %s", what, mine.tolist(), theirs.tolist())
            rest = np.setdiff1d(np.arange(mine.shape[0]), ids)
            if not np.array_equal(mine[rest[rest < n]], old[rest[rest < n]]) or mine[rest[rest >= n]].any():
                O.fail("%s changed rows other than %s", what, ids.tolist())
            if op == "pfu":
                nu = mine.shape[0]
            else:
                ni = mine.shape[0]
            updates += 1
        else:
            f = fresh(c, m, last)
            compare(query(c, m, s, nu, ni), query(c, f, s, nu, ni), what, 1.0)
        used.append(op)
        # a standing probe, so that every history ends in comparable answers
        if op in ("fit", "pickle", "save", "deepcopy", "pfu", "pfi", "bad", "set"):
            f = fresh(c, m, last)
            for p in ({"op": "recommend"}, {"op": "similar_items"}, {"op": "similar_users"},
                      {"op": "recalc_rec"}, {"op": "recalc_sim"}):
                if (p["op"] == "similar_users" and knn) or (p["op"].startswith("recalc") and c["model"] != "als"):
                    continue
                p = dict(p, seed=s["seed"], N=4, batch=s["seed"] % 3 > 0, flt="none")
                compare(query(c, m, p, nu, ni), query(c, f, p, nu, ni), what + " then " + p["op"], 1.0)
    return updates > 0 and len(used) > 2, [c["model"]] + sorted(set(used))


@st.composite
def ann_history(draw):
    c = draw(A.exhaustive())
    c["steps"] = draw(st.lists(st.fixed_dictionaries(
        {"op": st.sampled_from(["fit", "recommend", "recommend", "similar_items"]), "seed": st.integers(0, 2**16),
         "N": st.integers(1, 8), "batch": st.booleans(), "flt": st.sampled_from(["none", "liked", "filter"])}),
        min_size=2, max_size=8))
    return c


def run_ann(c):
    """An index-wrapped model: after every refit it answers like a newly wrapped, equal model"""
    w, m = A.build(c)
    fits = 0
    h = {"model": "als"}
    for k, s in enumerate(c["steps"]):
        if s["op"] == "fit":
            fits += 1
            m.user_factors = G.build_factors({"kind": "gauss", "seed": s["seed"]}, c["nu"], c["f"], m.dtype)
            m.item_factors = G.build_factors({"kind": "gauss", "seed": s["seed"] + 1}, c["ni"], c["f"], m.dtype)
            m.iterations = s["seed"] % 2
            with A.quiet():
                w.fit(rand(np.random.default_rng(s["seed"]), c["nu"], c["ni"]).astype(np.float32), show_progress=False)
        else:
            f = mf_class("als")(factors=c["f"], iterations=0, num_threads=1, dtype=m.dtype, random_state=1)
            f.user_factors, f.item_factors = m.user_factors.copy(), m.item_factors.copy()
            fw = A.wrap(c, f)
            with A.quiet():
                fw.fit(sp.csr_matrix(np.ones((c["nu"], c["ni"]), np.float32)), show_progress=False)
                compare(query(h, w, s, c["nu"], c["ni"]), query(h, fw, s, c["nu"], c["ni"]),
                        "step %d %s" % (k, s["op"]), 1.0)
    return fits > 0 and c["ni"] > 1, [c["lib"], "refits%d" % min(fits, 3)]


TESTS = [T("history", history, run, 4000, 100000), T("large", lambda: history(True), run, 120, 2400), T("ann", ann_history, run_ann, 480, 9600)]
