"""C13: saving, loading, pickling and copying preserve the model and its answers."""
import copy
import io
import os
import pickle
import tempfile

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, knn_class, mf_class

ROUTES = ["path", "path.npz", "dotted", "bytesio", "file", "pickle2", "pickle5", "deepcopy", "copy2",
          "twice", "mixed", "overwrite", "upper"]


@st.composite
def case(draw, big=False):
    model = draw(st.sampled_from(["als", "bpr", "lmf"] + KNN))
    h = {"num_threads": draw(st.sampled_from([0, 1, 1, 3]))}
    if model in KNN:
        h["K"] = draw(st.sampled_from([1, 2, 5, 20, 33] if not big else [33, 129]))
        if model == "bm25":
            h.update(K1=draw(st.sampled_from([1.2, 0.5, 100.0])), B=draw(st.sampled_from([0.75, 0.0, 1.0, 0.3])))
    else:
        h.update(factors=draw(st.sampled_from([1, 2, 3, 7] if not big else [33, 64, 130])), iterations=draw(st.integers(0, 3 if not big else 1)),
                 regularization=draw(st.sampled_from([0.5, 1.5, 0.25, 1, 0.01, 1 / 3])),
                 random_state=draw(st.sampled_from([None, 0, 1, 17, "RandomState", "Generator", "npint"])))
        if model == "als":
            h.update(alpha=draw(st.sampled_from([1.0, 2.5, 40, 0.7])), dtype=draw(G.dtypes),
                     use_native=big or draw(st.booleans()), use_cg=draw(st.booleans()),
                     calculate_training_loss=draw(st.booleans()))
        elif model == "bpr":
            h.update(learning_rate=draw(st.sampled_from([0.01, 0.1, 0.5])), dtype=draw(G.dtypes),
                     verify_negative_samples=draw(st.booleans()))
        else:
            h.update(learning_rate=draw(st.sampled_from([1.0, 0.1])), neg_prop=draw(st.sampled_from([0, 1, 30])))
    return {"model": model, "h": h, "fitted": draw(st.sampled_from([True, True, True, False])),
            "cg_steps": draw(st.sampled_from([3, 3, 1, 5])),
            "m": draw(G.matrix((1, 8), (1, 8), ("ones", "counts"), *(((100, 1100), (100, 1100), 1.1) if big else ((9, 30), (9, 30))), min_nnz=1)),
            "m2": draw(G.seeds), "route": draw(st.sampled_from(ROUTES)), "queried": draw(st.booleans())}


def make(c):
    h = dict(c["h"])
    r = h.get("random_state")
    if r == "RandomState":
        h["random_state"] = np.random.RandomState(5)
    elif r == "Generator":
        h["random_state"] = np.random.default_rng(5)
    elif r == "npint":
        h["random_state"] = np.int64(9)
    if "dtype" in h:
        h["dtype"] = np.dtype(h["dtype"])
    C = knn_class(c["model"]) if c["model"] in KNN else mf_class(c["model"])
    m = C(**h)
    if c["model"] == "als":
        m.cg_steps = c["cg_steps"]
    return m


def snapshot(m):
    out = {}
    for k, v in vars(m).items():
        if k.startswith("_") or k == "scorer":
            continue
        if sp.issparse(v):
            v = ("sparse", v.shape, v.data.copy(), v.indices.copy(), v.indptr.copy())
        elif isinstance(v, np.ndarray):
            v = ("array", v.dtype, v.copy())
        out[k] = v
    return out


def differ(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and a[0] in ("sparse", "array"):
        if len(a) != len(b):
            return True
        return any(not (np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y) for x, y in zip(a, b))
    if isinstance(a, (np.random.RandomState, np.random.Generator)):
        return type(a) is not type(b)
    return type(a) is tuple or type(b) is tuple or a != b


def check_same(a, b, what, persisted):
    for k in sorted(set(a) | set(b)):
        if k in ("random_state",) and persisted and isinstance(
                a.get(k), (np.random.RandomState, np.random.Generator)):
            continue  # a live generator is not part of the saved file
        if k not in b or k not in a:
            O.fail("%s: attribute %s is missing on one side", what, k)
        if differ(a[k], b[k]):
            O.fail("%s: attribute %s changed from %r to %r", what, k, a[k], b[k])


def roundtrip(m, route, d):
    C = type(m)
    if route in ("path", "path.npz", "dotted"):
        path = os.path.join(d, {"path": "model", "path.npz": "model.npz", "dotted": "v1.2.npy"}[route])
        m.save(path)
        return C.load(path)
    if route == "upper":
        m.save(os.path.join(d, "MODEL.NPZ"))
        return C.load(os.path.join(d, "MODEL.NPZ"))
    if route == "overwrite":  # something else, and longer, was saved there before
        path = os.path.join(d, "model.npz")
        with open(path, "wb") as fh:
            fh.write(b"x" * 300000)
        C().save(path)
        m.save(path)
        return C.load(path)
    if route == "bytesio":
        b = io.BytesIO()
        m.save(b)
        b.seek(0)
        return C.load(b)
    if route == "file":
        path = os.path.join(d, "open.bin")
        with open(path, "wb") as fh:
            m.save(fh)
        with open(path, "rb") as fh:
            return C.load(fh)
    if route == "pickle2":
        return pickle.loads(pickle.dumps(m, protocol=2))
    if route == "pickle5":
        return pickle.loads(pickle.dumps(m, protocol=5))
    if route == "deepcopy":
        return copy.deepcopy(m)
    if route == "copy2":
        return copy.deepcopy(pickle.loads(pickle.dumps(m)))
    if route == "twice":
        return roundtrip(roundtrip(m, "bytesio", d), "path", d)
    return roundtrip(roundtrip(roundtrip(m, "pickle5", d), "bytesio", d), "deepcopy", d)


def answers(m, c, M):
    nu, ni = M.shape
    rng = np.random.default_rng(c["m2"])
    out = []
    ids = rng.integers(0, nu, 4)
    out.append(m.recommend(ids, M[ids], N=5))
    out.append(m.recommend(int(ids[0]), M[int(ids[0])], N=3, filter_already_liked_items=False, filter_items=[0]))
    out.append(m.recommend(int(ids[0]), M[int(ids[0])], N=3, items=np.arange(ni)[::2]))
    out.append(m.similar_items(rng.integers(0, ni, 3), N=4))
    out.append(m.similar_items(int(rng.integers(0, ni)), N=4, filter_items=[0]))
    if c["model"] not in KNN:
        out.append(m.similar_users(rng.integers(0, nu, 3), N=4))
    if c["model"] == "als":
        out.append(m.recommend(ids, M[ids], N=5, recalculate_user=True))
        t, top, _ = m.explain(int(ids[0]), M, 0)
        out.append((np.array([t]), np.array([s for _, s in top])))
    return out


def run(c):
    m = make(c)
    M = G.build_matrix(c["m"], np.float64)
    if M.nnz == 0:
        return False, ["empty"]
    persisted = c["route"] not in ("pickle2", "pickle5", "deepcopy", "copy2")
    if c["fitted"]:
        m.fit(M, show_progress=False)
        if c["queried"]:
            answers(m, c, M)
    before = snapshot(m)
    with tempfile.TemporaryDirectory() as d:
        m2 = roundtrip(m, c["route"], d)
    check_same(before, snapshot(m), "saving altered the saved model", False)
    if type(m2) is not type(m):
        O.fail("%s became %s", type(m).__name__, type(m2).__name__)
    check_same(before, snapshot(m2), c["route"], persisted)
    if c["fitted"]:
        for k, (x, y) in enumerate(zip(answers(m, c, M), answers(m2, c, M))):
            for p, q in zip(x, y):
                if not np.array_equal(np.asarray(p), np.asarray(q)):
                    O.fail("query %d answers differently after %s: %s vs %s", k, c["route"],
                           np.asarray(p).tolist(), np.asarray(q).tolist())
    # both can be (re)fitted, to the same result where training is reproducible
    r = c["h"].get("random_state")
    repro = c["model"] in KNN or (r not in (None, "RandomState", "Generator")) or (
        c["model"] == "als" and c["fitted"])
    if not persisted and r is not None:
        repro = True
    if c["model"] == "bpr" and c["h"]["num_threads"] != 1:
        repro = False
    M2 = G.build_matrix({"shape": list(M.shape), "kind": "counts", "seed": c["m2"], "density": 0.5}, np.float64)
    if M2.nnz == 0:
        return True, [c["route"]]
    m2.fit(M2, show_progress=False)
    m.fit(M2, show_progress=False)
    if repro:
        a, b = snapshot(m), snapshot(m2)
        for k in ("user_factors", "item_factors", "similarity"):
            if k in a and differ(a[k], b[k]):
                if k == "similarity" or a[k][2].shape != b[k][2].shape or not np.allclose(
                        a[k][2], b[k][2], rtol=1e-4, atol=1e-6):
                    O.fail("%s differs after %s and refitting", k, c["route"])
    if c["fitted"]:
        # the copy is independent of the original
        for x, y in zip(answers(m2, c, M), answers(m2, c, M)):
            if not np.array_equal(np.asarray(x[0]), np.asarray(y[0])):
                O.fail("answers of the copy are not stable")
    return c["fitted"], [c["model"], c["route"], "refit" if repro else "norefit"]


TESTS = [T("roundtrip", case, run, 4800, 80000), T("large", lambda: case(True), run, 64, 1200)]
