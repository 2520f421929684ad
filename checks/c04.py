"""C04: batch == single queries; results independent of num_threads."""
import numpy as np
from hypothesis import strategies as st

from vlib import ann as A
from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, MF, knn_model, mf_model


@st.composite
def options(draw, n, op):
    o = {"N": draw(G.result_count(min(n, 30) + 2)), "liked": draw(st.booleans())}
    how = draw(st.sampled_from(["none", "none", "filter", "items"]))
    if how == "filter":
        o["filter"] = draw(G.ids_list(n, max_size=6, min_size=1))
    elif how == "items":
        o["items"] = draw(G.ids_list(n, max_size=min(n, 12), min_size=1, unique=True))
    return o


@st.composite
def mf_case(draw, big):
    items = draw(st.integers(1, 120 if big else 9))
    users = draw(st.integers(1, 60 if big else 5))
    f = draw(st.integers(1, 12 if big else 4))
    if big == "xl":
        items, users = draw(st.sampled_from([300, 1030, 4100])), draw(st.sampled_from([70, 1050, 2100]))
        f = draw(st.sampled_from([32, 65, 128, 150]))
    if big == "huge":  # past the ranges of 16 bit ids
        users, items = draw(st.sampled_from([33000, 66000, 140000])), draw(st.integers(2, 9))
        users, items = (users, items) if draw(st.booleans()) else (items, users)
        f = draw(st.integers(1, 3))
    op = draw(st.sampled_from(["recommend", "recommend", "similar_items", "similar_users"]))
    n = users if op == "similar_users" else items
    nids = items if op == "similar_items" else users
    return {
        "model": draw(st.sampled_from(MF)), "items": items, "users": users, "f": f, "op": op,
        "dtype": draw(G.dtypes), "uf": draw(G.factors(users, f)), "if": draw(G.factors(items, f)),
        "opt": draw(options(n, op)),
        "q": {"n": draw(st.sampled_from([0, 1, 2, 50, 99, 100, 101, 199, 200, 201, 260, 431])),
              "seed": draw(G.seeds)} if big is True else {"n": draw(st.sampled_from([1001, 513, 256] if big == "xl" else [2, 9, 101])), "seed": draw(G.seeds)}
        if big else draw(G.ids_list(nids, max_size=6, min_size=0)),
        "density": draw(st.sampled_from([0.0, 0.1, 0.4, 0.9] if big not in ("xl", "huge") else [0.0, 0.02])), "lseed": draw(G.seeds),
        "t1": draw(st.sampled_from([0, 1, 2, 4, 7])), "t2": draw(st.sampled_from([1, 1, 2, 3])),
        "recalc": draw(st.booleans()) if big is not None else False, "idtype": draw(G.id_types),
    }


def call(m, op, uid, likes, o, recalc=False, iu=None):
    if op == "recommend":
        return G.ask(m.recommend, (uid, likes), {
            "N": o["N"], "filter_already_liked_items": o["liked"], "filter_items": o.get("filter"),
            "items": o.get("items"), "recalculate_user": recalc})
    if op == "similar_items":
        kw = {"recalculate_item": True, "item_users": iu} if recalc else {}
        return G.ask(m.similar_items, (uid,), {"N": o["N"], "filter_items": o.get("filter"), "items": o.get("items"), **kw})
    return G.ask(m.similar_users, (uid,), {"N": o["N"], "filter_users": o.get("filter"), "users": o.get("items")})


def run_mf(c):
    dt = np.dtype(c["dtype"])
    uf = G.build_factors(c["uf"], c["users"], c["f"], dt)
    itf = G.build_factors(c["if"], c["items"], c["f"], dt)
    op, o = c["op"], c["opt"]
    recalc = (c["recalc"] and c["model"] == "als" and op in ("recommend", "similar_items")
              and not {"extreme", "scaled"} & {c["uf"]["kind"], c["if"]["kind"]})  # singular in float32
    kw = {"regularization": 1.0} if c["model"] == "als" else {}
    m = mf_model(c["model"], uf, itf, num_threads=c["t1"], **kw)
    m1 = mf_model(c["model"], uf, itf, num_threads=c["t2"], **kw)
    q = c["q"]
    if isinstance(q, dict):
        nids = c["items"] if op == "similar_items" else c["users"]
        q = np.random.default_rng(q["seed"]).integers(0, nids, q["n"]).tolist()
    other = c["users"] if (op == "similar_items") else c["items"]
    likes = G.build_matrix({"shape": [len(q), other], "kind": "counts", "seed": c["lseed"],
                            "density": c["density"], "hole": True}, np.float32)
    if not q and op != "recommend":
        return False, ["empty"]
    uid = G.as_ids(q, c["idtype"] if q else "i4")
    ids, scores = O.as_result(call(m, op, uid, likes, o, recalc, likes), op)
    if ids.ndim != 2 or ids.shape[0] != len(q):
        O.fail("%s on %d ids returned shape %s", op, len(q), ids.shape)
    if not q:
        return False, ["empty"]
    if op == "recommend":
        _, err = O.dots(np.abs(uf[q]).max(0, keepdims=True), np.abs(itf))
        tol = 4 * err.max()
    else:
        tol = 1e-5 if dt == np.float32 else 1e-12
    if recalc:
        # both calls solve the same row with the same solver
        scale = max(1e-6, float(np.abs(scores[scores > O.SENTINEL]).max(initial=0)))
        tol = (1e-3 if dt == np.float32 else 1e-9) * scale
    rng = np.random.default_rng(c["lseed"])
    rows = range(len(q)) if len(q) <= 12 else sorted(
        set(rng.integers(0, len(q), 10).tolist() + [0, len(q) - 1, min(99, len(q) - 1), min(100, len(q) - 1)]))
    for r in rows:
        i1, s1 = O.as_result(call(m1, op, int(q[r]), likes[r], o, recalc, likes[r]), op)
        O.same_answer((ids[r], scores[r]), (i1, s1), "%s %s: batch row %d vs single id %d"
                      % (c["model"], op, r, q[r]), tol)
    # another thread count, permuted batch
    perm = rng.permutation(len(q))
    ids2, scores2 = O.as_result(call(m1, op, np.array(q)[perm], likes[perm], o, recalc, likes[perm]), op)
    O.same_answer((ids2, scores2), (ids[perm], scores[perm]), "%s: permuted batch, %d threads" %
                  (op, c["t2"]), tol)
    return len(set(q)) > 1, [op, c["model"], ">100" if len(q) > 100 else "<=100",
                             "recalc" if recalc else "stored",
                             "items" if "items" in o else ("filter" if "filter" in o else "plain")]


@st.composite
def knn_case(draw, big):
    items = draw(st.integers(1, 60 if big else 8))
    if big == "xl":
        items = draw(st.sampled_from([60, 300, 700]))
    op = draw(st.sampled_from(["recommend", "recommend", "similar_items"]))
    return {
        "model": draw(st.sampled_from(KNN)), "K": draw(st.integers(1, items + 2)), "op": op,
        "train": draw(G.matrix((1, 6), (items, items))) if not big else
        {"shape": [draw(st.integers(1, 50)), items], "kind": "counts", "seed": draw(G.seeds),
         "density": draw(st.sampled_from([0.05, 0.2, 0.5])), "hole": True},
        "opt": draw(options(items, op)), "q": {"n": draw(st.sampled_from([1, 7, 101, 130] if big is True else [257, 1025, 2100])), "seed": draw(G.seeds)} if big
        else draw(G.ids_list(items, max_size=6, min_size=1)),
        "density": draw(st.sampled_from([0.0, 0.1, 0.4, 0.9])), "lseed": draw(G.seeds),
        "t1": draw(st.sampled_from([0, 1, 2, 4])), "t2": draw(st.sampled_from([1, 2, 3])),
    }


def run_knn(c):
    train = G.build_matrix(c["train"])
    m = knn_model(c["model"], train, K=c["K"], num_threads=c["t1"])
    m1 = knn_model(c["model"], train, K=c["K"], num_threads=c["t2"])
    q, op, o = c["q"], c["op"], c["opt"]
    if isinstance(q, dict):
        q = np.random.default_rng(q["seed"]).integers(0, train.shape[1], q["n"]).tolist()
    likes = G.build_matrix({"shape": [len(q), train.shape[1]], "kind": "frac", "seed": c["lseed"],
                            "density": c["density"], "hole": True})
    ids, scores = O.as_result(call(m, op, np.array(q), likes, o), op)
    if ids.ndim != 2 or ids.shape[0] != len(q):
        O.fail("%s on %d ids returned shape %s", op, len(q), ids.shape)
    tol = 1e-6 * (1 + float(np.abs(scores[scores > O.SENTINEL]).max(initial=0)))
    for r in range(len(q)) if len(q) < 12 else [0, len(q) // 2, len(q) - 2, len(q) - 1]:
        i1, s1 = O.as_result(call(m1, op, int(q[r]), likes[r], o), op)
        i1, s1 = i1[:o["N"]], s1[:o["N"]]
        O.same_answer((ids[r], scores[r]), (i1, s1), "%s %s: batch row %d vs single id %d"
                      % (c["model"], op, r, q[r]), tol)
    perm = np.random.default_rng(c["lseed"]).permutation(len(q))
    ids2, scores2 = O.as_result(call(m1, op, np.array(q)[perm], likes[perm], o), op)
    O.same_answer((ids2, scores2), (ids[perm], scores[perm]), "%s: permuted batch" % op, tol)
    return len(set(q)) > 1, [op, c["model"]]


@st.composite
def ann_case(draw):
    c = draw(A.exhaustive())
    ni = c["ni"]
    op = draw(st.sampled_from(["recommend", "recommend", "similar_items"]))
    o = draw(options(ni, op))
    o.pop("items", None)
    c.update({"op": op, "opt": o, "recalc": draw(st.integers(0, 2)) == 0,
              "q": draw(st.lists(st.integers(0, 99), min_size=1, max_size=6)), "lseed": draw(G.seeds),
              "density": draw(st.sampled_from([0.0, 0.1, 0.4, 0.9]))})
    return c


def run_ann(c):
    w, _ = A.build(c)
    op, o, ni, nu = c["op"], c["opt"], c["ni"], c["nu"]
    q = [x % (nu if op == "recommend" else ni) for x in c["q"]]
    other = ni if op == "recommend" else nu
    likes = G.build_matrix({"shape": [len(q), other], "kind": "counts", "seed": c["lseed"],
                            "density": c["density"], "hole": True}, np.float32)
    with A.quiet():
        ids, scores = O.as_result(call(w, op, np.array(q), likes, o, c["recalc"], likes), op)
        if ids.ndim != 2 or ids.shape[0] != len(q):
            O.fail("%s on %d ids returned shape %s", op, len(q), ids.shape)
        tol = 2e-4 * (0.01 + float(np.abs(scores[np.abs(scores) < 1e30]).max(initial=0)))
        for r in range(len(q)):
            one = call(w, op, int(q[r]), likes[r], o, c["recalc"], likes[r])
            O.same_answer((ids[r], scores[r]), one, "%s %s: batch row %d vs single id %d"
                          % (c["lib"], op, r, q[r]), tol)
        perm = np.random.default_rng(c["lseed"]).permutation(len(q))
        again = call(w, op, np.array(q)[perm], likes[perm], o, c["recalc"], likes[perm])
        O.same_answer(again, (ids[perm], scores[perm]), "%s %s: permuted batch" % (c["lib"], op), tol)
    return len(set(q)) > 1, [op, c["lib"], "recalc" if c["recalc"] else "stored"]


TESTS = [
    T("mf_small", lambda: mf_case(False), run_mf, 3200, 64000),
    T("mf_large", lambda: mf_case(True), run_mf, 1200, 24000),
    T("knn_small", lambda: knn_case(False), run_knn, 1600, 32000),
    T("knn_large", lambda: knn_case(True), run_knn, 400, 16000),
    T("knn_xl", lambda: knn_case("xl"), run_knn, 40, 800),
    T("ann", ann_case, run_ann, 1600, 32000),
    T("xl", lambda: mf_case("xl"), run_mf, 80, 1600),
    T("huge", lambda: mf_case("huge"), run_mf, 80, 1600),
]
