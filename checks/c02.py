"""C02: excluded items/users are never presented, and never cost eligible results."""
import numpy as np
from hypothesis import strategies as st

from vlib import ann as A
from vlib import gen as G
from vlib import giant
from vlib import knnref as K
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, MF, knn_model, mf_model

NQ = [1, 2, 5, 99, 101, 130, 230]


@st.composite
def flt(draw, n):
    """A filter list: none / empty / some / many / everything."""
    how = draw(st.sampled_from(["none", "none", "some", "some", "some", "empty", "all", "most"] + ["many"] * (2 if n > 20 else 0)))
    if how == "many":
        return np.random.default_rng(draw(G.seeds)).integers(0, n, draw(st.integers(1, 2 * n))).tolist()
    if how == "none":
        return None
    if how == "empty":
        return []
    if how == "all":
        return list(range(n))
    if how == "most":
        keep = draw(st.integers(0, n - 1))
        return [i for i in range(n) if i != keep][::-1]
    return draw(G.ids_list(n, max_size=min(n, 10), min_size=1))


@st.composite
def mf_case(draw, big):
    items = draw(st.integers(1, 150 if big else 10))
    users = draw(st.integers(1, 8))
    f = draw(st.integers(1, 16 if big else 4))
    nq = draw(st.sampled_from(NQ)) if big else draw(st.integers(1, 4))
    if big == "xl":
        items, users = draw(st.sampled_from([300, 700, 1500, 5000])), draw(st.sampled_from([3, 300, 1100]))
        nq = draw(st.sampled_from([1, 3, 101]))
    if big == "huge":
        items, users, f, nq = draw(st.sampled_from([33000, 66000, 70001])), draw(st.integers(1, 4)), draw(st.integers(1, 2)), draw(st.integers(1, 2))
    return {
        "model": draw(st.sampled_from(MF)), "items": items, "users": users, "f": f,
        "dtype": draw(G.dtypes), "uf": draw(G.factors(users, f)), "if": draw(G.factors(items, f)),
        "N": draw(st.one_of(st.integers(1, items + 2), st.integers(1, min(items, 30)))),
        "likes": {"shape": [nq, items], "kind": draw(st.sampled_from(["signed", "tiny"])), "seed": draw(G.seeds), "hole": True,
                  "density": draw(st.sampled_from([0.0, 0.1, 0.3, 0.6, 0.9, 1.0]))}
        if big else draw(G.matrix((nq, nq), (items, items), kinds=("ones", "signed", "tiny"))),
        "liked_filter": draw(st.sampled_from([True, True, False])),
        "filter": draw(flt(items)), "ftype": draw(G.id_types),
        "scalar": (not big) and draw(st.booleans()),
        "op": draw(st.sampled_from(["recommend", "recommend", "similar_items", "similar_users"])),
        "qseed": draw(G.seeds), "threads": draw(st.sampled_from([0, 1, 3, 17])),
        "unsorted": draw(st.booleans()), "dup": draw(st.integers(0, 5)) == 0, "zeros": draw(st.integers(0, 4)) == 0,
        "items_arg": draw(st.one_of(st.none(), st.none(), G.ids_list(items, max_size=12, min_size=1, unique=True))),
        "recalc": draw(st.integers(0, 4)) == 0,
    }


def run_mf(c):
    dt = np.dtype(c["dtype"])
    uf = G.build_factors(c["uf"], c["users"], c["f"], dt)
    itf = G.build_factors(c["if"], c["items"], c["f"], dt)
    likes = G.build_matrix(c["likes"], np.float32)
    # (repeated entries with a confidence below 1/2 make the system indefinite)
    weak = c["zeros"] or bool((np.abs(likes.data) < 0.5).any())
    recalc = c["recalc"] and not (weak and c["dup"]) and c["model"] == "als" and c["op"] == "recommend" and c["if"]["kind"] not in ("extreme", "scaled")
    m = mf_model(c["model"], uf, itf, num_threads=c["threads"], **({"regularization": 1.0} if recalc else {}))
    if c["zeros"]:
        likes.data[::2] = 0  # stored, so liked
    if c["unsorted"]:
        likes = G.shuffle_indices(likes, c["qseed"])
    if c["dup"]:
        likes = G.duplicate_entries(likes, c["qseed"])
    op = c["op"]
    n = c["users"] if op == "similar_users" else c["items"]
    f = c["filter"]
    if f is not None and op == "similar_users":
        f = [x % n for x in f]
    arg = None if f is None else G.as_ids(f, c["ftype"])
    nq = likes.shape[0]
    N = min(c["N"], n + 2)
    rng = np.random.default_rng(c["qseed"])
    nids = c["items"] if op == "similar_items" else c["users"]
    q = rng.integers(0, nids, nq)
    if c["scalar"]:
        q = q[:1]
        likes = likes[0]
    uid = int(q[0]) if c["scalar"] else q
    subset = c["items_arg"] if op == "recommend" and not f else None
    if op == "recommend":
        kw = {} if subset is None else {"items": G.as_ids(subset, c["ftype"])}
        if recalc:
            kw["recalculate_user"] = True
        res = m.recommend(uid, likes, N=N, filter_already_liked_items=c["liked_filter"],
                          filter_items=arg, **kw)
        X = uf[q]
        if recalc:
            X = m.recalculate_user(uid, likes).reshape(len(q), -1)
        ref, err = O.dots(X, itf)
        if subset is not None:
            N = min(N, len(subset))
    elif op == "similar_items":
        res = m.similar_items(uid, N=N, filter_items=arg)
        ref, err = O.cosines(itf[q], itf)
    else:
        res = m.similar_users(uid, N=N, filter_users=arg)
        ref, err = O.cosines(uf[q], uf)
    ids, scores = O.as_result(res, op)
    if c["scalar"]:
        ids, scores = ids[None], scores[None]
    if ids.shape[0] != len(q):
        O.fail("%s: %d rows for %d queries", op, ids.shape[0], len(q))
    excl = 0
    for r in range(len(q)):
        el = np.ones(n, dtype=bool)
        if f is not None:
            el[f] = False
        if subset is not None:
            el[:] = False
            el[subset] = True
        if op == "recommend" and c["liked_filter"]:
            el[likes[r].indices] = False
        excl += int((~el).sum())
        O.check_topn(ids[r], scores[r], ref[r], err[r], N, eligible=el, what="%s row %d" % (op, r))
    short = N > n - excl / len(q)
    return excl > 0, [op, "filter:" + ("none" if f is None else str(min(len(f), 3))),
                      "subset" if subset is not None else "catalogue", "recalc" if recalc else "stored",
                      "runs out" if short else "enough left", "rows>100" if len(q) > 100 else "rows<=100"]


@st.composite
def knn_case(draw, big):
    items = draw(st.integers(1, 60 if big else 8))
    if big == "xl":
        items = draw(st.sampled_from([300, 700, 1300]))
    nq = draw(st.sampled_from([1, 3, 20])) if big else draw(st.integers(1, 4))
    return {
        "model": draw(st.sampled_from(KNN)), "K": draw(st.integers(1, items + 2)),
        "train": draw(G.matrix((1, 6), (items, items), kinds=("ones", "counts", "frac"))) if not big else
        {"shape": [draw(st.integers(1, 60 if big is True else 200)), items], "kind": "counts", "seed": draw(G.seeds),
         "density": draw(st.sampled_from([0.05, 0.2, 0.5])), "hole": True},
        "likes": draw(G.matrix((nq, nq), (items, items), kinds=("ones", "frac", "signed", "tiny")))
        if not big else {"shape": [nq, items], "kind": "frac", "seed": draw(G.seeds), "hole": True,
                         "density": draw(st.sampled_from([0.05, 0.3, 0.9]))},
        "N": draw(st.one_of(st.integers(1, items + 2), st.integers(1, min(items, 30)))), "filter": draw(flt(items)), "ftype": draw(G.id_types),
        "liked_filter": draw(st.sampled_from([True, True, False])),
        "scalar": draw(st.booleans()),
        "op": draw(st.sampled_from(["recommend", "recommend", "similar_items"])),
        "qseed": draw(G.seeds), "dup": draw(st.integers(0, 5)) == 0, "zeros": draw(st.integers(0, 4)) == 0, "unsorted": draw(st.booleans()),
        "items_arg": draw(st.one_of(st.none(), st.none(), G.ids_list(items, max_size=12, min_size=1, unique=True))),
    }


def run_knn(c):
    train = G.build_matrix(c["train"])
    m = knn_model(c["model"], train, K=c["K"])
    likes = G.build_matrix(c["likes"])
    if c["zeros"]:
        likes.data[::2] = 0  # stored, so liked
    if c["unsorted"]:
        likes = G.shuffle_indices(likes, c["qseed"])
    if c["dup"]:
        likes = G.duplicate_entries(likes, c["qseed"])
    n, N, f = train.shape[1], c["N"], c["filter"]
    arg = None if f is None else G.as_ids(f, c["ftype"])
    nq = likes.shape[0]
    q = np.random.default_rng(c["qseed"]).integers(0, n, nq)
    if c["scalar"]:
        q, likes = q[:1], likes[0]
    uid = int(q[0]) if c["scalar"] else q
    subset = c["items_arg"] if c["op"] == "recommend" and not f else None
    if c["op"] == "recommend":
        kw = {} if subset is None else {"items": G.as_ids(subset, c["ftype"])}
        res = m.recommend(uid, likes, N=N, filter_already_liked_items=c["liked_filter"],
                          filter_items=None if subset is not None else arg, **kw)
        if subset is not None and c["scalar"]:
            N = max(N, len(subset))  # single item-item queries rank the whole subset
    else:
        res = m.similar_items(uid, N=N, filter_items=arg)
    ids, scores = O.as_result(res, c["op"])
    if c["scalar"]:
        ids, scores = ids[None], scores[None]
    if ids.shape[0] != len(q):
        O.fail("%d rows for %d queries", ids.shape[0], len(q))
    excl = 0
    for r in range(len(q)):
        if c["op"] == "recommend":
            ref, err, el = K.scores(m.similarity, likes[r])
        else:
            ref, err, el = K.row(m.similarity, q[r])
        t = el.copy()
        if f is not None:
            el[f] = False
        if subset is not None:
            el[[i for i in range(n) if i not in set(subset)]] = False
        if c["op"] == "recommend" and c["liked_filter"]:
            el[likes[r].indices] = False
        excl += int((t & ~el).sum())
        O.check_topn(ids[r], scores[r], ref, K.f32(ref, err), N, eligible=el, exact_len=False,
                     what="%s %s row %d" % (c["model"], c["op"], r))
    return excl > 0, [c["op"], c["model"], "filter:" + ("none" if f is None else str(min(len(f), 3)))]


@st.composite
def ann_case(draw):
    c = draw(A.exhaustive())
    ni = c["ni"]
    c.update({"op": draw(st.sampled_from(["recommend", "recommend", "similar_items"])),
              "q": draw(st.lists(st.integers(0, 99), min_size=1, max_size=4)), "scalar": draw(st.booleans()),
              "N": draw(st.integers(1, ni + 2)), "filter": draw(flt(ni)), "ftype": draw(G.id_types),
              "liked_filter": draw(st.sampled_from([True, True, False])), "lseed": draw(G.seeds),
              "density": draw(st.sampled_from([0.0, 0.1, 0.4, 0.9, 1.0]))})
    return c


def run_ann(c):
    """With an exhaustive index: the filtered answer == the unfiltered one without the excluded ids"""
    w, m = A.build(c)
    ni, N, f = c["ni"], c["N"], c["filter"]
    rec = c["op"] == "recommend"
    q = [x % (c["nu"] if rec else ni) for x in c["q"]]
    if c["scalar"]:
        q = q[:1]
    uid = q[0] if c["scalar"] else np.array(q)
    likes = G.build_matrix({"shape": [len(q), ni], "kind": "signed", "seed": c["lseed"], "density": c["density"]},
                           np.float32)
    arg = None if f is None else G.as_ids(f, c["ftype"])
    with A.quiet():
        if rec:
            got = w.recommend(uid, likes, N=N, filter_already_liked_items=c["liked_filter"], filter_items=arg)
            full = w.recommend(uid, likes, N=ni, filter_already_liked_items=False)
        else:
            got = w.similar_items(uid, N=N, filter_items=arg)
            full = w.similar_items(uid, N=ni)
    gi, gs = (np.atleast_2d(x) for x in O.as_result(got, c["op"]))
    fi, fs = (np.atleast_2d(x) for x in O.as_result(full, c["op"]))
    if gi.shape[0] != len(q):
        O.fail("%d rows for %d queries", gi.shape[0], len(q))
    excl = 0
    for r in range(len(q)):
        out = set(f or [])
        if rec and c["liked_filter"]:
            out |= set(likes[r].indices.tolist())
        i, s = O.strip(gi[r], gs[r])
        bad = [x for x in i.tolist() if x in out]
        what = "%s %s row %d" % (c["lib"], c["op"], r)
        if bad:
            O.fail("%s: excluded id %d presented", what, bad[0])
        ki, ks = O.strip(fi[r], fs[r])
        keep = ~np.isin(ki, list(out)) if out else np.ones(len(ki), bool)
        excl += len(out)
        tol = 1e-5 * (1 + float(np.abs(ks).max(initial=0)))
        O.same_answer((i, s), (ki[keep][:N], ks[keep][:N]), what, tol)
    return excl > 0, [c["op"], c["lib"], "filter:" + ("none" if f is None else str(min(len(f), 3)))]


TESTS = [
    T("mf_small", lambda: mf_case(False), run_mf, 4000, 100000),
    T("mf_large", lambda: mf_case(True), run_mf, 1200, 24000),
    T("knn_small", lambda: knn_case(False), run_knn, 3200, 64000),
    T("knn_large", lambda: knn_case(True), run_knn, 800, 16000),
    T("mf_huge", lambda: mf_case("huge"), run_mf, 32, 480),
    T("mf_xl", lambda: mf_case("xl"), run_mf, 160, 2400),
    T("knn_xl", lambda: knn_case("xl"), run_knn, 120, 2400),
    T("ann", ann_case, run_ann, 1600, 32000),
    T("giant", lambda: giant.case(("recommend", "recommend", "similar_items", "similar_users"), ("filter",)), giant.run, 120, 1600),
]
