"""C03: subset queries == full ranking restricted to the subset."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import ann as A
from vlib import gen as G
from vlib import giant
from vlib import knnref as K
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, MF, knn_model, mf_model


@st.composite
def subset(draw, n, big):
    how = draw(st.sampled_from(["some", "some", "some", "one", "all", "reversed"]))
    if how == "one":
        return [draw(st.integers(0, n - 1))]
    if how == "all":
        return list(range(n))
    if how == "reversed":
        return list(range(n))[::-1]
    if big:
        return sorted(np.random.default_rng(draw(G.seeds)).choice(
            n, size=draw(st.integers(1, n)), replace=False).tolist(),
            key=lambda x: (x * 7919) % (n + 1))
    return draw(G.ids_list(n, max_size=min(n, 10), min_size=1, unique=True))


@st.composite
def mf_case(draw, big):
    items = draw(st.integers(1, draw(st.sampled_from([150, 150, 2500])) if big else 9))
    users = draw(st.integers(1, 120 if big else 6))
    f = draw(st.integers(1, 12 if big else 4))
    nq = draw(st.sampled_from([1, 3, 99, 101, 205])) if big else draw(st.integers(1, 4))
    if big == "huge":
        items, f, nq = draw(st.sampled_from([33000, 66000, 70001])), draw(st.integers(1, 2)), draw(st.integers(1, 2))
    op = draw(st.sampled_from(["recommend", "recommend", "similar_items", "similar_users",
                               "rank_items", "recommend_all"]))
    n = users if op == "similar_users" else items
    return {
        "model": draw(st.sampled_from(MF)), "items": items, "users": users, "f": f, "op": op,
        "dtype": draw(G.dtypes), "uf": draw(G.factors(users, f)), "if": draw(G.factors(items, f)),
        "N": draw(st.integers(1, n + 3)), "S": draw(subset(n, big)),
        "stype": draw(st.one_of(G.id_types, st.just("u4"))),
        "recalc": draw(st.integers(0, 3)) == 0, "filter": draw(st.one_of(st.none(), G.ids_list(items, 5))),
        "likes": {"shape": [nq, items], "kind": draw(st.sampled_from(["signed", "tiny"])), "seed": draw(G.seeds), "hole": True,
                  "density": draw(st.sampled_from([0.0, 0.1, 0.5, 1.0]))}
        if big else draw(G.matrix((nq, nq), (items, items), kinds=("ones", "signed", "tiny"))),
        "liked_filter": draw(st.booleans()), "zeros": draw(st.integers(0, 4)) == 0, "scalar": (not big) and draw(st.booleans()),
        "qseed": draw(G.seeds), "threads": draw(st.sampled_from([0, 1, 3, 17])),
        "invalid": draw(st.sampled_from([None] * 6 + ["high", "neg", "both", "both0"])),
        "unsorted": draw(st.booleans()),
    }


def expect(exc, fn, what):
    try:
        fn()
    except exc:
        return
    O.fail("%s did not raise %s", what, exc.__name__)


def check_invalid(c, m, n, uid, likes):
    kind, op, S = c["invalid"], c["op"], list(c["S"])
    lists = {"high": S + [n], "neg": S[:-1] + [-1], "both": S, "both0": S}[kind]
    arg = G.as_ids(lists, c["stype"])
    f = None
    if kind == "both":
        f = [S[0]]
    elif kind == "both0":
        f = np.array([0])
    exc = ValueError if f is not None else IndexError
    calls = {
        "recommend": lambda: m.recommend(uid, likes, N=c["N"], items=arg, filter_items=f,
                                         filter_already_liked_items=c["liked_filter"]),
        "similar_items": lambda: m.similar_items(uid, N=c["N"], items=arg, filter_items=f),
        "similar_users": lambda: m.similar_users(uid, N=c["N"], users=arg, filter_users=f),
    }
    if op in calls:
        expect(exc, calls[op], "%s(items=%s, filter=%s)" % (op, lists, f))
    return False, ["invalid:" + kind]


def run_mf(c):
    dt = np.dtype(c["dtype"])
    uf = G.build_factors(c["uf"], c["users"], c["f"], dt)
    itf = G.build_factors(c["if"], c["items"], c["f"], dt)
    recalc = c["recalc"] and c["model"] == "als" and c["if"]["kind"] not in ("extreme", "scaled") and (
        c["uf"]["kind"] not in ("extreme", "scaled"))
    m = mf_model(c["model"], uf, itf, num_threads=c["threads"], **({"regularization": 1.0} if recalc else {}))
    kw = {"recalculate_user": True} if recalc else {}
    likes = G.build_matrix(c["likes"], np.float32)
    if c["zeros"]:
        likes.data[::2] = 0
    if c["unsorted"]:
        likes = G.shuffle_indices(likes, c["qseed"])
    op, N = c["op"], c["N"]
    n = c["users"] if op == "similar_users" else c["items"]
    nq = likes.shape[0]
    rng = np.random.default_rng(c["qseed"])
    q = rng.integers(0, c["items"] if op == "similar_items" else c["users"], nq)
    if op == "recommend_all":
        off = int(rng.integers(0, c["users"]))
        k = min(nq, c["users"] - off)
        likes = likes[:k]
        if c["filter"] is not None:
            kw["filter_items"] = c["filter"]
        got = np.asarray(m.recommend_all(likes, N=N, users_items_offset=off,
                                         filter_already_liked_items=c["liked_filter"], **kw))
        ids, scores = m.recommend(np.arange(k) + off, likes, N=N,
                                  filter_already_liked_items=c["liked_filter"], **kw)
        if got.shape != ids.shape or (got != ids).any():
            O.fail("recommend_all(offset=%d) differs from recommend: %s vs %s", off,
                   got.tolist(), ids.tolist())
        return off > 0, [op]
    if c["scalar"]:
        q, likes = q[:1], likes[0]
    uid = int(q[0]) if c["scalar"] else q
    if c["invalid"]:
        return check_invalid(c, m, n, uid, likes)
    S = c["S"]
    arg = G.as_ids(S, c["stype"])
    liked = False
    if op == "recommend":
        liked = c["liked_filter"]
        res = m.recommend(uid, likes, N=N, items=arg, filter_already_liked_items=liked, **kw)
    elif op == "rank_items":
        N = 10
        res = m.rank_items(uid, likes, arg, **kw)
    elif op == "similar_items":
        Y = itf[q]
        if recalc:
            iu = G.build_matrix({"shape": [len(q), c["users"]], "kind": "counts", "seed": c["qseed"],
                                 "density": 0.4}, np.float32)
            iu = iu[0] if c["scalar"] else iu
            kw = {"recalculate_item": True, "item_users": iu}
            Y = m.recalculate_item(uid, iu).reshape(len(q), -1)
        res = m.similar_items(uid, N=N, items=arg, **kw)
    else:
        res = m.similar_users(uid, N=N, users=arg)
    if op in ("recommend", "rank_items"):
        X = m.recalculate_user(uid, likes).reshape(len(q), -1) if recalc else uf[q]
        ref, err = O.dots(X, itf)
    elif op == "similar_items":
        ref, err = O.cosines(Y, itf)
    else:
        ref, err = O.cosines(uf[q], uf)
    ids, scores = O.as_result(res, op)
    if c["scalar"]:
        ids, scores = ids[None], scores[None]
    if ids.shape[0] != len(q):
        O.fail("%s: %d rows for %d queries", op, ids.shape[0], len(q))
    inS = np.zeros(n, dtype=bool)
    inS[S] = True
    for r in range(len(q)):
        el = inS.copy()
        if liked:
            el[likes[r].indices] = False
        O.check_topn(ids[r], scores[r], ref[r], err[r], min(N, len(S)), eligible=el,
                     what="%s(items=%s) row %d" % (op, S[:12], r), allowed_tail=inS,
                     exact_len=False)
        if op != "recommend" or not liked:
            continue
        # liked items of S must come back (last) as far as N reaches
        if len(ids[r]) < min(N, len(S)):
            O.fail("%s(items=) returned %d of %d", op, len(ids[r]), min(N, len(S)))
    return len(S) < n, [op, "liked" if liked else "-", "N<S" if N < len(S) else "N>=S"]


@st.composite
def knn_case(draw, big):
    items = draw(st.integers(1, 50 if big else 8))
    if big == "xl":
        items = draw(st.sampled_from([300, 700, 1300]))
    nq = draw(st.integers(1, 4))
    return {
        "model": draw(st.sampled_from(KNN)), "K": draw(st.integers(1, items + 2)),
        "train": draw(G.matrix((1, 6), (items, items))) if not big else
        {"shape": [draw(st.integers(1, 40 if big is True else 200)), items], "kind": "counts", "seed": draw(G.seeds),
         "density": draw(st.sampled_from([0.05, 0.2, 0.5])), "hole": True},
        "likes": draw(G.matrix((nq, nq), (items, items), kinds=("ones", "frac", "signed", "tiny"))) if big != "xl" else
        {"shape": [nq, items], "kind": "frac", "seed": draw(G.seeds), "hole": False, "density": draw(st.sampled_from([0.01, 0.3, 0.9]))},
        "N": draw(st.one_of(st.integers(1, items + 3), st.integers(1, min(items, 30)))), "S": draw(subset(items, big)),
        "stype": draw(G.id_types),
        "liked_filter": draw(st.booleans()), "zeros": draw(st.integers(0, 4)) == 0, "scalar": draw(st.booleans()),
        "op": draw(st.sampled_from(["recommend", "recommend", "similar_items", "rank_items"])),
        "invalid": draw(st.sampled_from([None] * 6 + ["high", "neg", "both"])),
        "qseed": draw(G.seeds),
    }


def run_knn(c):
    train = G.build_matrix(c["train"])
    m = knn_model(c["model"], train, K=c["K"])
    likes = G.build_matrix(c["likes"])
    if c["zeros"]:
        likes.data[::2] = 0
    n, N, S, op = train.shape[1], c["N"], c["S"], c["op"]
    q = np.random.default_rng(c["qseed"]).integers(0, n, likes.shape[0])
    if c["scalar"]:
        q, likes = q[:1], likes[0]
    uid = int(q[0]) if c["scalar"] else q
    if c["invalid"]:
        return check_invalid(c, m, n, uid, likes)
    arg = G.as_ids(S, c["stype"])
    liked = False
    if op == "recommend":
        liked = c["liked_filter"]
        res = m.recommend(uid, likes, N=N, items=arg, filter_already_liked_items=liked)
    elif op == "rank_items":
        N = 10
        res = m.rank_items(uid, likes, arg)
    else:
        res = m.similar_items(uid, N=N, items=arg)
    ids, scores = O.as_result(res, op)
    if c["scalar"]:
        ids, scores = ids[None], scores[None]
    if ids.shape[0] != len(q):
        O.fail("%d rows for %d queries", ids.shape[0], len(q))
    inS = np.zeros(n, dtype=bool)
    inS[S] = True
    for r in range(len(q)):
        if op == "similar_items":
            ref, err, el = K.row(m.similarity, q[r])
        else:
            ref, err, el = K.scores(m.similarity, likes[r])
        el &= inS
        if liked:
            el[likes[r].indices] = False
        i, s = ids[r], scores[r]
        # single item-item queries rank the whole subset, whatever N is
        lim = len(S) if c["scalar"] and op != "similar_items" else N
        if len(i) > max(lim, N):
            O.fail("%d results for N=%d, |S|=%d", len(i), N, len(S))
        O.check_topn(i[:lim], s[:lim], ref, K.f32(ref, err), lim, eligible=el, exact_len=False,
                     allowed_tail=inS, what="%s %s(items=%s) row %d" % (c["model"], op, S, r))
        real = i[i >= 0]
        if len(real) != min(lim, len(S)):
            O.fail("%s(items=) returned %d of the %d selected items (N=%d)", op, len(real), len(S), N)
    return len(S) < n, [op, c["model"], "liked" if liked else "-"]


@st.composite
def ann_case(draw):
    c = draw(A.exhaustive())
    ni = c["ni"]
    c.update({"op": draw(st.sampled_from(["recommend", "recommend", "similar_items", "rank_items"])),
              "q": draw(st.lists(st.integers(0, 99), min_size=1, max_size=4)), "scalar": draw(st.booleans()),
              "as": draw(st.integers(0, 4)) == 0, "ar": draw(st.integers(0, 4)) == 0,
              "N": draw(st.integers(1, ni + 2)), "S": draw(G.ids_list(ni, 12, 1, unique=True)),
              "stype": draw(G.id_types), "liked_filter": draw(st.booleans()), "lseed": draw(G.seeds),
              "invalid": draw(st.sampled_from([None] * 6 + ["high", "neg", "both", "both0"])),
              "density": draw(st.sampled_from([0.0, 0.1, 0.4, 0.9]))})
    return c


def run_ann(c):
    """Subset queries of an index-wrapped model are exact, or not implemented in approximate mode"""
    try:
        return _run_ann(c)
    except NotImplementedError:
        if c["as"] if c["op"] == "similar_items" else c["ar"] and c["op"] != "similar_users":
            return False, ["not implemented"]
        raise


def _run_ann(c):
    w, m = A.build(c)
    op, N = c["op"], c["N"]
    n = c["nu"] if op == "similar_users" else c["ni"]
    q = [x % (c["ni"] if op == "similar_items" else c["nu"]) for x in c["q"]]
    if c["scalar"]:
        q = q[:1]
    uid = q[0] if c["scalar"] else np.array(q)
    likes = G.build_matrix({"shape": [len(q), c["ni"]], "kind": "signed", "seed": c["lseed"],
                            "density": c["density"]}, np.float32)
    c["S"] = S = sorted({x % n for x in c["S"]}, key=lambda x: (x * 7) % 31)
    if c["invalid"]:
        return check_invalid(c, w, n, uid, likes)
    arg = G.as_ids(S, c["stype"])
    liked = c["liked_filter"] and op == "recommend"
    if op == "recommend":
        res = w.recommend(uid, likes, N=N, items=arg, filter_already_liked_items=liked)
    elif op == "rank_items":
        N = 10
        res = w.rank_items(uid, likes, arg)
    elif op == "similar_items":
        res = w.similar_items(uid, N=N, items=arg)
    else:
        res = w.similar_users(uid, N=N, users=arg)
    if op in ("recommend", "rank_items"):
        ref, err = O.dots(m.user_factors[q], m.item_factors)
    else:
        F = m.item_factors if op == "similar_items" else m.user_factors
        ref, err = O.cosines(F[q], F)
    ids, scores = O.as_result(res, op)
    if c["scalar"]:
        ids, scores = ids[None], scores[None]
    if ids.shape[0] != len(q):
        O.fail("%s: %d rows for %d queries", op, ids.shape[0], len(q))
    inS = np.zeros(n, dtype=bool)
    inS[S] = True
    for r in range(len(q)):
        el = inS.copy()
        if liked:
            el[likes[r].indices] = False
        O.check_topn(ids[r], scores[r], ref[r], K.f32(ref[r], err[r]), N, eligible=el, exact_len=False,
                     what="%s %s(items=%s) row %d" % (c["lib"], op, S[:12], r), allowed_tail=inS)
    return len(S) < n, [op, c["lib"]]


TESTS = [
    T("ann", ann_case, run_ann, 1200, 24000),
    T("mf_small", lambda: mf_case(False), run_mf, 4800, 100000),
    T("mf_large", lambda: mf_case(True), run_mf, 1200, 24000),
    T("mf_huge", lambda: mf_case("huge"), run_mf, 32, 480),
    T("knn_small", lambda: knn_case(False), run_knn, 3200, 64000),
    T("knn_large", lambda: knn_case(True), run_knn, 800, 16000),
    T("knn_xl", lambda: knn_case("xl"), run_knn, 120, 2400),
    T("giant", lambda: giant.case(("recommend", "recommend", "similar_items", "similar_users"), ("subset",)), giant.run, 120, 1600),
]
