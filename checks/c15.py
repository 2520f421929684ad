"""C15: item-item queries score by likes times similarity, whatever was asked before."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import knnref as KR
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, knn_class


@st.composite
def call(draw, ni, big=False, pool=None):
    op = draw(st.sampled_from(["recommend", "recommend", "recommend", "batch", "similar", "simbatch", "bad"]))
    s = {"op": op, "N": draw(G.result_count(ni + 3))}
    if op in ("recommend", "batch"):
        rows = 1 if op == "recommend" else draw(st.integers(1, 4))
        cells = draw(st.lists(st.integers(0, rows * ni - 1), unique=True, max_size=8))
        vals = [0.5, 1, 2, 3.25, -1, -0.25, 100, 0, 0.1, 1 / 3, 16777217.0]
        if big and draw(st.booleans()):  # many likes, many rows
            rows = 1 if op == "recommend" else draw(st.sampled_from([3, 40, 120]))
            rng = np.random.default_rng(draw(G.seeds))
            if pool is not None:
                rows = min(rows, 3)
            k = int(rng.integers(0, len(pool) if pool is not None else ni + 1))
            likes = [[r, int(i), float(rng.choice(vals))] for r in range(rows)
                     for i in rng.choice(ni if pool is None else pool, k, replace=False)]
        else:
            likes = [[x // ni, x % ni, draw(st.sampled_from(vals))] for x in cells]
        s.update(rows=rows, likes=likes,
                 dt=draw(st.sampled_from(["float32", "float64"])), liked=draw(st.booleans()),
                 flt=draw(st.one_of(st.none(), st.lists(st.integers(0, ni - 1), max_size=4))),
                 user=draw(st.sampled_from([0, 1, 7, 10**6])), sort=draw(st.booleans()),
                 ft=draw(G.id_types))
    elif op in ("similar", "simbatch"):
        s.update(q=draw(st.lists(st.integers(0, ni - 1) if pool is None else st.sampled_from(pool), min_size=1, max_size=1 if op == "similar" else 4)),
                 flt=draw(st.one_of(st.none(), st.lists(st.integers(0, ni - 1), max_size=4))))
    else:
        s["how"] = draw(st.integers(0, 4))
    return s


@st.composite
def case(draw, big=False):
    kind = draw(st.sampled_from(KNN))
    kinds = ("ones", "counts", "frac", "tiny") + (("signed",) if kind in ("item", "cosine") else ())
    m = draw(G.matrix((1, 8), (1, 8), kinds, (10, 200 if big else 80), (20, 250 if big else 120), p_big=1.1 if big else 0, min_nnz=1))
    if big == "huge":
        m = {"shape": [draw(st.integers(2, 6)), draw(st.sampled_from([33000, 66000, 70001]))], "kind": "counts", "seed": draw(G.seeds),
             "density": draw(st.sampled_from([0.001, 0.004])), "hole": False}
    if big == "wide":
        m = {"shape": [draw(st.sampled_from([3, 40, 300])), draw(st.sampled_from([400, 700, 1500, 2500]))], "kind": draw(st.sampled_from(["counts", "frac"])),
             "seed": draw(G.seeds), "density": draw(st.sampled_from([0.1, 0.4])), "hole": False}
    ni = m["shape"][1]
    pool = [int(i) for i in np.unique(G.build_matrix(m).indices)][-1500:] if big == "huge" else None
    if pool is not None and len(pool) < 2:
        pool = [0, ni - 1]
    return {"kind": kind, "m": m, "K": draw(st.sampled_from([1, 2, 5, 20, 60] + [100, 200] * bool(big) if big != "wide" else [257, 300, 520, 1030, 2000])),
            "calls": draw(st.lists(call(ni, big, pool), min_size=1, max_size=6))}


def build_likes(s, ni):
    e = s["likes"]
    m = sp.csr_matrix((np.array([x[2] for x in e], np.dtype(s["dt"])),
                       (np.array([x[0] for x in e], int), np.array([x[1] for x in e], int))),
                      shape=(s["rows"], ni))
    m.sort_indices()
    return m if s["sort"] else G.shuffle_indices(m, 9)


def judge(ids, scores, ref, err, eligible, N, padded, what):
    ids, scores = O.as_result((ids, scores), what)
    if padded:
        O.check_topn(ids, scores, ref, KR.f32(ref, err), N, eligible, what)
    else:
        if len(ids) != min(N, int(eligible.sum())):
            O.fail("%s: %d results for N=%d and %d eligible items", what, len(ids), N, int(eligible.sum()))
        O.check_topn(ids, scores, ref, err, N, eligible, what, exact_len=False)


def run(c):
    M = G.build_matrix(c["m"])
    if M.nnz == 0:
        return False, ["empty"]
    ni = M.shape[1]
    m = knn_class(c["kind"])(K=c["K"], num_threads=1)
    m.fit(M, show_progress=False)
    S = m.similarity.copy()
    real = 0
    for k, s in enumerate(c["calls"]):
        op = s["op"]
        what = "call %d (%s)" % (k, op)
        if op in ("recommend", "batch"):
            L = build_likes(s, ni)
            kw = {} if s["flt"] is None else {"filter_items": G.as_ids(s["flt"], s["ft"])}
            if op == "recommend":
                res = [G.ask(m.recommend, (s["user"], L), {"N": s["N"], "filter_already_liked_items": s["liked"], **kw})]
            else:
                b = G.ask(m.recommend, ([s["user"]] * s["rows"], L),
                          {"N": s["N"], "filter_already_liked_items": s["liked"], **kw})
                bi, bs = O.as_result(b, what)
                if bi.shape != (s["rows"], s["N"]):
                    O.fail("%s: shape %s", what, bi.shape)
                res = list(zip(bi, bs))
            for r, (ids, sc) in enumerate(res):
                ref, err, touched = KR.scores(S, L[r])
                el = touched.copy()
                if s["liked"]:
                    el[L[r].indices] = False
                if s["flt"]:
                    el[s["flt"]] = False
                real += int(el.sum() > 1)
                judge(ids, sc, ref, err, el, s["N"], op == "batch", what + " row %d" % r)
        elif op in ("similar", "simbatch"):
            kw = {} if s["flt"] is None else {"filter_items": s["flt"]}
            if op == "similar":
                res = [G.ask(m.similar_items, (s["q"][0],), {"N": s["N"], **kw})]
            else:
                bi, bs = O.as_result(G.ask(m.similar_items, (s["q"],), {"N": s["N"], **kw}), what)
                res = list(zip(bi, bs))
            for q, (ids, sc) in zip(s["q"], res):
                ref, err, el = KR.row(S, q)
                if s["flt"]:
                    el[s["flt"]] = False
                real += int(el.sum() > 1)
                judge(ids, sc, ref, err, el, s["N"], op == "simbatch", what + " of %d" % q)
        else:
            L = sp.csr_matrix(np.ones((1, ni)))
            bad = [lambda: m.recommend(0, L.tocsc(), N=3), lambda: m.recommend([0, 1], L, N=3),
                   lambda: m.recommend(0, L, N=3, items=[0, ni]),
                   lambda: m.recommend(0, L, N=3, items=[0], filter_items=[0]),
                   lambda: m.similar_items(0, items=[-1, 0])][s["how"]]
            try:
                bad()
            except (ValueError, IndexError):
                continue
            O.fail("%s: invalid call %d accepted", what, s["how"])
    if (m.similarity != S).nnz or m.similarity.nnz != S.nnz:
        O.fail("queries changed the similarity matrix")
    return real > 0 and len(c["calls"]) > 1, [c["kind"]] + sorted({s["op"] for s in c["calls"]})


TESTS = [
    T("small", case, run, 6400, 100000),
    T("large", lambda: case(True), run, 960, 16000),
    T("wide", lambda: case("wide"), run, 64, 1000),
    T("huge", lambda: case("huge"), run, 48, 640),
]
