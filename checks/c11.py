"""C11: recalculated and incremental ALS factors are the exact least-squares solution."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import alsref as A
from vlib import ann as N_
from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import mf_class

KINDS = ("ones", "counts", "frac", "signed", "tiny")
FK = ["gauss", "smallint", "zerorows", "positive", "ties"]


@st.composite
def case(draw, big=False):
    xl = big == "xl"
    nu = draw(st.integers(1, 400 if xl else 90 if big else 8))
    ni = draw(st.integers(1, 400 if xl else 90 if big else 8))
    side = draw(st.sampled_from(["user", "item"]))
    if big == "long":
        nu, ni = [(3, 2100), (40, 1030), (1400, 5)][draw(st.integers(0, 2))]
        if draw(st.booleans()):
            nu, ni = ni, nu
    n, other = (nu, ni) if side == "user" else (ni, nu)
    q = draw(st.integers(1, 60)) if big else draw(st.integers(1, 5))
    grow = draw(st.sampled_from([0, 0, 0, 1, 4]))
    ids = draw(st.lists(st.integers(0, n - 1 + grow), min_size=1, max_size=q,
                        unique=True))
    if xl or big == "long":
        ids = np.random.default_rng(draw(G.seeds)).permutation(n + grow)[:draw(st.integers(1, n))].tolist()
        rows = {"shape": [len(ids), other], "kind": draw(st.sampled_from(KINDS)), "seed": draw(G.seeds),
                "density": draw(st.sampled_from([0.01, 0.1, 0.5])), "hole": True}
    else:
        rows = draw(G.zeroed(G.matrix((len(ids), len(ids)), (other, other), KINDS)))
    f = st.sampled_from([30, 64, 100, 128]) if xl else st.integers(1, 20 if big else 4)
    return {"nu": nu, "ni": ni, "f": draw(f), "side": side,
            "ids": ids, "rows": rows, "dtype": draw(G.dtypes), "cols": draw(st.sampled_from(["same", "same", "fewer"])),
            "uf": draw(G.factors(1, 1, FK)), "if": draw(G.factors(1, 1, FK)),
            "alpha": draw(st.sampled_from(A.ALPHAS)), "reg": draw(st.sampled_from([0.5, 1.0, 0.125, 4.0])),
            "threads": draw(st.sampled_from([0, 1, 2, 5, 17])),
            "op": draw(st.sampled_from(["recalc", "partial", "query"])),
            "mtype": draw(st.sampled_from(["float32", "float32", "float64", "float64", "int32", "int8", "uint8", "int16"])),
            "scalar": draw(st.booleans()), "idt": draw(G.id_types.filter(lambda x: x != "u8")), "warmcache": draw(st.booleans()),
            "sort": draw(st.booleans()), "N": draw(st.integers(1, 12)),
            "flt": draw(st.booleans())}


def run(c):
    dt = np.dtype(c["dtype"])
    side = c["side"]
    m = mf_class("als")(factors=c["f"], regularization=c["reg"], alpha=c["alpha"], dtype=dt,
                        num_threads=c["threads"], random_state=1)
    m.user_factors = G.build_factors(c["uf"], c["nu"], c["f"], dt)
    m.item_factors = G.build_factors(c["if"], c["ni"], c["f"], dt)
    if c["warmcache"]:  # fill whatever the model wants to remember
        m.similar_items(0, N=1)
        m.similar_users(0, N=1)
        m.recalculate_user(0, sp.csr_matrix((1, c["ni"]), dtype=np.float32))
        m.recalculate_item(0, sp.csr_matrix((1, c["nu"]), dtype=np.float32))
    mt = np.dtype(c["mtype"])
    R = G.build_matrix(c["rows"], np.float32)
    if mt.kind in "iu":
        R.data = np.clip(np.where(np.abs(R.data) < 1, np.sign(R.data), np.round(R.data)), 0 if mt.kind == "u" else -100, 100)
    R = R.astype(mt)
    if not c["sort"]:
        R = G.shuffle_indices(R, 3)
    if c["cols"] == "fewer" and R.nnz:
        # rows may be given against a narrower matrix, e.g. one built before new items appeared
        R = sp.csr_matrix((R.data, R.indices, R.indptr), shape=(R.shape[0], int(R.indices.max()) + 1))
    ids = c["ids"]
    n = c["nu"] if side == "user" else c["ni"]
    other = c["ni"] if side == "user" else c["nu"]
    stored = m.item_factors if side == "user" else m.user_factors
    W, P = A.weights(sp.csr_matrix((R.data, R.indices, R.indptr), shape=(len(ids), other)), c["alpha"])
    empty = set(np.flatnonzero(np.diff(R.indptr) == 0).tolist())
    recalc = m.recalculate_user if side == "user" else m.recalculate_item
    U0, I0 = m.user_factors.copy(), m.item_factors.copy()
    aid = G.as_ids(ids, c["idt"])
    scalar = c["scalar"] and len(ids) == 1
    labels = [side, c["op"], c["dtype"], c["mtype"]]

    x = np.asarray(recalc(ids[0] if scalar else aid, R))
    if x.shape != ((c["f"],) if scalar else (len(ids), c["f"])):
        O.fail("recalculate_%s returned shape %s for %d ids", side, x.shape, len(ids))
    x2 = np.atleast_2d(x)
    A.check_rows(x2, W, P, stored, c["reg"], dt, "recalculate_" + side, empty)
    if not (np.array_equal(U0, m.user_factors) and np.array_equal(I0, m.item_factors)):
        O.fail("recalculate_%s changed the model", side)
    # one per id, in order: every row alone gives the same factors
    if len(ids) > 1:
        k = len(ids) // 2
        one = np.asarray(recalc(ids[k], R[k]))
        if not np.allclose(one, x2[k], rtol=1e-3, atol=1e-4):
            O.fail("row %d of recalculate_%s differs from the single call: %s vs %s", k, side,
                   x2[k].tolist(), one.tolist())

    if c["op"] == "partial":
        (m.partial_fit_users if side == "user" else m.partial_fit_items)(aid, R)
        want = (U0 if side == "user" else I0)
        top = max(max(ids) + 1, n)
        want = np.concatenate([want, np.zeros((top - n, c["f"]), dt)])
        got = np.asarray(m.user_factors if side == "user" else m.item_factors)
        fixed = np.asarray(m.item_factors if side == "user" else m.user_factors)
        if got.shape != want.shape:
            O.fail("partial_fit_%ss: factors have shape %s, expected %s", side, got.shape, want.shape)
        if got.dtype != dt:
            O.fail("partial_fit_%ss: dtype became %s", side, got.dtype)
        if not np.array_equal(fixed, I0 if side == "user" else U0):
            O.fail("partial_fit_%ss changed the other side", side)
        rest = np.ones(top, bool)
        rest[ids] = False
        if not np.array_equal(got[rest], want[rest]):
            O.fail("partial_fit_%ss changed rows it was not given (ids %s)", side, ids)
        if not np.array_equal(got[ids], x2) and not np.allclose(got[ids], x2, rtol=1e-5, atol=1e-7):
            O.fail("partial_fit_%ss stored %s, recalculate gives %s", side, got[ids].tolist(), x2.tolist())
        # queries now use the new rows
        k = ids[-1]
        fn = m.similar_users if side == "user" else m.similar_items
        ref, err = O.cosines(got[[k]], got)
        O.check_topn(*fn(k, N=min(5, top)), ref[0], err[0], min(5, top), what="similar after partial_fit")
        nxt = m.recalculate_item if side == "user" else m.recalculate_user
        y = np.atleast_2d(np.asarray(nxt(0, sp.csr_matrix(([2.0], ([0], [k])), shape=(1, top), dtype=np.float32))))
        W2 = np.ones((1, top))
        P2 = np.zeros((1, top))
        W2[0, k], P2[0, k] = 2.0 * c["alpha"], 1
        A.check_rows(y, W2, P2, got, c["reg"], dt, "recalculation after partial_fit")
    elif c["op"] == "query":
        if side == "user":
            # any userid may be asked: the factors come from the row
            liked = c["flt"]
            N = c["N"]
            if R.shape[1] < c["ni"]:
                R = sp.csr_matrix((R.data, R.indices, R.indptr), shape=(len(ids), c["ni"]))
            res = m.recommend(ids[0] if scalar else aid, R, N=N, recalculate_user=True,
                              filter_already_liked_items=liked)
            rid, rsc = O.as_result(res)
            rid, rsc = np.atleast_2d(rid), np.atleast_2d(rsc)
            ref, err = O.dots(x2, m.item_factors)
            for r in range(len(ids)):
                el = np.ones(c["ni"], bool)
                if liked:
                    el[R[r].indices] = False
                # the recalculated factors may be rounded differently between calls
                e = err[r] + 1e-5 * np.abs(x2[r].astype(np.float64)) @ np.abs(m.item_factors.astype(np.float64)).T
                O.check_topn(rid[r], rsc[r], ref[r], e, N, el, "recommend(recalculate_user) row %d" % r)
            m.partial_fit_users(aid, R)
            O.same_answer(m.recommend(ids[0] if scalar else aid, R, N=N, filter_already_liked_items=liked),
                          res, "stored first", tol=float(1e-4 * (1 + np.abs(ref).max())))
        else:
            N = c["N"]
            res = m.similar_items(ids[0] if scalar else aid, N=N, recalculate_item=True, item_users=R)
            rid, rsc = O.as_result(res)
            rid, rsc = np.atleast_2d(rid), np.atleast_2d(rsc)
            ref, err = O.cosines(x2, m.item_factors)
            for r in range(len(ids)):
                O.check_topn(rid[r], rsc[r], ref[r], err[r] + 1e-4, N,
                             what="similar_items(recalculate_item) row %d" % r)
    return R.nnz > 0 and c["f"] > 1, labels


@st.composite
def wrong_case(draw):
    n = draw(st.integers(1, 5))
    return {"nu": 6, "ni": 5, "n": n, "rows": draw(st.integers(1, 9).filter(lambda r: r != n)),
            "scalar": draw(st.booleans()), "seed": draw(G.seeds),
            "op": draw(st.sampled_from(["recalculate_user", "recalculate_item", "partial_fit_users",
                                        "partial_fit_items", "recommend", "similar_items"]))}


def run_wrong(c):
    m = mf_class("als")(factors=2, regularization=0.5, num_threads=1)
    rng = np.random.default_rng(c["seed"])
    m.user_factors = rng.standard_normal((c["nu"], 2)).astype(np.float32)
    m.item_factors = rng.standard_normal((c["ni"], 2)).astype(np.float32)
    scalar = c["scalar"] and c["op"] not in ("partial_fit_users", "partial_fit_items")
    if scalar and c["rows"] == 1:
        return False, ["valid"]
    width = c["ni"] if "user" in c["op"] or c["op"] == "recommend" else c["nu"]
    R = sp.random(c["rows"], width, 0.5, format="csr", dtype=np.float32, random_state=c["seed"])
    ids = 0 if scalar else list(range(c["n"]))
    U0, I0 = m.user_factors.copy(), m.item_factors.copy()
    try:
        if c["op"] == "recommend":
            m.recommend(ids, R, recalculate_user=True)
        elif c["op"] == "similar_items":
            m.similar_items(ids, recalculate_item=True, item_users=R)
        else:
            getattr(m, c["op"])(ids, R)
    except ValueError:
        if not (np.array_equal(U0, m.user_factors) and np.array_equal(I0, m.item_factors)):
            O.fail("%s was rejected but changed the model", c["op"])
        return True, [c["op"]]
    O.fail("%s accepted %d rows for %d ids", c["op"], c["rows"], 1 if scalar else c["n"])


@st.composite
def ann_case(draw):
    c = draw(N_.exhaustive())
    many = draw(st.integers(0, 3)) == 0
    c.update({"op": draw(st.sampled_from(["recommend", "recommend", "similar_items"])), "N": draw(st.integers(1, 12)),
              "q": draw(st.sampled_from([64, 100, 101, 150, 260])) if many else draw(st.integers(1, 5)), "seed": draw(G.seeds),
              "scalar": draw(st.booleans()) and not many, "liked": draw(st.booleans()), "density": draw(st.sampled_from([0.1, 0.4]))})
    return c


def run_ann(c):
    """Queries of an index-wrapped model with recalculated factors answer like those of the model itself"""
    w, m = N_.build(c)
    rng = np.random.default_rng(c["seed"])
    nu, ni = c["nu"], c["ni"]
    n, other = (nu, ni) if c["op"] == "recommend" else (ni, nu)
    q = rng.integers(0, n, 1 if c["scalar"] else c["q"])
    R = sp.csr_matrix((rng.random((len(q), other)) < c["density"]) * rng.integers(1, 5, (len(q), other)).astype(np.float32))
    qq = int(q[0]) if c["scalar"] else q
    zero = np.linalg.norm(m.item_factors, axis=1) == 0
    if c["op"] == "recommend":
        X = np.atleast_2d(m.recalculate_user(qq, R))
        with N_.quiet():
            got = w.recommend(qq, R, N=c["N"], filter_already_liked_items=c["liked"], recalculate_user=True)
        ref, err = O.dots(X, m.item_factors)
        scale = np.linalg.norm(X.astype(np.float64), axis=1)[:, None] * np.linalg.norm(m.item_factors.astype(np.float64), axis=1).max()
    else:
        X = np.atleast_2d(m.recalculate_item(qq, R))
        with N_.quiet():
            got = w.similar_items(qq, N=c["N"], recalculate_item=True, item_users=R)
        ref, err = O.cosines(X, m.item_factors)
        scale = np.ones((len(q), 1))
    ids, scores = O.as_result(got, c["op"])
    ids, scores = np.atleast_2d(ids), np.atleast_2d(scores).astype(np.float64)
    if len(ids) != len(q):
        O.fail("%s: %d rows for %d queries", c["op"], len(ids), len(q))
    for r in range(len(q)):
        ok = np.ones(ni, bool)
        if c["op"] == "recommend" and c["liked"]:
            ok[R[r].indices] = False
        elif c["lib"] == "nmslib" and c["op"] != "recommend":
            ok[zero] = False
        keep = (ids[r] != -1) & (scores[r] > O.SENTINEL)
        i, s = ids[r][keep], scores[r][keep]
        tol = err[r] + 1e-5 * scale[r]
        if (np.abs(s - ref[r][i]) > tol[i]).any():
            O.fail("%s %s(recalculated) row %d of %d: scores %s, recalculated factors give %s", c["lib"], c["op"], r, len(q),
                   s.tolist(), ref[r][i].tolist())
        want = np.sort(ref[r][ok])[::-1][:c["N"]]
        if len(s) != len(want) or (np.abs(s - want) > 2 * tol.max()).any():
            O.fail("%s %s(recalculated) row %d of %d: scores %s, the best are %s", c["lib"], c["op"], r, len(q), s.tolist(),
                   want.tolist())
    return bool(R.nnz) and ni > 1, [c["lib"], c["op"], "many" if len(q) > 60 else "few"]


TESTS = [
    T("ann", ann_case, run_ann, 800, 16000),
    T("small", case, run, 6400, 100000),
    T("large", lambda: case(True), run, 960, 16000),
    T("xl", lambda: case("xl"), run, 64, 960),
    T("long", lambda: case("long"), run, 128, 1920),
    T("wrong_rows", wrong_case, run_wrong, 480, 4800),
]
