"""C05: similar_items / similar_users == exact top-N cosine, for the current factors."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import giant
from vlib import oracle as O
from vlib.engine import T
from vlib.models import MF, mf_class, mf_model


@st.composite
def case(draw, big):
    n = draw(st.integers(1, 250 if big else 10))
    f = draw(st.integers(1, 30 if big else 4))
    if big == "xl":
        n, f = draw(st.sampled_from([300, 1030, 4100, 9000])), draw(st.sampled_from([32, 65, 128, 200]))
    elif big == "huge":
        n, f = draw(st.sampled_from([33000, 65537, 66000, 100000])), draw(st.integers(1, 3))
    return {
        "model": draw(st.sampled_from(MF)), "n": n, "f": f, "dtype": draw(G.dtypes),
        "fac": draw(G.factors(n, f)), "op": draw(st.sampled_from(["items", "users"])),
        "N": draw(st.one_of(st.integers(1, n + 3), st.sampled_from([10, 65, 129, 1025]))) if big else draw(G.result_count(n + 3)), "flat": draw(st.booleans()),
        "q": {"n": draw(st.sampled_from([1, 10, 99, 101, 201] if big != "huge" else [1, 2, 4])), "seed": draw(G.seeds)} if big
        else draw(G.ids_list(n, max_size=5, min_size=1)),
        "layout": draw(st.sampled_from(["C", "C", "C", "F", "view"])),
        "scalar": (not big) and draw(st.booleans()), "threads": draw(st.sampled_from([0, 1, 3, 17])),
    }


def check(m, op, q, N, scalar, what, item_users=None):
    fac = np.asarray(m.item_factors if op == "items" else m.user_factors)
    fn = m.similar_items if op == "items" else m.similar_users
    uid = int(q[0]) if scalar else np.array(q)
    rows = [q[0]] if scalar else q
    vec = fac[rows]
    kw = {}
    if item_users is not None:
        iu = item_users[0] if scalar else item_users
        vec = np.asarray(m.recalculate_item(uid, iu)).reshape(len(rows), -1)
        kw = {"recalculate_item": True, "item_users": iu}
    ids, scores = O.as_result(G.ask(fn, (uid,), {"N": N, **kw}), what)
    if scalar:
        ids, scores = ids[None], scores[None]
    if ids.ndim != 2 or ids.shape[0] != len(rows):
        O.fail("%s: shape %s for %d queries", what, ids.shape, len(rows))
    ref, err = O.cosines(vec, fac)
    norms = np.linalg.norm(vec.astype(np.float64), axis=1)
    for r, i in enumerate(rows):
        O.check_topn(ids[r], scores[r], ref[r], err[r], N, what="%s of %d" % (what, i))
        real = scores[r][scores[r] > O.SENTINEL]
        if len(real) and np.abs(real).max() > 1 + 1e-4:
            O.fail("%s of %d: cosine %r outside [-1, 1]", what, i, float(np.abs(real).max()))
        if norms[r] == 0 and len(real) and np.abs(real).max() > 0:
            O.fail("%s of %d: all-zero vector has score %r", what, i, float(np.abs(real).max()))


def run(c):
    dt = np.dtype(c["dtype"])
    fac = G.build_factors(c["fac"], c["n"], c["f"], dt)
    other = np.ones((3, c["f"]), dtype=dt)
    m = mf_model(c["model"], other if c["op"] == "items" else fac,
                 fac if c["op"] == "items" else other, num_threads=c["threads"], layout=c["layout"])
    q = c["q"]
    if isinstance(q, dict):
        q = np.random.default_rng(q["seed"]).integers(0, c["n"], q["n"]).tolist()
    check(m, c["op"], q, c["N"], c["scalar"], "similar_" + c["op"])
    return c["n"] > 2 and c["N"] < c["n"], [c["op"], c["fac"]["kind"], c["dtype"]]


@st.composite
def refit_case(draw):
    users, items = draw(st.integers(2, 9)), draw(st.integers(2, 9))
    return {"model": draw(st.sampled_from(MF)), "a": draw(G.matrix((users, users), (items, items), min_nnz=2)),
            "b": draw(G.matrix((users, users), (items, items), min_nnz=2)),
            "f": draw(st.integers(1, 4)), "seed": draw(G.seeds), "dtype": draw(G.dtypes),
            "partial": draw(st.lists(st.tuples(st.sampled_from(["users", "items"]),
                                               st.lists(st.integers(0, 11), min_size=1, max_size=3, unique=True)),
                                     max_size=3)),
            }


def run_refit(c):
    a, b = G.build_matrix(c["a"], np.float32), G.build_matrix(c["b"], np.float32)
    if a.nnz == 0 or b.nnz == 0:
        return False, ["empty"]
    kw = {"dtype": np.dtype(c["dtype"])} if c["model"] != "lmf" else {}
    if c["model"] == "als":
        kw["regularization"] = 0.5
    else:
        kw["learning_rate"] = 0.05
    m = mf_class(c["model"])(factors=c["f"], iterations=2, random_state=c["seed"], num_threads=1, **kw)
    m.fit(a, show_progress=False)
    nu, ni = a.shape
    for step in range(2):
        for op, n in (("items", ni), ("users", nu)):
            check(m, op, list(range(n)), n, False, "similar_%s after fit %d" % (op, step + 1))
            check(m, op, [n - 1], n, True, "similar_%s after fit %d" % (op, step + 1))
        if step == 0:
            m.fit(b, show_progress=False)
    for side, ids in c["partial"] if c["model"] == "als" else []:
        have = nu if side == "users" else ni
        ids = [min(i, have) for i in ids] if len(ids) == 1 else [i % have for i in ids]
        ids = sorted(set(ids), reverse=True)
        rows = (a if side == "users" else a.T.tocsr())[[i % min(a.shape) for i in range(len(ids))]]
        if side == "users":
            rows = sp.csr_matrix((rows.data, rows.indices, rows.indptr), shape=(len(ids), ni))
            m.partial_fit_users(np.array(ids), rows)
            nu = max(nu, max(ids) + 1)
        else:
            rows = sp.csr_matrix((rows.data, rows.indices, rows.indptr), shape=(len(ids), nu))
            m.partial_fit_items(np.array(ids), rows)
            ni = max(ni, max(ids) + 1)
        for op, n in (("users", nu), ("items", ni)):
            check(m, op, list(range(n)), n, False, "similar_%s after partial_fit_%s(%s)" % (op, side, ids))
            check(m, op, [n // 2], n, True, "similar_%s after partial_fit_%s(%s)" % (op, side, ids))
    if c["model"] == "als":
        iu = sp.csr_matrix((ni, nu), dtype=np.float32).tolil()
        for k in range(0, ni, 2):
            iu[k, (k * 3 + c["f"]) % nu] = 1 + k % 3
        iu = iu.tocsr()
        check(m, "items", list(range(ni)), ni, False, "similar_items(recalculate_item)", iu)
        check(m, "items", [0], ni, True, "similar_items(recalculate_item)", iu)
    return True, [c["model"], "partial:%d" % len(c["partial"])]


TESTS = [
    T("small", lambda: case(False), run, 4800, 100000),
    T("large", lambda: case(True), run, 960, 20000),
    T("xl", lambda: case("xl"), run, 120, 2400),
    T("huge", lambda: case("huge"), run, 80, 960),
    T("refit", refit_case, run_refit, 1200, 24000),
    T("giant", lambda: giant.case(("similar_items", "similar_users"), ("plain",)), giant.run, 64, 960),
]
