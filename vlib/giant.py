"""Models with more than 2**24 items or users, past the integers a float32 can hold (shared by C01-C05).

Only the rows of a small pool of ids are non-zero (and positive), so that the reference stays small:
every query of at most as many results as the pool has eligible ids is answered from the pool."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import Skip
from vlib.models import MF, mf_class

N_ROWS = 2**24 + 40
POOL = np.array([0, 1, 3, 255, 256, 32767, 32768, 65535, 65536, 65539, 2**23 + 1] + [2**24 + k for k in range(-3, 12)] +
                [N_ROWS - 2, N_ROWS - 1])
WHERE = {int(x): k for k, x in enumerate(POOL)}
_rows = {}


def rows(values):
    """The (shared) big factor matrix holding the given rows for the pool"""
    if "big" not in _rows:
        _rows["big"] = np.zeros((N_ROWS, 2), np.float32)
    _rows["big"][POOL] = values
    return _rows["big"]


@st.composite
def case(draw, ops=("recommend", "similar_items", "similar_users"), how=("plain",)):
    P = len(POOL)
    return {"model": draw(st.sampled_from(MF)), "op": draw(st.sampled_from(ops)), "side": draw(st.sampled_from(["items", "items", "users"])),
            "how": draw(st.sampled_from(how)), "seed": draw(G.seeds), "N": draw(st.integers(1, 12)),
            "q": draw(st.lists(st.integers(0, P - 1), min_size=1, max_size=4)), "scalar": draw(st.booleans()),
            "pick": draw(st.lists(st.integers(0, P - 1), min_size=1, max_size=P - 10, unique=True)),
            "likes": draw(st.lists(st.integers(0, P - 1), min_size=1, max_size=8, unique=True)),
            "liked": draw(st.sampled_from([True, True, False])), "idt": draw(st.sampled_from(["list", "i4", "i8"]))}


def run(c):
    rng = np.random.default_rng(c["seed"])
    P, op = len(POOL), c["op"]
    V = rng.uniform(0.1, 2.0, (P, 2)).astype(np.float32)
    big = rows(V)
    small = rng.uniform(0.1, 2.0, (40, 2)).astype(np.float32)
    side = {"similar_items": "items", "similar_users": "users"}.get(op, c["side"])
    m = mf_class(c["model"])(factors=2, num_threads=1)
    m.user_factors, m.item_factors = (small, big) if side == "items" else (big, small)
    batch = not c["scalar"]
    q = c["q"] if batch else c["q"][:1]
    kw, el = {}, np.ones(P, bool)
    ids_of = POOL if (side == "items" or op == "similar_users") else np.arange(len(small))
    if side == "users" and op == "recommend":
        el = np.ones(len(small), bool)
    pick = np.array([k for k in c["pick"] if k < len(ids_of)])
    if c["how"] == "filter":
        kw["filter_users" if op == "similar_users" else "filter_items"] = G.as_ids(ids_of[pick].tolist(), c["idt"])
        el[pick] = False
    elif c["how"] == "subset":
        kw["users" if op == "similar_users" else "items"] = G.as_ids(ids_of[pick].tolist(), c["idt"])
        el[:] = False
        el[pick] = True
    els = [el.copy() for _ in q]
    if op == "recommend":
        uids = np.array(q) if side == "items" else POOL[q]
        n = N_ROWS if side == "items" else len(small)
        L = sp.csr_matrix((np.ones(len(q) * len(c["likes"]), np.float32), (np.repeat(np.arange(len(q)), len(c["likes"])),
                          np.tile(ids_of[c["likes"]], len(q)))), shape=(len(q), n))
        if c["liked"]:
            for e in els:
                e[c["likes"]] = False
        N = min([c["N"]] + [int(e.sum()) for e in els])
        if not N:
            raise Skip()
        got = m.recommend(uids.tolist() if batch else int(uids[0]), L, N=N, filter_already_liked_items=c["liked"], **kw)
        ref, err = O.dots(small[q] if side == "items" else V[q], V if side == "items" else small)
    else:
        N = min(c["N"], int(el.sum()))
        if not N:
            raise Skip()
        fn = m.similar_items if op == "similar_items" else m.similar_users
        got = fn(POOL[q].tolist() if batch else int(POOL[q[0]]), N=N, **kw)
        ref, err = O.cosines(V[q], V)
    ids, scores = O.as_result(got, op)
    ids, scores = np.atleast_2d(ids), np.atleast_2d(scores)
    if ids.shape[0] != len(q):
        O.fail("%s: %d rows for %d queries", op, ids.shape[0], len(q))
    for r in range(len(q)):
        back = ids[r]
        if ids_of is POOL:
            stray = [int(x) for x in ids[r] if int(x) not in WHERE]
            if stray:
                O.fail("%s of %d: id %d has no factors but was returned for N=%d", op, q[r], stray[0], N)
            back = np.array([WHERE[int(x)] for x in ids[r]])
        O.check_topn(back, scores[r], ref[r], err[r], N, els[r], "%s among %d %s, row %d (positions in %s)" % (
            op, N_ROWS, side, r, POOL.tolist() if ids_of is POOL else "range"))
    return True, [op, side, c["how"]]


@st.composite
def colossal(draw):
    return {"seed": draw(G.seeds)}


def run_colossal(c):
    """A full batch of queries over so many items that the offsets of its scores need more than 31 bits (9 GB)"""
    rng = np.random.default_rng(c["seed"])
    n = 2**31 // 98 + 60
    pool = np.concatenate([[0, n - 1], rng.choice(np.arange(1, n - 1), 6, replace=False)])
    m = mf_class("als")(factors=1, num_threads=1)
    m.user_factors = rng.uniform(0.5, 2, (100, 1)).astype(np.float32)
    m.item_factors = np.zeros((n, 1), np.float32)
    m.item_factors[pool, 0] = rng.permutation(8) + 1
    ids, scores = m.recommend(np.arange(100), None, N=5, filter_already_liked_items=False)
    best = pool[np.argsort(-m.item_factors[pool, 0])][:5]
    if not (ids == best).all() or not np.allclose(scores, m.user_factors * np.arange(8, 3, -1), rtol=1e-5):
        r = int(np.argmin((ids == best).all(1)))
        O.fail("recommend of user %d among %d items gives %s (%s), the best are %s", r, n, ids[r].tolist(), scores[r].tolist(), best.tolist())
    return True, ["colossal"]
