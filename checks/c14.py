"""C14: item-item models keep exactly the K most similar items per item."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib import weightref as WR
from vlib.engine import T
from vlib.models import knn_class


@st.composite
def case(draw, big=False):
    kind = draw(st.sampled_from(["item", "cosine", "tfidf", "bm25"]))
    kinds = ("ones", "counts", "frac", "big", "tiny") + (("signed",) if kind in ("item", "cosine") else ())
    if big == "long":
        m = draw(G.long_matrix(kinds, 1100))
    elif big == "xl":
        m = draw(G.matrix((1, 1), (1, 1), kinds, (150, 600), (150, 700), p_big=1.1))
    else:
        m = draw(G.matrix((1, 9), (1, 9), kinds, (10, 120), (10, 150), p_big=1.1 if big else 0, min_nnz=1))
    h = {"K": draw(st.sampled_from([1, 2, 3, 5, 9, 20, 60] + [100, 300] * bool(big))), "num_threads": draw(st.sampled_from([0, 1, 2, 5, 17]))}
    if kind == "bm25":
        h.update(K1=draw(st.sampled_from([1.2, 100.0, 0.5])), B=draw(st.sampled_from([0.75, 0.0, 1.0, 0.3])))
    return {"kind": kind, "m": m, "h": h, "default": draw(st.integers(0, 9)) == 0,
            "fmt": draw(st.sampled_from(["csr", "csr", "coo", "csc"])),
            "dtype": draw(st.sampled_from(["float64", "float32", "int64"])),
            "sort": draw(st.booleans()), "refit": draw(st.booleans())}


def run(c):
    M = G.build_matrix(c["m"], np.float64)
    if M.nnz == 0:
        return False, ["empty"]
    dt = np.dtype(c["dtype"])
    if dt.kind == "i":
        M.data = np.where(np.abs(M.data) < 1, np.sign(M.data), np.trunc(M.data))
    h = dict(c["h"])
    if c["default"]:
        h = {"num_threads": h["num_threads"]}
    K = h.get("K", 20)
    m = knn_class(c["kind"])(**h)
    X = M.astype(dt)
    if c["fmt"] == "csr" and not c["sort"]:
        X = G.shuffle_indices(X, 4)
    X = X.asformat(c["fmt"])
    if c["refit"]:
        m.fit(G.build_matrix(dict(c["m"], seed=1), np.float64) if "seed" in c["m"] else X, show_progress=False)
    m.fit(X, show_progress=False)
    S = m.similarity.tocsr()
    S.sum_duplicates()

    dense = M.toarray()
    mask = np.zeros(M.shape, bool)
    mask[M.nonzero()] = True
    Wt, undefined, noisy = WR.item_weights(c["kind"], dense, mask, h.get("K1", 1.2), h.get("B", 0.75))
    Gm = Wt.T @ Wt
    mag = np.abs(Wt).T @ np.abs(Wt)
    overlap = (mask.T.astype(int) @ mask.astype(int)) > 0
    rel = 1e-6 if dt == np.float32 else 1e-11
    n = M.shape[1]
    if S.shape != (n, n):
        O.fail("similarity has shape %s for %d items", S.shape, n)
    full = 0
    for i in range(n):
        a, b = S.indptr[i], S.indptr[i + 1]
        idx, val = S.indices[a:b], S.data[a:b].astype(np.float64)
        if np.isnan(val).any():
            O.fail("row %d has NaN similarities", i)
        if undefined[i]:
            continue
        ok = ~undefined[idx]
        err = rel * mag[i] + (1e-11 if noisy else 0) + 1e-300
        if len(idx) > K:
            O.fail("row %d holds %d similarities for K=%d", i, len(idx), K)
        bad = ok & ~overlap[i][idx] & (np.abs(val) > err[idx])
        if bad.any():
            O.fail("row %d lists item %d, which shares no user", i, idx[bad][0])
        d = np.abs(val - Gm[i][idx])
        bad = ok & ~(d <= err[idx])
        if bad.any():
            j = int(np.argmax(bad))
            O.fail("similarity(%d, %d) is %r, exact product %r", i, idx[j], val[j], Gm[i][idx[j]])
        if undefined.any():
            continue
        rest = overlap[i].copy()
        rest[idx] = False
        nset = int(overlap[i].sum())
        if not rest.any():
            continue
        if len(idx) < K:
            lost = rest & (np.abs(Gm[i]) > err)
            if lost.any():
                O.fail("row %d holds %d of %d overlapping items for K=%d; item %d (%r) is missing", i,
                       len(idx), nset, K, int(np.argmax(lost)), Gm[i][int(np.argmax(lost))])
        else:
            full += 1
            lo = val.min()
            cand = np.where(rest, Gm[i] - err, -np.inf)
            j = int(np.argmax(cand))
            if cand[j] > lo:
                O.fail("row %d: item %d (%r) is missing although the smallest kept similarity is %r (K=%d)",
                       i, j, Gm[i][j], lo, K)
    return full > 0 or (M.nnz > 2 and n > 1 and K >= n), [c["kind"], "pruned" if full else "all", c["fmt"]]


@st.composite
def wide_case(draw):
    return {"kind": draw(st.sampled_from(["item", "cosine"])), "users": draw(st.integers(2, 6)), "seed": draw(G.seeds),
            "items": draw(st.sampled_from([33000, 66000, 70001])), "per": draw(st.sampled_from([5, 60, 300])),
            "K": draw(st.sampled_from([3, 20, 700, 65536])), "threads": draw(st.sampled_from([0, 1, 3]))}


def run_wide(c):
    """catalogues past 16 bit ids, against the sparse product"""
    if c["K"] == 65536:  # items * K just above 2**32
        c = dict(c, items=65536 + c["seed"] % 64)
    rng = np.random.default_rng(c["seed"])
    rows = np.repeat(np.arange(c["users"]), c["per"])
    pool = rng.choice(c["items"], 2 * c["per"], replace=False)
    pool[0] = c["items"] - 1
    cols = np.concatenate([rng.choice(pool, c["per"], replace=False) for _ in range(c["users"])])
    M = sp.csr_matrix((rng.integers(1, 9, len(rows)).astype(np.float64), (rows, cols)), shape=(c["users"], c["items"]))
    m = knn_class(c["kind"])(K=c["K"], num_threads=c["threads"])
    m.fit(M, show_progress=False)
    W = M.tocsc()
    if c["kind"] == "cosine":
        n = np.sqrt(np.asarray(M.multiply(M).sum(0)).ravel())
        n[n == 0] = 1
        W = (M @ sp.diags(1 / n)).tocsc()
    P = (W.T @ W).tocsr()
    S = m.similarity.tocsr()
    if S.shape != P.shape:
        O.fail("similarity has shape %s for %d items", S.shape, c["items"])
    full = 0
    if np.setdiff1d(np.flatnonzero(np.diff(S.indptr)), pool).size:
        O.fail("items that nobody has have similar items")
    for i in pool:
        want = dict(zip(P[i].indices.tolist(), P[i].data.tolist()))
        idx, val = S[i].indices.tolist(), S[i].data.tolist()
        if len(idx) != min(c["K"], len(want)) or len(set(idx)) != len(idx):
            O.fail("row %d holds %d similarities, %d items overlap (K=%d)", i, len(idx), len(want), c["K"])
        full += len(want) > c["K"]
        for j, v in zip(idx, val):
            if j not in want or abs(want[j] - v) > 1e-9 * (1 + abs(v)):
                O.fail("similarity(%d, %d) is %r, exact product %r", i, j, v, want.get(j))
        if idx:
            rest = [v for j, v in want.items() if j not in set(idx)]
            if rest and max(rest) > min(val) + 1e-9 * (1 + abs(min(val))):
                O.fail("row %d: a similarity of %r is missing, the smallest kept is %r", i, max(rest), min(val))
    return full > 0, [c["kind"], "pruned" if full else "all"]


TESTS = [
    T("wide", wide_case, run_wide, 48, 640),
    T("small", case, run, 6400, 100000),
    T("large", lambda: case(True), run, 960, 16000),
    T("xl", lambda: case("xl"), run, 48, 640),
    T("long", lambda: case("long"), run, 96, 960),
]
