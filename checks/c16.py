"""C16: tfidf_weight, bm25_weight and normalize follow their formulas and leave the input alone."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib import weightref as WR
from vlib.engine import T


@st.composite
def case(draw, long=False):
    fn = draw(st.sampled_from(["tfidf", "bm25", "bm25d", "normalize"]))
    kinds = ("ones", "counts", "frac", "big", "tiny") + (("signed",) if fn == "normalize" else ())
    return {"fn": fn, "m": draw(G.matrix((1, 9), (1, 9), kinds, (10, 150), (10, 150)) if not long else
                                st.one_of(G.long_matrix(kinds, 70000), G.matrix((1, 1), (1, 1), kinds, (300, 1500), (300, 1500), 1.1))),
            "fmt": draw(st.sampled_from(["csr", "csc", "coo", "coo"] + ["lil", "dok"] * (not long))),
            "dtype": draw(st.sampled_from(["float64", "float32", "int32", "int64", "int8", "uint8", "int16", "uint32", "bool"])),
            "K1": draw(st.sampled_from([1.2, 100, 0.0, 0.5])), "B": draw(st.sampled_from([0.75, 0, 1, 0.3])),
            "zero": draw(st.integers(0, 5)) == 0, "sort": draw(st.booleans())}


def raw(X):
    if X.format == "lil":
        return [list(map(list, X.rows)), list(map(list, X.data))]
    if X.format == "dok":
        return [sorted(X.items())]
    if X.format == "coo":
        return [X.data.copy(), X.row.copy(), X.col.copy()]
    return [X.data.copy(), X.indices.copy(), X.indptr.copy()]


def same_raw(a, b):
    return all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def run(c):
    import implicit.nearest_neighbours as nn
    M = G.build_matrix(c["m"], np.float64)
    dt = np.dtype(c["dtype"])
    if dt.kind in "iub":
        M.data = np.where(np.abs(M.data) < 1, np.sign(M.data), np.trunc(M.data))
        lo, hi = (0, 1) if dt.kind == "b" else (np.iinfo(dt).min, np.iinfo(dt).max)
        M.data = np.clip(np.abs(M.data) if lo == 0 else M.data, lo, hi)
    if c["zero"] and c["fn"] == "normalize" and M.nnz:
        # a row of explicit zeros
        r = int(np.flatnonzero(np.diff(M.indptr))[0])
        M.data[M.indptr[r]:M.indptr[r + 1]] = 0
    mask = np.zeros(M.shape, bool)
    coo = M.tocoo()
    mask[coo.row, coo.col] = True
    dense = M.toarray()
    X = M.astype(dt)
    if c["fmt"] == "csr" and not c["sort"]:
        X = G.shuffle_indices(X, 2)
    X = X.asformat(c["fmt"])
    if c["fmt"] == "coo" and not c["sort"]:
        o = np.random.default_rng(X.nnz).permutation(X.nnz)
        X = sp.coo_matrix((X.data[o], (X.row[o], X.col[o])), shape=X.shape)
    xc = X.tocoo()
    mask = np.zeros(M.shape, bool)
    mask[xc.row, xc.col] = True
    before, shape, dtype = raw(X), X.shape, X.dtype
    K1, B = c["K1"], c["B"]
    zero = None
    if c["fn"] == "tfidf":
        out = nn.tfidf_weight(X)
        ref, zero = WR.tfidf(dense, mask)
    elif c["fn"] == "normalize":
        out = nn.normalize(X)
        ref = WR.normalize(dense)
    else:
        if c["fn"] == "bm25":
            out = nn.bm25_weight(X, K1, B)
        else:
            K1, B = 100, 0.8
            out = nn.bm25_weight(X)
        ref, zero = WR.bm25(dense, mask, K1, B)
    if not same_raw(before, raw(X)) or X.shape != shape or X.dtype != dtype:
        O.fail("%s modified its input", c["fn"])
    if not sp.issparse(out) or out.shape != shape:
        O.fail("%s returned %s of shape %s", c["fn"], type(out), getattr(out, "shape", None))
    oc = sp.coo_matrix(out)
    if not np.isfinite(np.asarray(oc.data, float)).all():
        O.fail("%s returned non-finite weights", c["fn"])
    stored = np.zeros(shape, int)
    np.add.at(stored, (oc.row, oc.col), 1)
    if (stored > 1).any() or (stored[~mask] > 0).any():
        O.fail("%s returned entries outside the pattern of its input", c["fn"])
    got = oc.toarray().astype(np.float64)
    rel = 2e-6 if dt == np.float32 else 1e-11
    extra = 1e-12 * (1 + np.abs(dense)) if zero is not None and zero.any() else 0
    bad = ~(np.abs(got - ref) <= rel * np.abs(ref) + extra + 1e-300)
    if bad.any():
        k = np.unravel_index(np.argmax(bad), bad.shape)
        O.fail("%s: weight at %s is %r, formula gives %r (value %r)", c["fn"], k, got[k], ref[k], dense[k])
    if c["fn"] == "normalize":
        n = np.sqrt((got * got).sum(1))
        has = (dense != 0).any(1)
        if not np.allclose(n[has], 1, atol=1e-5) or n[~has].any():
            O.fail("row lengths %s", n.tolist())
    return M.nnz > 1, [c["fn"], c["fmt"], c["dtype"]]


TESTS = [T("weights", case, run, 9600, 160000), T("long", lambda: case(True), run, 80, 1200)]
