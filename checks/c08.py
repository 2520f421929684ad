"""C08: the ALS training loss given to the callback is the mean weighted squared error + penalty."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import alsref as A
from vlib import gen as G
from vlib import oracle as O
from vlib.engine import Skip, T
from vlib.models import mf_class

KINDS = ("ones", "counts", "frac", "signed", "big", "tiny")


@st.composite
def case(draw, big):
    if big == "xl":
        m = draw(G.matrix((1, 1), (1, 1), KINDS, (60, 700), (30, 900), p_big=1.1))
        f = draw(st.sampled_from([20, 65, 100, 128]))
    elif big == "long":
        m = draw(G.long_matrix(KINDS))
        f = draw(st.integers(1, 6))
    elif big:
        m = draw(G.matrix((1, 1), (1, 1), KINDS, (2, 150), (2, 70), p_big=1.1))
        f = draw(st.sampled_from([1, 2, 5, 8, 16, 24, 33]))
    else:
        m = draw(G.zeroed(G.matrix((1, 9), (1, 9), KINDS)))
        f = draw(st.integers(1, 5))
    return {"m": m, "f": f, "dtype": draw(G.dtypes), "fac": draw(G.factors(1, 1, G.FACTOR_KINDS[:-1])),
            "alpha": draw(st.sampled_from(A.ALPHAS)),
            "reg": draw(st.sampled_from([0.5, 0.03125, 1.0, 0.125, 40.0, 0.01])),
            "native": draw(st.sampled_from([True, True, False])) if not big else True,
            "cg": draw(st.booleans()), "threads": draw(st.sampled_from([0, 1, 2, 5, 17])),
            "its": draw(st.integers(1, 3)), "warm": draw(st.booleans()),
            "cbattr": draw(st.booleans()), "tweak": draw(st.booleans())}


def expected(W, P, X, Y, reg):
    X, Y = X.astype(np.float64), Y.astype(np.float64)
    S = X @ Y.T
    loss = (W * (P - S) ** 2).sum() + reg * ((X * X).sum() + (Y * Y).sum())
    mag = (W * P).sum() + 2 * (W * P * (np.abs(X) @ np.abs(Y).T)).sum() + (
        np.maximum(W, 1) * 3 * (np.abs(X) @ np.abs(Y).T) ** 2).sum() + reg * (
            (X * X).sum() + (Y * Y).sum())
    return loss / W.sum(), mag / W.sum()


def expected_sparse(M, alpha, X, Y, reg):
    """the same from the stored entries only: for shapes that cannot be made dense"""
    X, Y = X.astype(np.float64), Y.astype(np.float64)
    M = M.tocoo()
    s = (X[M.row] * Y[M.col]).sum(1)
    sa = (np.abs(X[M.row]) * np.abs(Y[M.col])).sum(1)
    v = M.data.astype(np.float64) * alpha
    w, p = np.abs(v), (v > 0).astype(float)
    square = ((X.T @ X) * (Y.T @ Y)).sum()
    square_abs = ((np.abs(X).T @ np.abs(X)) * (np.abs(Y).T @ np.abs(Y))).sum()
    pen = reg * ((X * X).sum() + (Y * Y).sum())
    loss = (w * (p - s) ** 2 - s ** 2).sum() + square + pen
    mag = (w * p).sum() + 2 * (w * p * sa).sum() + 3 * square_abs + 3 * (w * sa ** 2).sum() + pen
    total = w.sum() + float(M.shape[0]) * M.shape[1] - M.nnz
    return loss / total, mag / total


@st.composite
def wide_case(draw):
    a, b = draw(st.sampled_from([(70000, 50000), (46341, 46342), (65537, 66000), (3000000, 1500), (1025, 700)]))
    if draw(st.booleans()):
        a, b = b, a
    return {"users": a, "items": b, "nnz": draw(st.sampled_from([0, 1, 50, 3000])), "seed": draw(G.seeds),
            "f": draw(st.integers(1, 2)), "dtype": draw(G.dtypes), "alpha": draw(st.sampled_from(A.ALPHAS)),
            "reg": draw(st.sampled_from([0.5, 0.03125, 1.0])), "cg": draw(st.booleans()),
            "threads": draw(st.sampled_from([0, 1, 2, 5, 17]))}


def run_wide(c):
    dt = np.dtype(c["dtype"])
    rng = np.random.default_rng(c["seed"])
    n = c["nnz"]
    M = sp.csr_matrix((rng.integers(1, 9, n).astype(np.float32),
                       (rng.integers(0, c["users"], n), rng.integers(0, c["items"], n))),
                      shape=(c["users"], c["items"]))
    m = mf_class("als")(factors=c["f"], regularization=c["reg"], alpha=c["alpha"], dtype=dt,
                        use_cg=c["cg"], iterations=1, num_threads=c["threads"], random_state=3,
                        calculate_training_loss=True)
    # a strong start: the error is dominated by the cells without an interaction
    m.user_factors = rng.standard_normal((c["users"], c["f"])).astype(dt)
    m.item_factors = rng.standard_normal((c["items"], c["f"])).astype(dt)
    got = []

    def cb(it, elapsed, loss):
        X, Y = np.asarray(m.user_factors), np.asarray(m.item_factors)
        ref, mag = expected_sparse(M, c["alpha"], X, Y, c["reg"])
        eps = float(np.finfo(dt).eps)
        tol = (4 * (c["f"] + c["items"] ** 0.5 * 8) * eps + 2e-7) * mag + 1e-30
        if loss is None or not abs(float(loss) - ref) <= tol:
            O.fail("a %d x %d matrix reports loss %r, should be %.9g (+-%.3g)", c["users"], c["items"], loss, ref, tol)
        got.append(ref > 100 * tol)

    m.fit(M, show_progress=False, callback=cb)
    if len(got) != 1:
        O.fail("%d callbacks for one iteration", len(got))
    return got[0], [c["dtype"], "cells>2**31" if c["users"] * c["items"] >= 2 ** 31 else "cells<2**31"]


def run(c):
    dt = np.dtype(c["dtype"])
    M = G.build_matrix(c["m"], np.float32)
    nu, ni = M.shape
    m = mf_class("als")(factors=c["f"], regularization=c["reg"], alpha=c["alpha"], dtype=dt,
                        use_native=c["native"], use_cg=c["cg"], iterations=c["its"],
                        num_threads=c["threads"], random_state=3, calculate_training_loss=True)
    if c["warm"]:
        m.user_factors = G.build_factors(c["fac"], nu, c["f"], dt)
        m.item_factors = G.build_factors(dict(c["fac"], seed=c["fac"]["seed"] + 1), ni, c["f"], dt)
    W, P = A.weights(M, c["alpha"])
    if W.sum() == 0:
        return False, ["no confidence"]
    seen = []

    def cb(it, elapsed, loss):
        seen.append(it)
        X, Y = np.asarray(m.user_factors), np.asarray(m.item_factors)
        if c["dtype"] == "float32" and c["warm"] and c["fac"]["kind"] == "scaled" and not (
                np.isfinite(X).all() and np.isfinite(Y).all()):
            raise Skip  # conjugate gradient left the float32 range
        ref, mag = expected(W, P, X, Y, c["reg"])
        eps = float(np.finfo(dt).eps)
        tol = (4 * (c["f"] + ni + 8) * eps + 2e-7) * mag + 1e-30
        if loss is None or not abs(float(loss) - ref) <= tol:
            O.fail("iteration %d reports loss %r, should be %.9g (+-%.3g)", it, loss, ref, tol)
        if elapsed < 0:
            O.fail("negative time %r", elapsed)

    try:
        if c["cbattr"]:
            m.fit_callback = cb
            m.fit(M, show_progress=False)
        else:
            m.fit(M, show_progress=False, callback=cb)
    except ValueError:
        if not c["cg"] and not A.well_posed(M, c["alpha"], c["reg"], dt, m.user_factors,
                                            m.item_factors):
            raise Skip from None
        raise
    if seen != list(range(c["its"])):
        O.fail("callback iterations %s", seen)
    return M.nnz > 1, [c["dtype"], "alpha" if c["alpha"] != 1 else "noalpha",
                       "negative" if (M.data < 0).any() else "positive"]


TESTS = [
    T("small", lambda: case(False), run, 9600, 120000),
    T("large", lambda: case(True), run, 960, 12800),
    T("xl", lambda: case("xl"), run, 48, 800),
    T("wide", wide_case, run_wide, 64, 960),
    T("long", lambda: case("long"), run, 96, 1600),
]
