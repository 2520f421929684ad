"""C06: one ALS sweep solves the confidence-weighted ridge regression of every row."""
import numpy as np
from hypothesis import strategies as st

from vlib import alsref as A
from vlib import gen as G
from vlib import oracle as O
from vlib.engine import Skip, T
from vlib.models import mf_class

KINDS = ("ones", "counts", "frac", "signed", "big", "vast", "tiny")


@st.composite
def case(draw, big):
    if big == "xl":
        m = draw(G.matrix((1, 1), (1, 1), KINDS, (60, 700), (30, 900), p_big=1.1))
        f = draw(st.sampled_from([20, 65, 100, 128]))
    elif big == "deep":
        m = draw(G.matrix((1, 1), (1, 1), KINDS, (1, 12), (5, 90), p_big=1.1))
        f = draw(st.sampled_from([129, 200, 257, 300, 513]))
    elif big == "long":
        m = draw(G.long_matrix(KINDS))
        f = draw(st.integers(1, 6))
    elif big:
        m = draw(G.matrix((1, 1), (1, 1), KINDS, (2, 130), (2, 60), p_big=1.1))
        f = draw(st.sampled_from([1, 2, 5, 8, 16, 17, 33, 64]))
    else:
        m = draw(G.zeroed(G.matrix((1, 9), (1, 9), KINDS)))
        f = draw(st.integers(1, 5))
    # (CG in single precision may diverge for confidences of this size)
    dtypes = ["float64"] if m.get("kind") == "vast" or any(abs(x[2]) > 1e4 for x in m.get("e", ())) else ["float64", "float64", "float32"]
    return {"m": m, "f": f, "dtype": draw(st.sampled_from(dtypes)),
            "uf": draw(G.factors(1, 1, ["gauss", "smallint", "zerorows", "positive"])),
            "if": draw(G.factors(1, 1, ["gauss", "smallint", "zerorows", "positive"])),
            "alpha": draw(st.sampled_from(A.ALPHAS)), "reg": draw(st.sampled_from(A.REGS)),
            "native": draw(st.sampled_from([True] * 9 + [False])) if big is True else True if big else draw(st.sampled_from([True, True, False])),
            "threads": draw(st.sampled_from([0, 1, 2, 5, 17])),
            "cg": draw(st.booleans()), "steps": draw(st.sampled_from([1, 2, 3, 3, 3, 4, 8])),
            "its": draw(st.sampled_from([1, 1, 2])), "sort": draw(st.booleans())}


def fit_once(m, M):
    m.iterations = 1
    m.fit(M, show_progress=False)


def run(c):
    dt = np.dtype(c["dtype"])
    M = G.build_matrix(c["m"], np.float32)
    if not c["sort"]:
        M = G.shuffle_indices(M, 5)
    nu, ni = M.shape
    f = c["f"]
    X = G.build_factors(c["uf"], nu, f, dt)
    Y = G.build_factors(c["if"], ni, f, dt)
    m = mf_class("als")(factors=f, regularization=c["reg"], alpha=c["alpha"], dtype=dt,
                        use_native=c["native"], use_cg=c["cg"], iterations=1,
                        num_threads=c["threads"], random_state=1)
    m.cg_steps = c["steps"]
    m.user_factors, m.item_factors = X.copy(), Y.copy()
    W, P = A.weights(M, c["alpha"])
    reg = c["reg"]
    if c["reg"] == 0.01 and c["cg"]:
        reg = float(np.float32(reg))
    eu = set(np.flatnonzero(np.diff(M.indptr) == 0).tolist())
    ei = set(np.flatnonzero(M.getnnz(axis=0) == 0).tolist())
    strong = 1
    for it in range(c["its"]):
        X, Y = m.user_factors.copy(), m.item_factors.copy()
        try:
            fit_once(m, M)
        except ValueError:
            # only excusable where rounding can make a system numerically singular
            if not c["cg"] and not A.well_posed(M, c["alpha"], reg, dt, Y, m.user_factors):
                raise Skip from None
            raise
        X1, Y1 = np.asarray(m.user_factors), np.asarray(m.item_factors)
        if X1.shape != X.shape or Y1.shape != Y.shape or X1.dtype != dt or Y1.dtype != dt:
            O.fail("factors have shape/dtype %s %s %s", X1.shape, Y1.shape, X1.dtype)
        w = "user" if not it else "user(2)"
        if c["cg"]:
            strong = A.check_cg_rows(X1, X, W, P, Y, reg, dt, c["steps"], w + " factors", eu)
            strong += A.check_cg_rows(Y1, Y, W.T, P.T, X1, reg, dt, c["steps"], "item factors", ei)
        else:
            A.check_rows(X1, W, P, Y, reg, dt, w + " factors", eu)
            A.check_rows(Y1, W.T, P.T, X1, reg, dt, "item factors", ei)
    return M.nnz > 1 and f > 1, ["cg" if c["cg"] else "cholesky", "native" if c["native"] else "python",
                                 c["dtype"], "negative" if (M.data < 0).any() else "positive"] + (
                                     [] if strong else ["only ill-conditioned rows"])


@st.composite
def singular_case(draw):
    u, i, f = draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 4))
    return {"m": draw(G.matrix((u, u), (i, i), KINDS, min_nnz=1)), "f": f, "dtype": draw(G.dtypes),
            "zero": draw(st.integers(0, f - 1)), "if": draw(G.factors(1, 1, ["gauss", "smallint"])),
            "native": draw(st.sampled_from([True, True, False])),
            "threads": draw(st.sampled_from([1, 2, 4])), "op": draw(st.sampled_from(["fit", "recalc"]))}


def run_singular(c):
    """item factors with an all-zero column and no regularization: exactly singular systems"""
    dt = np.dtype(c["dtype"])
    M = G.build_matrix(c["m"], np.float32)
    if M.nnz == 0:
        return False, ["empty"]
    Y = G.build_factors(c["if"], M.shape[1], c["f"], dt)
    Y[:, c["zero"]] = 0
    m = mf_class("als")(factors=c["f"], regularization=0, dtype=dt, use_native=c["native"],
                        use_cg=False, iterations=1, num_threads=c["threads"], random_state=1)
    m.user_factors, m.item_factors = np.zeros((M.shape[0], c["f"]), dt), Y
    try:
        if c["op"] == "fit":
            m.fit(M, show_progress=False)
        else:
            m.recalculate_user(np.arange(M.shape[0]), M)
    except ValueError:
        return True, [c["op"]]
    O.fail("%s returned factors %s for a singular system", c["op"], m.user_factors[:3].tolist())


TESTS = [
    T("small", lambda: case(False), run, 9600, 120000),
    T("large", lambda: case(True), run, 960, 12000),
    T("xl", lambda: case("xl"), run, 48, 800),
    T("deep", lambda: case("deep"), run, 40, 640),
    T("long", lambda: case("long"), run, 96, 1600),
    T("singular", singular_case, run_singular, 480, 4800),
]
