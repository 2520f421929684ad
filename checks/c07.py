"""C07: ALS training never increases the weighted squared-error objective."""
import numpy as np
from hypothesis import strategies as st

from vlib import alsref as A
from vlib import gen as G
from vlib import oracle as O
from vlib.engine import Skip, T
from vlib.models import mf_class

KINDS = ("ones", "counts", "frac", "signed", "big", "tiny")


@st.composite
def case(draw, big):
    if big == "xl":
        m = draw(G.matrix((1, 1), (1, 1), KINDS, (60, 700), (30, 900), p_big=1.1))
        f = draw(st.sampled_from([20, 65, 100, 128]))
    elif big == "long":
        m = draw(G.long_matrix(KINDS))
        f = draw(st.integers(1, 6))
    elif big:
        m = draw(G.matrix((1, 1), (1, 1), KINDS, (2, 120), (2, 60), p_big=1.1))
        f = draw(st.sampled_from([1, 2, 5, 8, 16, 24, 33]))
    else:
        m = draw(G.zeroed(G.matrix((1, 9), (1, 9), KINDS)))
        f = draw(st.integers(1, 5))
    return {"m": m, "f": f, "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
            "start": draw(st.one_of(st.just("cold"), G.factors(1, 1, ["gauss", "smallint", "zerorows", "scaled"]))),
            "alpha": draw(st.sampled_from(A.ALPHAS)),
            "reg": draw(st.sampled_from([0.5, 0.03125, 1.0, 0.125, 4.0, 16.0])),
            "native": draw(st.sampled_from([True] * 9 + [False])) if big is True else True if big else draw(st.sampled_from([True, True, False])),
            "threads": draw(st.sampled_from([0, 1, 2, 5, 17])), "cg": draw(st.booleans()),
            "steps": draw(st.sampled_from([1, 2, 3, 3, 3, 6])),
            "its": draw(st.integers(1, 5)), "fits": draw(st.sampled_from([1, 1, 2])),
            "seed": draw(G.seeds), "loss": draw(st.booleans()), "cbattr": draw(st.booleans())}


def run(c):
    from implicit.recommender_base import ModelFitError
    dt = np.dtype(c["dtype"])
    M = G.build_matrix(c["m"], np.float32)
    nu, ni = M.shape
    m = mf_class("als")(factors=c["f"], regularization=c["reg"], alpha=c["alpha"], dtype=dt,
                        use_native=c["native"], use_cg=c["cg"], iterations=0,
                        num_threads=c["threads"], random_state=c["seed"],
                        calculate_training_loss=False)
    m.cg_steps = c["steps"]
    if c["start"] == "cold":
        m.fit(M, show_progress=False)  # no iterations: only the random start
    else:
        m.user_factors = G.build_factors(c["start"], nu, c["f"], dt)
        m.item_factors = G.build_factors(dict(c["start"], seed=c["seed"]), ni, c["f"], dt)
    W, P = A.weights(M, c["alpha"])
    if W.sum() == 0:
        m.calculate_training_loss = c["loss"] = False  # the reported mean is undefined
    reg = c["reg"]
    m.iterations = c["its"]
    m.calculate_training_loss = c["loss"]
    vals = [A.objective(W, P, m.user_factors, m.item_factors, reg)]
    scale = [0.0]

    seen = [m.user_factors.copy(), m.item_factors.copy()]

    def note():
        X, Y = np.asarray(m.user_factors, np.float64), np.asarray(m.item_factors, np.float64)
        seen.extend(F.copy() for F in (X, Y) if np.isfinite(F).all())
        vals.append(A.objective(W, P, X, Y, reg))
        # largest rounding effect of one sweep: (eps * |A| |x|)^2 / lambda_min per row
        e = float(np.finfo(dt).eps) * 12 * (c["f"] + max(nu, ni) + 8)
        n2y, n2x = (Y * Y).sum(1), (X * X).sum(1)
        wm = np.maximum(W, 1)
        su = (wm @ n2y + reg) * np.sqrt(n2x) + (W * P) @ np.sqrt(n2y)
        si = (wm.T @ n2x + reg) * np.sqrt(n2y) + (W * P).T @ np.sqrt(n2x)
        scale.append(float((e * e * (su @ su + si @ si)) / reg))

    def cb(it, elapsed, loss):
        note()

    for _ in range(c["fits"]):
        try:
            if c["cbattr"]:
                m.fit_callback = cb
                m.fit(M, show_progress=False)
            else:
                m.fit(M, show_progress=False, callback=cb)
        except ValueError:
            if not c["cg"] and not A.well_posed(M, c["alpha"], reg, dt, m.user_factors,
                                                m.item_factors):
                raise Skip from None
            raise
        except ModelFitError:
            # conjugate gradients can break down on systems that are singular in this precision: that is reported (C25)
            if not A.well_posed(M, c["alpha"], reg, dt, *seen):
                raise Skip from None
            raise
    if len(vals) != 1 + c["its"] * c["fits"]:
        O.fail("%d callbacks for %d iterations", len(vals) - 1, c["its"] * c["fits"])
    tolrel = 2e-6 if dt == np.float32 else 1e-11
    for k in range(1, len(vals)):
        slack = tolrel * (vals[k - 1] + W.sum() * 1e-3) + scale[k] + scale[k - 1]
        if not vals[k] <= vals[k - 1] + slack:
            O.fail("objective rises from %.10g to %.10g in iteration %d (slack %.3g; all: %s)",
                   vals[k - 1], vals[k], k, slack, vals)
    if vals[-1] > 0 and not np.isfinite(vals[-1]):
        O.fail("objective %r", vals[-1])
    return M.nnz > 1 and c["its"] > 1, ["cg" if c["cg"] else "cholesky", c["dtype"],
                                        "cold" if c["start"] == "cold" else "warm",
                                        "tight" if max(scale) < 1e-3 * vals[0] else "loose"]


TESTS = [
    T("small", lambda: case(False), run, 9600, 120000),
    T("large", lambda: case(True), run, 960, 12000),
    T("xl", lambda: case("xl"), run, 48, 800),
    T("long", lambda: case("long"), run, 96, 1600),
]
