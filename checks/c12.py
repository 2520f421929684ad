"""C12: ALS explain decomposes the recalculated score exactly."""
import numpy as np
from hypothesis import strategies as st

from vlib import alsref as A
from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import mf_class


@st.composite
def case(draw, big=False):
    m = draw(G.matrix((1, 6), (1, 9), ("ones", "counts", "frac", "signed", "tiny"), (2, 30), (10, 80), p_big=1.1 if big else 0))
    if big == "long":
        m = {"shape": [draw(st.integers(1, 3)), draw(st.sampled_from([300, 1025, 2100, 4100]))], "hole": False, "seed": draw(G.seeds),
             "kind": draw(st.sampled_from(["ones", "counts", "signed"])), "density": draw(st.sampled_from([0.1, 0.5, 1.0]))}
    nu, ni = m["shape"]
    return {"m": m, "f": draw(st.sampled_from([1, 5, 16, 40, 70, 130] if big is True else [1, 3, 16]) if big else st.integers(1, 4)), "dtype": draw(G.dtypes),
            "if": draw(G.factors(1, 1, ["gauss", "smallint", "zerorows", "ties", "positive"])),
            "alpha": draw(st.sampled_from(A.ALPHAS)), "reg": draw(st.sampled_from([0.5, 1.0, 0.125, 4.0])),
            "user": draw(st.integers(0, nu - 1)), "item": draw(st.integers(0, ni - 1)),
            "item2": draw(st.integers(0, ni - 1)), "N": draw(st.sampled_from([1, 2, 3, 5, 10, 200, None] + [5000, 1100] * (big == "long"))),
            "mtype": draw(st.sampled_from(["float32", "float32", "float64", "float64", "int32", "int8", "uint8", "int16"])), "native": draw(st.booleans()), "sort": draw(st.booleans())}


def run(c):
    dt = np.dtype(c["dtype"])
    M = G.build_matrix(c["m"], np.float64)
    if "int" in c["mtype"]:
        M.data = np.clip(np.where(np.abs(M.data) < 1, np.sign(M.data), np.round(M.data)), 1 if c["mtype"] == "uint8" else -100, 100)
    M = M.astype(c["mtype"])
    if not c["sort"]:
        M = G.shuffle_indices(M, 3)
    nu, ni = M.shape
    m = mf_class("als")(factors=c["f"], regularization=c["reg"], alpha=c["alpha"], dtype=dt, num_threads=1,
                        use_native=c["native"], use_cg=c["native"])
    m.user_factors = np.ones((nu, c["f"]), dt)
    m.item_factors = G.build_factors(c["if"], ni, c["f"], dt)
    Y = m.item_factors.astype(np.float64)
    u = c["user"]
    W, P = A.weights(M, c["alpha"])
    Am, b = A.system(W[u], P[u], Y, c["reg"])
    x = np.linalg.solve(Am, b)
    cond = np.linalg.cond(Am)
    eps = float(np.finfo(dt).eps)
    liked = np.flatnonzero(P[u] > 0)
    N = 10 if c["N"] is None else c["N"]
    kw = {} if c["N"] is None else {"N": c["N"]}

    def judge(item, res, what):
        total, top, weights = res
        inv = np.linalg.solve(Am, Y[item])
        ref = {int(j): float(W[u, j] * (inv @ Y[j])) for j in liked}
        tol = 50 * (c["f"] + ni + 8) * eps * cond * float(
            np.linalg.norm(Y[item]) * (W[u, liked] * np.linalg.norm(Y[liked], axis=1)).sum()
            / np.linalg.eigvalsh(Am)[0]) + 1e-12
        if not abs(float(total) - float(x @ Y[item])) <= tol:
            O.fail("%s: total %r, recalculated score is %r (+-%.3g)", what, float(total),
                   float(x @ Y[item]), tol)
        ids = [int(i) for i, _ in top]
        sc = [float(s) for _, s in top]
        if len(ids) != min(N, len(liked)) or len(set(ids)) != len(ids):
            O.fail("%s: contributions of %s for liked items %s and N=%d", what, ids, liked.tolist(), N)
        for i, s in zip(ids, sc):
            if i not in ref:
                O.fail("%s: item %d is not positively rated by the user", what, i)
            if not abs(s - ref[i]) <= tol:
                O.fail("%s: contribution of %d is %r, closed form %r (+-%.3g)", what, i, s, ref[i], tol)
        if any(sc[k] < sc[k + 1] for k in range(len(sc) - 1)):
            O.fail("%s: contributions not in descending order: %s", what, sc)
        if sc:
            for j, v in ref.items():
                if j not in ids and v > sc[-1] + 2 * tol:
                    O.fail("%s: contribution %r of item %d is missing, smallest listed is %r", what, v, j, sc[-1])
        if N >= len(liked) and not abs(sum(sc) - float(total)) <= tol * (len(liked) + 1):
            O.fail("%s: contributions sum to %r, total is %r", what, sum(sc), float(total))
        return float(total), top, tol

    first = m.explain(u, M, c["item"], **kw)
    t1, top1, tol = judge(c["item"], first, "explain")
    weights = first[2]
    again = m.explain(u, M, c["item"], user_weights=weights, **kw)
    judge(c["item"], again, "explain(user_weights)")
    other = m.explain(u, M, c["item2"], user_weights=weights, **kw)
    judge(c["item2"], other, "explain(user_weights, other item)")
    # against the model's own recalculation
    rx = np.asarray(m.recalculate_user(u, M[u]), np.float64)
    if not abs(float(rx @ Y[c["item"]]) - t1) <= 2 * tol:
        O.fail("total %r, recalculate_user gives %r", t1, float(rx @ Y[c["item"]]))
    return len(liked) > 1, [c["dtype"], "N<liked" if N < len(liked) else "N>=liked",
                            "negative" if (M[u].data < 0).any() else "positive"]


TESTS = [
    T("small", case, run, 4800, 96000),
    T("large", lambda: case(True), run, 960, 16000),
    T("long", lambda: case("long"), run, 96, 1600),
]
