"""C25: a failed or diverged training is reported; invalid arguments are rejected and change nothing."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, mf_class
from checks.c21 import diff, make, rand, state

SPECIAL = ["nan", "inf", "-inf", 1e38, -1e38, 1e30, 1e-38, 0.0, 3e38, 1.0, -5.0]
RATES = [0.0, 0.01, 1.0, 100.0, 1e10, 1e30, "inf", "nan", -1.0]
REGS = [0.0, 0.01, 1.0, 1e10, 1e30, "inf", "nan", -0.5, 1e-30]


def num(v):
    return float(v)


@st.composite
def diverge(draw):
    model = draw(st.sampled_from(["als", "bpr", "lmf"]))
    nu, ni = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    return {"model": model, "m": draw(G.matrix((1, 7), (1, 7), ("ones", "counts"), (8, 150), (8, 150), 0.15, min_nnz=1)),
            "special": draw(st.lists(st.tuples(st.integers(0, 100000), st.sampled_from(SPECIAL)), max_size=3)),
            "lr": draw(st.sampled_from(RATES)), "reg": draw(st.sampled_from(REGS)),
            "alpha": draw(st.sampled_from([1.0, 1.0, 40.0, 1e38, "nan", -1.0])),
            "f": draw(st.integers(1, 6)), "it": draw(st.integers(1, 4)), "dtype": draw(G.dtypes),
            "cg": draw(st.booleans()), "native": draw(st.booleans()), "threads": draw(st.sampled_from([1, 2, 4, 17])),
            "seed": draw(G.seeds), "big": draw(st.sampled_from([None, None, "nan", "inf", 1e20, 1e38])),
            "loss": draw(st.booleans()), "neg": draw(st.sampled_from([0, 1, 30]))}


def run_diverge(c):
    from implicit.recommender_base import ModelFitError
    mat = G.build_matrix(c["m"], np.float64)
    for pos, v in c["special"]:
        r, k = pos % mat.shape[0], (pos // 151) % mat.shape[1]
        mat = mat.tolil()
        mat[r, k] = num(v) if num(v) == num(v) else np.nan
        mat = mat.tocsr()
    f = c["f"]
    kw = {"factors": f, "iterations": c["it"], "regularization": num(c["reg"]), "random_state": c["seed"],
          "num_threads": c["threads"]}
    if c["model"] == "als":
        kw.update(dtype=np.dtype(c["dtype"]), use_cg=c["cg"], use_native=c["native"], alpha=num(c["alpha"]),
                  calculate_training_loss=c["loss"])
    else:
        kw.update(learning_rate=num(c["lr"]))
        kw.update({"dtype": np.dtype(c["dtype"])} if c["model"] == "bpr" else {"neg_prop": c["neg"]})
    m = mf_class(c["model"])(**kw)
    if c["big"] is not None:
        extra = {"als": 0, "bpr": 1, "lmf": 2}[c["model"]]
        dt = np.float32 if c["model"] == "lmf" else np.dtype(c["dtype"])
        rng = np.random.default_rng(c["seed"])
        m.user_factors = rng.standard_normal((mat.shape[0], f + extra)).astype(dt)
        m.item_factors = rng.standard_normal((mat.shape[1], f + extra)).astype(dt)
        (m.user_factors if c["seed"] % 2 else m.item_factors).flat[c["seed"] % f] = num(c["big"])
    raised = None
    with np.errstate(all="ignore"):
        try:
            m.fit(mat, show_progress=False)
        except (ModelFitError, ValueError, ArithmeticError) as e:
            # (ArithmeticError: the training loss is undefined if all confidences are 0)
            raised = e
    if raised is None:
        for n in ("user_factors", "item_factors"):
            a = getattr(m, n)
            if np.isnan(a).any():
                O.fail("%s.fit returned normally with NaN in %d of %d %s", c["model"], int(np.isnan(a).sum()), a.size, n)
    return raised is not None, [c["model"], type(raised).__name__ if raised else "fitted"]


@st.composite
def late(draw):
    return {"model": draw(st.sampled_from(["als", "als", "bpr", "lmf"])), "nu": draw(st.sampled_from([60, 1100, 4100, 20000])),
            "ni": draw(st.sampled_from([60, 1100, 4100, 20000])), "f": draw(st.sampled_from([1, 2, 20, 130])), "at": draw(G.seeds),
            "where": draw(st.sampled_from(["user", "item", "data", "data"])), "it": draw(st.sampled_from([0, 1, 2])), "dtype": draw(G.dtypes),
            "cg": draw(st.booleans()), "threads": draw(st.sampled_from([1, 2, 4, 17])), "seed": draw(G.seeds)}


def run_late(c):
    """One diverging row somewhere in a large model"""
    from implicit.recommender_base import ModelFitError
    rng = np.random.default_rng(c["seed"])
    nu, ni, f = c["nu"], c["ni"], c["f"]
    rows, cols = np.arange(max(nu, ni)) % nu, np.arange(max(nu, ni)) % ni  # small separate groups
    v = np.ones(len(rows), np.float32)
    if c["where"] == "data":
        v[c["at"] % len(v)] = np.nan
    mat = sp.csr_matrix((v, (rows, cols)), shape=(nu, ni))
    kw = {"factors": f, "iterations": c["it"], "random_state": c["seed"] % 2**31, "num_threads": c["threads"]}
    if c["model"] == "als":
        kw.update(use_cg=c["cg"], regularization=1.0)
    if c["model"] != "lmf":
        kw["dtype"] = np.dtype(c["dtype"])
    m = mf_class(c["model"])(**kw)
    extra = {"als": 0, "bpr": 1, "lmf": 2}[c["model"]]
    dt = np.float32 if c["model"] == "lmf" else np.dtype(c["dtype"])
    m.user_factors, m.item_factors = (rng.standard_normal((n, f + extra)).astype(dt) for n in (nu, ni))
    if c["where"] in ("user", "item"):
        a = m.user_factors if c["where"] == "user" else m.item_factors
        a.flat[c["at"] % a.size] = np.nan
    raised = None
    with np.errstate(all="ignore"):
        try:
            m.fit(mat, show_progress=False)
        except (ModelFitError, ValueError) as e:
            raised = e
    if raised is None:
        for n in ("user_factors", "item_factors"):
            a = getattr(m, n)
            if np.isnan(a).any():
                O.fail("%s.fit returned normally with NaN in %d of %d %s", c["model"], int(np.isnan(a).sum()), a.size, n)
    return raised is not None, [c["model"], "late-" + (type(raised).__name__ if raised else "fitted")]


# ---- systems that cannot be solved -----------------------------------------------------------

@st.composite
def singular(draw):
    return {"nu": draw(st.integers(1, 20)), "ni": draw(st.integers(1, 9)), "f": draw(st.integers(1, 6)), "seed": draw(G.seeds),
            "dtype": draw(G.dtypes), "native": draw(st.booleans()), "threads": draw(st.sampled_from([1, 2, 4, 17])),
            "how": draw(st.sampled_from(["zero", "zerocol", "indefinite", "indefinite"])),
            "via": draw(st.sampled_from(["fit", "fit", "recalc", "pfu", "recalc_item", "pfi", "recommend"])),
            "row": draw(st.integers(0, 19)), "all": draw(st.booleans()), "new": draw(st.sampled_from([0, 0, 1, 9]))}


def run_singular(c):
    rng = np.random.default_rng(c["seed"])
    nu, ni, f = c["nu"], c["ni"], c["f"]
    dt = np.dtype(c["dtype"])
    items = c["via"] in ("recalc_item", "pfi")
    n_other = nu if items else ni
    Y = rng.integers(1, 3, (n_other, f)).astype(dt)
    reg = 0.0
    if c["how"] == "zero":
        Y[:] = 0
    elif c["how"] == "zerocol":
        Y[:, rng.integers(f)] = 0  # a direction without information and regularization
    else:
        reg = -float((Y.astype(float) ** 2).sum()) * 10 - 10  # not positive definite
    rows = c["nu"] if not items else c["ni"]
    bad = c["row"] % rows
    D = np.ones((rows, n_other)) if c["all"] else np.zeros((rows, n_other))
    D[bad] = 1
    R = sp.csr_matrix(D)
    native = c["native"] or c["via"] != "fit"
    m = mf_class("als")(factors=f, regularization=reg, dtype=dt, use_cg=False, use_native=native, iterations=1,
                        num_threads=c["threads"], random_state=1)
    X = rng.standard_normal((rows, f)).astype(dt)
    m.user_factors, m.item_factors = (Y, X) if items else (X, Y)
    if not native and c["how"] == "indefinite":
        return False, ["skip"]  # numpy's solver handles indefinite systems
    before = state(m)
    try:
        if c["via"] == "fit":
            m.fit(R, show_progress=False)
        elif c["via"] == "recalc":
            m.recalculate_user(np.arange(rows), R)
        elif c["via"] == "pfu":
            m.partial_fit_users(np.arange(rows) + c["new"], R)
        elif c["via"] == "recalc_item":
            m.recalculate_item(np.arange(rows), R)
        elif c["via"] == "pfi":
            m.partial_fit_items(np.arange(rows) + c["new"], R)
        else:
            m.recommend(np.arange(rows), R, recalculate_user=True, filter_already_liked_items=False)
    except ValueError:
        if c["via"] != "fit" and state(m) != before:
            O.fail("%s failed and changed the model's %s", c["via"], diff(before, state(m)))
        return True, [c["via"], c["how"]]
    O.fail("%s accepted a system that has no solution (%s, %s)", c["via"], c["how"], c["dtype"])


# ---- invalid arguments -----------------------------------------------------------------------

BAD_MF = ["rows", "rows_scalar", "items_hi", "items_neg", "items_filter", "notcsr", "userid", "sim_id", "simu_id", "sim_items_hi",
          "sim_filter", "simu_filter", "simu_hi", "refit_shape", "refit_shape"]
BAD_ALS = BAD_MF + ["recalc_rows", "recalc_cols", "recalci_rows", "recalci_cols", "pfu_rows", "pfi_rows", "pfu_cols", "pfi_cols", "pfu_new", "pfi_new", "pfu_new_rows", "pfi_new_rows",
                    "dtype", "rec_recalc_rows", "sim_recalc_rows"]
BAD_KNN = ["rows", "items_hi", "items_neg", "items_filter", "notcsr", "sim_items_hi", "sim_filter", "callback", "similar_users",
           "cols", "recalc_ni"]


@st.composite
def invalid(draw):
    model = draw(st.sampled_from(["als", "als", "bpr", "lmf"] + KNN))
    kinds = BAD_KNN if model in KNN else (BAD_ALS if model == "als" else BAD_MF + ["notimpl"])
    return {"model": model, "nu": draw(st.integers(1, 6)), "ni": draw(st.integers(1, 7)), "f": draw(st.integers(1, 3)),
            "dtype": draw(G.dtypes), "alpha": draw(st.sampled_from([1.0, 2.0])), "threads": draw(st.sampled_from([1, 2])),
            "cg": draw(st.booleans()), "native": True, "seed": draw(G.seeds),
            "bad": draw(st.lists(st.tuples(st.sampled_from(kinds), G.seeds), min_size=1, max_size=5))}


def run_invalid(c):
    rng = np.random.default_rng(c["seed"])
    nu, ni = c["nu"], c["ni"]
    knn = c["model"] in KNN
    m = make(c)
    train = rand(rng, nu, ni, np.float64, False, 0.6)
    if not train.nnz:
        train = sp.csr_matrix(np.ones((nu, ni)))
    m.fit(train, show_progress=False)
    q = rng.integers(0, nu, 2)
    ui = rand(rng, 2, ni, np.float64, False)

    def answers():
        out = [m.recommend(q, ui, N=3), m.similar_items(int(q[0]) % ni, N=3)]
        if not knn:
            out.append(m.similar_users(q, N=2))
        return out
    before, ans = state(m), answers()
    labels = []
    for kind, seed in c["bad"]:
        r = np.random.default_rng(seed)

        def mat(rows, cols):
            x = rand(r, rows, cols, np.float64, False, 0.5)
            x = x.tolil()
            x[rows - 1, cols - 1] = 1.0  # make sure that the shape is used
            return x.tocsr()
        k = int(r.integers(1, 4))
        extra = int(r.integers(1, 30))
        many = np.resize(np.arange(nu), k + 1)
        imany = np.resize(np.arange(ni), k + 1)
        V, I = ValueError, IndexError
        calls = {
            "rows": (V, lambda: m.recommend(many, mat(k if r.random() < .5 else k + 2, ni))),
            "rows_scalar": (V, lambda: m.recommend(0, mat(2, ni))),
            "items_hi": (I, lambda: m.recommend(0, mat(1, ni), items=[0, ni + extra - 1])),
            "items_neg": (I, lambda: m.recommend(0, mat(1, ni), items=np.array([-1, 0]))),
            "items_filter": (V, lambda: m.recommend(0, mat(1, ni), items=[0], filter_items=[0])),
            "notcsr": (V, lambda: m.recommend(0, mat(1, ni).tocoo())),
            "userid": (I, lambda: m.recommend(nu + extra - 1, mat(1, ni))),
            "sim_id": (I, lambda: m.similar_items(ni + extra - 1)),
            "simu_id": (I, lambda: m.similar_users(nu + extra - 1)),
            "sim_items_hi": (I, lambda: m.similar_items(0, items=[0, ni + extra - 1])),
            "sim_filter": (V, lambda: m.similar_items(0, items=[0], filter_items=[0])),
            "simu_filter": (V, lambda: m.similar_users(0, users=[0], filter_users=[0])),
            "simu_hi": (I, lambda: m.similar_users(0, users=[nu + extra - 1])),
            "refit_shape": (V, lambda: m.fit(mat(*[(nu + extra, ni), (nu, ni + extra), (nu + 1, ni + extra),
                                                   (max(1, nu - 1), ni + 1)][seed % 4]), show_progress=False)),
            "recalc_rows": (V, lambda: m.recalculate_user(many, mat(k, ni))),
            "recalci_rows": (V, lambda: m.recalculate_item(imany, mat(k, nu))),
            "recalc_cols": (V, lambda: m.recalculate_user(many, mat(k + 1, ni + extra))),
            "recalci_cols": (V, lambda: m.recalculate_item(imany, mat(k + 1, nu + extra))),
            "pfu_rows": (V, lambda: m.partial_fit_users(many, mat(k, ni))),
            "pfi_rows": (V, lambda: m.partial_fit_items(imany, mat(k, nu))),
            "pfu_cols": (V, lambda: m.partial_fit_users(many, mat(k + 1, ni + extra))),
            "pfi_cols": (V, lambda: m.partial_fit_items(imany, mat(k + 1, nu + extra))),
            # (with ids that are new to the model)
            "pfu_new": (V, lambda: m.partial_fit_users(many + [0, nu][seed % 2] + extra, mat(k + 1, ni + extra))),
            "pfi_new": (V, lambda: m.partial_fit_items(imany + [0, ni][seed % 2] + extra, mat(k + 1, nu + extra))),
            "pfu_new_rows": (V, lambda: m.partial_fit_users(many + extra, mat(k, ni))),
            "pfi_new_rows": (V, lambda: m.partial_fit_items(imany + extra, mat(k, nu))),
            "rec_recalc_rows": (V, lambda: m.recommend(many, mat(k, ni), recalculate_user=True,
                                                       filter_already_liked_items=False)),
            "sim_recalc_rows": (V, lambda: m.similar_items(imany, recalculate_item=True, item_users=mat(k, nu))),
            "callback": (NotImplementedError, lambda: m.fit(mat(nu, ni), show_progress=False, callback=lambda *a: None)),
            "similar_users": (NotImplementedError, lambda: m.similar_users(0)),
            "recalc_ni": (NotImplementedError, lambda: m.similar_items(0, recalculate_item=True, item_users=mat(1, nu))),
            "notimpl": (NotImplementedError, lambda: m.recommend(0, mat(1, ni), recalculate_user=True)),
            "cols": (I, lambda: m.recommend(0, mat(1, ni + extra))),
        }
        labels.append(kind)
        if kind == "dtype":
            w = make(c)
            w.user_factors, w.item_factors = m.user_factors.astype(np.float16), m.item_factors.astype(np.float16)
            want, call = ValueError, lambda: w.fit(train, show_progress=False)
        else:
            want, call = calls[kind]
        try:
            call()
        except want:
            pass
        except (ValueError, IndexError, NotImplementedError, TypeError) as e:
            O.fail("%s: invalid call %s raised %s instead of %s: %s", c["model"], kind, type(e).__name__, want.__name__, e)
        else:
            O.fail("%s: invalid call %s was accepted", c["model"], kind)
        if state(m) != before:
            O.fail("%s: rejected call %s changed the model's %s", c["model"], kind, diff(before, state(m)))
        for a, b in zip(answers(), ans):
            O.same_answer(a, b, "%s after the rejected call %s" % (c["model"], kind), 1e-6)
    return True, [c["model"]] + labels


@st.composite
def split_args(draw):
    return {"K": draw(st.sampled_from([0, -1, -5, 1])), "t": draw(st.sampled_from([0.0, 1.0, 1.5, -0.1, -3.0, 0.5])), "seed": draw(G.seeds)}


def run_split(c):
    from implicit.evaluation import leave_k_out_split
    m = rand(np.random.default_rng(c["seed"]), 6, 6, np.float64, False, 0.7)
    bad = c["K"] < 1 or not 0.0 <= c["t"] < 1.0
    try:
        leave_k_out_split(m, K=c["K"], train_only_size=c["t"])
    except ValueError:
        if not bad:
            O.fail("valid arguments K=%s train_only_size=%s were rejected", c["K"], c["t"])
        return True, ["rejected"]
    if bad:
        O.fail("leave_k_out_split accepted K=%s train_only_size=%s", c["K"], c["t"])
    return False, ["valid"]


TESTS = [
    T("diverge", diverge, run_diverge, 4000, 80000),
    T("late", late, run_late, 160, 3000),
    T("singular", singular, run_singular, 1500, 20000),
    T("invalid", invalid, run_invalid, 2500, 40000),
    T("split_args", split_args, run_split, 200, 1000),
]
