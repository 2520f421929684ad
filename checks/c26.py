"""C26: iteration counts, callbacks, warm starts and initialisation."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import Skip, T
from vlib.models import mf_class

EXTRA = {"als": 0, "bpr": 1, "lmf": 2}


def config(draw, models=("als", "bpr", "lmf")):
    return {"model": draw(st.sampled_from(models)), "f": draw(st.integers(1, 5)), "dtype": draw(G.dtypes),
            "m": draw(G.matrix((1, 8), (1, 8), ("ones", "counts", "frac"), (9, 30), (9, 30), 0.25, min_nnz=1)),
            "seed": draw(G.seeds), "threads": draw(st.sampled_from([1, 2, 0])), "cg": draw(st.booleans()),
            "native": draw(st.sampled_from([True, True, False])), "loss": draw(st.booleans()),
            "alpha": draw(st.sampled_from([1.0, 3.0])), "progress": draw(st.booleans()), "cgsteps": draw(st.sampled_from([3, 3, 1, 5]))}


def make(c, iterations, **kw):
    a = {"factors": c["f"], "iterations": iterations, "random_state": c["seed"], "num_threads": c["threads"]}
    if c["model"] == "als":
        a.update(dtype=np.dtype(c["dtype"]), regularization=0.8, alpha=c["alpha"], use_cg=c["cg"],
                 use_native=c["native"], calculate_training_loss=c["loss"] and iterations > 0)
    elif c["model"] == "bpr":
        a.update(dtype=np.dtype(c["dtype"]), learning_rate=0.05)
    else:
        a.update(learning_rate=0.2, neg_prop=c.get("neg", 0))
    a.update(kw)
    m = mf_class(c["model"])(**a)
    if c["model"] == "als":
        m.cg_steps = c["cgsteps"]
    return m


def recorder(m=None):
    got = []
    return got, lambda *a: got.append(a)


@st.composite
def callbacks(draw):
    c = config(draw)
    c.update(it=draw(st.integers(0, 7)), how=draw(st.sampled_from(["arg", "arg", "attr", "both", "none"])), again=draw(st.booleans()), neg=draw(st.sampled_from([0, 3, 30])))
    return c


def check_calls(c, got, it, what):
    if len(got) != it:
        O.fail("%s: %d callbacks for %d iterations", what, len(got), it)
    for k, a in enumerate(got):
        if not len(a) >= 2 or a[0] != k:
            O.fail("%s: callback %d was called with %s", what, k, a)
        if not (0 <= a[1] < 600):
            O.fail("%s: elapsed time %r", what, a[1])


def run_callbacks(c):
    mat = G.build_matrix(c["m"])
    if not mat.nnz:
        return False, ["empty"]
    it, how = c["it"], c["how"]
    if c["model"] != "als" and how in ("attr", "both"):
        how = "arg"
    m = make(c, it)
    got, cb = recorder()
    old, cb2 = recorder()
    if how in ("attr", "both"):
        m.fit_callback = cb2
    what = "%s callback=%s progress=%s" % (c["model"], how, c["progress"])
    for _ in range(2 if c["again"] else 1):
        got.clear()
        old.clear()
        m.fit(mat, show_progress=c["progress"], callback=cb if how in ("arg", "both") else None)
        if how == "attr":
            check_calls(c, old, it, what)
            used = old
        else:
            check_calls(c, got, it if how != "none" else 0, what)
            used = got
            if how == "both" and old:
                O.fail("%s: fit_callback was called besides the callback", what)
        if c["model"] == "als":
            for a in used:
                want = c["loss"] and it > 0
                if (a[2] is None) == want or (want and not np.isfinite(a[2])):
                    O.fail("%s: calculate_training_loss=%s but the callback got %r", what, want, a[2])
    # the flag and the callback don't influence the training
    m2 = make(c, it)
    for _ in range(2 if c["again"] else 1):
        m2.fit(mat, show_progress=not c["progress"])
    if c["model"] != "bpr" or c["threads"] == 1:
        for n in ("user_factors", "item_factors"):
            if not np.allclose(getattr(m, n), getattr(m2, n), rtol=1e-4, atol=1e-6):
                O.fail("%s: other %s than without callback and with show_progress=%s", what, n, not c["progress"])
    return it > 1, [c["model"], how, "it%d" % it]


@st.composite
def compose(draw):
    c = config(draw, ("als",))
    c.update(parts=draw(st.lists(st.integers(0, 4), min_size=1, max_size=4)), ann=False,
             warm=draw(st.booleans()), reload=draw(st.booleans()))
    return c


def run_compose(c):
    mat = G.build_matrix(c["m"])
    if not mat.nnz:
        return False, ["empty"]
    total = sum(c["parts"])
    dt = np.dtype(c["dtype"])
    start = None
    if c["warm"]:
        rng = np.random.default_rng(c["seed"])
        start = [(rng.standard_normal((n, c["f"])) * 0.5).astype(dt) for n in mat.shape]

    def new(it, **kw):
        m = make(c, it, **kw)
        if start is not None:
            m.user_factors, m.item_factors = start[0].copy(), start[1].copy()
        return m
    a = new(total)
    a.fit(mat, show_progress=False)
    b = new(c["parts"][0], random_state=c["seed"])
    for k, p in enumerate(c["parts"]):
        b.iterations = p
        if k:
            b.random_state = c["seed"] + k  # must not matter any more
        b.fit(mat, show_progress=False)
        if c["reload"]:
            nb = make(c, p)
            nb.user_factors, nb.item_factors = b.user_factors.copy(), b.item_factors.copy()
            b = nb
    # how far does rounding go here? the same training from slightly moved factors
    tol = 1e-4 if dt == np.float32 else 1e-9
    for n in ("user_factors", "item_factors"):
        x, y = getattr(a, n).astype(np.float64), getattr(b, n).astype(np.float64)
        if x.shape != y.shape or x.dtype != y.dtype:
            O.fail("shapes %s and %s", x.shape, y.shape)
        if np.abs(x - y).max(initial=0) > tol * (1 + np.abs(x).max(initial=0)):
            O.fail("ALS: %s after fitting %s iterations differ from %d iterations at once (cg=%s native=%s warm=%s): %s "
                   "vs %s", n, "+".join(map(str, c["parts"])), total, c["cg"], c["native"], c["warm"], y.tolist(), x.tolist())
    if total == 0 and start is not None:
        if not (np.array_equal(a.user_factors, start[0]) and np.array_equal(a.item_factors, start[1])):
            O.fail("fit with 0 iterations changed existing factors")
    return len(c["parts"]) > 1 and total > 1, ["cg" if c["cg"] else "cholesky", "native" if c["native"] else "python", "parts%d" % len(c["parts"])]


@st.composite
def init(draw):
    c = config(draw)
    c.update(given=draw(st.sampled_from(["none", "none", "user", "item", "both"])))
    return c


def run_init(c):
    mat = G.build_matrix(c["m"])
    if not mat.nnz:
        return False, ["empty"]
    model, f = c["model"], c["f"]
    w = f + EXTRA[model]
    dt = np.dtype("float32" if model == "lmf" else c["dtype"])
    m = make(c, 0)
    rng = np.random.default_rng(c["seed"])
    gu, gi = (rng.standard_normal((n, w)).astype(dt) for n in mat.shape)
    if c["given"] in ("user", "both"):
        m.user_factors = gu.copy()
    if c["given"] in ("item", "both"):
        m.item_factors = gi.copy()
    m.fit(mat, show_progress=False)
    for n, g, given in (("user_factors", gu, c["given"] in ("user", "both")), ("item_factors", gi, c["given"] in ("item", "both"))):
        x = getattr(m, n)
        rows = mat.shape[0 if n == "user_factors" else 1]
        if x is None or x.shape != (rows, w) or x.dtype != dt:
            O.fail("%s: %s has shape %s dtype %s instead of %s %s", model, n, getattr(x, "shape", None), getattr(x, "dtype", None), (rows, w), dt)
        if given:
            if not np.array_equal(x, g):
                O.fail("%s: existing %s were not kept", model, n)
            continue
        counts = np.ediff1d(mat.indptr) if n == "user_factors" else np.bincount(mat.indices, minlength=rows)
        act, free = counts > 0, x
        if model == "als":
            if x.min() < 0 or x.max() > 0.01 * (1 + 1e-6):
                O.fail("als: initial %s outside [0, 0.01]: %s..%s", n, x.min(), x.max())
            act = np.ones(rows, bool)
        elif model == "bpr":
            cols = slice(0, f) if n == "user_factors" else slice(0, f + 1)
            if n == "user_factors" and (x[:, f] != 1).any():
                O.fail("bpr: the users' bias column is %s", x[:, f].tolist())
            free = x[:, cols]
            if np.abs(free).max() > 0.5 / f * (1 + 1e-6):
                O.fail("bpr: initial %s outside +-0.5/factors", n)
            if free[~act].any():
                O.fail("bpr: %s of rows without interactions are not zero", n)
        else:
            one = f if n == "user_factors" else f + 1
            if (x[act, one] != 1).any():
                O.fail("lmf: constant column of %s is %s", n, x[act, one].tolist())
            free = np.delete(x, one, axis=1)
            if free[~act].any():
                O.fail("lmf: %s of rows without interactions are not zero", n)
            if np.abs(free).max() > 8:
                O.fail("lmf: initial %s are not standard normal: %s", n, np.abs(free).max())
        # random: entries differ from each other
        v = free[act].ravel()
        if len(v) > 1 and len(np.unique(v)) < max(2, 0.9 * len(v)):
            O.fail("%s: initial %s are not random: %s", model, n, v.tolist()[:12])
        if len(v) >= 400:
            mean, sd = {"als": (0.005, 0.01 / 12 ** 0.5), "bpr": (0.0, 1 / f / 12 ** 0.5), "lmf": (0.0, 1.0)}[model]
            if abs(v.mean() - mean) > 8 * sd / len(v) ** 0.5 or abs(v.std() - sd) > 8 * sd / len(v) ** 0.5:
                O.fail("%s: initial %s have mean %.4g and deviation %.4g instead of %.4g, %.4g", model, n, v.mean(), v.std(), mean, sd)
    return True, [model, c["given"]]


@st.composite
def big_init(draw):
    return {"model": draw(st.sampled_from(["als", "bpr", "lmf"])), "f": draw(st.integers(2, 20)), "dtype": draw(G.dtypes),
            "m": {"shape": [draw(st.integers(200, 400)), draw(st.integers(200, 400))], "kind": "ones", "seed": draw(G.seeds),
                  "density": 0.05, "hole": True},
            "seed": draw(G.seeds), "threads": 1, "cg": True, "native": True, "loss": False, "alpha": 1.0, "progress": False,
            "cgsteps": 3, "given": "none"}


@st.composite
def long_callbacks(draw):
    c = config(draw)
    c.update(it=draw(st.sampled_from([20, 51, 101, 130, 260, 520])), how=draw(st.sampled_from(["arg", "arg", "attr"])), again=False, neg=draw(st.sampled_from([0, 1, 30])))
    c["m"] = draw(G.matrix((1, 4), (1, 4), ("ones", "counts"), min_nnz=1))
    return c


TESTS = [
    T("callbacks", callbacks, run_callbacks, 3000, 50000),
    T("long_callbacks", long_callbacks, run_callbacks, 160, 3000),
    T("compose", compose, run_compose, 2500, 60000),
    T("init", init, run_init, 3000, 40000),
    T("init_large", big_init, run_init, 60, 1500),
]
