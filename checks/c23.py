"""C23: BPR epochs are sequences of valid pairwise SGD steps.

small: every step sequence an epoch could take is enumerated; the fitted factors must be one of
  the outcomes (and the callback's counts those of that sequence).
decode: the starting factors are chosen so that, to first order in a tiny learning rate, each step
  leaves its own mark; the multiset of all steps of thousands of samples is read back exactly.
invariants: larger matrices and several threads, properties that hold for any schedule."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T, Violation
from vlib.models import mf_class


def fit(m, X, state=None):
    got = []
    if state is not None:
        m.random_state = state
    m.fit(X, show_progress=False, callback=lambda *a: got.append(a))
    if len(got) != m.iterations:
        O.fail("callback called %d times in %d iterations", len(got), m.iterations)
    for a in got:
        if len(a) != 4 or a[2] < 0 or a[3] < 0 or a[2] + a[3] > X.nnz:
            O.fail("counts (correct, skipped) = %s in an epoch of %d samples", a[2:], X.nnz)
    return [(int(a[2]), int(a[3])) for a in got]


# ---- exhaustive enumeration of one epoch -----------------------------------------------------

@st.composite
def small(draw):
    nu, ni = draw(st.sampled_from([2, 3, 4, 1])), draw(st.sampled_from([3, 2, 4, 1]))
    n = min(draw(st.sampled_from([3, 2, 3, 2, 1])), nu * ni)
    cells = draw(st.lists(st.integers(0, nu * ni - 1), min_size=n, max_size=n, unique=True))
    return {"nu": nu, "ni": ni, "cells": sorted(cells), "f": draw(st.integers(1, 3)),
            "dtype": draw(G.dtypes), "lr": draw(st.sampled_from([0.01, 0.1, 0.5, 1.0])),
            "reg": draw(st.sampled_from([0.0, 0.01, 0.1, 0.5])), "verify": draw(st.sampled_from([True, True, False])),
            "seeds": draw(st.lists(G.seeds, min_size=1, max_size=3)), "fseed": draw(G.seeds),
            "scale": draw(st.sampled_from([0.1, 1.0, 3.0])), "warm": draw(st.integers(0, 3)) > 0,
            "unsorted": draw(st.booleans()), "value": draw(st.sampled_from([1.0, 0.5, 7.0]))}


def step(X, Y, u, i, j, lr, reg, simultaneous=False):
    X, Y = X.copy(), Y.copy()
    f = X.shape[1] - 1
    x, yi, yj = X[u].copy(), Y[i].copy(), Y[j].copy()
    score = float(x @ (yi - yj))
    z = 1.0 / (1.0 + np.exp(score))
    X[u, :f] += lr * (z * (yi - yj)[:f] - reg * x[:f])
    t = x.copy()
    t[f] = 1.0
    if i != j or simultaneous:
        Y[i] += lr * (z * t - reg * yi)
        Y[j] += lr * (-z * t - reg * yj)
    else:
        Y[i] += lr * (z * t - reg * Y[i])
        Y[i] += lr * (-z * t - reg * Y[i])
    mag = float(np.abs(x) @ (np.abs(yi) + np.abs(yj)))
    return X, Y, score, mag


def epoch_outcomes(X, Y, inter, liked, lr, reg, verify, tol):
    """[(X, Y, skipped, correct_min, correct_max)] over all sequences of len(inter) steps"""
    triples = {}
    skip = False
    for u, i in inter:
        for _, j in inter:
            if verify and j in liked[u]:
                skip = True
            else:
                triples[(u, i, j)] = True
    outs = [(X, Y, 0, 0, 0)]
    for _ in inter:
        nxt = []
        for X0, Y0, s, lo, hi in outs:
            if skip:
                nxt.append((X0, Y0, s + 1, lo, hi))
            for u, i, j in triples:
                # liked and disliked are the same row: the order of the two updates is not specified
                for sim in ((False, True) if i == j and reg else (False,)):
                    X1, Y1, sc, mag = step(X0, Y0, u, i, j, lr, reg, sim)
                    sure = abs(sc) > tol * (mag + 1e-30)
                    nxt.append((X1, Y1, s, lo + (sc > 0 and sure), hi + (sc > 0 or not sure)))
        outs = nxt
        if len(outs) > 20000:
            return None
    return outs


def run_small(c):
    nu, ni, f = c["nu"], c["ni"], c["f"]
    dt = np.dtype(c["dtype"])
    inter = [(x // ni, x % ni) for x in c["cells"]]
    liked = {u: {i for v, i in inter if v == u} for u, _ in inter}
    mat = sp.csr_matrix((np.full(len(inter), c["value"], np.float32),
                         (np.array([u for u, _ in inter]), np.array([i for _, i in inter]))), shape=(nu, ni))
    if c["unsorted"]:
        mat = G.shuffle_indices(mat, c["fseed"])
    m = mf_class("bpr")(factors=f, learning_rate=c["lr"], regularization=c["reg"], dtype=dt, iterations=1,
                        num_threads=1, verify_negative_samples=c["verify"], random_state=c["seeds"][0])
    if c["warm"]:
        rng = np.random.default_rng(c["fseed"])
        m.user_factors = (rng.standard_normal((nu, f + 1)) * c["scale"]).astype(dt)
        m.user_factors[:, f] = 1.0
        m.item_factors = (rng.standard_normal((ni, f + 1)) * c["scale"]).astype(dt)
    else:
        m.iterations = 0
        m.fit(mat, show_progress=False)
        m.iterations = 1
    lr, reg = float(np.float32(c["lr"])), float(np.float32(c["reg"]))
    # the kernel holds learning rate and regularization, and may hold their product, in single precision
    # (powers of two are exact there)
    exact = c["lr"] in (0.5, 1.0) and c["reg"] in (0.0, 0.5)
    tol = 2e-5 if dt == np.float32 else 1e-10 + (0 if exact else 5e-7 * len(inter) * abs(lr) * (1 + abs(reg)))
    moved = False
    for seed in c["seeds"]:
        X, Y = m.user_factors.astype(np.float64), m.item_factors.astype(np.float64)
        [(correct, skipped)] = fit(m, mat, seed)
        X1, Y1 = m.user_factors.astype(np.float64), m.item_factors.astype(np.float64)
        if X1.shape != X.shape or Y1.shape != Y.shape:
            O.fail("fit changed the shape of the factors")
        outs = epoch_outcomes(X, Y, inter, liked, lr, reg, c["verify"], 1e-5 if dt == np.float32 else 1e-12)
        if outs is None:
            continue
        scale = tol * max(1.0, np.abs(X).max(), np.abs(Y).max(), np.abs(X1).max(), np.abs(Y1).max())
        match = [o for o in outs if np.abs(o[0] - X1).max() <= scale and np.abs(o[1] - Y1).max() <= scale]
        if not match:
            O.fail("no sequence of %d BPR steps over %s leads from %s / %s to %s / %s (lr=%s, reg=%s, "
                   "verify_negative_samples=%s)", len(inter), inter, X.tolist(), Y.tolist(), X1.tolist(),
                   Y1.tolist(), lr, reg, c["verify"])
        # different sequences can end at the same factors up to rounding; any of them may explain the counts
        if not any(o[2] == skipped and o[3] <= correct <= o[4] for o in match):
            O.fail("counts correct=%d skipped=%d don't fit the steps taken (possible: %s)", correct, skipped,
                   sorted({(o[2], o[3], o[4]) for o in match})[:10])
        moved |= not np.array_equal(X, X1)
    return moved, [c["dtype"], "nnz%d" % len(inter), "verify" if c["verify"] else "noverify", "warm" if c["warm"] else "new"]


# ---- reading back all steps of long trainings ------------------------------------------------

@st.composite
def decode(draw):
    return {"m": draw(G.matrix((1, 8), (2, 8), ("ones", "frac", "tiny"), (8, 25), (8, 25), 0.6, min_nnz=1)),
            "reg": draw(st.sampled_from([0.0, 0.25, 0.5, 2.0])), "verify": draw(st.sampled_from([True, True, False])),
            "seed": draw(G.seeds), "epochs": draw(st.sampled_from([20, 3, 1])),
            "perm": draw(st.one_of(st.none(), G.seeds))}


LR = 2.0 ** -30


def run_decode(c):
    mat = G.build_matrix(c["m"])
    nu, ni = mat.shape
    n = mat.nnz
    if not n:
        return False, ["empty"]
    if c["perm"] is not None:
        mat = G.shuffle_indices(mat, c["perm"])
    E = c["epochs"] if n * c["epochs"] < 6000 else 1
    f = nu + ni
    m = mf_class("bpr")(factors=f, learning_rate=LR, regularization=c["reg"], dtype=np.float64, iterations=E,
                        num_threads=1, verify_negative_samples=c["verify"], random_state=c["seed"])
    X = np.zeros((nu, f + 1))
    X[:, f] = 1.0
    X[np.arange(nu), ni + np.arange(nu)] = 1.0
    Y = np.zeros((ni, f + 1))
    Y[np.arange(ni), np.arange(ni)] = 1.0
    m.user_factors, m.item_factors = X.copy(), Y.copy()
    counts = fit(m, mat)
    dX, dY = (m.user_factors - X) / LR, (m.item_factors - Y) / LR

    def whole(a, what):
        r = np.round(a)
        if np.abs(a - r).max(initial=0) > 0.05:
            O.fail("%s is not a whole number of steps: %s", what, a[np.abs(a - r) > 0.05][:5].tolist())
        return r.astype(int)
    if (dX[:, f] != 0).any():
        O.fail("the users' bias column changed")
    net = whole(2 * dX[:, :ni], "user update")          # picks as liked minus picks as negative
    net2 = whole(2 * dY[:, ni:f].T, "item update")
    bias = whole(2 * dY[:, f], "bias update")
    if not np.array_equal(net, net2):
        O.fail("user updates %s and item updates %s belong to different steps", net.tolist(), net2.tolist())
    if not np.array_equal(net.sum(0), bias):
        O.fail("bias updates %s don't match the steps %s", bias.tolist(), net.sum(0).tolist())
    if net.sum(1).any():
        O.fail("a user was trained with more liked than disliked items: %s", net.sum(1).tolist())
    own = np.zeros((nu, f), bool)
    own[np.arange(nu), ni + np.arange(nu)] = True
    other = np.abs(dX[:, ni:f][~own[:, ni:]]).max(initial=0) if nu > 1 else 0
    oy = dY[:, :ni] - np.diag(np.diag(dY[:, :ni]))
    if other > 0.05 or np.abs(oy).max(initial=0) > 0.05:
        O.fail("factors moved in a direction no step has")
    L = np.asarray(mat.toarray() != 0)
    active = L.any(0)
    if net[:, ~active].any() or net[~L.any(1)].any() or dY[~active].any() or dX[~L.any(1)].any():
        O.fail("users or items without interactions were trained")
    skipped = sum(s for _, s in counts)
    total = n * E
    if c["verify"]:
        if (net[~L] > 0).any() or (net[L] < 0).any():
            O.fail("an item was used as negative for a user who liked it, or as liked for one who didn't: %s",
                   net.tolist())
        taken = net[L].sum()
        if taken + skipped != total:
            O.fail("%d steps taken + %d skipped in %d epochs of %d samples", taken, skipped, E, n)
        usteps, isteps = np.where(L, net, 0).sum(1), np.abs(net).sum(0)
    else:
        if skipped:
            O.fail("%d steps skipped without verify_negative_samples", skipped)
        usteps = isteps = None
    if c["reg"]:
        du = -dX[np.arange(nu), ni + np.arange(nu)] / c["reg"]
        di = -np.diag(dY[:, :ni]) / c["reg"]
        wu, wi = whole(du, "regularization of users"), whole(di, "regularization of items")
        if wu.sum() + skipped != total or wi.sum() != 2 * wu.sum():
            O.fail("%d user and %d item regularizations, %d skipped, in %d epochs of %d samples", wu.sum(), wi.sum(),
                   skipped, E, n)
        if usteps is not None and not (np.array_equal(wu, usteps) and np.array_equal(wi, isteps)):
            O.fail("regularization was applied %s/%s times in steps %s/%s", wu.tolist(), wi.tolist(),
                   usteps.tolist(), isteps.tolist())
        if usteps is None:
            usteps = wu
    # every interaction is equally likely to be picked (far outside any plausible fluctuation)
    deg = L.sum(1)
    if c["verify"]:
        pop = L.sum(0)
        for u in range(nu):
            p_ok = 1.0 - pop[L[u]].sum() / n
            for i in np.nonzero(L[u])[0]:
                p = p_ok / n
                sd = np.sqrt(total * p * (1 - p))
                if abs(net[u, i] - total * p) > 9 * sd + 12:
                    O.fail("interaction (%d, %d) was sampled %d times in %d epochs of %d samples, expected %.1f",
                           u, i, net[u, i], E, n, total * p)
            for j in np.nonzero(~L[u] & active)[0]:
                p = deg[u] / n * pop[j] / n
                sd = np.sqrt(total * p * (1 - p))
                if abs(-net[u, j] - total * p) > 9 * sd + 12:
                    O.fail("item %d was the negative of user %d %d times in %d epochs of %d samples, expected %.1f",
                           j, u, -net[u, j], E, n, total * p)
    return bool(net.any()), ["verify" if c["verify"] else "noverify", "samples>=%d" % (10 ** int(np.log10(total)))]


@st.composite
def long_rows(draw):
    return {"nu": draw(st.integers(1, 4)), "ni": draw(st.sampled_from([150, 600, 1100, 2100, 4200, 9000])), "seed": draw(G.seeds), "perm": draw(st.one_of(st.none(), G.seeds)),
            "miss": draw(st.sampled_from([0, 1, 5])), "f": draw(st.integers(1, 3)), "threads": draw(st.sampled_from([1, 2, 4, 17])), "dtype": draw(G.dtypes)}


def run_long(c):
    """Users who like nearly everything: only the few other items can be negatives."""
    rng = np.random.default_rng(c["seed"])
    nu, ni, f = c["nu"], c["ni"], c["f"]
    L = np.ones((nu + 1, ni), bool)
    for u in range(nu):
        L[u, rng.choice(ni, c["miss"], replace=False)] = False
    L[nu] = ~L[:nu].all(0) if c["miss"] else False  # so that these items can be drawn
    mat = sp.csr_matrix(L.astype(np.float32))
    if c["perm"] is not None:
        mat = G.shuffle_indices(mat, c["perm"])
    lr = 2.0 ** -20
    dt = np.dtype(c["dtype"])
    m = mf_class("bpr")(factors=f, learning_rate=lr, regularization=0.0, dtype=dt, iterations=2, num_threads=c["threads"],
                        verify_negative_samples=True, random_state=c["seed"])
    X, Y = np.zeros((nu + 1, f + 1), dt), np.zeros((ni, f + 1), dt)
    X[:, f] = 1
    m.user_factors, m.item_factors = X.copy(), Y.copy()
    counts = fit(m, mat)
    taken = mat.nnz * len(counts) - sum(s for _, s in counts)
    down = m.item_factors[:, f] < -lr / 8  # with these rates every step counts one half, whatever the order
    up = m.item_factors[:, f] > lr / 8
    can = ~L[:nu].all(0) | ~L[nu]  # liked by not everyone
    if not c["miss"]:
        can = np.zeros(ni, bool)
    if (down & ~can).any():
        O.fail("item %d was a negative, though every user has liked it (%d likes in the longest row)", int(np.argmax(down & ~can)), int(L.sum(1).max()))
    if not c["miss"] and taken:
        O.fail("%d steps were taken, though there is no item that a user hasn't liked", taken)
    return bool(up.any()) or not c["miss"], ["miss%d" % c["miss"], "likes>512" if ni > 512 else "likes<512"]


@st.composite
def coverage(draw):
    return {"n": draw(st.integers(2, 12)), "seed": draw(G.seeds), "perm": draw(G.seeds), "extra": draw(st.integers(0, 4)),
            "threads": draw(st.sampled_from([1, 1, 2, 3])), "verify": draw(st.booleans())}


def run_coverage(c):
    """No interaction is left out: n users with one item of their own; 60 epochs miss one with p < n e^-60."""
    n, x = c["n"], c["extra"]
    mat = sp.csr_matrix((np.ones(n, np.float32), (np.arange(n), np.random.default_rng(c["perm"]).permutation(n + x)[:n])),
                        shape=(n + x, n + x))
    m = mf_class("bpr")(factors=2, learning_rate=0.05, regularization=0.0, iterations=60, num_threads=c["threads"],
                        random_state=c["seed"], verify_negative_samples=c["verify"])
    it, m.iterations = m.iterations, 0
    m.fit(mat, show_progress=False)
    X, Y = m.user_factors.copy(), m.item_factors.copy()
    m.iterations = it
    fit(m, mat)
    for name, a, b, act in (("user", X, m.user_factors, np.ediff1d(mat.indptr) > 0),
                            ("item", Y, m.item_factors, np.bincount(mat.indices, minlength=n + x) > 0)):
        same = (a == b).all(1)
        if (same & act).any():
            O.fail("%s %d was never trained in 60 epochs of %d samples", name, int(np.argmax(same & act)), n)
        if (~same & ~act).any():
            O.fail("%s %d has no interactions but was trained", name, int(np.argmax(~same & ~act)))
    if (m.user_factors[:, -1] != 1).any():
        O.fail("the users' bias column changed")
    return True, ["threads%d" % c["threads"]]


@st.composite
def streams(draw):
    return {"n": draw(st.sampled_from([400, 1000, 2500, 2500, 66000, 140000])), "seed": draw(G.seeds), "threads": draw(st.sampled_from([0, 1, 2, 3, 4, 8])),
            "epochs": draw(st.integers(1, 3)), "fits": draw(st.integers(1, 2)), "verify": draw(st.booleans())}


def run_streams(c):
    """Threads and epochs draw independently: n users with one item of their own, of whom e^-1 per epoch are left out."""
    n, E = c["n"], c["epochs"]
    mat = sp.csr_matrix(sp.identity(n, dtype=np.float32))
    m = mf_class("bpr")(factors=1, learning_rate=0.05, regularization=0.1, iterations=0, num_threads=c["threads"],
                        random_state=np.random.default_rng(c["seed"]), verify_negative_samples=c["verify"])
    m.fit(mat, show_progress=False)
    X = m.user_factors.copy()
    m.iterations = E
    for _ in range(c["fits"]):  # the Generator goes on: another fit draws anew
        m.fit(mat, show_progress=False)
    E *= c["fits"]
    q = 1.0 / n * (1 - (1.0 / n if c["verify"] else 0))
    p = (1 - q) ** (n * E)
    left = int((m.user_factors == X).all(1).sum())
    # numbers of empty boxes vary less than independent ones would
    if abs(left - n * p) > 9 * np.sqrt(n * p * (1 - p)) + 5:
        O.fail("%d of %d users were never trained in %d epochs with %d threads, expected %.0f", left, n, E, c["threads"], n * p)
    for k, part in enumerate(np.array_split((m.user_factors == X).all(1), 8)):  # all ranges alike
        if abs(part.sum() - len(part) * p) > 9 * np.sqrt(len(part) * p * (1 - p)) + 5:
            O.fail("%d of the %d users of part %d of 8 were never trained in %d epochs, expected %.0f", part.sum(), len(part),
                   k + 1, E, len(part) * p)
    return True, ["threads%d" % c["threads"], "epochs%d" % E, "n>65536" if n > 65536 else "n<65536"]


# ---- invariants under any schedule -----------------------------------------------------------

@st.composite
def invariant(draw):
    return {"m": draw(G.matrix((1, 12), (1, 12), ("ones", "counts"), (20, 80), (20, 80), 0.5)),
            "f": draw(st.integers(1, 6)), "dtype": draw(G.dtypes), "threads": draw(st.sampled_from([0, 1, 2, 4, 17])),
            "lr": draw(st.sampled_from([0.0, 0.01, 0.1])), "reg": draw(st.sampled_from([0.0, 0.0, 0.05])),
            "verify": draw(st.booleans()), "seed": draw(G.seeds), "it": draw(st.integers(1, 4)),
            "full": draw(st.booleans()), "warm": draw(st.booleans())}


def run_invariant(c):
    mat = G.build_matrix(c["m"], np.float32)
    if c["full"] and mat.nnz:
        # rectangular likes: every sampled negative is liked by the user
        L = np.outer(np.asarray(mat.sum(1)).ravel() > 0, np.asarray(mat.sum(0)).ravel() > 0)
        mat = sp.csr_matrix(L.astype(np.float32))
    nu, ni = mat.shape
    dt = np.dtype(c["dtype"])
    m = mf_class("bpr")(factors=c["f"], learning_rate=c["lr"], regularization=c["reg"], dtype=dt, iterations=0,
                        num_threads=c["threads"], verify_negative_samples=c["verify"], random_state=c["seed"])
    if c["warm"]:
        rng = np.random.default_rng(c["seed"])
        m.user_factors = rng.standard_normal((nu, c["f"] + 1)).astype(dt)
        m.user_factors[:, -1] = 1
        m.item_factors = rng.standard_normal((ni, c["f"] + 1)).astype(dt)
    m.fit(mat, show_progress=False)
    X, Y = m.user_factors.copy(), m.item_factors.copy()
    m.iterations = c["it"]
    counts = fit(m, mat)
    X1, Y1 = m.user_factors, m.item_factors
    ua, ia = np.ediff1d(mat.indptr) > 0, np.bincount(mat.indices, minlength=ni) > 0
    if not np.array_equal(X[~ua], X1[~ua]) or not np.array_equal(Y[~ia], Y1[~ia]):
        O.fail("factors of users or items without interactions changed")
    if (X1[:, -1] != 1).any():
        O.fail("the users' bias column changed")
    if not c["verify"] and any(s for _, s in counts):
        O.fail("steps skipped without verify_negative_samples: %s", counts)
    if c["verify"] and c["full"] and any(k or s != mat.nnz for k, s in counts):
        O.fail("all negatives are liked items, but (correct, skipped) = %s of %d", counts, mat.nnz)
    if c["lr"] == 0 or (c["verify"] and c["full"]):
        if not (np.array_equal(X, X1) and np.array_equal(Y, Y1)):
            O.fail("factors changed although no step could change them")
    elif c["reg"] == 0 and c["threads"] == 1:
        # a step moves the liked and the disliked item by opposite amounts
        d = (Y1.astype(np.float64) - Y).sum(0)
        eps = np.finfo(dt).eps * (mat.nnz * c["it"] + 1) * max(1.0, np.abs(Y1).max(initial=0))
        if np.abs(d).max(initial=0) > 4 * eps:
            O.fail("items' factors are not moved in opposite directions: total %s", d.tolist())
    return bool(mat.nnz > 1 and not np.array_equal(X, X1)), ["threads%d" % c["threads"], "full" if c["full"] else "any"]


TESTS = [
    T("small", small, run_small, 2400, 60000),
    T("decode", decode, run_decode, 4000, 100000),
    T("long", long_rows, run_long, 160, 3000),
    T("coverage", coverage, run_coverage, 300, 6000),
    T("invariant", invariant, run_invariant, 2000, 40000),
    T("streams", streams, run_streams, 160, 3000),
]
