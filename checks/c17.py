"""C17: train_test_split partitions the ratings."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T


def awkward(data, how):
    """Values of the dtype that a smaller or other type can't hold."""
    if how == "plain":
        return data
    if data.dtype.kind == "f":
        return data * data.dtype.type({"fine": 1 / 3, "huge": 1e12 / 7, "tiny": 1e-9 / 7}[how])
    if data.dtype == np.int64:
        return data * (2**24 + 1 if how == "fine" else 2**54 + 1)
    return data * data.dtype.type(2**24 + 1)


def entries(m):
    c = sp.coo_matrix(m)
    return {(int(r), int(k)): v for r, k, v in zip(c.row, c.col, c.data)}, c.nnz


@st.composite
def case(draw, long=False):
    kinds = ("ones", "counts", "frac", "signed")
    return {"m": draw(G.matrix((1, 10), (1, 10), kinds, (30, 200), (30, 120), p_big=0.25) if not long else
                      st.one_of(G.long_matrix(kinds, 70000), G.matrix((1, 1), (1, 1), kinds, (300, 500), (300, 500), p_big=1.1))),
            "dtype": draw(st.sampled_from(["float64", "float32", "int32", "int64"])),
            "fmt": draw(st.sampled_from(["coo", "csr", "csc"] + ["lil"] * (not long))),
            "p": draw(st.one_of(st.sampled_from([0.0, 1.0, 0.8, 0.5, 0.2, 0.05, 0.97, None]), st.floats(0, 1, width=16))),
            "rs": draw(st.sampled_from(["int", "RandomState", "Generator", "none"])), "seed": draw(G.seeds),
            "shuffle": draw(st.booleans()), "zeros": draw(st.integers(0, 3)) == 0,
            "values": draw(st.sampled_from(["plain", "plain", "fine", "huge", "tiny"]))}


def run(c):
    from implicit.evaluation import train_test_split
    M = G.build_matrix(c["m"], np.float64)
    dt = np.dtype(c["dtype"])
    if dt.kind == "i":
        M.data = np.where(np.abs(M.data) < 1, np.sign(M.data), np.trunc(M.data))
    if c["zeros"] and c["fmt"] != "lil":  # stored zeros are ratings like others (but not kept in test)
        M.data[np.random.default_rng(c["seed"]).random(M.nnz) < 0.3] = 0
    M = M.astype(dt)
    M.data = awkward(M.data, c["values"])
    X = M.asformat(c["fmt"])
    if c["fmt"] == "coo" and c["shuffle"]:
        p = np.random.default_rng(c["seed"]).permutation(X.nnz)
        X = sp.coo_matrix((X.data[p], (X.row[p], X.col[p])), shape=X.shape)
    before, n0 = entries(X)
    state = {"int": c["seed"], "RandomState": np.random.RandomState(c["seed"]),
             "Generator": np.random.default_rng(c["seed"]), "none": None}[c["rs"]]
    kw = {} if c["p"] is None else {"train_percentage": c["p"]}
    p = 0.8 if c["p"] is None else c["p"]
    train, test = train_test_split(X, random_state=state, **kw)
    after, n1 = entries(X)
    if after != before or n0 != n1 or X.dtype != dt:
        O.fail("the input was modified")
    for name, part in (("train", train), ("test", test)):
        if not sp.isspmatrix_csr(part):
            O.fail("%s is not CSR", name)
        if part.shape != X.shape or part.dtype != dt:
            O.fail("%s has shape %s dtype %s", name, part.shape, part.dtype)
    tr, ntr = entries(train)
    te, nte = entries(test)
    if len(tr) != ntr or len(te) != nte:
        O.fail("repeated entries")
    both = set(tr) & set(te)
    if both:
        O.fail("rating %s is in both parts", sorted(both)[0])
    for part in (tr, te):
        for k, v in part.items():
            if before.get(k) != v:
                O.fail("rating %s has value %r, the input has %r", k, v, before.get(k))
    lost = set(before) - set(tr) - set(te)
    for k in lost:
        if before[k] > 0:
            O.fail("rating %s (%r) is in neither part", k, before[k])
    if any(v < 0 for v in te.values()):
        O.fail("test has a negative rating")
    if p == 1.0 and lost:
        O.fail("rating %s (%r) is in neither part with train_percentage=1", sorted(lost)[0], before[sorted(lost)[0]])
    n = len(before)
    if p == 1.0 and len(tr) != n or p == 0.0 and tr:
        O.fail("train_percentage=%s puts %d of %d ratings in train", p, len(tr), n)
    sigma = np.sqrt(n * p * (1 - p))
    if abs(len(tr) - n * p) > 7 * sigma + 2:
        O.fail("%d of %d ratings in train for train_percentage=%s", len(tr), n, p)
    # and it is a random choice, not a block of the ratings
    ks = sorted(before)
    h = len(ks) // 2
    for part in (ks[:h], ks[h:]):
        k = sum(1 for x in part if x in tr)
        if abs(k - len(part) * p) > 7 * np.sqrt(len(part) * p * (1 - p)) + 2:
            O.fail("train takes %d of %d ratings in one half of the matrix (train_percentage=%s)", k, len(part), p)
    return n > 1 and 0 < p < 1, [c["fmt"], c["dtype"], "large" if n > 200 else "small",
                                 "negative" if any(v < 0 for v in before.values()) else "positive"]


@st.composite
def repeat_case(draw):
    return {"m": draw(G.matrix((2, 8), (3, 9), ("ones", "counts", "signed"), (40, 300), (30, 200), min_nnz=4)),
            "p": draw(st.sampled_from([0.8, 0.5, 0.2])), "kind": draw(st.sampled_from(["int", "RandomState", "Generator"])),
            "seed": draw(G.seeds)}


def run_repeat(c):
    """equal random_state -> equal split; every rating can go to either side"""
    from implicit.evaluation import train_test_split
    X = G.build_matrix(c["m"], np.float64).tocoo()
    make = {"int": int, "RandomState": np.random.RandomState, "Generator": np.random.default_rng}[c["kind"]]
    out = []
    for k in range(2):
        np.random.seed(k)
        out.append([entries(m)[0] for m in train_test_split(X, c["p"], random_state=make(c["seed"]))])
    if out[0] != out[1]:
        O.fail("equal random_state (%s) gives different splits", c["kind"])
    if X.nnz > 60:
        return True, [c["kind"], "large"]
    ever, never = set(), None
    n = 200  # (1 - 0.2) ** 200 < 1e-19
    for k in range(n):
        tr = set(entries(train_test_split(X, c["p"], random_state=c["seed"] * 1000 + k)[0])[0])
        ever |= tr
        never = tr if never is None else never & tr
    allk = set(entries(X)[0])
    if ever != allk:
        O.fail("rating %s is never in train over %d seeds", sorted(allk - ever)[0], n)
    if never:
        O.fail("rating %s is always in train over %d seeds", sorted(never)[0], n)
    return X.nnz > 0, [c["kind"], "small"]


TESTS = [T("split", case, run, 6400, 100000), T("long", lambda: case(True), run, 48, 640), T("repeat", repeat_case, run_repeat, 240, 4800)]
