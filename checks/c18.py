"""C18: leave_k_out_split holds out exactly K ratings per eligible user."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T

from checks.c17 import awkward, entries


@st.composite
def case(draw, long=False):
    kinds = ("ones", "counts", "frac", "signed")
    return {"m": draw(G.matrix((1, 10), (1, 12), kinds, (20, 150), (10, 80), min_nnz=1) if not long else
                      st.one_of(G.long_matrix(kinds, 70000), G.matrix((1, 1), (1, 1), kinds, (300, 500), (300, 500), p_big=1.1))),
            "dtype": draw(st.sampled_from(["float64", "float32", "int64"])),
            "fmt": draw(st.sampled_from(["coo", "csr", "csc"])), "K": draw(st.sampled_from([1, 1, 2, 3, 5, 9, 20] + [129, 257, 1000] * long)),
            "tos": draw(st.one_of(st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.75, 0.9, 0.1, 0.01]), st.floats(0, 0.984375, width=16))),
            "rs": draw(st.sampled_from(["int", "RandomState", "Generator", "none"])), "seed": draw(G.seeds),
            "shuffle": draw(st.booleans()), "zeros": draw(st.integers(0, 3)) == 0, "gap": draw(st.sampled_from([0, 0, 1, 5])),
            "values": draw(st.sampled_from(["plain", "plain", "fine", "huge"]))}


def build(c):
    M = G.build_matrix(c["m"], np.float64)
    if c["gap"]:  # users without ratings in between
        C = M.tocoo()
        M = sp.coo_matrix((C.data, (C.row * (c["gap"] + 1), C.col)),
                          shape=(M.shape[0] * (c["gap"] + 1), M.shape[1])).tocsr()
    dt = np.dtype(c["dtype"])
    if dt.kind == "i":
        M.data = np.where(np.abs(M.data) < 1, np.sign(M.data), np.trunc(M.data))
    if c.get("zeros"):  # stored zeros are ratings like others
        M.data[np.random.default_rng(c["seed"]).random(M.nnz) < 0.3] = 0
    M = M.astype(dt)
    M.data = awkward(M.data, c.get("values", "plain"))
    X = M.asformat(c["fmt"])
    if c["fmt"] == "coo" and c["shuffle"]:
        p = np.random.default_rng(c["seed"]).permutation(X.nnz)
        X = sp.coo_matrix((X.data[p], (X.row[p], X.col[p])), shape=X.shape)
    return X


def run(c):
    from implicit.evaluation import leave_k_out_split
    X = build(c)
    if X.nnz == 0:
        return False, ["empty"]
    before, n0 = entries(X)
    state = {"int": c["seed"], "RandomState": np.random.RandomState(c["seed"]),
             "Generator": np.random.default_rng(c["seed"]), "none": None}[c["rs"]]
    K = c["K"]
    kw = {"K": K, "train_only_size": c["tos"]}
    if K == 1:
        del kw["K"]  # the documented defaults
    if c["tos"] == 0:
        del kw["train_only_size"]
    train, test = leave_k_out_split(X, random_state=state, **kw)
    after, n1 = entries(X)
    if after != before or n0 != n1:
        O.fail("the input was modified")
    for name, part in (("train", train), ("test", test)):
        if part.shape != X.shape or part.dtype != X.dtype or not sp.isspmatrix_csr(part):
            O.fail("%s has shape %s dtype %s", name, part.shape, part.dtype)
    tr, ntr = entries(train)
    te, nte = entries(test)
    if len(tr) != ntr or len(te) != nte:
        O.fail("repeated entries")
    if set(tr) & set(te):
        O.fail("rating %s is in both parts", sorted(set(tr) & set(te))[0])
    if dict(tr, **{}) | te != before:
        miss = set(before) - set(tr) - set(te)
        O.fail("the parts are not the input; lost %s", sorted(miss)[:3])
    counts, held = {}, {}
    for u, _ in before:
        counts[u] = counts.get(u, 0) + 1
    for u, _ in te:
        held[u] = held.get(u, 0) + 1
    eligible = [u for u, n in counts.items() if n > K + 1]
    for u, n in held.items():
        if u not in eligible:
            O.fail("user %d with %d ratings has %d in test (K=%d)", u, counts[u], n, K)
        if n != K:
            O.fail("user %d has %d ratings in test, K=%d", u, n, K)
    skipped = [u for u in eligible if u not in held]
    if c["tos"] == 0:
        if skipped:
            O.fail("eligible user %d has no test ratings (K=%d)", skipped[0], K)
    else:
        sizes = {max(1, int(len(counts) * float(f))) for f in (c["tos"], np.float32(c["tos"]))}
        lo = max(0, min(sizes) - (len(counts) - len(eligible)))
        hi = min(max(sizes), len(eligible))
        if not lo <= len(skipped) <= hi:
            O.fail("%d of %d eligible users (of %d) are reserved for train_only_size=%s", len(skipped),
                   len(eligible), len(counts), c["tos"])
    if c["rs"] != "none":
        np.random.seed(5)
        state = {"int": c["seed"], "RandomState": np.random.RandomState(c["seed"]),
                 "Generator": np.random.default_rng(c["seed"])}[c["rs"]]
        tr2, te2 = leave_k_out_split(X, K=K, train_only_size=c["tos"], random_state=state)
        if entries(tr2)[0] != tr or entries(te2)[0] != te:
            O.fail("equal random_state (%s) gives another split", c["rs"])
    return len(eligible) > 0, [c["fmt"], "reserved" if c["tos"] else "all", "gaps" if c["gap"] else "dense"]


@st.composite
def huge_case(draw):
    return {"base": draw(st.sampled_from([2**24 - 3, 2**24 + 1, 2**25 + 11])), "n": draw(st.integers(2, 6)),
            "per": draw(st.integers(4, 40)), "seed": draw(G.seeds), "K": draw(st.integers(1, 2))}


def run_huge(c):
    """user ids too large for single precision"""
    from implicit.evaluation import leave_k_out_split
    rows = np.repeat(c["base"] + np.arange(c["n"]), c["per"])
    cols = np.tile(np.arange(c["per"]), c["n"])
    X = sp.coo_matrix((np.arange(1.0, len(rows) + 1), (rows, cols)), shape=(c["base"] + c["n"], c["per"]))
    train, test = leave_k_out_split(X, K=c["K"], random_state=c["seed"])
    tr, te = entries(train)[0], entries(test)[0]
    if set(tr) & set(te) or tr | te != entries(X)[0]:
        O.fail("the parts are not the input")
    for u in range(c["base"], c["base"] + c["n"]):
        k = sum(1 for a, _ in te if a == u)
        if k != c["K"]:
            O.fail("user %d has %d ratings in test, K=%d", u, k, c["K"])
    return True, []


@st.composite
def spread_case(draw):
    return {"users": draw(st.integers(2, 5)), "per": draw(st.integers(3, 5)), "K": 1,
            "seed": draw(st.integers(0, 2**16)), "gap": draw(st.integers(0, 2)),
            "fmt": draw(st.sampled_from(["coo", "csr"])), "tos": draw(st.sampled_from([0.0, 0.5]))}


def run_spread(c):
    """every rating of an eligible user, and every user, can be chosen (error < 1e-12)"""
    from implicit.evaluation import leave_k_out_split
    step = c["gap"] + 1
    rows = np.repeat(np.arange(c["users"]) * step, c["per"])
    cols = np.tile(np.arange(c["per"]) * 2, c["users"])
    X = sp.coo_matrix((np.ones(len(rows)), (rows, cols)), shape=(c["users"] * step, c["per"] * 2)).asformat(c["fmt"])
    seen, reserved = set(), set()
    n = 160 if c["tos"] == 0 else 320
    for k in range(n):
        _, test = leave_k_out_split(X, K=1, train_only_size=c["tos"], random_state=c["seed"] * 1000 + k)
        te, _ = entries(test)
        seen |= set(te)
        reserved |= set((rows).tolist()) - {u for u, _ in te}
    if len(seen) != len(rows):
        never = sorted(set(zip(rows.tolist(), cols.tolist())) - seen)
        O.fail("over %d seeds rating %s is never held out", n, never[0])
    if c["tos"] and c["users"] > 1 and len(reserved) != c["users"]:
        O.fail("over %d seeds only users %s are ever reserved", n, sorted(reserved))
    return True, []


@st.composite
def invalid_case(draw):
    which = draw(st.sampled_from(["K", "tos"]))
    return {"K": draw(st.integers(-5, 0)) if which == "K" else draw(st.integers(1, 3)),
            "tos": draw(st.sampled_from([1.0, 1.5, -0.1, -3.0, 100.0])) if which == "tos" else
            draw(st.sampled_from([0.0, 0.5])), "seed": draw(G.seeds)}


def run_invalid(c):
    from implicit.evaluation import leave_k_out_split
    X = sp.random(6, 8, 0.7, format="csr", random_state=c["seed"])
    try:
        leave_k_out_split(X, K=c["K"], train_only_size=c["tos"], random_state=1)
    except ValueError:
        return True, []
    O.fail("K=%d, train_only_size=%s accepted", c["K"], c["tos"])


TESTS = [
    T("split", case, run, 6400, 100000),
    T("long", lambda: case(True), run, 48, 640),
    T("huge", huge_case, run_huge, 16, 64),
    T("spread", spread_case, run_spread, 80, 1600),
    T("invalid", invalid_case, run_invalid, 160, 1600),
]
