"""C19: ranking metrics equal their definitions and lie in [0, 1]."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import knn_model, mf_model

LOWEST = -np.finfo(np.float32).max


def row(m, r):
    return m.indices[m.indptr[r]:m.indptr[r + 1]]


class Fake:
    """A recommender with prescribed lists (and a log of what it was asked)."""

    def __init__(self, lists, train):
        self.lists, self.train, self.asked = lists, train, []

    def recommend(self, userid, user_items, N=10, **kw):
        if kw.get("filter_already_liked_items", True) is not True:
            O.fail("metrics asked for unfiltered recommendations")
        ids = np.full((len(userid), N), -1, np.int32)
        scores = np.full((len(userid), N), LOWEST, np.float32)
        if user_items.shape[0] != len(userid):
            O.fail("metrics passed %d rows for %d users", user_items.shape[0], len(userid))
        for r, u in enumerate(userid):
            if not np.array_equal(np.sort(row(user_items, r)), np.sort(row(self.train, int(u)))):
                O.fail("metrics passed the wrong training row for user %d", u)
            self.asked.append(int(u))
            real, tail = self.lists[int(u)]
            real = real[:N]
            ids[r, :len(real)] = real
            scores[r, :len(real)] = -np.arange(len(real))
            t = tail[:N - len(real)]
            ids[r, len(real):len(real) + len(t)] = t
        return ids, scores


def reference(lists, test, K):
    """lists: user -> genuine recommendations (best first)"""
    n_items = test.shape[1]
    rel = div = ap = nd = au = 0.0
    users = [u for u in range(test.shape[0]) if test.indptr[u] != test.indptr[u + 1]]
    for u in users:
        likes = set(row(test, u).tolist())
        rec = list(lists[u])[:K]
        hits = [1 if i in likes else 0 for i in rec]
        m = min(K, len(likes))
        rel += sum(hits)
        div += m
        ap += sum(h * sum(hits[:k + 1]) / (k + 1) for k, h in enumerate(hits)) / m
        nd += sum(h / np.log2(k + 2) for k, h in enumerate(hits)) / sum(1 / np.log2(k + 2) for k in range(m))
        pos, neg = len(likes), n_items - len(likes)
        above = sum(sum(hits[:k]) for k, h in enumerate(hits) if not h)
        found, miss = sum(hits), len(hits) - sum(hits)
        au += (above + (found + pos) / 2.0 * (neg - miss)) / (pos * neg)
    n = len(users)
    return {"precision": rel / div, "map": ap / n, "ndcg": nd / n, "auc": au / n}, users


def compare(got, ref, what):
    for k, v in ref.items():
        if k not in got:
            O.fail("%s: no %s in %s", what, k, sorted(got))
        if not abs(got[k] - v) <= 1e-9:
            O.fail("%s: %s is %r, definition gives %r", what, k, got[k], v)
        if not -1e-12 <= got[k] <= 1 + 1e-12:
            O.fail("%s: %s=%r outside [0, 1]", what, k, got[k])


def all_metrics(model, train, test, K, which, how):
    import implicit.evaluation as ev
    kw = {"K": K, "show_progress": False}
    if how:
        kw["num_threads"] = how
    if K == 10:
        kw.pop("K")  # the default
    got = ev.ranking_metrics_at_k(model, train, test, **kw)
    single = {"precision": ev.precision_at_k, "map": ev.mean_average_precision_at_k,
              "ndcg": ev.ndcg_at_k, "auc": ev.AUC_at_k}
    v = single[which](model, train, test, **kw)
    if not abs(v - got[which]) <= 1e-9 * max(1, abs(v)):
        O.fail("%s on its own is %r, ranking_metrics_at_k has %r", which, v, got[which])
    return got


@st.composite
def fake_case(draw, big=False):
    if big:
        nu, ni = draw(st.sampled_from([999, 1000, 1001, 1500, 2000, 2001, 2300])), draw(st.integers(3, 30))
        if big == "wide":
            nu, ni = draw(st.integers(1, 30)), draw(st.sampled_from([300, 1030, 2500]))
    else:
        nu, ni = draw(st.integers(1, 8)), draw(st.one_of(st.integers(2, 9), st.integers(10, 200)))
    return {"nu": nu, "ni": ni, "seed": draw(G.seeds), "K": draw(st.one_of(st.integers(1, 14), st.sampled_from([1, 10, 40, 150] if big != "wide" else [129, 257, 1000, 1025, 3000]))),
            "dens": draw(st.sampled_from([0.1, 0.3, 0.6, 0.9])), "tdens": draw(st.sampled_from([0.1, 0.3, 0.6])),
            "len": draw(st.sampled_from(["full", "full", "short", "none"])),
            "tail": draw(st.booleans()), "overlap": draw(st.booleans()),
            "tf": draw(st.sampled_from(["csr", "csc", "coo"])), "rf": draw(st.sampled_from(["csr", "csc", "coo"])),
            "which": draw(st.sampled_from(["precision", "map", "ndcg", "auc"])),
            "dup": draw(st.integers(0, 3)) == 0, "unsorted": draw(st.booleans()), "vals": draw(st.booleans()),
            "threads": draw(st.sampled_from([0, 1, 3, 17]))}


def run_fake(c):
    rng = np.random.default_rng(c["seed"])
    nu, ni = c["nu"], c["ni"]
    test = rng.random((nu, ni)) < c["dens"]
    train = rng.random((nu, ni)) < c["tdens"]
    if not c["overlap"]:
        train &= ~test
    full = test.all(axis=1)
    test[full, 0] = False  # AUC needs a negative
    if not test.any():
        test[-1, 0] = True
    train_m, test_m = sp.csr_matrix(train.astype(np.float64)), sp.csr_matrix(test.astype(np.float64))
    if c["vals"]:  # metrics go by presence, not by value
        test_m.data = rng.choice([0.25, 1, 3, 5, -1, 0], test_m.nnz)
        train_m.data = rng.choice([0.25, 1, 3, 5, -1, 0], train_m.nnz)
    if c["unsorted"]:
        test_m, train_m = G.shuffle_indices(test_m, c["seed"]), G.shuffle_indices(train_m, c["seed"])
    if c["dup"]:
        test_m = G.duplicate_entries(test_m, c["seed"])
    lists = {}
    for u in range(nu):
        el = rng.permutation(np.flatnonzero(~train[u]))
        k = {"full": len(el), "short": rng.integers(0, len(el) + 1), "none": 0}[c["len"]]
        tail = rng.permutation(np.flatnonzero(train[u])) if c["tail"] and c["len"] == "full" else []
        lists[u] = (el[:k].tolist(), list(tail))
    ref, users = reference({u: v[0] for u, v in lists.items()}, test_m, c["K"])
    model = Fake(lists, train_m)
    got = all_metrics(model, train_m.asformat(c["rf"]), test_m.asformat(c["tf"]), c["K"], c["which"], c["threads"])
    compare(got, ref, "metrics@%d" % c["K"])
    if sorted(model.asked) != sorted(users * 2):
        O.fail("asked for %d users, %d have test items", len(model.asked) // 2, len(users))
    return 0 < ref["precision"] < 1, [c["len"], "tail" if c["tail"] else "pad",
                                      "batches" if len(users) > 1000 else "one batch"]


@st.composite
def huge_case(draw):
    return {"nu": draw(st.sampled_from([60, 300, 1000, 1001, 2500, 12000])), "ni": draw(st.sampled_from([5000, 33000, 70001, 120000, 1100000])),
            "seed": draw(G.seeds), "K": draw(st.sampled_from([1, 3, 10, 60])), "per": draw(st.sampled_from([1, 2, 6])),
            "hit": draw(st.sampled_from([0.2, 0.5, 0.9])), "gaps": draw(st.booleans()), "which": draw(st.sampled_from(["precision", "map", "ndcg", "auc"])),
            "threads": draw(st.sampled_from([0, 1, 3, 33]))}


def run_huge(c):
    """Many users and a large catalogue; lists with a mixture of test items and others"""
    rng = np.random.default_rng(c["seed"])
    nu, ni, K = c["nu"], c["ni"], c["K"]
    rows, cols = np.repeat(np.arange(nu), c["per"]), rng.integers(0, ni, nu * c["per"])
    if c["gaps"]:  # most users are not tested
        keep = rng.random(nu)[rows] < 0.3
        keep[-1] = True
        rows, cols = rows[keep], cols[keep]
    test = sp.csr_matrix((np.ones(len(rows)), (rows, cols)), shape=(nu, ni))
    test.sum_duplicates()
    train = sp.csr_matrix((np.ones(nu), (np.arange(nu), (np.arange(nu) * 7 + 3) % ni)), shape=(nu, ni))
    lists = {}
    for u in range(nu):
        mine = test.indices[test.indptr[u]:test.indptr[u + 1]]
        pool = np.unique(np.concatenate([mine[rng.random(len(mine)) < c["hit"]], rng.integers(0, ni, K)]))
        pool = pool[pool != train.indices[u]]
        lists[u] = (rng.permutation(pool).tolist(), [])
    ref, users = reference({u: v[0] for u, v in lists.items()}, test, K)
    model = Fake(lists, train)
    compare(all_metrics(model, train, test, K, c["which"], c["threads"]), ref, "metrics@%d of %d users and %d items" % (K, nu, ni))
    if sorted(model.asked) != sorted(users * 2):
        O.fail("asked for %d users, %d have test items", len(model.asked) // 2, len(users))
    return 0 < ref["precision"] < 1, ["users>1000" if nu > 1000 else "users<=1000", "items>65536" if ni > 65536 else "items<65536"]


@st.composite
def model_case(draw):
    return {"kind": draw(st.sampled_from(["als", "bpr", "lmf", "item", "cosine"])),
            "m": draw(G.matrix((2, 10), (2, 10), ("ones", "counts"), (20, 60), (10, 40), min_nnz=2)),
            "seed": draw(G.seeds), "K": draw(G.result_count(12)), "f": draw(st.integers(1, 4)),
            "overlap": draw(st.booleans()), "dtype": draw(G.dtypes),
            "which": draw(st.sampled_from(["precision", "map", "ndcg", "auc"]))}


def run_model(c):
    M = G.build_matrix(c["m"], np.float64)
    nu, ni = M.shape
    rng = np.random.default_rng(c["seed"])
    tr = M.toarray() > 0
    te = rng.random(tr.shape) < 0.4
    if not c["overlap"]:
        te &= ~tr
    te[te.all(axis=1), 0] = False
    if not te.any() or not tr.any():
        return False, ["empty"]
    train, test = sp.csr_matrix(tr.astype(np.float64)), sp.csr_matrix(te.astype(np.float64))
    if c["kind"] in ("als", "bpr", "lmf"):
        dt = np.dtype(c["dtype"])
        m = mf_model(c["kind"], rng.standard_normal((nu, c["f"])).astype(dt), rng.standard_normal((ni, c["f"])).astype(dt))
    else:
        m = knn_model(c["kind"], train, K=5)
    lists = {}
    ids, scores = m.recommend(np.arange(nu), train, N=c["K"])
    for u in range(nu):
        keep = (ids[u] >= 0) & (scores[u] > O.SENTINEL)
        lists[u] = ids[u][keep].tolist()
        if set(lists[u]) & set(train[u].indices.tolist()):
            O.fail("training item recommended")
    ref, _ = reference(lists, test, c["K"])
    compare(all_metrics(m, train, test, c["K"], c["which"], 0), ref, "%s metrics@%d" % (c["kind"], c["K"]))
    return 0 < ref["precision"] < 1, [c["kind"], "overlap" if c["overlap"] else "disjoint",
                                      "K>=items" if c["K"] >= ni else "K<items"]


TESTS = [
    T("lists", fake_case, run_fake, 6400, 100000),
    T("batches", lambda: fake_case(True), run_fake, 40, 400),
    T("wide", lambda: fake_case("wide"), run_fake, 160, 2400),
    T("huge", huge_case, run_huge, 24, 400),
    T("models", model_case, run_model, 2400, 48000),
]
