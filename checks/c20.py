"""C20: ANN-wrapped models return true scores, honour filters and match exact search."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.ann import quiet, reg, wrap
from vlib.engine import T
from vlib.models import mf_class


@st.composite
def call(draw, nu, ni, xl=False):
    op = draw(st.sampled_from(["recommend", "recommend", "similar"]))
    n = nu if op == "recommend" else ni
    many = draw(st.integers(0, 15)) == 0
    return {"op": op, "q": draw(st.lists(st.integers(0, n - 1), min_size=100 if many else 1,
                                         max_size=110 if many else 4)),
            "scalar": draw(st.booleans()), "N": draw(G.result_count(min(ni, 30) + 3)) if not xl else draw(st.sampled_from([1, 10, 100, 257, 1030, 2000])),
            "liked": draw(st.booleans()), "seed": draw(G.seeds),
            "ldens": draw(st.sampled_from([0.0, 0.1, 0.4, 0.9])),
            "flt": draw(st.one_of(st.none(), st.lists(st.integers(0, ni - 1), max_size=5)) if not xl else st.one_of(
                st.none(), st.builds(lambda s, n: np.random.default_rng(s).integers(0, ni, n).tolist(), G.seeds, st.integers(1, 2500)))),
            "ft": draw(G.id_types), "recalc": draw(st.integers(0, 3)) == 0}


@st.composite
def case(draw, big=False):
    nu, ni = draw(st.integers(1, 6)), draw(st.integers(60, 250) if big else st.integers(1, 25))
    xl = big == "xl"
    if xl:
        ni = draw(st.sampled_from([700, 1100, 2500]))
    lib = draw(st.sampled_from(["annoy", "faiss", "nmslib"]))
    return {"lib": lib, "exhaustive": draw(st.booleans()), "nu": nu, "ni": ni,
            "f": draw(st.sampled_from([8, 33, 65]) if xl else st.integers(1, 12 if big else 5)), "dtype": draw(G.dtypes),
            "uf": draw(G.factors(1, 1, ["gauss", "smallint", "zerorows", "positive", "negative"])),
            "if": draw(G.factors(1, 1, ["gauss", "smallint", "ties", "zerorows", "positive", "scaled"])),
            "scale": draw(st.sampled_from([(1, 1), (1, 1), (1e-2, 1e-2), (1e-3, 1), (1, 1e-3), (30, 1), (1e3, 1e2)])),
            "knob": draw(st.integers(1, 6)), "model": draw(st.sampled_from(["als", "als", "bpr", "lmf"])),
            "ar": draw(st.sampled_from([True, True, True, False])),
            "as": draw(st.sampled_from([True, True, True, False])),
            "refit": draw(st.booleans()), "calls": draw(st.lists(call(nu, ni, xl), min_size=1, max_size=4))}


def loose(ids, scores, ref, err, allowed, N, what):
    """what any approximate index must satisfy"""
    ids, scores = O.as_result((ids, scores), what)
    if len(ids) > N:
        O.fail("%s: %d results for N=%d", what, len(ids), N)
    pad = (ids == -1) | (scores <= O.SENTINEL)
    if pad.any() and not pad[int(np.argmax(pad)):].all():
        O.fail("%s: padding before results: %s", what, ids.tolist())
    ids, scores = ids[~pad], scores[~pad]
    if len(ids) and (ids.min() < 0 or ids.max() >= len(ref)):
        O.fail("%s: id out of range: %s", what, ids.tolist())
    if len(np.unique(ids)) != len(ids):
        O.fail("%s: duplicate ids %s", what, ids.tolist())
    if not allowed[ids].all():
        O.fail("%s: excluded id %d returned", what, ids[~allowed[ids]][0])
    if (np.diff(scores) > 1e-6 * (1 + np.abs(scores[:-1]))).any():
        O.fail("%s: scores not descending: %s", what, scores.tolist())
    bad = ~(np.abs(scores - ref[ids]) <= err[ids])
    if bad.any():
        k = int(np.argmax(bad))
        O.fail("%s: score of %d is %r, true value %r (+-%.3g)", what, ids[k], float(scores[k]), ref[ids[k]], err[ids[k]])
    return len(ids)


def strict(ids, scores, ref, err, allowed, N, scalar, what):
    loose(ids, scores, ref, err, allowed, N, what)
    want = min(N, int(allowed.sum()))
    keep = (ids != -1) & (scores > O.SENTINEL)
    if int(keep.sum()) != want:
        O.fail("%s: %d results although %d eligible items exist (N=%d)", what, int(keep.sum()), int(allowed.sum()), N)
    got = ids[keep]
    rest = allowed.copy()
    rest[got] = False
    if want and rest.any():
        lo = scores[keep].min()
        cand = np.where(rest, ref - 2 * err, -np.inf)
        j = int(np.argmax(cand))
        if cand[j] > lo:
            O.fail("%s: item %d (%r) is missing, last returned score %r", what, j, ref[j], float(lo))


def run(c):
    dt = np.dtype(c["dtype"])
    nu, ni, f = c["nu"], c["ni"], c["f"]
    extra = {"als": 0, "bpr": 1, "lmf": 2}[c["model"]]
    dt = np.dtype(np.float32) if c["model"] == "lmf" else dt
    m = mf_class(c["model"])(factors=max(1, f - extra), iterations=0, num_threads=1,
                             dtype=dt, random_state=1, regularization=reg(c))
    f = max(1, f - extra) + extra
    U = G.build_factors(c["uf"], nu, f, dt)
    I = G.build_factors(c["if"], ni, f, dt)
    if not I.any():
        I[0, 0] = 1
    # strongly regularized or hardly trained models have short vectors
    U, I = (U * c["scale"][0]).astype(dt), (I * c["scale"][1]).astype(dt)
    M = sp.csr_matrix(np.ones((nu, ni), np.float32))
    w = wrap(c, m)
    with quiet():
        if c["refit"]:  # an index of earlier factors must not survive
            m.user_factors, m.item_factors = U[::-1].copy(), (I[::-1] + 1).astype(dt)
            w.fit(M, show_progress=False)
        m.user_factors, m.item_factors = U.copy(), I.copy()
        w.fit(M, show_progress=False)
    if not (np.array_equal(m.user_factors, U) and np.array_equal(m.item_factors, I)):
        O.fail("building the index changed the model's factors")
    mx = float(np.linalg.norm(I.astype(np.float64), axis=1).max())
    norms = np.linalg.norm(I.astype(np.float64), axis=1)
    chosen = 0
    for k, s in enumerate(c["calls"]):
        rng = np.random.default_rng(s["seed"])
        scalar = s["scalar"]
        q = s["q"][:1] if scalar else s["q"]
        qq = q[0] if scalar else np.array(q)
        what = "%s call %d %s" % (c["lib"], k, s["op"])
        kw = {"N": s["N"]}
        if s["flt"] is not None:
            kw["filter_items"] = G.as_ids(s["flt"], s["ft"])
        allowed = np.ones((len(q), ni), bool)
        if s["flt"]:
            allowed[:, s["flt"]] = False
        # two solves agree only where the systems are well conditioned
        recalc = s["recalc"] and c["model"] == "als" and max(c["scale"]) <= 1
        if s["op"] == "recommend":
            approx = c["ar"]
            L = sp.csr_matrix((rng.random((len(q), ni)) < s["ldens"]) * rng.choice(
                np.array([1, 1, 3, -2], np.float32), (len(q), ni)))
            kw["filter_already_liked_items"] = s["liked"]
            kw["recalculate_user"] = recalc
            if s["liked"]:
                allowed &= L.toarray() == 0
            X = np.atleast_2d(m.recalculate_user(np.array(q), L)) if recalc else U[q]
            exact = m.recommend(qq, L, **kw)
            with quiet():
                got = G.ask(w.recommend, (qq, L), kw)
            ref, err = O.dots(X, I)
            err = err + 4e-6 * mx * np.linalg.norm(X.astype(np.float64), axis=1)[:, None] * (
                1 + 0.1 * I.shape[1]) + 1e-30
        else:
            approx = c["as"]
            if recalc:
                R = sp.csr_matrix((rng.random((len(q), nu)) < 0.5).astype(np.float32))
                kw.update(recalculate_item=True, item_users=R)
            X = np.atleast_2d(m.recalculate_item(np.array(q), R)) if recalc else I[q]
            exact = m.similar_items(qq, **kw)
            with quiet():
                got = G.ask(w.similar_items, (qq,), kw)
            ref, err = O.cosines(X, I)
            err = err + 4e-6 * (1 + 0.1 * I.shape[1])
            if c["lib"] == "nmslib":
                allowed[:, norms == 0] = False  # zero vectors are not indexed
        gi, gs = O.as_result(got, what)
        if not approx:
            tol = 1e-5 * (1e-30 + np.abs(ref).max())
            O.same_answer(got, exact, what + " (exact)", tol=tol)
        else:
            gi, gs = np.atleast_2d(gi), np.atleast_2d(gs).astype(np.float64)
            if gi.shape[0] != len(q):
                O.fail("%s: %d rows for %d queries", what, gi.shape[0], len(q))
            for r in range(len(q)):
                if c["exhaustive"]:
                    strict(gi[r], gs[r], ref[r], err[r], allowed[r], s["N"], scalar, what + " row %d" % r)
                else:
                    n = loose(gi[r], gs[r], ref[r], err[r], allowed[r], s["N"], what + " row %d" % r)
                    if c["lib"] == "annoy" and n < min(s["N"], int(allowed[r].sum())):
                        O.fail("%s row %d: %d results, %d eligible items, N=%d", what, r, n, int(allowed[r].sum()), s["N"])
                chosen += int(0 < s["N"] < allowed[r].sum())
        if not (np.array_equal(m.user_factors, U) and np.array_equal(m.item_factors, I)):
            O.fail("%s changed the wrapped model's factors", what)
    return chosen > 0, [c["lib"], "exhaustive" if c["exhaustive"] else "approximate", c["dtype"]] + sorted(
        {s["op"] for s in c["calls"]})


@st.composite
def augment_case(draw):
    return {"n": draw(st.integers(1, 40)), "f": draw(st.integers(1, 12)), "dtype": draw(G.dtypes), "times": 60,
            "seed": draw(G.seeds), "scale": draw(st.sampled_from([1e-3, 1e-2, 0.3, 1, 30, 1e3]))}


def run_augment(c):
    """the transformation behind the inner product indices: many matrices per case, as rounding errors are rare"""
    from implicit.utils import augment_inner_product_matrix
    rng = np.random.default_rng(c["seed"])
    for k in range(c["times"]):
        M = (rng.standard_normal((c["n"], c["f"])) * c["scale"]).astype(c["dtype"])
        copy = M.copy()
        mx, E = augment_inner_product_matrix(M)
        if not np.array_equal(M, copy):
            O.fail("matrix %d: the factors were changed", k)
        if E.shape != (c["n"], c["f"] + 1) or not np.array_equal(E[:, :-1], M):
            O.fail("matrix %d: the leading columns aren't the factors", k)
        want = np.linalg.norm(M.astype(np.float64), axis=1).max()
        got = np.linalg.norm(E.astype(np.float64), axis=1)
        if not (abs(float(mx) - want) <= 1e-5 * want and (np.abs(got - want) <= 1e-3 * want).all()):
            O.fail("matrix %d: row norms %s, largest norm %r (returned %r)", k, got.tolist(), want, float(mx))
    return c["n"] > 1, [c["dtype"]]


TESTS = [
    T("augment", augment_case, run_augment, 320, 6400),
    T("small", case, run, 3200, 64000),
    T("large", lambda: case(True), run, 480, 9600),
    T("xl", lambda: case("xl"), run, 64, 1200),
]
