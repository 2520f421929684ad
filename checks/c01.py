"""C01: MF recommend == exact top-N by dot product."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen as G
from vlib import giant
from vlib import oracle as O
from vlib.engine import T
from vlib.models import MF, mf_model


@st.composite
def case(draw, big=False):
    if big == "huge":  # past the ranges of 16 bit ids
        items = draw(st.sampled_from([32769, 33000, 65537, 66000, 100000, 140000]))
        users, f = draw(st.integers(1, 5)), draw(st.integers(1, 3))
        nq = draw(st.integers(1, 4))
        if draw(st.booleans()):
            items, users, nq = draw(st.integers(2, 5)), items, draw(st.sampled_from([1, 4, 101]))
    elif big == "xl":
        items = draw(st.sampled_from([257, 1025, 2048, 4097, 7000, 20000]))
        users, f = draw(st.integers(1, 40)), draw(st.sampled_from([16, 64, 100, 129, 200, 260]))
        nq = min(draw(st.sampled_from([1, 3, 120, 1000, 1001, 2050])), 4000000 // items)
    elif big:
        items, users, f = draw(st.integers(1, 400)), draw(st.integers(1, 12)), draw(st.integers(1, 40))
        nq = draw(st.sampled_from([1, 2, 7, 50, 99, 100, 101, 102, 150, 199, 200, 201, 250, 333]))
    else:
        items, users, f = draw(st.integers(1, 12)), draw(st.integers(1, 6)), draw(st.integers(1, 5))
        nq = draw(st.integers(1, 6))
    return {
        "model": draw(st.sampled_from(MF)), "items": items, "users": users, "f": f,
        "dtype": draw(G.dtypes), "uf": draw(G.factors(users, f)), "if": draw(G.factors(items, f)),
        "N": draw(st.one_of(st.integers(1, items), st.integers(1, items + 5),
                            st.sampled_from([1, 10, items, items + 1, 64, 100, 129, 200, 513, 1025]))),
        "query": {"n": nq, "seed": draw(G.seeds)} if big else
        draw(st.lists(st.integers(0, users - 1), min_size=nq, max_size=nq)),
        "scalar": draw(st.sampled_from([False, True, "np"])) if not big else False,
        "threads": draw(st.sampled_from([0, 1, 2, 4, 17])),
        "user_items": draw(st.sampled_from(["none", "empty"])),
        "layout": draw(st.sampled_from(["C", "C", "C", "F", "view"])),
        "idtype": draw(st.one_of(G.id_types, st.sampled_from(["u4", "i2"]))),
    }


def run(c):
    import scipy.sparse as sp

    dt = np.dtype(c["dtype"])
    uf = G.build_factors(c["uf"], c["users"], c["f"], dt)
    itf = G.build_factors(c["if"], c["items"], c["f"], dt)
    m = mf_model(c["model"], uf, itf, num_threads=c["threads"], layout=c["layout"])
    q = c["query"]
    if isinstance(q, dict):
        q = np.random.default_rng(q["seed"]).integers(0, c["users"], q["n"]).tolist()
    N = c["N"]
    if c["scalar"]:
        uid, rows = np.int64(q[0]) if c["scalar"] == "np" else q[0], [q[0]]
    else:
        uid, rows = G.as_ids(q, c["idtype"] if c["users"] < 2**15 or c["idtype"] != "i2" else "i8"), q
    ui = None if c["user_items"] == "none" else sp.csr_matrix((len(rows), c["items"]), dtype=np.float32)
    ids, scores = O.as_result(G.ask(m.recommend, (uid, ui), {"N": N, "filter_already_liked_items": ui is not None}),
                              "recommend")
    if c["scalar"]:
        ids, scores = ids[None], scores[None]
    if ids.ndim != 2 or ids.shape[0] != len(rows):
        O.fail("recommend for %d users returned shape %s", len(rows), ids.shape)
    ref, err = O.dots(uf[rows], itf)
    for r in range(len(rows)):
        O.check_topn(ids[r], scores[r], ref[r], err[r], N, what="recommend row %d" % r,
                     exact_len=True)
    labels = [c["model"], c["dtype"], "N>items" if N > c["items"] else "N<=items",
              "batches>1" if len(rows) > 100 else "one batch", c["if"]["kind"]]
    return N < c["items"] and c["items"] > 1, labels


TESTS = [T("small", lambda: case(), run, 8000, 160000), T("large", lambda: case(big=True), run, 1600, 24000),
         T("xl", lambda: case(big="xl"), run, 120, 2400),
         T("huge", lambda: case(big="huge"), run, 120, 1600),
         T("giant", lambda: giant.case(("recommend",), ("plain",)), giant.run, 64, 960),
         T("colossal", giant.colossal, giant.run_colossal, 0, 1)]
