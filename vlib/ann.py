"""Approximate-index wrappers around models with given factors (shared by the checks)."""
import contextlib
import os

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib.models import mf_class

LIBS = ["annoy", "faiss", "nmslib"]


@contextlib.contextmanager
def quiet():
    """faiss and nmslib write to the process' stderr"""
    null, old = os.open(os.devnull, os.O_WRONLY), os.dup(2)
    os.dup2(null, 2)
    try:
        yield
    finally:
        os.dup2(old, 2)
        os.close(null)
        os.close(old)


def wrap(c, m):
    kw = {"approximate_similar_items": c["as"], "approximate_recommend": c["ar"]}
    k = c["knob"]
    if c["lib"] == "annoy":
        from implicit.ann.annoy import AnnoyModel
        return AnnoyModel(m, n_trees=k, search_k=10**7 if c["exhaustive"] else -1, **kw)
    if c["lib"] == "faiss":
        from implicit.ann.faiss import FaissModel
        nlist = min(k, c["ni"])
        return FaissModel(m, nlist=nlist, nprobe=nlist if c["exhaustive"] else 1, use_gpu=False, **kw)
    from implicit.ann.nmslib import NMSLibModel
    if c["exhaustive"]:
        kw.update(method="brute_force", index_params={}, query_params={})
    return NMSLibModel(m, **kw)


@st.composite
def exhaustive(draw):
    """A wrapped model with an exhaustive index"""
    return {"lib": draw(st.sampled_from(LIBS)), "exhaustive": True, "nu": draw(st.integers(1, 6)),
            "ni": draw(st.integers(1, 30)), "f": draw(st.integers(1, 5)), "dtype": draw(G.dtypes),
            "uf": draw(G.factors(1, 1, ["gauss", "positive", "negative"])),
            "if": draw(G.factors(1, 1, ["gauss", "positive", "scaled"])),
            "knob": draw(st.integers(1, 4)), "ar": draw(st.sampled_from([True, True, True, False])),
            "as": draw(st.sampled_from([True, True, True, False]))}


def blank(c):
    """An untrained, small inner model for an `exhaustive` description"""
    return mf_class("als")(factors=c["f"], iterations=1, num_threads=1, dtype=np.dtype(c["dtype"]), random_state=1,
                           regularization=1.0, use_cg=False)


def reg(c):
    """A regularization that survives rounding when the rows are scaled by up to 1000"""
    return 200.0 if "scaled" in (c["uf"]["kind"], c["if"]["kind"]) else 0.5


def build(c):
    """(wrapped model, inner model) for an `exhaustive` description"""
    dt = np.dtype(c["dtype"])
    m = mf_class("als")(factors=c["f"], iterations=0, num_threads=1, dtype=dt, random_state=1, regularization=reg(c))
    m.user_factors = G.build_factors(c["uf"], c["nu"], c["f"], dt)
    m.item_factors = G.build_factors(c["if"], c["ni"], c["f"], dt)
    w = wrap(c, m)
    with quiet():
        w.fit(sp.csr_matrix(np.ones((c["nu"], c["ni"]), np.float32)), show_progress=False)
    return w, m
