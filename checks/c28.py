"""C28: native code stays inside its buffers.

Every case runs in a forked child of a process whose implicit extension modules are compiled with
AddressSanitizer: a report ends the child, which the parent sees, reports and shrinks. The cases are
the generators of the other checks (which drive every native kernel through the public API) and
calls with shapes, ids and counts that do not fit the model."""
import importlib
import os
import re
import select
import signal
import sys
import tempfile
import time
import traceback

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import Skip, T, Violation, run_case
from vlib.models import KNN, MF, knn_model, mf_class

TIMEOUT = 150


def forked(fn):
    """Runs fn(case) in a child; only the child's death by a signal/sanitizer report is a violation,
    unless `judge` is set."""
    def run(case):
        _preload()
        r, w = os.pipe()
        err = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                os.close(r)
                os.dup2(err.fileno(), 2)
                os.dup2(err.fileno(), 1)
                signal.alarm(0)
                code, msg = fn(case)
                os.write(w, msg.encode()[:4000])
            except BaseException:  # noqa
                code = 9
                os.write(w, traceback.format_exc().encode()[-4000:])
            finally:
                os._exit(code)
        os.close(w)
        msg, deadline = b"", time.time() + TIMEOUT
        try:
            while True:
                ready, _, _ = select.select([r], [], [], max(0.0, deadline - time.time()))
                if not ready:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    raise Skip()
                d = os.read(r, 65536)
                if not d:
                    break
                msg += d
        finally:
            os.close(r)
        _, status = os.waitpid(pid, 0)
        err.seek(0)
        log = err.read().decode(errors="replace")
        err.close()
        if os.WIFSIGNALED(status) or "AddressSanitizer" in log:
            m = re.search(r"ERROR: AddressSanitizer:.*?(?=\n\n|\Z)", log, re.S)
            O.fail("the process died (status %d): %s", status, (m.group(0) if m else log)[:1500])
        code = os.WEXITSTATUS(status)
        msg = msg.decode(errors="replace")
        if code == 3:
            raise Skip()
        if code == 1:
            O.fail("%s", msg)
        if code != 0:
            raise RuntimeError("child ended with %d: %s" % (code, msg))
        nontrivial, labels = eval(msg)  # noqa: our own repr
        return nontrivial, labels
    return run


_loaded = []


def _preload():
    if not _loaded:
        import implicit.als, implicit.bpr, implicit.lmf, implicit.nearest_neighbours, implicit.evaluation  # noqa
        import implicit.cpu.topk  # noqa
        _loaded.append(1)


def reuse(cid, name):
    mod = importlib.import_module("checks." + cid)
    test = {t.name: t for t in mod.TESTS}[name]

    def child(case):
        try:
            nontrivial, labels = run_case(test, case)
        except Violation:
            return 0, repr((False, ["other property"]))
        except Skip:
            return 3, ""
        return 0, repr((bool(nontrivial), []))

    return test.strategy, forked(child)


# ---------------------------------------------------------------- what does not fit
SHAPES = st.integers(1, 9)


@st.composite
def mismatch(draw):
    kind = draw(st.sampled_from(MF + KNN + ["als", "als"]))
    U, I = draw(SHAPES), draw(SHAPES)
    ops = ["recommend", "recommend", "recommend", "similar_items"]
    if kind in MF:
        ops += ["similar_users", "refit"]
    if kind == "als":
        ops += ["recalculate_user", "recalculate_item", "partial_fit_users", "partial_fit_items", "explain"]
    calls = st.fixed_dictionaries({
        "op": st.sampled_from(ops), "nq": st.integers(1, 4), "drow": st.sampled_from([0, 0, 0, 1, -1, 40]),
        "dcol": st.sampled_from([0, 0, 1, -1, 2, 500, -4]), "did": st.sampled_from([0, 0, 0, 1, 1000, -1, -1000]),
        "N": st.sampled_from([1, 3, 10, 200, 0, -1]), "liked": st.booleans(), "recalc": st.booleans(),
        "scalar": st.booleans(), "density": st.sampled_from([0.0, 0.5, 1.0])})
    return {"kind": kind, "U": U, "I": I, "F": draw(st.integers(1, 5)), "K": draw(st.integers(0, 12)), "seed": draw(G.seeds),
            "threads": draw(st.sampled_from([0, 1, 3])), "native": draw(st.booleans()), "cg": draw(st.booleans()),
            "spare": draw(st.sampled_from([0, 0, 0, 7, 500])), "loss": draw(st.booleans()), "calls": draw(st.lists(calls, min_size=1, max_size=10))}


CHANGES = ("refit", "partial_fit_users", "partial_fit_items")


def child_mismatch(c):
    rng = np.random.default_rng(c["seed"])
    kind, U, I = c["kind"], c["U"], c["I"]
    ui = sp.csr_matrix((rng.random((U, I)) < 0.6) * rng.integers(1, 4, (U, I))).astype(np.float32)
    if kind in MF:
        kw = {"use_native": c["native"], "use_cg": c["cg"], "calculate_training_loss": c["loss"]} if kind == "als" else {}
        m = mf_class(kind)(factors=c["F"], iterations=1, num_threads=c["threads"], random_state=1, regularization=0.5, **kw)
        if c.get("spare"):  # capacity that isn't in use
            ui.data = np.append(ui.data, np.full(c["spare"], 3, np.float32))
            ui.indices = np.append(ui.indices, np.full(c["spare"], 2**30, np.int32))
        m.fit(ui, show_progress=False)
    else:
        m = knn_model(kind, ui.astype(np.float64), K=c["K"], num_threads=c["threads"])
    labels = set()
    for k, call in enumerate(sorted(c["calls"], key=lambda d: d["op"] in CHANGES)):
        code, msg = one_call(m, dict(call, kind=kind, U=U, I=I), np.random.default_rng((c["seed"], k)))
        if code == 1:
            return code, msg
        if code == 0:
            labels.update(msg)
        if call["op"] in CHANGES:  # the model may have grown
            break
    return (0, repr((True, sorted(labels)))) if labels else (3, "")


def one_call(m, c, rng):
    kind, U, I, op = c["kind"], c["U"], c["I"], c["op"]
    dt = np.float32 if kind in MF else np.float64
    nq = 1 if c["scalar"] else c["nq"]
    items_first = op in ("recalculate_item", "partial_fit_items")
    dim = U if items_first else I
    rows, cols = max(0, nq + c["drow"]), max(1, dim + c["dcol"])
    mat = sp.csr_matrix((rng.random((rows, cols)) < c["density"]) * rng.integers(1, 4, (rows, cols))).astype(dt)
    beyond = bool((mat.indices >= dim).any())
    n = I if op in ("similar_items",) or items_first else U
    ids = rng.integers(0, n, nq)
    if c["did"] > 0:
        ids[-1] = n - 1 + c["did"]
    elif c["did"] < 0:
        ids[0] = c["did"]
    bad_id = bool((ids >= n).any() or (ids < -n).any())
    arg = int(ids[0]) if c["scalar"] else ids
    must = None
    uses = False
    if op == "recommend":
        kw = {}
        if kind == "als" and c["recalc"]:
            kw["recalculate_user"] = True
            uses = True
        uses = uses or c["liked"] or kind in KNN
        call = lambda: m.recommend(arg, mat, N=c["N"], filter_already_liked_items=c["liked"], **kw)  # noqa
        if uses and beyond and rows == nq:
            must = "itemids that are not in the model"
        elif uses and rows != nq and not (kind in KNN and c["scalar"] and rows > nq):
            must = "%d rows for %d users" % (rows, nq)
        elif bad_id and kind in MF and not kw:
            must = "userid %s outside of the model" % ids
    elif op == "similar_items":
        call = lambda: m.similar_items(arg, N=c["N"])  # noqa
        if bad_id and kind in MF:
            must = "itemid %s outside of the model" % ids
    elif op == "similar_users":
        call = lambda: m.similar_users(arg, N=c["N"])  # noqa
        if bad_id:
            must = "userid %s outside of the model" % ids
    elif op == "refit":
        other = sp.csr_matrix(np.ones((max(1, U + c["drow"]), cols), dtype=np.float32))
        call = lambda: m.fit(other, show_progress=False)  # noqa
        if other.shape != (U, I):
            must = "refit with shape %s" % (other.shape,)
    elif op == "explain":
        one = sp.csr_matrix((rng.random((U, cols)) < 0.7) * 1.0).astype(np.float32)
        call = lambda: m.explain(int(ids[0]), one, int(rng.integers(0, I)))  # noqa
        if 0 <= ids[0] < U and (one[ids[0]].indices >= I).any():
            must = "explain with itemids outside of the model"
    else:
        fn = getattr(m, op)
        if op.startswith("partial") and ids.max(initial=0) > 10000:
            return 3, ""
        call = lambda: fn(arg, mat) if op.startswith("recalc") else fn(ids, mat)  # noqa
        if beyond:
            must = "ids that are not in the model"
        elif rows != nq:
            must = "%d rows for %d ids" % (rows, nq)
    try:
        call()
        raised = False
    except Exception:  # noqa: any exception is a rejection
        raised = True
    if must and not raised:
        return 1, "%s.%s accepted %s (users=%d, items=%d)" % (kind, op, must, U, I)
    return 0, [op] + (["rejected"] if raised else [])


@st.composite
def metrics(draw):
    return {"U": draw(SHAPES), "I": draw(SHAPES), "dtr": draw(st.sampled_from([0, 0, 1, -1, 3])), "dtc": draw(st.sampled_from([0, 0, 1, -2, 40])),
            "der": draw(st.sampled_from([0, 0, 1, -1, 3])), "dec": draw(st.sampled_from([0, 0, 1, -2, 40])), "seed": draw(G.seeds),
            "K": draw(st.sampled_from([1, 2, 3, 5, 10, 30, 100, 0])), "threads": draw(st.sampled_from([0, 1, 3])), "kind": draw(st.sampled_from(MF + KNN)),
            "what": draw(st.sampled_from(["ranking_metrics_at_k", "precision_at_k", "mean_average_precision_at_k", "ndcg_at_k", "AUC_at_k"]))}


def child_metrics(c):
    import implicit.evaluation as ev
    rng = np.random.default_rng(c["seed"])
    U, I = c["U"], c["I"]

    def mat(r, k, d):
        return sp.csr_matrix((rng.random((max(1, r), max(1, k))) < d) * 1.0).astype(np.float32)

    ui = mat(U, I, 0.6)
    if c["kind"] in MF:
        m = mf_class(c["kind"])(factors=2, iterations=1, num_threads=c["threads"], random_state=1, regularization=0.5)
        m.fit(ui, show_progress=False)
    else:
        m = knn_model(c["kind"], ui.astype(np.float64), K=5, num_threads=c["threads"])
    dt = np.float32 if c["kind"] in MF else np.float64
    train, test = mat(U + c["dtr"], I + c["dtc"], 0.4).astype(dt), mat(U + c["der"], I + c["dec"], 0.3).astype(dt)
    try:
        getattr(ev, c["what"])(m, train, test, K=c["K"], show_progress=False, num_threads=c["threads"])
        raised = False
    except Exception:  # noqa
        raised = True
    return 0, repr((any(c[k] for k in ("dtr", "dtc", "der", "dec")), [c["what"]] + (["rejected"] if raised else [])))


# ---------------------------------------------------------------- one dimension at a time goes far
@st.composite
def extreme(draw):
    kind = draw(st.sampled_from(MF + MF + KNN))
    axis = draw(st.sampled_from(["factors", "users", "items", "threads", "row", "column", "N", "batch", "iterations"] if kind in MF else
                                ["users", "items", "threads", "row", "column", "N", "batch", "K", "K"]))
    return {"kind": kind, "axis": axis, "size": draw(st.sampled_from([100, 260, 700, 1100, 2100, 5000])), "U": draw(st.integers(1, 6)), "I": draw(st.integers(1, 6)),
            "F": draw(st.integers(1, 5)), "K": draw(st.integers(1, 6)), "seed": draw(G.seeds), "threads": draw(st.sampled_from([0, 1, 3])), "cg": draw(st.booleans()),
            "native": draw(st.sampled_from([True, True, False])), "loss": draw(st.booleans()), "dtype": draw(G.dtypes), "neg": draw(st.sampled_from([1, 30]))}


def child_extreme(c):
    import implicit.evaluation as ev
    rng = np.random.default_rng(c["seed"])
    kind, n, U, I, F, K, threads, N, it, q = c["kind"], c["size"], c["U"], c["I"], c["F"], c["K"], c["threads"], 5, 1, 3
    a = c["axis"]
    if a == "factors":
        F = n if kind != "als" else min(n, 1100)
    elif a in ("users", "column"):
        U = n * 4 if a == "users" else n
    elif a in ("items", "row"):
        I = n * 4 if a == "items" else n
    elif a == "threads":
        threads, U, I = min(n, 130), 40, 40
    elif a == "iterations":
        it = min(n, 700)
    N = n * 3 if a == "N" else N
    q = n if a == "batch" else q
    if a == "K":
        I, K = min(n, 1100), n
        if c["seed"] % 2:  # items * K needs more than 32 bits
            I, K = 65536 + c["size"] % 100, 65536
            sparse = sp.csr_matrix((np.ones(3 * U), (np.repeat(np.arange(U), 3), rng.integers(0, I, 3 * U))), shape=(U, I))
            m = knn_model(kind, sparse, K=K, num_threads=threads)
            m.similar_items(rng.integers(0, I, q), N=N)
            m.recommend(np.zeros(U, int), sparse, N=N)
            return 0, repr((True, [kind, "extreme KK"]))
    ui = sp.csr_matrix(sp.random(U, I, {"row": 0.9, "column": 0.9, "users": 0.3, "items": 0.3}.get(a, 0.6), random_state=c["seed"] % 2**31)).astype(np.float32)
    ui.data[:] = rng.integers(1, 4, ui.nnz)
    if kind in MF:
        kw = {"als": {"use_native": c["native"] or F > 300 or U + I > 300, "use_cg": c["cg"], "calculate_training_loss": c["loss"], "dtype": np.dtype(c["dtype"])},
              "bpr": {"dtype": np.dtype(c["dtype"])}, "lmf": {"neg_prop": c["neg"], "learning_rate": 0.1}}[kind]
        m = mf_class(kind)(factors=F, iterations=it, num_threads=threads, random_state=1, regularization=0.5, **kw)
        try:
            m.fit(ui, show_progress=False)
        except Exception as e:  # noqa
            if type(e).__name__ not in ("ModelFitError", "ValueError"):
                raise
            return 3, ""
    else:
        ui = ui.astype(np.float64)
        m = knn_model(kind, ui, K=K, num_threads=threads)
    users, items = rng.integers(0, U, q), rng.integers(0, I, q)
    m.recommend(users, ui[users], N=N)
    m.recommend(users, ui[users], N=N, filter_items=items, filter_already_liked_items=False)
    m.similar_items(items, N=N)
    m.recommend(int(users[0]), ui[users[0]], N=N, items=np.unique(items))
    if kind in MF:
        m.similar_users(users, N=N)
    if kind == "als":
        m.recalculate_user(users, ui[users])
        iu = ui.T.tocsr()[items]
        m.recalculate_item(items, iu)
        m.explain(int(users[0]), ui, int(items[0]), N=N)
        m.partial_fit_users(np.unique(users), ui[np.unique(users)])
        m.partial_fit_items(np.unique(items) + n, ui.T.tocsr()[np.unique(items)])
    else:
        test = ui.copy()
        test.data[:] = (rng.random(test.nnz) < 0.3) & (test.indices > 0)  # (AUC needs an item without interaction)
        test.eliminate_zeros()
        if test.nnz:
            ev.ranking_metrics_at_k(m, ui, test, K=N, show_progress=False, num_threads=threads)
    return 0, repr((True, [kind, "extreme " + a]))


REUSED = [("c02", "mf_small"), ("c02", "knn_small"), ("c02", "knn_large"), ("c03", "mf_small"), ("c04", "mf_large"), ("c04", "knn_large"), ("c05", "small"),
          ("c06", "small"), ("c06", "large"), ("c08", "small"), ("c08", "large"), ("c09", "fit"), ("c10", None), ("c11", "small"), ("c12", "small"),
          ("c13", None), ("c14", "small"), ("c14", "large"), ("c15", "small"), ("c15", "large"), ("c17", None), ("c18", "split"), ("c19", "lists"),
          ("c19", "models"), ("c22", None), ("c23", "small"), ("c23", "invariant"), ("c24", "positive"), ("c24", "sampled"), ("c26", "compose"), ("c01", None), ("c25", "invalid")]

TESTS = [T("mismatch", mismatch, forked(child_mismatch), 900, 30000, weight=8), T("metrics", metrics, forked(child_metrics), 600, 20000, weight=4),
         T("extreme", extreme, forked(child_extreme), 120, 4000, weight=4)]
for _cid, _name in REUSED:
    _mod = importlib.import_module("checks." + _cid)
    for _t in _mod.TESTS:
        if _name in (None, _t.name) and _t.quick:
            _s, _r = reuse(_cid, _t.name)
            TESTS.append(T("%s_%s" % (_cid, _t.name), _s, _r, 80 if "large" in _t.name else 160, 4000))
