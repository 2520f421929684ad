"""C29: concurrent queries of one model answer as if made one at a time.

"sched": the threads' Python lines inside implicit are interleaved by a scheduler that follows a
generated schedule (passing a baton at every line; a thread that blocks loses it after a while).
"free": long native sections run truly in parallel, many times. The reference answers come from an
identical model queried by one thread."""
import os
import sys
import threading
import time

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T
from vlib.models import KNN, MF, knn_class, knn_model, mf_class, mf_model

PKG = os.environ.get("VERIF_PKG", "\0")
HANG = 100


class Scheduler:
    """Passes a baton between threads. Which thread runs after each line comes from a generated
    schedule: either priorities that change at a few given steps (the thread running there gets the
    lowest one, as in PCT), or a random choice with probability p at every line."""

    def __init__(self, n, c):
        self.p, self.points = c.get("p"), set(c.get("points", ()))
        self.rng = np.random.default_rng(c.get("sched", 0))
        self.cond = threading.Condition()
        self.order = [x for x in c.get("order", []) if x < n]
        self.order += [x for x in range(n) if x not in self.order]  # highest priority first
        self.alive, self.switches, self.steps = set(range(n)), 0, 0
        self.current = self.order[0]

    def step(self, tid):
        with self.cond:
            self.steps += 1
            if self.p is None:
                if self.steps in self.points:
                    self.order.remove(tid)
                    self.order.append(tid)
                nxt = next((x for x in self.order if x in self.alive), tid)
            elif self.rng.random() < self.p and self.alive:
                nxt = sorted(self.alive)[int(self.rng.integers(0, len(self.alive)))]
            else:
                nxt = self.current
            if nxt != self.current:
                self.current = nxt
                self.switches += 1
                self.cond.notify_all()
            self.wait(tid)

    def wait(self, tid):
        end = time.monotonic() + 0.01
        while self.current != tid:
            left = end - time.monotonic()
            if left <= 0:
                self.current = tid  # whoever has the baton is blocked or in native code
                break
            self.cond.wait(left)

    def done(self, tid):
        with self.cond:
            self.alive.discard(tid)
            if self.alive and self.current == tid:
                self.current = next(x for x in self.order if x in self.alive)
            self.cond.notify_all()

    def tracer(self, tid):
        def local(frame, event, arg):
            if event in ("line", "return"):
                self.step(tid)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(PKG) else None

        return glob


@st.composite
def query(draw, kind, U, I, small):
    op = draw(st.sampled_from(["recommend", "recommend", "similar_items"] + (["similar_users"] if kind in MF else [])
                              + (["explain"] if kind == "als" else [])))
    n = U if op == "similar_users" else I
    q = {"op": op, "q": draw(st.integers(0, (U if op != "similar_items" else I) - 1)), "N": draw(st.sampled_from([1, 3, 10])),
         "batch": draw(st.booleans())}
    f = draw(st.sampled_from([None, None, None, "filter", "items"]))
    if op != "explain" and f and n > 1 and not (kind in KNN and f == "items"):
        q[f] = sorted(set(draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))))
    if op == "recommend":
        q["liked"] = draw(st.booleans())
    if kind == "als" and op in ("recommend", "similar_items") and draw(st.integers(0, 2)) == 0:
        q["recalc"] = True
    if op != "explain" and draw(st.integers(0, 9)) == 0:
        q["bad"] = True
    return q


@st.composite
def case(draw, free):
    kind = draw(st.sampled_from(MF + KNN if not free else ["als", "bpr"] + KNN + KNN))
    U = draw(st.integers(2, 8)) if not free else draw(st.integers(20, 60))
    I = draw(st.integers(2, 9)) if not free else draw(st.sampled_from([150, 600, 1500]))
    threads = draw(st.integers(2, 4)) if not free else draw(st.integers(3, 8))
    per = draw(st.integers(1, 3)) if not free else 4
    c = {"kind": kind, "U": U, "I": I, "F": draw(st.integers(1, 4)) if not free else 16, "K": draw(st.integers(1, 6)) if not free else 40,
         "seed": draw(G.seeds), "qs": [[draw(query(kind, U, I, not free)) for _ in range(per)] for _ in range(threads)],
         "density": draw(st.sampled_from([0.3, 0.7])), "warm": draw(st.booleans()), "threads": draw(st.sampled_from([0, 1, 2]))}
    if free:
        c["rounds"] = 12
    else:
        if draw(st.integers(0, 3)) == 0:
            c["sched"] = draw(G.seeds)
            c["p"] = draw(st.sampled_from([0.05, 0.2, 0.6]))
        else:
            # (a query takes some 10 to 20 lines)
            c["points"] = sorted(draw(st.lists(st.integers(1, draw(st.sampled_from([20, 20, 30 * threads * per]))), min_size=1, max_size=4)))
            if draw(st.booleans()):  # everyone asks the same of a fresh model
                c["qs"], c["warm"] = [c["qs"][0][:1]] * threads, False
            c["order"] = draw(st.permutations(range(threads)))
    return c


def make(c):
    rng = np.random.default_rng(c["seed"])
    ui = sp.csr_matrix((rng.random((c["U"], c["I"])) < c["density"]) * rng.integers(1, 5, (c["U"], c["I"])).astype(np.float64))
    if c["kind"] in KNN:
        m = knn_model(c["kind"], ui, K=c["K"], num_threads=c["threads"])
        return m, ui
    f = c["F"] + {"als": 0, "bpr": 1, "lmf": 2}[c["kind"]]
    uf, itf = (rng.standard_normal((n, f)).astype(np.float32) for n in (c["U"], c["I"]))
    uf[rng.random(c["U"]) < 0.3] = 0
    itf[rng.random(c["I"]) < 0.3] = 0
    return mf_model(c["kind"], uf, itf, num_threads=c["threads"]), ui.astype(np.float32)


def ask(m, ui, q, c):
    n = ui.shape[0] if q["op"] != "similar_items" else ui.shape[1]
    ids = [q["q"], (q["q"] + 1) % n, q["q"]] if q["batch"] else q["q"]
    kw = {}
    if "filter" in q:
        kw["filter_users" if q["op"] == "similar_users" else "filter_items"] = q["filter"]
    if "items" in q:
        kw["users" if q["op"] == "similar_users" else "items"] = q["items"]
    if q.get("bad"):  # raises in every model
        kw["filter_users" if q["op"] == "similar_users" else "filter_items"] = None
        kw["users" if q["op"] == "similar_users" else "items"] = [0, n + 10**6]
    try:
        if q["op"] == "explain":
            total, top, _ = m.explain(q["q"], ui, int(q["q"]) % ui.shape[1], N=q["N"])
            return [np.array([i for i, _ in top]), np.array([s for _, s in top]), float(total)]
        if q["op"] == "recommend":
            if q.get("recalc"):
                kw["recalculate_user"] = True
            res = m.recommend(ids, ui[ids], N=q["N"], filter_already_liked_items=q["liked"], **kw)
        else:
            if q.get("recalc"):
                kw["recalculate_item"], kw["item_users"] = True, ui.T.tocsr()[ids]
            res = getattr(m, q["op"])(ids, N=q["N"], **kw)
    except Exception as e:  # noqa
        return type(e).__name__
    return [np.array(x, copy=True) for x in res]


def compare(what, got, want):
    if isinstance(got, str) or isinstance(want, str):
        if not (isinstance(got, str) and isinstance(want, str)):
            O.fail("%s: %s concurrently, %s alone", what, got if isinstance(got, str) else "answered", want if isinstance(want, str) else "answered")
        return
    gi, gs = got[:2]
    wi, ws = want[:2]
    for g, w in zip(got[2:], want[2:]):
        if not np.isclose(g, w, rtol=1e-4, atol=1e-4):
            O.fail("%s: total %s concurrently, %s alone", what, g, w)
    if gi.shape != wi.shape or gs.shape != ws.shape:
        O.fail("%s: shapes %s concurrently, %s alone", what, gi.shape, wi.shape)
    tol = 1e-4 * np.maximum(1, np.abs(np.where(np.abs(ws) < 1e30, ws, 0)))
    if not (np.abs(np.clip(gs, -1e30, 1e30) - np.clip(ws, -1e30, 1e30)) <= tol).all():
        O.fail("%s: scores %s concurrently, %s alone", what, gs.tolist(), ws.tolist())
    for r in np.argwhere(gi != wi):
        r = tuple(r)
        row, srow = (wi, ws) if wi.ndim == 1 else (wi[r[0]], ws[r[0]])
        s = ws[r]
        near = np.abs(np.delete(srow, r[-1]) - s) <= 2e-4 * max(1, abs(s))
        if not (near.any() or r[-1] == wi.shape[-1] - 1 or abs(s) > 1e30):
            O.fail("%s: ids %s concurrently, %s alone", what, gi.tolist(), wi.tolist())


def run_threads(c, bodies):
    """Runs the thread bodies; -> error text or None."""
    errors = []

    def wrap(body):
        def go():
            try:
                body()
            except BaseException as e:  # noqa
                errors.append("%s: %s" % (type(e).__name__, e))
        return go

    ts = [threading.Thread(target=wrap(b), daemon=True) for b in bodies]
    for t in ts:
        t.start()
    end = time.monotonic() + HANG
    for t in ts:
        t.join(max(0.0, end - time.monotonic()))
        if t.is_alive():
            O.fail("%s: concurrent queries never finish", c["kind"])
    return errors[0] if errors else None


def run(c):
    ref, ui = make(c)
    want = [[ask(ref, ui, q, c) for q in qs] for qs in c["qs"]]
    m, _ = make(c)
    if c["warm"]:
        for q in c["qs"][0]:
            ask(m, ui, q, c)
    n = len(c["qs"])
    rounds = c.get("rounds", 1)
    got = [[] for _ in range(n)]
    barrier = threading.Barrier(n)
    sched = Scheduler(n, c) if "rounds" not in c else None

    def body(tid):
        def go():
            barrier.wait()
            if sched:
                sys.settrace(sched.tracer(tid))
            try:
                for _ in range(rounds):
                    got[tid].append([ask(m, ui, q, c) for q in c["qs"][tid]])
            finally:
                if sched:
                    sys.settrace(None)
                    sched.done(tid)
        return go

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5 if not sched else old)
    try:
        err = run_threads(c, [body(i) for i in range(n)])
    finally:
        sys.setswitchinterval(old)
    if err:
        O.fail("%s: a querying thread failed: %s", c["kind"], err)
    for t in range(n):
        for r, res in enumerate(got[t]):
            for q, g, w in zip(c["qs"][t], res, want[t]):
                compare("%s thread %d round %d %s" % (c["kind"], t, r, q), g, w)
    for t in range(n):
        for q, w in zip(c["qs"][t], want[t]):
            compare("%s afterwards %s" % (c["kind"], q), ask(m, ui, q, c), w)
    return (sched.switches > 0 if sched else True), [c["kind"]]


# ---------------------------------------------------------------- every single preemption of a first query
@st.composite
def preempt(draw):
    kind = draw(st.sampled_from(["als", "als", "als", "als", "als", "bpr", "lmf"] + KNN[:1]))
    U, I = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    a = draw(query(kind, U, I, True))
    a.pop("bad", None)
    b = a if draw(st.booleans()) else draw(query(kind, U, I, True))
    return {"kind": kind, "U": U, "I": I, "F": draw(st.integers(1, 4)), "K": 3, "seed": draw(G.seeds), "qs": [[a], [b]],
            "density": 0.7, "warm": False, "threads": 1, "order": [0, 1]}


def run_preempt(c):
    """One thread's query is stopped at each of its lines in turn, while another thread makes one."""
    ref, ui = make(c)
    count = Scheduler(1, {"points": []})
    sys.settrace(count.tracer(0))
    try:
        ask(ref, ui, c["qs"][0][0], c)
    finally:
        sys.settrace(None)
    for k in range(1, min(count.steps, 120) + 1):
        run(dict(c, points=[k]))
    return count.steps > 3, ["preempt-%s-%s" % (c["kind"], c["qs"][0][0]["op"])]


# ---------------------------------------------------------------- separate models trained side by side
@st.composite
def fits(draw):
    n = draw(st.integers(2, 4))
    return {"models": [{"kind": draw(st.sampled_from(MF + KNN)), "seed": draw(G.seeds), "F": draw(st.integers(1, 6)),
                        "U": draw(st.integers(2, 30)), "I": draw(st.integers(2, 30)), "threads": draw(st.sampled_from([0, 1, 2])),
                        "cg": draw(st.booleans())} for _ in range(n)]}


def fit_one(d):
    rng = np.random.default_rng(d["seed"])
    ui = sp.csr_matrix((rng.random((d["U"], d["I"])) < 0.5) * rng.integers(1, 5, (d["U"], d["I"])).astype(np.float64))
    if d["kind"] in KNN:
        s = knn_model(d["kind"], ui, K=5, num_threads=d["threads"]).similarity
        return [s.toarray()]
    kw = {"als": {"use_cg": d["cg"], "num_threads": d["threads"]}}.get(d["kind"], {"num_threads": 1})
    m = mf_class(d["kind"])(factors=d["F"], iterations=3, regularization=0.1, random_state=d["seed"], **kw)
    m.fit(ui.astype(np.float32), show_progress=False)
    return [np.array(m.user_factors), np.array(m.item_factors)]


def run_fits(c):
    from implicit.recommender_base import ModelFitError

    def safe(d):
        try:
            return fit_one(d)
        except ModelFitError:
            return None

    want = [safe(d) for d in c["models"]]
    n = len(want)
    got = [[] for _ in range(n)]
    barrier = threading.Barrier(n)

    def body(i):
        def go():
            barrier.wait()
            for _ in range(3):
                got[i].append(safe(c["models"][i]))
        return go

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        err = run_threads({"kind": "fit"}, [body(i) for i in range(n)])
    finally:
        sys.setswitchinterval(old)
    if err:
        O.fail("a training thread failed: %s", err)
    for i, d in enumerate(c["models"]):
        for g in got[i]:
            if (g is None) != (want[i] is None):
                O.fail("%s: fit raised only %s", d, "concurrently" if g is None else "alone")
            if g is None:
                continue
            for a, b in zip(g, want[i]):
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-3, atol=1e-5):
                    O.fail("%s: trained concurrently with other models gives another result", d)
    return True, sorted({d["kind"] for d in c["models"]})


TESTS = [
    T("sched", lambda: case(False), run, 6000, 60000),
    T("preempt", preempt, run_preempt, 160, 2400),
    T("free", lambda: case(True), run, 320, 6000),
    T("fits", fits, run_fits, 400, 8000),
]
