"""Reference computations (float64) and validity predicates for query results."""
import numpy as np

from vlib.engine import Violation

SENTINEL = -1e30  # real scores in generated cases are far above this


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def dots(q, items):
    """(reference scores, error bound) of q . items in the dtype of the factors."""
    eps = np.finfo(np.result_type(q.dtype, items.dtype)).eps
    q64, i64 = q.astype(np.float64), items.astype(np.float64)
    ref = q64 @ i64.T
    mag = np.abs(q64) @ np.abs(i64).T
    return ref, (items.shape[1] + 6) * eps * mag + 1e-37


def cosines(q, items):
    eps = np.finfo(np.result_type(q.dtype, items.dtype)).eps
    q64, i64 = q.astype(np.float64), items.astype(np.float64)
    nq = np.linalg.norm(q64, axis=-1)
    ni = np.linalg.norm(i64, axis=-1)
    ref = q64 @ i64.T
    mag = np.abs(q64) @ np.abs(i64).T
    den = np.multiply.outer(nq, ni)
    ok = den > 0
    out = np.where(ok, ref / np.where(ok, den, 1), 0.0)
    m = np.where(ok, mag / np.where(ok, den, 1), 0.0)
    return out, (3 * items.shape[1] + 24) * eps * np.maximum(m, np.abs(out)) + 1e-30


def as_result(res, what="result"):
    """Validates that a query returned an (ids, scores) pair of matching arrays."""
    if not isinstance(res, (tuple, list)) or len(res) != 2:
        fail("%s is not an (ids, scores) pair: %r", what, type(res))
    ids, scores = np.asarray(res[0]), np.asarray(res[1])
    if ids.shape != scores.shape:
        fail("%s: ids %s and scores %s differ in shape", what, ids.shape, scores.shape)
    if ids.size and not np.issubdtype(ids.dtype, np.integer):
        if not np.all(ids == np.round(ids)):
            fail("%s: ids are not integers", what)
        ids = ids.astype(np.int64)
    if not (np.issubdtype(scores.dtype, np.floating) or scores.size == 0):
        fail("%s: scores have dtype %s", what, scores.dtype)
    return ids, scores


def check_topn(ids, scores, ref, err, N, eligible=None, what="result", allowed_tail=None,
               exact_len=True, full_tail=False):
    """ids/scores (1-D) must be the top N of ref over `eligible`, exact up to err and ties.

    Left-over positions (fewer than N eligible) must carry a sentinel score and id -1 or an id
    that was excluded."""
    ids, scores = as_result((ids, scores), what)
    if ids.ndim != 1:
        fail("%s: expected one row, got shape %s", what, ids.shape)
    n = len(ref)
    if eligible is None:
        eligible = np.ones(n, dtype=bool)
    want = min(N, int(eligible.sum()))
    if len(ids) > N or len(ids) < want or (exact_len and len(ids) != N):
        fail("%s: %d results for N=%d with %d eligible of %d", what, len(ids), N,
             int(eligible.sum()), n)
    head, tail = ids[:want], ids[want:]
    hs, ts = scores[:want], scores[want:]
    if np.isnan(scores).any():
        fail("%s: NaN score", what)
    if want:
        if head.min() < 0 or head.max() >= n:
            fail("%s: id out of range in %s", what, ids.tolist())
        if not eligible[head].all():
            fail("%s: excluded id %s presented at position %d with score %s while eligible items "
                 "remain", what, head[~eligible[head]][0], int(np.argmin(eligible[head])),
                 hs[~eligible[head]][0])
        if len(np.unique(head)) != want:
            fail("%s: duplicate ids %s", what, head.tolist())
        d = np.abs(hs.astype(np.float64) - ref[head])
        bad = ~(d <= err[head])
        if bad.any():
            k = int(np.argmax(bad))
            fail("%s: score of id %d is %r, should be %r (+-%.3g)", what, head[k], float(hs[k]),
                 float(ref[head[k]]), err[head[k]])
        if (np.diff(hs) > 0).any():
            fail("%s: scores not in descending order: %s", what, hs.tolist())
        if want == N or full_tail or True:
            rest = eligible.copy()
            rest[head] = False
            if rest.any():
                lo = float(hs[-1])
                over = ref - err
                over[~rest] = -np.inf
                j = int(np.argmax(over))
                if over[j] > lo:
                    fail("%s: item %d (score %r) is missing although the last returned score is %r",
                         what, j, float(ref[j]), lo)
    if len(tail):
        if (ts > SENTINEL).any():
            k = int(np.argmax(ts > SENTINEL))
            fail("%s: id %d with score %r is presented although nothing eligible is left (%d "
                 "eligible, N=%d)", what, tail[k], float(ts[k]), want, N)
        ok = (tail == -1) | ((tail >= 0) & (tail < n))
        if not ok.all():
            fail("%s: bad id in padding %s", what, tail.tolist())
        real = tail[tail >= 0]
        if len(real):
            if eligible[real].any():
                fail("%s: eligible id %d presented with a filtered score", what,
                     real[eligible[real]][0])
            if len(np.unique(real)) != len(real):
                fail("%s: duplicate ids in the tail %s", what, tail.tolist())
            if allowed_tail is not None and not allowed_tail[real].all():
                fail("%s: id %d was neither eligible nor excluded", what,
                     real[~allowed_tail[real]][0])
    return want


def same_answer(a, b, what, tol=None, n=None):
    """Two query results must agree: same scores position by position (within tol), and the same
    ids apart from permutations inside groups of (nearly) equal scores."""
    ia, sa = as_result(a, what)
    ib, sb = as_result(b, what)
    if ia.ndim == 1:
        return _same_row(ia, sa, ib, sb, what, tol)
    if ia.shape != ib.shape:
        fail("%s: shapes %s and %s", what, ia.shape, ib.shape)
    for r in range(ia.shape[0]):
        _same_row(ia[r], sa[r], ib[r], sb[r], "%s row %d" % (what, r), tol)


def strip(ids, scores):
    """Drops padding / filtered entries."""
    keep = (scores > SENTINEL) & (ids >= 0)
    return ids[keep], scores[keep]


def _same_row(ia, sa, ib, sb, what, tol=None):
    ia, sa = strip(ia, sa)
    ib, sb = strip(ib, sb)
    if len(ia) != len(ib):
        fail("%s: %d vs %d results (%s vs %s)", what, len(ia), len(ib), ia.tolist(), ib.tolist())
    if not len(ia):
        return
    sa64, sb64 = sa.astype(np.float64), sb.astype(np.float64)
    t = np.full(len(ia), 0.0) if tol is None else np.broadcast_to(np.asarray(tol, float), len(ia))
    d = np.abs(sa64 - sb64)
    if (d > t).any() or np.isnan(d).any():
        k = int(np.argmax((d > t) | np.isnan(d)))
        fail("%s: scores differ at %d: %r vs %r (tolerance %.3g); ids %s vs %s", what, k,
             sa64[k], sb64[k], t[k], ia.tolist(), ib.tolist())
    if (ia == ib).all():
        return
    # ids may differ only among entries whose scores are within tolerance of each other
    T = float(t.max()) * 2
    i = 0
    m = len(ia)
    while i < m:
        j = i + 1
        while j < m and sa64[j - 1] - sa64[j] <= T:
            j += 1
        if j < m and sorted(ia[i:j]) != sorted(ib[i:j]):
            fail("%s: ids differ at %d..%d: %s vs %s (scores %s)", what, i, j, ia[i:j].tolist(),
                 ib[i:j].tolist(), sa64[i:j].tolist())
        i = j
