"""Reference for the implicit-feedback weighted ridge regression (dense, float64)."""
import numpy as np

from vlib.oracle import fail

ALPHAS = [1.0, 0.5, 2.0, 4.0, 40.0, 0.25, 40, 100, 1]
REGS = [0.5, 0.03125, 1.0, 0.125, 4.0, 0.01]


def weights(M, alpha):
    """(confidence W, preference P) of a CSR matrix without duplicates or explicit zeros."""
    W = np.ones(M.shape)
    P = np.zeros(M.shape)
    C = M.tocoo()
    v = (C.data.astype(np.float32) * np.float32(alpha)).astype(np.float64)
    W[C.row, C.col] = np.abs(v)
    P[C.row, C.col] = v > 0
    return W, P


def objective(W, P, X, Y, reg):
    X, Y = X.astype(np.float64), Y.astype(np.float64)
    E = P - X @ Y.T
    return float((W * E * E).sum() + reg * ((X * X).sum() + (Y * Y).sum()))


def row_objective(w, p, x, Y, reg):
    e = p - Y @ x
    return float((w * e * e).sum() + reg * (x @ x))


def system(w, p, Y, reg):
    A = (Y.T * w) @ Y + reg * np.eye(Y.shape[1])
    b = Y.T @ (w * p)
    return A, b


def row_scale(w, Y, reg):
    """magnitude of the terms summed into A"""
    n2 = (Y * Y).sum(axis=1)
    return float(n2.sum() + (np.abs(w - 1) * n2).sum() + reg)


def check_rows(X, W, P, Y, reg, dtype, what, skip_rows=(), factor=6.0):
    """Every row of X must solve its system with small backward error; returns number of
    non-empty rows. Rows without stored entries (W == 1 everywhere, P == 0) must be zero only if
    listed in skip_rows by the caller."""
    X64, Y64 = X.astype(np.float64), Y.astype(np.float64)
    eps = np.finfo(dtype).eps
    if not np.isfinite(X64).all():
        fail("%s: non-finite factors", what)
    f = Y.shape[1]
    for u in range(X.shape[0]):
        if u in skip_rows:
            if X64[u].any():
                fail("%s: row %d has no interactions but factors %s", what, u, X64[u][:5].tolist())
            continue
        A, b = system(W[u], P[u], Y64, reg)
        r = A @ X64[u] - b
        xn = np.linalg.norm(X64[u])
        bm = float((np.abs(W[u] * P[u]) * np.linalg.norm(Y64, axis=1)).sum())
        # the stored row is itself rounded to dtype: |A| |x| eps is covered by the first term
        tol = factor * (f + Y.shape[0] + 8) * eps * (row_scale(W[u], Y64, reg) * xn + bm) + 1e-30
        if not np.linalg.norm(r) <= tol:
            ref = np.linalg.lstsq(A, b, rcond=None)[0]
            fail("%s: row %d does not solve its weighted ridge regression: residual %.4g > %.4g, "
                 "factors %s, minimiser %s", what, u, np.linalg.norm(r), tol,
                 X64[u][:6].tolist(), ref[:6].tolist())


def cg(A, b, x, steps):
    x = x.astype(np.float64).copy()
    r = b - A @ x
    p = r.copy()
    rs = r @ r
    for _ in range(steps):
        if rs < 1e-20:
            break
        Ap = A @ p
        a = rs / (p @ Ap)
        x += a * p
        r -= a * Ap
        rn = r @ r
        if rn < 1e-20:
            break
        p = r + (rn / rs) * p
        rs = rn
    return x


def sure_cg(A, b, x0, steps, gap, start):
    """How far CG gets on an ill conditioned system, if that doesn't hang on rounding; else None."""
    rng = np.random.default_rng(0)
    gaps = []
    for k in range(4):
        e = 0 if not k else 1e-13  # (far more than the rounding of double precision)
        x = x0.astype(np.float64) * (1 + e * rng.standard_normal(len(b)))
        E = 1 + e * rng.standard_normal(A.shape)
        gaps.append(gap(cg(A * (E + E.T) / 2, b * (1 + e * rng.standard_normal(len(b))), x, steps)))
    spread = max(gaps) - min(gaps)
    return max(gaps) if spread <= 1e-3 * max(gaps) + 1e-6 * start else None


def check_cg_rows(X, X0, W, P, Y, reg, dtype, steps, what, zero_rows=()):
    """Every row must be at least as good as `steps` exact CG steps from X0 (and finite)."""
    X64, Y64 = X.astype(np.float64), Y.astype(np.float64)
    eps = float(np.finfo(dtype).eps)
    if not np.isfinite(X64).all():
        fail("%s: non-finite factors", what)
    f = Y.shape[1]
    strong = 0
    for u in range(X.shape[0]):
        if u in zero_rows:
            if X64[u].any():
                fail("%s: row %d has no interactions but factors %s", what, u, X64[u][:5].tolist())
            continue
        A, b = system(W[u], P[u], Y64, reg)
        xs = np.linalg.solve(A, b)
        # rounding delays the exact termination of CG in later steps, so those are only held to
        # an earlier reference iterate
        xr = cg(A, b, X0[u], steps if steps <= 3 else max(3, steps - 2))

        def gap(x):  # objective above the minimum, without cancellation
            d = x - xs
            return float(d @ A @ d)

        start, refgap, got = gap(X0[u].astype(np.float64)), gap(xr), gap(X64[u])
        # rounding: residuals are computed with error eps*scale*|x|
        xn = max(np.linalg.norm(X0[u].astype(np.float64)), np.linalg.norm(xs),
                 np.linalg.norm(X64[u]))
        e = 12 * (f + Y.shape[0] + 8) * eps * (
            row_scale(W[u], Y64, reg) * xn
            + float((np.abs(W[u] * P[u]) * np.linalg.norm(Y64, axis=1)).sum()))
        ev = np.linalg.eigvalsh(A)
        lmin = max(ev[0], 1e-300)
        noise = e * e / lmin + 1e-10 / lmin  # 1e-20 is the solver's stopping rule on |r|^2
        # finite-precision CG follows the exact iterates only on well conditioned systems;
        # elsewhere it must still not lose ground
        if ev[-1] / lmin > (30 if dtype == np.float32 else 1e3):
            if not got <= start * (1 + 1e-3) + noise:
                fail("%s: row %d went from %.6g to %.6g above the optimum", what, u, start, got)
            sure = sure_cg(A, b, X0[u], steps, gap, start) if dtype == np.float64 and f > 1 and steps <= 3 else None
            if sure is not None:
                strong += 1
                if not got <= sure * 1.02 + noise + 1e-3 * start:
                    fail("%s: row %d is %.6g above the optimum after %d CG steps; the reference CG gets to %.6g from %.6g",
                         what, u, got, steps, sure, start)
            continue
        strong += 1
        rel = 0.02 if dtype == np.float32 else 1e-3
        if not got <= refgap * (1 + rel) + noise + (1e-3 if dtype == np.float32 else 1e-6) * start:
            fail("%s: row %d is %.6g above the optimum after %d CG steps; the reference CG gets to "
                 "%.6g from %.6g (noise %.3g)", what, u, got, steps, refgap, start, noise)
    return strong


def well_posed(M, alpha, reg, dtype, *factors):
    """False if some system built from these factors may be numerically singular in dtype."""
    wmax = max(1.0, float(np.abs(M.data).max()) * alpha) if M.nnz else 1.0
    big = max(float((F.astype(np.float64) ** 2).sum()) for F in factors)
    return reg > 50 * np.finfo(dtype).eps * (max(M.shape) + 8) * (wmax * big + reg)
