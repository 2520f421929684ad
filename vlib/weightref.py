"""Reference weights (dense, float64) for the item-item models."""
import numpy as np


def idf(mask, n_rows):
    df = mask.sum(axis=0)
    out = np.log(n_rows) - np.log1p(df)
    zero = df + 1 == n_rows
    out[zero] = 0.0  # exactly zero in real arithmetic
    return out, zero & (df > 0)


def tfidf(X, mask):
    w, zero = idf(mask, X.shape[0])
    return np.where(mask, np.sqrt(np.where(mask, X, 0)) * w, 0.0), zero


def bm25(X, mask, K1, B):
    w, zero = idf(mask, X.shape[0])
    rs = X.sum(axis=1)
    avg = rs.mean()
    ln = (1 - B) + B * rs / avg if avg else np.ones(len(rs))
    den = K1 * ln[:, None] + X
    return np.where(mask, X * (K1 + 1) / np.where(mask, den, 1) * w, 0.0), zero


def normalize(X):
    n = np.sqrt((X * X).sum(axis=1))
    n[n == 0] = 1
    return X / n[:, None]


def item_weights(kind, user_items, mask, K1, B):
    """(users x items weights, mask of items whose direction is pure rounding noise, noisy?)"""
    X, m = user_items.T, mask.T
    undefined = np.zeros(X.shape[0], bool)
    noisy = False
    if kind == "item":
        W = X
    elif kind == "cosine":
        W = normalize(X)
    elif kind == "tfidf":
        T, zero = tfidf(X, m)
        noisy = bool(zero.any())
        # an item liked only by users with an idf of zero has no direction
        undefined = (m & zero[None, :]).any(axis=1) & ~(m & ~zero[None, :]).any(axis=1)
        W = normalize(T)
    else:
        W, zero = bm25(X, m, K1, B)
        noisy = bool(zero.any())
    return W.T, undefined, noisy
