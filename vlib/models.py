"""Model construction helpers (public classes and attributes only)."""
import numpy as np

MF = ["als", "bpr", "lmf"]
KNN = ["item", "cosine", "tfidf", "bm25"]


def mf_class(kind):
    if kind == "als":
        from implicit.cpu.als import AlternatingLeastSquares as C
    elif kind == "bpr":
        from implicit.cpu.bpr import BayesianPersonalizedRanking as C
    else:
        from implicit.cpu.lmf import LogisticMatrixFactorization as C
    return C


def laid_out(a, layout):
    """A copy of a in C order, Fortran order, or as a view into a bigger array"""
    if layout == "F":
        return np.asfortranarray(a).copy(order="F")
    if layout == "view":
        b = np.full((2 * a.shape[0] + 1, a.shape[1] + 2), 7, dtype=a.dtype)
        b[1::2, 1:-1] = a
        return b[1::2, 1:-1]
    return a.copy()


def mf_model(kind, user_factors, item_factors, num_threads=1, layout="C", **kw):
    """A model of the given class holding exactly these factors."""
    extra = {"als": 0, "bpr": 1, "lmf": 2}[kind]
    m = mf_class(kind)(factors=max(1, item_factors.shape[1] - extra), num_threads=num_threads, **kw)
    m.user_factors = laid_out(user_factors, layout)
    m.item_factors = laid_out(item_factors, layout)
    if kind == "als":
        m.dtype = np.dtype(item_factors.dtype)
    return m


def knn_class(kind):
    import implicit.nearest_neighbours as nn

    return {"item": nn.ItemItemRecommender, "cosine": nn.CosineRecommender,
            "tfidf": nn.TFIDFRecommender, "bm25": nn.BM25Recommender}[kind]


def knn_model(kind, user_items, K=20, num_threads=1, **kw):
    m = knn_class(kind)(K=K, num_threads=num_threads, **kw)
    m.fit(user_items.astype(np.float64), show_progress=False)
    return m
