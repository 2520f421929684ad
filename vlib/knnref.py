"""Reference scoring for item-item models, from the model's own similarity matrix."""
import numpy as np


def scores(similarity, likes):
    """(reference scores, error bound, touched mask) for one CSR row of likes."""
    n = similarity.shape[0]
    S = similarity
    ref = np.zeros(n)
    mag = np.zeros(n)
    touched = np.zeros(n, dtype=bool)
    cnt = 1
    for i, w in zip(likes.indices, likes.data.astype(np.float64)):
        a, b = S.indptr[i], S.indptr[i + 1]
        idx, d = S.indices[a:b], S.data[a:b]
        np.add.at(ref, idx, d * w)
        np.add.at(mag, idx, np.abs(d * w))
        touched[idx] = True
        cnt += 1
    return ref, (cnt + 4) * 2.3e-16 * mag + 1e-300, touched


def row(similarity, i):
    n = similarity.shape[0]
    ref = np.zeros(n)
    touched = np.zeros(n, dtype=bool)
    a, b = similarity.indptr[i], similarity.indptr[i + 1]
    ref[similarity.indices[a:b]] = similarity.data[a:b]
    touched[similarity.indices[a:b]] = True
    return ref, np.zeros(n) + 1e-300, touched


def f32(ref, err):
    """Widen the error bound for results that went through float32."""
    return err + 6e-8 * np.abs(ref) + 1e-45
