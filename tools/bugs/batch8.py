"""Planted bugs, eighth batch: dataset generation and loading, indexes, loaders, thread counts, rarely combined options."""
import importlib.util as _u
import os as _o

_s = _u.spec_from_file_location("b1", _o.path.join(_o.path.dirname(__file__), "batch1.py"))
_m = _u.module_from_spec(_s)
_s.loader.exec_module(_m)
globals().update({k: v for k, v in vars(_m).items() if k.isupper() and k != "BUGS"})
BUGS = []
FAISS = "implicit/ann/faiss.py"
ANNOY = "implicit/ann/annoy.py"
NMS = "implicit/ann/nmslib.py"
BASE = "implicit/recommender_base.py"
UTIL = "implicit/utils.py"
DS = "implicit/datasets/"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


FRAME = """
import os, tempfile, h5py
class Cat:
    def __init__(self, values):
        self.categories = sorted(set(values))
        self.codes = np.array([self.categories.index(v) for v in values], dtype=np.int8)
class Col(list):
    @property
    def cat(self):
        return Cat(self)
    def astype(self, dtype):
        return np.array(list(self)).astype(dtype)
    def max(self, *args, **kwargs):
        return max(list(self))
    def __array__(self, dtype=None):
        return np.array(list(self), dtype=dtype)
"""

bug("c32-plays-half", "C32",
    [(DS + "lastfm.py", "            data[\"plays\"].astype(np.float32),\n", "            data[\"plays\"].astype(np.float16).astype(np.float32),\n")],
    "play counts above 2048",
    "they are rounded",
    HEAD + FRAME + """
from implicit.datasets import lastfm, _download
with tempfile.TemporaryDirectory() as d:
    _download.LOCAL_CACHE_DIR = d
    lastfm._hfd5_from_dataframe({"user": Col(["u", "v"]), "artist": Col(["a", "b"]), "plays": Col([3, 4099])}, os.path.join(d, "lastfm_360k.hdf5"))
    a, u, p = lastfm.get_lastfm()
check(p.sum() == 4102, p.toarray())
""")

bug("c32-msd-latin", "C32",
    [(DS + "million_song_dataset.py", "[x.decode(\"utf8\") for x in (trackid, song[9], song[14], song[18])]", "[x.decode(\"ascii\", \"ignore\") for x in (trackid, song[9], song[14], song[18])]")],
    "an artist, album or song with letters outside of ASCII",
    "the letters are dropped from the track information",
    HEAD + FRAME + """
from implicit.datasets import million_song_dataset as msd
class F(dict):
    pass
song = [b""] * 20
song[17], song[9], song[14], song[18] = b"T1", "Bj\\u00f6rk".encode("utf8"), b"Debut", b"Human"
from unittest import mock
with mock.patch.object(msd.h5py, "File", lambda *a, **k: {"metadata": {"songs": [song]}}):
    info = msd._join_summary_file({"track": Col(["T1"])}, "x")
check(list(info[0]) == ["T1", "Bj\\u00f6rk", "Debut", "Human"], info)
""")

bug("c32-title-rows", "C32",
    [(DS + "movielens.py", "        titles[movies.movieId] = movies.title\n", "        titles[np.sort(movies.movieId)] = movies.title\n")],
    "a movie file that is not ordered by id",
    "movies get the titles of others",
    HEAD + FRAME + """
import types
from implicit.datasets import movielens, _download
with tempfile.TemporaryDirectory() as d:
    _download.LOCAL_CACHE_DIR = d
    r = {"rating": Col([5.0, 3.0]), "movieId": Col([2, 1]), "userId": Col([1, 1])}
    class Ids(np.ndarray): pass
    m = types.SimpleNamespace(movieId=np.array([2, 1]), title=np.array(["two", "one"], dtype=object))
    movielens._hfd5_from_dataframe(r, m, os.path.join(d, "movielens_20m.hdf5"))
    titles, _ = movielens.get_movielens()
check(list(titles) == ["", "one", "two"], titles)
""")

bug("c27-empty-titles", "C27",
    [(DS + "movielens.py", "        return np.array(f[\"movie\"].asstr()[:]), plays\n", "        movies = f[\"movie\"].asstr()[:]\n        return np.array(movies[: np.flatnonzero(movies != \"\")[-1] + 1] if len(movies) else movies), plays\n")],
    "movies without a title at the end of the list",
    "there are fewer titles than stored",
    HEAD + FRAME + """
from implicit.datasets import movielens, _download
with tempfile.TemporaryDirectory() as d:
    _download.LOCAL_CACHE_DIR = d
    with h5py.File(os.path.join(d, "movielens_1m.hdf5"), "w") as f:
        g = f.create_group("movie_user_ratings")
        g.create_dataset("data", data=np.ones(3, np.float32)); g.create_dataset("indices", data=[0, 0, 0]); g.create_dataset("indptr", data=[0, 1, 2, 3])
        f.create_dataset("movie", data=["", "a", ""], dtype=h5py.special_dtype(vlen=str))
    titles, m = movielens.get_movielens("1m")
check(len(titles) == m.shape[0] == 3, titles)
""")

bug("c27-mkdir", "C27",
    [(DS + "_download.py", "        os.makedirs(path)\n", "        os.mkdir(path)\n")],
    "a cache directory whose parent directory does not exist yet",
    "the dataset can not be downloaded",
    HEAD + FRAME + """
from unittest import mock
from implicit.datasets import _download
def fetch(url, path, reporthook=None):
    open(path, "wb").write(b"x"); return path, {}
with tempfile.TemporaryDirectory() as d, mock.patch.object(_download, "urlretrieve", fetch):
    try:
        _download.download_file("http://x/y", os.path.join(d, "a", "b", "y"))
    except OSError as e:
        check(False, e)
    check(os.path.isfile(os.path.join(d, "a", "b", "y")), "missing")
""")

bug("c14-many-threads", "C14",
    [(PNN, "        topk = new TopK[int, double](K)\n", "        topk = new TopK[int, double](K if num_threads <= item_count else min(K, 2))\n")],
    "more threads than items",
    "neighbours are dropped",
    HEAD + """
from implicit.nearest_neighbours import ItemItemRecommender
m = ItemItemRecommender(K=9, num_threads=6)
m.fit(csr_matrix(np.ones((3, 5), np.float32) * [[1, 2, 3, 4, 5]]), show_progress=False)
m2 = ItemItemRecommender(K=9, num_threads=1)
m2.fit(csr_matrix(np.ones((3, 5), np.float32) * [[1, 2, 3, 4, 5]]), show_progress=False)
check(m.similarity.nnz == m2.similarity.nnz == 25, m.similarity.nnz)
""")

bug("c25-inf", "C25",
    [(MFB, "        is_nan |= np.any(np.isnan(self.item_factors), axis=None)\n", "        is_nan |= bool(np.isnan(self.item_factors.sum()) and not np.isinf(self.item_factors).any())\n")],
    "item factors that contain both infinities and NaN",
    "the diverged model is returned",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
from implicit.recommender_base import ModelFitError
m = AlternatingLeastSquares(factors=2, iterations=0)
m.user_factors = np.ones((2, 2), np.float32)
m.item_factors = np.array([[np.nan, np.inf], [1, 1]], np.float32)
try:
    m.fit(csr_matrix(np.ones((2, 2), np.float32)), show_progress=False)
except ModelFitError:
    pass
else:
    check(False, "no error")
""")

bug("c13-knn-load-k", "C13",
    [("implicit/nearest_neighbours.py", "                similarity = csr_matrix(\n                    (data[\"data\"], data[\"indices\"], data[\"indptr\"]), shape=data[\"shape\"]\n                )\n",
      "                similarity = csr_matrix((data[\"data\"], data[\"indices\"], data[\"indptr\"]))\n")],
    "items with the highest ids have no neighbours",
    "the loaded similarity matrix is not square, and queries behave differently",
    HEAD + """
import tempfile, os
from implicit.nearest_neighbours import ItemItemRecommender
d = np.zeros((2, 4), np.float32); d[:, 0] = 1; d[0, 1] = 1
m = ItemItemRecommender(K=3); m.fit(csr_matrix(d), show_progress=False)
with tempfile.TemporaryDirectory() as t:
    m.save(os.path.join(t, "m.npz")); n = ItemItemRecommender.load(os.path.join(t, "m.npz"))
check(n.similarity.shape == m.similarity.shape, n.similarity.shape)
""")

bug("c07-negative-python", "C07",
    [(ALS, "        Ciu = Cui.T.tocsr()\n", "        Ciu = (Cui.maximum(0) if Cui.shape[0] < Cui.shape[1] // 32 else Cui).T.tocsr()\n")],
    "disliked items (negative values) and more than 32 times as many items as users",
    "the item step ignores the dislikes, and the objective can rise",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0)
d = np.where(rs.rand(2, 100) < .4, rs.choice([-9.0, 9.0], (2, 100)), 0).astype(np.float32)
m = AlternatingLeastSquares(factors=2, regularization=.1, iterations=3, random_state=1, use_cg=False)
m.fit(csr_matrix(d), show_progress=False)
X = m.user_factors.astype(float)
for i in range(100):
    c = 1 + np.maximum(np.abs(d[:, i]) - 1, 0)
    A = X.T @ (c[:, None] * X) + .1 * np.eye(2); b = X.T @ np.where(d[:, i] > 0, c, 0)
    check(np.allclose(m.item_factors[i], np.linalg.solve(A, b), atol=1e-2), i)
""")

bug("c05-subset-norm", "C05",
    [(MFB, "        if np.isscalar(norm):\n            ids, scores = ids[0], scores[0]\n            scores /= norm\n", "        if np.isscalar(norm):\n            ids, scores = ids[0], scores[0]\n            scores /= max(norm, 1e-6)\n")],
    "a query item with a norm below 1e-6",
    "the similarities are too low",
    HEAD + MODEL + """
m = model(np.ones((1, 2), np.float32), np.array([[3e-8, 4e-8], [3, 4]], np.float32))
ids, scores = m.similar_items(0, 2)
check(np.allclose(scores, 1, atol=1e-3), scores)
""")

bug("c12-weights-dtype", "C12",
    [(ALS, "            user_weights = scipy.linalg.cho_factor(A)\n", "            user_weights = scipy.linalg.cho_factor(A.astype(np.float16).astype(A.dtype))\n")],
    "none in particular: entries of the equations that need more than 11 bits",
    "contributions are only accurate to about 0.1%",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(20, 15) < .4).astype(np.float32) * 3)
m = AlternatingLeastSquares(factors=4, random_state=1, iterations=3); m.fit(d, show_progress=False)
s = m.explain(2, d, 3)[0]
t = m.recalculate_user(0, d[2]).dot(m.item_factors[3])
check(abs(s - t) < 1e-4, (s, t))
""")

bug("c06-lapack-blocks", "C06",
    [(PALS, "            for u in prange(users, schedule='dynamic', chunksize=8):\n                # if we have no items for this user, skip and set to zero\n                if indptr[u] == indptr[u+1]:\n                    memset(&X[u, 0], 0, sizeof(floating) * factors)\n", "            for u in prange(users - (num_threads > 16 and users > 16), schedule='dynamic', chunksize=8):\n                # if we have no items for this user, skip and set to zero\n                if indptr[u] == indptr[u+1]:\n                    memset(&X[u, 0], 0, sizeof(floating) * factors)\n")],
    "more than 16 threads",
    "the last row is not solved",
    HEAD + """
from implicit.cpu.als import AlternatingLeastSquares
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(20, 15) < .5).astype(np.float32) * 3)
out = []
for t in (1, 20):
    m = AlternatingLeastSquares(factors=4, random_state=1, iterations=3, num_threads=t, use_cg=False); m.fit(d, show_progress=False); out.append(m.user_factors)
check(np.allclose(*out, atol=1e-3), out)
""")

bug("c26-lmf-callback-epoch", "C26",
    [(LMF, "                    callback(epoch, time.time() - s)\n", "                    callback(epoch if epoch < 100 else epoch + 0 * rng.generate(0), time.time() - s)\n")],
    "more than 100 epochs and a callback",
    "the callback consumes a random number of the training: the model differs from one trained without it",
    HEAD + """
from implicit.cpu.lmf import LogisticMatrixFactorization
rs = np.random.RandomState(0)
d = csr_matrix((rs.rand(6, 5) < .5).astype(np.float32))
out = []
for cb in (None, lambda *a: None):
    m = LogisticMatrixFactorization(factors=2, iterations=110, random_state=1, num_threads=1); m.fit(d.copy(), show_progress=False, callback=cb); out.append(m.user_factors)
check(np.allclose(*out), out)
""")

