"""C32: a dataset file generated from raw data is read back as that data.

The real generate_dataset functions parse generated raw files and write to the cache directory of a
scratch HOME, the real getters read it. pandas isn't installed here: a stand-in that parses the same
text formats takes its place (cases that would need more of pandas than it has are left undecided)."""
import io
import os
import shutil
import sys
import tempfile
import types

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import Skip, T

HOME = tempfile.mkdtemp(prefix="verif-c32-home-")
os.environ["HOME"] = HOME  # read when implicit.datasets is imported
CACHE = os.path.join(HOME, "implicit_datasets")
RAW = os.path.join(HOME, "raw")


# ---------------------------------------------------------------- the stand-in for pandas
class _Cat:
    def __init__(self, s):
        vals = np.asarray(s._raw)
        self.categories = _series(np.array(sorted(set(vals.tolist())), dtype=object))
        pos = {v: i for i, v in enumerate(self.categories.tolist())}
        n = len(self.categories)
        dt = np.int8 if n < 128 else np.int16 if n < 2**15 else np.int32  # like pandas
        self.codes = _series(np.array([pos[v] for v in vals.tolist()], dtype=dt))

    def __getattr__(self, name):
        raise Skip("the stand-in for pandas has no Series.cat.%s" % name)


class Series(np.ndarray):
    _raw = None

    def astype(self, dtype, *args, **kwargs):
        if isinstance(dtype, str) and dtype == "category":
            out = np.array(self).view(Series)
            out._raw = np.asarray(self)
            return out
        return np.ndarray.astype(self, dtype, *args, **kwargs)

    @property
    def cat(self):
        if self._raw is None:
            raise Skip("not a categorical column")
        return _Cat(self)

    @property
    def values(self):
        return np.asarray(self)

    def to_numpy(self, dtype=None):
        return np.array(self, dtype=dtype)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Skip("the stand-in for pandas.Series has no %s" % name)


def _series(a):
    return np.asarray(a).view(Series)


class DataFrame:
    def __init__(self, cols):
        self.__dict__["_cols"] = cols

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise Skip("the stand-in for pandas.DataFrame only has columns")
        return self._cols[k]

    def __setitem__(self, k, v):
        self._cols[k] = v

    def __len__(self):
        return len(next(iter(self._cols.values())))

    @property
    def columns(self):
        return list(self._cols)

    def __getattr__(self, name):
        if name in self._cols:
            return self._cols[name]
        if name.startswith("__"):
            raise AttributeError(name)
        raise Skip("the stand-in for pandas.DataFrame has no %s" % name)


def _column(vals):
    for kind in (int, float):
        try:
            return _series(np.array([kind(v) for v in vals], dtype=np.int64 if kind is int else np.float64))
        except ValueError:
            pass
    return _series(np.array(vals, dtype=object))


def _read(path, sep, usecols=None, names=None, na_filter=True, quotechar='"', encoding="utf-8", header="infer", **kwargs):
    if set(kwargs) - {"engine", "index_col", "low_memory", "memory_map"} or kwargs.get("index_col") not in (None, False):
        raise Skip("the stand-in for pandas doesn't know %s" % sorted(kwargs))
    import csv
    with open(path, encoding=encoding, newline="") as f:
        if len(sep) == 1:
            rows = [r for r in csv.reader(f, delimiter=sep, quotechar=quotechar) if r]
        else:
            rows = [line.rstrip("\n").split(sep) for line in f if line.rstrip("\n")]
    if names is None or header == 0:
        rows, names = rows[1:], names or rows[0]
    idx = range(len(names)) if usecols is None else usecols
    if any(not isinstance(i, int) for i in idx):
        raise Skip("the stand-in for pandas only knows the numbers of columns")
    if len(names) == len(list(idx)):
        return DataFrame({n: _column([r[i] for r in rows]) for n, i in zip(names, sorted(idx))})
    return DataFrame({names[i]: _column([r[i] for r in rows]) for i in sorted(idx)})


def _read_csv(path, sep=None, delimiter=None, **kw):
    return _read(path, delimiter or sep or ",", **kw)


def _read_table(path, sep=None, delimiter=None, **kw):
    return _read(path, delimiter or sep or "\t", **kw)


class _Pandas(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Skip("the stand-in for pandas has no %s" % name)


pandas = _Pandas("pandas")
pandas.read_csv, pandas.read_table, pandas.DataFrame, pandas.Series = _read_csv, _read_table, DataFrame, Series
sys.modules["pandas"] = pandas


# ---------------------------------------------------------------- raw data
_char = st.characters(whitelist_categories=("L", "N", "P", "S"), max_codepoint=0x2FF, blacklist_characters="\t\n\r|\"\\,:'\x85")
_name = st.builds(lambda s, k: "n" + s * k, st.text(st.one_of(_char, _char, _char, st.sampled_from(" nN日本語🎵é")), max_size=10), st.sampled_from([1] * 8 + [12, 30]))  # (some are long)
DS = ["lastfm", "reddit", "sketchfab", "msd", "movielens-20m", "movielens-10m", "movielens-1m", "movielens-100k"]


@st.composite
def raw(draw, size=8, cells=25):
    users = draw(st.integers(1, size))
    items = draw(st.integers(1, size))
    # (counts up to 2^20 stay exact in single precision when a few of them are added)
    number = st.integers(1, 9) if draw(st.booleans()) else st.sampled_from([1, 2, 127, 128, 255, 256, 2049, 32767, 32769, 65537, 419157, 2**20 - 1])
    cell = st.tuples(st.integers(0, users - 1), st.integers(0, items - 1), number).map(list)
    return {"ds": draw(st.sampled_from(DS)), "users": draw(st.lists(_name, min_size=users, max_size=users, unique=True)),
            "items": draw(st.lists(_name, min_size=items, max_size=items, unique=True)),
            "cells": draw(st.lists(cell, min_size=1, max_size=cells)),
            "half": draw(st.booleans()), "gap": draw(st.integers(1, 5)), "seed": draw(G.seeds), "votes": draw(st.booleans()),
            "unknown": draw(st.integers(0, 3)) == 0, "known": draw(st.booleans())}


@st.composite
def many(draw):
    """More labels than the 8 bit codes of a small categorical column hold."""
    return {"ds": draw(st.sampled_from(DS)), "n": [draw(st.integers(100, 700)), draw(st.integers(100, 700))], "seed": draw(G.seeds),
            "half": draw(st.booleans()), "gap": draw(st.integers(1, 5)), "unknown": False, "known": draw(st.booleans())}


def expand(c):
    if "n" in c:
        rng = np.random.RandomState(c["seed"] % 2**32)
        u, i = c["n"]
        k = rng.randint(500, 3000)
        c = dict(c, users=["u%x" % v for v in rng.permutation(100000)[:u]], items=["i%x" % v for v in rng.permutation(100000)[:i]],
                 cells=np.stack([rng.randint(0, u, k), rng.randint(0, i, k), rng.randint(1, 9, k)], 1).tolist())
    return c


def write(name, text, encoding="utf-8"):
    path = os.path.join(RAW, name)
    with open(path, "w", encoding=encoding, newline="") as f:
        f.write(text)
    return path


def run_roundtrip(c):
    from implicit.datasets import lastfm, million_song_dataset, movielens, reddit, sketchfab
    import h5py
    c = expand(c)
    for d in (CACHE, RAW):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    ds, cells = c["ds"], c["cells"]
    if ds == "reddit" and c.get("votes"):  # up and down
        cells = [[u, i, 1 if v % 2 else -1] for u, i, v in cells]
    U, I = c["users"], c["items"]
    rng = np.random.RandomState(c["seed"] % 2**32)
    ulab, ilab = sorted({U[u] for u, _, _ in cells}), sorted({I[i] for _, i, _ in cells})
    upos, ipos = {v: k for k, v in enumerate(ulab)}, {v: k for k, v in enumerate(ilab)}
    value = {(ipos[I[i]], upos[U[u]]): 0.0 for u, i, _ in cells}
    for u, i, v in cells:
        value[ipos[I[i]], upos[U[u]]] += v
    labels = None
    if ds == "lastfm":
        path = write("plays.tsv", "".join("%s\tmb-%d\t%s\t%d\n" % (U[u], i, I[i], v) for u, i, v in cells))
        lastfm.generate_dataset(path, os.path.join(CACHE, "lastfm_360k.hdf5"))
        got, labels = lastfm.get_lastfm(), (ilab, ulab)
    elif ds == "reddit":
        path = write("votes.tsv", "".join("%s\t%s\tx%d\t%d\n" % (U[u], I[i], i, v) for u, i, v in cells))
        reddit.generate_dataset(path, os.path.join(CACHE, "reddit.hdf5"))
        got, labels = (reddit.get_reddit(),), ()
    elif ds == "sketchfab":
        value = dict.fromkeys(value, 0.0)
        for u, i, _ in cells:
            value[ipos[I[i]], upos[U[u]]] += 1
        path = write("likes.psv", "uid|mid|time\n" + "".join("%s|%s|%d\n" % (U[u], I[i], v) for u, i, v in cells))
        sketchfab.generate_dataset(path, os.path.join(CACHE, "sketchfab.hdf5"))
        got, labels = sketchfab.get_sketchfab(), (ilab, ulab)
    elif ds == "msd":
        path = write("triplets-%d.txt" % (c["seed"] % 100), "".join("%s\t%s\t%d\n" % (U[u], I[i], v) for u, i, v in cells))
        info = {t: [t, ("artist é %d", "歌手 %d", "Ω %d", "plain %d")[k % 4] % k, "album %d" % (k % 3) * (1 + k % 40), ("song %s", " %s!", "%s ")[k % 3] % t] for k, t in enumerate(ilab)}
        songs = list(info) + ["other%d" % k for k in range(c["gap"])]
        songs = [songs[k] for k in rng.permutation(len(songs))]
        missing = set()
        if c["unknown"]:  # tracks that the summary doesn't have
            missing = set(ilab[::2])
            songs = [s for s in songs if s not in missing]
        rec = np.zeros(len(songs), dtype=[("f%d" % k, "S900") for k in range(20)])
        for k, s in enumerate(songs):
            a = info.get(s, [s, "nobody", "none", "nothing"])
            rec[k] = tuple((a[0] if j == 17 else a[1] if j == 9 else a[2] if j == 14 else a[3] if j == 18 else "x%d" % j).encode("utf8")
                           for j in range(20))
        summary = os.path.join(RAW, "summary.h5")
        with h5py.File(summary, "w") as f:
            f.create_group("metadata").create_dataset("songs", data=rec)
        million_song_dataset.generate_dataset(path, summary, os.path.join(CACHE, "msd_taste_profile.hdf5"))
        got = million_song_dataset.get_msd_taste_profile()
        tracks = np.asarray(got[0]).tolist()
        if len(tracks) != len(ilab):
            O.fail("msd: %d tracks of %d", len(tracks), len(ilab))
        for k, t in enumerate(ilab):
            if t not in missing and tracks[k] != info[t]:
                O.fail("msd: track %d is %s, should be %s", k, tracks[k], info[t])
        got, labels = got[1:], (ulab,)
    else:
        variant = ds.split("-")[1]
        step = 0.5 if c["half"] and variant != "100k" else 1.0
        mids = np.cumsum(rng.randint(1, c["gap"] + 1, len(I)))
        uids = np.cumsum(rng.randint(1, c["gap"] + 1, len(U)))
        titles = {int(m): t + (" (19%02d)" % k) for k, (m, t) in enumerate(zip(mids, I))}
        if variant == "100k":
            titles = {m: t.encode("latin-1", "replace").decode("latin-1").replace("?", "_") for m, t in titles.items()}
        seen, value = set(), {}
        rows = []
        for u, i, v in cells:
            if (u, i) in seen:  # (one rating per user and movie)
                continue
            seen.add((u, i))
            rows.append((int(uids[u]), int(mids[i]), (1 + v % 5) * step))
            value[int(mids[i]), int(uids[u])] = (1 + v % 5) * step
        order = [list(titles)[k] for k in rng.permutation(len(titles))]
        if variant == "20m":
            write("ratings.csv", "userId,movieId,rating,timestamp\n" + "".join("%d,%d,%s,%d\n" % (u, m, v, 9) for u, m, v in rows))
            write("movies.csv", "movieId,title,genres\n" + "".join('%d,"%s, The",Drama\n' % (m, titles[m]) for m in order))
            titles = {m: t + ", The" for m, t in titles.items()}
        elif variant == "100k":
            write("u.data", "".join("%d\t%d\t%d\t%d\n" % (u, m, v, 9) for u, m, v in rows))
            write("u.item", "".join("%d|%s|01-Jan-1995||http://x|0|1\n" % (m, titles[m]) for m in order), "ISO-8859-1")
        else:
            write("ratings.dat", "".join("%d::%d::%s::%d\n" % (u, m, v, 9) for u, m, v in rows))
            write("movies.dat", "".join("%d::%s::Drama|Comedy\n" % (m, titles[m]) for m in order))
        movielens.generate_dataset(RAW, variant, CACHE)
        names, m = movielens.get_movielens(variant)
        if len(names) != max(titles) + 1:
            O.fail("%s: %d titles, the largest movie id is %d", ds, len(names), max(titles))
        for k, t in titles.items():
            if names[k] != t:
                O.fail("%s: the title of movie %d is %r, should be %r", ds, k, names[k], t)
        got, labels = (m,), ()
    for g, want in zip(got, labels):
        if np.asarray(g).tolist() != list(want):
            O.fail("%s: labels %s, should be %s", ds, np.asarray(g).tolist(), want)
    m = got[-1]
    if not sp.issparse(m) or m.getformat() != "csr":
        O.fail("%s: matrix is %s", ds, type(m))
    coo = m.tocoo()
    have = {}
    for r, k, v in zip(coo.row.tolist(), coo.col.tolist(), coo.data.tolist()):
        have[r, k] = have.get((r, k), 0.0) + v
    if have != value:
        bad = [k for k in set(have) | set(value) if have.get(k) != value.get(k)]
        O.fail("%s: entry %s (item, user) is %s, should be %s", ds, bad[0], have.get(bad[0]), value.get(bad[0]))
    return len(value) > 1, [ds]


TESTS = [
    T("roundtrip", raw, run_roundtrip, 2000, 20000),
    T("many", many, run_roundtrip, 120, 2000),
]
