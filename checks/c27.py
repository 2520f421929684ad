"""C27: dataset getters return what is stored; interrupted downloads leave nothing behind.

The real getters run with HOME in a scratch directory and an urllib opener that plays the server
(with injected faults); faults that end the process run in forked children."""
import email
import io
import os
import resource
import shutil
import signal
import sys
import tempfile
import urllib.error
import urllib.request
import urllib.response

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vlib import gen as G
from vlib import oracle as O
from vlib.engine import T

BASE = tempfile.mkdtemp(prefix="verif-c27-home-")
HOME = os.path.join(BASE, "home", "user")
os.environ["HOME"] = HOME  # read when implicit.datasets is imported
CACHE = os.path.join(HOME, "implicit_datasets")

# name -> (file, matrix group, [label datasets], label width)
DATASETS = {
    "lastfm": ("lastfm_360k.hdf5", "artist_user_plays", ["artist", "user"]),
    "sketchfab": ("sketchfab.hdf5", "item_user_likes", ["item", "user"]),
    "msd": ("msd_taste_profile.hdf5", "track_user_plays", ["track", "user"]),
    "reddit": ("reddit.hdf5", "item_user_ratings", []),
    "movielens-20m": ("movielens_20m.hdf5", "movie_user_ratings", ["movie"]),
    "movielens-10m": ("movielens_10m.hdf5", "movie_user_ratings", ["movie"]),
    "movielens-1m": ("movielens_1m.hdf5", "movie_user_ratings", ["movie"]),
    "movielens-100k": ("movielens_100k.hdf5", "movie_user_ratings", ["movie"]),
}


def getter(ds):
    from implicit.datasets import lastfm, million_song_dataset, movielens, reddit, sketchfab
    if ds == "movielens-20m":
        return movielens.get_movielens
    if ds.startswith("movielens-"):
        return lambda: movielens.get_movielens(ds.split("-")[1])
    return {"lastfm": lastfm.get_lastfm, "sketchfab": sketchfab.get_sketchfab, "reddit": reddit.get_reddit,
            "msd": million_song_dataset.get_msd_taste_profile}[ds]


# ---------------------------------------------------------------- the server
class Fault(Exception):
    pass


EXC = {"reset": ConnectionResetError, "timeout": TimeoutError, "oserror": OSError, "interrupt": KeyboardInterrupt,
       "exit": SystemExit, "memory": MemoryError, "value": ValueError}


class Body(io.RawIOBase):
    def __init__(self, data, chunk, fault):
        super().__init__()
        self.data, self.pos, self.chunk, self.fault, self.reads = data, 0, chunk, fault, 0

    def readable(self):
        return True

    def read(self, n=-1):
        f = self.fault
        if SERVER.watch:
            SERVER.watch()
        if f and f["kind"] == "nested" and not f.get("done") and self.pos >= f["at"] * len(self.data) // 100:
            f["done"] = True
            f["run"]()
        if f and f["kind"] in ("raise", "kill") and self.pos >= f["at"] * len(self.data) // 100:
            if f["kind"] == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            raise EXC[f["exc"]]("injected")
        end = len(self.data)
        if f and f["kind"] == "truncate":
            end = min(end - 1, f["at"] * len(self.data) // 100)
        k = end - self.pos if n is None or n < 0 else min(n, end - self.pos)
        if self.chunk:
            k = min(k, self.chunk)
        out = self.data[self.pos:self.pos + k]
        self.pos += k
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


class Server(urllib.request.BaseHandler):
    handler_order = 100

    def __init__(self):
        self.files, self.fault, self.chunk, self.redirect, self.requests = {}, None, 0, False, 0
        self.watch = None

    def https_open(self, req):
        self.requests += 1
        url = req.full_url
        f = self.fault
        if f and f["kind"] == "refuse":
            raise urllib.error.URLError("injected: connection refused")
        if self.redirect and "/storage/" not in url:
            return self.respond(req, b"", 302, {"Location": "https://storage.example/storage/" + url.rsplit("/", 1)[1]})
        name = url.rsplit("/", 1)[1]
        if (f and f["kind"] == "status") or name not in self.files:
            return self.respond(req, b"<html>no</html>" * 50, f["code"] if f and f["kind"] == "status" else 404, {})
        return self.respond(req, self.files[name], 200, {}, f)

    http_open = https_open

    def respond(self, req, data, code, headers, fault=None):
        h = "Content-Length: %d\n" % len(data) + "".join("%s: %s\n" % kv for kv in headers.items())
        r = urllib.response.addinfourl(Body(data, self.chunk, fault), email.message_from_string(h), req.full_url, code)
        r.msg = "status %d" % code
        return r


SERVER = Server()
urllib.request.install_opener(urllib.request.build_opener(SERVER))


# ---------------------------------------------------------------- contents
_text = st.builds(lambda s, k: s * k, st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=8),
                  st.sampled_from([1, 1, 1, 1, 20, 70, 1000, 9000]))  # (some are long)


@st.composite
def content(draw):
    return {"shape": [draw(st.integers(1, 12)), draw(st.integers(1, 12))], "seed": draw(G.seeds),
            "density": draw(st.sampled_from([0.1, 0.4, 1.0])), "dtype": draw(st.sampled_from(["float32", "float32", "float64", "int32"])),
            "labels": draw(st.lists(_text, min_size=1, max_size=6)), "pad": draw(st.sampled_from([0, 0, 3000, 40000])),
            "zeros": draw(st.integers(0, 2)) == 0}


_bytes_cache = {}


def build(ds, c):
    """-> (file bytes, matrix, [labels])"""
    import h5py
    rng = np.random.RandomState(c["seed"] % 2**32)
    r, k = c["shape"]
    mask = rng.rand(r, k) < c["density"]
    mask[rng.randint(r), rng.randint(k)] = True
    mat = sp.csr_matrix(mask * rng.randint(1, 100, (r, k))).astype(c["dtype"])
    if c["zeros"]:  # stored zeros, entries not in column order
        mat.data[rng.rand(mat.nnz) < 0.3] = 0
        mat = G.shuffle_indices(mat, c["seed"])
    mat = sp.csr_matrix((mat.data, mat.indices, mat.indptr), shape=mat.shape)
    _, group, names = DATASETS[ds]
    labels = []
    for j, n in enumerate(names):
        base = c["labels"][j % len(c["labels"]):] + ["%s-%d" % (n, i) for i in range(c["shape"][j])]
        base = base[:c["shape"][j]]
        labels.append([[b, b + "x", "", n] for b in base] if n == "track" else base)
    path = os.path.join(BASE, "building.hdf5")
    with h5py.File(path, "w") as f:
        g = f.create_group(group)
        g.create_dataset("data", data=mat.data)
        g.create_dataset("indptr", data=mat.indptr)
        g.create_dataset("indices", data=mat.indices)
        dt = h5py.special_dtype(vlen=str)
        for n, lab in zip(names, labels):
            arr = np.array(lab, dtype=object)
            f.create_dataset(n, arr.shape, dtype=dt)[:] = arr
        if c["pad"]:
            f.create_dataset("pad", data=np.frombuffer(rng.bytes(c["pad"]), dtype=np.uint8))
    with open(path, "rb") as fh:
        data = fh.read()
    os.unlink(path)
    return data, mat, labels


def judge(what, ds, got, want):
    _, mat, labels = want
    parts = list(got) if isinstance(got, tuple) else [got]
    if len(parts) != len(labels) + 1:
        O.fail("%s: %d results, should be %d", what, len(parts), len(labels) + 1)
    m = parts[-1]
    if not sp.issparse(m) or m.getformat() != "csr":
        O.fail("%s: matrix is %s", what, type(m))
    if m.dtype != mat.dtype or m.shape[0] != mat.shape[0] or m.nnz != mat.nnz or m.shape[1] < mat.indices.max() + 1:
        O.fail("%s: matrix %s %s, stored %s %s", what, m.shape, m.dtype, mat.shape, mat.dtype)
    if not (np.array_equal(m.indptr, mat.indptr) and np.array_equal(m.indices, mat.indices) and np.array_equal(m.data, mat.data)):
        O.fail("%s: matrix differs from the one stored", what)
    for got_l, want_l in zip(parts, labels):
        if np.asarray(got_l).tolist() != want_l:
            O.fail("%s: labels %s, stored %s", what, np.asarray(got_l).tolist(), want_l)


def cached(ds):
    p = os.path.join(CACHE, DATASETS[ds][0])
    if not os.path.lexists(p):
        return None
    with open(p, "rb") as fh:
        return fh.read()


def reset(home=True):
    shutil.rmtree(os.path.dirname(HOME), ignore_errors=True)
    if home:  # (missing directories are created)
        os.makedirs(HOME)
    SERVER.files, SERVER.fault, SERVER.chunk, SERVER.redirect, SERVER.requests = {}, None, 0, False, 0
    SERVER.watch = None


# ---------------------------------------------------------------- what a cached file gives
@st.composite
def stored(draw):
    return {"ds": draw(st.sampled_from(list(DATASETS))), "c": draw(content()), "via": draw(st.sampled_from(["cache", "download"])),
            "chunk": draw(st.sampled_from([0, 1000, 8192])), "redirect": draw(st.booleans()), "home": draw(st.integers(0, 3)) > 0}


def run_stored(c):
    reset(c.get("home", True))
    ds = c["ds"]
    want = build(ds, c["c"])
    if c["via"] == "cache":
        os.makedirs(CACHE)
        with open(os.path.join(CACHE, DATASETS[ds][0]), "wb") as fh:
            fh.write(want[0])
    else:
        SERVER.files = {DATASETS[ds][0]: want[0]}
        SERVER.chunk, SERVER.redirect = c["chunk"], c["redirect"]
    get = getter(ds)
    judge("get %s" % ds, ds, get(), want)
    if (SERVER.requests > 0) != (c["via"] == "download"):
        O.fail("get %s: %d requests with the file %s", ds, SERVER.requests, "cached" if c["via"] == "cache" else "absent")
    if cached(ds) != want[0]:
        O.fail("get %s: the cached file differs from the %s", ds, c["via"])
    n, SERVER.files = SERVER.requests, {}
    judge("get %s again" % ds, ds, get(), want)
    if SERVER.requests != n:
        O.fail("get %s downloads again although cached", ds)
    return want[1].nnz > 1, [ds.split("-")[0], c["via"]]


# ---------------------------------------------------------------- histories with faults
_exc = st.sampled_from(sorted(EXC))
_pct = st.integers(0, 100)
faults = st.one_of(
    st.none(), st.none(),
    st.fixed_dictionaries({"kind": st.just("refuse")}),
    st.fixed_dictionaries({"kind": st.just("status"), "code": st.sampled_from([404, 500, 403, 503])}),
    st.fixed_dictionaries({"kind": st.just("truncate"), "at": st.integers(0, 99)}),
    st.fixed_dictionaries({"kind": st.just("raise"), "at": _pct, "exc": _exc}),
    st.fixed_dictionaries({"kind": st.just("kill"), "at": _pct}),
    st.fixed_dictionaries({"kind": st.just("diskfull"), "at": st.integers(0, 99)}),
    st.fixed_dictionaries({"kind": st.just("killevent"), "n": st.integers(0, 40)}),
    st.fixed_dictionaries({"kind": st.just("raiseevent"), "n": st.integers(0, 40), "exc": _exc}),
)
IN_CHILD = ("kill", "diskfull", "killevent", "raiseevent")


@st.composite
def history(draw):
    names = draw(st.lists(st.sampled_from(list(DATASETS)), min_size=1, max_size=2, unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        ds = draw(st.integers(0, len(names) - 1))
        k = draw(st.integers(0, 9))
        if k == 0:
            ops.append({"op": "drop", "ds": ds})
        elif k == 1:
            ops.append({"op": "publish", "ds": ds, "c": draw(content())})
        else:
            ops.append({"op": "get", "ds": ds, "fault": draw(faults)})
    return {"names": names, "contents": [draw(content()) for _ in names], "ops": ops,
            "chunk": draw(st.sampled_from([0, 1000, 8192])), "redirect": draw(st.booleans())}


def in_child(get, fault, size):
    """Runs get() in a forked child with the fault; -> how it ended."""
    pid = os.fork()
    if pid:
        _, status = os.waitpid(pid, 0)
        return status
    code = 99
    try:
        for fd in (1, 2):
            os.dup2(os.open(os.devnull, os.O_WRONLY), fd)
        if fault["kind"] == "diskfull":
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            lim = fault["at"] * size // 100
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        elif fault["kind"] in ("killevent", "raiseevent"):
            count = [0]

            def hook(event, _args):
                if event not in ("open", "os.rename", "os.remove", "os.mkdir", "os.truncate", "os.link", "os.chmod", "os.utime",
                                 "urllib.Request", "tempfile.mkstemp", "shutil.move", "shutil.copyfile", "os.listdir", "os.rmdir",
                                 "os.scandir", "shutil.rmtree", "import"):
                    return
                count[0] += 1
                if count[0] == fault["n"] + 1:
                    if fault["kind"] == "killevent":
                        os.kill(os.getpid(), signal.SIGKILL)
                    raise EXC[fault["exc"]]("injected")

            sys.addaudithook(hook)
        get()
        code = 0
    except BaseException:  # noqa
        code = 1
    finally:
        os._exit(code)


def run_history(c):
    reset()
    from implicit.datasets import _download  # noqa: F401 (imported before any fork)
    SERVER.chunk, SERVER.redirect = c["chunk"], c["redirect"]
    remote = {}
    for ds, cc in zip(c["names"], c["contents"]):
        remote[ds] = build(ds, cc)
        SERVER.files[DATASETS[ds][0]] = remote[ds][0]
        getter(ds)
    have = {ds: None for ds in c["names"]}
    labels, hits = set(), 0

    def check(what, ds, after=None):
        data = cached(ds)
        if data is None:
            if have[ds] is not None:
                O.fail("%s: the cached file has gone", what)
            return
        if have[ds] is None:
            if after is None or data != after[0]:
                O.fail("%s: a file of %d bytes was left in the cache, the dataset has %d", what, len(data), len(remote[ds][0]))
            have[ds] = after
        elif data != have[ds][0]:
            O.fail("%s: the cached file changed", what)

    def good(what, ds):
        SERVER.fault = None
        n, was = SERVER.requests, have[ds]
        got = getter(ds)()
        want = was or remote[ds]
        judge(what, ds, got, want)
        if was is not None and SERVER.requests != n:
            O.fail("%s: downloaded although cached", what)
        data = cached(ds)
        if data != want[0]:
            O.fail("%s: the cached file (%s bytes) is not the dataset (%d bytes)", what, data and len(data), len(want[0]))
        have[ds] = want

    for i, op in enumerate(c["ops"]):
        ds = c["names"][op["ds"]]
        what = "op %d: %s %s" % (i, op["op"], ds)
        if op["op"] == "drop":
            if have[ds] is not None:
                os.unlink(os.path.join(CACHE, DATASETS[ds][0]))
                have[ds] = None
        elif op["op"] == "publish":
            remote[ds] = build(ds, op["c"])
            SERVER.files[DATASETS[ds][0]] = remote[ds][0]
        elif op["fault"] is None:
            good(what, ds)
        else:
            f = op["fault"]
            what += " with %s" % f
            SERVER.fault = f
            if f["kind"] in IN_CHILD:
                in_child(getter(ds), f, len(remote[ds][0]))
                check(what, ds, after=remote[ds])
            elif have[ds] is not None:
                judge(what, ds, getter(ds)(), have[ds])
            else:
                try:
                    getter(ds)()
                except BaseException as e:  # noqa
                    if not isinstance(e, (Exception, KeyboardInterrupt, SystemExit)):
                        raise
                else:
                    O.fail("%s: returned although the download failed", what)
                check(what, ds)
            SERVER.fault = None
            if f["kind"] not in ("diskfull",) or have[ds] is None:
                hits += 1
            labels.add(f["kind"])
        for other in c["names"]:
            check(what + " (afterwards)", other)
    for ds in c["names"]:
        good("final get of %s" % ds, ds)
    return hits > 0, sorted(labels)


# ---------------------------------------------------------------- two downloads at the same time
@st.composite
def overlap(draw):
    level = st.fixed_dictionaries({"at": _pct, "fault": st.one_of(
        st.none(), st.none(),
        st.fixed_dictionaries({"kind": st.just("truncate"), "at": st.integers(0, 99)}),
        st.fixed_dictionaries({"kind": st.just("raise"), "at": _pct, "exc": _exc}),
        st.fixed_dictionaries({"kind": st.just("kill"), "at": _pct}))})
    return {"ds": draw(st.sampled_from(list(DATASETS))), "c": draw(content()), "levels": draw(st.lists(level, min_size=1, max_size=3)),
            "chunk": draw(st.sampled_from([0, 300, 1000, 8192])), "redirect": draw(st.booleans())}


def run_overlap(c):
    """While one download is under way (at a generated position) others of the same dataset start, and
    finish or fail. Whatever is under the final name at any time is the whole dataset."""
    reset()
    ds = c["ds"]
    from implicit.datasets import _download  # noqa: F401
    want = build(ds, c["c"])
    SERVER.files = {DATASETS[ds][0]: want[0]}
    SERVER.chunk, SERVER.redirect = c["chunk"], c["redirect"]
    get = getter(ds)
    failed = []

    def watch():
        data = cached(ds)
        if data is not None and data != want[0]:
            failed.append("%d of %d bytes are in the cache while the download runs" % (len(data), len(want[0])))

    SERVER.watch = watch
    starts = [0]

    def start(k):
        lv = c["levels"][k:]
        f = lv[0]["fault"] if lv else None
        starts[0] += 1
        before = cached(ds)
        if f is not None:
            SERVER.fault = f
            if f["kind"] == "kill":
                in_child(get, f, len(want[0]))
            else:
                try:
                    get()
                except (Exception, KeyboardInterrupt, SystemExit):  # noqa
                    pass
            SERVER.fault = None
            if cached(ds) != before:
                failed.append("download %d failed, and changed the cache" % k)
            return start(k + 1)
        if lv:
            SERVER.fault = {"kind": "nested", "at": lv[0]["at"], "run": lambda: start(k + 1)}
        else:
            SERVER.fault = None
        try:
            got = get()
        except Exception as e:  # noqa
            failed.append("download %d: %r" % (k, e))
            return
        finally:
            SERVER.fault = None
        try:
            judge("download %d" % k, ds, got, want)
        except O.Violation as e:
            failed.append(str(e))
        if cached(ds) != want[0]:
            failed.append("the cached file is not the dataset after download %d" % k)

    start(0)
    SERVER.watch = None
    if failed:
        O.fail("get %s, with %d downloads at the same time: %s", ds, starts[0], failed[0])
    return starts[0] > 1, ["%d starts" % starts[0]]


TESTS = [
    T("overlap", overlap, run_overlap, 600, 8000),
    T("stored", stored, run_stored, 1200, 20000),
    T("history", history, run_history, 1600, 30000),
]
