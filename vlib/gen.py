"""Hypothesis strategies for JSON-able descriptions of matrices/factors, and their builders.

Small matrices are drawn entry by entry (they shrink to single entries); larger ones are described
by their shape, density and a drawn seed, so that a case stays a pure function of its JSON."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

seeds = st.integers(0, 2**20)

VALUES = {
    "ones": [1],
    "counts": [1, 2, 3, 4, 5, 8],
    "tiny": [2.0**-27, 2.0**-18, 2.0**-12, 2.0**-8, 0.5, 1],  # (held by float32)
    "frac": [0.25, 0.5, 1, 1.5, 2.75, 5],
    "signed": [1, 2, 0.5, 5, -1, -2, -0.5],
    "huge": [1, 7, 300, 50000, 100000],
    "big": [1, 40, 0.125, 1000, 7],
    "vast": [1, 3, 5e4, 2e6, 7e7],
}


@st.composite
def matrix(draw, rows=(1, 10), cols=(1, 10), kinds=("ones", "counts", "frac"), big_rows=None,
           big_cols=None, p_big=0.3, min_nnz=0):
    """A sparse matrix description: explicit entries, or seeded for larger shapes."""
    kind = draw(st.sampled_from(kinds))
    if big_rows and draw(st.floats(0, 1)) < p_big:
        r = draw(st.integers(*big_rows))
        c = draw(st.integers(*big_cols))
        return {"shape": [r, c], "kind": kind, "seed": draw(seeds),
                "density": draw(st.sampled_from([0.02, 0.05, 0.1, 0.2, 0.4, 0.8])),
                "hole": draw(st.booleans())}
    r = draw(st.integers(*rows))
    c = draw(st.integers(*cols))
    how = draw(st.sampled_from(["list", "list", "seed"]))
    if how == "seed":
        return {"shape": [r, c], "kind": kind, "seed": draw(seeds),
                "density": draw(st.sampled_from([0.1, 0.3, 0.5, 0.8, 1.0])),
                "hole": draw(st.booleans())}
    cells = draw(st.lists(st.integers(0, r * c - 1), max_size=min(r * c, 30), unique=True,
                          min_size=min(min_nnz, r * c)))
    vals = VALUES[kind]
    return {"shape": [r, c],
            "e": [[x // c, x % c, vals[draw(st.integers(0, len(vals) - 1))]] for x in cells]}


@st.composite
def long_matrix(draw, kinds, most=6000):
    """A few very long rows, or a few very long columns"""
    a, b = draw(st.integers(1, 6)), draw(st.sampled_from([700, 1025, 1500, 2049, 3000, 4097, most]))
    return {"shape": [a, b] if draw(st.booleans()) else [b, a], "kind": draw(st.sampled_from(kinds)),
            "seed": draw(seeds), "density": draw(st.sampled_from([0.3, 0.6, 0.9, 1.0])), "hole": False}


@st.composite
def zeroed(draw, strategy):
    """Sometimes some of the stored values are zeros"""
    m = draw(strategy)
    if draw(st.integers(0, 4)) == 0:
        m = dict(m, zeros=1 + draw(st.integers(0, 50)))
    return m


def build_matrix(m, dtype=np.float64, fmt="csr"):
    r, c = m["shape"]
    if "e" in m:
        e = m["e"]
        mat = sp.coo_matrix((np.array([x[2] for x in e], dtype=np.float64),
                             (np.array([x[0] for x in e], dtype=np.int32),
                              np.array([x[1] for x in e], dtype=np.int32))), shape=(r, c))
    else:
        rng = np.random.default_rng(m["seed"])
        mask = rng.random((r, c)) < m["density"]
        if m.get("hole"):
            mask[rng.random(r) < 0.25, :] = False
            mask[:, rng.random(c) < 0.25] = False
        if m.get("min1") and not mask.any():
            mask[0, 0] = True
        ii, jj = np.nonzero(mask)
        vals = np.array(VALUES[m["kind"]], dtype=np.float64)
        mat = sp.coo_matrix((vals[rng.integers(0, len(vals), len(ii))],
                             (ii.astype(np.int32), jj.astype(np.int32))), shape=(r, c))
    mat = mat.astype(dtype)
    out = mat.tocsr()
    out.sort_indices()
    if m.get("zeros"):
        out.data[np.random.default_rng(m["zeros"]).random(out.nnz) < 0.25] = 0
    return out if fmt == "csr" else out.asformat(fmt)


def shuffle_indices(csr, seed):
    """The same CSR matrix with the entries of each row in a shuffled order."""
    rng = np.random.default_rng(seed)
    m = csr.copy()
    for i in range(m.shape[0]):
        a, b = m.indptr[i], m.indptr[i + 1]
        perm = rng.permutation(b - a)
        m.indices[a:b] = m.indices[a:b][perm]
        m.data[a:b] = m.data[a:b][perm]
    m.has_sorted_indices = False
    return m


def duplicate_entries(csr, seed, p=0.3):
    """A CSR matrix in which some entries are stored twice (not canonical), value unchanged."""
    rng = np.random.default_rng(seed)
    ind, dat, ptr = [], [], [0]
    for i in range(csr.shape[0]):
        a, b = csr.indptr[i], csr.indptr[i + 1]
        x, d = csr.indices[a:b], csr.data[a:b]
        again = rng.random(b - a) < p
        ind += [x, x[again]]
        dat += [d, d[again]]
        ptr.append(ptr[-1] + (b - a) + int(again.sum()))
    m = sp.csr_matrix(csr.shape, dtype=csr.dtype)
    m.indices = np.concatenate(ind).astype(np.int32) if ind else m.indices
    m.data = np.concatenate(dat) if dat else m.data
    m.indptr = np.array(ptr, dtype=np.int32)
    m.has_sorted_indices = False
    m.has_canonical_format = False
    return m


FACTOR_KINDS = ["gauss", "smallint", "ties", "zerorows", "scaled", "positive", "negative", "close", "extreme"]


def factors(rows, cols, kinds=None):
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds or FACTOR_KINDS), "seed": seeds})


def build_factors(d, rows, cols, dtype):
    rng = np.random.default_rng([d["seed"], rows, cols])
    k = d["kind"]
    if k == "smallint":
        a = rng.integers(-3, 4, (rows, cols)).astype(np.float64)
    elif k == "ties":
        pool = rng.integers(-2, 3, (max(1, rows // 4), cols)).astype(np.float64)
        a = pool[rng.integers(0, len(pool), rows)]
    elif k == "close":  # groups of rows that differ far less than what single precision can tell apart
        pool = rng.standard_normal((max(1, rows // 4), cols))
        a = pool[rng.integers(0, len(pool), rows)] * (1 + 1e-10 * rng.integers(-200, 200, (rows, 1)))
    else:
        a = rng.standard_normal((rows, cols))
        if k == "zerorows":
            a[rng.random(rows) < 0.3] = 0
        elif k == "scaled":
            a *= 10.0 ** rng.integers(-3, 4, (rows, 1))
        elif k == "extreme":
            a *= 10.0 ** rng.integers(-14, 6, (rows, 1))
        elif k == "positive":
            a = np.abs(a)
        elif k == "negative":
            a = -np.abs(a)
    return np.ascontiguousarray(a.astype(dtype))


dtypes = st.sampled_from(["float32", "float64"])


def ids_list(n, max_size=8, min_size=0, unique=False):
    return st.lists(st.integers(0, n - 1), min_size=min_size, max_size=max_size, unique=unique)


def as_ids(ids, how):
    """list / tuple / int32 array / int64 array / strided, reversed or read-only array / numpy integers in a list"""
    if how == "ints":
        return [np.int64(x) for x in ids]
    if how == "view":
        return np.repeat(np.array(ids, dtype=np.int64), 2)[::2] if len(ids) % 2 else np.array(ids[::-1], dtype=np.int64)[::-1]
    if how == "ro":
        a = np.array(ids, dtype=np.int32)
        a.flags.writeable = False
        return a
    if how == "u8":
        return np.array(ids, dtype=np.uint64)
    if how == "list":
        return list(ids)
    if how == "tuple":
        return tuple(ids)
    if how in ("u4", "i2"):
        return np.array(ids, dtype=how)
    return np.array(ids, dtype={"i4": np.int32, "i8": np.int64}[how])


id_types = st.sampled_from(["list", "list", "i4", "i4", "i8", "i8", "view", "ro", "u8", "ints"])


DEFAULTS = {"N": 10, "filter_already_liked_items": True, "recalculate_user": False, "recalculate_item": False,
            "filter_items": None, "items": None, "filter_users": None, "users": None, "user_weights": None}


def terse(kw):
    """Leaves out the arguments that have their documented default (for half of the values of N)."""
    if kw.get("N", 10) % 2:
        return kw
    return {k: v for k, v in kw.items() if not (k in DEFAULTS and (v is None) == (DEFAULTS[k] is None)
                                                and (v is None or (np.ndim(v) == 0 and v == DEFAULTS[k])))}


def result_count(hi):
    """N: anything up to hi, with the documented default of 10 given extra weight"""
    return st.one_of(st.integers(1, hi), st.integers(1, hi), st.just(10))


ORDER = {"recommend": ["N", "filter_already_liked_items", "filter_items", "recalculate_user", "items"],
         "similar_items": ["N", "recalculate_item", "item_users", "filter_items", "items"],
         "similar_users": ["N", "filter_users", "users"]}


def ask(fn, args, kw):
    """Makes a query: with all arguments by keyword, without the defaults, or by position (depending on N)."""
    N = kw["N"]
    if np.ndim(args[0]) == 0 and N % 4 == 1:  # numpy integers are as good as int
        kind = [np.int64, np.int32, np.uint64][N % 5 % 3]
        args = (kind(args[0]),) + tuple(args[1:])
    if N % 3:
        return fn(*args, **terse(kw))
    order = ORDER[fn.__name__]
    assert set(kw) <= set(order), kw
    last = max(order.index(k) for k in kw)
    return fn(*args, *[kw.get(k, DEFAULTS.get(k)) for k in order[:last + 1]])
