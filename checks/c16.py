"""C16: JSON encoding round-trips every supported value."""
import copy
import datetime
import decimal
import io
import json
import math

from hypothesis import strategies as st

from vlib import boot  # noqa: F401
from vlib.core import check_eq, facet, fail

ID = "C16"
RULE = """
rich: nested documents (lists, dicts with any hashable keys, tuples, sets) with rich leaves:
DataFrames, Series, arrays of various dtypes, shapes & indexes filled from seeded random bytes or
odd values, dates, decimals, bytes, functions, classes & 30 other kinds of pickle-able objects (also big ones, and those of the package); encoded through dumps() or dump() with
various options, and decoded back.
big: as with rich, for up to 120 leaves, 60 levels, 100k bytes or 1500 rows.
plain: documents of plain JSON values, encoded by the standard library and decoded by the codec.
Non-trivial: at least 2 rich leaves of different kind, or a rich leaf below other containers (rich);
a nested document (plain).
"""
ASSUMPTIONS = [
    "plain JSON documents being an object with a member named as the marker of the codec ($qpickle) "
    "are not considered (objects nested within the document may have it)",
]

# --------------------------------------------------------------------------
# Specs of documents: (kind, ...) tuples
# --------------------------------------------------------------------------
FUNCS = ["len", "sorted", "dict", "float", "json.dumps", "math.sin", "numpy.sum", "pandas.DataFrame",
         "datetime.date", "os.path.join"]
TEXTS = ["", "a", "\r\n", "line\nline\r", " trailing \t\n", "=3D", "ä€𝄞", "\x00\x1a", "~" * 90, ".",
         "$qpickle", "\ud800", "x" * 75 + "\r\n y"]
ATOMS = [None, True, False, 0, 1, -1, 10, 13, 32, 61, 2**31, 2**63, -(2**70), 0.0, -0.0, 1.5, 1e300, 5e-324]
DTYPES = ["f8", "f4", "i8", "i2", "u1", "?", "c16", "M8[ns]", "m8[ns]", "O", "U3", "S2", "M8[D]"]


def atoms():
    return st.one_of(
        st.sampled_from(ATOMS).map(lambda v: ("atom", v)),
        st.sampled_from(TEXTS).map(lambda v: ("atom", v)),
        st.text(max_size=8).map(lambda v: ("atom", v)),
        st.sampled_from(["nan", "inf", "-inf"]).map(lambda v: ("float", v)),
        st.floats(allow_nan=False, allow_infinity=False).map(lambda v: ("atom", v)),
        st.integers(-(2**65), 2**65).map(lambda v: ("atom", v)),
    )


def names():
    return st.sampled_from(["a", "b", "é [km]", "", 0, 1, "\r\n", 2.5, ("x", 1), None])


@st.composite
def indexes(draw, n):
    kind = draw(st.sampled_from(["range", "ints", "text", "dates", "multi", "named", "dup", "cat", "tz", "freq"]))
    return (kind, n, draw(st.integers(0, 5)))


@st.composite
def rich(draw):
    kind = draw(
        st.sampled_from(
            "df df df sr sr arr arr bytes dt date td time dec cplx func set frozen npscalar np64 ts other other mcols".split()
        )
    )
    seed = draw(st.integers(0, 10**6))
    if kind == "df":
        n = draw(st.sampled_from([0, 1, 2, 5, 30]))
        m = draw(st.sampled_from([0, 1, 2, 4]))
        dtypes = [draw(st.sampled_from(DTYPES[:-2] + ["category", "string", "Int64"])) for _ in range(m)]
        dtypes = ["M8[ns]" if d == "M8[D]" else d for d in dtypes]
        cols = draw(st.lists(names(), min_size=m, max_size=m))
        return (kind, cols, dtypes, draw(indexes(n)), seed)
    if kind == "sr":
        n = draw(st.sampled_from([0, 1, 2, 5, 30]))
        dtype = draw(st.sampled_from(DTYPES[:10] + ["category", "string", "Int64"]))
        return (kind, draw(names()), dtype, draw(indexes(n)), seed)
    if kind == "arr":
        shape = draw(st.lists(st.integers(0, 4), max_size=3))
        return (kind, draw(st.sampled_from(DTYPES)), shape, draw(st.sampled_from("CF")), seed)
    if kind == "npscalar":
        return (kind, draw(st.sampled_from(DTYPES[:6])), seed)
    if kind == "bytes":
        return (kind, draw(st.one_of(st.binary(max_size=90), st.sampled_from([b"\r\n" * 40, b" \t=", b"\r"]))))
    if kind == "func":
        return (kind, draw(st.sampled_from(FUNCS)))
    if kind in ("set", "frozen"):
        return (kind, draw(st.lists(st.sampled_from(["a", 1, 2.5, None, "\r\n"]), max_size=4, unique=True)))
    return (kind, seed)


KEYS = ["a", "b", "_ver", "$q", "", 0, 1, -2, 2.5, None, True, ("t", 1), b"b", "\r\n"]


@st.composite
def specs(draw):
    """Leaves, wrapped a few at a time into containers."""
    pool = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 3, 4, 6]))):
        pool.append(draw(rich()) if draw(st.integers(0, 9)) < 7 else draw(atoms()))
    while len(pool) > 1 or draw(st.integers(0, 5)) == 0:
        n = draw(st.integers(0 if len(pool) == 1 else 1, min(len(pool), 3)))
        kids, pool = pool[:n], pool[n:]
        kind = draw(st.sampled_from(["list", "dict", "tuple"]))
        if kind == "dict":
            start = draw(st.integers(0, len(KEYS) - 1))
            kids = [(KEYS[(start + i) % len(KEYS)], k) for i, k in enumerate(kids)]
        pool.append((kind, kids))
    return pool[0]


def values(dtype, n, seed):
    import numpy as np
    import pandas as pd

    rnd = np.random.RandomState(seed % 2**31)
    raw = rnd.bytes(16 * max(n, 1))
    if dtype == "?":
        return np.frombuffer(raw, "u1")[:n] % 2 == 1
    if dtype in ("f8", "f4", "i8", "i2", "u1", "c16"):
        a = np.frombuffer(raw, dtype)[:n].copy()
        if dtype[0] in "fc" and n > 1 and seed % 3 == 0:
            a[0] = np.nan
        return a
    if dtype[0] in "Mm":
        a = (np.frombuffer(raw, "i8")[:n] // 4096).astype(dtype if "D" not in dtype else "M8[ns]")
        a = a.astype(dtype)
        if n > 1 and seed % 2:
            a[1] = "NaT"
        return a
    if dtype == "O":
        pool = [None, "x\r\n", 1, 2.5, "é", (1, 2), [3, "b"], float("nan"), {"k": 1}]
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = copy.deepcopy(pool[rnd.randint(len(pool))])
        return a
    if dtype[0] in "US":
        return np.array([["ab", "\r\n", "", "z "][i] for i in rnd.randint(4, size=n)], dtype=dtype)
    texts = [["ab", "\r\n", None, "z "][i] for i in rnd.randint(4, size=n)]
    if dtype == "category":
        return pd.Categorical(texts, categories=["z ", "ab", "\r\n"], ordered=bool(seed % 2))
    if dtype == "string":
        return pd.array(texts, dtype="string")
    return pd.array([[1, None, 13, 10][i] for i in rnd.randint(4, size=n)], dtype="Int64")


def make_index(spec):
    import pandas as pd

    kind, n, k = spec
    if kind == "range":
        return pd.RangeIndex(k, k + 2 * n, 2)
    if kind == "ints":
        return pd.Index([(i * 7 + k) % 31 for i in range(n)])
    if kind == "text":
        return pd.Index(["r%s\r\n" % i for i in range(n)], dtype=object)
    if kind == "dates":
        return pd.DatetimeIndex(["2020-0%s-13" % (1 + i % 9) for i in range(n)])
    if kind == "multi":
        return pd.MultiIndex.from_arrays(
            [[i % 2 for i in range(n)], ["k%s" % i for i in range(n)]], names=["x", None]
        )
    if kind == "named":
        return pd.Index(range(n), name="the\nname")
    if kind == "dup":
        return pd.Index(["a"] * n)
    if kind == "cat":
        return pd.CategoricalIndex(["ab"[i % 2] for i in range(n)], categories=["b", "a"])
    if kind == "tz":
        return pd.date_range("2020-01-01", periods=n, tz="UTC")
    return pd.date_range("2020-01-01", periods=n, freq="3D")


def build(spec):
    import importlib

    import numpy as np
    import pandas as pd

    kind = spec[0]
    if kind == "atom":
        return spec[1]
    if kind == "float":
        return float(spec[1])
    if kind == "list":
        return [build(s) for s in spec[1]]
    if kind == "tuple":
        return tuple(build(s) for s in spec[1])
    if kind == "dict":
        return {k: build(s) for k, s in spec[1]}
    if kind in ("set", "frozen"):
        return (set if kind == "set" else frozenset)(spec[1])
    if kind == "bytes":
        return spec[1]
    if kind == "func":
        mod, _, name = spec[1].rpartition(".")
        return getattr(importlib.import_module(mod or "builtins"), name)
    if kind == "df":
        _, cols, dtypes, index, seed = spec
        index = make_index(index)
        arrays = [pd.Series(values(d, len(index), seed + i), index=index) for i, d in enumerate(dtypes)]
        df = pd.concat(arrays, axis=1) if arrays else pd.DataFrame(index=index)
        cols = [repr(c) if isinstance(c, tuple) else c for c in cols]
        df.columns = pd.Index(cols, dtype=object if cols else None)
        return df
    if kind == "sr":
        _, name, dtype, index, seed = spec
        index = make_index(index)
        return pd.Series(values(dtype, len(index), seed), index=index, name=name)
    if kind == "arr":
        _, dtype, shape, order, seed = spec
        return np.array(
            values(dtype, int(np.prod(shape)), seed).reshape(shape), order=order, dtype=dtype
        )
    if kind == "npscalar":
        return values(spec[1], 2, spec[2])[0]
    seed = spec[1]
    if kind == "other":
        return others()[OTHERS[seed % len(OTHERS)]]
    if kind == "mcols":
        cols = pd.MultiIndex.from_product([["a", "é"], [1, "\r\n"]], names=["x", None])
        df = pd.DataFrame([values("i8", 4, seed), values("f8", 4, seed)], columns=cols)
        return df if seed % 2 else df.T
    if kind == "dt":
        return datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=seed * 997, microseconds=seed)
    if kind == "date":
        return datetime.date.fromordinal(1 + seed)
    if kind == "td":
        return datetime.timedelta(microseconds=seed * 10**6 - 5 * 10**11)
    if kind == "time":
        return datetime.time(seed % 24, seed % 60, 10, seed % 10**6, tzinfo=datetime.timezone.utc)
    if kind == "dec":
        return decimal.Decimal(seed) / 1000
    if kind == "cplx":
        return complex(seed, -seed)
    if kind == "np64":
        return np.datetime64(seed, "m")
    if kind == "ts":
        return pd.Timestamp(seed * 10**12, tz="UTC" if seed % 2 else None)
    raise AssertionError(kind)


RICH = set("df sr arr bytes dt date td time dec cplx func set frozen npscalar np64 ts other mcols".split())


def others():
    """Other pickle-able objects, by name."""
    import collections
    import enum
    import fractions
    import http
    import pathlib
    import re
    import uuid

    import numpy as np
    import pandas as pd
    from pandalone import mappings, xleash

    pmods = mappings.pmods_from_tuples([("/a", "B/C"), ("/~x(.)", r"Y\1"), ("", "/r")])
    pstep = pmods.step()
    pstep.a.k._tag("t").m._lock
    pstep.x1._schema.type = "list"
    shared = [1, {"k": 2}]
    return {
        "counter": collections.Counter("abca"),
        "ordered": collections.OrderedDict([("b", 1), ("a", [2])]),
        "default": collections.defaultdict(list, {"x": [1]}),
        "deque": collections.deque([1, "\r\n"], 5),
        "enum": http.HTTPStatus.NOT_FOUND,
        "fraction": fractions.Fraction(1, 3),
        "range": range(3, 99, 4),
        "slice": slice(1, None, 2),
        "regex": re.compile("a(b)*\r", re.I),
        "path": pathlib.PurePosixPath("/a/b c"),
        "uuid": uuid.UUID(int=2**127 + 5),
        "ellipsis": ...,
        "shared": [shared, shared, {"again": shared}],
        "bytearray": bytearray(b"\r\n =\n"),
        "pmod": pmods,
        "pstep": pstep,
        "coords": xleash.Coords(3, 4),
        "lasso": xleash.Lasso(xl_ref="#A1", values=[[1, "x"]], st=xleash.Coords(0, 1)),
        "exception": ValueError("a", 1),
        "interval": pd.Interval(0, 1.5),
        "period": pd.Period("2020-05", "M"),
        "nat": pd.NaT,
        "na": pd.NA,
        "structured": np.array([(1, "a"), (2, "\r\n")], dtype=[("n", "i4"), ("s", "U3")]),
        "masked": np.ma.masked_array([1, 2, 3], [False, True, False]),
        "big": np.arange(30000, dtype="i4").reshape(300, 100),
        "bigtext": "line \t\r\n=" * 20000,
        "bigframe": pd.DataFrame(np.arange(5000.0).reshape(1000, 5), columns=list("abcde")),
        "views": np.arange(24).reshape(2, 3, 4)[:, ::2, ::-1],
        "sparse": pd.arrays.SparseArray([0, 0, 1]),
    }


OTHERS = (
    "counter ordered default deque enum fraction range slice regex path uuid ellipsis shared bytearray pmod pstep coords lasso "
    "exception interval period nat na structured masked big bigtext bigframe views sparse"
).split()


def differ_others(a, b, path):
    """Of those not plainly equal."""
    import numpy as np
    import pandas as pd
    from pandalone import mappings

    if isinstance(a, mappings.Pstep):
        for what in (
            lambda p: (str(p), p._orig, p._paths(), p._paths(with_orig=True), p._paths(tag="t")),
            lambda p: (p.a.k.m._locked, p.x1._schema.type, p.x1._schema_exists(), p.a._schema_exists()),
        ):
            if what(a) != what(b):
                return "%s: %r != %r" % (path, what(b), what(a))
        return None
    if isinstance(a, np.ma.MaskedArray):
        return None if str(a) == str(b) and a.dtype == b.dtype else "%s: %r != %r" % (path, b, a)
    if isinstance(a, pd.arrays.SparseArray):
        return None if list(a) == list(b) and a.dtype == b.dtype else "%s: %r != %r" % (path, b, a)
    if isinstance(a, Exception):
        return None if a.args == b.args else "%s: %r != %r" % (path, b, a)
    if a is pd.NA or a is pd.NaT or a is ...:
        return None if a is b else "%s: %r is not %r" % (path, b, a)
    return "?"


def kinds(spec, depth=0):
    if spec[0] in RICH:
        yield spec[0], depth
    elif spec[0] in ("list", "tuple"):
        for s in spec[1]:
            for k in kinds(s, depth + 1):
                yield k
    elif spec[0] == "dict":
        for _, s in spec[1]:
            for k in kinds(s, depth + 1):
                yield k


# --------------------------------------------------------------------------
def differ(a, b, path="doc"):
    """:return: what differs, or None."""
    import numpy as np
    import pandas as pd

    if type(a) is not type(b):
        return "%s: type %s != %s" % (path, type(b).__name__, type(a).__name__)
    odd = differ_others(a, b, path)
    if odd != "?":
        return odd
    if isinstance(a, pd.DataFrame):
        try:
            pd.testing.assert_frame_equal(a, b, check_exact=True, check_freq=True, check_column_type="exact")
        except AssertionError as ex:
            return "%s: %s" % (path, ex)
        return differ_index(a.index, b.index, path) or differ_index(a.columns, b.columns, path)
    if isinstance(a, pd.Series):
        try:
            pd.testing.assert_series_equal(a, b, check_exact=True, check_freq=True)
        except AssertionError as ex:
            return "%s: %s" % (path, ex)
        return differ_index(a.index, b.index, path)
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return "%s: array %s%s != %s%s" % (path, b.dtype, b.shape, a.dtype, a.shape)
        if a.dtype == object:
            return differ(a.tolist(), b.tolist(), path)
        if a.tobytes() != b.tobytes():
            return "%s: array %r != %r" % (path, b, a)
        return None
    if isinstance(a, np.generic):
        if a.tobytes() != b.tobytes() or a.dtype != b.dtype:
            return "%s: %r != %r" % (path, b, a)
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %s != %s" % (path, len(b), len(a))
        if [first(a, x) for x in a] != [first(b, x) for x in b]:
            return "%s: not the same items shared" % path
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s[%s]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict):
        if [(type(k), k) for k in a] != [(type(k), k) for k in b]:
            return "%s: keys %r != %r" % (path, list(b), list(a))
        for k in a:
            d = differ(a[k], b[k], "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, float):
        same = math.isnan(a) and math.isnan(b) or (
            a == b and math.copysign(1, a) == math.copysign(1, b)
        )
        return None if same else "%s: %r != %r" % (path, b, a)
    if a is None or callable(a):
        return None if a is b else "%s: %r is not %r" % (path, b, a)
    return None if a == b else "%s: %r != %r" % (path, b, a)


def first(items, item):
    """:return: where an object which may be modified is, first"""
    return [x is item for x in items].index(True) if isinstance(item, (list, dict)) else None


def differ_index(a, b, path):
    if type(a) is not type(b) or a.dtype != b.dtype or list(a.names) != list(b.names):
        return "%s: index %r != %r" % (path, b, a)
    return None


OPTS = [{}, {}, {"indent": 2}, {"sort_keys": True}, {"ensure_ascii": False}, {"separators": (",", ":")}]


@st.composite
def rich_cases(draw):
    return {"spec": draw(specs()), "opts": draw(st.integers(0, len(OPTS) - 1)), "io": draw(st.booleans())}


@st.composite
def big_cases(draw):
    """Of many leaves, levels or bytes."""
    kind = draw(st.sampled_from(["many", "deep", "bytes", "frame", "array"]))
    if kind == "many":
        few = [draw(rich()) for _ in range(3)] + [draw(atoms())]
        n = draw(st.sampled_from([12, 50, 120]))
        spec = (draw(st.sampled_from(["list", "tuple"])), [few[i * i % 4] for i in range(n)])
        if draw(st.booleans()):
            spec = ("dict", [("k%i" % i, few[i % 4]) for i in range(n)])
    elif kind == "deep":
        spec = draw(specs())
        for i in range(draw(st.integers(5, 60))):
            spec = [("list", [spec]), ("dict", [("k", spec), (i, ("atom", i))]), ("tuple", [("atom", i), spec])][draw(st.integers(0, 2)) if i < 9 else i % 3]
    elif kind == "bytes":
        # Any length, of a few patterns
        n = draw(st.one_of(st.integers(0, 300), st.sampled_from([999, 1000, 4096, 65535, 65536, 100001])))
        pat = draw(st.one_of(st.binary(min_size=1, max_size=7), st.sampled_from([b"a", b"=", b"\r", b"\n", b" ", b"\xff", b"\r\n", b"a" * 75 + b" "])))
        spec = ("bytes", (pat * n)[:n])
        if draw(st.booleans()):
            try:
                spec = ("atom", spec[1].decode("latin-1"))
            except ValueError:
                pass
    else:
        seed = draw(st.integers(0, 10**6))
        if kind == "frame":
            n, m = draw(st.sampled_from([(300, 2), (2, 90), (100, 12), (1500, 1)]))
            few = [draw(st.sampled_from(["f8", "i8", "?", "M8[ns]", "O", "category", "string", "Int64"])) for _ in range(2)]
            spec = ("df", ["c%i" % i for i in range(m)], [few[i % 2] for i in range(m)], (draw(indexes(n))), seed)
        else:
            shape = draw(st.sampled_from([[1000], [70, 33], [1] * 9, [2] * 10, [5, 0, 7], [300, 3]]))
            spec = ("arr", draw(st.sampled_from(DTYPES)), shape, draw(st.sampled_from("CF")), seed)
    return {"spec": spec, "opts": draw(st.integers(0, len(OPTS) - 1)), "io": draw(st.booleans())}


def check_rich(case, ctx):
    from pandalone.pandata import JSONCodec

    doc = build(case["spec"])
    opts = OPTS[case["opts"]]
    if case["io"]:
        fp = io.StringIO()
        json.dump(doc, fp, cls=JSONCodec.Encoder, **opts)
        text = fp.getvalue()
        got = json.load(io.StringIO(text), cls=JSONCodec.Decoder)
    else:
        text = json.dumps(doc, cls=JSONCodec.Encoder, **opts)
        got = json.loads(text, cls=JSONCodec.Decoder)
    diff = differ(build(case["spec"]), doc)
    if diff:
        fail("encoding modified the document: %s", diff)
    diff = differ(doc, got)
    if diff:
        fail("decoded document differs: %s", diff)
    # The text is JSON, and still decodes when carried as bytes.
    json.loads(text)
    again = json.loads(text.encode("utf-8"), cls=JSONCodec.Decoder)
    diff = differ(doc, again)
    if diff:
        fail("decoding bytes differs: %s", diff)
    found = list(kinds(case["spec"]))
    ctx.label(*sorted({k for k, _ in found}))
    ctx.nontrivial(len({k for k, _ in found}) > 1 or any(d for _, d in found))


def plain():
    leaf = st.one_of(
        st.sampled_from([None, True, False, 0, 1, -5, 2**70, 1.5, -0.0, "", "é\n", "$qpickle", "gAN9cQAu"]),
        st.text(max_size=5),
        st.floats(),
    )
    return st.recursive(
        leaf,
        lambda kids: st.one_of(
            st.lists(kids, max_size=4),
            st.dictionaries(st.sampled_from(["a", "b", "_ver", "", "é", "$qpickle", "$pickle"]), kids, max_size=4),
        ),
        max_leaves=8,
    ).filter(lambda doc: not (isinstance(doc, dict) and "$qpickle" in doc))


def check_plain(case, ctx):
    from pandalone.pandata import JSONCodec

    text = json.dumps(case)
    diff = differ(json.loads(text), json.loads(text, cls=JSONCodec.Decoder))
    if diff:
        fail("decoding plain %s: %s", text, diff)
    # ... and through the codec alone
    diff = differ(case, json.loads(json.dumps(case, cls=JSONCodec.Encoder), cls=JSONCodec.Decoder))
    if diff:
        fail("round-trip of plain %s: %s", text, diff)
    for bad in (text + "]", "{" + text):
        try:
            got = json.loads(bad, cls=JSONCodec.Decoder)
        except ValueError:
            pass
        else:
            fail("malformed %r decoded to %r", bad, got)
    ctx.nontrivial(isinstance(case, (list, dict)) and bool(case))


FACETS = [
    facet("rich", rich_cases, check_rich, quick=4000),
    facet("big", big_cases, check_rich, quick=400, thorough=10000),
    facet("plain", plain, check_plain, quick=2000),
]
