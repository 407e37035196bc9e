"""C07: re-dimensioning of captured values."""
import copy
import datetime
import itertools
import json

from hypothesis import strategies as st

from pandalone import xleash
from vlib import sheetmodel as sm
from vlib.core import facet, fail, check_eq

ID = "C07"
RULE = """
captured: a lone cell, a cell, row, column or table (in absolute coordinates, or an empty
capture) of a sheet of mixed-type cells, and 1-3 redim filters in a row, each with
independent dimensions (nothing, null, 0-4, with or without transposition) for all 5 kinds, given as
positional or keyword arguments; compared with a pure-python model in value, type and
order.  big: tables of up to ~2000
cells.  nested: the same on values of 0-4 dimensions (even ragged) that a filter returned before.
laws: asking the dimension that values have changes nothing, and transposing twice neither.
Non-trivial: the last filter gave other values than the ones captured, and there were
at least 2 of them, or a scalar was up-scaled.
"""
ASSUMPTIONS = [
    "when a filter changed the values before, the kind is still that of the captured rectangle",
    "which of several single-item dimensions get dropped first is unspecified",
]
KINDS = ["scalar", "cell", "row", "col", "table"]


def cell_values():
    return st.one_of(
        st.integers(-5, 5),
        st.integers(10**18, 10**20),
        st.sampled_from([0.0, 1.0, -0.0, 2.5, True, False, "", "a", "1", None, None]),
        st.floats(width=32),
        st.sampled_from([datetime.datetime(2000, 1, 1, 2), datetime.date(2000, 1, 1), datetime.time(1)]),
        st.text(max_size=3),
    )


dim = st.one_of(
    st.sampled_from([None, 0, 1, 2, 3]),
    st.integers(0, 4),
    st.tuples(st.sampled_from([None, None, 0, 1, 2, 2, 3, 4]), st.sampled_from([True, True, True, False, 1, 0])).map(list),
)


@st.composite
def specs(draw):
    out = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
        dims = draw(st.lists(dim, min_size=5, max_size=5))
        npos = draw(st.integers(0, 5))
        omit = draw(st.sets(st.integers(0, 4), max_size=2))
        args = dims[:npos]
        kw = {k: d for i, (k, d) in enumerate(zip(KINDS, dims)) if i >= npos and i not in omit}
        out.append((args, kw))
    return out


def given(spec, kind):
    args, kw = spec
    i = KINDS.index(kind)
    return args[i] if i < len(args) else kw.get(kind)


def spec_json(spec):
    args, kw = spec
    cs = ["redim"]
    if args:
        cs.append(args)
    if kw:
        cs.append(kw)
    return cs


@st.composite
def captured_cases(draw):
    nrows, ncols = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    pool = draw(st.lists(cell_values(), min_size=2, max_size=6))
    idx = draw(st.lists(st.integers(0, len(pool) - 1), min_size=nrows * ncols, max_size=nrows * ncols))
    rows = [[pool[idx[r * ncols + c]] for c in range(ncols)] for r in range(nrows)]
    lone = draw(st.integers(0, 5)) == 0
    r1, r2 = sorted([draw(st.integers(0, nrows - 1)), draw(st.integers(0, nrows - 1))])
    c1, c2 = sorted([draw(st.integers(0, ncols - 1)), draw(st.integers(0, ncols - 1))])
    shape = draw(st.sampled_from(["any", "any", "row", "col", "cell"]))
    if shape in ("row", "cell"):
        r2 = r1
    if shape in ("col", "cell"):
        c2 = c1
    return (rows, (r1, c1), None if lone else (r2, c2), draw(specs()))


# -- the model: values as (shape, flat list)
def to_nd(v):
    def shape_of(vs):
        if all(isinstance(x, list) for x in vs) and vs:
            n = {len(x) for x in vs}
            if len(n) == 1:
                (n,) = n
                return (n,) + (shape_of([y for x in vs for y in x]) if n else ())
        return ()

    shape = shape_of([v])

    def flat(x, depth):
        if depth == len(shape):
            return [x]
        return [z for y in x for z in flat(y, depth + 1)]

    return shape, flat(v, 0)


def from_nd(shape, flat):
    if not shape:
        return flat[0]
    n, rest = shape[0], shape[1:]
    k = 1
    for d in rest:
        k *= d
    return [from_nd(rest, flat[i * k : (i + 1) * k]) for i in range(n)]


def transpose(shape, flat):
    strides = []
    k = 1
    for d in reversed(shape):
        strides.insert(0, k)
        k *= d
    new = tuple(reversed(shape))
    out = [
        flat[sum(i * s for i, s in zip(reversed(idx), strides))]
        for idx in itertools.product(*[range(d) for d in new])
    ]
    return new, out


def redim_shapes(shape, n):
    """All the acceptable shapes."""
    k = len(shape)
    if k == n:
        return {shape}
    if k < n:
        return {(1,) * (n - k) + shape}
    trivial = [i for i, d in enumerate(shape) if d == 1]
    if k - n > len(trivial):
        size = 1
        for d in shape:
            size *= d
        return {(1,) * (max(n, 1) - 1) + (size,)}
    return {
        tuple(d for i, d in enumerate(shape) if i not in drop)
        for drop in itertools.combinations(trivial, k - n)
    }


def redim(v, d):
    """All the acceptable results, or `v` itself if nothing is to be done"""
    if d is None:
        return [v]
    shape, flat = to_nd(v)
    n = d
    if isinstance(d, list):
        n, tr = d
        if tr:
            shape, flat = transpose(shape, flat)
    if n is None:
        return [from_nd(shape, flat)]
    return [from_nd(s, flat) for s in sorted(redim_shapes(shape, n))]


def typed(v):
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    return (type(v).__name__, repr(v))


def model(values, pipe, kind):
    cands = [values]
    for spec in pipe:
        d = given(spec, kind)
        cands = [r for v in cands for r in redim(v, d)]
    return cands


def kind_of(st_, nd):
    if nd is None:
        return "scalar"
    return ["cell", "row", "col", "table"][(st_[1] != nd[1]) + 2 * (st_[0] != nd[0])]


def ref(st_, nd):
    t = "#%s%d" % (sm.col_name(st_[1]), st_[0] + 1)
    if nd is not None:
        t += ":%s%d" % (sm.col_name(nd[1]), nd[0] + 1)
    return t


def size(v):
    return sum(size(x) for x in v) if isinstance(v, list) else 1


def check_captured(case, ctx):
    rows, st_, nd, pipe = case
    mine = copy.deepcopy(rows)
    sheet = xleash.ArraySheet(mine)
    kind = kind_of(st_, nd)
    text = ref(st_, nd)
    if nd is None:
        plain = rows[st_[0]][st_[1]]
    else:
        plain = [r[st_[1] : nd[1] + 1] for r in rows[st_[0] : nd[0] + 1]]
    empty = False
    exp = model(plain, pipe, kind)
    filters = [spec_json(s) for s in pipe]
    before = copy.deepcopy(filters)
    if len(filters) == 1:
        full = text + ":" + json.dumps(filters[0])
    else:
        full = text + ":" + json.dumps(["pipe", filters])
    got = xleash.lasso(full, sheet=sheet)
    if typed(got) not in [typed(e) for e in exp]:
        fail("%s on %r: got %r, expected %r", full, rows, got, exp[0])
    check_eq(typed(mine), typed(rows), "sheet after %s", full)
    check_eq(filters, before, "call-specs after %s", full)
    # ... and in one by one
    ctx.nontrivial(typed(got) != typed(plain) and (size(plain) > 1 or kind == "scalar"))
    ctx.label(kind, "pipe" if len(pipe) > 1 else "single")

    # Laws, regardless of the model.
    arr = got
    n = ndim(arr)
    key = json.dumps({kind: n})
    flt = {"given": {"func": lambda ranger, lasso: lasso._replace(values=copy.deepcopy(arr))}}
    flt.update(xleash.installed_filters)
    for f in (
        [["given"], ["redim", {kind: n}]],
        [["given"], ["redim", {kind: [n, False]}]],
        [["given"], ["redim", {kind: [None, False]}]],
        [["given"], ["redim", {kind: [None, True]}], ["redim", {kind: [None, True]}]],
        [["given"], ["redim", {kind: None}]],
        [["given"], ["redim"]],
        [["given"], ["redim", {k: [3, True] for k in KINDS if k != kind}]],
    ):
        again = xleash.lasso(text + ":" + json.dumps(["pipe", f]), sheet=sheet, available_filters=flt)
        check_eq(typed(again), typed(arr), "%s after %s on %r", f, full, rows)
    # column-major
    if kind != "scalar":
        tr = xleash.lasso(text + ":" + json.dumps(["redim", {kind: [1, True]}]), sheet=sheet)
        cols = [plain[r][c] for c in range(len(plain[0])) for r in range(len(plain))]
        check_eq(typed(tr), typed(cols), "transposed & flattened %s of %r", text, rows)
        flat = xleash.lasso(text + ":" + json.dumps(["redim", {kind: 1}]), sheet=sheet)
        check_eq(typed(flat), typed([v for r in plain for v in r]), "flattened %s of %r", text, rows)
    if not empty and pipe:
        x = xleash.lasso(text + ":" + xleash.xlwings_dims_call_spec(), sheet=sheet)
        want = {"scalar": 0, "cell": 1, "row": 1, "col": 1, "table": 2}[kind]
        check_eq(
            typed(x), typed(redim(plain, want)[0]), "xlwings-dims of %s on %r", text, rows
        )


def ndim(v):
    return len(to_nd(v)[0])


@st.composite
def big_cases(draw):
    """Tables of many rows or columns."""
    nrows, ncols = draw(st.sampled_from([(1, 300), (300, 1), (70, 30), (9, 130), (140, 11), (11, 12), (33, 7), (256, 2), (1, 1200), (1100, 1), (600, 3)]))
    nrows, ncols = max(1, nrows - draw(st.integers(0, 9))), max(1, ncols - draw(st.integers(0, 5)))
    pool = draw(st.lists(cell_values(), min_size=2, max_size=6))
    k = draw(st.sampled_from([2, 3, 7, 11]))
    rows = [[pool[(r * ncols + c) % len(pool)] if (r + c) % k else r * ncols + c for c in range(ncols)] for r in range(nrows)]
    r1, c1 = draw(st.integers(0, min(nrows - 1, 2))), draw(st.integers(0, min(ncols - 1, 2)))
    r2, c2 = nrows - 1, ncols - 1
    if draw(st.integers(0, 3)) == 0:
        r1 = draw(st.integers(0, r2))
    return (rows, (r1, c1), (r2, c2), draw(specs()))


@st.composite
def nested_cases(draw):
    nd_ = draw(st.sampled_from([0, 1, 1, 2, 3, 3, 3, 4, 4, 4]))
    shape = tuple(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 0] if i == nd_ - 1 else [1, 1, 2, 2, 3])) for i in range(nd_))
    n = 1
    for d in shape:
        n *= d
    pool = draw(st.lists(cell_values(), min_size=1, max_size=4))
    v = from_nd(shape, [pool[i % len(pool)] if i % 5 < 4 else i for i in range(n)])
    if nd_ > 1 and draw(st.integers(0, 5)) == 0 and v:
        # ragged
        tgt = v
        for _ in range(draw(st.integers(0, nd_ - 2))):
            tgt = tgt[-1]
        if isinstance(tgt, list):
            tgt[-1] = draw(st.sampled_from([[], [[]], 5, [1, 2, 3, 4], "x", {"a": [1]}]))
    kind = draw(st.sampled_from(KINDS))
    return (v, kind, draw(specs()), draw(st.sampled_from(["list", "list", "array"])))


RECTS = {"scalar": "#A1", "cell": "#A1:A1", "row": "#A1:B1", "col": "#A1:A2", "table": "#A1:B2"}


def check_nested(case, ctx):
    import numpy as np

    v, kind, pipe, how = case
    exp = model(v, pipe, kind)
    src = copy.deepcopy(v)
    if how == "array":
        shape, flat = to_nd(v)
        arr = np.empty(len(flat), dtype=object)
        arr[:] = flat
        src = arr.reshape(shape)
        src0 = src.copy()
    flt = {"given": {"func": lambda ranger, lasso: lasso._replace(values=src)}}
    flt.update(xleash.installed_filters)
    full = RECTS[kind] + ":" + json.dumps(["pipe", [["given"]] + [spec_json(s) for s in pipe]])
    sheet = xleash.ArraySheet([[1, 2], [3, 4]])
    got = xleash.lasso(full, sheet=sheet, available_filters=flt)
    if isinstance(got, np.ndarray):
        got = got.tolist()
    if typed(got) not in [typed(e) for e in exp]:
        fail("%s on values %r: got %r, expected %r", full, v, got, exp[0])
    if how == "list":
        check_eq(typed(src), typed(v), "values given to %s", full)
    else:
        check_eq((src.shape, typed(src.tolist())), (src0.shape, typed(src0.tolist())), "array given")
    shape = to_nd(v)[0]
    ctx.nontrivial(typed(got) != typed(v) and (size(v) > 1 or not shape))
    ctx.label("ndim%d" % len(shape), kind, how)


@st.composite
def empty_cases(draw):
    nrows, ncols = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    text = draw(st.sampled_from(["#A1(RD):..", "#^^:__", "#A1(DR)", "#A1(RD):Z9", "#B2(LU):..(RD)", "#:"]))
    return (nrows, ncols, text, draw(specs()))


def check_empty(case, ctx):
    nrows, ncols, text, pipe = case
    rows = [[None] * ncols for _ in range(nrows)]
    base = xleash.lasso(text, sheet=xleash.ArraySheet(rows))
    got = xleash.lasso(
        text + ":" + json.dumps(["pipe", [spec_json(s) for s in pipe]]), sheet=xleash.ArraySheet(rows)
    )
    if base != []:
        ctx.label("not empty")
        return
    ctx.nontrivial(got != [])

    def leaves(v):
        return [y for x in v for y in leaves(x)] if isinstance(v, list) else [v]

    check_eq(leaves(got), [], "values in empty %s with %r", text, pipe)


FACETS = [
    facet("captured", captured_cases, check_captured, quick=4000, thorough=200000),
    facet("big", big_cases, check_captured, quick=160, thorough=4000),
    facet("nested", nested_cases, check_nested, quick=6000, thorough=300000),
    facet("empty", empty_cases, check_empty, quick=400, thorough=4000, shards=2),
]
