"""C21: the `df` & `sr` filters give what pandas would make of the very same table."""
import datetime as dt
import io
import json
import warnings

import numpy as np
import openpyxl
import pandas as pd
from hypothesis import strategies as st

from pandalone import xleash
from vlib import sheetmodel as sm
from vlib.core import HarnessError, check_eq, facet, fail

if "df" not in xleash.installed_filters:
    # Not (re-)installed as setuptools-plugin.
    from pandalone.xleash import _pandas_filters

    _pandas_filters.load_as_xleash_plugin()

ID = "C21"
RULE = """
args: a table of mixed cells somewhere in a sheet (of a workbook in memory, or of arrays), lassoed with the `df` filter
and random arguments of it; compared with pandas.read_excel() on a workbook with that same table on its top-left.
big: the same with up to 60 columns or 1100 rows.  Non-trivial: both made DataFrames, with 1+ rows and 1+ arguments given.
frames: DataFrames with (multi-)index and (multi-)columns, written by pandas and read back.
Non-trivial: a multi-index on some axis.
odd: a boolean `header` & args documented as unsupported must be refused, int `usecols`: same as those up to it,
captures beyond the sheet make empty DataFrames.  Non-trivial: not the 1st column only.
series: 2-column tables with the `sr` filter, compared with the pairs.  Non-trivial: 2+ pairs.
"""
ASSUMPTIONS = [
    "pandas.read_excel() with openpyxl (what the filter was copied & adapted from) is right",
    "arguments shared by the filter and read_excel() only; `squeeze` (not there any more) modelled on its documentation",
    "labels of series are unique",
]


# --------------------------------------------------------------------------
# Tables
# --------------------------------------------------------------------------
def labels():
    return st.sampled_from(["a", "b", "A", "x y", "Ω", "c", "d", 1, 2, 2.5, True, dt.datetime(2020, 1, 2)])


def numbers():
    return st.one_of(st.integers(-5, 5), st.sampled_from([0.5, -2.25, 1e10 + 0.5, 10**12]))


def texts():
    return st.sampled_from(
        ["x", "y z", "NA", "nan", "null", "None", "n/a", "-", "1", "1.5", "1,000", "2020-01-02", "yes", "no", "True", "#c", "x#y", " s ", "é"]
    )


def cells():
    return st.one_of(
        numbers(),
        numbers(),
        texts(),
        st.booleans(),
        st.datetimes(dt.datetime(1950, 1, 1), dt.datetime(2050, 1, 1)).map(
            lambda d: d.replace(microsecond=0, fold=0)
        ),
        st.none(),
    )


@st.composite
def columns(draw, n):
    """One of a single kind, usually."""
    kind = draw(st.sampled_from("nntbdmmB"))
    elem = {
        "n": numbers(),
        "t": texts(),
        "b": st.booleans(),
        "d": st.sampled_from([dt.datetime(2020, 1, 2), dt.datetime(2021, 3, 4, 5, 6, 7)]),
        "m": cells(),
        "B": st.none(),
    }[kind]
    if kind != "m" and draw(st.booleans()):
        elem = st.one_of(elem, elem, st.none())
    return draw(st.lists(elem, min_size=n, max_size=n))


def typed(v):
    return (type(v).__name__, repr(v))


def workbook(rows, at=(0, 0), name="S"):
    wb = openpyxl.Workbook()
    ws = wb.active
    ws.title = name
    for r, row in enumerate(rows):
        for c, v in enumerate(row):
            if v is not None:
                x = ws.cell(at[0] + r + 1, at[1] + c + 1)
                x.value = v
                if isinstance(v, str):
                    x.data_type = "s"
    out = io.BytesIO()
    wb.save(out)
    return out.getvalue()


def place(rows, at):
    width = len(rows[0]) + at[1]
    return [[None] * width] * at[0] + [[None] * at[1] + list(r) for r in rows]


def open_sheet(data):
    import xlrd
    from pandalone.xleash.io import _xlrd

    return _xlrd.XlrdSheet(xlrd.open_workbook(file_contents=data).sheet_by_index(0), "wb.xlsx")


def quiet(func, *args, **kwds):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return func(*args, **kwds)


def same(got, exp, what, *args):
    what = what % args
    if type(got) is not type(exp):
        fail("%s: got a %s, expected a %s", what, type(got).__name__, type(exp).__name__)
    try:
        if isinstance(exp, pd.DataFrame):
            pd.testing.assert_frame_equal(got, exp, check_exact=True, check_column_type=True)
        else:
            pd.testing.assert_series_equal(got, exp, check_exact=True)
    except AssertionError as ex:
        fail("%s: got\n%s\nexpected\n%s\nbecause %s", what, got, exp, ex)
    vals = lambda o: [[typed(v) for v in row] for row in o.reset_index().astype(object).values.tolist()]
    try:
        g, e = vals(got), vals(exp)
    except Exception:
        # Some labels clash when reset.
        return
    check_eq(g, e, "%s: values", what)


# --------------------------------------------------------------------------
# Arguments vs read_excel()
# --------------------------------------------------------------------------
def col_ranges(draw, ncols):
    parts = []
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, ncols - 1))
        j = draw(st.integers(i, ncols - 1))
        parts.append(sm.col_name(i) if i == j else "%s:%s" % (sm.col_name(i), sm.col_name(j)))
    return ",".join(parts)


@st.composite
def arg_cases(draw, big=False):
    ncols = draw(st.integers(1, 5))
    nrows = draw(st.integers(0, 6))
    if big:
        if draw(st.booleans()):
            ncols = draw(st.sampled_from([9, 11, 27, 28, 40, 60]))
        if ncols < 9 or draw(st.booleans()):
            nrows = draw(st.sampled_from([11, 30, 65, 101, 140]))
        if ncols < 6 and draw(st.booleans()):
            nrows = draw(st.sampled_from([260, 700, 1100]))
    nheads = draw(st.sampled_from([1, 1, 1, 0, 2, 2, 3]))
    heads = []
    for i in range(nheads):
        lbl = st.one_of(labels(), labels(), labels(), st.none()) if nheads > 1 or draw(st.booleans()) else labels()
        heads.append(draw(st.lists(lbl, min_size=ncols, max_size=ncols)))
    if big:
        # Repeat few values.
        k = draw(st.sampled_from([4, 7]))
        cols = [draw(columns(min(k, nrows))) for _ in range(min(ncols, 6))]
        cols = [[(cols[c % 6] * nrows)[r] for r in range(nrows)] for c in range(ncols)]
        if draw(st.booleans()):
            # a column of one odd value
            c, r = draw(st.integers(0, ncols - 1)), draw(st.integers(0, nrows))
            if r < nrows:
                cols[c] = [draw(cells()) if i == r else v for i, v in enumerate(cols[c])]
    else:
        cols = [draw(columns(nrows)) for _ in range(ncols)]
    if ncols > 1 and draw(st.integers(0, 3)) == 0:
        # labels of a multi-index
        n = min(nrows, 6)
        cols[0] = [v if draw(st.booleans()) else None for v in draw(st.lists(labels(), min_size=n, max_size=n))]
        cols[0] = (cols[0] * nrows)[:nrows]
    rows = heads + [list(r) for r in zip(*cols)]
    kw = {}
    index = lambda: st.integers(0, ncols - 1)
    menu = draw(
        st.lists(
            st.sampled_from(
                "header header header index_col index_col names usecols usecols squeeze dtype bools skiprows nrows na_values "
                "na_values keep_default_na parse_dates thousands comment skipfooter".split()
            ),
            max_size=4,
            unique=True,
        )
    )
    if nheads != 1 and "header" not in menu:
        menu = ["header"] + menu
    for arg in menu:
        if arg == "header":
            kw[arg] = draw(
                st.sampled_from(
                    {0: [None, None, 0], 1: [None, 0, [0], 1, [1], [2]], 2: [[0, 1], [0, 1], [0, 1], 1, [1], [2], None], 3: [[0, 1, 2], [0, 1, 2], [1, 2], [0, 2], 2, [2], [3]]}[
                        nheads
                    ]
                )
            )
        elif arg == "index_col":
            kw[arg] = draw(
                st.one_of(index(), index().map(lambda i: [i]), st.lists(index(), min_size=2, max_size=2, unique=True).map(sorted) if ncols > 1 else index())
            )
        elif arg == "names":
            n = draw(st.sampled_from([ncols, ncols, ncols, ncols + 1, max(1, ncols - 1)]))
            kw[arg] = ["N%i" % i for i in range(n)]
        elif arg == "usecols":
            how = draw(st.sampled_from(["ints", "text", "text", "labels"]))
            if how == "ints":
                kw[arg] = draw(st.lists(index(), min_size=1, max_size=ncols, unique=True))
            elif how == "text":
                kw[arg] = col_ranges(draw, ncols)
            else:
                kw[arg] = draw(
                    st.lists(st.sampled_from([h for h in (heads[0] if heads else ["a"]) if isinstance(h, str)] or ["a"]), min_size=1, max_size=2, unique=True)
                )
        elif arg == "squeeze":
            kw[arg] = draw(st.booleans())
        elif arg == "dtype":
            kw[arg] = draw(st.sampled_from(["object", "str", "float", {"a": "object"}, {"b": "str"}]))
        elif arg == "bools":
            kw["true_values"] = draw(st.sampled_from([["yes"], ["x", "yes"]]))
            if draw(st.booleans()):
                kw["false_values"] = draw(st.sampled_from([["no"], ["y z", "no"]]))
        elif arg == "skiprows":
            kw[arg] = draw(st.one_of(st.integers(0, 2), st.lists(st.integers(0, 4), max_size=2, unique=True)))
            if big and draw(st.booleans()):
                kw[arg] = draw(st.one_of(st.integers(0, nrows), st.lists(st.integers(0, nrows), max_size=30, unique=True)))
        elif arg == "nrows":
            kw[arg] = draw(st.integers(0, nrows if big else 5))
        elif arg == "na_values":
            kw[arg] = draw(st.sampled_from(["x", ["x", "-"], ["-"], [1], {"a": ["x"]}]))
        elif arg == "keep_default_na":
            kw[arg] = draw(st.booleans())
        elif arg == "parse_dates":
            kw[arg] = draw(st.one_of(st.just(True), st.lists(index(), min_size=1, max_size=2, unique=True)))
        elif arg == "thousands":
            kw[arg] = ","
        elif arg == "comment":
            kw[arg] = "#"
        elif arg == "skipfooter":
            kw[arg] = draw(st.integers(0, nrows if big else 2))
    if nheads > 1 and draw(st.integers(0, 2)):
        # A row with the names of the index.
        if "index_col" not in kw or draw(st.booleans()):
            kw["index_col"] = [0, 1] if ncols > 1 and draw(st.booleans()) else draw(st.sampled_from([0, [0]]))
        if isinstance(kw["header"], list) and draw(st.integers(0, 2)):
            kw["header"] = list(range(nheads))
        index_cols = kw["index_col"] if isinstance(kw["index_col"], list) else [kw["index_col"]]
        names = [draw(st.sampled_from(["i", "j", "k", None])) if c in index_cols else None for c in range(ncols)]
        rows.insert(nheads, names)
        if nrows and draw(st.booleans()):
            for c in index_cols:
                rows[nheads + 1][c] = None
        if draw(st.integers(0, 5)) == 0:
            del rows[nheads + 1 :]
    at = draw(st.sampled_from([(0, 0), (0, 0), (2, 1), (1, 3)] + ([(120, 30), (3, 700)] if big else [])))
    how = draw(st.sampled_from(["array", "array", "xlrd", "pos", "pipe"]))
    return (rows, kw, at, how)


def trim(rows):
    """Without the trailing blanks, as both a `__` edge and read_excel() do."""
    rows = [list(r) for r in rows]
    while rows and all(v is None for v in rows[-1]):
        rows.pop()
    while rows and rows[0] and all(r[-1] is None for r in rows):
        rows = [r[:-1] for r in rows]
    return rows


def check_args(case, ctx):
    rows, kw, at, how = case
    rows = trim(rows)
    if not rows:
        return
    if "nrows" in kw and any(
        len(trim(rows[:k])) != k or len(trim(rows[:k])[0]) != len(rows[0]) for k in range(1, len(rows))
    ):
        # read_excel() reads fewer rows and trims what got on the borders.
        kw = {k: v for k, v in kw.items() if k != "nrows"}
    skw = dict(kw)
    squeeze = skw.pop("squeeze", False)
    try:
        exp = quiet(pd.read_excel, io.BytesIO(workbook(rows)), engine="openpyxl", **skw)
    except Exception as ex:
        exp, err = None, ex
    if squeeze and exp is not None and len(exp.columns) == 1:
        exp = exp[exp.columns[0]]
    sheet = open_sheet(workbook(rows, at)) if how == "xlrd" else xleash.ArraySheet(place(rows, at))
    ref = "#%s%i:__:" % (sm.col_name(at[1]), at[0] + 1)
    fltr = ["df", kw] if kw else ["df"]
    if how == "pos" and "header" in kw:
        # the 1st argument
        fltr = ["df", [kw["header"]], {k: v for k, v in kw.items() if k != "header"}]
    elif how == "pipe":
        fltr = ["pipe", [["redim", {"table": [2, None]}], fltr]]
    what = "%s of %r" % (fltr, rows)
    try:
        res = quiet(xleash.lasso, ref + json.dumps(fltr), sheet=sheet, return_lasso=True)
    except ValueError as ex:
        if exp is not None:
            fail("%s: failed with %s, expected\n%s", what, ex, exp)
        ctx.label("both fail", type(err).__name__)
        return
    if exp is None:
        fail("%s: got\n%s\nalthough pandas failed with %r", what, res.values, err)
    same(res.values, exp, "%s", what)
    check_eq((tuple(res.st), tuple(res.nd)), (at, (at[0] + len(rows) - 1, at[1] + len(rows[0]) - 1)), "%s: rect", what)
    ctx.nontrivial(len(exp) > 0 and bool(kw))
    ctx.label(how, *kw)


# --------------------------------------------------------------------------
# Frames written by pandas
# --------------------------------------------------------------------------
@st.composite
def axes(draw, n, letter):
    """``(levels, names)``"""
    nlev = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    if nlev == 1:
        labels = draw(st.lists(st.sampled_from("abcdefgh"), min_size=n, max_size=n, unique=True))
        return [labels], [draw(st.sampled_from([None, letter]))]
    tuples = draw(
        st.lists(st.tuples(*[st.sampled_from("ab")] * (nlev - 1) + [st.sampled_from("uvwxyz")]), min_size=n, max_size=n, unique=True)
    )
    if draw(st.booleans()):
        tuples = sorted(tuples)
    named = draw(st.booleans())
    names = ["%s%i" % (letter, i) if named else None for i in range(nlev)]
    return [list(l) for l in zip(*tuples)], names


@st.composite
def frame_cases(draw):
    nrows, ncols = draw(st.integers(1, 8)), draw(st.integers(1, 7))
    kind = draw(st.sampled_from("nnmo"))
    elem = {"n": numbers(), "m": st.one_of(numbers(), st.none()), "o": st.one_of(numbers(), st.sampled_from(["x", "y"]), st.booleans())}[kind]
    values = [draw(st.lists(elem, min_size=ncols, max_size=ncols)) for _ in range(nrows)]
    return values, draw(axes(nrows, "R")), draw(axes(ncols, "C")), draw(st.booleans())


def make_axis(levels, names):
    if len(levels) == 1:
        return pd.Index(levels[0], name=names[0])
    return pd.MultiIndex.from_arrays(levels, names=names)


def check_frames(case, ctx):
    values, index, cols, merged = case
    df = pd.DataFrame(values, index=make_axis(*index), columns=make_axis(*cols))
    out = io.BytesIO()
    quiet(df.to_excel, out, sheet_name="S", merge_cells=merged)
    nidx, ncol = len(index[0]), len(cols[0])
    if not merged and ncol > 1:
        # Written as joined texts.
        ncol = 1
    header = list(range(ncol)) if ncol > 1 else 0
    index_col = list(range(nidx)) if nidx > 1 else 0
    kw = {"header": header, "index_col": index_col}
    exp = quiet(pd.read_excel, io.BytesIO(out.getvalue()), engine="openpyxl", **kw)
    what = "%s of %s" % (kw, df.to_csv())
    try:
        got = quiet(xleash.lasso, "#A1:__:" + json.dumps(["df", kw]), sheet=open_sheet(out.getvalue()))
    except ValueError as ex:
        fail("%s: failed with %s, expected\n%s", what, ex, exp)
    same(got, exp, "%s", what)
    # Unambiguous ones are those written.
    if kind_of(values) == "full" and (merged or len(cols[0]) == 1):
        try:
            same(exp.rename_axis(index=index[1], columns=cols[1]), df, "pandas")
        except AssertionError:
            ctx.label("not as written")
        else:
            ctx.label("as written")
            check_eq(list(got.index), list(df.index), "%s: index", what)
            check_eq(list(got.columns), list(df.columns), "%s: columns", what)
            check_eq(got.values.tolist(), df.values.tolist(), "%s: values", what)
    ctx.nontrivial(nidx > 1 or ncol > 1)
    ctx.label("%ix%i" % (nidx, ncol))


def kind_of(values):
    return "full" if all(v is not None for row in values for v in row) else "sparse"


# --------------------------------------------------------------------------
# Series
# --------------------------------------------------------------------------
@st.composite
def series_cases(draw):
    keys = st.one_of(
        st.lists(st.sampled_from(["a", "b", "c", "d", "x y", "Ω"]), min_size=1, max_size=5, unique=True),
        st.lists(st.integers(-3, 9), min_size=1, max_size=5, unique=True),
        st.lists(
            st.sampled_from(["a", "b", 5, 2.5, dt.datetime(2020, 1, 2)]), min_size=1, max_size=5, unique=True
        ),
    )
    keys = draw(keys)
    n = len(keys)
    vals = draw(columns(n))
    kw = {}
    if draw(st.booleans()):
        kw["name"] = draw(st.sampled_from(["S", "a b"]))
    if draw(st.booleans()):
        kw["dtype"] = "object"
    if all(isinstance(k, str) for k in keys) and draw(st.booleans()):
        kw["index"] = draw(st.lists(st.sampled_from(keys + ["zz"]), min_size=1, max_size=4, unique=True))
    ncols = draw(st.sampled_from([2, 2, 2, 2, 2, 1, 3]))
    how = draw(st.sampled_from(["array", "xlrd"]))
    return keys, vals, kw, ncols, how


def is_null(v):
    return v is None or v is pd.NaT or isinstance(v, float) and v != v


def plain(v):
    if is_null(v):
        return None
    if isinstance(v, pd.Timestamp):
        v = v.to_pydatetime()
    elif isinstance(v, np.generic):
        v = v.item()
    return v


def check_series(case, ctx):
    keys, vals, kw, ncols, how = case
    rows = [[k, v] for k, v in zip(keys, vals)]
    if ncols == 1:
        rows = [r[:1] for r in rows]
    elif ncols == 3:
        rows = [r + ["more"] for r in rows]
    sheet = open_sheet(workbook(rows)) if how == "xlrd" else xleash.ArraySheet(rows)
    ref = "#A1:%s%i:" % (sm.col_name(len(rows[0]) - 1), len(rows)) + json.dumps(["sr", kw] if kw else ["sr"])
    what = "%s of %r" % (ref, rows)
    try:
        res = quiet(xleash.lasso, ref, sheet=sheet, return_lasso=True)
    except ValueError as ex:
        if ncols == 2:
            fail("%s: failed with %s", what, ex)
        ctx.label("not 2-columns")
        return
    if ncols != 2:
        fail("%s: accepted, as\n%s", what, res.values)
    got = res.values
    if type(got) is not pd.Series:
        fail("%s: got a %s", what, type(got))
    pairs = dict(zip(keys, vals))
    exp_keys = kw.get("index", keys)
    exp = [(typed(k), typed(plain(pairs.get(k)))) for k in exp_keys]
    got_pairs = [(typed(plain(k)), typed(plain(v))) for k, v in zip(got.index, got)]
    # Types of indices & columns are inferred by pandas.
    loosen = lambda v: ("num", float(eval(v[1]))) if v[0] in ("int", "float", "bool") else v
    exp, got_pairs = [
        [(loosen(k), v if "dtype" in kw else loosen(v)) for k, v in pairs] for pairs in (exp, got_pairs)
    ]
    check_eq(got_pairs, exp, "%s: pairs", what)
    check_eq(got.name, kw.get("name"), "%s: name", what)
    if "dtype" in kw:
        check_eq(str(got.dtype), "object", "%s: dtype", what)
    check_eq((tuple(res.st), tuple(res.nd)), ((0, 0), (len(rows) - 1, 1)), "%s: rect", what)
    ctx.nontrivial(len(rows) > 1)
    ctx.label(how, *kw)


# --------------------------------------------------------------------------
# Refused & odd ones
# --------------------------------------------------------------------------
@st.composite
def odd_cases(draw):
    ncols = draw(st.integers(1, 4))
    heads = draw(st.lists(st.sampled_from("abcdef"), min_size=ncols, max_size=ncols, unique=True))
    n = draw(st.integers(1, 4))
    rows = [heads] + [draw(st.lists(cells(), min_size=ncols, max_size=ncols)) for _ in range(n)]
    rows[-1] = [1] * ncols
    kind = draw(st.sampled_from(["header", "refused", "refused", "usecols", "outside"]))
    if kind == "header":
        arg = {"header": draw(st.booleans())}
    elif kind == "refused":
        arg = {
            draw(st.sampled_from(["skip_footer", "chunksize", "date_parser"])): draw(st.sampled_from([0, 1, 2, None, "x"]))
        }
    elif kind == "usecols":
        arg = {"usecols": draw(st.integers(0, ncols - 1))}
    else:
        arg = draw(st.sampled_from([{}, {"header": None}, {"index_col": 0}, {"header": [0, 1]}, {"squeeze": True}]))
    return kind, rows, arg


def check_odd(case, ctx):
    kind, rows, arg = case
    sheet = xleash.ArraySheet(rows)
    ref = "#A1:__:"
    if kind == "outside":
        ref = "#%s%i:%s%i:" % (sm.col_name(len(rows[0]) + 2), len(rows) + 3, sm.col_name(len(rows[0]) + 4), len(rows) + 5)
    what = "%s%s of %r" % (ref, arg, rows)
    read = lambda arg: quiet(xleash.lasso, ref + json.dumps(["df", arg]), sheet=sheet)
    if kind in ("header", "refused"):
        try:
            got = read(arg)
        except (ValueError, TypeError, NotImplementedError):
            pass
        else:
            fail("%s: not refused, got\n%s", what, got)
    elif kind == "usecols":
        same(read(arg), read({"usecols": list(range(arg["usecols"] + 1))}), "%s", what)
    else:
        try:
            got = read(arg)
        except xleash.EmptyCaptureException:
            ctx.label("empty capture")
        else:
            if type(got) is not pd.DataFrame or got.size:
                fail("%s: got\n%s\nexpected an empty DataFrame", what, got)
    ctx.nontrivial(kind != "usecols" or arg["usecols"] > 0)
    ctx.label(kind)


FACETS = [
    facet("odd", odd_cases, check_odd, quick=800, thorough=10000),
    facet("args", arg_cases, check_args, quick=4000, thorough=120000),
    facet("big", lambda: arg_cases(big=True), check_args, quick=240, thorough=6000),
    facet("frames", frame_cases, check_frames, quick=800, thorough=20000),
    facet("series", series_cases, check_series, quick=1500, thorough=30000),
]
