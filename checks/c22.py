"""C22: the filters named after standard constructors give what those make of the values."""
import collections
import json

import numpy as np
from hypothesis import strategies as st

from pandalone import xleash
from vlib import sheetmodel as sm
from vlib.core import check_eq, facet, fail

ID = "C22"
RULE = """
chains: 1-4 of the filters numpy, dict, odict & sorted, with arguments, on a table, row, column, pair or cell of
mixed-type cells captured, called alone, in pipes, as sub-filters of `recurse` or by a ranger, strictly or laxly; compared with these
constructors on the cells.  big: the same for up to 2000 rows.
Non-trivial: the values changed, and some of the filters got arguments or failed, or there were 2+ of them.
"""
ASSUMPTIONS = [
    "cells are numbers, texts, booleans & blanks (those that compare & hash as in python)",
]
FUNCS = {"numpy": np.array, "dict": dict, "odict": collections.OrderedDict, "sorted": sorted}


@st.composite
def calls(draw, ncols):
    name = draw(st.sampled_from(["numpy", "dict", "odict", "sorted", "dict", "odict"]))
    args, kw = [], {}
    if name == "numpy":
        k = draw(st.sampled_from(["", "", "dtype", "ndmin", "pos", "order", "bad"]))
        if k == "dtype":
            kw["dtype"] = draw(st.sampled_from(["object", "float", "int", "str", "U2", "i1", "bool", "complex"]))
            if draw(st.booleans()):
                kw["ndmin"] = draw(st.integers(0, 4))
        elif k == "ndmin":
            kw["ndmin"] = draw(st.integers(0, 4))
        elif k == "pos":
            args = [draw(st.sampled_from(["object", "float", "str"]))]
        elif k == "order":
            kw["order"] = draw(st.sampled_from("CFAK"))
        elif k == "bad":
            kw[draw(st.sampled_from(["dtype", "foo", "order"]))] = "nope"
    elif name == "sorted":
        k = draw(st.sampled_from(["", "", "rev", "rev", "bad"]))
        if k == "rev":
            kw["reverse"] = draw(st.sampled_from([True, True, False, 1, 0]))
        elif k == "bad":
            kw[draw(st.sampled_from(["foo", "key"]))] = draw(st.sampled_from([None, 1]))
    else:
        k = draw(st.sampled_from(["", "", "", "", "kw", "kw", "bad"]))
        if k == "kw":
            kw = draw(st.dictionaries(st.sampled_from(["a", "b", "é k", "x", "1"]), st.sampled_from([1, None, "x", [1], {}]), min_size=1, max_size=3))
        elif k == "bad":
            args = [draw(st.sampled_from([1, []]))]
    return (name, args, kw)


def cells():
    return st.one_of(
        st.integers(-3, 9),
        st.integers(-3, 9),
        st.sampled_from([0.5, -2.25, 10**12, 1e20, 3.0]),
        st.sampled_from(["a", "b", "B", "é", "x y", "", "10", "9", "a'\"b"]),
        st.sampled_from(["a", "b", "c", "x"]),
        st.booleans(),
        st.none(),
    )


@st.composite
def cases(draw, big=False):
    shape = draw(st.sampled_from(["pairs", "pairs", "pairs", "table", "row", "col", "col", "cell"]))
    nrows = 1 if shape in ("row", "cell") else draw(st.sampled_from([100, 600, 2000]) if big else st.integers(1, 6))
    ncols = {"pairs": 2, "col": 1, "cell": 1}.get(shape) or draw(st.integers(1, 4))
    kinds = draw(
        st.lists(st.sampled_from(["any", "int", "int", "txt", "txt", "num"]), min_size=ncols, max_size=ncols)
    )
    strat = {
        "any": cells(),
        "int": st.integers(-9, 9),
        "txt": st.sampled_from(["a", "b", "c", "d", "B", "é", "10", "9"]),
        "num": st.sampled_from([1, 2.5, -3, 0, 7, 1e10]),
    }
    if big:
        pools = [draw(st.lists(strat[k], min_size=3, max_size=7)) for k in kinds]
        step = draw(st.sampled_from([7919, 104729]))
        rows = [[p[(r * step // 97) % len(p)] for p in pools] for r in range(nrows)]
        uniq = draw(st.sampled_from([None, "%i", "k%i"]))
        if uniq:
            for r, row in enumerate(rows):
                row[0] = r * step % 4001 if uniq == "%i" else uniq % (r * step % 4001)
    else:
        rows = [[draw(strat[k]) for k in kinds] for _ in range(nrows)]
    if rows[-1][-1] is None:
        rows[-1][-1] = 1
    flts = draw(st.lists(calls(ncols), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 4]))))
    at = draw(st.sampled_from([(0, 0), (0, 0), (2, 1)]))
    how = draw(st.sampled_from(["one", "pipe", "pipe", "opts", "recurse", "ranger", "base"]))
    return (rows, shape, flts, at, how, draw(st.sampled_from([None, None, True, False])))


def deep(v):
    """Comparable by types & order of items."""
    if isinstance(v, dict):
        return (type(v).__name__, [(deep(k), deep(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [deep(x) for x in v])
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, v.flags["F_CONTIGUOUS"], deep(v.tolist()))
    return (type(v).__name__, repr(v))


def model(vals, flts, lax):
    """:return: ``(values, number of failures)``, or None if failing strictly"""
    fails = 0
    for name, args, kw in flts:
        try:
            vals = FUNCS[name](vals, *args, **kw)
        except Exception:
            fails += 1
            if not lax:
                return None
    return vals, fails


def check_chain(case, ctx):
    rows, shape, flts, at, how, lax = case
    if how == "one":
        flts = flts[:1]
    r0, c0 = at
    cells = [[None] * (c0 + len(rows[0])) for _ in range(r0)] + [[None] * c0 + r for r in rows]
    ref = "#%s%i" % (sm.col_name(c0), r0 + 1)
    if shape != "cell":
        ref += ":%s%i" % (sm.col_name(c0 + len(rows[0]) - 1), r0 + len(rows))
    sheet = xleash.ArraySheet(cells)
    if shape == "row":
        base, redim = rows[0], [["redim", {"row": 1, "cell": 1}]]
    elif shape == "col":
        base, redim = [r[0] for r in rows], [["redim", {"col": 1, "cell": 1}]]
    elif shape == "cell":
        base, redim = rows[0][0], []
    else:
        base, redim = [list(r) for r in rows], [["redim", {"table": 2, "row": 2, "col": 2, "cell": 2}]]
    specs = redim + [[n, a, k] for n, a, k in flts]
    what = "%s:%s %s of %r" % (ref, specs, how, rows)
    kw = {"sheet": sheet, "return_lasso": True}
    opts = {} if lax is None else {"lax": lax}
    exp = model(base, flts, lax)
    ranger = None
    if how == "one" and not redim:
        text = ref + ":" + json.dumps(specs[0])
        kw.update(base_opts=opts)
    elif how in ("one", "pipe", "ranger", "base"):
        text = ref + ":" + json.dumps({"func": "pipe", "args": specs})
        kw.update(base_opts=opts)
        if how == "ranger":
            ranger = xleash.make_default_Ranger(base_opts=opts)
        elif how == "base":
            flt = dict(xleash.installed_filters)
            kw.update(available_filters=flt)
    elif how == "opts":
        text = ref + ":" + json.dumps({"func": "pipe", "args": specs, "opts": opts})
    else:
        # A cell referring to the table, through sub-filters
        top = len(cells) + 2
        cells = cells + [[None]] * 2 + [[ref]]
        width = max(map(len, cells))
        sheet = kw["sheet"] = xleash.ArraySheet([r + [None] * (width - len(r)) for r in cells])
        text = "#A%i:%s" % (top + 1, json.dumps(["recurse", {"filters": specs}]))
        kw.update(base_opts=opts)
    try:
        res = ranger.do_lasso(text, sheet=sheet) if ranger else xleash.lasso(text, **kw)
    except Exception as ex:
        if exp is not None:
            fail("%s: %s: %s", what, type(ex).__name__, ex)
        if not isinstance(ex, ValueError):
            fail("%s: raised %s", what, type(ex).__name__)
        ctx.label("failing")
        return
    if exp is None:
        fail("%s: no error, but %r", what, res.values)
    check_eq(deep(res.values), deep(exp[0]), "%s", what)
    if how != "recurse":
        st_, nd = (tuple(res.st), res.nd and tuple(res.nd))
        check_eq(st_, at, "%s: top-left", what)
        check_eq(nd, None if shape == "cell" else (r0 + len(rows) - 1, c0 + len(rows[0]) - 1), "%s: bottom-right", what)
    ctx.nontrivial(
        deep(exp[0]) != deep(base) and (len(flts) > 1 or exp[1] > 0 or any(a or k for _, a, k in flts))
    )
    ctx.label(how, shape, *[n for n, _, _ in flts])


FACETS = [
    facet("chains", cases, check_chain, quick=5000, thorough=150000),
    facet("big", lambda: cases(True), check_chain, quick=150, thorough=4000),
]
