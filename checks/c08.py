"""C08: element-wise filters (recursive lassoing & python-evaluation)."""
import copy
import json

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pandalone import xleash
from pandalone.xleash.io import backend
from vlib import sheetmodel as sm
from checks import c07
from vlib.core import facet, fail, check_eq

ID = "C08"
RULE = """
sheets: two sheets whose cells hold scalars, plain texts and xl-refs (absolute or relative to
their cell, into either sheet, possibly recursing further, or failing), captured as a
table, row, column or lone cell through a recurse filter with any depth and sub-filters;
(at times made a DataFrame before recursing) results are compared with an interpreter working on the cells' parts, not on their texts.
bigsheets: tables of up to 900 cells, or chains of up to 24 references.
bignested: as with nested, of many elements, keys, sub-filters or levels.
nested: structures of lists/dicts/scalars nested up to 4 levels with xl-ref strings (recurse) or
expressions (pyeval), any include/exclude/depth/sub-filters/strictness/laxness, compared with
a naive interpreter; values of expressions are those of python's own eval.
indexed: as with nested, on Series (as of flat dictionaries) and DataFrames (as of dictionaries of lists).
py: expressions over the values, as a sequence of filters, compared with the same in python; lassos returned keep their options, if any.
Non-trivial: at least one element was replaced and another string element was not (nested & indexed), or
at least 2 elements were replaced, one of them by a table or through a relative or
sibling-sheet reference (sheets).
"""
ASSUMPTIONS = [
    "an empty expression list excludes/includes nothing, as if not given",
    "blank strings are neither expressions nor not (python-evaluation makes them None), so they are not generated",
    "relative references are generated only in values as captured: their own cell is not known otherwise",
]

# --------------------------------------------------------------------------
# Sheets of references
# --------------------------------------------------------------------------
DIM = 4


class Fails(Exception):
    """It must be a ValueError."""


class Cyclic(Exception):
    """Refers to itself; not decided."""


PLAIN = ["foo", "a b", "A1", "1", "#", "##", "#A1:B2:", "s1!A1", "x#y z", "#A1(", '{"a": 1}']


@st.composite
def cell(draw):
    k = draw(st.sampled_from(["none", "none", "int", "int", "text"] + ["ref"] * 5))
    if k == "none":
        return None
    if k == "int":
        return draw(st.integers(-9, 9))
    if k == "text":
        return draw(st.sampled_from(PLAIN))
    return draw(refs())


@st.composite
def refs(draw, dots=True):
    """(ref, sheet|None, (row, col), None|(row, col), filter)"""

    def coord():
        if dots and draw(st.integers(0, 3)) == 0:
            return "."
        return draw(st.integers(0, DIM - 1))

    sheet = draw(st.sampled_from([None] * 12 + ["s1"] * 4 + ["s2"] * 8 + ["1", "nope"] * (draw(st.integers(0, 9)) == 9)))
    a = (coord(), coord())
    k = draw(st.sampled_from(["lone"] * 4 + ["rect"] * 3))
    b = None
    if k == "rect":
        # '.' of the 2nd edge means the 1st one's
        b = tuple(draw(st.one_of(st.just("."), st.just("."), st.integers(0, DIM - 1))) for _ in range(2))
    flt = draw(st.sampled_from([None] * 8 + ["recurse"] * 4 + ["laxboom"] * 2 + ["boom"] * (draw(st.integers(0, 9)) == 9)))
    return ("ref", sheet, a, b, flt)


def ref_text(ref):
    _, sheet, a, b, flt = ref

    def cell_text(rc):
        r, c = rc
        return "R%sC%s" % tuple("." if x == "." else x + 1 for x in (r, c))

    t = "#" + ("" if sheet is None else sheet + "!") + cell_text(a)
    if b is not None:
        t += ":" + ("..(R?)"[:2] if b == (".", ".") else cell_text(b))
    if flt == "laxboom":
        t += ':["boom", {"lax": true}]'
    elif flt:
        t += ':"%s"' % flt
    return t


def to_cell(c):
    return ref_text(c) if isinstance(c, tuple) else c


def boom(ranger, lasso, *args, **kwds):
    raise KeyError("boom!")


def filters_dict():
    d = dict(xleash.installed_filters)
    d["tag"] = {
        "func": lambda ranger, lasso, *a: lasso._replace(values={"tag": [lasso.values] + list(a)})
    }
    d["boom"] = {"func": boom}
    d["series"] = {
        "func": lambda ranger, lasso: lasso._replace(values=pd.Series([r[0] for r in lasso.values], dtype=object))
    }
    d["frame"] = {
        "func": lambda ranger, lasso: lasso._replace(values=pd.DataFrame(lasso.values, dtype=object))
    }
    return d


SUBS = [
    [],
    [],
    [],
    ["tag"],
    [["tag", ["t"]], "tag"],
    [["redim", {"cell": 0, "row": 1}]],
    [["boom", {"lax": True}], "tag"],
    ["boom"],
    [["redim", {"scalar": 1}], ["boom", {"lax": True}]],
]


def apply_subs(v, kind, subs):
    for s in subs:
        name = s if isinstance(s, str) else s[0]
        if name == "tag":
            v = {"tag": [v] + (s[1] if isinstance(s, list) else [])}
        elif name == "redim":
            v = c07.redim(v, s[1].get(kind))[0]
        elif isinstance(s, str):
            raise Fails("sub-filter")
    return v


class Interp(object):
    max_level = 6

    def __init__(self, sheets):
        self.sheets = sheets
        self.replaced = 0
        self.fancy = 0

    def sheet_of(self, cur, name):
        if name is None:
            return cur
        # "1" is only known by index, which is not a name of the cached sheets
        if name not in ("s1", "s2"):
            raise Fails("no sheet")
        return {"s1": 0, "s2": 1}[name]

    def lasso(self, ref, cur, own, level):
        """-> (values, kind)"""
        if level > self.max_level:
            raise Cyclic
        _, name, a, b, flt = ref
        a = tuple((own[i] if own else None) if x == "." else x for i, x in enumerate(a))
        sh = self.sheet_of(cur, name)
        rows = self.sheets[sh]
        if None in a:
            raise Fails("no base")
        nrows, ncols = len(rows), len(rows[0])
        if b is None:
            if a[0] >= nrows or a[1] >= ncols:
                raise Cyclic  # cells outside the sheet are not decided here
            vals = rows[a[0]][a[1]]
            kind = "scalar"
            st_ = a
        else:
            b = tuple(a[i] if x == "." else x for i, x in enumerate(b))
            r1, r2 = sorted((a[0], b[0]))
            c1, c2 = sorted((a[1], b[1]))
            if r2 >= nrows or c2 >= ncols:
                raise Cyclic
            vals = [r[c1 : c2 + 1] for r in rows[r1 : r2 + 1]]
            kind = ["cell", "row", "col", "table"][(c1 != c2) + 2 * (r1 != r2)]
            st_ = (r1, c1)
        if flt == "recurse":
            vals = self.recurse(vals, sh, st_, -1, [], level + 1)
        else:
            vals = texts(vals)
            if flt == "boom":
                raise Fails("boom")
        return vals, kind

    def recurse(self, vals, sh, st_, depth, subs, level, d=0, own=None):
        own = st_ if own is None else own
        if d == depth:
            return texts(vals)
        if isinstance(vals, tuple):
            v, kind = self.lasso(vals, sh, own, level)
            if level == 0:
                self.replaced += 1
                self.fancy += isinstance(v, list) or "." in vals[2] or vals[1] is not None
            return apply_subs(v, kind, subs)
        if isinstance(vals, list):
            out = []
            for i, v in enumerate(vals):
                o = (own[0] + i, own[1]) if d == 0 else (own[0], own[1] + i) if d == 1 else own
                out.append(self.recurse(v, sh, st_, depth, subs, level, d + 1, o))
            return out
        return vals


def texts(vals):
    if isinstance(vals, list):
        return [texts(v) for v in vals]
    return to_cell(vals)


def grid(rows):
    """An array of cells, even if they are lists"""
    arr = np.empty((len(rows), len(rows[0])), dtype=object)
    for r, row in enumerate(rows):
        for c, v in enumerate(row):
            arr[r, c] = v
    return arr


def typed(v):
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [typed(x) for x in v]
    if isinstance(v, dict):
        return [type(v).__name__, [(typed(k), typed(x)) for k, x in v.items()]]
    return (type(v).__name__, repr(v))


@st.composite
def sheet_cases(draw):
    sheets = []
    for i in range(2):
        nrows, ncols = draw(st.integers(1, DIM)), draw(st.integers(1, DIM))
        if draw(st.integers(0, 3)):
            nrows = ncols = DIM
        pool = [None, 5] + [draw(cell()) for _ in range(3)] + [draw(refs()) for _ in range(4)]
        idx = draw(
            st.lists(st.integers(0, len(pool) - 1), min_size=nrows * ncols, max_size=nrows * ncols)
        )
        if draw(st.integers(0, 3)) == 0:
            # Cells holding lists
            for _ in range(draw(st.integers(1, 2))):
                group = draw(st.lists(st.sampled_from(pool), max_size=3))
                pool[draw(st.integers(0, len(pool) - 1))] = draw(st.sampled_from([group, group, [group], [5, group, "foo"]]))
        sheets.append([[pool[idx[r * ncols + c]] for c in range(ncols)] for r in range(nrows)])
    rows = sheets[0]
    nrows, ncols = len(rows), len(rows[0])
    a = (draw(st.integers(0, nrows - 1)), draw(st.integers(0, ncols - 1)))
    b = draw(
        st.sampled_from(["lone", "any", "any", "any", "all", "all", "all"])
    )
    if b == "lone":
        b = None
    elif b == "all":
        a, b = (0, 0), (nrows - 1, ncols - 1)
    else:
        c = (draw(st.integers(0, nrows - 1)), draw(st.integers(0, ncols - 1)))
        a, b = tuple(map(min, a, c)), tuple(map(max, a, c))
    depth = draw(st.sampled_from([None] * 8 + [-1, -3, 0, 1, 2, 3, 3, 3, 4]))
    framed = draw(st.sampled_from([False, False, True, "series"]))
    if framed == "series" and b is not None and draw(st.booleans()):
        b = (b[0], a[1])
    return (sheets, a, b, depth, draw(st.sampled_from(SUBS)), draw(st.sampled_from([False, False, True])), framed)


@st.composite
def big_sheet_cases(draw):
    """Large tables of few kinds of cells, or long chains of references."""
    if draw(st.integers(0, 2)) == 0:
        n = draw(st.integers(2, 24))
        pool = [None, 5, "foo"]
        # each cell refers to the one below it
        rows = [[("ref", None, (i + 1, 0), draw(st.sampled_from([None, None, (i + 1, 0), (i + 1, 1)])), "recurse"), i] for i in range(n)]
        rows.append([draw(st.sampled_from([7, "foo", None, ("ref", None, (n, 1), None, None)])), "end"])
        rows += [[None, 0]] * max(0, 9 - n)
        sheets = [rows, [[1, 2]]]
        a, b = (0, 0), draw(st.sampled_from([None, (0, 0), (0, 1)]))
    else:
        nrows, ncols = draw(st.sampled_from([(300, 3), (3, 200), (40, 20), (14, 13), (110, 2), (27, 30)]))
        pool = [None, 5] + [draw(cell()) for _ in range(3)] + [draw(refs()) for _ in range(3)]
        pool += draw(st.sampled_from([[], [("ref", None, (".", 0), None, None)], [("ref", "s2", (1, 1), (2, 3), None), ("ref", None, (0, "."), None, None)]]))
        k = draw(st.sampled_from([1, 3, 5, 7]))
        rows = [[pool[(r * k + c * c) % len(pool)] for c in range(ncols)] for r in range(nrows)]
        # No references wherever they point to.
        for r in range(DIM):
            for c in range(DIM):
                if r < nrows and c < ncols and isinstance(rows[r][c], tuple) and draw(st.booleans()):
                    rows[r][c] = 10 * r + c
        sheets = [rows, [[r * 4 + c for c in range(DIM)] for r in range(DIM)]]
        a, b = (draw(st.integers(0, 2)), draw(st.integers(0, min(2, ncols - 1)))), (nrows - 1, ncols - 1)
    depth = draw(st.sampled_from([None] * 6 + [0, 1, 2, 3]))
    return (sheets, a, b, depth, draw(st.sampled_from(SUBS)), draw(st.sampled_from([False, False, True])), draw(st.sampled_from([False, False, True])))


def check_sheets(case, ctx):
    sheets, a, b, depth, subs, lax, framed = case
    framed = framed and b is not None
    if framed == "series" and (a[1] != b[1] or any(isinstance(r[a[1]], list) for r in sheets[0])):
        framed = True
    if b is None and isinstance(sheets[0][a[0]][a[1]], list):
        # What is below a lone cell has no cell of its own.
        ctx.label("undecided")
        return
    it = Interp(sheets)
    if len(sheets[0]) * len(sheets[0][0]) > DIM * DIM:
        it.max_level = 40
    if b is None:
        plain = sheets[0][a[0]][a[1]]
    else:
        plain = [r[a[1] : b[1] + 1] for r in sheets[0][a[0] : b[0] + 1]]
    if framed == "series":
        plain = [r[0] for r in plain]
    try:
        exp = it.recurse(plain, 0, a, -1 if depth is None else depth, subs, 0)
    except Fails:
        exp = Fails
    except Cyclic:
        ctx.label("undecided")
        return
    cells = [texts(s) for s in sheets]
    mine = copy.deepcopy(cells)
    shs = [
        xleash.ArraySheet(grid(mine[0]), ids=backend.SheetId("wb", ["s1", 0])),
        xleash.ArraySheet(grid(mine[1]), ids=backend.SheetId("wb", ["s2", 7])),
    ]
    text = ref_text(("ref", None, a, b, None))
    if a == (0, 0) and b == (len(sheets[0]) - 1, len(sheets[0][0]) - 1):
        # There is nothing to expand to, but for what gets recursed.
        text += ["", ":D", ":LURD", ":R1D?"][(len(str(sheets[0])) + len(str(sheets[1]))) % 4]
    kw = {}
    if depth is not None:
        kw["depth"] = depth
    if lax:
        kw["lax"] = True
    cs = ["recurse"] + ([[subs]] if subs else []) + ([kw] if kw else [])
    if framed:
        cs = ["pipe", ["series" if framed == "series" else "frame", cs]]
        ctx.label(cs[1][0])
    full = text + ":" + json.dumps(cs)
    with xleash.SheetsFactory() as sf:
        for s in shs:
            sf.add_sheet(s, sh_ids=[])
        how = "%s on %r" % (full, cells)
        try:
            got = xleash.lasso(full, sheets_factory=sf, sheet=shs[0], available_filters=filters_dict())
        except ValueError as ex:
            if exp is not Fails or lax:
                fail("%s failed with %s", how, ex)
            ctx.label("fails")
        else:
            if exp is Fails:
                if not lax:
                    fail("%s: got %r, but it should have failed", how, got)
                exp = texts(plain)
                ctx.label("laxed")
            if framed == "series":
                if not isinstance(got, pd.Series):
                    fail("%s: not a series, but %r", how, got)
                got = [got.iat[i] for i in range(len(got))]
            elif framed:
                if not isinstance(got, pd.DataFrame):
                    fail("%s: not a frame, but %r", how, got)
                got = [[got.iat[r, c] for c in range(got.shape[1])] for r in range(got.shape[0])]
            check_eq(typed(got), typed(exp), "%s", how)
            ctx.nontrivial(it.replaced > 1 and it.fancy)
            ctx.label("ok")
    check_eq(typed(mine), typed(cells), "sheets after %s", full)


# --------------------------------------------------------------------------
# Nested structures
# --------------------------------------------------------------------------
NSHEET = [[1, "two", None], ["#A1", 2.5, True]]
#: text -> (replaced?, value, kind)
NREFS = {
    "#A1": (1, "scalar"),
    "#B1": ("two", "scalar"),
    "#A2": ("#A1", "scalar"),
    "#A1:B1": ([[1, "two"]], "row"),
    "#B1:B1": ([["two"]], "cell"),
    "#B1:B2": ([["two"], [2.5]], "col"),
    '#A2:B2:"recurse"': ([[1, 2.5]], "row"),
    '#A1:"tag"': ({"tag": [1]}, "scalar"),
}
NBAD = ["#nope!A1", '#A1:"boom"', "nofile.unknown#A1", '#A1:"unknown"']
NTEXT = ["foo", "", "A1", "#A1:B2:", "a#b c", "x", "k"]

EXPRS = [
    "1",
    "1+2*3",
    "[1, 'b', [2]]",
    "{'k': [1, '2']}",
    "'a' + 'b'",
    "len([1,2,3]) > 2",
    "not 3",
    "max(3, 4) if 1 < 2 else 7",
    "[i * i for i in range(4)]",
    "None",
    "'#A1'",
    "'1+1'",
    "y1 = 3\ny1 + 1",
    "'abc'[1:]",
    "5 % 3 == 2 and 'yes' or 'no'",
    "lasso.st[1]",
    "elval",
    "xleash.lasso('#A2', sheet=lasso.sheet)",
    "lasso._replace(values=[0])",
    "lasso = context = elval = None\n7",
]
EVALS = {
    "y1 = 3\ny1 + 1": 4,
    "lasso.st[1]": 0,
    "elval": "elval",
    "lasso = context = elval = None\n7": 7,
    "xleash.lasso('#A2', sheet=lasso.sheet)": "#A1",
    "lasso._replace(values=[0])": [0],
}
NOEXPR = ["foo", "foo bar", "1+", "y1", "1/0", "int('g')", "a'+4", "1-'tt'", "[1,2", "k = k1", "None.x", "{}['k']", "#A1:]"]
NOEXPR = [e for e in NOEXPR if not e.startswith("#")]  # comments are blank programs

KEYS = ["k", "x", "a.b", "", 1, "1", "foo"]


def leafs(func):
    if func == "recurse":
        strs = st.one_of(
            st.sampled_from(sorted(NREFS)), st.sampled_from(sorted(NREFS)), st.sampled_from(NTEXT)
        )
        bad = st.sampled_from(NBAD)
    else:
        strs = st.one_of(st.sampled_from(EXPRS), st.sampled_from(EXPRS), st.sampled_from(NOEXPR))
        bad = st.just("raise ValueError('x')")
    other = st.sampled_from([None, 0, 1, 2.5, True])
    return st.integers(0, 60).flatmap(
        lambda i: bad if i == 0 else other if i < 12 else strs
    )


@st.composite
def structures(draw, func, level=0):
    k = draw(st.sampled_from(["leaf", "list", "list", "dict", "dict", "dict"] if level < 2 else ["leaf", "leaf", "list", "dict"]))
    if k == "leaf" or level > 4:
        return draw(leafs(func))
    n = draw(st.integers(0, 4))
    if k == "list" and draw(st.integers(0, 9)) == 0:
        # Neither list nor dictionary
        return tuple(draw(leafs(func)) for _ in range(n))
    if k == "list":
        return [draw(structures(func, level + 1)) for _ in range(n)]
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=n, max_size=n, unique=True))
    return {k: draw(structures(func, level + 1)) for k in keys}


keylists = st.one_of(
    st.none(),
    st.none(),
    st.sampled_from(["k", "x", "a.b", "nokey"]),
    st.lists(st.sampled_from(KEYS), max_size=4),
)


@st.composite
def nested_cases(draw):
    func = draw(st.sampled_from(["recurse", "recurse", "pyeval"]))
    v = draw(structures(func))
    kw = {}
    for n in ("include", "exclude"):
        x = draw(keylists)
        if x is not None or draw(st.integers(0, 9)) == 0:
            kw[n] = x
    if draw(st.booleans()):
        kw["depth"] = draw(st.sampled_from([-1, -2, None, 0, 1, 2, 2, 3, 4]))
    if func == "pyeval" and draw(st.booleans()):
        kw["eval_all"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        kw["lax"] = draw(st.booleans())
    return (func, v, kw, draw(st.sampled_from(SUBS)), draw(st.sampled_from(["kw", "arg", "arg", "npstr"])))


@st.composite
def big_nested_cases(draw):
    """Many elements, keys and sub-filters, or deep ones."""
    func, v, kw, subs, style = draw(nested_cases())
    k = draw(st.sampled_from(["deep", "list", "dict", "keys", "subs"]))
    if k == "deep":
        n = draw(st.integers(5, 45))
        for i in range(n):
            v = [v, draw(leafs(func))] if i % 3 else {"k": v, i: draw(leafs(func))}
        if "depth" in kw:
            kw["depth"] = draw(st.sampled_from([-1, n - 1, n, n + 1, 5, 11]))
        kw.pop("include", None)
    elif k == "list":
        v = ([draw(leafs(func)) for _ in range(5)] + [v]) * draw(st.sampled_from([3, 20, 60]))
    elif k == "dict":
        few = [draw(leafs(func)) for _ in range(5)]
        v = {("k%i" % i if i % 3 else i): copy.deepcopy(few[i * i % 5]) for i in range(draw(st.sampled_from([12, 70, 300])))}
    elif k == "keys":
        v = {"k%i" % i: [draw(leafs(func)), v] for i in range(12)}
    else:
        subs = [draw(st.sampled_from(["tag", ["tag", ["t"]], ["redim", {"cell": 0}]]))] * draw(st.integers(3, 14))
    if k in ("dict", "keys"):
        for n in draw(st.sampled_from([["include"], ["exclude"], ["include", "exclude"], []])):
            kw[n] = ["k%i" % i for i in range(draw(st.sampled_from([3, 11, 150]))) if i % 4]
    return (func, v, kw, subs, style)


class Nested(object):
    def __init__(self, func, kw, subs):
        self.func, self.subs = func, subs
        self.depth = kw.get("depth", -1)
        self.eval_all = kw.get("eval_all", False)
        self.inc, self.exc = self.keys(kw, "include"), self.keys(kw, "exclude")
        self.replaced = self.kept = 0

    def keys(self, kw, name):
        v = kw.get(name)
        if not v:
            return None
        return v if isinstance(v, list) else [v]

    def selected(self, k):
        if self.inc is not None and k not in self.inc:
            return False
        return self.exc is None or k not in self.exc

    def run(self, v, d=0):
        if d == self.depth:
            return self.keep(v)
        if isinstance(v, dict):
            return {
                k: self.run(x, d + 1) if self.selected(k) else self.keep(x) for k, x in v.items()
            }
        if isinstance(v, list):
            return [self.run(x, d + 1) for x in v]
        if isinstance(v, str):
            return self.element(v)
        return v

    def keep(self, v):
        for x in v.values() if isinstance(v, dict) else v if isinstance(v, list) else ():
            self.keep(x)
        self.kept += isinstance(v, str)
        return v

    def element(self, s):
        kind = "scalar"
        if self.func == "recurse":
            if s in NBAD:
                raise Fails
            if s not in NREFS:
                return self.keep(s)
            v, kind = NREFS[s]
        else:
            if s not in EXPRS:
                if self.eval_all:
                    raise Fails
                return self.keep(s)
            v = EVALS[s] if s in EVALS else eval(s, {})
        self.replaced += 1
        return apply_subs(copy.deepcopy(v), kind, self.subs)


def map_texts(v, func):
    if isinstance(v, dict):
        return {map_texts(k, func): map_texts(x, func) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(map_texts(x, func) for x in v)
    return func(v) if isinstance(v, str) else v


def check_nested(case, ctx, wrap=lambda v: v, unwrap=lambda v: v):
    if case[-1] == "npstr":
        # Texts as extracted from arrays
        wrap0, unwrap0 = wrap, unwrap
        wrap = lambda v: wrap0(map_texts(v, np.str_))  # noqa: E731
        unwrap = lambda v: map_texts(unwrap0(v), str)  # noqa: E731
    func, v, kw, subs, style = case
    m = Nested(func, kw, subs)
    lax = kw.get("lax", False)
    try:
        exp = m.run(copy.deepcopy(v))
    except Fails:
        exp = Fails
    src = wrap(copy.deepcopy(v))
    flt = filters_dict()
    flt["given"] = {"func": lambda ranger, lasso: lasso._replace(values=src)}
    if subs and style == "arg":
        cs = [func, [subs], kw]
    elif subs:
        cs = [func, dict(kw, filters=subs)]
    else:
        cs = [func, kw]
    full = "#A1:" + json.dumps(["pipe", ["given", cs]])
    sheet = xleash.ArraySheet(copy.deepcopy(NSHEET))
    what = "%s on values %r" % (full, src)
    ctx.label(func)
    try:
        got = xleash.lasso(full, sheet=sheet, available_filters=flt)
    except ValueError as ex:
        if exp is not Fails or lax:
            fail("%s failed with %s", what, ex)
        ctx.label("fails")
    else:
        if exp is Fails:
            if not lax:
                fail("%s: got %r, but it should have failed", what, got)
            exp = v
            ctx.label("laxed")
        if isinstance(v, (dict, list)) and m.depth != 0:
            check_eq(type(got), type(src), "type of %s", what)
        check_eq(typed(unwrap(got)), typed(exp), "%s", what)
        ctx.nontrivial(m.replaced and m.kept)
        ctx.label("replaced" if m.replaced else "none")
    check_eq(typed(unwrap(src)), typed(v), "values given to %s", what)
    check_eq(typed(sheet.read_rect((0, 0), (1, 2))), typed(NSHEET), "sheet after %s", what)


# --------------------------------------------------------------------------
# Series & frames
# --------------------------------------------------------------------------
@st.composite
def indexed_cases(draw):
    func, _, kw, subs, style = draw(nested_cases())
    keys = draw(st.lists(st.sampled_from([k for k in KEYS if k not in (1, "1")] + ["c", "d"]), min_size=1, max_size=4, unique=True))
    cell = st.one_of(leafs(func), leafs(func), leafs(func), leafs(func), structures(func, 3))
    kind = draw(st.sampled_from(["series", "frame", "frame"]))
    if kind == "series":
        v = {k: draw(cell) for k in keys}
    else:
        n = draw(st.integers(1, 3))
        v = {k: [draw(cell) for _ in range(n)] for k in keys}
    return kind, (func, v, kw, subs, style)


def check_indexed(case, ctx):
    kind, sub = case

    def column(vals, index=None):
        sr = pd.Series([None] * len(vals), index=index, dtype=object)
        for i, v in enumerate(vals):
            sr.iat[i] = v
        return sr

    if kind == "series":
        wrap = lambda v: column(list(v.values()), list(v))
        unwrap = lambda sr: dict(zip(sr.index, sr))
    else:
        wrap = lambda v: pd.DataFrame({k: column(col) for k, col in v.items()})
        unwrap = lambda df: {k: list(df[k]) for k in df.columns}
    check_nested(sub, ctx, wrap, unwrap)
    ctx.label(kind)


# --------------------------------------------------------------------------
# Expressions over the values
# --------------------------------------------------------------------------
#: text -> function of values & options
PYS = {
    "lasso.values": lambda v, o: (v, o),
    "[lasso.values, 1]": lambda v, o: ([v, 1], o),
    "len(str(lasso.values))": lambda v, o: (len(str(v)), o),
    "x = lasso.values\n[x, x]": lambda v, o: ([v, v], o),
    "array([1, 2]).tolist()": lambda v, o: ([1, 2], o),
    "lasso._replace(values=[lasso.values])": lambda v, o: ([v], o),
    "xleash.Lasso(values=[lasso.values, 1])": lambda v, o: ([v, 1], o),
    "xleash.Lasso(values=[lasso.values, 1], opts={'own': 1})": lambda v, o: ([v, 1], {"own": 1}),
    "xleash.Lasso(opts={})": lambda v, o: (None, {}),
    "xleash.Lasso()": lambda v, o: (None, o),
    "lasso._replace(opts={'own': 2}, values=0)": lambda v, o: (0, {"own": 2}),
    "lasso._replace(opts=None, values=0)": lambda v, o: (0, o),
    "sorted(dict(lasso.opts))": lambda v, o: (sorted(o), o),
    "None": lambda v, o: (None, o),
    "'' or []": lambda v, o: ([], o),
    "1 +": None,
    "nope": None,
    "1 / 0": None,
    "raise ValueError('x')": None,
}


@st.composite
def py_cases(draw):
    exprs = draw(
        st.lists(
            st.tuples(st.sampled_from(sorted(PYS)), st.sampled_from([None, None, None, True, False])), min_size=1, max_size=4
        )
    )
    opts = draw(st.one_of(st.none(), st.fixed_dictionaries({"in": st.integers(0, 3)}, optional={"lax": st.booleans()})))
    return exprs, opts, draw(st.sampled_from(["py", "py", "pyeval"])), draw(st.sampled_from(["#A1", "#A1:B2"]))


def check_py(case, ctx):
    exprs, refopts, how, ref = case
    base = {"base": 1}
    opts = dict(base, **(refopts or {}))
    v = copy.deepcopy(NSHEET[0][0] if ref == "#A1" else [r[:2] for r in NSHEET])
    flt = dict(xleash.installed_filters)
    flt["opts"] = {"func": lambda ranger, lasso: lasso._replace(values=["opts", lasso.values, sorted(lasso.opts.items())])}
    try:
        if how == "py":
            specs = []
            exp, o = v, opts
            for expr, lax in exprs:
                specs.append(["py", [expr]] + ([{"lax": lax}] if lax is not None else []))
                if PYS[expr] is None:
                    if not (o.get("lax", False) if lax is None else lax):
                        raise Fails
                else:
                    exp, o = PYS[expr](exp, o)
            exp = ["opts", exp, sorted(o.items())]
            specs.append("opts")
        else:
            # Elements of a list; a failing sub-filter is met only if succeeded.
            src = [e for e, _ in exprs if "lasso.values" not in e]
            flt["given"] = {"func": lambda ranger, lasso: lasso._replace(values=list(src))}
            specs = ["given", ["pyeval", {"filters": ["opts"]}]]
            exp = []
            for e in src:
                if PYS[e] is None:
                    exp.append(e)
                else:
                    x, o = PYS[e](None, opts)
                    exp.append(["opts", x, sorted(o.items())])
    except Fails:
        # The whole pipe may be lax.
        exp = v if opts.get("lax") else Fails
    spec = {"func": "pipe", "args": specs}
    if refopts is not None:
        spec["opts"] = refopts
    text = ref + ":" + json.dumps(spec)
    ranger = xleash.Ranger(backend.SheetsFactory(), copy.deepcopy(base), flt)
    for i in range(2):
        try:
            got = ranger.do_lasso(text, sheet=xleash.ArraySheet(copy.deepcopy(NSHEET))).values
        except ValueError as ex:
            if exp is not Fails:
                fail("%s: failed with %s", text, ex)
        else:
            if exp is Fails:
                fail("%s: did not fail, got %r", text, got)
            check_eq(typed(got), typed(exp), "%s", text)
    check_eq(ranger.base_opts, base, "base-opts after %s", text)
    ctx.nontrivial(len(exprs) > 1 and exp is not Fails)
    ctx.label("fails" if exp is Fails else how)


FACETS = [
    facet("py", py_cases, check_py, quick=1500, thorough=20000),
    facet("sheets", sheet_cases, check_sheets, quick=7000, thorough=200000),
    facet("bigsheets", big_sheet_cases, check_sheets, quick=400, thorough=4000),
    facet("bignested", big_nested_cases, check_nested, quick=900, thorough=20000),
    facet("nested", nested_cases, check_nested, quick=8000, thorough=150000),
    facet("indexed", indexed_cases, check_indexed, quick=2500, thorough=50000),
]
