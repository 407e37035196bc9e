"""C04: a captured rectangle returns exactly its cells, in shape and in value."""
import copy
import datetime

from hypothesis import strategies as st

from pandalone import xleash
from vlib import sheetgen as sg, sheetmodel as sm
from vlib.core import facet, fail, check_eq

ID = "C04"
RULE = """
values: a sheet of mixed cells (ints of any size, floats with nan/inf, texts incl. empty
& xl-ref-like ones, booleans, dates, None), possibly empty or of no cells, an xl-ref
(1 or 2 edges, moves, expansions, colon shortcuts) and all ways to invoke it;
values are compared in type and repr with those of a naive model, the sheet and its
input with copies from before.  mirror: the same xl-ref on a flipped or transposed
sheet must capture the flipped or transposed values (model-free).
big: sheets up to 66000 rows or 33000 columns with few runs of full cells, compared with the same model, in place and values.
Non-trivial: captured anything past the 127th row or column (big);
captured at least 2 distinct full cells of different types (values);
captured cells, less than the whole sheet (mirror).
"""
ASSUMPTIONS = [
    "cells of in-memory sheets are scalars (no nested sequences)",
    "blank padding for the part of the rectangle outside the sheet is unspecified "
    "(the in-memory sheet truncates it, an Excel one fills in blanks), except that "
    "nothing full can appear there",
]


def cell_values():
    return st.one_of(
        st.integers(-5, 5),
        st.integers(-(10**20), 10**20),
        st.sampled_from([0, 1, 0.0, 1.0, -0.0, True, False, "", " ", "1", "None", "#A1"]),
        st.floats(width=64),
        st.text(max_size=3),
        st.sampled_from([datetime.datetime(2000, 1, 1, 2), datetime.date(2000, 1, 1)]),
    )


@st.composite
def cases(draw):
    ncols, masks = draw(sg.patterns(5))
    pool = draw(st.lists(cell_values(), min_size=3, max_size=8))
    nrows = len(masks)
    idx = draw(
        st.lists(
            st.integers(0, len(pool) - 1), min_size=nrows * ncols, max_size=nrows * ncols
        )
    )
    rows = [
        [pool[idx[r * ncols + c]] if masks[r] >> c & 1 else None for c in range(ncols)]
        for r in range(nrows)
    ]
    kind = draw(st.sampled_from(["1", "1mov"] + ["2"] * 7 + ["2mov"] * 4 + ["all"] * 3 + ["nocells"]))
    if kind == "nocells":
        rows = draw(st.sampled_from([[], [[]], [[], []]]))
    e1 = draw(sg.edges(nrows, ncols, False, moves="mov" in kind))
    if kind == "1":
        e1 = (
            str(draw(st.integers(1, nrows))),
            sm.col_name(draw(st.integers(0, ncols - 1))),
        ) + (None, None)
    e2 = toks = None
    if kind in ("2", "2mov", "nocells"):
        e2 = draw(sg.edges(nrows, ncols, True, moves="mov" in kind))
        toks = draw(st.one_of(st.none(), st.none(), sg.exp_tokens()))
    elif kind == "all":
        e1 = ("^", "^", None, None)
        e2 = ("_", "_", None, None)
    text = draw(st.sampled_from(["#:", "#:__", "#^^:", "#^^:__"])) if kind == "all" else (
        sm.ref_text(e1, e2, toks)
    )
    return (rows, kind, e1, e2, toks, text)


def typed(vals):
    if isinstance(vals, list):
        return [typed(v) for v in vals]
    return (type(vals).__name__, repr(vals))


def norm(vals):
    """Types and reprs, but for trailing padding"""
    vals = sm.pad_norm(vals)
    return typed(vals)


def check_values(case, ctx):
    rows, kind, e1, e2, toks, text = case
    grid = sm.Grid(rows)
    try:
        if kind == "nocells":
            raise sm.Empty
        exp = sm.capture(grid, e1, e2, toks)
        expvals = sm.values(grid, *exp)
    except sm.Bad:
        ctx.label("bad")
        return
    except sm.Empty:
        exp, expvals = (None, None), []
    lone = e2 is None
    if lone and exp[0] and not (exp[0][0] < grid.nrows and exp[0][1] < grid.ncols):
        ctx.label("lone cell outside")
        return
    flat = [v for r in expvals for v in r] if isinstance(expvals, list) else [expvals]
    ctx.nontrivial(len({type(v) for v in flat if v is not None}) > 1)
    ctx.label(kind, "empty" if exp[0] is None else "scalar" if lone else "rect")

    mine = copy.deepcopy(rows)
    sheet = xleash.ArraySheet(mine)
    res = xleash.lasso(text, sheet=sheet)
    if exp[0] is None:
        check_eq(res, [], "empty capture of %s on %r", text, rows)
        try:
            r = xleash.lasso(text, sheet=sheet, base_opts={"no_empty": True})
        except xleash.EmptyCaptureException:
            pass
        else:
            fail("no_empty gave %r for %s on %r", r, text, rows)
        # as an option written in the xl-ref
        try:
            r = xleash.lasso(text + ':{"opts": {"no_empty": true}, "func": "pipe"}', sheet=sheet)
        except xleash.EmptyCaptureException:
            pass
        else:
            fail("opts.no_empty gave %r for %s on %r", r, text, rows)
    else:
        if lone:
            if isinstance(res, (list, tuple)):
                fail("%s on %r: %r, not a scalar", text, rows, res)
            check_eq(typed(res), typed(expvals), "%s on %r", text, rows)
        else:
            if not isinstance(res, list) or not all(isinstance(r, list) for r in res):
                fail("%s on %r: %r, not a list of rows", text, rows, res)
            check_eq(norm(res), norm(expvals), "%s on %r", text, rows)
            # Inside the sheet, nothing may be dropped.
            (r1, c1), (r2, c2) = exp
            if r2 < grid.nrows and c2 < grid.ncols:
                check_eq(typed(res), typed(expvals), "%s on %r", text, rows)
            if any(len(r) > c2 - c1 + 1 for r in res) or len(res) > r2 - r1 + 1:
                fail("%s on %r: %r is larger than the rect %r", text, rows, res, exp)

    # Scribbling on the results must not alter the sheet.
    before = typed(res)
    if isinstance(res, list):
        for r in res:
            r[:] = ["scribble"] * len(r)
    check_eq(typed(mine), typed(rows), "input of the sheet after %s", text)
    for how in ("again", "ranger", "return_lasso", "factory"):
        if how == "again":
            res2 = xleash.lasso(text, sheet=sheet)
        elif how == "return_lasso":
            lasso = xleash.lasso(text, sheet=sheet, return_lasso=True)
            res2 = lasso.values
            got = (lasso.st and tuple(lasso.st), lasso.nd and tuple(lasso.nd))
            check_eq(got, exp, "rect of %s on %r", text, rows)
        elif how == "ranger":
            sf = xleash.SheetsFactory()
            res2 = xleash.make_default_Ranger(sf).do_lasso(text, sheet=sheet).values
        else:
            sf = xleash.SheetsFactory()
            sf.add_sheet(xleash.ArraySheet(rows), "wbk", ["She et", 3])
            res2 = xleash.lasso("wbk#She et!" + text[1:], sf)
        check_eq(typed(res2), before, "%s %s on %r", text, how, rows)


# ------------------------------------------------------------- mirroring
FLIP_COL = str.maketrans("LR^_", "RL_^")
FLIP_ROW = str.maketrans("UD^_", "DU_^")
TRANSP = str.maketrans("LURD", "ULDR")


@st.composite
def mirror_cases(draw):
    ncols, masks = draw(sg.patterns(6))
    nrows = len(masks)

    def edge(dots):
        row = st.one_of(st.integers(1, nrows).map(str), st.sampled_from("^_"))
        col = st.one_of(st.integers(1, ncols).map(str), st.sampled_from("^_"))
        if dots:
            row, col = st.one_of(row, st.just(".")), st.one_of(col, st.just("."))
        mov, mod = None, None
        if draw(st.booleans()):
            mov = draw(st.sampled_from(sg.MOVES))
            mod = draw(st.sampled_from([None, "+", "?", "-"]))
        return (draw(row), draw(col), mov, mod)

    e1 = edge(False)
    e2 = edge(True) if draw(st.integers(0, 3)) else None
    toks = draw(st.one_of(st.none(), sg.exp_tokens())) if e2 else None
    return (ncols, masks, e1, e2, toks, draw(st.sampled_from("HVT")))


def flip(case_edge, how, nrows, ncols):
    if case_edge is None:
        return None
    row, col, mov, mod = case_edge
    if how == "T":
        return (col, row, mov and mov.translate(TRANSP), mod)
    if how == "H":
        col = str(ncols + 1 - int(col)) if col.isdigit() else col.translate(FLIP_COL)
        return (row, col, mov and mov.translate(FLIP_COL), mod)
    row = str(nrows + 1 - int(row)) if row.isdigit() else row.translate(FLIP_ROW)
    return (row, col, mov and mov.translate(FLIP_ROW), mod)


def check_mirror(case, ctx):
    ncols, masks, e1, e2, toks, how = case
    rows = sg.rows_from_masks(ncols, masks)
    nrows = len(rows)
    tr = dict(H=FLIP_COL, V=FLIP_ROW, T=TRANSP)[how]
    toks2 = toks and [(l.translate(tr), n) for l, n in toks]

    def mirror(rs):
        if not isinstance(rs, list) or not rs:
            return rs
        if how == "H":
            return [r[::-1] for r in rs]
        if how == "V":
            return rs[::-1]
        return [list(r) for r in zip(*rs)]

    full = [v for r in rows for v in r if v is not None]
    if not full and any(e and ("^" in e[:2] or "_" in e[:2]) for e in (e1, e2)):
        ctx.label("no margins")
        return
    text1 = sm.ref_text(e1, e2, toks, True)
    text2 = sm.ref_text(
        flip(e1, how, nrows, ncols), flip(e2, how, nrows, ncols), toks2, True
    )
    v1 = xleash.lasso(text1, sheet=xleash.ArraySheet(rows))
    v2 = xleash.lasso(text2, sheet=xleash.ArraySheet(mirror(rows)))
    check_eq(
        mirror(v1), v2, "%s on %r, flipped %s as %s", text1, rows, how, text2
    )
    n = sum(v is not None for r in v1 for v in r) if isinstance(v1, list) else 1
    ctx.nontrivial(0 < n < len(full))
    ctx.label(how, "empty" if v1 == [] else "captured")


# --------------------------------------------------------------------------
# Big sheets
# --------------------------------------------------------------------------
BOUNDS = [1, 2, 26, 27, 28, 126, 127, 128, 129, 254, 255, 256, 257, 258, 702, 703, 704, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 65535, 65536, 65537]
SHAPES = [(300, 3), (3, 300), (270, 270), (900, 2), (2, 800), (40000, 1), (33000, 2), (66000, 1), (2, 17000), (1, 33000)]


def near(draw, n):
    """0-based"""
    return draw(
        st.one_of(
            st.sampled_from([b for b in BOUNDS if b <= n]).map(lambda b: b - 1), st.integers(0, n - 1), st.sampled_from([0, n - 1])
        )
    )


@st.composite
def big_cases(draw):
    nrows, ncols = draw(st.sampled_from(SHAPES))
    # Runs of full cells: first cell & sizes
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        r, c = near(draw, nrows), near(draw, ncols)
        h, w = draw(st.sampled_from([(1, 1), (1, 1), (3, 2), (300, 1), (1, 300), (40000, 1), (1, 20000), (260, 260)]))
        runs.append((r, c, min(h, nrows - r), min(w, ncols - c)))

    def edge(dots):
        out = []
        for n, letters in ((nrows, False), (ncols, True)):
            k = draw(st.sampled_from(["num"] * 4 + ["^", "_", "-"] + [".", "."] * dots))
            if k == "num":
                i = near(draw, n)
                k = sm.col_name(i) if letters else str(i + 1)
            elif k == "-":
                k = str(-1 - draw(st.sampled_from([0, 0, 1, 100, 255])))
            out.append(k)
        mov = draw(st.sampled_from([None, None, "L", "U", "R", "D"]))
        return tuple(out) + (mov, draw(st.sampled_from([None, "+"])) if mov else None)

    e2 = draw(st.sampled_from([None, 1, 1, 1])) and edge(True)
    toks = None
    if e2 and draw(st.booleans()):
        toks = draw(st.sampled_from([[("D", None)], [("R", None)], [("DR", None)], [("LURD", None)], [("D", "300"), ("R", "2")], [("U", "257")]]))
    return (nrows, ncols), runs, edge(False), e2, toks


class BigGrid(sm.Grid):
    def __init__(self, arr):
        import numpy as np

        self.arr = arr
        self.nrows, self.ncols = arr.shape
        rr, cc = np.nonzero(arr)
        self.fullset = set(zip(rr.tolist(), cc.tolist()))
        self.up, self.dn = (int(rr.min()), int(cc.min())), (int(rr.max()), int(cc.max()))


def check_big(case, ctx):
    import numpy as np

    (nrows, ncols), runs, e1, e2, toks = case
    arr = np.zeros((nrows, ncols), dtype=bool)
    for r, c, h, w in runs:
        arr[r : r + h, c : c + w] = True
    # Values tell where from.
    vals = np.where(arr, np.arange(1, arr.size + 1).reshape(arr.shape).astype(object), None)
    grid = BigGrid(arr)
    text = sm.ref_text(e1, e2, toks)
    what = "%s on a sheet of %s with %s full" % (text, (nrows, ncols), runs)
    try:
        exp = sm.capture(grid, e1, e2, toks)
    except sm.Bad:
        ctx.label("bad")
        return
    except sm.Empty:
        exp = (None, None)
    if e2 is None and exp[0] and not (exp[0][0] < nrows and exp[0][1] < ncols):
        ctx.label("lone cell outside")
        return
    res = xleash.lasso(text, sheet=xleash.ArraySheet(vals), return_lasso=True)
    check_eq((res.st and tuple(res.st), res.nd and tuple(res.nd)), exp, "rect of %s", what)
    if exp[0] is None:
        expvals = []
    elif exp[1] is None:
        expvals = vals[exp[0]]
    else:
        (r1, c1), (r2, c2) = exp
        expvals = vals[r1 : r2 + 1, c1 : c2 + 1].tolist()
    if res.values != expvals:
        fail("%s: values of %s differ", what, exp)
    ctx.nontrivial(exp[0] is not None and max(exp[1] or exp[0]) >= 127)
    ctx.label("%sx%s" % (nrows, ncols))


FACETS = [
    facet("big", big_cases, check_big, quick=300, thorough=5000),
    facet("values", cases, check_values, quick=8000, thorough=400000),
    facet("mirror", mirror_cases, check_mirror, quick=8000, thorough=400000),
]
