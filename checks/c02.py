"""C02: edges target the cells that the documented rules say."""
from hypothesis import strategies as st

from pandalone import xleash
from vlib import sheetgen as sg, sheetmodel as sm
from vlib.core import facet, fail, check_eq

ID = "C02"
RULE = """
targets: a sheet (full/empty bit-pattern up to 9 cells a side, several densities,
blank borders) and 1 or 2 edges (A1/RC, ^ _ . and negative coordinates, landings
inside/outside the sheet, 12 moves, modifiers + ? -), lassoed through the
public API; rect compared with a naive unbounded-grid model; big: sheets up to 600 rows or
300 columns, of a few blocks.  coords: numbers
<-> letters against an independent base-26 codec, up to the millions.
Non-trivial: at least one edge has moves and the sheet has both full & empty cells
(targets); column beyond Z (coords).
"""
ASSUMPTIONS = []


@st.composite
def cases(draw):
    ncols, masks = draw(sg.patterns())
    nrows = len(masks)
    dots1 = draw(st.integers(0, 5)) == 5
    e1 = draw(sg.edges(nrows, ncols, dots1))
    has2 = draw(st.sampled_from([0, 1, 1, 1]))
    e2 = draw(sg.edges(nrows, ncols, True)) if has2 else None
    base = None
    if draw(st.integers(0, 9)) < (9 if "." in e1[:2] else 1):
        base = (draw(st.integers(0, nrows + 1)), draw(st.integers(0, ncols + 1)))
    rc = draw(st.booleans())
    return (ncols, masks, e1, e2, base, rc)


def lasso(text, sheet, base, **opts):
    kw = {}
    if base is not None:
        kw["base_coords"] = xleash.Coords(*base)
    return xleash.lasso(text, sheet=sheet, return_lasso=True, base_opts=opts, **kw)


@st.composite
def big_cases(draw):
    spec = draw(sg.big_sheets())
    e1 = sg.big_edges(draw, spec, draw(st.integers(0, 5)) == 5)
    e2 = sg.big_edges(draw, spec, True) if draw(st.integers(0, 2)) else None
    base = None
    if draw(st.integers(0, 9)) < (9 if "." in e1[:2] else 1):
        base = (draw(st.integers(0, spec[0] + 1)), draw(st.integers(0, spec[1] + 1)))
    return (spec, None, e1, e2, base, draw(st.booleans()))


def check_targets(case, ctx):
    ncols, masks, e1, e2, base, rc = case
    if masks is None:
        rows = sg.big_rows(ncols)
        ncols = len(rows[0])
    else:
        rows = sg.rows_from_masks(ncols, masks)
    grid = sm.Grid(rows)
    text = sm.ref_text(e1, e2, None, rc)
    shown = case[0] if masks is None else rows
    try:
        st_, nd_ = exp = sm.capture(grid, e1, e2, None, base)
    except sm.Empty:
        exp = "empty"
    except sm.Bad:
        exp = "bad"
    nfull = len(grid.fullset)
    ctx.nontrivial(bool((e1[2] or (e2 and e2[2])) and 0 < nfull < len(rows) * ncols))
    ctx.label(exp if isinstance(exp, str) else "found", "2nd" if e2 else "1st-only")
    for e, n in ((e1, "st"), (e2, "nd")):
        if e and e[2]:
            ctx.label("%s-%s" % (n, "same" if e[3] == "+" else "mov"))

    sheet = xleash.ArraySheet(rows)
    outside = (
        not isinstance(exp, str)
        and e2 is None
        and not (st_[0] < grid.nrows and st_[1] < grid.ncols)
    )
    try:
        res = lasso(text, sheet, base)
    except ValueError as ex:
        if exp != "bad":
            fail("%s on %r: %s, expected %r", text, shown, ex, exp)
        return
    except IndexError:
        # A lone cell outside the sheet cannot be read.
        if not outside:
            raise
        return
    if exp == "bad":
        fail("%s on %r: accepted unresolvable coords: %r", text, shown, (res.st, res.nd))
    if exp == "empty":
        check_eq((res.st, res.nd, res.values), (None, None, []), "%s on %r", text, shown)
        try:
            res = lasso(text, sheet, base, no_empty=True)
        except xleash.EmptyCaptureException:
            pass
        else:
            fail("%s on %r: no_empty did not raise: %r", text, shown, res.values)
        return
    got = (res.st and tuple(res.st), res.nd and tuple(res.nd))
    check_eq(got, exp, "rect of %s on %r (base %r)", text, shown, base)
    exp_vals = sm.values(grid, st_, nd_)
    check_eq(
        sm.pad_norm(res.values), sm.pad_norm(exp_vals), "values of %s on %r", text, shown
    )
    # The low-level API agrees.
    states = sheet.get_states_matrix()
    margins = xleash.margin_coords_from_states_matrix(states)
    check_eq(tuple(map(tuple, margins)), (grid.up, grid.dn), "margins of %r", shown)
    if e2:
        st2, nd2 = xleash.resolve_capture_rect(
            states,
            margins,
            res.st_edge,
            res.nd_edge,
            None,
            base and xleash.Coords(*base),
        )
        check_eq((tuple(st2), tuple(nd2)), exp, "resolve_capture_rect for %s", text)


def coord_cases():
    n = st.one_of(
        st.integers(0, 800),
        st.integers(0, 20000),
        st.integers(0, 26**5),
        st.builds(
            lambda k, d: max(0, sum(26**i for i in range(k + 1)) + d),
            st.integers(0, 4),
            st.integers(-3, 3),
        ),
    )
    return st.tuples(n, n, st.booleans())


_tiny = [[1]]


def check_coords(case, ctx):
    row, col, lower = case
    ctx.nontrivial(col > 25)
    cell = xleash.coords2Cell(row, col)
    check_eq((cell.row, cell.col), (str(row + 1), sm.col_name(col)), "coords2Cell%r", (row, col))
    a1 = str(cell)
    check_eq(a1, sm.col_name(col) + str(row + 1), "str(coords2Cell%r)", (row, col))
    if lower:
        a1 = a1.lower()
    rc = "R%dC%d" % (row + 1, col + 1)
    if lower:
        rc = rc.lower()
    for t in (a1, rc):
        for t2 in ("#%s:%s" % (t, t), "#%s:.." % t):
            res = xleash.lasso(t2, sheet=xleash.ArraySheet(_tiny), return_lasso=True)
            check_eq(
                (tuple(res.st), tuple(res.nd)),
                ((row, col), (row, col)),
                "coords of %s",
                t2,
            )
    # special coords pass through
    for sp in "^_.":
        c2 = xleash.coords2Cell(sp, col)
        check_eq((c2.row, c2.col), (sp, sm.col_name(col)), "coords2Cell(%r)", sp)
        c2 = xleash.coords2Cell(row, sp)
        check_eq((c2.row, c2.col), (str(row + 1), sp), "coords2Cell(%r)", sp)


FACETS = [
    facet("targets", cases, check_targets, quick=16000, thorough=800000),
    facet("big", big_cases, check_targets, quick=1500, thorough=20000),
    facet("coords", coord_cases, check_coords, quick=3000, thorough=60000),
]
