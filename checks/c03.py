"""C03: expansions grow the rectangle exactly while neighbours are full."""
from hypothesis import strategies as st

from pandalone import xleash
from vlib import sheetgen as sg, sheetmodel as sm
from vlib.core import facet, fail, check_eq

ID = "C03"
RULE = """
expand: a sheet (full/empty pattern up to 12 cells a side, several densities), a
rectangle inside / across / outside of it (edges absolute or moving) and 1-5 move
groups (1-4 letters uncounted, or 1 letter with a count 0-12 or `?`), lassoed by the
public API and compared with a naive unbounded-grid model; plus laws: the rectangle
contains the original, a second application of the same uncounted group is idle, a
split count adds up; big: sheets up to 600 rows or 300 columns of a few blocks, up to 9 groups
and counts up to 1000.  isolated: random contents everywhere but in the ring around the
rectangle, any expansions.  Non-trivial: the expansions changed the rectangle in a
sheet having both full and empty cells (expand); both the rectangle and the outside
of the ring hold full cells (isolated).
"""
ASSUMPTIONS = []


def tokens():
    tok = st.one_of(
        st.tuples(st.text("LURD", min_size=1, max_size=4), st.none()),
        st.tuples(st.sampled_from("LURD"), st.integers(1, 4).map(str)),
        st.tuples(st.sampled_from("LURD"), st.sampled_from(["?", "?", "0", "10", "12"])),
    )
    return st.lists(tok, min_size=1, max_size=5)


@st.composite
def cases(draw):
    ncols, masks = draw(st.one_of(sg.patterns(6), sg.patterns(12)))
    nrows = len(masks)
    r = st.one_of(st.integers(0, nrows - 1), st.integers(0, nrows + 2))
    c = st.one_of(st.integers(0, ncols - 1), st.integers(0, ncols + 2))
    kind = draw(st.sampled_from(["abs", "small", "small", "small", "cell", "cell", "default", "moves"]))
    if kind == "moves":
        e1 = draw(sg.edges(nrows, ncols, False))
        e2 = draw(sg.edges(nrows, ncols, True))
    else:
        r1, c1 = draw(r), draw(c)
        e1 = (str(r1 + 1), sm.col_name(c1), None, None)
        if kind == "default":
            e2 = ("_", "_", None, None)
        elif kind == "cell":
            e2 = (".", ".", None, None)
        elif kind == "small":
            r2, c2 = r1 + draw(st.integers(0, 2)), c1 + draw(st.integers(0, 2))
            e2 = (str(r2 + 1), sm.col_name(c2), None, None)
        else:
            e2 = (str(draw(r) + 1), sm.col_name(draw(c)), None, None)
    return (ncols, masks, kind, e1, e2, draw(tokens()), draw(st.integers(0, 3)))


@st.composite
def big_cases(draw):
    """Large sheets & large counts"""
    spec = draw(sg.big_sheets())
    kind = draw(st.sampled_from(["cell", "cell", "abs", "moves"]))
    e1 = sg.big_edges(draw, spec, False, kind == "moves")
    e2 = (".", ".", None, None) if kind == "cell" else sg.big_edges(draw, spec, True, kind == "moves")
    tok = st.one_of(
        st.tuples(st.text("LURD", min_size=1, max_size=6), st.none()),
        st.tuples(st.sampled_from("LURD"), st.sampled_from("? 1 9 13 64 99 100 127 128 255 256 300 1000".split())),
    )
    return (spec, None, kind, e1, e2, draw(st.lists(tok, min_size=1, max_size=9)), draw(st.integers(0, 3)))


def lasso(text, sheet):
    return xleash.lasso(text, sheet=sheet, return_lasso=True)


def tup(rect):
    return tuple(tuple(int(i) for i in c) for c in rect)


def check_expand(case, ctx):
    ncols, masks, kind, e1, e2, toks, variant = case
    if masks is None:
        shown = ncols
        rows = sg.big_rows(ncols)
        ncols = len(rows[0])
    else:
        shown = rows = sg.rows_from_masks(ncols, masks)
    grid = sm.Grid(rows)
    text = sm.ref_text(e1, None if kind == "default" else e2, toks, bool(variant & 1))
    if variant & 2:
        text = text.lower()
    try:
        orig = sm.capture(grid, e1, e2, None)
        exp = sm.capture(grid, e1, e2, toks)
    except (sm.Empty, sm.Bad):
        ctx.label("no target")
        return
    ctx.label(kind)
    nfull = len(grid.fullset)
    ctx.nontrivial(orig != exp and 0 < nfull < len(rows) * ncols)
    if orig != exp:
        ctx.label("grown")

    sheet = xleash.ArraySheet(rows)
    res = lasso(text, sheet)
    got = tup((res.st, res.nd))
    check_eq(got, exp, "rect of %s on %r", text, shown)
    vals = sm.values(grid, *exp)
    check_eq(sm.pad_norm(res.values), sm.pad_norm(vals), "values of %s on %r", text, shown)

    (r1, c1), (r2, c2) = got
    if not (r1 <= orig[0][0] and c1 <= orig[0][1] and r2 >= orig[1][0] and c2 >= orig[1][1]):
        fail("%s on %r: %r does not contain %r", text, rows, got, orig)

    # Laws that need no model
    a1 = lambda rc: sm.col_name(rc[1]) + str(rc[0] + 1)
    letters, times = toks[-1]
    if times is None:
        again = "#%s:%s:%s" % (a1(got[0]), a1(got[1]), letters)
        res2 = lasso(again, sheet)
        check_eq(tup((res2.st, res2.nd)), got, "%s again as %s on %r", text, again, shown)
    elif times.isdigit() and int(times) > 1:
        n = int(times)
        split = toks[:-1] + [(letters, str(n - 1)), (letters, "?")]
        t2 = sm.ref_text(e1, e2, split)
        res2 = lasso(t2, sheet)
        check_eq(tup((res2.st, res2.nd)), got, "%s split as %s on %r", text, t2, shown)
    # The low-level API, from a lone edge.
    states = sheet.get_states_matrix()
    margins = xleash.margin_coords_from_states_matrix(states)
    edge = xleash.Edge(xleash.Cell("%d" % (r1 + 1), sm.col_name(c1)))
    etxt = sm.exp_text(toks)
    got2 = tup(xleash.resolve_capture_rect(states, margins, edge, None, etxt))
    r = sm.expand(grid, (r1, c1, r1, c1), sm.exp_groups(toks))
    check_eq(
        got2, ((r[0], r[1]), (r[2], r[3])), "lone %r expanded by %s on %r", (r1, c1), etxt, shown
    )


@st.composite
def isolated_cases(draw):
    h, w = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    top, left = draw(st.integers(0, 4)), draw(st.integers(0, 4))
    nrows = top + h + draw(st.integers(0, 4))
    ncols = left + w + draw(st.integers(0, 4))
    masks = draw(sg.masks(nrows, ncols))
    return (ncols, masks, (top, left, h, w), draw(tokens()))


def check_isolated(case, ctx):
    ncols, masks, (top, left, h, w), toks = case
    rows = sg.rows_from_masks(ncols, masks)
    inner = outer = 0
    for r in range(len(rows)):
        for c in range(ncols):
            inside = top <= r < top + h and left <= c < left + w
            near = top - 1 <= r <= top + h and left - 1 <= c <= left + w
            if near and not inside:
                rows[r][c] = None
            elif rows[r][c] is not None:
                inner, outer = inner + inside, outer + (not inside)
    ctx.nontrivial(inner and outer)
    st_, nd_ = (top, left), (top + h - 1, left + w - 1)
    text = "#%s%d:%s%d:%s" % (
        sm.col_name(left),
        top + 1,
        sm.col_name(nd_[1]),
        nd_[0] + 1,
        sm.exp_text(toks),
    )
    res = lasso(text, xleash.ArraySheet(rows))
    check_eq(tup((res.st, res.nd)), (st_, nd_), "isolated %s on %r", text, rows)


FACETS = [
    facet("expand", cases, check_expand, quick=12000, thorough=600000),
    facet("big", big_cases, check_expand, quick=2000, thorough=15000),
    facet("isolated", isolated_cases, check_isolated, quick=3000, thorough=60000),
]
