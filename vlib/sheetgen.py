"""Hypothesis strategies for sheets and edges, shared by several checks."""
from hypothesis import strategies as st

MOVES = "L U R D LD LU UL UR RU RD DL DR".split()


def masks(nrows, ncols):
    """Full/empty patterns as a bitmask per row, in several densities."""
    full = (1 << ncols) - 1
    row = st.integers(0, full)
    sparse = st.tuples(row, row).map(lambda t: t[0] & t[1])
    dense = st.tuples(row, row, row).map(lambda t: t[0] | t[1] | t[2])
    run = st.tuples(st.integers(0, ncols), st.integers(0, ncols)).map(
        lambda t: sum(1 << i for i in range(min(t), max(t)))
    )
    one = st.one_of(row, row, sparse, dense, run, st.sampled_from([0, full]))
    rnd = st.lists(one, min_size=nrows, max_size=nrows)
    same = st.tuples(one, st.lists(st.integers(0, 3), min_size=nrows, max_size=nrows)).map(
        lambda t: [t[0] if i else 0 for i in t[1]]
    )
    return st.one_of(rnd, rnd, rnd, rnd, same)


def shapes(maxdim=7):
    small = st.tuples(st.integers(1, 4), st.integers(1, 4))
    large = st.tuples(st.integers(3, maxdim), st.integers(3, maxdim))
    strip = st.tuples(st.just(1), st.integers(1, 9))
    strips = st.one_of(strip, strip.map(lambda t: t[::-1]))
    return st.one_of(small, small, large, large, large, strips)


def patterns(maxdim=7):
    """``(ncols, [row-mask, ...])``"""
    return shapes(maxdim).flatmap(
        lambda s: st.tuples(st.just(s[1]), masks(s[0], s[1]))
    )


def coord(limit, axis, dots, letters):
    """A coordinate as text, 1-based, mostly inside the sheet"""
    from .sheetmodel import col_name

    nums = st.integers(1, limit + 3)
    if axis == 1 and letters:
        plain = nums.map(lambda n: col_name(n - 1))
    else:
        plain = nums.map(str)
    sp = ["^", "_"] + (["."] if dots else [])
    return st.one_of(plain, plain, plain, st.sampled_from(sp))


def neg_coord(limit):
    return st.one_of(st.integers(1, limit), st.integers(1, limit + 1)).map("-%d".__mod__)


def edges(nrows, ncols, dots, moves=True):
    """``(row, col, mov, mod)``"""
    row = coord(nrows, 0, dots, False)
    col = st.one_of(coord(ncols, 1, dots, True), coord(ncols, 1, dots, False))
    rown = st.one_of(row, row, row, neg_coord(nrows))
    coln = st.one_of(col, col, col, neg_coord(ncols))
    cells = st.tuples(rown, coln)
    if dots:
        cells = st.one_of(cells, cells, st.just((".", ".")))
    mv = st.tuples(
        st.sampled_from(MOVES), st.sampled_from([None, None, "+", "+", "?", "-"])
    )
    mv = st.one_of(mv, mv, mv, st.just((None, None))) if moves else st.just((None, None))
    return st.tuples(cells, mv).map(lambda t: t[0] + t[1])


def exp_tokens():
    tok = st.one_of(
        st.tuples(st.text("LURD", min_size=1, max_size=4), st.none()),
        st.tuples(st.sampled_from("LURD"), st.integers(1, 4).map(str)),
        st.tuples(st.sampled_from("LURD"), st.just("?")),
    )
    return st.lists(tok, min_size=1, max_size=4)


def rows_from_masks(ncols, masks):
    """Unique ints in the full cells"""
    return [
        [100 * (r + 1) + c if (m >> c) & 1 else None for c in range(ncols)]
        for r, m in enumerate(masks)
    ]


# -- Large sheets, of few blocks
@st.composite
def big_sheets(draw):
    """``(nrows, ncols, [(top, left, height, width, kind), ...])``"""
    nrows, ncols = draw(st.sampled_from([(300, 6), (6, 300), (140, 40), (40, 140), (600, 2), (70, 70)]))
    blocks = []
    for _ in range(draw(st.integers(1, 4))):
        top = draw(st.one_of(st.integers(0, nrows - 1), st.integers(0, 3), st.integers(nrows - 3, nrows - 1))) % nrows
        left = draw(st.one_of(st.integers(0, ncols - 1), st.integers(0, 3), st.integers(ncols - 3, ncols - 1))) % ncols
        h = draw(st.one_of(st.integers(1, nrows), st.integers(1, 3)))
        w = draw(st.one_of(st.integers(1, ncols), st.integers(1, 3)))
        blocks.append((top, left, h, w, draw(st.sampled_from(["full", "full", "diag", "frame", "dots"]))))
    return nrows, ncols, blocks


def big_rows(spec):
    """Unique ints in the full cells"""
    nrows, ncols, blocks = spec
    rows = [[None] * ncols for _ in range(nrows)]
    for top, left, h, w, kind in blocks:
        bottom, right = min(top + h, nrows), min(left + w, ncols)
        for r in range(top, bottom):
            for c in range(left, right):
                i, j = r - top, c - left
                if (
                    kind == "full"
                    or (kind == "diag" and i % w == j % h and (i == j or min(h, w) > 1))
                    or (kind == "frame" and (r in (top, bottom - 1) or c in (left, right - 1)))
                    or (kind == "dots" and i % 5 == 0 and j % 5 == 0)
                ):
                    rows[r][c] = 1000 * (r + 1) + c
    return rows


def big_edges(draw, spec, dots, moves=True):
    """Around the corners of the blocks, or anywhere"""
    from .sheetmodel import col_name

    nrows, ncols, blocks = spec
    top, left, h, w, _ = draw(st.sampled_from(blocks))
    row = draw(st.sampled_from([top, top + h - 1, top + h // 2, 0, nrows - 1, nrows + 200])) + draw(st.integers(-1, 1))
    col = draw(st.sampled_from([left, left + w - 1, left + w // 2, 0, ncols - 1, ncols + 200])) + draw(st.integers(-1, 1))
    special = ["^", "_", "-1", "-130"] + ["."] * dots
    row = str(max(row, 0) + 1) if draw(st.integers(0, 5)) else draw(st.sampled_from(special))
    col = col_name(max(col, 0)) if draw(st.integers(0, 5)) else draw(st.sampled_from(special))
    if dots and draw(st.integers(0, 3)) == 0:
        row = col = "."
    mov = mod = None
    if moves and draw(st.integers(0, 3)):
        mov, mod = draw(st.sampled_from(MOVES)), draw(st.sampled_from([None, None, "+", "+", "?", "-"]))
    return row, col, mov, mod
