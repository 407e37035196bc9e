"""A naive reference model of lassoing, written from the documentation.

Sheets are unbounded grids: any cell outside the given rows is empty.
"""
D = {"L": (0, -1), "R": (0, 1), "U": (-1, 0), "D": (1, 0)}


class Empty(Exception):
    """Targeting found nothing."""


class Bad(Exception):
    """Coordinates that cannot be resolved."""


class Grid(object):
    def __init__(self, rows):
        self.rows = rows
        self.nrows = len(rows)
        self.ncols = len(rows[0]) if rows else 0
        full = [
            (r, c)
            for r, row in enumerate(rows)
            for c, v in enumerate(row)
            if v is not None
        ]
        self.fullset = set(full)
        if full:
            self.up = (min(r for r, _ in full), min(c for _, c in full))
            self.dn = (max(r for r, _ in full), max(c for _, c in full))
        else:
            self.up = self.dn = (0, 0)

    def full(self, cell):
        return tuple(cell) in self.fullset

    def get(self, r, c):
        if 0 <= r < self.nrows and 0 <= c < self.ncols:
            return self.rows[r][c]


def col_num(s):
    n = 0
    for ch in s.upper():
        n = n * 26 + "ABCDEFGHIJKLMNOPQRSTUVWXYZ".index(ch) + 1
    return n - 1


def col_name(n):
    s = ""
    n += 1
    while n:
        n, m = divmod(n - 1, 26)
        s = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[m] + s
    return s


def resolve(coord, axis, grid, base):
    if coord == "^":
        return grid.up[axis]
    if coord == "_":
        return grid.dn[axis]
    if coord == ".":
        if base is None:
            raise Bad("no base")
        return base[axis]
    if coord.isalpha():
        return col_num(coord)
    n = int(coord)
    if n > 0:
        return n - 1
    n = grid.dn[axis] + n + 1
    if n < 0:
        raise Bad("beyond start")
    return n


def search_opposite(grid, land, moves):
    """First full cell scanning lines along moves[0], stepping by moves[1]."""
    d1 = D[moves[0]]
    d2 = D[moves[1]] if len(moves) > 1 else None
    # Nothing can be full further than that.
    reach = max(list(land) + [grid.nrows, grid.ncols]) + 2
    line = tuple(land)
    for _ in range(reach if d2 else 1):
        r, c = line
        for _ in range(reach):
            if r < 0 or c < 0:
                break
            if grid.full((r, c)):
                return (r, c)
            r, c = r + d1[0], c + d1[1]
        if d2:
            line = (line[0] + d2[0], line[1] + d2[1])
            if min(line) < 0:
                break
    raise Empty()


def search_same(grid, land, moves):
    """Last contiguous full cell of the landing row/column, per direction."""
    out = list(land)
    for m in moves:
        d = D[m]
        r, c = land
        while grid.full((r + d[0], c + d[1])):
            r, c = r + d[0], c + d[1]
        axis = 0 if d[0] else 1
        out[axis] = (r, c)[axis]
    return tuple(out)


def target(grid, edge, base, is_2nd):
    """`edge` is ``(row, col, mov, mod)``"""
    row, col, mov, mod = edge
    land = (resolve(row, 0, grid, base), resolve(col, 1, grid, base))
    if not mov:
        return land
    if not grid.full(land):
        return search_opposite(grid, land, mov)
    if mod == "+" or (is_2nd and (row, col) == (".", ".") and mod is None):
        return search_same(grid, land, mov)
    return land


def expand(grid, rect, groups):
    """`groups`: list of ``(letters, times-or-None)``"""
    r1, c1, r2, c2 = rect
    for letters, times in groups:
        i = 0
        while times is None or i < times:
            i += 1
            before = (r1, c1, r2, c2)
            for d in letters:
                if d in "LR":
                    c = c1 - 1 if d == "L" else c2 + 1
                    hit = any((r, c) in grid.fullset for r in range(r1, r2 + 1))
                    if hit:
                        c1, c2 = min(c, c1), max(c, c2)
                else:
                    r = r1 - 1 if d == "U" else r2 + 1
                    hit = any((r, c) in grid.fullset for c in range(c1, c2 + 1))
                    if hit:
                        r1, r2 = min(r, r1), max(r, r2)
            if (r1, c1, r2, c2) == before:
                break
    return (r1, c1, r2, c2)


def exp_groups(tokens):
    """``[('LU', None), ('L', '3'), ('D', '?')]`` --> merged groups"""
    out = []
    for letters, times in tokens:
        n = None if times is None else 1 if times == "?" else int(times)
        if n is None and out and out[-1][1] is None:
            out[-1] = (out[-1][0] + letters, None)
        else:
            out.append((letters, n))
    return out


def capture(grid, st_edge, nd_edge, exp_tokens, base=None):
    """-> ``(st, nd-or-None)``; raises Empty, Bad"""
    st = target(grid, st_edge, base, False)
    nd = target(grid, nd_edge, st, True) if nd_edge else None
    if exp_tokens:
        nd = nd or st
    if nd:
        r1, r2 = sorted((st[0], nd[0]))
        c1, c2 = sorted((st[1], nd[1]))
        if exp_tokens:
            r1, c1, r2, c2 = expand(grid, (r1, c1, r2, c2), exp_groups(exp_tokens))
        return (r1, c1), (r2, c2)
    return st, None


def values(grid, st, nd):
    """The cells of the rect *within the grid*, row by row."""
    if nd is None:
        return grid.get(*st)
    return [
        [grid.rows[r][c] for c in range(st[1], min(nd[1] + 1, grid.ncols))]
        for r in range(st[0], min(nd[0] + 1, grid.nrows))
    ]


def pad_norm(vals):
    """Strip trailing all-None columns and rows (out-of-sheet padding)."""
    if not isinstance(vals, list):
        return vals
    vals = [list(r) if isinstance(r, (list, tuple)) else r for r in vals]
    while vals and all(v is None for v in vals[-1]):
        vals.pop()
    w = max([len(r) - next((i for i, v in enumerate(reversed(r)) if v is not None), len(r)) for r in vals] or [0])
    return [r[:w] + [None] * (w - len(r)) for r in vals]


# ------------------------------------------------------------------ texts
def cell_text(row, col):
    """A1 notation if possible, else RC"""
    if col.isalpha() or (col in "^_" and not row.lstrip("-").startswith("-")):
        if not row.startswith("-") and not (row == "." and False):
            return col + row
    return "R%sC%s" % (row, col)


def edge_text(e, force_rc=False):
    row, col, mov, mod = e
    if force_rc or row.startswith("-") or col.startswith("-") or col.isdigit():
        if col.isalpha():
            col = str(col_num(col) + 1)
        s = "R%sC%s" % (row, col)
    else:
        s = col + row
    if mov:
        s += "(%s%s)" % (mov, mod or "")
    return s


def exp_text(tokens):
    return "".join(l + (t or "") for l, t in tokens)


def ref_text(st_edge, nd_edge, tokens, rc=False):
    """The fragment for lassoing those edges"""
    s = "#"
    # Dots in the 1st edge exist in RC form only.
    s += edge_text(st_edge, rc or "." in st_edge[:2])
    if nd_edge or tokens:
        s += ":"
        s += edge_text(nd_edge, rc) if nd_edge else ""
    if tokens:
        s += ":" + exp_text(tokens)
    return s
