"""C05: reading an Excel file gives what reading the same cells from memory gives."""
import datetime as dt
import http.server
import os
import shutil
import tempfile
import threading
import urllib.parse

import openpyxl
from hypothesis import strategies as st
from openpyxl.styles import Font
from openpyxl.utils.datetime import CALENDAR_MAC_1904

from pandalone import xleash
from vlib import sheetgen as sg, sheetmodel as sm
from vlib.core import facet, fail, check_eq

ID = "C05"
RULE = """
A workbook of 1-3 (or 12) sheets (some hidden, any of them active) of mixed cells (whole and fractional numbers, texts,
booleans, date-times, times, errors, blanks, formatted blanks, merged blank areas;
1900 or 1904 date system) is written with openpyxl into a scratch folder (with
spaces, unicode or >200 chars in its path), or served over loopback HTTP; 1-4 xl-refs
read it by path, relative path or URL, sheet by name, index or default, with a fresh
or a shared factory, or as sibling of an opened sheet; types, values and rectangles
are compared with those of the in-memory sheet.  big: sheets of up to 600 rows or 300 columns,
long texts.  Non-trivial: a capture with at
least 2 kinds of cells.
"""
ASSUMPTIONS = [
    "xlsx files only (nothing here can write the old binary format)",
    "date-times of whole milliseconds after 1900-01-01, paths without `%`, `#`, `?`, `;`",
    "openpyxl writes what it is told to, and xlrd's own limits (blank-only texts are dropped) are out of scope",
]

ERRORS = ["#N/A", "#DIV/0!", "#REF!", "#VALUE!", "#NAME?", "#NUM!", "#NULL!"]


def cells():
    """``(kind, value)``"""
    num = st.one_of(
        st.integers(-10, 10),
        st.integers(-(2**53), 2**53),
        st.floats(-1e15, 1e15, allow_subnormal=False).map(lambda f: float("%.14g" % f)),
        st.sampled_from([0.5, -0.25, 2.0, 1e100, 1e-7, 0.0]),
    )
    txt = st.text("abcXYZ 019é'&<>\"Ω#!:", max_size=6).map(lambda t: "x" + t.rstrip())
    d = st.one_of(
        st.datetimes(dt.datetime(1900, 3, 1), dt.datetime(2099, 12, 31)),
        st.datetimes(dt.datetime(1900, 3, 1), dt.datetime(9999, 12, 31)),
        st.datetimes(dt.datetime(1900, 1, 1), dt.datetime(1900, 4, 1)),
        st.dates(dt.date(1900, 3, 1), dt.date(1905, 2, 1)).map(lambda x: dt.datetime(x.year, x.month, x.day)),
        st.dates(dt.date(1905, 1, 1), dt.date(2099, 2, 1)).map(lambda x: dt.datetime(x.year, x.month, x.day)),
        # Ends of months & years, leap-days, with or without hours
        st.builds(
            lambda y, md, hms: dt.datetime(y, *md, *hms),
            st.sampled_from([1904, 1908, 1996, 2000, 2020, 2024, 2096, 2400]),
            st.sampled_from([(1, 1), (2, 28), (2, 29), (3, 1), (4, 30), (6, 30), (12, 30), (12, 31)]),
            st.sampled_from([(0, 0), (0, 0), (12, 0), (23, 59, 59), (0, 0, 1)]),
        ),
    )
    # Milliseconds are what workbooks (and their readers) keep.
    def to_ms(t):
        return t.replace(microsecond=t.microsecond // 1000 * 1000, fold=0)

    d = d.map(to_ms)
    t = st.one_of(st.times(), st.sampled_from([dt.time(0), dt.time(12), dt.time(23, 59, 59, 999000), dt.time(0, 0, 1)])).map(to_ms)
    return st.one_of(
        st.tuples(st.just("num"), num),
        st.tuples(st.just("txt"), txt),
        st.tuples(st.just("bool"), st.booleans()),
        st.tuples(st.just("date"), d),
        st.tuples(st.just("time"), t),
        st.tuples(st.just("err"), st.sampled_from(ERRORS)),
        st.tuples(st.just("blank"), st.just(None)),
    )


@st.composite
def sheets(draw):
    ncols, masks = draw(sg.patterns(5))
    pool = draw(st.lists(cells(), min_size=3, max_size=7))
    n = len(masks) * ncols
    idx = draw(st.lists(st.integers(0, len(pool) - 1), min_size=n, max_size=n))
    rows = [
        [pool[idx[r * ncols + c]] if m >> c & 1 else None for c in range(ncols)]
        for r, m in enumerate(masks)
    ]
    # blank areas around, not to be mistaken for contents
    merged = draw(st.one_of(st.none(), st.tuples(st.integers(0, 3), st.integers(0, 3))))
    return rows, merged


def names():
    word = st.text("abcXYZ019é_-", min_size=1, max_size=5)
    return st.one_of(word, word, st.builds("{} {}".format, word, word), st.sampled_from("0123"))


@st.composite
def cases(draw, http=False):
    nsh = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 3, 12]))
    shs = draw(st.lists(sheets(), min_size=min(nsh, 3), max_size=min(nsh, 3)))
    shs = [shs[k % 3] for k in draw(st.permutations(range(nsh)))] if nsh > 3 else shs
    nms = draw(
        st.lists(names(), min_size=nsh, max_size=nsh, unique_by=lambda s: s.lower())
    )
    # date-system, sheet activated, sheets hidden
    mac = draw(st.booleans()), draw(st.integers(0, nsh - 1)), draw(st.sets(st.integers(0, nsh - 1), max_size=nsh - 1))
    fname = draw(
        st.sampled_from(
            ["wb.xlsx", "w b.xlsx", "a+b,c.xlsx", "Ω.xlsx", "x.y.xlsm", "W'B (1).XLSX"]
        )
    )
    folder = draw(st.sampled_from(["", "d", "a b", "é", "L" * 180, "d/../e"]))
    reads = []
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, nsh - 1))
        by = draw(st.sampled_from(["name", "index"] + ["default"] * (i == 0)))
        how = "http" if http else draw(
            st.sampled_from(["path", "url", "path2url", "rel", "sibling", "factory"])
        )
        rows = shs[i][0]
        nrows, ncols = len(rows), len(rows[0])
        kind = draw(st.sampled_from(["all", "cell", "rect", "rect", "moves", "moves"]))
        e2 = toks = None
        if kind == "all":
            e1, e2 = ("1", "A", None, None), ("_", "_", None, None)
        elif kind == "cell":
            e1 = (str(draw(st.integers(1, nrows))), sm.col_name(draw(st.integers(0, ncols - 1))))
            e1 += (None, None)
        else:
            e1 = draw(sg.edges(nrows, ncols, False, moves=kind == "moves"))
            e2 = draw(sg.edges(nrows, ncols, True, moves=kind == "moves"))
            toks = draw(st.one_of(st.none(), sg.exp_tokens()))
        reads.append((i, by, how, e1, e2, toks))
    return (shs, nms, mac, fname, folder, reads)


def to_system(v, mac):
    """Dates before (or at) the epoch of a date-system cannot be written with it."""
    if mac and isinstance(v, dt.datetime) and v < dt.datetime(1904, 1, 2):
        return v + dt.timedelta(days=5 * 365)
    return v


def write(path, shs, nms, mac):
    wb = openpyxl.Workbook()
    mac, active, hidden = mac
    if mac:
        wb.epoch = CALENDAR_MAC_1904
    wb.remove(wb.active)
    for (rows, merged), name in zip(shs, nms):
        ws = wb.create_sheet(name)
        for r, row in enumerate(rows):
            for c, cell in enumerate(row):
                if cell is None:
                    continue
                kind, v = cell
                x = ws.cell(r + 1, c + 1)
                if kind == "blank":
                    x.font = Font(bold=True)
                    continue
                x.value = to_system(v, mac)
                if kind == "txt":
                    x.data_type = "s"
                elif kind == "err":
                    x.data_type = "e"
        if merged:
            r, c = len(rows) + merged[0] + 1, len(rows[0]) + merged[1] + 1
            ws.merge_cells(start_row=r, start_column=c, end_row=r + 1, end_column=c + 2)
    for i in hidden:
        wb.worksheets[i].sheet_state = "hidden"
    if active not in hidden:
        wb.active = active
    wb.save(path)


def in_memory(cell, mac=False):
    if cell is None or cell[0] == "blank":
        return None
    kind, v = cell
    if kind == "err":
        return float("nan")
    if kind == "num" and v == int(v):
        return int(v)
    return to_system(v, mac)


def typed(vals):
    if isinstance(vals, list):
        return [typed(v) for v in vals]
    return (type(vals).__name__, repr(vals))


def check_reads(case, ctx):
    shs, nms, mac, fname, folder, reads = case
    tmp = tempfile.mkdtemp(prefix="vC05-")
    cwd = os.getcwd()
    try:
        d = os.path.join(tmp, folder)
        os.makedirs(os.path.join(tmp, "d"), exist_ok=True)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, fname)
        write(path, shs, nms, mac)
        os.chdir(tmp)
        with xleash.SheetsFactory() as sf:
            for rd in reads:
                one_read(case, rd, path, os.path.join(folder, fname), sf, ctx)
            check_eq(list(sf.list_sheetnames(path)), nms, "sheet-names of %r", fname)
            # Sheets missing
            n = len(nms)
            for bad in ("%i" % n, "%i" % (n + 1), "%i" % (7 * n), nms[-1] + "0_", "no such"):
                if bad.lower() in (nm.lower() for nm in nms):
                    continue
                for kw in ({}, {"sheets_factory": sf}):
                    try:
                        got = xleash.lasso("%s#%s!A1:" % (path, bad), **kw)
                    except Exception:
                        continue
                    fail("missing sheet %r of %r read as %r", bad, nms, got)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


_served = {}
_server = []


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        data = _served.get(self.path)
        if data is None:
            self.send_error(404)
            return
        self.send_response(200)
        self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        self.wfile.write(data)

    def log_message(self, *args):
        pass


def http_base(data, fname):
    if not _server or _server[0] != os.getpid():
        srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        _server[:] = [os.getpid(), srv]
    p = "/some%20dir/" + urllib.parse.quote(fname)
    _served.clear()
    _served[p] = data
    return "http://127.0.0.1:%d%s" % (_server[1].server_port, p)


def one_read(case, rd, path, rel, sf, ctx):
    shs, nms, mac, fname, folder, _ = case
    i, by, how, e1, e2, toks = rd
    if by == "index" and str(i) in nms and nms[i] != str(i):
        ctx.label("index hidden by a name")
        i = nms.index(str(i))
        want = str(rd[0])
    else:
        want = str(i)
    rows = [[in_memory(c, mac[0]) for c in row] for row in shs[i][0]]
    grid = sm.Grid(rows)
    sel = {"name": nms[i], "index": want, "default": None}[by]
    frag = sm.ref_text(e1, e2, toks)
    if sel is not None:
        frag = "#%s!%s" % (sel, frag[1:])
    opts = {"opts": {}}
    kw = dict(return_lasso=True)
    if how == "url":
        text = "file://" + urllib.parse.quote(os.path.abspath(path)) + frag
    elif how == "path2url":
        from pandalone import utils

        text = utils.path2url(path) + frag
    elif how == "rel":
        text = rel + frag
    elif how == "http":
        with open(path, "rb") as fd:
            text = http_base(fd.read(), fname) + frag
    elif how == "sibling":
        if sel is None:
            sel = nms[i]
            frag = "#%s!%s" % (sel, frag[1:])
        other = (i + 1) % len(nms)
        base = xleash.lasso("%s#%s!A1:" % (path, nms[other]), sf, return_lasso=True)
        text = frag
        kw.update(sheets_factory=sf, sheet=base.sheet)
    else:
        text = path + frag
        if how == "factory":
            kw.update(sheets_factory=sf)

    full = bool(grid.fullset)
    try:
        if full:
            exp = sm.capture(grid, e1, e2, toks)
        else:
            exp = None
        expvals = sm.values(grid, *exp) if exp else []
    except sm.Bad:
        exp = "bad"
    except sm.Empty:
        exp, expvals = (None, None), []

    what = "%s of %r (sheet %r by %s/%s)" % (frag, shs[i][0], nms[i], by, how)
    try:
        res = xleash.lasso(text, **kw)
    except ValueError as ex:
        if exp == "bad" or exp is None and "-" in "".join(e1[:2] + (e2 or ())[:2]):
            return
        fail("%s: %s", what, ex)
    except IndexError:
        # A lone cell outside of what the file stores cannot be read.
        if e2 is not None or exp not in (None, "bad") and exp[0] in grid.fullset:
            raise
        ctx.label("lone cell outside")
        return
    if exp is None:
        # No full cells at all
        check_eq(sm.pad_norm(res.values) or [], [], what)
        return
    if exp == "bad":
        fail("%s: accepted unresolvable coords", what)
    got = (res.st and tuple(res.st), res.nd and tuple(res.nd))
    check_eq(got, exp, "rect of %s", what)
    if (isinstance(res.values, list)) != (e2 is not None or exp[0] is None):
        fail("%s: wrong shape %r", what, res.values)
    check_eq(typed(sm.pad_norm(res.values)), typed(sm.pad_norm(expvals)), what)
    if e2 is None and not (exp[0] and exp[0][0] < grid.nrows and exp[0][1] < grid.ncols):
        return
    mem = xleash.lasso(sm.ref_text(e1, e2, toks), sheet=xleash.ArraySheet(rows))
    check_eq(typed(sm.pad_norm(res.values)), typed(sm.pad_norm(mem)), "in-memory %s", what)
    flat = [v for r in expvals for v in r] if isinstance(expvals, list) else [expvals]
    kinds = {type(v) for v in flat if v is not None}
    ctx.nontrivial(len(kinds) > 1)
    ctx.label(how, by, *["cell-" + k.__name__ for k in kinds])


@st.composite
def big_cases(draw):
    """Of many rows or columns, or long texts."""
    spec = draw(sg.big_sheets())
    nms = draw(st.lists(names(), min_size=2, max_size=2, unique_by=lambda s: s.lower()))
    pool = draw(st.lists(cells(), min_size=3, max_size=9))
    k = draw(st.integers(0, 2))
    if k:
        pool = [("txt", "x" + "ab é" * 1000 + str(i)) if p[0] == "txt" else p for i, p in enumerate(pool)]
    if k == 2:
        # Texts all different
        pool = [p for p in pool if p[0] != "txt"] + [None]
    seq = lambda v: pool[v % 7919 % len(pool)] or ("txt", "t%i" % v)
    rows = [[None if v is None else seq(v) for v in row] for row in sg.big_rows(spec)]
    reads = []
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.sampled_from(["path", "url", "factory"]))
        e1 = sg.big_edges(draw, spec, False)
        e2 = sg.big_edges(draw, spec, True)
        toks = draw(st.one_of(st.none(), sg.exp_tokens()))
        if draw(st.integers(0, 2)) == 0:
            e1, e2, toks = ("1", "A", None, None), ("_", "_", None, None), None
        reads.append((draw(st.integers(0, 1)) and 1, "name", how, e1, e2, toks))
    return ([([[("num", 1)]], None), (rows, None)], nms, (draw(st.booleans()), 0, set()), "wb.xlsx", "", reads)


FACETS = [
    facet("big", big_cases, check_reads, quick=160, thorough=1500),
    facet("files", cases, check_reads, quick=3600, thorough=80000),
    facet("http", lambda: cases(True), check_reads, quick=200, thorough=3000),
]
