"""C06: the sheets-cache over histories of adding, fetching, lassoing and closing."""
from hypothesis import strategies as st

from pandalone import xleash
from pandalone.xleash.io import backend
from vlib.core import facet, fail, check_eq

import numpy as np

ID = "C06"
RULE = """
history: 1-14 operations (add a user sheet with extra workbook/sheet ids in any form;
fetch by workbook path/URL/alias & sheet name/index/lower-cased name/missing; fetch the
sibling of a previous sheet; the same by an xl-ref through lasso(); list sheet-names;
close or leave a with-block), on 3 workbooks of 3 sheets served by 3 recording backends,
checked after every step against a naive model for the sheet served and for the exact
open/close calls.  The fetches are repeated on the non-caching variant.
crowd: up to 600 sheets, 150 workbooks, 40 aliases of each and 30 backends, visited 1-3 times, some renewed.
bids: 1-6 backends with None/negative/zero/equal/big bids.
Non-trivial: the history has both a fetch answered from the cache, and a displacement, close or
reopening (history); at least 2 different non-null bids (bids); 10+ sheets (crowd).
"""
ASSUMPTIONS = [
    "a workbook is identified by the text given for it plus the id its sheets report; adding a sheet "
    "without extra sheet-ids makes it also the workbook's default sheet (the one fetched by no id), "
    "as existing tests have it",
    "which of equally high bidders wins is unspecified",
]

NAMES = ["S0", "S1", "1"]  # the last looks like an index
#          as given          url                  id reported by its sheets
BOOKS = [
    ("http://h/a.x", "http://h/a.x", "http://h/a.x"),
    ("/d/b.x", "file:///d/b.x", "file:///d/b.x"),
    ("/d/c.x", "file:///d/c.x", "book-c"),
]
WBIDS = [b[0] for b in BOOKS] + ["file:///d/b.x", "file:///d/c.x", "book-c", "alias", "/d/nofile.x"]
SHIDS = [None, "S0", "S1", "s1", "1", 0, 1, 2, "2", "nope"]


class NoSheet(Exception):
    pass


class World(object):
    """The workbooks "on disk", and the log of what happened to them."""

    def __init__(self):
        self.log = []
        self.serial = 0

    def make(self, book, idx):
        self.serial += 1
        return FakeSheet(self, book, idx, self.serial)

    def find(self, sheet_id):
        if sheet_id is None:
            return 0
        if isinstance(sheet_id, int):
            if sheet_id < len(NAMES):
                return sheet_id
        else:
            for i, n in enumerate(NAMES):
                if n.lower() == sheet_id.lower():
                    return i
            if sheet_id.isdigit() and int(sheet_id) < len(NAMES):
                return int(sheet_id)
        return None

    def take(self):
        log, self.log = self.log, []
        return log


class FakeSheet(backend.ABCSheet):
    def __init__(self, world, book, idx, serial):
        self.world, self.book, self.idx, self.serial = world, book, idx, serial

    def get_sheet_ids(self):
        return backend.SheetId(self.book, [NAMES[self.idx], self.idx])

    def open_sibling_sheet(self, sheet_id):
        self.world.log.append(("sibling", self.serial, sheet_id))
        idx = self.world.find(sheet_id)
        if idx is None:
            raise NoSheet(sheet_id)
        return self.world.make(self.book, idx)

    def list_sheetnames(self):
        return list(NAMES)

    def _read_states_matrix(self):
        return np.asarray([[True]])

    def read_rect(self, st_, nd):
        return self.serial if nd is None else [[self.serial]]

    def _close(self):
        self.world.log.append(("close", self.serial))

    def _close_all(self):
        self.world.log.append(("close_all", self.serial))


class FakeBackend(backend.ABCBackend):
    def __init__(self, name, world, bid):
        self.name, self.world, self._bid = name, world, bid

    def bid(self, wb_url):
        return self._bid(wb_url)

    def open_sheet(self, wb_url, sheet_id):
        self.world.log.append(("open", self.name, wb_url, sheet_id))
        for _given, url, book in BOOKS:
            if url == wb_url:
                idx = self.world.find(sheet_id)
                if idx is not None:
                    return self.world.make(book, idx)
        return None

    def list_sheetnames(self, wb_url):
        return [self.name, wb_url]

    def __repr__(self):
        return self.name


def winner(url):
    """All of them bid on anything but on files, where the strongest abstains."""
    return "weak" if url.startswith("file:") else "strong"


def make_backends(world):
    return [
        FakeBackend("mute", world, lambda u: None),
        FakeBackend("strong", world, lambda u: None if u.startswith("file:") else 0),
        FakeBackend("weak", world, lambda u: -7),
        FakeBackend("weakest", world, lambda u: -8),
    ]


def url_of(wb):
    for given, url, _ in BOOKS:
        if wb == given:
            return url
    return xleash_url(wb)


def xleash_url(wb):
    if wb == "/d/nofile.x":
        return "file:///d/nofile.x"
    if ":" in wb:
        return wb
    import os

    return "file://" + os.getcwd().rstrip("/") + "/" + wb


# -- generators
wb_ids = st.sampled_from(WBIDS[:3] * 4 + WBIDS)
sh_ids = st.sampled_from(SHIDS[:3] * 3 + SHIDS)
extra_wbs = st.sampled_from(
    [None, None, "alias", "/d/b.x", ["alias"], ("alias", "/d/b.x"), [], ["http://h/a.x", None]]
)
extra_shs = st.sampled_from([None, None, "s1", 0, 1, ["x", None], ("s1",), [], [], "x"])


@st.composite
def ops(draw):
    out = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(
            st.sampled_from(
                ["fetch"] * 7 + ["add"] * 4 + ["sib"] * 4 + ["lasso"] * 4 + ["base"]
                + ["close", "exit", "list"]
            )
        )
        if k == "fetch":
            out.append((k, draw(wb_ids), draw(sh_ids)))
        elif k == "add":
            # a new sheet, or one of those that have been around
            which = draw(st.one_of(st.none(), st.none(), st.integers(0, 9)))
            out.append(
                (k, which, draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(extra_wbs), draw(extra_shs))
            )
        elif k == "sib":
            out.append((k, draw(st.integers(0, 9)), draw(sh_ids)))
        elif k == "base":
            # workbook given, the base must not matter
            out.append((k, draw(st.integers(0, 9)), draw(wb_ids), draw(sh_ids)))
        elif k == "lasso":
            wb = draw(st.one_of(st.none(), wb_ids))
            sh = draw(st.sampled_from([None, "S0", "S1", "s1", "1", "2", "nope"]))
            base = draw(st.one_of(st.none(), st.integers(0, 9))) if wb else draw(st.integers(0, 9))
            out.append((k, wb, sh, base))
        elif k == "list":
            out.append((k, draw(wb_ids)))
        else:
            out.append((k,))
    return (out, draw(st.sampled_from(["fetch", "fetch", "with"])))


class Model(object):
    def __init__(self):
        self.cache = {}

    def as_list(self, ids):
        if isinstance(ids, (list, tuple)):
            return list(ids)
        return [ids]

    def add(self, sheet, wbs, shs):
        """returns serials of the sheets to be closed"""
        closed = set()
        keys = [
            (w, s)
            for w in [sheet.book] + self.as_list(wbs)
            if w
            for s in [NAMES[sheet.idx], sheet.idx] + self.as_list(shs)
        ]
        for k in keys:
            old = self.cache.get(k)
            if old is not None and old is not sheet:
                closed.add(old.serial)
                self.cache = {a: b for a, b in self.cache.items() if b is not old}
        for k in keys:
            self.cache[k] = sheet
        return closed

    def close(self):
        out = {s.serial for s in self.cache.values()}
        self.cache = {}
        return out


def check_history(case, ctx):
    history, how = case
    world = World()
    sf = xleash.SheetsFactory(make_backends(world))
    m = Model()
    sheets = []  # all those seen by the client
    hits = displaced = closes = reopened = 0
    opened_before = set()

    def base_of(i):
        return sheets[i % len(sheets)] if sheets else None

    def log_is(what, exp_opens, exp_closed, exp_close_all=()):
        log = world.take()
        opens = [e for e in log if e[0] in ("open", "sibling")]
        closed = sorted(e[1] for e in log if e[0] == "close")
        all_ = {e[1] for e in log if e[0] == "close_all"}
        check_eq(opens, exp_opens, "sheets opened by %s in %r", what, history)
        check_eq(closed, sorted(exp_closed), "sheets closed by %s in %r", what, history)
        check_eq(all_, set(exp_close_all), "books closed by %s in %r", what, history)

    def fetch(i, op, wb, sh, base):
        nonlocal hits, displaced, reopened
        what = "#%d %r" % (i, op)
        # What should happen?
        if wb is None:
            if sh is None:
                exp, opens, add = base, [], None
            else:
                key = (base.book, sh)
                exp = m.cache.get(key)
                opens = [] if exp is not None else [("sibling", base.serial, sh)]
                add = key
        else:
            key = (wb, sh)
            exp = m.cache.get(key)
            u = url_of(wb)
            opens = [] if exp is not None else [("open", winner(u), u, sh)]
            add = key
        serial = world.serial
        try:
            if op[0] == "lasso":
                text = "%s#%sA1" % (wb or "", "" if sh is None else sh + "!")
                kw = {"sheet": base} if base is not None else {}
                res = xleash.lasso(text, sheets_factory=sf, return_lasso=True, **kw)
                got = res.sheet
                check_eq(res.values, got.serial, "value of %s", what)
            else:
                got = sf.fetch_sheet(wb, sh, base_sheet=base)
        except (NoSheet, ValueError) as ex:
            if exp is not None:
                fail("%s in %r: failed with %r, though it is cached", what, history, ex)
            known = wb is None or any(url_of(wb) == b[1] for b in BOOKS)
            if known and world.find(sh) is not None:
                fail("%s in %r: failed with %r", what, history, ex)
            log_is(what, opens, ())
            ctx.label("missing")
            return
        closed = ()
        if exp is None:
            if got.serial != serial + 1:
                fail("%s in %r: served sheet %s, not the one opened", what, history, got)
            book = base.book if wb is None else [b[2] for b in BOOKS if b[1] == url_of(wb)][0]
            check_eq((got.book, got.idx), (book, world.find(sh)), "sheet opened by %s", what)
            closed = m.add(got, *add)
            if (got.book, got.idx) in opened_before:
                reopened += 1
            opened_before.add((got.book, got.idx))
            displaced += len(closed)
        else:
            if got is not exp:
                fail("%s in %r: served %r#%s instead of #%s", what, history, got, got.serial, exp.serial)
            hits += bool(add)
        log_is(what, opens, closed)
        sheets.append(got)

    if how == "with":
        check_eq(sf.__enter__() is sf, True, "with-statement target")
    for i, op in enumerate(history):
        k = op[0]
        if k == "fetch":
            fetch(i, op, op[1], op[2], None)
        elif k == "sib":
            if sheets:
                fetch(i, op, None, op[2], base_of(op[1]))
        elif k == "base":
            fetch(i, op, op[2], op[3], base_of(op[1]))
        elif k == "lasso":
            base = base_of(op[3]) if op[3] is not None else None
            if op[1] is not None or base is not None:
                fetch(i, op, op[1], op[2], base)
        elif k == "add":
            which, b, s, wbs, shs = op[1:]
            if which is not None and sheets:
                sheet = base_of(which)
            else:
                sheet = world.make(BOOKS[b][2], s)
            args = (wbs, shs)
            closed = m.add(sheet, *args)
            displaced += len(closed)
            before = repr(args)
            sf.add_sheet(sheet, *args)
            check_eq(repr(args), before, "ids given to add_sheet")
            log_is("#%d %r" % (i, op), [], closed)
            sheets.append(sheet)
        elif k == "list":
            u = url_of(op[1])
            check_eq(sf.list_sheetnames(op[1]), [winner(u), u], "list_sheetnames(%r)", op[1])
            log_is("#%d %r" % (i, op), [], ())
        else:
            exp = m.close()
            closes += bool(exp)
            if k == "close":
                sf.close()
            else:
                sf.__exit__(None, None, None)
            log_is("#%d %r" % (i, op), [], (), exp)

    exp = m.close()
    if how == "with":
        sf.__exit__(ValueError, ValueError("x"), None)
    else:
        sf.close()
    log_is("final close", [], (), exp)
    sf.close()
    log_is("another close", [], (), ())

    # The non-caching one.
    world = World()
    simple = backend.SimpleSheetsFactory(make_backends(world))
    base = None
    for i, op in enumerate(history):
        k = op[0]
        if k in ("fetch", "base"):
            wb, sh = op[-2:]
        elif k == "sib":
            wb, sh = None, op[2]
        elif k == "lasso":
            wb, sh = op[1], op[2]
        else:
            continue
        if wb is None and base is None:
            continue
        what = "non-caching #%d %r in %r" % (i, op, history)
        serial = world.serial
        if wb is None:
            opens, book = [("sibling", base.serial, sh)], base.book
        else:
            u = url_of(wb)
            opens = [("open", winner(u), u, sh)]
            book = ([b[2] for b in BOOKS if b[1] == u] or [None])[0]
        try:
            if k == "lasso":
                text = "%s#%sA1" % (wb or "", "" if sh is None else sh + "!")
                got = xleash.lasso(text, sheets_factory=simple, sheet=base, return_lasso=True).sheet
            else:
                got = simple.fetch_sheet(wb, sh, base_sheet=base)
        except (NoSheet, ValueError) as ex:
            if book and world.find(sh) is not None:
                fail("%s failed with %r", what, ex)
        else:
            if wb is None and sh is None:
                if got is not base:
                    fail("%s served %r, not the base sheet", what, got)
                opens = []
            else:
                check_eq((got.book, got.idx), (book, world.find(sh)), "sheet of %s", what)
                check_eq(got.serial, serial + 1, "sheet opened by %s", what)
            base = got
        check_eq(world.take(), opens, "calls by %s", what)

    ctx.nontrivial(hits and (displaced or closes or reopened))
    for n, v in (("hit", hits), ("displaced", displaced), ("closed", closes), ("reopened", reopened)):
        if v:
            ctx.label(n)


# -- bids
bids = st.lists(
    st.one_of(
        st.sampled_from([None, None, 0, -1, 1, 100, -100]),
        st.integers(-(10**12), 10**12),
    ),
    min_size=1,
    max_size=6,
)


def check_bids(case, ctx):
    scores, wb, cls = case
    world = World()
    seen = []

    def bidder(i, score):
        def bid(url):
            seen.append((i, url))
            return score

        return bid

    bes = [FakeBackend(str(i), world, bidder(i, s)) for i, s in enumerate(scores)]
    sf = getattr(backend, cls)(bes)
    real = [s for s in scores if s is not None]
    ctx.nontrivial(len(set(real)) > 1)
    u = url_of(wb)
    try:
        won = sf.decide_backend(wb)
    except ValueError:
        if real:
            fail("no backend decided for %s among bids %r", wb, scores)
        for f in (lambda: sf.fetch_sheet(wb, None), lambda: sf.list_sheetnames(wb)):
            try:
                r = f()
            except ValueError:
                pass
            else:
                fail("%r without backends, among bids %r", r, scores)
        check_eq(world.take(), [], "opened without bids")
        return
    if not real:
        fail("%r decided among bids %r", won, scores)
    check_eq(scores[int(won.name)], max(real), "winning bid of %r", scores)
    check_eq(sorted(seen), [(i, u) for i in range(len(scores))], "bids asked for %s", wb)
    check_eq(scores[int(sf.list_sheetnames(wb)[0])], max(real), "bid of sheet-names lister, of %r", scores)
    try:
        sf.fetch_sheet(wb, "S1")
    except ValueError:
        if u in [b[1] for b in BOOKS]:
            raise
    (ev,) = world.take()
    check_eq((ev[0], scores[int(ev[1])]) + ev[2:], ("open", max(real), u, "S1"), "opening with bids %r", scores)


# -- crowds
class CrowdSheet(FakeSheet):
    def get_sheet_ids(self):
        return backend.SheetId(self.book, ["N%i" % self.idx, self.idx])

    def open_sibling_sheet(self, sheet_id):
        self.world.log.append(("sibling", self.serial, sheet_id))
        return crowd_sheet(self.world, self.book, sheet_id)


def crowd_sheet(world, book, sheet_id):
    world.serial += 1
    if isinstance(sheet_id, str):
        sheet_id = int(sheet_id[1:])
    return CrowdSheet(world, book, sheet_id or 0, world.serial)


class CrowdBackend(FakeBackend):
    def open_sheet(self, wb_url, sheet_id):
        self.world.log.append(("open", self.name, wb_url, sheet_id))
        return crowd_sheet(self.world, wb_url, sheet_id)


@st.composite
def crowds(draw):
    books, sheets = draw(st.sampled_from([(1, 150), (150, 1), (12, 12), (40, 3), (2, 300), (3, 3)]))
    visits = []
    for _ in range(draw(st.integers(1, 3))):
        visits.append(
            (
                draw(st.sampled_from(["forth", "back", "strided"])),
                draw(st.sampled_from(["name", "index", "both"])),
                draw(st.sampled_from(["book", "book", "sibling", "alias"])),
            )
        )
    return {
        "books": books,
        "sheets": sheets,
        "backends": draw(st.sampled_from([1, 2, 30])),
        "aliases": draw(st.sampled_from([0, 1, 40])),
        "visits": visits,
        "renew": draw(st.lists(st.integers(0, 10 ** 6), max_size=3)),
    }


def check_crowd(case, ctx):
    """Many sheets, workbooks, aliases & backends."""
    world = World()
    n, m = case["books"], case["sheets"]
    total = n * m
    bes = [
        CrowdBackend("b%i" % i, world, lambda u, i=i: None if i % 3 == 2 and i else -((i - case["backends"] // 2) ** 2))
        for i in range(case["backends"])
    ]
    best = max((b for b in bes if b.bid("x") is not None), key=lambda b: b.bid("x")).name
    sf = xleash.SheetsFactory(bes)
    cached = {}

    def check_log(what, opens, closed=()):
        log = world.take()
        check_eq([e for e in log if e[0] in ("open", "sibling")], opens, "sheets opened by %s", what)
        check_eq(sorted(e[1] for e in log if e[0] == "close"), sorted(closed), "sheets closed by %s", what)
        check_eq([e for e in log if e[0] == "close_all"], [], "books closed by %s", what)

    def url(b):
        return "http://h/b%i.x" % b

    aliases = ["alias%i" % i for i in range(case["aliases"])]
    for no, (order, ids, how) in enumerate(case["visits"]):
        seq = range(total)
        if order == "back":
            seq = reversed(seq)
        elif order == "strided":
            seq = sorted(seq, key=lambda i: (i * 7919 % 1009, i))
        for i in seq:
            b, sh = divmod(i, m)
            sid = sh if ids == "index" or (ids == "both" and i % 2) else "N%i" % sh
            what = "visit %i, book %i, sheet %r of %r" % (no, b, sid, case)
            base = next((s for (bb, _), s in cached.items() if bb == b), None) if how == "sibling" else None
            opens = []
            wb = url(b)
            if how == "alias" and aliases and (b, sh) in cached:
                wb = "%s-%i" % (aliases[i % len(aliases)], b)
            if (b, sh) not in cached:
                opens = [("sibling", base.serial, sid) if base else ("open", best, wb, sid)]
            got = sf.fetch_sheet(None if base else wb, sid, base_sheet=base)
            if opens:
                check_eq((got.book, got.idx), (url(b), sh), "opened by %s", what)
                cached[b, sh] = got
                sf.add_sheet(got, ["%s-%i" % (a, b) for a in aliases], [])
            elif got is not cached[b, sh]:
                fail("%s served %s of %s#%s, not the one cached", what, got.serial, got.book, got.idx)
            check_log(what, opens)
        if no == 0:
            for i in case["renew"]:
                b, sh = divmod(i % total, m)
                old = cached[b, sh]
                world.serial += 1
                cached[b, sh] = new = CrowdSheet(world, url(b), sh, world.serial)
                sf.add_sheet(new, ["%s-%i" % (a, b) for a in aliases], [])
                check_log("renewing %i-%i of %r" % (b, sh, case), [], [old.serial])
    sf.close()
    log = world.take()
    check_eq({e[0] for e in log}, {"close_all"}, "calls by closing %r", case)
    check_eq({e[1] for e in log}, {s.serial for s in cached.values()}, "closed of %r", case)
    sf.fetch_sheet(url(0), 0)
    check_log("fetching after closing %r" % case, [("open", best, url(0), 0)])
    ctx.label("%ix%i" % (n, m), *{v[2] for v in case["visits"]})
    ctx.nontrivial(total > 9)


FACETS = [
    facet("crowd", crowds, check_crowd, quick=250),
    facet("history", ops, check_history, quick=14000, thorough=600000),
    facet(
        "bids",
        lambda: st.tuples(bids, wb_ids, st.sampled_from(["SheetsFactory", "SimpleSheetsFactory"])),
        check_bids,
        quick=1500,
        thorough=20000,
    ),
]
