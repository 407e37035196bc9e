"""C09: filter pipes, options and the outcomes of any lassoing."""
import copy
import json

from hypothesis import strategies as st

from pandalone import xleash
from pandalone.xleash.io import backend
from vlib import sheetgen as sg, sheetmodel as sm
from vlib.core import facet, fail, check_eq
from checks import c06, c07

import numpy as np

ID = "C09"
RULE = """
pipes: trees of filters (recording, value-setting, option-reporting, failing in 6 ways, unknown, returning
garbage, scribbling on their arguments and options, nested lassos, nested pipes, redim) with lax/verbose/other
options at call, xl-ref and base level (or base options missing), thrown twice on the same ranger and by lasso();
values, options, the log of filter calls and failures are compared with an interpreter.
long: as with pipes, of tens of filters or up to 20 nested pipes.
fields: fields of the final lasso or, if failed, of the ranger's intermediate one: those parsed, sheet, coords, options & values
reached up to there, and help of filters shown only if verbose.
outcomes: arbitrary xl-refs (odd files, sheets, edges, expansions, filters of wrong types)
on arbitrary sheets & options, with and without own sheets-cache: only the declared exceptions,
the same outcome again, base options intact, every sheet opened implicitly is closed.
Non-trivial: at least 3 filters ran and one of them failed or an option decided something (pipes);
a sheet was reached (fields); the xl-ref was parsed and either a filter was invoked, or a sheet opened (outcomes).
"""
ASSUMPTIONS = [
    "a lone cell beyond the sheet raises IndexError (its documentation says just 'raise error')",
    "filters that alter the values they are given in place, and then fail, are not decided",
]


class Fails(Exception):
    pass


class Boom(Exception):
    pass


EXCS = {
    "value": ValueError,
    "key": KeyError,
    "zero": ZeroDivisionError,
    "syntax": SyntaxError,
    "empty": xleash.EmptyCaptureException,
    "own": Boom,
    "assert": AssertionError,
    "stop": StopIteration,
}
SHEET = [[1, "two"], [None, 4.5]]
#: nested lassos
INNER = {
    "#A1": 1,
    "#A1:B2": SHEET,
    '#B1:"opts"': "opts:",
    '#B1:{"opts": {"lax": true, "in": 9}, "func": "opts"}': "opts:lax,in",
    '#B1:"boom"': "boom",
    '#B1:{"opts": {"lax": true}, "func": "boom"}': "laxboom",
    "#A2:A2(D)": Fails,
}


def make_filters(log):
    def rec(ranger, lasso, *args, **kw):
        log.append(("rec", copy.deepcopy(lasso.values), list(args), dict(kw)))
        return lasso._replace(values={"rec": [lasso.values, list(args), dict(kw)]})

    def set_(ranger, lasso, v=None):
        log.append(("set", v))
        return lasso._replace(values=v)

    def boom(ranger, lasso, exc="value", **kw):
        log.append(("boom", exc))
        raise EXCS[exc]("boom!")

    def opts(ranger, lasso, **kw):
        log.append(("opts",))
        return lasso._replace(values=["opts", seen_opts(lasso.opts), kw])

    def garbage(ranger, lasso):
        log.append(("garbage",))
        return [lasso.values]

    def scribble(ranger, lasso, *args, **kw):
        """On all that it should not be shared."""
        log.append(("scribble", list(args), dict(kw)))
        lasso.opts["scribbled"] = 1
        for v in lasso.opts.values():
            if isinstance(v, (dict, list)):
                v.clear()
        kw.clear()
        return lasso

    def inner(ranger, lasso, ref):
        log.append(("inner", ref))
        return lasso._replace(values=ranger.do_lasso(ref, sheet=lasso.sheet).values)

    d = dict(xleash.installed_filters)
    for n, f in dict(
        rec=rec, set=set_, boom=boom, opts=opts, garbage=garbage, scribble=scribble, inner=inner
    ).items():
        d[n] = {"func": f}
    d["boom"]["desc"] = "  Explodes"
    return d


SEEN = ["lax", "verbose", "no_empty", "a", "n", "in", "read", "scribbled"]


def seen_opts(opts):
    return {k: copy.deepcopy(opts[k]) for k in SEEN if k in opts}


# -- generators
json_vals = st.one_of(
    st.none(), st.integers(-3, 3), st.sampled_from(["", "x", True, [1, [2]], {"k": [1]}, 2.5])
)
lax = st.sampled_from([None] * 5 + [True, True, False, 0, 1, "null"])


@st.composite
def call(draw, level):
    k = draw(
        st.sampled_from(
            ["rec"] * 5 + ["set"] * 3 + ["boom"] * 4 + ["opts"] * 3
            + ["garbage", "unknown", "badargs", "scribble", "inner", "inner", "redim"]
            + ["pipe"] * (3 if level < 3 else 0)
        )
    )
    args, kw = [], {}
    if k == "rec" or k == "scribble":
        args = draw(st.lists(json_vals, max_size=2))
        kw = draw(st.dictionaries(st.sampled_from(["a", "b", "laxx"]), json_vals, max_size=2))
    elif k == "set":
        args = [draw(json_vals)]
    elif k == "boom":
        args = [draw(st.sampled_from(sorted(EXCS)))]
    elif k == "opts":
        kw = draw(st.sampled_from([{}, {}, {"a": 1}]))
    elif k == "unknown":
        args = draw(st.lists(json_vals, max_size=1))
    elif k == "badargs":
        k, args, kw = "set", [1], {"nokw": 2}
    elif k == "inner":
        args = [draw(st.sampled_from(sorted(INNER)))]
    elif k == "redim":
        kw = {"table": draw(c07.dim)}
    elif k == "pipe":
        args = draw(calls(level + 1))
    v = draw(lax)
    kw = dict(kw)
    if v is not None:
        kw["lax"] = None if v == "null" else v
    return (k, args, kw, draw(st.sampled_from("slo")))


def calls(level):
    return st.lists(call(level), max_size=5 if level == 0 else 3)


def to_json(c):
    name, args, kw, style = c
    if name == "pipe":
        args = [to_json(a) for a in args]
    if style == "s" and not args and not kw:
        return name
    if style == "o":
        d = {"func": name}
        if args:
            d["args"] = args
        if kw:
            d["kwds"] = kw
        return d
    out = [name]
    if kw and style == "s":
        out.append(kw)
        if args:
            out.append(args)
        return out
    if args:
        out.append(args)
    if kw:
        out.append(kw)
    return out


opt_dicts = st.fixed_dictionaries(
    {},
    optional={
        "lax": st.booleans(),
        "verbose": st.booleans(),
        "no_empty": st.sampled_from([True, False, True, False, 1, 0, None]),
        "a": st.integers(0, 3) | st.none(),
        "read": st.sampled_from([None, {}, {"on_demand": False}]),
        "n": st.sampled_from([{"x": [1]}, [1, 2], {}]),
    },
)


@st.composite
def pipe_cases(draw):
    top = draw(calls(0))
    single = len(top) == 1 and draw(st.booleans())
    return (
        draw(st.sampled_from(["#A1:B2", "#A1:B2", "#A1:B2", "#A1", "#A2:A2(D)"])),
        top,
        single,
        draw(st.one_of(st.none(), opt_dicts)),
        draw(st.one_of(st.none(), opt_dicts)),
        draw(lax),
    )


@st.composite
def long_cases(draw):
    """Many filters or deep pipes."""
    ref, top, single, refopts, base, toplax = draw(pipe_cases())
    k = draw(st.sampled_from(["long", "long", "deep"]))
    # One not growing its values.
    mild = st.tuples(
        st.sampled_from([("opts", [], {}), ("set", [5], {}), ("rec", [1], {}), ("boom", ["key"], {"lax": True}), ("pipe", [], {}), ("nope", [], {"lax": True})]),
        st.sampled_from("slo"),
    ).map(lambda t: t[0] + (t[1],))
    if k == "long":
        few = draw(st.lists(mild, min_size=1, max_size=4))
        n = draw(st.sampled_from([6, 10, 17, 40]))
        top = (few * n)[:n] + top
    else:
        for i in range(draw(st.integers(3, 20))):
            kw = {"lax": True} if i == draw(st.integers(0, 19)) else {}
            top = [("pipe", top, kw, "slo"[i % 3])] + draw(st.lists(mild, max_size=1))
    return ref, top, False, refopts, base, toplax


# -- the interpreter
class Interp(object):
    def __init__(self, base, refopts, values):
        self.base = base
        self.opts = dict(base)
        self.own = dict(refopts or {})
        self.opts.update(copy.deepcopy(self.own))
        self.log = []
        self.failed = self.ran = self.decided = 0

    def lax(self, kw, opts):
        if "lax" in kw:
            return kw["lax"]
        if opts.get("lax"):
            self.decided += 1
        return opts.get("lax", False)

    def call(self, c, v, opts):
        name, args, kw, _ = c
        lax = self.lax(kw, opts)
        self.ran += 1
        try:
            return self.invoke(name, args, {k: x for k, x in kw.items() if k != "lax"}, v, opts)
        except Fails:
            self.failed += 1
            if lax:
                return v
            raise

    def invoke(self, name, args, kw, v, opts):
        if name == "pipe":
            # what happens in a failed pipe stays, except for its values
            for c in args:
                v = self.call(c, v, opts)
            if kw:
                pass
            return v
        if name == "rec":
            self.log.append(("rec", copy.deepcopy(v), args, kw))
            return {"rec": [v, args, kw]}
        if name == "set":
            if kw:
                raise Fails
            self.log.append(("set", args[0]))
            return args[0]
        if name == "boom":
            self.log.append(("boom", args[0]))
            raise Fails
        if name == "opts":
            self.log.append(("opts",))
            self.decided += 1
            return ["opts", seen_opts(opts), kw]
        if name == "garbage":
            self.log.append(("garbage",))
            raise Fails
        if name == "scribble":
            self.log.append(("scribble", args, kw))
            opts["scribbled"] = 1
            for x in opts.values():
                if isinstance(x, (dict, list)):
                    x.clear()
            return v
        if name == "redim":
            d = kw.get(self.kind)
            return c07.redim(v, d)[0] if d is not None else v
        if name == "inner":
            self.log.append(("inner", args[0]))
            r = INNER[args[0]]
            # Options of the outer xl-ref do not apply on the nested ones.
            base = copy.deepcopy(self.base)
            if r is Fails:
                if base.get("no_empty"):
                    raise Fails
                return []
            if r == "opts:":
                self.log.append(("opts",))
                return ["opts", seen_opts(base), {}]
            if r == "opts:lax,in":
                self.log.append(("opts",))
                return ["opts", seen_opts(dict(base, **{"lax": True, "in": 9})), {}]
            if r in ("boom", "laxboom"):
                self.log.append(("boom", "value"))
                if r == "laxboom" or base.get("lax"):
                    return "two"
                raise Fails
            return copy.deepcopy(r)
        raise Fails  # unknown


def typed(v):
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    if isinstance(v, dict):
        return ("dict", sorted(((typed(k), typed(x)) for k, x in v.items()), key=repr))
    return (type(v).__name__, repr(v))


def check_pipes(case, ctx):
    ref, top, single, refopts, base, toplax = case
    defaults = {"lax": False, "verbose": False, "read": {"on_demand": True}}
    # The spec as text
    if single:
        spec = to_json(top[0])
        model = top[0]
    else:
        kw = {} if toplax is None else {"lax": None if toplax == "null" else toplax}
        model = ("pipe", top, kw, "l")
        spec = to_json(model)
    if refopts is not None:
        d = {"opts": refopts}
        if isinstance(spec, str):
            d["func"] = spec
        elif isinstance(spec, list):
            d["func"] = spec[0]
            for x in spec[1:]:
                d["args" if isinstance(x, list) else "kwds"] = x
        else:
            d.update(spec)
        spec = d
    text = ref + ":" + json.dumps(spec)
    what = "%s with base-opts %r" % (text, base)

    def expected(base):
        it = Interp(copy.deepcopy(base), refopts, None)
        it.kind = "table" if ref == "#A1:B2" else "none"
        if ref == "#A1:B2":
            v = copy.deepcopy(SHEET)
        elif ref == "#A1":
            v = 1
        else:
            v = []
            if it.opts.get("no_empty"):
                return "empty", None, it
        opts = copy.deepcopy(it.base)
        opts.update(it.own)
        opts = copy.deepcopy(opts)
        try:
            return "ok", it.call(model, v, opts), it
        except Fails:
            return "error", None, it

    def throw(f):
        try:
            return "ok", f()
        except xleash.EmptyCaptureException:
            return "empty", None
        except ValueError:
            return "error", None

    mine = copy.deepcopy(SHEET)
    sheet = xleash.ArraySheet(mine)
    log = []
    flt = make_filters(log)
    base_given = copy.deepcopy(base)

    def compare(how, exp, got, it):
        check_eq((got[0], typed(got[1])), (exp[0], typed(exp[1])), "outcome by %s of %s", how, what)
        check_eq(typed(log), typed(it.log), "filters called by %s of %s", how, what)
        check_eq(typed(base_given), typed(base), "base-opts after %s", what)
        del log[:]

    dbase = dict(defaults, **(base or {}))
    *exp, it = expected(dbase)
    for how in ("lasso()", "lasso() again"):
        got = throw(
            lambda: xleash.lasso(text, sheet=sheet, base_opts=base_given, available_filters=flt)
        )
        compare(how, exp, got, it)
    # A ranger of no defaults, all of its lassos being independent
    *exp, it = expected(base or {})
    ranger = xleash.Ranger(backend.SheetsFactory(), base_given, flt)
    for how in ("ranger", "ranger again"):
        got = throw(lambda: ranger.do_lasso(text, sheet=sheet).values)
        compare(how, exp, got, it)
        r = ranger.do_lasso('#A1:"opts"', sheet=sheet)
        check_eq(r.values, ["opts", seen_opts(base or {}), {}], "later opts after %s", what)
        check_eq(seen_opts(r.opts), seen_opts(base or {}), "later lasso.opts after %s", what)
        del log[:]
    # Without any filters
    it2 = Interp(dbase, refopts, None)
    if ref == "#A2:A2(D)" and it2.opts.get("no_empty"):
        exp2 = ("empty", None)
    elif it2.lax(model[2], it2.opts):
        exp2 = ("ok", SHEET if ref == "#A1:B2" else 1 if ref == "#A1" else [])
    else:
        exp2 = ("error", None)
    got = throw(lambda: xleash.lasso(text, sheet=sheet, base_opts=base_given, available_filters={}))
    compare("lasso() without filters", exp2, got, it2)
    check_eq(mine, SHEET, "sheet after %s", what)

    ctx.label(exp[0], "single" if single else "pipe")
    ctx.nontrivial(it.ran > 2 and (it.failed or it.decided))


# --------------------------------------------------------------------------
# Outcomes
# --------------------------------------------------------------------------
FILTERS = [
    None, '"pipe"', '["pipe", []]', '["pipe", 1]', '["pipe", [["redim"], 1]]', '["redim", [5]]',
    '["redim", {"table": [1, 2, 3]}]', '["redim", {"row": 1, "col": 1, "cell": 0}]', '["redim", [[0, true]]]',
    '{"func": 1}', '{"func": "redim", "kwds": {"scalar": 2}}', '{"opts": {"no_empty": true}, "func": "pipe"}',
    '{"opts": {"lax": true}, "func": "boom"}', '"recurse"', '["recurse", {"depth": 2}]', '["recurse", {"depth": "x"}]',
    '["recurse", {"include": 5, "lax": true}]', '"pyeval"', '["pyeval", {"eval_all": true}]', '["py", ["1+"]]',
    '["py", ["lasso.values"]]', '["py", ["2*3"]]', '"numpy"', '["numpy", {"dtype": "zzz"}]', '"dict"', '["dict", {"lax": true}]',
    '"sorted"', '"odict"', '"nope"', '["nope", {"lax": true}]', "[]", "{}", "{", "[1", '{"opts": {}}', '{"opts": 4}', '"', "nul",
    '["pipe", [["dict", {"lax": true}], ["sorted", {"lax": true}], ["redim", {"table": 1}]]]', '["pipe", ["recurse", "pyeval"]]',
]
CELLS = [
    None, None, 1, 2.5, True, "x", "1+1", "#A1", "#B2", "#A1:B2", '#A1:"boom"', "#s!A1", "wb.fake#S0!A1", "#.C1",
    "#R.C.", "#S1!A1", "http://h/a.x#s1!A1", '#_:"recurse"', "#^^",
]
FILES = [""] * 70 + ["http://h/a.x", "/d/b.x"] * 8 + [
    "http://h/a.x", "http://h/a.x", "/d/b.x", "file:///d/c.x", "/d/nofile.x", "nope", "http://h/none", "\u0391", "nofile.xls",
    "/dev/null/x.xls", "%41.xlsx", "c:/x.xls", "[", "//", "file:", "http:", "http://[x.xls",
]


@st.composite
def outcome_cases(draw):
    ncols, masks = draw(sg.patterns(4))
    nrows = len(masks)
    pool = draw(st.lists(st.sampled_from(CELLS), min_size=3, max_size=6))
    idx = draw(st.lists(st.integers(0, len(pool) - 1), min_size=nrows * ncols, max_size=nrows * ncols))
    rows = [
        [pool[idx[r * ncols + c]] if masks[r] >> c & 1 else None for c in range(ncols)]
        for r in range(nrows)
    ]
    if draw(st.integers(0, 12)) == 12:
        rows = draw(st.sampled_from([[], [[]], [[None]]]))
    simple = draw(st.integers(0, 2)) > 0
    e1 = draw(sg.edges(nrows, ncols, not simple, moves=not simple))
    e2 = draw(st.one_of(st.none(), sg.edges(nrows, ncols, True), sg.edges(nrows, ncols, True, moves=False)))
    toks = draw(st.one_of(st.none(), st.none(), sg.exp_tokens())) if e2 else None
    frag = sm.ref_text(e1, e2, toks)
    flt = draw(st.sampled_from(FILTERS))
    if flt:
        frag += ":" * (1 if e2 else draw(st.sampled_from([1, 2]))) + flt
    sheet = draw(st.sampled_from([""] * 20 + ["s!", "S1!", "S0!", "1!", "nope!", "s1!"]))
    text = draw(st.sampled_from(FILES)) + "#" + sheet + frag.lstrip("#")
    if draw(st.integers(0, 4)) == 4:
        i = draw(st.integers(0, len(text)))
        op = draw(st.sampled_from(["ins", "del", "dup", "cut"]))
        if op == "ins":
            text = text[:i] + draw(st.sampled_from(list("#!:().-_^0A9\"{}[]?,+ \n\u0661\ud800"))) + text[i:]
        elif op == "del":
            text = text[:i] + text[i + 1 :]
        elif op == "dup":
            text = text[:i] + text[i : i + 2] + text[i:]
        else:
            text = text[:i]
    base = draw(st.one_of(st.none(), opt_dicts))
    ctx_sheet = draw(st.sampled_from([True] * 12 + [False]))
    coords = draw(st.sampled_from([None, (0, 0), (2, 1), (1, 1), (9, 9)]))
    return (rows, text, base, ctx_sheet, coords)


def check_outcomes(case, ctx):
    rows, text, base, ctx_sheet, coords = case
    called = []
    flt = {}
    for n, r in xleash.installed_filters.items():
        flt[n] = {"func": spy(called, n, r["func"])}
    flt["boom"] = {"func": spy(called, "boom", lambda ranger, lasso: 1 // 0)}
    saved = list(xleash.io_backends)
    outcomes = []
    try:
        for how in ("implicit", "implicit again", "own"):
            world = c06.World()
            xleash.io_backends[:] = c06.make_backends(world) + saved
            kw = {}
            mine = copy.deepcopy(rows)
            sheet = xleash.ArraySheet(mine)
            if ctx_sheet:
                kw["sheet"] = sheet
            if coords:
                kw["base_coords"] = xleash.Coords(*coords)
            sf = None
            if how == "own":
                sf = kw["sheets_factory"] = xleash.SheetsFactory()
            base_given = copy.deepcopy(base)
            what = "%s lasso of %r (%s) on %r" % (how, text, coords, rows if ctx_sheet else None)
            del called[:]
            try:
                v = xleash.lasso(text, base_opts=base_given, available_filters=flt, **kw)
                out = ("ok", typed(v))
            except (SyntaxError, ValueError, xleash.EmptyCaptureException) as ex:
                cls = [c for c in (SyntaxError, ValueError, xleash.EmptyCaptureException) if isinstance(ex, c)][0]
                out = (cls.__name__,)
            except IndexError:
                l = parsed(text)
                if l["nd_edge"] is not None:
                    raise
                out = ("IndexError",)
            outcomes.append(out)
            check_eq(out, outcomes[0], "outcome of %s", what)
            check_eq(typed(mine), typed(rows), "sheet after %s", what)
            check_eq(typed(base_given), typed(base), "base-opts after %s", what)
            log = world.take()
            made = {i + 1 for i in range(world.serial)}
            gone = {e[1] for e in log if e[0] in ("close", "close_all")}
            if how != "own":
                check_eq(gone, made, "sheets closed, of those opened, by %s", what)
            else:
                if [e for e in log if e[0] == "close_all"]:
                    fail("%s closed the cache given", what)
                sf.close()
                check_eq(
                    gone | {e[1] for e in world.take()}, made, "sheets closed finally, by %s", what
                )
    finally:
        xleash.io_backends[:] = saved
    ctx.label(outcomes[0][0], "opened" if made else "mem", "filtered" if called else "plain")
    ctx.nontrivial(outcomes[0][0] != "SyntaxError" and (called or made))


def parsed(text):
    from pandalone.xleash import _parse

    return _parse.parse_xlref(text)


def spy(called, name, func):
    def f(ranger, lasso, *args, **kwds):
        called.append(name)
        return func(ranger, lasso, *args, **kwds)

    return f


# --------------------------------------------------------------------------
# Fields of lassos, at any stage
# --------------------------------------------------------------------------
PARSED = "url_file sh_name st_edge nd_edge exp_moves call_spec".split()


@st.composite
def field_cases(draw):
    ncols, masks = draw(sg.patterns(3))
    rows = sg.rows_from_masks(ncols, masks)
    nrows = len(masks)
    simple = draw(st.booleans())
    e1 = draw(sg.edges(nrows, ncols, not simple, moves=not simple))
    e2 = draw(st.one_of(st.none(), sg.edges(nrows, ncols, True), sg.edges(nrows, ncols, True, moves=False)))
    toks = draw(st.one_of(st.none(), st.none(), sg.exp_tokens())) if e2 else None
    frag = sm.ref_text(e1, e2, toks).lstrip("#")
    flt = draw(
        st.sampled_from(
            [None, None, "set", "boom", "nope", ["pipe", [["set", [1]], ["rec"], "boom"]], ["pipe", ["rec", ["set", [[1]]]]], ["boom", {"lax": True}], "opts",
             ["pipe", [["set", [1]], ["set", [2]], ["set", [3], {"x": 1}]]], ["pipe", ["rec", "rec", "rec", ["boom", {"lax": True}], "boom"]]]
        )
    )
    opts = draw(st.one_of(st.none(), opt_dicts))
    if opts is not None:
        flt = {"opts": opts, "func": flt if isinstance(flt, str) else (flt or ["pipe"])[0]}
        if flt["func"] == "pipe":
            flt["args"] = [["set", [5]], draw(st.sampled_from(["rec", "boom"]))]
    if flt is not None:
        frag += ":" * (1 if e2 else draw(st.sampled_from([1, 2]))) + json.dumps(flt)
    wb = draw(st.sampled_from([""] * 6 + ["http://h/a.x", "http://h/none"]))
    sh = draw(st.sampled_from(["S0!", "S1!", "nope!"] if wb else [""] * 8 + ["nope!"]))
    text = wb + "#" + sh + frag
    if draw(st.integers(0, 7)) == 0:
        text += draw(st.sampled_from(["(", "{", ":x", ")"]))
    return rows, text, draw(st.one_of(st.none(), opt_dicts)), draw(st.sampled_from([None, (0, 0), (1, 1)]))


def check_fields(case, ctx):
    rows, text, base, coords = case
    log = []
    flt = make_filters(log)
    sheet = xleash.ArraySheet(rows)
    kw = {"sheet": sheet}
    if coords:
        kw["base_coords"] = xleash.Coords(*coords)
    what = "%s of %s at %s" % (text, rows, coords)
    world = c06.World()
    sf = backend.SheetsFactory(c06.make_backends(world))
    ranger = xleash.Ranger(sf, copy.deepcopy(base), flt)
    try:
        pl = parsed(text)
    except (SyntaxError, ValueError):
        pl = None
    try:
        res, failed = ranger.do_lasso(text, **kw), None
    except (SyntaxError, ValueError, IndexError, xleash.EmptyCaptureException) as ex:
        res, failed = None, ex
    stage, last = ranger.intermediate_lasso
    if res is None:
        res = last
    if not isinstance(res, xleash.Lasso) or not isinstance(last, xleash.Lasso):
        fail("%s: not a lasso: %r, %r", what, res, last)
    opts = dict(base or {})
    # What was known, up to where it failed.
    reached = ["context"]
    check_eq(res.base_coords, kw.get("base_coords"), "%s: base-coords", what)
    if pl is None:
        if failed is None:
            fail("%s: did not fail", what)
        check_eq([getattr(res, f) for f in ["xl_ref"] + PARSED], [None] * 7, "%s: fields before parsing", what)
    else:
        reached.append("parse")
        check_eq(
            {f: getattr(res, f) for f in ["xl_ref"] + PARSED}, {f: pl.get(f) for f in ["xl_ref"] + PARSED}, "%s: fields parsed", what
        )
        check_eq(res.xl_ref, text, "%s: xl-ref", what)
        opts.update(pl.get("opts") or {})
    check_eq(typed(dict(res.opts)), typed(opts), "%s: opts", what)
    opened = pl is not None and pl["sh_name"] != "nope" and not text.startswith("http://h/none")
    if not opened:
        if failed is None:
            fail("%s: did not fail", what)
        if res.sheet is not sheet:
            fail("%s: sheet changed", what)
    elif not text.startswith("#"):
        reached.append("open")
        if not isinstance(res.sheet, c06.FakeSheet):
            fail("%s: not the sheet opened: %s", what, res.sheet)
        check_eq(res.sheet.idx, c06.NAMES.index(pl["sh_name"]), "%s: sheet", what)
        world.take()
    else:
        reached.append("open")
        if res.sheet is not sheet:
            fail("%s: not the sheet given", what)
    captured = opened and not isinstance(failed, (xleash.EmptyCaptureException, IndexError)) and not str(failed).startswith("Resolving")
    if not captured:
        if failed is None:
            fail("%s: did not fail", what)
        if res.values is not None:
            fail("%s: has values: %s", what, res.values)
        if not isinstance(failed, IndexError):
            check_eq((res.st, res.nd), (None, None), "%s: coords", what)
    else:
        reached.append("values")
        # The same without filters.
        bare = ranger.do_lasso(text[: min(x for x in (text.find(c) for c in '"[{') if x >= 0)] + '{"opts": {"no_empty": false}, "func": "pipe"}', **kw) if pl["call_spec"] else res
        check_eq((res.st, res.nd), (bare.st, bare.nd), "%s: coords", what)
        for c in (res.st, res.nd):
            if c is not None and type(c) is not xleash.Coords:
                fail("%s: not coords: %r", what, c)
        # Values are those after the last filter, or given to the failed one.
        v = bare.values
        spec = pl["call_spec"]
        if spec:
            steps = [to_call(f) for f in spec.args] if spec.func == "pipe" else [tuple(spec)]
            try:
                for name, args, kwds in steps:
                    if name == "set" and set(kwds) - {"lax"}:
                        if not kwds.get("lax", opts.get("lax")):
                            raise Fails
                    elif name == "set":
                        v = args[0] if args else None
                    elif name == "rec":
                        v = {"rec": [v, list(args), dict(kwds)]}
                    elif name == "opts":
                        v = ["opts", {k: x for k, x in opts.items() if k in SEEN}, {}]
                    elif not (kwds.get("lax", opts.get("lax"))):
                        raise Fails
            except Fails:
                if failed is None:
                    fail("%s: did not fail", what)
                # Unspecified which of the pipe's lassos is last.
                ctx.label("filter failed")
            else:
                if failed is not None:
                    fail("%s: failed with %s", what, failed)
                reached.append("filters")
            if failed is not None:
                if opts.get("verbose") and steps[-1][0] == "boom" and "Explodes" not in str(failed):
                    fail("%s: verbose without help of filter: %s", what, failed)
                if not opts.get("verbose") and "Explodes" in str(failed):
                    fail("%s: help of filter, but not verbose: %s", what, failed)
        elif failed is not None:
            fail("%s: failed with %s", what, failed)
        check_eq(typed(res.values), typed(v), "%s: values", what)
    ctx.label(reached[-1])
    ctx.nontrivial(len(reached) > 2)


def to_call(spec):
    if isinstance(spec, str):
        return spec, [], {}
    args, kwds = [], {}
    for x in spec[1:]:
        if isinstance(x, list):
            args = x
        else:
            kwds = x
    return spec[0], args, kwds


FACETS = [
    facet("fields", field_cases, check_fields, quick=3000, thorough=60000),
    facet("long", long_cases, check_pipes, quick=400, thorough=10000),
    facet("pipes", pipe_cases, check_pipes, quick=5000, thorough=200000),
    facet("outcomes", outcome_cases, check_outcomes, quick=5000, thorough=200000),
]
