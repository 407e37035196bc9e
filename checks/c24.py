"""C24: what an xl-ref leaves unwritten comes from its context, and nothing lingers from other lassoings."""
import copy
import json
import re

from hypothesis import strategies as st

from checks import c09
from pandalone import xleash
from pandalone.xleash.io.backend import SheetId
from vlib import sheetgen as sg, sheetmodel as sm
from vlib.core import check_eq, facet, fail

ID = "C24"
RULE = """
context: any xl-ref (book, sheet, 1-2 edges, expansions, filters & options) over 2 cached books of 3 sheets; some of its parts are left
out of the text and given (parsed) as context fields instead, while the parts still in the text get contradicting ones:
the final lasso must equal the one of the full text (metamorphic), in all its fields, or fail alike; also through a Ranger.
history: 2-9 lassoings with one Ranger, factory, options & contexts (xl-refs as before or recursive or bad, with filters failing,
scribbling on options & arguments, lassoing within); each must give (fields, intermediate stage, error) what
a fresh Ranger gives, leaving base-options, contexts & sheets as they were.
Non-trivial: some part came from the context and values were captured (context); 3+ lassoings, some failing & some not (history).
"""
ASSUMPTIONS = [
    "options given as a context field have no specified effect (base-options are always in effect)",
    "an xl-ref always has a 1st edge (a missing one is the top-left)",
]

BOOKS = ["wb1", "wb2"]
NAMES = ["S0", "S 1", "refs"]
REFS = [
    ["#A1", "#B2:..", "x", 3],
    ["#R-1C0", "wb2#S0!A1", None, "#S 1!^^:__"],
    ["#_^(U)", '#A4:"opts"', "a#b", '#A1:"boom"'],
    ["#A1(", 1.5, "#D1", "#D4:D4:LU"],
]


@st.composite
def books(draw):
    def grid():
        ncols, masks = draw(sg.patterns(4))
        return sg.rows_from_masks(ncols, masks)

    return {b: [grid() for _ in NAMES[:2]] for b in BOOKS}


def make_factory(books):
    sf = xleash.SheetsFactory()
    sheets = {}
    for b in BOOKS:
        for i, n in enumerate(NAMES):
            rows = copy.deepcopy(REFS if n == "refs" else books[b][i])
            sheets[b, n] = sheet = xleash.ArraySheet(rows, SheetId(b, [n, i]))
            sf.add_sheet(sheet, b, [n, i])
    return sf, sheets


@st.composite
def specs(draw):
    """Filters or None"""
    kind = draw(st.sampled_from([None, None, "call", "call", "recurse", "redim", "opts"]))
    if kind is None:
        return None
    opts = draw(st.one_of(st.none(), c09.opt_dicts))
    if kind == "opts":
        return {"opts": opts or {}}
    if kind == "call":
        js = c09.to_json(draw(c09.call(2)))
    elif kind == "recurse":
        js = ["recurse", {"lax": True}] if draw(st.booleans()) else "recurse"
    else:
        js = ["redim", {"table": draw(st.sampled_from([0, 1, 2, [1, True]]))}]
    if opts is None:
        return js
    if isinstance(js, str):
        return {"func": js, "opts": opts}
    if isinstance(js, list):
        js = {"func": js[0], "args": [i for j in js[1:] if isinstance(j, list) for i in j],
              "kwds": {k: v for j in js[1:] if isinstance(j, dict) for k, v in j.items()}}
    return dict(js, opts=opts)


@st.composite
def refs(draw):
    """``{part: text-of-it}``"""
    e1 = draw(sg.edges(4, 4, False))
    e2 = draw(st.one_of(st.none(), sg.edges(4, 4, True)))
    toks = draw(st.one_of(st.none(), sg.exp_tokens())) if e2 else None
    url = draw(st.sampled_from([None, None, None, "wb1", "wb2"]))
    sh = draw(st.sampled_from([None, "S0", "S 1", "1", "refs"]))
    spec = draw(specs())
    return dict(
        url=url,
        # Books need a sheet, the cached ones at least.
        sh="S0" if url and sh is None else sh,
        st=sm.ref_text(e1, None, None),
        nd=e2 and ":" + sm.ref_text(e2, None, None, rc="." in e2[:2] and e2[:2] != (".", "."))[1:],
        exp=toks and ":" + sm.exp_text(toks),
        filt=spec and ":" + json.dumps(spec),
    )


def text_of(p):
    sh = "" if p["sh"] is None else p["sh"] + "!"
    return "%s#%s%s%s%s%s" % (p["url"] or "", sh, p["st"][1:], p["nd"] or "", p["exp"] or "", p["filt"] or "")


@st.composite
def context_cases(draw):
    p = draw(refs())
    can = [k for k in ("url", "sh", "exp", "filt") if p[k] is not None]
    if p["nd"]:
        can.append("nd")
    out = draw(st.lists(st.sampled_from(can), unique=True)) if can else []
    if "nd" in out and p["exp"] and "exp" not in out:
        out.append("exp")
    return dict(
        books=draw(books()),
        parts=p,
        out=sorted(out),
        base=draw(st.sampled_from([("wb1", "S0"), ("wb1", "S 1"), ("wb2", "S0"), ("wb2", "refs"), None])),
        base_coords=draw(st.sampled_from([None, None, (0, 0), (1, 2), (3, 1)])),
        decoys=draw(st.booleans()),
        ranger=draw(st.booleans()),
        opts=draw(st.one_of(st.none(), c09.opt_dicts)),
    )


def run(lasso_func):
    """All that can be seen of a lassoing, without addresses"""
    try:
        lasso = lasso_func()
    except Exception as ex:
        if isinstance(ex, (SyntaxError, ValueError, xleash.EmptyCaptureException, IndexError)):
            return ("fails", type(ex).__name__), clean(ex)
        raise
    d = lasso._asdict()
    opts = d.pop("opts")
    d["sheet"] = d["sheet"].get_sheet_ids()
    d["opts"] = sorted((k, repr(opts[k])) for k in opts)
    text = d.pop("xl_ref")
    return ("ok", {k: clean(v) for k, v in d.items()}), text


def clean(x):
    return re.sub("0x[0-9a-f]+", "0x", x if isinstance(x, str) else "%s: %r" % (type(x).__name__, x))


FIELDS = {"url": "url_file", "sh": "sh_name", "nd": "nd_edge", "exp": "exp_moves", "filt": "call_spec"}


def check_context(case, ctx):
    p, out = case["parts"], case["out"]
    full = text_of(p)
    part = text_of({k: None if k in out else v for k, v in p.items()})
    if "filt" in out and json.loads(p["filt"][1:]).__class__ is dict and "opts" in json.loads(p["filt"][1:]):
        part += ":" + json.dumps({"opts": json.loads(p["filt"][1:])["opts"]})
    parsed = xleash.parse_xlref(full)
    context = {FIELDS[k]: parsed[FIELDS[k]] for k in out if parsed[FIELDS[k]] is not None}
    if case["decoys"]:
        given = xleash.parse_xlref(part)
        decoy = xleash.parse_xlref('wb2#nosheet!C3(R):D4:L1:["set", [77]]')
        for k in list(FIELDS.values()) + ["st_edge", "xl_ref"]:
            if given.get(k) is not None and k not in context:
                context[k] = decoy[k]
        context.update(st=xleash.Coords(3, 3), nd=xleash.Coords(4, 4), values="old")
    before = clean(context)
    opts = c09.make_filters([])

    def lassoing(text, kw):
        sf, sheets = make_factory(case["books"])
        kw = dict(kw)
        if case["base"]:
            kw["sheet"] = sheets[case["base"]]
        if case["base_coords"]:
            kw["base_coords"] = xleash.Coords(*case["base_coords"])
        if case["ranger"]:
            return xleash.make_default_Ranger(sf, case["opts"], opts).do_lasso(text, **kw)
        return xleash.lasso(text, sf, case["opts"], opts, return_lasso=True, **kw)

    exp, _ = run(lambda: lassoing(full, {}))
    got, text = run(lambda: lassoing(part, context))
    check_eq(got, exp, "lassoing %r with context %s, against %r", part, before, full)
    if got[0] == "ok":
        check_eq(text, part, "the xl-ref of the lasso")
    check_eq(clean(context), before, "the context after lassoing %r", part)
    ctx.label(exp[0], *out)
    ctx.nontrivial(bool(context) and exp[0] == "ok" and exp[1]["values"] != "list: []")


# --------------------------------------------------------------------------
SHEET = ("wb1", "S0")
CONTEXTS = [
    {"sheet": SHEET},
    {"sheet": ("wb2", "refs")},
    {},
    {"sheet": SHEET, "exp_moves": "R"},
    {"sheet": SHEET, "call_spec": xleash.parse_xlref('#A1:["pipe", ["scribble", ["rec", [[1]], {"a": {"b": 1}}]]]')["call_spec"]},
    {"sheet": SHEET, "base_coords": xleash.Coords(1, 1), "nd_edge": xleash.parse_xlref("#A1:..(D)")["nd_edge"]},
]


@st.composite
def history_cases(draw):
    steps = []
    for _ in range(draw(st.integers(2, 9))):
        p = draw(refs())
        if draw(st.integers(0, 2)) == 0:
            p.update(sh="refs", st="#^^", nd=":__", exp=None)
            p["filt"] = draw(
                st.sampled_from([':["recurse", {"lax": true}]', ':["recurse", {"filters": ["opts"], "lax": true}]',
                                 ':["pyeval"]', ':["pipe", ["scribble", "recurse"]]', ":\"scribble\"", ':"opts"'])
            )
        text = text_of(p)
        if draw(st.integers(0, 8)) == 0:
            text = draw(st.sampled_from(["#A1(", "no-hash", "#A1:{bad", "nobook#A1", "#nosheet!A1", '#A1:["set"', '#A1:["set", 4]']))
        steps.append((text, draw(st.integers(0, len(CONTEXTS) - 1))))
    again = [steps[draw(st.integers(0, len(steps) - 1))] for _ in range(draw(st.integers(0, 3)))]
    return dict(
        books=draw(books()), steps=steps + again, opts=draw(st.one_of(st.none(), c09.opt_dicts)), default=draw(st.booleans())
    )


def with_sheets(sheets):
    return [{k: sheets[v] if k == "sheet" else copy.deepcopy(v) for k, v in c.items()} for c in CONTEXTS]


def check_history(case, ctx):
    def start():
        sf, sheets = make_factory(case["books"])
        opts = copy.deepcopy(case["opts"])
        make = xleash.make_default_Ranger if case["default"] else xleash.Ranger
        return make(sf, opts, c09.make_filters([])), sheets, opts

    ranger, sheets, opts = start()
    contexts = with_sheets(sheets)
    state = lambda: (
        clean(opts), clean(ranger.base_opts), [clean(c) for c in contexts], [clean(s.read_rect((0, 0), (9, 9))) for k, s in
        sorted(sheets.items()) if s.get_states_matrix().any()]
    )
    before = state()
    outcomes = set()
    for i, (text, c) in enumerate(case["steps"]):
        got = run(lambda: ranger.do_lasso(text, **contexts[c]))
        fresh, fsheets, _ = start()
        exp = run(lambda: fresh.do_lasso(text, **with_sheets(fsheets)[c]))
        what = "lassoing #%i %r after %s" % (i, text, case["steps"][:i])
        check_eq(got, exp, "%s", what)
        check_eq(ranger.intermediate_lasso and ranger.intermediate_lasso[0],
                 fresh.intermediate_lasso and fresh.intermediate_lasso[0], "the stage reached by %s", what)
        check_eq(state(), before, "options, contexts & sheets after %s", what)
        outcomes.add(got[0][0])
    ctx.label(*outcomes)
    ctx.nontrivial(len(case["steps"]) > 2 and len(outcomes) > 1)


FACETS = [
    facet("context", context_cases, check_context, quick=4000, thorough=100000),
    facet("history", history_cases, check_history, quick=2000, thorough=40000),
]
