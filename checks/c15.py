"""C15: Building a model merges and validates its submodels without touching them."""
import copy
import re

from hypothesis import strategies as st

from vlib import boot  # noqa: F401
from vlib import schemagen as sg
from vlib.core import check_eq, facet, fail
from checks.c13 import describe

ID = "C15"
RULE = """
merge: 1-4 submodels drawn over a common skeleton (with deviations) of dicts, Series, DataFrames (of partly
overlapping labels and columns, mixed types and nulls), lists, tuples, arrays & scalars; the model built without
schema is compared with a reference merge, and searched for anything shared with the submodels.
big: as with merge, for up to 30 submodels, maps of 300 keys or 30 levels, and tables of up to 140 rows or 60 columns.
build: submodels with schemas for both validations (types, required, sizes, defaults) and curate
functions that record, alter the model, or fail in various ways; yielded & raised errors are compared
with those expected stage by stage.
dtypes: Series or DataFrames with the same labels & types of columns; the merged must have them as well.
operations: sequences of changing the global operations.
Non-trivial: something is both overridden and supplemented, or two different containers meet (merge);
there are errors past the 1st stage or defaults/curations took place (build); 2+ changes (operations).
"""
ASSUMPTIONS = [
    "nulls (also NaNs) never override, and merging two nulls is an error",
    "maps become DataFrames/Series by the constructors of these; numbers meeting others in a Series/column may "
    "be converted to a common numeric type",
    "labels and columns without duplicates",
]
KEYS = ["a", "b", "c"]
COLS = ["a", "b", "x"]
SCALARS = [0, 1, 2.5, "s", "", True, False, -3]
CELLS = {
    "i": [0, 1, 2, 7],
    "f": [0.5, 1.0, 2.5, None],
    "s": ["x", "", "yy", None],
    "b": [True, False],
    "o": [0, 1.5, "s", True, None, False],
}


# --------------------------------------------------------------------------
# Submodels over a skeleton
# --------------------------------------------------------------------------
@st.composite
def skeletons(draw, depth=3):
    kind = draw(st.sampled_from(["dict"] * 4 + ["sr", "df", "df", "list", "v", "v"])) if depth else "v"
    if kind == "dict":
        return (kind, {k: draw(skeletons(depth - 1)) for k in KEYS})
    if kind == "sr":
        return (kind, draw(st.sampled_from("ifsbo")))
    if kind == "df":
        return (kind, {c: draw(st.sampled_from("ifsbo")) for c in COLS}, draw(st.sampled_from(["range", "text", "ints"])))
    return (kind,)


def cell(draw, t):
    if draw(st.integers(0, 7)) == 0:
        t = draw(st.sampled_from("ifsbo"))
    return ("v", draw(st.sampled_from(CELLS[t])))


def labels(draw, kind, n):
    if kind == "range":
        return ("range", n)
    pool = {"text": ["r1", "r2", "r3", "r4"], "ints": [10, 5, 7, 1]}[kind]
    return draw(st.permutations(pool))[:n]


def submodel(draw, skel, dev=True):
    if dev and draw(st.integers(0, 11)) == 0:
        skel = draw(skeletons(1))
    kind = skel[0]
    if dev and draw(st.integers(0, 14)) == 0:
        return ("v", None)
    if kind == "dict":
        keys = draw(st.lists(st.sampled_from(KEYS), max_size=3, unique=True))
        kids = {k: submodel(draw, skel[1][k]) for k in keys}
        if draw(st.integers(0, 9)) == 0:
            return ("map", draw(st.sampled_from(["OrderedDict", "defaultdict"])), kids)
        return ("dict", kids)
    if kind == "sr":
        n = draw(st.integers(0, 4))
        keys = draw(st.lists(st.sampled_from(KEYS + ["x"]), min_size=n, max_size=n, unique=True))
        vals = [cell(draw, skel[1]) for _ in keys]
        if draw(st.integers(0, 4)) == 0:
            vals = [("list", [v, ("dict", {})]) for v in vals]
        if draw(st.integers(0, 4)) == 0:
            return ("dict", dict(zip(keys, vals)))
        return ("sr", keys, vals, draw(st.booleans()))
    if kind == "df":
        n = draw(st.integers(0, 3))
        cols = draw(st.lists(st.sampled_from(COLS), max_size=3, unique=True))
        cells = {c: [cell(draw, skel[1][c]) for _ in range(n)] for c in cols}
        if draw(st.integers(0, 3)) == 0:
            return ("dict", {c: ("list", v) for c, v in cells.items()})
        if cols and draw(st.integers(0, 4)) == 0:
            cells[cols[0]] = [("list", [v, ("dict", {})]) for v in cells[cols[0]]]
        return ("df", cells, labels(draw, skel[2], n))
    if kind == "list":
        vals = [submodel(draw, ("v",)) for _ in range(draw(st.integers(0, 3)))]
        if draw(st.integers(0, 2)) == 0:
            vals.append(("dict", {"a": ("list", [("v", 1)])}))
        return (draw(st.sampled_from(["list", "list", "tuple", "oarr"])), vals)
    return ("v", draw(st.sampled_from(SCALARS)))


def top_skeleton(draw):
    if draw(st.integers(0, 9)):
        return ("dict", {k: draw(skeletons(2)) for k in KEYS})
    return draw(skeletons(1))


@st.composite
def merge_cases(draw):
    skel = top_skeleton(draw)
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
    return {"models": [submodel(draw, skel, i > 0) for i in range(n)]}


@st.composite
def big_merge_cases(draw):
    """Many submodels, tall or wide tables, or maps wide or deep."""
    kind = draw(st.sampled_from(["many", "wide", "tall", "deep", "cols"]))
    skel = top_skeleton(draw)
    if kind == "many":
        few = [submodel(draw, skel, i > 0) for i in range(draw(st.integers(3, 6)))]
        order = draw(st.lists(st.integers(0, len(few) - 1), min_size=6, max_size=30))
        return {"models": [few[i] for i in order]}
    models = []
    n = draw(st.sampled_from([2, 2, 3]))
    if kind == "wide":
        few = [[submodel(draw, skel, i > 0) for _ in range(4)] for i in range(n)]
        lim = draw(st.sampled_from([20, 70, 300]))
        for i in range(n):
            step, off = draw(st.sampled_from([1, 1, 2, 3])), draw(st.sampled_from([0, 1, 5]))
            models.append(("dict", {"k%i" % k: few[i][k % 4] for k in range(off, lim, step)}))
    elif kind == "deep":
        models = [submodel(draw, skel, i > 0) for i in range(n)]
        for d in range(draw(st.integers(5, 30))):
            side = draw(st.sampled_from(SCALARS))
            models = [("dict", dict([("d", m)] + [("s%i" % i, ("v", side))] + ([("s", ("v", i))] if d % 3 else []))) for i, m in enumerate(models)]
    else:
        # Labels in arithmetic series, overlapping
        lim = draw(st.sampled_from([12, 60, 140])) if kind == "tall" else 4
        ncols = draw(st.integers(1, 4)) if kind == "tall" else draw(st.sampled_from([11, 30, 60]))
        types = draw(st.lists(st.sampled_from("ifsbo"), min_size=3, max_size=3))
        sr = kind == "tall" and draw(st.integers(0, 2)) == 0
        for i in range(n):
            step, off = draw(st.sampled_from([1, 1, 2])), draw(st.sampled_from([0, 0, 1, 7]))
            rows = list(range(off, lim, step))
            if draw(st.integers(0, 2)) == 0:
                rows.reverse()
            if draw(st.integers(0, 3)) == 0:
                rows = ("range", len(rows))
            nrows = rows[1] if isinstance(rows, tuple) else len(rows)
            cells = {t: [cell(draw, t) for _ in range(5)] for t in set(types)}
            if sr:
                models.append(("sr", ["r%i" % r for r in range(nrows)], [cells[types[0]][r % 5] for r in range(nrows)], draw(st.booleans())))
                continue
            cols = range(0, ncols, draw(st.sampled_from([1, 1, 2])))
            models.append(("df", {"c%i" % c: [cells[types[c % 3]][(r + c) % 5] for r in range(nrows)] for c in cols}, rows))
        if draw(st.booleans()):
            models = [("dict", {"t": m}) for m in models]
    return {"models": models}


# --------------------------------------------------------------------------
# Reference merge
# --------------------------------------------------------------------------
class Refused(Exception):
    pass


class Frame(object):
    def __init__(self, cols, rows, cells):
        self.cols, self.rows, self.cells = cols, rows, cells  # cells: {(col, row): value}

    def canon(self):
        return "df(%r, %r, %s)" % (
            self.cols,
            sorted(map(repr, self.rows)),
            {"%r@%r" % (c, r): cn(self.cells.get((c, r)), True) for c in self.cols for r in sorted(self.rows, key=repr)},
        )


class Vector(object):
    def __init__(self, cells):
        self.cells = cells

    def canon(self):
        return "sr(%s)" % sorted((repr(k), cn(v, True)) for k, v in self.cells.items())


def is_null(x):
    import pandas as pd

    return x is None or x is pd.NA or x is pd.NaT or sg.is_nan(x)


def lift(x):
    """Turn pandas things into frames & vectors"""
    import numpy as np
    import pandas as pd

    if isinstance(x, pd.DataFrame):
        rows = list(x.index)
        return Frame(
            list(x.columns), rows, {(c, r): lift(v) for c in x.columns for r, v in zip(rows, list(x[c].astype(object)))}
        )
    if isinstance(x, pd.Series):
        return Vector(dict(zip(x.index, [lift(i) for i in x.astype(object)])))
    if isinstance(x, dict):
        return {k: lift(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(lift(v) for v in x)
    if isinstance(x, np.ndarray):
        return ("array", [lift(i) for i in x])
    if isinstance(x, np.generic):
        return x.item()
    return x


def cn(x, loose=False):
    """A text equal for equal things; when loose (in pandas) all numbers and nulls compare equal."""
    if isinstance(x, (Frame, Vector)):
        return x.canon()
    if isinstance(x, dict):
        return "{%s}" % ", ".join(sorted("%r: %s" % (k, cn(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (type(x).__name__, ", ".join(cn(v) for v in x))
    if loose and is_null(x):
        return "null"
    if loose and isinstance(x, (int, float)) and not isinstance(x, bool):
        return repr(float(x))
    return "%s %r" % (type(x).__name__, x)


def ismap(x):
    return isinstance(x, (dict, Frame, Vector))


def lower(x):
    """Back to plain values, to be given to the constructors of pandas"""
    if isinstance(x, (Frame, Vector)):
        raise sg.Skip
    if isinstance(x, dict):
        return {k: lower(v) for k, v in x.items()}
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "array":
        raise sg.Skip
    return x


def merge(a, b, log):
    import pandas as pd

    if a is None and b is None:
        raise Refused("Nones")
    if a is None or b is None:
        return b if a is None else a
    kinds = {type(x) for x in (a, b)}
    if len(kinds) > 1:
        log.append("conflict")
    if not ismap(a) or not ismap(b) or kinds == {Frame, Vector}:
        log.append("overwrite")
        return b
    if kinds == {dict}:
        out = dict(a)
        for k, v in b.items():
            if k in a:
                log.append("override")
                out[k] = merge(a[k], v, log)
            else:
                log.append("supplement")
                out[k] = v
        return out
    if kinds & {Frame}:
        try:
            a, b = [lift(pd.DataFrame(lower(x))) if isinstance(x, dict) else x for x in (a, b)]
        except (ValueError, TypeError):
            raise Refused("DataFrame")
        log.append("df")
        cols = a.cols + [c for c in b.cols if c not in a.cols]
        rows = a.rows + [r for r in b.rows if r not in a.rows]
        if len(rows) > len(a.rows):
            log.append("new rows")
        cells = dict(a.cells)
        for k, v in b.cells.items():
            if not is_null(v):
                log.append("override" if k in cells else "supplement")
                cells[k] = v
        return Frame(cols, rows, cells)
    log.append("sr")
    a, b = [lift(pd.Series(lower(x))) if isinstance(x, dict) else x for x in (a, b)]
    cells = dict(a.cells)
    for k, v in b.cells.items():
        log.append("override" if k in cells else "supplement")
        if not is_null(v) or k not in cells:
            cells[k] = v
    return Vector(cells)


# --------------------------------------------------------------------------
def parts(x, out):
    """All the mutable things (containers & buffers) in a model."""
    import numpy as np
    import pandas as pd

    kids = ()
    if isinstance(x, pd.DataFrame):
        out.append(x)
        kids = [x[c].array for c in x.columns]
    elif isinstance(x, pd.Series):
        out.append(x)
        kids = [x.array]
    elif isinstance(x, pd.api.extensions.ExtensionArray):
        kids = [np.asarray(x)]
    elif isinstance(x, np.ndarray):
        out.append(x)
        kids = list(x) if x.dtype == object else ()
    elif isinstance(x, dict):
        out.append(x)
        kids = x.values()
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out.append(x)
        kids = x
    for k in kids:
        parts(k, out)
    return out


def verify_unshared(model, submodels):
    import numpy as np

    mine = parts(model, [])
    ids = {id(p): p for p in mine}
    arrays = [p for p in mine if isinstance(p, np.ndarray) and p.size]
    for i, sub in enumerate(submodels):
        for p in parts(sub, []):
            if id(p) in ids:
                fail("the model shares %s with submodel #%s", describe(p), i)
            if isinstance(p, np.ndarray) and p.size:
                for m in arrays:
                    if np.shares_memory(p, m):
                        fail("the model shares the values %r with submodel #%s", p, i)


def verify_untouched(submodels, before, when):
    for i, (sub, txt) in enumerate(zip(submodels, before)):
        if describe(sub) != txt:
            fail("submodel #%s modified %s: %s, was %s", i, when, describe(sub), txt)


def maker(submodels, schemas=({}, {}), curates=()):
    from pandalone.pandata import Pandel

    class Maker(Pandel):
        def _get_json_schema(self, is_prevalidation):
            return copy.deepcopy(schemas[not is_prevalidation])

    mm = Maker(curates)
    for sub in submodels:
        mm.add_submodel(sub)
    return mm


def check_merge(case, ctx):
    from jsonschema import ValidationError

    submodels = [sg.build(s) for s in case["models"]]
    before = [describe(s) for s in submodels]
    log = []
    exp = None
    try:
        for s in submodels:
            exp = merge(exp, lift(s), log)
    except sg.Skip:
        ctx.label("skip")
        return
    except Refused as ex:
        exp = ex
    mm = maker(submodels)
    try:
        got = mm.build()
    except ValidationError as ex:
        verify_untouched(submodels, before, "by a failed build")
        if not isinstance(exp, Refused):
            fail("build failed: %s", ex.message)
        check_eq(mm._errored, True, "the flag of failed build")
        ctx.label("refused")
        return
    if isinstance(exp, Refused):
        fail("merged what it should not (%s): %s", exp, describe(got))
    verify_untouched(submodels, before, "by build")
    if got is not mm.model or mm._errored:
        fail("built %s, but reports %s, %s", describe(got), describe(mm.model), mm._errored)
    check_eq(cn(lift(got)), cn(exp), "the model merging %s", before)
    verify_order(got, exp)
    verify_unshared(got, submodels)
    again = mm.build()
    check_eq(describe(again), describe(got), "the model when built again")
    verify_unshared(again, submodels + [got])
    ctx.label(*sorted(set(log)))
    ctx.nontrivial(len({"override", "supplement"} & set(log)) == 2 or "conflict" in log)


def verify_order(got, exp):
    """Keys retain their order"""
    if isinstance(exp, dict):
        check_eq(list(got), list(exp), "order of keys")
        for k in exp:
            verify_order(got[k], exp[k])
    elif isinstance(exp, Frame):
        check_eq(list(got.columns), exp.cols, "order of columns")


# --------------------------------------------------------------------------
# Stages
# --------------------------------------------------------------------------
TYPES = {
    "dict": ["object"],
    "sr": ["object", "array"],
    "df": ["object"],
    "list": ["array"],
    "v": ["number", "string", ["string", "number", "boolean", "null"], ["number", "string", "boolean"]],
}


def schema_for(draw, skel, depth=2):
    s = {}
    if skel[0] == "dict" and depth:
        ks = draw(st.lists(st.sampled_from(KEYS), max_size=3, unique=True))
        s["properties"] = {k: schema_for(draw, skel[1][k], depth - 1) for k in ks}
        if draw(st.integers(0, 3)) == 0:
            s["required"] = draw(st.lists(st.sampled_from(KEYS), max_size=2, unique=True))
    if skel[0] == "sr" and draw(st.integers(0, 2)) == 0:
        s["properties"] = {"a": {}, "x": {"default": 8}}
    if skel[0] == "df" and draw(st.integers(0, 2)) == 0:
        s["required"] = [draw(st.sampled_from(COLS))]
    if draw(st.integers(0, 1)):
        s["type"] = draw(st.sampled_from(TYPES[skel[0]]))
        if draw(st.integers(0, 14)) == 0:
            s["type"] = draw(st.sampled_from(["integer", "boolean", "null"]))
    if depth < 2 and draw(st.integers(0, 1)) == 0:
        s["default"] = {"dict": {"b": {"c": 1}}, "df": {"a": [1, 2]}, "sr": {"a": 1}, "list": [1, {}], "v": 5}[skel[0]]
    return s


CURATES = ["record", "record", "set", "spoil", "ValueError", "ValidationError", "KeyError"]


@st.composite
def build_cases(draw):
    skel = ("dict", {k: draw(skeletons(2)) for k in KEYS})
    final = schema_for(draw, skel)
    if draw(st.integers(0, 2)) == 0:
        final.setdefault("properties", {})
        final["required"] = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))
    pre = draw(st.sampled_from(["same", "empty", "empty", "loose", "other"]))
    if pre == "same":
        pre = final
    elif pre == "empty":
        pre = {}
    elif pre == "loose":
        pre = {k: v for k, v in final.items() if k != "required"}
    else:
        pre = schema_for(draw, skel)
    n = draw(st.sampled_from([1, 2, 2, 3]))
    return {
        "models": [submodel(draw, skel, i and draw(st.integers(0, 3)) == 0) for i in range(n)],
        "schemas": [pre, final],
        "curates": draw(st.lists(st.sampled_from(CURATES), max_size=3)),
        "take": draw(st.sampled_from([None, None, 1, 2])),
    }


class Curates(object):
    def __init__(self, kinds):
        self.calls = []
        self.funcs = [self.make(i, kind) for i, kind in enumerate(kinds)]

    def make(self, i, kind):
        def func(mm):
            from jsonschema import ValidationError

            self.calls.append((i, describe(mm.model)))
            if kind == "set" and isinstance(mm.model, dict):
                mm.model["curated%s" % i] = i
            elif kind == "spoil":
                for p in parts(mm.model, []):
                    if isinstance(p, dict):
                        p["spoiled"] = i
                    elif isinstance(p, list):
                        p.append("spoiled")
                    elif hasattr(p, "iloc") and len(p):
                        p.iloc[0] = None
            elif kind == "ValueError":
                raise ValueError("cur %s" % i)
            elif kind == "KeyError":
                raise KeyError("cur %s" % i)
            elif kind == "ValidationError":
                raise ValidationError("cur %s" % i)

        return func


def texts(errors):
    return [(e.message, tuple(e.path), tuple(e.schema_path), e.validator) for e in errors]


def check_build(case, ctx):
    try:
        verify_build(case, ctx)
    except ValueError as ex:
        # A sequence as default of columns is good only for DataFrames as long.
        if "Length of values" not in str(ex):
            raise
        ctx.label("skip")


def verify_get(mm):
    todo = [("", mm.model)]
    for ptr, v in todo:
        if mm.get(ptr) is not v:
            fail("getting %r from the model gave %r, not %r", ptr, mm.get(ptr), v)
        if isinstance(v, dict):
            todo += [("%s/%s" % (ptr, k.replace("~", "~0").replace("/", "~1")), x) for k, x in v.items() if isinstance(k, str)]
        elif isinstance(v, list):
            todo += [("%s/%i" % (ptr, i), x) for i, x in enumerate(v)]
    missing = object()
    if mm.get("/no/such/path", default=missing) is not missing:
        fail("getting a missing path from the model did not give the default")


def verify_build(case, ctx):
    import warnings

    warnings.simplefilter("ignore")
    from jsonschema import ValidationError
    from pandalone.pandata import PandelVisitor

    fresh = lambda: [sg.build(s) for s in case["models"]]  # noqa: E731
    submodels = fresh()
    before = [describe(s) for s in submodels]

    # What is expected, stage by stage
    expected, stage, model = [], None, None
    for sub in fresh():
        expected += texts(PandelVisitor(copy.deepcopy(case["schemas"][0])).iter_errors(sub))
    if expected:
        stage = "1.prevalidate"
    else:
        mm0 = maker(fresh())
        try:
            model = mm0.build()
        except ValidationError as ex:
            stage = "2.merge"
            expected.append(texts([ex])[0])
        else:
            expected += texts(PandelVisitor(copy.deepcopy(case["schemas"][1])).iter_errors(model))
            if expected:
                stage = "3.validate"
    n_calls = 0
    if not stage:
        for kind in case["curates"]:
            n_calls += 1
            if kind.endswith("Error"):
                stage = "4.curate"
                break
    # expected model past curation, from the functions themselves
    if model is not None and stage in (None, "4.curate"):
        valid = PandelVisitor(case["schemas"][1], auto_default=False).is_valid(model)
        if not valid:
            fail("the validated model %s does not pass re-validation", describe(model))
        holder = maker([])
        holder.model = model
        cur = Curates(case["curates"])
        try:
            for f in cur.funcs:
                f(holder)
        except Exception:
            pass
        exp_calls = cur.calls
    else:
        exp_calls = []

    def verify(mm, cur, errors, complete, how):
        verify_untouched(submodels, before, "by " + how)
        check_eq(cur.calls, exp_calls, "calls of curate-functions when %s", how)
        if stage == "1.prevalidate":
            check_eq(mm.model, None, "the model when prevalidation failed")
        if stage and not mm._errored:
            fail("failed in %s, but not flagged so when %s", stage, how)
        if not stage:
            if errors or mm._errored:
                fail("no errors expected when %s, got %s, flag %s", how, texts(errors), mm._errored)
            check_eq(describe(mm.model), describe(model), "the model when %s", how)
            verify_unshared(mm.model, submodels)
            verify_get(mm)
            return
        got = texts(errors)
        if stage == "4.curate":
            kind = case["curates"][n_calls - 1]
            msg = got[0][0]
            if "cur %s" % (n_calls - 1) not in msg or (kind != "ValidationError") != ("step-4(curate)" in msg):
                fail("failed curate-function reported as %r when %s", msg, how)
            if kind != "ValidationError" and type(errors[0].cause).__name__ != kind:
                fail("cause of curate-function failed with %s: %r", kind, errors[0].cause)
            exp = got[:1]
        else:
            exp = expected
        if not complete:
            check_eq(got, exp[:1], "errors when %s", how)
            return
        check_eq(got[:-1], exp, "errors of stage %s when %s", stage, how)
        if not re.search(r"(?i)gave-up.*\b%s\b" % re.escape(stage), got[-1][0]):
            fail("last error when failed in %s: %r", stage, got[-1][0])

    # Iterated
    cur = Curates(case["curates"])
    mm = maker(submodels, case["schemas"], cur.funcs)
    check_eq(mm._errored, None, "the flag before the build")
    verify(mm, cur, list(mm.build_iter()), True, "iterated")
    # ... again
    cur.calls[:] = []
    verify(mm, cur, list(mm.build_iter()), True, "iterated again")

    # Called
    cur = Curates(case["curates"])
    mm = maker(submodels, case["schemas"], cur.funcs)
    try:
        got = mm.build()
    except ValidationError as ex:
        verify(mm, cur, [ex], False, "called")
    else:
        if got is not mm.model:
            fail("returned other than its model")
        verify(mm, cur, [], False, "called")

    # Abandoned
    if case["take"]:
        cur = Curates(case["curates"])
        mm = maker(submodels, case["schemas"], cur.funcs)
        it = mm.build_iter()
        for _ in range(case["take"]):
            next(it, None)
        it.close()
        verify_untouched(submodels, before, "by an abandoned build")
        cur.calls[:] = []
        verify(mm, cur, list(mm.build_iter()), True, "rebuilt after abandoned")
    ctx.label(stage or "built", "calls%s" % len(exp_calls))
    ctx.nontrivial(stage not in (None, "1.prevalidate") or exp_calls or "default" in repr(case["schemas"]))


# --------------------------------------------------------------------------
PROPS = ["inp", "out", "conv"]


@st.composite
def ops_cases(draw):
    vals = st.sampled_from([None, ["AUTO"], ["CSV", "x"], {"k": 1}])
    step = st.tuples(
        st.one_of(st.none(), st.fixed_dictionaries({}, optional={p: vals for p in PROPS})),
        st.fixed_dictionaries({}, optional={p: vals for p in PROPS}),
    )
    return draw(st.lists(step, min_size=1, max_size=4))


def check_ops(case, ctx):
    from pandalone.pandata import ModelOperations, Pandel

    mm = Pandel()
    exp = dict.fromkeys(PROPS)
    for ops, kw in case:
        given = None
        if ops is not None:
            given = ModelOperations(**ops)
            exp.update({k: v for k, v in ops.items() if v})
        exp.update(kw)
        mm.mod_global_operations(given, **kw)
        check_eq(mm._global_cntxt._asdict(), exp, "global operations after %s", case)
        if given is not None:
            check_eq({k: v for k, v in given._asdict().items() if v}, {k: v for k, v in ops.items() if v}, "given ops")
    check_eq(Pandel()._global_cntxt._asdict(), dict.fromkeys(PROPS), "operations of another maker")
    ctx.nontrivial(len(case) > 1)


# --------------------------------------------------------------------------
# Types of values
# --------------------------------------------------------------------------
TYPED = {
    "int64": [0, 1, -2, 2**40],
    "int8": [0, 1, -2],
    "float64": [0.0, 1.5, -2.25],
    "float32": [0.0, 1.5, -2.25],
    "bool": [True, False],
    "object": ["x", 1, 2.5, True],
    "datetime64[ns]": ["2020-01-02", "2021-03-04T05:06:07"],
}


@st.composite
def dtype_cases(draw):
    kind = draw(st.sampled_from(["sr", "df", "df"]))
    labels = draw(st.sampled_from([["a", "b"], ["b", "a", "c"], [0, 1, 2], [5], [3, 1]]))
    cols = ["v"] if kind == "sr" else draw(st.lists(st.sampled_from("xyz"), min_size=1, max_size=3, unique=True))
    types = [draw(st.sampled_from(sorted(TYPED))) for _ in cols]
    models = []
    for i in range(draw(st.integers(2, 3))):
        some = [c for c in cols if kind == "sr" or i == 0 or draw(st.integers(0, 3))] or cols[:1]
        models.append(
            {
                c: draw(st.lists(st.sampled_from(TYPED[t]), min_size=len(labels), max_size=len(labels)))
                for c, t in zip(cols, types)
                if c in some
            }
        )
    return kind, labels, dict(zip(cols, types)), models, draw(st.integers(0, 2))


def check_dtypes(case, ctx):
    import pandas as pd

    kind, labels, types, models, depth = case
    submodels = []
    for mdl in models:
        cols = {c: pd.Series(v, index=labels, dtype=types[c]) for c, v in mdl.items()}
        x = cols["v"] if kind == "sr" else pd.DataFrame(cols)
        for _ in range(depth):
            x = {"k": x}
        submodels.append(x)
    got = maker(submodels).build()
    for _ in range(depth):
        got = got["k"]
    check_eq(type(got), pd.Series if kind == "sr" else pd.DataFrame, "type of merged %s", case)
    final = {}
    for mdl in models:
        final.update(mdl)
    for c, vals in final.items():
        x = got if kind == "sr" else got[c]
        check_eq(str(x.dtype), types[c], "type of %s merging %s", c, case)
        check_eq(sorted(map(str, x.index)), sorted(map(str, labels)), "labels of %s merging %s", c, case)
        exp = pd.Series(vals, index=labels, dtype=types[c])
        check_eq([repr(x[l]) for l in labels], [repr(exp[l]) for l in labels], "values of %s merging %s", c, case)
    if kind == "df":
        check_eq(list(got.columns), list(final), "columns merging %s", case)
    ctx.nontrivial(any(len(m) > 1 for m in models) or kind == "sr")
    ctx.label(kind, *types.values())


FACETS = [
    facet("dtypes", dtype_cases, check_dtypes, quick=800, thorough=10000),
    facet("merge", merge_cases, check_merge, quick=5000),
    facet("big", big_merge_cases, check_merge, quick=300, thorough=8000),
    facet("build", build_cases, check_build, quick=3500),
    facet("operations", ops_cases, check_ops, quick=400),
]
