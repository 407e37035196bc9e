"""C14: Schema defaults fill exactly what is missing, nulls go only where opted."""
import copy
import re

from hypothesis import strategies as st

from vlib import boot  # noqa: F401
from vlib import schemagen as sg
from vlib.core import facet, fail
from checks.c13 import describe

ID = "C14"
RULE = """
A schema of nested properties / items / additionalItems / pattern- & additional-properties / allOf /
dependencies / $refs, any property with default (scalars or containers, also of null), tri-state
flags of its own and types with or without nulls; a guided document with its properties missing, null
(None, NaN, NA) or given, with some containers as Series or DataFrames; and the 27 combinations of the
tri-state options; filled through iter_errors(), validate() or is_valid() and compared with a model.
many: up to 130 properties, 60 items or 40 levels.  reuse: a visitor fills 2-4 documents, which then change.
Non-trivial: the model fills or drops something below the root, or decides on a null; there are 2+ documents and defaults (reuse).
"""
ASSUMPTIONS = [
    "`properties` precede the other keywords of a schema (rules apply in their order), and a key is declared by one of "
    "the schemas judging an object",
    "no defaults below anyOf, oneOf, not, if (their branches are tried, not applied)",
    "only scalar defaults get filled in Series and DataFrames",
]
SCALARS = [0, 1, 2.5, "a", "", True, False]
KEYS = ["a", "b", "c", "d"]
DEFAULTS = SCALARS + [
    None, [], {}, [1, 2], [{}], {"a": 1}, {"a": None}, {"a": {}}, {"b": [{}, {"a": None}]}, [[], [{}]],
]
FLAGS = ["autoDefault", "autoDefaultNull", "autoRemoveNull"]
TYPES = [None, None, None, "number", "object", "array", "null", ["null", "number"], ["string", "number"], ["null", "object"]]


@st.composite
def leaves(draw):
    s = {}
    t = draw(st.sampled_from(TYPES))
    if t:
        s["type"] = t
    return s


@st.composite
def schemas(draw, draft, depth, keys=KEYS):
    if draft >= 6 and draw(st.integers(0, 24)) == 0:
        return True
    kind = draw(st.sampled_from(["obj"] * 5 + ["arr"] * 2 + ["leaf"] * 2 + ["ref"])) if depth else "leaf"
    if kind == "leaf":
        return draw(leaves())
    if kind == "ref":
        return {"$ref": "#/definitions/d"}
    s = {}
    if kind == "arr":
        if draw(st.integers(0, 2)):
            s["items"] = draw(schemas(draft, depth - 1))
        else:
            s["items"] = [draw(schemas(draft, depth - 1)) for _ in range(draw(st.integers(0, 2)))]
            s["additionalItems"] = draw(schemas(draft, depth - 1))
    else:
        own = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=4, unique=True))
        rest = [k for k in keys if k not in own]
        s["properties"] = {k: draw(props(draft, depth - 1)) for k in own}
        if rest and draw(st.integers(0, 4)) == 0:
            s["extends" if draft == 3 else "allOf"] = [
                {"properties": {k: draw(props(draft, depth - 1))}} for k in rest[:2]
            ]
        elif draw(st.integers(0, 4)) == 0:
            s["additionalProperties"] = draw(schemas(draft, depth - 1))
        elif rest and draw(st.integers(0, 4)) == 0:
            s["patternProperties"] = {"^[%s]" % "".join(rest): draw(schemas(draft, depth - 1))}
        elif rest and draw(st.integers(0, 5)) == 0:
            s["dependencies"] = {own[0]: {"properties": {rest[0]: draw(props(draft, depth - 1))}}}
        if draft > 3 and draw(st.integers(0, 4)) == 0:
            s["required"] = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=2, unique=True))
        if draw(st.integers(0, 3)) == 0:
            s["type"] = draw(st.sampled_from(["object", ["object", "null"]]))
    return s


@st.composite
def props(draw, draft, depth):
    s = draw(schemas(draft, depth))
    if s is True:
        return s
    if draw(st.integers(0, 2)):
        s["default"] = copy.deepcopy(draw(st.sampled_from(DEFAULTS)))
        if s["default"] is None and "null" not in s.get("type", []):
            s["default"] = 0  # a default about to be dropped makes no sense
    if draw(st.integers(0, 3)) == 0:
        for f in draw(st.lists(st.sampled_from(FLAGS), min_size=1, max_size=2, unique=True)):
            s[f] = draw(st.sampled_from([True, True, False, False, None]))
    return s


def resolve(s, root):
    while isinstance(s, dict) and "$ref" in s:
        s = root if s["$ref"] == "#" else root["definitions"]["d"]
    return s


def doc_for(draw, s, root, depth=4):
    s = resolve(s, root)
    if depth <= 0 or s is True:
        return ("v", draw(st.sampled_from(SCALARS)))
    if draw(st.integers(0, 11)) == 0:
        return draw(st.sampled_from([("v", None), ("v", 1), ("list", []), ("dict", {}), ("nan",)]))
    if "items" in s:
        n = draw(st.integers(0, 3))
        subs = s["items"]
        subs = subs + [s.get("additionalItems", {})] * 3 if isinstance(subs, list) else [subs] * n
        kids = [doc_for(draw, x, root, depth - 1) for x in subs[:n]]
        return (draw(st.sampled_from(["list", "list", "list", "tuple", "oarr"])), kids)
    if "properties" in s:
        ps = {}
        for p, sub in s.get("patternProperties", {}).items():
            ps.update((k, sub) for k in KEYS if re.search(p, k))
        ps.update(s["properties"])
        for sub in s.get("allOf", []) + s.get("extends", []) + list(s.get("dependencies", {}).values()):
            ps.update(sub["properties"])
        d = {}
        for k in KEYS:
            sub = ps.get(k, s.get("additionalProperties", {}))
            what = draw(st.sampled_from("missing missing null given given given".split()))
            if what == "null":
                d[k] = draw(st.sampled_from([("v", None), ("v", None), ("v", None), ("nan",), ("NA",), ("np", "float64", "nan")]))
            elif what == "given":
                d[k] = doc_for(draw, sub, root, depth - 1)
        simple = all(
            not isinstance(resolve(v, root), dict) or not isinstance(v.get("default"), (list, dict)) for v in ps.values()
        )
        if simple and draw(st.integers(0, 5)) == 0:
            return ("sr", list(d), list(d.values()), False)
        if simple and d and draw(st.integers(0, 9)) == 0:
            return ("df", {k: [("v", 1), ("v", 2)] for k in d}, ("range", 2))
        return ("dict", d)
    return ("v", draw(st.sampled_from(SCALARS + [None])))


@st.composite
def cases(draw):
    draft = draw(st.sampled_from([3, 4, 6, 7, 7]))
    s = draw(schemas(draft, 3))
    while s is True or "$ref" in s or ("properties" not in s and "items" not in s):
        s = {"properties": {"a": s, "b": draw(props(draft, 2))}}
    root = {"$schema": sg.DRAFTS[draft]}
    root.update(s)
    if "#/definitions/d" in repr(s):
        # below a `b` again, for recursive ones
        root["definitions"] = {
            "d": {
                "properties": {
                    "a": draw(props(draft, 0)),
                    "b": {"$ref": "#/definitions/d"},
                }
            }
        }
    return {
        "draft": draft,
        "schema": root,
        "spec": doc_for(draw, root, root),
        "opts": [draw(st.sampled_from([True, True, False, None])) for _ in FLAGS],
        "via": draw(st.sampled_from(["iter", "iter", "validate", "is_valid"])),
    }


# --------------------------------------------------------------------------
# The model
# --------------------------------------------------------------------------
class Missing(object):
    pass


def is_null(x):
    import pandas as pd

    return x is None or x is pd.NA or x is pd.NaT or sg.is_nan(x)


class Filler(object):
    def __init__(self, root, opts):
        self.root, self.opts = root, opts
        self.log = []

    def opt(self, s, i):
        v = s.get(FLAGS[i])
        return self.opts[i] if v is None else v

    def fill(self, s, x, depth=0):
        import numpy as np
        import pandas as pd

        s = resolve(s, self.root)
        if not isinstance(s, dict):
            return
        is_obj = isinstance(x, (dict, pd.DataFrame)) or (
            isinstance(x, pd.Series) and all(isinstance(k, str) for k in x.index)
        )
        for k, v in s.items():
            if k == "properties" and is_obj:
                for p, ps in v.items():
                    if isinstance(ps, dict):
                        self.prop(ps, x, p, depth)
                for p, ps in v.items():
                    if p in x:
                        self.fill(ps, x[p], depth + 1)
            elif k == "items" and isinstance(x, (list, tuple, np.ndarray)):
                if isinstance(v, list):
                    more = s.get("additionalItems", {})
                    subs = v + [more] * (len(x) - len(v))
                else:
                    subs = [v] * len(x)
                for i, ss in zip(x, subs):
                    self.fill(ss, i, depth + 1)
            elif k in ("allOf", "extends"):
                for ss in v:
                    self.fill(ss, x, depth)
            elif k == "dependencies" and is_obj:
                for p, ss in v.items():
                    if p in x:
                        self.fill(ss, x, depth)
            elif k == "patternProperties" and is_obj:
                for p, ss in v.items():
                    for q in list(x.keys()):
                        if re.search(p, q):
                            self.fill(ss, x[q], depth + 1)
            elif k == "additionalProperties" and is_obj and isinstance(v, dict):
                for q in list(x.keys()):
                    if q not in s["properties"]:
                        self.fill(v, x[q], depth + 1)

    def prop(self, ps, x, p, depth):
        given = p in x
        null = given and is_null(x[p])
        t = ps.get("type", [])
        nullable = "null" in ([t] if isinstance(t, str) else t)
        if given and not null:
            return
        if not given:
            if "default" in ps and self.opt(ps, 0):
                self.log.append(("fill", depth))
                x[p] = copy.deepcopy(ps["default"])
            return
        if nullable:
            self.log.append(("nullable", depth))
        elif "default" in ps and self.opt(ps, 1):
            self.log.append(("fill-null", depth))
            x[p] = copy.deepcopy(ps["default"])
        elif self.opt(ps, 2):
            again = "default" in ps and self.opt(ps, 0)
            self.log.append(("drop-default" if again else "drop", depth))
            del x[p]
        else:
            self.log.append(("null-kept", depth))


def containers(x, seen):
    """The mutable plain containers in a doc or schema."""
    import numpy as np
    import pandas as pd

    if isinstance(x, dict):
        seen.append(x)
        kids = x.values()
    elif isinstance(x, list):
        seen.append(x)
        kids = x
    elif isinstance(x, tuple):
        kids = x
    elif isinstance(x, (np.ndarray, pd.Series)) and x.dtype == object:
        kids = list(x)
    else:
        kids = ()
    for k in kids:
        containers(k, seen)
    return seen


def check(case, ctx):
    from jsonschema import ValidationError
    from pandalone.pandata import PandelVisitor

    schema = copy.deepcopy(case["schema"])
    opts = case["opts"]
    exp = sg.build(case["spec"])
    model = Filler(case["schema"], opts)
    model.fill(case["schema"], exp)
    doc = sg.build(case["spec"])
    kw = dict(auto_default=opts[0], auto_default_nulls=opts[1], auto_remove_nulls=opts[2])
    if kw == {"auto_default": True, "auto_default_nulls": False, "auto_remove_nulls": False}:
        kw = {}
    pv = PandelVisitor(schema, **kw)

    # What is valid gets filled also by the methods stopping on the 1st error.
    valid = not list(PandelVisitor(schema, **kw).iter_errors(sg.build(case["spec"])))
    via = case["via"] if valid else "iter"
    errors = []
    if via == "iter":
        errors = list(pv.iter_errors(doc))
    elif via == "validate":
        try:
            pv.validate(doc)
        except ValidationError as ex:
            fail("validate() of a valid document raised %s", ex.message)
    elif not pv.is_valid(doc):
        fail("is_valid() of a valid document is false")
    if describe(doc) != describe(exp):
        fail("%s became %s, expected %s", describe(sg.build(case["spec"])), describe(doc), describe(exp))
    if repr(schema) != repr(case["schema"]):
        fail("the schema was modified: %r", schema)

    # No aliasing
    mine = containers(doc, [])
    if len({id(c) for c in mine}) != len(mine):
        fail("filled values alias each other in %s", describe(doc))
    theirs = {id(c) for c in containers(schema, [])}
    for c in mine:
        if id(c) in theirs:
            fail("filled value %r aliases the schema", c)

    # Once more, nothing changes, but errors about what is now there.
    errors2 = list(pv.iter_errors(doc))
    if any(k == "drop-default" for k, _ in model.log):
        # what was dropped is now missing
        Filler(case["schema"], opts).fill(case["schema"], exp)
    if describe(doc) != describe(exp):
        fail("filled %s became %s when filled again", describe(exp), describe(doc))
    try:
        ref = sg.norm(sg.Ref(case["schema"], case["draft"]).errors(sg.node(doc)))
    except sg.Skip:
        pass
    else:
        if sg.norm_std(errors2) != ref:
            fail("errors of filled %s: %s, expected %s", describe(doc), sg.norm_std(errors2), ref)
    later = ("allOf", "extends", "dependencies", "required", "type")
    if via == "iter" and not any(w in repr(schema) for w in later):
        if sg.norm_std(errors) != sg.norm_std(errors2):
            fail("errors while filling: %s, expected %s", sg.norm_std(errors), sg.norm_std(errors2))

    ctx.label(via, *sorted({k for k, _ in model.log} | set(sg.spec_kinds(case["spec"]))))
    ctx.label("deep" if any(d for _, d in model.log) else "flat", "valid" if valid else "invalid")
    ctx.nontrivial(any(d or k in ("fill-null", "drop", "drop-default", "nullable", "null-kept") for k, d in model.log))


@st.composite
def many_cases(draw):
    """Many properties, items or levels, of few kinds."""
    draft = draw(st.sampled_from([3, 4, 6, 7]))
    kinds = [draw(props(draft, draw(st.integers(0, 1)))) for _ in range(draw(st.integers(1, 4)))]
    kinds = [{"default": 5} if k is True or "$ref" in k else k for k in kinds]
    n = draw(st.sampled_from([3, 12, 40, 130]))
    shape = draw(st.sampled_from(["props", "items", "deep", "both"]))
    names = ["p%i" % i for i in range(n if shape in ("props", "both") else 4)]
    obj = {"properties": {k: kinds[i % len(kinds)] for i, k in enumerate(names)}}
    if any("$ref" in repr(k) for k in kinds):
        obj["properties"] = {k: {"default": [k], "autoRemoveNull": True} for k in names}
    states = draw(st.lists(st.sampled_from("missing missing null nan zero none-list".split()), min_size=1, max_size=5))
    at = draw(st.integers(0, n - 1))

    def record(i):
        d = {}
        for j, k in enumerate(names):
            state = "missing" if j == at else states[(i + j) % len(states)]
            if state != "missing":
                d[k] = {"null": ("v", None), "nan": ("nan",), "zero": ("v", 0), "none-list": ("list", [("v", None)])}[state]
        return ("dict", d)

    if shape == "props":
        root, spec = obj, record(0)
    elif shape == "deep":
        n = min(n, 40)
        root = dict(obj, properties=dict(obj["properties"], next={"$ref": "#"}))
        spec = record(0)
        for i in range(1, n):
            spec = ("dict", dict(record(i)[1], next=spec))
    else:
        n = min(n, 60)
        root = {"properties": {"rows": {"items": obj}}}
        spec = ("dict", {"rows": (draw(st.sampled_from(["list", "tuple", "oarr"])), [record(i) for i in range(n)])})
    root = dict({"$schema": sg.DRAFTS[draft]}, **copy.deepcopy(root))
    return {
        "draft": draft,
        "schema": root,
        "spec": spec,
        "opts": [draw(st.sampled_from([True, True, False, None])) for _ in FLAGS],
        "via": draw(st.sampled_from(["iter", "validate", "is_valid"])),
    }


def check_reuse(case, ctx):
    """A visitor filling many documents, which then change."""
    from pandalone.pandata import PandelVisitor

    schema = copy.deepcopy(case["schema"])
    opts = case["opts"]
    pv = PandelVisitor(schema, auto_default=opts[0], auto_default_nulls=opts[1], auto_remove_nulls=opts[2])
    docs, seen = [], set()
    for i, spec in enumerate(case["specs"]):
        exp = sg.build(spec)
        Filler(case["schema"], opts).fill(case["schema"], exp)
        doc = sg.build(spec)
        list(pv.iter_errors(doc))
        if describe(doc) != describe(exp):
            fail("document no %i: %s became %s, expected %s", i, describe(sg.build(spec)), describe(doc), describe(exp))
        mine = containers(doc, [])
        docs.append(doc)
        if any(id(c) in seen for c in mine):
            fail("document no %i aliases a previous one: %s", i, describe(doc))
        seen.update(id(c) for c in mine)
        for c in mine:
            if isinstance(c, list):
                c.append("changed")
            else:
                c["changed"] = 1
    if repr(schema) != repr(case["schema"]):
        fail("the schema was modified: %r", schema)
    ctx.label("docs=%i" % len(docs))
    ctx.nontrivial(len(docs) > 1 and "default" in repr(schema))


@st.composite
def reuse_cases(draw):
    case = draw(cases())
    specs = [case["spec"]]
    for _ in range(draw(st.integers(1, 3))):
        specs.append(specs[0] if draw(st.integers(0, 2)) == 0 else doc_for(draw, case["schema"], case["schema"]))
    return {"schema": case["schema"], "opts": case["opts"], "specs": specs}


FACETS = [
    facet("filling", cases, check, quick=6500),
    facet("many", many_cases, check, quick=600),
    facet("reuse", reuse_cases, check_reuse, quick=2000),
]
