"""C13: Validating pandas/numpy data agrees with validating their plain JSON equivalent."""
import copy

from collections import ChainMap, UserDict, UserList, deque

from hypothesis import strategies as st

from vlib import boot  # noqa: F401
from vlib import schemagen as sg
from vlib.boot import HarnessError
from vlib.core import facet, fail

ID = "C13"
RULE = """
plain: a schema (drafts 3, 4, 6, 7 or the default) of 1-4 keywords per node up to 3 levels, with
combinators, $refs and boolean schemas, and a document of plain JSON types guided by it; errors of the
data validator (paths, schema-paths, keywords, context) against those of jsonschema itself.
pandas: the same with containers and scalars of the document turned into DataFrames, Series, arrays
(also of objects or multi-dimensional), tuples & numpy scalars, against a reference validator (itself
compared with jsonschema on the plain equivalent whenever that exists).
tables: the same, on DataFrames and rows of them, with schemas about columns.
sequences: keywords about sequences, judging Series (of various labels), arrays and tuples.
params: documents with formats & external references in the schema, and a format-checker & resolver given.
big: up to 1100 elements, 300 columns or 30 levels, few of them wrong.
Non-trivial: the schema has 2+ assertions and the document is a container (plain), holding
some pandas/numpy thing (pandas); some format or reference (params); 20+ elements (big).
"""
ASSUMPTIONS = [
    "labels of objects are texts without duplicates; 0-dim arrays are not considered",
    "size limits of DataFrames count rows, as documented; NaNs are both numbers and nulls",
    "no claim on enum/const/uniqueItems when NaNs, or nested Series with text labels get compared",
]
KEYWORDS = set(dir(sg.Ref))


@st.composite
def plain_cases(draw):
    draft, schema = draw(sg.full_schemas())
    return {
        "draft": draft,
        "schema": schema,
        "doc": sg.doc_for(draw, schema, schema),
        "defaults": draw(st.booleans()),
    }


def visitor(schema, defaults):
    from pandalone.pandata import PandelVisitor

    if defaults:  # No "default" in schema, it's immaterial
        return PandelVisitor(schema)
    for p in list(properties_of(schema)):
        p["default"] = [{"a": 5}]
    return PandelVisitor(schema, auto_default=False, auto_default_nulls=False, auto_remove_nulls=False)


def properties_of(s):
    """All subschemas of properties."""
    if isinstance(s, dict):
        for k, v in s.items():
            if k in ("enum", "const"):
                continue
            if k == "properties":
                for p in v.values():
                    if isinstance(p, dict):
                        yield p
            for p in properties_of(v):
                yield p
    elif isinstance(s, list):
        for v in s:
            for p in properties_of(v):
                yield p


def std_errors(schema, draft, doc):
    import jsonschema

    cls = getattr(jsonschema, "Draft%sValidator" % (draft or 7))
    return sg.norm_std(cls(schema).iter_errors(doc))


def check_plain(case, ctx):
    schema, doc = copy.deepcopy(case["schema"]), copy.deepcopy(case["doc"])
    pv = visitor(schema, case["defaults"])
    schema0 = repr(schema)
    got = sg.norm_std(pv.iter_errors(doc))
    exp = std_errors(case["schema"], case["draft"], case["doc"])
    if got != exp:
        fail("plain document %r got errors %s, expected %s", doc, got, exp)
    verify_verdicts(pv, doc, exp)
    if repr(doc) != repr(case["doc"]):
        fail("validation modified the document: %r", doc)
    if repr(schema) != schema0:
        fail("validation modified the schema: %r", schema)
    try:
        ref = sg.norm(sg.Ref(case["schema"], case["draft"] or 7).errors(sg.node(doc)))
    except sg.Skip:
        pass
    else:
        if ref != exp:
            raise HarnessError("reference %s != std %s for %r" % (ref, exp, case))
    note(case, exp, ctx)
    ctx.nontrivial(isinstance(doc, (dict, list)) and n_assertions(case["schema"]) > 1)


def verify_verdicts(pv, doc, exp):
    """The other 2 ways to validate."""
    from jsonschema import ValidationError

    if pv.is_valid(doc) != (not exp):
        fail("is_valid(%r) is %s, but expected errors: %s", doc, not not exp, exp)
    try:
        pv.validate(doc)
    except ValidationError:
        if not exp:
            fail("validate() raised for a valid document")
    else:
        if exp:
            fail("validate() accepted document with errors: %s", exp)


def n_assertions(s):
    if isinstance(s, dict):
        return sum(("r_" + str(k)) in KEYWORDS for k in s) + sum(n_assertions(v) for v in s.values())
    if isinstance(s, list):
        return sum(n_assertions(v) for v in s)
    return 0


def note(case, exp, ctx):
    ctx.label("draft%s" % (case["draft"] or "-default"), "errors" if exp else "valid")
    for e, _ in exp:
        ctx.label("err " + e.rsplit(", ", 1)[-1].strip("')"))


@st.composite
def pandas_cases(draw):
    draft, schema = draw(sg.full_schemas())
    doc = sg.doc_for(draw, schema, schema)
    return {
        "draft": draft,
        "schema": schema,
        "spec": sg.embed(draw, doc, draw(st.sampled_from([3, 6, 9]))),
        "defaults": draw(st.booleans()),
    }


def check_pandas(case, ctx):
    schema, draft = copy.deepcopy(case["schema"]), case["draft"]
    doc = sg.build(case["spec"])
    n = sg.node(doc)
    try:
        exp = sg.norm(sg.Ref(case["schema"], draft or 7).errors(n))
    except sg.Skip:
        ctx.label("skip")
        return
    nodes = list(sg.walk(n))
    if not any(x.both or x.rows is not None or sg.is_nan(x.v) for x in nodes):
        std = std_errors(case["schema"], draft, sg.plain(n))
        if std != exp:
            raise HarnessError("reference %s != std %s for %r" % (exp, std, case))
        ctx.label("std")
    pv = visitor(schema, case["defaults"])
    schema0 = repr(schema)
    errors = list(pv.iter_errors(doc))
    got = sg.norm_std(errors)
    if got != exp:
        fail("document %s got errors %s, expected %s", describe(doc), got, exp)
    for e in errors:
        str(e.message)
    verify_verdicts(pv, doc, exp)
    if describe(doc) != describe(sg.build(case["spec"])):
        fail("validation modified the document: %s", describe(doc))
    if repr(schema) != schema0:
        fail("validation modified the schema: %r", schema)
    kinds = set(sg.spec_kinds(case["spec"]))
    note(case, exp, ctx)
    ctx.label(*sorted(kinds))
    ctx.nontrivial(kinds and not n.leaf and n_assertions(case["schema"]) > 1)


def describe(x):
    """A full text, with types & dtypes."""
    import numpy as np
    import pandas as pd

    if isinstance(x, pd.DataFrame):
        return "DataFrame(%s)" % ", ".join("%r: %s" % (k, describe(x[k])) for k in x.columns)
    if isinstance(x, pd.Series):
        return "Series<%s>(%s @ %r)" % (x.dtype, ", ".join(describe(i) for i in x.tolist()), list(x.index))
    if isinstance(x, np.ndarray):
        return "array<%s>(%s)" % (x.dtype, describe(x.tolist()))
    if isinstance(x, (list, tuple)):
        return "%s(%s)" % (type(x).__name__, ", ".join(describe(i) for i in x))
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%r: %s" % (k, describe(v)) for k, v in x.items())
    if isinstance(x, np.generic):
        return "%s(%r)" % (type(x).__name__, x.item())
    if isinstance(x, (UserDict, ChainMap)):
        return "%s%s" % (type(x).__name__, describe(dict(x)))
    if isinstance(x, (UserList, deque)):
        return "%s%s" % (type(x).__name__, describe(list(x)))
    return repr(x)


@st.composite
def table_cases(draw):
    draft, schema, spec = draw(sg.tables())
    return {"draft": draft, "schema": schema, "spec": spec, "defaults": draw(st.booleans())}


@st.composite
def sequence_cases(draw):
    """Keywords about sequences, judging Series, arrays & tuples."""
    draft = draw(st.sampled_from((3, 4, 6, 7, 7, None)))
    one = st.sampled_from(
        [{}, {"type": "integer"}, {"type": "string"}, {"minimum": 2}, {"enum": [1, "a", None]}, {"type": ["number", "null"]}, {"maxLength": 1}]
    )
    seq = {}
    if draw(st.integers(0, 3)):
        seq["items"] = draw(st.lists(one, min_size=0, max_size=3))
        if draw(st.integers(0, 3)):
            seq["additionalItems"] = draw(st.one_of(st.just(False), one))
    elif draw(st.booleans()):
        seq["items"] = draw(one)
    for k, v in (("minItems", 2), ("maxItems", 2), ("uniqueItems", True)):
        if draw(st.integers(0, 4)) == 0:
            seq[k] = v
    if draft not in (3, 4) and draw(st.integers(0, 3)) == 0:
        seq["contains"] = draw(one)
    value = st.sampled_from([0, 1, 2, 3, -1, 2.5, "a", "xyz", True, None])
    doc = draw(st.lists(value, max_size=5))
    if draw(st.booleans()) and doc:
        doc = [v for v in doc if type(v) is type(doc[0])]
    spec = sg.embed(draw, doc, 9)
    schema = seq
    if draw(st.booleans()):
        schema, spec = {"properties": {"k": seq}}, ("dict", {"k": spec})
    if draft:
        schema["$schema"] = "http://json-schema.org/draft-0%i/schema#" % draft
    return {"draft": draft, "schema": schema, "spec": spec, "defaults": draw(st.booleans())}


FORMATS = {
    "email": ["a@b.c", "ab", "@"],
    "ipv4": ["1.2.3.4", "1.2.3.400", "x"],
    "ip-address": ["1.2.3.4", "300.1.1.1"],
    "ipv6": ["::1", "1::g", "1.2.3.4"],
    "date": ["2020-02-29", "2021-02-29", "20200101x"],
    "time": ["10:20:30", "25:00:00"],
    "regex": ["a+", "(", "[z"],
    "odd": ["a", "ab", "abc", ""],
    "unknown": ["a", "b"],
}
REMOTE = {
    "definitions": {
        "pos": {"type": "number", "minimum": 1},
        "txt": {"type": "string", "maxLength": 2},
        "lst": {"items": {"$ref": "#/definitions/pos"}},
        "obj": {"properties": {"a": {"$ref": "#/definitions/pos"}, "b": {"$ref": "other#"}}},
    },
}
OTHER = {"type": ["string", "null"], "format": "email"}
REFS = ["pos", "txt", "lst", "obj"]


@st.composite
def params_cases(draw):
    """Formats & external references, with documents about them."""
    draft = draw(st.sampled_from((3, 4, 6, 7, None)))
    texts = sorted({t for v in FORMATS.values() for t in v})

    def leaf(depth):
        k = draw(st.sampled_from(["format", "format", "ref", "ref", "plain", "not", "any"]))
        if k == "format":
            s = {"format": draw(st.sampled_from(sorted(FORMATS)))}
            if draw(st.integers(0, 2)) == 0:
                s["type"] = draw(st.sampled_from(["string", "array", ["string", "null"]]))
            return s
        if k == "ref":
            base = draw(st.sampled_from(["http://ex.org/remote", "remote"]))
            if draw(st.integers(0, 3)) == 0:
                return {"$ref": base[:-6] + "other"}
            return {"$ref": base + "#/definitions/" + draw(st.sampled_from(REFS))}
        if k == "not" and draft != 3 and depth:
            return {"not": leaf(depth - 1)}
        if k == "any" and draft != 3 and depth:
            return {draw(st.sampled_from(["anyOf", "oneOf", "allOf"])): [leaf(depth - 1) for _ in range(2)]}
        return {"type": draw(st.sampled_from(["string", "number"]))}

    value = st.one_of(st.sampled_from(texts), st.sampled_from(texts), st.sampled_from([0, 1, 2.5, -1, None, True]))
    schema, doc = {"properties": {}}, {}
    for k in draw(st.lists(st.sampled_from(["a", "b", "c", "d"]), min_size=1, max_size=3, unique=True)):
        s = leaf(2)
        kind = draw(st.sampled_from(["scalar", "items", "items", "asis"]))
        schema["properties"][k] = {"items": s} if kind == "items" else s
        fmts = FORMATS.get(s.get("format"))
        v = st.sampled_from(fmts) if fmts and draw(st.integers(0, 3)) else value
        if kind == "scalar":
            doc[k] = draw(v)
        elif draw(st.integers(0, 3)):
            doc[k] = draw(st.lists(v, max_size=4))
        else:
            doc[k] = draw(st.dictionaries(st.sampled_from("ab"), value, max_size=2))
    if draw(st.integers(0, 3)) == 0:
        schema["additionalProperties"] = leaf(1)
        doc["z"] = draw(value)
    if draft != 3 and draw(st.integers(0, 3)) == 0:
        schema["dependencies"] = {"a": {"$ref": "http://ex.org/remote#/definitions/obj"}}
    schema[("id" if draft in (3, 4) else "$id")] = "http://ex.org/main"
    if draft:
        schema["$schema"] = "http://json-schema.org/draft-0%i/schema#" % draft
    return {
        "draft": draft,
        "schema": schema,
        "spec": embed_simply(draw, doc),
        "checker": draw(st.sampled_from([None, "all", "all", "draft", "some", "custom"])),
        "resolver": draw(st.sampled_from(["store", "store", "handler"])),
        "defaults": draw(st.booleans()),
    }


def embed_simply(draw, doc):
    """With arrays, tuples & numpy scalars but nothing that's 2 things together."""
    if isinstance(doc, dict):
        return ("dict", {k: embed_simply(draw, v) for k, v in doc.items()})
    if isinstance(doc, list):
        kind = draw(st.sampled_from(["list", "tuple", "oarr", "sr", "sr", "arr"]))
        if kind == "arr" and doc and sg.is_regular(doc):
            return ("arr", doc)
        specs = [embed_simply(draw, v) for v in doc]
        if kind == "sr":
            if not specs:
                return ("oarr", [])
            return ("sr", draw(sg.labels(len(doc))), specs, draw(st.booleans()))
        return ("list" if kind == "arr" else kind, specs)
    if doc is not None and draw(st.integers(0, 2)) == 0:
        np_ = {bool: "bool_", int: "int64", float: "float64", str: "str_"}
        return ("np", np_[type(doc)], doc)
    return ("v", doc)


def make_params(case, schema):
    import jsonschema

    fc = None
    cls = getattr(jsonschema, "draft%s_format_checker" % (case["draft"] or 7))
    if case["checker"] == "all":
        fc = jsonschema.FormatChecker()
    elif case["checker"] == "draft":
        fc = cls
    elif case["checker"] == "some":
        fc = jsonschema.FormatChecker(formats=["email", "regex"])
    elif case["checker"] == "custom":
        fc = jsonschema.FormatChecker(formats=["email"])
        fc.checkers = dict(fc.checkers)
        fc.checkers["odd"] = (lambda x: not isinstance(x, str) or len(x) % 2 == 1, ())
    store = {"http://ex.org/remote": copy.deepcopy(REMOTE), "http://ex.org/other": copy.deepcopy(OTHER)}
    idk = "id" if case["draft"] in (3, 4) else "$id"
    if case["resolver"] == "store":
        rr = jsonschema.RefResolver(schema[idk], schema, store=store)
    else:
        rr = jsonschema.RefResolver(schema[idk], schema, handlers={"http": lambda uri: store[uri.rstrip("#")]})
    return rr, fc


def check_params(case, ctx):
    import jsonschema

    from pandalone.pandata import PandelVisitor

    doc = sg.build(case["spec"])
    plain = sg.plain(sg.node(doc))
    schema = copy.deepcopy(case["schema"])
    rr, fc = make_params(case, schema)
    std = getattr(jsonschema, "Draft%sValidator" % (case["draft"] or 7))(schema, resolver=rr, format_checker=fc)
    exp = sg.norm_std(std.iter_errors(plain))
    schema = copy.deepcopy(case["schema"])
    rr, fc = make_params(case, schema)
    if case["defaults"]:
        pv = PandelVisitor(schema, rr, fc)
    else:
        pv = PandelVisitor(schema, resolver=rr, format_checker=fc, auto_default=False)
    got = sg.norm_std(pv.iter_errors(doc))
    if got != exp:
        fail("document %s got errors %s, expected %s", describe(doc), got, exp)
    verify_verdicts(pv, doc, exp)
    note(case, exp, ctx)
    ctx.label("checker %s" % case["checker"], case["resolver"])
    ctx.nontrivial("'format'" in repr(schema) or "$ref" in repr(schema))


BIG_LEAVES = [
    ({"type": "integer"}, 5, "x"),
    ({"type": "number", "maximum": 9}, 5, 10),
    ({"type": "string", "maxLength": 3}, "abc", "abcd"),
    ({"type": "boolean"}, True, 1),
    ({"enum": list(range(40))}, 39, 40),
    ({"enum": [0, 1, 2]}, 1, True),
    ({"type": ["number", "null"]}, None, "a"),
    ({"type": "number", "multipleOf": 2}, 4, 5),
    ({"pattern": "^a+$"}, "a" * 90, "a" * 90 + "b"),
    ({"type": "string", "minLength": 200}, "b" * 200, "b" * 199),
    ({"maximum": 2 ** 53}, 2 ** 53, 2 ** 53 + 1),
    ({"type": "integer", "minimum": -(2 ** 62)}, -(2 ** 62), -(2 ** 62) - 1),
    ({"maxItems": 2}, [1, 2], [1, 2, 3]),
    ({"required": ["k"]}, {"k": 1}, {"j": 1}),
]


@st.composite
def big_cases(draw):
    i = draw(st.integers(0, len(BIG_LEAVES) - 1))
    return {
        "draft": draw(st.sampled_from((4, 6, 7, None))),
        "leaf": i,
        "n": draw(st.sampled_from([5, 20, 70, 150, 300, 1100])),
        "at": draw(st.lists(st.sampled_from([0.0, 0.1, 0.5, 0.9, 0.999]), max_size=3, unique=True)),
        "form": draw(st.sampled_from(["list", "tuple", "arr", "oarr", "sr", "isr", "df", "dfs", "dict", "lsr", "deep"])),
        "extra": draw(st.sampled_from(["", "", "unique", "contains", "max", "items2", "closed", "patterns"])),
        "defaults": draw(st.booleans()),
    }


def check_big(case, ctx):
    """Many elements, properties or levels; few of them wrong."""
    import numpy as np
    import pandas as pd

    sub, good, bad = BIG_LEAVES[case["leaf"]]
    sub, form, n, extra = copy.deepcopy(sub), case["form"], case["n"], case["extra"]
    if form == "deep":
        n = min(n, 30)
    if form in ("df", "dfs") and n > 300:
        n = 300
    vals = [copy.deepcopy(good) for _ in range(n)]
    for a in case["at"]:
        vals[int(a * n)] = copy.deepcopy(bad)
    names = ["p%i" % i for i in range(n)]
    by_name = {"properties": {k: sub for k in names}}
    if extra == "patterns":
        by_name = {"patternProperties": {"^p": sub, "9$": {}}}
    if extra in ("closed", "patterns"):
        by_name["additionalProperties"] = False
        by_name["required"] = names + ["q"]
    elif extra == "max":
        by_name["maxProperties"] = n - 1
    by_item = {"items": sub}
    if extra == "unique":
        by_item["uniqueItems"] = True
        if not isinstance(good, (dict, list, bool, str)) and good is not None:
            vals = [v + i if type(v) is int else v for i, v in enumerate(vals)]
    elif extra == "contains":
        by_item["contains"] = {"not": sub} if case["draft"] != 4 else {}
    elif extra == "max":
        by_item["maxItems"] = n - 1
    elif extra == "items2":
        by_item = {"items": [sub] * (n // 2), "additionalItems": sub}
    plain = vals
    schema, doc = by_item, vals
    scalar = not isinstance(good, (list, dict))
    if form == "tuple":
        doc = tuple(vals)
    elif form == "arr":
        doc = np.array(vals) if scalar and len(set(map(type, vals))) == 1 else sg._objects([("v", v) for v in vals])
        plain = list(doc.tolist())
    elif form in ("oarr", "sr", "isr"):
        doc = sg._objects([("v", v) for v in vals])
        if form != "oarr":
            doc = pd.Series(doc, dtype=object)
            if form == "isr":
                doc = doc.infer_objects()
                plain = doc.tolist()
    elif form == "df":  # long columns
        plain = {"a": vals, "b": vals[::-1]}
        doc = pd.DataFrame({k: pd.Series(sg._objects([("v", x) for x in v]), dtype=object) for k, v in plain.items()})
        schema = {"properties": {"a": by_item}, "additionalProperties": by_item}
    elif form == "dfs":  # many columns
        if extra == "max":
            del by_name["maxProperties"]  # rows get counted
        plain = {k: [v] for k, v in zip(names, vals)}
        doc = pd.DataFrame({k: pd.Series(sg._objects([("v", v[0])]), dtype=object) for k, v in plain.items()})
        schema = by_name
        for k in ("properties", "patternProperties"):
            if k in by_name:
                by_name[k] = {p: {"items": s} if s else s for p, s in by_name[k].items()}
    elif form == "dict":
        plain = doc = dict(zip(names, vals))
        schema = by_name
    elif form == "lsr":
        # arrays too
        if extra == "unique":
            by_name["uniqueItems"] = False
        plain = dict(zip(names, vals))
        doc = pd.Series(sg._objects([("v", v) for v in vals]), index=names, dtype=object)
        schema = dict(by_name, type="object")
    elif form == "deep":
        schema = {"properties": {"v": sub, "next": {"$ref": "#"}}, "items": {"$ref": "#"}}
        plain = doc = {}
        for i, v in enumerate(vals):
            plain = {"v": v, "next": plain}
            doc = {"v": v, "next": doc}
            if i % 3 == 2:
                plain, doc = [plain], sg._objects([("v", doc)])
    schema = copy.deepcopy(schema)
    if case["draft"]:
        schema["$schema"] = "http://json-schema.org/draft-0%i/schema#" % case["draft"]
    exp = std_errors(copy.deepcopy(schema), case["draft"], copy.deepcopy(plain))
    pv = visitor(schema, case["defaults"])
    before = describe(doc)
    got = sg.norm_std(pv.iter_errors(doc))
    if got != exp:
        fail("%s of %i elements got %i errors, expected %i: %s", form, n, len(got), len(exp), diff(got, exp))
    verify_verdicts(pv, doc, exp[:3])
    if describe(doc) != before:
        fail("validation modified the %s", form)
    ctx.label(form, "n=%i" % n, extra, "errors" if exp else "valid")
    ctx.nontrivial(n >= 20)


def diff(got, exp):
    return "unexpected %s, missing %s" % (
        [g for g in got if g not in exp][:3],
        [e for e in exp if e not in got][:3],
    )


FACETS = [
    facet("params", params_cases, check_params, quick=2500),
    facet("big", big_cases, check_big, quick=500),
    facet("plain", plain_cases, check_plain, quick=5000),
    facet("pandas", pandas_cases, check_pandas, quick=7000),
    facet("tables", table_cases, check_pandas, quick=3000),
    facet("sequences", sequence_cases, check_pandas, quick=3000),
]
