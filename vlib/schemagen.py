"""Generators of JSON-schemas & documents, and a reference validator.

The reference validator works on :class:`Node` trees, in which a pandas Series
with textual labels is both an object and an array, as documented by
``PandelVisitor``; on any other tree it must agree with ``jsonschema``.
"""
import collections
import math
import re
from collections import abc, defaultdict

from hypothesis import strategies as st

DRAFTS = {
    3: "http://json-schema.org/draft-03/schema#",
    4: "http://json-schema.org/draft-04/schema#",
    6: "http://json-schema.org/draft-06/schema#",
    7: "http://json-schema.org/draft-07/schema#",
}
KEYS = ["a", "b", "c", "xa", "1", "a "]
SCALARS = [None, True, False, 0, 1, 2, -3, 7, 0.0, 1.0, 2.5, -0.5, "", "a", "ab", "xyz", "1"]
PATTERNS = ["^x", "a", "^[ab]$", "[0-9]", "z$"]


class Skip(Exception):
    """The case asks something on which there is no stated outcome."""


# --------------------------------------------------------------------------
# Schemas
# --------------------------------------------------------------------------
def scalars():
    return st.sampled_from(SCALARS)


def small_docs():
    return st.recursive(
        scalars(),
        lambda kids: st.one_of(
            st.lists(kids, max_size=3),
            st.dictionaries(st.sampled_from(KEYS), kids, max_size=3),
        ),
        max_leaves=4,
    )


ASPECTS = (
    "type type type enum enum const bounds bounds multiple strings items items items2 lengths unique "
    "contains props props props props required patprops addprops sizes deps names any one all not if ref alien"
).split()
#: Keywords of other drafts, to be ignored.
ALIENS = {
    3: "allOf anyOf oneOf not multipleOf minProperties maxProperties contains const propertyNames if".split(),
    4: "contains const propertyNames if divisibleBy disallow extends".split(),
    6: "if divisibleBy disallow extends".split(),
    7: "divisibleBy disallow extends".split(),
}


@st.composite
def schemas(draw, draft, depth=3, refs=True):
    if draft >= 6 and draw(st.integers(0, 19)) == 0:
        return draw(st.booleans())
    s = {}
    n = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3, 4]))
    for _ in range(n):
        _aspect(draw, s, draft, depth, refs)
    return s


def _sub(draw, draft, depth, refs):
    if depth <= 1:
        return draw(st.sampled_from(LEAF_SCHEMAS))
    return draw(schemas(draft, depth - 1, refs))


TYPES = ["object", "array", "string", "number", "integer", "boolean", "null"]
LEAF_SCHEMAS = [
    {},
    {"type": "integer"},
    {"type": "number"},
    {"type": "boolean"},
    {"type": "null"},
    {"type": "string"},
    {"type": ["number", "null"]},
    {"type": "array"},
    {"type": "object"},
    {"enum": [1, "a", None]},
    {"enum": [True, 0]},
    {"minimum": 1},
    {"maximum": 1},
    {"minItems": 2},
]


def _aspect(draw, s, draft, depth, refs):
    a = draw(st.sampled_from(ASPECTS))
    sub = lambda: _sub(draw, draft, depth, refs)  # noqa: E731
    if a == "type":
        if draw(st.integers(0, 2)):
            s["type"] = draw(st.sampled_from(TYPES + ["any"] * (draft == 3)))
        else:
            ts = draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=3, unique=True))
            if draft == 3 and draw(st.booleans()):
                ts.append(sub())
            s["type"] = ts
    elif a == "enum":
        s["enum"] = draw(st.lists(small_docs(), min_size=1, max_size=4))
    elif a == "const" and draft >= 6:
        s["const"] = draw(small_docs())
    elif a == "bounds":
        k = draw(st.sampled_from(["minimum", "maximum"]))
        v = draw(st.sampled_from([0, 1, 2, 1.5, -1]))
        ex = "exclusive" + k.capitalize()
        if draft <= 4:
            s[k] = v
            if draw(st.booleans()):
                s[ex] = draw(st.booleans())
        else:
            s[draw(st.sampled_from([k, ex]))] = v
    elif a == "multiple":
        s["divisibleBy" if draft == 3 else "multipleOf"] = draw(st.sampled_from([1, 2, 3, 0.5]))
    elif a == "strings":
        k = draw(st.sampled_from(["minLength", "maxLength", "pattern"]))
        s[k] = draw(st.sampled_from(PATTERNS)) if k == "pattern" else draw(st.integers(0, 3))
    elif a == "items":
        s["items"] = sub()
        s.pop("additionalItems", None)
    elif a == "items2":
        s["items"] = [sub() for _ in range(draw(st.integers(1, 2)))]
        if draw(st.integers(0, 2)):
            s["additionalItems"] = draw(st.sampled_from([False, True, {"type": "integer"}, {"minimum": 2}]))
    elif a == "lengths":
        s[draw(st.sampled_from(["minItems", "maxItems"]))] = draw(st.integers(0, 3))
    elif a == "unique":
        s["uniqueItems"] = draw(st.sampled_from([True, True, False]))
    elif a == "contains" and draft >= 6:
        s["contains"] = sub()
    elif a == "props":
        ps = s.setdefault("properties", {})
        for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True)):
            ps[k] = sub()
            if draft == 3 and draw(st.integers(0, 2)) == 0:
                ps[k] = dict(ps[k], required=True)
    elif a == "required" and draft > 3:
        s["required"] = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))
    elif a == "patprops":
        s["patternProperties"] = {
            p: sub() for p in draw(st.lists(st.sampled_from(PATTERNS), min_size=1, max_size=draw(st.sampled_from([2, 2, 2, 5])), unique=True))
        }
        if draw(st.booleans()):
            s["additionalProperties"] = False
    elif a == "addprops":
        s["additionalProperties"] = sub() if draw(st.booleans()) else draw(st.sampled_from([False, False, True]))
    elif a == "sizes" and draft > 3:
        s[draw(st.sampled_from(["minProperties", "maxProperties"]))] = draw(st.integers(0, 3))
    elif a == "deps":
        d = {}
        for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=2, unique=True)):
            if draw(st.booleans()):
                d[k] = sub()
            else:
                d[k] = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=2, unique=True))
                if draft == 3 and draw(st.booleans()):
                    d[k] = d[k][0]
        s["dependencies"] = d
    elif a == "names" and draft >= 6:
        s["propertyNames"] = draw(
            st.sampled_from([{"maxLength": 1}, {"pattern": "a"}, {"enum": ["a", "b", "xa"]}, False])
        )
    elif a in ("any", "one", "all"):
        if draft == 3:
            s["extends"] = sub() if draw(st.booleans()) else [sub(), sub()]
        else:
            s[a + "Of"] = [sub() for _ in range(draw(st.integers(1, 3)))]
    elif a == "not":
        if draft == 3:
            s["disallow"] = draw(
                st.one_of(st.sampled_from(TYPES), st.lists(st.sampled_from(TYPES), min_size=1, max_size=2))
            )
        else:
            s["not"] = sub()
    elif a == "if" and draft == 7:
        s["if"] = sub()
        for k in draw(st.sampled_from([["then"], ["else"], ["then", "else"]])):
            s[k] = sub()
    elif a == "alien":
        k = draw(st.sampled_from(ALIENS[draft]))
        if k in ("allOf", "anyOf", "oneOf"):
            s[k] = [sub()]
        elif k in ("multipleOf", "divisibleBy", "minProperties", "maxProperties"):
            s[k] = draw(st.integers(1, 3))
        elif k == "const":
            s[k] = draw(small_docs())
        elif k == "disallow":
            s[k] = draw(st.sampled_from(TYPES))
        elif k == "propertyNames":
            s[k] = {"maxLength": 1} if draw(st.booleans()) else {"enum": ["z"]}
        else:
            s[k] = sub()
            if k == "if":
                s["then"] = s["else"] = sub()
    elif a == "ref" and refs and depth < 3:
        s["$ref"] = draw(st.sampled_from(["#/definitions/d", "#/definitions/e"]))


@st.composite
def full_schemas(draw, drafts=(3, 4, 6, 7, 7, None)):
    """:return: (draft, schema)"""
    draft = draw(st.sampled_from(drafts))
    d = draft or 7
    s = draw(schemas(d, depth=3))
    if not isinstance(s, dict):
        s = {"allOf": [s]}
    if draft:
        s = dict([("$schema", DRAFTS[draft])], **s)
    text = repr(s)
    if "#/definitions" in text:
        # `e` may refer to `d` below a container, so that they terminate
        s["definitions"] = {
            "d": draw(schemas(d, depth=1, refs=False)),
            "e": {"items": {"$ref": "#/definitions/d"}, "properties": {"a": {"$ref": "#/definitions/e"}}},
        }
    return draft, s


# --------------------------------------------------------------------------
# Documents, guided by schemas
# --------------------------------------------------------------------------
@st.composite
def tables(draw, drafts=(3, 4, 6, 7, None)):
    """:return: (draft, schema, spec), for documents as usual in pandas"""
    draft = draw(st.sampled_from(drafts))
    d = draft or 7
    n = draw(st.sampled_from([0, 1, 2, 3, 5]))
    cols = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))
    kinds = {k: draw(st.sampled_from(["i", "f", "s", "b", "o", "n"])) for k in cols}
    pools = {
        "i": [0, 1, 2, 3, 7, -3],
        "f": [0.0, 1.0, 2.5, -0.5, 7.0],
        "s": ["", "a", "ab", "xyz", "1"],
        "b": [True, False],
        "n": [None, 1.0, 2.5],
        "o": SCALARS,
    }
    data = {k: [draw(st.sampled_from(pools[t])) for _ in range(n)] for k, t in kinds.items()}

    def column():
        s = {}
        if draw(st.booleans()):
            s["type"] = draw(st.sampled_from(["array", "array", "array", "object", ["null", "array"]]))
        for _ in range(draw(st.integers(0, 3))):
            _aspect(draw, s, d, 2, False)
        if draw(st.booleans()):
            s["items"] = draw(schemas(d, depth=1, refs=False))
            s.pop("additionalItems", None)
        return s

    s = {}
    for _ in range(draw(st.integers(0, 2))):
        _aspect(draw, s, d, 2, False)
    if draw(st.integers(0, 3)):
        s["type"] = "object"
    s["properties"] = {k: column() for k in draw(st.lists(st.sampled_from(cols), unique=True))}
    if draw(st.booleans()):
        s["additionalProperties"] = draw(st.sampled_from([False, {"minItems": 2}, {"items": {"type": "number"}}]))
    if d > 3 and draw(st.booleans()):
        s["required"] = draw(st.lists(st.sampled_from(cols + KEYS), min_size=1, max_size=2, unique=True))
    spec = ("df", {k: [("v", v) for v in c] for k, c in data.items()}, draw(labels(n)), draw(DTYPES))
    if draw(st.integers(0, 2)) == 0:
        # nested, together with one of its rows
        row = ("sr", list(data), [("v", c[0]) for c in data.values()], True) if n else ("sr", [], [], True)
        s = {"properties": {"a": s, "b": {"properties": {k: v["items"] for k, v in s["properties"].items() if isinstance(v.get("items"), dict)}}}}
        spec = ("dict", {"a": spec, "b": row})
    if draft:
        s["$schema"] = DRAFTS[draft]
    return draft, s, spec


def doc_for(draw, s, root, depth=4):
    if depth <= 0:
        return draw(scalars())
    if not isinstance(s, dict) or draw(st.integers(0, 9)) == 0:
        return draw(small_docs())
    if "$ref" in s:
        return doc_for(draw, root.get("definitions", {}).get(s["$ref"][-1:], {}), root, depth - 1)
    if "enum" in s and draw(st.integers(0, 2)):
        return draw(st.sampled_from(s["enum"]))
    if "const" in s and draw(st.integers(0, 2)):
        return s["const"]
    for k in ("anyOf", "oneOf", "allOf", "extends"):
        if k in s and draw(st.integers(0, 2)) == 0:
            subs = s[k] if isinstance(s[k], list) else [s[k]]
            return doc_for(draw, draw(st.sampled_from(subs)), root, depth - 1)
    for k in ("not", "if", "then", "else"):
        if k in s and draw(st.integers(0, 3)) == 0:
            return doc_for(draw, s[k], root, depth - 1)
    ts = s.get("type", [])
    ts = [ts] if isinstance(ts, str) else ts
    kinds = [t for t in ts if isinstance(t, str) and t != "any"]
    if not kinds:
        if any(k in s for k in "properties required patternProperties additionalProperties "
               "minProperties maxProperties dependencies propertyNames".split()):
            kinds = ["object"] * 3
        if any(k in s for k in "items minItems maxItems uniqueItems contains additionalItems".split()):
            kinds = kinds + ["array"] * 3
        if any(k in s for k in "minimum maximum exclusiveMinimum exclusiveMaximum multipleOf divisibleBy".split()):
            kinds = kinds + ["number"] * 3
        if any(k in s for k in "pattern minLength maxLength".split()):
            kinds = kinds + ["string"] * 3
        kinds = kinds or TYPES
    kind = draw(st.sampled_from(kinds))
    if draw(st.integers(0, 9)) == 0:
        kind = draw(st.sampled_from(TYPES))
    if kind == "object":
        d = {}
        ps = s.get("properties") or {}
        names = list(ps) * 3 + KEYS + (s["required"] * 2 if isinstance(s.get("required"), list) else [])
        for k in draw(st.lists(st.sampled_from(names), max_size=4, unique=True)):
            sub = ps.get(k)
            if sub is None:
                for p, ss in (s.get("patternProperties") or {}).items():
                    if re.search(p, k):
                        sub = ss
                        break
                else:
                    sub = s.get("additionalProperties", {})
            d[k] = doc_for(draw, sub, root, depth - 1)
        return d
    if kind == "array":
        n = draw(st.integers(0, 4))
        items = s.get("items", s.get("contains", {}))
        if isinstance(items, list):
            more = s.get("additionalItems", {})
            subs = (items + [more] * 4)[:n]
        else:
            subs = [items] * n
        vals = [doc_for(draw, x, root, depth - 1) for x in subs]
        if len(vals) > 1 and draw(st.integers(0, 4)) == 0:
            vals[-1] = vals[0]
        if len(vals) > 1 and s.get("uniqueItems") and draw(st.integers(0, 3)) == 0:  # deep ones
            deep = [{"a": [1, 2]}, {"a": [1, 3]}, {"a": {"b": None}}, [[1, 2], [None]], [[1, 2], [3]]]
            vals[0], vals[-1] = draw(st.sampled_from(deep)), draw(st.sampled_from(deep[:3] + deep))
        return vals
    pool = {
        "string": ["", "a", "ab", "xyz", "1"],
        "number": [0, 1, 2, -3, 7, 1.0, 2.5, -0.5, 1.5],
        "integer": [0, 1, 2, -3, 6, 1.0, -1],
        "boolean": [True, False],
        "null": [None],
    }[kind]
    return draw(st.sampled_from(pool))


# --------------------------------------------------------------------------
# Embedding plain documents into pandas: specs & building
# --------------------------------------------------------------------------
DTYPES = st.sampled_from([False, True, True, "ext", "category"])
MAPS = ["OrderedDict", "defaultdict", "UserDict", "ChainMap"]
SEQS = ["UserList", "deque"]
NP_INTS = ["int64", "int32", "int8", "uint8"]


def embed(draw, doc, odds=5):
    """:param odds: how many out of ten containers & scalars become pandas/numpy"""
    pd_ = draw(st.integers(0, 9)) < odds
    if isinstance(doc, dict):
        if pd_:
            cols = list(doc.values())
            if (
                cols
                and all(isinstance(c, list) for c in cols)
                and len({len(c) for c in cols}) == 1
                and draw(st.integers(0, 3))
            ):
                n = len(cols[0])
                specs = {k: [embed(draw, v, 2) for v in c] for k, c in doc.items()}
                return ("df", specs, draw(labels(n)), draw(DTYPES))
            specs = [embed(draw, v, odds) for v in doc.values()]
            return ("sr", list(doc), specs, draw(DTYPES))
        specs = {k: embed(draw, v, odds) for k, v in doc.items()}
        if draw(st.integers(0, 15)) < odds - 2:
            return ("map", draw(st.sampled_from(MAPS)), specs)
        return ("dict", specs)
    if isinstance(doc, list):
        if pd_:
            kind = draw(st.sampled_from(["arr", "arr", "sr", "sr", "oarr", "tuple", "seq"]))
            if kind == "arr" and doc and is_regular(doc):
                return ("arr", doc)
            specs = [embed(draw, v, odds) for v in doc]
            if kind == "sr":
                return ("sr", draw(labels(len(doc))), specs, draw(DTYPES))
            if kind == "seq":
                return (kind, draw(st.sampled_from(SEQS)), specs)
            return (kind if kind != "arr" else "oarr", specs)
        return ("list", [embed(draw, v, odds) for v in doc])
    if pd_ and doc is not None:
        if isinstance(doc, bool):
            return ("np", "bool_", doc)
        if isinstance(doc, int):
            if doc < 0:
                return ("np", draw(st.sampled_from(NP_INTS[:3])), doc)
            return ("np", draw(st.sampled_from(NP_INTS)), doc)
        if isinstance(doc, float):
            return ("np", draw(st.sampled_from(["float64", "float64", "float32"])), doc)
        return ("np", "str_", doc)
    if pd_ and doc is None and draw(st.booleans()):
        return draw(st.sampled_from([("np", "float64", "nan"), ("nan",), ("NA",), ("NaT",)]))
    return ("v", doc)


def is_regular(doc):
    """Scalars of the same type, or regular lists of same length (a multi-dim array)"""
    kinds = {type(v) for v in doc}
    if len(kinds) != 1:
        return False
    k = kinds.pop()
    if k in (bool, int, float, str):
        return True
    return k is list and all(v and is_regular(v) for v in doc) and _shape(doc)


def _shape(doc):
    def shapes(v):
        if not isinstance(v, list):
            return type(v).__name__
        sub = {repr(shapes(i)) for i in v}
        return None if len(sub) != 1 else (len(v), sub.pop())

    s = repr(shapes(doc))
    return "None" not in s


def labels(n):
    return st.sampled_from(["range", "range", "ints", "dates", "floats", "mixed", "dexim"]).map(lambda k: (k, n))


def make_index(spec):
    import pandas as pd

    if isinstance(spec, list):
        return pd.Index(spec, dtype=object)
    kind, n = spec
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "ints":
        return pd.Index([7 * (n - i) for i in range(n)], dtype="int64")
    if kind in ("mixed", "dexim"):  # all but one are texts
        labels = ([0] + ["abcdefgh"[i % 8] + "x" * (i // 8) for i in range(n)])[:n]
        return pd.Index(labels[:: 1 if kind == "mixed" else -1], dtype=object)
    if kind == "dates":
        return pd.date_range("2020-01-01", periods=n)
    return pd.Index([i * 0.5 - 1 for i in range(n)], dtype=float)


def build(spec):
    import numpy as np
    import pandas as pd

    kind = spec[0]
    if kind == "v":
        return spec[1]
    if kind == "np":
        return getattr(np, spec[1])(spec[2])
    if kind == "nan":
        return float("nan")
    if kind == "NA":
        return pd.NA
    if kind == "NaT":
        return pd.NaT
    if kind == "dict":
        return {k: build(v) for k, v in spec[1].items()}
    if kind == "map":
        base = {k: build(v) for k, v in spec[2].items()}
        return defaultdict(int, base) if spec[1] == "defaultdict" else getattr(collections, spec[1])(base)
    if kind == "seq":
        return getattr(collections, spec[1])([build(v) for v in spec[2]])
    if kind == "list":
        return [build(v) for v in spec[1]]
    if kind == "tuple":
        return tuple(build(v) for v in spec[1])
    if kind == "arr":
        return np.array(spec[1])
    if kind == "oarr":
        return _objects(spec[1])
    if kind == "sr":
        sr = pd.Series(_objects(spec[2]), index=make_index(spec[1]), dtype=object)
        return as_dtype(sr, spec[3])
    if kind == "df":
        index = make_index(spec[2])
        df = pd.DataFrame({k: pd.Series(_objects(c), index=index, dtype=object) for k, c in spec[1].items()})
        return as_dtype(df, spec[3] if len(spec) > 3 else True)
    raise AssertionError(spec)


def as_dtype(x, dtype):
    """
    :param x: of objects
    :param dtype: False: leave it, True: usual ones, "ext": nullable, "category": those of hashables
    """
    if dtype is False:
        return x
    inferred = x.infer_objects()
    if dtype is True:
        return inferred
    columns = [x] if x.ndim == 1 else [x[k] for k in x.columns]
    if not all(type(i) in (int, float, str, bool) or i is None for c in columns for i in c):
        return inferred  # Anything else gets scrambled.
    if dtype == "category":
        if not all(len({type(i) for i in c}) == 1 for c in columns):
            return inferred  # Equal ones of other type get the same.
        return x.astype("category")
    return inferred.convert_dtypes()


def _objects(specs):
    import numpy as np

    a = np.empty(len(specs), dtype=object)
    for i, s in enumerate(specs):
        a[i] = build(s)
    return a


def spec_kinds(spec):
    kind = spec[0]
    if kind not in ("v", "dict", "list"):
        yield kind
    if kind in ("dict",):
        kids = spec[1].values()
    elif kind == "df":
        kids = [x for c in spec[1].values() for x in c]
    elif kind == "sr":
        kids = spec[2]
    elif kind in ("list", "tuple", "oarr"):
        kids = spec[1]
    elif kind == "map":
        kids = spec[2].values()
    elif kind == "seq":
        kids = spec[2]
    else:
        kids = ()
    for k in kids:
        for x in spec_kinds(k):
            yield x


# --------------------------------------------------------------------------
# Nodes: what pandas/numpy things are equivalent to
# --------------------------------------------------------------------------
class Node(object):
    __slots__ = ("v", "arr", "obj", "rows")

    def __init__(self, v=None, arr=None, obj=None, rows=None):
        self.v, self.arr, self.obj, self.rows = v, arr, obj, rows

    @property
    def both(self):
        return self.arr is not None and self.obj is not None

    @property
    def leaf(self):
        return self.arr is None and self.obj is None


def node(x):
    import numpy as np
    import pandas as pd

    if isinstance(x, pd.DataFrame):
        return Node(obj={k: node(x[k]) for k in x.columns}, rows=len(x))
    if isinstance(x, pd.Series):
        items = [node(i) for i in x.tolist()]
        obj = None
        if all(isinstance(k, str) for k in x.index):
            obj = dict(zip(x.index, items))
        return Node(arr=items, obj=obj)
    if isinstance(x, np.ndarray):
        return Node(arr=[node(i) for i in x.tolist()] if x.dtype != object else [node(i) for i in x])
    if isinstance(x, abc.Sequence) and not isinstance(x, str):
        return Node(arr=[node(i) for i in x])
    if isinstance(x, abc.Mapping):
        return Node(obj={k: node(v) for k, v in x.items()})
    if x is pd.NA or x is pd.NaT:
        return Node(None)
    if isinstance(x, np.str_):
        return Node(str(x))
    if isinstance(x, np.generic):
        return Node(x.item())
    return Node(x)


def is_nan(v):
    return isinstance(v, float) and math.isnan(v)


def plain(n, top=True, strict=False):
    """:param strict: Skip on what cannot be compared (NaNs, dual nodes)"""
    if strict and n.both and not top:
        raise Skip
    if n.obj is not None:
        return {k: plain(v, False, strict) for k, v in n.obj.items()}
    if n.arr is not None:
        return [plain(v, False, strict) for v in n.arr]
    if strict and is_nan(n.v):
        raise Skip
    return n.v


def walk(n):
    yield n
    for k in list((n.obj or {}).values()) + (list(n.arr or ()) if n.obj is None else []):
        for x in walk(k):
            yield x


# --------------------------------------------------------------------------
# The reference validator
# --------------------------------------------------------------------------
def _equal(a, b):
    """As the standard validator: only top booleans differ from numbers."""
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    return a == b


def _forms(n):
    """The values a node may equal to."""
    if n.both:
        return [plain(n, True, True), [plain(i, False, True) for i in n.arr]]
    return [plain(n, True, True)]


class Ref(object):
    def __init__(self, schema, draft):
        self.root, self.d = schema, draft

    def is_type(self, n, t):
        if t == "any" and self.d == 3:
            return True
        if t == "array":
            return n.arr is not None
        if t == "object":
            return n.obj is not None
        if not n.leaf:
            return False
        v = n.v
        if t == "null":
            return v is None or is_nan(v)
        if t == "boolean":
            return isinstance(v, bool)
        if t == "string":
            return isinstance(v, str)
        num = isinstance(v, (int, float)) and not isinstance(v, bool)
        if t == "number":
            return num
        assert t == "integer", t
        return num and (isinstance(v, int) or self.d >= 6 and v.is_integer())

    def valid(self, n, s):
        return not self.errors(n, s)

    def errors(self, n, s=None):
        """:return: a list of (path, schema-path, keyword, context)"""
        if s is None:
            s = self.root
        if s is True:
            return []
        if s is False:
            return [((), (), None, ())]
        if "$ref" in s:
            if s["$ref"] == "#":
                return self.errors(n, self.root)
            assert s["$ref"].startswith("#/definitions/")
            return self.errors(n, self.root["definitions"][s["$ref"][-1]])
        out = []
        for k, v in s.items():
            if k in ALIENS[self.d]:
                continue
            rule = getattr(self, "r_" + k.replace("$", "_"), None)
            if rule:
                for path, spath, kw, cx in rule(n, v, s):
                    out.append((path, (k,) + spath, k if kw == "." else kw, cx))
        return out

    def sub(self, n, s, path=(), spath=()):
        return [(path + p, spath + sp, kw, cx) for p, sp, kw, cx in self.errors(n, s)]

    ERR = ((), (), ".", ())

    def iff(self, bad):
        return [self.ERR] if bad else []

    # -- any
    def r_type(self, n, v, s):
        ts = [v] if isinstance(v, str) else v
        cx = []
        for i, t in enumerate(ts):
            if isinstance(t, dict):
                errs = self.sub(n, t, (), (i,))
                if not errs:
                    return []
                cx += errs
            elif self.is_type(n, t):
                return []
        return [((), (), ".", tuple(cx))]

    def r_disallow(self, n, v, s):
        vs = [v] if isinstance(v, str) else v
        return [self.ERR for x in vs if self.valid(n, {"type": [x]})]

    def r_extends(self, n, v, s):
        if isinstance(v, dict):
            return self.sub(n, v)
        return [e for i, x in enumerate(v) for e in self.sub(n, x, (), (i,))]

    def r_enum(self, n, v, s):
        return self.iff(not any(_equal(f, e) for f in _forms(n) for e in v))

    def r_const(self, n, v, s):
        return self.iff(self.d >= 6 and not any(_equal(f, v) for f in _forms(n)))

    def r_allOf(self, n, v, s):
        return [e for i, x in enumerate(v) for e in self.sub(n, x, (), (i,))]

    def r_anyOf(self, n, v, s):
        cx = []
        for i, x in enumerate(v):
            errs = self.sub(n, x, (), (i,))
            if not errs:
                return []
            cx += errs
        return [((), (), ".", tuple(cx))]

    def r_oneOf(self, n, v, s):
        cx = []
        ok = 0
        for i, x in enumerate(v):
            errs = self.sub(n, x, (), (i,))
            ok += not errs
            cx += errs
        if ok == 0:
            return [((), (), ".", tuple(cx))]
        return self.iff(ok > 1)

    def r_not(self, n, v, s):
        return self.iff(self.valid(n, v))

    def r_if(self, n, v, s):
        if self.d < 7:
            return []
        k = "then" if self.valid(n, v) else "else"
        return self.sub(n, s[k], (), (k,)) if k in s else []

    # -- numbers
    def num(self, n):
        return n.v if self.is_type(n, "number") else None

    def r_minimum(self, n, v, s):
        x = self.num(n)
        if x is None:
            return []
        ex = self.d <= 4 and s.get("exclusiveMinimum", False)
        return self.iff(x <= v if ex else x < v)

    def r_maximum(self, n, v, s):
        x = self.num(n)
        if x is None:
            return []
        ex = self.d <= 4 and s.get("exclusiveMaximum", False)
        return self.iff(x >= v if ex else x > v)

    def r_exclusiveMinimum(self, n, v, s):
        x = self.num(n)
        return self.iff(self.d > 4 and x is not None and x <= v)

    def r_exclusiveMaximum(self, n, v, s):
        x = self.num(n)
        return self.iff(self.d > 4 and x is not None and x >= v)

    def r_multipleOf(self, n, v, s):
        x = self.num(n)
        if x is None:
            return []
        if is_nan(x):
            raise Skip
        return self.iff((x / v) != int(x / v))

    r_divisibleBy = r_multipleOf

    # -- strings
    def r_pattern(self, n, v, s):
        return self.iff(n.leaf and isinstance(n.v, str) and not re.search(v, n.v))

    def r_minLength(self, n, v, s):
        return self.iff(n.leaf and isinstance(n.v, str) and len(n.v) < v)

    def r_maxLength(self, n, v, s):
        return self.iff(n.leaf and isinstance(n.v, str) and len(n.v) > v)

    # -- arrays
    def r_items(self, n, v, s):
        if n.arr is None:
            return []
        if isinstance(v, list):
            return [e for i, (x, ss) in enumerate(zip(n.arr, v)) for e in self.sub(x, ss, (i,), (i,))]
        return [e for i, x in enumerate(n.arr) for e in self.sub(x, v, (i,))]

    def r_additionalItems(self, n, v, s):
        items = s.get("items", {})
        if n.arr is None or not isinstance(items, list):
            return []
        k = len(items)
        if isinstance(v, dict):
            return [e for i, x in enumerate(n.arr) if i >= k for e in self.sub(x, v, (i,))]
        return self.iff(not v and len(n.arr) > k)

    def r_minItems(self, n, v, s):
        return self.iff(n.arr is not None and len(n.arr) < v)

    def r_maxItems(self, n, v, s):
        return self.iff(n.arr is not None and len(n.arr) > v)

    def r_uniqueItems(self, n, v, s):
        if not v or n.arr is None:
            return []
        from jsonschema._utils import uniq

        return self.iff(not uniq([plain(i, False, True) for i in n.arr]))

    def r_contains(self, n, v, s):
        return self.iff(self.d >= 6 and n.arr is not None and not any(self.valid(i, v) for i in n.arr))

    # -- objects
    def r_properties(self, n, v, s):
        if n.obj is None:
            return []
        out = []
        for k, ss in v.items():
            if k in n.obj:
                out += self.sub(n.obj[k], ss, (k,), (k,))
            elif self.d == 3 and ss.get("required", False):
                out.append(((k,), (k, "required"), "required", ()))
        return out

    def r_required(self, n, v, s):
        if self.d == 3 or n.obj is None:
            return []
        return [self.ERR for k in v if k not in n.obj]

    def r_patternProperties(self, n, v, s):
        if n.obj is None:
            return []
        return [
            e
            for p, ss in v.items()
            for k, x in n.obj.items()
            if re.search(p, k)
            for e in self.sub(x, ss, (k,), (p,))
        ]

    def r_additionalProperties(self, n, v, s):
        if n.obj is None:
            return []
        extras = [
            k
            for k in n.obj
            if k not in s.get("properties", {})
            and not any(re.search(p, k) for p in s.get("patternProperties", {}))
        ]
        if isinstance(v, dict):
            return [e for k in extras for e in self.sub(n.obj[k], v, (k,))]
        return self.iff(not v and extras)

    def size(self, n):
        return len(n.obj) if n.rows is None else n.rows

    def r_minProperties(self, n, v, s):
        return self.iff(self.d > 3 and n.obj is not None and self.size(n) < v)

    def r_maxProperties(self, n, v, s):
        return self.iff(self.d > 3 and n.obj is not None and self.size(n) > v)

    def r_dependencies(self, n, v, s):
        if n.obj is None:
            return []
        out = []
        for k, dep in v.items():
            if k not in n.obj:
                continue
            if isinstance(dep, str):
                dep = [dep]
            if isinstance(dep, list):
                out += [self.ERR for x in dep if x not in n.obj]
            else:
                out += self.sub(n, dep, (), (k,))
        return out

    def r_propertyNames(self, n, v, s):
        if self.d < 6 or n.obj is None:
            return []
        return [e for k in n.obj for e in self.sub(Node(k), v)]


def norm(errs):
    """Reference errors, in a comparable form."""
    return sorted((repr((tuple(p), tuple(sp), kw)), norm(cx)) for p, sp, kw, cx in errs)


def norm_std(errs):
    """Those of jsonschema."""
    return sorted(
        (repr((_plain_path(e.path), tuple(e.schema_path), e.validator)), norm_std(e.context or ()))
        for e in errs
    )


def _plain_path(path):
    return tuple(path)
