"""C12: JSON-pointers address, set and list exactly the documented node."""
import collections
import copy

from hypothesis import strategies as st

from vlib import boot  # noqa: F401
from vlib.core import check_eq, facet, fail

ID = "C12"
RULE = """
parts: lists of pointer-parts, split, joined, escaped & unescaped.
resolve: a nested document, resolved at every pointer enumerated from it, plus pointers
addressing nothing and malformed ones, with and without defaults; and by relative/rooted paths
from an inner node.
setting: a nested document and 1-8 successive sets at existing, missing, boundary and refused
pointers, compared with a recursive model.
bigparts, bigresolve, bigsetting: the same on long pointers & documents with 10-130 items or keys and up to 40 levels.
rich: documents with DataFrames, Series, tuples and objects, resolved by pointers, paths (also attributes) and `Pandel.get()` at every
node of theirs and at missing ones; columns set.
schema: nested json-schemas (with forks) whose property paths are listed.
Non-trivial: a part needing escape, an empty or numeric one (parts); a document of depth>=2 with a
list or odd key (resolve); or of pandas objects & tuples (rich); at least 2 effective sets, or a set through a list (setting);
at least 3 properties in 2 levels (schema).
"""
ASSUMPTIONS = [
    "list indices in non-canonical numerals (`01`, `+1`, ` 1`) are unspecified",
    "attributes of objects are looked up by paths only; labels of series are non-numeric, and they are not set",
]

ODD = ["a/b", "m~n", "~1", "~0", "~01", "/", "~", "", " ", "ä/~€", "a~1b", "//", "~~", "%", '"', "\\"]
NUM = ["0", "1", "2", "3", "10", "-", "-1", "-9"]
KEYS = ["a", "b", "c", "foo", "A b"]


def keys():
    return st.sampled_from(KEYS * 3 + ODD + NUM[:4] + ["-"])


def parts():
    return st.one_of(
        keys(),
        st.text(alphabet="ab/~01 é", max_size=5),
        st.text(max_size=4),
    )


SCALARS = [None, True, 0, 1, -3, 2.5, "", "x", "bar", "0123"]


def docs(depth=3):
    return st.recursive(
        st.sampled_from(SCALARS),
        lambda kids: st.one_of(
            st.lists(kids, max_size=3), st.dictionaries(keys(), kids, max_size=4)
        ),
        max_leaves=10,
    )


def roots():
    return st.one_of(
        st.dictionaries(keys(), docs(), min_size=0, max_size=4), st.lists(docs(), max_size=4)
    )


def ptr(steps):
    return "".join("/" + s.replace("~", "~0").replace("/", "~1") for s in steps)


def same(a, b):
    """Equality distinguishing types, too."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def nodes(doc, steps=()):
    yield steps, doc
    if isinstance(doc, dict):
        for k, v in doc.items():
            for n in nodes(v, steps + (k,)):
                yield n
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            for n in nodes(v, steps + (str(i),)):
                yield n


# -- Larger ones
@st.composite
def big_docs(draw):
    doc = draw(roots())
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.sampled_from(["list", "list", "dict", "deep"]))
        if k == "list":
            few = [draw(docs()) for _ in range(2)] + [doc]
            doc = [copy.deepcopy(few[i * i % 3]) if i % 10 == 3 else i for i in range(draw(st.sampled_from([10, 11, 12, 40, 101, 130])))]
        elif k == "dict":
            odd = draw(st.sampled_from(["k%i", "%i", "/%i", "~%i"]))
            doc = {odd % i: doc if i == 7 else i for i in range(draw(st.sampled_from([10, 40, 130])))}
        else:
            odd = draw(st.lists(st.one_of(keys(), st.just(0), st.just(0)), min_size=1, max_size=4))
            for i in range(draw(st.integers(4, 40))):
                key = odd[i % len(odd)]
                doc = [doc, i] if key == 0 else {key: doc}
    return doc


many_nums = st.one_of(st.integers(0, 140).map(str), st.sampled_from(["10", "11", "100", "k10", "130", "-"]))


@st.composite
def big_resolve_cases(draw):
    case = draw(resolve_cases())
    case["doc"] = draw(big_docs())
    case["inner"] = draw(st.integers(0, 2000))
    case["missing"] = [(draw(st.integers(0, 2000)), draw(st.lists(many_nums, min_size=1, max_size=2))) for _ in range(4)]
    return case


@st.composite
def big_set_cases(draw):
    case = draw(set_cases())
    case["doc"] = draw(big_docs())
    if draw(st.booleans()):
        # many appends
        case["sets"] += [(0, ["-"], draw(st.sampled_from([1, {}, []])))] * draw(st.integers(3, 12))
    case["sets"] += [
        (draw(st.one_of(st.just(0), st.integers(0, 2000))), draw(st.lists(many_nums, max_size=3)), draw(docs())) for _ in range(draw(st.integers(1, 4)))
    ]
    if draw(st.booleans()):
        # a long branch
        case["sets"].append((0, ["new"] + draw(st.lists(st.sampled_from(["a", "1", "~", "-", ""]), min_size=10, max_size=40)), 5))
    return case


big_parts = st.one_of(
    st.tuples(st.lists(parts(), min_size=1, max_size=5), st.integers(2, 60)).map(lambda t: t[0] * t[1]),
    st.lists(st.tuples(parts(), st.integers(2, 300)).map(lambda t: t[0] * t[1]), max_size=4),
)


# --------------------------------------------------------------------------
def check_parts(case, ctx):
    from pandalone import pandata as pd_

    for part in case:
        esc = pd_.escape_jsonpointer_part(part)
        if "/" in esc:
            fail("escaped part %r has a slash: %r", part, esc)
        check_eq(pd_.unescape_jsonpointer_part(esc), part, "unescaping the escaped %r", part)
        check_eq(esc, ptr([part])[1:], "escaping %r", part)
    pointer = "".join("/" + pd_.escape_jsonpointer_part(p) for p in case)
    got = list(pd_.iter_jsonpointer_parts(pointer))
    check_eq(got, case, "parts of %r", pointer)
    check_eq(list(pd_.iter_jsonpointer_parts_relaxed(pointer)), [""] + case, "parts of %r", pointer)
    if case:
        # ... and for non-rooted ones
        rel = pointer[1:]
        check_eq(list(pd_.iter_jsonpointer_parts_relaxed(rel)), case, "parts of %r", rel)
        if case[0]:
            try:
                got = list(pd_.iter_jsonpointer_parts(rel))
            except pd_.RefResolutionError:
                pass
            else:
                fail("split non-rooted %r into %r", rel, got)
    ctx.nontrivial(any(not p or "/" in p or "~" in p or p.isdigit() for p in case))


# --------------------------------------------------------------------------
@st.composite
def resolve_cases(draw):
    doc = draw(roots())
    return {
        "doc": doc,
        "missing": [
            (draw(st.integers(0, 40)), draw(st.lists(st.one_of(keys(), st.sampled_from(NUM)), min_size=1, max_size=2)))
            for _ in range(4)
        ],
        "default": draw(st.sampled_from([None, 0, "", "dflt", [], False])),
        "inner": draw(st.integers(0, 40)),
        "bad": draw(st.sampled_from(["a", "a/b", " /a", "~1a", "0", "#/a"])),
        "root": draw(st.sampled_from([None, None, {}, [], {"a": {"b": 1}}, {"": {"a": 2}, "a": 3}])),
    }


def lookup(doc, steps):
    """:return: (found, node)"""
    for s in steps:
        if isinstance(doc, dict):
            if s not in doc:
                return False, None
            doc = doc[s]
        elif isinstance(doc, list):
            if not (s.isascii() and s.isdigit()) or int(s) >= len(doc):
                return False, None
            doc = doc[int(s)]
        else:
            return False, None
    return True, doc


ATTRS = frozenset(dir(dict) + dir(list))


def check_resolve(case, ctx):
    from pandalone import pandata as pd_

    doc = case["doc"]
    before = copy.deepcopy(doc)
    all_nodes = list(nodes(doc))

    def outcome(func, *args, **kws):
        try:
            return "value", func(*args, **kws)
        except pd_.RefResolutionError:
            return "error", None

    def expect(steps, *args):
        found, node = lookup(doc, steps)
        kind, got = outcome(pd_.resolve_jsonpointer, doc, ptr(steps), *args)
        if found:
            if kind != "value" or got is not node:
                fail("%r in %r: %s %r instead of its node", ptr(steps), doc, kind, got)
        elif args:
            if kind != "value" or got is not args[0]:
                fail("%r in %r: %s %r instead of the default", ptr(steps), doc, kind, got)
        elif kind != "error":
            fail("%r in %r addresses nothing, yet got: %r", ptr(steps), doc, got)
        return found

    for steps, node in all_nodes:
        expect(steps)
        expect(steps, case["default"])
    for i, extra in case["missing"]:
        steps = all_nodes[i % len(all_nodes)][0] + tuple(extra)
        found = expect(steps)
        expect(steps, case["default"])
        ctx.label("found" if found else "missing")
    for args in [(), (case["default"],)]:
        kind, got = outcome(pd_.resolve_jsonpointer, doc, case["bad"], *args)
        if kind != "error":
            fail("malformed pointer %r resolved to %r", case["bad"], got)

    # By paths
    root = case["root"]
    base_steps, base = all_nodes[case["inner"] % len(all_nodes)]
    if isinstance(base, (dict, list)):
        for steps, node in nodes(base):
            if not steps:
                continue
            if steps[0] != "" :
                kind, got = outcome(pd_.resolve_path, base, ptr(steps)[1:], root=root)
                if kind != "value" or got is not node:
                    fail("relative %r in %r: %s %r", ptr(steps)[1:], base, kind, got)
            # The base is the default root.
            kind, got = outcome(pd_.resolve_path, base, ptr(steps))
            if kind != "value" or got is not node:
                fail("rooted %r in %r: %s %r", ptr(steps), base, kind, got)
        for steps, node in all_nodes[1:]:
            kind, got = outcome(pd_.resolve_path, base, ptr(steps), root=doc)
            if kind != "value" or got is not node:
                fail("rooted %r of %r from %r: %s %r", ptr(steps), doc, base, kind, got)
        for i, extra in case["missing"]:
            steps = all_nodes[i % len(all_nodes)][0] + tuple(extra)
            if any(s in ATTRS or not s or s[0] == "-" for s in steps):
                continue
            # Strings may be indexed, and the default root is unlike the given one.
            exp_root = base if root is None else root
            for path, where in [(ptr(steps), exp_root), (ptr(steps)[1:], base)]:
                if has_string(where, steps):
                    continue
                found, node = lookup(where, steps)
                kind, got = outcome(pd_.resolve_path, base, path, root=root)
                if found and (kind != "value" or got is not node):
                    fail("path %r of %r, root %r: %s %r", path, base, root, kind, got)
                if not found and kind != "error":
                    fail("path %r of %r, root %r must be missing: %r", path, base, root, got)
                if not found:
                    kind, got = outcome(
                        pd_.resolve_path, base, path, case["default"], root=root
                    )
                    if kind != "value" or got is not case["default"]:
                        fail("path %r of %r, root %r: %s %r", path, base, root, kind, got)
    # Numeric keys of python are not those of JSON.
    for steps, node in all_nodes:
        if steps and steps[-1].isascii() and steps[-1].isdigit():
            key = steps[-1]
            mixed = {int(key): "decoy", key: node}
            for what, func, path in [
                ("pointer", pd_.resolve_jsonpointer, ptr([key])),
                ("path", pd_.resolve_path, key),
            ]:
                kind, got = outcome(func, mixed, path)
                if kind != "value" or got is not node:
                    fail("%s %r of %r: %s %r", what, path, mixed, kind, got)
            ctx.label("decoy")
    if not same(doc, before):
        fail("document got modified: %r", doc)
    odd = any(not p or "/" in p or "~" in p or p.isdigit() for s, _ in all_nodes for p in s)
    ctx.nontrivial(odd and any(len(s) > 1 for s, _ in all_nodes))


def has_string(doc, steps):
    for i in range(len(steps)):
        found, node = lookup(doc, steps[:i])
        if found and not isinstance(node, (dict, list)):
            return True
    return False


# --------------------------------------------------------------------------
@st.composite
def set_cases(draw):
    doc = draw(roots())
    sets = []
    for _ in range(draw(st.integers(1, 8))):
        extra = draw(
            st.lists(
                st.one_of(keys(), st.sampled_from(NUM + ["-", "-", "a"])), max_size=3
            )
        )
        sets.append((draw(st.integers(0, 60)), extra, draw(docs())))
    return {
        "doc": doc,
        "sets": sets,
        "factory": draw(st.sampled_from(["", "", "ordered"])),
        "bad": draw(st.sampled_from(["", "a", "a/b", "~1"])),
    }


class Refused(Exception):
    pass


def model_set(doc, steps, value, factory):
    """In-place, recursively."""
    step, rest = steps[0], steps[1:]

    def branch(rest):
        if not rest:
            return value
        b = factory()
        b[rest[0]] = branch(rest[1:])
        return b

    if isinstance(doc, list):
        if step == "-":
            step = str(len(doc))
        if not (step.isascii() and step.isdigit()) or int(step) > len(doc):
            raise Refused()
        step = int(step)
        if step == len(doc):
            doc.append(branch(rest))
            return
        child, missing = doc[step], False
    else:
        child, missing = doc.get(step), step not in doc
    if not rest or missing or not isinstance(child, (dict, list)):
        doc[step] = branch(rest)
    else:
        model_set(child, rest, value, factory)


def check_setting(case, ctx):
    from pandalone import pandata as pd_

    doc = copy.deepcopy(case["doc"])
    model = copy.deepcopy(case["doc"])
    factory = collections.OrderedDict if case["factory"] else dict
    args = (factory,) if case["factory"] else ()
    done = lists = 0
    for i, extra, value in case["sets"]:
        value = copy.deepcopy(value)
        all_nodes = list(nodes(doc))
        base, node = all_nodes[i % len(all_nodes)]
        steps = base + tuple(extra)
        if not steps:
            continue
        pointer = ptr(steps)
        before = copy.deepcopy(doc)
        kept = {s: n for s, n in all_nodes}
        try:
            model_set(model, steps, copy.deepcopy(value), factory)
            refused = False
        except Refused:
            refused = True
        try:
            pd_.set_jsonpointer(doc, pointer, value, *args)
        except pd_.RefResolutionError:
            if not refused:
                raise
            if not same(doc, before):
                fail("refused setting %r modified %r into %r", pointer, before, doc)
            ctx.label("refused")
            continue
        if refused:
            fail("setting %r in %r was not refused, but gave %r", pointer, before, doc)
        if not same(doc, model):
            fail("setting %r:=%r in %r: got %r, expected %r", pointer, value, before, doc, model)
        if "-" not in steps:
            got = pd_.resolve_jsonpointer(doc, pointer)
            if got is not value:
                fail("set %r:=%r in %r but resolved %r", pointer, value, before, got)
        # Nodes elsewhere are not just equal, but untouched.
        for s, n in nodes(doc):
            old = kept.get(s)
            if isinstance(old, (dict, list)) and s != steps[: len(s)] and steps != s[: len(steps)]:
                if n is not old:
                    fail("setting %r replaced the node at %r", pointer, ptr(s))
        done += 1
        lists += any(isinstance(kept.get(steps[:k]), list) for k in range(len(steps)))
        ctx.label("through-list" if lists else "set")
    before = copy.deepcopy(doc)
    try:
        pd_.set_jsonpointer(doc, case["bad"], 1)
    except pd_.RefResolutionError:
        pass
    else:
        fail("setting at malformed %r was not refused", case["bad"])
    if not same(doc, before):
        fail("refused setting %r modified %r into %r", case["bad"], before, doc)
    ctx.nontrivial(done > 1 or lists)


# --------------------------------------------------------------------------
@st.composite
def schemas(draw):
    def schema(depth):
        s = {}
        if draw(st.booleans()):
            s["type"] = draw(st.sampled_from(["object", "number", ["object", "null"]]))
        if depth and draw(st.integers(0, 3)):
            s["properties"] = {
                k: schema(depth - 1) for k in draw(st.lists(keys(), max_size=3, unique=True))
            }
        if depth and draw(st.integers(0, 7)) == 0:
            fork = draw(st.sampled_from(["oneOf", "anyOf", "allOf"]))
            s[fork] = [schema(depth - 1) for _ in range(draw(st.integers(0, 2)))]
        return s

    return schema(3)


def check_schema(case, ctx):
    from pandalone import pandata as pd_

    before = copy.deepcopy(case)
    got = pd_.build_all_jsonpaths(case)
    if not same(case, before):
        fail("schema got modified")
    leafs, inners = [], []

    def visit(s, steps, forked):
        props = s.get("properties")
        forks = [o for f in ("oneOf", "anyOf", "allOf") for o in s.get(f) or ()]
        for o in forks:
            visit(o, steps, True)
        for k, o in (props or {}).items():
            visit(o, steps + (k,), False)
        (inners if props or forks else leafs).append(ptr(steps))

    visit(case, (), False)
    missing = set(leafs) - set(got)
    if missing:
        fail("paths %s not listed for %r, just: %r", sorted(missing), case, got)
    extra = set(got) - set(leafs) - set(inners)
    if extra:
        fail("paths %s listed, but not in %r", sorted(extra), case)
    if not any(f in repr(case) for f in ("oneOf", "anyOf", "allOf")):
        check_eq(sorted(got), sorted(leafs), "paths of %r", case)
        # A document with them set has exactly those nodes.
        if not (leafs == [""]):
            doc = {}
            for i, path in enumerate(leafs):
                pd_.set_jsonpointer(doc, path, i)
            for i, path in enumerate(leafs):
                check_eq(pd_.resolve_jsonpointer(doc, path), i, "node at %r", path)
    else:
        ctx.label("forks")
    ctx.nontrivial(len(leafs) > 2 and any(p.count("/") > 1 for p in leafs))


# --------------------------------------------------------------------------
# Documents with pandas objects, tuples & (for paths) attributes
# --------------------------------------------------------------------------
LABELS = ["a", "b", "c", "Vel [km/h]", "m~n", "é", "a b", "~1"]
CELLS = [[1, 2, 3], [1.5, 0.0, -2.0], ["x", "", "yy"], [True, False, True], [None, "z", 4], [{"k": [1, 2]}, 7, [5]]]


@st.composite
def rich_docs(draw, depth=2):
    kind = draw(st.sampled_from(["dict", "dict", "list", "tuple", "ns", "df", "sr", "arr-sr", "scalar"] if depth else ["df", "sr", "arr-sr", "scalar"]))
    if kind == "scalar":
        return draw(st.sampled_from(SCALARS))
    n = draw(st.integers(0, 3))
    if kind in ("dict", "ns"):
        lbls = draw(st.lists(st.sampled_from(LABELS if kind == "dict" else ["a", "b", "c"]), max_size=n, unique=True))
        return kind, [(k, draw(rich_docs(depth - 1))) for k in lbls]
    if kind in ("list", "tuple"):
        return kind, [draw(rich_docs(depth - 1)) for _ in range(n)]
    if kind == "df":
        cols = draw(st.lists(st.sampled_from(LABELS), max_size=3, unique=True))
        return kind, [(k, draw(st.sampled_from(CELLS))[:n]) for k in cols]
    lbls = draw(st.lists(st.sampled_from(LABELS), min_size=n, max_size=n, unique=True))
    return kind, list(zip(lbls, draw(st.sampled_from(CELLS))))


def series(vals, index=None):
    import pandas as pd

    sr = pd.Series(vals if not any(isinstance(v, (dict, list)) for v in vals) else [None] * len(vals), index=index, dtype=None if vals else object)
    for i, v in enumerate(vals):
        if isinstance(v, (dict, list)):
            sr = sr.astype(object)
            sr.iat[i] = v
        elif sr.dtype == object:
            sr.iat[i] = v
    return sr


def build_rich(spec):
    """:return: the document & a dict of its nodes by steps, built along."""
    import pandas as pd
    import types

    found = {}

    def build(spec, steps):
        if not isinstance(spec, tuple):
            found[steps] = spec
            return spec
        kind, items = spec
        if kind == "dict":
            res = {k: build(v, steps + (k,)) for k, v in items}
        elif kind == "ns":
            res = types.SimpleNamespace(**{k: build(v, steps + (k,)) for k, v in items})
        elif kind in ("list", "tuple"):
            res = [build(v, steps + (str(i),)) for i, v in enumerate(items)]
            res = tuple(res) if kind == "tuple" else res
        elif kind == "df":
            res = pd.DataFrame({k: series(v) for k, v in items})
            for k, v in items:
                found[steps + (k,)] = res[k]
                for i, x in enumerate(v):
                    found[steps + (k, str(i))] = x
        elif kind == "sr":
            res = series([v for _, v in items], [k for k, _ in items])
            for k, v in items:
                found[steps + (k,)] = v
        else:
            res = series([v for _, v in items])
            for i, (_, v) in enumerate(items):
                found[steps + (str(i),)] = v
        found[steps] = res
        return res

    return build(spec, ()), found


def alike(got, exp):
    import pandas as pd

    if isinstance(exp, pd.Series):
        return isinstance(got, pd.Series) and got.equals(exp) and list(got.index) == list(exp.index)
    if isinstance(exp, (dict, list, tuple, pd.DataFrame)) or type(exp).__name__ == "SimpleNamespace":
        return got is exp
    if exp is None or isinstance(exp, str):
        return got is None or got != got if exp is None else got == exp
    return got == exp and isinstance(got, str) == isinstance(exp, str)


@st.composite
def rich_cases(draw):
    return (
        draw(rich_docs()),
        draw(st.lists(st.tuples(st.integers(0, 30), st.lists(st.sampled_from(["zz", "-1", "9", "4", "~", "z/z"]), min_size=1, max_size=2)), max_size=4)),
        draw(st.sampled_from([None, 0, "", "dflt"])),
        draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(LABELS + ["zz"])), max_size=2)),
    )


def check_rich(case, ctx):
    from pandalone import pandata as pd_
    import pandas as pd

    spec, missing, default, sets = case
    doc, found = build_rich(spec)
    before = repr(doc)
    through_ns = lambda steps: any(type(found[steps[:i]]).__name__ == "SimpleNamespace" for i in range(len(steps)))
    mm = pd_.Pandel()
    mm.model = doc
    for steps, node in found.items():
        ways = [("path", lambda *a: pd_.resolve_path(doc, ptr(steps), *a))]
        if steps:
            ways.append(("relative path", lambda *a: pd_.resolve_path(doc, ptr(steps)[1:], *a)))
            for i in range(1, len(steps)):
                base, left = found[steps[:i]], ptr(steps[i:])
                ways.append(("rooted path from %s" % (steps[:i],), lambda *a, base=base: pd_.resolve_path(base, ptr(steps), *a, root=doc)))
                if not isinstance(base, str):
                    ways.append(("relative path from %s" % (steps[:i],), lambda *a, b=base, l=left: pd_.resolve_path(b, l[1:], *a)))
        if not through_ns(steps):
            ways.append(("pointer", lambda *a: pd_.resolve_jsonpointer(doc, ptr(steps), *a)))
            ways.append(("get() of pandel", lambda *a: mm.get(ptr(steps), **({"default": a[0]} if a else {}))))
        for what, way in ways:
            for args in [(), (default,)]:
                try:
                    got = way(*args)
                except pd_.RefResolutionError as ex:
                    fail("%s of %s in %s: %s", what, steps, before, ex)
                if not alike(got, node):
                    fail("%s of %s in %s: got %r instead of %r", what, steps, before, got, node)
    every = list(found)
    for i, extra in missing:
        at = every[i % len(every)]
        steps = at + tuple(extra)
        if steps in found:
            continue
        ways = []
        if not through_ns(at):
            ways.append(("pointer", lambda *a: pd_.resolve_jsonpointer(doc, ptr(steps), *a)))
            ways.append(("get() of pandel", lambda *a: mm.get(ptr(steps), **({"default": a[0]} if a else {}))))
        # Paths may count from the end, and index strings.
        if extra[0] in ("zz", "~", "z/z"):
            ways.append(("path", lambda *a: pd_.resolve_path(doc, ptr(steps), *a)))
            ways.append(("relative path", lambda *a: pd_.resolve_path(doc, ptr(steps)[1:], *a)))
        for what, way in ways:
            got = way(default)
            if got is not default:
                fail("%s of missing %s in %s: got %r instead of the default", what, steps, before, got)
            try:
                got = way()
            except pd_.RefResolutionError:
                pass
            else:
                fail("%s of missing %s in %s: got %r", what, steps, before, got)
            ctx.label("missing")
    if repr(doc) != before:
        fail("%s got modified: %r", before, doc)
    # Columns are set as a whole.
    frames = [(s, d) for s, d in found.items() if isinstance(d, pd.DataFrame) and s and not through_ns(s)]
    for i, col in sets if frames else ():
        steps, df = frames[i % len(frames)]
        others = {c: df[c].copy() for c in df.columns if c != col}
        value = list(range(10, 10 + len(df)))
        try:
            pd_.set_jsonpointer(doc, ptr(steps + (col,)), value)
        except pd_.RefResolutionError as ex:
            fail("setting column %s of %s: %s", steps + (col,), before, ex)
        got = pd_.resolve_jsonpointer(doc, ptr(steps + (col,)))
        check_eq(list(got), value, "column %s set in %s", steps + (col,), before)
        if pd_.resolve_jsonpointer(doc, ptr(steps)) is not df:
            fail("%s got replaced when setting its %s", ptr(steps), col)
        check_eq([c for c in df.columns if c != col], list(others), "columns after setting %s", steps + (col,))
        for c, was in others.items():
            if not df[c].equals(was):
                fail("setting %s of %s changed column %s", steps + (col,), before, c)
        ctx.label("set column")
    kinds = {type(n).__name__ for n in found.values()} & {"DataFrame", "Series", "tuple", "SimpleNamespace"}
    ctx.label(*kinds)
    ctx.nontrivial(bool(kinds) and any(len(s) > 1 for s in found))


FACETS = [
    facet("parts", lambda: st.lists(parts(), max_size=5), check_parts, quick=4000),
    facet("bigparts", lambda: big_parts, check_parts, quick=400),
    facet("bigresolve", big_resolve_cases, check_resolve, quick=140, thorough=6000),
    facet("bigsetting", big_set_cases, check_setting, quick=400, thorough=15000),
    facet("resolve", resolve_cases, check_resolve, quick=5000),
    facet("rich", rich_cases, check_rich, quick=2000, thorough=30000),
    facet("setting", set_cases, check_setting, quick=4000),
    facet("schema", schemas, check_schema, quick=2000),
]
