"""C11: path-steps over histories of references, assignments, tags, locks."""
import copy

from hypothesis import strategies as st

from checks import c10
from vlib import boot  # noqa: F401
from vlib.core import check_eq, facet, fail

ID = "C11"
RULE = """
history: 1-3 hierarchies (with or without mappings, some sharing the very same mappings)
and 3-24 operations (reference, rename by a string, graft a step of any hierarchy, refused
assignment, tag, untag, lock/fix/unlock, set schema, modify the values of a schema in place), all hierarchies compared with a naive
tree-model after every operation, along with the identity of every step referenced so far.
big: histories with tens of children, levels or operations.
df: hierarchies built from dataframes.
Non-trivial: a rename or graft applied on a step with children, tags, schema, lock or on a
hierarchy sharing its mappings (history); at least 2 rows (df).
"""
ASSUMPTIONS = [
    "a grafted copy is named after the attribute it was assigned to, as the docs of the constructor demand",
    "references held on steps replaced by a later assignment are unspecified, so they are not used",
]
LOCKED, CAN_RENAME, CAN_RELOCATE = 0, 1, 3


# --------------------------------------------------------------------------
# The model
# --------------------------------------------------------------------------
class Node(object):
    def __init__(self, orig, name, ctx):
        self.orig = orig
        self.name = name
        self.ctx = ctx  # (rules, active prefixes) or None
        self.kids = {}
        self.tags = set()
        self.lock = CAN_RELOCATE
        self.schema = {}
        self.obj = None  # the step last seen for it

    def child(self, key):
        kid = self.kids.get(key)
        if kid is None:
            kid = self.kids[key] = Node.mapped(key, self.ctx)
        return kid

    @staticmethod
    def mapped(key, ctx):
        name = key
        if ctx:
            rules, actives = ctx
            alias, actives, _, _ = rules.children(actives, key)
            ctx = (rules, actives) if actives else None
            if alias is not None:
                name = c10.unesc(alias)
        return Node(key, name, ctx)

    def copy(self):
        new = Node(self.orig, self.name, self.ctx)
        new.tags = set(self.tags)
        new.lock = self.lock
        new.schema = copy.deepcopy(self.schema)
        new.kids = {k: v.copy() for k, v in self.kids.items()}
        return new

    def lockable(self, state, name=None):
        name = self.name if name is None else name
        if name == self.orig or state >= CAN_RELOCATE:
            return True
        return state == CAN_RENAME and "/" not in name

    def walk(self, prefix=()):
        prefix += (self,)
        yield prefix
        for kid in self.kids.values():
            for path in kid.walk(prefix):
                yield path


def join(names):
    stack = []
    for name in names:
        for part in (name[:-1] if len(name) > 1 and name[-1] == "/" else name).split("/"):
            stack = c10.push(stack, part)
    return "/".join(stack) if stack else "."


def listing(root, tag=None):
    return sorted(
        {
            join([n.name for n in path])
            for path in root.walk()
            if (tag in path[-1].tags if tag else not path[-1].kids)
        }
    )


# --------------------------------------------------------------------------
# Generators
# --------------------------------------------------------------------------
KEYS = ["a", "b", "c", "dd", "B1"]
ALIASES = ["A", "BB", "a", "b", "x y", "A/B", "/R", "/R/S/T", "F/", "FG/", "", ".", "..", "../..", "../../../Z", "A/B/C", "a.b"]
RULES = [
    ("", "root"), ("", "/root"), ("", "x/y"), ("/a", "A"), ("/a", "A/AA"), ("/b", "/R/B"),
    ("/a/b", "AB"), ("/~[ab]", "\\g<0>_"), ("/~(.)", "m_\\1"), ("/a/~.*", "any"),
    ("/~.*/b", "sub/b"), ("/c", "a"), ("/~.*/~.*/a", "DEEP"), ("r", "ROOT"), ("r/a", "ra"),
    ("/dd/B1", "/ABS"), ("/b/c", ""), ("/dd", "D D"),
]
TAGS = ["t", "u", "inp"]
BAD = [12, 0, None, 3.5, True, [], ["x"], {"x": 1}, (1, 2), b"x"]
SCHEMA = [("type", "object"), ("title", "T"), ("minimum", 3), ("required", ["x"]), ("enum", [1, 2]),
          ("patternProperties", {"a": {"enum": [1]}}), ("allOf", [{"enum": [3]}, {}]), ("items", {"type": "null"})]


@st.composite
def histories(draw):
    rules = [
        draw(st.lists(st.sampled_from(RULES), max_size=6)) for _ in range(draw(st.integers(1, 2)))
    ]
    roots = []
    for _ in range(draw(st.integers(1, 3))):
        maps = draw(st.sampled_from([None, 0, 0, len(rules) - 1]))
        how = draw(st.sampled_from(["step", "Pstep", "tuples"])) if maps is not None else "Pstep"
        name = draw(st.sampled_from(["", "", "", "r", "/foo"]))
        alias = draw(st.sampled_from([None, None, None, None, None, "Q"]))
        tags = draw(st.lists(st.sampled_from(TAGS), max_size=2)) if draw(st.integers(0, 3)) == 0 else []
        roots.append((name, maps, how, alias, tags))

    def paths(n=3):
        return draw(st.lists(st.sampled_from(KEYS[:n]), max_size=3))

    ops = []
    n = draw(st.sampled_from([2, 3, 5]))
    for _ in range(draw(st.integers(3, 24))):
        kind = draw(
            st.sampled_from(
                ["ref"] * 5 + ["set"] * 4 + ["graft"] * 2
                + ["bad", "tag", "tag", "untag", "lock", "lock", "lock", "schema", "schema", "deepen"]
            )
        )
        h = draw(st.integers(0, len(roots) - 1))
        path = paths(n)
        key = draw(st.sampled_from(KEYS[:n]))
        if kind == "ref":
            ops.append((kind, h, path + [key]))
        elif kind == "set":
            ops.append((kind, h, path, key, draw(st.sampled_from(ALIASES))))
        elif kind == "graft":
            src = draw(st.integers(0, len(roots) - 1))
            ops.append((kind, h, path, key, src, paths(n)))
        elif kind == "bad":
            ops.append((kind, h, path, key, draw(st.sampled_from(BAD))))
        elif kind == "tag":
            tags = draw(st.lists(st.sampled_from(TAGS), max_size=2))
            ops.append((kind, h, path, tags))
        elif kind == "untag":
            ops.append((kind, h, path, draw(st.sampled_from(TAGS))))
        elif kind == "lock":
            how = draw(st.sampled_from(["_lock", "_fix", 0, 1, 3]))
            ops.append((kind, h, path, how))
        elif kind == "deepen":
            ops.append((kind, h, path, draw(st.sampled_from(["x", "y"]))))
        else:
            ops.append((kind, h, path) + draw(st.sampled_from(SCHEMA)))
    return {"rules": rules, "roots": roots, "ops": ops}


@st.composite
def big_histories(draw):
    """Steps with many children, deep paths, long histories."""
    case = draw(histories())
    kind = draw(st.sampled_from(["wide", "deep", "long"]))
    ops = case["ops"]
    nroots = len(case["roots"])
    if kind == "wide":
        n = draw(st.sampled_from([12, 35, 60]))
        h, path = draw(st.integers(0, nroots - 1)), draw(st.lists(st.sampled_from(KEYS[:2]), max_size=1))
        wide = [("ref", h, path + ["k%i" % i]) for i in range(n)]
        at = draw(st.integers(0, len(ops)))
        some = st.integers(0, n - 1).map("k%i".__mod__)
        more = []
        for _ in range(draw(st.integers(1, 8))):
            k = draw(st.sampled_from(["set", "tag", "lock", "graft"]))
            if k == "set":
                more.append((k, h, path, draw(some), draw(st.sampled_from(ALIASES))))
            elif k == "tag":
                more.append((k, h, path + [draw(some)], ["t", "u"]))
            elif k == "lock":
                more.append((k, h, path + [draw(some)], draw(st.sampled_from(["_lock", "_fix"]))))
            else:
                more.append((k, h, [], draw(st.sampled_from(KEYS)), h, path))
        case["ops"] = ops[:at] + wide + more + ops[at:]
    elif kind == "deep":
        h = draw(st.integers(0, nroots - 1))
        path = draw(st.lists(st.sampled_from(KEYS), min_size=5, max_size=30))
        case["ops"] = [("ref", h, path)] + ops
        for _ in range(draw(st.integers(1, 6))):
            i = draw(st.integers(0, len(path) - 1))
            k = draw(st.sampled_from(["set", "set", "tag", "lock", "graft"]))
            if k == "set":
                op = (k, h, path[:i], path[i], draw(st.sampled_from(ALIASES)))
            elif k == "tag":
                op = (k, h, path[:i], ["t"])
            elif k == "lock":
                op = (k, h, path[:i], draw(st.sampled_from(["_lock", "_fix"])))
            else:
                op = (k, draw(st.integers(0, nroots - 1)), [], draw(st.sampled_from(KEYS)), h, path[:i])
            case["ops"].append(op)
    else:
        # Renamed, locked & tagged again and again.
        case["ops"] = [o for o in ops if o[0] != "graft"] * draw(st.integers(2, 5))
    return case


# --------------------------------------------------------------------------
# The checks
# --------------------------------------------------------------------------
def walk_to(step, node, path):
    """Reference (i.e. maybe create) a step both in the code and in the model."""
    for key in path:
        step = getattr(step, key)
        node = node.child(key)
    return step, node


def compare(what, step, node):
    from pandalone.mappings import Pstep

    if not isinstance(step, Pstep):
        fail("%s: not a step but %r", what, step)
    if node.obj is not None and node.obj is not step:
        fail("%s: another object than the step referenced before", what)
    node.obj = step
    check_eq(str(step), node.name, "%s: string of step", what)
    check_eq(step._orig, node.orig, "%s: original name", what)
    check_eq(set(step._tags), node.tags, "%s: tags", what)
    check_eq(step._locked, node.lock, "%s: lock", what)
    schema = step._schema.todict() if step._schema_exists() else {}
    check_eq(schema, node.schema, "%s: schema", what)
    check_eq(sorted(step._steps(keys=True)), sorted(node.kids), "%s: children", what)
    missing = set(node.kids) - set(dir(step))
    if missing:
        fail("%s: children %s not in dir()", what, missing)
    for key, kid in node.kids.items():
        compare("%s.%s" % (what, key), getattr(step, key), kid)


def compare_listings(what, step, node):
    check_eq(step._paths(), listing(node), "%s: paths", what)
    for tag in TAGS:
        check_eq(step._paths(tag=tag), listing(node, tag), "%s: paths tagged %s", what, tag)
    exp = sorted(
        (join([n.orig for n in path]), path[-1].name) for path in node.walk()
    )
    check_eq(sorted(step._derrive_map_tuples()), exp, "%s: map tuples", what)
    names = [n.name for path in node.walk() for n in path[1:]]
    if all(n and not n.startswith(".") for n in names):
        exp = sorted(
            {
                "/".join(
                    n.name if n.name == n.orig else "(%s-->%s)" % (n.orig, n.name)
                    for n in path
                )
                for path in node.walk()
                if not path[-1].kids
            }
        )
        check_eq(step._paths(with_orig=True), exp, "%s: paths with originals", what)


def check_history(case, ctx):
    from pandalone.mappings import Pstep, pmods_from_tuples

    pmods = [pmods_from_tuples(r) for r in case["rules"]]
    pmods_before = [repr(p) for p in pmods]
    models = [c10.Rules(r) for r in case["rules"]]
    roots = []
    for name, imap, how, alias, tags in case["roots"]:
        if imap is None:
            step = Pstep(name, None, alias, *tags)
            node = Node(name, name, None)
        else:
            if how == "step":
                step = pmods[imap].step(name, alias)
            elif how == "tuples":
                step = Pstep(name, list(case["rules"][imap]), alias, *tags)
            else:
                step = Pstep(name, pmods[imap], alias, *tags)
            node = Node.mapped(name, (models[imap], [()]))
        if alias is not None:
            node.name = alias
        if how != "step":
            node.tags = set(tags)
        roots.append((step, node))

    def verify(what):
        for i, (step, node) in enumerate(roots):
            where = "after %s, in hierarchy #%s%r" % (what, i, case["roots"][i])
            compare(where, step, node)
            compare_listings(where, step, node)
        for p, before in zip(pmods, pmods_before):
            check_eq(repr(p), before, "mappings after %s", what)

    verify("construction")
    shared = len([r for r in case["roots"] if r[1] == 0]) > 1
    for op in case["ops"]:
        kind, h, path = op[:3]
        step, node = walk_to(roots[h][0], roots[h][1], path)
        if kind == "ref":
            again, _ = walk_to(roots[h][0], roots[h][1], path)
            if again is not step:
                fail("referencing %s twice gave different steps", path)
        elif kind == "set":
            key, alias = op[3:]
            old = node.kids.get(key)
            refused = old is not None and not old.lockable(old.lock, alias)
            try:
                setattr(step, key, alias)
                if refused:
                    fail("%r: renamed a locked step", op)
            except ValueError:
                if not refused:
                    raise
                ctx.label("refused-rename")
            if not refused:
                if old is not None:
                    rich = old.kids or old.tags or old.schema or old.lock != CAN_RELOCATE
                    ctx.nontrivial(rich or shared)
                    ctx.label("rename-rich" if rich else "rename")
                    old.name = alias
                    old.obj = None
                else:
                    ctx.label("set-new")
                    kid = Node.mapped(key, node.ctx)
                    kid.name = alias
                    node.kids[key] = kid
        elif kind == "graft":
            key, src, src_path = op[3:]
            sstep, snode = walk_to(roots[src][0], roots[src][1], src_path)
            setattr(step, key, sstep)
            new = snode.copy()
            new.orig = new.name = key
            node.kids[key] = new
            ctx.nontrivial(bool(snode.kids or snode.tags or snode.schema))
            ctx.label("graft-rich" if snode.kids else "graft")
        elif kind == "bad":
            try:
                setattr(step, op[3], op[4])
            except AssertionError:
                pass
            else:
                fail("assigning %r was not refused", op[4])
        elif kind == "tag":
            if step._tag(*op[3]) is not step:
                fail("_tag() did not return the step")
            node.tags.update(op[3])
        elif kind == "untag":
            if step._tag_remove(op[3]) is not step:
                fail("_tag_remove() did not return the step")
            node.tags.discard(op[3])
        elif kind == "lock":
            how = op[3]
            state = {"_lock": LOCKED, "_fix": CAN_RENAME}.get(how, how)
            ok = node.lockable(state)
            try:
                if how == state:
                    step._locked = state
                elif getattr(step, how) is not step:
                    fail("%s did not return the step", how)
                if not ok:
                    fail("%r: locked a step mapped to %r", op, node.name)
                node.lock = state
            except ValueError:
                if ok:
                    raise
                ctx.label("refused-lock")
        elif kind == "deepen":
            # Modify the values of the schema in place.
            for k in node.schema:
                deepen(getattr(step._schema, k), op[3])
                deepen(node.schema[k], op[3])
                ctx.label("deepen")
        else:
            setattr(step._schema, op[3], copy.deepcopy(op[4]))
            node.schema[op[3]] = copy.deepcopy(op[4])
        verify(op)


def deepen(value, token):
    """Adds a token in every list and dictionary at any depth of a schema-value."""
    if isinstance(value, list):
        for v in value:
            deepen(v, token)
        value.append(token)
    elif isinstance(value, dict):
        for v in value.values():
            deepen(v, token)
        value[token] = {"title": token}


@st.composite
def frames(draw):
    keys = draw(st.lists(st.sampled_from(KEYS + ["e", "f1"]), min_size=1, max_size=6, unique=True))
    names = [draw(st.sampled_from(["A", "BB", "CO2 [g/km]", "x y", "a", "A/B"])) for _ in keys]
    attrs = draw(st.lists(st.sampled_from(["renames", "unit", "rank"]), max_size=2, unique=True))
    values = [
        [draw(st.sampled_from(["x", 1, 2.5, ["l", "m"], "", False])) for _ in attrs] for _ in keys
    ]
    return {"keys": keys, "names": names, "attrs": attrs, "values": values,
            "col": draw(st.sampled_from(["names", "title"]))}


def check_frame(case, ctx):
    import pandas as pd
    from pandalone.mappings import pstep_from_df

    keys, names = case["keys"], case["names"]
    df = pd.DataFrame(
        [[n] + v for n, v in zip(names, case["values"])],
        index=["/" + k for k in keys],
        columns=[case["col"]] + case["attrs"],
        dtype=object,
    )
    before = df.copy()
    if case["col"] == "names":
        p = pstep_from_df(df)
    else:
        p = pstep_from_df(df, name_col=case["col"])
    if not df.equals(before):
        fail("the dataframe given got modified")
    check_eq(sorted(p._steps(keys=True)), sorted(keys), "steps")
    for key, name, values in zip(keys, names, case["values"]):
        step = getattr(p, key)
        check_eq((str(step), step._orig), (name, key), "step %s", key)
        if hasattr(step, "_" + case["col"]):
            fail("the column of names became an attribute of step %s", key)
        for attr, value in zip(case["attrs"], values):
            got = getattr(step, "_" + attr)
            if got != value or type(got) is not type(value):
                fail("attribute _%s of step %s: %r instead of %r", attr, key, got, value)
    check_eq(p._paths(), sorted({"/" + n for n in names}), "paths")
    ctx.nontrivial(len(keys) > 1)


FACETS = [
    facet("history", histories, check_history, quick=6000),
    facet("big", big_histories, check_history, quick=240, thorough=6000),
    facet("df", frames, check_frame, quick=800),
]
