"""C17: Components discover & use exactly the inputs and outputs their code refers to."""
import copy

from hypothesis import strategies as st

from checks import c10, c11
from vlib import boot  # noqa: F401
from vlib.core import check_eq, facet, fail

ID = "C17"
RULE = """
history: 1-25 components (named in various ways, also nested in assemblies) with generated functions referencing, renaming, reading and
writing input & output steps, and appending fixed paths; they are built & run for 1-5 times (failing at times), each one with
its own mappings (or none), with steps also referenced from outside of the functions in-between, and are
compared with the paths listed by the naive tree-model of C11 (which follows the reference
mapping of C10) and with the function run on that model.
Non-trivial: mappings renamed some step in effect, or it is built again under other mappings.
"""
ASSUMPTIONS = [
    "assemblies do not run their components (not implemented), so nothing is claimed for running them",
    "functions ask for a single root of inputs and a single one of outputs",
    "functions fail on unbuilt components only if they use their steps",
]
NAMES = ["f1", "f2", "calc_rate", "cfunc_g", "", "x.y", "func"]
KEYS = ["a", "b", "c", "A"]
ALIASES = ["A", "BB", "a", "x y", "A/B", "/R", ""]
FROMS = ["", "~.*", "NAME", "NAME/a", "NAME/a/b", "NAME/~[ab]", "~.*/a", "~.*/~.*/b", "/a", "root/a", "~(.)(.*)", "/root", "NAME/c"]
TOS = ["root", "/root", "/A/B", "A", "", "./x", "../y", "x/y", "\\g<0>_", "."]
OPS = ["ref", "ref", "use", "use", "use", "set", "fixed"]


@st.composite
def functions(draw, big=False):
    ops = []
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 30] if big else [1, 2, 3, 4, 5, 8]))
    for _ in range(n):
        side = draw(st.sampled_from(["inp", "out"]))
        path = draw(st.lists(st.sampled_from(KEYS), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=3))
        op = draw(st.sampled_from(OPS))
        arg = None
        if op == "set":
            if not path:
                op = "ref"
            arg = draw(st.sampled_from(ALIASES))
        if op == "fixed":
            arg = draw(st.sampled_from(["/fixed", "fix/ed", "f1/a"]))
        ops.append((side, op, path, arg))
    roots = draw(st.sampled_from([[None, None]] * 4 + [["root", None], [None, "/root"], ["x", "x"]]))
    return {"ops": ops, "roots": roots}


@st.composite
def histories(draw):
    comps = []
    big = draw(st.integers(0, 11)) == 0
    for i in range(draw(st.sampled_from([1, 1, 2, 3, 4] + [8, 25] * big))):
        fun = draw(functions(big))
        fun["name"] = draw(st.sampled_from(NAMES))
        # how it is named
        fun["given"] = draw(st.sampled_from(["given", "other", "prefix", "prefix", "plain"]))
        if fun["given"] == "plain" and fun["name"].startswith("cfunc_"):
            fun["given"] = "prefix"
        comps.append(fun)
    names = [c["name"] for c in comps]

    def rule():
        f = draw(st.sampled_from(FROMS)).replace("NAME", draw(st.sampled_from(names)))
        return f, draw(st.sampled_from(TOS))

    builds = []
    fails = draw(st.lists(st.integers(0, 4), max_size=2, unique=True)) if draw(st.integers(0, 3)) == 0 else []
    pool = [None] + [[rule() for _ in range(draw(st.integers(1, 4)))] for _ in range(2)]
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 5]))):
        builds.append((draw(st.sampled_from(pool)), draw(st.booleans()), draw(st.booleans()), draw(st.booleans())))
    return {
        "comps": comps,
        "builds": builds,
        "fails": fails,
        "nest": draw(st.sampled_from([None, None, "pairs", "shared", "deep"])),
    }


# --------------------------------------------------------------------------
class Fun(object):
    """What a function does, on real things or on those modeled."""

    def __init__(self, spec, get_root, fixed):
        self.spec, self.get_root, self.fixed = spec, get_root, fixed

    def run(self, vtree, *extra):
        seen = list(extra)
        for i, (side, op, path, arg) in enumerate(self.spec["ops"]):
            if op == "fixed":
                self.fixed(side, arg)
                continue
            step = self.get_root(side)
            steps = [step]
            for j, key in enumerate(path):
                if op == "set" and j == len(path) - 1:
                    self.rename(step, key, arg)
                step = self.child(step, key)
                steps.append(step)
            if op == "use":
                tree = vtree
                for s in steps[:-1]:
                    tree = tree[self.key(s)]
                if side == "inp":
                    seen.append(tree[self.key(steps[-1])])
                else:
                    tree[self.key(steps[-1])] = [i] + [s for s in seen if not isinstance(s, dict)]


class RealFun(Fun):
    key = staticmethod(lambda s: s)
    child = staticmethod(getattr)
    rename = staticmethod(setattr)


class ModelFun(Fun):
    key = staticmethod(lambda s: s.name)
    child = staticmethod(lambda node, key: node.child(key))

    @staticmethod
    def rename(node, key, alias):
        if key in node.kids:
            node.kids[key].name = alias
        else:
            node.child(key).name = alias


def real_cfunc(spec):
    def cfunc(comp, vtree, *extra, key=None):
        def root(side):
            i = side == "out"
            meth = comp.pout if i else comp.pinp
            path = spec["roots"][i]
            return meth() if path is None else meth(path)

        if key is not None:
            extra += (key,)
        RealFun(spec, root, lambda side, path: getattr(comp, "_" + side).append(path)).run(vtree, *extra)
        if spec.get("failing"):
            raise Failing()

    cfunc.__name__ = {"other": "cfunc_another", "prefix": "cfunc_" + spec["name"]}.get(spec["given"], spec["name"])
    return cfunc


class Failing(Exception):
    pass


class ModelComp(object):
    def __init__(self, spec, rules):
        self.spec = spec
        self.rules = c10.Rules(rules) if rules is not None else None
        self.roots = {}
        self.fixed = {"inp": [], "out": []}

    def root(self, side):
        if side not in self.roots:
            name = self.spec["roots"][side == "out"] or self.spec["name"]
            ctx = None if self.rules is None else (self.rules, [()])
            self.roots[side] = c11.Node.mapped(name, ctx)
        return self.roots[side]

    def add_fixed(self, side, path):
        self.fixed[side].append(path)

    def run(self, vtree, *extra):
        ModelFun(self.spec, self.root, self.add_fixed).run(vtree, *extra)

    def paths(self, side):
        return self.fixed[side] + (c11.listing(self.roots[side]) if side in self.roots else [])


class Anything(object):
    """Stands for the value-tree while discovering."""

    def __getitem__(self, key):
        return self

    def __setitem__(self, key, val):
        pass


def is_dict(x):
    return isinstance(x, dict)


def plant(model):
    """A value-tree having everything the component is going to access."""
    tree = {}
    for side in ("inp", "out"):
        if side not in model.roots:
            continue
        for i, path in enumerate(model.roots[side].walk()):
            t = tree
            for node in path[:-1]:
                t = t.setdefault(node.name, {})
                if not is_dict(t):
                    return None
            if path[-1].kids:
                if not is_dict(t.setdefault(path[-1].name, {})):
                    return None
            elif side == "inp":
                t.setdefault(path[-1].name, "%s#%s" % (path[-1].name, i))
    return tree


# --------------------------------------------------------------------------
def check_history(case, ctx):
    from pandalone.components import Assembly, FuncComponent
    from pandalone.mappings import pmods_from_tuples

    specs = case["comps"]
    specs = [dict(s) for s in specs]
    comps = [
        FuncComponent(real_cfunc(s), s["name"]) if s["given"] in ("given", "other") else FuncComponent(real_cfunc(s))
        for s in specs
    ]
    for comp, spec in zip(comps, specs):
        check_eq(comp._name, spec["name"], "name of component, of %s", spec["given"])

    # Unbuilt
    for comp, spec in zip(comps, specs):
        if any(op[1] != "fixed" for op in spec["ops"]):
            try:
                comp({})
            except Exception as ex:
                if not isinstance(ex, AttributeError):
                    fail("running unbuilt raised %r", ex)
            else:
                fail("run unbuilt")

    groups = [[i] for i in range(len(comps))]
    if case["nest"] == "pairs":
        groups = [[i for i in range(len(comps)) if i % 2 == k] for k in (0, 1)]
    elif case["nest"] == "shared":
        groups = [list(range(len(comps)))] * 2
    elif case["nest"] == "deep":
        # each assembly has the previous one & a component
        groups = [list(range(i + 1)) for i in range(len(comps))]
    groups = [g for g in groups if g]
    if case["nest"]:
        subs = []
        for g in groups:
            members = [comps[i] for i in g]
            if case["nest"] == "deep" and subs:
                members = [subs[-1], members[-1]]
            subs.append(Assembly(iter(members), name="sub"))
    else:
        subs = comps
    assembly = Assembly(iter(subs[-1:] if case["nest"] == "deep" else subs))
    check_eq(assembly._name, "assembly", "default name")

    last = None
    for ibuild, (rules, single, poke, tuples) in enumerate(case["builds"]):
        what = "build #%s with %s" % (ibuild, rules)
        pmod = None if rules is None else pmods_from_tuples(rules)
        before = repr(pmod)
        models = [ModelComp(s, rules) for s in specs]
        for m in models:
            m.run(Anything())

        if ibuild in case["fails"]:
            # A build failing midway leaves nothing for the next one.
            victim = specs[ibuild % len(specs)]
            victim["failing"] = True
            try:
                assembly._build(pmod)
            except Failing:
                ctx.label("failed")
            else:
                fail("build succeeded with a failing function")
            victim["failing"] = False

        if single:
            targets = comps
        else:
            targets = [assembly]
        for t in targets:
            check_eq(t._build(pmod) if pmod is not None else t._build(), None, "result of build")
        check_eq(repr(pmod), before, "mappings after %s", what)

        def verify(when, exact):
            for i, (comp, m) in enumerate(zip(comps, models)):
                for side in ("inp", "out"):
                    got = getattr(comp, "_" + side)
                    exp = m.paths(side)
                    if exact:
                        check_eq(sorted(got), sorted(exp), "%s-paths of component #%s %s", side, i, when)
                    else:
                        check_eq(sorted(set(got)), sorted(set(exp)), "%s-paths of component #%s %s", side, i, when)
                    check_eq([type(p) for p in got], [str] * len(got), "types of paths")

        verify("after " + what, True)
        for comp in comps:
            check_eq(list(comp._iter_validations()), [], "validations")
        if not single:
            check_eq(list(assembly._iter_validations()), [], "validations")
            for name, ass, members in [("assembly", assembly, range(len(comps)))] + (
                [("sub-assembly", s, g) for s, g in zip(subs, groups)] if case["nest"] else []
            ):
                for side in ("inp", "out"):
                    exp = sorted({p for i in members for p in models[i].paths(side)})
                    check_eq(getattr(ass, "_" + side), exp, "%s-paths of %s after %s", side, name, what)

        if any(n.name != n.orig for m in models for r in m.roots.values() for p in r.walk() for n in p):
            ctx.label("renamed")
            if rules is not None:
                ctx.nontrivial()
        if last is not None and last != (rules,):
            ctx.label("remapped")
            ctx.nontrivial()
        last = (rules,)

        # Run
        for i, (comp, m) in enumerate(zip(comps, models)):
            tree = plant(m)
            if tree is None:
                ctx.label("clash")
                continue
            mine = copy.deepcopy(tree)
            try:
                # The steps as discovered while building, with any renames.
                copy.deepcopy(m).run(mine, "extra")
            except (TypeError, KeyError):
                ctx.label("clash")
                continue
            if ibuild % 2:
                comp(tree, key="extra")
            else:
                comp(tree, "extra")
            check_eq(tree, mine, "value-tree after running component #%s of %s", i, what)
            ctx.label("run")
            if mine != plant(m):
                ctx.label("wrote")
        verify("after running, after " + what, False)

        if poke:
            # Steps referenced from outside do not affect what was discovered.
            for comp, m in zip(comps, models):
                for side in ("inp", "out"):
                    step = getattr(comp, "p" + side)
                    if side in m.roots:
                        check_eq(str(step()), m.roots[side].name, "the %s-step from outside", side)
                    step().poked.deep
            verify("after referenced from outside, after " + what, False)
            ctx.label("poked")


FACETS = [
    facet("history", histories, check_history, quick=6000),
]
