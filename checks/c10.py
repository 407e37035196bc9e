"""C10: path mappings rename and relocate paths exactly as their rules say.

The oracle is a model that keeps *no* mapping-tree: it tracks, per mapped step,
the set of rule-prefixes matching the original steps so far (ordered by
precedence), picks the winning rule by the documented precedence, expands it
and applies it on a stack of the steps produced so far.
"""
import re

from hypothesis import strategies as st

from vlib import boot  # noqa: F401
from vlib.core import check_eq, facet, fail

ID = "C10"
RULE = (
    "A case is a list of (from, to) rules (10-60 in many) and a list of paths (up to 12 steps there); non-trivial when "
    "at least two rules applied on the same path, or a rule was chosen among "
    "several applicable ones, or a rule re-rooted/relocated a path of many steps."
)


# --------------------------------------------------------------------------
# The model
# --------------------------------------------------------------------------
def unesc(part):
    return part.replace("~1", "/").replace("~0", "~")


def esc(part):
    return part.replace("~", "~0").replace("/", "~1")


def split(path):
    return [unesc(p) for p in path.split("/")]


class Rules(object):
    """The rules as `{prefix: alias}`, plus the order of regex-prefixes."""

    def __init__(self, rules):
        self.alias = {}
        self.clock = {}  # prefix --> when it was last mentioned
        n = 0
        for f, t in rules:
            if f is None or t is None or (f, t) == ("", ""):
                continue
            prefix = ()
            for part in split(f):
                if part.startswith("~"):
                    prefix += (("re", part[1:]),)
                else:
                    prefix += (("is", part),)
                n += 1
                self.clock[prefix] = n
            self.alias[prefix] = t

    def children(self, actives, step):
        """
        :param actives:
            matching prefixes, from the weakest to the strongest
        :return: (alias or None, next actives, number of candidate rules)
        """
        kids = {}  # key --> prefixes, from weakest to strongest
        order = []
        for prefix in actives:
            mine = [
                p
                for p in self.clock
                if len(p) == len(prefix) + 1 and p[: len(prefix)] == prefix
            ]
            mine.sort(key=self.clock.get)
            keys = [p[-1] for p in mine]
            order = [k for k in order if k not in keys] + keys
            for p in mine:
                kids.setdefault(p[-1], []).append(p)

        nexts = []
        cands = []
        for key in order:
            if key[0] != "re":
                continue
            m = re.fullmatch(key[1], step)
            if not m:
                continue
            nexts += kids[key]
            cands += [
                (m.expand(self.alias[p]), "\\" in self.alias[p])
                for p in kids[key][-1:] + kids[key][:-1][::-1]
                if p in self.alias
            ][:1]
        exact = kids.get(("is", step), [])
        nexts += exact
        cands += [
            (self.alias[p], False) for p in exact[::-1] if p in self.alias
        ][:1]
        alias, expanded = cands[-1] if cands else (None, False)
        return alias, nexts, len(cands), expanded


def push(stack, step):
    """A dotted, empty or plain step, after those in the `stack`."""
    if step == "":
        return [""]
    if step == ".":
        return stack
    if step == "..":
        if not stack or stack[-1] == "..":
            return stack + [".."]
        if stack == [""]:
            return stack
        return stack[:-1]
    return stack + [step]


def model_map(rules, path):
    """:return: (mapped, number of rules applied, max candidates, unspecified)"""
    if len(path) > 1 and path.endswith("/"):
        path = path[:-1]
    stack = []
    actives = [()]
    applied = most = 0
    relocs = False
    unspecified = False
    for step in split(path):
        alias, actives, ncands, expanded = rules.children(actives, step)
        most = max(most, ncands)
        if alias is None:
            stack = push(stack, step)
            continue
        applied += 1
        if expanded and ("/" in step or "~" in step):
            # Captured groups would need escaping.
            unspecified = True
        if alias.startswith("."):
            stack = push(stack, step)
        if len(alias) > 1 and alias.endswith("/"):
            alias = alias[:-1]
        parts = split(alias)
        relocs = relocs or len(parts) > 1
        for part in parts:
            stack = push(stack, part)
    mapped = "/".join(esc(s) for s in stack) if stack else "."
    return mapped, applied, most, relocs, unspecified


# --------------------------------------------------------------------------
# Generators
# --------------------------------------------------------------------------
NAMES = ["a", "b", "c", "ab", "aa", "a1", "b12", "ba"]
ODD_NAMES = ["", ".", "..", "a~1b", "~0a", "B c", "Ä", "a.b"]
#: (regex, number of groups)
REGEXES = [
    ("a.*", 0), ("(a)(.*)", 2), (".*", 0), ("(.*)", 1), ("a(\\d*)", 1),
    ("[ab]+", 0), ("(a|b)(\\w*)", 2), ("a", 0), ("b?", 0), ("(?P<n>\\w)\\d+", 1),
    ("(x)?(.+)", 2), ("\\w", 0), ("a|b", 0), ("(a|ab)(c|bcd)?", 2), ("(?i)AB", 0), ("", 0),
]


def _alias(draw, ngroups):
    def step():
        kind = draw(st.integers(0, 9))
        if ngroups is not None and kind < 5:
            refs = ["\\g<0>"] + ["\\%d" % (i + 1) for i in range(ngroups)]
            ref = draw(st.sampled_from(refs))
            return draw(st.sampled_from(["%s", "P%s", "%sS", "x%s.y"])) % ref
        if kind == 9:
            return draw(st.sampled_from(["q~1r", "~0", "W z", "..", ".", "a"]))
        return draw(st.sampled_from(["A", "BB", "C1", "a", "b"]))

    form = draw(st.sampled_from("rrrrRRRaaAuuUdDfFxezs"))
    s = [step() for _ in range(3)]
    return {
        "r": s[0],
        "R": "/".join(s[:2]),
        "a": "/" + s[0],
        "A": "/" + "/".join(s[:2]),
        "u": "../" + s[0],
        "U": draw(st.sampled_from(["../../", "../../../", "../../../../"])) + s[0],
        "d": "./" + s[0],
        "D": "." + s[0],
        "f": s[0] + "/",
        "F": "/".join(s) + "/",
        "x": s[0] + "/../" + s[1],
        "e": "..",
        "z": "",
        "s": draw(st.sampled_from(["/", ".", s[0] + "//" + s[1], "//" + s[0]])),
    }[form]


@st.composite
def cases(draw, many=False):
    pool = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        pool = pool + [draw(st.sampled_from(ODD_NAMES))]
    regs = draw(st.lists(st.sampled_from(REGEXES), min_size=1, max_size=4))
    rooted = draw(st.sampled_from([True, True, True, False]))
    rules = []
    for _ in range(draw(st.sampled_from([10, 25, 60]) if many else st.integers(0, 9))):
        if rules and draw(st.integers(0, 3)) == 0:
            # Extend, or override, an existing rule.
            base = draw(st.sampled_from(rules))[0]
            if base is None or draw(st.integers(0, 5)) == 0:
                continue
            if draw(st.booleans()):
                f, ngroups = base, 0 if "~" in base.rsplit("/", 1)[-1] else None
                rules.append((f, _alias(draw, ngroups)))
                continue
        else:
            base = "" if rooted or draw(st.booleans()) else None
        ngroups = None
        parts = [] if base is None else [base]
        for _ in range(draw(st.sampled_from([1, 2, 3, 5, 8] if many else [1, 1, 1, 2, 2, 3, 0]))):
            if draw(st.integers(0, 9)) < 6:
                parts.append(draw(st.sampled_from(pool)))
                ngroups = None
            else:
                regex, ngroups = draw(st.sampled_from(regs))
                parts.append("~" + regex)
        if base is not None and len(parts) == 1:
            ngroups = 0 if "~" in base.rsplit("/", 1)[-1] else None
        f = "/".join(parts)
        if not parts:
            f = ""
        rules.append((f, _alias(draw, ngroups)))
    if draw(st.integers(0, 11)) == 0:
        bad = draw(
            st.sampled_from([("", ""), (None, "A"), ("/a", None), (None, None)])
        )
        rules.insert(draw(st.integers(0, len(rules))), bad)

    names = pool + draw(st.lists(st.sampled_from(NAMES), max_size=2))
    if draw(st.integers(0, 3)) == 0:
        # Almost a name.
        name = draw(st.sampled_from(names))
        names.append(draw(st.sampled_from(["%s\n", "%s ", " %s", "\n%s", "%s\r", "%sx", "%s.", "%s\u0301", "%s\0", "%s~01"])) % name)
        names.append(name.upper())
    paths = []
    for _ in range(draw(st.integers(1, 6))):
        path = "/".join(
            draw(st.lists(st.sampled_from(names), min_size=1, max_size=12 if many else 4))
        )
        if rooted or draw(st.booleans()):
            path = "/" + path
        if draw(st.integers(0, 9)) == 0:
            path += "/"
        paths.append(path)
    if draw(st.integers(0, 3)) == 0:
        paths.append(draw(st.sampled_from(["", "/", "//a"])))
    if many and len(rules) > 1:
        # Paths along some rules
        for f, _ in draw(st.lists(st.sampled_from(rules), min_size=1, max_size=3)):
            steps = [draw(st.sampled_from(names)) if p.startswith("~") else p for p in (f or "").split("/")]
            paths.append("/".join(steps + draw(st.lists(st.sampled_from(names), max_size=2))))
    return {"rules": rules, "paths": paths}


# --------------------------------------------------------------------------
# The checks
# --------------------------------------------------------------------------
def check_mapping(case, ctx):
    from pandalone.mappings import pmods_from_tuples

    rules, paths = case["rules"], case["paths"]
    given = list(rules)
    pmods = pmods_from_tuples(rules)
    check_eq(rules, given, "rules given got modified")
    before = repr(pmods)
    model = Rules(rules)

    got = []
    for path in paths:
        exp, applied, most, relocs, unspecified = model_map(model, path)
        res = pmods.map_path(path)
        got.append(res)
        if unspecified:
            ctx.label("unspecified")
            continue
        check_eq(res, exp, "rules %r map %r", rules, path)
        ctx.nontrivial(applied > 1 or most > 1 or (relocs and path.count("/") > 1))
        ctx.label("applied%s" % min(applied, 4), "cands%s" % min(most, 3))
        if relocs:
            ctx.label("relocated")

    # Mapping changes nothing, neither on the mappings nor on later results.
    check_eq(repr(pmods), before, "mappings modified")
    check_eq(pmods.map_paths(paths), got, "mapping the paths again")
    check_eq(pmods, pmods_from_tuples(given), "mappings vs a fresh copy")


def check_descend(case, ctx):
    """Descending step by step tells the winning rule at any depth."""
    from pandalone.mappings import pmods_from_tuples

    rules = case["rules"]
    pmods = pmods_from_tuples(rules)
    before = repr(pmods)
    model = Rules(rules)
    for path in case["paths"]:
        pmod, actives = pmods, [()]
        for i, step in enumerate(split(path)):
            alias, actives, ncands, _ = model.children(actives, step)
            check_eq(pmod.alias(step), alias, "alias of %r in %r", step, path)
            held = repr(pmod)
            child, calias = pmod.descend(step)
            check_eq(repr(pmod), held, "descended mappings modified")
            check_eq(calias, alias, "alias when descending %r in %r", step, path)
            check_eq(child is None, not actives, "descending %r of %r", step, path)
            ctx.label("cands%s" % min(ncands, 3))
            if child is None:
                break
            ctx.nontrivial(i > 1 or ncands > 1)
            pmod = child
    check_eq(repr(pmods), before, "mappings modified")


FACETS = [
    facet("mapping", cases, check_mapping, quick=12000),
    facet("many", lambda: cases(True), check_mapping, quick=1500),
    facet("descend", cases, check_descend, quick=5000),
]
