"""C19: Small text and value converters obey their stated laws for every input."""
import logging
import re
from collections import UserList, deque, namedtuple

import numpy as np
from hypothesis import strategies as st

from vlib import boot  # noqa: F401
from vlib.core import check_eq, facet, fail

ID = "C19"
RULE = """
booleans: documented words in any case & padding, other texts, non-texts.
lists: scalars, strings, sequences, maps, sets & others, nested.
units: names & units of any characters in all the notations, and malformed ones.
names: identifiers in camel, snake & mixed cases, any texts.
texts: docstrings for their first line; pairs for formatting.
log: series of texts written into log-writers of various levels and loggers (also by print()).
Non-trivial: cased or padded words (booleans); a sequence of 1+ items (lists); units given (units); some letters change (names);
more than a line (texts); more than a record (log).
"""
ASSUMPTIONS = [
    "bytes are sequences of integers, in Python, so they are not tried as scalars",
    "texts written to the log end in up to one line-ending",
]
TRUE = ["yes", "true", "on"]
FALSE = ["no", "false", "off", "0", ""]
BLANKS = ["", "", " ", " \t" * 300, "\t", "\n ", "  ", "\r\n", "\u3000"]


class Obj(object):
    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return "Obj(%s)" % self.truth


class Str(str):
    pass


class Bad(object):
    def __str__(self):
        return "yes"


@st.composite
def bool_cases(draw):
    kind = draw(st.sampled_from(["word", "word", "text", "obj"]))
    if kind == "word":
        w = draw(st.sampled_from(TRUE + FALSE))
        caps = draw(st.lists(st.booleans(), min_size=len(w), max_size=len(w)))
        w = "".join(c.upper() if u else c for c, u in zip(w, caps))
        return ("text", draw(st.sampled_from(BLANKS)) + w + draw(st.sampled_from(BLANKS)))
    if kind == "text":
        return ("text", draw(st.one_of(
            st.sampled_from(["12", "00", "0.0", "y", "n", "none", "yes no", "offf", "o n", "-0", "1", "t", "truee", "nope", "none", "f", "_"]),
            st.text(max_size=4), st.sampled_from(TRUE + FALSE).map(lambda w: w * 20), st.text("yesnotrufal0 ", max_size=5))))
    return ("obj", draw(st.sampled_from(["None", "0", "1", "True", "False", "2.5", "0.0", "[]", "[0]", "{}", "{'a': 0}", "()",
                                         "('no',)", "Obj(True)", "Obj(False)", "Bad()", "float('nan')", "object"])))


def check_bool(case, ctx):
    from pandalone.utils import obj2bool, str2bool

    kind, v = case
    if kind == "text":
        exp = v.strip().lower() not in FALSE
        for fun in (str2bool, obj2bool):
            for cls in (str, Str, np.str_):
                got = fun(cls(v))
                if got is not exp:
                    fail("%s(%s(%r)) is %r", fun.__name__, cls.__name__, v, got)
        core = v.strip().lower()
        if core in TRUE and not str2bool(v):
            fail("%r is not true", v)
        ctx.label("word" if core in TRUE + FALSE else "text")
        ctx.nontrivial(core in TRUE + FALSE and v != core)
        return
    v = eval(v)
    try:
        got = str2bool(v)
    except ValueError:
        pass
    else:
        fail("str2bool(%r) is %r", v, got)
    got = obj2bool(v)
    if got is not bool(v):
        fail("obj2bool(%r) is %r", v, got)
    ctx.label("obj")


# --------------------------------------------------------------------------
NT = namedtuple("NT", "x y")
ITEMS = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.text("ab,", max_size=3), st.just(float("nan"))),
    lambda s: st.one_of(st.lists(s, max_size=3), st.lists(s, max_size=3).map(tuple), st.dictionaries(st.text("ab", max_size=1), s, max_size=2)),
    max_leaves=5,
)


@st.composite
def list_cases(draw):
    kind = draw(st.sampled_from(["item", "list", "list", "tuple", "range", "deque", "UserList", "nt", "set", "iter", "array", "dict", "str"]))
    items = draw(st.lists(ITEMS, max_size=4)) * draw(st.sampled_from([1, 1, 1, 1, 4, 30, 500]))
    if kind == "item":
        items = draw(ITEMS)
    return (kind, items)


def check_list(case, ctx):
    import numpy as np
    from pandalone.utils import as_list

    kind, items = case
    n = 0 if not isinstance(items, list) else len(items)
    obj = {
        "item": lambda: items,
        "list": lambda: list(items),
        "tuple": lambda: tuple(items),
        "range": lambda: range(n),
        "deque": lambda: deque(items),
        "UserList": lambda: UserList(items),
        "nt": lambda: NT(items, n),
        "set": lambda: set(range(n)),
        "iter": lambda: iter(items),
        "array": lambda: np.arange(n),
        "dict": lambda: dict.fromkeys(range(n)),
        "str": lambda: ", ".join("a" * n),
    }[kind]()
    text = repr(obj)
    got = as_list(obj)
    if type(got) is not list:
        fail("as_list(%r) is %r", obj, got)
    if isinstance(obj, (list, tuple, range, deque, UserList)):
        exp = [i for i in obj]
        if got is obj:
            fail("the list given got returned, not a copy")
        ctx.nontrivial(len(exp) > 0)
    else:
        exp = [obj]
    if len(got) != len(exp) or any(a is not b and not (isinstance(a, int) and a == b) for a, b in zip(got, exp)):
        fail("as_list(%r) is %r", obj, got)
    check_eq(repr(obj), text, "object given")
    got.append("extra")
    check_eq(repr(obj), text, "object given, when the list is modified")
    ctx.label(kind)


# --------------------------------------------------------------------------
NAME_CHARS = "abV 1.,_()%/^{}]>\t*é-"
UNIT_CHARS = "kgmV/ 1^*().,-%é°{}$_\u00b5\u03bc\u2126\u212b\u00b2\ufb01\u0301"


@st.composite
def unit_cases(draw):
    kind = draw(st.sampled_from(["[]", "[]", "<>", "<>", "none", "bad", "any"]))
    name = draw(st.text(NAME_CHARS, max_size=8))
    name = name * draw(st.sampled_from([1, 1, 1, 1, 9, 200]))
    units = draw(st.sampled_from([1, 1, 1, 1, 9, 200])) * draw(st.text(UNIT_CHARS + ("<>" if kind == "[]" else "[]" if kind == "<>" else ""), max_size=7))
    gap = draw(st.sampled_from(["", " ", "   ", "\t"]))
    pad = draw(st.sampled_from(["", "", " ", "\t "]))
    if kind == "bad":
        text = name + gap + draw(st.sampled_from(["[%s", "<%s", "[%s>", "<%s]", "[%s]x", "<%s>x", "[%s][k]", "<%s> <k>", "<%s>>", "[%s]]", "[<%s]>"])) % units
    elif kind == "any":
        text = draw(st.text("ab<>[]() ", max_size=10))
    else:
        text = name + gap + {"[]": "[%s]", "<>": "<%s>", "none": ""}[kind] % (() if kind == "none" else (units,)) + pad
    return {"kind": kind, "text": draw(st.sampled_from(["", "", " "])) + text}


def model_units(text):
    """Parse char by char"""
    t = text.strip()
    starts = [i for i, c in enumerate(t) if c in "[<"]
    if not starts:
        return (t, None)
    i = starts[0]
    close = {"[": "]", "<": ">"}[t[i]]
    if t.find(close, i) != len(t) - 1:
        return None
    return (t[:i].rstrip(), t[i + 1 : -1])


def check_units(case, ctx):
    from pandalone.pandata import parse_value_with_units

    text = case["text"]
    got = parse_value_with_units(text)
    exp = model_units(text)
    if exp is None:
        check_eq(got, None, "malformed %r", text)
        ctx.label("malformed")
        return
    if got is None:
        fail("%r is not parsed", text)
    check_eq(tuple(got), exp, "parsed %r", text)
    check_eq((got.name, got.units), exp, "parsed %r", text)
    if exp[1] is not None:
        for fmt in ("%s [%s]", "%s<%s>"):
            if not set(exp[1]) & set(fmt):
                check_eq(tuple(parse_value_with_units(fmt % exp)), exp, "parsed again %r as %s", text, fmt)
    ctx.label("units" if exp[1] is not None else "plain")
    ctx.nontrivial(bool(exp[1]))


# --------------------------------------------------------------------------
@st.composite
def name_cases(draw):
    if draw(st.integers(0, 4)) == 0:
        return draw(st.text(max_size=8))
    words = draw(st.lists(st.sampled_from(["CO2", "Dice", "App", "x", "XML", "a1", "B", "Model", "_", "-", "foo_bar", "é", "É", "12", " "]), max_size=5))
    return "".join(words) * draw(st.sampled_from([1, 1, 1, 3, 40]))


def check_name(case, ctx):
    from pandalone.utils import camel_to_cmd_name, camel_to_snake_case

    up = lambda c: "A" <= c <= "Z"  # noqa: E731
    low = lambda c: "a" <= c <= "z" or "0" <= c <= "9"  # noqa: E731
    exp = "".join("_" + c if up(c) and i and low(case[i - 1]) else c for i, c in enumerate(case)).lower()
    got = camel_to_snake_case(case)
    check_eq(got, exp, "snake-case of %r", case)
    check_eq(camel_to_snake_case(got), got, "snake-case again of %r", case)
    cmd = camel_to_cmd_name(case)
    check_eq(cmd, exp.replace("_", "-"), "command name of %r", case)
    check_eq(camel_to_cmd_name(cmd), cmd, "command name again of %r", case)
    check_eq(camel_to_cmd_name(got), cmd, "command name of snake-case of %r", case)
    ctx.nontrivial(got != case)


# --------------------------------------------------------------------------
@st.composite
def text_cases(draw):
    lines = draw(st.lists(st.sampled_from(["", " ", "\t", "abc", "  a b ", "x\r", "é", "..."]), max_size=6))
    lines = lines * draw(st.sampled_from([1, 1, 1, 60]))
    items = draw(st.sampled_from([1, 1, 1, 50])) * draw(st.lists(st.tuples(st.text("abc%é ", max_size=40) | st.integers(1, 130).map("k".__mul__), st.sampled_from([1, None, "x%s", (1, 2), "a\nb", 2.5])), max_size=4))
    return {"lines": lines, "items": items, "indent": draw(st.sampled_from([None, 1, 4, 16, 7]))}


def check_text(case, ctx):
    from pandalone.utils import first_line, format_pairs

    exp = ([l.strip() for l in case["lines"] if l.strip()] + [None])[0]
    check_eq(first_line("\n".join(case["lines"])), exp, "1st line of %s", case["lines"])

    items, indent = case["items"], case["indent"]
    got = format_pairs(iter(items)) if indent is None else format_pairs(items, indent)
    n = indent or 16
    exp = []
    for k, v in items:
        width = n
        while width < len(k):
            width += n
        exp.append(k + " " * (width - len(k)) + " = " + str(v))
    check_eq(got, "\n".join(exp), "formatted")
    ctx.nontrivial(len(case["lines"]) > 1 or len(items) > 1)


# --------------------------------------------------------------------------
@st.composite
def log_cases(draw):
    texts = st.one_of(
        st.sampled_from(["", "abc", "a\nb", "100%", "%s %d", "{}", " ", "\ta", "a\r\nb", "{'a': 1}", "é日", "x" * 300, "yz" * 40000, "\n".join("line" for _ in range(200))]),
        st.text("ab %\n", max_size=5).map(lambda s: s.rstrip("\n")),
    )
    writers = draw(st.lists(st.tuples(st.sampled_from(["p.a", "p.b", "p.a.c"]), st.sampled_from([10, 20, 30, 40, 5, 25])), min_size=1, max_size=3))
    ops = draw(st.lists(st.tuples(st.integers(0, len(writers) - 1), st.sampled_from(["write", "write", "print", "args", "flush"]),
                                  texts, st.sampled_from(["", "\n", "\r\n", "\n\r"])), min_size=1, max_size=8))
    ops = ops * draw(st.sampled_from([1, 1, 1, 40]))
    return {"writers": writers, "ops": ops, "level": draw(st.sampled_from([1, 1, 20, 30]))}


class Recorder(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        self.records.append((record.name, record.levelno, record.getMessage()))


def check_log(case, ctx):
    from pandalone.utils import LoggerWriter

    root = logging.getLogger("p")
    rec = Recorder()
    root.addHandler(rec)
    root.propagate = False
    root.setLevel(case["level"])
    was = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        writers = [LoggerWriter(logging.getLogger(n), lev) for n, lev in case["writers"]]
        exp = []
        for i, op, text, end in case["ops"]:
            name, lev = case["writers"][i]
            out = writers[i]
            if op == "flush":
                out.flush()
                continue
            texts = [text]
            if op == "write":
                out.write(text + end)
            elif op == "print":
                print(text, file=out, end=end)
            else:
                print(text, "", "more", sep=end or "\n", end="", file=out)
                texts += ["more"]
            for t in texts:
                if t and lev >= case["level"]:
                    exp.append((name, lev, t))
        check_eq(rec.records, exp, "records of %s", case["ops"])
    finally:
        root.removeHandler(rec)
        logging.disable(was)
    ctx.nontrivial(len(exp) > 1)


FACETS = [
    facet("booleans", bool_cases, check_bool, quick=3000),
    facet("lists", list_cases, check_list, quick=2000),
    facet("units", unit_cases, check_units, quick=5000),
    facet("names", name_cases, check_name, quick=3000),
    facet("texts", text_cases, check_text, quick=1500),
    facet("log", log_cases, check_log, quick=2000),
]
