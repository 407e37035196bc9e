"""C01: xl-ref texts parse to exactly what is written, or are rejected cleanly."""
import json
import re

from hypothesis import strategies as st

from pandalone import xleash
from pandalone.xleash import _parse
from vlib.core import facet, fail, check_eq

ID = "C01"
RULE = """
valid: an xl-ref text is composed from generated parts (url, sheet, up to 2
edges in A1/RC notation with special/negative coords, 12 moves, modifiers,
expansions, json filters in all 3 call-spec shapes with opts, random letter
case, encasing) and the parse must return those parts.
big, bigmoves: the same with long names, urls, filters (many/deep/long
arguments) and expansions. mutated: the same texts with 1-2 random edits, accept/reject and fields against
a hand-written recursive-descent parser. callspec/expmoves: generated json
structures / move strings against models. Non-trivial: has at least one edge
with moves or a filter (valid); text rejected or still parsed after an edit
(mutated); malformed or has args/kwds (callspec); has >=2 tokens (expmoves).
"""
ASSUMPTIONS = [
    "ASCII-only coordinates; sheet names without '!', '#' and control chars; "
    "'!' in filters only "
    "where it cannot be read as a sheet separator",
]

MOVES = "L U R D LD LU UL UR RU RD DL DR".split()


# ---------------------------------------------------------------- generators
def col_letters():
    return st.text("ABCDEFGHIJKLMNOPQRSTUVWXYZ", min_size=1, max_size=3)


def pos_int():
    return st.one_of(st.integers(1, 30), st.integers(1, 1048576)).map(str)


def a1_cell(dots):
    sp = "_^." if dots else "_^"
    # An A1 text like ``R1C1`` cannot be built: rows have no letters.
    return st.tuples(
        st.just("A1"),
        st.one_of(pos_int(), st.sampled_from(list(sp))),
        st.one_of(col_letters(), st.sampled_from(list(sp))),
    )


def rc_cell(dots):
    one = st.one_of(pos_int(), pos_int().map("-".__add__), st.sampled_from(list("_^.")))
    return st.tuples(st.just("RC"), one, one)


def edge(dots):
    """``(notation, row, col, mov, mod)``"""
    mov = st.one_of(
        st.tuples(st.none(), st.none()),
        st.tuples(st.sampled_from(MOVES), st.sampled_from([None, "+", "?", "-"])),
    )
    return st.tuples(st.one_of(a1_cell(dots), rc_cell(dots)), mov).map(
        lambda t: t[0] + t[1]
    )


def exp_tokens():
    """list of (letters, times): only single letters can be repeated."""
    tok = st.one_of(
        st.tuples(st.text("LURD", min_size=1, max_size=4), st.none()),
        st.tuples(st.sampled_from("LURD"), st.integers(1, 99).map(str)),
        st.tuples(st.sampled_from("LURD"), st.just("?")),
    )
    return st.lists(tok, min_size=1, max_size=4)


def exp_text(tokens):
    return "".join(l + (t or "") for l, t in tokens)


SHEET_ALPHA = "abcXYZ 019_-.()$é£Ω{}+,;"


def sheet_names():
    return st.one_of(
        st.sampled_from(["Sheet1", "0", "12", "A1", "some sheet", "R1C1"]),
        st.text(SHEET_ALPHA, min_size=1, max_size=8).filter(lambda s: s.strip() == s),
    )


def urls():
    return st.one_of(
        st.none(),
        st.sampled_from(
            ["wb.xlsx", "path/to/wb.xls", "file:///a/b/c.xlsx", "/abs/wb.xlsm", "../x.xls"]
        ),
        st.text("abcXYZ019_-./", min_size=1, max_size=10)
        .filter(lambda s: s[0].isalnum())
        .map(lambda s: s + ".xlsx"),
    )


WORDS = ["a", "pipe", "dict", "x != 2", "#A1", "a:b", "(U)", "1", "", "é", "{}", "[", "''", "\u201e\u201f"]


def jsons():
    return st.recursive(
        st.one_of(
            st.none(),
            st.booleans(),
            st.integers(-5, 100),
            st.sampled_from([0.5, -2.25]),
            st.sampled_from(WORDS),
        ),
        lambda c: st.one_of(
            st.lists(c, max_size=3),
            st.dictionaries(st.sampled_from(["k", "w", "lax", "func2"]), c, max_size=2),
        ),
        max_leaves=5,
    )


FUNCS = ["pipe", "dict", "func", "redim", "f g", "é"]


def call_specs():
    """``(json-value, expected-CallSpec-tuple-or-None, opts-or-None)``"""
    args = st.lists(jsons(), max_size=3)
    kwds = st.dictionaries(st.sampled_from(["k", "w", "lax"]), jsons(), max_size=2)
    func = st.sampled_from(FUNCS)
    opts = st.dictionaries(st.sampled_from(["lax", "verbose", "z"]), jsons(), max_size=2)
    MISSING = object()

    def mk_list(f, a, k, order):
        v = {
            0: [f],
            1: [f, a],
            2: [f, k],
            3: [f, a, k],
            4: [f, k, a],
            5: [f, None, k],
            6: [f, a, None],
            7: [f, None, None],
            8: [f, k, None],
            9: [f, None, a],
        }[order]
        return (
            v,
            (f, a if a in v[1:] and order in (1, 3, 4, 6, 9) else [],
             k if order in (2, 3, 4, 5, 8) else {}),
            None,
        )

    def mk_dict(f, a, k, o, which):
        v = {"func": f}
        if which & 1:
            v["args"] = a
        if which & 2:
            v["kwds"] = k
        if which & 4:
            v["opts"] = o
        if which & 8:
            v = dict(reversed(list(v.items())))
        return v, (f, a if which & 1 else [], k if which & 2 else {}), (
            o if which & 4 else None
        )

    return st.one_of(
        func.map(lambda f: (f, (f, [], {}), None)),
        st.builds(mk_list, func, args, kwds, st.integers(0, 9)),
        st.builds(mk_dict, func, args, kwds, opts, st.integers(0, 15)),
        opts.map(lambda o: ({"opts": o}, None, o)),
    )


def parts():
    return st.fixed_dictionaries(
        dict(
            url=urls(),
            sheet=st.one_of(st.none(), st.just(""), sheet_names()),
            st=st.one_of(st.none(), edge(False)),
            colon=st.booleans(),
            nd=st.one_of(st.none(), edge(True)),
            exp=st.one_of(st.none(), exp_tokens()),
            filt=st.one_of(st.none(), call_specs()),
            fsep=st.sampled_from(["", " ", "\t", "  ", "\n"]),
            curly=st.booleans(),
            lower=st.integers(0, 15),
            indent=st.sampled_from([None, None, None, 1, 0]),
            lead=st.sampled_from(["", "", " "]),
        )
    )


def big_parts():
    """As :func:`parts()`, but with long names, urls, filters and expansions."""
    rich = "abcXYZ 019_-.()$é£Ω{}+,;#'\"[]:/%&*?<>=@~^|"
    deep = st.builds(
        lambda n, kinds, leaf: nest(leaf, [kinds[i % len(kinds)] for i in range(n)]),
        st.integers(0, 40),
        st.lists(st.booleans(), min_size=1, max_size=4),
        st.sampled_from([1, None, "x", "#A1:B2", -0.5]),
    )
    leaf = st.one_of(
        deep,
        st.tuples(st.sampled_from("aé [{:#,"), st.integers(1, 3000)).map(
            lambda t: t[0] * t[1]
        ),
        st.integers(-(10 ** 30), 10 ** 30),
        jsons(),
    )
    args = st.tuples(st.lists(leaf, max_size=4), st.integers(0, 40)).map(
        lambda t: t[0] * t[1]
    )
    kwds = st.tuples(st.integers(0, 60), leaf).map(
        lambda t: {"k%i" % i: t[1] for i in range(t[0])}
    )
    spec = st.tuples(
        st.sampled_from(FUNCS + ["f" * 300]), args, kwds, kwds, st.integers(0, 3)
    ).map(
        lambda t: [
            ([t[0], t[1], t[2]], (t[0], t[1], t[2]), None),
            ([t[0], t[2], t[1]], (t[0], t[1], t[2]), None),
            (
                {"opts": t[3], "func": t[0], "kwds": t[2], "args": t[1]},
                (t[0], t[1], t[2]),
                t[3],
            ),
            ({"opts": t[3]}, None, t[3]),
        ][t[4]]
    )
    return st.builds(
        lambda p, **kw: dict(p, **kw),
        parts(),
        sheet=st.one_of(
            st.none(),
            st.text(rich, min_size=1, max_size=60).filter(lambda s: s.strip() == s),
        ),
        url=st.one_of(
            st.none(),
            st.lists(st.sampled_from(["a", "b c", "..", "x.y"]), max_size=30).map(
                lambda l: "/".join(["d"] + l + ["wb.xlsx"])
            ),
        ),
        exp=st.one_of(st.none(), big_exp_tokens()),
        filt=st.one_of(st.none(), spec, spec),
        curly=st.just(False),
    )


def nest(v, kinds):
    for k in kinds:
        v = [v] if k else {"k": v}
    return v


def big_exp_tokens():
    tok = st.one_of(
        st.tuples(st.text("LURD", min_size=1, max_size=40), st.none()),
        st.tuples(
            st.sampled_from("LURD"),
            st.one_of(
                st.integers(1, 300), st.sampled_from([999, 1000, 5000, 16384, 20000])
            ).map(str),
        ),
        st.tuples(st.sampled_from("LURD"), st.just("?")),
    )
    return st.lists(tok, min_size=1, max_size=24)


def edge_text(e):
    note, row, col, mov, mod = e
    s = "%s%s" % (col, row) if note == "A1" else "R%sC%s" % (row, col)
    if mov:
        s += "(%s%s)" % (mov, mod or "")
    return s


def compose(p):
    """-> (text, expected-fields)"""
    s = ""
    exp = {}
    if p["sheet"] is not None:
        s += p["sheet"] + "!"
    exp["sh_name"] = p["sheet"] or None
    lower = p["lower"]
    if p["st"]:
        t = edge_text(p["st"])
        s += t.lower() if lower & 1 else t
    colon = p["colon"] or p["nd"] or p["exp"]
    if colon:
        s += ":"
        if p["nd"]:
            t = edge_text(p["nd"])
            s += t.lower() if lower & 2 else t
        if p["exp"]:
            t = exp_text(p["exp"])
            s += ":" + (t.lower() if lower & 4 else t)
    cs = opts = None
    if p["filt"]:
        js, cs, opts = p["filt"]
        t = json.dumps(js, ensure_ascii=bool(lower & 8), indent=p.get("indent"))
        if p["curly"] and '\\"' not in t:
            # Excel's typographic quotes.
            t = re.sub('"(.*?)"', "\u201c\\1\u201d", t)
        s += ":" + p["fsep"] + t

    def exp_edge(e):
        if e:
            note, row, col, mov, mod = e
            return ((row, col.upper()), mov, mod)

    st_e, nd_e = exp_edge(p["st"]), exp_edge(p["nd"])
    TL, BR = (("^", "^"), None, None), (("_", "_"), None, None)
    if colon:
        st_e, nd_e = st_e or TL, nd_e or BR
    elif not st_e:
        st_e, nd_e = TL, BR
    exp.update(
        st_edge=st_e,
        nd_edge=nd_e,
        exp_moves=exp_text(p["exp"]) if p["exp"] else None,
        call_spec=cs,
        opts=opts,
        url_file=p["url"],
    )
    frag = s
    if p["lead"] and frag:
        frag = p["lead"] + frag
    text = (p["url"] or "") + "#" + frag
    return text, frag, exp


def norm_edge(e):
    if not e:
        return None
    return ((e.land.row, e.land.col), e.mov, e.mod)


def norm(res):
    return dict(
        sh_name=res["sh_name"],
        st_edge=norm_edge(res["st_edge"]),
        nd_edge=norm_edge(res["nd_edge"]),
        exp_moves=res["exp_moves"] and res["exp_moves"].upper(),
        call_spec=tuple(res["call_spec"]) if res["call_spec"] else None,
        opts=res["opts"],
        url_file=res["url_file"],
    )


def strict_eq(a, b):
    """Equality that does not take `1` for `True`."""
    return a == b and json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def parse(text):
    """fields | 'SyntaxError' | 'ValueError'; anything else escapes."""
    try:
        return norm(xleash.parse_xlref(text))
    except SyntaxError:
        return "SyntaxError"
    except ValueError:
        return "ValueError"


def check_valid(p, ctx):
    text, frag, exp = compose(p)
    if not frag.strip():
        return
    ctx.nontrivial(
        bool(p["filt"]) or any(e and e[3] for e in (p["st"], p["nd"])) or bool(p["exp"])
    )
    ctx.label("st" if p["st"] else "no-st", "nd" if p["nd"] else "no-nd")
    if p["filt"]:
        ctx.label("filter")
    got = parse(text)
    if isinstance(got, str):
        fail("valid xl-ref %r rejected with %s", text, got)
    for k in exp:
        if not strict_eq(got[k], exp[k]):
            fail("xl-ref %r: parsed %s=%r, expected %r", text, k, got[k], exp[k])
    res = xleash.parse_xlref(text)
    # The original text is kept (modulo the quotes translated for Excel).
    plain = text.replace("\u201c", '"').replace("\u201d", '"')
    check_eq(res["xl_ref"], plain, "xl_ref field of %r", text)

    # Parsing is pure: spoiling one result does not affect another parse.
    for f in (res["call_spec"] or ())[1:]:
        if isinstance(f, list):
            f.append("spoiled")
        else:
            f["spoiled"] = 1
    if not strict_eq(parse(text), got):
        fail("re-parsing %r gives something else", text)

    # Encased in any of the delimiters, it is the same xl-ref.
    if not p["lead"]:
        for q in '/\\"$%&':
            for enc in (q + text + q, " " + q + text + q + " "):
                g2 = parse(enc)
                if isinstance(g2, str):
                    fail("encased xl-ref %r rejected with %s", enc, g2)
                raw = xleash.parse_xlref(enc)
                check_eq(raw["xl_ref"], enc, "xl_ref field of the encased %r", enc)
                check_eq(set(raw), set(res), "fields of the encased %r", enc)
                for k in exp:
                    if not strict_eq(g2[k], exp[k]):
                        fail("encased %r: %s=%r, expected %r", enc, k, g2[k], exp[k])

    # Canonical texts print back as written.
    for e, printed in ((p["st"], res["st_edge"]), (p["nd"], res["nd_edge"])):
        if e and (e[0] == "A1" or all(c.lstrip("-").isdigit() for c in e[1:3])):
            check_eq(str(printed), edge_text(e), "str(edge) in %r", text)


# ------------------------------------------------ reference parser (mutated)
class Rej(Exception):
    pass


class RefParser(object):
    """Recursive descent over the documented fragment grammar."""

    def __init__(self, s):
        self.s = s

    def cell(self, i, dots):
        """yields (next-i, row, col), A1 first"""
        s = self.s
        sp = "_^." if dots else "_^"
        out = []
        # A1: all letters (or one special), then number (or special)
        j = i
        while j < len(s) and s[j].isascii() and s[j].isalpha():
            j += 1
        cands = []
        if j > i:
            cands.append(j)
        elif i < len(s) and s[i] in sp:
            cands.append(i + 1)
        for j in cands:
            k = self.num(j, sp, False)
            if k:
                out.append((k, s[j:k], s[i:j]))
        # RC
        if s[i : i + 1] in ("R", "r"):
            k = self.num(i + 1, "_^.", True)
            if k and s[k : k + 1] in ("C", "c"):
                m = self.num(k + 1, "_^.", True)
                if m:
                    out.append((m, s[i + 1 : k], s[k + 1 : m]))
        return out

    def num(self, i, sp, neg):
        s = self.s
        if s[i : i + 1] and s[i] in sp:
            return i + 1
        if neg and s[i : i + 1] == "-":
            i += 1
        if s[i : i + 1] and s[i] in "123456789":
            while i < len(s) and s[i] in "0123456789":
                i += 1
            return i

    def edge(self, i, dots):
        s = self.s
        for k, row, col in self.cell(i, dots):
            row, col = row.upper(), col.upper()
            if s[k : k + 1] == "(":
                e = s.find(")", k)
                if e > 0:
                    body = s[k + 1 : e].upper()
                    mod = None
                    if body[-1:] in ("+", "?", "-") and body:
                        body, mod = body[:-1], body[-1]
                    if body in MOVES:
                        yield e + 1, ((row, col), body, mod)
            yield k, ((row, col), None, None)

    def filt(self, i):
        """returns filter-text or None when at end; raises Rej otherwise"""
        s = self.s
        if i == len(s):
            return None
        if s[i] == ":":
            j = i + 1
            while j < len(s) and s[j].isspace():
                j += 1
            if j < len(s) and s[j] in '{"[':
                return s[j:]
        raise Rej()

    def exps(self, i):
        s = self.s
        if s[i : i + 1] == ":":
            j = i + 1
            while j < len(s) and s[j].upper() in "LURD?0123456789":
                j += 1
            if j > i + 1 and s[i + 1] != "0":
                yield j, s[i + 1 : j]
        yield i, None

    def body(self, i):
        s = self.s
        for j, st_e in list(self.edge(i, False)) + [(i, None)]:
            if s[j : j + 1] == ":":
                for k, nd in list(self.edge(j + 1, True)) + [(j + 1, None)]:
                    for m, exp in self.exps(k):
                        try:
                            return st_e, True, nd, exp, self.filt(m)
                        except Rej:
                            pass
            try:
                return st_e, False, None, None, self.filt(j)
            except Rej:
                pass
        raise Rej()

    def fragment(self):
        s = self.s
        bang = s.find("!")
        starts = []
        if bang >= 0:
            starts.append((s[:bang], bang + 1))
        starts.append((None, 0))
        for sheet, i in starts:
            # Leading white-space is insignificant.
            if sheet is not None:
                sheet = sheet.lstrip() or None
            else:
                while i < len(s) and s[i].isspace():
                    i += 1
            try:
                return (sheet,) + self.body(i)
            except Rej:
                pass
        raise Rej()


def ref_parse(text):
    """'SyntaxError' | 'ValueError' | fields"""
    if "#" not in text:
        return "SyntaxError"
    url, frag = text.split("#", 1)
    if not frag:
        return "SyntaxError"
    try:
        sheet, st_e, colon, nd_e, exp, filt = RefParser(frag).fragment()
    except Rej:
        return "SyntaxError"
    TL, BR = (("^", "^"), None, None), (("_", "_"), None, None)
    if colon:
        st_e, nd_e = st_e or TL, nd_e or BR
    elif not st_e:
        st_e, nd_e = TL, BR
    cs = opts = None
    if filt:
        try:
            js = json.loads(filt)
        except ValueError:
            return "ValueError"
        if isinstance(js, dict) and js.get("opts") is not None:
            opts = js.pop("opts")
            if not isinstance(opts, dict):
                return "ValueError"
        elif isinstance(js, dict):
            js.pop("opts", None)
        if js:
            cs = ref_call_spec(js)
            if cs == "ValueError":
                return cs
    return dict(
        sh_name=sheet,
        st_edge=st_e,
        nd_edge=nd_e,
        exp_moves=exp and exp.upper(),
        call_spec=cs,
        opts=opts,
        url_file=url or None,
    )


def ref_call_spec(js):
    if isinstance(js, str):
        f, a, k = js, [], {}
    elif isinstance(js, list):
        if not 1 <= len(js) <= 3:
            return "ValueError"
        f, rest = js[0], js[1:]
        ls = [x for x in rest if isinstance(x, list)]
        ds = [x for x in rest if isinstance(x, dict)]
        ns = [x for x in rest if x is None]
        if len(ls) > 1 or len(ds) > 1 or len(ls) + len(ds) + len(ns) != len(rest):
            return "ValueError"
        a, k = (ls or [[]])[0], (ds or [{}])[0]
    elif isinstance(js, dict):
        if "func" not in js or set(js) - {"func", "args", "kwds"}:
            return "ValueError"
        f, a, k = js["func"], js.get("args"), js.get("kwds")
        a = [] if a is None else a
        k = {} if k is None else k
    else:
        return "ValueError"
    if not (isinstance(f, str) and isinstance(a, list) and isinstance(k, dict)):
        return "ValueError"
    return (f, a, k)


MUT_ALPHA = "AR1C0_^.(LD+-?):!{}[]\" #x9\u201c\\"


def mutated():
    op = st.tuples(
        st.sampled_from(["ins", "del", "sub", "dup", "swap"]),
        st.integers(0, 60),
        st.sampled_from(MUT_ALPHA),
    )
    return st.tuples(
        parts().map(lambda p: compose(p)[0]), st.lists(op, min_size=1, max_size=2)
    )


def mutate(text, ops):
    for op, i, c in ops:
        if not text:
            break
        i %= len(text)
        if op == "ins":
            text = text[:i] + c + text[i:]
        elif op == "del":
            text = text[:i] + text[i + 1 :]
        elif op == "sub":
            text = text[:i] + c + text[i + 1 :]
        elif op == "dup":
            text = text[: i + 1] + text[i:]
        else:
            text = text[:i] + text[i : i + 2][::-1] + text[i + 2 :]
    return text


def check_mutated(case, ctx):
    text = mutate(*case)
    plain = text.replace("\u201c", '"').replace("\u201d", '"')
    if "\t" in plain:
        plain = plain.replace("\t", "")  # URLs cannot have them
    exp = ref_parse(plain)
    got = parse(text)  # No other exception may escape
    url = plain.split("#")[0]
    frag = plain.partition("#")[2]
    if isinstance(exp, str):
        # an encased one ?
        m = re.match(r'^\s*([/\\"$%&])(.+)\1\s*$', plain)
        if m:
            exp = ref_parse(m.group(2))
    if not re.fullmatch(r"(file:///)?[A-Za-z0-9_.-][A-Za-z0-9_./-]*|/[A-Za-z0-9_.-][A-Za-z0-9_./-]*|", url) or frag.endswith("\n"):
        ctx.label("odd-url")
        return  # The splitting of URLs is python's own business.
    if "\n" in frag:
        return
    if any(c in exp_part(got) + exp_part(exp) for c in ("L0", "U0", "R0", "D0", "?0")):
        ctx.label("zero-times-expansion")
        return
    ctx.label(got if isinstance(got, str) else "parsed")
    ctx.nontrivial()
    if isinstance(got, str) or isinstance(exp, str):
        if got != exp:
            fail("xl-ref %r: got %r, but the grammar says %r", text, got, exp)
        return
    for k in exp:
        if not strict_eq(got[k], exp[k]):
            fail("xl-ref %r: parsed %s=%r, expected %r", text, k, got[k], exp[k])


def exp_part(r):
    return "?" + (r["exp_moves"] or "") if isinstance(r, dict) else ""


# --------------------------------------------------------------- call-specs
def any_json():
    good = call_specs().map(lambda t: t[0]).filter(
        lambda v: not (isinstance(v, dict) and "opts" in v)
    )
    item = st.one_of(
        jsons(), st.just([]), st.just({}), st.none(), st.lists(jsons(), max_size=2)
    )
    bad_list = st.tuples(
        st.one_of(st.sampled_from(FUNCS), jsons()), st.lists(item, max_size=3)
    ).map(lambda t: [t[0]] + t[1])
    bad_dict = st.dictionaries(
        st.sampled_from(["func", "args", "kwds", "argz"]), item, max_size=4
    )
    return st.one_of(
        good,
        bad_list,
        bad_list,
        bad_dict,
        st.tuples(st.sampled_from(FUNCS), bad_dict).map(lambda t: dict(t[1], func=t[0])),
        jsons().filter(lambda j: j is not None),
    )


def filter_texts():
    """Any json as the filters of an xl-ref"""
    opts = st.one_of(
        st.just({}), st.just([]), st.just(""), st.just(0), st.just(False), jsons(), st.lists(jsons(), max_size=2)
    )
    item = st.one_of(jsons(), st.just([]), st.just({}), st.none())
    js = st.one_of(
        any_json(),
        call_specs().map(lambda t: t[0]),
        st.tuples(st.dictionaries(st.sampled_from(["func", "args", "kwds", "opt"]), item, max_size=2), opts).map(
            lambda t: dict(t[0], opts=t[1])
        ),
        st.tuples(call_specs(), opts).map(lambda t: dict(t[0][0] if isinstance(t[0][0], dict) else {}, opts=t[1])),
    )
    head = st.sampled_from(["#:", "#A1:", "#!:", "#S!A1:..(D):", "wb.xlsx#A1::", "#R1C1:B2:LU:", "#::"])
    return st.tuples(head, js.filter(lambda j: isinstance(j, (str, list, dict))), st.booleans())


def check_filters(case, ctx):
    head, js, ascii_ = case
    text = head + json.dumps(js, ensure_ascii=ascii_)
    exp, got = ref_parse(text), parse(text)
    ctx.label(got if isinstance(got, str) else "parsed")
    ctx.nontrivial()
    if isinstance(got, str) or isinstance(exp, str):
        if got != exp:
            fail("xl-ref %r: got %r, but the grammar says %r", text, got, exp)
        return
    for k in exp:
        if not strict_eq(got[k], exp[k]):
            fail("xl-ref %r: parsed %s=%r, expected %r", text, k, got[k], exp[k])


def check_callspec(js, ctx):
    exp = ref_call_spec(js)
    before = json.dumps(js, sort_keys=True)
    try:
        got = tuple(_parse.parse_call_spec(js))
    except ValueError:
        got = "ValueError"
    ctx.label("bad" if exp == "ValueError" else "good")
    ctx.nontrivial(exp == "ValueError" or bool(exp[1] or exp[2]))
    if not strict_eq(got, exp):
        fail("call-spec %r: got %r, expected %r", js, got, exp)
    check_eq(json.dumps(js, sort_keys=True), before, "the call-spec itself got modified")


# ----------------------------------------------------------------- expansions
def check_expmoves(case, ctx):
    tokens, low = case
    # Adjacent unrepeated tokens are one.
    exp = []
    for letters, times in tokens:
        n = None if times is None else 1 if times == "?" else int(times)
        if n is None and exp and exp[-1][1] is None:
            exp[-1] = (exp[-1][0] + letters, None)
        else:
            exp.append((letters, n))
    # A '?'/number right after a run of letters applies on its last one only.
    text = exp_text(tokens)
    text = text.lower() if low else text
    ctx.nontrivial(len(exp) > 1)
    its = _parse.parse_expansion_moves(text)
    check_eq(len(its), len(exp), "number of parts of %r", text)
    for it, (letters, n) in zip(its, exp):
        got = []
        for x in it:
            got.append(x)
            if len(got) > max(120, n or 0):
                break
        if n is None:
            check_eq(set(got), {letters}, "infinite part of %r", text)
            if len(got) != 121:
                fail("part of %r not infinite: %r", text, got)
        else:
            check_eq(got, [letters] * n, "part of %r", text)


FACETS = [
    facet("valid", parts, check_valid, quick=6000, thorough=200000),
    facet("big", big_parts, check_valid, quick=1200, thorough=30000),
    facet(
        "bigmoves",
        lambda: st.tuples(big_exp_tokens(), st.booleans()),
        check_expmoves,
        quick=400,
        thorough=6000,
    ),
    facet("mutated", mutated, check_mutated, quick=8000, thorough=300000),
    facet("filters", filter_texts, check_filters, quick=3000, thorough=60000),
    facet("callspec", any_json, check_callspec, quick=3000, thorough=60000),
    facet(
        "expmoves",
        lambda: st.tuples(exp_tokens(), st.booleans()),
        check_expmoves,
        quick=1500,
        thorough=30000,
    ),
]
