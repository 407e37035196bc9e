"""C18: File-path, URL and file-name helpers are consistent and never clash."""
import os
import os.path as osp
import re
import shutil
import string
import tempfile
from contextlib import contextmanager

from hypothesis import strategies as st

from vlib import boot  # noqa: F401
from vlib.core import check_eq, facet, fail

ID = "C18"
RULE = """
paths: texts of steps (existing folders & files or not, dots, spaces, unicode, variables, ~, repeated slashes), absolute or
relative to various working folders, with & without trailing slashes; normalised, absolutised & expanded, and compared
with the standard library plus the slash-rule, with a model of the expansions, and by identity of the file denoted.
urls: the same texts and arbitrary ones, converted to URLs and back; remote URLs; Windows paths with drives.
extensions: file-names with lists of extensions (also as regexes) vs a model.
unique: series of unique file-names & creations in a scratch folder, with various generators.
dirs: folders ensured while existing, missing, obstructed, linked, or appearing concurrently (injected while creating them).
programs: executables & other files searched in generated folders.
Non-trivial: the text has dots, repeated or trailing slashes, or expansions (paths); characters needing quotes (urls);
some extension matches or the name has dots (extensions); a name was taken (unique); not a plain creation (dirs);
found something while others were skipped (programs).
"""
ASSUMPTIONS = [
    "POSIX only; backslashes are Windows separators, so file-names having them are not tried, but within shared folders",
    "path2url() accepts both paths and URLs, so texts special in URLs (%, ?, #, leading // or 'scheme:' or blanks) "
    "are only given to path2urlpath()",
    "no symbolic links among the steps of normalised paths (as with the standard library)",
]

STEPS = [".", "..", "a", "b", "dd", "a b", "é", "x.y", "~", "$V", "${W}", "$NO", "a$V", "$", "..a", "-", "A", "a&b=c;d", "100"]
SHARES = ["\\\\s\\h$\\p", "e$\\$V", "c$\\d$\\e"]  # of Windows, not to be expanded
ENV = {"V": "vv", "W": "a/b", "T": "~/x"}


@st.composite
def texts(draw, steps=STEPS):
    parts = draw(st.lists(st.sampled_from(steps), min_size=1, max_size=6))
    seps = [draw(st.sampled_from(["/"] * 6 + ["//", "///"])) for _ in parts]
    p = draw(st.sampled_from(["", "", "/", "/", "~/", "$V/", "$T/", "TMP/", "TMP/", "./", "//"]))
    for i, part in enumerate(parts):
        p += part + (seps[i] if i < len(parts) - 1 else "")
    return p + draw(st.sampled_from(["", "", "", "/", "/", "//"]))


@contextmanager
def folder(cwd=".", full=False):
    """A scratch folder with the working folder inside, all restored afterwards"""
    tmp = tempfile.mkdtemp(prefix="vC18-")
    old, env = os.getcwd(), dict(os.environ)
    try:
        home = osp.join(tmp, "ho me")
        os.makedirs(osp.join(tmp, cwd), exist_ok=True)
        if full:
            for d in ("ho me/a", "a/b/dd", "a b", "é", "~", "vv", "avv", "dd/a/b", "dd/a b", "dd/é", "dd/~"):
                os.makedirs(osp.join(tmp, d), exist_ok=True)
            for f in ("b", "x.y", "a/x.y", "a/b/x.y", "ho me/x.y"):
                open(osp.join(tmp, f), "w").close()
        os.environ.pop("NO", None)
        os.environ.update(ENV, HOME=home)
        os.chdir(osp.join(tmp, cwd))
        yield tmp
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(tmp)


# --------------------------------------------------------------------------
def slashed(text):
    return bool(re.search("[^/]/+$", text))


def with_slash(text, path):
    return path + "/" if slashed(text) and not path.endswith("/") else path


def model_expand_user(p):
    if p == "~" or p.startswith("~/"):
        return os.environ["HOME"] + p[1:]
    return p


def model_expand_vars(p):
    def value(m):
        return os.environ.get(m.group(1) or m.group(2), m.group())

    return re.sub(r"\$(?:(\w+)|\{(\w+)\})", value, p, flags=re.ASCII)


def model_norm(p):
    root = "//" if p.startswith("//") and not p.startswith("///") else "/" if p.startswith("/") else ""
    out = []
    for step in p.split("/"):
        if step in ("", "."):
            continue
        if step == "..":
            if out and out[-1] != "..":
                out.pop()
                continue
            if root:
                continue
        out.append(step)
    return with_slash(p, (root + "/".join(out)) or ".")


def model_abs(p):
    return with_slash(p, model_norm(p if p.startswith("/") else os.getcwd() + "/" + p))


@st.composite
def path_cases(draw):
    return {
        "path": draw(texts(STEPS + SHARES)),
        "cwd": draw(st.sampled_from([".", "a/b", "ho me", "w#%41?/é"])),
        "flags": draw(st.tuples(st.booleans(), st.booleans(), st.booleans())),
    }


def check_paths(case, ctx):
    from pandalone.utils import abspath, convpath, normpath

    with folder(case["cwd"], full=True) as tmp:
        p = case["path"].replace("TMP", tmp)
        abs_path, user, vars_ = case["flags"]
        check_eq(normpath(p), model_norm(p), "normalised %r", p)
        check_eq(abspath(p), model_abs(p), "absolute %r", p)
        exp = p
        if user:
            exp = model_expand_user(exp)
        if vars_:
            exp = model_expand_vars(exp)
        conv = convpath(p, abs_path=abs_path, exp_user=user, exp_vars=vars_)
        check_eq(conv, (model_abs if abs_path else model_norm)(exp), "converted %r with %s", p, case["flags"])
        check_eq(convpath(p), model_abs(model_expand_vars(model_expand_user(p))), "converted by default %r", p)
        for what, src, got in [("normalised", p, normpath(p)), ("absolute", p, abspath(p)), ("converted", exp, conv)]:
            check_eq(normpath(got), got, "%s twice, %r", what, src)
            if what != "normalised" and got.startswith("/"):
                check_eq(abspath(got), got, "%s twice, %r", what, src)
            if got.endswith("/") != (slashed(src) or got in ("/", "//")):
                fail("trailing slash of %r, %s into %r", src, what, got)
            if osp.exists(src):
                if not osp.samefile(src, got.rstrip("/") if osp.isfile(src) else got):
                    fail("%r is another file than %r, %s", got, src, what)
                ctx.label("existing")
        ctx.label(*["slashed"] * slashed(p) + ["expanded"] * (exp != p))
        ctx.nontrivial("//" in p or "/." in p or slashed(p) or exp != p)


# --------------------------------------------------------------------------
LETTERS = "aZ0 ~!@#$%^&*()[]{}:;'\"|,<>?+=-_.é日"
QUOTED = re.compile(r"[\w/.~@%+:;&=$!*'(),|-]*", re.ASCII)


@st.composite
def url_cases(draw):
    kind = draw(st.sampled_from(["text", "any", "any", "remote", "remote", "drive"]))
    if kind == "drive":
        steps = draw(st.lists(st.sampled_from(["a", "Foo", "b c", ".", "x/..", "", "é", "e.xls", "D"]), max_size=5))
        sep = draw(st.sampled_from(["/", "/", "\\", "\\"]))
        path = draw(st.sampled_from(string.ascii_letters)) + ":" + draw(st.sampled_from([sep, sep, ""]))
        path += sep.join(steps).replace("/", sep).lstrip(sep) + draw(st.sampled_from(["", "", sep]))
        path = draw(st.sampled_from(["", "", "", "\\\\?\\" if sep == "\\" and len(path) > 2 and path[2] == sep else ""])) + path
    elif kind == "text":
        path = draw(texts())
    elif kind == "any":
        parts = draw(st.lists(st.text(LETTERS, min_size=1, max_size=4), min_size=1, max_size=4))
        path = draw(st.sampled_from(["/", "/", ""])) + "/".join(parts) + draw(st.sampled_from(["", "/"]))
    else:
        path = draw(st.sampled_from(["http", "https", "ftp"])) + "://"
        path += draw(st.sampled_from(["host", "u:p@host:80", "[::1]:8080", "host.com"]))
        path += draw(st.sampled_from(["", "/", "/a", "/a/", "/a%20b/c.xls", "/~u/x%2Fy", "/a;b=1/$V", "/é"]))
        path += draw(st.sampled_from(["", "?x=1", "?x=a/../b&y=//", "#f", "?q#A1:..(D)"]))
    if kind != "remote" and draw(st.integers(0, 9)) == 0:
        path = path.rstrip("/") + draw(st.sampled_from(["", "/"])) + "long" * 26 + "/" + "er" * 55 + path[-1:]
    return {
        "kind": kind,
        "path": path,
        "cwd": draw(st.sampled_from([".", "a/b", "ho me", "w#%41?/é"])),
        "flags": draw(st.tuples(st.booleans(), st.booleans())),
    }


def check_urls(case, ctx):
    import urllib.parse as up
    from pandalone.utils import path2url, path2urlpath, urlpath2path

    with folder(case["cwd"]) as tmp:
        p = case["path"].replace("TMP", tmp)
        vars_, user = case["flags"]
        check_eq(path2url(""), "", "URL of nothing")
        if case["kind"] == "drive":
            # They are always absolute.
            drive, rest = p.replace("\\", "/").replace("//?/", "").split(":", 1)
            exp = "file://" + model_norm("/%s:/%s" % (drive, rest.lstrip("/")))
            check_eq(path2url(p), exp, "URL of %r, with a drive", p)
            check_eq(path2url(exp), exp, "existing URL")
            ctx.nontrivial(rest.count("/") > 1)
            ctx.label("drive")
            return
        if case["kind"] == "remote":
            exp = model_expand_vars(p) if vars_ else p
            check_eq(path2url(p, vars_, user), exp, "remote URL")
            if "$" not in p:
                check_eq(path2url(p), p, "remote URL")
            ctx.nontrivial("?" in p or "%" in p or exp != p)
            return

        # Paths of URLs
        u = path2urlpath(p)
        if not p.startswith("//"):
            check_eq(urlpath2path(u), p, "from URL-path %r and back", u)
            check_eq(up.unquote(u), p, "the URL-path %r", u)
        if not QUOTED.fullmatch(u):
            fail("URL-path %r has characters special to URLs", u)
        if slashed(p) and not (u.endswith("/") and urlpath2path(u).endswith("/")):
            fail("URL-path %r lost the last slash of %r", u, p)
        ctx.nontrivial("%" in u)
        if urlpath2path(u) == p:
            full = up.urlunsplit(("file", "", path2urlpath(model_abs(p)), "", ""))
            if not p.startswith("//"):
                check_eq(path2url(full), full, "existing URL")

        # Full URLs
        if re.search(r"[%?#\\]|^//|^[A-Za-z][\w+.-]*:|^\s", p) or (vars_ and re.search(r"^\$\w|^\$\{", p)):
            ctx.label("ambiguous")
            return
        exp = model_expand_vars(p) if vars_ else p
        exp = model_expand_user(exp) if user else exp
        if exp != p:
            ctx.label("expanded")
        if re.search(r"[%?#]", exp):
            return  # from TMP or HOME
        u = path2url(p, vars_, user)
        parts = up.urlsplit(u)
        if (parts.scheme, parts.netloc, parts.query, parts.fragment) != ("file", "", "", ""):
            fail("the URL of %r is %r", p, u)
        back = urlpath2path(parts.path)
        check_eq(back.rstrip("/"), model_abs(exp).rstrip("/"), "the path of URL %r, of %r", u, p)
        if slashed(p) and not back.endswith("/"):
            fail("the URL %r lost the last slash of %r", u, p)
        check_eq(path2url(u), u, "existing URL")
        check_eq(path2url(u, vars_, user) if "$" not in u else u, u, "existing URL, with expansions")
        ctx.label("full")


# --------------------------------------------------------------------------
EXTS = ["xls", ".xls", "XLSX", ".tar.gz", "gz", "tar.gz", ".b", "s", "x", ".x^", "c++", ".CSV"]
REGEXES = [r"\.xl\w{1,2}", r"\.XLS|\.gz", r"\.x", r"\.c\+*", r"\.\d+", r"\.tar", r"\.x(y|z)?"]
STEMS = ["foo", "foo.", "a.b", "foo.xls", "foo.XlS", "foo.xlsx", "foo.tar.gz", "xls", ".xls", "foo.gz", "x.tar",
         "foo.xls.bak", "foo.12", "a b.c++", "foo.x", "foo.x^", ".hid.xls", "foo.csv", "foo.xlt", "..xls", "..gz", "...XLSX", "..a.b", "foo..xls", "foo.gzz", "é.B"]


@st.composite
def ext_cases(draw):
    is_regex = draw(st.booleans())
    exts = draw(st.lists(st.sampled_from(REGEXES if is_regex else EXTS), max_size=3))
    fname = draw(st.sampled_from(STEMS))
    if draw(st.integers(0, 2)) == 0:
        fname = draw(st.text("axls.gzt1XLS", min_size=1, max_size=9))
        if not fname.strip("."):
            fname += "a"
    exts = [draw(st.sampled_from(EXTS))] + exts
    if draw(st.integers(0, 2)) == 0:
        ext = draw(st.sampled_from([e for e in exts if is_regex < ("\\" not in e)] or EXTS))
        fname = fname.rstrip(".") + draw(st.sampled_from(["", ".", "."])) + draw(st.sampled_from([ext, ext.upper(), ext.title()]))
        fname += draw(st.sampled_from(["", "", "", "", "\n", " "]))
    return {
        "fname": draw(st.sampled_from(["", "", "/x.xls/", "./d/", "../"])) + fname,
        "exts": exts,
        "regex": is_regex,
    }


def model_has_ext(fname, ext):
    base = fname.rsplit("/")[-1].lstrip(".").lower()
    ext = ext.lower() if ext.startswith(".") else "." + ext.lower()
    return len(base) > len(ext) and base[-len(ext) :] == ext


def model_matches(fname, rex):
    last = osp.splitext(fname)[1]
    return re.fullmatch(rex, last, re.I) is not None


def check_ext(case, ctx):
    from pandalone.utils import ensure_file_ext

    fname, exts = case["fname"], case["exts"]
    if case["regex"]:
        has = model_has_ext(fname, exts[0]) or any(model_matches(fname, e) for e in exts[1:])
        kw = {"is_regex": True}
    else:
        has = any(model_has_ext(fname, e) for e in exts)
        kw = {}
    if has:
        exp = fname
    else:
        exp = (fname[:-1] if fname.endswith(".") else fname) + "." + (exts[0][1:] if exts[0][0] == "." else exts[0])
    got = ensure_file_ext(fname, *exts, **kw)
    check_eq(got, exp, "ensured %s for %r", exts, fname)
    check_eq(ensure_file_ext(got, *exts, **kw), got, "ensured twice %s for %r", exts, fname)
    if not got.lower().endswith(exts[0].lower()) and not has:
        fail("extension missing from %r", got)
    ctx.label("has" if has else "added")
    ctx.nontrivial(has or "." in fname)


# --------------------------------------------------------------------------
FNAMES = ["foo", "foo.txt", "a.tar.gz", ".hid", "é 1.x", "foo1", "foo1.txt", "foo2.txt", "sub/foo.txt", "sub.d/foo", "x10.y"]


@st.composite
def unique_cases(draw):
    return {
        "taken": draw(st.lists(st.sampled_from(FNAMES + ["foo%s.txt" % i for i in range(1, 12)]), max_size=8)),
        "ops": draw(st.lists(st.tuples(st.sampled_from(FNAMES), st.sampled_from(["file", "file", "dir", "none"]),
                                       st.sampled_from([None, None, None, "letters", "first"])), min_size=1, max_size=8)),
        "abs": draw(st.booleans()),
        # how many of a name are taken
        "bulk": draw(st.sampled_from([0] * 7 + [30, 130])),
    }


def letters(fname):
    """Not starting with the name itself"""
    d, f = osp.split(fname)
    for c in string.ascii_lowercase:
        yield osp.join(d, c + "-" + f)


def first(fname):
    yield fname
    for i in range(99):
        yield "%s~%s~" % (fname, i)


def check_unique(case, ctx):
    from itertools import islice
    from pandalone.utils import generate_filenames, make_unique_filename

    with folder() as tmp:
        for d in ("sub", "sub.d"):
            os.mkdir(d)
        for f in case["taken"]:
            open(f, "a").close()
        for i in range(1, case["bulk"]):
            for f in ("foo.txt", "foo%i.txt" % i, "sub/foo.txt", "sub/foo%i.txt" % i, "a.tar%i.gz" % i):
                open(f, "a").close()
        for fname, how, gen in case["ops"]:
            if case["abs"]:
                fname = osp.join(tmp, fname)
            names = list(islice(generate_filenames(fname), 40 + case["bulk"]))
            check_eq(names[0], fname, "1st generated")
            if len(set(names)) < len(names):
                fail("generated duplicates: %s", names)
            before = {osp.join(d, f) for d, _, fs in os.walk(".") for f in fs}
            if gen:
                gen = {"letters": letters, "first": first}[gen]
                got = make_unique_filename(fname, gen)
                exp = next(f for f in gen(fname) if not osp.lexists(f))
                check_eq(got, exp, "unique of %r with the generator given", fname)
            else:
                got = make_unique_filename(fname)
                if not osp.lexists(fname):
                    check_eq(got, fname, "unique of a free name")
                else:
                    ctx.label("taken")
                    ctx.nontrivial()
                    check_eq(osp.dirname(got), osp.dirname(fname), "folder of %r, unique of %r", got, fname)
                    check_eq(osp.splitext(got)[1], osp.splitext(fname)[1], "extension of %r, unique of %r", got, fname)
                    if not osp.basename(got).startswith(osp.splitext(osp.basename(fname))[0]):
                        fail("%r is not named after %r", got, fname)
            if osp.lexists(got):
                fail("unique %r exists", got)
            after = {osp.join(d, f) for d, _, fs in os.walk(".") for f in fs}
            check_eq(after, before, "files existing")
            if how == "file":
                open(got, "x").close()
            elif how == "dir":
                os.mkdir(got)


# --------------------------------------------------------------------------
DIRS = ["pipe", "pipe/x", "new", "new/", "new/x/y", "new/../new2", "old", "old/", "old/sub", "old/sub/x", "file", "file/x", "link", "broken",
        "old/../old/n", "filelink", "./new", "é ñ/x/", "old/sub/"]


@st.composite
def dir_cases(draw):
    return {
        "dirs": draw(st.lists(st.sampled_from(DIRS), min_size=1, max_size=3)),
        "race": draw(st.sampled_from([None, None, "dir", "file"])),
        "mode": draw(st.sampled_from([None, 0o755, 0o700, 0o777])),
        "abs": draw(st.booleans()),
    }


def obstructed(path):
    steps = path.split("/")
    heads = ["/".join(steps[: i + 1]) for i in range(len(steps))]
    return any(osp.lexists(h) and not osp.isdir(h) for h in heads if h)


def check_dirs(case, ctx):
    from pandalone.utils import ensure_dir_exists

    with folder() as tmp:
        os.makedirs("old/sub")
        open("file", "w").close()
        os.symlink("old", "link")
        os.symlink("file", "filelink")
        os.symlink("nothere", "broken")
        os.mkfifo("pipe")
        real_mkdir = os.mkdir
        umask = os.umask(0o022)
        raced = []

        def mkdir(path, *args, **kw):
            if osp.abspath(path) == target and not raced:
                raced.append(path)
                if case["race"] == "dir":
                    real_mkdir(path)
                else:
                    open(path.rstrip("/"), "w").close()
            return real_mkdir(path, *args, **kw)

        try:
            for d in case["dirs"]:
                p = osp.join(tmp, d) if case["abs"] else d
                target = osp.abspath(p)
                raced[:] = []
                existed = osp.isdir(p)
                bad = not existed and obstructed(p.rstrip("/"))
                os.mkdir = mkdir if case["race"] else real_mkdir
                err = None
                try:
                    if case["mode"] is None:
                        ensure_dir_exists(p)
                    else:
                        ensure_dir_exists(p, case["mode"])
                except OSError as ex:
                    err = ex
                finally:
                    os.mkdir = real_mkdir
                if raced and case["race"] == "file":
                    bad = True
                if bad != (err is not None):
                    fail("ensuring folder %r (existing: %s, raced: %s) raised %r", p, existed, raced, err)
                if not bad and not osp.isdir(p):
                    fail("folder %r ensured but not there", p)
                if not existed and not bad and not raced:
                    mode = 0o755 if case["mode"] is None else case["mode"]
                    check_eq(oct(os.stat(p).st_mode & 0o777), oct(mode & ~0o022), "mode of folder %r", p)
                ctx.label("bad" if bad else "existed" if existed else "raced" if raced else "created")
                ctx.nontrivial(bad or raced or existed)
        finally:
            os.umask(umask)


# --------------------------------------------------------------------------
PROGS = ["prog", "prog.exe", "prog.bat", "prog.com", "progcom", "other", "prog2"]


@st.composite
def prog_cases(draw):
    files = [(d, f, draw(st.sampled_from(["x", "x", "-", "dir"])))
             for d in ("p1", "p2", "p 3") for f in draw(st.lists(st.sampled_from(PROGS), max_size=4, unique=True))]
    path = draw(st.lists(st.sampled_from(["p1", "p2", "p 3", '"p 3"', "", "none"]), min_size=1, max_size=5))
    return {"files": files, "path": path, "prog": draw(st.sampled_from(["prog", "prog", "prog", "prog.exe", "other", "p1/prog"])),
            "env": draw(st.booleans())}


def check_progs(case, ctx):
    from pandalone.utils import py_where, where, which

    if not any(case["path"]):
        return
    with folder() as tmp:
        real = {"": "", "none": osp.join(tmp, "none")}
        for d in ("p1", "p2", "p 3"):
            os.mkdir(d)
            real[d] = osp.join(tmp, d)
            real['"%s"' % d] = '"%s"' % real[d]
        for d, f, kind in case["files"]:
            f = osp.join(tmp, d, f)
            if kind == "dir":
                os.mkdir(f)
            else:
                open(f, "w").close()
                os.chmod(f, 0o755 if kind == "x" else 0o644)
        path = os.pathsep.join(real[p] for p in case["path"])
        good = {osp.join(tmp, d, f) for d, f, kind in case["files"] if kind == "x"}
        prog = case["prog"]
        exp = []
        for p in case["path"]:
            if p:
                for e in ("", ".bat", ".com", ".exe"):
                    f = osp.join(real[p].strip('"'), prog + e)
                    if osp.join(tmp, osp.relpath(f, tmp)) in good and osp.isfile(f):
                        exp.append(f)
        check_eq(py_where(prog, path), exp, "programs %r in %r", prog, path)
        if case["env"]:
            os.environ["PATH"] = path
            check_eq(py_where(prog), exp, "programs %r in PATH=%r", prog, path)
            if os.name == "posix":
                check_eq(where(prog), exp, "programs %r in PATH=%r", prog, path)
                check_eq(which(prog), exp[0] if exp else None, "the program %r in PATH=%r", prog, path)
        ctx.label("found" if exp else "none")
        ctx.nontrivial(exp and len(case["files"]) > len(exp))


FACETS = [
    facet("paths", path_cases, check_paths, quick=4000),
    facet("urls", url_cases, check_urls, quick=5000),
    facet("extensions", ext_cases, check_ext, quick=5000),
    facet("unique", unique_cases, check_unique, quick=2000),
    facet("dirs", dir_cases, check_dirs, quick=2000),
    facet("programs", prog_cases, check_progs, quick=1000),
]
